//! RLWE encryption, linear operations, polynomial products.
use pan as panacea;
use super::vh::*;
use concrete_core::commons::math::polynomial::Polynomial;
use panacea::rlwe::*;

fn fresh(sk: &RLWESecretKey, name: &str, bits: u32, p: &P, ctx: &mut panacea::context::Context) -> (RLWECiphertext, Vec<u64>) {
    let m = sym_pt(name, p.n, bits);
    let mut ct = RLWECiphertext::allocate(ctx.poly_size);
    sk.encode_encrypt_rlwe(&mut ct, &m, ctx);
    let logt = p.t.trailing_zeros() as usize;
    let v: Vec<u64> = coeffs(&m).iter().map(|x| x << (64 - logt)).collect();
    (ct, v)
}
fn roundtrip(p: P, noise: u64) {
    cfg(NOISE, noise);
    let mut ctx = p.ctx();
    let sk = ctx.gen_rlwe_sk();
    let m = sym_pt("m", p.n, p.t.trailing_zeros());
    let mut ct = RLWECiphertext::allocate(ctx.poly_size);
    sk.encode_encrypt_rlwe(&mut ct, &m, &mut ctx);
    phase_near(&sk, &ct, &coeffs(&m).iter().map(|x| x << (64 - p.t.trailing_zeros())).collect::<Vec<_>>(), (1 << noise) - 1, "fresh ciphertext carries only the sampled noise");
    decodes_to(&sk, &ct, &ctx, &coeffs(&m), "decrypt(encrypt(m)) == m");
    reach("end");
}
fn linear(p: P) {
    cfg(NOISE, 40);
    let mut ctx = p.ctx();
    let sk = ctx.gen_rlwe_sk();
    let (x, mx) = fresh(&sk, "x", p.t.trailing_zeros(), &p, &mut ctx);
    let (y, my) = fresh(&sk, "y", p.t.trailing_zeros(), &p, &mut ctx);
    let bound = 2 * ((1u64 << 40) - 1);
    let mut r = x.clone();
    match choose(9) {
        0 => {
            r.update_with_add(&y);
            phase_near(&sk, &r, &addv(&mx, &my), bound, "sum of ciphertexts encrypts the sum");
        }
        1 => {
            r.update_with_sub(&y);
            phase_near(&sk, &r, &subv(&mx, &my), bound, "difference of ciphertexts encrypts the difference");
        }
        2 => {
            let k = choose(2 * p.n);
            r.update_with_monomial_div(MonomialDegree(k));
            // division by X^k in the negacyclic ring, X^n = -1
            let mut w = vec![0u64; p.n];
            for i in 0..p.n {
                let e = (i + 2 * p.n - k) % (2 * p.n);
                if e < p.n {
                    w[e] = mx[i];
                } else {
                    w[e - p.n] = mx[i].wrapping_neg();
                }
            }
            phase_near(&sk, &r, &w, bound, "division by a monomial rotates the message");
        }
        3 => {
            let nx = x.not();
            let w = subv(&cst(p.n, 1 << 63), &mx);
            phase_near(&sk, &nx, &w, bound, "not() encrypts q/2 - m");
            phase_near(&sk, &x, &mx, bound, "not() leaves its operand alone");
        }
        4 => {
            r.not_in_place();
            let w = subv(&cst(p.n, 1 << 63), &mx);
            phase_near(&sk, &r, &w, bound, "not_in_place() encrypts q/2 - m");
        }
        5 => {
            r.clear();
            phase_near(&sk, &r, &vec![0; p.n], 0, "clear() leaves the zero ciphertext");
        }
        6 => {
            r.fill_with_copy(&y);
            phase_near(&sk, &r, &my, bound, "fill_with_copy() copies the whole ciphertext");
        }
        7 => {
            // trivial additions and subtractions on the body
            let d = sym_pt("d", p.n, 64);
            let v = coeffs(&d);
            r.update_body_with_add(&Polynomial::from_container(v.clone()));
            phase_near(&sk, &r, &addv(&mx, &v), bound, "adding a plaintext polynomial to the body");
            let mut r2 = x.clone();
            r2.update_body_with_sub(&Polynomial::from_container(v.as_slice()));
            phase_near(&sk, &r2, &subv(&mx, &v), bound, "subtracting a plaintext polynomial from the body");
        }
        _ => {
            // mask updates: b - (a +- d) s = phase -+ d s
            let d = sym_pt("d", p.n, 8);
            let v = coeffs(&d);
            let mut z = RLWECiphertext::allocate(ctx.poly_size);
            z.update_mask_with_add(&Polynomial::from_container(v.clone()));
            let ds = phase(&sk, &z); // -d s
            r.update_mask_with_add(&Polynomial::from_container(v.clone()));
            phase_near(&sk, &r, &addv(&mx, &ds), bound, "adding a polynomial to the mask");
            let mut r2 = x.clone();
            r2.update_mask_with_sub(&Polynomial::from_container(v.as_slice()));
            phase_near(&sk, &r2, &subv(&mx, &ds), bound, "subtracting a polynomial from the mask");
        }
    }
    reach("end");
}
/// c <- c * p for a small integer polynomial p
fn mulpoly(p: P, k: usize) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let (x, mx) = fresh(&sk, "x", p.t.trailing_zeros(), &p, &mut ctx);
    let mut d = coeffs(&sym_pt("d", p.n, 6));
    for z in d.iter_mut() {
        *z = z.wrapping_sub(32);
    }
    let want = negmul(&mx, &d);
    let mut r = x.clone();
    if k == 0 {
        r.update_mask_with_mul_with_buf(&Polynomial::from_container(d.as_slice()));
        r.update_body_with_mul_with_buf(&Polynomial::from_container(d.as_slice()));
        phase_is(&sk, &r, &want, "polynomial product (transform)");
    } else {
        let mut d2 = d.clone();
        r.update_mask_with_mul(&Polynomial::from_container(d2.as_mut_slice()));
        r.update_body_with_mul(&Polynomial::from_container(d2.as_mut_slice()));
        phase_is(&sk, &r, &want, "polynomial product (schoolbook)");
    }
    reach("end");
}
fn naive_products(n: usize) {
    let a = coeffs(&sym_pt("a", n, 64));
    let b = coeffs(&sym_pt("b", n, 64));
    let c = coeffs(&sym_pt("c", n, 64));
    let ab = negmul(&a, &b);
    let mut out = Polynomial::from_container(c.clone());
    naive_update_with_mul_acc(&mut out, &Polynomial::from_container(a.clone()), &Polynomial::from_container(b.clone()));
    let r = slice_of(&out);
    for i in 0..n {
        eq(r[i], c[i].wrapping_add(ab[i]), "naive_update_with_mul_acc adds the negacyclic product");
    }
    let mut out = Polynomial::from_container(a.clone());
    naive_update_with_mul(&mut out, &Polynomial::from_container(b));
    let r = slice_of(&out);
    for i in 0..n {
        eq(r[i], ab[i], "naive_update_with_mul replaces by the negacyclic product");
    }
    reach("end");
}
/// comparison of a value on the exponent with a known threshold
fn compare(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let v = choose(p.n);
    let d = choose(p.n);
    let mut pt = pt_zero(p.n);
    pt_set(&mut pt, v, 1);
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    sk.encode_encrypt_rlwe(&mut c, &pt, &mut ctx);
    let unit = 1u64 << (64 - p.t.trailing_zeros());
    let mut le = c.clone();
    le.less_eq_than(d);
    let ph = phase(&sk, &le);
    eq_tol(ph[0], if v <= d { unit } else { 0 }, SLACK, "constant term tells whether m <= d");
    let mut e = c.clone();
    e.eq_to(d);
    let ph = phase(&sk, &e);
    eq_tol(ph[0], if v == d { unit } else { 0 }, SLACK, "constant term tells whether m == d");
    reach("end");
}
fn compare_bounds(p: P) {
    let mut c = RLWECiphertext::allocate(p.ctx().poly_size);
    cfg(EXPECT_PANIC, 1);
    if choose(2) == 0 {
        c.less_eq_than(p.n + choose(2));
    } else {
        c.eq_to(p.n + choose(2));
    }
    fail("a threshold outside the ring was accepted");
}
/// every encryption routine, into a new ciphertext or over a used one
fn enc_variants(p: P) {
    cfg(NOISE, 30);
    let mut ctx = p.ctx();
    let sk = ctx.gen_rlwe_sk();
    let bound = (1u64 << 30) - 1;
    let logt = p.t.trailing_zeros();
    let mut ct = RLWECiphertext::allocate(ctx.poly_size);
    if choose(2) == 1 {
        let old = sym_pt("old", p.n, logt);
        sk.encode_encrypt_rlwe(&mut ct, &old, &mut ctx);
    }
    match choose(5) {
        0 => {
            let x = u64s("x", 64);
            sk.encrypt_constant_rlwe(&mut ct, &scalar(x), &mut ctx);
            phase_near(&sk, &ct, &cst(p.n, x), bound, "encrypt_constant_rlwe puts the scalar in the constant term");
        }
        1 => {
            let m = sym_pt("m", p.n, 64);
            let std = ctx.std;
            sk.encrypt_rlwe(&mut ct, &m, std, &mut ctx.encryption_generator);
            phase_near(&sk, &ct, &coeffs(&m), bound, "encrypt_rlwe encrypts the raw plaintext");
        }
        2 => {
            let m = sym_pt("m", p.n, logt);
            sk.encode_encrypt_rlwe(&mut ct, &m, &mut ctx);
            phase_near(&sk, &ct, &scaled(&coeffs(&m), 64 - logt as usize), bound, "encode_encrypt_rlwe encrypts the encoded plaintext");
            decodes_to(&sk, &ct, &ctx, &coeffs(&m), "decrypt(encrypt(m)) == m");
        }
        3 => {
            let m = ctx.gen_zero_pt();
            let std = ctx.std;
            match choose(3) {
                0 => sk.encode_encrypt_rlwe(&mut ct, &m, &mut ctx),
                1 => sk.encrypt_rlwe(&mut ct, &m, std, &mut ctx.encryption_generator),
                _ => sk.encrypt_constant_rlwe(&mut ct, &scalar(0), &mut ctx),
            }
            phase_near(&sk, &ct, &vec![0; p.n], bound, "an encryption of zero");
        }
        _ => {
            let mut m = ctx.gen_zero_pt();
            let mut w = vec![0u64; p.n];
            for i in 0..p.n {
                let k = choose(3);
                pt_set(&mut m, i, [0, 1, u64::MAX][k]);
                w[i] = [0, 1, u64::MAX][k];
            }
            sk.ternary_encrypt_rlwe(&mut ct, &m, &mut ctx);
            // the output buffer may hold anything
            let mut out = if choose(2) == 0 { ctx.gen_zero_pt() } else { sym_pt("out", p.n, 64) };
            sk.ternary_decrypt_rlwe(&mut out, &ct);
            for i in 0..p.n {
                eq(pt_get(&out, i), w[i], "ternary decryption inverts ternary encryption");
            }
        }
    }
    reach("end");
}
/// decryption into a used buffer
fn dec_used(p: P) {
    cfg(NOISE, 40);
    let mut ctx = p.ctx();
    let sk = ctx.gen_rlwe_sk();
    let (x, mx) = fresh(&sk, "x", p.t.trailing_zeros(), &p, &mut ctx);
    let ph = phase(&sk, &x);
    let mut out = sym_pt("out", p.n, 64);
    sk.decrypt_rlwe(&mut out, &x);
    for i in 0..p.n {
        eq_tol(pt_get(&out, i), ph[i], SLACK, "decryption overwrites its output");
    }
    let mut out = sym_pt("out", p.n, 64);
    sk.decrypt_decode_rlwe(&mut out, &x, &ctx);
    for i in 0..p.n {
        eq(pt_get(&out, i), mx[i] >> (64 - p.t.trailing_zeros()), "decryption overwrites its output");
    }
    reach("end");
}
/// the noise reported for a ciphertext is the distance to the plaintext it is given
fn noise_report(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let mut ct = RLWECiphertext::allocate(ctx.poly_size);
    let e0 = [0i64, 5, -1024, 1 << 40, i64::MAX, i64::MIN][choose(6)];
    let e1 = [0i64, 7, -4096][choose(3)];
    let inject = |ct: &mut RLWECiphertext| {
        let mut v = vec![0u64; p.n];
        v[0] = e0 as u64;
        v[p.n - 1] = e1 as u64;
        ct.update_body_with_add(&Polynomial::from_container(v));
    };
    let want = (e0.unsigned_abs().max(e1.unsigned_abs()) as f64).log2();
    let got = match choose(3) {
        0 => {
            let m = sym_pt("m", p.n, 64);
            let std = ctx.std;
            sk.encrypt_rlwe(&mut ct, &m, std, &mut ctx.encryption_generator);
            inject(&mut ct);
            compute_noise(&sk, &ct, &m)
        }
        1 => {
            let m = sym_pt("m", p.n, p.t.trailing_zeros());
            sk.encode_encrypt_rlwe(&mut ct, &m, &mut ctx);
            inject(&mut ct);
            compute_noise_encoded(&sk, &ct, &m, &ctx.codec)
        }
        _ => {
            let mut m = ctx.gen_zero_pt();
            for i in 0..p.n {
                pt_set(&mut m, i, [0, 1, u64::MAX][choose(3)]);
            }
            sk.ternary_encrypt_rlwe(&mut ct, &m, &mut ctx);
            inject(&mut ct);
            compute_noise_ternary(&sk, &ct, &m)
        }
    };
    check(got == want, "reported noise is log2 of the largest coefficient error");
    reach("end");
}

entries! {
    fn rlwe_roundtrip() { roundtrip(P2, 50); }
    fn rlwe_roundtrip4() { roundtrip(P4, 58); }
    fn rlwe_roundtrip_t2() { roundtrip(P { t: 2, ..P4 }, 61); }
    fn rlwe_roundtrip_t256() { roundtrip(P { t: 256, ..P2 }, 54); }
    fn rlwe_linear() { linear(P2); }
    fn rlwe_linear4() { linear(P4); }
    fn rlwe_variants() { enc_variants(P2); }
    fn rlwe_variants4() { enc_variants(P { t: 2, ..P4 }); }
    fn rlwe_decrypt_used() { dec_used(P2); }
    fn rlwe_mul_fft() { mulpoly(P2, 0); }
    fn rlwe_mul_fft4() { mulpoly(P4, 0); }
    fn rlwe_mul_naive() { mulpoly(P2, 1); }
    fn rlwe_mul_naive4() { mulpoly(P4, 1); }
    fn naive_mul2() { naive_products(2); }
    fn naive_mul4() { naive_products(4); }
    fn compare4() { compare(P4); }
    fn compare8() { compare(P { n: 8, ..P4 }); }
    fn rlwe_roundtrip_16() { roundtrip(fixed(P4, 16), 40); }
    fn rlwe_roundtrip_64() { roundtrip(fixed(P4, 64), 40); }
    fn rlwe_roundtrip_1024() { roundtrip(fixed_key(PD, 1024), 40); }
    fn rlwe_linear_8() { linear(fixed(P4, 8)); }
    fn rlwe_linear_16() { linear(fixed(P4, 16)); }
    fn rlwe_mul_fft_8() { mulpoly(fixed(P4, 8), 0); }
    fn rlwe_mul_naive_8() { mulpoly(fixed(P4, 8), 1); }
    fn naive_mul_8() { naive_products(8); }
    fn rlwe_mul_fft_16() { mulpoly(fixed(P4, 16), 0); }
    fn rlwe_mul_naive_16() { mulpoly(fixed(P4, 16), 1); }
    fn naive_mul_16() { naive_products(16); }
    fn rlwe_mul_fft_32() { mulpoly(fixed(P4, 32), 0); }
    fn rlwe_mul_naive_32() { mulpoly(fixed(P4, 32), 1); }
    fn naive_mul_32() { naive_products(32); }
    fn compare_16() { compare(fixed(P4, 16)); }
    fn compare_32() { compare(fixed(P4, 32)); }
    fn rlwe_roundtrip_256() { roundtrip(fixed_key(P4, 256), 40); }
    fn rlwe_mul_naive_128() { mulpoly(fixed_key(P4, 128), 1); }
    fn compare_out_of_range() { compare_bounds(P4); }
    fn noise_reported() { noise_report(P2); }
    fn noise_reported_b() { noise_report(P2B); }
}
