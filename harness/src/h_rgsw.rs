//! External product, cmux, key switching, substitution, trace, expansion, demultiplexing.
use pan as panacea;
use super::vh::*;
use panacea::context::Context;
use panacea::decision_tree::{bit_decomposed_rgsw, demux, demux_with};
use panacea::lwe::*;
use panacea::rgsw::*;
use panacea::rlwe::*;
use concrete_core::commons::math::polynomial::Polynomial;

fn rlwe(sk: &RLWESecretKey, v: &[u64], ctx: &mut Context) -> RLWECiphertext {
    let mut ct = RLWECiphertext::allocate(ctx.poly_size);
    let std = ctx.std;
    sk.encrypt_rlwe(&mut ct, &pt_from(v), std, &mut ctx.encryption_generator);
    ct
}
/// symbolic message on the exact grid
fn msg(name: &str, p: &P) -> Vec<u64> {
    let logt = p.t.trailing_zeros();
    scaled(&coeffs(&sym_pt(name, p.n, logt)), 64 - logt as usize)
}
fn poly(v: &[u64]) -> Polynomial<Vec<u64>> {
    Polynomial::from_container(v.to_vec())
}
fn rgsw(ctx: &Context) -> RGSWCiphertext {
    RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count)
}
fn rev(g: &RGSWCiphertext, sk: &RLWESecretKey, p: &P, bit: u64, neg: &[u64], m: &str) {
    // every row of RGSW(bit): message bit*g_l in the body rows, -s*bit*g_l in the mask rows
    for l in 1..=p.l {
        phase_is(sk, &g.get_nth_row(2 * l - 1), &cst(p.n, bit << (64 - p.b * l)), m);
        let w: Vec<u64> = neg.iter().map(|x| x.wrapping_mul(bit) << (64 - p.b * l)).collect();
        phase_is(sk, &g.get_nth_row(2 * l - 2), &w, m);
    }
}
/// coefficients of -s, read off through a trivial ciphertext (a, b) = (1, 0)
fn neg_key(sk: &RLWESecretKey, p: &P, ctx: &Context) -> Vec<u64> {
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    c.update_mask_with_add(&concrete_core::commons::math::polynomial::Polynomial::from_container(cst(p.n, 1)));
    phase(sk, &c)
}

fn extprod(p: P) {
    extprod_in(p, exact(p));
}
fn extprod_in(p: P, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let bit = u64s("bit", 1);
    let mut c = rlwe(&sk, &m, &mut ctx);
    // a fresh ciphertext, one without a body, and one without a mask
    let m = match choose(3) {
        0 => m,
        1 => {
            let b = slice_of(&c.get_body());
            c.update_body_with_sub(&poly(&b).as_view());
            phase(&sk, &c)
        }
        _ => {
            c.clear();
            c.update_body_with_add(&poly(&m));
            m
        }
    };
    let mut g = rgsw(&ctx);
    if choose(2) == 1 {
        // the output was used before
        sk.encrypt_constant_rgsw(&mut g, &scalar(1), &mut ctx);
    }
    sk.encrypt_constant_rgsw(&mut g, &scalar(bit), &mut ctx);
    let want: Vec<u64> = m.iter().map(|x| x.wrapping_mul(bit)).collect();
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    g.external_product(&mut r, &c);
    phase_is(&sk, &r, &want, "external product multiplies the messages");
    // the output is accumulated into
    let mut buf = ctx.gen_fft_ctx();
    let mut r2 = rlwe(&sk, &m, &mut ctx);
    g.external_product_with_buf(&mut r2, &c, &mut buf);
    phase_is(&sk, &r2, &addv(&want, &m), "external product adds to its output");
    reach("end");
}
fn extprod_poly(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let mut d = coeffs(&sym_pt("d", p.n, 3));
    for z in d.iter_mut() {
        *z = z.wrapping_sub(4);
    }
    let c = rlwe(&sk, &m, &mut ctx);
    let mut g = rgsw(&ctx);
    sk.encrypt_rgsw(&mut g, &pt_from(&d), &mut ctx);
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    g.external_product(&mut r, &c);
    phase_is(&sk, &r, &negmul(&m, &d), "external product with an encrypted polynomial");
    reach("end");
}
/// RGSW encryption under a gadget that differs from the default one
fn extprod_gadget(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let d = coeffs(&sym_pt("d", p.n, 2));
    let c = rlwe(&sk, &m, &mut ctx);
    let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.negs_base_log, ctx.negs_level_count);
    sk.encrypt_rgsw(&mut g, &pt_from(&d), &mut ctx);
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    g.external_product(&mut r, &c);
    phase_is(&sk, &r, &negmul(&m, &d), "external product under another gadget");
    reach("end");
}
fn cmux(p: P) {
    cmux_in(p, exact(p));
}
fn cmux_in(p: P, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let (m0, m1) = (msg("m0", &p), msg("m1", &p));
    let bit = u64s("bit", 1);
    let c0 = rlwe(&sk, &m0, &mut ctx);
    let mut c1 = rlwe(&sk, &m1, &mut ctx);
    // unrelated operands, operands that share the body, the mask, or both
    let form = choose(4);
    if form & 1 == 1 {
        let d = subv(&slice_of(&c0.get_body()), &slice_of(&c1.get_body()));
        c1.update_body_with_add(&poly(&d));
    }
    if form & 2 == 2 {
        let d = subv(&slice_of(&c0.get_mask()), &slice_of(&c1.get_mask()));
        c1.update_mask_with_add(&poly(&d));
    }
    let m1 = if form == 0 { m1 } else { phase(&sk, &c1) };
    let v = sk.encrypt_constant_rgsw_vec(&[scalar(0), scalar(bit)], &mut ctx);
    check(v.len() == 2, "one ciphertext per scalar");
    let want: Vec<u64> = (0..p.n).map(|i| m0[i].wrapping_add(bit.wrapping_mul(m1[i].wrapping_sub(m0[i])))).collect();
    let mut out = rlwe(&sk, &m1, &mut ctx);
    v[1].cmux(&mut out, &c0, &c1);
    phase_is(&sk, &out, &want, "cmux selects by the encrypted bit");
    let mut buf = ctx.gen_fft_ctx();
    v[0].cmux_with_buf(&mut out, &c0, &c1, &mut buf);
    phase_is(&sk, &out, &m0, "cmux selects the first operand for 0");
    phase_is(&sk, &c0, &m0, "operands unchanged");
    phase_is(&sk, &c1, &m1, "operands unchanged");
    reach("end");
}
fn rgsw_add(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let (x, y) = (u64s("x", 1), u64s("y", 1));
    let c = rlwe(&sk, &m, &mut ctx);
    let mut g = rgsw(&ctx);
    let mut h = rgsw(&ctx);
    sk.encrypt_constant_rgsw(&mut g, &scalar(x), &mut ctx);
    sk.encrypt_constant_rgsw(&mut h, &scalar(y), &mut ctx);
    g.update_with_add(&h);
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    g.external_product(&mut r, &c);
    let want: Vec<u64> = m.iter().map(|z| z.wrapping_mul(x.wrapping_add(y))).collect();
    phase_is(&sk, &r, &want, "the sum of RGSW ciphertexts multiplies by the sum");
    reach("end");
}
/// RGSW encryptions of scalars that are not bits
fn rgsw_scalars(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let neg = neg_key(&sk, &p, &ctx);
    let x = u64s("x", 64);
    let v = sk.encrypt_constant_rgsw_vec(&[scalar(x), scalar(3), scalar(u64::MAX), scalar(0)], &mut ctx);
    check(v.len() == 4, "one ciphertext per scalar");
    for (g, m) in v.iter().zip([x, 3, u64::MAX, 0]) {
        check(g.decomposition_base_log().0 == p.b && g.decomposition_level_count().0 == p.l && g.polynomial_size().0 == p.n, "the default gadget");
        rev(g, &sk, &p, m, &neg, "rows of the RGSW encryption of a scalar");
    }
    check(sk.encrypt_constant_rgsw_vec(&[], &mut ctx).is_empty(), "one ciphertext per scalar");
    reach("end");
}
/// the noise reported for RGSW(1) is the mean over the levels
fn rgsw_noise(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let c = [1u64, 3, 5, 1 << (p.b - 2).min(7)][choose(4)];
    let mut m = vec![0u64; p.n];
    m[0] = 1;
    m[p.n - 1] = if choose(2) == 0 { c } else { c.wrapping_neg() };
    let mut g = rgsw(&ctx);
    sk.encrypt_rgsw(&mut g, &pt_from(&m), &mut ctx);
    let got = compute_noise_rgsw1(&sk, &g, &ctx);
    let mut want = 0f64;
    for l in 1..=p.l {
        want += (c as f64).log2() + (64 - p.b * l) as f64;
    }
    want /= p.l as f64;
    check((got - want).abs() < 1e-6, "the noise of RGSW(1) is the mean noise of its levels");
    reach("end");
}
/// rows of fresh RGSW ciphertexts and of RGSW(-s)
fn rgsw_rows(p: P) {
    rgsw_rows_in(p, exact(p));
}
fn rgsw_rows_in(p: P, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let neg = neg_key(&sk, &p, &ctx);
    let bit = u64s("bit", 1);
    let mut g = rgsw(&ctx);
    sk.encrypt_constant_rgsw(&mut g, &scalar(bit), &mut ctx);
    check(g.ciphertext_count().0 == 2 * p.l, "two rows per level");
    rev(&g, &sk, &p, bit, &neg, "rows of a fresh RGSW ciphertext");
    check(slice_of(&g.get_last_row().get_body()) == slice_of(&g.get_nth_row(2 * p.l - 1).get_body()), "last row");
    let ns = sk.neg_gsw(&mut ctx);
    check(ns.decomposition_base_log().0 == p.nb && ns.decomposition_level_count().0 == p.nl, "RGSW(-s) uses the configured gadget");
    for l in 1..=p.nl {
        phase_is(&sk, &ns.get_nth_row(2 * l - 1), &scaled(&neg, 64 - p.nb * l), "body rows of RGSW(-s)");
        phase_is(&sk, &ns.get_nth_row(2 * l - 2), &scaled(&negmul(&neg, &neg), 64 - p.nb * l), "mask rows of RGSW(-s)");
    }
    reach("end");
}
fn neg_times(p: P) {
    neg_times_in(p, exact(p));
}
fn neg_times_in(p: P, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let neg = neg_key(&sk, &p, &ctx);
    let m = msg("m", &p);
    let c = rlwe(&sk, &m, &mut ctx);
    let ns = sk.neg_gsw(&mut ctx);
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    ns.external_product(&mut r, &c);
    phase_is(&sk, &r, &negmul(&m, &neg), "RGSW(-s) multiplies by -s");
    reach("end");
}
fn keyswitch(p: P, kind: usize) {
    keyswitch_in(p, kind, exact(p));
}
fn keyswitch_in(p: P, kind: usize, mut ctx: Context) {
    let before = ctx.gen_rlwe_sk();
    let after = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let c = rlwe(&before, &m, &mut ctx);
    let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
    let std = ctx.std;
    ksk.fill_with_keyswitch_key(&before, &after, std, &mut ctx.encryption_generator);
    match kind {
        0 => {
            // the output buffer holds something else before
            let mut r = rlwe(&after, &m, &mut ctx);
            ksk.keyswitch_ciphertext(&mut r, &c);
            phase_is(&after, &r, &m, "key switching keeps the message");
        }
        1 => {
            let f = ksk.into_fourier();
            let mut r = FourierRLWECiphertext::new(p.n);
            f.keyswitch_ciphertext(&mut r, &c);
            phase_is(&after, &r.backward_as_torus(), &m, "key switching in the Fourier domain keeps the message");
            // the same buffer again
            f.keyswitch_ciphertext(&mut r, &c);
            phase_is(&after, &r.backward_as_torus(), &m, "the output buffer is overwritten");
        }
        _ => {
            let g = RGSWCiphertext::from_keyswitch_key(&ksk);
            let mut r = RLWECiphertext::allocate(ctx.poly_size);
            g.keyswitch_ciphertext(&mut r, &c);
            phase_is(&after, &r, &m, "key switching through an RGSW ciphertext keeps the message");
            let mut buf = ctx.gen_fft_ctx();
            let mut r = RLWECiphertext::allocate(ctx.poly_size);
            g.keyswitch_ciphertext_with_buf(&mut r, &c, &mut buf);
            phase_is(&after, &r, &m, "key switching through an RGSW ciphertext keeps the message");
        }
    }
    phase_is(&before, &c, &m, "the input ciphertext is unchanged");
    reach("end");
}
/// one key object filled for several purposes in turn
fn ksk_reuse(p: P) {
    let mut ctx = exact32(p);
    let sk = ctx.gen_rlwe_sk();
    let other = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
    check(ksk.decomposition_base_log().0 == p.kb && ksk.decomposition_level_count().0 == p.kl && ksk.polynomial_size().0 == p.n, "the gadget it was allocated for");
    check(ksk.get_keyswitch_key().len() == p.kl, "one ciphertext per level");
    let mut tmp = RLWESecretKey::zero(ctx.poly_size);
    let std = ctx.std;
    for _ in 0..2 {
        match choose(3) {
            0 => {
                let k = 1 + 2 * choose(p.n);
                ksk.fill_with_subs_keyswitch_key(&mut tmp, &sk, k, std, &mut ctx.encryption_generator);
                check(ksk.get_subs_k() == k, "the key remembers its exponent");
                let c = rlwe(&sk, &m, &mut ctx);
                let mut r = RLWECiphertext::allocate(ctx.poly_size);
                ksk.subs(&mut r, &c);
                phase_is(&sk, &r, &subs_spec(&m, k), "subs with a refilled key");
            }
            1 => {
                ksk.fill_with_keyswitch_key(&other, &sk, std, &mut ctx.encryption_generator);
                check(ksk.get_subs_k() == 0, "a plain switching key has no exponent");
                let c = rlwe(&other, &m, &mut ctx);
                let mut r = RLWECiphertext::allocate(ctx.poly_size);
                ksk.keyswitch_ciphertext(&mut r, &c);
                phase_is(&sk, &r, &m, "switching with a refilled key");
            }
            _ => {
                ksk.fill_with_keyswitch_key(&sk, &other, std, &mut ctx.encryption_generator);
                check(ksk.get_subs_k() == 0, "a plain switching key has no exponent");
                let c = rlwe(&sk, &m, &mut ctx);
                let mut r = RLWECiphertext::allocate(ctx.poly_size);
                ksk.keyswitch_ciphertext(&mut r, &c);
                phase_is(&other, &r, &m, "switching with a refilled key");
            }
        }
    }
    reach("end");
}
fn subs(p: P, fourier: bool) {
    subs_in(p, fourier, exact(p));
}
fn subs_in(p: P, fourier: bool, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let c = rlwe(&sk, &m, &mut ctx);
    let k = 1 + 2 * choose(p.n);
    let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
    let mut tmp = RLWESecretKey::zero(ctx.poly_size);
    let std = ctx.std;
    ksk.fill_with_subs_keyswitch_key(&mut tmp, &sk, k, std, &mut ctx.encryption_generator);
    check(ksk.get_subs_k() == k, "the key remembers its exponent");
    let want = subs_spec(&m, k);
    if fourier {
        let f = ksk.into_fourier();
        check(f.get_subs_k() == k, "the Fourier key remembers its exponent");
        let mut r = FourierRLWECiphertext::new(p.n);
        f.subs(&mut r, &c);
        phase_is(&sk, &r.backward_as_torus(), &want, "subs maps p(X) to p(X^k)");
    } else {
        let mut r = rlwe(&sk, &m, &mut ctx);
        ksk.subs(&mut r, &c);
        phase_is(&sk, &r, &want, "subs maps p(X) to p(X^k)");
    }
    phase_is(&sk, &c, &m, "the input ciphertext is unchanged");
    reach("end");
}
fn trace1(p: P, fourier: bool) {
    trace1_in(p, fourier, exact(p));
}
fn trace1_in(p: P, fourier: bool, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let m = msg("m", &p);
    let c = rlwe(&sk, &m, &mut ctx);
    let want = cst(p.n, m[0].wrapping_mul(p.n as u64));
    if fourier {
        let map = gen_all_subs_ksk_fourier(&sk, &mut ctx);
        let mut r = rlwe(&sk, &m, &mut ctx);
        c.trace1_fourier(&mut r, &map);
        phase_is(&sk, &r, &want, "trace keeps only n times the constant term");
    } else {
        let map = gen_all_subs_ksk(&sk, &mut ctx);
        let r = c.trace1(&map);
        phase_is(&sk, &r, &want, "trace keeps only n times the constant term");
    }
    phase_is(&sk, &c, &m, "the input ciphertext is unchanged");
    reach("end");
}
/// conversion of decomposed RLWE ciphertexts into an RGSW ciphertext; used on a ciphertext after
fn expansion(p: P, kind: usize) {
    expansion_in(p, kind, exact(p));
}
fn expansion_in(p: P, kind: usize, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let ns = sk.neg_gsw(&mut ctx);
    let neg = neg_key(&sk, &p, &ctx);
    let bit = choose(2) as u64;
    let g = match kind {
        0 => {
            let map = gen_all_subs_ksk(&sk, &mut ctx);
            let cs = decomposed(&sk, bit, &p, p.n.trailing_zeros() as usize, &mut ctx);
            expand(&cs, &map, &ns, &ctx)
        }
        1 => {
            let map = gen_all_subs_ksk_fourier(&sk, &mut ctx);
            let cs = decomposed(&sk, bit, &p, p.n.trailing_zeros() as usize, &mut ctx);
            expand_fourier(&cs, &map, &ns, &ctx)
        }
        2 => {
            let lwe_sk = ctx.gen_lwe_sk();
            let sk2 = lwe_sk.to_rlwe_sk();
            let ns2 = sk2.neg_gsw(&mut ctx);
            let neg2 = neg_key(&sk2, &p, &ctx);
            let mut ksk = LWEtoRLWEKeyswitchKey::allocate(&ctx);
            ksk.fill_with_keyswitching_key(&lwe_sk, &mut ctx);
            let cs = decomposed(&sk2, bit, &p, 0, &mut ctx);
            let g = expand_slow(&cs, &ksk, &ns2, &ctx);
            rev(&g, &sk2, &p, bit, &neg2, "expand_slow yields RGSW(bit)");
            reach("end");
            return;
        }
        _ => {
            let mut buf = ctx.gen_fft_ctx();
            let cs: Vec<RLWECiphertext> = (1..=p.l).map(|l| rlwe(&sk, &cst(p.n, bit << (64 - p.b * l)), &mut ctx)).collect();
            decomposed_rlwe_to_rgsw(&cs, &ns, &ctx, &mut buf)
        }
    };
    check(g.decomposition_base_log().0 == p.b && g.decomposition_level_count().0 == p.l, "the result uses the default gadget");
    rev(&g, &sk, &p, bit, &neg, "expansion yields RGSW(bit)");
    reach("end");
}
/// what make_decomposed_rlwe_ct encrypts, without its random (not granular) other coefficients
fn decomposed(sk: &RLWESecretKey, bit: u64, p: &P, logn: usize, ctx: &mut Context) -> Vec<RLWECiphertext> {
    (1..=p.l)
        .map(|l| {
            let mut v = msg("junk", p);
            v[0] = bit << (64 - p.b * l - logn);
            rlwe(sk, &v, ctx)
        })
        .collect()
}
/// the constant term of the decomposed ciphertexts is the scaled bit
fn make_decomposed(p: P) {
    make_decomposed_in(p, exact(p));
}
fn make_decomposed_in(p: P, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let bit = choose(2) as u64;
    let slow = choose(2) == 1;
    let cs = if slow { make_decomposed_rlwe_ct2(&sk, bit, &mut ctx) } else { make_decomposed_rlwe_ct(&sk, bit, &mut ctx) };
    check(cs.len() == p.l, "one ciphertext per level");
    for l in 1..=p.l {
        let ph = phase(&sk, &cs[l - 1]);
        let s = 64 - p.b * l - if slow { 0 } else { p.n.trailing_zeros() as usize };
        eq(ph[0], bit << s, "constant term is bit / (B^l [n])");
    }
    reach("end");
}
fn demuxes(p: P, nbits: usize) {
    demuxes_in(p, nbits, exact(p));
}
fn demuxes_in(p: P, nbits: usize, mut ctx: Context) {
    let sk = ctx.gen_rlwe_sk();
    let i = choose(1 << nbits);
    let bits = bit_decomposed_rgsw(i, 1 << nbits, &sk, &mut ctx);
    check(bits.len() == nbits, "one RGSW ciphertext per bit");
    let mut buf = ctx.gen_fft_ctx();
    let v = demux(&bits, &ctx, &mut buf);
    check(v.len() == 1 << nbits, "one output per index");
    let unit = 1u64 << (64 - p.t.trailing_zeros());
    for j in 0..v.len() {
        phase_is(&sk, &v[j], &cst(p.n, if j == i { unit } else { 0 }), "demux is the unit vector of the index");
    }
    let m = msg("m", &p);
    let c = rlwe(&sk, &m, &mut ctx);
    let v = demux_with(c, &bits, &ctx, &mut buf);
    for j in 0..v.len() {
        phase_is(&sk, &v[j], &if j == i { m.clone() } else { vec![0; p.n] }, "demux_with puts the item at the index");
    }
    reach("end");
}
/// demultiplexing with symbolic bits: output j carries the product of the matching literals
fn demux_sym(p: P, nbits: usize) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let mut b = vec![];
    let mut cts = vec![];
    for _ in 0..nbits {
        let x = u64s("b", 1);
        b.push(x);
        let mut g = rgsw(&ctx);
        sk.encrypt_constant_rgsw(&mut g, &scalar(x), &mut ctx);
        cts.push(g);
    }
    let m = msg("m", &p);
    let c = rlwe(&sk, &m, &mut ctx);
    let mut buf = ctx.gen_fft_ctx();
    let v = demux_with(c, &cts, &ctx, &mut buf);
    for j in 0..v.len() {
        let mut f = 1u64;
        for l in 0..nbits {
            // a zero bit of j (most significant first) is the left branch, taken by an encryption of one
            let jb = (j >> (nbits - 1 - l)) & 1;
            f = f.wrapping_mul(if jb == 0 { b[l] } else { 1u64.wrapping_sub(b[l]) });
        }
        let w: Vec<u64> = m.iter().map(|x| x.wrapping_mul(f)).collect();
        phase_is(&sk, &v[j], &w, "demux output");
    }
    reach("end");
}

/// bits of any index, most significant first, complemented
fn bit_decomposition(p: P, logs: usize) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let size = 1usize << logs;
    let i = [0, 1, 0x5a5a, 0xc3a5, 256, 255, 1 << (logs - 1), usize::MAX][choose(8)] & (size - 1);
    let bits = bit_decomposed_rgsw(i, size, &sk, &mut ctx);
    check(bits.len() == logs, "one RGSW ciphertext per bit");
    for (k, g) in bits.iter().enumerate() {
        let b = (i >> (logs - 1 - k)) & 1;
        check(g.decomposition_base_log().0 == p.b && g.decomposition_level_count().0 == p.l, "the default gadget");
        phase_is(&sk, &g.get_last_row(), &cst(p.n, ((1 - b) as u64) << (64 - p.b * p.l)), "a zero bit is an encryption of one, a one bit of zero");
    }
    reach("end");
}
/// a larger demultiplexer; trivial masks keep it small
fn demux_large(p: P, nbits: usize) {
    cfg(MASKS, 1);
    let mut ctx = exact32(p);
    let sk = ctx.gen_rlwe_sk();
    let i = [0, 1, (1 << nbits) - 1, (1 << nbits) - 2, 1 << (nbits - 1), 0x55 & ((1 << nbits) - 1), 0x4a & ((1 << nbits) - 1), 12][choose(8)];
    let bits = bit_decomposed_rgsw(i, 1 << nbits, &sk, &mut ctx);
    check(bits.len() == nbits, "one RGSW ciphertext per bit");
    let mut buf = ctx.gen_fft_ctx();
    let m = msg("m", &p);
    let c = rlwe(&sk, &m, &mut ctx);
    let v = demux_with(c, &bits, &ctx, &mut buf);
    check(v.len() == 1 << nbits, "one output per index");
    for j in 0..v.len() {
        phase_is(&sk, &v[j], &if j == i { m.clone() } else { vec![0; p.n] }, "demux_with puts the item at the index");
    }
    reach("end");
}

// ------------------------------------------------------------------ randomness of encryptions
fn gain(p: &P, l: usize) -> u64 {
    1 << (64 - p.b * l)
}
/// every row of every kind of ciphertext and key has a mask and an error of its own
fn fresh_randomness(p: P, kind: usize) {
    cfg(NOISE, 58);
    let mut ctx = p.ctx();
    let lsk = ctx.gen_lwe_sk();
    let sk = lsk.to_rlwe_sk();
    let neg = neg_key(&sk, &p, &ctx);
    let key: Vec<u64> = neg.iter().map(|x| x.wrapping_neg()).collect();
    let z = vec![0u64; p.n];
    let std = concrete_core::prelude::DispersionParameter::get_standard_dev(&ctx.std);
    let other = concrete_core::prelude::LogStandardDev(-41.5);
    let ostd = concrete_core::prelude::DispersionParameter::get_standard_dev(&other);
    let logt = p.t.trailing_zeros();
    let from = draw_count();
    let r0 = repeat_count();
    // (ciphertext, phase without noise, what is added to the mask, deviation)
    let mut rows: Vec<(RLWECiphertext, Vec<u64>, Vec<u64>, f64)> = vec![];
    let std0 = ctx.std;
    match kind {
        0 => {
            // plain encryptions, twice the same plaintext, also over a used ciphertext
            let m = sym_pt("m", p.n, logt);
            let enc = scaled(&coeffs(&m), 64 - logt as usize);
            let mut c = RLWECiphertext::allocate(ctx.poly_size);
            for _ in 0..2 {
                sk.encode_encrypt_rlwe(&mut c, &m, &mut ctx);
                rows.push((c.clone(), enc.clone(), z.clone(), std));
                sk.encrypt_rlwe(&mut c, &m, other, &mut ctx.encryption_generator);
                rows.push((c.clone(), coeffs(&m), z.clone(), ostd));
                sk.encrypt_constant_rlwe(&mut c, &scalar(pt_get(&m, 0)), &mut ctx);
                rows.push((c.clone(), cst(p.n, pt_get(&m, 0)), z.clone(), std));
            }
            for x in [0, 1, u64::MAX] {
                let mut t = cst(p.n, x);
                sk.ternary_encrypt_rlwe(&mut c, &pt_from(&t), &mut ctx);
                panacea::codec::Codec::poly_ternary_encode(&mut Polynomial::from_container(t.as_mut_slice()));
                rows.push((c.clone(), t, z.clone(), std));
            }
            // nothing to hide is no reason to be predictable
            sk.encrypt_constant_rlwe(&mut c, &scalar(0), &mut ctx);
            rows.push((c.clone(), z.clone(), z.clone(), std));
            sk.encrypt_rlwe(&mut c, &pt_zero(p.n), std0, &mut ctx.encryption_generator);
            rows.push((c.clone(), z.clone(), z.clone(), std));
            sk.encode_encrypt_rlwe(&mut c, &pt_zero(p.n), &mut ctx);
            rows.push((c.clone(), z.clone(), z.clone(), std));
        }
        1 => {
            let d = coeffs(&sym_pt("d", p.n, 3));
            let x = u64s("x", 2);
            let mut gs = vec![];
            let mut g = rgsw(&ctx);
            for _ in 0..2 {
                sk.encrypt_rgsw(&mut g, &pt_from(&d), &mut ctx);
                gs.push((g.clone(), d.clone()));
                sk.encrypt_constant_rgsw(&mut g, &scalar(x), &mut ctx);
                gs.push((g.clone(), cst(p.n, x)));
            }
            for (g, y) in sk.encrypt_constant_rgsw_vec(&[scalar(x), scalar(0), scalar(1)], &mut ctx).into_iter().zip([x, 0, 1]) {
                gs.push((g, cst(p.n, y)));
            }
            for (g, d) in &gs {
                rgsw_expect(g, d, &neg, p.b, p.l, std, &mut rows);
            }
        }
        2 => {
            let g = sk.neg_gsw(&mut ctx);
            rgsw_expect(&g, &neg, &neg, p.nb, p.nl, std, &mut rows);
        }
        3 => {
            let before = ctx.gen_rlwe_sk();
            let bkey: Vec<u64> = neg_key(&before, &p, &ctx).iter().map(|x| x.wrapping_neg()).collect();
            let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
            ksk.fill_with_keyswitch_key(&before, &sk, other, &mut ctx.encryption_generator);
            ksk_expect(&ksk, &bkey, &p, ostd, &mut rows);
            let mut tmp = RLWESecretKey::zero(ctx.poly_size);
            for k in [1, 3] {
                ksk.fill_with_subs_keyswitch_key(&mut tmp, &sk, k, std0, &mut ctx.encryption_generator);
                ksk_expect(&ksk, &subs_spec(&key, k), &p, std, &mut rows);
            }
            let map = gen_all_subs_ksk(&sk, &mut ctx);
            for (k, ksk) in map.iter() {
                check(ksk.get_subs_k() == *k, "keys are listed under their exponent");
                ksk_expect(ksk, &subs_spec(&key, *k), &p, std, &mut rows);
            }
        }
        4 => {
            // rows of the packing key: converting a single digit yields minus one row
            let mut ksk = LWEtoRLWEKeyswitchKey::allocate(&ctx);
            ksk.fill_with_keyswitching_key(&lsk, &mut ctx);
            for j in 0..p.n {
                for l in 1..=p.kl {
                    let mut c = LWECiphertext::allocate(ctx.lwe_size());
                    let mut v = vec![0u64; p.n + 1];
                    v[j] = 1 << (64 - p.kb * l);
                    c.fill_with_tensor(&concrete_core::commons::math::tensor::Tensor::from_container(v));
                    let out = conv_lwe_to_rlwe(&ksk, &c, &ctx);
                    rows.push((out, cst(p.n, neg_bit(&neg, j).wrapping_mul(1 << (64 - p.kb * l))), z.clone(), std));
                }
            }
        }
        5 => {
            for slow in [false, true] {
                for bit in [0, 1] {
                    let cs = if slow { make_decomposed_rlwe_ct2(&sk, bit, &mut ctx) } else { make_decomposed_rlwe_ct(&sk, bit, &mut ctx) };
                    for (l, c) in cs.iter().enumerate() {
                        // the other coefficients are random filling: look at the masks and the constant term
                        rows.push((c.clone(), vec![bit << (64 - p.b * (l + 1) - if slow { 0 } else { p.n.trailing_zeros() as usize })], z.clone(), std));
                    }
                }
            }
        }
        6 => {
            let cts = panacea::decision_tree::encrypt_feature_vector(&sk, &vec![1, 0, 1], &mut ctx);
            for (c, v) in cts.iter().zip([1usize, 0, 1]) {
                for (l, ct) in c.iter().enumerate() {
                    let mut w = vec![0u64; p.n];
                    w[v] = 1 << (64 - p.b * (l + 1) - p.n.trailing_zeros() as usize);
                    rows.push((ct.clone(), w, z.clone(), std));
                }
            }
        }
        7 => {
            let m = u64s("m", logt);
            let mut f: Vec<(Vec<u64>, u64, f64)> = vec![];
            let mut c = LWECiphertext::allocate(ctx.lwe_size());
            let mut o = scalar(0);
            for k in 0..5 {
                let x = if k == 4 { 0 } else { m };
                let (w, s) = if k % 2 == 0 {
                    lsk.encode_encrypt_lwe(&mut c, &scalar(x), &mut ctx);
                    (x << (64 - logt as usize), std)
                } else {
                    lsk.encrypt_lwe(&mut c, &scalar(x), other, &mut ctx.encryption_generator);
                    (x, ostd)
                };
                lsk.decrypt_lwe(&mut o, &c);
                f.push((slice_of(&c.get_mask()), o.0.wrapping_sub(w), s));
            }
            let mut fr = Fresh::new(from);
            for (m, e, s) in &f {
                for x in m {
                    check(fr.take(*x, &[0], 0, 0), "every mask coefficient is a uniform value drawn for it alone");
                }
                match fr.find(*e, &[0], 3, SLACK) {
                    None => check(false, "every error is a noise sample drawn for it alone"),
                    Some(k) => check(f64::from_bits(draw_info(k, 4)) == *s, "the noise has the configured deviation"),
                }
            }
        }
        8 => {
            // Fourier switching keys: switching a single digit yields minus one row
            let map = gen_all_subs_ksk_fourier(&sk, &mut ctx);
            let mut ks: Vec<usize> = map.keys().cloned().collect();
            ks.sort();
            for k in ks {
                for l in 1..=p.kl {
                    let mut c = RLWECiphertext::allocate(ctx.poly_size);
                    c.update_mask_with_add(&poly(&cst(p.n, 1 << (64 - p.kb * l))));
                    let mut r = FourierRLWECiphertext::new(p.n);
                    map[&k].keyswitch_ciphertext(&mut r, &c);
                    let w: Vec<u64> = subs_spec(&neg, k).iter().map(|x| x.wrapping_mul(1 << (64 - p.kb * l))).collect();
                    rows.push((r.backward_as_torus(), w, z.clone(), std));
                }
            }
        }
        _ => {
            let v = bit_decomposed_rgsw(2, 4, &sk, &mut ctx);
            for (g, b) in v.iter().zip([0u64, 1]) {
                rgsw_expect(g, &cst(p.n, b), &neg, p.b, p.l, std, &mut rows);
            }
        }
    }
    let mut f = Fresh::new(from);
    for (ct, want, off, std) in &rows {
        f.row(&sk, ct, want, off, *std);
    }
    check(repeat_count() == r0, "no random value is used twice");
    reach("end");
}
fn neg_bit(neg: &[u64], j: usize) -> u64 {
    neg[j]
}
fn rgsw_expect(g: &RGSWCiphertext, d: &[u64], neg: &[u64], b: usize, l: usize, std: f64, rows: &mut Vec<(RLWECiphertext, Vec<u64>, Vec<u64>, f64)>) {
    let nd = negmul(neg, d);
    for k in 1..=l {
        let s = 64 - b * k;
        rows.push((g.get_nth_row(2 * k - 1), scaled(d, s), vec![0; d.len()], std));
        rows.push((g.get_nth_row(2 * k - 2), scaled(&nd, s), scaled(d, s), std));
    }
}
fn ksk_expect(k: &RLWEKeyswitchKey, before: &[u64], p: &P, std: f64, rows: &mut Vec<(RLWECiphertext, Vec<u64>, Vec<u64>, f64)>) {
    check(k.get_keyswitch_key().len() == p.kl, "one ciphertext per level");
    for (l, c) in k.get_keyswitch_key().iter().enumerate() {
        rows.push((c.clone(), scaled(before, 64 - p.kb * (l + 1)), vec![0; p.n], std));
    }
}

entries! {
    fn extprod2() { extprod(P2); }
    fn extprod4() { extprod(P4); }
    fn extprod4b() { extprod(P4B); }
    fn extprod_poly2() { extprod_poly(P2); }
    fn extprod_poly4() { extprod_poly(P4); }
    fn extprod_gadget2() { extprod_gadget(P2); }
    fn extprod_gadget2b() { extprod_gadget(P2B); }
    fn extprod_pb2() { extprod_in(PB2, exact32(PB2)); }
    fn extprod_pb4() { extprod_in(PB4, exact32(PB4)); }
    fn neg_times_pn2() { neg_times_in(PN2, exact32(PN2)); }
    fn cmux_pb2() { cmux_in(PB2, exact32(PB2)); }
    fn cmux2() { cmux(P2); }
    fn cmux4() { cmux(P4B); }
    fn rgsw_add2() { rgsw_add(P2); }
    fn rgsw_scalars2() { rgsw_scalars(P2); }
    fn rgsw_noise2() { rgsw_noise(P2); }
    fn rgsw_noise2b() { rgsw_noise(P2B); }
    fn rgsw_noise4() { rgsw_noise(PB4); }
    fn rgsw_rows_pb4() { rgsw_rows_in(PB4, exact32(PB4)); }
    fn rgsw_rows2() { rgsw_rows(P2); }
    fn rgsw_rows4() { rgsw_rows(P4); }
    fn neg_times2() { neg_times(P2); }
    fn neg_times4() { neg_times(P4B); }
    fn keyswitch_pk2() { keyswitch_in(PK2, 0, exact32(PK2)); }
    fn keyswitch_pk4() { keyswitch_in(PK4, 0, exact32(PK4)); }
    fn keyswitch_fourier_pk2() { keyswitch_in(PK2, 1, exact32(PK2)); }
    fn keyswitch_fourier_pk4() { keyswitch_in(PK4, 1, exact32(PK4)); }
    fn keyswitch_rgsw_pk2() { keyswitch_in(PK2, 2, exact32(PK2)); }
    fn ksk_reuse2() { ksk_reuse(PK2); }
    fn subs_pk2() { subs_in(PK2, false, exact32(PK2)); }
    fn subs_fourier_pk4() { subs_in(PK4, true, exact32(PK4)); }
    fn subs8() { subs(P { n: 8, ..P4B }, false); }
    fn trace_pk2() { trace1_in(PK2, false, exact32(PK2)); }
    fn trace_fourier_pk2() { trace1_in(PK2, true, exact32(PK2)); }
    fn trace8() { cfg(MASKS, 1); trace1(P { n: 8, ..P4B }, false); }
    fn expand_pk2() { expansion_in(PK2, 0, exact32(PK2)); }
    fn expand_fourier_pk2() { expansion_in(PK2, 1, exact32(PK2)); }
    fn expand_slow_pk2() { expansion_in(PK2, 2, exact32(PK2)); }
    fn to_rgsw_pn2() { expansion_in(PN2, 3, exact32(PN2)); }
    fn keyswitch2() { keyswitch(P2, 0); }
    fn keyswitch4() { keyswitch(P4B, 0); }
    fn keyswitch_fourier2() { keyswitch(P2, 1); }
    fn keyswitch_fourier2b() { keyswitch(P2B, 1); }
    fn keyswitch_fourier4() { keyswitch(P4B, 1); }
    fn keyswitch_rgsw2() { keyswitch(P2, 2); }
    fn keyswitch_rgsw4() { keyswitch(P4B, 2); }
    fn subs2() { subs(P2, false); }
    fn subs4() { subs(P4, false); }
    fn subs_fourier2() { subs(P2, true); }
    fn subs_fourier4() { subs(P4B, true); }
    fn trace2() { trace1(P2, false); }
    fn trace4() { trace1(P4, false); }
    fn trace_fourier2() { trace1(P2B, true); }
    fn trace_fourier4() { trace1(P4, true); }
    fn expand2() { expansion(P2, 0); }
    fn expand4() { expansion(P4, 0); }
    fn expand_fourier2() { expansion(P2, 1); }
    fn expand_fourier4() { expansion(P4, 1); }
    fn expand_slow2() { expansion(P2, 2); }
    fn to_rgsw2() { expansion(P2, 3); }
    fn to_rgsw2b() { expansion(P2B, 3); }
    fn make_decomposed2() { make_decomposed(P2); }
    fn make_decomposed4() { make_decomposed(P4B); }
    fn extprod_pl2() { extprod(PL2); }
    fn cmux_pl2() { cmux(PL2); }
    fn rgsw_rows_pl2() { rgsw_rows(PL2); }
    fn neg_times_pl2() { neg_times(PL2); }
    fn keyswitch_pl2() { keyswitch(PL2, 0); }
    fn keyswitch_fourier_pl2() { keyswitch(PL2, 1); }
    fn keyswitch_rgsw_pl2() { keyswitch(PL2, 2); }
    fn subs_pl2() { subs(PL2, false); }
    fn trace_fourier_pl2() { trace1(PL2, true); }
    fn expand_pl2() { expansion(PL2, 0); }
    fn expand_fourier_pl2() { expansion(PL2, 1); }
    fn expand_slow_pl2() { expansion(PL2, 2); }
    fn to_rgsw_pl2() { expansion(PL2, 3); }
    fn make_decomposed_pl2() { make_decomposed(PL2); }
    fn rgsw_noise_pl2() { rgsw_noise(PL2); }
    fn extprod_pd() { extprod(PD); }
    fn extprod_pd8() { extprod(fixed(PD, 8)); }
    fn cmux_pd() { cmux(PD); }
    fn cmux_pd8() { cmux(fixed(PD, 8)); }
    fn rgsw_rows_pd() { rgsw_rows(PD); }
    fn rgsw_rows_pd8() { rgsw_rows(fixed(PD, 8)); }
    fn neg_times_pd() { neg_times(PD); }
    fn neg_times_pd8() { neg_times(fixed(PD, 8)); }
    fn keyswitch_pd() { keyswitch(PD, 0); }
    fn keyswitch_pd8() { keyswitch(fixed(PD, 8), 0); }
    fn keyswitch_fourier_pd() { keyswitch(PD, 1); }
    fn keyswitch_fourier_pd8() { keyswitch(fixed(PD, 8), 1); }
    fn keyswitch_rgsw_pd() { keyswitch(PD, 2); }
    fn keyswitch_rgsw_pd8() { keyswitch(fixed(PD, 8), 2); }
    fn subs_pd() { subs(PD, false); }
    fn subs_pd8() { subs(fixed(PD, 8), false); }
    fn subs_fourier_pd() { subs(PD, true); }
    fn subs_fourier_pd8() { subs(fixed(PD, 8), true); }
    fn trace_pd() { trace1(PD, false); }
    fn trace_pd8() { trace1(fixed(PD, 8), false); }
    fn trace_fourier_pd() { trace1(PD, true); }
    fn trace_fourier_pd8() { trace1(fixed(PD, 8), true); }
    fn expand_pd() { expansion(PD, 0); }
    fn expand_pd8() { expansion(fixed(PD, 8), 0); }
    fn expand_fourier_pd() { expansion(PD, 1); }
    fn expand_fourier_pd8() { expansion(fixed(PD, 8), 1); }
    fn expand_slow_pd() { expansion(PD, 2); }
    fn expand_slow_pd8() { expansion(fixed(PD, 8), 2); }
    fn to_rgsw_pd() { expansion(PD, 3); }
    fn to_rgsw_pd8() { expansion(fixed(PD, 8), 3); }
    fn make_decomposed_pd() { make_decomposed(PD); }
    fn make_decomposed_pd8() { make_decomposed(fixed(PD, 8)); }
    fn rgsw_noise_pd() { rgsw_noise(PD); }
    fn demux2_pd() { demuxes(PD, 2); }
    fn bit_decomposition_pd() { bit_decomposition(PD, 8); }
    fn extprod_8() { extprod(fixed(P4B, 8)); }
    fn cmux_8() { cmux(fixed(P4, 8)); }
    fn rgsw_rows_8() { rgsw_rows(fixed(P4, 8)); }
    fn neg_times_8() { neg_times(fixed(P4B, 8)); }
    fn keyswitch_8() { keyswitch(fixed(P4B, 8), 0); }
    fn keyswitch_fourier_8() { keyswitch(fixed(P4B, 8), 1); }
    fn keyswitch_rgsw_8() { keyswitch(fixed(P4, 8), 2); }
    fn subs_8() { subs(fixed(P4, 8), false); }
    fn subs_fourier_8() { subs(fixed(P4B, 8), true); }
    fn trace_8() { trace1(fixed(P4, 8), false); }
    fn trace_fourier_8() { trace1(fixed(P4B, 8), true); }
    fn expand_8() { expansion(fixed(P4, 8), 0); }
    fn expand_fourier_8() { expansion(fixed(P4B, 8), 1); }
    fn expand_slow_8() { expansion(fixed(P4, 8), 2); }
    fn to_rgsw_8() { expansion(fixed(P4, 8), 3); }
    fn make_decomposed_8() { make_decomposed(fixed(P4B, 8)); }
    fn fresh_rlwe_8() { fresh_randomness(P { n: 8, ..P4 }, 0); }
    fn extprod_16() { extprod(fixed(P4B, 16)); }
    fn cmux_16() { cmux(fixed(P4, 16)); }
    fn rgsw_rows_16() { rgsw_rows(fixed(P4, 16)); }
    fn neg_times_16() { neg_times(fixed(P4B, 16)); }
    fn keyswitch_16() { keyswitch(fixed(P4B, 16), 0); }
    fn keyswitch_fourier_16() { keyswitch(fixed(P4B, 16), 1); }
    fn keyswitch_rgsw_16() { keyswitch(fixed(P4, 16), 2); }
    fn subs_16() { subs(fixed(P4, 16), false); }
    fn subs_fourier_16() { subs(fixed(P4B, 16), true); }
    fn trace_16() { trace1(fixed(P4, 16), false); }
    fn trace_fourier_16() { trace1(fixed(P4B, 16), true); }
    fn expand_16() { expansion(fixed(P4, 16), 0); }
    fn expand_fourier_16() { expansion(fixed(P4B, 16), 1); }
    fn expand_slow_16() { expansion(fixed(P4, 16), 2); }
    fn to_rgsw_16() { expansion(fixed(P4, 16), 3); }
    fn make_decomposed_16() { make_decomposed(fixed(P4B, 16)); }
    fn fresh_rlwe_16() { fresh_randomness(P { n: 16, ..P4 }, 0); }
    fn extprod_32() { extprod(fixed(P4B, 32)); }
    fn cmux_32() { cmux(fixed(P4, 32)); }
    fn rgsw_rows_32() { rgsw_rows(fixed(P4, 32)); }
    fn neg_times_32() { neg_times(fixed(P4B, 32)); }
    fn keyswitch_32() { keyswitch(fixed(P4B, 32), 0); }
    fn keyswitch_fourier_32() { keyswitch(fixed(P4B, 32), 1); }
    fn keyswitch_rgsw_32() { keyswitch(fixed(P4, 32), 2); }
    fn subs_32() { subs(fixed(P4, 32), false); }
    fn subs_fourier_32() { subs(fixed(P4B, 32), true); }
    fn trace_32() { trace1(fixed(P4, 32), false); }
    fn trace_fourier_32() { trace1(fixed(P4B, 32), true); }
    fn expand_32() { expansion(fixed(P4, 32), 0); }
    fn expand_fourier_32() { expansion(fixed(P4B, 32), 1); }
    fn expand_slow_32() { expansion(fixed(P4, 32), 2); }
    fn to_rgsw_32() { expansion(fixed(P4, 32), 3); }
    fn make_decomposed_32() { make_decomposed(fixed(P4B, 32)); }
    fn fresh_rlwe_32() { fresh_randomness(P { n: 32, ..P4 }, 0); }
    fn keyswitch_64() { keyswitch(fixed_key(P4B, 64), 0); }
    fn keyswitch_fourier_64() { keyswitch(fixed_key(P4B, 64), 1); }
    fn trace_64() { trace1(fixed_key(P4, 64), false); }
    fn trace_fourier_64() { trace1(fixed_key(P4B, 64), true); }
    fn make_decomposed_tight() { let p = P { n: 4, b: 31, l: 2, kb: 31, kl: 2, nb: 31, nl: 2, t: 2 }; make_decomposed_in(p, exact32(p)); }
    fn bit_decomposition8() { bit_decomposition(P2, 8); }
    fn bit_decomposition16() { bit_decomposition(P2, 16); }
    fn demux5() { demux_large(PB2, 5); }
    fn demux4() { demux_large(PB2, 4); }
    fn demux_pb2() { demuxes_in(PB2, 2, exact32(PB2)); }
    fn fresh_rlwe() { fresh_randomness(P2, 0); }
    fn fresh_rlwe4() { fresh_randomness(P4, 0); }
    fn fresh_rgsw() { fresh_randomness(P2, 1); }
    fn fresh_neg() { fresh_randomness(P2, 2); }
    fn fresh_neg4() { fresh_randomness(P4B, 2); }
    fn fresh_ksk() { fresh_randomness(P2, 3); }
    fn fresh_ksk4() { fresh_randomness(P4B, 3); }
    fn fresh_lwe_ksk() { fresh_randomness(P2B, 4); }
    fn fresh_decomposed() { fresh_randomness(P2B, 5); }
    fn fresh_features() { fresh_randomness(P2B, 6); }
    fn fresh_lwe() { fresh_randomness(P2, 7); }
    fn fresh_lwe4() { fresh_randomness(P4, 7); }
    fn fresh_fourier_ksk() { fresh_randomness(P2, 8); }
    fn fresh_fourier_ksk4() { fresh_randomness(P4B, 8); }
    fn extprod_pt2() { extprod(PT2); }
    fn extprod_pw2() { extprod(PW2); }
    fn cmux_pw2() { cmux(PW2); }
    fn cmux_pt2() { cmux(PT2); }
    fn rgsw_rows_pt2() { rgsw_rows(PT2); }
    fn rgsw_rows_pw2() { rgsw_rows(PW2); }
    fn neg_times_pt2() { neg_times(PT2); }
    fn neg_times_pw2() { neg_times(PW2); }
    fn keyswitch_pt2() { keyswitch(PT2, 0); }
    fn keyswitch_pw2() { keyswitch(PW2, 0); }
    fn keyswitch_fourier_pt2() { keyswitch(PT2, 1); }
    fn keyswitch_fourier_pw2() { keyswitch(PW2, 1); }
    fn keyswitch_rgsw_pt2() { keyswitch(PT2, 2); }
    fn keyswitch_rgsw_pw2() { keyswitch(PW2, 2); }
    fn subs_pt2() { subs(PT2, false); }
    fn subs_fourier_pw2() { subs(PW2, true); }
    fn trace_pt2() { trace1(PT2, true); }
    fn trace_pw2() { trace1(PW2, false); }
    fn to_rgsw_pt2() { expansion(PT2, 3); }
    fn to_rgsw_pw2() { expansion(PW2, 3); }
    fn make_decomposed_pt2() { make_decomposed(PT2); }
    fn fresh_bits() { fresh_randomness(P2, 9); }
    fn demux2() { demuxes(P2, 2); }
    fn demux3() { demuxes(P2, 3); }
    fn demux_sym2() { demux_sym(P2, 2); }
    fn demux_sym3() { demux_sym(P2, 3); }
}
