//! Parameters, context, randomness.
use pan as panacea;
use super::vh::*;
use concrete_core::commons::math::tensor::AsMutTensor;
use concrete_core::prelude::DispersionParameter;
use panacea::context::Context;
use panacea::codec::Codec;
use panacea::lwe::*;
use panacea::params::*;
use panacea::rgsw::*;
use panacea::rlwe::*;
use panacea::utils::*;

fn any_params() -> TFHEParameters {
    TFHEParameters {
        standard_deviation: [-55.0, -25.0, -17.5][choose(3)],
        polynomial_size: [2, 4, 64, 2048][choose(4)],
        base_log: u64s("base_log", 6) as usize,
        level_count: u64s("level_count", 6) as usize,
        key_switch_base_log: u64s("ks_base_log", 6) as usize,
        key_switch_level_count: u64s("ks_level_count", 6) as usize,
        negs_base_log: u64s("negs_base_log", 6) as usize,
        negs_level_count: u64s("negs_level_count", 6) as usize,
        plaintext_modulus: 1 << (1 + choose(63)),
        secure_seed: choose(2) == 1,
    }
}
fn ctx_params() {
    let p = any_params();
    let c = Context::new(p.clone());
    check(c.std.get_log_standard_dev() == p.standard_deviation, "the configured noise deviation is used");
    eq(c.poly_size.0 as u64, p.polynomial_size as u64, "polynomial size");
    eq(c.base_log.0 as u64, p.base_log as u64, "decomposition base");
    eq(c.level_count.0 as u64, p.level_count as u64, "decomposition levels");
    eq(c.ks_base_log.0 as u64, p.key_switch_base_log as u64, "key switching base");
    eq(c.ks_level_count.0 as u64, p.key_switch_level_count as u64, "key switching levels");
    eq(c.negs_base_log.0 as u64, p.negs_base_log as u64, "base of the -s key");
    eq(c.negs_level_count.0 as u64, p.negs_level_count as u64, "levels of the -s key");
    eq(c.codec.pt_modulus(), p.plaintext_modulus, "plaintext modulus");
    check(1u64 << c.codec.pt_modulus_bits() == p.plaintext_modulus, "plaintext modulus bits");
    check(c.lwe_dim().0 == p.polynomial_size, "scalar dimension");
    check(c.lwe_size().0 == p.polynomial_size + 1, "scalar ciphertext size");
    check(c.plaintext_count().0 == p.polynomial_size, "plaintext length");
    reach("end");
}
fn ctx_bad_modulus() {
    let t = u64s("t", 64);
    assume(t & t.wrapping_sub(1) != 0 || t == 0);
    cfg(EXPECT_PANIC, 1);
    let c = Codec::new(t);
    fail("a plaintext modulus that is no power of two was accepted");
}
fn plaintexts(n: usize, logt: usize) {
    let mut p = P2;
    p.n = n;
    p.t = 1 << logt;
    let mut c = p.ctx();
    let a = c.gen_pt();
    let b = c.gen_binary_pt();
    let s = c.gen_scalar_binary_pt();
    let t = c.gen_ternary_ptxt();
    check(a.count().0 == n && b.count().0 == n && t.count().0 == n, "plaintexts have the ring's length");
    for i in 0..n {
        check(pt_get(&a, i) < p.t, "random plaintexts lie in the plaintext space");
        check(pt_get(&b, i) < 2, "binary plaintexts are binary");
        let x = pt_get(&t, i);
        check((x == 0) | (x == 1) | (x == u64::MAX), "ternary plaintexts are ternary");
    }
    check(s.0 < 2, "a binary scalar is binary");
    let (u, z) = (c.gen_unit_pt(), c.gen_zero_pt());
    check(u.count().0 == n && z.count().0 == n, "constants have the ring's length");
    check(coeffs(&u) == cst(n, 1), "the unit is the constant one");
    check(coeffs(&z) == cst(n, 0), "zero is zero");
    check(c.gen_scalar_unit_pt().0 == 1 && c.gen_scalar_zero_pt().0 == 0, "scalar constants");
    for i in 0..n {
        let d = c.gen_demuxed_pt(i);
        let mut w = vec![0; n];
        w[i] = 1;
        check(coeffs(&d) == w, "a monomial plaintext has a single one");
    }
    reach("end");
}
/// every plaintext can occur (an infeasible path here is reported as a violation)
fn plaintexts_cover(n: usize, logt: usize) {
    let mut p = P2;
    p.n = n;
    p.t = 1 << logt;
    let mut c = p.ctx();
    let a = c.gen_pt();
    let b = c.gen_binary_pt();
    let t = c.gen_ternary_ptxt();
    check(repeat_count() == 0, "no random value is used twice");
    for i in 0..n {
        let v = choose(1 << logt) as u64;
        assume(pt_get(&a, i) == v);
        let v = choose(2) as u64;
        assume(pt_get(&b, i) == v);
        let v = [0, 1, u64::MAX][choose(3)];
        assume(pt_get(&t, i) == v);
    }
    reach("possible");
}
/// every bit of a random plaintext can be both zero and one, and all at once, whatever the modulus
fn plaintexts_wide(n: usize) {
    let mut p = P2;
    p.n = n;
    let logt = [9, 16, 17, 33, 63][choose(5)];
    p.t = 1 << logt;
    let mut c = p.ctx();
    let a = c.gen_pt();
    let i = choose(n);
    let x = pt_get(&a, i);
    match choose(3) {
        0 => assume(x == p.t - 1),
        1 => assume(x == p.t / 2),
        _ => assume(x == 0),
    }
    reach("possible");
}
fn keys(n: usize) {
    let mut p = P2;
    p.n = n;
    let mut c = p.ctx();
    let sk = c.gen_rlwe_sk();
    let d1 = draw_count();
    let sk2 = c.gen_rlwe_sk();
    let l = c.gen_lwe_sk();
    check(repeat_count() == 0, "keys use disjoint randomness");
    check(sk.polynomial_size().0 == n && l.key_size().0 == n, "key sizes");
    // encrypting zero under a trivial mask reveals the key bits: phase of (mask 1, body 0) is -s
    let mut ct = RLWECiphertext::allocate(c.poly_size);
    *ct.get_mut_mask().as_mut_tensor().get_element_mut(0) = 1;
    for (k, from) in [(&sk, d1 - n), (&sk2, d1)] {
        let ph = phase(k, &ct);
        for i in 0..n {
            let s = ph[i].wrapping_neg();
            check(s < 2, "secret keys are binary");
            eq(s, draw_info(from + i, 5), "every key bit is its own random draw");
            check(draw_info(from + i, 3) == 1, "key bits are uniform binary");
        }
    }
    let r = l.to_rlwe_sk();
    let ph = phase(&r, &ct);
    for i in 0..n {
        eq(ph[i].wrapping_neg(), draw_info(d1 + n + i, 5), "the polynomial form of a scalar key has the same coefficients");
    }
    reach("end");
}
/// independent contexts do not share any stream when seeded securely
fn secure_seed(two: bool) {
    let p = P2;
    let mut a = p.ctx();
    let mut b = p.ctx();
    for c in [&mut a, &mut b] {
        let sk = c.gen_rlwe_sk();
        let m = c.gen_pt();
        let mut ct = RLWECiphertext::allocate(c.poly_size);
        sk.encode_encrypt_rlwe(&mut ct, &m, c);
        if two {
            let ksk = sk.neg_gsw(c);
        }
    }
    check(repeat_count() == 0, "independently created contexts never reuse randomness");
    let n = draw_count();
    for i in 0..n {
        check(draw_info(i, 0) != 0 || draw_info(i, 1) != 0, "seeds are taken from the entropy source");
        for j in 0..i {
            let same = draw_info(i, 0) == draw_info(j, 0) && draw_info(i, 1) == draw_info(j, 1);
            if same {
                check((draw_info(i, 3) == 1) == (draw_info(j, 3) == 1), "key bits and public masks come from different streams");
            }
        }
    }
    reach("end");
}
/// the insecure mode is reproducible
fn fixed_seed() {
    let mut q = P2.params();
    q.secure_seed = false;
    let mut out: Vec<Vec<u64>> = vec![];
    for _ in 0..2 {
        let mut c = Context::new(q.clone());
        let sk = c.gen_rlwe_sk();
        let m = c.gen_pt();
        let mut ct = RLWECiphertext::allocate(c.poly_size);
        sk.encode_encrypt_rlwe(&mut ct, &m, &mut c);
        let mut v = coeffs(&m);
        v.extend(slice_of(&ct.get_mask()));
        v.extend(slice_of(&ct.get_body()));
        out.push(v);
    }
    for (x, y) in out[0].iter().zip(&out[1]) {
        eq(*x, *y, "with the fixed seed two contexts produce the same values");
    }
    reach("end");
}
fn params_list() {
    let groups = choose(3);
    let mut list = vec![];
    let mut want: Vec<(u64, u64)> = vec![];
    for _ in 0..groups {
        let (no, nt) = (choose(3), choose(3));
        let mut os = vec![];
        let mut ts = vec![];
        for _ in 0..no {
            let v = u64s("o", 32);
            os.push(match choose(3) {
                0 => ORAMParameters::SingleQuery { item_count: v as usize, iterations: 1 },
                1 => ORAMParameters::MultiQuery { item_count: v as usize, query_count: 2, iterations: 1 },
                _ => ORAMParameters::Batched { rows: v as usize, cols: 3, iterations: 1 },
            });
        }
        for _ in 0..nt {
            let v = u64s("t", 32);
            ts.push(TFHEParameters { plaintext_modulus: v, ..P2.params() });
        }
        for o in &os {
            for t in &ts {
                want.push((key(o), t.plaintext_modulus));
            }
        }
        list.push((os, ts));
    }
    let got = ServerParams::from_input_params_list(InputParamsList { list });
    check(got.len() == want.len(), "one configuration per pair within a group");
    for (g, w) in got.iter().zip(&want) {
        eq(key(&g.oram), w.0, "store parameters in order");
        eq(g.tfhe.plaintext_modulus, w.1, "encryption parameters in order");
    }
    reach("end");
}
fn key(o: &ORAMParameters) -> u64 {
    match o {
        ORAMParameters::SingleQuery { item_count, iterations } => *item_count as u64,
        ORAMParameters::MultiQuery { item_count, query_count, iterations } => *item_count as u64 + (1 << 40),
        ORAMParameters::Batched { rows, cols, iterations } => *rows as u64 + (2 << 40),
    }
}
fn util_log2() {
    let x = u64s("x", 64);
    assume(x > 0);
    let l = log2(x as usize);
    check(l < 64, "logarithm of a machine word");
    check((x >> l) == 1, "log2 is the position of the leading bit");
    reach("end");
}
/// values next to the powers of two, one by one
fn util_log2_edges() {
    let k = choose(64) as u32;
    let p = 1u64 << k;
    for x in [p, p + 1, p + p / 3, p + (p - 1)] {
        if x < p || (x > p && k == 0) {
            continue;
        }
        check(log2(x as usize) == k as usize, "log2 is the position of the leading bit");
    }
    reach("end");
}
/// the largest errors that decode, at the ends and in the middle of the plaintext range
fn decode_edges(lo: usize, hi: usize) {
    let k = lo + choose(hi - lo + 1);
    let (t, delta) = (1u64 << k, 1u64 << (64 - k));
    let c = Codec::new(t);
    let h = delta / 2;
    for m in [0, 1, t / 2, t - 1] {
        for e in [0, 1, h - 1, h.wrapping_neg().wrapping_add(1), 1u64.wrapping_neg()] {
            if h == 1 && e != 0 {
                continue;
            }
            let mut x = (m.wrapping_mul(delta)).wrapping_add(e);
            c.decode(&mut x);
            check(x == m, "errors below half a step decode");
        }
    }
    reach("end");
}
fn util_transpose() {
    let (r, c) = (1 + choose(4), choose(4));
    let v: Vec<Vec<u64>> = (0..r).map(|_| (0..c).map(|_| u64s("v", 64)).collect()).collect();
    let t = transpose(v.clone());
    check(t.len() == c, "columns become rows");
    for j in 0..c {
        check(t[j].len() == r, "rows become columns");
        for i in 0..r {
            eq(t[j][i], v[i][j], "transposition");
        }
    }
    reach("end");
}
/// `free` neighbouring coefficients are symbolic, the others all zero or all one
fn util_lossy(n: usize, free: usize) {
    let base = choose(2) as u64;
    let mut p = pt_from(&vec![base; n]);
    let at = if free < n { choose(n - free + 1) } else { 0 };
    for i in at..at + free {
        pt_set(&mut p, i, u64s("b", 1));
    }
    let v = pt_to_lossy_u64(&p);
    for i in 0..n.min(64) {
        eq((v >> i) & 1, pt_get(&p, i), "bit i is coefficient i");
    }
    if n < 64 {
        eq(v >> n, 0, "no other bits");
    }
    reach("end");
}
fn util_lossy_reject() {
    let p = sym_pt("b", 4, 64);
    assume(pt_get(&p, 0) > 1 || pt_get(&p, 1) > 1 || pt_get(&p, 2) > 1 || pt_get(&p, 3) > 1);
    cfg(EXPECT_PANIC, 1);
    pt_to_lossy_u64(&p);
    fail("a polynomial that is not binary was packed");
}
fn ternary() {
    let x = u64s("x", 64);
    assume(x == 0 || x == 1 || x == u64::MAX);
    let mut y = x;
    Codec::ternary_encode(&mut y);
    // a third of the torus apart, and any error below a sixth (minus the rounding of the constants) is removed
    let e = u64s("e", 64);
    let bound = (u64::MAX / 6) - 4096;
    assume(e < bound || e > bound.wrapping_neg());
    let mut z = y.wrapping_add(e);
    Codec::ternary_decode(&mut z);
    eq(z, x, "ternary decode(encode(x) + e) == x");
    reach("end");
}
fn ternary_total() {
    let mut x = u64s("x", 64);
    Codec::ternary_decode(&mut x);
    check((x == 0) | (x == 1) | (x == u64::MAX), "ternary decoding yields a ternary value");
    reach("end");
}
fn ternary_reject() {
    let mut x = u64s("x", 64);
    assume(x != 0 && x != 1 && x != u64::MAX);
    cfg(EXPECT_PANIC, 1);
    Codec::ternary_encode(&mut x);
    fail("a value that is not ternary was encoded");
}
fn decode_nearest() {
    let logt = 1 + choose(63);
    let c = Codec::new(1 << logt);
    let x = u64s("x", 64);
    let mut y = x;
    c.decode(&mut y);
    check(y < c.pt_modulus(), "decoding yields a plaintext");
    // distance to the nearest multiple
    let d = x.wrapping_sub(y << (64 - logt));
    let le = c.largest_error();
    check(d <= le || d >= le.wrapping_neg(), "decoding picks a nearest plaintext");
    reach("end");
}
fn poly_codec() {
    use concrete_core::commons::math::polynomial::Polynomial;
    let n = 4;
    let logt = [1, 4, 8][choose(3)];
    let c = Codec::new(1 << logt);
    let m: Vec<u64> = (0..n).map(|_| u64s("m", logt)).collect();
    let mut p = Polynomial::from_container(m.clone());
    c.poly_encode(&mut p);
    for (a, b) in slice_of(&p).iter().zip(&m) {
        eq(*a, b << (64 - logt), "polynomial encoding scales every coefficient");
    }
    c.poly_decode(&mut p);
    for (a, b) in slice_of(&p).iter().zip(&m) {
        eq(*a, *b, "polynomial decoding inverts");
    }
    let t: Vec<u64> = (0..n).map(|_| [0, 1, u64::MAX][choose(3)]).collect();
    let mut p = Polynomial::from_container(t.clone());
    Codec::poly_ternary_encode(&mut p);
    Codec::poly_ternary_decode(&mut p);
    for (a, b) in slice_of(&p).iter().zip(&t) {
        eq(*a, *b, "ternary polynomial round trip");
    }
    reach("end");
}

entries! {
    fn ctx_mapping() { ctx_params(); }
    fn ctx_modulus_refused() { ctx_bad_modulus(); }
    fn ctx_plaintexts2() { plaintexts(2, 4); }
    fn ctx_plaintexts4() { plaintexts(4, 1); }
    fn ctx_plaintexts3() { plaintexts(3, 13); }
    fn ctx_plaintexts_cover() { plaintexts_cover(2, 2); }
    fn ctx_plaintexts_wide() { plaintexts_wide(2); }
    fn ctx_keys2() { keys(2); }
    fn ctx_keys8() { keys(8); }
    fn ctx_keys64() { keys(64); }
    fn ctx_keys256() { keys(256); }
    fn ctx_plaintexts16() { plaintexts(16, 20); }
    fn ctx_plaintexts64() { plaintexts(64, 3); }
    fn ctx_plaintexts_wide64() { plaintexts_wide(64); }
    fn ctx_secure_seed() { secure_seed(false); }
    fn ctx_secure_seed_keys() { secure_seed(true); }
    fn ctx_fixed_seed() { fixed_seed(); }
    fn ctx_params_list() { params_list(); }
    fn util_log2_any() { util_log2(); }
    fn util_log2_powers() { util_log2_edges(); }
    fn codec_edges() { decode_edges(1, 63); }
    fn util_transpose_any() { util_transpose(); }
    fn util_lossy4() { util_lossy(4, 4); }
    fn util_lossy64() { util_lossy(64, 2); }
    fn util_lossy128() { util_lossy(128, 1); }
    fn util_lossy_refused() { util_lossy_reject(); }
    fn codec_ternary() { ternary(); }
    fn codec_ternary_total() { ternary_total(); }
    fn codec_ternary_refused() { ternary_reject(); }
    fn codec_nearest() { decode_nearest(); }
    fn codec_poly() { poly_codec(); }
}
