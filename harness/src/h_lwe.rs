//! Scalar ciphertexts: encryption, extraction, conversion.
use pan as panacea;
use super::vh::*;
use concrete_core::prelude::DispersionParameter;
use panacea::lwe::*;
use panacea::rlwe::*;

fn logt(p: &P) -> usize {
    p.t.trailing_zeros() as usize
}
fn dec(sk: &LWESecretKey, ct: &LWECiphertext) -> u64 {
    let mut o = scalar(0);
    sk.decrypt_lwe(&mut o, ct);
    o.0
}
fn lsk_encrypt(sk: &LWESecretKey, ct: &mut LWECiphertext, m: u64, ctx: &mut panacea::context::Context) {
    sk.encrypt_lwe(ct, &scalar(m), ctx.std, &mut ctx.encryption_generator);
}
fn roundtrip(p: P, noise: u64) {
    cfg(NOISE, noise);
    let mut ctx = p.ctx();
    let sk = ctx.gen_lwe_sk();
    check(sk.key_size().0 == p.n, "key dimension");
    let m = u64s("m", logt(&p) as u32);
    let mut ct = LWECiphertext::allocate(ctx.lwe_size());
    check(ct.lwe_size().0 == p.n + 1, "ciphertext size");
    if choose(2) == 1 {
        // the ciphertext was used before
        let old = u64s("old", 64);
        lsk_encrypt(&sk, &mut ct, old, &mut ctx);
    }
    let d0 = draw_count();
    let pt = scalar(m);
    sk.encode_encrypt_lwe(&mut ct, &pt, &mut ctx);
    eq(pt.0, m, "encryption leaves the plaintext alone");
    // fresh randomness: n uniform mask values and one error of the configured deviation
    let (mut u, mut g) = (0, 0);
    for k in d0..draw_count() {
        match draw_info(k, 3) {
            0 => u += 1,
            3 => {
                check(f64::from_bits(draw_info(k, 4)) == ctx.std.get_standard_dev(), "the error has the configured deviation");
                g += 1
            }
            _ => fail("unexpected randomness"),
        }
    }
    check(u == p.n && g >= 1, "one uniform mask value per coordinate and an error");
    check(repeat_count() == 0, "no random value is used twice");
    near(dec(&sk, &ct), m << (64 - logt(&p)), (1 << noise) - 1, 0, "fresh ciphertext carries only the sampled noise");
    let mut o = scalar(0);
    sk.decode_decrypt_lwe(&mut o, &ct, &ctx);
    eq(o.0, m, "decrypt(encrypt(m)) == m");
    // copies
    let mut ct2 = LWECiphertext::allocate(ctx.lwe_size());
    ct2.fill_with_tensor(ct.as_tensor());
    sk.decode_decrypt_lwe(&mut o, &ct2, &ctx);
    eq(o.0, m, "a copy decrypts alike");
    ct2.clear();
    eq(dec(&sk, &ct2), 0, "a cleared ciphertext is a trivial zero");
    reach("end");
}
fn raw(p: P) {
    cfg(NOISE, 30);
    let mut ctx = p.ctx();
    let sk = ctx.gen_lwe_sk();
    let m = if choose(4) == 0 { 0 } else { u64s("m", 64) };
    let mut ct = LWECiphertext::allocate(ctx.lwe_size());
    if choose(2) == 1 {
        let old = u64s("old", 64);
        lsk_encrypt(&sk, &mut ct, old, &mut ctx);
    }
    sk.encrypt_lwe(&mut ct, &scalar(m), ctx.std, &mut ctx.encryption_generator);
    near(dec(&sk, &ct), m, (1 << 30) - 1, 0, "raw encryption of a full-width value");
    reach("end");
}
fn extract(p: P, noise: u64) {
    cfg(NOISE, noise);
    let mut ctx = p.ctx();
    let lsk = ctx.gen_lwe_sk();
    let sk = lsk.to_rlwe_sk();
    let m = sym_pt("m", p.n, logt(&p) as u32);
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    sk.encode_encrypt_rlwe(&mut c, &m, &mut ctx);
    let ph = phase(&sk, &c);
    let i = choose(p.n);
    let mut l = LWECiphertext::allocate(ctx.lwe_size());
    if choose(2) == 1 {
        let old = u64s("old", 64);
        lsk_encrypt(&lsk, &mut l, old, &mut ctx);
    }
    l.fill_with_sample_extract(&c, MonomialDegree(i));
    eq_tol(dec(&lsk, &l), ph[i], SLACK, "the extracted sample has the phase of its coefficient");
    let mut o = scalar(0);
    lsk.decode_decrypt_lwe(&mut o, &l, &ctx);
    eq(o.0, pt_get(&m, i), "the extracted sample decrypts to its coefficient");
    let mut l0 = LWECiphertext::allocate(ctx.lwe_size());
    l0.fill_with_const_sample_extract(&c);
    lsk.decode_decrypt_lwe(&mut o, &l0, &ctx);
    eq(o.0, pt_get(&m, 0), "constant extraction takes coefficient zero");
    reach("end");
}
fn conv(p: P) {
    conv_in(p, exact(p));
}
fn conv_in(p: P, mut ctx: panacea::context::Context) {
    let lsk = ctx.gen_lwe_sk();
    let sk = lsk.to_rlwe_sk();
    let mut ksk = LWEtoRLWEKeyswitchKey::allocate(&ctx);
    ksk.fill_with_keyswitching_key(&lsk, &mut ctx);
    let m = u64s("m", logt(&p) as u32);
    let mut l = LWECiphertext::allocate(ctx.lwe_size());
    lsk.encode_encrypt_lwe(&mut l, &scalar(m), &mut ctx);
    let out = conv_lwe_to_rlwe(&ksk, &l, &ctx);
    let ph = phase(&sk, &out);
    eq_tol(ph[0], m << (64 - logt(&p)), SLACK, "conversion keeps the message in the constant coefficient");
    for i in 1..p.n {
        eq_tol(ph[i], 0, SLACK, "the other coefficients encrypt zero");
    }
    let mut o = ctx.gen_zero_pt();
    sk.decrypt_decode_rlwe(&mut o, &out, &ctx);
    eq(pt_get(&o, 0), m, "the converted ciphertext decrypts to the message");
    reach("end");
}
/// extraction followed by conversion moves one coefficient to the front
fn extract_conv(p: P) {
    let mut ctx = exact(p);
    let lsk = ctx.gen_lwe_sk();
    let sk = lsk.to_rlwe_sk();
    let mut ksk = LWEtoRLWEKeyswitchKey::allocate(&ctx);
    ksk.fill_with_keyswitching_key(&lsk, &mut ctx);
    let m = sym_pt("m", p.n, logt(&p) as u32);
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    sk.encode_encrypt_rlwe(&mut c, &m, &mut ctx);
    let i = choose(p.n);
    let mut l = LWECiphertext::allocate(ctx.lwe_size());
    l.fill_with_sample_extract(&c, MonomialDegree(i));
    let out = conv_lwe_to_rlwe(&ksk, &l, &ctx);
    phase_is(&sk, &out, &cst(p.n, pt_get(&m, i) << (64 - logt(&p))), "extract then convert");
    reach("end");
}

entries! {
    fn lwe_roundtrip2() { roundtrip(P2, 40); }
    fn lwe_roundtrip4() { roundtrip(P4, 58); }
    fn lwe_roundtrip8() { let mut p = P4; p.n = 8; p.t = 2; roundtrip(p, 60); }
    fn lwe_roundtrip_t256() { let mut p = P2; p.t = 256; roundtrip(p, 54); }
    fn lwe_raw2() { raw(P2); }
    fn lwe_raw4() { raw(P4); }
    fn lwe_roundtrip_16() { roundtrip(fixed(P4, 16), 40); }
    fn lwe_extract_16() { extract(fixed(P4, 16), 40); }
    fn lwe_roundtrip_64() { roundtrip(fixed(P4, 64), 40); }
    fn lwe_extract_64() { extract(fixed(P4, 64), 40); }
    fn lwe_conv_pd() { conv(PD); }
    fn lwe_conv_pd8() { conv(fixed(PD, 8)); }
    fn lwe_extract_conv_pd8() { extract_conv(fixed(PD, 8)); }
    fn lwe_conv_16() { conv(fixed(P4B, 16)); }
    fn lwe_extract_conv_16() { extract_conv(fixed(P4, 16)); }
    fn lwe_conv_32() { conv(fixed(P4B, 32)); }
    fn lwe_extract_conv_32() { extract_conv(fixed(P4, 32)); }
    fn lwe_extract2() { extract(P2, 40); }
    fn lwe_extract4() { extract(P4, 40); }
    fn lwe_extract8() { let mut p = P4; p.n = 8; extract(p, 40); }
    fn lwe_conv2() { conv(P2); }
    fn lwe_conv2b() { conv(P2B); }
    fn lwe_conv_ks2() { conv_in(PK2, exact32(PK2)); }
    fn lwe_conv_ks4() { conv_in(PK4, exact32(PK4)); }
    fn lwe_conv4() { conv(P4); }
    fn lwe_conv8() { let mut p = P4B; p.n = 8; conv(p); }
    fn lwe_extract_conv2() { extract_conv(P2); }
    fn lwe_extract_conv4() { extract_conv(P4); }
}
