//! Interface to the verification environment (symbolic engine or native replay).
use pan as panacea;
use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
pub use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, MonomialDegree, PolynomialSize};
use concrete_core::commons::math::tensor::{AsMutSlice, AsMutTensor, AsRefSlice, AsRefTensor};
use panacea::context::Context;
use panacea::num_types::Scalar;
use panacea::params::TFHEParameters;
use panacea::rlwe::{RLWECiphertext, RLWESecretKey};

mod ffi {
    extern "C" {
        pub fn __vp_u64(p: *const u8, n: usize, bits: u32) -> u64;
        pub fn __vp_assume(c: bool);
        pub fn __vp_assert(c: bool, p: *const u8, n: usize);
        pub fn __vp_assert_eq(a: u64, b: u64, tol: u64, p: *const u8, n: usize);
        pub fn __vp_assert_near(a: u64, b: u64, bound: u64, tol: u64, p: *const u8, n: usize);
        pub fn __vp_same(a: u64, b: u64, tol: u64) -> bool;
        pub fn __vp_choose(n: u64) -> u64;
        pub fn __vp_cfg(k: u64, v: u64);
        pub fn __vp_reach(p: *const u8, n: usize);
        pub fn __vp_fail(p: *const u8, n: usize);
        pub fn __vp_trace(v: u64, p: *const u8, n: usize);
        pub fn __vp_draw_count() -> u64;
        pub fn __vp_repeat_count() -> u64;
        pub fn __vp_draw_info(i: u64, f: u64) -> u64;
    }
}
pub fn u64s(name: &str, bits: u32) -> u64 {
    unsafe { ffi::__vp_u64(name.as_ptr(), name.len(), bits) }
}
pub fn assume(c: bool) {
    unsafe { ffi::__vp_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { ffi::__vp_assert(c, m.as_ptr(), m.len()) }
}
/// exact equality for every symbolic value; the native replay accepts `2^tol_log` of
/// floating-point rounding (0: exact)
pub fn eq_tol(a: u64, b: u64, tol: u64, m: &str) {
    unsafe { ffi::__vp_assert_eq(a, b, tol, m.as_ptr(), m.len()) }
}
pub fn eq(a: u64, b: u64, m: &str) {
    eq_tol(a, b, 0, m)
}
pub fn near(a: u64, b: u64, bound: u64, tol: u64, m: &str) {
    unsafe { ffi::__vp_assert_near(a, b, bound, tol, m.as_ptr(), m.len()) }
}
/// the two values coincide for all values of the symbolic variables
pub fn same(a: u64, b: u64, tol: u64) -> bool {
    unsafe { ffi::__vp_same(a, b, tol) }
}
/// Consumes random draws: every value looked for has to be a draw that was not used before.
pub struct Fresh {
    pub from: usize,
    used: Vec<bool>,
    next: usize,
}
impl Fresh {
    /// the draws from number `from` on
    pub fn new(from: usize) -> Fresh {
        Fresh { from, used: vec![false; draw_count() - from], next: 0 }
    }
    /// the unused draw of this kind that is `x`, up to one of the known summands `off` and its sign
    pub fn find(&mut self, x: u64, off: &[u64], kind: u64, tol: u64) -> Option<usize> {
        let n = self.used.len();
        for s in 0..n {
            let k = (self.next + s) % n;
            if self.used[k] || draw_info(self.from + k, 3) != kind || (kind == 0 && draw_info(self.from + k, 6) != 8) {
                continue;
            }
            let v = draw_info(self.from + k, 5);
            for o in off {
                let y = x.wrapping_sub(*o);
                if same(y, v, tol) || same(y, v.wrapping_neg(), tol) {
                    self.used[k] = true;
                    self.next = k + 1;
                    return Some(self.from + k);
                }
            }
        }
        None
    }
    pub fn take(&mut self, x: u64, off: &[u64], kind: u64, tol: u64) -> bool {
        self.find(x, off, kind, tol).is_some()
    }
    /// the mask of `ct` (up to `off` in its constant term, or `poly`) and its error with respect to `want` are draws of their own
    pub fn row(&mut self, sk: &RLWESecretKey, ct: &RLWECiphertext, want: &[u64], off: &[u64], std: f64) {
        let m = slice_of(&ct.get_mask());
        for i in 0..m.len() {
            check(self.take(m[i], &[0, off[i], off[i].wrapping_neg()], 0, 0), "every mask coefficient is a uniform value drawn for it alone");
        }
        let ph = phase(sk, ct);
        for i in 0..want.len() {
            match self.find(ph[i].wrapping_sub(want[i]), &[0], 3, SLACK) {
                None => check(false, "every error coefficient is a noise sample drawn for it alone"),
                Some(k) => check(f64::from_bits(draw_info(k, 4)) == std, "the noise has the configured deviation"),
            }
        }
    }
    /// number of draws of a kind that were not taken
    pub fn left(&self, kind: u64) -> usize {
        (0..self.used.len()).filter(|k| !self.used[*k] && draw_info(self.from + k, 3) == kind).count()
    }
}
/// a number below n, explored exhaustively
pub fn choose(n: usize) -> usize {
    unsafe { ffi::__vp_choose(n as u64) as usize }
}
pub fn cfg(k: u64, v: u64) {
    unsafe { ffi::__vp_cfg(k, v) }
}
pub fn reach(m: &str) {
    unsafe { ffi::__vp_reach(m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) {
    unsafe { ffi::__vp_fail(m.as_ptr(), m.len()) }
}
pub fn trace(m: &str, v: u64) {
    unsafe { ffi::__vp_trace(v, m.as_ptr(), m.len()) }
}
pub fn draw_count() -> usize {
    unsafe { ffi::__vp_draw_count() as usize }
}
pub fn repeat_count() -> usize {
    unsafe { ffi::__vp_repeat_count() as usize }
}
pub fn draw_info(i: usize, f: u64) -> u64 {
    unsafe { ffi::__vp_draw_info(i as u64, f) }
}
pub const GRAN: u64 = 1;
pub const NOISE: u64 = 2;
pub const THREADS: u64 = 3;
pub const SCHED: u64 = 4;
pub const SCHED_DEF: u64 = 5;
pub const PERM: u64 = 6;
pub const EXPECT_PANIC: u64 = 7;
pub const OBLIVIOUS: u64 = 8;
/// scheduling decisions, at any point, that may differ from running everything on one worker
pub const SCHED_DEV: u64 = 15;
/// preemptions at lock operations
pub const PREEMPT: u64 = 14;
pub const MODEL_DECOMP: u64 = 9;
pub const KEYBITS: u64 = 10;
pub const MASKS: u64 = 11;
/// shuffles of machine words yield an arbitrary symbolic permutation
pub const PERM_SYM: u64 = 13;

pub type Pt = PlaintextList<Vec<Scalar>>;

/// TFHE parameters of a harness
#[derive(Clone, Copy)]
pub struct P {
    pub n: usize,
    pub b: usize,
    pub l: usize,
    pub kb: usize,
    pub kl: usize,
    pub nb: usize,
    pub nl: usize,
    pub t: u64,
}
impl P {
    pub fn params(&self) -> TFHEParameters {
        TFHEParameters {
            standard_deviation: -55.0,
            polynomial_size: self.n,
            base_log: self.b,
            level_count: self.l,
            key_switch_base_log: self.kb,
            key_switch_level_count: self.kl,
            negs_base_log: self.nb,
            negs_level_count: self.nl,
            plaintext_modulus: self.t,
            secure_seed: true,
        }
    }
    pub fn ctx(&self) -> Context {
        Context::new(self.params())
    }
}
/// floating-point slack of the native replay: the transform works on 53-bit doubles, so
/// products against 64-bit torus values are only good to about 2^(base_log + 64 - 53 + slack)
pub fn tol(b: usize) -> u64 {
    1u64 << (b + 16).min(58)
}
pub fn pt_get(p: &Pt, i: usize) -> u64 {
    *p.as_tensor().get_element(i)
}
pub fn pt_set(p: &mut Pt, i: usize, v: u64) {
    *p.as_mut_tensor().get_element_mut(i) = v;
}
pub fn pt_from(v: &[u64]) -> Pt {
    PlaintextList::from_container(v.to_vec())
}
pub fn pt_zero(n: usize) -> Pt {
    PlaintextList::from_container(vec![0; n])
}
/// symbolic polynomial with `bits`-bit coefficients
pub fn sym_pt(name: &str, n: usize, bits: u32) -> Pt {
    let mut p = pt_zero(n);
    for i in 0..n {
        let v = u64s(name, bits);
        pt_set(&mut p, i, v);
    }
    p
}
pub fn scalar(x: u64) -> Plaintext<Scalar> {
    Plaintext(x)
}
/// negacyclic product in Z_{2^64}[X]/(X^n+1), the specification used by the harnesses
pub fn negmul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < n {
            let p = a[i].wrapping_mul(b[j]);
            if i + j < n {
                r[i + j] = r[i + j].wrapping_add(p);
            } else {
                r[i + j - n] = r[i + j - n].wrapping_sub(p);
            }
            j += 1;
        }
        i += 1;
    }
    r
}
/// p(X^k) in the negacyclic ring
pub fn subs_spec(a: &[u64], k: usize) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    let mut i = 0;
    while i < n {
        let e = (i * k) % (2 * n);
        if e < n {
            r[e] = r[e].wrapping_add(a[i]);
        } else {
            r[e - n] = r[e - n].wrapping_sub(a[i]);
        }
        i += 1;
    }
    r
}
pub fn slice_of<T: AsRefTensor>(t: &T) -> Vec<u64>
where
    T::Container: AsRefSlice<Element = u64>,
{
    let t = t.as_tensor();
    t.as_slice().to_vec()
}
/// b - a*s of a ciphertext (decryption without decoding)
pub fn phase(sk: &RLWESecretKey, ct: &RLWECiphertext) -> Vec<u64> {
    let n = ct.polynomial_size().0;
    let mut out = pt_zero(n);
    sk.decrypt_rlwe(&mut out, ct);
    (0..n).map(|i| pt_get(&out, i)).collect()
}
/// the phase is exactly `want` (native replay: up to floating-point rounding)
pub fn phase_is(sk: &RLWESecretKey, ct: &RLWECiphertext, want: &[u64], m: &str) {
    let got = phase(sk, ct);
    for i in 0..want.len() {
        trace(m, got[i]);
        eq_tol(got[i], want[i], SLACK, m);
    }
}
/// the phase is within `bound` of `want`
pub fn phase_near(sk: &RLWESecretKey, ct: &RLWECiphertext, want: &[u64], bound: u64, m: &str) {
    let got = phase(sk, ct);
    for i in 0..want.len() {
        trace(m, got[i]);
        near(got[i], want[i], bound, SLACK, m);
    }
}
/// the ciphertext decodes to exactly `want`
pub fn decodes_to(sk: &RLWESecretKey, ct: &RLWECiphertext, ctx: &Context, want: &[u64], m: &str) {
    let mut out = ctx.gen_zero_pt();
    sk.decrypt_decode_rlwe(&mut out, ct, ctx);
    for i in 0..want.len() {
        trace(m, pt_get(&out, i));
        eq(pt_get(&out, i), want[i], m);
    }
}
/// rounding of the double-precision transform that the native replay tolerates in a phase
pub const SLACK: u64 = 1 << 48;
pub fn coeffs(p: &Pt) -> Vec<u64> {
    (0..p.count().0).map(|i| pt_get(p, i)).collect()
}
pub fn scaled(v: &[u64], shift: usize) -> Vec<u64> {
    v.iter().map(|x| x << shift).collect()
}
pub fn cst(n: usize, x: u64) -> Vec<u64> {
    let mut v = vec![0; n];
    v[0] = x;
    v
}
pub fn addv(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_add(*y)).collect()
}
pub fn subv(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_sub(*y)).collect()
}
/// ring size 2, exact arithmetic (GRAN 32): pairwise different decompositions
pub const P2: P = P { n: 2, b: 16, l: 2, kb: 17, kl: 2, nb: 12, nl: 3, t: 16 };
pub const P4: P = P { n: 4, b: 16, l: 2, kb: 17, kl: 2, nb: 12, nl: 3, t: 16 };
/// three levels, odd number of key switching levels
pub const P2B: P = P { n: 2, b: 10, l: 3, kb: 11, kl: 3, nb: 16, nl: 2, t: 8 };
pub const P4B: P = P { n: 4, b: 10, l: 3, kb: 11, kl: 3, nb: 16, nl: 2, t: 8 };
/// only the key-switching and -s gadgets are precise enough for exact arithmetic
pub const PK2: P = P { n: 2, b: 4, l: 3, kb: 16, kl: 2, nb: 11, nl: 3, t: 16 };
/// four key-switching levels
pub const PK4: P = P { n: 4, b: 5, l: 2, kb: 8, kl: 4, nb: 16, nl: 2, t: 16 };
/// only the default gadget is precise enough
pub const PB2: P = P { n: 2, b: 16, l: 2, kb: 4, kl: 3, nb: 5, nl: 3, t: 16 };
pub const PB4: P = P { n: 4, b: 8, l: 4, kb: 5, kl: 2, nb: 3, nl: 2, t: 16 };
/// only the -s gadget is precise enough
pub const PN2: P = P { n: 2, b: 4, l: 3, kb: 5, kl: 3, nb: 11, nl: 3, t: 16 };
/// small bases with many levels
pub const PT2: P = P { n: 2, b: 2, l: 16, kb: 3, kl: 21, nb: 1, nl: 33, t: 16 };
/// the decompositions of the default parameters
pub const PD: P = P { n: 2, b: 5, l: 9, kb: 5, kl: 11, nb: 5, nl: 11, t: 256 };
/// a single level everywhere
pub const PL2: P = P { n: 2, b: 24, l: 1, kb: 29, kl: 1, nb: 31, nl: 1, t: 16 };
/// almost the full width of the torus
pub const PW2: P = P { n: 2, b: 31, l: 2, kb: 21, kl: 3, nb: 62, nl: 1, t: 16 };
/// a larger ring, where masks are fixed pseudo-random values
pub fn fixed(p: P, n: usize) -> P {
    cfg(MASKS, 2);
    P { n, ..p }
}
/// as `fixed`, with four free key bits
pub fn fixed_key(p: P, n: usize) -> P {
    cfg(KEYBITS, 4);
    fixed(p, n)
}
/// exact-arithmetic mode with an explicit granularity
pub fn exact32(p: P) -> Context {
    cfg(GRAN, 32);
    p.ctx()
}
/// exact-arithmetic mode: masks are multiples of 2^(64-g), no noise
pub fn exact(p: P) -> Context {
    cfg(GRAN, (p.b * p.l).min(p.kb * p.kl).min(p.nb * p.nl) as u64);
    p.ctx()
}
pub fn _unused<T: AsMutSlice>(_: T) {}
