//! Term layer. Every symbolic machine integer of width w <= 64 is kept in a canonical form: a
//! polynomial modulo 2^w over *atoms*. An atom stands for an integer with known bounds (an input
//! variable, a comparison result in {0,1}, a quotient, a gadget digit, ...). Two syntactically equal
//! polynomials are equal for all values of the atoms; anything else is decided by the SMT solver.
use rustc_hash::*;
use std::collections::HashMap;
use std::rc::Rc;

pub mod rustc_hash {
    use std::hash::*;
    #[derive(Default, Clone, Copy)]
    pub struct Fx(u64);
    impl Hasher for Fx {
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.write_u64(x as u64);
            }
        }
        fn write_u8(&mut self, x: u8) {
            self.write_u64(x as u64)
        }
        fn write_u32(&mut self, x: u32) {
            self.write_u64(x as u64)
        }
        fn write_usize(&mut self, x: usize) {
            self.write_u64(x as u64)
        }
        fn write_u64(&mut self, x: u64) {
            self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        }
        fn finish(&self) -> u64 {
            self.0 ^ (self.0 >> 29)
        }
    }
    pub type FxMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
    pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
}

pub type T = u32;
pub type AtomId = u32;
pub type MonoId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OpK {
    And,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    Ctpop,
    Ctlz,
    Cttz,
    BoolZext,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CK {
    /// argument equals zero
    Zero,
    Ult,
    Slt,
    /// unsigned multiplication overflow
    UMulO,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AK {
    /// input variable (index in vars)
    Var(u32),
    /// signed digit of the low `b` bits of state `t`
    Digit(T, u32),
    /// state after removing that digit: (t >> b) + carry
    Next(T, u32),
    /// t >> k
    Shr(T, u32),
    /// t >> k for a t divisible by 2^k, kept opaque by `expand` unless `uncut` is set
    Cut(T, u32),
    /// the natural number below 2^w(t) congruent to t
    Nat(T),
    Op(OpK, T, T),
    Cmp(CK, T, T),
}
pub struct Atom {
    pub k: AK,
    pub lo: i128,
    pub hi: i128,
    pub rank: u32,
    /// sticky marker: depends on a noise variable
    pub noise: bool,
}
pub struct Var {
    pub name: String,
    pub lo: u64,
    pub hi: u64, // inclusive
    pub noise: bool,
}
pub struct Term {
    pub w: u8,
    pub p: Rc<[(MonoId, u64)]>,
    pub rank: u32,
    iv: std::cell::Cell<Option<Option<(i128, i128)>>>,
}
pub struct Mono {
    pub atoms: Rc<[AtomId]>,
    pub lo: i128,
    pub hi: i128,
    pub rank: u32,
}

const LIM: i128 = 1i128 << 120;
pub const INFTY: i128 = LIM;

/// the operations whose results the canonical form computes
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rw {
    Add,
    Sub,
    Scale(u64),
    Mul,
    Trunc,
    Zext,
    Sext,
    Shl(u32),
    LShr(u32),
    AShr(u32),
    And,
    Or,
    Xor,
    Op(OpK),
    Zero,
    Ult,
    Slt,
    UMulO,
    UAddO,
    Select,
    Digit(u32),
    Next(u32),
    Same,
    /// the bounds of an atom
    Range(AtomId),
}
/// one rewriting step: the operation, its arguments and the canonical result
#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub op: Rw,
    pub args: [T; 3],
    pub n: u8,
    pub r: T,
}
/// a sample of the rewriting steps of a path, for the solver to confirm
pub struct Cert {
    pub steps: u64,
    skip: u64,
    gap: u64,
    rng: u64,
    pub sample: Vec<Step>,
    cskip: u64,
    cgap: u64,
    /// steps that decided something: a constant result of symbolic arguments
    pub closing: Vec<Step>,
}
const SAMPLE: usize = 48;
impl Default for Cert {
    fn default() -> Cert {
        Cert { steps: 0, skip: 0, gap: 1, rng: 0x9E3779B97F4A7C15, sample: vec![], cskip: 0, cgap: 1, closing: vec![] }
    }
}
impl Cert {
    fn next(&mut self, gap: u64) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng % (2 * gap)
    }
    fn put(&mut self, closing: bool, s: Step) {
        let v = if closing { &mut self.closing } else { &mut self.sample };
        if v.len() < SAMPLE {
            v.push(s);
        } else {
            // every other one makes room, and from now on half as many are taken
            let mut i = 0;
            v.retain(|_| {
                i += 1;
                i % 2 == 0
            });
            v.push(s);
            if closing {
                self.cgap *= 2
            } else {
                self.gap *= 2
            }
        }
        if closing {
            self.cskip = self.next(self.cgap)
        } else {
            self.skip = self.next(self.gap)
        }
    }
}

pub struct Terms {
    pub terms: Vec<Term>,
    tmap: FxMap<(u8, Rc<[(MonoId, u64)]>), T>,
    pub monos: Vec<Mono>,
    mmap: FxMap<Rc<[AtomId]>, MonoId>,
    mmul: FxMap<(MonoId, MonoId), MonoId>,
    pub atoms: Vec<Atom>,
    amap: FxMap<AK, AtomId>,
    pub vars: Vec<Var>,
    mulcache: FxMap<(T, T), T>,
    expcache: FxMap<(T, bool, bool), T>,
    /// `expand` also unfolds cuts
    pub uncut: bool,
    pub ncuts: usize,
    pub max_terms: usize,
    pub biggest: usize,
    pub worker: usize,
    size: usize,
    tick: u32,
    pub cert: Cert,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn sat_mul(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) {
        Some(x) => x.clamp(-LIM, LIM),
        None => {
            if (a < 0) != (b < 0) {
                -LIM
            } else {
                LIM
            }
        }
    }
}
fn iv_mul(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let c = [sat_mul(a.0, b.0), sat_mul(a.0, b.1), sat_mul(a.1, b.0), sat_mul(a.1, b.1)];
    (*c.iter().min().unwrap(), *c.iter().max().unwrap())
}
fn iv_add(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    ((a.0 + b.0).clamp(-LIM, LIM), (a.1 + b.1).clamp(-LIM, LIM))
}

#[derive(Debug)]
pub struct TooBig;
/// raised from the watcher: this worker has to give up its path
#[derive(Debug)]
pub struct Aborted;
pub static ABORT: [std::sync::atomic::AtomicU8; 64] = [const { std::sync::atomic::AtomicU8::new(0) }; 64];
/// estimate of the memory held by the terms of each worker
pub static SIZE: [std::sync::atomic::AtomicUsize; 64] = [const { std::sync::atomic::AtomicUsize::new(0) }; 64];

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms {
            terms: vec![],
            tmap: Default::default(),
            monos: vec![],
            mmap: Default::default(),
            mmul: Default::default(),
            atoms: vec![],
            amap: Default::default(),
            vars: vec![],
            mulcache: Default::default(),
            expcache: Default::default(),
            uncut: false,
            ncuts: 0,
            max_terms: 3_000_000,
            biggest: 0,
            worker: 0,
            size: 0,
            tick: 0,
            cert: Cert::default(),
        };
        t.mono(vec![]);
        t
    }
    fn mono(&mut self, a: Vec<AtomId>) -> MonoId {
        let a: Rc<[AtomId]> = a.into();
        if let Some(m) = self.mmap.get(&a) {
            return *m;
        }
        self.grow(120 + 4 * a.len());
        let mut iv = (1, 1);
        let mut rank = 0;
        for x in a.iter() {
            let at = &self.atoms[*x as usize];
            iv = iv_mul(iv, (at.lo, at.hi));
            rank = rank.max(at.rank);
        }
        let id = self.monos.len() as MonoId;
        self.monos.push(Mono { atoms: a.clone(), lo: iv.0, hi: iv.1, rank });
        self.mmap.insert(a, id);
        id
    }
    fn grow(&mut self, n: usize) {
        use std::sync::atomic::Ordering::Relaxed;
        self.size += n;
        self.tick += 1;
        if self.tick & 255 == 0 {
            SIZE[self.worker].store(self.size, Relaxed);
            if ABORT[self.worker].load(Relaxed) != 0 {
                std::panic::panic_any(Aborted);
            }
        }
    }
    fn is_bool_atom(&self, a: AtomId) -> bool {
        let x = &self.atoms[a as usize];
        x.lo >= 0 && x.hi <= 1
    }
    fn mono_mul(&mut self, a: MonoId, b: MonoId) -> MonoId {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(m) = self.mmul.get(&k) {
            return *m;
        }
        let (x, y) = (self.monos[a as usize].atoms.clone(), self.monos[b as usize].atoms.clone());
        let mut r = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            let v = if j >= y.len() || (i < x.len() && x[i] <= y[j]) {
                i += 1;
                x[i - 1]
            } else {
                j += 1;
                y[j - 1]
            };
            if r.last() == Some(&v) && self.is_bool_atom(v) {
                continue;
            }
            r.push(v);
        }
        let m = self.mono(r);
        self.mmul.insert(k, m);
        m
    }
    #[inline]
    fn note(&mut self, op: Rw, args: [T; 3], n: u8, r: T) {
        let c = &mut self.cert;
        c.steps += 1;
        if c.skip > 0 && c.cskip > 0 {
            c.skip -= 1;
            // closing steps are looked for all the time
            let k = |t: T| self.terms[t as usize].p.len() == 0 || self.terms[t as usize].p.len() == 1 && self.terms[t as usize].p[0].0 == 0;
            if k(r) && !args[..n as usize].iter().all(|t| k(*t)) {
                self.cert.cskip -= 1;
            }
            return;
        }
        self.note2(op, args, n, r)
    }
    #[inline(never)]
    fn note2(&mut self, op: Rw, args: [T; 3], n: u8, r: T) {
        let s = Step { op, args, n, r };
        if args[..n as usize].iter().all(|t| self.as_const(*t).is_some()) {
            self.cert.skip = self.cert.skip.saturating_sub(1);
            return;
        }
        if self.as_const(r).is_some() && !matches!(op, Rw::Range(_)) {
            if self.cert.cskip > 0 {
                self.cert.cskip -= 1;
            } else {
                return self.cert.put(true, s);
            }
        }
        if self.cert.skip > 0 {
            self.cert.skip -= 1;
        } else {
            self.cert.put(false, s);
        }
    }
    /// p must be sorted by monomial, coefficients reduced and non-zero
    fn intern(&mut self, w: u8, p: Vec<(MonoId, u64)>) -> T {
        self.biggest = self.biggest.max(p.len());
        let p: Rc<[(MonoId, u64)]> = p.into();
        if let Some(t) = self.tmap.get(&(w, p.clone())) {
            return *t;
        }
        self.grow(160 + 16 * p.len());
        let rank = p.iter().map(|(m, _)| self.monos[*m as usize].rank).max().unwrap_or(0);
        let id = self.terms.len() as T;
        self.terms.push(Term { w, p: p.clone(), rank, iv: Default::default() });
        self.tmap.insert((w, p), id);
        id
    }
    fn from_map(&mut self, w: u8, m: FxMap<MonoId, u64>) -> T {
        let k = mask(w);
        let mut v: Vec<_> = m.into_iter().map(|(a, b)| (a, b & k)).filter(|x| x.1 != 0).collect();
        v.sort_unstable_by_key(|x| x.0);
        self.intern(w, v)
    }
    pub fn w(&self, t: T) -> u8 {
        self.terms[t as usize].w
    }
    pub fn k(&mut self, w: u8, v: u64) -> T {
        let v = v & mask(w);
        self.intern(w, if v == 0 { vec![] } else { vec![(0, v)] })
    }
    pub fn as_const(&self, t: T) -> Option<u64> {
        let p = &self.terms[t as usize].p;
        if p.is_empty() {
            Some(0)
        } else if p.len() == 1 && p[0].0 == 0 {
            Some(p[0].1)
        } else {
            None
        }
    }
    fn term_noise(&self, t: T) -> bool {
        self.terms[t as usize].p.iter().any(|(m, _)| self.monos[*m as usize].atoms.iter().any(|a| self.atoms[*a as usize].noise))
    }
    fn atom(&mut self, k: AK) -> AtomId {
        if let Some(a) = self.amap.get(&k) {
            return *a;
        }
        let (lo, hi, rank, noise) = match k {
            AK::Var(v) => {
                let v = &self.vars[v as usize];
                (v.lo as i128, v.hi as i128, 0, v.noise)
            }
            AK::Digit(t, b) => (-(1i128 << (b - 1)), 1i128 << (b - 1), self.terms[t as usize].rank + 1, self.term_noise(t)),
            AK::Next(t, b) => {
                let hi = match self.uiv(t) {
                    Some((_, h)) => (h >> b) + 1,
                    None => (1i128 << (64 - b)) + 1,
                };
                (0, hi, self.terms[t as usize].rank + 1, self.term_noise(t))
            }
            AK::Shr(t, s) | AK::Cut(t, s) => {
                let w = self.w(t);
                (0, (1i128 << (w as u32 - s)) - 1, self.terms[t as usize].rank + 1, self.term_noise(t))
            }
            AK::Nat(t) => {
                let w = self.w(t);
                (0, (1i128 << w) - 1, self.terms[t as usize].rank + 1, self.term_noise(t))
            }
            AK::Op(o, a, b) => {
                let w = self.w(a);
                let hi = match o {
                    OpK::Ctpop | OpK::Ctlz | OpK::Cttz => w as i128,
                    OpK::BoolZext => 1,
                    OpK::URem => match self.as_const(b) {
                        Some(c) if c > 0 => c as i128 - 1,
                        _ => (1i128 << w) - 1,
                    },
                    OpK::UDiv => match self.as_const(b) {
                        Some(c) if c > 0 => ((1i128 << w) - 1) / c as i128,
                        _ => (1i128 << w) - 1,
                    },
                    _ => (1i128 << w) - 1,
                };
                (0, hi, self.terms[a as usize].rank.max(self.terms[b as usize].rank) + 1, self.term_noise(a) || self.term_noise(b))
            }
            AK::Cmp(_, a, b) => (0, 1, self.terms[a as usize].rank.max(self.terms[b as usize].rank) + 1, self.term_noise(a) || self.term_noise(b)),
        };
        let id = self.atoms.len() as AtomId;
        self.atoms.push(Atom { k, lo, hi, rank, noise });
        self.amap.insert(k, id);
        match k {
            AK::Var(_) => {}
            AK::Digit(t, _) | AK::Next(t, _) | AK::Shr(t, _) | AK::Cut(t, _) | AK::Nat(t) => self.note(Rw::Range(id), [t, 0, 0], 1, t),
            AK::Op(_, x, y) | AK::Cmp(_, x, y) => self.note(Rw::Range(id), [x, y, 0], 2, x),
        }
        id
    }
    pub fn of_atom(&mut self, w: u8, a: AtomId) -> T {
        let m = self.mono(vec![a]);
        self.intern(w, vec![(m, 1)])
    }
    fn atom_t(&mut self, w: u8, k: AK) -> T {
        let a = self.atom(k);
        self.of_atom(w, a)
    }
    pub fn var(&mut self, name: String, w: u8, lo: u64, hi: u64, noise: bool) -> T {
        if lo == hi {
            return self.k(w, lo);
        }
        let i = self.vars.len() as u32;
        self.vars.push(Var { name, lo, hi, noise });
        self.atom_t(w, AK::Var(i))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let r = self.add_(a, b);
        self.note(Rw::Add, [a, b, 0], 2, r);
        r
    }
    fn add_(&mut self, a: T, b: T) -> T {
        self.lin(a, 1, b, 1)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let r = self.sub_(a, b);
        self.note(Rw::Sub, [a, b, 0], 2, r);
        r
    }
    fn sub_(&mut self, a: T, b: T) -> T {
        self.lin(a, 1, b, !0)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        self.scale(a, mask(w))
    }
    pub fn scale(&mut self, a: T, c: u64) -> T {
        let r = self.scale_(a, c);
        self.note(Rw::Scale(c), [a, 0, 0], 1, r);
        r
    }
    fn scale_(&mut self, a: T, c: u64) -> T {
        let w = self.w(a);
        let m = mask(w);
        let v: Vec<_> =
            self.terms[a as usize].p.iter().map(|(x, y)| (*x, y.wrapping_mul(c) & m)).filter(|x| x.1 != 0).collect();
        self.intern(w, v)
    }
    /// ca*a + cb*b
    fn lin(&mut self, a: T, ca: u64, b: T, cb: u64) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        let (p, q) = (self.terms[a as usize].p.clone(), self.terms[b as usize].p.clone());
        let mut r = Vec::with_capacity(p.len() + q.len());
        let (mut i, mut j) = (0, 0);
        while i < p.len() || j < q.len() {
            if j >= q.len() || (i < p.len() && p[i].0 < q[j].0) {
                r.push((p[i].0, p[i].1.wrapping_mul(ca) & m));
                i += 1;
            } else if i >= p.len() || q[j].0 < p[i].0 {
                r.push((q[j].0, q[j].1.wrapping_mul(cb) & m));
                j += 1;
            } else {
                let c = p[i].1.wrapping_mul(ca).wrapping_add(q[j].1.wrapping_mul(cb)) & m;
                if c != 0 {
                    r.push((p[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        r.retain(|x| x.1 != 0);
        self.intern(w, r)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let r = self.mul_(a, b);
        self.note(Rw::Mul, [a, b, 0], 2, r);
        r
    }
    fn mul_(&mut self, a: T, b: T) -> T {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(t) = self.mulcache.get(&key) {
            return *t;
        }
        let w = self.w(a);
        let (p, q) = (self.terms[a as usize].p.clone(), self.terms[b as usize].p.clone());
        if p.len() * q.len() > self.max_terms {
            std::panic::panic_any(TooBig);
        }
        let mut acc: FxMap<MonoId, u64> = Default::default();
        for (m1, c1) in p.iter() {
            for (m2, c2) in q.iter() {
                let m = self.mono_mul(*m1, *m2);
                let e = acc.entry(m).or_insert(0);
                *e = e.wrapping_add(c1.wrapping_mul(*c2));
            }
        }
        let t = self.from_map(w, acc);
        self.mulcache.insert(key, t);
        t
    }
    /// interval of the integer polynomial with coefficients read as signed (centred) or raw
    fn iv_with(&self, t: T, raw: bool) -> (i128, i128) {
        let x = &self.terms[t as usize];
        let mut iv = (0, 0);
        for (m, c) in x.p.iter() {
            let mm = &self.monos[*m as usize];
            let c = if raw { *c as i128 } else { sx(*c, x.w) as i128 };
            iv = iv_add(iv, iv_mul((c, c), (mm.lo, mm.hi)));
        }
        iv
    }
    /// Unsigned value range, if the integer polynomial (centred or raw coefficients) equals it
    /// exactly. Returns (range).
    pub fn uiv(&self, t: T) -> Option<(i128, i128)> {
        if let Some(x) = self.terms[t as usize].iv.get() {
            return x;
        }
        let w = self.terms[t as usize].w;
        let top = 1i128 << w;
        let a = self.iv_with(t, false);
        let r = if a.0 >= 0 && a.1 < top {
            Some(a)
        } else {
            let b = self.iv_with(t, true);
            if b.0 >= 0 && b.1 < top {
                Some(b)
            } else {
                None
            }
        };
        self.terms[t as usize].iv.set(Some(r));
        r
    }
    pub fn urange(&self, t: T) -> (i128, i128) {
        self.uiv(t).unwrap_or((0, (1i128 << self.w(t)) - 1))
    }
    pub fn srange(&self, t: T) -> (i128, i128) {
        let w = self.w(t);
        let h = 1i128 << (w - 1);
        let a = self.iv_with(t, false);
        if a.0 >= -h && a.1 < h {
            return a;
        }
        if let Some(u) = self.uiv(t) {
            if u.1 < h {
                return u;
            }
            if u.0 >= h {
                return (u.0 - 2 * h, u.1 - 2 * h);
            }
        }
        (-h, h - 1)
    }
    /// coefficient signs to use for an exact unsigned lift: Some(raw?)
    fn exact_u(&self, t: T) -> Option<bool> {
        let top = 1i128 << self.w(t);
        let a = self.iv_with(t, false);
        if a.0 >= 0 && a.1 < top {
            return Some(false);
        }
        let b = self.iv_with(t, true);
        if b.0 >= 0 && b.1 < top {
            return Some(true);
        }
        None
    }
    fn lift(&mut self, t: T, w: u8, raw: bool) -> T {
        let x = &self.terms[t as usize];
        let (p, w0) = (x.p.clone(), x.w);
        let m = mask(w);
        let v: Vec<_> =
            p.iter().map(|(a, c)| (*a, (if raw { *c } else { sx(*c, w0) as u64 }) & m)).filter(|x| x.1 != 0).collect();
        self.intern(w, v)
    }
    /// set of distinct atoms if all are boolean and there are at most n of them
    fn bool_atoms(&self, ts: &[T], n: usize) -> Option<Vec<AtomId>> {
        let mut s: Vec<AtomId> = vec![];
        for t in ts {
            let x = &self.terms[*t as usize];
            if x.p.len() > (1 << n) {
                return None;
            }
            for (m, _) in x.p.iter() {
                for a in self.monos[*m as usize].atoms.iter() {
                    if !s.contains(a) {
                        if !self.is_bool_atom(*a) || s.len() >= n {
                            return None;
                        }
                        s.push(*a);
                    }
                }
            }
        }
        s.sort_unstable();
        Some(s)
    }
    fn eval_bool(&self, t: T, atoms: &[AtomId], asg: usize) -> u64 {
        let x = &self.terms[t as usize];
        let mut r = 0u64;
        for (m, c) in x.p.iter() {
            if self.monos[*m as usize].atoms.iter().all(|a| {
                let i = atoms.iter().position(|z| z == a).unwrap();
                asg >> i & 1 == 1
            }) {
                r = r.wrapping_add(*c);
            }
        }
        r & mask(x.w)
    }
    /// build the multilinear polynomial of a function of few boolean atoms
    fn boolfn(&mut self, w: u8, args: &[T], f: impl Fn(&[u64]) -> u64) -> Option<T> {
        let at = self.bool_atoms(args, 4)?;
        let n = at.len();
        let mut v: Vec<u64> = (0..1usize << n)
            .map(|s| {
                let a: Vec<u64> = args.iter().map(|t| self.eval_bool(*t, &at, s)).collect();
                f(&a) & mask(w)
            })
            .collect();
        for i in 0..n {
            for s in 0..1usize << n {
                if s >> i & 1 == 1 {
                    v[s] = v[s].wrapping_sub(v[s ^ (1 << i)]);
                }
            }
        }
        let mut acc: FxMap<MonoId, u64> = Default::default();
        for (s, c) in v.iter().enumerate() {
            if c & mask(w) != 0 {
                let m = self.mono((0..n).filter(|i| s >> i & 1 == 1).map(|i| at[i]).collect());
                acc.insert(m, *c);
            }
        }
        Some(self.from_map(w, acc))
    }
    pub fn trunc(&mut self, t: T, w: u8) -> T {
        let r = self.trunc_(t, w);
        self.note(Rw::Trunc, [t, 0, 0], 1, r);
        r
    }
    fn trunc_(&mut self, t: T, w: u8) -> T {
        let x = &self.terms[t as usize];
        if x.w == w {
            return t;
        }
        let m = mask(w);
        let v: Vec<_> = x.p.iter().map(|(a, c)| (*a, c & m)).filter(|x| x.1 != 0).collect();
        // unfold natural-number views when the truncation makes them redundant
        let mut todo = vec![];
        for (mo, c) in v.iter() {
            for a in self.monos[*mo as usize].atoms.iter() {
                if let AK::Nat(u) = self.atoms[*a as usize].k {
                    if self.w(u) as u32 + c.trailing_zeros() >= w as u32 {
                        todo.push((*mo, *c, *a, u));
                        break;
                    }
                }
            }
        }
        if todo.is_empty() {
            return self.intern(w, v);
        }
        let rest: Vec<_> = v.iter().copied().filter(|x| !todo.iter().any(|y| y.0 == x.0)).collect();
        let mut acc = self.intern(w, rest);
        for (mo, c, a, u) in todo {
            let mut others: Vec<_> = self.monos[mo as usize].atoms.to_vec();
            let i = others.iter().position(|z| *z == a).unwrap();
            others.remove(i);
            let om = self.mono(others);
            let o = self.intern(w, vec![(om, c)]);
            let uw = self.w(u);
            let ut = if uw >= w { self.trunc(u, w) } else { self.lift(u, w, true) };
            let p = self.mul(o, ut);
            acc = self.add(acc, p);
        }
        acc
    }
    pub fn zext(&mut self, t: T, w: u8) -> T {
        let r = self.zext_(t, w);
        self.note(Rw::Zext, [t, 0, 0], 1, r);
        r
    }
    fn zext_(&mut self, t: T, w: u8) -> T {
        let w0 = self.w(t);
        if w0 == w {
            return t;
        }
        if let Some(raw) = self.exact_u(t) {
            return self.lift(t, w, raw);
        }
        if w0 == 1 {
            // ANF -> integer multilinear
            let p = self.terms[t as usize].p.clone();
            let boolish = p.iter().all(|(m, _)| self.monos[*m as usize].atoms.iter().all(|a| self.is_bool_atom(*a)));
            if boolish && p.len() <= 8 {
                let mut z = self.k(w, 0);
                for (m, _) in p.iter() {
                    let x = self.intern(w, vec![(*m, 1)]);
                    let xz = self.mul(x, z);
                    let s = self.add(x, z);
                    let d = self.scale(xz, 2);
                    z = self.sub(s, d);
                }
                return z;
            }
        }
        if let Some(r) = self.boolfn(w, &[t], |a| a[0]) {
            return r;
        }
        self.atom_t(w, AK::Nat(t))
    }
    pub fn sext(&mut self, t: T, w: u8) -> T {
        let r = self.sext_(t, w);
        self.note(Rw::Sext, [t, 0, 0], 1, r);
        r
    }
    fn sext_(&mut self, t: T, w: u8) -> T {
        let w0 = self.w(t);
        if w0 == w {
            return t;
        }
        let h = 1i128 << (w0 - 1);
        let a = self.iv_with(t, false);
        if a.0 >= -h && a.1 < h {
            return self.lift(t, w, false);
        }
        let kk = self.k(w0, 1u64 << (w0 - 1));
        let s = self.add(t, kk);
        let z = self.zext(s, w);
        let k2 = self.k(w, 1u64 << (w0 - 1));
        self.sub(z, k2)
    }
    pub fn shl(&mut self, t: T, s: u32) -> T {
        let r = self.shl_(t, s);
        self.note(Rw::Shl(s), [t, 0, 0], 1, r);
        r
    }
    fn shl_(&mut self, t: T, s: u32) -> T {
        let w = self.w(t);
        if s >= w as u32 {
            return self.k(w, 0);
        }
        self.scale(t, 1u64 << s)
    }
    pub fn lshr(&mut self, t: T, s: u32) -> T {
        let r = self.lshr_(t, s);
        self.note(Rw::LShr(s), [t, 0, 0], 1, r);
        r
    }
    /// a sum that still holds digits, without them, if that makes it smaller or leaves bits only
    fn undigit(&mut self, t: T) -> T {
        let n = self.terms[t as usize].p.len();
        if n < 2 || n > 1024 || !self.has_digit(t) {
            return t;
        }
        let e = self.expand(t, true);
        let en = self.terms[e as usize].p.len();
        if en < n && !self.has_digit(e) || en < 1024 && self.all_bool(e) {
            e
        } else {
            t
        }
    }
    fn all_bool(&self, t: T) -> bool {
        self.terms[t as usize].p.iter().all(|(m, _)| self.monos[*m as usize].atoms.iter().all(|a| self.is_bool_atom(*a)))
    }
    fn has_digit(&self, t: T) -> bool {
        self.terms[t as usize].p.iter().any(|(m, _)| self.monos[*m as usize].atoms.iter().any(|a| matches!(self.atoms[*a as usize].k, AK::Digit(..))))
    }
    fn lshr_(&mut self, t: T, s: u32) -> T {
        let w = self.w(t);
        if s == 0 {
            return t;
        }
        if s >= w as u32 {
            return self.k(w, 0);
        }
        let u = self.undigit(t);
        if u != t {
            return self.lshr(u, s);
        }
        if let Some(c) = self.as_const(t) {
            return self.k(w, c >> s);
        }
        if let Some(raw) = self.exact_u(t) {
            let (lo, hi) = self.iv_with(t, raw);
            if lo >> s == hi >> s {
                return self.k(w, (lo >> s) as u64);
            }
            // split into divisible part and small remainder
            let p = self.terms[t as usize].p.clone();
            let mut hp = vec![];
            let mut r = (0i128, 0i128);
            let mut kc = 0i128;
            for (m, c) in p.iter() {
                let c = if raw { *c as i128 } else { sx(*c, w) as i128 };
                if *m == 0 {
                    kc = c;
                    continue;
                }
                if c & ((1i128 << s) - 1) == 0 {
                    hp.push((*m, ((c >> s) as u64) & mask(w)));
                } else {
                    let mm = &self.monos[*m as usize];
                    r = iv_add(r, iv_mul((c, c), (mm.lo, mm.hi)));
                }
            }
            let kr = kc & ((1i128 << s) - 1);
            let kq = (kc >> s) as u64 & mask(w);
            r = iv_add(r, (kr, kr));
            if r.0 >= 0 && r.1 < (1i128 << s) {
                if kq != 0 {
                    hp.push((0, kq));
                }
                hp.retain(|x| x.1 != 0);
                hp.sort_unstable_by_key(|x| x.0);
                return self.intern(w, hp);
            }
        }
        if let Some(r) = self.boolfn(w, &[t], |a| a[0] >> s) {
            return r;
        }
        // nested shift
        {
            let p = self.terms[t as usize].p.clone();
            if p.len() == 1 && p[0].1 == 1 {
                let at = self.monos[p[0].0 as usize].atoms.clone();
                if at.len() == 1 {
                    if let AK::Shr(u, s0) = self.atoms[at[0] as usize].k {
                        if self.w(u) <= w {
                            let uw = self.w(u);
                            if s + s0 >= uw as u32 {
                                return self.k(w, 0);
                            }
                            let q = self.lshr(u, s + s0);
                            return self.zext(q, w);
                        }
                    }
                }
            }
        }
        self.atom_t(w, AK::Shr(t, s))
    }
    pub fn ashr(&mut self, t: T, s: u32) -> T {
        let r = self.ashr_(t, s);
        self.note(Rw::AShr(s), [t, 0, 0], 1, r);
        r
    }
    fn ashr_(&mut self, t: T, s: u32) -> T {
        let w = self.w(t);
        let s = s.min(w as u32 - 1);
        if s == 0 {
            return t;
        }
        let (lo, _) = self.srange(t);
        if lo >= 0 {
            return self.lshr(t, s);
        }
        let h = 1u64 << (w - 1);
        let kk = self.k(w, h);
        let x = self.add(t, kk);
        let q = self.lshr(x, s);
        let k2 = self.k(w, h >> s);
        self.sub(q, k2)
    }
    fn low(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        if k == 0 {
            return self.k(w, 0);
        }
        if k >= w as u32 {
            return t;
        }
        let t = self.undigit(t);
        if let Some((_, hi)) = self.uiv(t) {
            if hi < (1i128 << k) {
                return t;
            }
        }
        let x = self.trunc(t, k as u8);
        self.zext(x, w)
    }
    fn and_const(&mut self, t: T, c: u64) -> T {
        let w = self.w(t);
        let c = c & mask(w);
        if c == mask(w) {
            return t;
        }
        if c == 0 {
            return self.k(w, 0);
        }
        if let Some(r) = self.boolfn(w, &[t], |a| a[0] & c) {
            return r;
        }
        // runs of ones
        let mut acc = self.k(w, 0);
        let mut i = 0;
        while i < w as u32 {
            if c >> i & 1 == 0 {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < w as u32 && c >> j & 1 == 1 {
                j += 1;
            }
            let hi = self.low(t, j);
            let lo = self.low(t, i);
            let d = self.sub(hi, lo);
            acc = self.add(acc, d);
            i = j;
        }
        acc
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let r = self.and_(a, b);
        self.note(Rw::And, [a, b, 0], 2, r);
        r
    }
    fn and_(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.and_const(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.and_const(a, c);
        }
        if w == 1 {
            return self.mul1(a, b);
        }
        if let Some(r) = self.boolfn(w, &[a, b], |x| x[0] & x[1]) {
            return r;
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some((_, hi)) = self.uiv(x) {
                // y multiple of 2^k > hi
                let tz = self.terms[y as usize].p.iter().map(|z| z.1.trailing_zeros()).min().unwrap();
                if tz < 64 && hi < (1i128 << tz) {
                    return self.k(w, 0);
                }
                if hi <= 1 {
                    // single bit: x & low bit of y
                    let l = self.trunc(y, 1);
                    let l = self.zext(l, w);
                    return self.mul(x, l);
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.atom_t(w, AK::Op(OpK::And, a, b))
    }
    /// product at width 1 (idempotent)
    fn mul1(&mut self, a: T, b: T) -> T {
        self.mul(a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let r = self.or_(a, b);
        self.note(Rw::Or, [a, b, 0], 2, r);
        r
    }
    fn or_(&mut self, a: T, b: T) -> T {
        let x = self.and(a, b);
        let s = self.add(a, b);
        self.sub(s, x)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let r = self.xor_(a, b);
        self.note(Rw::Xor, [a, b, 0], 2, r);
        r
    }
    fn xor_(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.add(a, b);
        }
        let x = self.and(a, b);
        let s = self.add(a, b);
        let d = self.scale(x, 2);
        self.sub(s, d)
    }
    pub fn op2(&mut self, o: OpK, a: T, b: T) -> T {
        let r = self.op2_(o, a, b);
        self.note(Rw::Op(o), [a, b, 0], 2, r);
        r
    }
    fn op2_(&mut self, o: OpK, a: T, b: T) -> T {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k(w, eval_op(o, x, y, w));
        }
        if let Some(c) = cb {
            match o {
                OpK::UDiv if c.is_power_of_two() => return self.lshr(a, c.trailing_zeros()),
                OpK::URem if c.is_power_of_two() => return self.low(a, c.trailing_zeros()),
                OpK::UDiv | OpK::URem if c > 0 => {
                    let (lo, hi) = self.urange(a);
                    let c = c as i128;
                    if lo / c == hi / c {
                        let q = lo / c;
                        if o == OpK::UDiv {
                            return self.k(w, q as u64);
                        }
                        let k = self.k(w, (q * c) as u64);
                        return self.sub(a, k);
                    }
                    // exact division of a multiple
                    if o == OpK::UDiv {
                        if let Some(raw) = self.exact_u(a) {
                            let p = self.terms[a as usize].p.clone();
                            let cs: Vec<_> = p.iter().map(|(m, x)| (*m, if raw { *x as i128 } else { sx(*x, w) as i128 })).collect();
                            if cs.iter().all(|x| x.1 % c == 0) {
                                let mut v: Vec<_> = cs.iter().map(|x| (x.0, (x.1 / c) as u64 & mask(w))).collect();
                                v.retain(|x| x.1 != 0);
                                return self.intern(w, v);
                            }
                        }
                    }
                }
                OpK::Shl => return self.shl(a, c.min(255) as u32),
                OpK::LShr => return self.lshr(a, c.min(255) as u32),
                _ => {}
            }
        }
        if let Some(r) = self.boolfn(w, &[a, b], |x| eval_op(o, x[0], x[1], w)) {
            return r;
        }
        self.atom_t(w, AK::Op(o, a, b))
    }
    pub fn op1(&mut self, o: OpK, a: T) -> T {
        let r = self.op1_(o, a);
        self.note(Rw::Op(o), [a, a, 0], 2, r);
        r
    }
    fn op1_(&mut self, o: OpK, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.as_const(a) {
            return self.k(w, eval_op(o, x, 0, w));
        }
        if let Some(r) = self.boolfn(w, &[a], |x| eval_op(o, x[0], 0, w)) {
            return r;
        }
        let z = self.k(w, 0);
        self.atom_t(w, AK::Op(o, a, z))
    }
    pub fn not1(&mut self, a: T) -> T {
        let o = self.k(1, 1);
        self.add(a, o)
    }
    pub fn is_zero(&mut self, d: T) -> T {
        let r = self.is_zero_(d);
        self.note(Rw::Zero, [d, 0, 0], 1, r);
        r
    }
    fn is_zero_(&mut self, d: T) -> T {
        if let Some(c) = self.as_const(d) {
            return self.k(1, (c == 0) as u64);
        }
        let w = self.w(d);
        if w == 1 {
            return self.not1(d);
        }
        if let Some((lo, hi)) = self.uiv(d) {
            if lo > 0 {
                return self.k(1, 0);
            }
            if (lo, hi) == (0, 1) {
                let x = self.trunc(d, 1);
                return self.not1(x);
            }
        }
        for raw in [false, true] {
            let (lo, hi) = self.iv_with(d, raw);
            if (lo > 0 || hi < 0) && hi - lo < (1i128 << w) && lo > -(1i128 << w) && hi < (1i128 << w) {
                return self.k(1, 0);
            }
        }
        if let Some(r) = self.boolfn(1, &[d], |x| (x[0] == 0) as u64) {
            return r;
        }
        // canonical sign
        let n = self.neg(d);
        let d = if self.terms[d as usize].p.first().map(|x| sx(x.1, w) < 0).unwrap_or(false) { n } else { d };
        let z = self.k(w, 0);
        self.atom_t(1, AK::Cmp(CK::Zero, d, z))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let r = self.ult_(a, b);
        self.note(Rw::Ult, [a, b, 0], 2, r);
        r
    }
    fn ult_(&mut self, a: T, b: T) -> T {
        let (la, ha) = self.urange(a);
        let (lb, hb) = self.urange(b);
        if ha < lb {
            return self.k(1, 1);
        }
        if la >= hb || a == b {
            return self.k(1, 0);
        }
        if let Some(r) = self.boolfn(1, &[a, b], |x| (x[0] < x[1]) as u64) {
            return r;
        }
        // a = b + d without wrapping: not below; b = a + e without wrapping, e > 0: below
        let top = 1i128 << self.w(a);
        let d = self.sub(a, b);
        if let Some((_, hd)) = self.uiv(d) {
            if hd + hb < top {
                return self.k(1, 0);
            }
        }
        let e = self.neg(d);
        if let Some((le, he)) = self.uiv(e) {
            if le > 0 && he + ha < top {
                return self.k(1, 1);
            }
        }
        if self.as_const(b) == Some(1) {
            return self.is_zero(a);
        }
        if self.as_const(a) == Some(0) {
            let z = self.is_zero(b);
            return self.not1(z);
        }
        self.atom_t(1, AK::Cmp(CK::Ult, a, b))
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let r = self.slt_(a, b);
        self.note(Rw::Slt, [a, b, 0], 2, r);
        r
    }
    fn slt_(&mut self, a: T, b: T) -> T {
        let (la, ha) = self.srange(a);
        let (lb, hb) = self.srange(b);
        if ha < lb {
            return self.k(1, 1);
        }
        if la >= hb || a == b {
            return self.k(1, 0);
        }
        if la >= 0 && lb >= 0 {
            return self.ult(a, b);
        }
        let w = self.w(a);
        if let Some(r) = self.boolfn(1, &[a, b], |x| (sx(x[0], w) < sx(x[1], w)) as u64) {
            return r;
        }
        self.atom_t(1, AK::Cmp(CK::Slt, a, b))
    }
    pub fn umulo(&mut self, a: T, b: T) -> T {
        let r = self.umulo_(a, b);
        self.note(Rw::UMulO, [a, b, 0], 2, r);
        r
    }
    fn umulo_(&mut self, a: T, b: T) -> T {
        let (_, ha) = self.urange(a);
        let (_, hb) = self.urange(b);
        let w = self.w(a);
        if sat_mul(ha, hb) < (1i128 << w) {
            return self.k(1, 0);
        }
        if let Some(r) = self.boolfn(1, &[a, b], |x| ((x[0] as u128 * x[1] as u128) >> w != 0) as u64) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.atom_t(1, AK::Cmp(CK::UMulO, a, b))
    }
    /// unsigned addition overflow
    pub fn uaddo(&mut self, a: T, b: T) -> T {
        let r = self.uaddo_(a, b);
        self.note(Rw::UAddO, [a, b, 0], 2, r);
        r
    }
    fn uaddo_(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (_, ha) = self.urange(a);
        let (_, hb) = self.urange(b);
        if ha + hb < (1i128 << w) {
            return self.k(1, 0);
        }
        let s = self.add(a, b);
        self.ult(s, a)
    }
    pub fn select(&mut self, c: T, a: T, b: T) -> T {
        let r = self.select_(c, a, b);
        self.note(Rw::Select, [c, a, b], 3, r);
        r
    }
    fn select_(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.as_const(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        let z = self.zext(c, w);
        let d = self.sub(a, b);
        let m = self.mul(z, d);
        self.add(b, m)
    }
    pub fn digit(&mut self, t: T, b: u32) -> T {
        let r = self.digit_(t, b);
        self.note(Rw::Digit(b), [t, 0, 0], 1, r);
        r
    }
    fn digit_(&mut self, t: T, b: u32) -> T {
        if let Some(c) = self.as_const(t) {
            return self.k(64, eval_digit(c, b));
        }
        if let Some(r) = self.boolfn(64, &[t], |x| eval_digit(x[0], b)) {
            return r;
        }
        self.atom_t(64, AK::Digit(t, b))
    }
    pub fn next_state(&mut self, t: T, b: u32) -> T {
        let r = self.next_state_(t, b);
        self.note(Rw::Next(b), [t, 0, 0], 1, r);
        r
    }
    fn next_state_(&mut self, t: T, b: u32) -> T {
        if let Some(c) = self.as_const(t) {
            return self.k(64, eval_next(c, b));
        }
        if let Some(r) = self.boolfn(64, &[t], |x| eval_next(x[0], b)) {
            return r;
        }
        self.atom_t(64, AK::Next(t, b))
    }
    pub fn min_tz(&self, t: T) -> u32 {
        self.terms[t as usize].p.iter().map(|z| z.1.trailing_zeros()).min().unwrap_or(64)
    }
    /// an opaque name for t
    pub fn cut(&mut self, t: T) -> T {
        let r = self.cut_(t);
        self.note(Rw::Same, [t, 0, 0], 1, r);
        r
    }
    fn cut_(&mut self, t: T) -> T {
        if self.terms[t as usize].p.len() <= 1 {
            return t;
        }
        let k = self.min_tz(t);
        if k >= 64 {
            return t;
        }
        self.ncuts += 1;
        let a = self.atom_t(64, AK::Cut(t, k));
        self.scale(a, 1u64 << k)
    }
    /// Replace atoms by their linear definitions, outermost first:
    ///   digit -> state - 2^b * next, 2^k * (x >> k) -> x for divisible x, nat(x) -> x when the
    /// coefficient makes the high bits irrelevant. Monomials that contain a noise variable are left
    /// alone when `freeze_noise`.
    pub fn expand(&mut self, t: T, freeze_noise: bool) -> T {
        if let Some(r) = self.expcache.get(&(t, freeze_noise, self.uncut)) {
            return *r;
        }
        let w = self.w(t);
        let mut frozen: FxMap<MonoId, u64> = Default::default();
        let mut cur: FxMap<MonoId, u64> = self.terms[t as usize].p.iter().copied().collect();
        let mut done: FxMap<MonoId, u64> = Default::default();
        let mk = mask(w);
        loop {
            // find the highest rank among substitutable atoms
            let mut best = 0u32;
            let mut found = false;
            for (m, c) in cur.iter() {
                if c & mk == 0 {
                    continue;
                }
                if let Some((_, r)) = self.subst_atom(*m, *c & mk, w, freeze_noise) {
                    found = true;
                    best = best.max(r);
                }
            }
            if !found {
                break;
            }
            let mut next: FxMap<MonoId, u64> = Default::default();
            let cm: Vec<(MonoId, u64)> = cur.drain().collect();
            for (m, c) in cm {
                let c = c & mk;
                if c == 0 {
                    continue;
                }
                match self.subst_atom(m, c, w, freeze_noise) {
                    None => {
                        // may combine with later results: keep it
                        let e = next.entry(m).or_insert(0);
                        *e = e.wrapping_add(c);
                    }
                    Some((_, r)) if r < best => {
                        let e = next.entry(m).or_insert(0);
                        *e = e.wrapping_add(c);
                    }
                    Some((a, _)) => {
                        let mut others: Vec<_> = self.monos[m as usize].atoms.to_vec();
                        let i = others.iter().position(|z| *z == a).unwrap();
                        others.remove(i);
                        let others_len = others.len();
                        let om = self.mono(others);
                        let c0 = c;
                        let (def, c) = self.atom_def(a, c, w);
                        if self.cert.skip == 0 && others_len < 4 && self.terms[def as usize].p.len() < 40 {
                            let x = self.intern(w, vec![(m, c0)]);
                            let o = self.intern(w, vec![(om, c & mk)]);
                            let r = self.mul(o, def);
                            self.note2(Rw::Same, [x, 0, 0], 1, r);
                        }
                        let p = self.terms[def as usize].p.clone();
                        for (m2, c2) in p.iter() {
                            let mm = self.mono_mul(om, *m2);
                            let e = next.entry(mm).or_insert(0);
                            *e = e.wrapping_add(c.wrapping_mul(*c2));
                        }
                        if next.len() > self.max_terms {
                            std::panic::panic_any(TooBig);
                        }
                    }
                }
            }
            cur = next;
        }
        for (m, c) in cur {
            let e = done.entry(m).or_insert(0);
            *e = e.wrapping_add(c);
        }
        for (m, c) in frozen.drain() {
            let e = done.entry(m).or_insert(0);
            *e = e.wrapping_add(c);
        }
        let r = self.from_map(w, done);
        self.expcache.insert((t, freeze_noise, self.uncut), r);
        r
    }
    fn subst_atom(&self, m: MonoId, c: u64, w: u8, freeze: bool) -> Option<(AtomId, u32)> {
        let mo = &self.monos[m as usize];
        if mo.rank == 0 {
            return None;
        }
        if freeze {
            for a in mo.atoms.iter() {
                let x = &self.atoms[*a as usize];
                if x.noise && matches!(x.k, AK::Var(_)) {
                    return None;
                }
            }
        }
        let mut best: Option<(AtomId, u32)> = None;
        for a in mo.atoms.iter() {
            let x = &self.atoms[*a as usize];
            let ok = match x.k {
                AK::Digit(..) => w == 64 || true,
                AK::Shr(t, s) => {
                    let tw = self.w(t) as u32;
                    self.min_tz(t) >= s && c.trailing_zeros() >= s && tw + c.trailing_zeros() - s >= w as u32
                }
                AK::Cut(_, s) => self.uncut && c.trailing_zeros() >= s && w == 64,
                AK::Nat(t) => self.w(t) as u32 + c.trailing_zeros() >= w as u32,
                _ => false,
            };
            if ok && best.map(|b| x.rank > b.1).unwrap_or(true) {
                best = Some((*a, x.rank));
            }
        }
        best
    }
    /// (definition at width w, adjusted coefficient)
    fn atom_def(&mut self, a: AtomId, c: u64, w: u8) -> (T, u64) {
        match self.atoms[a as usize].k {
            AK::Digit(t, b) => {
                let n = self.next_state(t, b);
                let n2 = self.shl(n, b);
                let d = self.sub(t, n2);
                (self.trunc(d, w), c)
            }
            AK::Shr(t, s) | AK::Cut(t, s) => {
                let tw = self.w(t);
                let d = if tw >= w { self.trunc(t, w) } else { self.lift(t, w, true) };
                (d, c >> s)
            }
            AK::Nat(t) => {
                let tw = self.w(t);
                let d = if tw >= w { self.trunc(t, w) } else { self.lift(t, w, true) };
                (d, c)
            }
            _ => unreachable!(),
        }
    }
    /// substitute fixed values for boolean atoms
    pub fn subst_known(&mut self, t: T, known: &FxMap<AtomId, u64>) -> T {
        if known.is_empty() {
            return t;
        }
        let x = &self.terms[t as usize];
        let (w, p) = (x.w, x.p.clone());
        let hit = p.iter().any(|(m, _)| self.monos[*m as usize].atoms.iter().any(|a| known.contains_key(a)));
        if !hit {
            return t;
        }
        let mut acc: FxMap<MonoId, u64> = Default::default();
        for (m, c) in p.iter() {
            let at = self.monos[*m as usize].atoms.clone();
            let mut c = *c;
            let mut rest = vec![];
            for a in at.iter() {
                match known.get(a) {
                    Some(v) => c = c.wrapping_mul(*v),
                    None => rest.push(*a),
                }
            }
            if c & mask(w) != 0 {
                let mm = self.mono(rest);
                let e = acc.entry(mm).or_insert(0);
                *e = e.wrapping_add(c);
            }
        }
        self.from_map(w, acc)
    }
    /// all variables a term depends on
    pub fn deps(&self, t: T, seen_t: &mut FxSet<T>, seen_a: &mut FxSet<AtomId>) {
        if !seen_t.insert(t) {
            return;
        }
        let p = self.terms[t as usize].p.clone();
        for (m, _) in p.iter() {
            for a in self.monos[*m as usize].atoms.iter() {
                if seen_a.insert(*a) {
                    match self.atoms[*a as usize].k {
                        AK::Var(_) => {}
                        AK::Digit(t, _) | AK::Next(t, _) | AK::Shr(t, _) | AK::Cut(t, _) | AK::Nat(t) => self.deps(t, seen_t, seen_a),
                        AK::Op(_, x, y) | AK::Cmp(_, x, y) => {
                            self.deps(x, seen_t, seen_a);
                            self.deps(y, seen_t, seen_a);
                        }
                    }
                }
            }
        }
    }
    pub fn show(&self, t: T, lim: usize) -> String {
        let x = &self.terms[t as usize];
        if x.p.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, c)) in x.p.iter().enumerate() {
            if i >= lim {
                s += &format!(" + ...({} monomials)", x.p.len());
                break;
            }
            if i > 0 {
                s += " + ";
            }
            let c = sx(*c, x.w);
            s += &if c.unsigned_abs() > 1 && c.unsigned_abs().is_power_of_two() && c.unsigned_abs() > 1024 {
                format!("{}2^{}", if c < 0 { "-" } else { "" }, c.unsigned_abs().trailing_zeros())
            } else {
                format!("{}", c)
            };
            for a in self.monos[*m as usize].atoms.iter() {
                s += "*";
                s += &self.show_atom(*a);
            }
        }
        s
    }
    pub fn show_atom(&self, a: AtomId) -> String {
        match self.atoms[a as usize].k {
            AK::Var(v) => self.vars[v as usize].name.clone(),
            AK::Digit(t, b) => format!("dig{}(t{})", b, t),
            AK::Next(t, b) => format!("nxt{}(t{})", b, t),
            AK::Shr(t, s) => format!("(t{}>>{})", t, s),
            AK::Cut(t, s) => format!("[t{}>>{}]", t, s),
            AK::Nat(t) => format!("nat(t{}:{})", t, self.w(t)),
            AK::Op(o, a, b) => format!("{:?}(t{},t{})", o, a, b),
            AK::Cmp(o, a, b) => format!("{:?}(t{},t{})", o, a, b),
        }
    }
}

pub fn eval_digit(s: u64, b: u32) -> u64 {
    let res = s & ((1u64 << b) - 1);
    let st = s >> b;
    let mut carry = (res.wrapping_sub(1) | st) & res;
    carry >>= b - 1;
    res.wrapping_sub(carry << b)
}
pub fn eval_next(s: u64, b: u32) -> u64 {
    let res = s & ((1u64 << b) - 1);
    let st = s >> b;
    let mut carry = (res.wrapping_sub(1) | st) & res;
    carry >>= b - 1;
    st.wrapping_add(carry)
}
pub fn eval_op(o: OpK, x: u64, y: u64, w: u8) -> u64 {
    let r = match o {
        OpK::And => x & y,
        OpK::UDiv => {
            if y == 0 {
                mask(w)
            } else {
                x / y
            }
        }
        OpK::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        OpK::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                (if a < 0 { 1 } else { mask(w) }) as u64
            } else {
                a.wrapping_div(b) as u64
            }
        }
        OpK::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u64
            }
        }
        OpK::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        OpK::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        OpK::Ctpop => x.count_ones() as u64,
        OpK::Ctlz => (x.leading_zeros() - (64 - w as u32)) as u64,
        OpK::Cttz => (x.trailing_zeros().min(w as u32)) as u64,
        OpK::BoolZext => x,
    };
    r & mask(w)
}

/// Concrete evaluation of terms under an assignment of the variables.
pub struct Eval<'a> {
    pub ts: &'a Terms,
    pub vals: &'a dyn Fn(u32) -> u64,
    pub at: FxMap<AtomId, u64>,
    pub tt: FxMap<T, u64>,
}
impl<'a> Eval<'a> {
    pub fn new(ts: &'a Terms, vals: &'a dyn Fn(u32) -> u64) -> Self {
        Eval { ts, vals, at: Default::default(), tt: Default::default() }
    }
    pub fn term(&mut self, t: T) -> u64 {
        if let Some(v) = self.tt.get(&t) {
            return *v;
        }
        let x = &self.ts.terms[t as usize];
        let (w, p) = (x.w, x.p.clone());
        let mut r = 0u64;
        for (m, c) in p.iter() {
            let mut v = *c;
            for a in self.ts.monos[*m as usize].atoms.iter() {
                if v == 0 {
                    break;
                }
                v = v.wrapping_mul(self.atom(*a));
            }
            r = r.wrapping_add(v);
        }
        let r = r & mask(w);
        self.tt.insert(t, r);
        r
    }
    pub fn atom(&mut self, a: AtomId) -> u64 {
        if let Some(v) = self.at.get(&a) {
            return *v;
        }
        let v = match self.ts.atoms[a as usize].k {
            AK::Var(i) => (self.vals)(i),
            AK::Digit(t, b) => eval_digit(self.term(t), b),
            AK::Next(t, b) => eval_next(self.term(t), b),
            AK::Shr(t, s) | AK::Cut(t, s) => self.term(t) >> s,
            AK::Nat(t) => self.term(t),
            AK::Op(o, x, y) => eval_op(o, self.term(x), self.term(y), self.ts.w(x)),
            AK::Cmp(o, x, y) => {
                let w = self.ts.w(x);
                let (p, q) = (self.term(x), self.term(y));
                (match o {
                    CK::Zero => p == 0,
                    CK::Ult => p < q,
                    CK::Slt => sx(p, w) < sx(q, w),
                    CK::UMulO => (p as u128 * q as u128) >> w != 0,
                }) as u64
            }
        };
        self.at.insert(a, v);
        v
    }
}
pub type Asg = HashMap<u32, u64>;
