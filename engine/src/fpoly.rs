//! Exact formal model of Fourier-domain doubles. A symbolic double is a real-valued linear
//! combination of handle products with coefficients in Z[1/2][2cos(pi/N)], written in the basis
//! {1, c_1, ..., c_{N/2-1}}, c_k = 2cos(k pi / N). Slot j of the transform of a degree-N polynomial
//! is its evaluation at w^(4j+1), w = exp(i pi / N). All identities used are exact.
use crate::term::*;
use rustc_hash::FxMap;
use std::collections::BTreeMap;

/// a product of at most two handles; a handle is a 64-bit ring term, `torus` if it carries the
/// implicit factor 2^-64
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct H(pub T, pub bool);
pub type HM = u32;

#[derive(Clone, Debug, Default)]
pub struct FP {
    pub n: u32,
    pub exp: u32, // value = sum coef * 2^-exp
    pub t: BTreeMap<(HM, u32), i128>,
}

pub struct FTab {
    pub hms: Vec<Vec<H>>,
    map: FxMap<Vec<H>, HM>,
    pub vals: Vec<FP>,
}
#[derive(Debug)]
pub struct FErr(pub String);

impl FTab {
    pub fn new() -> FTab {
        let mut f = FTab { hms: vec![], map: Default::default(), vals: vec![] };
        f.hm(vec![]);
        f
    }
    pub fn hm(&mut self, mut v: Vec<H>) -> HM {
        v.sort();
        if let Some(i) = self.map.get(&v) {
            return *i;
        }
        let i = self.hms.len() as u32;
        self.hms.push(v.clone());
        self.map.insert(v, i);
        i
    }
    pub fn push(&mut self, f: FP) -> u32 {
        self.vals.push(f);
        self.vals.len() as u32 - 1
    }
    pub fn torus_deg(&self, h: HM) -> usize {
        self.hms[h as usize].iter().filter(|x| x.1).count()
    }
}
/// reduce cos index k (any integer) modulo the symmetries: returns (sign, index) with index in
/// 0..N/2, or None if zero; index 0 means c_0 = 2
fn red(k: i64, n: i64) -> Option<(i128, u32)> {
    let mut k = k.rem_euclid(2 * n);
    if k > n {
        k = 2 * n - k;
    }
    let mut s = 1;
    if k > n / 2 {
        k = n - k;
        s = -1;
    }
    if n % 2 == 0 && k == n / 2 {
        return None;
    }
    Some((s, k as u32))
}
impl FP {
    fn align(&mut self, exp: u32) -> Result<(), FErr> {
        if exp > self.exp {
            let s = exp - self.exp;
            for v in self.t.values_mut() {
                *v = v.checked_mul(1i128.checked_shl(s).ok_or(FErr("exp".into()))?).ok_or_else(|| FErr("fourier coefficient overflow".into()))?;
            }
            self.exp = exp;
        }
        Ok(())
    }
    fn norm(&mut self) {
        self.t.retain(|_, v| *v != 0);
        if self.t.is_empty() {
            self.exp = 0;
            return;
        }
        let tz = self.t.values().map(|v| v.trailing_zeros()).min().unwrap().min(self.exp);
        if tz > 0 {
            for v in self.t.values_mut() {
                *v >>= tz;
            }
            self.exp -= tz;
        }
    }
    pub fn add(&self, o: &FP, sign: i128) -> Result<FP, FErr> {
        if self.n != 0 && o.n != 0 && self.n != o.n {
            return Err(FErr("mixed transform sizes".into()));
        }
        let mut r = self.clone();
        let mut o = o.clone();
        r.n = r.n.max(o.n);
        let e = r.exp.max(o.exp);
        r.align(e)?;
        o.align(e)?;
        for (k, v) in o.t {
            let x = r.t.entry(k).or_insert(0);
            *x = x.checked_add(v * sign).ok_or_else(|| FErr("overflow".into()))?;
        }
        r.norm();
        Ok(r)
    }
    pub fn neg(&self) -> FP {
        let mut r = self.clone();
        for v in r.t.values_mut() {
            *v = -*v;
        }
        r
    }
    /// multiply by c_k (formal index, c_0 = 2), adding s*coef of everything into acc
    fn addc(acc: &mut BTreeMap<(HM, u32), i128>, h: HM, k: i64, n: i64, c: i128) -> Result<(), FErr> {
        if let Some((s, k)) = red(k, n) {
            let c = if k == 0 { c.checked_mul(2) } else { Some(c) }.ok_or_else(|| FErr("overflow".into()))? * s;
            let e = acc.entry((h, k)).or_insert(0);
            *e = e.checked_add(c).ok_or_else(|| FErr("overflow".into()))?;
        }
        Ok(())
    }
    pub fn from_f64(x: f64) -> Result<FP, FErr> {
        let mut r = FP::default();
        if x == 0.0 {
            return Ok(r);
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = if e == 0 { 0 } else { (b & ((1 << 52) - 1)) | (1 << 52) } as i128;
        if e == 0 || e == 0x7ff {
            return Err(FErr("unsupported double constant".into()));
        }
        let sh = e - 1075;
        let m = if x < 0.0 { -m } else { m };
        let tz = m.trailing_zeros() as i32;
        let (m, sh) = (m >> tz, sh + tz);
        if sh >= 0 {
            if sh > 70 {
                return Err(FErr("large double constant".into()));
            }
            r.t.insert((0, 0), m << sh);
        } else {
            r.exp = (-sh) as u32;
            r.t.insert((0, 0), m);
        }
        Ok(r)
    }
}
impl FTab {
    pub fn mul(&mut self, a: &FP, b: &FP) -> Result<FP, FErr> {
        if a.n != 0 && b.n != 0 && a.n != b.n {
            return Err(FErr("mixed transform sizes".into()));
        }
        let n = a.n.max(b.n);
        let mut r = FP { n, exp: a.exp + b.exp, t: BTreeMap::new() };
        let mut memo: FxMap<(HM, HM), HM> = Default::default();
        for ((h1, k1), c1) in &a.t {
            for ((h2, k2), c2) in &b.t {
                let h = match memo.get(&(*h1, *h2)) {
                    Some(h) => *h,
                    None => {
                        let mut v = self.hms[*h1 as usize].clone();
                        v.extend(self.hms[*h2 as usize].iter().copied());
                        if v.len() > 3 {
                            return Err(FErr("product of more than three transforms".into()));
                        }
                        let h = self.hm(v);
                        memo.insert((*h1, *h2), h);
                        h
                    }
                };
                let c = c1.checked_mul(*c2).ok_or_else(|| FErr("overflow".into()))?;
                if *k1 == 0 || *k2 == 0 {
                    let e = r.t.entry((h, *k1 + *k2)).or_insert(0);
                    *e = e.checked_add(c).ok_or_else(|| FErr("overflow".into()))?;
                } else {
                    FP::addc(&mut r.t, h, *k1 as i64 + *k2 as i64, n as i64, c)?;
                    FP::addc(&mut r.t, h, *k1 as i64 - *k2 as i64, n as i64, c)?;
                }
            }
        }
        r.norm();
        Ok(r)
    }
    /// forward transform: input handles as (coef, HM); output re/im per slot
    pub fn forward(&mut self, inp: &[(i128, HM)]) -> Result<Vec<(FP, FP)>, FErr> {
        let n = inp.len() as i64;
        let mut out = vec![];
        for j in 0..n / 2 {
            let mut re = FP { n: n as u32, exp: 1, t: BTreeMap::new() };
            let mut im = re.clone();
            for (m, (c, h)) in inp.iter().enumerate() {
                if *c == 0 {
                    continue;
                }
                let a = m as i64 * (4 * j + 1);
                // cos = c_a / 2, sin a = cos(N/2 - a) (angle unit pi/N)
                FP::addc(&mut re.t, *h, a, n, *c)?;
                FP::addc(&mut im.t, *h, n / 2 - a, n, *c)?;
            }
            re.norm();
            im.norm();
            out.push((re, im));
        }
        Ok(out)
    }
    /// backward: p_m = (2/N) sum_j Re(slot_j * w^(-m(4j+1))), returned as integer combinations
    pub fn backward(&mut self, slots: &[(FP, FP)]) -> Result<Vec<Vec<(i128, HM)>>, FErr> {
        let n = slots.len() as i64 * 2;
        let mut out = vec![];
        for m in 0..n {
            let mut acc = FP { n: n as u32, exp: 0, t: BTreeMap::new() };
            for (j, (re, im)) in slots.iter().enumerate() {
                let a = m * (4 * j as i64 + 1);
                // Re((x+iy)(cos a - i sin a)) = x cos a + y sin a
                for (part, k) in [(re, a), (im, n / 2 - a)] {
                    let mut q = FP { n: n as u32, exp: part.exp + 1, t: BTreeMap::new() };
                    for ((h, k1), c) in &part.t {
                        if *k1 == 0 {
                            FP::addc(&mut q.t, *h, k, n, *c)?;
                        } else {
                            FP::addc(&mut q.t, *h, *k1 as i64 + k, n, *c)?;
                            FP::addc(&mut q.t, *h, *k1 as i64 - k, n, *c)?;
                        }
                    }
                    acc = acc.add(&q, 1)?;
                }
            }
            // times 2/N
            acc.exp += (n / 2).trailing_zeros();
            acc.norm();
            let mut v = vec![];
            for ((h, k), c) in &acc.t {
                if *k != 0 || acc.exp != 0 {
                    return Err(FErr("inverse transform of a value that is not an integer combination".into()));
                }
                v.push((*c, *h));
            }
            out.push(v);
        }
        Ok(out)
    }
}
