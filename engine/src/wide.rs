//! 128-bit integers with symbolic parts: a low and a high 64-bit term.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

type D = (T, T);
fn err<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Error(s.into()))
}

impl Exec {
    pub fn to_d(&mut self, v: &Val) -> R<D> {
        let k = |me: &mut Self, x: u128| (me.ts.k(64, x as u64), me.ts.k(64, (x >> 64) as u64));
        match v {
            Val::D(p) => Ok(**p),
            Val::W(x) => Ok(k(self, **x)),
            Val::I(x) => Ok(k(self, *x as u128)),
            Val::U => Ok(k(self, 0)),
            _ => err("value used as a 128-bit integer"),
        }
    }
    pub fn of_d(&self, d: D) -> Val {
        match (self.ts.as_const(d.0), self.ts.as_const(d.1)) {
            (Some(l), Some(h)) => Val::W(Rc::new(l as u128 | (h as u128) << 64)),
            _ => Val::D(Rc::new(d)),
        }
    }
    pub fn d_zext(&mut self, t: T) -> Val {
        let lo = self.ts.zext(t, 64);
        let hi = self.ts.k(64, 0);
        self.of_d((lo, hi))
    }
    pub fn d_sext(&mut self, t: T) -> Val {
        let lo = self.ts.sext(t, 64);
        let hi = self.sign64(lo);
        self.of_d((lo, hi))
    }
    /// all ones when negative
    fn sign64(&mut self, t: T) -> T {
        let z = self.ts.k(64, 0);
        let n = self.ts.slt(t, z);
        let n = self.ts.zext(n, 64);
        self.ts.sub(z, n)
    }
    fn umulh(&mut self, a: T, b: T) -> T {
        let (a, b) = if self.ts.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.ts.as_const(b) {
            if c == 0 || c == 1 {
                return self.ts.k(64, 0);
            }
            if c.is_power_of_two() {
                return self.ts.lshr(a, 64 - c.trailing_zeros());
            }
        }
        if let Some(c) = self.ts.as_const(b).filter(|c| *c > 1 << 63) {
            // a*(2^64 - k): the high word is a - hi(a*k) - (lo(a*k) != 0)
            let k = self.ts.k(64, c.wrapping_neg());
            let h = self.umulh(a, k);
            let lo = self.ts.mul(a, k);
            let z = self.ts.is_zero(lo);
            let nz = self.ts.not1(z);
            let nz = self.ts.zext(nz, 64);
            let r = self.ts.sub(a, h);
            return self.ts.sub(r, nz);
        }
        let m = self.ts.k(64, 0xffff_ffff);
        let (a1, a0) = (self.ts.lshr(a, 32), self.ts.and(a, m));
        let (b1, b0) = (self.ts.lshr(b, 32), self.ts.and(b, m));
        let p00 = self.ts.mul(a0, b0);
        let p01 = self.ts.mul(a0, b1);
        let p10 = self.ts.mul(a1, b0);
        let p11 = self.ts.mul(a1, b1);
        let c0 = self.ts.lshr(p00, 32);
        let (l01, h01) = (self.ts.and(p01, m), self.ts.lshr(p01, 32));
        let (l10, h10) = (self.ts.and(p10, m), self.ts.lshr(p10, 32));
        let s = self.ts.add(c0, l01);
        let s = self.ts.add(s, l10);
        let c1 = self.ts.lshr(s, 32);
        let r = self.ts.add(p11, h01);
        let r = self.ts.add(r, h10);
        self.ts.add(r, c1)
    }
    fn d_add(&mut self, a: D, b: D) -> (D, T) {
        let lo = self.ts.add(a.0, b.0);
        let c = self.ts.uaddo(a.0, b.0);
        let cz = self.ts.zext(c, 64);
        let h = self.ts.add(a.1, b.1);
        let hi = self.ts.add(h, cz);
        // carry out of the high word
        let o1 = self.ts.uaddo(a.1, b.1);
        let o2 = self.ts.uaddo(h, cz);
        let o = self.ts.or(o1, o2);
        ((lo, hi), o)
    }
    fn d_sub(&mut self, a: D, b: D) -> (D, T) {
        let lo = self.ts.sub(a.0, b.0);
        let c = self.ts.ult(a.0, b.0);
        let cz = self.ts.zext(c, 64);
        let h = self.ts.sub(a.1, b.1);
        let hi = self.ts.sub(h, cz);
        let o = self.d_ult(a, b);
        ((lo, hi), o)
    }
    fn d_mul(&mut self, a: D, b: D) -> D {
        let lo = self.ts.mul(a.0, b.0);
        let h = self.umulh(a.0, b.0);
        let x = self.ts.mul(a.1, b.0);
        let y = self.ts.mul(a.0, b.1);
        let h = self.ts.add(h, x);
        (lo, self.ts.add(h, y))
    }
    fn d_ult(&mut self, a: D, b: D) -> T {
        let l = self.ts.ult(a.0, b.0);
        let h = self.ts.ult(a.1, b.1);
        let d = self.ts.sub(a.1, b.1);
        let e = self.ts.is_zero(d);
        let el = self.ts.and(e, l);
        self.ts.or(h, el)
    }
    fn d_slt(&mut self, a: D, b: D) -> T {
        let l = self.ts.ult(a.0, b.0);
        let h = self.ts.slt(a.1, b.1);
        let d = self.ts.sub(a.1, b.1);
        let e = self.ts.is_zero(d);
        let el = self.ts.and(e, l);
        self.ts.or(h, el)
    }
    fn d_shl(&mut self, a: D, k: u32) -> D {
        let z = self.ts.k(64, 0);
        match k {
            0 => a,
            1..=63 => {
                let lo = self.ts.shl(a.0, k);
                let x = self.ts.shl(a.1, k);
                let y = self.ts.lshr(a.0, 64 - k);
                (lo, self.ts.add(x, y))
            }
            64 => (z, a.0),
            65..=127 => (z, self.ts.shl(a.0, k - 64)),
            _ => (z, z),
        }
    }
    fn d_shr(&mut self, a: D, k: u32, signed: bool) -> D {
        let k = if signed { k.min(127) } else { k };
        let top = if signed { self.sign64(a.1) } else { self.ts.k(64, 0) };
        let sh = |me: &mut Self, t: T, k: u32| match (k, signed) {
            (0, _) => t,
            (_, true) => me.ts.ashr(t, k),
            _ => me.ts.lshr(t, k),
        };
        match k {
            0 => a,
            1..=63 => {
                let x = self.ts.lshr(a.0, k);
                let y = self.ts.shl(a.1, 64 - k);
                (self.ts.add(x, y), sh(self, a.1, k))
            }
            64..=127 => (sh(self, a.1, k - 64), top),
            _ => (top, top),
        }
    }
    fn d_const(&self, a: D) -> Option<u128> {
        Some(self.ts.as_const(a.0)? as u128 | (self.ts.as_const(a.1)? as u128) << 64)
    }
    /// the value is the sign extension of its low word
    fn d_is_sext(&mut self, a: D) -> bool {
        let s = self.sign64(a.0);
        let d = self.ts.sub(s, a.1);
        self.ts.as_const(d) == Some(0)
    }
    pub fn d_bin(&mut self, o: Bin, va: &Val, vb: &Val) -> R<Val> {
        let (a, b) = (self.to_d(va)?, self.to_d(vb)?);
        let cb = self.d_const(b);
        let r = match o {
            Bin::Add => self.d_add(a, b).0,
            Bin::Sub => self.d_sub(a, b).0,
            Bin::Mul => self.d_mul(a, b),
            Bin::And => (self.ts.and(a.0, b.0), self.ts.and(a.1, b.1)),
            Bin::Or => (self.ts.or(a.0, b.0), self.ts.or(a.1, b.1)),
            Bin::Xor => (self.ts.xor(a.0, b.0), self.ts.xor(a.1, b.1)),
            Bin::Shl | Bin::LShr | Bin::AShr => {
                let k = match cb {
                    Some(k) => k.min(255) as u32,
                    None => return err("symbolic shift amount of a 128-bit value"),
                };
                match o {
                    Bin::Shl => self.d_shl(a, k),
                    Bin::LShr => self.d_shr(a, k, false),
                    _ => self.d_shr(a, k, true),
                }
            }
            Bin::UDiv | Bin::URem => {
                let z = self.ts.k(64, 0);
                if self.ts.as_const(a.1) == Some(0) && self.ts.as_const(b.1) == Some(0) {
                    let k = if o == Bin::UDiv { OpK::UDiv } else { OpK::URem };
                    (self.ts.op2(k, a.0, b.0), z)
                } else if let Some(c) = cb.filter(|c| c.is_power_of_two()) {
                    if o == Bin::UDiv {
                        self.d_shr(a, c.trailing_zeros(), false)
                    } else {
                        let m = c - 1;
                        let (ml, mh) = (self.ts.k(64, m as u64), self.ts.k(64, (m >> 64) as u64));
                        (self.ts.and(a.0, ml), self.ts.and(a.1, mh))
                    }
                } else {
                    return err("symbolic 128-bit division");
                }
            }
            Bin::SDiv | Bin::SRem => {
                if let Some(c) = cb.filter(|c| c.is_power_of_two()) {
                    let m = c - 1;
                    let s = self.sign64(a.1);
                    let (ml, mh) = (self.ts.k(64, m as u64), self.ts.k(64, (m >> 64) as u64));
                    let bias = (self.ts.and(s, ml), self.ts.and(s, mh));
                    let x = self.d_add(a, bias).0;
                    let q = self.d_shr(x, c.trailing_zeros(), true);
                    if o == Bin::SDiv {
                        q
                    } else {
                        let p = self.d_shl(q, c.trailing_zeros());
                        self.d_sub(a, p).0
                    }
                } else if self.d_is_sext(a) && self.d_is_sext(b) && cb.map_or(false, |c| c as u64 != u64::MAX) {
                    let k = if o == Bin::SDiv { OpK::SDiv } else { OpK::SRem };
                    let l = self.ts.op2(k, a.0, b.0);
                    (l, self.sign64(l))
                } else {
                    return err("symbolic signed 128-bit division");
                }
            }
            _ => return err("wide float"),
        };
        Ok(self.of_d(r))
    }
    pub fn d_cmp(&mut self, p: Pred, va: &Val, vb: &Val) -> R<Val> {
        let (a, b) = (self.to_d(va)?, self.to_d(vb)?);
        let r = match p {
            Pred::Eq | Pred::Ne => {
                let l = self.ts.sub(a.0, b.0);
                let h = self.ts.sub(a.1, b.1);
                let (l, h) = (self.ts.is_zero(l), self.ts.is_zero(h));
                self.ts.and(l, h)
            }
            Pred::Ult | Pred::Uge => self.d_ult(a, b),
            Pred::Ugt | Pred::Ule => self.d_ult(b, a),
            Pred::Slt | Pred::Sge => self.d_slt(a, b),
            Pred::Sgt | Pred::Sle => self.d_slt(b, a),
        };
        let r = if matches!(p, Pred::Ne | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) { self.ts.not1(r) } else { r };
        Ok(self.of_t(r))
    }
    /// (result, overflow) of an overflow-checked operation
    pub fn d_overflow(&mut self, k: &str, va: &Val, vb: &Val) -> R<(Val, Val)> {
        let (a, b) = (self.to_d(va)?, self.to_d(vb)?);
        let no = self.ts.k(1, 0);
        let (r, o) = match k {
            "uadd" => self.d_add(a, b),
            "usub" => self.d_sub(a, b),
            "umul" => {
                let z = |me: &Self, d: D| me.ts.as_const(d.1) == Some(0);
                if !(z(self, a) && z(self, b)) {
                    return err("overflow check of a symbolic 128-bit multiplication");
                }
                (self.d_mul(a, b), no)
            }
            "sadd" | "ssub" => {
                let r = if k == "sadd" { self.d_add(a, b).0 } else { self.d_sub(a, b).0 };
                if self.d_is_sext(a) && self.d_is_sext(b) {
                    (r, no)
                } else {
                    let z = self.ts.k(64, 0);
                    let (sa, sb, sr) = (self.ts.slt(a.1, z), self.ts.slt(b.1, z), self.ts.slt(r.1, z));
                    let d = self.ts.add(sa, sb);
                    let same = if k == "sadd" { self.ts.not1(d) } else { d };
                    let ch = self.ts.add(sr, sa);
                    (r, self.ts.mul(same, ch))
                }
            }
            "smul" => {
                let small = |me: &mut Self, d: D| me.d_is_sext(d) || me.ts.as_const(d.1) == Some(0);
                if !(self.d_is_sext(a) && small(self, b) || small(self, a) && self.d_is_sext(b)) {
                    return err("overflow check of a symbolic 128-bit multiplication");
                }
                (self.d_mul(a, b), no)
            }
            _ => return err(format!("wide overflow operation {k}")),
        };
        Ok((self.of_d(r), self.of_t(o)))
    }
}
