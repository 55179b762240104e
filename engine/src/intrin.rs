//! Built-in functions: LLVM intrinsics, allocator, panics, and the verification environment.
use crate::exec::*;
use crate::fpoly::*;
use crate::ir::{Bin, Pred, Ty};
use crate::term::*;
use std::rc::Rc;

type R<T> = Result<T, Stop>;
type V = R<Option<Val>>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

fn bits_of(n: &str) -> u32 {
    // trailing .iN
    let t = n.rsplit(".i").next().unwrap_or("64");
    t.parse().unwrap_or(64)
}

pub fn missing(_: &mut Exec, _: &[Val], n: &str) -> V {
    err(format!("call of a function that is not modelled: {n}"))
}
fn nop(_: &mut Exec, _: &[Val], _: &str) -> V {
    Ok(None)
}
fn zero(_: &mut Exec, _: &[Val], _: &str) -> V {
    Ok(Some(Val::I(0)))
}
fn key_create(e: &mut Exec, a: &[Val], _: &str) -> V {
    let p = e.int(&a[0], "key")?;
    e.store(p, &Ty::Int(32), &Val::I(1))?;
    Ok(Some(Val::I(0)))
}
/// the command line, as the C runtime hands it to the standard library before main
fn vp_args(e: &mut Exec, a: &[Val], _: &str) -> V {
    let (c, v) = (e.int(&a[0], "argc")?, e.int(&a[1], "argv")?);
    for (n, x) in [("4ARGC17h", c), ("4ARGV17h", v)] {
        let full = format!("_ZN3std3sys4args4unix3imp{n}");
        let l = e.find_globals(&full);
        if l.is_empty() {
            return err("the standard library's argument vector was not found");
        }
        for p in l {
            e.store(p, &Ty::Int(64), &Val::I(x))?;
        }
    }
    Ok(None)
}
fn memcpy(e: &mut Exec, a: &[Val], _: &str) -> V {
    let d = e.int(&a[0], "copy destination")?;
    let s = e.int(&a[1], "copy source")?;
    let n = e.int(&a[2], "copy length")?;
    e.memcpy(d, s, n)?;
    Ok(Some(Val::I(d)))
}
fn memset(e: &mut Exec, a: &[Val], _: &str) -> V {
    let d = e.int(&a[0], "fill destination")?;
    let n = e.int(&a[2], "fill length")?;
    let v = match &a[1] {
        Val::S(t) => {
            let t = e.ts.trunc(*t, 8);
            e.of_t(t)
        }
        v => v.clone(),
    };
    e.memset(d, &v, n)?;
    Ok(Some(Val::I(d)))
}
fn memcmp(e: &mut Exec, a: &[Val], name: &str) -> V {
    let p = e.int(&a[0], "compare address")?;
    let q = e.int(&a[1], "compare address")?;
    let n = e.int(&a[2], "compare length")?;
    // concrete bytes fast path
    let mut diff = 0i64;
    let mut sym = false;
    for i in 0..n {
        match (e.load_n(p + i, 1, 8)?, e.load_n(q + i, 1, 8)?) {
            (Val::I(x), Val::I(y)) => {
                if x != y && diff == 0 && !sym {
                    diff = if x < y { -1 } else { 1 };
                    break;
                }
            }
            _ => {
                sym = true;
                break;
            }
        }
    }
    if !sym {
        return Ok(Some(Val::I(diff as i32 as u32 as u64)));
    }
    // the conjunction of the equalities
    let mut acc = e.ts.k(1, 1);
    let step = if n % 8 == 0 { 8 } else { 1 };
    for i in (0..n).step_by(step as usize) {
        let x = e.load_n(p + i, step, step as u32 * 8)?;
        let y = e.load_n(q + i, step, step as u32 * 8)?;
        let c = e.cmp(Pred::Eq, &Ty::Int(step as u32 * 8), &x, &y)?;
        let c = e.to_t(&c, 1)?;
        acc = e.ts.and(acc, c);
    }
    if name == "bcmp" {
        let n1 = e.ts.not1(acc);
        let z = e.ts.zext(n1, 32);
        return Ok(Some(e.of_t(z)));
    }
    // the order is that of the first byte that differs
    if e.branch(acc)? {
        return Ok(Some(Val::I(0)));
    }
    for i in 0..n {
        let x = e.load_n(p + i, 1, 8)?;
        let y = e.load_n(q + i, 1, 8)?;
        let c = e.cmp(Pred::Eq, &Ty::Int(8), &x, &y)?;
        let eq = e.to_t(&c, 1)?;
        let (x, y) = (e.to_t(&x, 8)?, e.to_t(&y, 8)?);
        if !e.branch(eq)? {
            let lt = e.ts.ult(x, y);
            let (a, b) = (e.ts.k(32, 0xffff_ffff), e.ts.k(32, 1));
            let r = e.ts.select(lt, a, b);
            return Ok(Some(e.of_t(r)));
        }
    }
    Ok(Some(Val::I(0)))
}
fn strlen(e: &mut Exec, a: &[Val], _: &str) -> V {
    let p = e.int(&a[0], "string")?;
    let mut n = 0;
    loop {
        let c = e.load_n(p + n, 1, 8)?;
        let c = e.cmp(Pred::Eq, &Ty::Int(8), &c, &Val::I(0))?;
        let end = match c {
            Val::I(x) => x & 1 == 1,
            c => {
                let t = e.to_t(&c, 1)?;
                e.branch(t)?
            }
        };
        if end {
            return Ok(Some(Val::I(n)));
        }
        n += 1;
    }
}
fn alloc(e: &mut Exec, a: &[Val], n: &str) -> V {
    let s = e.int(&a[0], "allocation size")?;
    let al = e.int(&a[1], "alignment")?;
    if s > 1 << 28 {
        return err(format!("huge allocation {s}"));
    }
    let z = n.contains("alloc_zeroed");
    Ok(Some(Val::I(e.alloc(s, al, z)?)))
}
fn dealloc(e: &mut Exec, a: &[Val], _: &str) -> V {
    let p = e.int(&a[0], "free")?;
    e.dealloc(p)?;
    Ok(None)
}
fn realloc(e: &mut Exec, a: &[Val], _: &str) -> V {
    let p = e.int(&a[0], "realloc")?;
    let old = e.int(&a[1], "realloc")?;
    let al = e.int(&a[2], "realloc")?;
    let new = e.int(&a[3], "realloc")?;
    let q = e.alloc(new, al, false)?;
    e.memcpy(q, p, old.min(new))?;
    e.dealloc(p)?;
    Ok(Some(Val::I(q)))
}
fn malloc(e: &mut Exec, a: &[Val], _: &str) -> V {
    let s = e.int(&a[0], "allocation size")?;
    Ok(Some(Val::I(e.alloc(s, 16, false)?)))
}
fn posix_memalign(e: &mut Exec, a: &[Val], _: &str) -> V {
    let p = e.int(&a[0], "allocation")?;
    let al = e.int(&a[1], "alignment")?;
    let s = e.int(&a[2], "size")?;
    let q = e.alloc(s, al, false)?;
    e.store(p, &Ty::Ptr, &Val::I(q))?;
    Ok(Some(Val::I(0)))
}

fn location(e: &Exec, a: &[Val]) -> String {
    for v in a.iter().rev() {
        if let Val::I(p) = v {
            if *p > 0x10000 && *p < 0x4000_0000 {
                if let (Ok(fp), Ok(fl), Ok(line)) = (e.mem.rd(*p, 8), e.mem.rd(*p + 8, 8), e.mem.rd(*p + 16, 4)) {
                    if fp > 0x10000 && fl > 3 && fl < 300 {
                        let s = e.mem.str(fp, fl);
                        if s.contains(".rs") {
                            return format!("{s}:{line}");
                        }
                    }
                }
            }
        }
    }
    "?".into()
}
fn panic(e: &mut Exec, a: &[Val], n: &str) -> V {
    if e.cfgv(CFG_EXPECT_PANIC, 0) != 0 {
        return Err(Stop::ExpectedPanic);
    }
    let mut msg = String::new();
    if a.len() >= 2 {
        if let (Val::I(p), Val::I(l)) = (&a[0], &a[1]) {
            if *l > 0 && *l < 400 && *p > 0x10000 && *p < 0x5000_0000 {
                let s = e.mem.str(*p, *l);
                if s.chars().all(|c| !c.is_control()) {
                    msg = s;
                }
            }
        }
    }
    let loc = location(e, a);
    let short = n.rsplit("17h").nth(1).map(|s| s.rsplit(|c: char| c.is_ascii_digit()).next().unwrap_or(s).to_string()).unwrap_or(n.to_string());
    Err(Stop::Violation(format!("panic ({short}) at {loc}: {msg}")))
}
fn abort(e: &mut Exec, a: &[Val], n: &str) -> V {
    panic(e, a, n)
}
fn with_overflow(e: &mut Exec, a: &[Val], n: &str) -> V {
    let w = bits_of(n);
    let k = &n[5..9];
    if w > 64 {
        if let (Val::W(x), Val::W(y)) = (&a[0], &a[1]) {
            let (r, o) = match k {
                "uadd" => x.overflowing_add(**y),
                "usub" => x.overflowing_sub(**y),
                "umul" => x.overflowing_mul(**y),
                _ => {
                    let (x, y) = (**x as i128, **y as i128);
                    let (r, o) = match k {
                        "sadd" => x.overflowing_add(y),
                        "ssub" => x.overflowing_sub(y),
                        "smul" => x.overflowing_mul(y),
                        _ => return err(n),
                    };
                    (r as u128, o)
                }
            };
            return Ok(Some(Val::A(Rc::new(vec![Val::W(Rc::new(r)), Val::I(o as u64)]))));
        }
        if w == 128 {
            let (r, o) = e.d_overflow(k, &a[0], &a[1])?;
            return Ok(Some(Val::A(Rc::new(vec![r, o]))));
        }
        return err("wide overflow op");
    }
    if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
        let m = mask(w as u8);
        let (r, o) = match k {
            "uadd" => {
                let s = *x as u128 + *y as u128;
                (s as u64 & m, s > m as u128)
            }
            "usub" => (x.wrapping_sub(*y) & m, x < y),
            "umul" => {
                let s = *x as u128 * *y as u128;
                (s as u64 & m, s > m as u128)
            }
            "sadd" | "ssub" | "smul" => {
                let (p, q) = (sx(*x, w as u8) as i128, sx(*y, w as u8) as i128);
                let s = match k {
                    "sadd" => p + q,
                    "ssub" => p - q,
                    _ => p * q,
                };
                (s as u64 & m, s != sx(s as u64 & m, w as u8) as i128)
            }
            _ => return err(n),
        };
        return Ok(Some(Val::A(Rc::new(vec![Val::I(r), Val::I(o as u64)]))));
    }
    let x = e.to_t(&a[0], w)?;
    let y = e.to_t(&a[1], w)?;
    let (r, o) = match k {
        "uadd" => {
            let r = e.ts.add(x, y);
            (r, e.ts.uaddo(x, y))
        }
        "usub" => {
            let r = e.ts.sub(x, y);
            (r, e.ts.ult(x, y))
        }
        "umul" => {
            let r = e.ts.mul(x, y);
            (r, e.ts.umulo(x, y))
        }
        "sadd" | "ssub" | "smul" => {
            let (lx, hx) = e.ts.srange(x);
            let (ly, hy) = e.ts.srange(y);
            let h = 1i128 << (w - 1);
            let (lo, hi) = match k {
                "sadd" => (lx + ly, hx + hy),
                "ssub" => (lx - hy, hx - ly),
                _ => {
                    let c = [lx.checked_mul(ly), lx.checked_mul(hy), hx.checked_mul(ly), hx.checked_mul(hy)];
                    if c.iter().any(|z| z.is_none()) {
                        (-INFTY, INFTY)
                    } else {
                        (c.iter().map(|z| z.unwrap()).min().unwrap(), c.iter().map(|z| z.unwrap()).max().unwrap())
                    }
                }
            };
            let r = match k {
                "sadd" => e.ts.add(x, y),
                "ssub" => e.ts.sub(x, y),
                _ => e.ts.mul(x, y),
            };
            if lo >= -h && hi < h {
                (r, e.ts.k(1, 0))
            } else if k == "smul" {
                return err("symbolic signed multiplication overflow check");
            } else {
                // overflow iff sign rule violated
                let z = e.ts.k(w as u8, 0);
                let sxx = e.ts.slt(x, z);
                let syy = e.ts.slt(y, z);
                let sr = e.ts.slt(r, z);
                let same = if k == "sadd" {
                    let d = e.ts.add(sxx, syy);
                    e.ts.not1(d)
                } else {
                    e.ts.add(sxx, syy)
                };
                let ch = e.ts.add(sr, sxx);
                (r, e.ts.mul(same, ch))
            }
        }
        _ => return err(n),
    };
    let (rv, ov) = (e.of_t(r), e.of_t(o));
    Ok(Some(Val::A(Rc::new(vec![rv, ov]))))
}
fn unary_bits(e: &mut Exec, a: &[Val], n: &str) -> V {
    let w = bits_of(n);
    if w > 64 {
        if let Val::W(x) = &a[0] {
            let r = if n.starts_with("llvm.ctpop") {
                x.count_ones() as u128
            } else if n.starts_with("llvm.ctlz") {
                x.leading_zeros() as u128
            } else if n.starts_with("llvm.cttz") {
                x.trailing_zeros() as u128
            } else if n.starts_with("llvm.bswap") {
                x.swap_bytes()
            } else {
                x.reverse_bits()
            };
            return Ok(Some(Val::W(Rc::new(r))));
        }
        return err(n);
    }
    if let Val::I(x) = &a[0] {
        let r = if n.starts_with("llvm.ctpop") {
            x.count_ones() as u64
        } else if n.starts_with("llvm.ctlz") {
            (x.leading_zeros() - (64 - w)) as u64
        } else if n.starts_with("llvm.cttz") {
            (x.trailing_zeros()).min(w) as u64
        } else if n.starts_with("llvm.bswap") {
            x.swap_bytes() >> (64 - w)
        } else {
            x.reverse_bits() >> (64 - w)
        };
        return Ok(Some(Val::I(r)));
    }
    let t = e.to_t(&a[0], w)?;
    if n.starts_with("llvm.bswap") || n.starts_with("llvm.bitreverse") {
        let step = if n.starts_with("llvm.bswap") { 8 } else { 1 };
        let mut r = e.ts.k(w as u8, 0);
        let m = e.ts.k(w as u8, mask(step as u8));
        for i in (0..w).step_by(step as usize) {
            let x = e.ts.lshr(t, i);
            let x = e.ts.and(x, m);
            let x = e.ts.shl(x, w - step - i);
            r = e.ts.or(r, x);
        }
        return Ok(Some(e.of_t(r)));
    }
    let o = if n.starts_with("llvm.ctpop") {
        OpK::Ctpop
    } else if n.starts_with("llvm.ctlz") {
        OpK::Ctlz
    } else if n.starts_with("llvm.cttz") {
        OpK::Cttz
    } else {
        return err(format!("symbolic {n}"));
    };
    let r = e.ts.op1(o, t);
    Ok(Some(e.of_t(r)))
}
fn fsh(e: &mut Exec, a: &[Val], n: &str) -> V {
    let w = bits_of(n);
    let s = (e.int(&a[2], "shift amount")? % w as u64) as u32;
    let left = n.starts_with("llvm.fshl");
    let x = e.to_t(&a[0], w)?;
    let y = e.to_t(&a[1], w)?;
    let r = if s == 0 {
        if left {
            x
        } else {
            y
        }
    } else {
        let s = if left { s } else { w - s };
        let hi = e.ts.shl(x, s);
        let lo = e.ts.lshr(y, w - s);
        e.ts.or(hi, lo)
    };
    Ok(Some(e.of_t(r)))
}
fn satop(e: &mut Exec, a: &[Val], n: &str) -> V {
    let w = bits_of(n);
    let x = e.to_t(&a[0], w)?;
    let y = e.to_t(&a[1], w)?;
    let r = if n.starts_with("llvm.uadd") {
        let s = e.ts.add(x, y);
        let o = e.ts.uaddo(x, y);
        let m = e.ts.k(w as u8, !0);
        e.ts.select(o, m, s)
    } else {
        let s = e.ts.sub(x, y);
        let o = e.ts.ult(x, y);
        let z = e.ts.k(w as u8, 0);
        e.ts.select(o, z, s)
    };
    Ok(Some(e.of_t(r)))
}
fn minmax(e: &mut Exec, a: &[Val], n: &str) -> V {
    let w = bits_of(n);
    let ty = Ty::Int(w);
    let p = match &n[5..9] {
        "umin" => Pred::Ult,
        "umax" => Pred::Ugt,
        "smin" => Pred::Slt,
        _ => Pred::Sgt,
    };
    let c = e.cmp(p, &ty, &a[0], &a[1])?;
    Ok(Some(e.select(&ty, &c, a[0].clone(), a[1].clone())?))
}
fn threeway(e: &mut Exec, a: &[Val], n: &str) -> V {
    let w = bits_of(n);
    let rw: u32 = n.split(".i").nth(1).and_then(|s| s.parse().ok()).unwrap_or(8);
    let ty = Ty::Int(w);
    let s = n.starts_with("llvm.scmp");
    let lt = e.cmp(if s { Pred::Slt } else { Pred::Ult }, &ty, &a[0], &a[1])?;
    let gt = e.cmp(if s { Pred::Sgt } else { Pred::Ugt }, &ty, &a[0], &a[1])?;
    let (l, g) = (e.to_t(&lt, 1)?, e.to_t(&gt, 1)?);
    let (l, g) = (e.ts.zext(l, rw as u8), e.ts.zext(g, rw as u8));
    let r = e.ts.sub(g, l);
    Ok(Some(e.of_t(r)))
}
fn absop(e: &mut Exec, a: &[Val], n: &str) -> V {
    let w = bits_of(n);
    let ty = Ty::Int(w);
    let z = Val::I(0);
    let c = e.cmp(Pred::Slt, &ty, &a[0], &z)?;
    let t = e.to_t(&a[0], w)?;
    let ng = e.ts.neg(t);
    let ng = e.of_t(ng);
    Ok(Some(e.select(&ty, &c, ng, a[0].clone())?))
}
fn is_constant(_: &mut Exec, _: &[Val], _: &str) -> V {
    Ok(Some(Val::I(0)))
}
fn first(_: &mut Exec, a: &[Val], _: &str) -> V {
    Ok(Some(a[0].clone()))
}
fn fmath(e: &mut Exec, a: &[Val], n: &str) -> V {
    let g = |v: &Val| match v {
        Val::I(x) => Some(f64::from_bits(*x)),
        _ => None,
    };
    if n.starts_with("llvm.fma") || n.starts_with("llvm.fmuladd") || n == "fma" {
        if let (Some(x), Some(y), Some(z)) = (g(&a[0]), g(&a[1]), g(&a[2])) {
            return Ok(Some(Val::I(x.mul_add(y, z).to_bits())));
        }
        let (x, y, z) = (e.fp(&a[0])?, e.fp(&a[1])?, e.fp(&a[2])?);
        let m = e.ft.mul(&x, &y).map_err(|q| Stop::Error(q.0))?;
        let r = m.add(&z, 1).map_err(|q| Stop::Error(q.0))?;
        return Ok(Some(e.of_fp(r)));
    }
    let x = match g(&a[0]) {
        Some(x) => x,
        None => return err(format!("{n} on a Fourier value")),
    };
    let n2 = n.trim_start_matches("llvm.");
    let base = n2.split('.').next().unwrap();
    let r = match base {
        "sqrt" => x.sqrt(),
        "log" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "pow" => x.powf(g(&a[1]).unwrap()),
        "powi" => x.powi(e.int(&a[1], "powi")? as i32),
        "round" => x.round(),
        "roundeven" | "rint" | "nearbyint" => x.round_ties_even(),
        "ceil" => x.ceil(),
        "floor" => x.floor(),
        "trunc" => x.trunc(),
        "fabs" => x.abs(),
        "tan" => x.tan(),
        "atan" => x.atan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "cbrt" => x.cbrt(),
        "expm1" => x.exp_m1(),
        "log1p" => x.ln_1p(),
        "hypot" => x.hypot(g(&a[1]).unwrap()),
        "atan2" => x.atan2(g(&a[1]).unwrap()),
        "fmod" => x % g(&a[1]).unwrap(),
        "maximum" | "minimum" => {
            let y = g(&a[1]).unwrap();
            if x.is_nan() || y.is_nan() {
                f64::NAN
            } else if (base == "maximum") == (x > y || (x == y && x.is_sign_positive())) {
                x
            } else {
                y
            }
        }
        "sin" => x.sin(),
        "cos" => x.cos(),
        "copysign" => x.copysign(g(&a[1]).unwrap()),
        "maxnum" | "fmax" | "maximumnum" => x.max(g(&a[1]).unwrap()),
        "minnum" | "fmin" | "minimumnum" => x.min(g(&a[1]).unwrap()),
        "fptoui" => {
            let w: u32 = n.split(".i").nth(1).and_then(|s| s.split('.').next()).and_then(|s| s.parse().ok()).unwrap_or(64);
            if w > 64 {
                return Ok(Some(Val::W(Rc::new(x as u128))));
            }
            let v = if w == 64 { x as u64 } else { (x as u64).min(mask(w as u8)) };
            return Ok(Some(Val::I(v)));
        }
        "fptosi" => {
            let w: u32 = n.split(".i").nth(1).and_then(|s| s.split('.').next()).and_then(|s| s.parse().ok()).unwrap_or(64);
            let v = if w == 64 { x as i64 } else { (x as i64).clamp(-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) };
            return Ok(Some(Val::I(v as u64 & mask(w as u8))));
        }
        _ => return err(format!("unmodelled float function {n}")),
    };
    Ok(Some(Val::I(r.to_bits())))
}
fn vreduce(e: &mut Exec, a: &[Val], n: &str) -> V {
    if let Val::A(v) = &a[0] {
        let o = if n.contains(".and.") {
            0
        } else if n.contains(".or.") {
            1
        } else {
            return err(n);
        };
        let mut acc = v[0].clone();
        for x in &v[1..] {
            acc = match (&acc, x) {
                (Val::I(p), Val::I(q)) => Val::I(if o == 0 { p & q } else { p | q }),
                _ => return err(n),
            };
        }
        let _ = e;
        return Ok(Some(acc));
    }
    err(n)
}
fn random_keys(_: &mut Exec, _: &[Val], _: &str) -> V {
    Ok(Some(Val::A(Rc::new(vec![Val::I(0x0123456789abcdef), Val::I(0xfedcba9876543210)]))))
}
fn clock(e: &mut Exec, a: &[Val], _: &str) -> V {
    let p = e.int(&a[1], "clock")?;
    let t = 1000 + e.stats.instr / 1000;
    e.store(p, &Ty::Int(64), &Val::I(t))?;
    e.store(p + 8, &Ty::Int(64), &Val::I(0))?;
    Ok(Some(Val::I(0)))
}

// ---------------------------------------------------------------- environment
fn s_of(e: &Exec, p: &Val, n: &Val) -> String {
    match (p, n) {
        (Val::I(p), Val::I(n)) => e.mem.str(*p, *n),
        _ => "?".into(),
    }
}
fn vp_u64(e: &mut Exec, a: &[Val], _: &str) -> V {
    let n = s_of(e, &a[0], &a[1]);
    let b = e.int(&a[2], "bits")? as u32;
    Ok(Some(e.input(n, b)))
}
fn vp_assume(e: &mut Exec, a: &[Val], _: &str) -> V {
    let t = e.to_t(&a[0], 1)?;
    if e.concrete.is_some() && e.ts.as_const(t) == Some(0) {
        return Err(Stop::Infeasible);
    }
    e.assume(t)?;
    Ok(None)
}
fn vp_assert(e: &mut Exec, a: &[Val], _: &str) -> V {
    let m = s_of(e, &a[1], &a[2]);
    let t = e.to_t(&a[0], 1)?;
    e.check(t, &m)?;
    Ok(None)
}
fn vp_assert_eq(e: &mut Exec, a: &[Val], _: &str) -> V {
    let m = s_of(e, &a[3], &a[4]);
    let x = e.to_t(&a[0], 64)?;
    let y = e.to_t(&a[1], 64)?;
    let d = e.ts.sub(x, y);
    let d = e.known_subst(d);
    let d = e.ts.expand(d, false);
    let mut d = e.known_subst(d);
    if e.ts.ncuts > 0 && e.ts.as_const(d).is_none() {
        e.ts.uncut = true;
        let x = e.ts.expand(d, false);
        e.ts.uncut = false;
        d = e.known_subst(x);
    }
    if e.tracing {
        eprintln!("[assert_eq {m}] diff = {}", e.ts.show(d, 8));
    }
    let z = e.ts.is_zero(d);
    let tol = e.int(&a[2], "tolerance")?;
    if tol > 0 && tol < 1 << 62 && e.ts.as_const(z).is_none() {
        // prefer a counterexample that the tolerance of the native replay does not hide
        let k = e.ts.k(64, 2 * tol);
        let s = e.ts.add(d, k);
        let k2 = e.ts.k(64, 4 * tol + 1);
        let c = e.ts.ult(s, k2);
        let big = e.ts.not1(c);
        e.check_pref(z, big, &m)?;
    } else {
        e.check(z, &m)?;
    }
    Ok(None)
}
/// |a - b| <= bound as signed 64-bit distance
fn vp_assert_near(e: &mut Exec, a: &[Val], _: &str) -> V {
    let m = s_of(e, &a[4], &a[5]);
    let x = e.to_t(&a[0], 64)?;
    let y = e.to_t(&a[1], 64)?;
    let b = e.int(&a[2], "bound")?;
    let d = e.ts.sub(x, y);
    let d = e.known_subst(d);
    let d = e.ts.expand(d, true);
    let d = e.known_subst(d);
    if e.tracing {
        eprintln!("[assert_near {m}] diff = {} range {:?} bound {b}", e.ts.show(d, 8), e.ts.srange(d));
    }
    let (lo, hi) = e.ts.srange(d);
    if lo >= -(b as i128) && hi <= b as i128 {
        let one = e.ts.k(1, 1);
        e.check(one, &m)?;
        return Ok(None);
    }
    let k = e.ts.k(64, b);
    let s = e.ts.add(d, k);
    let k2 = e.ts.k(64, 2 * b + 1);
    let c = e.ts.ult(s, k2);
    e.check(c, &m)?;
    Ok(None)
}
/// are the two values the same function of the symbolic variables (a concrete answer)
fn vp_same(e: &mut Exec, a: &[Val], _: &str) -> V {
    let x = e.to_t(&a[0], 64)?;
    let y = e.to_t(&a[1], 64)?;
    let d = e.ts.sub(x, y);
    let d = e.known_subst(d);
    let d = e.ts.expand(d, false);
    let d = e.known_subst(d);
    Ok(Some(Val::I((e.ts.as_const(d) == Some(0)) as u64)))
}
fn vp_choose(e: &mut Exec, a: &[Val], _: &str) -> V {
    let n = e.int(&a[0], "choice")?;
    let v = e.choose(n)?;
    e.record_choice("choose", v);
    Ok(Some(Val::I(v)))
}
fn vp_cfg(e: &mut Exec, a: &[Val], _: &str) -> V {
    let k = e.int(&a[0], "cfg")?;
    let v = e.int(&a[1], "cfg")?;
    e.cfg.insert(k, v);
    Ok(None)
}
fn vp_reach(e: &mut Exec, a: &[Val], _: &str) -> V {
    let n = s_of(e, &a[0], &a[1]);
    *e.stats.reach.entry(n).or_insert(0) += 1;
    Ok(None)
}
fn vp_fail(e: &mut Exec, a: &[Val], _: &str) -> V {
    let m = s_of(e, &a[0], &a[1]);
    let z = e.ts.k(1, 0);
    e.check(z, &m)?;
    Ok(None)
}
fn vp_trace(e: &mut Exec, a: &[Val], _: &str) -> V {
    let n = s_of(e, &a[1], &a[2]);
    let v = match &a[0] {
        Val::I(x) => format!("{x}"),
        Val::S(t) => e.ts.show(*t, 60),
        _ => "?".into(),
    };
    if e.tracing {
        eprintln!("[trace] {n} = {v}");
    }
    e.out.push(format!("{n} {v}"));
    Ok(None)
}
fn vp_rng(e: &mut Exec, a: &[Val], _: &str) -> V {
    let s = (e.int(&a[0], "seed")?, e.int(&a[1], "seed")?);
    let pos = e.int(&a[2], "pos")?;
    let kind = e.int(&a[3], "kind")? as u32;
    let n = e.int(&a[4], "n")? as u32;
    Ok(Some(e.draw(s, pos, kind, n, 0)?))
}
fn vp_gauss(e: &mut Exec, a: &[Val], _: &str) -> V {
    let s = (e.int(&a[0], "seed")?, e.int(&a[1], "seed")?);
    let pos = e.int(&a[2], "pos")?;
    let std = e.int(&a[3], "std")?;
    Ok(Some(e.draw(s, pos, 3, 8, std)?))
}
fn vp_entropy(e: &mut Exec, a: &[Val], _: &str) -> V {
    let k = e.int(&a[0], "kind")?;
    Ok(Some(e.entropy(k)?))
}
fn vp_index(e: &mut Exec, a: &[Val], _: &str) -> V {
    let n = e.int(&a[0], "index bound")?;
    Ok(Some(e.index(n)?))
}
fn vp_shuffle(e: &mut Exec, a: &[Val], _: &str) -> V {
    let p = e.int(&a[0], "shuffle")?;
    let n = e.int(&a[1], "shuffle")?;
    let sz = e.int(&a[2], "shuffle")?;
    let r = if sz == 8 { e.shuffle(p, n)? } else { false };
    Ok(Some(Val::I(r as u64)))
}
fn vp_sched(e: &mut Exec, a: &[Val], _: &str) -> V {
    let n = e.int(&a[0], "sched")?;
    Ok(Some(e.sched(n)?))
}
fn vp_preempt(e: &mut Exec, a: &[Val], _: &str) -> V {
    let n = e.int(&a[0], "preempt")?;
    Ok(Some(e.preempt(n)?))
}
fn vp_resume(e: &mut Exec, _: &[Val], _: &str) -> V {
    e.preempted -= 1;
    Ok(None)
}
/// a lock that is taken: waiting for a preempted task is an order that cannot happen; anything else never ends
fn contended(e: &mut Exec, _: &[Val], _: &str) -> V {
    if e.preempted > 0 {
        return Err(Stop::Infeasible);
    }
    Err(Stop::Violation("deadlock: a task waits for a lock that is held by a task waiting for it".into()))
}
fn vp_threads(e: &mut Exec, _: &[Val], _: &str) -> V {
    Ok(Some(Val::I(e.cfgv(CFG_THREADS, 2))))
}
fn vp_draw_count(e: &mut Exec, _: &[Val], _: &str) -> V {
    Ok(Some(Val::I(e.draws.len() as u64)))
}
fn vp_repeat_count(e: &mut Exec, _: &[Val], _: &str) -> V {
    Ok(Some(Val::I(e.log.iter().filter(|x| x.0 >= 100 && x.0 < 200).count() as u64)))
}
fn vp_draw_info(e: &mut Exec, a: &[Val], _: &str) -> V {
    let i = e.int(&a[0], "draw")? as usize;
    let f = e.int(&a[1], "field")?;
    let d = e.draws[i].clone();
    Ok(Some(match f {
        0 => Val::I(d.seed.0),
        1 => Val::I(d.seed.1),
        2 => Val::I(d.pos),
        3 => Val::I(d.kind as u64),
        4 => Val::I(d.std),
        5 => d.val,
        _ => Val::I(d.n as u64),
    }))
}
fn vp_decomp(e: &mut Exec, a: &[Val], _: &str) -> V {
    if e.cfgv(CFG_MODEL_DECOMP, 1) == 0 {
        return Ok(Some(Val::I(0)));
    }
    let b = e.int(&a[0], "base log")? as u32;
    let p = e.int(&a[1], "state")?;
    let o = e.int(&a[2], "out")?;
    let s = e.load_n(p, 8, 64)?;
    let t = e.to_t(&s, 64)?;
    let d = e.ts.digit(t, b);
    let n = e.ts.next_state(t, b);
    let (dv, nv) = (e.of_t(d), e.of_t(n));
    e.store(p, &Ty::Int(64), &nv)?;
    e.store(o, &Ty::Int(64), &dv)?;
    Ok(Some(Val::I(1)))
}
fn vp_closest(e: &mut Exec, a: &[Val], _: &str) -> V {
    if e.cfgv(CFG_MODEL_DECOMP, 1) == 0 {
        return Ok(Some(Val::I(0)));
    }
    let bits = e.int(&a[0], "bits")? as u32;
    let p = e.int(&a[1], "input")?;
    let o = e.int(&a[2], "out")?;
    let s = e.load_n(p, 8, 64)?;
    if let Val::S(mut t) = s {
        if bits < 64 && e.ts.min_tz(t) < 64 - bits {
            // an equal expression with the digits recombined may be simpler
            let x = e.known_subst(t);
            let x = e.ts.expand(x, true);
            let x = e.known_subst(x);
            if e.ts.terms[x as usize].p.len() < e.ts.terms[t as usize].p.len() {
                t = x;
                let v = e.of_t(t);
                e.store(p, &Ty::Int(64), &v)?;
                if let Val::I(_) = v {
                    return Ok(Some(Val::I(0)));
                }
            }
        }
        if bits < 64 && e.ts.min_tz(t) >= 64 - bits {
            let v = e.of_t(t);
            e.store(o, &Ty::Int(64), &v)?;
            return Ok(Some(Val::I(1)));
        }
    }
    Ok(Some(Val::I(0)))
}
fn vp_fft_fwd(e: &mut Exec, a: &[Val], _: &str) -> V {
    let out = e.int(&a[0], "fft")?;
    let inp = e.int(&a[1], "fft")?;
    let n = e.int(&a[2], "fft")?;
    let kind = e.int(&a[3], "fft")?;
    let torus = kind == 0;
    let mut v: Vec<(i128, HM)> = vec![];
    for i in 0..n {
        let x = e.load_n(inp + 8 * i, 8, 64)?;
        v.push(match x {
            Val::I(c) => {
                let c = c as i64 as i128;
                if torus {
                    let one = e.ts.k(64, 1);
                    (c, e.ft.hm(vec![H(one, true)]))
                } else {
                    (c, 0)
                }
            }
            Val::S(t) => (1, e.ft.hm(vec![H(t, torus)])),
            _ => return err("fft input"),
        });
    }
    let r = e.ft.forward(&v).map_err(|q| Stop::Error(q.0))?;
    for (j, (re, im)) in r.into_iter().enumerate() {
        let re = e.of_fp(re);
        let im = e.of_fp(im);
        e.store(out + 16 * j as u64, &Ty::F64, &re)?;
        e.store(out + 16 * j as u64 + 8, &Ty::F64, &im)?;
    }
    Ok(None)
}
fn vp_fft_bwd(e: &mut Exec, a: &[Val], _: &str) -> V {
    let out = e.int(&a[0], "fft")?;
    let inp = e.int(&a[1], "fft")?;
    let n = e.int(&a[2], "fft")?;
    let add = e.int(&a[3], "fft")?;
    let mut slots = vec![];
    for j in 0..n / 2 {
        let re = e.load_n(inp + 16 * j, 8, 64)?;
        let im = e.load_n(inp + 16 * j + 8, 8, 64)?;
        slots.push((e.fp(&re)?, e.fp(&im)?));
    }
    let r = e.ft.backward(&slots).map_err(|q| Stop::Error(format!("fourier model: {}", q.0)))?;
    for (m, comb) in r.into_iter().enumerate() {
        let mut acc = e.ts.k(64, 0);
        for (c, h) in comb {
            let hs = e.ft.hms[h as usize].clone();
            match hs.iter().filter(|x| x.1).count() {
                0 => continue, // an integer: zero on the torus
                1 => {}
                _ => return err("product of two torus polynomials in the Fourier domain"),
            }
            let mut t = e.ts.k(64, c as u64);
            for x in hs {
                t = e.ts.mul(t, x.0);
            }
            acc = e.ts.add(acc, t);
        }
        let addr = out + 8 * m as u64;
        if add != 0 {
            let o = e.load_n(addr, 8, 64)?;
            let o = e.to_t(&o, 64)?;
            acc = e.ts.add(acc, o);
        }
        let v = e.of_t(acc);
        e.store(addr, &Ty::Int(64), &v)?;
    }
    let prev = e.last_bwd;
    e.last_bwd = (out, n);
    let lim = e.cfgv(CFG_CUT, 8) as usize;
    if lim > 0 && prev == (out.wrapping_sub(8 * n), n) {
        e.last_bwd = (0, 0);
        let mut v = vec![];
        for m in 0..2 * n {
            let x = e.load_n(prev.0 + 8 * m, 8, 64)?;
            v.push(match x {
                Val::I(_) | Val::S(_) => e.to_t(&x, 64)?,
                _ => return Ok(None),
            });
        }
        let big = v.iter().map(|t| e.ts.terms[*t as usize].p.len()).max().unwrap_or(0);
        if big > lim {
            let n = n as usize;
            if let Some((a, b)) = e.cut_pair(&v[..n], &v[n..]) {
                for (m, t) in a.iter().chain(&b).enumerate() {
                    let x = e.of_t(*t);
                    e.store(prev.0 + 8 * m as u64, &Ty::Int(64), &x)?;
                }
            }
        }
    }
    Ok(None)
}

pub fn lookup(n: &str) -> Option<IFn> {
    if let Some(k) = n.strip_prefix("llvm.") {
        return Some(if k.starts_with("memcpy") || k.starts_with("memmove") {
            memcpy
        } else if k.starts_with("memset") {
            memset
        } else if k.contains("with.overflow") {
            with_overflow
        } else if k.starts_with("ctpop") || k.starts_with("ctlz") || k.starts_with("cttz") || k.starts_with("bswap") || k.starts_with("bitreverse") {
            unary_bits
        } else if k.starts_with("fsh") {
            fsh
        } else if k.starts_with("uadd.sat") || k.starts_with("usub.sat") {
            satop
        } else if k.starts_with("umin") || k.starts_with("umax") || k.starts_with("smin") || k.starts_with("smax") {
            minmax
        } else if k.starts_with("ucmp") || k.starts_with("scmp") {
            threeway
        } else if k.starts_with("abs.") {
            absop
        } else if k.starts_with("is.constant") {
            is_constant
        } else if k.starts_with("threadlocal.address") || k.starts_with("expect") || k.starts_with("ptrmask") {
            first
        } else if k.starts_with("vector.reduce") {
            vreduce
        } else if k == "x86.sse2.pause" || k.starts_with("assume") || k.starts_with("prefetch") {
            nop
        } else if k == "trap" || k.starts_with("debugtrap") {
            abort
        } else {
            fmath
        });
    }
    if n.contains("___rust_alloc_zeroed") || n.contains("___rust_alloc") && !n.contains("error_handler") {
        return Some(alloc);
    }
    if n.contains("___rust_dealloc") {
        return Some(dealloc);
    }
    if n.contains("___rust_realloc") {
        return Some(realloc);
    }
    if n.contains("___rust_no_alloc_shim") {
        return Some(nop);
    }
    if n.starts_with("_ZN4core9panicking")
        || n.contains("rust_begin_unwind")
        || n.starts_with("_ZN4core6option13unwrap_failed")
        || n.starts_with("_ZN4core6option13expect_failed")
        || n.starts_with("_ZN4core6result13unwrap_failed")
        || n.starts_with("_ZN4core5slice5index") && n.contains("fail")
        || n.starts_with("_ZN4core3str16slice_error_fail")
        || n.starts_with("_ZN4core4cell") && n.contains("panic_already")
        || n.starts_with("_ZN3std9panicking11begin_panic")
        || n.starts_with("_ZN3std9panicking20rust_panic_with_hook")
        || n.contains("handle_alloc_error")
        || n.contains("capacity_overflow")
        || n.starts_with("_ZN5alloc7raw_vec12handle_error")
    {
        return Some(panic);
    }
    if n.starts_with("_ZN3std3sys4sync5mutex5futex5Mutex14lock_contended") || n.starts_with("_ZN3std3sys4sync6rwlock5futex6RwLock14read_contended") || n.starts_with("_ZN3std3sys4sync6rwlock5futex6RwLock15write_contended") {
        return Some(contended);
    }
    if n.contains("19hashmap_random_keys") {
        return Some(random_keys);
    }
    if n.starts_with("_ZN3std2io5stdio6_print") || n.starts_with("_ZN3std2io5stdio7_eprint") {
        return Some(nop);
    }
    Some(match n {
        "memcpy" | "memmove" => memcpy,
        "memset" => memset,
        "memcmp" | "bcmp" => memcmp,
        "strlen" => strlen,
        "malloc" => malloc,
        "posix_memalign" => posix_memalign,
        "free" => dealloc,
        "abort" | "exit" | "_exit" => abort,
        "clock_gettime" => clock,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "sched_yield" | "fcntl" => zero,
        "sqrt" | "log" | "log2" | "log10" | "exp" | "exp2" | "pow" | "round" | "ceil" | "floor" | "trunc" | "fabs" | "sin" | "cos" | "fma" | "tan" | "atan" | "asin" | "acos" | "sinh" | "cosh" | "tanh" | "cbrt"
        | "expm1" | "log1p" | "hypot" | "atan2" | "fmod" | "fmax" | "fmin" | "copysign" | "rint" | "nearbyint" | "roundeven" => fmath,
        "__vp_args" => vp_args,
        "pthread_key_create" => key_create,
        "getenv" => zero,
        "__vp_u64" => vp_u64,
        "__vp_assume" => vp_assume,
        "__vp_assert" => vp_assert,
        "__vp_assert_eq" => vp_assert_eq,
        "__vp_assert_near" => vp_assert_near,
        "__vp_same" => vp_same,
        "__vp_choose" => vp_choose,
        "__vp_cfg" => vp_cfg,
        "__vp_reach" => vp_reach,
        "__vp_fail" => vp_fail,
        "__vp_trace" => vp_trace,
        "__vp_rng" => vp_rng,
        "__vp_gauss" => vp_gauss,
        "__vp_entropy" => vp_entropy,
        "__vp_index" => vp_index,
        "__vp_sched" => vp_sched,
        "__vp_preempt" => vp_preempt,
        "__vp_resume" => vp_resume,
        "__vp_shuffle" => vp_shuffle,
        "__vp_threads" => vp_threads,
        "__vp_draw_count" => vp_draw_count,
        "__vp_repeat_count" => vp_repeat_count,
        "__vp_draw_info" => vp_draw_info,
        "__vp_decomp" => vp_decomp,
        "__vp_closest" => vp_closest,
        "__vp_fft_fwd" => vp_fft_fwd,
        "__vp_fft_bwd" => vp_fft_bwd,
        _ => return None,
    })
}
#[allow(dead_code)]
fn _unused(b: Bin) -> Bin {
    b
}
