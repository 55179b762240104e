//! SMT-LIB2 back end (one incremental solver process per worker, QF_BV).
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use std::time::Instant;

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}
#[derive(Default, Clone, Debug)]
pub struct SmtStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
}
pub struct Smt {
    cmd: Vec<String>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    have_t: FxHashSetT,
    have_a: FxHashSetA,
    pub timeout_ms: u64,
    pub stats: SmtStats,
    buf: String,
    pub dump: Option<String>,
}
type FxHashSetT = rustc_hash::FxSet<T>;
type FxHashSetA = rustc_hash::FxSet<AtomId>;

fn bitlen(x: i128) -> u32 {
    (128 - x.leading_zeros()).max(1)
}

impl Smt {
    pub fn new(timeout_ms: u64) -> Smt {
        let cmd = std::env::var("VPSYM_SOLVER").unwrap_or("z3 -in -memory:3000".into());
        Smt {
            cmd: cmd.split_whitespace().map(|s| s.to_string()).collect(),
            child: None,
            have_t: Default::default(),
            have_a: Default::default(),
            timeout_ms,
            stats: Default::default(),
            buf: String::new(),
            dump: std::env::var("VPSYM_DUMP").ok(),
        }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start solver");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, i, o));
        self.preamble();
    }
    fn preamble(&mut self) {
        self.buf.clear();
        self.have_a.clear();
        self.have_t.clear();
        self.buf.push_str(&format!(
            "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout {})\n(set-logic QF_BV)\n",
            self.timeout_ms
        ));
    }
    /// forget everything (new path)
    pub fn reset(&mut self) {
        if self.child.is_some() {
            self.have_a.clear();
            self.have_t.clear();
            self.preamble();
            let b = std::mem::take(&mut self.buf);
            self.buf = format!("(reset)\n{}", b);
        }
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn def_term(&mut self, ts: &Terms, t: T) {
        // iterative post-order over definitions
        let mut st: Vec<(bool, bool, u32)> = vec![(true, false, t)];
        while let Some((is_t, ready, id)) = st.pop() {
            if is_t {
                if self.have_t.contains(&id) {
                    continue;
                }
                if !ready {
                    st.push((true, true, id));
                    let p = &ts.terms[id as usize].p;
                    for (m, _) in p.iter() {
                        for a in ts.monos[*m as usize].atoms.iter() {
                            if !self.have_a.contains(a) {
                                st.push((false, false, *a));
                            }
                        }
                    }
                } else {
                    self.emit_term(ts, id);
                    self.have_t.insert(id);
                }
            } else {
                if self.have_a.contains(&id) {
                    continue;
                }
                if !ready {
                    st.push((false, true, id));
                    match ts.atoms[id as usize].k {
                        AK::Var(_) => {}
                        AK::Digit(t, _) | AK::Next(t, _) | AK::Shr(t, _) | AK::Cut(t, _) | AK::Nat(t) => st.push((true, false, t)),
                        AK::Op(_, x, y) | AK::Cmp(_, x, y) => {
                            st.push((true, false, x));
                            st.push((true, false, y));
                        }
                    }
                } else {
                    self.emit_atom(ts, id);
                    self.have_a.insert(id);
                }
            }
        }
    }
    fn atom_w(&self, ts: &Terms, a: AtomId) -> u32 {
        match ts.atoms[a as usize].k {
            AK::Var(v) => bitlen(ts.vars[v as usize].hi as i128),
            AK::Digit(..) | AK::Next(..) => 64,
            AK::Shr(t, s) | AK::Cut(t, s) => ts.w(t) as u32 - s,
            AK::Nat(t) => ts.w(t) as u32,
            AK::Op(_, x, _) => ts.w(x) as u32,
            AK::Cmp(..) => 1,
        }
    }
    fn bv(v: u64, w: u32) -> String {
        format!("(_ bv{} {})", v & mask(w as u8), w)
    }
    fn atom_at(&self, ts: &Terms, a: AtomId, w: u32) -> String {
        let aw = self.atom_w(ts, a);
        let digit = matches!(ts.atoms[a as usize].k, AK::Digit(..));
        if aw == w {
            format!("a{a}")
        } else if aw > w {
            format!("((_ extract {} 0) a{a})", w - 1)
        } else {
            assert!(!digit);
            format!("((_ zero_extend {}) a{a})", w - aw)
        }
    }
    /// a polynomial in 0/1 atoms as nested choices, atom by atom (equal remainders are shared); None when that grows too large
    fn choices(&mut self, ts: &Terms, t: T) -> Option<String> {
        let x = &ts.terms[t as usize];
        let w = x.w as u32;
        if w == 1 || x.p.len() < 4 || x.p.len() > 4096 {
            return None;
        }
        let mut root: Vec<(Vec<AtomId>, u64)> = vec![];
        for (m, c) in x.p.iter() {
            let mut at: Vec<AtomId> = ts.monos[*m as usize].atoms.iter().cloned().collect();
            if at.iter().any(|a| ts.atoms[*a as usize].lo < 0 || ts.atoms[*a as usize].hi > 1) {
                return None;
            }
            at.sort();
            root.push((at, *c));
        }
        root.sort();
        let limit = 2 * x.p.len() + 16;
        let mut memo: HashMap<Vec<(Vec<AtomId>, u64)>, String> = HashMap::new();
        let mut out = String::new();
        let mut st = vec![(root.clone(), false)];
        let msk = mask(w as u8);
        while let Some((p, ready)) = st.pop() {
            if memo.contains_key(&p) {
                continue;
            }
            let var = p.iter().filter_map(|(a, _)| a.first().cloned()).min();
            let Some(v) = var else {
                let c = p.first().map_or(0, |q| q.1);
                memo.insert(p, Self::bv(c, w));
                continue;
            };
            let p0: Vec<(Vec<AtomId>, u64)> = p.iter().filter(|(a, _)| a.first() != Some(&v)).cloned().collect();
            let mut m1: std::collections::BTreeMap<Vec<AtomId>, u64> = p0.iter().cloned().collect();
            for (a, c) in p.iter().filter(|(a, _)| a.first() == Some(&v)) {
                let e = m1.entry(a[1..].to_vec()).or_insert(0);
                *e = e.wrapping_add(*c) & msk;
            }
            let p1: Vec<(Vec<AtomId>, u64)> = m1.into_iter().filter(|(_, c)| *c != 0).collect();
            if !ready {
                st.push((p, true));
                st.push((p1, false));
                st.push((p0, false));
                continue;
            }
            let k = memo.len();
            if k > limit {
                return None;
            }
            let (s1, s0) = (memo[&p1].clone(), memo[&p0].clone());
            let name = format!("t{t}_{k}");
            out.push_str(&format!("(define-fun {name} () (_ BitVec {w}) (ite (= {} #b1) {s1} {s0}))\n", self.atom_at(ts, v, 1)));
            memo.insert(p, name);
        }
        self.buf.push_str(&out);
        Some(memo[&root].clone())
    }
    fn emit_term(&mut self, ts: &Terms, t: T) {
        if let Some(s) = self.choices(ts, t) {
            let w = ts.w(t);
            self.buf.push_str(&format!("(define-fun t{t} () (_ BitVec {w}) {s})\n"));
            return;
        }
        let x = &ts.terms[t as usize];
        let w = x.w as u32;
        let mut parts: Vec<String> = vec![];
        for (m, c) in x.p.iter() {
            let at = &ts.monos[*m as usize].atoms;
            if at.is_empty() {
                parts.push(Self::bv(*c, w));
                continue;
            }
            let mut bools = vec![];
            let mut nums = vec![];
            for a in at.iter() {
                let z = &ts.atoms[*a as usize];
                if z.lo >= 0 && z.hi <= 1 && w > 1 {
                    bools.push(*a);
                } else {
                    nums.push(self.atom_at(ts, *a, w));
                }
            }
            let mut s = if nums.is_empty() {
                Self::bv(*c, w)
            } else {
                let mut s = nums[0].clone();
                for n in &nums[1..] {
                    s = format!("(bvmul {s} {n})");
                }
                if *c == mask(w as u8) && w > 1 {
                    s = format!("(bvneg {s})");
                } else if *c != 1 {
                    if c.is_power_of_two() {
                        s = format!("(bvshl {s} {})", Self::bv(c.trailing_zeros() as u64, w));
                    } else {
                        s = format!("(bvmul {} {s})", Self::bv(*c, w));
                    }
                }
                s
            };
            if !bools.is_empty() {
                let conds: Vec<String> = bools.iter().map(|a| format!("(= {} #b1)", self.atom_at(ts, *a, 1))).collect();
                let cond = if conds.len() == 1 { conds[0].clone() } else { format!("(and {})", conds.join(" ")) };
                s = format!("(ite {cond} {s} {})", Self::bv(0, w));
            }
            parts.push(s);
        }
        let body = match parts.len() {
            0 => Self::bv(0, w),
            1 => parts.pop().unwrap(),
            _ => {
                let op = if w == 1 { "bvxor" } else { "bvadd" };
                let mut it = parts.into_iter();
                let mut s = it.next().unwrap();
                for p in it {
                    s = format!("({op} {s} {p})");
                }
                s
            }
        };
        self.buf.push_str(&format!("(define-fun t{t} () (_ BitVec {w}) {body})\n"));
    }
    fn digit_str(t: &str, b: u32, next: bool) -> String {
        let m = Self::bv((1u64 << b) - 1, 64);
        let bb = Self::bv(b as u64, 64);
        let b1 = Self::bv(b as u64 - 1, 64);
        let one = Self::bv(1, 64);
        let carry = format!("(bvlshr (bvand (bvor (bvsub (bvand {t} {m}) {one}) (bvlshr {t} {bb})) (bvand {t} {m})) {b1})");
        if next {
            format!("(bvadd (bvlshr {t} {bb}) {carry})")
        } else {
            format!("(bvsub (bvand {t} {m}) (bvshl {carry} {bb}))")
        }
    }
    fn op_str(o: OpK, x: &str, y: &str, w: u32) -> String {
        match o {
            OpK::And => format!("(bvand {x} {y})"),
            OpK::UDiv => format!("(bvudiv {x} {y})"),
            OpK::URem => format!("(bvurem {x} {y})"),
            OpK::SDiv => format!("(bvsdiv {x} {y})"),
            OpK::SRem => format!("(bvsrem {x} {y})"),
            OpK::Shl => format!("(bvshl {x} {y})"),
            OpK::LShr => format!("(bvlshr {x} {y})"),
            OpK::BoolZext => x.to_string(),
            OpK::Ctpop => {
                let mut s = Self::bv(0, w);
                for i in 0..w {
                    s = format!("(bvadd {s} (ite (= ((_ extract {i} {i}) {x}) #b1) {} {}))", Self::bv(1, w), Self::bv(0, w));
                }
                s
            }
            OpK::Ctlz => {
                let mut s = Self::bv(w as u64, w);
                for i in 0..w {
                    s = format!("(ite (= ((_ extract {i} {i}) {x}) #b1) {} {s})", Self::bv((w - 1 - i) as u64, w));
                }
                s
            }
            OpK::Cttz => {
                let mut s = Self::bv(w as u64, w);
                for i in (0..w).rev() {
                    s = format!("(ite (= ((_ extract {i} {i}) {x}) #b1) {} {s})", Self::bv(i as u64, w));
                }
                s
            }
        }
    }
    fn cmp_str(o: CK, x: &str, y: &str, w: u32) -> String {
        let c = match o {
            CK::Zero => format!("(= {x} {})", Self::bv(0, w)),
            CK::Ult => format!("(bvult {x} {y})"),
            CK::Slt => format!("(bvslt {x} {y})"),
            CK::UMulO => format!(
                "(not (= ((_ extract {} {}) (bvmul ((_ zero_extend {w}) {x}) ((_ zero_extend {w}) {y}))) {}))",
                2 * w - 1,
                w,
                Self::bv(0, w)
            ),
        };
        format!("(ite {c} #b1 #b0)")
    }
    fn emit_atom(&mut self, ts: &Terms, a: AtomId) {
        let w = self.atom_w(ts, a);
        let b = match ts.atoms[a as usize].k {
            AK::Var(v) => {
                let v = &ts.vars[v as usize];
                self.buf.push_str(&format!("(declare-const a{a} (_ BitVec {w}))\n"));
                if v.hi < mask(w as u8) {
                    self.buf.push_str(&format!("(assert (bvule a{a} {}))\n", Self::bv(v.hi, w)));
                }
                if v.lo > 0 {
                    self.buf.push_str(&format!("(assert (bvuge a{a} {}))\n", Self::bv(v.lo, w)));
                }
                return;
            }
            AK::Digit(t, b) => Self::digit_str(&format!("t{t}"), b, false),
            AK::Next(t, b) => Self::digit_str(&format!("t{t}"), b, true),
            AK::Shr(t, s) | AK::Cut(t, s) => format!("((_ extract {} {}) t{t})", ts.w(t) - 1, s),
            AK::Nat(t) => format!("t{t}"),
            AK::Op(o, x, y) => Self::op_str(o, &format!("t{x}"), &format!("t{y}"), ts.w(x) as u32),
            AK::Cmp(o, x, y) => Self::cmp_str(o, &format!("t{x}"), &format!("t{y}"), ts.w(x) as u32),
        };
        self.buf.push_str(&format!("(define-fun a{a} () (_ BitVec {w}) {b})\n"));
    }
    /// Is the conjunction of the 1-bit terms satisfiable? On sat also returns values of the
    /// variables occurring in them.
    pub fn check(&mut self, ts: &Terms, conj: &[T]) -> (Sat, Vec<(u32, u64)>) {
        if self.child.is_none() {
            self.start();
        }
        for t in conj {
            self.def_term(ts, *t);
        }
        let mut q = std::mem::take(&mut self.buf);
        q.push_str("(push 1)\n");
        for t in conj {
            q.push_str(&format!("(assert (= t{t} #b1))\n"));
        }
        q.push_str("(check-sat)\n(echo \"--\")\n");
        if let Some(d) = &self.dump {
            let _ = std::fs::OpenOptions::new().create(true).append(true).open(d).map(|mut f| f.write_all(q.as_bytes()));
        }
        let t0 = Instant::now();
        let r = self.talk(&q);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        self.stats.max_secs = self.stats.max_secs.max(dt);
        let res = match r {
            Some(ref l) if l.iter().any(|x| x.contains("(error")) => {
                eprintln!("solver error: {:?}", l);
                Sat::Unknown
            }
            Some(ref l) if l.iter().any(|x| x == "sat") => Sat::Sat,
            Some(ref l) if l.iter().any(|x| x == "unsat") => Sat::Unsat,
            _ => Sat::Unknown,
        };
        let mut vals = vec![];
        match res {
            Sat::Sat => {
                self.stats.sat += 1;
                let mut st = Default::default();
                let mut sa = Default::default();
                for t in conj {
                    ts.deps(*t, &mut st, &mut sa);
                }
                let vars: Vec<(AtomId, u32)> =
                    sa.iter().filter_map(|a| if let AK::Var(v) = ts.atoms[*a as usize].k { Some((*a, v)) } else { None }).collect();
                if !vars.is_empty() {
                    let mut g = String::from("(get-value (");
                    for (a, _) in &vars {
                        g.push_str(&format!("a{a} "));
                    }
                    g.push_str("))\n(echo \"--\")\n");
                    if let Some(l) = self.talk(&g) {
                        let txt = l.join(" ");
                        for (a, v) in &vars {
                            let key = format!("(a{a} ");
                            if let Some(i) = txt.find(&key) {
                                let r = &txt[i + key.len()..];
                                let e = r.find(')').unwrap();
                                let n = r[..e].trim();
                                let x = if let Some(h) = n.strip_prefix("#x") {
                                    u64::from_str_radix(h, 16).ok()
                                } else if let Some(b) = n.strip_prefix("#b") {
                                    u64::from_str_radix(b, 2).ok()
                                } else {
                                    None
                                };
                                if let Some(x) = x {
                                    vals.push((*v, x));
                                }
                            }
                        }
                    }
                }
            }
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        if self.child.is_some() {
            self.buf.push_str("(pop 1)\n");
        }
        (res, vals)
    }
    /// the negated claim of a rewriting step; the atoms of the arguments are free within their
    /// bounds unless `full`
    fn claim(&mut self, ts: &Terms, st: &Step, full: bool) -> String {
        self.buf.clear();
        self.have_a.clear();
        self.have_t.clear();
        let args = &st.args[..st.n as usize];
        if !full {
            for t in args {
                for (m, _) in ts.terms[*t as usize].p.iter() {
                    for a in ts.monos[*m as usize].atoms.iter() {
                        if !self.have_a.insert(*a) {
                            continue;
                        }
                        let w = self.atom_w(ts, *a);
                        let x = &ts.atoms[*a as usize];
                        self.buf.push_str(&format!("(declare-const a{a} (_ BitVec {w}))\n"));
                        self.bounds(*a, x.lo, x.hi, w, "assert");
                    }
                }
            }
        }
        for t in args {
            self.def_term(ts, *t);
        }
        let n = |k: usize| format!("t{}", st.args[k]);
        let w = ts.w(st.args[0]) as u32;
        if let Rw::Range(a) = st.op {
            // the atom itself, unfolded
            self.have_a.remove(&a);
            self.emit_atom(ts, a);
            let (lo, hi) = (ts.atoms[a as usize].lo, ts.atoms[a as usize].hi);
            let aw = self.atom_w(ts, a);
            self.bounds(a, lo, hi, aw, "refute");
            return std::mem::take(&mut self.buf);
        }
        self.def_term(ts, st.r);
        let rw = ts.w(st.r) as u32;
        let b = |c: String| format!("(ite {c} #b1 #b0)");
        let l = match st.op {
            Rw::Add => format!("(bvadd {} {})", n(0), n(1)),
            Rw::Sub => format!("(bvsub {} {})", n(0), n(1)),
            Rw::Scale(c) => format!("(bvmul {} {})", Self::bv(c, w), n(0)),
            Rw::Mul => format!("(bvmul {} {})", n(0), n(1)),
            Rw::Trunc => format!("((_ extract {} 0) {})", rw - 1, n(0)),
            Rw::Zext => format!("((_ zero_extend {}) {})", rw - w, n(0)),
            Rw::Sext => format!("((_ sign_extend {}) {})", rw - w, n(0)),
            Rw::Shl(s) => format!("(bvshl {} {})", n(0), Self::bv(s.min(w) as u64, w)),
            Rw::LShr(s) => format!("(bvlshr {} {})", n(0), Self::bv(s.min(w) as u64, w)),
            Rw::AShr(s) => format!("(bvashr {} {})", n(0), Self::bv(s.min(w - 1) as u64, w)),
            Rw::And => format!("(bvand {} {})", n(0), n(1)),
            Rw::Or => format!("(bvor {} {})", n(0), n(1)),
            Rw::Xor => format!("(bvxor {} {})", n(0), n(1)),
            Rw::Op(o) => Self::op_str(o, &n(0), &n(1), w),
            Rw::Zero => b(format!("(= {} {})", n(0), Self::bv(0, w))),
            Rw::Ult => b(format!("(bvult {} {})", n(0), n(1))),
            Rw::Slt => b(format!("(bvslt {} {})", n(0), n(1))),
            Rw::UMulO => Self::cmp_str(CK::UMulO, &n(0), &n(1), w),
            Rw::UAddO => b(format!("(bvult (bvadd {0} {1}) {0})", n(0), n(1))),
            Rw::Select => format!("(ite (= {} #b1) {} {})", n(0), n(1), n(2)),
            Rw::Digit(k) => Self::digit_str(&n(0), k, false),
            Rw::Next(k) => Self::digit_str(&n(0), k, true),
            Rw::Same => n(0),
            Rw::Range(_) => unreachable!(),
        };
        self.buf.push_str(&format!("(assert (not (= {l} t{})))\n", st.r));
        std::mem::take(&mut self.buf)
    }
    /// The claim of a ring operation over free words: monomials are free for the linear operations,
    /// atoms for products, where atoms with values 0 and 1 that both factors share are split over.
    fn ideal(&mut self, ts: &Terms, st: &Step) -> Option<String> {
        let linear = match st.op {
            Rw::Add | Rw::Sub | Rw::Scale(_) | Rw::Shl(_) | Rw::Trunc => true,
            Rw::Mul => false,
            _ => return None,
        };
        let args = &st.args[..st.n as usize];
        if ts.w(args[0]) < 2 || ts.w(st.r) < 2 {
            return None;
        }
        self.buf.clear();
        let mut names = std::collections::BTreeSet::new();
        let atoms = |t: T| -> std::collections::BTreeSet<AtomId> { ts.terms[t as usize].p.iter().flat_map(|(m, _)| ts.monos[*m as usize].atoms.iter().copied()).collect() };
        let mut split: Vec<AtomId> = vec![];
        if !linear {
            let y = atoms(args[1]);
            split = atoms(args[0]).into_iter().filter(|a| y.contains(a) && ts.atoms[*a as usize].lo >= 0 && ts.atoms[*a as usize].hi <= 1).collect();
            if split.len() > 4 {
                return None;
            }
        }
        let mut poly = |t: T, w: u32, case: usize, order: &[AtomId]| -> String {
            let mut s: Option<String> = None;
            'm: for (m, c) in ts.terms[t as usize].p.iter() {
                let c = Self::bv(*c & mask(w as u8), w);
                let mut f = vec![c];
                if !ts.monos[*m as usize].atoms.is_empty() {
                    if linear {
                        names.insert(format!("m{m}"));
                        f.push(format!("m{m}"));
                    } else {
                        for a in ts.monos[*m as usize].atoms.iter() {
                            if let Some(k) = order.iter().position(|x| x == a) {
                                if case >> k & 1 == 0 {
                                    continue 'm;
                                }
                                continue;
                            }
                            names.insert(format!("a{a}"));
                            f.push(format!("a{a}"));
                        }
                    }
                }
                let x = if f.len() == 1 { f.pop().unwrap() } else { format!("(bvmul {})", f.join(" ")) };
                s = Some(match s {
                    None => x,
                    Some(y) => format!("(bvadd {y} {x})"),
                });
            }
            s.unwrap_or(Self::bv(0, w))
        };
        let w = ts.w(st.r) as u32;
        let mut alts = vec![];
        for case in 0..1usize << split.len() {
            let mut n = |k: usize| poly(st.args[k], w, case, &split);
            let l = match st.op {
                Rw::Add => format!("(bvadd {} {})", n(0), n(1)),
                Rw::Sub => format!("(bvsub {} {})", n(0), n(1)),
                Rw::Scale(c) => format!("(bvmul {} {})", Self::bv(c & mask(w as u8), w), n(0)),
                Rw::Mul => format!("(bvmul {} {})", n(0), n(1)),
                Rw::Shl(k) => format!("(bvshl {} {})", n(0), Self::bv(k.min(w) as u64, w)),
                _ => n(0),
            };
            alts.push(format!("(not (= {l} {}))", poly(st.r, w, case, &split)));
        }
        let mut s = String::new();
        for n in &names {
            s.push_str(&format!("(declare-const {n} (_ BitVec {w}))\n"));
        }
        s.push_str(&format!("(assert (or false {}))\n", alts.join(" ")));
        Some(s)
    }
    fn bounds(&mut self, a: AtomId, lo: i128, hi: i128, w: u32, how: &str) {
        let mut c = vec![];
        if lo < 0 {
            if lo > -(1i128 << (w - 1)) {
                c.push(format!("(bvsge a{a} {})", Self::bv(lo as u64, w)));
            }
            if hi < (1i128 << (w - 1)) - 1 {
                c.push(format!("(bvsle a{a} {})", Self::bv(hi as u64, w)));
            }
        } else {
            if lo > 0 {
                c.push(format!("(bvuge a{a} {})", Self::bv(lo as u64, w)));
            }
            if hi < (1i128 << w) - 1 {
                c.push(format!("(bvule a{a} {})", Self::bv(hi as u64, w)));
            }
        }
        if how == "assert" {
            for x in c {
                self.buf.push_str(&format!("(assert {x})\n"));
            }
        } else {
            self.buf.push_str(&format!("(assert (not (and true {})))\n", c.join(" ")));
        }
    }
    /// the claim with its names replaced by their order of occurrence
    fn canonical(s: &str) -> String {
        let mut m: std::collections::HashMap<&str, usize> = Default::default();
        let mut o = String::with_capacity(s.len());
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let start = i;
            if (b[i] == b'a' || b[i] == b't' || b[i] == b'm') && i + 1 < b.len() && b[i + 1].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'#')) {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                let n = m.len();
                let k = *m.entry(&s[start..i]).or_insert(n);
                o.push_str(&format!("{}{k}", b[start] as char));
            } else {
                i += 1;
                o.push_str(&s[start..i]);
            }
        }
        o
    }
    /// Lets the solver confirm a rewriting step. None: an equal claim (up to names) was seen before.
    pub fn certify(&mut self, ts: &Terms, st: &Step, seen: &mut dyn FnMut(u64, bool) -> bool) -> Option<Sat> {
        if let Some(c) = self.ideal(ts, st) {
            let c = Self::canonical(&c);
            if c.len() <= 200_000 {
                let mut h = crate::term::rustc_hash::Fx::default();
                std::hash::Hasher::write(&mut h, c.as_bytes());
                let h = std::hash::Hasher::finish(&h);
                if seen(h, false) {
                    return None;
                }
                let t0 = Instant::now();
                let before = seen(!h, false);
                let r = if before { Sat::Sat } else { self.decide(&c) };
                seen(if r == Sat::Unsat { h } else { !h }, true);
                if std::env::var("VPSYM_CERT").is_ok() {
                    eprintln!("cert {:.3} {r:?} {} ideal {:?}", t0.elapsed().as_secs_f64(), c.len(), st.op);
                    if t0.elapsed().as_secs_f64() > 0.2 { eprintln!("{c}"); }
                }
                if r == Sat::Unsat {
                    return Some(r);
                }
                // not an identity of polynomials: the bounds of the atoms are needed
                if before {
                } else if r == Sat::Sat { self.stats.sat -= 1 } else { self.stats.unknown -= 1 }
            }
        }
        let c = Self::canonical(&self.claim(ts, st, false));
        let mut h = crate::term::rustc_hash::Fx::default();
        std::hash::Hasher::write(&mut h, c.as_bytes());
        let h = std::hash::Hasher::finish(&h);
        if seen(h, false) {
            return None;
        }
        if c.len() > 200_000 || seen(!h, false) {
            self.stats.unknown += 1;
            return Some(Sat::Unknown);
        }
        let t0 = Instant::now();
        let mut r = self.decide(&c);
        if std::env::var("VPSYM_CERT").is_ok() {
            eprintln!("cert {:.3} {r:?} {} {:?}", t0.elapsed().as_secs_f64(), c.len(), st.op);
            if t0.elapsed().as_secs_f64() > 0.5 { eprintln!("{c}"); }
        }
        if r == Sat::Sat {
            // the claim needs what the atoms of its arguments stand for
            let c = Self::canonical(&self.claim(ts, st, true));
            r = if c.len() > 400_000 { Sat::Unknown } else { self.decide(&c) };
            if r == Sat::Sat {
                eprintln!("rewriting step refuted: {st:?}\n{c}");
            }
        }
        seen(if r == Sat::Unsat { h } else { !h }, true);
        Some(r)
    }
    fn decide(&mut self, c: &str) -> Sat {
        if self.child.is_none() {
            self.start();
            let p = std::mem::take(&mut self.buf);
            let _ = self.talk(&format!("{p}(echo \"--\")\n"));
        }
        let t0 = Instant::now();
        let q = format!("(push 1)\n{c}(check-sat-using (then (using-params simplify :som true :blast_distinct true) simplify smt))\n(echo \"--\")\n(pop 1)\n");
        let r = self.talk(&q);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        self.stats.max_secs = self.stats.max_secs.max(dt);
        match r {
            Some(ref l) if l.iter().any(|x| x.contains("(error")) => {
                eprintln!("solver error: {l:?}\n{c}");
                self.stats.unknown += 1;
                Sat::Unknown
            }
            Some(ref l) if l.iter().any(|x| x == "unsat") => {
                self.stats.unsat += 1;
                Sat::Unsat
            }
            Some(ref l) if l.iter().any(|x| x == "sat") => {
                self.stats.sat += 1;
                Sat::Sat
            }
            _ => {
                self.stats.unknown += 1;
                Sat::Unknown
            }
        }
    }
    fn talk(&mut self, q: &str) -> Option<Vec<String>> {
        let r = (|| {
            let (_, i, o) = self.child.as_mut().unwrap();
            i.write_all(q.as_bytes()).ok()?;
            i.flush().ok()?;
            let mut out = vec![];
            loop {
                let mut l = String::new();
                if o.read_line(&mut l).ok()? == 0 {
                    return None;
                }
                let l = l.trim().to_string();
                if l == "--" || l == "\"--\"" {
                    return Some(out);
                }
                out.push(l);
            }
        })();
        if r.is_none() {
            self.kill();
        }
        r
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        self.kill();
    }
}
