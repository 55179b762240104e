//! The program itself: command line and parameter file in, experiments run, results printed.
use pan as panacea;
use super::h_oram::*;
use super::os;
use super::vh::*;
use panacea::decision_tree::{Internal, Node, Op};
use panacea::params::{InputParamsList, ORAMParameters, TFHEParameters};

mod prog {
    // what the program prints, instead of on the standard output
    macro_rules! print {
        ($($t:tt)*) => { super::super::os::print(format_args!($($t)*)) };
    }
    macro_rules! println {
        ($($t:tt)*) => {{
            super::super::os::print(format_args!($($t)*));
            super::super::os::print(format_args!("\n"));
        }};
    }
    // the noise it measures is replaced by known values, so that what it prints about it is known
    mod panacea {
        pub use pan::*;
        pub mod rlwe {
            pub use pan::rlwe::*;
            pub static mut CALLS: usize = 0;
            pub fn compute_noise_encoded<C>(sk: &RLWESecretKey, ct: &RLWECiphertext, pt: &concrete_core::commons::crypto::encoding::PlaintextList<C>, codec: &pan::codec::Codec) -> f64
            where
                C: concrete_core::commons::math::tensor::AsRefSlice<Element = u64>,
            {
                let real = pan::rlwe::compute_noise_encoded(sk, ct, pt, codec);
                super::super::super::check(real == f64::NEG_INFINITY, "the noise measured is that of the answer");
                unsafe {
                    CALLS += 1;
                    super::super::super::NOISES[(CALLS - 1) % 8]
                }
            }
        }
    }
    pub fn measured() -> usize {
        unsafe { panacea::rlwe::CALLS }
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/main.rs"));
    pub fn run() {
        main()
    }
}

pub const NOISES: [f64; 8] = [3.0, 4.5, -2.0, 8.25, 16.0, 1.5, 32.0, 7.0];
/// how the mean of the measurements k..k+n is printed
fn mean(k: usize, n: usize) -> String {
    if prog::measured() == 0 {
        return "-inf".into();
    }
    format!("{}", NOISES[k..k + n].iter().sum::<f64>() / n as f64)
}
fn strs(l: &[&str]) -> Vec<Vec<u8>> {
    l.iter().map(|s| s.as_bytes().to_vec()).collect()
}
fn param_args(p: P, secure: bool) -> Vec<Vec<u8>> {
    let mut v = strs(&["panacea", "--standard-deviation", "-40.5"]);
    for (k, x) in [
        ("--polynomial-size", p.n as u64),
        ("--base-log", p.b as u64),
        ("--level-count", p.l as u64),
        ("--key-switch-base-log", p.kb as u64),
        ("--key-switch-level-count", p.kl as u64),
        ("--negs-base-log", p.nb as u64),
        ("--negs-level-count", p.nl as u64),
        ("--plaintext-modulus", p.t),
    ] {
        v.push(k.as_bytes().to_vec());
        v.push(x.to_string().into_bytes());
    }
    if secure {
        v.push(b"--secure-seed".to_vec());
    }
    v
}
fn param_row(std: &str, p: P, secure: bool) -> String {
    format!("{std},{},{},{},{},{},{},{},2^{},{secure},", p.n, p.b, p.l, p.kb, p.kl, p.nb, p.nl, p.t.trailing_zeros())
}
fn param_doc(std: &str, p: P, secure: bool) -> Vec<u8> {
    let mut t = format!("{{\"standard_deviation\":{std}");
    let v = [p.n as u64, p.b as u64, p.l as u64, p.kb as u64, p.kl as u64, p.nb as u64, p.nl as u64, p.t];
    for i in 0..8 {
        t += &format!(",\"{}\":{}", KEYS[i], v[i]);
    }
    (t + &format!(",\"secure_seed\":{secure}}}")).into_bytes()
}
/// the parameters that apply when none are given
fn default_row() -> String {
    "-55,2048,5,9,5,11,5,11,2^8,true,".to_string()
}
fn log2_spec(x: usize) -> usize {
    (0..64).rev().find(|k| x >> k > 0).unwrap()
}
const HEADER: &str = "standard_deviation,polynomial_size,base_log,level_count,key_switch_base_log,key_switch_level_count,negs_base_log,negs_level_count,plaintext_modulus,secure_seed,mode,item_count,query_count,rows,cols,n,setup_duration,server_duration,response_duration,final_noise";

/// the lines printed by a run of the program
fn run(args: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    os::args(args);
    prog::run();
    let out = os::output();
    let mut l: Vec<Vec<u8>> = out.split(|c| *c == b'\n').map(|s| s.to_vec()).collect();
    check(l.pop().map(|x| x.len()) == Some(0), "the output ends with a line break");
    check(!l.is_empty() && l[0] == HEADER.as_bytes(), "the header names the columns");
    l.remove(0);
    l
}
/// a result row: the fixed part, then the measured values
fn row(l: &[u8], want: &[u8], noise: Option<&str>) {
    let w = want;
    check(l.len() > w.len() && &l[..w.len()] == w, "the row states the parameters and the experiment");
    let f: Vec<&[u8]> = l[w.len()..].split(|c| *c == b',').collect();
    check(f.len() == 4, "three durations and the noise follow");
    if let Some(n) = noise {
        check(f[3] == n.as_bytes(), "the noise measured is that of the answers");
    } else {
        check(f.iter().all(|x| *x == b"-"), "a dry run measures nothing");
    }
}
fn one(p: P, mode: usize, extra: &[&str], want: &str, answers: usize) {
    exact(p);
    cfg(PERM, 0);
    let mut a = param_args(p, true);
    let m = mode.to_string();
    a.extend(strs(&["--mode", &m]));
    a.extend(strs(extra));
    let l = run(a);
    check(l.len() == 1, "one experiment");
    row(&l[0], (param_row("-40.5", p, true) + want).as_bytes(), Some(&mean(0, answers)));
    reach("end");
}

// ------------------------------------------------------------------ JSON
/// a number of `len` symbolic decimal digits without a leading zero, as value and as text
fn num(len: usize) -> (usize, Vec<u8>) {
    digits(len, (len > 1) as u64)
}
/// a positive number
fn pos(len: usize) -> (usize, Vec<u8>) {
    digits(len, 1)
}
fn digits(len: usize, first: u64) -> (usize, Vec<u8>) {
    let (mut v, mut t) = (0u64, vec![]);
    for i in 0..len {
        // a sum of bits with the range of a digit, so that intervals decide most questions about it
        let lo = if i == 0 { first } else { 0 };
        let d = lo + u64s("digit", 3) + u64s("digit", 1) + if lo == 0 { u64s("digit", 1) } else { 0 };
        v = v * 10 + d;
        t.push(b'0' + d as u8);
    }
    (v as usize, t)
}
fn known(v: usize) -> (usize, Vec<u8>) {
    (v, v.to_string().into_bytes())
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
/// a tree of a chosen shape and its document
fn tree(depth: usize, num: &mut dyn FnMut() -> (usize, Vec<u8>)) -> (Node, Vec<u8>) {
    if depth == 0 || choose(2) == 0 {
        let (v, t) = num();
        return (Node::Leaf(v), cat(&[b"{\"leaf\":", &t, b"}"]));
    }
    internal(depth, num)
}
fn internal(depth: usize, num: &mut dyn FnMut() -> (usize, Vec<u8>)) -> (Node, Vec<u8>) {
    let (a, at) = num();
    let (b, bt) = num();
    let (c, ct) = num();
    let (op, opt) = if choose(2) == 0 { (Op::LEQ, "leq") } else { (Op::GT, "gt") };
    let mut child = |num: &mut dyn FnMut() -> (usize, Vec<u8>)| {
        if choose(2) == 0 {
            (None, b"null".to_vec())
        } else {
            let (n, t) = tree(depth - 1, num);
            (Some(n), t)
        }
    };
    let (l, lt) = child(num);
    let (r, rt) = child(num);
    let n = Node::Internal(Box::new(Internal { threshold: a, feature: b, index: c, op, left: l, right: r }));
    let t = cat(&[
        b"{\"internal\":{\"threshold\":", &at, b",\"feature\":", &bt, b",\"index\":", &ct, b",\"op\":\"", opt.as_bytes(),
        b"\",\"left\":", &lt, b",\"right\":", &rt, b"}}",
    ]);
    (n, t)
}
fn same_tree(a: &Node, b: &Node) {
    match (a, b) {
        (Node::Leaf(x), Node::Leaf(y)) => eq(*x as u64, *y as u64, "the label is read back"),
        (Node::Internal(x), Node::Internal(y)) => {
            eq(x.threshold as u64, y.threshold as u64, "the threshold is read back");
            eq(x.feature as u64, y.feature as u64, "the feature is read back");
            eq(x.index as u64, y.index as u64, "the index is read back");
            check(matches!((x.op, y.op), (Op::LEQ, Op::LEQ) | (Op::GT, Op::GT)), "the comparison is read back");
            for (p, q) in [(&x.left, &y.left), (&x.right, &y.right)] {
                match (p, q) {
                    (None, None) => {}
                    (Some(p), Some(q)) => same_tree(p, q),
                    _ => check(false, "children are read back"),
                }
            }
        }
        _ => check(false, "the kind of node is read back"),
    }
}
const KEYS: [&str; 8] = ["polynomial_size", "base_log", "level_count", "key_switch_base_log", "key_switch_level_count", "negs_base_log", "negs_level_count", "plaintext_modulus"];
/// a parameter set with distinct fields and its document
fn tfhe(num: &mut dyn FnMut() -> (usize, Vec<u8>)) -> (TFHEParameters, Vec<u8>) {
    let v: Vec<(usize, Vec<u8>)> = (0..8).map(|_| num()).collect();
    let (sd, sdt) = [(-55.0, "-55.0"), (0.25, "0.25"), (-62.5, "-62.5")][choose(3)];
    let sec = choose(2) == 1;
    let mut t = cat(&[b"{\"standard_deviation\":", sdt.as_bytes()]);
    for i in 0..8 {
        t.extend(cat(&[b",\"", KEYS[i].as_bytes(), b"\":", &v[i].1]));
    }
    t.extend(cat(&[b",\"secure_seed\":", if sec { b"true" } else { b"false" }, b"}"]));
    let p = TFHEParameters {
        standard_deviation: sd,
        polynomial_size: v[0].0,
        base_log: v[1].0,
        level_count: v[2].0,
        key_switch_base_log: v[3].0,
        key_switch_level_count: v[4].0,
        negs_base_log: v[5].0,
        negs_level_count: v[6].0,
        plaintext_modulus: v[7].0 as u64,
        secure_seed: sec,
    };
    (p, t)
}
fn fields(p: &TFHEParameters) -> [u64; 10] {
    [
        p.standard_deviation.to_bits(),
        p.polynomial_size as u64,
        p.base_log as u64,
        p.level_count as u64,
        p.key_switch_base_log as u64,
        p.key_switch_level_count as u64,
        p.negs_base_log as u64,
        p.negs_level_count as u64,
        p.plaintext_modulus,
        p.secure_seed as u64,
    ]
}
fn same_tfhe(a: &TFHEParameters, b: &TFHEParameters) {
    let (x, y) = (fields(a), fields(b));
    for i in 0..10 {
        eq(x[i], y[i], "every parameter is read back");
    }
}
fn oram(kind: usize, num: &mut dyn FnMut() -> (usize, Vec<u8>)) -> (ORAMParameters, Vec<u8>) {
    let (a, at) = num();
    let (b, bt) = num();
    match kind {
        0 => (ORAMParameters::SingleQuery { item_count: a, iterations: b }, cat(&[b"{\"SingleQuery\":{\"item_count\":", &at, b",\"iterations\":", &bt, b"}}"])),
        k => {
            let (c, ct) = num();
            if k == 1 {
                let t = cat(&[b"{\"MultiQuery\":{\"item_count\":", &at, b",\"query_count\":", &bt, b",\"iterations\":", &ct, b"}}"]);
                (ORAMParameters::MultiQuery { item_count: a, query_count: b, iterations: c }, t)
            } else {
                let t = cat(&[b"{\"Batched\":{\"rows\":", &at, b",\"cols\":", &bt, b",\"iterations\":", &ct, b"}}"]);
                (ORAMParameters::Batched { rows: a, cols: b, iterations: c }, t)
            }
        }
    }
}
fn same_oram(a: &ORAMParameters, b: &ORAMParameters) {
    use ORAMParameters::*;
    let v = |o: &ORAMParameters| match *o {
        SingleQuery { item_count, iterations } => [0, item_count, iterations, 0],
        MultiQuery { item_count, query_count, iterations } => [1, item_count, query_count, iterations],
        Batched { rows, cols, iterations } => [2, rows, cols, iterations],
    };
    let (x, y) = (v(a), v(b));
    for i in 0..4 {
        eq(x[i] as u64, y[i] as u64, "the experiment is read back");
    }
}

entries! {
    fn prog_single() {
        one(PO, 0, &["--item-count", "4"], "0,4,-,-,-,2^2,", 1);
    }
    fn prog_single_l3() {
        one(PO3, 0, &["--item-count", "2"], "0,2,-,-,-,2^1,", 1);
    }
    fn prog_multi() {
        one(PO, 1, &["--item-count", "4", "--query-count", "2"], "1,4,2,-,-,2^2,", 2);
    }
    fn prog_multi_default() {
        one(PO, 1, &["--item-count", "2"], "1,2,1,-,-,2^1,", 1);
    }
    fn prog_batch() {
        one(PO, 2, &["--rows", "3", "--cols", "2"], "2,2,-,3,2,2^1,", 2);
    }
    fn prog_dry() {
        // numbers with symbolic digits; every mode; fields that were not given have their defaults
        let mode = choose(4);
        let m = ["0", "1", "2", "7"][mode];
        // one number at a time is symbolic
        let which = choose(2);
        let (x, xt) = if which == 0 { pos(1) } else { known([12, 64][choose(2)]) };
        let (y, yt) = if which == 1 && mode == 1 { num(1) } else { known(3) };
        let secure = (mode + which) % 2 == 1;
        let mut a = param_args(PO, secure);
        a.extend(strs(&["--mode", m, "--dryrun"]));
        let mut add = |k: &str, t: &[u8]| a.extend([k.as_bytes().to_vec(), t.to_vec()]);
        let dflt = panacea::params::TFHEParameters::default().secure_seed;
        let want = match mode {
            0 => {
                assume(x > 0);
                add("--item-count", &xt);
                cat(&[b"0,", &xt, b",-,-,-,2^", (log2_spec(x)).to_string().as_bytes(), b","])
            }
            1 => {
                assume(x > 0);
                add("--item-count", &xt);
                add("--query-count", &yt);
                cat(&[b"1,", &xt, b",", &yt, b",-,-,2^", (log2_spec(x)).to_string().as_bytes(), b","])
            }
            _ => {
                assume(x * 64 / 3 > 0);
                let cols = which == 1;
                add("--rows", &xt);
                let c = if cols {
                    add("--cols", b"16");
                    16
                } else {
                    64
                };
                let n = x * c / 3;
                cat(&[b"2,", n.to_string().as_bytes(), b",-,", &xt, b",", c.to_string().as_bytes(), b",2^", log2_spec(n).to_string().as_bytes(), b","])
            }
        };
        let l = run(a);
        check(l.len() == 1, "one experiment");
        // secure seeding is a flag that is set by default
        let mut w = param_row("-40.5", PO, secure || dflt).into_bytes();
        w.extend(want);
        row(&l[0], &w, None);
        reach("end");
    }
    fn prog_dry_defaults() {
        let mode = choose(3);
        let mut a = strs(&["panacea", "--dryrun"]);
        let m = mode.to_string();
        if choose(2) == 1 || mode != 2 {
            a.extend(strs(&["--mode", &m]));
        }
        let l = run(a);
        let want = ["0,4096,-,-,-,2^12,", "1,4096,1,-,-,2^12,", "2,2048,-,96,64,2^11,"][mode];
        check(l.len() == 1, "one experiment");
        row(&l[0], (default_row() + want).as_bytes(), None);
        reach("end");
    }
    fn prog_file_dry() {
        // two groups; the arguments next to a parameter file are ignored
        let free = choose(3);
        let mut doc = b"[".to_vec();
        let mut want: Vec<Vec<u8>> = vec![];
        for (g, (os, ts)) in [(2usize, 1usize), (1, 2)].iter().enumerate() {
            let o: Vec<(Vec<u8>, Vec<u8>)> = (0..*os).map(|k| {
                let kind = (k + g) % 3;
                let (v, t) = if free == k + 2 * g { pos(1) } else { known(5 + k + 8 * g) };
                match kind {
                    0 => (cat(&[b"{\"SingleQuery\":{\"item_count\":", &t, b",\"iterations\":1}}"]), cat(&[b"0,", &t, b",-,-,-,2^", log2_spec(v).to_string().as_bytes(), b","])),
                    1 => (cat(&[b"{\"MultiQuery\":{\"item_count\":", &t, b",\"query_count\":3,\"iterations\":1}}"]), cat(&[b"1,", &t, b",3,-,-,2^", log2_spec(v).to_string().as_bytes(), b","])),
                    _ => {
                        let m = v * 8 / 3;
                        (cat(&[b"{\"Batched\":{\"rows\":", &t, b",\"cols\":8,\"iterations\":1}}"]), cat(&[b"2,", m.to_string().as_bytes(), b",-,", &t, b",8,2^", log2_spec(m).to_string().as_bytes(), b","]))
                    }
                }
            }).collect();
            let t: Vec<(P, bool)> = (0..*ts).map(|k| ([PO, PO3, PO1][g + k], k == 0)).collect();
            if g > 0 {
                doc.push(b',');
            }
            doc.extend(b"[[");
            doc.extend(o.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(&b","[..]));
            doc.extend(b"],[");
            doc.extend(t.iter().map(|(p, s)| param_doc("0.5", *p, *s)).collect::<Vec<_>>().join(&b","[..]));
            doc.extend(b"]]");
            for x in &o {
                for (p, s) in &t {
                    want.push(cat(&[param_row("0.5", *p, *s).as_bytes(), &x.1]));
                }
            }
        }
        doc.push(b']');
        os::file("experiments.json", &doc);
        let l = run(strs(&["panacea", "--params", "experiments.json", "--dryrun", "--mode", "0", "--item-count", "99", "--base-log", "1"]));
        check(l.len() == want.len(), "one row per experiment");
        for (x, w) in l.iter().zip(&want) {
            row(x, w, None);
        }
        reach("end");
    }
    fn prog_file_run() {
        // every experiment of a file is carried out, as many times as it says
        let kind = choose(3);
        let o: &[u8] = [
            &b"{\"SingleQuery\":{\"item_count\":4,\"iterations\":3}}"[..],
            b"{\"MultiQuery\":{\"item_count\":4,\"query_count\":2,\"iterations\":3}}",
            b"{\"Batched\":{\"rows\":3,\"cols\":4,\"iterations\":3}}",
        ][kind];
        let w = ["0,4,-,-,-,2^2,", "1,4,2,-,-,2^2,", "2,4,-,3,4,2^2,"][kind];
        exact(PO);
        cfg(PERM, 0);
        let doc = cat(&[b"[[[", o, b"],[", &param_doc("-40.5", PO, true), b"]]]"]);
        os::file("run.json", &doc);
        let l = run(strs(&["panacea", "--params", "run.json"]));
        check(l.len() == 3, "a line per iteration");
        let n = [1, 2, 2][kind];
        row(&l[0], (param_row("-40.5", PO, true) + w).as_bytes(), Some(&mean(0, n)));
        for i in 1..3 {
            let m = mean(i * n, n);
            check(l[i] == format!("### mode={kind}, iter={i}, noise={m}").as_bytes(), "later iterations report their noise");
        }
        reach("end");
    }
    fn prog_file_missing() {
        let bad = choose(2) == 1;
        if bad {
            os::file("bad.json", b"[[{\"SingleQuery\":1}]]");
        }
        let mut a = strs(&["panacea", "--params", "bad.json", "--dryrun", "--mode", "0", "--item-count", "8"]);
        let l = run(a);
        check(l.len() == 1, "one experiment");
        if bad {
            // a file that is no parameter list stands for the default experiment
            row(&l[0], (default_row() + "2,2048,-,384,16,2^11,").as_bytes(), None);
        } else {
            // without the file the arguments apply
            row(&l[0], (default_row() + "0,8,-,-,-,2^3,").as_bytes(), None);
        }
        reach("end");
    }
    fn json_tree_write() {
        let (n, _) = tree(1, &mut || num(1));
        same_tree(&n, &serde_json::from_slice(serde_json::to_string(&n).unwrap().as_bytes()).unwrap());
        reach("end");
    }
    fn json_tree_write2() {
        let v = [0, 10, 1 << 53, usize::MAX];
        let mut k = 0;
        let (n, _) = internal(2, &mut || {
            k += 1;
            known(v[k % 4])
        });
        same_tree(&n, &serde_json::from_str(&serde_json::to_string(&n).unwrap()).unwrap());
        reach("end");
    }
    fn json_tree_read() {
        let (n, t) = tree(1, &mut || num(2));
        let m: Node = serde_json::from_slice(&t).unwrap();
        same_tree(&n, &m);
        reach("end");
    }
    fn json_tree_read2() {
        let (n, t) = internal(2, &mut || pos(1));
        let m: Node = serde_json::from_slice(&t).unwrap();
        same_tree(&n, &m);
        reach("end");
    }
    fn json_tree_read_wide() {
        let len = 1 + choose(19);
        let (n, t) = tree(0, &mut || num(len));
        let m: Node = serde_json::from_slice(&t).unwrap();
        same_tree(&n, &m);
        let top: Node = serde_json::from_str("{\"leaf\":18446744073709551615}").unwrap();
        check(matches!(top, Node::Leaf(usize::MAX)), "the largest label is read back");
        reach("end");
    }
    fn json_tree_refused() {
        let bad = [
            "", "{}", "null", "7", "\"leaf\"", "{\"leaf\":-1}", "{\"leaf\":1.5}", "{\"leaf\":18446744073709551616}", "{\"leaf\":1}{\"leaf\":2}",
            "{\"leaf\":1,\"leaf\":2}", "{\"Leaf\":1}", "{\"branch\":1}", "{\"leaf\":\"1\"}", "{\"leaf\":1",
            "{\"internal\":{\"feature\":1,\"index\":0,\"op\":\"leq\",\"left\":null,\"right\":null}}",
            "{\"internal\":{\"threshold\":1,\"index\":0,\"op\":\"leq\",\"left\":null,\"right\":null}}",
            "{\"internal\":{\"threshold\":1,\"feature\":1,\"op\":\"leq\",\"left\":null,\"right\":null}}",
            "{\"internal\":{\"threshold\":1,\"feature\":1,\"index\":0,\"left\":null,\"right\":null}}",
            "{\"internal\":{\"threshold\":1,\"feature\":1,\"index\":0,\"op\":\"lt\",\"left\":null,\"right\":null}}",
            "{\"internal\":{\"threshold\":-2,\"feature\":1,\"index\":0,\"op\":\"leq\",\"left\":null,\"right\":null}}",
            "{\"internal\":{\"threshold\":1,\"feature\":1,\"index\":0,\"op\":\"leq\",\"left\":{},\"right\":null}}",
        ];
        check(serde_json::from_str::<Node>(bad[choose(bad.len())]).is_err(), "a malformed tree is refused");
        reach("end");
    }
    fn json_params() {
        let (p, t) = tfhe(&mut || pos(1));
        same_tfhe(&p, &serde_json::from_slice(&t).unwrap());
        let w = serde_json::to_string(&p).unwrap();
        same_tfhe(&p, &serde_json::from_slice(w.as_bytes()).unwrap());
        reach("end");
    }
    fn json_params_read() {
        let (p, t) = tfhe(&mut || num(3));
        same_tfhe(&p, &serde_json::from_slice(&t).unwrap());
        reach("end");
    }
    fn json_params_refused() {
        // every field is required and has its type
        let (_, t) = tfhe(&mut || known(7));
        let s = String::from_utf8(t).unwrap();
        let mut f: Vec<&str> = s[1..s.len() - 1].split(',').collect();
        let k = choose(10);
        let bad = match choose(3) {
            0 => {
                f.remove(k);
                f.join(",")
            }
            1 => {
                let x = format!("{}:\"7\"", f[k].split(':').next().unwrap());
                f[k] = &x;
                f.join(",")
            }
            _ => {
                let x = f[k];
                f.push(x);
                f.join(",")
            }
        };
        check(serde_json::from_str::<TFHEParameters>(&format!("{{{bad}}}")).is_err(), "a malformed parameter set is refused");
        reach("end");
    }
    fn json_experiments() {
        let (o, t) = oram(choose(3), &mut || num(1));
        same_oram(&o, &serde_json::from_slice(&t).unwrap());
        let w = serde_json::to_string(&o).unwrap();
        same_oram(&o, &serde_json::from_slice(w.as_bytes()).unwrap());
        reach("end");
    }
    fn json_list() {
        let k = choose(3);
        let (o, ot) = oram(k, &mut || pos(1));
        let (o2, ot2) = oram((k + 1) % 3, &mut || known(21));
        let (p, pt) = tfhe(&mut || pos(1));
        let t = cat(&[b"[[[", &ot, b",", &ot2, b"],[", &pt, b"]]]"]);
        let mut l: InputParamsList = serde_json::from_slice(&t).unwrap();
        if choose(2) == 1 {
            l = serde_json::from_slice(serde_json::to_string(&l).unwrap().as_bytes()).unwrap();
        }
        check(l.list.len() == 1 && l.list[0].0.len() == 2 && l.list[0].1.len() == 1, "the list is read back");
        same_oram(&o, &l.list[0].0[0]);
        same_oram(&o2, &l.list[0].0[1]);
        same_tfhe(&p, &l.list[0].1[0]);
        reach("end");
    }
    fn csv_rows() {
        // a header, then rows of numbers; one number at a time is symbolic
        let (r, w) = (choose(3), 1 + choose(3));
        let mut t = ["a", "b,a", "b,\"x y\",a"][w - 1].as_bytes().to_vec();
        let free = choose(if r * w > 0 { r * w } else { 1 });
        let mut want = vec![];
        let unix = choose(2) == 0;
        for i in 0..r {
            t.extend(if unix { &b"\n"[..] } else { b"\r\n" });
            for j in 0..w {
                if j > 0 {
                    t.push(b',');
                }
                let (v, x) = if i * w + j == free { num(1) } else { known([0, 40, 7, 12345, 18446744073709551615, 3][i * w + j]) };
                want.push(v);
                t.extend(x);
            }
        }
        if choose(2) == 1 {
            t.push(b'\n');
        }
        os::file("x.csv", &t);
        let got = panacea::utils::parse_csv(&os::path("x.csv"));
        check(got.len() == r && got.iter().all(|x| x.len() == w), "a row per line after the header, with all its columns");
        for i in 0..r * w {
            eq(got[i / w][i % w] as u64, want[i] as u64, "the numbers in order");
        }
        reach("end");
    }
    fn csv_long() {
        // many rows, or many columns
        let (r, w) = [(300, 2), (3, 120), (40, 17)][choose(3)];
        let mut t = vec![];
        for j in 0..w {
            if j > 0 {
                t.push(b',');
            }
            t.push(b'a');
        }
        let free = r * w - 1 - 2 * choose(2);
        let mut want = vec![];
        for i in 0..r {
            t.push(b'\n');
            for j in 0..w {
                if j > 0 {
                    t.push(b',');
                }
                let k = i * w + j;
                let (v, x) = if k == free { num(1) } else { known([0, 40, 7, 12345, 18446744073709551615, 3, 255, 256][(k * 5 + i) % 8]) };
                want.push(v);
                t.extend(x);
            }
        }
        os::file("x.csv", &t);
        let got = panacea::utils::parse_csv(&os::path("x.csv"));
        check(got.len() == r && got.iter().all(|x| x.len() == w), "a row per line after the header, with all its columns");
        for k in 0..r * w {
            eq(got[k / w][k % w] as u64, want[k] as u64, "the numbers in order");
        }
        reach("end");
    }
    fn csv_refused() {
        cfg(EXPECT_PANIC, 1);
        let bad: [&[u8]; 6] = [b"a\n-1\n", b"a,b\n1\n", b"a\nx\n", b"a\n1.5\n", b"a\n18446744073709551616\n", b""];
        let k = choose(6);
        if k < 5 {
            os::file("x.csv", bad[k]);
        }
        panacea::utils::parse_csv(&os::path("x.csv"));
        fail("a malformed file was read");
    }
}
