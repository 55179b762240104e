//! vpsym: symbolic executor. usage:
//!   vpsym --ll DIR [--jobs N] [--timeout S] [--out FILE] [--cex DIR] entry...
//!   vpsym --ll DIR --concrete SEED entry      (run concretely, print the trace and the inputs)
//!   vpsym --ll DIR --replay FILE              (interpret a recorded counterexample concretely)
#![allow(dead_code)]
mod exec;
mod fpoly;
mod intrin;
mod ir;
mod smt;
mod term;
mod wide;
mod selftest;
use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    entry: usize,
    prefix: Vec<u64>,
}
#[derive(Default)]
struct Shared {
    /// entries that ran out of memory: their other paths are not tried
    given_up: Vec<usize>,
    working: Vec<bool>,
    finished: bool,
    dropped: Vec<usize>,
    queue: VecDeque<Job>,
    active: usize,
    stop: bool,
    res: Vec<EntryRes>,
}
#[derive(Default)]
struct EntryRes {
    name: String,
    stats: Stats,
    smt: smt::SmtStats,
    /// rewriting steps put to the solver
    cert: smt::SmtStats,
    cert_steps: u64,
    cert_same: u64,
    funcs: std::collections::BTreeSet<(String, String)>,
    viol: Vec<(String, Vec<String>, Vec<(String, String)>, String)>,
    errors: Vec<String>,
}

/// claims that were put to the solver
static CERTIFIED: std::sync::LazyLock<Mutex<std::collections::HashSet<u64>>> = std::sync::LazyLock::new(Default::default);

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

/// resident memory in bytes
fn rss() -> usize {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split_whitespace().nth(1).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) * 4096
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut lldir = String::new();
    let mut jobs = 8usize;
    let mut timeout = 600u64;
    let mut mem_limit = 16usize << 30;
    let mut grace = Duration::from_secs(40);
    let mut qtimeout = 20000u64;
    let mut cert_s = 1.0f64;
    let mut out = None;
    let mut cexdir = String::from(".");
    let mut entries: Vec<String> = vec![];
    let mut concrete: Option<u64> = None;
    let mut trace = false;
    let mut prefix: Vec<u64> = vec![];
    let mut maxviol = 4usize;
    let mut replay: Option<Replay> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--ll" => {
                i += 1;
                lldir = args[i].clone()
            }
            "--jobs" => {
                i += 1;
                jobs = args[i].parse().unwrap()
            }
            "--timeout" => {
                i += 1;
                timeout = args[i].parse().unwrap()
            }
            "--mem" => {
                i += 1;
                mem_limit = args[i].parse::<usize>().unwrap() << 20
            }
            "--cert" => {
                i += 1;
                cert_s = args[i].parse().unwrap()
            }
            "--grace" => {
                i += 1;
                grace = Duration::from_secs(args[i].parse().unwrap())
            }
            "--qtimeout" => {
                i += 1;
                qtimeout = args[i].parse().unwrap()
            }
            "--out" => {
                i += 1;
                out = Some(args[i].clone())
            }
            "--cex" => {
                i += 1;
                cexdir = args[i].clone()
            }
            "--concrete" => {
                i += 1;
                concrete = Some(args[i].parse().unwrap())
            }
            "--prefix" => {
                i += 1;
                prefix = args[i].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
            }
            "--maxviol" => {
                i += 1;
                maxviol = args[i].parse().unwrap()
            }
            "--replay" => {
                i += 1;
                let t = std::fs::read_to_string(&args[i]).expect("replay file");
                let mut r = Replay::default();
                for l in t.lines() {
                    let w: Vec<&str> = l.split_whitespace().collect();
                    let n = |k: usize| w[k].parse::<u64>().expect("number");
                    match w.first() {
                        Some(&"entry") => entries.push(w[1].to_string()),
                        Some(&"u64") => r.inputs.push(n(2)),
                        Some(&"choice") => r.choices.push(n(2)),
                        Some(&"draw") => {
                            r.draws.insert((n(1), n(2), n(3), n(4) as u32), n(5));
                        }
                        _ => {}
                    }
                }
                replay = Some(r);
                concrete = Some(0);
            }
            "--trace" => trace = true,
            "--selftest" => {
                selftest::run();
                return;
            }
            s => entries.push(s.to_string()),
        }
        i += 1;
    }
    let mut paths: Vec<String> = std::fs::read_dir(&lldir)
        .expect("--ll DIR")
        .filter_map(|e| e.ok())
        .map(|e| e.path().to_string_lossy().to_string())
        .filter(|p| p.ends_with(".ll"))
        .collect();
    // files of earlier builds may lie beside the last one's
    if let Ok(l) = std::fs::read_to_string(format!("{lldir}/ll.list")) {
        paths.retain(|p| l.lines().any(|x| p.rsplit('/').next() == Some(x)));
    }
    // the harness module must come first (entries are looked up there)
    paths.sort_by_key(|p| (!p.rsplit('/').next().unwrap().starts_with("vharness"), p.clone()));
    std::panic::set_hook(Box::new(|_| {}));
    let deadline = Instant::now() + Duration::from_secs(timeout);
    if let Some(seed) = concrete {
        let mut e = Exec::new(&paths, qtimeout);
        e.deadline = deadline;
        e.replay = replay;
        for (k, en) in entries.iter().enumerate() {
            e.replay_seed = Some((seed + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ k as u64);
            e.reset_path(vec![]);
            e.concrete = Some(Default::default());
            let s = e.run(en, &[]);
            println!("#result {}", match &s {
                Stop::Done => "done".into(),
                Stop::ExpectedPanic => "expected-panic".into(),
                Stop::Infeasible => "infeasible".into(),
                Stop::Violation(m) => format!("violation {m}"),
                Stop::Error(m) => format!("error {m}"),
            });
            for l in &e.out {
                println!("#trace {l}");
            }
            if let Ok(c) = e.cex("concrete") {
                for (a, b) in c.inputs {
                    println!("{a} {b}");
                }
            }
        }
        return;
    }
    let t0 = Instant::now();
    let sh = Arc::new((Mutex::new(Shared::default()), Condvar::new()));
    {
        let mut s = sh.0.lock().unwrap();
        for (k, e) in entries.iter().enumerate() {
            s.queue.push_back(Job { entry: k, prefix: prefix.clone() });
            s.res.push(EntryRes { name: e.clone(), ..Default::default() });
        }
    }
    // the watcher: ends the largest path when memory runs low, and everything when time is up; a
    // violation that was found leaves the other entries little time
    sh.0.lock().unwrap().working = vec![false; jobs];
    let watcher = {
        let sh = sh.clone();
        std::thread::spawn(move || {
            let mut first: Option<Instant> = None;
            let mut pause = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let mut s = sh.0.lock().unwrap();
                if s.finished {
                    return;
                }
                let now = Instant::now();
                if first.is_none() && s.res.iter().any(|r| !r.viol.is_empty()) {
                    first = Some(now);
                }
                if now > deadline || first.map_or(false, |f| now > f + grace) {
                    s.stop = true;
                    for a in term::ABORT.iter() {
                        a.store(2, Relaxed);
                    }
                    continue;
                }
                if now > pause && rss() > mem_limit {
                    let k = (0..s.working.len()).filter(|k| s.working[*k]).max_by_key(|k| term::SIZE[*k].load(Relaxed));
                    if let Some(k) = k {
                        term::ABORT[k].store(1, Relaxed);
                        pause = now + Duration::from_secs(3);
                    }
                }
            }
        })
    };
    let mut hs = vec![];
    for w in 0..jobs {
        let (sh, paths, entries) = (sh.clone(), paths.clone(), entries.clone());
        let b = std::thread::Builder::new().stack_size(256 << 20);
        hs.push(
            b.spawn(move || {
                let mut ex: Option<Exec> = None;
                let mut certifier = smt::Smt::new(300);
                loop {
                    let job = {
                        let mut s = sh.0.lock().unwrap();
                        loop {
                            if s.stop {
                                return;
                            }
                            if let Some(j) = s.queue.pop_back() {
                                if s.given_up.contains(&j.entry) {
                                    s.dropped.push(j.entry);
                                    continue;
                                }
                                s.active += 1;
                                s.working[w] = true;
                                break j;
                            }
                            if s.active == 0 {
                                sh.1.notify_all();
                                return;
                            }
                            s = sh.1.wait_timeout(s, Duration::from_millis(200)).unwrap().0;
                        }
                    };
                    let e = ex.get_or_insert_with(|| Exec::new(&paths, qtimeout));
                    e.deadline = deadline;
                    e.tracing = trace;
                    e.worker = w;
                    e.reset_path(job.prefix);
                    e.stats = Default::default();
                    e.smt.stats = Default::default();
                    e.covered.clear();
                    e.pending.clear();
                    let r = e.run(&entries[job.entry], &[]);
                    let mut viol = None;
                    let mut error = None;
                    e.stats.paths = 1;
                    match r {
                        Stop::Done => e.stats.done = 1,
                        Stop::ExpectedPanic => e.stats.expected_panics = 1,
                        Stop::Infeasible => e.stats.infeasible = 1,
                        Stop::Violation(m) => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.cex(&m))).unwrap_or(Err(Stop::Error("given up".into()))) {
                            Ok(c) => {
                                let tr = e.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                                viol = Some((m, c.stack, c.inputs, tr))
                            }
                            Err(Stop::Infeasible) => e.stats.infeasible = 1,
                            Err(Stop::Error(x)) => error = Some(format!("{m}: {x}")),
                            Err(_) => error = Some(m),
                        },
                        Stop::Error(m) => error = Some(m),
                    }
                    let funcs = e.func_names();
                    // a sample of the rewriting steps goes to the solver
                    certifier.stats = Default::default();
                    let cert_steps = e.ts.cert.steps;
                    let (mut fails, mut same) = (0u64, 0u64);
                    let spent = sh.0.lock().unwrap().res[job.entry].cert.secs;
                    let steps: Vec<term::Step> = e.ts.cert.closing.drain(..).chain(e.ts.cert.sample.drain(..)).collect();
                    for st in &steps {
                        if spent + certifier.stats.secs > cert_s || term::ABORT[w].load(Relaxed) != 0 {
                            break;
                        }
                        match certifier.certify(&e.ts, st, &mut |h, put| {
                            let mut c = CERTIFIED.lock().unwrap();
                            if put { !c.insert(h) } else { c.contains(&h) }
                        }) {
                            Some(smt::Sat::Sat) => {
                                fails += 1;
                                error = Some("the solver refutes a rewriting step of the engine".into());
                            }
                            None => same += 1,
                            _ => {}
                        }
                    }
                    if trace {
                        eprintln!("[path {w}] {:?} err={:?} viol={:?} stats={:?} smt={:?}", e.trace, error, viol.as_ref().map(|v| (&v.0, &v.1)), e.stats, e.smt.stats);
                    }
                    if term::ABORT[w].load(Relaxed) == 1 {
                        // free the terms before going on
                        e.reset_path(vec![]);
                        extern "C" {
                            fn malloc_trim(pad: usize) -> i32;
                        }
                        unsafe { malloc_trim(0) };
                    }
                    let mut s = sh.0.lock().unwrap();
                    s.working[w] = false;
                    term::SIZE[w].store(0, Relaxed);
                    if term::ABORT[w].compare_exchange(1, 0, Relaxed, Relaxed).is_ok() {
                        s.given_up.push(job.entry);
                    }
                    for p in e.pending.drain(..) {
                        s.queue.push_back(Job { entry: job.entry, prefix: p });
                    }
                    s.active -= 1;
                    let er = &mut s.res[job.entry];
                    let st = &e.stats;
                    er.stats.paths += 1;
                    er.stats.done += st.done;
                    er.stats.expected_panics += st.expected_panics;
                    er.stats.infeasible += st.infeasible;
                    er.stats.instr += st.instr;
                    er.stats.branches_sym += st.branches_sym;
                    er.stats.asserts += st.asserts;
                    er.stats.closed_rewrite += st.closed_rewrite;
                    er.stats.closed_smt += st.closed_smt;
                    er.stats.max_monos = er.stats.max_monos.max(st.max_monos);
                    er.stats.atoms = er.stats.atoms.max(st.atoms);
                    er.stats.secs += st.secs;
                    for (k, v) in &st.reach {
                        *er.stats.reach.entry(k.clone()).or_insert(0) += v;
                    }
                    let q = &e.smt.stats;
                    er.smt.queries += q.queries;
                    er.smt.sat += q.sat;
                    er.smt.unsat += q.unsat;
                    er.smt.unknown += q.unknown;
                    er.smt.secs += q.secs;
                    er.smt.max_secs = er.smt.max_secs.max(q.max_secs);
                    let q = &certifier.stats;
                    er.cert.queries += q.queries;
                    er.cert.sat += fails;
                    er.cert.unsat += q.unsat;
                    er.cert.unknown += q.unknown;
                    er.cert.secs += q.secs;
                    er.cert.max_secs = er.cert.max_secs.max(q.max_secs);
                    er.cert_steps += cert_steps;
                    er.cert_same += same;
                    er.funcs.extend(funcs);
                    if let Some(v) = viol {
                        er.viol.push(v);
                    }
                    if let Some(x) = error {
                        er.errors.push(x);
                    }
                    let nv: usize = s.res.iter().map(|r| r.viol.len()).sum();
                    if nv >= maxviol || s.res.iter().map(|r| r.errors.len()).sum::<usize>() > 20 {
                        s.stop = true;
                    }
                    sh.1.notify_all();
                }
            })
            .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    sh.0.lock().unwrap().finished = true;
    let _ = watcher.join();
    let mut s = sh.0.lock().unwrap();
    let left: Vec<usize> = s.queue.iter().map(|j| j.entry).chain(s.dropped.iter().copied()).collect();
    for (k, r) in s.res.iter_mut().enumerate() {
        let n = left.iter().filter(|x| **x == k).count();
        if n > 0 || r.stats.paths == 0 {
            r.errors.push(format!("not explored completely: {n} paths left"));
        }
    }
    let s = s;
    let mut j = String::from("[\n");
    let mut bad = false;
    for (k, r) in s.res.iter().enumerate() {
        let st = &r.stats;
        let mut byc: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
        for (m, f) in &r.funcs {
            byc.entry(m.as_str()).or_default().push(f.as_str());
        }
        let mut vs = vec![];
        for (n, (m, stack, inputs, tr)) in r.viol.iter().enumerate() {
            let f = format!("{cexdir}/{}-{}.replay", r.name, n);
            let mut t = format!("# entry {}\n# {}\n# path {}\n", r.name, m.replace('\n', " "), tr);
            for x in stack.iter().take(12) {
                t += &format!("# at {x}\n");
            }
            t += &format!("entry {}\n", r.name);
            for (a, b) in inputs {
                t += &format!("{a} {b}\n");
            }
            let _ = std::fs::write(&f, t);
            vs.push(format!("{{\"msg\":{},\"file\":{},\"stack\":[{}]}}", jstr(m), jstr(&f), stack.iter().take(8).map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
            bad = true;
        }
        let crates: Vec<String> = byc.iter().map(|(m, f)| format!("{}:{}", jstr(m), f.len())).collect();
        let pan: Vec<String> = byc.get("panacea").map(|f| f.iter().map(|x| jstr(x)).collect()).unwrap_or_default();
        j += &format!(
            "{}{{\"entry\":{},\"paths\":{},\"done\":{},\"expected_panics\":{},\"infeasible\":{},\"instructions\":{},\"symbolic_branches\":{},\"asserts\":{},\"closed_by_rewriting\":{},\"closed_by_smt\":{},\"max_monomials\":{},\"atoms\":{},\"exec_s\":{:.2},\"smt_queries\":{},\"smt_sat\":{},\"smt_unsat\":{},\"smt_unknown\":{},\"smt_s\":{:.2},\"smt_max_s\":{:.2},\"rewriting_steps\":{},\"steps_certified\":{},\"steps_like_certified\":{},\"steps_undecided\":{},\"certify_s\":{:.2},\"reach\":{{{}}},\"functions_per_crate\":{{{}}},\"panacea_functions\":[{}],\"violations\":[{}],\"errors\":[{}]}}\n",
            if k > 0 { "," } else { "" },
            jstr(&r.name), st.paths, st.done, st.expected_panics, st.infeasible, st.instr, st.branches_sym, st.asserts, st.closed_rewrite, st.closed_smt,
            st.max_monos, st.atoms, st.secs, r.smt.queries, r.smt.sat, r.smt.unsat, r.smt.unknown, r.smt.secs, r.smt.max_secs,
            r.cert_steps, r.cert.unsat, r.cert_same, r.cert.unknown, r.cert.secs,
            st.reach.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
            crates.join(","), pan.join(","), vs.join(","), r.errors.iter().take(8).map(|x| jstr(x)).collect::<Vec<_>>().join(",")
        );
        if !r.errors.is_empty() {
            bad = true;
        }
    }
    j += "]\n";
    match out {
        Some(f) => std::fs::write(f, j).unwrap(),
        None => print!("{j}"),
    }
    eprintln!("vpsym: {:.1}s", t0.elapsed().as_secs_f64());
    std::process::exit(if bad { 1 } else { 0 });
}
