//! Native replay: runs a harness entry against the real code (with the real FFT) on the inputs,
//! random draws, scheduling choices and index draws recorded in a replay file.
//! exit 0: property held; 1: violated; 3: the recorded inputs do not fit this run
#![allow(static_mut_refs)]
#[path = "../../harness/src/lib.rs"]
mod harness;
use std::collections::HashMap;
use std::process::exit;

#[derive(Default)]
struct Rt {
    inputs: Vec<u64>,
    choices: Vec<(String, u64)>,
    draws: HashMap<(u64, u64, u64, u32), u64>,
    ni: usize,
    nc: usize,
    log: Vec<[u64; 7]>,
    seen: HashMap<(u64, u64, u64, u32), usize>,
    repeats: u64,
    cfg: HashMap<u64, u64>,
    missing: u64,
    asserts: u64,
    trace: bool,
    entropy: u64,
    fixed: bool,
    rnd: u64,
}
static mut RT: Option<Rt> = None;
fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().unwrap() }
}
unsafe fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}
fn violated(m: &str) -> ! {
    println!("VIOLATED {m}");
    exit(1)
}
fn desync(m: &str) -> ! {
    println!("UNMET {m}");
    exit(3)
}
#[no_mangle]
unsafe extern "C" fn __vp_u64(_p: *const u8, _n: usize, bits: u32) -> u64 {
    let r = rt();
    let v = match r.inputs.get(r.ni) {
        Some(v) => *v,
        None => {
            r.missing += 1;
            0
        }
    };
    r.ni += 1;
    let m = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
    v & m
}
#[no_mangle]
extern "C" fn __vp_assume(c: bool) {
    if !c {
        desync("assumption")
    }
}
#[no_mangle]
unsafe extern "C" fn __vp_assert(c: bool, p: *const u8, n: usize) {
    rt().asserts += 1;
    if !c {
        violated(&st(p, n))
    }
}
#[no_mangle]
unsafe extern "C" fn __vp_assert_eq(a: u64, b: u64, tol: u64, p: *const u8, n: usize) {
    rt().asserts += 1;
    if (a.wrapping_sub(b) as i64).unsigned_abs() > tol {
        violated(&format!("{} ({a:#x} != {b:#x})", st(p, n)))
    }
}
#[no_mangle]
unsafe extern "C" fn __vp_assert_near(a: u64, b: u64, bound: u64, tol: u64, p: *const u8, n: usize) {
    rt().asserts += 1;
    if (a.wrapping_sub(b) as i64).unsigned_abs() > bound.saturating_add(tol) {
        violated(&format!("{} ({a:#x} vs {b:#x}, bound {bound:#x})", st(p, n)))
    }
}
#[no_mangle]
extern "C" fn __vp_same(a: u64, b: u64, tol: u64) -> bool {
    (a.wrapping_sub(b) as i64).unsigned_abs() <= tol
}
fn choice(kind: &str, n: u64, default: u64) -> u64 {
    let r = rt();
    let v = match r.choices.get(r.nc) {
        Some((k, v)) => {
            if k != kind {
                desync(&format!("choice {} is {k}, run wants {kind}", r.nc))
            }
            if *v >= n {
                desync("choice out of range")
            }
            *v
        }
        None => {
            r.missing += 1;
            default
        }
    };
    r.nc += 1;
    v
}
#[no_mangle]
extern "C" fn __vp_choose(n: u64) -> u64 {
    choice("choose", n, 0)
}
#[no_mangle]
extern "C" fn __vp_cfg(k: u64, v: u64) {
    rt().cfg.insert(k, v);
}
#[no_mangle]
unsafe extern "C" fn __vp_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
unsafe extern "C" fn __vp_fail(p: *const u8, n: usize) {
    violated(&st(p, n))
}
#[no_mangle]
unsafe extern "C" fn __vp_trace(v: u64, p: *const u8, n: usize) {
    if rt().trace {
        println!("#trace {} {}", st(p, n), v)
    }
}
#[no_mangle]
extern "C" fn __vp_draw_count() -> u64 {
    rt().log.len() as u64
}
#[no_mangle]
extern "C" fn __vp_repeat_count() -> u64 {
    rt().repeats
}
#[no_mangle]
extern "C" fn __vp_draw_info(i: u64, f: u64) -> u64 {
    rt().log[i as usize][f as usize]
}
fn draw(lo: u64, hi: u64, pos: u64, kind: u32, n: u32, std: u64) -> u64 {
    let r = rt();
    let key = (lo, hi, pos, kind);
    if let Some(i) = r.seen.get(&key) {
        r.repeats += 1;
        return r.log[*i][5];
    }
    let v = match r.draws.get(&key) {
        Some(v) => *v,
        None => {
            r.missing += 1;
            0
        }
    };
    r.seen.insert(key, r.log.len());
    r.log.push([lo, hi, pos, kind as u64, std, v, n as u64]);
    v
}
#[no_mangle]
extern "C" fn __vp_rng(lo: u64, hi: u64, pos: u64, kind: u32, n: u32) -> u64 {
    draw(lo, hi, pos, kind, n, 0)
}
#[no_mangle]
extern "C" fn __vp_gauss(lo: u64, hi: u64, pos: u64, std: u64) -> u64 {
    draw(lo, hi, pos, 3, 8, std)
}
#[no_mangle]
extern "C" fn __vp_entropy(_kind: u32) -> u64 {
    rt().entropy += 1;
    let e = rt().entropy;
    choice("entropy", u64::MAX, e.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}
#[no_mangle]
extern "C" fn __vp_index(n: u64) -> u64 {
    choice("index", n, n - 1)
}
#[no_mangle]
unsafe extern "C" fn __vp_shuffle(p: *mut u8, n: u64, size: u64) -> u32 {
    let n = n as usize;
    if size != 8 || n < 2 || *rt().cfg.get(&13).unwrap_or(&0) == 0 {
        return 0;
    }
    let v = std::slice::from_raw_parts_mut(p as *mut u64, n);
    if rt().choices.get(rt().nc).map(|c| c.0 == "shuffle").unwrap_or(false) {
        for i in (1..n).rev() {
            let j = choice("shuffle", i as u64 + 1, i as u64) as usize;
            v.swap(i, j);
        }
        return 1;
    }
    let old = v.to_vec();
    let mut seen = vec![false; n];
    for i in 0..n {
        let k = __vp_u64(std::ptr::null(), 0, 64) as usize;
        if k >= n || seen[k] {
            desync("permutation")
        }
        seen[k] = true;
        v[i] = old[k];
    }
    1
}
#[no_mangle]
extern "C" fn __vp_sched(n: u32) -> u32 {
    choice("sched", n as u64, 0) as u32
}
#[no_mangle]
extern "C" fn __vp_preempt(_: u32) -> u32 {
    0
}
#[no_mangle]
extern "C" fn __vp_resume() {}
#[no_mangle]
extern "C" fn __vp_threads() -> u32 {
    *rt().cfg.get(&3).unwrap_or(&2) as u32
}
#[no_mangle]
extern "C" fn __vp_decomp(_b: u32, _s: *mut u64, _o: *mut u64) -> u32 {
    0
}
#[no_mangle]
extern "C" fn __vp_closest(_b: u32, _s: *const u64, _o: *mut u64) -> u32 {
    0
}
fn main() {
    // a replay of the whole program starts this binary again with the program's own arguments
    let f = std::env::var("VP_FILE").unwrap_or_else(|_| std::env::args().nth(1).expect("usage: vnative FILE [--trace]"));
    let mut r = Rt { trace: std::env::args().any(|x| x == "--trace"), ..Default::default() };
    let mut entry = String::new();
    for l in std::fs::read_to_string(&f).expect("replay file").lines() {
        let l = l.split(" # ").collect::<Vec<_>>();
        let w: Vec<&str> = l[0].split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        match w[0] {
            "entry" => entry = w[1].into(),
            "u64" => r.inputs.push(w[2].parse().unwrap()),
            "choice" => r.choices.push((l.get(1).unwrap_or(&"").trim().to_string(), w[2].parse().unwrap())),
            "draw" => {
                r.draws.insert((w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap()), w[5].parse().unwrap());
            }
            _ => {}
        }
    }
    unsafe { RT = Some(r) }
    let fun = match harness::find(&entry) {
        Some(f) => f,
        None => {
            println!("UNMET no entry {entry}");
            exit(3)
        }
    };
    std::panic::set_hook(Box::new(|i| println!("#panic {i}")));
    // 256 MB stack, one thread: the overlay scheduler runs every task on it
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || std::panic::catch_unwind(fun).is_err()).unwrap();
    let panicked = h.join().unwrap();
    let r = rt();
    if panicked {
        if r.cfg.get(&7) == Some(&1) {
            println!("HELD expected panic");
            exit(0)
        }
        violated("panic")
    }
    println!("HELD asserts={} missing={}", r.asserts, r.missing);
}
