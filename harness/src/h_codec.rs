use pan as panacea;
use super::vh::*;
use panacea::codec::Codec;

entries! {
    fn codec_roundtrip() {
    let logt = 1 + choose(63);
    let c = Codec::new(1u64 << logt);
    check(c.pt_modulus() == 1u64 << logt, "plaintext modulus is the one configured");
    check(c.pt_modulus_bits() == logt, "plaintext modulus bits");
    let m = u64s("m", 64);
    assume(m < c.pt_modulus());
    let e = u64s("e", 64);
    let le = c.largest_error();
    assume(e < le || e > le.wrapping_neg());
    let mut x = m;
    c.encode(&mut x);
    trace("enc", x);
    x = x.wrapping_add(e);
    c.decode(&mut x);
    trace("dec", x);
    eq(x, m, "decode(encode(m) + e) == m for |e| < largest_error");
    reach("end");
}
    fn codec_reject() {
    let logt = 1 + choose(63);
    let c = Codec::new(1u64 << logt);
    let m = u64s("m", 64);
    assume(m >= 1u64 << logt);
    let mut x = m;
    cfg(EXPECT_PANIC, 1);
    c.encode(&mut x);
    fail("a value outside the plaintext space was encoded");
}
    fn wide_selftest() {
    // the engine's 128-bit integers against 64-bit arithmetic (no code under test)
    let (x, y) = (u64s("x", 64), u64s("y", 64));
    let s = x as u128 + y as u128;
    check((s >> 64) as u64 == x.overflowing_add(y).1 as u64, "carry");
    eq(s as u64, x.wrapping_add(y), "sum");
    let d = x as i64 as i128 - y as i64 as i128;
    check((d < 0) == ((x as i64) < (y as i64)), "sign of the difference");
    eq(d as u64, x.wrapping_sub(y), "difference");
    let p = x as u128 * 5;
    let q = x as u128 + ((x as u128) << 2);
    check(p == q, "product");
    eq((p / 8) as u64, (q >> 3) as u64, "division by a power of two");
    let r = (x as u128 + (1u128 << 55)) >> 56;
    check(r <= 256, "rounding");
    eq((r % 256) as u64, (x.wrapping_add(1 << 55)) >> 56, "rounded");
    let n = -(x as i128);
    check(n <= 0, "negation");
    eq((n / 4) as u64, 0u64.wrapping_sub(x / 4), "signed division");
    let z: u128 = if x < y { s } else { p };
    check(z == s || z == p, "select");
    let arr = [s, p];
    let b = arr.iter().fold(0u128, |a, v| a ^ *v);
    check(b == s ^ p, "memory");
    check((x as i128 * -3) + (x as i128 * 3) == 0, "signed product");
    reach("end");
}
    fn rayon_selftest() {
    // the parallel features the code under test may come to use, under every schedule of a few choices
    use rayon::prelude::*;
    cfg(THREADS, 3);
    cfg(SCHED, 3);
    let k = choose(12);
    let (x, y) = (u64s("x", 8), u64s("y", 8));
    let v = vec![x, y, x + y, 7, 9];
    let t: u64 = 2 * (x + y) + 16;
    match k {
        0 => {
            let s: u64 = v.par_iter().copied().sum();
            eq(s, t, "sum");
            eq(v.par_chunks(2).map(|c| c.iter().sum::<u64>()).reduce(|| 0, |a, b| a + b), t, "par_chunks");
        }
        1 => {
            let mut w = v.clone();
            w.par_iter_mut().enumerate().for_each(|(i, z)| *z += i as u64);
            eq(w[4], 13, "par_iter_mut");
            w.par_chunks_mut(2).for_each(|c| c[0] = 1);
            check(w[0] == 1 && w[2] == 1 && w[4] == 1, "par_chunks_mut");
        }
        2 => {
            let mut out = [0u64; 3];
            let (a, b) = (x, y);
            {
                let [p, q, r] = &mut out;
                rayon::scope(|s| {
                    s.spawn(move |_| *p = a);
                    s.spawn(move |s| {
                        *q = b;
                        s.spawn(move |_| *r = a + b);
                    });
                });
            }
            check(out[0] == x && out[1] == y && out[2] == x + y, "scope");
        }
        3 => {
            let p = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
            let (n, s) = p.install(|| (rayon::current_num_threads(), v.par_iter().sum::<u64>()));
            check(n == 2 && s == t, "install");
            check(p.scope(|_| rayon::current_thread_index()).is_some(), "in a pool");
        }
        4 => {
            let mut w = v.clone();
            w.par_sort();
            check(w.windows(2).all(|p| p[0] <= p[1]), "par_sort");
        }
        5 => {
            let s: u64 = v.clone().into_iter().par_bridge().sum();
            eq(s, t, "par_bridge");
        }
        6 => {
            let f: Vec<u64> = v.par_iter().fold(|| 0u64, |a, z| a + z).collect();
            eq(f.iter().sum(), t, "fold");
            let r: Result<Vec<u64>, ()> = v.par_iter().map(|z| Ok(*z)).collect();
            eq(r.unwrap()[2], x + y, "collect results");
        }
        7 => {
            let a = std::sync::Mutex::new(0u64);
            v.par_iter().for_each(|z| *a.lock().unwrap() += z);
            eq(a.into_inner().unwrap(), t, "mutex");
            let b = std::sync::atomic::AtomicU64::new(0);
            v.par_iter().with_min_len(2).for_each(|z| { b.fetch_add(*z, std::sync::atomic::Ordering::Relaxed); });
            eq(b.into_inner(), t, "atomic");
        }
        8 => {
            check(v.par_iter().find_any(|z| **z == 9).is_some() && v.par_iter().any(|z| *z == 7), "find_any");
            eq(v.par_iter().position_first(|z| *z == 9).unwrap() as u64, if y == 9 || x == 9 || x + y == 9 { (x != 9) as u64 + (x != 9 && y != 9) as u64 } else { 4 }, "position_first");
        }
        9 => {
            let (a, b): (Vec<u64>, Vec<u64>) = v.par_iter().map(|z| (*z, z + 1)).unzip();
            eq(a[1] + 1, b[1], "unzip");
            let m: std::collections::HashMap<u64, u64> = (0..3u64).into_par_iter().map(|i| (i, i * x)).collect();
            eq(m[&2], 2 * x, "collect map");
            let w: Vec<u64> = v.par_iter().map_with(1u64, |a, z| *a + z).flat_map_iter(|z| [z, z]).collect();
            eq(w[3], y + 1, "map_with");
            let u: Vec<u64> = v.par_iter().map_init(|| 2u64, |a, z| *a * z).rev().collect();
            eq(u[4], 2 * x, "map_init");
        }
        10 => {
            let (a, b) = rayon::join(|| v[0] + 1, || rayon::join(|| v[1], || v[2]));
            eq(a + b.0 + b.1, 2 * (x + y) + 1, "join");
            eq(rayon::broadcast(|c| c.index() as u64).iter().sum(), 3, "broadcast");
        }
        _ => {
            let a = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            let b = a.clone();
            rayon::spawn(move || b.lock().unwrap().push(1));
            rayon::join(|| (), || ());
            check(a.lock().unwrap().len() == 1, "spawn");
        }
    }
    reach("end");
}
    fn std_selftest() {
    // library features the code under test may come to use
    use std::collections::*;
    let k = choose(14);
    let (x, y) = (u64s("x", 8), u64s("y", 8));
    match k {
        0 => {
            let mut v = vec![x, y, 7, 3];
            v.sort();
            check(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3], "sort");
            let mut w = vec![(x, 1), (y, 2), (9, 3)];
            w.sort_by_key(|p| p.0);
            w.sort_unstable_by(|a, b| b.0.cmp(&a.0));
            check(w[0].0 >= w[2].0, "sort by key");
            w.dedup_by_key(|p| p.0);
        }
        1 => {
            let mut m = BTreeMap::new();
            m.insert(3usize, x);
            m.insert(1, y);
            *m.entry(3).or_insert(0) += 1;
            check(m[&3] == x + 1 && m.iter().next() == Some((&1, &y)), "map");
            let mut h: HashSet<usize> = (0..5).collect();
            h.remove(&2);
            check(!h.contains(&2) && h.len() == 4, "set");
            let mut d: VecDeque<u64> = [x, y].into_iter().collect();
            d.push_front(1);
            d.rotate_left(1);
            check(d[0] == x && d[2] == 1, "deque");
        }
        2 => {
            eq(x.abs_diff(y), if x > y { x - y } else { y - x }, "abs_diff");
            eq(x.rotate_left(8).rotate_right(8), x, "rotate");
            check(x.checked_add(y).is_some() && x.checked_sub(y).is_some() == (x >= y), "checked");
            eq(x.saturating_sub(y), if x > y { x - y } else { 0 }, "saturating");
            eq(x.pow(2), x * x, "pow");
            eq(x.min(y) + x.max(y), x + y, "min max");
            check(u8::try_from(x).is_ok(), "try_from");
            eq(x.div_ceil(2), (x + 1) / 2, "div_ceil");
            eq(x.next_multiple_of(4), (x + 3) / 4 * 4, "next_multiple_of");
            eq(x.rem_euclid(8), x % 8, "rem_euclid");
            check((x as i64 - y as i64).signum() >= 0 || x < y, "signum");
        }
        3 => {
            eq(x.swap_bytes(), x << 56, "swap_bytes");
            eq(x.swap_bytes().swap_bytes(), x, "swap_bytes twice");
            let b = x.to_le_bytes();
            eq(u64::from_be_bytes([0, 0, 0, 0, 0, 0, 0, b[0]]), x, "bytes");
            check(x.count_ones() <= 8, "count_ones");
            check(x.leading_zeros() >= 56, "leading_zeros");
            check(x == 0 || x.ilog2() <= 7, "ilog2");
        }
        4 => {
            let v = [x, y, x, y];
            eq(v.chunks(2).map(|c| c.iter().sum::<u64>()).sum::<u64>(), 2 * (x + y), "chunks");
            eq(v.windows(2).map(|w| w[0] + w[1]).sum::<u64>(), 3 * (x + y), "windows");
            eq(v.iter().rev().step_by(2).copied().sum::<u64>(), 2 * y, "step");
            let (a, b): (Vec<u64>, Vec<u64>) = v.iter().copied().partition(|z| *z < 100);
            check(a.len() + b.len() == 4, "partition");
            check(v.iter().position(|z| *z == y).unwrap() <= 1, "position");
            check(v.iter().any(|z| *z == x) && v.contains(&y), "any");
            let t: Vec<u64> = v.iter().scan(0, |s, z| { *s += z; Some(*s) }).collect();
            eq(t[3], 2 * (x + y), "scan");
            let f: Vec<u64> = v.iter().flat_map(|z| [*z, 1]).collect();
            eq(f[6], y, "flat_map");
            eq(v.chunks_exact(2).zip([1u64, 2]).fold(0, |a, (c, k)| a + c[0] * k), 3 * x, "zip");
        }
        5 => {
            let mut v = vec![x; 5];
            v[1] = y;
            v.swap(0, 1);
            v.rotate_right(2);
            v.reverse();
            v.truncate(4);
            v.insert(1, 5);
            v.retain(|z| *z != 1000);
            let d: Vec<u64> = v.drain(1..3).collect();
            v.extend_from_slice(&d);
            v.copy_within(0..2, 1);
            let w = v.split_off(2);
            check(v.len() == 2 && w.len() == 3, "vec");
            let z = std::mem::take(&mut v);
            eq(z[0], x, "take");
            let (p, q) = w.split_at(1);
            check(p.len() == 1 && q.len() == 2 && [p, q].concat() == w, "split");
        }
        6 => {
            let c = std::rc::Rc::new(std::cell::RefCell::new(x));
            *c.borrow_mut() += y;
            eq(*c.borrow(), x + y, "cell");
            let f: Box<dyn Fn(u64) -> u64> = Box::new(move |z| z + x);
            eq(f(y), x + y, "closure");
            let s = format!("{}-{:?}", 12, vec![1, 2]);
            check(s == "12-[1, 2]" && "42".parse::<u64>() == Ok(42), "strings");
        }
        7 => {
            use std::sync::atomic::*;
            let a = AtomicUsize::new(1);
            a.fetch_add(2, Ordering::SeqCst);
            check(a.compare_exchange(3, 5, Ordering::SeqCst, Ordering::SeqCst).is_ok() && a.load(Ordering::SeqCst) == 5, "atomics");
            static L: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
            eq(*L.get_or_init(|| 9), 9, "once");
        }
        8 => {
            let o = Some(x).filter(|z| *z > y).map(|z| z - y).unwrap_or_default();
            eq(o, x.saturating_sub(y), "option");
            let r: Result<Vec<u64>, ()> = [x, y].iter().map(|z| Ok(*z)).collect();
            eq(r.unwrap()[1], y, "result");
            let a = [x, y].map(|z| z * 2);
            eq(a[1], 2 * y, "array map");
            let s: Option<u64> = [Some(x), Some(y)].into_iter().sum();
            eq(s.unwrap(), x + y, "option sum");
        }
        9 => {
            let f = [1.5f64, 2.25].iter().sum::<f64>();
            check(f == 3.75 && f.floor() == 3.0 && f.round() == 4.0 && f.max(9.0) == 9.0 && (f as u64) == 3, "floats");
            check(f.sqrt() > 1.9 && f.powi(2) > 14.0 && f.powf(2.0) > 14.0 && f.ln() > 1.0 && f.exp2() > 13.0 && f.log10() > 0.5, "more floats");
            check(f.trunc() == 3.0 && f.fract() == 0.75 && f.mul_add(2.0, 1.0) == 8.5 && f.hypot(1.0) > 3.0 && f.rem_euclid(2.0) == 1.75 && f.total_cmp(&3.0).is_gt(), "floats 3");
        }
        10 => {
            let v: Vec<u64> = std::iter::successors(Some(1u64), |z| (*z < 20).then(|| z * 3)).collect();
            check(v == [1, 3, 9, 27], "successors");
            let w: Vec<usize> = (0..10).rev().skip_while(|z| *z > 6).take_while(|z| *z > 2).collect();
            check(w == [6, 5, 4, 3], "ranges");
            let b: Vec<_> = std::iter::repeat_with(|| x).take(3).chain(std::iter::once(y)).collect();
            eq(b[3], y, "chain");
            eq(b.iter().max().copied().unwrap(), x.max(y), "max");
            eq(b.iter().copied().reduce(|a, c| a ^ c).unwrap(), x ^ y, "reduce");
        }
        11 => {
            let m = std::sync::Mutex::new(x);
            {
                let mut g = m.lock().unwrap();
                *g += y;
            }
            eq(m.into_inner().unwrap(), x + y, "mutex");
            thread_local! { static T: std::cell::Cell<u64> = const { std::cell::Cell::new(4) }; }
            T.with(|t| t.set(t.get() + 1));
            eq(T.get(), 5, "thread local");
        }
        12 => {
            let mut heap = BinaryHeap::new();
            for i in [3u64, 9, 1] { heap.push(std::cmp::Reverse(i)); }
            check(heap.pop().unwrap().0 == 1, "heap");
            let v = [1u64, 4, 9, 16];
            check(v.binary_search(&9) == Ok(2) && v.partition_point(|z| *z < 5) == 2, "binary search");
            let s = v.iter().map(|z| z.to_string()).collect::<Vec<_>>().join(",");
            check(s == "1,4,9,16" && s.split(',').count() == 4, "join");
            check(s.chars().filter(char::is_ascii_digit).count() == 5, "chars");
        }
        _ => {
            let (tx, rx) = std::sync::mpsc::channel();
            tx.send(x).unwrap();
            tx.send(y).unwrap();
            drop(tx);
            eq(rx.iter().sum::<u64>(), x + y, "channel");
        }
    }
    reach("end");
}
}
