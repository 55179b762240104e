//! The table hash that places the replicas of every item.
use pan as panacea;
use super::vh::*;
use panacea::naive_hash::NaiveHash;

/// every table the shuffle can produce (the first `free` draws are unconstrained)
fn table_is_injection(h: usize, d: usize) {
    cfg(PERM_SYM, 1);
    let f = NaiveHash::new(h, d);
    check(f.h_count() == h && f.input_domain() == d && f.output_domain() == h * d, "the hash reports its sizes");
    let mut vals: Vec<usize> = vec![];
    for x in 0..d {
        for k in 0..h {
            let v = f.hash(k, x);
            check(v < h * d, "hash values lie in the output domain");
            check(f.checked_hash(k, x) == Some(v), "the checked hash agrees on the domain");
            for o in &vals {
                check(*o != v, "two replicas never share a position");
            }
            vals.push(v);
        }
        check(f.hash0(x) == f.hash(0, x), "first hash");
        if h > 1 {
            check(f.hash1(x) == f.hash(1, x), "second hash");
        }
        if h > 2 {
            check(f.hash2(x) == f.hash(2, x), "third hash");
        }
    }
    // a copy is the same function
    let g = f.clone();
    for x in 0..d {
        for k in 0..h {
            check(g.hash(k, x) == f.hash(k, x), "a copy is the same function");
        }
    }
    reach("end");
}
/// two arbitrary (function, item) pairs, as solver variables
fn collision_free(h: usize, d: usize) {
    
    cfg(PERM_SYM, 1);
    let f = NaiveHash::new(h, d);
    let (k1, x1, k2, x2) = (u64s("k", 8) as usize, u64s("x", 8) as usize, u64s("k", 8) as usize, u64s("x", 8) as usize);
    assume(k1 < h);
    assume(k2 < h);
    assume(x1 < d);
    assume(x2 < d);
    let (a, b) = (f.hash(k1, x1), f.hash(k2, x2));
    check((a == b) == (k1 == k2 && x1 == x2), "two replicas never share a position");
    reach("end");
}
/// arguments outside the domain are refused by the checked form, whatever their value
fn checked_outside(h: usize, d: usize) {
    
    cfg(PERM_SYM, 1);
    let f = NaiveHash::new(h, d);
    let k = u64s("k", 64) as usize;
    let x = u64s("x", 64) as usize;
    if k < h && x < d {
        let r = f.checked_hash(k, x);
        check(r.is_some(), "arguments inside the domain are hashed");
        check(r.unwrap() < h * d, "in range");
        reach("inside");
    } else {
        check(f.checked_hash(k, x).is_none(), "arguments outside the domain are refused");
        reach("outside");
    }
}
/// positions are (value / width, value % width) for any width
fn tuple(h: usize, d: usize) {
    
    cfg(PERM_SYM, 1);
    let f = NaiveHash::new(h, d);
    let w = 1 + choose(h * d + 1);
    let (k, x) = (choose(h), choose(d));
    let v = f.hash(k, x);
    let (r, c) = f.hash_to_tuple(k, x, w);
    check(c < w, "column below the width");
    check(r * w + c == v, "row and column recombine to the hash value");
    reach("end");
}
/// can every element of `is` from position `at` on be given a row of its own?
fn assignable(f: &NaiveHash, is: &[usize], at: usize, w: usize, used: &mut Vec<usize>) -> bool {
    if at == is.len() {
        return true;
    }
    for k in 0..f.h_count() {
        let r = f.hash(k, is[at]) / w;
        if !used.contains(&r) {
            used.push(r);
            let ok = assignable(f, is, at + 1, w, used);
            used.pop();
            if ok {
                return true;
            }
        }
    }
    false
}
fn first_fit(f: &NaiveHash, is: &[usize], w: usize) -> bool {
    let mut used: Vec<usize> = vec![];
    for i in is {
        let mut ok = false;
        for k in 0..f.h_count() {
            let r = f.hash(k, *i) / w;
            if !ok && !used.contains(&r) {
                used.push(r);
                ok = true;
            }
        }
        if !ok {
            return false;
        }
    }
    true
}
/// large tables, with fixed pseudo-random permutations
fn table_large(h: usize, d: usize, seed: u64) {
    cfg(PERM, 1000 + seed);
    let f = NaiveHash::new(h, d);
    check(f.h_count() == h && f.input_domain() == d && f.output_domain() == h * d, "the hash reports its sizes");
    let mut seen = vec![false; h * d];
    for x in 0..d {
        for k in 0..h {
            let v = f.hash(k, x);
            check(v < h * d, "hash values lie in the output domain");
            check(f.checked_hash(k, x) == Some(v), "the checked hash agrees on the domain");
            check(!seen[v], "two replicas never share a position");
            seen[v] = true;
            let (r, c) = f.hash_to_tuple(k, x, d);
            check(c < d && r * d + c == v, "row and column recombine to the hash value");
        }
    }
    let (k, x) = (u64s("k", 64) as usize, u64s("x", 64) as usize);
    assume(k >= h || x >= d);
    check(f.checked_hash(k, x).is_none(), "arguments outside the domain are refused");
    reach("end");
}
/// large batches over large tables: `k` requests spread over the domain from a chosen start
fn mapping_large(h: usize, d: usize, w: usize, k: usize, seed: u64) {
    cfg(PERM, 1000 + seed);
    let f = NaiveHash::new(h, d);
    let (a, b) = (choose(d), choose(4));
    let mut is: Vec<usize> = vec![];
    for q in 0..k {
        let i = (a + q * (2 * b + 1)) % d;
        if !is.contains(&i) {
            is.push(i);
        }
    }
    mapped(&f, h, d, w, is);
}
fn mapping(h: usize, d: usize, w: usize, k: usize) {
    cfg(PERM_SYM, 1);
    let f = NaiveHash::new(h, d);
    let mut is: Vec<usize> = vec![];
    for _ in 0..k {
        let i = choose(d);
        if is.contains(&i) {
            return;
        }
        is.push(i);
    }
    mapped(&f, h, d, w, is);
}
fn mapped(f: &NaiveHash, h: usize, d: usize, w: usize, is: Vec<usize>) {
    let possible = assignable(&f, &is, 0, w, &mut vec![]);
    let must = first_fit(&f, &is, w);
    cfg(EXPECT_PANIC, !must as u64);
    let m = f.hash_to_mapping(&is, w);
    cfg(EXPECT_PANIC, 0);
    check(possible, "a mapping is returned only if one exists");
    check(m.len() == is.len(), "one row per requested index");
    let mut seen = vec![0; d];
    for (r, (c, i)) in m.iter() {
        check(*i < d && is.contains(i), "only requested indices are mapped");
        check(*c < w, "column below the width");
        seen[*i] += 1;
        let mut hit = false;
        for q in 0..h {
            if f.hash(q, *i) == r * w + c {
                hit = true;
            }
        }
        check(hit, "the assigned position is a replica of the requested item");
    }
    check(is.iter().all(|i| seen[*i] == 1), "every requested index is mapped once");
    reach("end");
}

entries! {
    fn hash_table_1_4() { table_is_injection(1, 4); }
    fn hash_table_2_2() { table_is_injection(2, 2); }
    fn hash_table_2_3() { table_is_injection(2, 3); }
    fn hash_table_3_2() { table_is_injection(3, 2); }
    fn hash_table_3_4() {  table_is_injection(3, 4); }
    fn hash_table_2_4() { table_is_injection(2, 4); }
    fn hash_table_4_8() {  table_is_injection(4, 8); }
    fn hash_collision_free_3_5() { collision_free(3, 5); }
    fn hash_collision_free_2_4() { collision_free(2, 4); }
    fn hash_checked_3_4() { checked_outside(3, 4); }
    fn hash_checked_1_3() { checked_outside(1, 3); }
    fn hash_tuple_3_4() { tuple(3, 4); }
    fn hash_tuple_2_5() { tuple(2, 5); }
    fn hash_mapping_2_2() { mapping(2, 2, 2, 2); }
    fn hash_mapping_2_3() { mapping(2, 3, 2, 2); }
    fn hash_mapping_2_3_3() { mapping(2, 3, 2, 3); }
    fn hash_mapping_3_2() { mapping(3, 2, 2, 2); }
    fn hash_mapping_2_4() { mapping(2, 4, 2, 2); }
    fn hash_mapping_3_4() {  mapping(3, 4, 4, 3); }
    fn hash_mapping_1_4() { mapping(1, 4, 2, 2); }
    fn hash_large_3_64() { table_large(3, 64, 1); }
    fn hash_large_5_40() { table_large(5, 40, 2); }
    fn hash_large_2_300() { table_large(2, 300, 3); }
    fn hash_large_4_1000() { table_large(4, 1000, 4); }
    fn hash_mapping_large_3_16() { mapping_large(3, 16, 4, 6, 1); }
    fn hash_mapping_large_3_64() { mapping_large(3, 64, 8, 12, 2); }
    fn hash_mapping_large_4_32() { mapping_large(4, 32, 8, 5, 3); }
    fn hash_mapping_large_2_300() { mapping_large(2, 300, 20, 7, 4); }
    fn hash_mapping_large_tight() { mapping_large(3, 16, 8, 5, 5); }
    fn hash_mapping_one() { mapping(2, 3, 3, 1); }
}
