//! The oblivious store: single, parallel and batched access against an array specification.
use pan as panacea;
use super::vh::*;
use panacea::naive_hash::NaiveHash;
use panacea::num_types::Scalar;
use panacea::oram::*;
use panacea::params::TFHEParameters;
use panacea::rlwe::*;

/// two levels
pub const PO: P = P { n: 2, b: 16, l: 2, kb: 16, kl: 2, nb: 8, nl: 4, t: 16 };
/// three levels, other shifts
pub const PO3: P = P { n: 2, b: 10, l: 3, kb: 11, kl: 3, nb: 15, nl: 2, t: 8 };
pub const PO4: P = P { n: 4, b: 16, l: 2, kb: 16, kl: 2, nb: 8, nl: 4, t: 4 };
/// a single level, negs with five levels
pub const PO1: P = P { n: 2, b: 30, l: 1, kb: 30, kl: 1, nb: 6, nl: 5, t: 2 };

pub struct O {
    pub p: P,
    pub c: Client,
    pub s: Server,
    pub hash: NaiveHash,
    pub rows: usize,
    pub cols: usize,
    pub model: Vec<Vec<u64>>,
}
impl O {
    pub fn new(p: P, rows: usize, cols: usize, h: usize) -> O {
        exact(p);
        let items = rows * cols / h;
        let hash = NaiveHash::new(h, items);
        let (c, s, pts) = setup_random_oram(rows, cols, &hash, p.params());
        check(pts.len() == items, "one plaintext per item");
        let model = pts.iter().map(coeffs).collect();
        O { p, c, s, hash, rows, cols, model }
    }
    pub fn items(&self) -> usize {
        self.rows * self.cols / self.hash.h_count()
    }
    /// every replica of every item decrypts to the specification's value
    pub fn consistent(&mut self, m: &str) {
        for i in 0..self.items() {
            for h in 0..self.hash.h_count() {
                let (r, c) = self.hash.hash_to_tuple(h, i, self.cols);
                let ct = self.s.verif_cell(r, c);
                decodes_to(&self.c.sk, &ct, &self.c.ctx, &self.model[i], m);
            }
        }
    }
    /// in the exact regime the stored ciphertexts carry no error at all
    pub fn consistent_exact(&mut self, m: &str) {
        let logt = self.p.t.trailing_zeros() as usize;
        for i in 0..self.items() {
            for h in 0..self.hash.h_count() {
                let (r, c) = self.hash.hash_to_tuple(h, i, self.cols);
                let ct = self.s.verif_cell(r, c);
                phase_is(&self.c.sk, &ct, &scaled(&self.model[i], 64 - logt), m);
            }
        }
    }
    pub fn fresh(&self) -> Vec<u64> {
        coeffs(&sym_pt("w", self.p.n, self.p.t.trailing_zeros()))
    }
    pub fn one(&mut self, write: bool, i: usize) {
        let old = self.model[i].clone();
        let q = if write {
            let w = self.fresh();
            let q = self.c.gen_write_query_one(i, &pt_from(&w), &self.hash);
            self.model[i] = w;
            q
        } else {
            self.c.gen_read_query_one(i, &self.hash)
        };
        let y = self.s.process_one(q).0;
        decodes_to(&self.c.sk, &y, &self.c.ctx, &old, "the response is the item stored before the access");
    }
    /// parallel access without batching, distinct indices
    pub fn multi(&mut self, acc: &[(bool, usize)]) {
        let mut olds = vec![];
        let mut qs = vec![];
        for (write, i) in acc {
            olds.push(self.model[*i].clone());
            qs.push(if *write {
                let w = self.fresh();
                let q = self.c.gen_write_query_one(*i, &pt_from(&w), &self.hash);
                self.model[*i] = w;
                q
            } else {
                self.c.gen_read_query_one(*i, &self.hash)
            });
        }
        let ys = self.s.process_multi(qs).0;
        check(ys.len() == acc.len(), "one response per query");
        for (y, old) in ys.iter().zip(&olds) {
            decodes_to(&self.c.sk, y, &self.c.ctx, old, "each response is the item stored before the round");
        }
    }
    /// batched access; a mapping that does not exist is refused
    pub fn batch(&mut self, write: bool, is: &[usize]) {
        let mut olds = vec![];
        for i in is {
            olds.push(self.model[*i].clone());
        }
        cfg(EXPECT_PANIC, 1);
        let mapping = self.hash.hash_to_mapping(is, self.cols);
        let qs = if write {
            let w = self.fresh();
            let q = self.c.gen_write_query_batch(is, &pt_from(&w), &self.hash);
            for i in is {
                self.model[*i] = w.clone();
            }
            q
        } else {
            self.c.gen_read_query_batch(is, &self.hash)
        };
        cfg(EXPECT_PANIC, 0);
        check(qs.len() == self.rows, "one query per row");
        check(mapping.len() == is.len(), "one row per requested index");
        let ys = self.s.process_batch(qs, &self.hash).0;
        check(ys.len() == self.rows, "one response per row");
        for (k, i) in is.iter().enumerate() {
            let mut rows = 0;
            for r in 0..self.rows {
                if let Some((_, j)) = mapping.get(&r) {
                    if j == i {
                        rows += 1;
                        decodes_to(&self.c.sk, &ys[r], &self.c.ctx, &olds[k], "the row the mapping assigns answers with the item stored before the batch");
                    }
                }
            }
            check(rows == 1, "every requested index is assigned one row");
        }
    }
}

fn read_one(p: P, cols: usize) {
    let mut o = O::new(p, 1, cols, 1);
    let i = choose(cols);
    o.one(false, i);
    o.consistent("a read leaves every stored item unchanged");
    o.consistent_exact("a read adds no error in exact arithmetic");
    reach("end");
}
fn write_one(p: P, cols: usize) {
    let mut o = O::new(p, 1, cols, 1);
    let i = choose(cols);
    o.one(true, i);
    o.consistent("a write replaces the addressed item and no other");
    o.consistent_exact("a write adds no error in exact arithmetic");
    reach("end");
}
fn history(p: P, cols: usize, steps: usize) {
    let mut o = O::new(p, 1, cols, 1);
    for _ in 0..steps {
        let w = choose(2) == 1;
        let i = choose(cols);
        o.one(w, i);
    }
    o.consistent("after the history the store equals the array");
    reach("end");
}
fn multi(p: P, cols: usize, k: usize, rounds: usize) {
    let mut o = O::new(p, 1, cols, 1);
    for _ in 0..rounds {
        let mut acc: Vec<(bool, usize)> = vec![];
        for _ in 0..k {
            let i = choose(cols);
            if acc.iter().any(|x| x.1 == i) {
                return; // distinct indices
            }
            acc.push((choose(2) == 1, i));
        }
        o.multi(&acc);
        o.consistent("after a parallel round the store equals the array");
    }
    reach("end");
}
/// many queries in one round: spread-out indices from any start, four patterns of operations
fn multi_many(p: P, cols: usize, k: usize) {
    let mut o = O::new(p, 1, cols, 1);
    let s = choose(cols);
    let pat = choose(4);
    let acc: Vec<(bool, usize)> = (0..k).map(|j| ([j % 2 == 0, true, false, j + 1 == k][pat], (s + 3 * j) % cols)).collect();
    o.multi(&acc);
    o.consistent("after a parallel round the store equals the array");
    reach("end");
}
fn batch(p: P, rows: usize, cols: usize, h: usize, k: usize, rounds: &[usize]) {
    let mut o = O::new(p, rows, cols, h);
    for op in rounds {
        let mut is: Vec<usize> = vec![];
        for _ in 0..k {
            let i = choose(o.items());
            if is.contains(&i) {
                return;
            }
            is.push(i);
        }
        let w = if *op == 2 { choose(2) == 1 } else { *op == 1 };
        o.batch(w, &is);
        o.consistent("after a batch every replica of every item equals the array");
    }
    reach("end");
}
fn setup(p: P, rows: usize, cols: usize, h: usize) {
    let mut o = O::new(p, rows, cols, h);
    o.consistent("every replica of every item decrypts to the item's plaintext");
    o.consistent_exact("the initial database carries no error in exact arithmetic");
    // the cells are exactly the replicas
    let mut used = vec![0; rows * cols];
    for i in 0..o.items() {
        for h in 0..o.hash.h_count() {
            let (r, c) = o.hash.hash_to_tuple(h, i, cols);
            check(r < rows && c < cols, "positions lie inside the database");
            used[r * cols + c] += 1;
        }
    }
    check(used.iter().all(|x| *x == 1), "replicas occupy every cell exactly once");
    reach("end");
}
fn decrypt_db() {
    // binary items, so that the whole database can be read back as integers
    let mut p = PO1;
    p.t = 2;
    let mut o = O::new(p, 2, 2, 2);
    let db = o.s.decrypt_db(&o.c.sk);
    check(db.len() == 2 && db[0].len() == 2 && db[1].len() == 2, "shape of the decrypted database");
    for i in 0..o.items() {
        for h in 0..2 {
            let (r, c) = o.hash.hash_to_tuple(h, i, 2);
            eq(db[r][c], o.model[i][0] + 2 * o.model[i][1], "decrypted items are the stored ones");
        }
    }
    reach("end");
}

// ------------------------------------------------------------------ client-side privacy
/// deviations of the noise samples drawn from `from` on, sorted
fn noise_drawn(from: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (from..draw_count()).filter(|i| draw_info(*i, 3) == 3).map(|i| draw_info(i, 4)).collect();
    v.sort();
    v
}
fn query(o: &mut O, op: usize, i: usize) -> ClientQuery {
    if op == 0 {
        o.c.gen_read_query_one(i, &o.hash)
    } else {
        let w = o.fresh();
        o.c.gen_write_query_one(i, &pt_from(&w), &o.hash)
    }
}
/// a row of an RGSW encryption of zero or one
fn bit_row(f: &mut Fresh, o: &O, ct: &RLWECiphertext, g: u64, neg: &[u64], even: bool) {
    let std = concrete_core::prelude::DispersionParameter::get_standard_dev(&o.c.ctx.std);
    let m = slice_of(&ct.get_mask());
    for (i, x) in m.iter().enumerate() {
        let off = if even && i == 0 { vec![0, g] } else { vec![0] };
        check(f.take(*x, &off, 0, 0), "every mask coefficient of a query is a uniform value drawn for it alone");
    }
    let ph = phase(&o.c.sk, ct);
    for (i, x) in ph.iter().enumerate() {
        let off = if even { vec![0, neg[i].wrapping_mul(g)] } else if i == 0 { vec![0, g] } else { vec![0] };
        match f.find(*x, &off, 3, SLACK) {
            None => check(false, "every error coefficient of a query is a noise sample drawn for it alone"),
            Some(k) => check(f64::from_bits(draw_info(k, 4)) == std, "the noise has the configured deviation"),
        }
    }
}
/// queries of arbitrary kind and index differ in nothing but fresh masks and noise
fn query_shape(p: P, rows: usize, cols: usize, h: usize, batch: bool) {
    cfg(NOISE, 58);
    let hash = NaiveHash::new(h, rows * cols / h);
    let (c, s, pts) = setup_random_oram(rows, cols, &hash, p.params());
    let model = pts.iter().map(coeffs).collect();
    let mut o = O { p, c, s, hash, rows, cols, model };
    let mut kc = RLWECiphertext::allocate(o.c.ctx.poly_size);
    kc.update_mask_with_add(&concrete_core::commons::math::polynomial::Polynomial::from_container(cst(p.n, 1)));
    let neg = phase(&o.c.sk, &kc);
    let mut prev: Option<(Vec<u64>, usize)> = None;
    for _ in 0..2 {
        let (op, i) = (choose(2), choose(o.items()));
        let d0 = draw_count();
        let r0 = repeat_count();
        let w = o.fresh();
        let qs = match (batch, op) {
            (false, 0) => vec![o.c.gen_read_query_one(i, &o.hash)],
            (false, _) => vec![o.c.gen_write_query_one(i, &pt_from(&w), &o.hash)],
            (true, 0) => o.c.gen_read_query_batch(&[i], &o.hash),
            (true, _) => o.c.gen_write_query_batch(&[i], &pt_from(&w), &o.hash),
        };
        check(repeat_count() == r0, "no random value is used twice");
        check(qs.len() == rows, "one query per row");
        let mut f = Fresh::new(d0);
        let mut n = 0;
        for q in &qs {
            let (a, opc, data) = q.verif_parts();
            check(1usize << a.len() == cols, "one ciphertext per index bit");
            n += a.len();
            for g in a.iter().chain([opc]) {
                check(g.decomposition_base_log().0 == p.b && g.decomposition_level_count().0 == p.l, "every ciphertext has the same gadget");
                for l in 1..=p.l {
                    bit_row(&mut f, &o, &g.get_nth_row(2 * l - 2), 1 << (64 - p.b * l), &neg, true);
                    bit_row(&mut f, &o, &g.get_nth_row(2 * l - 1), 1 << (64 - p.b * l), &neg, false);
                }
            }
            for x in slice_of(&data.get_mask()) {
                check(f.take(x, &[0], 0, 0), "the mask of the data is fresh uniform randomness");
            }
        }
        // dummy data is not distinguished by its noise either
        let nd = noise_drawn(d0);
        if let Some((s, n0)) = &prev {
            check(*n0 == n, "query size does not depend on index or operation");
            check(*s == nd, "the noise drawn does not depend on index or operation");
        }
        prev = Some((nd, n));
    }
    reach("end");
}
/// queries for large stores: they select the column in which the item lies, as `bit_decomposed_rgsw` would,
/// and carry operation and data
fn query_large(p: P, rows: usize, cols: usize, h: usize, kind: usize) {
    cfg(MASKS, 1);
    exact(p);
    let mut c = Client::new(rows, cols, p.params());
    let items = rows * cols / h;
    let hash = NaiveHash::new(h, items);
    let i = [0, 1, items - 1, items / 2, items / 3, 256 % items, 257 % items, (items * 5) / 7][choose(8)];
    let w = coeffs(&sym_pt("w", p.n, p.t.trailing_zeros()));
    let write = choose(2) == 1;
    // the other item has a replica in a row that the first one does not take
    let first = hash.hash_to_tuple(0, i, cols).0;
    let mut j = (i + 1) % items;
    while kind > 0 && (0..h).all(|k| hash.hash_to_tuple(k, j, cols).0 == first) {
        j = (j + 1) % items;
    }
    let qs = match (kind, write) {
        (0, false) => vec![c.gen_read_query_one(i, &hash)],
        (0, true) => vec![c.gen_write_query_one(i, &pt_from(&w), &hash)],
        (_, false) => c.gen_read_query_batch(&[i, j], &hash),
        (_, true) => c.gen_write_query_batch(&[i, j], &pt_from(&w), &hash),
    };
    check(qs.len() == if kind == 0 { 1 } else { rows }, "one query per row");
    // an index is served by one of its replicas, in a row of its own
    let at = |x: usize| -> Vec<(usize, usize)> { (0..h).map(|k| hash.hash_to_tuple(k, x, cols)).collect() };
    let mut served = 0;
    for x in if kind == 0 { vec![i] } else { vec![i, j] } {
        let mut found = false;
        for (r, col) in at(x) {
            if found || r >= qs.len() {
                continue;
            }
            let (a, op, data) = qs[r].verif_parts();
            let want = panacea::decision_tree::bit_decomposed_rgsw(col, cols, &c.sk, &mut c.ctx);
            check(a.len() == want.len(), "one ciphertext per index bit");
            let mut same = true;
            for (g, e) in a.iter().zip(&want) {
                same &= phase(&c.sk, &g.get_last_row()) == phase(&c.sk, &e.get_last_row());
            }
            same &= phase(&c.sk, &op.get_last_row())[0] == (write as u64) << (64 - p.b * p.l);
            if same && write {
                decodes_to(&c.sk, data, &c.ctx, &w, "the query carries the data");
            }
            found = same;
        }
        served += found as usize;
    }
    check(served == if kind == 0 { 1 } else { 2 }, "every requested item is selected in a row in which it lies");
    reach("end");
}
/// the server's control flow and memory accesses do not depend on encrypted values
fn server_oblivious(p: P, mode: usize) {
    let (rows, cols, h) = if mode == 2 { (2, 2, 2) } else { (1, 2, 1) };
    cfg(PERM, 0);
    let mut o = O::new(p, rows, cols, h);
    let op = choose(2);
    let i = choose(cols.min(o.items()));
    if mode == 2 {
        let is = [i];
        let q = if op == 0 {
            o.c.gen_read_query_batch(&is, &o.hash)
        } else {
            let w = o.fresh();
            o.c.gen_write_query_batch(&is, &pt_from(&w), &o.hash)
        };
        cfg(OBLIVIOUS, 1);
        let d0 = draw_count();
        o.s.process_batch(q, &o.hash);
        check(draw_count() == d0, "the server draws no randomness");
    } else {
        let q = query(&mut o, op, i);
        cfg(OBLIVIOUS, 1);
        let d0 = draw_count();
        if mode == 0 {
            o.s.process_one(q);
        } else {
            o.s.process_multi(vec![q]);
        }
        check(draw_count() == d0, "the server draws no randomness");
    }
    cfg(OBLIVIOUS, 0);
    reach("end");
}

entries! {
    fn oram_read_one2() { read_one(PO, 2); }
    fn oram_read_one4() { read_one(PO, 4); }
    fn oram_read_one4b() { cfg(PERM, 0); read_one(PO3, 4); }
    fn oram_read_one8() { cfg(PERM, 0); read_one(PO, 8); }
    fn oram_read_one_n4() { cfg(PERM, 0); read_one(PO4, 4); }
    fn oram_read_one_l1() { cfg(PERM, 0); read_one(PO1, 4); }
    fn oram_read_one16() { cfg(PERM, 0); read_one(PO, 16); }
    fn oram_read_one32() { cfg(PERM, 0); cfg(MASKS, 1); read_one(PO1, 32); }
    fn oram_write_one32() { cfg(PERM, 0); cfg(MASKS, 1); write_one(PO1, 32); }
    fn oram_write_one16() { cfg(PERM, 0); cfg(MASKS, 1); write_one(PO, 16); }
    fn oram_history4_long() { cfg(PERM, 0); cfg(MASKS, 1); history(PO1, 4, 3); }
    fn oram_history2_six() { cfg(PERM, 0); cfg(MASKS, 1); history(PO1, 2, 6); }
    fn oram_multi4q() { cfg(PERM, 0); cfg(MASKS, 1); multi(PO1, 4, 4, 1); }
    fn oram_multi3q8() { cfg(PERM, 0); cfg(MASKS, 1); multi(PO1, 8, 3, 1); }
    fn oram_multi2_three() { cfg(PERM, 0); cfg(MASKS, 1); multi(PO1, 2, 2, 3); }
    fn oram_batch_long() { cfg(PERM, 0); cfg(MASKS, 1); batch(PO1, 2, 2, 2, 1, &[2, 2, 2, 2]); }
    fn oram_batch42_long() { cfg(PERM, 0); cfg(MASKS, 1); batch(PO1, 4, 2, 2, 2, &[1, 2]); }
    fn oram_batch43() { cfg(PERM, 0); cfg(MASKS, 1); batch(PO1, 4, 4, 4, 3, &[2]); }
    fn oram_batch28() { cfg(PERM, 0); cfg(MASKS, 1); batch(PO1, 2, 8, 1, 2, &[2]); }
    fn oram_write_one2() { write_one(PO, 2); }
    fn oram_write_one4() { write_one(PO, 4); }
    fn oram_write_one4b() { cfg(PERM, 0); write_one(PO3, 4); }
    fn oram_write_one8() { cfg(PERM, 0); write_one(PO, 8); }
    fn oram_write_one_n4() { cfg(PERM, 0); write_one(PO4, 4); }
    fn oram_write_one_l1() { cfg(PERM, 0); write_one(PO1, 4); }
    fn oram_history2() { cfg(PERM, 1); history(PO, 2, 3); }
    fn oram_history2b() { cfg(PERM, 0); history(PO3, 2, 3); }
    fn oram_history4() { cfg(PERM, 0); history(PO, 4, 2); }
    fn oram_history2_long() { cfg(PERM, 0); history(PO, 2, 4); }
    fn oram_multi2() { multi(PO, 2, 2, 1); }
    fn oram_multi4() { cfg(PERM, 0); multi(PO, 4, 2, 1); }
    fn oram_multi4b() { cfg(PERM, 0); multi(PO3, 4, 2, 1); }
    fn oram_multi3q() { cfg(PERM, 0); multi(PO, 4, 3, 1); }
    fn oram_multi_rounds() { cfg(PERM, 0); multi(PO, 2, 2, 2); }
    fn oram_multi_one() { cfg(PERM, 0); multi(PO, 2, 1, 2); }
    fn oram_batch22() { batch(PO, 2, 2, 2, 1, &[2]); }
    fn oram_batch22b() { batch(PO3, 2, 2, 2, 2, &[1, 0]); }
    fn oram_batch22_rounds() { cfg(PERM, 1); batch(PO, 2, 2, 2, 1, &[2, 2]); }
    fn oram_batch42() { cfg(PERM, 2); batch(PO, 4, 2, 2, 2, &[2]); }
    fn oram_batch32() { cfg(PERM, 2); batch(PO, 3, 2, 3, 2, &[2]); }
    fn oram_batch32_read() { cfg(PERM, 3); batch(PO, 3, 2, 3, 2, &[0]); }
    fn oram_batch24() { cfg(PERM, 1); batch(PO, 2, 4, 2, 2, &[2]); }
    fn oram_batch24_h1() { cfg(PERM, 1); batch(PO, 2, 4, 1, 1, &[2]); }
    fn oram_batch_rounds() { cfg(PERM, 0); batch(PO, 4, 2, 2, 1, &[1, 2, 0]); }
    fn oram_setup22() { setup(PO, 2, 2, 2); }
    fn oram_setup14() { setup(PO, 1, 4, 1); }
    fn oram_setup32() { cfg(PERM, 2); setup(PO3, 3, 2, 3); }
    fn oram_setup44() { cfg(PERM, 1); setup(PO, 4, 4, 4); }
    fn oram_setup_large() { cfg(PERM, 0); setup(PO1, 4, 64, 1); }
    fn oram_setup_large_rep() { cfg(PERM, 1); setup(PO1, 3, 134, 3); }
    fn oram_setup_large2() { cfg(PERM, 0); cfg(MASKS, 1); setup(PO1, 2, 131, 2); }
    fn oram_read_pd() { cfg(PERM, 0); read_one(PD, 4); }
    fn oram_write_pd() { cfg(PERM, 0); write_one(PD, 4); }
    fn oram_history_pd() { cfg(PERM, 0); cfg(MASKS, 1); history(PD, 2, 2); }
    fn oram_multi_pd() { cfg(PERM, 0); cfg(MASKS, 1); multi_many(PD, 4, 2); }
    fn oram_batch_pd() { cfg(PERM, 0); cfg(MASKS, 1); batch(PD, 2, 2, 2, 1, &[2]); }
    fn oram_read_n8() { cfg(PERM, 0); read_one(fixed(PO4, 8), 4); }
    fn oram_write_n8() { cfg(PERM, 0); write_one(fixed(PO4, 8), 4); }
    fn oram_write_n16() { cfg(PERM, 0); write_one(fixed(PO4, 16), 4); }
    fn oram_read_n16() { cfg(PERM, 0); read_one(fixed(PO4, 16), 2); }
    fn oram_batch_n8() { cfg(PERM, 0); batch(fixed(PO4, 8), 2, 2, 2, 1, &[2]); }
    fn oram_read_64() { cfg(PERM, 0); cfg(MASKS, 1); read_one(PO1, 64); }
    fn oram_write_64() { cfg(PERM, 0); cfg(MASKS, 1); write_one(PO1, 64); }
    fn oram_read_128() { cfg(PERM, 0); cfg(MASKS, 1); read_one(PO1, 128); }
    fn oram_write_128() { cfg(PERM, 0); cfg(MASKS, 1); write_one(PO1, 128); }
    fn oram_write_fixed_32() { cfg(PERM, 0); write_one(fixed(PO1, 2), 32); }
    fn oram_multi5q() { cfg(PERM, 0); cfg(MASKS, 1); multi_many(PO1, 8, 5); }
    fn oram_multi8q() { cfg(PERM, 0); cfg(MASKS, 1); multi_many(PO1, 8, 8); }
    fn oram_multi9q() { cfg(PERM, 0); cfg(MASKS, 1); multi_many(PO1, 16, 9); }
    fn oram_multi16q() { cfg(PERM, 0); cfg(MASKS, 1); multi_many(PO1, 16, 16); }
    fn oram_batch_rows8() { cfg(PERM, 0); cfg(MASKS, 1); batch(PO1, 8, 2, 2, 2, &[2]); }
    fn oram_batch_rows6() { cfg(PERM, 0); cfg(MASKS, 1); batch(PO1, 6, 2, 3, 2, &[2]); }
    fn oram_batch_cols16() { cfg(PERM, 0); cfg(MASKS, 1); batch(PO1, 2, 16, 2, 2, &[2]); }
    fn oram_decrypt_db() { decrypt_db(); }
    fn oram_query_256() { cfg(PERM, 1000); query_large(PO1, 1, 256, 1, 0); }
    fn oram_query_1024() { cfg(PERM, 1001); query_large(PO, 1, 1024, 1, 0); }
    fn oram_query_4096() { cfg(PERM, 1002); query_large(PO1, 1, 4096, 1, 0); }
    fn oram_query_batch_512() { cfg(PERM, 1003); query_large(PO1, 4, 512, 2, 1); }
    fn oram_query_batch_1024() { cfg(PERM, 1004); query_large(PO1, 6, 1024, 3, 1); }
    fn oram_query_shape2() { cfg(PERM, 0); query_shape(PO, 1, 2, 1, false); }
    fn oram_query_shape8() { cfg(PERM, 0); query_shape(PO1, 1, 8, 1, false); }
    fn oram_query_shape_batch() { cfg(PERM, 0); query_shape(PO1, 2, 2, 2, true); }
    fn oram_query_shape_batch24() { cfg(PERM, 0); query_shape(PO, 2, 4, 1, true); }
    fn oram_query_shape4() { cfg(PERM, 0); query_shape(PO3, 1, 4, 1, false); }
    fn oram_oblivious_one() { server_oblivious(PO, 0); }
    fn oram_oblivious_multi() { server_oblivious(PO, 1); }
    fn oram_oblivious_batch() { server_oblivious(PO, 2); }
    fn oram_threads_one2() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 6); let mut o = O::new(PO3, 1, 2, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_two() { cfg(PERM, 0); cfg(THREADS, 2); cfg(SCHED, 5); let mut o = O::new(PO3, 1, 4, 1); o.one(false, 2); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_batch4() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 4); cfg(MASKS, 1); let mut o = O::new(PO1, 4, 2, 4); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_multi3() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 4); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.multi(&[(true, 1), (false, 2), (true, 0)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_preempt_one() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 4); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 2, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_preempt_multi() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 4); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 2, 1); o.multi(&[(true, 1), (false, 0)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_preempt_batch() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 4); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 2, 2, 2); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_preempt_batch4() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 4); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 4, 2, 4); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2_one() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2_multi() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.multi(&[(true, 1), (false, 0)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2_batch() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 2, 4, 2); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2_batch4() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 4, 2, 4); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev1p_one() { cfg(PERM, 0); cfg(THREADS, 2); cfg(SCHED_DEV, 1); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev1p_multi() { cfg(PERM, 0); cfg(THREADS, 2); cfg(SCHED_DEV, 1); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.multi(&[(true, 1), (false, 0)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev1p_batch() { cfg(PERM, 0); cfg(THREADS, 2); cfg(SCHED_DEV, 1); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 2, 4, 2); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev1p_batch4() { cfg(PERM, 0); cfg(THREADS, 2); cfg(SCHED_DEV, 1); cfg(PREEMPT, 1); cfg(MASKS, 1); let mut o = O::new(PO1, 4, 2, 4); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev3_one() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 3); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev3_multi() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 3); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.multi(&[(true, 1), (false, 0)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev3_batch() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 3); cfg(MASKS, 1); let mut o = O::new(PO1, 2, 4, 2); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev3_batch4() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 3); cfg(MASKS, 1); let mut o = O::new(PO1, 4, 2, 4); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2p_one() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(PREEMPT, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2p_multi() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(PREEMPT, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 4, 1); o.multi(&[(true, 1), (false, 0)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2p_batch() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(PREEMPT, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 2, 4, 2); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_dev2p_batch4() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED_DEV, 2); cfg(PREEMPT, 2); cfg(MASKS, 1); let mut o = O::new(PO1, 4, 2, 4); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_many() { cfg(PERM, 0); cfg(THREADS, 6); cfg(SCHED, 3); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 2, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_many_multi() { cfg(PERM, 0); cfg(THREADS, 6); cfg(SCHED, 3); cfg(MASKS, 1); let mut o = O::new(PO1, 1, 2, 1); o.multi(&[(true, 1), (false, 0)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_many_batch() { cfg(PERM, 0); cfg(THREADS, 6); cfg(SCHED, 3); cfg(MASKS, 1); let mut o = O::new(PO1, 2, 2, 2); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_one() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 6); let mut o = O::new(PO, 1, 4, 1); o.one(true, 1); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_multi() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 5); let mut o = O::new(PO, 1, 4, 1); o.multi(&[(true, 1), (false, 2)]); o.consistent("under every schedule"); reach("end"); }
    fn oram_threads_batch() { cfg(PERM, 0); cfg(THREADS, 3); cfg(SCHED, 6); let mut o = O::new(PO, 2, 2, 2); o.batch(true, &[1]); o.consistent("under every schedule"); reach("end"); }
}
