S = []


def seed(id, prop, edits, needs, breaks, demo):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


O = 'src/oram.rs'
R = 'src/rlwe.rs'
G = 'src/rgsw.rs'
T = 'src/decision_tree.rs'
H = 'src/naive_hash.rs'
L = 'src/lwe.rs'
C = 'src/context.rs'
# ---------------------------------------------------------------- store
REDUCE = '''    let y = tmps.into_par_iter().reduce(
        || RLWECiphertext::allocate(ctx.poly_size),
        |mut a, b| {
            a.update_with_add(&b);
            a
        },
    );
'''
seed('o01-partials-by-four', 'O01', [(O, REDUCE, '''    // sum the partial responses four at a time
    let y = tmps
        .par_chunks_exact(4)
        .map(|chunk| {
            let mut a = chunk[0].clone();
            chunk[1..].iter().for_each(|b| a.update_with_add(b));
            a
        })
        .reduce(
            || RLWECiphertext::allocate(ctx.poly_size),
            |mut a, b| {
                a.update_with_add(&b);
                a
            },
        );
''')], 'a store of two items', 'partial responses are summed four at a time and a remainder is dropped: a store of two items answers every read with zero',
     '''
fn main() {
    for n in [2usize, 4, 8] {
        let h = NaiveHash::new(1, n);
        let (mut c, mut s, pts) = setup_random_oram(1, n, &h, par(256));
        for i in 0..n {
            assert_eq!(read(&mut c, &mut s, &h, i), coeffs(&pts[i]), "store of {n}, index {i}");
        }
    }
}
''')
seed('o02-low-bit', 'O02', [(O, '''        self.sk.encode_encrypt_rlwe(&mut out, alpha, &mut self.ctx);
        out
''', '''        let mut item = alpha.clone();
        for x in item.as_mut_tensor().iter_mut() {
            *x &= Scalar::one();
        }
        self.sk.encode_encrypt_rlwe(&mut out, &item, &mut self.ctx);
        out
''')], 'a written item with a coefficient above 1', 'query data is reduced to its lowest bit, so writes of non-binary items store something else',
     '''
fn main() {
    let n = 2;
    let h = NaiveHash::new(1, n);
    let (mut c, mut s, _) = setup_random_oram(1, n, &h, par(256));
    let w: Vec<u64> = (0..256).map(|i| (i * 7) % 256).collect();
    write(&mut c, &mut s, &h, 1, &w);
    assert_eq!(read(&mut c, &mut s, &h, 1), w);
}
''')
seed('o02-update-window', 'O02', [(O, '''    let cols = data.read().unwrap().len();
    (0..cols).into_par_iter().zip(ls).for_each(|(j, l)| {
        g(j, &l);
    })
''', '''    // the last column is updated together with its predecessor
    let cols = data.read().unwrap().len();
    (0..cols - cols % 16)
        .into_par_iter()
        .zip(ls)
        .for_each(|(j, l)| {
            g(j, &l);
        })
''')], 'a store of fewer than 16 items and a write', 'columns beyond the last multiple of 16 are never updated',
     '''
fn main() {
    let n = 4;
    let h = NaiveHash::new(1, n);
    let (mut c, mut s, _) = setup_random_oram(1, n, &h, par(256));
    let w: Vec<u64> = (0..256).map(|i| i & 1).collect();
    write(&mut c, &mut s, &h, 2, &w);
    assert_eq!(read(&mut c, &mut s, &h, 2), w);
}
''')
seed('o03-third-query', 'O03', [(O, '''        let sumed_tmps = tmps.reduce(
            || vec![RLWECiphertext::allocate(self.ctx.poly_size); cols],
            |mut xs, ys| {
                for i in 0..xs.len() {
                    xs[i].update_with_add(&ys[i]);
                }
                xs
            },
        );
''', '''        let tmps: Vec<Vec<RLWECiphertext>> = tmps.collect();
        let sumed_tmps = tmps
            .par_chunks(2)
            .map(|pair| {
                let mut xs = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
                if let [a, b] = pair {
                    for i in 0..xs.len() {
                        xs[i].fill_with_copy(&a[i]);
                        xs[i].update_with_add(&b[i]);
                    }
                }
                xs
            })
            .reduce(
                || vec![RLWECiphertext::allocate(self.ctx.poly_size); cols],
                |mut xs, ys| {
                    for i in 0..xs.len() {
                        xs[i].update_with_add(&ys[i]);
                    }
                    xs
                },
            );
''')], 'an odd number of queries in a round', 'updates are summed in pairs; the update of an unpaired last query is dropped and its item becomes zero',
     '''
fn main() {
    let n = 4;
    let h = NaiveHash::new(1, n);
    let (mut c, mut s, pts) = setup_random_oram(1, n, &h, par(256));
    let qs = vec![c.gen_read_query_one(0, &h), c.gen_read_query_one(3, &h), c.gen_read_query_one(1, &h)];
    let (ys, _) = s.process_multi(qs);
    for (y, i) in ys.iter().zip([0, 3, 1]) {
        assert_eq!(dec(&c.sk, y, &c.ctx), coeffs(&pts[i]));
    }
    for i in 0..n {
        assert_eq!(read(&mut c, &mut s, &h, i), coeffs(&pts[i]), "index {i}");
    }
}
''')
seed('o03-first-op', 'O03', [(O, '''        let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
            let tid = rayon::current_thread_index().unwrap_or(0);
''', '''        let rounds_op = EncOP(queries[0].op.0.clone());
        let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
            let tid = rayon::current_thread_index().unwrap_or(0);
'''), (O, '''                let tmp = rw(
                    &query.op,
                    &query.data,
                    &self.data[0].clone().read().unwrap()[j],
''', '''                let tmp = rw(
                    &rounds_op,
                    &query.data,
                    &self.data[0].clone().read().unwrap()[j],
''')], 'a round that mixes reads and writes', 'every query of a round is executed with the operation of the first one',
     '''
fn main() {
    let n = 4;
    let h = NaiveHash::new(1, n);
    let (mut c, mut s, pts) = setup_random_oram(1, n, &h, par(256));
    let w: Vec<u64> = (0..256).collect();
    let qs = vec![c.gen_read_query_one(0, &h), c.gen_write_query_one(3, &pt(w.clone()), &h)];
    s.process_multi(qs);
    assert_eq!(read(&mut c, &mut s, &h, 3), w);
    assert_eq!(read(&mut c, &mut s, &h, 0), coeffs(&pts[0]));
}
''')
seed('o04-idle-rows-write', 'O04', [(O, '''                Some(c) => self.make_write_query(c.0, alpha),
                None => self.make_read_query(0),
''', '''                Some(c) => self.make_write_query(c.0, alpha),
                None => self.make_write_query(0, alpha),
''')], 'a batched write that leaves a row unassigned', 'idle rows of a batched write overwrite their first cell, and through the consistency correction the item stored there',
     '''
fn main() {
    let (rows, cols) = (4usize, 2usize);
    for _ in 0..12 {
        let h = NaiveHash::new(2, 4);
        let p = TFHEParameters { plaintext_modulus: 2, ..par(256) };
        let (mut c, mut s, pts) = setup_random_oram(rows, cols, &h, p);
        let w: Vec<u64> = (0..256).map(|i| (i % 3 == 0) as u64).collect();
        let q = c.gen_write_query_batch(&[1], &pt(w.clone()), &h);
        s.process_batch(q, &h);
        let db = s.decrypt_db(&c.sk);
        for i in 0..4 {
            for k in 0..2 {
                let (r, col) = h.hash_to_tuple(k, i, cols);
                let want = if i == 1 { lossy(&pt(w.clone())) } else { lossy(&pts[i]) };
                assert_eq!(db[r][col], want, "item {i} replica {k}");
            }
        }
    }
}
''')
seed('o05-replicated-item', 'O05', [(O, '''                let item = pts[i % UNIQUE_LIMIT].clone();
''', '''                let item = pts[i % (item_count - UNIQUE_LIMIT)].clone();
''')], 'a database of more than 128 items whose number is no multiple of 128', 'the plaintext reported for an item beyond the 128th is not the one whose ciphertext is stored for it',
     '''
fn main() {
    let p = TFHEParameters { plaintext_modulus: 2, ..par(256) };
    for n in [131usize, 160] {
        let h = NaiveHash::new(1, n);
        let (mut c, s, pts) = setup_random_oram(1, n, &h, p.clone());
        let db = s.decrypt_db(&c.sk);
        for i in 0..n {
            let (r, col) = h.hash_to_tuple(0, i, n);
            assert_eq!(db[r][col], lossy(&pts[i]), "{n} items, item {i}");
        }
    }
}
''')
seed('o05-replicas-of-rest', 'O05', [(O, '''        for i in 0..item_count {
            let h_count = hash.h_count();
''', '''        for i in 0..unique_count {
            let h_count = hash.h_count();
''')], 'a database of more than 128 items with replicas', 'items beyond the 128th get no further replicas: those cells stay empty',
     '''
fn main() {
    let p = TFHEParameters { plaintext_modulus: 2, ..par(256) };
    let n = 132;
    let h = NaiveHash::new(2, n);
    let (c, s, pts) = setup_random_oram(2, n, &h, p);
    let db = s.decrypt_db(&c.sk);
    for i in 0..n {
        for k in 0..2 {
            let (r, col) = h.hash_to_tuple(k, i, n);
            assert_eq!(db[r][col], lossy(&pts[i]), "item {i} replica {k}");
        }
    }
}
''')
# how a query looks from outside is not public: compare what the server computes from it through timing-free observables
seed('o06-trivial-read', 'O06', [(O, '''        self.sk.encrypt_constant_rgsw(&mut enc, &pt, &mut self.ctx);
        EncOP(enc)
''', '''        if pt.0 != Scalar::zero() {
            // reading needs no encryption of zero: the allocated ciphertext is one
            self.sk.encrypt_constant_rgsw(&mut enc, &pt, &mut self.ctx);
        }
        EncOP(enc)
''')], 'looking at the randomness a query consumes', 'the operation flag of a read is the trivial all-zero ciphertext, so reads and writes can be told apart',
     '''
fn next(c: &mut Client) -> Vec<u64> {
    let mut x = RLWECiphertext::allocate(c.ctx.poly_size);
    let std = c.ctx.std;
    c.sk.encrypt_rlwe(&mut x, &pt(vec![0; c.ctx.poly_size.0]), std, &mut c.ctx.encryption_generator);
    x.get_mask().as_tensor().iter().cloned().collect()
}
fn main() {
    // with a fixed seed the encryption generator is deterministic: the next mask shows how much randomness a query took
    let p = TFHEParameters { secure_seed: false, ..par(256) };
    let h = NaiveHash::new(1, 4);
    let mut a = Client::new(1, 4, p.clone());
    let mut b = Client::new(1, 4, p);
    a.gen_read_query_one(1, &h);
    b.gen_write_query_one(2, &pt(vec![1; 256]), &h);
    assert!(next(&mut a) == next(&mut b), "reads and writes consume different amounts of randomness");
}
''')
seed('o06-shared-bits', 'O06', [(T, '''    for i in 0..a.len() {
        sk.encrypt_constant_rgsw(&mut a[i], if i_bits[i] { &zero } else { &one }, ctx);
    }
    a
''', '''    // encrypt each of the two constants once
    let mut set = a[0].clone();
    let mut unset = a[0].clone();
    sk.encrypt_constant_rgsw(&mut set, &zero, ctx);
    sk.encrypt_constant_rgsw(&mut unset, &one, ctx);
    for i in 0..a.len() {
        a[i] = if i_bits[i] { set.clone() } else { unset.clone() };
    }
    a
''')], 'an index of at least two bits', 'equal index bits are sent as equal ciphertexts, which reveals the index up to complement',
     '''
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let a = bit_decomposed_rgsw(5, 16, &sk, &mut ctx);
    for i in 0..a.len() {
        for j in 0..i {
            let m = |k: usize| a[k].get_last_row().get_mask().as_tensor().iter().cloned().collect::<Vec<u64>>();
            assert!(m(i) != m(j), "bits {i} and {j} are the same ciphertext");
        }
    }
}
''')
seed('o07-equal-operands', 'O07', [(G, '''        assert_eq!(ct0.polynomial_size(), ct1.polynomial_size());
''', '''        assert_eq!(ct0.polynomial_size(), ct1.polynomial_size());
        if ct0.0.as_tensor() == ct1.0.as_tensor() {
            // nothing to choose from
            out.fill_with_copy(ct0);
            return;
        }
''')], 'both operands of a selection being the same ciphertext', 'selection returns early when its operands coincide: the time the server takes depends on ciphertext contents',
     '''
fn time(g: &RGSWCiphertext, a: &RLWECiphertext, b: &RLWECiphertext, ctx: &Context) -> u128 {
    let mut buf = ctx.gen_fft_ctx();
    let mut out = RLWECiphertext::allocate(ctx.poly_size);
    (0..30)
        .map(|_| {
            let t = std::time::Instant::now();
            g.cmux_with_buf(&mut out, a, b, &mut buf);
            t.elapsed().as_nanos()
        })
        .min()
        .unwrap()
}
fn main() {
    let mut ctx = Context::new(par(1024));
    let sk = ctx.gen_rlwe_sk();
    let a = enc(&sk, &vec![1; 1024], &mut ctx);
    let b = enc(&sk, &vec![0; 1024], &mut ctx);
    let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
    let (x, y) = (time(&g, &a, &b, &ctx), time(&g, &a, &a, &ctx));
    assert!(y * 4 > x, "{x} ns for different operands, {y} ns for equal ones");
}
''')
seed('o07-mask-lookup', 'O07', [(G, '''        // this is just a wrapper around buf.mem
        let mut stack = DynStack::new(&mut buf.mem);

        transformed.as_mut_view().fill_with_forward_fourier(
            self.0.as_view(),
            buf.fft.as_view(),
            stack.rb_mut(),
        );

        external_product(
''', '''        // nothing is added for an empty operand
        if d.0.as_tensor().iter().all(|x| *x == Scalar::zero()) {
            return;
        }

        // this is just a wrapper around buf.mem
        let mut stack = DynStack::new(&mut buf.mem);

        transformed.as_mut_view().fill_with_forward_fourier(
            self.0.as_view(),
            buf.fft.as_view(),
            stack.rb_mut(),
        );

        external_product(
''')], 'an operand whose coefficients are all zero', 'the external product tests the contents of its operand and returns early',
     '''
fn time(g: &RGSWCiphertext, a: &RLWECiphertext, ctx: &Context) -> u128 {
    let mut buf = ctx.gen_fft_ctx();
    let mut out = RLWECiphertext::allocate(ctx.poly_size);
    (0..30)
        .map(|_| {
            let t = std::time::Instant::now();
            g.external_product_with_buf(&mut out, a, &mut buf);
            t.elapsed().as_nanos()
        })
        .min()
        .unwrap()
}
fn main() {
    let mut ctx = Context::new(par(1024));
    let sk = ctx.gen_rlwe_sk();
    let a = enc(&sk, &vec![1; 1024], &mut ctx);
    let z = RLWECiphertext::allocate(ctx.poly_size);
    let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
    let (x, y) = (time(&g, &a, &ctx), time(&g, &z, &ctx));
    assert!(y * 4 > x, "{x} ns for a full operand, {y} ns for an empty one");
}
''')
seed('o08-pool-size', 'O08', [(O, '''    pub fn process_one(&mut self, query: ClientQuery) -> (RLWECiphertext, Duration) {
        let buf = FftBufferPool::new(rayon::max_num_threads(), &self.ctx);
''', '''    pub fn process_one(&mut self, query: ClientQuery) -> (RLWECiphertext, Duration) {
        // no more than one task per column or level runs at a time
        let buf = FftBufferPool::new(self.cols().max(self.ctx.level_count.0), &self.ctx);
''')], 'more worker threads than columns and levels, and a task landing on a high-numbered one', 'the pool of scratch buffers is sized by the number of tasks instead of the number of threads: a task on a high-numbered thread panics',
     '''
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(24).build_global().unwrap();
    let h = NaiveHash::new(1, 4);
    let (mut c, mut s, pts) = setup_random_oram(1, 4, &h, par(256));
    for k in 0..300 {
        assert_eq!(read(&mut c, &mut s, &h, k % 4), coeffs(&pts[k % 4]));
    }
}
''')
seed('o08-guard-over-join', 'O08', [(O, '''    let v1s: Vec<RLWECiphertext> = positions
        .iter()
        .map(|(r, c)| {
            let mut tmp = RLWECiphertext::allocate(ctx.poly_size);
            let mut out = RLWECiphertext::allocate(ctx.poly_size);
            rw_flags[*r].external_product_with_buf(
                &mut tmp,
                &data[first_r].clone().read().unwrap()[first_c],
                &mut buf.pool[tid].clone().lock().unwrap(),
            );
            ls[*r][*c].external_product_with_buf(
                &mut out,
                &tmp,
                &mut buf.pool[tid].clone().lock().unwrap(),
            );
            out
        })
        .collect();
''', '''    let product = |(r, c): &(usize, usize), fft: &mut FftBuffer| {
        let mut tmp = RLWECiphertext::allocate(ctx.poly_size);
        let mut out = RLWECiphertext::allocate(ctx.poly_size);
        rw_flags[*r].external_product_with_buf(
            &mut tmp,
            &data[first_r].clone().read().unwrap()[first_c],
            fft,
        );
        ls[*r][*c].external_product_with_buf(&mut out, &tmp, fft);
        out
    };
    let mine = buf.pool[tid].clone();
    let mut fft = mine.lock().unwrap();
    let v1s: Vec<RLWECiphertext> = if positions.len() > 3 && ls[0].len() < 4 {
        // many replicas in short rows: work on the first two in parallel
        let (head, tail) = positions.split_at(2);
        let mut v: Vec<RLWECiphertext> = head
            .par_iter()
            .map(|p| product(p, &mut ctx.gen_fft_ctx()))
            .collect();
        v.extend(tail.iter().map(|p| product(p, &mut fft)));
        v
    } else {
        positions.iter().map(|p| product(p, &mut fft)).collect()
    };
    drop(fft);
''')], 'at least four replicas in rows of fewer than four cells, and a worker that picks up another item while it waits for the nested loop of the first', 'a thread holds the guard of its scratch buffer across a nested parallel loop and locks it again in a stolen task: the server deadlocks',
     '''
fn main() {
    let (rows, cols, hc) = (16usize, 2usize, 4usize);
    let items = rows * cols / hc;
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for k in 0..40 {
            let h = NaiveHash::new(hc, items);
            let (mut c, mut s, pts) = setup_random_oram(rows, cols, &h, par(256));
            let q = c.gen_read_query_batch(&[k % items], &h);
            s.process_batch(q, &h);
            tx.send(k).unwrap();
        }
    });
    loop {
        match rx.recv_timeout(std::time::Duration::from_secs(40)) {
            Ok(_) => (),
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {
                println!("deadlock");
                std::process::exit(1);
            }
        }
    }
}
''')
# ---------------------------------------------------------------- hashing
seed('h01-third-hash', 'H01', [(H, '''        self.hash(2, x)
''', '''        self.hash(self.h_count() - 1, x)
''')], 'a hash with more than three replicas', 'hash2 returns the position of the last replica instead of the third',
     '''
fn main() {
    for hc in [3, 4, 5] {
        let h = NaiveHash::new(hc, 8);
        for x in 0..8 {
            assert_eq!(h.hash2(x), h.hash(2, x));
        }
    }
}
''')
seed('h01-checked-range', 'H01', [(H, '''        if h >= self.h_count() || x >= self.input_domain() {
            None
        } else {
            Some(self.hash(h, x))
        }
''', '''        let slot = self.h_count * x + h;
        if slot >= self.output_domain() {
            None
        } else {
            Some(self.tables[slot])
        }
''')], 'a replica number beyond the count for an item that is not the last', 'an out-of-range replica is answered with another item\'s position',
     '''
fn main() {
    let h = NaiveHash::new(3, 4);
    for x in 0..6 {
        for k in 0..6 {
            assert_eq!(h.checked_hash(k, x).is_some(), k < 3 && x < 4, "replica {k} of {x}");
        }
    }
}
''')
seed('h01-partial-shuffle', 'H01', [(H, '''        tables.shuffle(&mut rng);
''', '''        // draw a slot for every entry
        for i in 1..tables.len() {
            let j = rng.gen_range(0..=i);
            if tables[i] % input_domain != j % input_domain {
                tables.swap(i, j);
            } else {
                tables[i] = tables[j];
            }
        }
'''), (H, '''use rand::seq::SliceRandom;
''', '''use rand::Rng;
''')], 'at least two replicas and a draw that hits the same residue', 'two (replica, item) pairs can be given the same position',
     '''
fn main() {
    for _ in 0..200 {
        let h = NaiveHash::new(3, 2);
        let mut v: Vec<usize> = (0..3).flat_map(|k| (0..2).map(move |x| (k, x))).map(|(k, x)| h.hash(k, x)).collect();
        v.sort();
        v.dedup();
        assert_eq!(v.len(), 6);
    }
}
''')
seed('h02-first-column', 'H02', [(H, '''            for h in 0..self.h_count() {
                let (r, c) = self.hash_to_tuple(h, *i, d);
                if let Entry::Vacant(e) = out.entry(r) {
                    e.insert((c, *i));
''', '''            let (_, c) = self.hash_to_tuple(0, *i, d);
            for h in 0..self.h_count() {
                let (r, _) = self.hash_to_tuple(h, *i, d);
                if let Entry::Vacant(e) = out.entry(r) {
                    e.insert((c, *i));
''')], 'two requested indices whose first replicas share a row', 'an index placed by a later replica is recorded with the column of its first one',
     '''
fn main() {
    for _ in 0..300 {
        let (hc, n, d) = (3, 6, 3);
        let h = NaiveHash::new(hc, n);
        if let Ok(m) = std::panic::catch_unwind(|| h.hash_to_mapping(&[0, 1, 2], d)) {
            for i in 0..3 {
                let p: Vec<_> = m.iter().filter(|(_, v)| v.1 == i).map(|(r, v)| (*r, v.0)).collect();
                assert_eq!(p.len(), 1);
                assert!((0..hc).any(|k| h.hash_to_tuple(k, i, d) == p[0]), "index {i} at {:?}", p[0]);
            }
        }
    }
}
''')
seed('h02-last-replica-evicts', 'H02', [(H, '''                if let Entry::Vacant(e) = out.entry(r) {
                    e.insert((c, *i));
''', '''                if h + 1 == self.h_count() || !out.contains_key(&r) {
                    out.insert(r, (c, *i));
'''), (H, '''use std::collections::hash_map::Entry;
''', '')], 'a request all of whose rows are taken', 'the last replica always takes its row and evicts the index assigned to it, which is then missing from the batch',
     '''
fn main() {
    for _ in 0..300 {
        let (hc, n, d) = (2, 4, 4);
        let h = NaiveHash::new(hc, n);
        if let Ok(m) = std::panic::catch_unwind(|| h.hash_to_mapping(&[0, 1, 2], d)) {
            for i in 0..3 {
                assert_eq!(m.values().filter(|v| v.1 == i).count(), 1, "index {i}");
            }
        }
    }
}
''')
# ---------------------------------------------------------------- encodings
seed('e01-wrap', 'E01', [('src/codec.rs', '''        if *x >= self.pt_modulus() {
            panic!("value is too big")
        }
        *x *= self.delta
''', '''        if (*x as SignedScalar) >= self.pt_modulus() as SignedScalar {
            panic!("value is too big")
        }
        *x = x.wrapping_mul(self.delta)
'''), ('src/codec.rs', '''use crate::{num_types::Scalar, utils::log2};
''', '''use crate::{
    num_types::{Scalar, SignedScalar},
    utils::log2,
};
''')], 'a value of 2^63 or more', 'values with the top bit set are encoded as another plaintext instead of being refused',
     '''
fn main() {
    let c = Codec::new(256);
    for v in [256u64, 1 << 40, (1 << 63) + 3, u64::MAX] {
        let r = std::panic::catch_unwind(|| {
            let mut x = v;
            c.encode(&mut x);
        });
        assert!(r.is_err(), "{v} was encoded");
    }
}
''')
seed('e01-large-modulus', 'E01', [('src/codec.rs', '''        let tmp = self.decomposer.closest_representable(*x);
        *x = tmp / self.delta
''', '''        // round to the nearest multiple of delta
        let tmp = (*x as f64 / self.delta as f64).round();
        *x = (tmp as Scalar) & (self.pt_modulus() - 1)
''')], 'a plaintext modulus beyond 2^53 or an error within 2^-53 of half a step', 'decoding goes through a double and loses the low bits of large plaintexts and errors close to half a step',
     '''
fn main() {
    for lt in [1usize, 8, 30, 55, 60] {
        let c = Codec::new(1 << lt);
        for m in [0u64, 1, (1 << lt) - 1, (1 << lt) / 2 + 1] {
            for e in [0i64, c.largest_error() as i64 - 1, -(c.largest_error() as i64 - 1)] {
                let m = m & ((1 << lt) - 1);
                let mut x = m;
                c.encode(&mut x);
                x = x.wrapping_add(e as u64);
                c.decode(&mut x);
                assert_eq!(x, m, "modulus 2^{lt}, error {e}");
            }
        }
    }
}
''')
seed('e02-minus-one-margin', 'E02', [('src/codec.rs', '''        } else if *x > HALF && *x <= HALF + THIRD {
''', '''        } else if *x > HALF && *x <= HALF + THIRD - SIXTH / 2 {
''')], 'an encoded -1 with an error between a twelfth and a sixth of the torus', 'the range that decodes to -1 is cut short, large positive errors turn it into 0',
     '''
fn main() {
    for (m, k) in [(0u64, 0u64), (1, 1), (u64::MAX, 2)] {
        for e in [0i64, (1i64 << 61) + (1 << 58), -((1i64 << 61) + (1 << 58))] {
            let mut x = m;
            Codec::ternary_encode(&mut x);
            x = x.wrapping_add(e as u64);
            Codec::ternary_decode(&mut x);
            assert_eq!(x, m, "error {e}");
        }
    }
}
''')
seed('e02-any-large', 'E02', [('src/codec.rs', '''        } else if *x == Scalar::MAX {
            *x = 2 * THIRD;
''', '''        } else if *x > Scalar::MAX / 2 {
            *x = 2 * THIRD;
''')], 'a value such as -2', 'every negative value is accepted by the ternary encoder and becomes -1',
     '''
fn main() {
    for v in [2u64, 1 << 63, u64::MAX - 1] {
        let r = std::panic::catch_unwind(|| {
            let mut x = v;
            Codec::ternary_encode(&mut x);
        });
        assert!(r.is_err(), "{v} was encoded");
    }
}
''')
# ---------------------------------------------------------------- RLWE
seed('r01-zero-shortcut', 'R01', [(R, '''        let mut binary_encoded = pt.clone();
        ctx.codec
            .poly_encode(&mut binary_encoded.as_mut_polynomial());
        self.encrypt_rlwe(
''', '''        let mut binary_encoded = pt.clone();
        ctx.codec
            .poly_encode(&mut binary_encoded.as_mut_polynomial());
        if binary_encoded.as_tensor().iter().all(|x| *x == 0) {
            // only the body depends on the message
            encrypted.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
            return;
        }
        self.encrypt_rlwe(
''')], 'encrypting zero into a ciphertext that was used before', 'encrypting the zero polynomial leaves the old mask in place',
     '''
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let mut c = enc(&sk, &vec![5; 256], &mut ctx);
    sk.encode_encrypt_rlwe(&mut c, &pt(vec![0; 256]), &mut ctx);
    assert_eq!(dec(&sk, &c, &ctx), vec![0; 256]);
}
''')
seed('r01-constant-mod', 'R01', [(R, '''            .get_mut_monomial(MonomialDegree(0))
            .get_mut_coefficient() = pt.0;
        self.0.encrypt_glwe(
''', '''            .get_mut_monomial(MonomialDegree(0))
            .get_mut_coefficient() = pt.0 & !(ctx.codec.largest_error() - 1);
        self.0.encrypt_glwe(
''')], 'a constant that is no encoded plaintext, such as a gadget element', 'encrypt_constant_rlwe rounds its scalar to the encoding grid',
     '''
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    for x in [1u64 << 56, 1 << 40, (1 << 50) + (1 << 60)] {
        let mut c = RLWECiphertext::allocate(ctx.poly_size);
        sk.encrypt_constant_rlwe(&mut c, &Plaintext(x), &mut ctx);
        let mut w = vec![0; 256];
        w[0] = x;
        assert!(off(&phase(&sk, &c), &w) < 30.0, "{x}");
    }
}
''')
seed('r02-monomial-wrap', 'R02', [(R, '''    pub fn update_with_monomial_div(&mut self, m: MonomialDegree) {
''', '''    pub fn update_with_monomial_div(&mut self, m: MonomialDegree) {
        let m = MonomialDegree(m.0 % self.polynomial_size().0);
''')], 'dividing by a monomial of degree N or more', 'division by X^(N+k) divides by X^k and loses the sign',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    for k in [0, 1, n - 1, n, n + 1, 2 * n - 1] {
        let mut c = enc(&sk, &coeffs(&unit(n, 3, 1)), &mut ctx);
        c.update_with_monomial_div(MonomialDegree(k));
        let e = (3 + 4 * n - k) % (2 * n);
        let w = if e < n { unit(n, e, 1) } else { unit(n, e - n, 255) };
        assert_eq!(dec(&sk, &c, &ctx), coeffs(&w), "X^{k}");
    }
}
''')
seed('r02-not-fresh', 'R02', [(R, '''        let mut out = Self::allocate(self.polynomial_size());
        out.0
            .as_mut_tensor()
            .update_with_wrapping_sub(self.0.as_tensor());
''', '''        let mut out = self.clone();
        for x in out.get_mut_body().as_mut_tensor().iter_mut() {
            *x = Scalar::zero().wrapping_sub(*x);
        }
        for x in out.get_mut_mask().as_mut_tensor().iter_mut().rev().skip(1) {
            *x = Scalar::zero().wrapping_sub(*x);
        }
''')], 'a key with coefficients set (any real key)', 'the last mask coefficient is not negated by not()',
     '''
fn main() {
    let p = TFHEParameters { plaintext_modulus: 2, ..par(256) };
    let mut ctx = Context::new(p);
    let sk = ctx.gen_rlwe_sk();
    for b in 0..2u64 {
        let c = enc(&sk, &coeffs(&unit(256, 0, b)), &mut ctx);
        assert_eq!(dec(&sk, &c.not(), &ctx), coeffs(&unit(256, 0, 1 - b)));
    }
}
''')
seed('r03-mask-accumulates', 'R03', [(R, '''        self.get_mut_mask().as_mut_tensor().fill_with(Scalar::zero);

        naive_update_with_mul_acc(
''', '''
        naive_update_with_mul_acc(
''')], 'a call of update_mask_with_mul', 'the mask keeps its old value next to the product',
     '''
fn main() {
    let n = 64;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let mut c = enc(&sk, &vec![3; 64], &mut ctx);
    let mut d = coeffs(&unit(n, 1, 1));
    c.update_mask_with_mul(&Polynomial::from_container(d.as_mut_slice()));
    c.update_body_with_mul(&Polynomial::from_container(d.as_mut_slice()));
    let mut w = vec![3; n];
    w[0] = 253;
    assert_eq!(dec(&sk, &c, &ctx), w);
}
''')
seed('r03-truncated-factor', 'R03', [(R, '''    fft.forward_as_torus(
        unsafe { fp1.as_mut_view().into_uninit() },
        p1.as_view(),
        stack.rb_mut(),
    );
    fft.forward_as_integer(
        unsafe { fp2.as_mut_view().into_uninit() },
        p2.as_view(),
        stack.rb_mut(),
    );

    for (f0, f1) in izip!(&mut *fp1.data, &*fp2.data) {
        *f0 *= *f1;
    }

    fft.backward_as_torus(
''', '''    // the integer factor is small
    let p2 = Polynomial::from_container(
        p2.as_tensor()
            .iter()
            .map(|x| *x as i8 as Scalar)
            .collect::<Vec<Scalar>>(),
    );
    fft.forward_as_torus(
        unsafe { fp1.as_mut_view().into_uninit() },
        p1.as_view(),
        stack.rb_mut(),
    );
    fft.forward_as_integer(
        unsafe { fp2.as_mut_view().into_uninit() },
        p2.as_view(),
        stack.rb_mut(),
    );

    for (f0, f1) in izip!(&mut *fp1.data, &*fp2.data) {
        *f0 *= *f1;
    }

    fft.backward_as_torus(
''')], 'a factor with a coefficient outside -128..127', 'the integer factor of a ring product is cut to 8 bits',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    for k in [3u64, 100, 129] {
        let mut c = enc(&sk, &coeffs(&unit(n, 0, 1)), &mut ctx);
        let d = coeffs(&unit(n, 1, k));
        c.update_mask_with_mul_with_buf(&Polynomial::from_container(d.as_slice()));
        c.update_body_with_mul_with_buf(&Polynomial::from_container(d.as_slice()));
        assert_eq!(dec(&sk, &c, &ctx), coeffs(&unit(n, 1, k)), "factor {k}");
    }
}
''')
seed('r04-eq-zero', 'R04', [(R, '''            if d == 0 {
                t[0] = Scalar::one();
            } else {
                t[n - d] = Scalar::MAX;
            }
''', '''            // X^-d = -X^(n-d)
            t[(n - d) % n] = Scalar::MAX;
''')], 'comparing with 0', 'eq_to(0) yields -1 instead of 1',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    for (m, d) in [(0, 0), (1, 0), (5, 5), (255, 255), (3, 4)] {
        let mut c = enc(&sk, &coeffs(&unit(n, m, 1)), &mut ctx);
        c.eq_to(d);
        assert_eq!(dec(&sk, &c, &ctx)[0], (m == d) as u64, "{m} == {d}");
    }
}
''')
seed('r04-le-largest', 'R04', [(R, '''            for x in t.iter_mut().take(n).skip(n - d) {
''', '''            for x in t.iter_mut().skip(n - d).take(n / 2) {
''')], 'a threshold above half the ring dimension and a value close to it', 'the threshold polynomial is cut at half the ring: some values compare wrongly with a large threshold',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    for (m, d) in [(0, 0), (1, 100), (100, 100), (1, 255), (10, 200), (200, 200), (255, 255), (140, 139)] {
        let mut c = enc(&sk, &coeffs(&unit(n, m, 1)), &mut ctx);
        c.less_eq_than(d);
        assert_eq!(dec(&sk, &c, &ctx)[0], (m <= d) as u64, "{m} <= {d}");
    }
}
''')
seed('r05-empty-body', 'R05', [(G, '''        let glwe_size = GlweSize(2);
        let mut transformed = FourierGgswCiphertext::new(
            vec![
                Complex::zero();
                self.polynomial_size().0 / 2
                    * self.decomposition_level_count().0
                    * glwe_size.0
                    * glwe_size.0
            ]
            .into_boxed_slice(),
            self.polynomial_size(),
            glwe_size,
            self.decomposition_base_log(),
            self.decomposition_level_count(),
        );

        // this is just a wrapper around buf.mem
        let mut stack = DynStack::new(&mut buf.mem);

        transformed.as_mut_view().fill_with_forward_fourier(
            self.0.as_view(),
            buf.fft.as_view(),
            stack.rb_mut(),
        );

        external_product(
''', '''        let glwe_size = GlweSize(2);
        if d.get_body().as_tensor().iter().all(|x| *x == Scalar::zero()) {
            // an empty ciphertext contributes nothing
            return;
        }
        let mut transformed = FourierGgswCiphertext::new(
            vec![
                Complex::zero();
                self.polynomial_size().0 / 2
                    * self.decomposition_level_count().0
                    * glwe_size.0
                    * glwe_size.0
            ]
            .into_boxed_slice(),
            self.polynomial_size(),
            glwe_size,
            self.decomposition_base_log(),
            self.decomposition_level_count(),
        );

        // this is just a wrapper around buf.mem
        let mut stack = DynStack::new(&mut buf.mem);

        transformed.as_mut_view().fill_with_forward_fourier(
            self.0.as_view(),
            buf.fft.as_view(),
            stack.rb_mut(),
        );

        external_product(
''')], 'a ciphertext with an all-zero body and a non-zero mask', 'the external product with a ciphertext whose body is zero is skipped although its mask is not empty',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    c.update_mask_with_add(&Polynomial::from_container(coeffs(&unit(n, 0, 1 << 60))));
    let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    g.external_product(&mut r, &c);
    assert!(off(&phase(&sk, &r), &phase(&sk, &c)) < 50.0);
}
''')
seed('r05-cmux-body', 'R05', [(G, '''        tmp.update_with_sub(ct0);
        self.external_product_with_buf(out, &tmp, buf);
''', '''        tmp.update_with_sub(ct0);
        if tmp.get_body() == RLWECiphertext::allocate(ct1.polynomial_size()).get_body() {
            // the operands agree
            return;
        }
        self.external_product_with_buf(out, &tmp, buf);
''')], 'two ciphertexts with the same body and different masks', 'selection compares only the bodies of its operands and then always yields the first',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let a = enc(&sk, &vec![1; 256], &mut ctx);
    let mut b = a.clone();
    b.update_mask_with_add(&Polynomial::from_container(coeffs(&unit(n, 0, 1 << 60))));
    let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    g.cmux(&mut r, &a, &b);
    assert!(off(&phase(&sk, &r), &phase(&sk, &b)) < 50.0);
}
''')
seed('r06-shared-vec', 'R06', [(R, '''                let mut rgsw_ct =
                    RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
                self.encrypt_constant_rgsw(&mut rgsw_ct, pt, ctx);
                rgsw_ct
            })
            .collect()
''', '''                let mut rgsw_ct =
                    RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
                // the scalars are bits
                let bit = Plaintext(pt.0 & Scalar::one());
                self.encrypt_constant_rgsw(&mut rgsw_ct, &bit, ctx);
                rgsw_ct
            })
            .collect()
''')], 'a scalar other than 0 and 1', 'encrypt_constant_rgsw_vec keeps only the lowest bit of each scalar',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let v = sk.encrypt_constant_rgsw_vec(&[Plaintext(0), Plaintext(1), Plaintext(3), Plaintext(u64::MAX)], &mut ctx);
    let c = enc(&sk, &coeffs(&unit(n, 1, 5)), &mut ctx);
    for (g, k) in v.iter().zip([0u64, 1, 3, 255]) {
        let mut r = RLWECiphertext::allocate(ctx.poly_size);
        g.external_product(&mut r, &c);
        assert_eq!(dec(&sk, &r, &ctx), coeffs(&unit(n, 1, (5 * k) % 256)), "scalar {k}");
    }
}
''')
seed('r06-neg-gadget', 'R06', [(R, '''            RGSWCiphertext::allocate(ctx.poly_size, ctx.negs_base_log, ctx.negs_level_count);
''', '''            RGSWCiphertext::allocate(ctx.poly_size, ctx.ks_base_log, ctx.negs_level_count);
''')], 'parameters whose key switching base differs from that of RGSW(-s)', 'RGSW(-s) is built with the base of the key switching keys',
     '''
fn main() {
    let p = TFHEParameters { negs_base_log: 4, negs_level_count: 12, key_switch_base_log: 6, key_switch_level_count: 8, ..par(256) };
    let mut ctx = Context::new(p);
    let sk = ctx.gen_rlwe_sk();
    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sk.neg_gsw(&mut ctx))).expect("RGSW(-s)");
    assert_eq!((g.decomposition_base_log().0, g.decomposition_level_count().0), (4, 12));
}
''')
seed('r07-even-levels', 'R07', [(R, '''        let mut terms_iter = terms.iter();
        let mut ksk_iter = self.ksks.iter().rev();
''', '''        let mut terms_iter = terms.iter();
        let mut ksk_iter = self.ksks.iter().rev();
        if self.ksks.len() % 2 == 0 && self.ksks.len() > 2 {
            // keep the number of remaining levels odd
            ksk_iter.next();
            terms_iter.next();
        }
''')], 'an even number of key switching levels above two', 'the lowest level is left out of the Fourier key switch when the number of levels is even',
     '''
fn main() {
    let n = 256;
    for (b, l) in [(10usize, 4usize), (13, 3), (20, 2)] {
        let mut ctx = Context::new(TFHEParameters { key_switch_base_log: b, key_switch_level_count: l, ..par(n) });
        let s1 = ctx.gen_rlwe_sk();
        let s2 = ctx.gen_rlwe_sk();
        let mut k = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
        let std = ctx.std;
        k.fill_with_keyswitch_key(&s1, &s2, std, &mut ctx.encryption_generator);
        let k = k.into_fourier();
        let c = raw(&s1, &vec![7 << 50; 256], &mut ctx);
        let mut r = FourierRLWECiphertext::new(n);
        k.keyswitch_ciphertext(&mut r, &c);
        assert!(off(&phase(&s2, &r.backward_as_torus()), &vec![7 << 50; 256]) < 30.5, "{l} levels");
    }
}
''')
seed('r08-large-k', 'R08', [('src/utils.rs', '''    assert_eq!(k % 2, 1);
''', '''    assert_eq!(k % 2, 1);
    // X^(n+1) is the largest substitution needed
    let k = if k > poly.polynomial_size().0 + 1 {
        k % poly.polynomial_size().0
    } else {
        k
    };
''')], 'a substitution by an exponent beyond N + 1', 'exponents above N+1 are reduced modulo N instead of 2N: odd coefficients lose their sign',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    for k in [3usize, n + 1, n + 3, 2 * n - 1] {
        let mut ks = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
        let mut d = RLWESecretKey::zero(ctx.poly_size);
        let std = ctx.std;
        ks.fill_with_subs_keyswitch_key(&mut d, &sk, k, std, &mut ctx.encryption_generator);
        let c = enc(&sk, &coeffs(&unit(n, 1, 1)), &mut ctx);
        let mut r = RLWECiphertext::allocate(ctx.poly_size);
        ks.subs(&mut r, &c);
        let e = k % (2 * n);
        let w = if e < n { unit(n, e, 1) } else { unit(n, e - n, 255) };
        assert_eq!(dec(&sk, &r, &ctx), coeffs(&w), "X -> X^{k}");
    }
}
''')
seed('r08-stale-k', 'R08', [(R, '''        before_key.fill_with_tensor(before_poly.as_tensor());
        self.fill_with_keyswitch_key(before_key, after_key, noise_parameters, generator);
        self.subs_k = k;
''', '''        before_key.fill_with_tensor(before_poly.as_tensor());
        self.fill_with_keyswitch_key(before_key, after_key, noise_parameters, generator);
        if self.subs_k == 0 {
            self.subs_k = k;
        }
'''), (R, '''            after_key.encrypt_rlwe(ksk, &buf, noise_parameters, generator);
        }
        self.subs_k = 0;
''', '''            after_key.encrypt_rlwe(ksk, &buf, noise_parameters, generator);
        }
''')], 'filling the same key object a second time, for another exponent', 'a substitution key that is filled again keeps the exponent of its first use',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let mut ks = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
    for k in [3usize, 5, n + 1] {
        let mut d = RLWESecretKey::zero(ctx.poly_size);
        let std = ctx.std;
        ks.fill_with_subs_keyswitch_key(&mut d, &sk, k, std, &mut ctx.encryption_generator);
        assert_eq!(ks.get_subs_k(), k);
    }
    let s2 = ctx.gen_rlwe_sk();
    let std = ctx.std;
    ks.fill_with_keyswitch_key(&s2, &sk, std, &mut ctx.encryption_generator);
    assert_eq!(ks.get_subs_k(), 0);
}
''')
seed('r09-full-precision', 'R09', [(R, '''            assert!(ctx.base_log.0 * level + logn <= Scalar::BITS as usize);
''', '''            assert!(ctx.base_log.0 * level + logn < Scalar::BITS as usize);
'''.replace('assert!(', 'assert!('))] if False else [(R, '''        assert!(ctx.base_log.0 * level + logn <= Scalar::BITS as usize);
''', '''        assert!(ctx.base_log.0 * level + logn < Scalar::BITS as usize);
''')], 'a gadget whose lowest element lands on the last bit of the torus', 'parameters that use the whole 64 bits are refused',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(TFHEParameters { base_log: 8, level_count: 7, ..par(n) });
    let sk = ctx.gen_rlwe_sk();
    assert_eq!(make_decomposed_rlwe_ct(&sk, 1, &mut ctx).len(), 7);
}
''')
seed('r09-trace-base', 'R09', [(R, '''        let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, poly_size);
        ksk.fill_with_subs_keyswitch_key(
            &mut dummy_sk,
            after_key,
            k,
            ctx.std,
            &mut ctx.encryption_generator,
        );
        hm.insert(k, ksk.into_fourier());
''', '''        let mut ksk = RLWEKeyswitchKey::allocate(ctx.base_log, ctx.ks_level_count, poly_size);
        ksk.fill_with_subs_keyswitch_key(
            &mut dummy_sk,
            after_key,
            k,
            ctx.std,
            &mut ctx.encryption_generator,
        );
        hm.insert(k, ksk.into_fourier());
''')], 'parameters whose key switching base is larger than the default base', 'the Fourier substitution keys use the default base with the number of key switching levels, so they cover too few bits',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(TFHEParameters { base_log: 4, level_count: 9, key_switch_base_log: 8, key_switch_level_count: 5, ..par(n) });
    let sk = ctx.gen_rlwe_sk();
    let m = gen_all_subs_ksk_fourier(&sk, &mut ctx);
    let c = raw(&sk, &coeffs(&unit(n, 0, 1 << 48)), &mut ctx);
    let mut r = RLWECiphertext::allocate(ctx.poly_size);
    c.trace1_fourier(&mut r, &m);
    assert!(off(&phase(&sk, &r), &coeffs(&unit(n, 0, 1 << 56))) < 46.0, "{}", off(&phase(&sk, &r), &coeffs(&unit(n, 0, 1 << 56))));
}
''')
seed('r10-constant-term', 'R10', [(R, '''    for x in pt.as_tensor().iter() {
        // convert x to signed
''', '''    for x in pt.as_tensor().iter().skip(1) {
        // convert x to signed
''')], 'an error that is largest in the constant coefficient', 'the noise of the constant coefficient is not measured',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let mut c = enc(&sk, &vec![1; 256], &mut ctx);
    c.update_body_with_add(&Polynomial::from_container(coeffs(&unit(n, 0, 1 << 50))));
    let g = compute_noise_encoded(&sk, &c, &pt(vec![1; 256]), &ctx.codec);
    assert!((g - 50.0).abs() < 0.01, "{g}");
}
''')
seed('r10-rgsw-level', 'R10', [(G, '''        let noise = compute_noise(sk, &ct.get_nth_row(level * 2 + 1), &pt);
        total_noise += noise;
''', '''        let noise = compute_noise(sk, &ct.get_nth_row(level * 2 + 1), &pt);
        total_noise = total_noise.max(noise * ctx.level_count.0 as f64);
''')], 'rows with different noise', 'the noise of an RGSW ciphertext is the maximum over its rows instead of the average',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(1), &mut ctx);
    let mut w = 0.0;
    for l in 0..ctx.level_count.0 {
        let mut p = vec![0u64; n];
        p[0] = 1 << (64 - ctx.base_log.0 * (l + 1));
        w += compute_noise(&sk, &g.get_nth_row(2 * l + 1), &pt(p));
    }
    let got = compute_noise_rgsw1(&sk, &g, &ctx);
    assert!((got - w / ctx.level_count.0 as f64).abs() < 1e-9, "{got}");
}
''')
# ---------------------------------------------------------------- LWE
seed('l01-last-coefficient', 'L01', [(L, '''        self.0.fill_with_glwe_sample_extraction(&c.0, n_th);
''', '''        let last = c.polynomial_size().0 - 1;
        self.0
            .fill_with_glwe_sample_extraction(&c.0, MonomialDegree(n_th.0 % last));
''')], 'extracting the last coefficient', 'extracting the coefficient of X^(N-1) extracts the constant',
     '''
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_lwe_sk();
    let rsk = sk.to_rlwe_sk();
    let v: Vec<u64> = (0..n as u64).map(|x| (x * 3 + 1) % 256).collect();
    let c = enc(&rsk, &v, &mut ctx);
    for i in [0, 1, 100, n - 2, n - 1] {
        let mut l = LWECiphertext::allocate(ctx.lwe_size());
        l.fill_with_sample_extract(&c, MonomialDegree(i));
        let mut p = Plaintext(0);
        sk.decode_decrypt_lwe(&mut p, &l, &ctx);
        assert_eq!(p.0, v[i], "coefficient {i}");
    }
}
''')
seed('l01-dirty-output', 'L01', [(L, '''        let mut encoded_pt = *pt;
        ctx.codec.encode(&mut encoded_pt.0);
        self.encrypt_lwe(output, &encoded_pt, ctx.std, &mut ctx.encryption_generator);
''', '''        let mut encoded_pt = *pt;
        ctx.codec.encode(&mut encoded_pt.0);
        let previous = output.get_body().0;
        self.encrypt_lwe(output, &encoded_pt, ctx.std, &mut ctx.encryption_generator);
        let body = &mut output.get_mut_body().0;
        *body = body.wrapping_add(previous);
''')], 'encrypting into a ciphertext that was used before', 'the old body of the output is added to the new one',
     '''
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_lwe_sk();
    let mut c = LWECiphertext::allocate(ctx.lwe_size());
    for m in [1u64, 200, 7] {
        sk.encode_encrypt_lwe(&mut c, &Plaintext(m), &mut ctx);
        let mut p = Plaintext(0);
        sk.decode_decrypt_lwe(&mut p, &c, &ctx);
        assert_eq!(p.0, m);
    }
}
''')
seed('l02-packing-base', 'L02', [(L, '''                RGSWCiphertext::allocate(ctx.poly_size, ctx.ks_base_log, ctx.ks_level_count);
''', '''                RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.ks_level_count);
''')], 'parameters whose key switching base differs from the default base', 'the packing key is made with the default base and used with the key switching base',
     '''
fn main() {
    let n = 64;
    let mut ctx = Context::new(TFHEParameters { key_switch_base_log: 4, key_switch_level_count: 8, base_log: 6, ..par(n) });
    let sk = ctx.gen_lwe_sk();
    let mut k = LWEtoRLWEKeyswitchKey::allocate(&ctx);
    k.fill_with_keyswitching_key(&sk, &mut ctx);
    let mut c = LWECiphertext::allocate(ctx.lwe_size());
    sk.encode_encrypt_lwe(&mut c, &Plaintext(9), &mut ctx);
    let r = conv_lwe_to_rlwe(&k, &c, &ctx);
    assert_eq!(dec(&sk.to_rlwe_sk(), &r, &ctx)[0], 9);
}
''')

# ---------------------------------------------------------------- trees
seed('t01-narrow-compare', 'T01', [(T, """                if features[node.feature] <= node.threshold {
""", """                if features[node.feature] as u32 <= node.threshold as u32 {
""")], 'a feature or threshold of at least 2^32', 'features are compared by their low 32 bits',
     """
fn main() {
    let t = node(0, 7, leaf(1), leaf(2));
    for (f, w) in [(7usize, 1), (8, 2), (1 << 32, 2), ((1 << 40) + 3, 2)] {
        assert_eq!(t.eval(&vec![f]), w, "feature {f}");
    }
}
""")
seed('t01-missing-child', 'T01', [(T, """                if features[node.feature] <= node.threshold {
                    match &node.left {
                        Some(left) => eval_node(out, &left, features, b),
                        None => (),
                    };
""", """                if features[node.feature] <= node.threshold {
                    match &node.left {
                        Some(left) => eval_node(out, &left, features, b),
                        // a truncated node has only one child
                        None => return node.right.iter().for_each(|r| eval_node(out, r, features, b)),
                    };
""")], 'a tree with a missing left child', 'a path that ends at a missing left child goes on through the right one',
     """
fn main() {
    let t = node(0, 7, None, leaf(2));
    assert_eq!(t.eval(&vec![8]), 2);
    assert_eq!(t.eval(&vec![3]), 0);
}
""")
seed('t02-low-byte', 'T02', [(T, """            if *label == 0 {
                None
""", """            if *label as u8 == 0 {
                None
""")], 'a leaf whose label is a multiple of 256', 'truncation removes leaves whose label is a positive multiple of 256',
     """
fn main() {
    for l in [1usize, 255, 256, 512, 1 << 20] {
        let t = Some(node(0, 7, leaf(0), leaf(l)));
        let u = trunc_tree(&t).expect("truncated to nothing");
        assert_eq!(u.eval(&vec![8]), l);
    }
}
""")
seed('t02-lost-index', 'T02', [(T, """                _ => Some(Node::Internal(Box::new(Internal {
                    threshold: node.threshold,
                    feature: node.feature,
                    index: node.index,
                    op: node.op,
                    left: left_side,
""", """                _ => Some(Node::Internal(Box::new(Internal {
                    threshold: node.threshold,
                    feature: node.feature,
                    index: if left_side.is_some() { node.index } else { 0 },
                    op: node.op,
                    left: left_side,
""")], 'an indexed tree with a node whose left subtree is removed', 'truncation resets the index of nodes that lose their left subtree',
     """
fn main() {
    let mut t = node(0, 7, Some(node(1, 1, leaf(0), leaf(1))), Some(node(2, 2, leaf(1), leaf(1))));
    t.fix_index();
    let u = trunc_tree(&Some(t)).unwrap().flatten();
    assert_eq!(u.iter().map(|x| x.index).collect::<Vec<_>>(), vec![0, 1, 2]);
}
""")
seed('t03-missing-child-index', 'T03', [(T, """    let j = match &mut node.left {
        Some(Node::Leaf(_)) | None => i,
""", """    let j = match &mut node.left {
        Some(Node::Leaf(_)) => i,
        None => i + 1,
""")], 'a tree with a missing left child above another internal node', 'numbering skips an index for a missing left child',
     """
fn main() {
    let mut t = node(0, 0, None, Some(node(1, 0, leaf(1), Some(node(0, 0, leaf(1), leaf(2))))));
    t.fix_index();
    assert_eq!(t.flatten().iter().map(|x| x.index).collect::<Vec<_>>(), vec![0, 1, 2]);
}
""")
seed('t03-flatten-stops', 'T03', [(T, """    match &node.left {
        Some(Node::Leaf(_)) | None => (),
        Some(Node::Internal(left)) => flatten_tree(out, left),
    }
""", """    match &node.left {
        Some(Node::Leaf(_)) => (),
        Some(Node::Internal(left)) => flatten_tree(out, left),
        None => return,
    }
""")], 'a tree with a missing left child above another internal node', 'flattening stops at a missing left child',
     """
fn main() {
    let t = node(0, 0, None, Some(node(1, 0, leaf(1), leaf(2))));
    assert_eq!(t.flatten().len(), t.count_internal());
}
""")
seed('t03-right-feature', 'T03', [(T, """                let i = internal.feature;
                i.max(
                    internal
                        .left
                        .as_ref()
                        .unwrap_or(&Self::Leaf(0))
                        .max_feature_index(),
                )
                .max(
""", """                let i = internal.feature;
                if internal.left.is_none() {
                    return i;
                }
                i.max(
                    internal
                        .left
                        .as_ref()
                        .unwrap_or(&Self::Leaf(0))
                        .max_feature_index(),
                )
                .max(
""")], 'a tree with a missing left child and its largest feature below it', 'features below a node without a left child are not counted',
     """
fn main() {
    let t = node(1, 0, None, Some(node(5, 0, leaf(1), leaf(2))));
    assert_eq!(t.max_feature_index(), 5);
}
""")
seed('t04-narrow-label', 'T04', [(T, """            for (bit, ct) in (*x).view_bits::<Lsb0>().iter().zip(out.iter_mut()) {
""", """            for (bit, ct) in (*x as u32)
                .view_bits::<Lsb0>()
                .iter()
                .zip(out.iter_mut())
            {
""")], 'a label of at least 2^32', 'label bits beyond the 32nd are zero in the output',
     """
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let l = (1usize << 35) + 5;
    let t = node(0, 7, leaf(l), leaf(1));
    let mut bits = sk.encrypt_constant_rgsw_vec(&[Plaintext(1)], &mut ctx).into_iter();
    let e = EncNode::new(&t, &mut bits);
    let mut buf = ctx.gen_fft_ctx();
    let y = e.eval(&ctx, &mut buf);
    let got: usize = y.iter().enumerate().map(|(i, c)| (dec(&sk, c, &ctx)[0] as usize) << i).sum();
    assert_eq!(got, l);
}
""")
seed('t04-missing-left', 'T04', [(T, """                    (None, Some(right)) => right,
""", """                    (None, Some(_)) => 0,
""")], 'a node without a left child whose right leaf holds the largest label', 'the largest label ignores a leaf whose sibling is missing, so its bits are cut off',
     """
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let e = EncNode::Internal(Box::new(EncInternal {
        ct: sk.encrypt_constant_rgsw_vec(&[Plaintext(0)], &mut ctx).remove(0),
        left: None,
        right: Some(EncNode::Leaf(3)),
    }));
    let mut buf = ctx.gen_fft_ctx();
    let y = e.eval(&ctx, &mut buf);
    let got: usize = y.iter().enumerate().map(|(i, c)| (dec(&sk, c, &ctx)[0] as usize) << i).sum();
    assert_eq!(got, 3);
}
""")
seed('t05-stale-feature', 'T05', [(T, """            pt.as_mut_tensor().fill_with_element(Scalar::zero());
            *pt.as_mut_polynomial()
""", """            if level == 1 && tmp.len() + out.len() < 2 {
                pt.as_mut_tensor().fill_with_element(Scalar::zero());
            }
            *pt.as_mut_polynomial()
""")], 'a feature vector of at least three features', 'the plaintext of the second feature is not cleared before the third one is encrypted',
     """
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let f = vec![3usize, 17, 200, 9];
    let c = encrypt_feature_vector(&sk, &f, &mut ctx);
    for (i, v) in f.iter().enumerate() {
        let mut w = vec![0; 256];
        w[*v] = 1 << (64 - 5 - 8);
        assert!(off(&phase(&sk, &c[i][0]), &w) < 40.0, "feature {i}");
    }
}
""")
seed('t05-parallel-pairs', 'T05', [(T, """        client_cts.par_iter().map(|ct| server_f(ct)).collect()
""", """        // two rows per task
        client_cts
            .par_chunks_exact(2)
            .flat_map_iter(|cts| cts.iter().map(|ct| server_f(ct)))
            .collect()
""")], 'parallel simulation of an odd number of rows', 'the last row of an odd number of rows is not predicted in parallel simulation',
     """
fn main() {
    let t = node(0, 7, leaf(1), leaf(0));
    let f = vec![vec![3usize], vec![8], vec![7]];
    let r = simulate(&t, &f, true);
    assert_eq!(r.predictions, vec![1, 0, 1]);
}
""")
seed('t06-wide-index', 'T06', [(T, """    let mut i_bits = i.view_bits::<Lsb0>()[..log2(n)].to_bitvec();
""", """    let mut i_bits = (i as u8 as usize).view_bits::<Lsb0>()[..log2(n)].to_bitvec();
""")], 'an index of at least 256', 'only the low eight bits of an index are encrypted',
     """
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let mut buf = ctx.gen_fft_ctx();
    let bits = bit_decomposed_rgsw(300, 512, &sk, &mut ctx);
    let y = demux(&bits, &ctx, &mut buf);
    for (i, c) in y.iter().enumerate() {
        assert_eq!(dec(&sk, c, &ctx)[0], (i == 300) as u64, "output {i}");
    }
}
""")
seed('t06-fourth-bit', 'T06', [(T, """        let mut left_output = demux_rec(level + 1, left, bits, ctx, buf);
        let right_output = demux_rec(level + 1, right, bits, ctx, buf);
        left_output.extend(right_output);
        left_output
""", """        let mut left_output = demux_rec(level + 1, left, bits, ctx, buf);
        let right_output = demux_rec(level + 1, right, bits, ctx, buf);
        // keep the outputs in order
        if level % 4 == 3 {
            left_output.splice(0..0, right_output);
        } else {
            left_output.extend(right_output);
        }
        left_output
""")], 'an index of at least five bits', 'the halves of the outputs are swapped at the fourth bit when more bits follow',
     """
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let mut buf = ctx.gen_fft_ctx();
    for (i, n) in [(5, 8), (9, 16), (9, 32), (40, 64)] {
        let bits = bit_decomposed_rgsw(i, n, &sk, &mut ctx);
        let y = demux(&bits, &ctx, &mut buf);
        for (j, c) in y.iter().enumerate() {
            assert_eq!(dec(&sk, c, &ctx)[0], (i == j) as u64, "index {i} of {n}, output {j}");
        }
    }
}
""")
# ---------------------------------------------------------------- context, parameters, utilities
seed('c01-negs-levels', 'C01', [(C, """        let negs_level_count = DecompositionLevelCount(tfhe_params.negs_level_count);
""", """        let negs_level_count = DecompositionLevelCount(tfhe_params.key_switch_level_count);
""")], 'parameters with different level counts for key switching and RGSW(-s)', 'the level count of RGSW(-s) is taken from the key switching keys',
     """
fn main() {
    let ctx = Context::new(TFHEParameters { negs_level_count: 6, ..par(256) });
    assert_eq!((ctx.ks_level_count.0, ctx.negs_level_count.0), (11, 6));
}
""")
seed('c01-narrow-plaintext', 'C01', [(C, """            self.codec.pt_modulus_bits(),
""", """            self.codec.pt_modulus_bits().min(8),
""")], 'a plaintext modulus above 256', 'random plaintexts never exceed 255',
     """
fn main() {
    let mut ctx = Context::new(TFHEParameters { plaintext_modulus: 1 << 16, ..par(1024) });
    assert!(coeffs(&ctx.gen_pt()).iter().any(|x| *x > 255));
}
""")
seed('c02-shared-seed', 'C02', [(C, """                secret_generator =
                    SecretRandomGenerator::<SoftwareRandomGenerator>::new(seeder.seed());
                encryption_generator = EncryptionRandomGenerator::<SoftwareRandomGenerator>::new(
                    seeder.seed(),
                    &mut seeder,
                );
""", """                let seed = seeder.seed();
                secret_generator = SecretRandomGenerator::<SoftwareRandomGenerator>::new(seed);
                encryption_generator = EncryptionRandomGenerator::<SoftwareRandomGenerator>::new(
                    seed,
                    &mut seeder,
                );
""")], 'comparing the masks of a client with its secret key', 'the secret key and the public masks come from the same seed: the first mask reveals the key',
     """
fn main() {
    let n = 256;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let c = enc(&sk, &vec![0; n], &mut ctx);
    // the secret key, read from the phase of (1, 0)
    let mut u = RLWECiphertext::allocate(ctx.poly_size);
    u.update_mask_with_add(&Polynomial::from_container(coeffs(&unit(n, 0, 1))));
    let s: Vec<u64> = phase(&sk, &u).iter().map(|x| x.wrapping_neg()).collect();
    assert!(s.iter().all(|x| *x < 2));
    let bytes: Vec<u64> = c.get_mask().as_tensor().iter().flat_map(|x: &u64| x.to_le_bytes()).map(|b| (b & 1) as u64).collect();
    assert!(bytes[..n] != s[..], "the mask reveals the key");
}
""")
seed('c03-zipped-options', 'C03', [('src/params.rs', """            for x_oram in &x.0 {
                for x_tfhe in &x.1 {
                    out.push(Self {
                        oram: x_oram.clone(),
                        tfhe: x_tfhe.clone(),
                    })
                }
            }
""", """            if x.0.len() == x.1.len() {
                for (x_oram, x_tfhe) in x.0.iter().zip(&x.1) {
                    out.push(Self {
                        oram: x_oram.clone(),
                        tfhe: x_tfhe.clone(),
                    })
                }
                continue;
            }
            for x_oram in &x.0 {
                for x_tfhe in &x.1 {
                    out.push(Self {
                        oram: x_oram.clone(),
                        tfhe: x_tfhe.clone(),
                    })
                }
            }
""")], 'equally many (at least two) options of both kinds', 'equally long option lists are paired instead of combined',
     """
fn main() {
    let i = InputParamsList { list: vec![(vec![ORAMParameters::default(); 2], vec![TFHEParameters::default(); 2])] };
    assert_eq!(ServerParams::from_input_params_list(i).len(), 4);
}
""")
seed('c03-half-word', 'C03', [('src/utils.rs', """    for (i, x) in pt.plaintext_iter().take(64).enumerate() {
        assert!(x.0 == Scalar::zero() || x.0 == Scalar::one());
        out += x.0 * (1 << i);
    }
""", """    for (i, x) in pt.plaintext_iter().take(63).enumerate() {
        assert!(x.0 == Scalar::zero() || x.0 == Scalar::one());
        out += x.0 * (1 << i);
    }
""")], 'a plaintext that differs in its 64th coefficient', 'the compact form of a plaintext leaves out the 64th coefficient',
     """
fn main() {
    let mut v = vec![0; 256];
    v[63] = 1;
    assert_eq!(lossy(&pt(v)), 1 << 63);
}
""")
seed('c03-square-transpose', 'C03', [('src/utils.rs', """    let len = v[0].len();
    let mut iters""", """    let len = v[0].len().min(v.len());
    let mut iters""")], 'a matrix with more columns than rows', 'transposition drops columns beyond the number of rows',
     """
fn main() {
    assert_eq!(transpose(vec![vec![1, 2, 3], vec![4, 5, 6]]), vec![vec![1, 4], vec![2, 5], vec![3, 6]]);
}
""")

# ---------------------------------------------------------------- documents and the program
M = 'src/main.rs'
RUN = """
fn run(args: &[&str]) -> Vec<String> {
    let o = std::process::Command::new(std::env::var("PROG").unwrap()).args(args).output().unwrap();
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    String::from_utf8(o.stdout).unwrap().lines().skip(1).map(|x| x.to_string()).collect()
}
fn small() -> Vec<&'static str> {
    vec!["--polynomial-size", "16"]
}
fn file(name: &str, text: &str) -> String {
    let f = format!("{}/{}", std::env::var("SCRATCH").unwrap(), name);
    std::fs::write(&f, text).unwrap();
    f
}
fn tfhe(n: usize) -> String {
    serde_json::to_string(&par(n)).unwrap()
}
"""
seed('x01-unknown-op', 'X01', [(T, """    LEQ,
    GT,
}
""", """    LEQ,
    #[serde(other)]
    GT,
}
""")], 'a document with another operation', 'an operation the format does not have is taken for gt', """
fn main() {
    let t = |op: &str| serde_json::from_str::<Node>(&format!(r#"{{"internal":{{"threshold":1,"feature":0,"index":0,"op":"{op}","left":null,"right":null}}}}"#));
    assert!(t("gt").is_ok() && t("leq").is_ok());
    assert!(t("lt").is_err());
}
""")
seed('x01-filled-in', 'X01', [('src/params.rs', """#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TFHEParameters {""", """#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(default)]
pub struct TFHEParameters {""")], 'a parameter file that lacks a field', 'a parameter set that lacks a field, or spells it wrong, is silently completed with defaults', """
fn main() {
    let s = serde_json::to_string(&par(16)).unwrap();
    assert!(serde_json::from_str::<TFHEParameters>(&s).is_ok());
    assert!(serde_json::from_str::<TFHEParameters>(&s.replace("key_switch_base_log", "ks_base_log")).is_err());
}
""")
seed('x01-label-as-double', 'X01', [(T, """    //label inside leaf
    Leaf(usize),
}
""", """    //label inside leaf
    Leaf(#[serde(deserialize_with = "label")] usize),
}

/// Labels may be written as 3 or 3.0
fn label<'de, D: serde::Deserializer<'de>>(d: D) -> Result<usize, D::Error> {
    let x = f64::deserialize(d)?;
    if x < 0f64 || x.fract() != 0f64 {
        return Err(serde::de::Error::custom("not a label"));
    }
    Ok(x as usize)
}
""")], 'a label of 2^53 or more', 'labels are read through a double and lose their low bits', """
fn main() {
    let n: Node = serde_json::from_str(r#"{"leaf":9007199254740993}"#).unwrap();
    assert!(matches!(n, Node::Leaf(9007199254740993)));
}
""")
seed('x02-args-for-broken-file', 'X02', [(M, """    let input_params = match File::open(&cli.params) {
        Ok(file) => ServerParams::from_input_params_list(
            serde_json::from_reader(BufReader::new(file)).unwrap_or_default(),
        ),
        _ =>""", """    let list = File::open(&cli.params)
        .ok()
        .and_then(|file| serde_json::from_reader(BufReader::new(file)).ok());
    let input_params = match list {
        Some(list) => ServerParams::from_input_params_list(list),
        _ =>""")], 'a parameter file that is no valid document', 'a malformed parameter file runs the experiment of the other arguments instead of the default one', RUN + """
fn main() {
    let f = file("bad.json", "[[[");
    let o = run(&["--dryrun", "--mode", "0", "--item-count", "8", "--params", &f]);
    assert!(o[0].contains(",2,2048,-,384,16,2^11,"), "{o:?}");
}
""")
seed('x02-average', 'X02', [(M, """            let (ys, _) = server.process_multi(queries);

            let mut avg_noise = 0f64;
""", """            let (ys, _) = server.process_multi(queries);

""")], 'a run of several iterations in multi-query mode', 'the reported noise of later iterations includes that of the earlier ones', RUN + """
fn main() {
    let f = file("p.json", &format!(r#"[[[{{"MultiQuery":{{"item_count":4,"query_count":2,"iterations":8}}}}],[{}]]]"#, tfhe(16)));
    let o = run(&["--params", &f]);
    let noise = |l: &str| l.rsplit(|c| c == '=' || c == ',').next().unwrap().parse::<f64>().unwrap();
    let v: Vec<f64> = o.iter().map(|l| noise(l)).collect();
    assert!(v.len() == 8 && v.iter().all(|x| (x - v[0]).abs() < 6.0), "{v:?}");
}
""")
seed('x02-rounded-rows', 'X02', [(M, """    let item_count = (rows * cols) / h_count;
""", """    let item_count = (rows / h_count) * cols;
""")], 'a number of rows that is no multiple of three', 'the number of items of a batch is computed from the rows rounded down', RUN + """
fn main() {
    let o = run(&["--dryrun", "--rows", "4", "--cols", "16"]);
    assert!(o[0].contains(",2,21,-,4,16,2^4,"), "{o:?}");
}
""")
seed('x02-once-per-shape', 'X02', [(M, """    for params in input_params {
        print!(""", """    let mut shapes = vec![];
    for params in input_params {
        // do not repeat experiments listed twice
        let shape = format!("{:?}{}", params.oram, params.tfhe.polynomial_size);
        if shapes.contains(&shape) {
            continue;
        }
        shapes.push(shape);
        print!(""")], 'a parameter file with two parameter sets of one ring size', 'experiments that differ only in parameters other than the ring size are left out', RUN + """
fn main() {
    let f = file("p.json", &format!(r#"[[[{{"SingleQuery":{{"item_count":4,"iterations":1}}}}],[{},{}]]]"#, tfhe(16), tfhe(16).replace("\\"base_log\\":5", "\\"base_log\\":6")));
    assert_eq!(run(&["--dryrun", "--params", &f]).len(), 2);
}
""")
seed('x03-flexible', 'X03', [('src/utils.rs', """    let mut x_train_rdr = csv::Reader::from_reader(x_test_f);
""", """    let mut x_train_rdr = csv::ReaderBuilder::new().flexible(true).from_reader(x_test_f);
""")], 'a row with a number of columns that differs from the header', 'uneven rows are accepted', """
fn main() {
    let d = std::env::temp_dir().join(format!("x03-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("x.csv");
    std::fs::write(&f, "a,b\\n1,2\\n3\\n").unwrap();
    let r = std::panic::catch_unwind(|| parse_csv(&f));
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err());
}
""")
seed('x03-header-guess', 'X03', [('src/utils.rs', """        let record = res.unwrap();
        let row = record.iter().map(|s| s.parse().unwrap()).collect();
        x_test.push(row);
""", """        let record = res.unwrap();
        let row: Vec<usize> = record.iter().map(|s| s.parse().unwrap()).collect();
        // rows of zeros are padding
        if row.iter().any(|x| *x != 0) {
            x_test.push(row);
        }
""")], 'a row of zeros', 'rows of zeros are left out', """
fn main() {
    let d = std::env::temp_dir().join(format!("x03-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("x.csv");
    std::fs::write(&f, "a\\n1\\n0\\n").unwrap();
    let r = parse_csv(&f);
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(r, vec![vec![1], vec![0]]);
}
""")

# ---------------------------------------------------------------- a further round
seed('r11-level-noise', 'R11', [(R, """            mul_const(buf.as_mut_tensor(), 1 << shift);

            after_key.encrypt_rlwe(ksk, &buf, noise_parameters, generator);
""", """            mul_const(buf.as_mut_tensor(), 1 << shift);

            // the lower levels carry smaller messages
            let noise = concrete_core::prelude::StandardDev(noise_parameters.get_standard_dev() / level as f64);
            after_key.encrypt_rlwe(ksk, &buf, noise, generator);
""")], 'a key switching key of more than one level', 'the lower levels of a key switching key are encrypted with less noise than configured', """
fn main() {
    let n = 1024;
    let mut ctx = Context::new(par(n));
    let sk = ctx.gen_rlwe_sk();
    let other = ctx.gen_rlwe_sk();
    let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(5), DecompositionLevelCount(8), ctx.poly_size);
    k.fill_with_keyswitch_key(&other, &sk, LogStandardDev(-30.0), &mut ctx.encryption_generator);
    // the key's phase is its message plus the error; the message of a level is a multiple of 2^(64-5*level)
    for (i, c) in k.get_keyswitch_key().iter().take(4).enumerate() {
        let u = 64 - 5 * (i as u32 + 1);
        let e: Vec<f64> = phase(&sk, c).iter().map(|x| {
            let r = x & ((1u64 << u) - 1);
            (if r >> (u - 1) == 1 { r as i128 - (1i128 << u) } else { r as i128 }) as f64
        }).collect();
        let rms = (e.iter().map(|x| x * x).sum::<f64>() / n as f64).sqrt().log2();
        assert!((rms - 34.0).abs() < 0.4, "level {} has noise 2^{rms}", i + 1);
    }
}
""")
seed('r11-cached-feature', 'R11', [(T, """    let mut out = Vec::new(); // TODO preallocate
    for v in vs {
        let mut tmp = Vec::new();
""", """    let mut out: Vec<Vec<RLWECiphertext>> = Vec::new(); // TODO preallocate
    for (i, v) in vs.iter().enumerate() {
        // an equal feature was encrypted already
        if let Some(j) = vs[..i].iter().position(|w| w == v) {
            let known = out[j].clone();
            out.push(known);
            continue;
        }
        let mut tmp = Vec::new();
""")], 'a vector in which two features have the same value', 'equal features get the same ciphertexts', """
fn main() {
    let mut ctx = Context::new(par(256));
    let sk = ctx.gen_rlwe_sk();
    let c = encrypt_feature_vector(&sk, &vec![5, 9, 5], &mut ctx);
    assert_ne!(c[0][0].get_mask().as_tensor().as_slice(), c[2][0].get_mask().as_tensor().as_slice());
}
""")
seed('t03-index-byte', 'T03', [(T, """    node.index = i;
    let j = match &mut node.left {
""", """    node.index = i as u8 as usize;
    let j = match &mut node.left {
""")], 'a tree of more than 256 internal nodes', 'indices are reduced to a byte', """
fn main() {
    let mut t = Node::new_with_depth(9);
    t.fix_index();
    for (i, x) in t.flatten().iter().enumerate() {
        assert_eq!(x.index, i);
    }
}
""")
seed('c03-float-log', 'C03', [('src/utils.rs', """pub const fn log2(input: usize) -> usize {
    core::mem::size_of::<usize>() * 8 - (input.leading_zeros() as usize) - 1
}
""", """pub fn log2(input: usize) -> usize {
    (input as f64).log2() as usize
}
""")], 'an argument just below a large power of two', 'the logarithm is computed in floating point', """
fn main() {
    for k in 1..63 {
        let x = 1usize << k;
        assert_eq!(log2(x), k);
        assert_eq!(log2(2 * x - 1), k);
    }
}
""")
seed('l02-lowest-level', 'L02', [(L, """        for (mut ct, decomposed_a) in ksk_iter.zip(decomposer_iter) {
""", """        // the least significant term is below the noise
        for (mut ct, decomposed_a) in ksk_iter.zip(decomposer_iter).skip(1) {
""")], 'a key switching decomposition of few levels', 'the least significant digit of the mask is dropped', """
fn main() {
    let n = 64;
    let mut ctx = Context::new(TFHEParameters { key_switch_base_log: 4, key_switch_level_count: 4, ..par(n) });
    let sk = ctx.gen_lwe_sk();
    let mut k = LWEtoRLWEKeyswitchKey::allocate(&ctx);
    k.fill_with_keyswitching_key(&sk, &mut ctx);
    for v in 0..40u64 {
        let mut c = LWECiphertext::allocate(ctx.lwe_size());
        sk.encode_encrypt_lwe(&mut c, &Plaintext(v), &mut ctx);
        let r = conv_lwe_to_rlwe(&k, &c, &ctx);
        assert!(dist(phase(&sk.to_rlwe_sk(), &r)[0], v << 56) < 1 << 52, "{v}");
    }
}
""")
