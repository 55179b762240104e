//! Decision trees: plaintext evaluation, transformations, encrypted evaluation.
use pan as panacea;
use super::vh::*;
use panacea::context::{Context, FftBuffer};
use panacea::decision_tree::*;
use panacea::params::*;
use panacea::rgsw::*;
use panacea::rlwe::*;

// ------------------------------------------------------------------ arbitrary trees
/// an arbitrary tree of height at most `d`: shape by choice, thresholds, features and labels symbolic
struct Gen {
    none: bool,
    feat: FeatKind,
    label_bits: u32,
    thr_bits: u32,
    count: usize,
}
#[derive(Clone, Copy)]
enum FeatKind {
    Symbolic(u32),
    Cycle(usize),
}
impl Gen {
    fn node(&mut self, d: usize) -> Node {
        let feature = match self.feat {
            FeatKind::Symbolic(b) => u64s("feature", b) as usize,
            FeatKind::Cycle(k) => (self.count * 3) % k,
        };
        self.count += 1;
        let index = 7 + 2 * self.count; // distinct, in no particular order of use
        let threshold = u64s("threshold", self.thr_bits) as usize;
        let left = self.child(d - 1);
        let right = self.child(d - 1);
        Node::Internal(Box::new(Internal { threshold, feature, index, op: Op::LEQ, left, right }))
    }
    fn child(&mut self, d: usize) -> Option<Node> {
        let k = 1 + self.none as usize + (d > 0) as usize;
        match choose(k) {
            0 => Some(Node::Leaf(u64s("label", self.label_bits) as usize)),
            1 if d > 0 => Some(self.node(d)),
            _ => None,
        }
    }
    fn full(&mut self, d: usize) -> Node {
        if d == 0 {
            return Node::Leaf(u64s("label", self.label_bits) as usize);
        }
        let mut n = match self.feat {
            FeatKind::Symbolic(b) => u64s("feature", b) as usize,
            FeatKind::Cycle(k) => (self.count * 3) % k,
        };
        self.count += 1;
        let index = 7 + 2 * self.count; // distinct, in no particular order of use
        let threshold = u64s("threshold", self.thr_bits) as usize;
        let left = Some(self.full(d - 1));
        let right = Some(self.full(d - 1));
        Node::Internal(Box::new(Internal { threshold, feature: n, index, op: Op::LEQ, left, right }))
    }
}
fn arbitrary(none: bool, feat: FeatKind, label_bits: u32) -> Gen {
    Gen { none, feat, label_bits, thr_bits: 64, count: 0 }
}
/// the label of the leaf reached by comparing features with thresholds; zero when the path ends early
fn walk(root: &Node, features: &Vec<usize>) -> usize {
    let mut cur = root;
    loop {
        match cur {
            Node::Leaf(x) => return *x,
            Node::Internal(n) => {
                let next = if features[n.feature] <= n.threshold { &n.left } else { &n.right };
                match next {
                    Some(c) => cur = c,
                    None => return 0,
                }
            }
        }
    }
}
fn feats(n: usize) -> Vec<usize> {
    (0..n).map(|_| u64s("value", 64) as usize).collect()
}
fn eval_any(mut g: Gen, d: usize, nf: usize) {
    let t = g.node(d);
    let f = feats(nf);
    let got = t.eval(&f);
    check(got == walk(&t, &f), "evaluation returns the label of the selected leaf");
    let c = t.clone();
    check(c.eval(&f) == got, "a copy evaluates alike");
    reach("end");
}
fn eval_full(mut g: Gen, d: usize, nf: usize) {
    let t = g.full(d);
    let f = feats(nf);
    let got = t.eval(&f);
    check(got == walk(&t, &f), "evaluation returns the label of the selected leaf");
    reach("end");
}
fn well_pruned(n: &Node) -> bool {
    match n {
        Node::Leaf(x) => *x != 0,
        Node::Internal(i) => {
            let l = match &i.left {
                Some(c) => well_pruned(c),
                None => true,
            };
            let r = match &i.right {
                Some(c) => well_pruned(c),
                None => true,
            };
            l && r && (i.left.is_some() || i.right.is_some())
        }
    }
}
/// `u` is `t` without the subtrees that hold no positive leaf (the specification of truncation, node by node)
fn pruned(t: &Node, u: &Node) -> bool {
    match (t, u) {
        (Node::Leaf(a), Node::Leaf(b)) => a == b && *a != 0,
        (Node::Internal(a), Node::Internal(b)) => {
            a.threshold == b.threshold
                && a.feature == b.feature
                && a.index == b.index
                && matches!((a.op, b.op), (Op::LEQ, Op::LEQ) | (Op::GT, Op::GT))
                && pruned_child(&a.left, &b.left)
                && pruned_child(&a.right, &b.right)
        }
        _ => false,
    }
}
fn positive(t: &Node) -> bool {
    match t {
        Node::Leaf(a) => *a != 0,
        Node::Internal(i) => i.left.as_ref().map_or(false, positive) || i.right.as_ref().map_or(false, positive),
    }
}
fn pruned_child(t: &Option<Node>, u: &Option<Node>) -> bool {
    match (t, u) {
        (None, None) => true,
        (None, Some(_)) => false,
        (Some(t), None) => !positive(t),
        (Some(t), Some(u)) => pruned(t, u),
    }
}
fn trunc_any(mut g: Gen, d: usize, nf: usize) {
    let t = g.node(d);
    let f = feats(nf);
    let want = walk(&t, &f);
    match trunc_tree(&Some(t.clone())) {
        None => check(want == 0, "a tree is truncated to nothing only if it always evaluates to zero"),
        Some(u) => {
            check(u.eval(&f) == want, "truncation preserves evaluation");
            check(walk(&u, &f) == want, "truncation preserves evaluation");
            check(pruned(&t, &u), "truncation removes the subtrees without a positive leaf and keeps everything else as it was");
            check(well_pruned(&u), "truncation leaves no zero leaf and no empty node");
            check(u.count_leaf() <= t.count_leaf() && u.count_internal() <= t.count_internal() && u.count_depth() <= t.count_depth(), "truncation does not grow the tree");
            // idempotent
            match trunc_tree(&Some(u.clone())) {
                None => fail("a second truncation changes nothing"),
                Some(v) => check(v.count_leaf() == u.count_leaf() && v.count_internal() == u.count_internal(), "a second truncation changes nothing"),
            }
        }
    }
    check(trunc_tree(&None).is_none(), "nothing truncates to nothing");
    reach("end");
}
fn set_ops(n: &mut Node, k: &mut usize) {
    if let Node::Internal(i) = n {
        *k += 1;
        if *k % 2 == 1 {
            i.op = Op::GT;
        }
        if let Some(c) = &mut i.left {
            set_ops(c, k);
        }
        if let Some(c) = &mut i.right {
            set_ops(c, k);
        }
    }
}
/// the transformations keep the comparison operators (trees with both cannot be evaluated)
fn trunc_ops(mut g: Gen, d: usize) {
    let mut t = g.node(d);
    set_ops(&mut t, &mut 0);
    match trunc_tree(&Some(t.clone())) {
        None => check(!positive(&t), "a tree with a positive leaf is not truncated to nothing"),
        Some(u) => check(pruned(&t, &u), "truncation removes the subtrees without a positive leaf and keeps everything else as it was"),
    }
    reach("end");
}
/// a larger tree: symbolic thresholds, features by position among `nf`
fn large(kind: char, d: usize, labels: &[usize], nf: usize) -> Node {
    shaped(kind, d, labels, &mut 0, &mut 0, nf, &mut || u64s("threshold", 64) as usize).unwrap()
}
fn large_measure(kind: char, d: usize, labels: &[usize], nf: usize) {
    let mut t = large(kind, d, labels, nf);
    measured(&mut t);
}
fn large_eval(kind: char, d: usize, labels: &[usize], nf: usize) {
    // three symbolic values spread over the features, three thresholds spread over the nodes
    let v = feats(3);
    let f: Vec<usize> = (0..nf).map(|i| v[i % 3]).collect();
    let mut k = 0;
    let t = shaped(kind, d, labels, &mut 0, &mut 0, nf, &mut || { k += 1; [9, 1 << 40, 300][(k * k + k / 3) % 3] }).unwrap();
    let got = t.eval(&f);
    check(got == walk(&t, &f), "evaluation returns the label of the selected leaf");
    if let Some(u) = trunc_tree(&Some(t.clone())) {
        check(u.eval(&f) == got, "truncation preserves evaluation");
    } else {
        check(got == 0, "a tree is truncated to nothing only if it always evaluates to zero");
    }
    reach("end");
}
fn large_trunc(kind: char, d: usize, labels: &[usize], nf: usize) {
    let mut t = large(kind, d, labels, nf);
    // one leaf, of any label, somewhere
    let k = choose(t.count_leaf());
    set_label(&mut t, &mut 0, k, u64s("label", 64) as usize);
    match trunc_tree(&Some(t.clone())) {
        None => check(!positive(&t), "a tree with a positive leaf is not truncated to nothing"),
        Some(u) => {
            check(pruned(&t, &u), "truncation removes the subtrees without a positive leaf and keeps everything else as it was");
            check(well_pruned(&u), "truncation leaves no zero leaf and no empty node");
        }
    }
    reach("end");
}
fn set_label(n: &mut Node, at: &mut usize, k: usize, label: usize) {
    match n {
        Node::Leaf(x) => {
            if *at == k {
                *x = label;
            }
            *at += 1;
        }
        Node::Internal(i) => {
            if let Some(c) = &mut i.left {
                set_label(c, at, k, label);
            }
            if let Some(c) = &mut i.right {
                set_label(c, at, k, label);
            }
        }
    }
}
struct Counts {
    leaf: usize,
    internal: usize,
    depth: usize,
    maxf: usize,
}
fn counts(n: &Node) -> Counts {
    match n {
        Node::Leaf(_) => Counts { leaf: 1, internal: 0, depth: 0, maxf: 0 },
        Node::Internal(i) => {
            let z = || Counts { leaf: 0, internal: 0, depth: 0, maxf: 0 };
            let l = i.left.as_ref().map(counts).unwrap_or_else(z);
            let r = i.right.as_ref().map(counts).unwrap_or_else(z);
            let d = if l.depth > r.depth { l.depth } else { r.depth };
            let mut m = if l.maxf > r.maxf { l.maxf } else { r.maxf };
            if i.feature > m {
                m = i.feature;
            }
            Counts { leaf: l.leaf + r.leaf, internal: 1 + l.internal + r.internal, depth: d + 1, maxf: m }
        }
    }
}
fn preorder<'a>(n: &'a Node, out: &mut Vec<&'a Internal>) {
    if let Node::Internal(i) = n {
        out.push(i);
        if let Some(l) = &i.left {
            preorder(l, out);
        }
        if let Some(r) = &i.right {
            preorder(r, out);
        }
    }
}
fn measure_any(mut g: Gen, d: usize) {
    let mut t = g.node(d);
    measured(&mut t);
}
fn measured(t: &mut Node) {
    let c = counts(&t);
    check(t.count_leaf() == c.leaf, "number of leaves");
    check(t.count_internal() == c.internal, "number of internal nodes");
    check(t.count_depth() == c.depth, "depth");
    check(t.max_feature_index() == c.maxf, "largest feature index");
    let last = t.fix_index();
    check(last + 1 == c.internal, "the last index is the number of internal nodes minus one");
    let flat = t.flatten();
    let mut pre = vec![];
    preorder(&t, &mut pre);
    check(flat.len() == pre.len() && pre.len() == c.internal, "flattening lists every internal node");
    for (k, (a, b)) in flat.iter().zip(&pre).enumerate() {
        check(a.index == k && b.index == k, "indices enumerate the nodes depth first");
        eq(a.threshold as u64, b.threshold as u64, "flattening keeps thresholds in order");
        check(a.feature == b.feature, "flattening keeps features in order");
    }
    check(Node::Leaf(3).flatten().is_empty(), "a leaf has no internal nodes");
    reach("end");
}
fn generated() {
    let d = choose(9);
    let t = Node::new_with_depth(d);
    check(t.count_leaf() == 1 << d && t.count_internal() == (1 << d) - 1 && t.count_depth() == d, "a full tree of the requested depth");
    let mut ls = vec![];
    leaves(&t, &mut ls);
    check(ls.iter().sum::<usize>() == 1 && ls.iter().all(|x| *x < 2), "exactly one leaf is labelled one");
    let u = Node::default();
    check(u.count_depth() == 1 && u.count_internal() == 1, "the default tree has one internal node");
    let mut ls = vec![];
    leaves(&u, &mut ls);
    check(ls.len() == 2 && ls.iter().sum::<usize>() == 1, "one leaf of the default tree is labelled one");
    reach("end");
}
fn leaves(n: &Node, out: &mut Vec<usize>) {
    match n {
        Node::Leaf(x) => out.push(*x),
        Node::Internal(i) => {
            for c in [&i.left, &i.right] {
                if let Some(c) = c {
                    leaves(c, out);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ encrypted evaluation
fn leaf_choice(labels: &[usize], none: bool) -> Option<Node> {
    let k = choose(labels.len() + none as usize);
    if k == labels.len() {
        None
    } else {
        Some(Node::Leaf(labels[k]))
    }
}
/// shapes with up to three internal nodes; `thr` and `feature` are chosen by the callbacks
fn small_tree(shape: usize, labels: &[usize], none: bool, nf: usize, thr: &mut dyn FnMut() -> usize) -> Node {
    let mut c = 0;
    let mut int = |l: Option<Node>, r: Option<Node>, c: &mut usize, t: usize| {
        let f = *c % nf;
        *c += 1;
        Node::Internal(Box::new(Internal { threshold: t, feature: f, index: 0, op: Op::LEQ, left: l, right: r }))
    };
    match shape {
        0 => {
            let (l, r) = (leaf_choice(labels, none), leaf_choice(labels, none));
            int(l, r, &mut c, thr())
        }
        1 => {
            let (a, b) = (leaf_choice(labels, none), leaf_choice(labels, none));
            let l = int(a, b, &mut c, thr());
            let r = leaf_choice(labels, none);
            int(Some(l), r, &mut c, thr())
        }
        2 => {
            let (a, b) = (leaf_choice(labels, none), leaf_choice(labels, none));
            let r = int(a, b, &mut c, thr());
            let l = leaf_choice(labels, none);
            int(l, Some(r), &mut c, thr())
        }
        _ => {
            let (a, b) = (leaf_choice(labels, none), leaf_choice(labels, none));
            let l = int(a, b, &mut c, thr());
            let (a, b) = (leaf_choice(labels, none), leaf_choice(labels, none));
            let r = int(a, b, &mut c, thr());
            int(Some(l), Some(r), &mut c, thr())
        }
    }
}
/// larger trees, with labels by position: chains ('l', 'r'), a zigzag ('z'), complete trees ('f') of depth d,
/// and a lopsided one ('m': complete to the left, missing children to the right)
fn shaped(kind: char, d: usize, labels: &[usize], at: &mut usize, c: &mut usize, nf: usize, thr: &mut dyn FnMut() -> usize) -> Option<Node> {
    if d == 0 {
        *at += 1;
        return Some(Node::Leaf(labels[(*at - 1) % labels.len()]));
    }
    let feature = *c % nf;
    *c += 1;
    let threshold = thr();
    let (lk, ld, rk, rd) = match kind {
        'l' => ('l', d - 1, 'l', 0),
        'r' => ('r', 0, 'r', d - 1),
        'z' if d % 2 == 0 => ('z', d - 1, 'z', 0),
        'z' => ('z', 0, 'z', d - 1),
        'm' => ('f', d - 1, 'n', d - 1),
        'n' => ('f', 0, 'n', d - 1),
        _ => ('f', d - 1, 'f', d - 1),
    };
    let left = shaped(lk, ld, labels, at, c, nf, thr);
    let right = if kind == 'n' && d == 1 { None } else { shaped(rk, rd, labels, at, c, nf, thr) };
    Some(Node::Internal(Box::new(Internal { threshold, feature, index: 0, op: Op::LEQ, left, right })))
}
/// label of the leaf selected by the given choice bits (depth first, one is left)
fn by_bits(n: &Node, bits: &[u64], at: &mut usize, live: u64, out: &mut Vec<(u64, usize)>) {
    match n {
        Node::Leaf(x) => out.push((live, *x)),
        Node::Internal(i) => {
            let b = bits[*at];
            *at += 1;
            if let Some(c) = &i.left {
                by_bits(c, bits, at, live.wrapping_mul(b), out);
            }
            if let Some(c) = &i.right {
                by_bits(c, bits, at, live.wrapping_mul(1u64.wrapping_sub(b)), out);
            }
        }
    }
}
fn enc_eval(p: P, shapes: &[usize], labels: &[usize], none: bool) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let s = shapes[choose(shapes.len())];
    let t = small_tree(s, labels, none, 1, &mut || 0);
    enc_eval_tree(p, ctx, sk, t)
}
fn enc_shaped(p: P, kind: char, d: usize, labels: &[usize]) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let t = shaped(kind, d, labels, &mut 0, &mut 0, 1, &mut || 0).unwrap();
    enc_eval_tree(p, ctx, sk, t)
}
fn enc_eval_tree(p: P, mut ctx: Context, sk: RLWESecretKey, t: Node) {
    let n = t.count_internal();
    let mut bits = vec![];
    let mut cts = vec![];
    for _ in 0..n {
        let x = u64s("b", 1);
        bits.push(x);
        let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
        sk.encrypt_constant_rgsw(&mut g, &scalar(x), &mut ctx);
        cts.push(g);
    }
    let mut it = cts.into_iter();
    let root = EncNode::new(&t, &mut it);
    check(it.next().is_none(), "one choice bit per internal node");
    let mut ls = vec![];
    leaves(&t, &mut ls);
    let max = ls.iter().cloned().max().unwrap_or(0);
    check(root.max_leaf() == max, "largest label");
    let mut buf = ctx.gen_fft_ctx();
    let out = root.eval(&ctx, &mut buf);
    let mut paths = vec![];
    by_bits(&t, &bits, &mut 0, 1, &mut paths);
    let unit = 1u64 << (64 - p.t.trailing_zeros());
    for k in 0..64 {
        let mut v = 0u64;
        let mut any = false;
        for (live, l) in &paths {
            if (l >> k) & 1 == 1 {
                v = v.wrapping_add(*live);
                any = true;
            }
        }
        if k < out.len() {
            phase_is(&sk, &out[k], &cst(p.n, v.wrapping_mul(unit)), "output bit k is bit k of the selected label");
        } else {
            check(!any, "there is an output for every bit of every label");
        }
    }
    let got = verif_decrypt_and_recompose(&sk, &out, &ctx);
    let mut want = 0u64;
    for (live, l) in &paths {
        want = want.wrapping_add(live.wrapping_mul(*l as u64));
    }
    eq(got, want, "the decrypted prediction is the selected label");
    reach("end");
}
/// an encrypted tree put together by hand: children may be missing
fn enc_child(labels: &[usize], d: usize, bits: &mut Vec<u64>, sk: &RLWESecretKey, ctx: &mut Context, clear: &mut Option<Node>) -> Option<EncNode> {
    match choose(labels.len() + 1 + (d > 0) as usize) {
        0 => None,
        k if k <= labels.len() => {
            *clear = Some(Node::Leaf(labels[k - 1]));
            Some(EncNode::Leaf(labels[k - 1]))
        }
        _ => {
            let (e, c) = enc_node(labels, d - 1, bits, sk, ctx);
            *clear = Some(c);
            Some(e)
        }
    }
}
fn enc_node(labels: &[usize], d: usize, bits: &mut Vec<u64>, sk: &RLWESecretKey, ctx: &mut Context) -> (EncNode, Node) {
    let x = u64s("b", 1);
    bits.push(x);
    let mut g = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
    sk.encrypt_constant_rgsw(&mut g, &scalar(x), ctx);
    let (mut l, mut r) = (None, None);
    let left = enc_child(labels, d, bits, sk, ctx, &mut l);
    let right = enc_child(labels, d, bits, sk, ctx, &mut r);
    (
        EncNode::Internal(Box::new(EncInternal { ct: g, left, right })),
        Node::Internal(Box::new(Internal { threshold: 0, feature: 0, index: 0, op: Op::LEQ, left: l, right: r })),
    )
}
fn enc_direct(p: P, labels: &[usize], d: usize) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let mut bits = vec![];
    let (root, t) = enc_node(labels, d, &mut bits, &sk, &mut ctx);
    let mut ls = vec![];
    leaves(&t, &mut ls);
    let max = ls.iter().cloned().max().unwrap_or(0);
    check(root.max_leaf() == max, "largest label");
    let mut buf = ctx.gen_fft_ctx();
    let out = root.eval(&ctx, &mut buf);
    let mut paths = vec![];
    by_bits(&t, &bits, &mut 0, 1, &mut paths);
    let unit = 1u64 << (64 - p.t.trailing_zeros());
    check(out.len() >= 64 - (max as u64).leading_zeros() as usize, "there is an output for every bit of every label");
    for k in 0..out.len() {
        let mut v = 0u64;
        for (live, l) in &paths {
            if (l >> k) & 1 == 1 {
                v = v.wrapping_add(*live);
            }
        }
        phase_is(&sk, &out[k], &cst(p.n, v.wrapping_mul(unit)), "output bit k is bit k of the selected label");
    }
    reach("end");
}
/// features and thresholds below the ring size, encrypted comparison, expansion, evaluation, decryption
fn pdte(p: P, shapes: &[usize], labels: &[usize], none: bool, nf: usize, allthr: bool) {
    let mut ctx = exact(p);
    let s = shapes[choose(shapes.len())];
    let mut k = 0;
    let t = small_tree(s, labels, none, nf, &mut || {
        k += 1;
        if allthr {
            choose(p.n)
        } else {
            (k * 3) % p.n
        }
    });
    pdte_tree(p, ctx, t, nf)
}
fn pdte_shaped(p: P, kind: char, d: usize, labels: &[usize], nf: usize) {
    let ctx = exact(p);
    let mut k = 0;
    let t = shaped(kind, d, labels, &mut 0, &mut 0, nf, &mut || {
        k += 1;
        (k * 3) % p.n
    }).unwrap();
    pdte_tree(p, ctx, t, nf)
}
/// a vector of many features of which the tree uses a few, far apart
fn pdte_wide(p: P, kind: char, d: usize, labels: &[usize], nf: usize) {
    let ctx = exact(p);
    let mut k = 0;
    let mut t = shaped(kind, d, labels, &mut 0, &mut 0, 1, &mut || {
        k += 1;
        (k * 3) % p.n
    }).unwrap();
    let mut f: Vec<usize> = (0..nf).map(|i| i % p.n).collect();
    let used = spread(&mut t, &mut 0, nf);
    for i in used {
        f[i] = choose(p.n);
    }
    pdte_on(p, ctx, t, f)
}
/// a complete tree of which any set of subtrees is missing
fn pdte_gaps(p: P, d: usize, labels: &[usize]) {
    fn strip(n: &mut Node, d: usize) {
        if let Node::Internal(i) = n {
            for c in [&mut i.left, &mut i.right] {
                if d == 1 || choose(2) > 0 {
                    if d == 1 && choose(2) == 0 {
                        *c = None;
                    } else if let Some(c) = c {
                        strip(c, d - 1);
                    }
                } else {
                    *c = None;
                }
            }
        }
    }
    let ctx = exact(p);
    let mut k = 0;
    let mut t = shaped('f', d, labels, &mut 0, &mut 0, 1, &mut || {
        k += 1;
        (k * 3) % p.n
    }).unwrap();
    strip(&mut t, d);
    pdte_tree(p, ctx, t, 1)
}
fn spread(n: &mut Node, c: &mut usize, nf: usize) -> Vec<usize> {
    let mut r = vec![];
    if let Node::Internal(i) = n {
        i.feature = (nf - 1 + *c * 131) % nf;
        *c += 1;
        r.push(i.feature);
        for x in [&mut i.left, &mut i.right] {
            if let Some(x) = x {
                r.extend(spread(x, c, nf));
            }
        }
    }
    r
}
fn simulation_many(p: P, nvec: usize, parallel: bool) {
    exact(p);
    *VERIF_DEFAULT.lock().unwrap() = Some(p.params());
    let t = shaped('l', 2, &[1, 6, 3], &mut 0, &mut 0, 1, &mut || 0).unwrap();
    let at = choose(nvec);
    let f: Vec<Vec<usize>> = (0..nvec).map(|i| vec![if i == at { 1 } else { 0 }]).collect();
    let r = simulate(&t, &f, parallel);
    check(r.predictions.len() == nvec && r.input_count == nvec, "one prediction per input");
    for (x, v) in r.predictions.iter().zip(&f) {
        eq(*x, walk(&t, v) as u64, "the simulation returns the plaintext prediction");
    }
    reach("end");
}
fn pdte_tree(p: P, ctx: Context, t: Node, nf: usize) {
    let f: Vec<usize> = (0..nf).map(|_| choose(p.n)).collect();
    pdte_on(p, ctx, t, f)
}
fn pdte_on(p: P, mut ctx: Context, t: Node, f: Vec<usize>) {
    let nf = f.len();
    let sk = ctx.gen_rlwe_sk();
    let neg = sk.neg_gsw(&mut ctx);
    let ksk = gen_all_subs_ksk_fourier(&sk, &mut ctx);
    let cts = encrypt_feature_vector(&sk, &f, &mut ctx);
    check(cts.len() == nf && cts.iter().all(|c| c.len() == p.l), "one ciphertext per feature and level");
    let flat = t.flatten();
    let mut it = compare_expand(&flat, &cts, &neg, &ksk, &ctx);
    let root = EncNode::new(&t, &mut it);
    let mut buf = ctx.gen_fft_ctx();
    let out = root.eval(&ctx, &mut buf);
    let got = verif_decrypt_and_recompose(&sk, &out, &ctx);
    let want = walk(&t, &f);
    check(t.eval(&f) == want, "plaintext evaluation");
    eq(got, want as u64, "private evaluation equals plaintext evaluation");
    reach("end");
}
/// a feature outside the ring is refused
fn feature_refused(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let v = u64s("v", 64) as usize;
    assume(v >= p.n);
    cfg(EXPECT_PANIC, 1);
    encrypt_feature_vector(&sk, &vec![0, v], &mut ctx);
    fail("a feature that the ring cannot represent was encrypted");
}
/// every level of every feature is the scaled monomial
fn features(p: P) {
    let mut ctx = exact(p);
    let sk = ctx.gen_rlwe_sk();
    let f = vec![choose(p.n), choose(p.n)];
    let r0 = repeat_count();
    let cts = encrypt_feature_vector(&sk, &f, &mut ctx);
    check(cts.len() == 2, "one vector per feature");
    let logn = p.n.trailing_zeros() as usize;
    for (c, v) in cts.iter().zip(&f) {
        check(c.len() == p.l, "one ciphertext per level");
        for (l, ct) in c.iter().enumerate() {
            let mut w = vec![0u64; p.n];
            w[*v] = 1 << (64 - p.b * (l + 1) - logn);
            phase_is(&sk, ct, &w, "level l of feature v is X^v / (B^l n)");
        }
    }
    check(repeat_count() == r0, "no random value is used twice");
    reach("end");
}
fn simulation(p: P, shapes: &[usize], labels: &[usize], nvec: usize, parallel: bool) {
    exact(p);
    *VERIF_DEFAULT.lock().unwrap() = Some(p.params());
    let s = shapes[choose(shapes.len())];
    let mut k = 0;
    let t = small_tree(s, labels, false, 1, &mut || {
        k += 1;
        (k * 3) % p.n
    });
    let f: Vec<Vec<usize>> = (0..nvec).map(|_| vec![choose(p.n)]).collect();
    let r = simulate(&t, &f, parallel);
    check(r.predictions.len() == nvec && r.input_count == nvec, "one prediction per input");
    for (x, v) in r.predictions.iter().zip(&f) {
        eq(*x, walk(&t, v) as u64, "the simulation returns the plaintext prediction");
    }
    check(r.poly_size.0 == p.n && r.base_log.0 == p.b && r.level_count.0 == p.l && r.ks_base_log.0 == p.kb && r.ks_level_count.0 == p.kl
        && r.negs_base_log.0 == p.nb && r.negs_level_count.0 == p.nl, "the report names the parameters used");
    reach("end");
}

entries! {
    fn tree_eval1() { eval_any(arbitrary(true, FeatKind::Symbolic(1), 64), 1, 2); }
    fn tree_eval2() { eval_any(arbitrary(true, FeatKind::Cycle(2), 64), 2, 2); }
    fn tree_eval2_sym() { eval_any(arbitrary(true, FeatKind::Symbolic(1), 64), 2, 2); }
    fn tree_eval3() { eval_any(arbitrary(false, FeatKind::Cycle(3), 64), 3, 3); }
    fn tree_eval3_none() { eval_any(arbitrary(true, FeatKind::Cycle(3), 64), 3, 3); }
    fn tree_eval_full3() { eval_full(arbitrary(false, FeatKind::Cycle(3), 64), 3, 3); }
    fn tree_trunc1() { trunc_any(arbitrary(true, FeatKind::Symbolic(1), 64), 1, 2); }
    fn tree_trunc2() { trunc_any(arbitrary(true, FeatKind::Cycle(2), 64), 2, 2); }
    fn tree_trunc3() { trunc_any(arbitrary(false, FeatKind::Cycle(2), 64), 3, 2); }
    fn tree_trunc_ops2() { trunc_ops(arbitrary(true, FeatKind::Cycle(3), 64), 2); }
    fn tree_measure2() { measure_any(arbitrary(true, FeatKind::Symbolic(4), 8), 2); }
    fn tree_measure3() { measure_any(arbitrary(true, FeatKind::Cycle(5), 8), 3); }
    fn tree_large_eval_l12() { large_eval('l', 12, &[1, 0, 3, 70000], 20); }
    fn tree_large_eval_r20() { large_eval('r', 20, &[0, 2, 3, 0], 300); }
    fn tree_large_eval_z9() { large_eval('z', 9, &[4, 0, 1], 9); }
    fn tree_large_eval_f5() { large_eval('f', 5, &[1, 0, 3, 0, 0, 9, 2], 31); }
    fn tree_large_eval_f6() { large_eval('f', 6, &[1, 0, 3, 0, 0, 9, 2], 63); }
    fn tree_large_eval_m5() { large_eval('m', 5, &[1, 0, 3, 0, 0, 9, 2], 40); }
    fn tree_large_trunc_l12() { large_trunc('l', 12, &[0, 0, 3], 20); }
    fn tree_large_trunc_r12() { large_trunc('r', 12, &[0], 20); }
    fn tree_large_trunc_z9() { large_trunc('z', 9, &[0, 1], 20); }
    fn tree_large_trunc_f5() { large_trunc('f', 5, &[0, 0, 0, 1, 0, 0, 0, 0, 2, 0, 0, 0, 0], 20); }
    fn tree_large_trunc_m6() { large_trunc('m', 6, &[0, 0, 0, 0, 0, 0, 5], 20); }
    fn tree_large_measure_l20() { large_measure('l', 20, &[1, 2], 50); }
    fn tree_large_measure_r20() { large_measure('r', 20, &[1, 2], 50); }
    fn tree_large_measure_z9() { large_measure('z', 9, &[1, 2], 9); }
    fn tree_large_measure_f7() { large_measure('f', 7, &[1, 0, 2], 1000); }
    fn tree_large_measure_f9() { large_measure('f', 9, &[1, 0, 2], 300); }
    fn tree_large_measure_m6() { large_measure('m', 6, &[1, 0, 2], 1000); }
    fn tree_generated() { generated(); }
    fn tree_enc1() { enc_eval(P2, &[0], &[0, 1, 2, 5], true); }
    fn tree_enc2() { enc_eval(P2, &[1, 2], &[0, 1, 6], true); }
    fn tree_enc3() { enc_eval(P2, &[3], &[0, 3], true); }
    fn tree_enc3b() { enc_eval(P4B, &[3], &[1, 2, 4], false); }
    fn tree_enc_wide() { enc_eval(P2, &[0], &[1, 255, 256, 1 << 20, (1 << 31) - 1, 1 << 32], false); }
    fn tree_enc_huge() { enc_eval(P2, &[0], &[1 << 48, 1 << 49, 1 << 53, (1 << 53) + 1, 1 << 62, usize::MAX], false); }
    fn tree_enc_l4() { enc_shaped(P2, 'l', 4, &[1, 6, 3, 0, 5]); }
    fn tree_enc_r4() { enc_shaped(P2, 'r', 4, &[1, 6, 3, 0, 5]); }
    fn tree_enc_z5() { enc_shaped(P2, 'z', 5, &[7, 2, 1, 4, 0, 9]); }
    fn tree_enc_f3() { enc_shaped(P2, 'f', 3, &[1, 6, 3, 0, 5, 2]); }
    fn tree_enc_m4() { enc_shaped(P2, 'm', 4, &[1, 6, 3, 0, 5, 2, 9]); }
    fn tree_enc_f4() { enc_shaped(P2, 'f', 4, &[1, 6, 3, 0, 5, 2, 8]); }
    fn tree_enc_f5() { enc_shaped(P2, 'f', 5, &[1, 6, 3, 0, 5, 2, 8]); }
    fn tree_enc_r8() { enc_shaped(P2, 'r', 8, &[1, 6, 3, 0, 5, 2, 8]); }
    fn tree_enc_r4_n4() { enc_shaped(P4B, 'r', 4, &[1, 6, 3, 0, 5]); }
    fn tree_enc_f3_n8() { enc_shaped(fixed(P4B, 8), 'f', 3, &[1, 6, 3, 0, 5, 2]); }
    fn tree_pdte_l3() { pdte_shaped(fixed(P4, 4), 'l', 3, &[1, 6, 3, 2], 2); }
    fn tree_pdte_r4() { pdte_shaped(fixed(P4, 4), 'r', 4, &[1, 6, 3, 0, 5], 1); }
    fn tree_pdte_f2() { pdte_shaped(P4, 'f', 2, &[1, 6, 3, 0], 2); }
    fn tree_pdte_f3_n4() { pdte_shaped(fixed(P4, 4), 'f', 3, &[1, 6, 3, 0, 5], 2); }
    fn tree_pdte_r4_n8() { pdte_shaped(fixed(P4, 8), 'r', 4, &[1, 6, 3, 0, 5], 1); }
    fn tree_pdte_m3_n8() { pdte_shaped(fixed(P4, 8), 'm', 3, &[1, 6, 3, 0, 5], 1); }
    fn tree_pdte_f3_n8() { pdte_shaped(fixed(P4, 8), 'f', 3, &[1, 6, 3, 0, 5], 1); }
    fn tree_enc_direct1() { enc_direct(P2, &[0, 1, 4], 0); }
    fn tree_enc_direct2() { enc_direct(P2, &[1, 6], 1); }
    fn tree_pdte_wide20() { pdte_wide(fixed(P4, 4), 'z', 3, &[1, 6, 3, 2], 20); }
    fn tree_pdte_wide300() { pdte_wide(P2, 'l', 2, &[1, 6, 3, 2], 300); }
    fn tree_simulate_many() { simulation_many(P2, 9, false); }
    fn tree_simulate_many_par() { cfg(SCHED, 1); simulation_many(P2, 9, true); }
    fn tree_pdte_gaps2() { pdte_gaps(fixed(P4, 4), 2, &[1, 6, 3, 4]); }
    fn tree_pdte_gaps3() { pdte_gaps(fixed(P2, 2), 3, &[1, 6, 3, 4, 2]); }
    fn tree_pdte_pd() { pdte(PD, &[0], &[1, 2], false, 1, true); }
    fn tree_pdte_pd8() { pdte_shaped(fixed(PD, 8), 'f', 2, &[1, 6, 3, 0, 5], 1); }
    fn tree_enc_pd() { enc_eval(PD, &[0], &[0, 1, 2, 5], true); }
    fn tree_enc_pd8() { let p = fixed(PD, 8); enc_eval(p, &[0], &[0, 1, 2, 5], true); }
    fn tree_features_pd() { features(PD); }
    fn tree_pdte1() { pdte(P2, &[0], &[0, 1, 2], true, 1, true); }
    fn tree_pdte1_n4() { pdte(P4, &[0], &[1, 2], false, 1, true); }
    fn tree_pdte2_n4() { pdte(P4, &[1, 2], &[1, 2], true, 2, false); }
    fn tree_pdte2() { pdte(P2, &[1, 2], &[0, 1, 3], true, 2, true); }
    fn tree_pdte3() { pdte(P2, &[3], &[1, 2], false, 2, true); }
    fn tree_pdte3_n4() { pdte(P4, &[3], &[1, 2], false, 2, false); }
    fn tree_features2() { features(P2); }
    fn tree_features4() { features(P4); }
    fn tree_features8() { let mut p = P4B; p.n = 8; features(p); }
    fn tree_pdte_n8() { pdte(fixed(P4, 8), &[0], &[1, 2], false, 1, true); }
    fn tree_pdte_n16() { pdte(fixed(P4, 16), &[0], &[1, 2], false, 1, true); }
    fn tree_pdte2_n8() { pdte(fixed(P4, 8), &[1, 2], &[1, 2], true, 1, false); }
    fn tree_pdte3_n8() { pdte(fixed(P4, 8), &[3], &[1, 6], false, 2, false); }
    fn tree_features16() { features(fixed(P4B, 16)); }
    fn tree_feature_refused() { feature_refused(P4); }
    fn tree_simulate_seq() { simulation(P2, &[0, 1], &[0, 1, 2], 1, false); }
    fn tree_simulate_seq2() { simulation(P2, &[2], &[1, 2], 2, false); }
    fn tree_simulate_par() { cfg(SCHED, 2); simulation(P2, &[0], &[1, 2], 2, true); }
    fn tree_simulate_par3() { cfg(SCHED, 3); simulation(P2, &[0], &[1], 3, true); }
    fn tree_simulate_n4() { simulation(P4, &[0, 3], &[1], 1, false); }
    fn tree_simulate_zero() { simulation(P2, &[0, 3], &[0], 1, false); }
}
