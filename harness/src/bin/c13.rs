//! C13: a curve tree commits to exactly its leaf set, in order.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use ctmon::cycles::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use relations::curve_tree::*;
use relations::curve_tree_prover::CurveTreeWitnessPath;

fn min_height(n: usize, l: usize) -> usize {
    let (mut h, mut cap) = (0, 1);
    while cap < n {
        cap *= l;
        h += 1;
    }
    h
}

struct Walk<'a, K: Cycle> {
    levels: &'a [Nodes<K>],
    l: usize,
    m: usize,
    leaves: usize,
    visited: usize,
    errors: Vec<String>,
}

macro_rules! walk_fn {
    ($name:ident, $other:ident, $P:ident, $Q:ident, $var:ident) => {
        fn $name<K: Cycle, const L: usize, const M: usize>(node: &CurveTreeNode<L, M, K::$P, K::$Q>, level: usize, pos: usize, w: &mut Walk<K>) {
            w.visited += 1;
            let want = match &w.levels[level] {
                Nodes::$var(v) => v.get(pos).cloned(),
                _ => None,
            };
            match want {
                None => w.errors.push(format!("a node at level {} position {} should not exist", level, pos)),
                Some(v) => {
                    for i in 0..w.m {
                        if node.commitment(i) != v[i] {
                            w.errors.push(format!("commitment {} of the node at level {} position {} is not the commitment to its children", i, level, pos));
                        }
                    }
                }
            }
            if node.height() != level {
                w.errors.push(format!("node at level {} says height {}", level, node.height()));
            }
            let span = w.l.pow(level as u32);
            let want_el = w.leaves.saturating_sub(pos * span).min(span);
            if node.elements() != want_el {
                w.errors.push(format!("node at level {} position {} has {} elements, says {}", level, pos, want_el, node.elements()));
            }
            match node {
                CurveTreeNode::Leaf(_) => {
                    if level != 0 {
                        w.errors.push(format!("a leaf at level {}", level));
                    }
                }
                CurveTreeNode::Branch { children, .. } => {
                    if level == 0 {
                        w.errors.push("a branch at level 0".into());
                        return;
                    }
                    for (j, ch) in children.iter().enumerate() {
                        let cp = pos * w.l + j;
                        let exists = cp < w.levels[level - 1].len();
                        match ch {
                            Some(n) if exists => $other::<K, L, M>(n, level - 1, cp, w),
                            None if !exists => {}
                            _ => w.errors.push(format!("child {} of the node at level {} position {}: present {} but should be {}", j, level, pos, ch.is_some(), exists)),
                        }
                    }
                    // the local index of every element below
                    for k in 0..want_el {
                        let idx = pos * span + k;
                        let ci = node.child_index(idx);
                        if ci != k / (span / w.l) {
                            w.errors.push(format!("index {} goes to child {} of the node at level {} position {}", idx, ci, level, pos));
                        }
                    }
                }
            }
        }
    };
}
walk_fn!(walk_even, walk_odd, P0, P1, Even);
walk_fn!(walk_odd, walk_even, P1, P0, Odd);

fn compare<K: Cycle, const L: usize, const M: usize>(c: &mut Case, t: &Tree<K, L, M>, levels: &[Nodes<K>], leaves: usize, what: &str) {
    let mut w = Walk { levels, l: L, m: M, leaves, visited: 0, errors: vec![] };
    c.check(t.height() == levels.len() - 1, || format!("{}: height {} instead of {}", what, t.height(), levels.len() - 1));
    if t.height() != levels.len() - 1 {
        return;
    }
    match t {
        CurveTree::Even(n) => {
            c.check(t.height() % 2 == 0, || format!("{}: an even root at odd height", what));
            walk_even::<K, L, M>(n, t.height(), 0, &mut w)
        }
        CurveTree::Odd(n) => {
            c.check(t.height() % 2 == 1, || format!("{}: an odd root at even height", what));
            walk_odd::<K, L, M>(n, t.height(), 0, &mut w)
        }
    }
    let total: usize = levels.iter().map(|n| n.len()).sum();
    c.check(w.visited == total, || format!("{}: {} nodes instead of {}", what, w.visited, total));
    let e = w.errors.first().cloned();
    c.check(e.is_none(), || format!("{}: {}", what, e.unwrap()));
    c.count("tree nodes compared with their definition", w.visited as u64 * M as u64);
}

/// The root recomputed from a witness path, as a verifier of a plain Merkle path would.
fn witness_path<K: Cycle, const L: usize>(c: &mut Case, w: &CurveTreeWitnessPath<L, K::P0, K::P1>, levels: &[Nodes<K>], p: &Params<K>, set: usize, index: usize, what: &str) {
    let h = levels.len() - 1;
    c.check(w.even_internal_nodes.len() + w.odd_internal_nodes.len() == h, || format!("{}: witness path of wrong length", what));
    let ge: Vec<_> = p.even_parameters.bp_gens.share(0).G(L * (set + 1)).copied().skip(L * set).collect();
    let go: Vec<_> = p.odd_parameters.bp_gens.share(0).G(L * (set + 1)).copied().skip(L * set).collect();
    let (mut e, mut o) = (w.even_internal_nodes.iter().rev(), w.odd_internal_nodes.iter().rev());
    for level in 1..=h {
        let pos = index / L.pow(level as u32);
        let childpos = index / L.pow(level as u32 - 1);
        if level % 2 == 1 {
            let n = match o.next() {
                Some(n) => n,
                None => return c.fail(format!("{}: no odd node for level {}", what, level)),
            };
            let (child, parent) = match (&levels[level - 1], &levels[level]) {
                (Nodes::Even(a), Nodes::Odd(b)) => (a[childpos][set], b[pos][set]),
                _ => unreachable!(),
            };
            c.check(n.child_witness == child, || format!("{}: the witness of level {} is not the node on the path", what, level));
            c.check(naive_msm::<K::P1>(&go, &n.siblings).into_affine() == parent, || format!("{}: the siblings of level {} do not commit to the parent", what, level));
            c.check(n.siblings[childpos % L] == (child + p.even_parameters.delta).into_affine().x, || format!("{}: the child of level {} is not at its place among the siblings", what, level));
        } else {
            let n = match e.next() {
                Some(n) => n,
                None => return c.fail(format!("{}: no even node for level {}", what, level)),
            };
            let (child, parent) = match (&levels[level - 1], &levels[level]) {
                (Nodes::Odd(a), Nodes::Even(b)) => (a[childpos][set], b[pos][set]),
                _ => unreachable!(),
            };
            c.check(n.child_witness == child, || format!("{}: the witness of level {} is not the node on the path", what, level));
            c.check(naive_msm::<K::P0>(&ge, &n.siblings).into_affine() == parent, || format!("{}: the siblings of level {} do not commit to the parent", what, level));
            c.check(n.siblings[childpos % L] == (child + p.odd_parameters.delta).into_affine().x, || format!("{}: the child of level {} is not at its place among the siblings", what, level));
        }
    }
    c.count("witness paths recomputed to the root", 1);
}

fn shape<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize) {
    let p = params::<K>(256);
    let set = leaves::<K, _>(n, p, &mut c.rng);
    let min = min_height(n, L);
    let req = match c.below(4) {
        0 => None,
        1 => Some(c.below(min + 1)),
        _ => Some(min + c.below(3)),
    };
    let what = format!("{} L={} M={} n={} height={:?}", K::P0::NAME, L, M, n, req);
    c.describe(what.clone());
    c.distinct(&what);
    let t = Tree::<K, L, M>::from_set(&set, p, req);
    c.check(t.height() == min.max(req.unwrap_or(0)), || format!("height {} for {} leaves, requested {:?}", t.height(), n, req));
    let levels = ref_tree::<K>(&set, p, L, M, req.map(|r| r.max(min)).or(Some(min)));
    compare::<K, L, M>(c, &t, &levels, n, "from_set");
    let i = c.below(n);
    let setno = c.below(M);
    if t.height() > 0 {
        let w = t.select_and_rerandomize_prover_witness(i, setno, p);
        witness_path::<K, L>(c, &w, &levels, p, setno, i, "witness");
        // positions that hold no leaf cannot be shown
        let cap = L.pow(t.height() as u32);
        if n < cap {
            let j = n + c.below(cap - n);
            let r = guard(|| t.select_and_rerandomize_prover_witness(j, 0, p).even_internal_nodes.len());
            c.check(r.is_err(), || format!("a witness for the empty position {} of {} leaves", j, n));
        }
    }
    // increasing the height is the same as building with that height
    let h2 = t.height() + c.below(3);
    let root = root_bytes::<K, L, M>(&t);
    let up = Tree::<K, L, M>::from_set(&set, p, req).increase_height(Some(h2), p);
    let levels2 = ref_tree::<K>(&set, p, L, M, Some(h2));
    compare::<K, L, M>(c, &up, &levels2, n, "increase_height");
    let direct = Tree::<K, L, M>::from_set(&set, p, Some(h2));
    c.check(root_bytes::<K, L, M>(&direct) == root_bytes::<K, L, M>(&up), || "increased and directly built trees differ".into());
    let same = Tree::<K, L, M>::from_set(&set, p, req).increase_height(None, p);
    c.check(root_bytes::<K, L, M>(&same) == root, || "increase_height(None) changed the root".into());
    let lower = Tree::<K, L, M>::from_set(&set, p, req).increase_height(Some(t.height().saturating_sub(1)), p);
    c.check(root_bytes::<K, L, M>(&lower) == root && lower.height() == t.height(), || "increase_height to a lower height changed the tree".into());
    c.check(root_bytes::<K, L, M>(&Tree::<K, L, M>::from_set(&set, p, req)) == root, || "a second build gives another root".into());
    // every leaf and its position count
    let mut others: Vec<(String, Vec<Leaf<K>>)> = vec![];
    let j = c.below(n);
    let mut s = set.clone();
    s[j] = rand_point::<K::P0, _>(&mut c.rng);
    others.push((format!("leaf {} replaced", j), s));
    let mut s = set.clone();
    s[j] = (s[j] + Leaf::<K>::generator()).into_affine();
    others.push((format!("leaf {} shifted", j), s));
    let (a, b) = (c.below(n), c.below(n));
    let mut s = set.clone();
    s.swap(a, b);
    others.push((format!("leaves {} and {} exchanged", a, b), s));
    let mut s = set.clone();
    s.push(rand_point::<K::P0, _>(&mut c.rng));
    others.push(("a leaf added".into(), s));
    let mut s = set.clone();
    s.push(Leaf::<K>::zero());
    others.push(("an identity leaf added".into(), s));
    if n > 1 {
        let mut s = set.clone();
        s.remove(j);
        others.push((format!("leaf {} removed", j), s));
        let mut s = set.clone();
        s.rotate_left(1);
        others.push(("leaves rotated".into(), s));
    }
    for (name, s) in others {
        if s == set {
            continue;
        }
        let o = Tree::<K, L, M>::from_set(&s, p, Some(t.height()));
        let r2 = root_bytes::<K, L, M>(&o);
        c.check(r2 != root, || format!("the root does not depend on this: {}", name));
        for i in 0..M {
            let k = root.len() / M;
            if r2.len() == root.len() {
                c.check(r2[i * k..(i + 1) * k] != root[i * k..(i + 1) * k], || format!("root commitment {} does not depend on this: {}", i, name));
            }
        }
        c.count("changed leaf sets", 1);
    }
    if M > 1 {
        let k = root.len() / M;
        for i in 1..M {
            if t.height() > 0 {
                c.check(root[..k] != root[i * k..(i + 1) * k], || "two generator sets give the same root commitment".into());
            }
        }
    }
    c.sample(|| what);
}

/// Sets of hundreds to tens of thousands of leaves: the paths of some leaves, from the leaf set to the root.
fn wide<K: Cycle, const L: usize>(c: &mut Case, n: usize, req: Option<usize>) {
    let p = params::<K>(1 << 10);
    let set = leaves::<K, _>(n, p, &mut c.rng);
    let t = Tree::<K, L, 1>::from_set(&set, p, req);
    let what = format!("{} L={} n={} height={}", K::P0::NAME, L, n, t.height());
    c.describe(what.clone());
    c.distinct(&what);
    let h = min_height(n, L).max(req.unwrap_or(0));
    c.check(t.height() == h, || format!("height {} instead of {}", t.height(), h));
    c.check(match &t { CurveTree::Even(x) => x.elements(), CurveTree::Odd(x) => x.elements() } == n, || "the tree counts another number of leaves".into());
    let ge: Vec<_> = p.even_parameters.bp_gens.share(0).G(L).copied().collect();
    let go: Vec<_> = p.odd_parameters.bp_gens.share(0).G(L).copied().collect();
    let mut idx: Vec<usize> = vec![0, n - 1, n / 2];
    idx.extend([254, 255, 256, 257, 4095, 4096, 65534, 65535, 65536, 65537].iter().filter(|i| **i < n));
    for _ in 0..3 {
        idx.push(c.below(n));
    }
    let x0 = |l: &Leaf<K>| (*l + p.even_parameters.delta).into_affine().x;
    for i in idx {
        let w = t.select_and_rerandomize_prover_witness(i, 0, p);
        c.check(w.odd_internal_nodes.len() == (h + 1) / 2 && w.even_internal_nodes.len() == h / 2, || format!("leaf {}: witness path of wrong length", i));
        if w.odd_internal_nodes.len() != (h + 1) / 2 || w.even_internal_nodes.len() != h / 2 {
            return;
        }
        let (mut o, mut e) = (w.odd_internal_nodes.iter().rev(), w.even_internal_nodes.iter().rev());
        let nd = o.next().unwrap();
        c.check(nd.child_witness == set[i], || format!("leaf {}: the path ends in another leaf", i));
        for k in 0..L {
            let q = i / L * L + k;
            let want = if q < n { x0(&set[q]) } else { K::F1::zero() };
            c.check(nd.siblings[k] == want, || format!("leaf {}: place {} of its node does not hold leaf {}", i, k, q));
        }
        let mut below = naive_msm::<K::P1>(&go, &nd.siblings).into_affine();
        let mut pos = i / L;
        let mut root = point_bytes(&below);
        for level in 2..=h {
            if level % 2 == 0 {
                let nd = e.next().unwrap();
                c.check(nd.child_witness == below, || format!("leaf {}: the witness of level {} is not the node below", i, level));
                c.check(nd.siblings[pos % L] == (below + p.odd_parameters.delta).into_affine().x, || format!("leaf {}: the node below level {} is not at its place", i, level));
                let up = naive_msm::<K::P0>(&ge, &nd.siblings).into_affine();
                root = point_bytes(&up);
                if level < h {
                    let nd = o.next().unwrap();
                    pos /= L;
                    c.check(nd.child_witness == up, || format!("leaf {}: the witness of level {} is not the node below", i, level + 1));
                    c.check(nd.siblings[pos % L] == x0(&up), || format!("leaf {}: the node below level {} is not at its place", i, level + 1));
                    below = naive_msm::<K::P1>(&go, &nd.siblings).into_affine();
                    root = point_bytes(&below);
                    pos /= L;
                }
            }
        }
        c.check(root == root_bytes::<K, L, 1>(&t), || format!("leaf {}: its path does not lead to the root", i));
        c.count("witness paths recomputed to the root", 1);
        c.distinct(&format!("{} path {}", what, i));
    }
    c.sample(|| what);
}

fn wides<K: Cycle>(c: &mut Case) {
    match c.idx / 4 % 5 {
        0 => {
            let n = 65530 + c.below(20);
            wide::<K, 256>(c, n, None)
        }
        1 => {
            let n = 257 + c.below(800);
            wide::<K, 2>(c, n, None)
        }
        2 => {
            let n = 4090 + c.below(12);
            wide::<K, 16>(c, n, None)
        }
        3 => {
            let n = 260 + c.below(300);
            wide::<K, 256>(c, n, Some(3))
        }
        _ => {
            let n = 257 + c.below(800);
            wide::<K, 4>(c, n, Some(6))
        }
    }
}

fn by_shape<K: Cycle>(c: &mut Case) {
    // sets around the powers of the branching factor
    match c.below(10) {
        0 => {
            let n = 1 + c.below(18);
            shape::<K, 2, 1>(c, n)
        }
        1 => {
            let n = 1 + c.below(29);
            shape::<K, 3, 1>(c, n)
        }
        2 => {
            let n = 1 + c.below(20);
            shape::<K, 4, 1>(c, n)
        }
        3 => {
            let n = [1, 7, 8, 9, 15, 16, 17, 63, 64, 65][c.below(10)];
            shape::<K, 8, 1>(c, n)
        }
        4 => {
            let n = [1, 31, 32, 33, 40, 64, 65][c.below(7)];
            shape::<K, 32, 1>(c, n)
        }
        5 => {
            let n = 1 + c.below(12);
            shape::<K, 2, 2>(c, n)
        }
        6 => {
            let n = 1 + c.below(12);
            shape::<K, 3, 3>(c, n)
        }
        7 => {
            let n = 1 + c.below(20);
            shape::<K, 4, 4>(c, n)
        }
        8 if c.below(12) == 0 => {
            let n = [1, 256, 257, 300, 513][c.below(5)];
            shape::<K, 256, 1>(c, n)
        }
        _ => {
            let n = [1, 4, 5, 6, 24, 25, 26][c.below(7)];
            shape::<K, 5, 2>(c, n)
        }
    }
}

/// x = 0, which stands for an empty place, is on neither curve, for the shipped parameters.
fn padding<K: Cycle>(c: &mut Case) {
    c.check(K::P0::COEFF_B.legendre().is_qnr(), || format!("{}: x=0 is on the curve", K::P0::NAME));
    c.check(K::P1::COEFF_B.legendre().is_qnr(), || format!("{}: x=0 is on the curve", K::P1::NAME));
    let p = params::<K>(256);
    c.check(p.even_parameters.coeff_a == K::P0::COEFF_A && p.even_parameters.coeff_b == K::P0::COEFF_B, || "even parameters carry other curve coefficients".into());
    c.check(p.odd_parameters.coeff_a == K::P1::COEFF_A && p.odd_parameters.coeff_b == K::P1::COEFF_B, || "odd parameters carry other curve coefficients".into());
    c.check(p.even_parameters.delta == ctmon::refver::ref_tai::<K::P0>(b"curve_trees_delta"), || "the shift is not the one of its label".into());
    c.check(p.odd_parameters.delta == ctmon::refver::ref_tai::<K::P1>(b"curve_trees_delta"), || "the shift is not the one of its label".into());
    // x_coordinates: one entry per place, zero exactly for the empty ones
    for _ in 0..4 {
        let mut ch: [Option<CurveTreeNode<6, 1, K::P1, K::P0>>; 6] = Default::default();
        for i in 0..6 {
            if c.coin() {
                let pt = rand_point::<K::P1, _>(&mut c.rng);
                ch[i] = Some(CurveTreeNode::Leaf(pt));
            }
        }
        let got = x_coordinates::<6, 1, K::P0, K::P1>(&ch, &p.odd_parameters.delta, 0);
        for i in 0..6 {
            let w = match &ch[i] {
                None => K::F0::zero(),
                Some(n) => (n.commitment(0) + p.odd_parameters.delta).into_affine().x,
            };
            c.check(got[i] == w, || format!("x coordinate {} of the children is wrong", i));
        }
    }
    let empty = guard(|| Tree::<K, 4, 1>::from_set(&[], p, None).height());
    c.check(empty.is_err(), || "a tree without leaves was built".into());
    c.distinct(&format!("padding {}", c.idx));
}

fn main() {
    let mut r = Report::new(
        "C13",
        "a case is one (curve cycle, branching factor, sets, number of leaves, requested height) shape with random, repeated, negated, identity and coin-like leaves; every node is compared with an independent definition",
    );
    r.assume("the generators are the ones C10 checks; the reference multiplies by double-and-add");
    r.require("tree nodes compared with their definition", 1000);
    r.require("witness paths recomputed to the root", 40);
    r.require("changed leaf sets", 200);
    r.stage("padding", 4, 16, |c| {
        match c.idx % 4 {
            0 => padding::<PV>(c),
            1 => padding::<VP>(c),
            2 => padding::<SQ>(c),
            _ => padding::<QS>(c),
        }
    });
    r.stage("wide", 20, 200, |c| match c.idx % 4 {
        0 => wides::<PV>(c),
        1 => wides::<VP>(c),
        2 => wides::<SQ>(c),
        _ => wides::<QS>(c),
    });
    r.stage("shapes", 1200, 40000, |c| match c.idx % 4 {
        0 => by_shape::<PV>(c),
        1 => by_shape::<VP>(c),
        2 => by_shape::<SQ>(c),
        _ => by_shape::<QS>(c),
    });
    r.finish();
}
