//! C16: batched membership proves each of its members and nothing else.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use bulletproofs::r1cs::*;
use bulletproofs::PedersenGens;
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use merlin::Transcript;
use rand::Rng;
use relations::batched_curve_tree_prover::*;
use relations::curve_tree::CurveTree;
use relations::curve_tree_prover::CurveTreeWitness;
use relations::single_level_select_and_rerandomize::*;

const GENS: usize = 1 << 13;

fn pick<const M: usize>(c: &mut Case, n: usize) -> [usize; M] {
    let style = c.below(3);
    let one = c.below(n);
    let mut v = [0; M];
    for (k, x) in v.iter_mut().enumerate() {
        *x = match style {
            0 => one,
            1 => (one + k) % n,
            _ => c.below(n),
        };
    }
    v
}

fn honest<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(if M > 4 { 1 << 14 } else { GENS });
    let set = leaves::<K, _>(n, p, &mut c.rng);
    let t = Tree::<K, L, M>::from_set(&set, p, height);
    let idx = pick::<M>(c, n);
    let what = format!("{} L={} M={} n={} height={} leaves={:?}", K::P0::NAME, L, M, n, t.height(), idx);
    c.describe(what.clone());
    c.distinct(&what);
    let mut rng = c.sub_rng();
    let s = show_multi::<K, L, M, _>(&t, idx, p, &mut rng);
    let mut want = vec![];
    for k in 0..M {
        want.push(rerandomized::<K::P0>(&set[idx[k]], &s.scalars[k], &p.even_parameters));
    }
    c.check(s.path.get_rerandomized_leaves().to_vec() == want, || "a shown commitment is not leaf + its randomness * blinding base".into());
    match verify_multi::<K, L, M>(&t, &s.path, &s.even, &s.odd, p) {
        Ok(l) => {
            c.check(l.to_vec() == want, || "the verifier obtained other commitments".into());
        }
        Err(e) => c.fail(format!("an honest batched membership proof was rejected: {}", e)),
    }
    if let Err(e) = completion_multi::<K, L, M>(&t, &s.path) {
        c.fail(e);
    }
    for a in 0..M {
        for b in 0..a {
            c.check(s.scalars[a] != s.scalars[b], || "two members share their randomness".into());
            c.check(want[a] != want[b], || "two members share their shown commitment".into());
        }
    }
    let mut b = vec![];
    s.path.serialize_compressed(&mut b).unwrap();
    c.check(b.len() == s.path.compressed_size(), || "the encoded multi path has another size than announced".into());
    c.count("batched proofs verified", 1);
    c.count("members shown", M as u64);
    c.sample(|| what);
}

fn rejected<K: Cycle, const L: usize, const M: usize>(c: &mut Case, t: &Tree<K, L, M>, path: &MultiPath<K, L, M>, even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>, what: &str) {
    let r = verify_multi::<K, L, M>(t, path, even, odd, p);
    c.check(r.is_err(), || format!("accepted: {}", what));
    c.count("false batched claims verified", 1);
    c.distinct(&format!("{} {}", c.idx, what));
}

fn eq<K: Cycle, const L: usize, const M: usize>(a: &MultiPath<K, L, M>, b: &MultiPath<K, L, M>) -> bool {
    a.selected_commitments == b.selected_commitments && a.odd_commitments == b.odd_commitments && a.even_commitments == b.even_commitments
}

fn mutations<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set: Vec<Leaf<K>> = (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect();
    let t = Tree::<K, L, M>::from_set(&set, p, height);
    let idx = pick::<M>(c, n);
    c.describe(format!("{} L={} M={} n={} height={} leaves={:?}", K::P0::NAME, L, M, n, t.height(), idx));
    let mut rng = c.sub_rng();
    let s = show_multi::<K, L, M, _>(&t, idx, p, &mut rng);
    let s2 = show_multi::<K, L, M, _>(&t, idx, p, &mut rng);
    let r = verify_multi::<K, L, M>(&t, &s.path, &s.even, &s.odd, p);
    c.check(r.is_ok(), || "the honest showing was rejected".into());
    let bb = p.even_parameters.pc_gens.B_blinding;
    let mut paths: Vec<(String, MultiPath<K, L, M>)> = vec![];
    for k in 0..M {
        let mut q = s.path.clone();
        q.selected_commitments[k] = s2.path.selected_commitments[k];
        paths.push((format!("commitment {} of another showing", k), q));
        let mut q = s.path.clone();
        q.selected_commitments[k] = (q.selected_commitments[k] + bb).into_affine();
        paths.push((format!("commitment {} rerandomized again", k), q));
        let mut q = s.path.clone();
        q.selected_commitments[k] = rand_point::<K::P0, _>(&mut c.rng);
        paths.push((format!("commitment {} random", k), q));
        let mut q = s.path.clone();
        q.selected_commitments[k] = -q.selected_commitments[k];
        paths.push((format!("commitment {} negated", k), q));
        // the sum of all stays
        if M > 1 {
            let d = rand_point::<K::P0, _>(&mut c.rng);
            let o = (k + 1) % M;
            let mut q = s.path.clone();
            q.selected_commitments[k] = (q.selected_commitments[k] + d).into_affine();
            q.selected_commitments[o] = (q.selected_commitments[o] - d).into_affine();
            paths.push((format!("commitments {} and {} shifted against each other", k, o), q));
            let mut q = s.path.clone();
            q.selected_commitments.swap(k, o);
            paths.push((format!("commitments {} and {} exchanged", k, o), q));
            let mut q = s.path.clone();
            q.selected_commitments[k] = q.selected_commitments[o];
            paths.push((format!("commitment {} repeated as {}", o, k), q));
        }
    }
    for k in 0..s.path.odd_commitments.len() {
        let mut q = s.path.clone();
        q.odd_commitments[k] = (q.odd_commitments[k] + p.odd_parameters.pc_gens.B_blinding).into_affine();
        paths.push((format!("odd element {} rerandomized", k), q));
        let mut q = s.path.clone();
        q.odd_commitments[k] = s2.path.odd_commitments[k];
        paths.push((format!("odd element {} of another showing", k), q));
    }
    for k in 0..s.path.even_commitments.len() {
        let mut q = s.path.clone();
        q.even_commitments[k] = (q.even_commitments[k] + bb).into_affine();
        paths.push((format!("even element {} rerandomized", k), q));
        let mut q = s.path.clone();
        q.even_commitments[k] = q.selected_commitments[0];
        paths.push((format!("even element {} a selected commitment", k), q));
    }
    for k in 0..5 {
        let mut q = s.path.clone();
        match k {
            0 => {
                q.even_commitments.pop();
                q.odd_commitments.pop();
            }
            1 => {
                q.even_commitments.push(q.selected_commitments[0]);
                q.odd_commitments.push(rand_point::<K::P1, _>(&mut c.rng));
            }
            2 => {
                q.odd_commitments.pop();
            }
            3 => q.even_commitments.push(q.selected_commitments[0]),
            _ => {
                q.even_commitments.clear();
                q.odd_commitments.clear();
            }
        }
        paths.push((format!("path shape changed ({})", k), q));
    }
    for (name, q) in paths {
        if eq::<K, L, M>(&q, &s.path) {
            continue;
        }
        rejected::<K, L, M>(c, &t, &q, &s.even, &s.odd, p, &name);
    }
    let i = idx[c.below(M)];
    let mut o = set.clone();
    o[i] = rand_point::<K::P0, _>(&mut c.rng);
    let t2 = Tree::<K, L, M>::from_set(&o, p, Some(t.height()));
    rejected::<K, L, M>(c, &t2, &s.path, &s.even, &s.odd, p, "a tree without one of the leaves");
    let t3 = Tree::<K, L, M>::from_set(&set, p, Some(t.height() + 1));
    rejected::<K, L, M>(c, &t3, &s.path, &s.even, &s.odd, p, "the tree with one more level");
    let t3 = Tree::<K, L, M>::from_set(&set, p, Some(t.height() + 2));
    rejected::<K, L, M>(c, &t3, &s.path, &s.even, &s.odd, p, "the tree with two more levels");
    if t.height() > 1 {
        rejected::<K, L, M>(c, &t, &s.path, &s2.even, &s.odd, p, "the even proof of another showing");
    }
    rejected::<K, L, M>(c, &t, &s.path, &s.even, &s2.odd, p, "the odd proof of another showing");
}

/// Provers that lie about one or more members, with the library's own proving code.
fn liars<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set: Vec<Leaf<K>> = (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect();
    let t = Tree::<K, L, M>::from_set(&set, p, height);
    let h = t.height();
    let idx = pick::<M>(c, n);
    c.describe(format!("{} L={} M={} n={} height={} leaves={:?}", K::P0::NAME, L, M, n, h, idx));
    let mut rng = c.sub_rng();
    let w = t.select_and_rerandomize_prover_multi_witness(idx, p);
    let xe = |q: Leaf<K>| (q + p.even_parameters.delta).into_affine().x;
    type W<K, const L: usize, const M: usize> = CurveTreeWitnessMultiPath<L, M, <K as Cycle>::P0, <K as Cycle>::P1>;
    let mut lies: Vec<(String, W<K, L, M>)> = vec![];
    let d = rand_point::<K::P0, _>(&mut c.rng);
    let last = w.odd_internal_nodes.len() - 1;
    let k = c.below(M);
    let mut v = w.clone();
    v.odd_internal_nodes[last][k].child_witness = d;
    lies.push((format!("member {} foreign", k), v));
    let mut v = w.clone();
    v.odd_internal_nodes[last][k].child_witness = d;
    let s = c.below(L);
    v.odd_internal_nodes[last][k].siblings[s] = xe(d);
    lies.push((format!("member {} foreign among forged siblings", k), v));
    if M > 1 {
        let o = (k + 1) % M;
        let mut v = w.clone();
        let a = v.odd_internal_nodes[last][k].child_witness;
        let b = v.odd_internal_nodes[last][o].child_witness;
        v.odd_internal_nodes[last][k].child_witness = (a + d).into_affine();
        v.odd_internal_nodes[last][o].child_witness = (b - d).into_affine();
        lies.push((format!("members {} and {} wrong with the right sum", k, o), v));
        if a != b {
            // member k's parent holds a but the other's holds b
            let mut v = w.clone();
            v.odd_internal_nodes[last][k].child_witness = b;
            v.odd_internal_nodes[last][o].child_witness = a;
            let in_k = v.odd_internal_nodes[last][k].siblings.contains(&xe(b));
            let in_o = v.odd_internal_nodes[last][o].siblings.contains(&xe(a));
            if !(in_k && in_o) {
                lies.push((format!("members {} and {} of each other's parents", k, o), v));
            }
        }
        // inner levels: the sum of the children is right, the children are not
        if h > 1 {
            let e = w.even_internal_nodes.len();
            let lv = c.below(e);
            let mut v = w.clone();
            let g = rand_point::<K::P1, _>(&mut c.rng);
            let a = v.even_internal_nodes[lv][k].child_witness;
            let b = v.even_internal_nodes[lv][o].child_witness;
            v.even_internal_nodes[lv][k].child_witness = (a + g).into_affine();
            v.even_internal_nodes[lv][o].child_witness = (b - g).into_affine();
            lies.push((format!("even level {}: children {} and {} wrong with the right sum", lv, k, o), v));
            let mut v = w.clone();
            v.even_internal_nodes[lv][k].child_witness = b;
            v.even_internal_nodes[lv][o].child_witness = a;
            lies.push((format!("even level {}: children {} and {} exchanged between the sets", lv, k, o), v));
        }
        if h > 2 {
            let lv = c.below(last);
            let mut v = w.clone();
            let a = v.odd_internal_nodes[lv][k].child_witness;
            let b = v.odd_internal_nodes[lv][o].child_witness;
            v.odd_internal_nodes[lv][k].child_witness = (a + d).into_affine();
            v.odd_internal_nodes[lv][o].child_witness = (b - d).into_affine();
            lies.push((format!("odd level {}: children {} and {} wrong with the right sum", lv, k, o), v));
        }
    }
    // siblings that are not those of the parent
    let mut v = w.clone();
    let s = c.below(L);
    v.odd_internal_nodes[last][k].siblings[s] += K::F1::from(1u64);
    lies.push((format!("sibling {} of member {} changed", s, k), v));
    // shorter by two levels: inner nodes in place of the leaves
    let mut hh = h;
    while hh > 2 {
        hh -= 2;
        let mut v = w.clone();
        v.even_internal_nodes.truncate(hh / 2);
        v.odd_internal_nodes.truncate((hh + 1) / 2);
        lies.push((format!("inner nodes of height {} in place of the leaves", h - hh), v));
    }
    let part = c.below(2);
    for (i, (name, v)) in lies.into_iter().enumerate() {
        if i % 2 != part {
            continue;
        }
        match guard(|| show_multi_witness::<K, L, M, _>(&v, p, &mut rng.clone())) {
            Ok(s) => rejected::<K, L, M>(c, &t, &s.path, &s.even, &s.odd, p, &name),
            Err(_) => c.count("lies the prover's code refused", 1),
        }
    }
    let _ = rng.gen::<u8>();
}

/// The constraints of one batched level with freely chosen witnesses.
fn free_witness<F0: PrimeField, F1: PrimeField, P: Curve + Copy + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + Copy + SWCurveConfig<BaseField = F0, ScalarField = F1>, const M: usize>(c: &mut Case, child: &SingleLayerParameters<Q>) {
    let pc = PedersenGens::<Aff<P>>::default();
    let l = 2 + c.below(3);
    let kids: Vec<Vec<Aff<Q>>> = (0..M).map(|_| (0..l).map(|_| rand_point::<Q, _>(&mut c.rng)).collect()).collect();
    let xs: Vec<F0> = kids.iter().flatten().map(|k| (*k + child.delta).into_affine().x).collect();
    let rec_of = |ch: &[Aff<Q>; M], out: Aff<Q>, r: F1, xs: &[F0]| -> Rec<'_, P> {
        let mut rec = Rec::<P>::new(&pc);
        let lc: Vec<LinearCombination<F0>> = xs.iter().map(|x| constant(*x)).collect();
        let sh = ch.map(|k| (k + child.delta).into_affine());
        single_level_batched_select_and_rerandomize(&mut rec, child, &out, lc, Some(&sh), Some(r));
        rec
    };
    let mut right = [Aff::<Q>::zero(); M];
    for k in 0..M {
        right[k] = kids[k][c.below(l)];
    }
    let r = F1::rand(&mut c.rng);
    let sum = |v: &[Aff<Q>; M]| v.iter().fold(Proj::<Q>::zero(), |a, b| a + b).into_affine();
    let out = rerandomized::<Q>(&sum(&right), &r, child);
    let good = rec_of(&right, out, r, &xs);
    c.check(good.satisfied(), || format!("{}: the honest batched level of {} is not satisfied", Q::NAME, M));
    c.count("honest batched levels evaluated", 1);
    let (_, ga) = good.system();
    let d = rand_point::<Q, _>(&mut c.rng);
    let k = c.below(M);
    let o = (k + 1) % M;
    let mut lies: Vec<(String, [Aff<Q>; M], Aff<Q>)> = vec![];
    let mut v = right;
    v[k] = d;
    lies.push((format!("child {} of {} foreign", k, M), v, rerandomized::<Q>(&sum(&v), &r, child)));
    lies.push((format!("the honest children of {} with another sum shown", M), right, rerandomized::<Q>(&d, &r, child)));
    if M > 1 {
        let mut v = right;
        v[k] = (v[k] + d).into_affine();
        v[o] = (v[o] - d).into_affine();
        lies.push((format!("two children of {} wrong with the right sum", M), v, out));
        let mut v = right;
        v.swap(k, o);
        lies.push((format!("children of {} exchanged between their parents", M), v, out));
        let mut v = right;
        v[k] = v[o];
        lies.push((format!("one child twice among {}", M), v, rerandomized::<Q>(&sum(&v), &r, child)));
    }
    // every member in turn: foreign, or taken from each of the other members' parents
    for k in 0..M {
        for o in 0..M {
            let mut v = right;
            v[k] = if o == k { d } else { kids[o][c.below(l)] };
            let shown = rerandomized::<Q>(&sum(&v), &r, child);
            if let Ok(rec) = guard(|| rec_of(&v, shown, r, &xs)) {
                c.check(!rec.satisfied(), || format!("{}: the constraints of a batched level of {} hold with child {} {}", Q::NAME, M, k, if o == k { "foreign".into() } else { format!("of the parent of member {}", o) }));
                c.count("members lied about one by one", 1);
            }
        }
    }
    for (name, v, out2) in lies {
        if v == right && out2 == out {
            continue;
        }
        let rec = match guard(|| rec_of(&v, out2, r, &xs)) {
            Ok(r) => r,
            Err(_) => {
                c.count("lies the prover's code refused", 1);
                continue;
            }
        };
        c.check(!rec.satisfied(), || format!("{}: the constraints of a batched level hold for {}", Q::NAME, name));
        // statements with an honest witness may be repaired to it
        let (sys, a) = rec.system();
        let honest_exists = out2 == out;
        for radius in 0..4 {
            let mut rng = c.sub_rng();
            let hint = if honest_exists { &a } else { &ga };
            let f = sys.repair(&a, hint, radius, &mut rng);
            // a repair counts only if the sum of choices is not an honest one: a true statement can
            // be satisfied by the honest assignment, which needs every variable of the addition
            // chain; local repairs of the lie keep the foreign points
            let found = match &f {
                Completion::Found(b) => !honest_exists || b[..] != ga[..],
                _ => false,
            };
            c.check(!found, || format!("{}: a batched level can be satisfied for {} by choosing the variables near the violated constraints (radius {})", Q::NAME, name, radius));
            c.count("repairs of a false batched level tried", 1);
        }
        if a.len() == ga.len() && !honest_exists {
            for _ in 0..8 {
                let cut = c.below(sys.n + 1) * 3;
                for flip in [false, true] {
                    let s: Vec<F0> = (0..a.len()).map(|x| if (x < cut) ^ flip { ga[x] } else { a[x] }).collect();
                    c.check(!sys.satisfied(&s), || format!("{}: joined witnesses satisfy {}", Q::NAME, name));
                    let mut rng = c.sub_rng();
                    let f = sys.repair(&s, &ga, 0, &mut rng);
                    c.check(!matches!(f, Completion::Found(_)), || format!("{}: two witnesses can be joined at gate {} for {}", Q::NAME, cut / 3, name));
                }
            }
        }
        c.distinct(&format!("{} {} {} {}", Q::NAME, name, l, r));
    }
}

fn free<K: Cycle>(c: &mut Case) {
    let p = params::<K>(GENS);
    match (c.idx + c.idx / 4) % 6 {
        5 => free_witness::<_, _, K::P1, K::P0, 8>(c, &p.even_parameters),
        3 => free_witness::<_, _, K::P1, K::P0, 5>(c, &p.even_parameters),
        4 => free_witness::<_, _, K::P0, K::P1, 4>(c, &p.odd_parameters),
        0 => {
            free_witness::<_, _, K::P1, K::P0, 2>(c, &p.even_parameters);
            free_witness::<_, _, K::P0, K::P1, 1>(c, &p.odd_parameters);
        }
        1 => {
            free_witness::<_, _, K::P0, K::P1, 2>(c, &p.odd_parameters);
            free_witness::<_, _, K::P1, K::P0, 1>(c, &p.even_parameters);
        }
        _ => {
            free_witness::<_, _, K::P1, K::P0, 3>(c, &p.even_parameters);
            free_witness::<_, _, K::P0, K::P1, 3>(c, &p.odd_parameters);
        }
    }
}

const UNKNOWN: &str = "own levels not laid out as the verifier expects";

/// A prover of its own: the levels of the batched relation with chosen shown commitments, of which some have their
/// relation left out.
fn special<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let (pe, po) = (&p.even_parameters, &p.odd_parameters);
    let set: Vec<Leaf<K>> = (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect();
    let t = Tree::<K, L, M>::from_set(&set, p, height);
    let h = t.height();
    let idx = pick::<M>(c, n);
    c.describe(format!("{} L={} M={} n={} height={} leaves={:?}", K::P0::NAME, L, M, n, h, idx));
    let mut rng = c.sub_rng();
    let w = t.select_and_rerandomize_prover_multi_witness(idx, p);
    let scalars: Vec<K::F0> = (0..M).map(|_| K::F0::rand(&mut rng)).collect();
    let honest: Vec<Leaf<K>> = (0..M).map(|k| rerandomized::<K::P0>(&set[idx[k]], &scalars[k], pe)).collect();
    // slots: the shown commitment, the child it is said to be made of, and how much is proven of that
    let prove = |slots: &[(Leaf<K>, Leaf<K>, Part)], rng: &mut rand_chacha::ChaCha20Rng| {
        let mut ep = Prover::new(&pe.pc_gens, Transcript::new(LABEL));
        let mut op = Prover::new(&po.pc_gens, Transcript::new(LABEL));
        let (mut be, mut bo) = (K::F0::zero(), K::F1::zero());
        let mut path = MultiPath::<K, L, M> { selected_commitments: [Leaf::<K>::zero(); M], odd_commitments: vec![], even_commitments: vec![] };
        let (mut ie, mut io) = (0, 0);
        for k in 0..h {
            if k % 2 == h % 2 {
                let nodes = &w.even_internal_nodes[ie];
                ie += 1;
                let r = K::F1::rand(rng);
                CurveTreeWitness::single_level_batched_select_and_rerandomize_prover_gadget(nodes, &mut ep, pe, po, be, r);
                let sum: Aff<K::P1> = nodes.iter().map(|x| x.child_witness.into_group()).sum::<<Aff<K::P1> as AffineRepr>::Group>().into_affine();
                path.odd_commitments.push(rerandomized::<K::P1>(&sum, &r, po));
                bo = r;
            } else if k + 1 < h {
                let nodes = &w.odd_internal_nodes[io];
                io += 1;
                let r = K::F0::rand(rng);
                CurveTreeWitness::single_level_batched_select_and_rerandomize_prover_gadget(nodes, &mut op, po, pe, bo, r);
                let sum: Leaf<K> = nodes.iter().map(|x| x.child_witness.into_group()).sum::<<Leaf<K> as AffineRepr>::Group>().into_affine();
                path.even_commitments.push(rerandomized::<K::P0>(&sum, &r, pe));
                be = r;
            } else {
                let ch = CurveTreeWitness::allocate_multi_node_variables(&w.odd_internal_nodes[io], &mut op, po, bo);
                for (k, (chunk, (out, child, part))) in ch.chunks_exact(L).zip(slots).enumerate() {
                    path.selected_commitments[k] = *out;
                    partial_level(&mut op, pe, out, chunk.to_vec(), (*child + pe.delta).into_affine(), scalars[k], *part);
                }
            }
        }
        (path, ep.prove(&pe.bp_gens).expect("even proof"), op.prove(&po.bp_gens).expect("odd proof"))
    };
    let slots: Vec<_> = (0..M).map(|k| (honest[k], set[idx[k]], Part::All)).collect();
    let (path, even, odd) = prove(&slots, &mut rng);
    let r = verify_multi::<K, L, M>(&t, &path, &even, &odd, p);
    // the library's own showings are judged elsewhere
    c.count(if r.is_ok() { "own batched prover: honest runs" } else { UNKNOWN }, 1);
    let k = c.below(M);
    let o = (k + 1) % M;
    let foreign = rand_point::<K::P0, _>(&mut c.rng);
    let mut points = vec![
        ("the identity", Leaf::<K>::zero()),
        ("the blinding base", pe.pc_gens.B_blinding),
        ("the shift", pe.delta),
        ("the negated shift", -pe.delta),
        ("the value base", pe.pc_gens.B),
        ("the generator", Leaf::<K>::generator()),
        ("a foreign point", foreign),
    ];
    if M > 1 {
        points.push(("another member's commitment", honest[o]));
    }
    if let CurveTree::Even(r) = &t {
        points.push(("the root", r.commitment(k)));
    }
    let other = points[1 + c.below(points.len() - 1)];
    let last = points[points.len() - 1];
    for ((name, q), part, all) in [
        (points[0], Part::Nothing, false),
        (points[0], Part::Said, false),
        (points[0], Part::All, false),
        (points[0], Part::Nothing, true),
        (other, Part::Nothing, false),
        (other, Part::Said, false),
        (last, Part::Nothing, false),
        (last, Part::Said, false),
        (other, Part::NotSelected, false),
        (other, Part::NotRerandomized, false),
    ] {
        let mut v = slots.clone();
        for (j, slot) in v.iter_mut().enumerate() {
            if j == k || all {
                slot.0 = q;
                slot.2 = part;
                if matches!(part, Part::All | Part::NotSelected) {
                    slot.1 = (naive_mul::<K::P0>(&pe.pc_gens.B_blinding, &-scalars[j]) + q).into_affine();
                }
            }
        }
        match guard(|| prove(&v, &mut rng.clone())) {
            Ok((path, even, odd)) => {
                rejected::<K, L, M>(c, &t, &path, &even, &odd, p, &format!("{} {} shown as {}, proving {:?}", if all { "all members" } else { "member" }, k, name, part));
                c.count("special points shown", 1);
            }
            Err(_) => c.count("lies the prover's code refused", 1),
        }
    }
    // the points of unoccupied places
    let mut w2 = w.clone();
    let last = w2.odd_internal_nodes.len() - 1;
    let occupied: Vec<K::F1> = set.iter().map(|q| (*q + pe.delta).into_affine().x).collect();
    for x in w2.odd_internal_nodes[last][k].siblings {
        if occupied.contains(&x) {
            continue;
        }
        c.count("unoccupied places examined", 1);
        if let Some(q) = Leaf::<K>::get_point_from_x_unchecked(x, c.coin()) {
            w2.odd_internal_nodes[last][k].child_witness = (q - pe.delta).into_affine();
            let s = show_multi_witness::<K, L, M, _>(&w2, p, &mut rng.clone());
            rejected::<K, L, M>(c, &t, &s.path, &s.even, &s.odd, p, "the point of an unoccupied place");
        }
    }
}

/// Trees of many levels: for one member, the path of a foreign tree is joined to the honest one at every level, as a
/// child of the honest parent or in its place.
fn tall<K: Cycle, const M: usize>(c: &mut Case) {
    let p = params::<K>(GENS);
    let h = 5 + (c.idx as usize / 4) % 2;
    let n = 2 + c.below(3);
    let set: Vec<Leaf<K>> = (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect();
    let t = Tree::<K, 2, M>::from_set(&set, p, Some(h));
    let idx = pick::<M>(c, n);
    let m = c.below(M);
    let mut o = set.clone();
    o[idx[m]] = rand_point::<K::P0, _>(&mut c.rng);
    let t2 = Tree::<K, 2, M>::from_set(&o, p, Some(h));
    let w = t.select_and_rerandomize_prover_multi_witness(idx, p);
    let w2 = t2.select_and_rerandomize_prover_multi_witness(idx, p);
    let desc = format!("{} L=2 M={} n={} height={} leaves={:?} member={}", K::P0::NAME, M, n, h, idx, m);
    c.describe(desc.clone());
    let mut rng = c.sub_rng();
    let first = c.below(2);
    for lv in 0..h {
        let kind = (lv + first) % 2;
        let mut v = w.clone();
        for k in lv..h {
            let even = (k % 2 == 0) == (h % 2 == 0);
            let j = k / 2;
            if even {
                let s = v.even_internal_nodes[j][m].siblings;
                v.even_internal_nodes[j][m] = w2.even_internal_nodes[j][m];
                if k == lv && kind == 0 {
                    v.even_internal_nodes[j][m].siblings = s;
                }
            } else {
                let s = v.odd_internal_nodes[j][m].siblings;
                v.odd_internal_nodes[j][m] = w2.odd_internal_nodes[j][m];
                if k == lv && kind == 0 {
                    v.odd_internal_nodes[j][m].siblings = s;
                }
            }
        }
        let name = format!("the foreign path of member {} joined at level {} of {} ({})", m, lv, h, if kind == 0 { "as a child" } else { "as a parent" });
        match guard(|| show_multi_witness::<K, 2, M, _>(&v, p, &mut rng.clone())) {
            Ok(s) => rejected::<K, 2, M>(c, &t, &s.path, &s.even, &s.odd, p, &name),
            Err(_) => c.count("lies the prover's code refused", 1),
        }
    }
    c.sample(|| desc);
    let n = 2 + c.below(3);
    honest::<K, 2, M>(c, n, Some(h));
}

macro_rules! sized {
    ($c:expr, $f:ident, $K:ty) => {
        match ($c.idx / 4 * 3 + $c.idx % 4) % 8 {
            0 => $f::<$K, 2, 2>($c, 4, None),
            1 => $f::<$K, 2, 2>($c, 5, None),
            2 => $f::<$K, 2, 3>($c, 3, None),
            3 => $f::<$K, 3, 2>($c, 3, None),
            4 => $f::<$K, 2, 1>($c, 4, None),
            5 => $f::<$K, 4, 4>($c, 7, None),
            6 => $f::<$K, 2, 2>($c, 2, Some(4)),
            _ => $f::<$K, 2, 3>($c, 6, None),
        }
    };
}
macro_rules! cycled {
    ($c:expr, $f:ident) => {
        match $c.idx % 4 {
            0 => sized!($c, $f, PV),
            1 => sized!($c, $f, VP),
            2 => sized!($c, $f, SQ),
            _ => sized!($c, $f, QS),
        }
    };
}

fn main() {
    let mut r = Report::new(
        "C16",
        "a case is one (curve cycle, branching factor, batch size, leaves, height, shown tuple); honest tuples including repeats must verify and open to leaf + randomness; lies about members, sums, sets, levels and path elements must be rejected; one level's recorded constraints are attacked with free witnesses. Distinct = (shape, tuple) or (case, lie).",
    );
    r.require("batched proofs verified", 20);
    r.require("false batched claims verified", 120);
    r.require_unless("own batched prover: honest runs", 12, UNKNOWN);
    r.require("special points shown", 40);
    r.require("repairs of a false batched level tried", 60);
    r.require("members lied about one by one", 60);
    r.stage("honest", 24, 1600, |c| cycled!(c, honest));
    r.stage("liars", 16, 1200, |c| cycled!(c, liars));
    r.stage("special points", 12, 800, |c| cycled!(c, special));
    r.stage("mutations", 8, 600, |c| cycled!(c, mutations));
    r.stage("tall", 8, 400, |c| {
        if (c.idx / 4) % 3 == 1 {
            on_tree!(c.idx, tall[3](c))
        } else {
            on_tree!(c.idx, tall[2](c))
        }
    });
    // many members
    r.stage("many members", 4, 120, |c| {
        let n = 2 + c.below(6);
        match (c.idx + c.idx / 4) % 4 {
            0 => on_tree!(c.idx, honest[2, 5](c, n, None)),
            1 => on_tree!(c.idx, honest[3, 6](c, n, Some(2))),
            2 => on_tree!(c.idx, honest[2, 8](c, n, Some(1 + (n > 2) as usize))),
            _ => on_tree!(c.idx, honest[2, 9](c, n.min(2), None)),
        }
    });
    // many leaves: places beyond one byte
    r.stage("wide", 4, 200, |c| {
        let n = 257 + c.below(700);
        if c.idx / 4 % 2 == 0 {
            on_tree!(c.idx, honest[32, 2](c, n, None))
        } else {
            on_tree!(c.idx, honest[4, 3](c, n, None))
        }
    });
    r.stage("free witness", 12, 400, |c| match c.idx % 4 {
        0 => free::<PV>(c),
        1 => free::<VP>(c),
        2 => free::<SQ>(c),
        _ => free::<QS>(c),
    });
    r.finish();
}
