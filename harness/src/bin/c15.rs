//! C15: only members of this tree can be shown.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use merlin::Transcript;
use rand::Rng;
use relations::curve_tree::CurveTree;
use relations::curve_tree_prover::*;
use relations::rerandomize::build_tables;
use relations::single_level_select_and_rerandomize::*;

const GENS: usize = 1 << 12;

fn distinct_leaves<K: Cycle>(n: usize, c: &mut Case) -> Vec<Leaf<K>> {
    (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect()
}

/// An honest showing and the tree it belongs to.
fn honest<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) -> (Vec<Leaf<K>>, Tree<K, L, 1>, usize, Showing<K, L>) {
    let p = params::<K>(GENS);
    let set = distinct_leaves::<K>(n, c);
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let i = c.below(n);
    let mut rng = c.sub_rng();
    let s = show::<K, L, 1, _>(&t, i, p, &mut rng);
    let r = verify::<K, L, 1>(&t, &s.path, &s.even, &s.odd, p);
    c.check(r.is_ok(), || format!("the honest showing was rejected: {:?}", r.err()));
    (set, t, i, s)
}

fn rejected<K: Cycle, const L: usize>(c: &mut Case, t: &Tree<K, L, 1>, path: &Path<K, L>, even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>, what: &str) {
    let r = verify::<K, L, 1>(t, path, even, odd, p);
    c.check(r.is_err(), || format!("accepted: {}", what));
    c.count("false membership claims verified", 1);
    c.distinct(&format!("{} {}", c.idx, what));
}

fn mutate_point<P: Curve + Copy>(c: &mut Case, x: Aff<P>, p: &SingleLayerParameters<P>, other: Aff<P>) -> (Aff<P>, &'static str) {
    match c.below(10) {
        0 => (rand_point::<P, _>(&mut c.rng), "random"),
        1 => (-x, "negated"),
        2 => ((x + p.pc_gens.B_blinding).into_affine(), "plus the blinding base"),
        3 => ((x + p.pc_gens.B).into_affine(), "plus the value base"),
        4 => ((x + p.delta).into_affine(), "plus the shift"),
        5 => ((-x - p.delta - p.delta).into_affine(), "reflected"),
        6 => (Aff::<P>::zero(), "identity"),
        7 => (other, "another node"),
        8 => ((x + x).into_affine(), "doubled"),
        _ => {
            let r = P::ScalarField::rand(&mut c.rng);
            ((x + naive_mul::<P>(&p.pc_gens.B_blinding, &r)).into_affine(), "rerandomized again")
        }
    }
}

fn eqpath<K: Cycle, const L: usize>(a: &Path<K, L>, b: &Path<K, L>) -> bool {
    a.selected_commitment == b.selected_commitment && a.odd_commitments == b.odd_commitments && a.even_commitments == b.even_commitments
}

/// Changed and exchanged path elements, other trees, other parameters.
fn mutations<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let (set, t, i, s) = honest::<K, L>(c, n, height);
    c.describe(format!("{} L={} n={} height={} leaf={}", K::P0::NAME, L, n, t.height(), i));
    let mut rng = c.sub_rng();
    let w = t.select_and_rerandomize_prover_witness(i, 0, p);
    // a second showing of the same leaf, and one of another leaf
    let s2 = show::<K, L, 1, _>(&t, i, p, &mut rng);
    let j = (i + 1) % n;
    let s3 = show::<K, L, 1, _>(&t, j, p, &mut rng);
    rejected::<K, L>(c, &t, &s2.path, &s.even, &s.odd, p, "the path of another showing");
    if t.height() > 1 {
        rejected::<K, L>(c, &t, &s.path, &s2.even, &s.odd, p, "the even proof of another showing");
    }
    rejected::<K, L>(c, &t, &s.path, &s.even, &s2.odd, p, "the odd proof of another showing");
    rejected::<K, L>(c, &t, &s3.path, &s.even, &s.odd, p, "the path of another leaf");
    for (name, o) in [("another showing", &s2), ("another leaf", &s3)] {
        let mut q = s.path.clone();
        q.selected_commitment = o.path.selected_commitment;
        rejected::<K, L>(c, &t, &q, &s.even, &s.odd, p, &format!("the selected commitment of {}", name));
        if !eqpath::<K, L>(&q, &o.path) {
            rejected::<K, L>(c, &t, &q, &o.even, &o.odd, p, &format!("the path of this showing, selected commitment and proofs of {}", name));
        }
        for k in 0..q.odd_commitments.len() {
            let mut q = s.path.clone();
            q.odd_commitments[k] = o.path.odd_commitments[k];
            rejected::<K, L>(c, &t, &q, &s.even, &s.odd, p, &format!("odd element {} of {}", k, name));
        }
        for k in 0..q.even_commitments.len() {
            let mut q = s.path.clone();
            q.even_commitments[k] = o.path.even_commitments[k];
            rejected::<K, L>(c, &t, &q, &s.even, &s.odd, p, &format!("even element {} of {}", k, name));
        }
    }
    // elements changed
    for _ in 0..14 {
        let mut q = s.path.clone();
        let (ne, no) = (q.even_commitments.len(), q.odd_commitments.len());
        let k = c.below(1 + ne + no);
        let name;
        if k == 0 {
            let o = if c.coin() { set[i] } else { q.even_commitments.last().copied().unwrap_or(set[j]) };
            let (x, m) = mutate_point::<K::P0>(c, q.selected_commitment, &p.even_parameters, o);
            q.selected_commitment = x;
            name = format!("selected commitment {}", m);
        } else if k <= ne {
            let o = if c.coin() { q.selected_commitment } else { w.odd_internal_nodes[k - 1].child_witness };
            let (x, m) = mutate_point::<K::P0>(c, q.even_commitments[k - 1], &p.even_parameters, o);
            q.even_commitments[k - 1] = x;
            name = format!("even element {} {}", k - 1, m);
        } else {
            let k = k - ne - 1;
            let o = if c.coin() { q.odd_commitments[c.below(no)] } else { w.even_internal_nodes[k].child_witness };
            let (x, m) = mutate_point::<K::P1>(c, q.odd_commitments[k], &p.odd_parameters, o);
            q.odd_commitments[k] = x;
            name = format!("odd element {} {}", k, m);
        }
        if eqpath::<K, L>(&q, &s.path) {
            continue;
        }
        rejected::<K, L>(c, &t, &q, &s.even, &s.odd, p, &name);
    }
    // shapes: every way to drop, duplicate, add or exchange elements
    for k in 0..12 {
        let mut q = s.path.clone();
        let re = rand_point::<K::P0, _>(&mut c.rng);
        let ro = rand_point::<K::P1, _>(&mut c.rng);
        match k {
            0 => {
                q.even_commitments.pop();
            }
            1 => {
                q.odd_commitments.pop();
            }
            2 => {
                q.even_commitments.pop();
                q.odd_commitments.pop();
            }
            3 => {
                q.even_commitments.push(re);
                q.odd_commitments.push(ro);
            }
            4 => {
                q.even_commitments.insert(0, re);
                q.odd_commitments.insert(0, ro);
            }
            5 => q.even_commitments.push(q.selected_commitment),
            6 => q.odd_commitments.push(ro),
            7 => q.even_commitments.reverse(),
            8 => q.odd_commitments.reverse(),
            9 => {
                q.even_commitments.clear();
                q.odd_commitments.clear();
            }
            10 => {
                if let Some(x) = q.even_commitments.last_mut() {
                    std::mem::swap(x, &mut q.selected_commitment);
                }
            }
            _ => {
                for _ in 0..c.below(4) {
                    q.even_commitments.push(re);
                }
                for _ in 0..c.below(4) {
                    q.odd_commitments.push(ro);
                }
            }
        }
        if eqpath::<K, L>(&q, &s.path) {
            continue;
        }
        rejected::<K, L>(c, &t, &q, &s.even, &s.odd, p, &format!("path shape changed ({})", k));
    }
    // other trees
    let mut trees: Vec<(String, Tree<K, L, 1>)> = vec![];
    let mk = |s: &[Leaf<K>], h: Option<usize>| Tree::<K, L, 1>::from_set(s, p, h);
    let mut o = set.clone();
    o[i] = rand_point::<K::P0, _>(&mut c.rng);
    trees.push(("a tree without the leaf".into(), mk(&o, Some(t.height()))));
    let mut o = set.clone();
    o[j] = rand_point::<K::P0, _>(&mut c.rng);
    trees.push(("a tree with another leaf changed".into(), mk(&o, Some(t.height()))));
    trees.push(("the tree with one more level".into(), mk(&set, Some(t.height() + 1))));
    trees.push(("the tree with two more levels".into(), mk(&set, Some(t.height() + 2))));
    trees.push(("the tree of the leaf alone".into(), mk(&[set[i]], None)));
    for (name, o) in trees {
        if n == 1 && o.height() == t.height() && name.contains("alone") || (i == j && name.contains("another leaf")) {
            continue;
        }
        rejected::<K, L>(c, &o, &s.path, &s.even, &s.odd, p, &name);
    }
    // the transcript's domain
    let r = verify_labelled::<K, L, 1>(&t, &s.path, &s.even, &s.odd, p, b"ctmon-membership2");
    c.check(r.is_err(), || "accepted under another transcript label".into());
    // other parameters on the verifier's side
    for k in 0..5 {
        let mut q = Params::<K> { even_parameters: copy_layer::<K::P0>(&p.even_parameters), odd_parameters: copy_layer::<K::P1>(&p.odd_parameters) };
        let g1 = rand_point::<K::P0, _>(&mut c.rng);
        let g2 = rand_point::<K::P1, _>(&mut c.rng);
        let name = match k {
            0 => {
                q.even_parameters.delta = g1;
                "even shift"
            }
            1 => {
                q.odd_parameters.delta = g2;
                if t.height() < 2 {
                    continue;
                }
                "odd shift"
            }
            2 => {
                q.even_parameters.tables = build_tables(g1);
                "even rerandomization tables"
            }
            3 => {
                if t.height() < 2 {
                    continue;
                }
                q.odd_parameters.tables = build_tables(g2);
                "odd rerandomization tables"
            }
            _ => {
                q.even_parameters.coeff_b += K::F1::one();
                "curve coefficient"
            }
        };
        rejected::<K, L>(c, &t, &s.path, &s.even, &s.odd, &q, &format!("verifier with another {}", name));
    }
    c.sample(|| format!("{} L={} n={} height={} leaf={}", K::P0::NAME, L, n, t.height(), i));
}

fn copy_layer<P: Curve + Copy>(p: &SingleLayerParameters<P>) -> SingleLayerParameters<P> {
    SingleLayerParameters {
        bp_gens: p.bp_gens.clone(),
        pc_gens: p.pc_gens.clone(),
        delta: p.delta,
        coeff_a: p.coeff_a,
        coeff_b: p.coeff_b,
        tables: build_tables(p.pc_gens.B_blinding),
    }
}

/// Provers that lie about the witness, with the library's own proving code.
fn liars<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set = distinct_leaves::<K>(n, c);
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let i = c.below(n);
    let h = t.height();
    let w = t.select_and_rerandomize_prover_witness(i, 0, p);
    let foreign = rand_point::<K::P0, _>(&mut c.rng);
    let mut rng = c.sub_rng();
    let desc = format!("{} L={} n={} height={} leaf={}", K::P0::NAME, L, n, h, i);
    c.describe(desc.clone());
    let xe = |q: Leaf<K>| (q + p.even_parameters.delta).into_affine().x;
    let mut lies: Vec<(String, CurveTreeWitnessPath<L, K::P0, K::P1>)> = vec![];
    // a leaf that is not among the siblings
    let mut v = w.clone();
    v.odd_internal_nodes.last_mut().unwrap().child_witness = foreign;
    lies.push(("foreign leaf, honest siblings".into(), v));
    // ... added to the siblings without the parent knowing
    let mut v = w.clone();
    let k = c.below(L);
    let last = v.odd_internal_nodes.last_mut().unwrap();
    last.child_witness = foreign;
    last.siblings[k] = xe(foreign);
    lies.push(("foreign leaf among forged siblings".into(), v));
    // another member tree's lower half
    let mut o = set.clone();
    o[i] = foreign;
    let t2 = Tree::<K, L, 1>::from_set(&o, p, Some(h));
    let w2 = t2.select_and_rerandomize_prover_witness(i, 0, p);
    lies.push(("a leaf of another tree".into(), w2.clone()));
    if h > 1 {
        let mut v = w.clone();
        v.odd_internal_nodes = w2.odd_internal_nodes.clone();
        lies.push(("odd nodes of another tree".into(), v));
        // only the topmost level honest
        let mut v = w2.clone();
        if h % 2 == 0 {
            v.even_internal_nodes[0] = w.even_internal_nodes[0];
        } else {
            v.odd_internal_nodes[0] = w.odd_internal_nodes[0];
        }
        lies.push(("another tree below the root's children".into(), v));
        // the foreign subtree put in place of a child of the root, in the root's siblings only
        let mut v = w2.clone();
        if h % 2 == 0 {
            v.even_internal_nodes[0].siblings = w.even_internal_nodes[0].siblings;
        } else {
            v.odd_internal_nodes[0].siblings = w.odd_internal_nodes[0].siblings;
        }
        lies.push(("a foreign child of the honest root".into(), v));
    }
    // a sibling's subtree under this node's name
    let j = c.below(n);
    if j != i {
        let wj = t.select_and_rerandomize_prover_witness(j, 0, p);
        for k in 0..h / 2 {
            let mut v = w.clone();
            if v.even_internal_nodes[k].child_witness != wj.even_internal_nodes[k].child_witness {
                v.even_internal_nodes[k].child_witness = wj.even_internal_nodes[k].child_witness;
                lies.push((format!("even level {}: the child is not the parent of the next level", k), v));
            }
        }
        for k in 0..(h + 1) / 2 - 1 {
            let mut v = w.clone();
            if v.odd_internal_nodes[k].child_witness != wj.odd_internal_nodes[k].child_witness {
                v.odd_internal_nodes[k].child_witness = wj.odd_internal_nodes[k].child_witness;
                lies.push((format!("odd level {}: the child is not the parent of the next level", k), v));
            }
        }
    }
    // padding as a leaf
    let mut v = w.clone();
    v.odd_internal_nodes.last_mut().unwrap().child_witness = (-p.even_parameters.delta).into();
    lies.push(("the point that shifts to the identity".into(), v));
    let mut v = w.clone();
    let bad = Leaf::<K>::new_unchecked(set[i].x, set[i].y + K::F1::one());
    v.odd_internal_nodes.last_mut().unwrap().child_witness = bad;
    lies.push(("a point off the curve".into(), v));
    // too short: an inner node in place of the leaf
    let mut hh = h;
    while hh > 2 {
        hh -= 2;
        let mut v = w.clone();
        v.even_internal_nodes.truncate(hh / 2);
        v.odd_internal_nodes.truncate((hh + 1) / 2);
        lies.push((format!("an inner node of height {} in place of the leaf", h - hh), v));
    }
    // too long: the opening of a leaf used as further levels
    if h <= 3 {
        let inner = p.odd_parameters.commit(&[xe(foreign)], K::F1::zero(), 0);
        let xo = (inner + p.odd_parameters.delta).into_affine().x;
        let leaf = p.even_parameters.commit(&[xo], K::F0::zero(), 0);
        let mut o = set.clone();
        o[i] = leaf;
        let t3 = Tree::<K, L, 1>::from_set(&o, p, Some(h));
        let mut v = t3.select_and_rerandomize_prover_witness(i, 0, p);
        let mut se = [K::F0::zero(); L];
        se[0] = xo;
        let mut so = [K::F1::zero(); L];
        so[0] = xe(foreign);
        v.even_internal_nodes.push(CurveTreeWitness { siblings: se, child_witness: inner });
        v.odd_internal_nodes.push(CurveTreeWitness { siblings: so, child_witness: foreign });
        let s = show_witness::<K, L, _>(&v, p, &mut rng);
        rejected::<K, L>(c, &t3, &s.path, &s.even, &s.odd, p, "a path that continues below a leaf");
    }
    // deal the lies out: each takes a pair of proofs
    let part = c.below(3);
    for (k, (name, v)) in lies.into_iter().enumerate() {
        if k % 3 != part && !name.contains("inner node") {
            continue;
        }
        // a refusal by the prover's side is fine
        let s = match guard(|| show_witness::<K, L, _>(&v, p, &mut rng.clone())) {
            Ok(s) => s,
            Err(_) => {
                c.count("lies the prover's code refused", 1);
                continue;
            }
        };
        rejected::<K, L>(c, &t, &s.path, &s.even, &s.odd, p, &name);
    }
    c.sample(|| desc);
}

/// The points that an unoccupied place of a node would stand for, shown as leaves.
fn padding<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set = distinct_leaves::<K>(n, c);
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let i = n - 1;
    let mut w = t.select_and_rerandomize_prover_witness(i, 0, p);
    let mut rng = c.sub_rng();
    let desc = format!("{} L={} n={} height={} leaf={}", K::P0::NAME, L, n, t.height(), i);
    c.describe(desc.clone());
    let occupied: Vec<K::F1> = set.iter().map(|q| (*q + p.even_parameters.delta).into_affine().x).collect();
    let mut xs: Vec<K::F1> = w.odd_internal_nodes.last().unwrap().siblings.iter().copied().filter(|x| !occupied.contains(x)).collect();
    c.count("unoccupied places examined", xs.len() as u64);
    let k = xs.len();
    let small = K::F1::from(c.below(8) as u64);
    xs.push(if c.coin() { small } else { -small });
    let mut done = vec![];
    for (j, x) in xs.into_iter().enumerate() {
        if done.contains(&x) {
            continue;
        }
        done.push(x);
        if let Some(q) = Leaf::<K>::get_point_from_x_unchecked(x, c.coin()) {
            let lie = (q - p.even_parameters.delta).into_affine();
            w.odd_internal_nodes.last_mut().unwrap().child_witness = lie;
            let s = show_witness::<K, L, _>(&w, p, &mut rng.clone());
            rejected::<K, L>(c, &t, &s.path, &s.even, &s.odd, p, if j < k { "the point of an unoccupied place" } else { "a point with a small coordinate" });
        } else {
            c.count("unoccupied places that are no point", 1);
            c.eval();
        }
    }
    c.sample(|| desc);
}

const UNKNOWN: &str = "own levels not laid out as the verifier expects";

/// One level of a prover that chooses everything itself.
struct Lv<P: SWCurveConfig, Q: SWCurveConfig> {
    siblings: Vec<P::ScalarField>,
    public_children: bool,
    blind: P::ScalarField,
    out: Aff<Q>,
    child_plus_delta: Aff<Q>,
    r: Q::ScalarField,
    part: Part,
}

impl<P: SWCurveConfig, Q: SWCurveConfig> Lv<P, Q> {
    fn copy(&self) -> Self {
        Lv { siblings: self.siblings.clone(), ..*self }
    }
}

fn run_levels<F0: PrimeField, F1: PrimeField, P: Curve + Copy + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + Copy + SWCurveConfig<BaseField = F0, ScalarField = F1>>(
    lv: &[Lv<P, Q>],
    pc: &PedersenGens<Aff<P>>,
    gens: &BulletproofGens<Aff<P>>,
    child: &SingleLayerParameters<Q>,
) -> R1CSProof<Aff<P>> {
    let mut pr = Prover::new(pc, Transcript::new(LABEL));
    for l in lv {
        let ch: Vec<LinearCombination<F0>> = if l.public_children {
            l.siblings.iter().map(|x| constant(*x)).collect()
        } else {
            pr.commit_vec(&l.siblings, l.blind, gens).1.into_iter().map(|v| v.into()).collect()
        };
        partial_level(&mut pr, child, &l.out, ch, l.child_plus_delta, l.r, l.part);
    }
    pr.prove(gens).expect("proof")
}

/// The levels of an honest showing.
fn build_levels<K: Cycle, const L: usize>(w: &CurveTreeWitnessPath<L, K::P0, K::P1>, h: usize, p: &Params<K>, rng: &mut rand_chacha::ChaCha20Rng) -> (Vec<Lv<K::P0, K::P1>>, Vec<Lv<K::P1, K::P0>>, Path<K, L>) {
    let root_even = h % 2 == 0;
    let mut ev: Vec<Lv<K::P0, K::P1>> = vec![];
    let mut od: Vec<Lv<K::P1, K::P0>> = vec![];
    let (mut be, mut bo) = (K::F0::zero(), K::F1::zero());
    let (mut ie, mut io) = (0, 0);
    let mut path = Path::<K, L> { selected_commitment: Leaf::<K>::zero(), odd_commitments: vec![], even_commitments: vec![] };
    for k in 0..h {
        if (k % 2 == 0) == root_even {
            let nd = &w.even_internal_nodes[ie];
            ie += 1;
            let r = K::F1::rand(rng);
            let out = rerandomized::<K::P1>(&nd.child_witness, &r, &p.odd_parameters);
            ev.push(Lv { siblings: nd.siblings.to_vec(), public_children: k == 0, blind: be, out, child_plus_delta: (nd.child_witness + p.odd_parameters.delta).into_affine(), r, part: Part::All });
            path.odd_commitments.push(out);
            bo = r;
        } else {
            let nd = &w.odd_internal_nodes[io];
            io += 1;
            let r = K::F0::rand(rng);
            let out = rerandomized::<K::P0>(&nd.child_witness, &r, &p.even_parameters);
            od.push(Lv { siblings: nd.siblings.to_vec(), public_children: k == 0, blind: bo, out, child_plus_delta: (nd.child_witness + p.even_parameters.delta).into_affine(), r, part: Part::All });
            if k + 1 < h {
                path.even_commitments.push(out);
            } else {
                path.selected_commitment = out;
            }
            be = r;
        }
    }
    (ev, od, path)
}

/// A prover of its own, with single deviations at any level.
fn own_prover<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set = distinct_leaves::<K>(n, c);
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let i = c.below(n);
    let h = t.height();
    let w = t.select_and_rerandomize_prover_witness(i, 0, p);
    let mut rng = c.sub_rng();
    let go = |c: &mut Case, ev: &[Lv<K::P0, K::P1>], od: &[Lv<K::P1, K::P0>], path: &Path<K, L>| {
        let even = run_levels(ev, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens, &p.odd_parameters);
        let odd = run_levels(od, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens, &p.even_parameters);
        let _ = &c.idx;
        verify::<K, L, 1>(&t, path, &even, &odd, p)
    };
    c.describe(format!("{} L={} n={} height={} leaf={}", K::P0::NAME, L, n, h, i));
    let (mut ev, mut od, mut path) = build_levels::<K, L>(&w, h, p, &mut rng);
    if c.idx < 4 {
        let r = go(c, &ev, &od, &path);
        // the library's own showings are judged elsewhere
        c.count(if r.is_ok() { "own prover: honest runs" } else { UNKNOWN }, 1);
        c.eval();
    }
    // one deviation
    let level_even = !ev.is_empty() && c.coin();
    let kind = c.below(9);
    macro_rules! deviate {
        ($lv:ident, $P:ident, $Q:ident, $par:ident, $Fs:ident, $Fb:ident, $outs:ident, $last:expr) => {{
            let k = c.below($lv.len());
            let m = $lv.len();
            let l = &mut $lv[k];
            let name;
            let mut newout = None;
            match kind {
                0 => {
                    // the shown child is another point
                    newout = Some(rand_point::<K::$Q, _>(&mut rng));
                    name = "shows an unrelated point";
                }
                1 => {
                    newout = Some((l.out + p.$par.delta).into_affine());
                    name = "shows the child plus the shift";
                }
                2 => {
                    l.r += K::$Fb::one();
                    name = "uses other randomness in the circuit";
                }
                3 => {
                    let q = rand_point::<K::$Q, _>(&mut rng);
                    l.child_plus_delta = q;
                    newout = Some((naive_mul::<K::$Q>(&p.$par.pc_gens.B_blinding, &l.r) + q - p.$par.delta).into_affine());
                    name = "consistently shows a point that is no child";
                }
                4 => {
                    if l.public_children {
                        l.siblings[0] += K::$Fs::one();
                        name = "changes a public child";
                    } else {
                        l.blind += K::$Fs::one();
                        name = "commits to the children with other randomness";
                    }
                }
                5 => {
                    let q = rand_point::<K::$Q, _>(&mut rng);
                    let s = c.below(l.siblings.len());
                    l.siblings[s] = q.x;
                    l.child_plus_delta = q;
                    newout = Some((naive_mul::<K::$Q>(&p.$par.pc_gens.B_blinding, &l.r) + q - p.$par.delta).into_affine());
                    name = "replaces a child in its own copy of the parent";
                }
                6 => {
                    l.public_children = !l.public_children;
                    name = "commits to the root's children or treats a node's as public";
                }
                7 => {
                    // one coordinate right
                    l.child_plus_delta = Aff::<K::$Q>::new_unchecked(l.child_plus_delta.x, l.child_plus_delta.y + K::$Fs::one());
                    name = "a child off the curve";
                }
                _ => {
                    let s = l.siblings.len() - 1;
                    let q = l.siblings[s];
                    l.siblings[s] = q + K::$Fs::one();
                    name = "changes the last child";
                }
            }
            if let Some(o) = newout {
                l.out = o;
                if k + 1 == m && $last {
                    // the library's verifier reads the new point from the path
                }
                (k, name, Some(o))
            } else {
                (k, name, None)
            }
        }};
    }
    let name;
    if level_even {
        let (k, nm, o) = deviate!(ev, P0, P1, odd_parameters, F0, F1, odd_commitments, false);
        if let Some(o) = o {
            path.odd_commitments[k] = o;
        }
        name = format!("even level {} {}", k, nm);
    } else {
        let (k, nm, o) = deviate!(od, P1, P0, even_parameters, F1, F0, even_commitments, true);
        if let Some(o) = o {
            if k < path.even_commitments.len() {
                path.even_commitments[k] = o;
            } else {
                path.selected_commitment = o;
            }
        }
        name = format!("odd level {} {}", k, nm);
    }
    match guard(|| {
        let even = run_levels(&ev, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens, &p.odd_parameters);
        let odd = run_levels(&od, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens, &p.even_parameters);
        (even, odd)
    }) {
        Ok((even, odd)) => rejected::<K, L>(c, &t, &path, &even, &odd, p, &name),
        Err(_) => c.count("lies the prover's code refused", 1),
    }
}

/// Trees of many levels: the path of a foreign tree is joined to the honest one at every level, once by claiming
/// the foreign child among the honest siblings and once by claiming the foreign node for the honest parent.
fn tall<K: Cycle>(c: &mut Case) {
    let p = params::<K>(GENS);
    let h = if c.tier == ctmon::report::Tier::Thorough { 5 + c.below(4) } else { 5 + (c.idx as usize / 4) % 3 };
    let n = 2 + c.below(2);
    let set = distinct_leaves::<K>(n, c);
    let t = Tree::<K, 2, 1>::from_set(&set, p, Some(h));
    let i = c.below(n);
    let mut o = set.clone();
    o[i] = rand_point::<K::P0, _>(&mut c.rng);
    let t2 = Tree::<K, 2, 1>::from_set(&o, p, Some(h));
    let w = t.select_and_rerandomize_prover_witness(i, 0, p);
    let w2 = t2.select_and_rerandomize_prover_witness(i, 0, p);
    let desc = format!("{} L=2 n={} height={} leaf={}", K::P0::NAME, n, h, i);
    c.describe(desc.clone());
    let mut rng = c.sub_rng();
    let first = c.below(2);
    for lv in 0..h {
        for kind in 0..2 {
            // a level above `lv` is honest, one below is foreign
            if (lv + kind) % 2 != first && c.tier == ctmon::report::Tier::Quick {
                continue;
            }
            let mut v = w2.clone();
            for k in 0..=lv {
                let even = (k % 2 == 0) == (h % 2 == 0);
                let j = k / 2;
                if k < lv {
                    if even {
                        v.even_internal_nodes[j] = w.even_internal_nodes[j];
                    } else {
                        v.odd_internal_nodes[j] = w.odd_internal_nodes[j];
                    }
                } else if kind == 0 {
                    if even {
                        v.even_internal_nodes[j].siblings = w.even_internal_nodes[j].siblings;
                    } else {
                        v.odd_internal_nodes[j].siblings = w.odd_internal_nodes[j].siblings;
                    }
                }
            }
            let name = format!("the foreign path joined at level {} of {} ({})", lv, h, if kind == 0 { "as a child" } else { "as a parent" });
            match guard(|| show_witness::<K, 2, _>(&v, p, &mut rng.clone())) {
                Ok(s) => rejected::<K, 2>(c, &t, &s.path, &s.even, &s.odd, p, &name),
                Err(_) => c.count("lies the prover's code refused", 1),
            }
        }
    }
    let s = show_witness::<K, 2, _>(&w, p, &mut rng);
    let r = verify::<K, 2, 1>(&t, &s.path, &s.even, &s.odd, p);
    c.check(r.is_ok(), || format!("the honest path is rejected: {:?}", r.err()));
    c.sample(|| desc);
}

/// Shown points of which a verifier might think that they need no proof: the relation is left out, as a whole or in
/// part, or shown for a point that is no child.
fn special<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set = distinct_leaves::<K>(n, c);
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let i = c.below(n);
    let h = t.height();
    let w = t.select_and_rerandomize_prover_witness(i, 0, p);
    let desc = format!("{} L={} n={} height={} leaf={}", K::P0::NAME, L, n, h, i);
    c.describe(desc.clone());
    let mut rng = c.sub_rng();
    let (honest_ev, honest_od, honest_path) = build_levels::<K, L>(&w, h, p, &mut rng);
    let pe = &p.even_parameters;
    let e = Leaf::<K>::zero();
    let mut points = vec![
        ("the identity", e),
        ("the blinding base", pe.pc_gens.B_blinding),
        ("the shift", pe.delta),
        ("the negated shift", -pe.delta),
        ("the negated doubled shift", (-pe.delta - pe.delta).into_affine()),
        ("the value base", pe.pc_gens.B),
        ("the generator", Leaf::<K>::generator()),
        ("the first vector base", *pe.bp_gens.share(0).G(1).next().unwrap()),
    ];
    if let CurveTree::Even(r) = &t {
        points.push(("the root", r.commitment(0)));
    }
    if let Some(x) = honest_path.even_commitments.last() {
        points.push(("the last even commitment", *x));
        points.push(("the first even commitment", honest_path.even_commitments[0]));
    }
    let other = points[1 + c.below(points.len() - 1)];
    let mut claims = vec![(points[0], Part::Nothing, "nothing of the relation"), (points[0], Part::Said, "nothing but the message"), (points[0], Part::All, "a point that is no child")];
    claims.push((other, Part::Nothing, "nothing of the relation"));
    claims.push((other, Part::Said, "nothing but the message"));
    claims.push((if c.coin() { other } else { points[0] }, Part::NotSelected, "all but the selection"));
    claims.push((if c.coin() { other } else { points[0] }, Part::NotRerandomized, "all but the rerandomization"));
    claims.push((other, Part::All, "a point that is no child"));
    for ((name, q), part, how) in claims {
        let (ev, mut od, mut path) = (&honest_ev, honest_od.iter().map(|l| l.copy()).collect::<Vec<_>>(), honest_path.clone());
        let l = od.last_mut().unwrap();
        l.part = part;
        l.out = q;
        path.selected_commitment = q;
        let child = (naive_mul::<K::P0>(&pe.pc_gens.B_blinding, &-l.r) + q).into_affine();
        match part {
            Part::NotSelected | Part::All => l.child_plus_delta = (child + pe.delta).into_affine(),
            _ => {}
        }
        match guard(|| (run_levels(ev, &pe.pc_gens, &pe.bp_gens, &p.odd_parameters), run_levels(&od, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens, pe))) {
            Ok((even, odd)) => {
                rejected::<K, L>(c, &t, &path, &even, &odd, p, &format!("shows {}, proving {}", name, how));
                c.count("special points shown", 1);
            }
            Err(_) => c.count("lies the prover's code refused", 1),
        }
    }
    // a commitment with a known opening in place of an inner node, and no tree below it
    if h > 1 {
        let foreign = rand_point::<K::P0, _>(&mut c.rng);
        for (part, below) in [(Part::Nothing, Part::All), (Part::Nothing, Part::Nothing), (Part::Said, Part::All), (Part::All, Part::All)] {
            let (mut ev, mut od, mut path) = (honest_ev.iter().map(|l| l.copy()).collect::<Vec<_>>(), honest_od.iter().map(|l| l.copy()).collect::<Vec<_>>(), honest_path.clone());
            let xs = {
                let mut v = vec![K::F1::zero(); L];
                if c.coin() {
                    v[0] = (foreign + pe.delta).into_affine().x;
                }
                v
            };
            let blind = K::F1::from(c.below(2) as u64);
            let node = p.odd_parameters.commit(&xs, blind, 0);
            let k = ev.len() - 1;
            ev[k].out = node;
            ev[k].part = part;
            path.odd_commitments[k] = node;
            if let Part::All = part {
                let child = (naive_mul::<K::P1>(&p.odd_parameters.pc_gens.B_blinding, &-ev[k].r) + node).into_affine();
                ev[k].child_plus_delta = (child + p.odd_parameters.delta).into_affine();
            }
            let l = od.last_mut().unwrap();
            l.siblings = xs;
            l.blind = blind;
            l.part = below;
            l.child_plus_delta = (foreign + pe.delta).into_affine();
            l.out = rerandomized::<K::P0>(&foreign, &l.r, pe);
            path.selected_commitment = l.out;
            match guard(|| (run_levels(&ev, &pe.pc_gens, &pe.bp_gens, &p.odd_parameters), run_levels(&od, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens, pe))) {
                Ok((even, odd)) => {
                    rejected::<K, L>(c, &t, &path, &even, &odd, p, &format!("a foreign leaf under {}, the relation left out ({:?} {:?})", if node.is_zero() { "the identity" } else { "a node of its own" }, part, below));
                    c.count("special points shown", 1);
                }
                Err(_) => c.count("lies the prover's code refused", 1),
            }
        }
    }
    c.sample(|| desc);
}

/// The constraints of one level, with the witness chosen freely near the lie.
fn free_witness<F0: PrimeField, F1: PrimeField, P: Curve + Copy + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + Copy + SWCurveConfig<BaseField = F0, ScalarField = F1>>(c: &mut Case, child: &SingleLayerParameters<Q>) {
    let pc = PedersenGens::<Aff<P>>::default();
    let l = 2 + c.below(4);
    let kids: Vec<Aff<Q>> = (0..l).map(|_| rand_point::<Q, _>(&mut c.rng)).collect();
    let xs: Vec<F0> = kids.iter().map(|k| (*k + child.delta).into_affine().x).collect();
    let rec_of = |cpd: Aff<Q>, out: Aff<Q>, r: F1, xs: &[F0]| -> Rec<'_, P> {
        let mut rec = Rec::<P>::new(&pc);
        let ch: Vec<LinearCombination<F0>> = xs.iter().map(|x| constant(*x)).collect();
        single_level_select_and_rerandomize(&mut rec, child, &out, ch, Some(cpd), Some(r));
        rec
    };
    let r = F1::rand(&mut c.rng);
    let i = c.below(l);
    let good_out = rerandomized::<Q>(&kids[i], &r, child);
    let good_cpd = (kids[i] + child.delta).into_affine();
    let good = rec_of(good_cpd, good_out, r, &xs);
    c.check(good.satisfied(), || "the honest level is not satisfied".into());
    let (_, ga) = good.system();
    let foreign = rand_point::<Q, _>(&mut c.rng);
    let fout = rerandomized::<Q>(&foreign, &r, child);
    let fcpd = (foreign + child.delta).into_affine();
    let mut padded = xs.clone();
    padded.push(F0::zero());
    let zero_y = Aff::<Q>::new_unchecked(F0::zero(), F0::rand(&mut c.rng));
    let lies: Vec<(&str, Aff<Q>, Aff<Q>, F1, &[F0])> = vec![
        ("a point that is no child", fcpd, fout, r, &xs),
        ("a child's x with another point shown", good_cpd, fout, r, &xs),
        ("other randomness", good_cpd, good_out, r + F1::one(), &xs),
        ("a shown point off by the blinding base plus the shift", good_cpd, (good_out + child.delta).into_affine(), r, &xs),
        ("a point off the curve", Aff::<Q>::new_unchecked(good_cpd.x, good_cpd.y.double()), good_out, r, &xs),
        ("padding", zero_y, fout, r, &padded),
        ("the negated shown point", good_cpd, -good_out, r, &xs),
    ];
    for (name, cpd, out, rr, ch) in lies {
        let rec = rec_of(cpd, out, rr, ch);
        let bad = rec.violated().len();
        c.check(!rec.satisfied(), || format!("{}: the constraints of a level hold for {}", Q::NAME, name));
        let (sys, a) = rec.system();
        // other randomness has honest repairs: the honest witness itself
        if name == "other randomness" || name == "a point off the curve" {
            continue;
        }
        for radius in 0..5 {
            let mut rng = c.sub_rng();
            let f = sys.repair(&a, &ga, radius, &mut rng);
            c.check(!matches!(f, Completion::Found(_)), || format!("{}: a level can be satisfied for {} by choosing the variables near the violated constraints ({} violated, radius {})", Q::NAME, name, bad, radius));
            c.count("repairs of a false level tried", 1);
        }
        // the honest assignment with this statement: only a few constraints fail, try to mend those
        if a.len() == ga.len() {
            for radius in 0..4 {
                let mut rng = c.sub_rng();
                let f = sys.repair(&ga, &a, radius, &mut rng);
                c.check(!matches!(f, Completion::Found(_)), || format!("{}: an honest witness can be bent to {}", Q::NAME, name));
                c.count("repairs of a false level tried", 1);
            }
            // one part of the circuit about a child, the other about the shown point
            for _ in 0..12 {
                let cut = c.below(sys.n + 1) * 3;
                for flip in [false, true] {
                    let s: Vec<F0> = (0..a.len()).map(|v| if (v < cut) ^ flip { ga[v] } else { a[v] }).collect();
                    c.check(!sys.satisfied(&s), || format!("{}: a witness about a child up to gate {} and about {} after it satisfies the level", Q::NAME, cut / 3, name));
                    let mut rng = c.sub_rng();
                    let f = sys.repair(&s, &ga, 0, &mut rng);
                    c.check(!matches!(f, Completion::Found(_)), || format!("{}: two witnesses can be joined at gate {} for {}", Q::NAME, cut / 3, name));
                    c.count("joined witnesses tried", 1);
                }
            }
        }
        c.distinct(&format!("{} {} {} {}", Q::NAME, name, l, r));
    }
    let _ = c.rng.gen::<u8>();
}

fn free<K: Cycle>(c: &mut Case) {
    let p = params::<K>(GENS);
    free_witness::<_, _, K::P1, K::P0>(c, &p.even_parameters);
    free_witness::<_, _, K::P0, K::P1>(c, &p.odd_parameters);
}

/// sizes that exercise odd and even roots
macro_rules! sized {
    ($c:expr, $f:ident, $K:ty) => {
        match $c.below(7) {
            0 => $f::<$K, 2>($c, 2, None),
            1 => $f::<$K, 2>($c, 3, None),
            2 => $f::<$K, 2>($c, 4, None),
            3 => $f::<$K, 2>($c, 6, None),
            4 => $f::<$K, 3>($c, 5, Some(3)),
            5 => $f::<$K, 4>($c, 9, None),
            _ => $f::<$K, 2>($c, 9, None),
        }
    };
}
macro_rules! cycled {
    ($c:expr, $f:ident) => {
        match $c.idx % 4 {
            0 => sized!($c, $f, PV),
            1 => sized!($c, $f, VP),
            2 => sized!($c, $f, SQ),
            _ => sized!($c, $f, QS),
        }
    };
}

/// Showings that share one pair of proofs vouch for each place on its own.
fn composed<K: Cycle>(c: &mut Case) {
    const L: usize = 4;
    let p = params::<K>(GENS);
    let sets: Vec<Vec<Leaf<K>>> = [2 + c.below(3), 5 + c.below(6)].iter().map(|n| distinct_leaves::<K>(*n, c)).collect();
    // both trees of one height, so that paths fit either
    let trees: Vec<_> = sets.iter().map(|s| Tree::<K, L, 1>::from_set(s, p, Some(2))).collect();
    let k = 2 + c.below(2);
    let picks: Vec<(usize, usize)> = (0..k).map(|j| (j % 2, c.below(sets[j % 2].len()))).collect();
    c.describe(format!("{} {:?}", K::P0::NAME, picks));
    let ws: Vec<_> = picks.iter().map(|(t, i)| trees[*t].select_and_rerandomize_prover_witness(*i, 0, p)).collect();
    let mut rng = c.sub_rng();
    let (paths, _, even, odd) = show_all::<K, L, _>(&ws, p, &mut rng);
    let ts: Vec<_> = picks.iter().map(|(t, _)| &trees[*t]).collect();
    let honest = verify_all::<K, L>(&ts, &paths, &even, &odd, p);
    c.check(honest.is_ok(), || format!("honest showings were rejected: {:?}", honest.as_ref().err()));
    let mut deny = |c: &mut Case, ts: &[&Tree<K, L, 1>], paths: &[Path<K, L>], even: &EvenProof<K>, odd: &OddProof<K>, what: &str| {
        let r = verify_all::<K, L>(ts, paths, even, odd, p);
        c.check(r.is_err(), || format!("accepted: {}", what));
        c.count("false membership claims verified", 1);
        c.distinct(&format!("composed {} {}", c.idx, what));
    };
    for a in 0..k {
        for b in 0..k {
            if a == b {
                continue;
            }
            let mut q = paths.clone();
            q[a] = paths[b].clone();
            deny(c, &ts, &q, &even, &odd, &format!("path {} in place of path {} of {}", b, a, k));
            if a < b {
                q[b] = paths[a].clone();
                deny(c, &ts, &q, &even, &odd, &format!("paths {} and {} exchanged", a, b));
                let mut u = ts.clone();
                u.swap(a, b);
                if picks[a].0 != picks[b].0 {
                    deny(c, &u, &paths, &even, &odd, &format!("trees {} and {} exchanged", a, b));
                    deny(c, &u, &q, &even, &odd, &format!("trees and paths {} and {} exchanged", a, b));
                }
            }
        }
        let mut u = ts.clone();
        u[a] = &trees[1 - picks[a].0];
        deny(c, &u, &paths, &even, &odd, &format!("showing {} against the other tree", a));
        // only the shown commitment, or one inner commitment, of one showing is changed
        let mut q = paths.clone();
        q[a].selected_commitment = (q[a].selected_commitment + p.even_parameters.pc_gens.B).into_affine();
        deny(c, &ts, &q, &even, &odd, &format!("another commitment shown at {}", a));
        let mut q = paths.clone();
        let odds = q[a].odd_commitments.len();
        if odds > 0 {
            q[a].odd_commitments[odds - 1] = (q[a].odd_commitments[odds - 1] + p.odd_parameters.pc_gens.B_blinding).into_affine();
            deny(c, &ts, &q, &even, &odd, &format!("inner commitment of showing {} rerandomized again", a));
        }
        let mut fewer = paths.clone();
        fewer.remove(a);
        let mut u = ts.clone();
        u.remove(a);
        deny(c, &u, &fewer, &even, &odd, &format!("showing {} left out", a));
        // one of the showings is of a leaf the tree does not have
        let mut lie = vec![];
        for (j, (t, i)) in picks.iter().enumerate() {
            let t = if j == a { 1 - t } else { *t };
            lie.push(trees[t].select_and_rerandomize_prover_witness(*i % sets[t].len(), 0, p));
        }
        let lied = guard(|| show_all::<K, L, _>(&lie, p, &mut rng));
        if let Ok((paths, _, even, odd)) = lied {
            deny(c, &ts, &paths, &even, &odd, &format!("showing {} from another tree", a));
        }
    }
    c.count("composed showings", 1);
}

fn main() {
    let mut r = Report::new(
        "C15",
        "a case is one false membership claim family on a random tree: a changed or exchanged path, another tree, height, root, label or parameter set, a lying witness through the library's prover, showings exchanged between the places of one composed proof, a prover of its own with one deviation, or a freely chosen assignment of the recorded constraints of one level; every claim must be rejected. Distinct = (case, lie).",
    );
    r.assume("the reflection of a leaf, minus the leaf minus twice the shift, is admitted by design (only the x-coordinate is committed); it is not counted as a lie");
    r.require("false membership claims verified", 300);
    r.require("repairs of a false level tried", 100);
    r.require_unless("own prover: honest runs", 4, UNKNOWN);
    r.require("special points shown", 40);
    r.require("unoccupied places examined", 12);
    r.stage("liars", 16, 1200, |c| cycled!(c, liars));
    r.stage("padding", 12, 800, |c| match (c.idx % 4, c.below(3)) {
        (0, 0) => padding::<PV, 4>(c, 3, None),
        (0, _) => padding::<PV, 4>(c, 5, Some(3)),
        (1, 0) => padding::<VP, 3>(c, 4, None),
        (1, _) => padding::<VP, 4>(c, 6, None),
        (2, 0) => padding::<SQ, 4>(c, 3, None),
        (2, 1) => padding::<SQ, 4>(c, 5, Some(3)),
        (2, _) => padding::<SQ, 3>(c, 2, Some(2)),
        (3, 0) => padding::<QS, 4>(c, 2, None),
        (3, 1) => padding::<QS, 4>(c, 6, Some(3)),
        _ => padding::<QS, 3>(c, 4, None),
    });
    r.require("composed showings", 4);
    r.stage("composed", 8, 300, |c| on_tree!(c.idx, composed[](c)));
    r.stage("tall", 8, 400, |c| on_tree!(c.idx, tall[](c)));
    r.stage("own prover", 24, 1600, |c| cycled!(c, own_prover));
    r.stage("special points", 12, 1200, |c| cycled!(c, special));
    r.stage("mutations", 12, 800, |c| cycled!(c, mutations));
    r.stage("free witness", 8, 400, |c| match c.idx % 4 {
        0 => free::<PV>(c),
        1 => free::<VP>(c),
        2 => free::<SQ>(c),
        _ => free::<QS>(c),
    });
    r.finish();
}
