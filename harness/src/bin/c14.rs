//! C14: every leaf of every tree can be shown.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::*;
use bulletproofs::PedersenGens;
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use merlin::Transcript;
use relations::single_level_select_and_rerandomize::*;

const GENS: usize = 1 << 12;

fn full<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    full_with::<K, L, M>(c, n, height, GENS)
}

/// End to end: both proofs verify against the root, the obtained leaf is the right one.
fn full_with<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>, gens: usize) {
    full_from::<K, L, M>(c, n, height, 0, gens)
}

/// Parameters with exactly as many generators per curve as the proofs of this tree need.
fn tight<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p0 = params::<K>(GENS);
    let set = leaves::<K, _>(n, p0, &mut c.rng);
    let t = Tree::<K, L, 1>::from_set(&set, p0, height);
    let i = c.below(n);
    let need = {
        let mut ep = Prover::new(&p0.even_parameters.pc_gens, Transcript::new(LABEL));
        let mut op = Prover::new(&p0.odd_parameters.pc_gens, Transcript::new(LABEL));
        t.select_and_rerandomize_prover_gadget(i, 0, &mut ep, &mut op, p0, &mut c.sub_rng());
        (ep.size().next_power_of_two().max(L), op.size().next_power_of_two().max(L))
    };
    let what = format!("{} L={} n={} height={} leaf={} generators={:?}", K::P0::NAME, L, n, t.height(), i, need);
    c.describe(what.clone());
    c.distinct(&what);
    let p = Params::<K>::new(need.0, need.1);
    let t2 = Tree::<K, L, 1>::from_set(&set, &p, height);
    c.check(root_bytes::<K, L, 1>(&t) == root_bytes::<K, L, 1>(&t2), || "the root depends on how many generators there are".into());
    let mut rng = c.sub_rng();
    let s = match guard(|| show::<K, L, 1, _>(&t2, i, &p, &mut rng)) {
        Ok(s) => s,
        Err(e) => return c.fail(format!("an honest prover with enough generators for both curves failed: {}", e)),
    };
    let want = rerandomized::<K::P0>(&set[i], &s.scalar, &p.even_parameters);
    // a verifier with the same parameters, and one with larger ones
    for (t, p, who) in [(&t2, &p, "exact"), (&t, p0, "larger")] {
        match verify::<K, L, 1>(t, &s.path, &s.even, &s.odd, p) {
            Ok(l) => {
                c.check(l == want, || "the verifier obtained another commitment".into());
            }
            Err(e) => c.fail(format!("an honest membership proof was rejected by a verifier with {} parameters: {}", who, e)),
        }
        c.count("membership proofs verified", 1);
    }
    c.count("tight parameters", 1);
}

fn tights<K: Cycle>(c: &mut Case) {
    let k = c.below(4);
    match (c.idx / 4 + k as u64) % 4 {
        0 => tight::<K, 4>(c, 1 + k, Some(1)),
        1 => tight::<K, 4>(c, 5 + k, Some(2)),
        2 => tight::<K, 2>(c, 5 + k, Some(3)),
        _ => tight::<K, 8>(c, 3 + k, Some(3)),
    }
}

/// Several leaves of several trees in one pair of proofs.
fn composed<K: Cycle>(c: &mut Case) {
    const L: usize = 4;
    let p = params::<K>(GENS);
    let sets: Vec<Vec<Leaf<K>>> = [1 + c.below(4), 5 + c.below(6)].iter().map(|n| leaves::<K, _>(*n, p, &mut c.rng)).collect();
    let h = 1 + c.below(2);
    let trees = [Tree::<K, L, 1>::from_set(&sets[0], p, Some(h)), Tree::<K, L, 1>::from_set(&sets[1], p, None)];
    let k = 2 + c.below(2);
    let picks: Vec<(usize, usize)> = (0..k)
        .map(|_| {
            let t = c.below(2);
            (t, c.below(sets[t].len()))
        })
        .collect();
    let what = format!("{} heights {:?} leaves {:?}", K::P0::NAME, [h, trees[1].height()], picks);
    c.describe(what.clone());
    c.distinct(&what);
    let ws: Vec<_> = picks.iter().map(|(t, i)| trees[*t].select_and_rerandomize_prover_witness(*i, 0, p)).collect();
    let mut rng = c.sub_rng();
    let (paths, scalars, even, odd) = show_all::<K, L, _>(&ws, p, &mut rng);
    let ts: Vec<_> = picks.iter().map(|(t, _)| &trees[*t]).collect();
    match verify_all::<K, L>(&ts, &paths, &even, &odd, p) {
        Err(e) => c.fail(format!("honest showings in one pair of proofs were rejected: {}", e)),
        Ok(l) => {
            for (j, (t, i)) in picks.iter().enumerate() {
                c.check(l[j] == rerandomized::<K::P0>(&sets[*t][*i], &scalars[j], &p.even_parameters), || format!("showing {} of {} gives another commitment", j, k));
            }
        }
    }
    c.count("membership proofs verified", k as u64);
    c.count("composed showings", 1);
}

fn at<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>, from: usize, gens: usize) {
    c.count("leaves far to the right shown", 1);
    full_from::<K, L, 1>(c, n, height, from, gens)
}

fn full_from<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>, from: usize, gens: usize) {
    let p = params::<K>(gens);
    let set = leaves::<K, _>(n, p, &mut c.rng);
    let t = Tree::<K, L, M>::from_set(&set, p, height);
    let i = from + match c.below(4) {
        0 => 0,
        1 => n - from - 1,
        _ => c.below(n - from),
    };
    let what = format!("{} L={} M={} n={} height={} leaf={}", K::P0::NAME, L, M, n, t.height(), i);
    c.describe(what.clone());
    c.distinct(&what);
    let mut rng = c.sub_rng();
    let Showing { path, scalar, even, odd } = if c.coin() {
        show::<K, L, M, _>(&t, i, p, &mut rng)
    } else {
        let w = t.select_and_rerandomize_prover_witness(i, 0, p);
        show_witness::<K, L, _>(&w, p, &mut rng)
    };
    let want = rerandomized::<K::P0>(&set[i], &scalar, &p.even_parameters);
    c.check(path.get_rerandomized_leaf() == want, || "the path's leaf is not leaf + randomness * blinding base".into());
    c.check(path.odd_commitments.len() + path.even_commitments.len() + 1 == t.height(), || "path of unexpected length".into());
    if let Err(e) = completion::<K, L, M>(&t, &path) {
        c.fail(e);
    }
    match verify::<K, L, M>(&t, &path, &even, &odd, p) {
        Ok(l) => {
            c.check(l == want, || "the verifier obtained another commitment".into());
        }
        Err(e) => c.fail(format!("an honest membership proof was rejected: {}", e)),
    }
    // the encoded path and proofs
    let mode = c.coin();
    let mut b = vec![];
    if mode {
        path.serialize_compressed(&mut b).unwrap();
        even.serialize_compressed(&mut b).unwrap();
        odd.serialize_compressed(&mut b).unwrap();
    } else {
        path.serialize_uncompressed(&mut b).unwrap();
        even.serialize_uncompressed(&mut b).unwrap();
        odd.serialize_uncompressed(&mut b).unwrap();
    }
    let mut rd = b.as_slice();
    let dec = if mode {
        (|| Some((Path::<K, L>::deserialize_compressed(&mut rd).ok()?, EvenProof::<K>::deserialize_compressed(&mut rd).ok()?, OddProof::<K>::deserialize_compressed(&mut rd).ok()?)))()
    } else {
        (|| Some((Path::<K, L>::deserialize_uncompressed(&mut rd).ok()?, EvenProof::<K>::deserialize_uncompressed(&mut rd).ok()?, OddProof::<K>::deserialize_uncompressed(&mut rd).ok()?)))()
    };
    match dec {
        None => c.fail("the encoded membership proof does not decode"),
        Some((path2, even2, odd2)) => {
            c.check(rd.is_empty(), || "decoding left bytes over".into());
            match verify_single::<K, L, M>(&t, &path2, &even2, &odd2, p) {
                Ok(l) => {
                    c.check(l == want, || "the verifier obtained another commitment from the encoded path".into());
                }
                Err(e) => c.fail(format!("an honest encoded membership proof was rejected: {}", e)),
            }
        }
    }
    c.count("membership proofs verified", 2);
    c.sample(|| what);
}

fn sizes<K: Cycle>(c: &mut Case) {
    match c.below(12) {
        0 => full::<K, 2, 1>(c, 1, Some(1)),
        1 => full::<K, 2, 1>(c, 2, None),
        2 => {
            let n = 3 + c.below(2);
            full::<K, 2, 1>(c, n, None)
        }
        3 => {
            let n = 5 + c.below(4);
            full::<K, 2, 1>(c, n, None)
        }
        4 => {
            let (n, h) = (1 + c.below(4), 2 + c.below(2));
            full::<K, 2, 1>(c, n, Some(h))
        }
        5 => {
            let n = 2 + c.below(2);
            full::<K, 3, 1>(c, n, None)
        }
        6 => {
            let n = 4 + c.below(6);
            full::<K, 3, 2>(c, n, None)
        }
        7 => {
            let n = 2 + c.below(15);
            full::<K, 4, 1>(c, n, None)
        }
        8 => {
            let n = [8, 9, 33, 63, 64][c.below(5)];
            full::<K, 8, 1>(c, n, None)
        }
        9 => {
            let (n, h) = ([1, 31, 32, 33][c.below(4)], 1 + c.below(2));
            full::<K, 32, 1>(c, n, Some(h))
        }
        10 => {
            let (n, h) = ([1, 5, 256][c.below(3)], 1 + c.below(2));
            full::<K, 256, 1>(c, n, Some(h))
        }
        _ => {
            let n = 9 + c.below(8);
            full::<K, 2, 1>(c, n, None)
        }
    }
}

/// Every leaf of a tree: each level's constraints hold for the witness of the path with any
/// randomness. (The constraints of the real gadget, recorded and evaluated without a proof.)
fn every_leaf<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set = leaves::<K, _>(n, p, &mut c.rng);
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let what = format!("{} L={} n={} height={}", K::P0::NAME, L, n, t.height());
    c.describe(what.clone());
    c.distinct(&what);
    let mut prints: Option<Vec<(usize, usize)>> = None;
    for i in 0..n {
        let w = t.select_and_rerandomize_prover_witness(i, 0, p);
        c.check(w.odd_internal_nodes.last().map(|x| x.child_witness) == Some(set[i]), || format!("the witness of leaf {} ends in another leaf", i));
        let mut shape: Vec<(usize, usize)> = vec![];
        for nd in &w.even_internal_nodes {
            let r = nonzero_scalar::<K::F1, _>(&mut c.rng);
            let s = level::<_, _, K::P0, K::P1, L>(&p.even_parameters.pc_gens, &p.odd_parameters, &nd.siblings, nd.child_witness, r, shape.is_empty());
            c.check(s.0, || format!("leaf {}: the constraints of an even level fail for the honest witness with randomness {}", i, r));
            shape.push((s.1, s.2));
        }
        for nd in &w.odd_internal_nodes {
            let r = nonzero_scalar::<K::F0, _>(&mut c.rng);
            let s = level::<_, _, K::P1, K::P0, L>(&p.odd_parameters.pc_gens, &p.even_parameters, &nd.siblings, nd.child_witness, r, shape.is_empty());
            c.check(s.0, || format!("leaf {}: the constraints of an odd level fail for the honest witness with randomness {}", i, r));
            shape.push((s.1, s.2));
        }
        c.count("levels whose constraints were evaluated", shape.len() as u64);
        match &prints {
            None => prints = Some(shape),
            Some(q) => {
                c.check(*q == shape, || format!("leaf {} has a circuit of another size", i));
            }
        }
    }
}

type Level = (bool, usize, usize);
fn level<F0: PrimeField, F1: PrimeField, P: Curve + Copy + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + Copy + SWCurveConfig<BaseField = F0, ScalarField = F1>, const L: usize>(
    pc: &PedersenGens<Aff<P>>,
    odd: &SingleLayerParameters<Q>,
    siblings: &[F0; L],
    child: Aff<Q>,
    r: F1,
    public: bool,
) -> Level {
    let mut rec = Rec::<P>::new(pc);
    let children: Vec<LinearCombination<F0>> = if public {
        siblings.iter().map(|s| constant(*s)).collect()
    } else {
        siblings.iter().map(|s| rec.input(*s).into()).collect()
    };
    let out = rerandomized::<Q>(&child, &r, odd);
    single_level_select_and_rerandomize(&mut rec, odd, &out, children, Some((child + odd.delta).into_affine()), Some(r));
    (rec.satisfied(), rec.gates(), rec.rows())
}

/// Many levels, few leaves.
fn tall<K: Cycle>(c: &mut Case) {
    let h = if c.tier == ctmon::report::Tier::Thorough { 5 + c.below(5) } else { 5 + (c.idx as usize / 4) % 4 };
    let n = 1 + c.below(5);
    full_with::<K, 2, 1>(c, n, Some(h), if h > 8 { 2 * GENS } else { GENS })
}

/// Trees with more places than a machine integer counts.
fn vast<K: Cycle>(c: &mut Case) {
    c.count("trees of more than 2^63 places", 1);
    let n = 1 + c.below(5);
    match c.idx % 3 {
        0 => full_with::<K, 256, 1>(c, n, Some(8), 2 * GENS),
        1 => full_with::<K, 256, 1>(c, 257 + n, Some(9), 2 * GENS),
        _ => full_with::<K, 1024, 1>(c, n, Some(7), 2 * GENS),
    }
}

/// Many leaves: the index no longer fits one byte, or two.
fn wide<K: Cycle>(c: &mut Case) {
    if c.idx == 0 || (c.tier == ctmon::report::Tier::Thorough && c.idx % 24 < 4) {
        let n = 65537 + c.below(300);
        return at::<K, 256>(c, n, Some(3), 65536, 1 << 13);
    }
    match c.idx / 4 % 3 {
        0 => {
            let n = 257 + c.below(700);
            at::<K, 32>(c, n, Some(2), 256, GENS)
        }
        1 => {
            let n = 257 + c.below(700);
            at::<K, 4>(c, n, Some(5), 256, GENS)
        }
        _ => {
            let n = 257 + c.below(300);
            at::<K, 256>(c, n, None, 256, GENS)
        }
    }
}

/// The proof has to verify in the shared thread pool too, where both curves are proven at once.
fn pooled<K: Cycle>(c: &mut Case) {
    let n = 3 + c.below(5);
    full::<K, 2, 1>(c, n, None)
}

fn main() {
    let mut r = Report::new(
        "C14",
        "a case is one (curve cycle, branching factor, sets, leaves, height, shown leaf); the shown commitment is compared with leaf + r*B_blinding by double-and-add and both proofs are verified, directly and after encoding; cheap cases evaluate the recorded constraints of every level for every leaf",
    );
    r.assume("rerandomization by exactly zero is excluded: the library draws the randomness and hits zero with negligible probability");
    r.require("membership proofs verified", 60);
    r.require("leaves far to the right shown", 12);
    r.require("levels whose constraints were evaluated", 100);
    r.stage("full", 72, 4000, |c| match c.idx % 4 {
        0 => sizes::<PV>(c),
        1 => sizes::<VP>(c),
        2 => sizes::<SQ>(c),
        _ => sizes::<QS>(c),
    });
    r.require("tight parameters", 4);
    r.stage("tight", 12, 400, |c| on_tree!(c.idx, tights[](c)));
    r.require("composed showings", 4);
    r.stage("composed", 12, 400, |c| on_tree!(c.idx, composed[](c)));
    r.stage("tall", 16, 400, |c| match c.idx % 4 {
        0 => tall::<PV>(c),
        1 => tall::<VP>(c),
        2 => tall::<SQ>(c),
        _ => tall::<QS>(c),
    });
    r.stage("vast", 4, 96, |c| {
        let c2 = c.idx + c.idx / 4;
        match c2 % 4 {
            0 => vast::<PV>(c),
            1 => vast::<VP>(c),
            2 => vast::<SQ>(c),
            _ => vast::<QS>(c),
        }
    });
    r.stage("wide", 12, 240, |c| match c.idx % 4 {
        0 => wide::<PV>(c),
        1 => wide::<VP>(c),
        2 => wide::<SQ>(c),
        _ => wide::<QS>(c),
    });
    r.stage_on("pooled", 4, 100, 1, false, |c| match c.idx % 4 {
        0 => pooled::<PV>(c),
        1 => pooled::<VP>(c),
        2 => pooled::<SQ>(c),
        _ => pooled::<QS>(c),
    });
    r.stage("every leaf", 60, 3000, |c| {
        let k = c.below(3);
        match k {
            0 => {
                let n = 2 + c.below(15);
                on_tree!(c.idx, every_leaf[2](c, n, None))
            }
            1 => {
                let n = 1 + c.below(9);
                on_tree!(c.idx, every_leaf[3](c, n, Some(3)))
            }
            _ => {
                let n = 2 + c.below(15);
                on_tree!(c.idx, every_leaf[8](c, n, None))
            }
        }
    });
    r.finish();
}
