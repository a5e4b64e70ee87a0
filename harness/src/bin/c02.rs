//! C02: a proof is accepted only for a satisfied system and only for the statement it was made for.
use ark_ec::AffineRepr;
use ark_ff::Zero;
use ark_std::UniformRand;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::*;
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::refver::*;
use ctmon::report::Case;
use ctmon::*;
use rand::Rng;
use std::collections::HashMap;
use std::sync::Arc;

const LABEL: &[u8] = b"c02";

fn small_prog<P: Curve>(c: &mut Case) -> Program<Fr<P>> {
    loop {
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 64 && p.num_constraints() > 0 {
            return p;
        }
    }
}

/// The equation the verifier evaluates is the protocol's equation for this statement.
fn equation<P: Curve>(c: &mut Case) {
    let prog = small_prog::<P>(c);
    equation_of::<P>(c, prog)
}

fn large<P: Curve>(c: &mut Case) {
    let shape = Shape::big(&mut c.rng, 400);
    let prog = Program::<Fr<P>>::random(&mut c.rng, shape);
    c.count("large systems", 1);
    equation_of::<P>(c, prog)
}

/// Five to thirty vector commitments.
fn many_vectors<P: Curve>(c: &mut Case) {
    let k = if c.coin() { 5 + c.below(10) } else { 15 + c.below(18) };
    let prog = Program::<Fr<P>>::with_vectors(&mut c.rng, k, 3);
    c.count("systems with many vector commitments", 1);
    equation_of::<P>(c, prog)
}

/// Few multipliers, thousands of constraints; also two of them broken by opposite amounts.
fn many_constraints<P: Curve>(c: &mut Case) {
    let n = [300usize, 600, 1100, 2100, 4200][(c.idx as usize / 4) % 5] + c.below(9);
    let mut prog = small_prog::<P>(c);
    let hs = Program { phase1: prog.phase1.clone(), phase2: vec![] }.values(&[]);
    for _ in 0..n {
        let mut terms = vec![];
        let mut sum = Fr::<P>::zero();
        for _ in 0..c.below(3) {
            if !hs.is_empty() {
                let h = c.below(hs.len());
                let k: Fr<P> = edge_scalar(&mut c.rng);
                sum += hs[h] * k;
                terms.push((Some(h), vec![k]));
            }
        }
        terms.push((None, vec![-sum]));
        prog.phase1.push(Op::Con(Lin { terms }));
    }
    let d: Fr<P> = nonzero_scalar(&mut c.rng);
    let cons: Vec<usize> = prog.phase1.iter().enumerate().filter(|(_, o)| matches!(o, Op::Con(_))).map(|x| x.0).collect();
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    for dist in [1, 64, 128, 255, 256, 512, 1024, 2048, 4096, cons.len() - 1] {
        if dist >= cons.len() {
            continue;
        }
        let i = c.below(cons.len() - dist);
        let mut bad = prog.clone();
        for (at, e) in [(cons[i], d), (cons[i + dist], -d)] {
            if let Op::Con(l) = &mut bad.phase1[at] {
                l.terms.push((None, vec![e]));
            }
        }
        let bad = Arc::new(bad);
        if let Ok(pr) = guard(|| prove::<P>(&bad, LABEL, &pc, &bp)) {
            if let Ok(proof) = pr.proof {
                let r = verify::<P>(&bad, LABEL, &pr.points, &proof, &pc, &bp);
                c.check(r.is_err(), || format!("opposite errors in constraints {} apart were accepted", dist));
                c.count("adversarial statements judged", 1);
            }
        }
    }
    c.count("systems with hundreds of constraints", 1);
    equation_of::<P>(c, prog)
}

fn equation_of<P: Curve>(c: &mut Case, prog: Program<Fr<P>>) {
    let prog = Arc::new(prog);
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let gens = RefGens::<P>::new(cap);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let proof = match pr.proof {
        Ok(p) => p,
        Err(e) => return c.fail(format!("honest proving failed {:?}", e)),
    };
    let w = match Wire::<P>::decode(&proof.to_bytes()) {
        Some(w) => w,
        None => return c.fail("the proof does not have the documented layout"),
    };
    let o = match ref_verify::<P>(&prog, LABEL, &pr.points, &w, &gens) {
        Ok(o) => o,
        Err(e) => return c.fail(format!("the reference verifier rejects an honest proof: {}", e)),
    };
    c.eval();
    // (1) the exported verification tuple
    let mut ratios = vec![];
    for _ in 0..2 {
        let t = match tuple::<P>(&prog, LABEL, &pr.points, &proof) {
            Ok(t) => t,
            Err(e) => return c.fail(format!("no verification tuple for an honest proof {:?}", e)),
        };
        let m = (t.proof_independent_scalars.len().max(2) - 2) / 2;
        if !c.check(m == o.padded_n, || format!("tuple covers {} generators, the statement needs {}", m, o.padded_n)) {
            return;
        }
        let mut obs: Eqn<P> = HashMap::new();
        let fixed = [gens.b, gens.bb].into_iter().chain(gens.g[..m].iter().copied()).chain(gens.h[..m].iter().copied());
        c.check(t.proof_dependent_points.len() == t.proof_dependent_scalars.len(), || "tuple lengths differ".into());
        for (p, s) in t.proof_dependent_points.iter().copied().zip(&t.proof_dependent_scalars).chain(fixed.zip(&t.proof_independent_scalars)) {
            add_term::<P>(&mut obs, &p, *s);
        }
        match in_span::<P>(&obs, &o) {
            Ok((a, b)) => {
                c.eval();
                c.count("verification equations compared", 1);
                c.count("coefficients compared", obs.len() as u64);
                ratios.push(b / a);
            }
            Err(e) => return c.fail(format!("verification equation: {}", e)),
        }
    }
    // (2) the weight joining the two equations is not a fixed number
    c.check(ratios[0] != ratios[1], || "the weight joining the two verification equations repeats across verifications".into());
    // (3) the multi-scalar multiplication verify() itself runs
    let (r, obs) = capture::msms::<P, _>(|| verify::<P>(&prog, LABEL, &pr.points, &proof, &pc, &bp));
    c.check(r.is_ok(), || format!("honest proof rejected {:?}", r));
    match capture::final_equation::<P>(&obs) {
        None => c.count("verify() multiplications not observed", 1),
        Some((bases, scalars)) => {
            let mut e: Eqn<P> = HashMap::new();
            for (p, s) in bases.iter().zip(&scalars) {
                add_term::<P>(&mut e, p, *s);
            }
            let r = in_span::<P>(&e, &o);
            c.check(r.is_ok(), || format!("equation evaluated by verify(): {}", r.unwrap_err()));
            c.count("verify() multiplications compared", 1);
        }
    }
    c.sample(|| d);
}

/// Mutations of the statement or witness; returns (description, prover program, verifier program,
/// commitment edits) — the verifier must reject when the verifier's program is not satisfied.
fn unsatisfied<P: Curve>(c: &mut Case) {
    let prog = small_prog::<P>(c);
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let gens = RefGens::<P>::new(cap);
    let mut pp = prog.clone();
    let mut vp = prog.clone();
    let mut edit_points: Option<(usize, usize)> = None;
    let mut label: &'static [u8] = LABEL;
    let kind = c.below(12);
    let ncon = prog.num_constraints();
    let target = c.below(ncon);
    let delta: Fr<P> = nonzero_scalar(&mut c.rng);
    let hs = prog.values(&vec![Fr::<P>::from(0u64); prog.phase2.len()]).len();
    let in_challenge = c.coin();
    let rnd_handle = if hs > 0 { c.below(hs) } else { 0 };
    let rnd_coef: Fr<P> = nonzero_scalar(&mut c.rng);
    let mut must_reject = false;
    // apply `f` to the target-th explicit constraint; tells whether it is in a callback
    fn on_con<F: ark_ff::PrimeField>(p: &mut Program<F>, target: usize, f: &mut dyn FnMut(&mut Lin<F>, bool)) {
        let mut i = 0;
        for o in p.phase1.iter_mut() {
            if let Op::Con(l) = o {
                if i == target {
                    f(l, false)
                }
                i += 1;
            }
        }
        for o in p.phase2.iter_mut().flatten() {
            if let Op::Con(l) = o {
                if i == target {
                    f(l, true)
                }
                i += 1;
            }
        }
    }
    let what;
    match kind {
        0 | 1 | 2 => {
            // a false constraint, stated by both sides
            what = "constraint broken on both sides";
            let mut f = |l: &mut Lin<Fr<P>>, two: bool| {
                let co = if two && in_challenge { vec![Fr::<P>::zero(), delta] } else { vec![delta] };
                l.terms.push((None, co));
            };
            on_con(&mut pp, target, &mut f);
            on_con(&mut vp, target, &mut f);
            must_reject = true;
        }
        3 => {
            what = "verifier's constant differs";
            on_con(&mut vp, target, &mut |l, _| l.terms.push((None, vec![delta])));
            must_reject = true;
        }
        4 => {
            what = "verifier's coefficient differs";
            on_con(&mut vp, target, &mut |l, two| {
                let lim = if two { 0 } else { usize::MAX };
                let _ = lim;
                if let Some(t) = l.terms.iter_mut().find(|t| t.0.is_some()) {
                    t.1[0] += rnd_coef;
                } else {
                    l.terms.push((None, vec![delta]));
                }
            });
        }
        5 => {
            what = "prover lacks a constraint the verifier has broken";
            on_con(&mut pp, target, &mut |l, _| l.terms.clear());
            on_con(&mut vp, target, &mut |l, _| {
                l.terms.push((None, vec![delta]));
            });
            must_reject = true;
        }
        6 => {
            what = "a multiplication's input differs";
            let _ = rnd_handle;
            let mut done = false;
            for o in vp.phase1.iter_mut().chain(vp.phase2.iter_mut().flatten()) {
                if let Op::Mul(l, _) = o {
                    if !done {
                        l.terms.push((None, vec![delta]));
                        done = true;
                    }
                }
            }
            if !done {
                return;
            }
            must_reject = true;
        }
        7 => {
            what = "a commitment is replaced";
            let n = prog.phase1.iter().filter(|o| matches!(o, Op::Commit(..) | Op::CommitVec(..))).count();
            if n == 0 {
                return;
            }
            edit_points = Some((c.below(n), usize::MAX));
            must_reject = true;
        }
        8 => {
            what = "two commitments are swapped";
            let n = prog.phase1.iter().filter(|o| matches!(o, Op::Commit(..) | Op::CommitVec(..))).count();
            if n < 2 {
                return;
            }
            let a = c.below(n);
            let b = c.below(n);
            edit_points = Some((a, b));
        }
        9 => {
            what = "a user message differs";
            let mut done = false;
            for o in vp.phase1.iter_mut() {
                if let Op::Msg(b) = o {
                    b.push(1);
                    done = true;
                }
            }
            if !done {
                label = b"c02x";
            }
            must_reject = true;
        }
        10 => {
            what = "the constraint list is rotated";
            // two different constraints exchanged in the verifier's first phase
            let idx: Vec<usize> = vp.phase1.iter().enumerate().filter(|(_, o)| matches!(o, Op::Con(_))).map(|x| x.0).collect();
            if idx.len() < 2 {
                return;
            }
            vp.phase1.swap(idx[0], idx[idx.len() - 1]);
            // handles may not exist yet at the earlier place
            let (lo, hi) = (idx[0], idx[idx.len() - 1]);
            let have = Program { phase1: vp.phase1[..lo].to_vec(), phase2: vec![] }.values(&[]).len();
            if let Op::Con(l) = &vp.phase1[lo] {
                if l.terms.iter().any(|t| t.0.map(|h| h >= have).unwrap_or(false)) || hi == lo {
                    return;
                }
            }
        }
        _ => {
            what = "an extra false constraint on the verifier's side";
            vp.phase1.push(Op::Con(Lin { terms: vec![(None, vec![delta])] }));
            must_reject = true;
        }
    }
    let (pp, vp) = (Arc::new(pp), Arc::new(vp));
    let d = format!("{}: {} [{}]", what, P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let pr = match guard(|| prove::<P>(&pp, LABEL, &pc, &bp)) {
        Ok(p) => p,
        Err(_) => return, // the prover may refuse a false statement
    };
    let proof = match pr.proof {
        Ok(p) => p,
        Err(_) => return,
    };
    let mut points = pr.points.clone();
    if let Some((a, b)) = edit_points {
        if b == usize::MAX {
            let q = match c.below(3) {
                0 => rand_point::<P, _>(&mut c.rng),
                1 => (Proj::<P>::from(points[a]) + pc.B).into(),
                _ => (-points[a]).into(),
            };
            if q == points[a] {
                return;
            }
            points[a] = q;
        } else {
            points.swap(a, b);
            must_reject = points != pr.points;
        }
    }
    let real = guard(|| verify::<P>(&vp, label, &points, &proof, &pc, &bp));
    let real = match real {
        Ok(r) => r,
        Err(p) => return c.fail(format!("verification panicked: {}", p)),
    };
    c.count("adversarial statements judged", 1);
    if must_reject {
        c.check(real.is_err(), || "a proof was accepted for a statement that is false or not the one proved".into());
    }
    if let Some(w) = Wire::<P>::decode(&proof.to_bytes()) {
        let rf = ref_verify::<P>(&vp, label, &points, &w, &gens);
        c.check(rf.is_ok() == real.is_ok(), || format!("verdict {:?} but the reference verifier says {:?}", real, rf.as_ref().map(|_| ())));
        if let Ok(o) = &rf {
            c.count("reference verdict: accept", 1);
            // an accepted statement must be satisfied by the prover's witness
            if edit_points.is_none() && kind != 4 && kind != 10 {
                c.check(vp.failing(&o.callback_challenges).is_empty(), || "accepted, yet constraints fail".into());
            }
        } else {
            c.count("reference verdict: reject", 1);
        }
    }
    c.sample(|| format!("{} -> {:?}", d, real));
}

/// Wrong generators: a proof made for one set of generators is rejected under another.
fn wrong_gens<P: Curve>(c: &mut Case) {
    let mut prog = small_prog::<P>(c);
    while prog.muls().1 == 0 {
        // a system without multipliers never involves the value generator
        prog = small_prog::<P>(c);
    }
    let prog = Arc::new(prog);
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let proof = pr.proof.expect("honest proof");
    let mut pc2 = pc.clone();
    if c.coin() {
        pc2.B = rand_point::<P, _>(&mut c.rng);
    } else {
        pc2.B_blinding = rand_point::<P, _>(&mut c.rng);
    }
    let r = verify::<P>(&prog, LABEL, &pr.points, &proof, &pc2, &bp);
    c.check(r.is_err(), || "accepted under different commitment generators".into());
    // proof by a prover with other generators
    let pr2 = prove::<P>(&prog, LABEL, &pc2, &bp);
    if let Ok(p2) = pr2.proof {
        let r = verify::<P>(&prog, LABEL, &pr2.points, &p2, &pc, &bp);
        c.check(r.is_err(), || "a proof made under other generators is accepted".into());
    }
    let _ = Fr::<P>::rand(&mut c.rng);
    c.count("adversarial statements judged", 2);
}

/// The multiplication gates: a prover that claims an output for a gate that is not the product
/// (possible for a half-allocated gate, or by stating the product to be something else).
fn gates<P: Curve>(c: &mut Case) {
    let f = |x: u64| Fr::<P>::from(x);
    let k = 1 + c.below(6);
    let two = c.coin();
    let mut pp = Program::<Fr<P>> { phase1: vec![], phase2: vec![] };
    let mut vp = pp.clone();
    // prover allocates l, r freely; the verifier ties them to the committed values and ties the
    // output to something that is not the product
    let a = rand_nonzero::<Fr<P>, _>(&mut c.rng);
    let b = rand_nonzero::<Fr<P>, _>(&mut c.rng);
    for p in [&mut pp, &mut vp] {
        p.phase1.push(Op::Commit(a, f(5)));
        p.phase1.push(Op::Commit(b, f(6)));
    }
    let wrong = a * b + nonzero_scalar::<Fr<P>, _>(&mut c.rng);
    for p in [&mut pp, &mut vp] {
        p.phase1.push(Op::Commit(wrong, f(7)));
    }
    let mut body = vec![];
    for i in 0..k {
        let base = 3 + 3 * i;
        body.push(Op::AllocMul(vec![a], vec![b]));
        body.push(Op::Con(Lin { terms: vec![(Some(0), vec![f(1)]), (Some(base), vec![-f(1)])] }));
        body.push(Op::Con(Lin { terms: vec![(Some(1), vec![f(1)]), (Some(base + 1), vec![-f(1)])] }));
    }
    let j = 3 + 3 * c.below(k);
    // o_j = third commitment: false
    body.push(Op::Con(Lin { terms: vec![(Some(j + 2), vec![f(1)]), (Some(2), vec![-f(1)])] }));
    for p in [&mut pp, &mut vp] {
        if two {
            p.phase2 = vec![body.clone()];
        } else {
            p.phase1.extend(body.clone());
        }
    }
    let pp = Arc::new(pp);
    let cap = pp.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let d = format!("gate {} k={} phase2={}", P::NAME, k, two);
    c.describe(d.clone());
    c.distinct(&d);
    let pr = prove::<P>(&pp, LABEL, &pc, &bp);
    if let Ok(proof) = pr.proof {
        let r = verify::<P>(&pp, LABEL, &pr.points, &proof, &pc, &bp);
        c.check(r.is_err(), || "a false multiplication was accepted".into());
        c.count("adversarial statements judged", 1);
    }
    let _: bool = c.rng.gen();
}

fn main() {
    let mut r = Report::new(
        "C02",
        "Random constraint systems over 4 curves. 'equation': the coefficients of every point in the real verification equation (exported tuple and the multiplication verify() runs) are compared with an independent verifier written from the protocol. 'unsatisfied': 12 ways of breaking one constraint, gate, commitment, message, generator or the verifier's statement; verdict compared with plain evaluation of the constraints and with the independent verifier. Distinct = mutation, curve and circuit shape.",
    );
    r.assume("the protocol as specified (the extended Bulletproofs argument with vector commitments) is sound; the check decides that the code implements it");
    r.stage("equation", 800, 40000, |c| {
        let i = c.idx as usize;
        on_curve!(i, equation(c))
    });
    r.stage("many_constraints", 20, 600, |c| {
        let i = c.idx as usize;
        on_curve!(i, many_constraints(c))
    });
    r.stage("many vectors", 48, 1200, |c| {
        let i = c.idx as usize;
        on_curve!(i, many_vectors(c))
    });
    r.stage("large", 32, 800, |c| {
        let i = c.idx as usize;
        on_curve!(i, large(c))
    });
    r.stage("unsatisfied", 2400, 150000, |c| {
        let i = c.idx as usize;
        on_curve!(i, unsatisfied(c))
    });
    r.stage("gates", 160, 4000, |c| {
        let i = c.idx as usize;
        on_curve!(i, gates(c))
    });
    r.stage("generators", 160, 4000, |c| {
        let i = c.idx as usize;
        on_curve!(i, wrong_gens(c))
    });
    r.require("adversarial statements judged", 8);
    r.finish()
}
