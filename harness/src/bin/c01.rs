//! C01: an honest proof of a satisfied constraint system is always produced and accepted.
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::*;
use ctmon::cycles::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use rand::Rng;
use std::sync::Arc;

fn run<P: Curve>(c: &mut Case, prog: Program<Fr<P>>, slack: usize) {
    let prog = Arc::new(prog);
    let (_, n) = prog.muls();
    let cap = n.next_power_of_two() + slack;
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1 + c.below(2));
    let d = format!("{} {} capacity={}", P::NAME, prog.summary(), cap);
    c.describe(d.clone());
    c.distinct(&d);
    c.count("multipliers", n as u64);
    c.count("linear constraints", prog.num_constraints() as u64);
    c.count("commitments", prog.phase1.iter().filter(|o| matches!(o, Op::Commit(..) | Op::CommitVec(..))).count() as u64);
    let pr = prove::<P>(&prog, b"c01", &pc, &bp);
    match pr.proof {
        Err(e) => c.fail(format!("proving a satisfied system failed: {:?}", e)),
        Ok(proof) => {
            let r = verify::<P>(&prog, b"c01", &pr.points, &proof, &pc, &bp);
            c.check(r.is_ok(), || format!("verifier rejected an honest proof: {:?}", r));
            match R1CSProof::<Aff<P>>::from_bytes(&proof.to_bytes()) {
                Err(e) => c.fail(format!("honest proof does not decode: {:?}", e)),
                Ok(p2) => {
                    let r = verify::<P>(&prog, b"c01", &pr.points, &p2, &pc, &bp);
                    c.check(r.is_ok(), || format!("decoded honest proof rejected: {:?}", r));
                }
            }
            c.count("proofs accepted", 1);
        }
    }
    c.sample(|| d);
}

fn random<P: Curve>(c: &mut Case) {
    let shape = Shape::random(&mut c.rng);
    let prog = Program::<Fr<P>>::random(&mut c.rng, shape);
    let slack = if c.coin() { 0 } else { c.below(9) };
    run::<P>(c, prog, slack)
}

/// Many gates, commitments, terms or callbacks, long vectors.
fn large<P: Curve>(c: &mut Case) {
    let gates = [300, 700, 1500, 3000][(c.idx as usize / 4) % 4];
    let shape = Shape::big(&mut c.rng, gates);
    let prog = Program::<Fr<P>>::random(&mut c.rng, shape);
    let slack = if c.coin() { 0 } else { c.below(300) };
    c.count("large systems", 1);
    run::<P>(c, prog, slack)
}

/// Shapes at boundaries: empty, no multipliers, sizes around powers of two, vectors longer than
/// the multipliers, many vector commitments, second phase with nothing in the first.
fn boundary<P: Curve>(c: &mut Case) {
    let which = (c.idx / 4) as usize;
    let mut s = Shape { max_commits: 2, max_vec: 0, max_vec_len: 1, ops1: 0, callbacks: 0, ops2: 0, mul2: false, max_terms: 3 };
    let mut prog: Program<Fr<P>>;
    let f = |x: u64| Fr::<P>::from(x);
    match which % 8 {
        0 => {
            s.max_commits = 0;
            prog = Program { phase1: vec![], phase2: vec![vec![]; (which / 8) % 3] };
        }
        1 => {
            // exactly k multipliers
            let k = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65][(which / 8) % 16];
            prog = Program::random(&mut c.rng, s);
            for _ in 0..k {
                let (a, b) = (edge_scalar(&mut c.rng), edge_scalar(&mut c.rng));
                prog.phase1.push(Op::AllocMul(vec![a], vec![b]));
            }
        }
        2 => {
            // many vector commitments
            s.max_vec_len = 1 + c.below(4);
            prog = Program { phase1: vec![], phase2: vec![] };
            let k = (which / 8) % 18;
            let mut terms = vec![];
            let mut sum = f(0);
            for j in 0..k {
                let vs: Vec<Fr<P>> = (0..s.max_vec_len).map(|_| edge_scalar(&mut c.rng)).collect();
                let co: Fr<P> = edge_scalar(&mut c.rng);
                sum += co * vs[0];
                terms.push((Some(j * s.max_vec_len), vec![co]));
                let r = edge_scalar(&mut c.rng);
                prog.phase1.push(Op::CommitVec(vs, r));
            }
            terms.push((None, vec![-sum]));
            prog.phase1.push(Op::Con(Lin { terms }));
        }
        3 => {
            // vector longer than the multipliers; a constraint on its last entry
            let len = 1 + c.below(40);
            let vs: Vec<Fr<P>> = (0..len).map(|_| edge_scalar(&mut c.rng)).collect();
            let last = vs[len - 1];
            prog = Program {
                phase1: vec![
                    Op::CommitVec(vs, edge_scalar(&mut c.rng)),
                    Op::Mul(Lin { terms: vec![(Some(len - 1), vec![f(1)])] }, Lin { terms: vec![(None, vec![f(3)])] }),
                    Op::Con(Lin { terms: vec![(Some(len + 2), vec![f(1)]), (None, vec![-(last * f(3))])] }),
                ],
                phase2: vec![],
            };
        }
        4 => {
            // second phase only
            s.callbacks = 1 + c.below(3);
            s.ops2 = 6;
            s.mul2 = true;
            prog = Program::random(&mut c.rng, s);
        }
        5 => {
            // pending single allocation at the phase boundary
            s.callbacks = 2;
            s.ops2 = 4;
            s.mul2 = true;
            prog = Program::random(&mut c.rng, s);
            prog.phase1.push(Op::Msg(vec![1, 2, 3]));
            let extra = vec![Op::Alloc(vec![f(7)])];
            // appended handles would shift the callbacks' handles: use a fresh program instead
            let mut p = Program { phase1: extra, phase2: vec![vec![Op::Alloc(vec![f(5), f(2)]), Op::Alloc(vec![f(1)])], vec![Op::Alloc(vec![f(9)]), Op::Con(Lin { terms: vec![(Some(3), vec![f(1)]), (None, vec![-f(9)])] })]] };
            if c.coin() {
                p.phase2.pop();
            }
            prog = p;
        }
        6 => {
            // same commitment used many times, zero values, zero blindings, duplicate vectors
            let v = edge_scalar::<Fr<P>, _>(&mut c.rng);
            prog = Program {
                phase1: vec![
                    Op::Commit(v, f(0)),
                    Op::Commit(v, f(0)),
                    Op::CommitVec(vec![v, v, f(0)], f(0)),
                    Op::CommitVec(vec![v, v, f(0)], f(0)),
                    Op::Con(Lin { terms: vec![(Some(0), vec![f(1)]), (Some(1), vec![-f(1)])] }),
                    Op::Con(Lin { terms: vec![(Some(2), vec![f(2)]), (Some(5), vec![-f(1)]), (Some(6), vec![-f(1)])] }),
                    Op::Con(Lin { terms: vec![(Some(7), vec![f(2)])] }),
                    Op::Con(Lin { terms: vec![] }),
                ],
                phase2: vec![],
            };
        }
        _ => {
            s = Shape { max_commits: 3, max_vec: 2, max_vec_len: 30, ops1: 100, callbacks: 0, ops2: 0, mul2: false, max_terms: 20 };
            prog = Program::random(&mut c.rng, s);
        }
    }
    run::<P>(c, prog, 0)
}

/// Several proofs over one running transcript, with surrounding messages.
fn composed<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(128, 1);
    let k = 2 + c.below(3);
    let progs: Vec<Arc<Program<Fr<P>>>> = (0..k)
        .map(|_| {
            let s = Shape::random(&mut c.rng);
            let mut p = Program::random(&mut c.rng, s);
            while p.muls().1 > 128 {
                let s = Shape::random(&mut c.rng);
                p = Program::random(&mut c.rng, s);
            }
            Arc::new(p)
        })
        .collect();
    let d = format!("{} {}", P::NAME, progs.iter().map(|p| p.summary()).collect::<Vec<_>>().join(" | "));
    c.describe(d.clone());
    c.distinct(&d);
    let note: u64 = c.rng.gen();
    let mut pt = Transcript::new(b"composed");
    let mut vt = Transcript::new(b"composed");
    for p in &progs {
        pt.append_u64(b"context", note);
        vt.append_u64(b"context", note);
        let (prover, points, _) = build_prover::<P, _>(p, &mut pt, &pc, &bp);
        let proof = match prover.prove(&bp) {
            Ok(p) => p,
            Err(e) => return c.fail(format!("proving failed: {:?}", e)),
        };
        let (verifier, _) = build_verifier::<P, _>(p, &mut vt, &points);
        let r = verifier.verify(&proof, &pc, &bp);
        c.check(r.is_ok(), || format!("proof over a running transcript rejected: {:?}", r));
        c.count("proofs accepted", 1);
    }
    // owned transcript, and the transcript handed back by the prover
    let t = Transcript::new(b"owned");
    let (prover, points, _) = build_prover::<P, _>(&progs[0], t, &pc, &bp);
    match prover.prove_and_return_transcript(&bp) {
        Ok((proof, mut t)) => {
            let mut tv = Transcript::new(b"owned");
            let r = build_verifier::<P, _>(&progs[0], &mut tv, &points).0.verify(&proof, &pc, &bp);
            c.check(r.is_ok(), || format!("owned-transcript proof rejected: {:?}", r));
            let (mut a, mut b) = ([0u8; 16], [0u8; 16]);
            t.challenge_bytes(b"after", &mut a);
            tv.challenge_bytes(b"after", &mut b);
            c.check(a == b, || "prover's and verifier's transcripts differ after the proof".into());
        }
        Err(e) => c.fail(format!("prove_and_return_transcript failed: {:?}", e)),
    }
    c.sample(|| d);
}

fn many_vectors<P: Curve>(c: &mut Case) {
    let k = match (c.idx as usize / 4) % 8 {
        0 => 17,
        1 => 18,
        2 => 19,
        3 => 20 + c.below(10),
        4 => 30 + c.below(30),
        5 => 63 + c.below(4),
        _ => 5 + c.below(20),
    };
    c.count("statements with five vector commitments or more", 1);
    let prog = Program::<Fr<P>>::with_vectors(&mut c.rng, k, 4);
    run::<P>(c, prog, 0)
}

fn main() {
    let mut r = Report::new(
        "C01",
        "Random satisfied constraint systems over 4 curves (scalar and vector commitments, multiply/allocate/allocate_multiplier/constrain, user messages, randomized callbacks; edge-biased scalars), boundary shapes, and several proofs on one transcript; each is proved and verified by the real code, before and after an encode/decode. Distinct = curve and circuit shape.",
    );
    r.stage("boundary", 640, 6400, |c| {
        let i = c.idx as usize;
        on_curve!(i, boundary(c))
    });
    r.stage("random", 2400, 150000, |c| {
        let i = c.idx as usize;
        on_curve!(i, random(c))
    });
    r.stage("many vectors", 64, 1600, |c| {
        let i = c.idx as usize;
        on_curve!(i, many_vectors(c))
    });
    r.stage("large", 48, 1200, |c| {
        let i = c.idx as usize;
        on_curve!(i, large(c))
    });
    r.stage("composed", 160, 8000, |c| {
        let i = c.idx as usize;
        on_curve!(i, composed(c))
    });
    r.require("proofs accepted", 8);
    r.finish()
}
