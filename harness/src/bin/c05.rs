//! C05: decoding and verifying untrusted bytes always terminates with a verdict (no panic, overflow,
//! failed assertion or endless loop), in builds with debug assertions and overflow checks.
use ark_ec::AffineRepr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::*;
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::report::Case;
use ctmon::*;
use rand::{Rng, RngCore};
use relations::curve_tree::SelectAndRerandomizePath;
use std::sync::Arc;

const LABEL: &[u8] = b"c05";

fn small<P: Curve>(c: &mut Case) -> Arc<Program<Fr<P>>> {
    loop {
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 16 {
            return Arc::new(p);
        }
    }
}

/// Verify against `prog`, catching panics. Also through batch verification.
fn judge<P: Curve>(c: &mut Case, prog: &Arc<Program<Fr<P>>>, points: &[Aff<P>], proof: &R1CSProof<Aff<P>>, pc: &PedersenGens<Aff<P>>, bp: &BulletproofGens<Aff<P>>, what: &str) {
    let r = guard(|| verify::<P>(prog, LABEL, points, proof, pc, bp));
    match &r {
        Ok(Ok(())) => c.count("verdict: accept", 1),
        Ok(Err(_)) => c.count("verdict: reject", 1),
        Err(_) => {}
    }
    c.check(r.is_ok(), || format!("verification panicked on {}: {}", what, r.unwrap_err()));
    let r = guard(|| match tuple::<P>(prog, LABEL, points, proof) {
        Ok(t) => batch_verify(vec![t], pc, bp).is_ok(),
        Err(_) => false,
    });
    c.check(r.is_ok(), || format!("batch verification panicked on {}: {}", what, r.unwrap_err()));
}

fn hostile_structure<P: Curve>(c: &mut Case) {
    let prog = small::<P>(c);
    let cap = prog.muls().1.next_power_of_two() * if c.coin() { 1 } else { 2 };
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    c.describe(format!("{} {}", P::NAME, prog.summary()));
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let proof = pr.proof.expect("honest proof");
    let wire = match Wire::<P>::decode(&proof.to_bytes()) {
        Some(w) => w,
        None => return c.fail("unreadable proof"),
    };
    let z = Aff::<P>::identity();
    for _ in 0..10 {
        let mut w = wire.clone();
        let mut names = vec![];
        for _ in 0..1 + c.below(2) {
            let r = rand_point::<P, _>(&mut c.rng);
            let k = c.below(16);
            let n = 1 + c.below(40);
            names.push(format!("mutation {} size {}", k, n));
            match k {
                0 => w.t = vec![r; n],
                1 => w.t.truncate(n - 1),
                2 => w.l = vec![r; n],
                3 => w.r = vec![r; n],
                4 => {
                    w.l = vec![r; n];
                    w.r = vec![r; n];
                }
                5 => w.l.clear(),
                6 => w.r.clear(),
                7 => {
                    w.flag = 1;
                    w.second = [r, z, r];
                }
                8 => {
                    for p in w.points_mut() {
                        *p = z
                    }
                }
                9 => {
                    let np = w.points_mut().len();
                    let i = c.below(np);
                    *w.points_mut()[i] = z;
                }
                10 => {
                    for s in w.scalars_mut() {
                        *s = edge_scalar(&mut c.rng)
                    }
                }
                11 => w.t.iter_mut().for_each(|p| *p = r),
                12 => {
                    w.t.clear();
                    w.l.clear();
                    w.r.clear();
                }
                13 => {
                    let n2 = w.l.len() + 1;
                    w.l = vec![r; n2];
                    w.r = vec![r; n2];
                }
                14 => w.t.push(z),
                _ => {
                    w.flag = 0;
                    w.second = [z; 3];
                }
            }
        }
        let what = names.join(", ");
        let bytes = w.encode();
        let d = guard(|| R1CSProof::<Aff<P>>::from_bytes(&bytes));
        c.count("byte strings decoded", 1);
        c.distinct(&format!("{} {} {}", P::NAME, what, prog.summary()));
        match d {
            Err(p) => c.fail(format!("decoding panicked on {}: {}", what, p)),
            Ok(Err(_)) => {
                c.eval();
                c.count("verdict: undecodable", 1);
            }
            Ok(Ok(p)) => {
                c.eval();
                judge::<P>(c, &prog, &pr.points, &p, &pc, &bp, &what);
            }
        }
    }
    c.sample(|| prog.summary());
}

/// Every number of rounds and of T commitments around the boundaries of machine integers.
fn counts<P: Curve>(c: &mut Case) {
    let prog = if c.coin() {
        small::<P>(c)
    } else {
        // statements without and with few multipliers: the round counts that wrap to their size are the nastiest
        let n = c.below(3);
        let f = |x: u64| Fr::<P>::from(x);
        Arc::new(Program::<Fr<P>> { phase1: (0..n).map(|i| Op::AllocMul(vec![f(3 + i as u64)], vec![f(5)])).collect(), phase2: vec![] })
    };
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(prog.muls().1.next_power_of_two(), 1);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let wire = match Wire::<P>::decode(&pr.proof.expect("honest proof").to_bytes()) {
        Some(w) => w,
        None => return c.fail("unreadable proof"),
    };
    let r = rand_point::<P, _>(&mut c.rng);
    let mut list: Vec<usize> = (0..=72).collect();
    list.extend([95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 1024]);
    for n in list {
        for k in 0..4 {
            let mut w = wire.clone();
            let what = match k {
                0 => {
                    w.l = vec![r; n];
                    w.r = vec![r; n];
                    format!("{} rounds", n)
                }
                1 => {
                    w.l = vec![r; n];
                    w.r = vec![r; n + 1];
                    format!("{} L and {} R", n, n + 1)
                }
                2 => {
                    w.l = vec![r; n + 1];
                    w.r = vec![r; n];
                    format!("{} L and {} R", n + 1, n)
                }
                _ => {
                    w.t.resize(n, r);
                    format!("{} T", n)
                }
            };
            c.count("shapes tried", 1);
            match guard(|| R1CSProof::<Aff<P>>::from_bytes(&w.encode())) {
                Err(p) => c.fail(format!("decoding panicked on {}: {}", what, p)),
                Ok(Err(_)) => c.count("verdict: undecodable", 1),
                Ok(Ok(p)) => judge::<P>(c, &prog, &pr.points, &p, &pc, &bp, &what),
            }
        }
    }
}

/// A valid proof against some other statement.
fn other_statement<P: Curve>(c: &mut Case) {
    let prog = small::<P>(c);
    let other = small::<P>(c);
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(16, 1);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let proof = pr.proof.expect("honest proof");
    let n = other.phase1.iter().filter(|o| matches!(o, Op::Commit(..) | Op::CommitVec(..))).count();
    let pts: Vec<Aff<P>> = (0..n)
        .map(|i| match c.below(4) {
            0 => Aff::<P>::identity(),
            1 if i < pr.points.len() => pr.points[i],
            _ => rand_point::<P, _>(&mut c.rng),
        })
        .collect();
    let d = format!("{}: proof of [{}] for [{}]", P::NAME, prog.summary(), other.summary());
    c.describe(d.clone());
    c.distinct(&d);
    judge::<P>(c, &other, &pts, &proof, &pc, &bp, "a proof of another statement");
    // too few generators is an error, not a panic
    let small = BulletproofGens::<Aff<P>>::new(c.below(8), 1);
    judge::<P>(c, &prog, &pr.points, &proof, &pc, &small, "verification with few generators");
    let r = guard(|| {
        let mut t = merlin::Transcript::new(LABEL);
        // commitments are made with enough generators, the proof with few
        let (p, _, _) = build_prover::<P, _>(&prog, &mut t, &pc, &bp);
        let e = p.prove(&small).err();
        e
    });
    let need = prog.muls().1.next_power_of_two();
    match r {
        Err(p) => c.fail(format!("proving with few generators panicked: {}", p)),
        Ok(e) => {
            let short = small.gens_capacity < need;
            c.check(e.is_some() == short, || format!("proving with {} of {} generators: {:?}", small.gens_capacity, need, e));
        }
    }
    c.sample(|| d);
}

fn garbage<P: Curve>(c: &mut Case) {
    let prog = small::<P>(c);
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let proof = pr.proof.expect("honest proof");
    let good = proof.to_bytes();
    let mut good_u = vec![];
    proof.serialize_uncompressed(&mut good_u).unwrap();
    c.describe(format!("{} {}", P::NAME, prog.summary()));
    for _ in 0..12 {
        let k = c.below(7);
        let src = if c.coin() { good.clone() } else { good_u.clone() };
        let (what, bytes) = match k {
            0 => {
                let mut b = vec![0u8; c.below(400)];
                c.rng.fill_bytes(&mut b);
                ("random bytes", b)
            }
            1 => {
                let mut b = src.clone();
                b.truncate(c.below(src.len() + 1));
                ("truncation", b)
            }
            2 => {
                let mut b = src.clone();
                for _ in 0..1 + c.below(8) {
                    let i = c.below(b.len());
                    b[i] = c.rng.gen();
                }
                ("random byte changes", b)
            }
            3 => {
                // a hostile length at a random 8-byte window
                let mut b = src.clone();
                let i = c.below(b.len().saturating_sub(8).max(1));
                let n = *[u64::MAX, 1 << 63, 1 << 40, 1 << 32, 65536, 0].get(c.below(6)).unwrap();
                for (j, x) in n.to_le_bytes().iter().enumerate() {
                    if i + j < b.len() {
                        b[i + j] = *x;
                    }
                }
                ("hostile length", b)
            }
            4 => {
                // the two length fields of interest exactly
                let ps = point_bytes(&Aff::<P>::identity()).len();
                let mut b = good.clone();
                let first = 3 * ps + 1 + if b[3 * ps] == 1 { 3 * ps } else { 0 };
                let n: u64 = *[u64::MAX, 1 << 61, 1 << 33, 40, 41, 42, 0, 1].get(c.below(8)).unwrap();
                b[first..first + 8].copy_from_slice(&n.to_le_bytes());
                ("hostile T length", b)
            }
            5 => {
                let mut b = src.clone();
                b.extend(src.iter());
                ("doubled", b)
            }
            _ => ("all ones", vec![0xff; c.below(600)]),
        };
        c.distinct(&format!("{} {} {}", P::NAME, what, report::fnv(&bytes)));
        for (comp, val) in [(Compress::Yes, Validate::Yes), (Compress::No, Validate::Yes), (Compress::Yes, Validate::No), (Compress::No, Validate::No)] {
            let r = guard(|| R1CSProof::<Aff<P>>::deserialize_with_mode(&bytes[..], comp, val));
            c.count("byte strings decoded", 1);
            match r {
                Err(p) => c.fail(format!("decoding panicked on {}: {}", what, p)),
                Ok(Ok(p)) if matches!(val, Validate::Yes) => {
                    c.eval();
                    judge::<P>(c, &prog, &pr.points, &p, &pc, &bp, what)
                }
                Ok(_) => {
                    c.eval();
                    c.count("verdict: undecodable", 1)
                }
            }
        }
        let r = guard(|| R1CSProof::<Aff<P>>::from_bytes(&bytes).is_ok());
        c.check(r.is_ok(), || format!("from_bytes panicked on {}: {:?}", what, r));
        let r = guard(|| Vec::<R1CSProof<Aff<P>>>::deserialize_compressed(&bytes[..]).is_ok());
        c.check(r.is_ok(), || format!("decoding a list of proofs panicked on {}: {:?}", what, r));
    }
    c.sample(|| format!("{} bytes", good.len()));
}

fn paths<P0: Curve, P1: Curve>(c: &mut Case) {
    // a well-formed path encoding, then damaged
    let mut good = vec![];
    rand_point::<P0, _>(&mut c.rng).serialize_compressed(&mut good).unwrap();
    let n = c.below(4);
    let odd: Vec<Aff<P1>> = (0..n).map(|_| rand_point::<P1, _>(&mut c.rng)).collect();
    let even: Vec<Aff<P0>> = (0..c.below(4)).map(|_| rand_point::<P0, _>(&mut c.rng)).collect();
    odd.serialize_compressed(&mut good).unwrap();
    even.serialize_compressed(&mut good).unwrap();
    for k in 0..8 {
        let mut b = good.clone();
        match k {
            0 => b.truncate(c.below(good.len() + 1)),
            1 => {
                for _ in 0..4 {
                    let i = c.below(b.len());
                    b[i] = c.rng.gen();
                }
            }
            2 => {
                let ps = point_bytes(&Aff::<P0>::identity()).len();
                b[ps..ps + 8].copy_from_slice(&(u64::MAX >> c.below(60)).to_le_bytes());
            }
            3 => c.rng.fill_bytes(&mut b),
            _ => {
                let i = c.below(b.len());
                b[i] ^= 1 << c.below(8);
            }
        }
        for comp in [Compress::Yes, Compress::No] {
            let r = guard(|| SelectAndRerandomizePath::<8, P0, P1>::deserialize_with_mode(&b[..], comp, Validate::Yes).is_ok());
            c.count("byte strings decoded", 1);
            c.check(r.is_ok(), || format!("decoding a path panicked: {:?}", r));
        }
        c.distinct(&format!("path {} {}", P0::NAME, report::fnv(&b)));
    }
}

fn main() {
    let mut r = Report::new(
        "C05",
        "Honest proofs over 4 curves rebuilt with hostile structure (vector lengths, identities, flags, scalars), with every number of rounds and of T commitments up to 72 and around larger powers of two, proofs against unrelated statements, too few generators, and hostile bytes (random, truncated, bit flips, hostile lengths) for proofs, lists of proofs and paths, in all four decoding modes; decode, verify and batch-verify run under a panic monitor in a build with debug assertions and overflow checks. Distinct = hostile input.",
    );
    r.stage("structure", 240, 12000, |c| {
        let i = c.idx as usize;
        on_curve!(i, hostile_structure(c))
    });
    r.stage("counts", 24, 800, |c| {
        let i = c.idx as usize;
        on_curve!(i, counts(c))
    });
    r.stage("statements", 200, 8000, |c| {
        let i = c.idx as usize;
        on_curve!(i, other_statement(c))
    });
    r.stage("garbage", 200, 10000, |c| {
        let i = c.idx as usize;
        on_curve!(i, garbage(c))
    });
    r.stage("paths", 200, 10000, |c| {
        let i = c.idx as usize;
        on_cycle!(i, paths(c))
    });
    r.require("byte strings decoded", 100);
    r.require("verdict: reject", 20);
    r.require("shapes tried", 1000);
    r.finish()
}
