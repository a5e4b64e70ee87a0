//! C06: a batch is accepted exactly when each of its proofs is, whatever their sizes and order; the
//! proofs are joined with fresh random weights.
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::capture;
use ctmon::circuit::*;
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::refver::*;
use ctmon::report::Case;
use ctmon::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

const LABEL: &[u8] = b"c06";

struct Item<P: Curve> {
    prog: Arc<Program<Fr<P>>>,
    points: Vec<Aff<P>>,
    proof: R1CSProof<Aff<P>>,
    valid: bool,
    n: usize,
}

fn item<P: Curve>(c: &mut Case, max: usize, pc: &PedersenGens<Aff<P>>, bp: &BulletproofGens<Aff<P>>) -> Item<P> {
    let prog = loop {
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= max {
            break Arc::new(p);
        }
    };
    let pr = prove::<P>(&prog, LABEL, pc, bp);
    let n = prog.muls().1.next_power_of_two();
    Item { points: pr.points, proof: pr.proof.expect("honest proof"), prog, valid: true, n }
}

/// Damage a proof or its statement such that it no longer verifies.
fn damage<P: Curve>(c: &mut Case, it: &mut Item<P>) {
    let mut w = match Wire::<P>::decode(&it.proof.to_bytes()) {
        Some(w) => w,
        None => return,
    };
    let d: Fr<P> = rand_nonzero(&mut c.rng);
    match c.below(5) {
        0 => w.scalars[2] += d,
        1 => w.scalars[1] += d,
        2 => w.ab[0] += d,
        3 => w.first[0] = rand_point::<P, _>(&mut c.rng),
        _ => {
            if it.points.is_empty() {
                w.scalars[0] += d;
            } else {
                let i = c.below(it.points.len());
                it.points[i] = rand_point::<P, _>(&mut c.rng);
            }
        }
    }
    if let Ok(p) = R1CSProof::<Aff<P>>::from_bytes(&w.encode()) {
        it.proof = p;
        it.valid = false;
    }
}

fn mixed<P: Curve>(c: &mut Case) {
    let k = c.below(7);
    mixed_of::<P>(c, k)
}

/// Long lists of small proofs.
fn long<P: Curve>(c: &mut Case) {
    let k = [8, 15, 16, 17, 31, 33, 63, 64, 65, 100, 129, 257][(c.idx as usize / 4) % 12] + c.below(2);
    c.count("long batches", 1);
    mixed_of::<P>(c, k)
}

fn mixed_of<P: Curve>(c: &mut Case, k: usize) {
    let pc = PedersenGens::<Aff<P>>::default();
    let cap = 64;
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let mut items: Vec<Item<P>> = (0..k)
        .map(|_| {
            let max = if k < 8 { *[0usize, 1, 2, 4, 9, 32, 64].get(c.below(7)).unwrap() } else { c.below(9) };
            item::<P>(c, max, &pc, &bp)
        })
        .collect();
    let bad = match c.below(4) {
        0 | 1 => 0,
        2 => 1,
        _ => 2,
    };
    for _ in 0..bad {
        if k > 0 {
            let i = c.below(k);
            damage::<P>(c, &mut items[i]);
        }
    }
    let sizes: Vec<usize> = items.iter().map(|i| i.n).collect();
    let d = format!("{} sizes {:?} valid {:?}", P::NAME, sizes, items.iter().map(|i| i.valid).collect::<Vec<_>>());
    c.describe(d.clone());
    c.distinct(&d);
    let individually: Vec<bool> = items
        .iter()
        .map(|i| verify::<P>(&i.prog, LABEL, &i.points, &i.proof, &pc, &bp).is_ok())
        .collect();
    for (i, v) in items.iter().zip(&individually) {
        c.check(i.valid == *v, || format!("single verification says {} for a proof that is {}", v, i.valid));
    }
    let tuples: Result<Vec<_>, _> = items.iter().map(|i| tuple::<P>(&i.prog, LABEL, &i.points, &i.proof)).collect();
    let want = individually.iter().all(|x| *x);
    let got = match tuples {
        Ok(t) => match guard(|| batch_verify(t, &pc, &bp)) {
            Ok(r) => r.is_ok(),
            Err(p) => return c.fail(format!("batch verification panicked: {}", p)),
        },
        Err(_) => false,
    };
    c.count(if want { "batches of valid proofs" } else { "batches with an invalid proof" }, 1);
    c.check(got == want, || format!("batch verdict {} but individual verdicts {:?}", got, individually));
    // a batch of valid proofs with too few generators is refused
    if want && k > 0 {
        let need = *sizes.iter().max().unwrap();
        if need > 1 {
            let few = BulletproofGens::<Aff<P>>::new(need - 1, 1);
            let t: Vec<_> = items.iter().map(|i| tuple::<P>(&i.prog, LABEL, &i.points, &i.proof).unwrap()).collect();
            let r = guard(|| batch_verify(t, &pc, &few));
            c.check(matches!(r, Ok(Err(R1CSError::InvalidGeneratorsLength))), || format!("batch with too few generators: {:?}", r));
        }
    }
    c.sample(|| d);
}

/// Invalid tuples whose errors cancel under predictable weights: two or three proofs, each off by
/// a multiple of the same point, must still be rejected.
fn cancelling<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(32, 1);
    let k = 2 + c.below(4);
    let items: Vec<Item<P>> = (0..k)
        .map(|_| {
            let m = if c.coin() { 4 } else { 32 };
            item::<P>(c, m, &pc, &bp)
        })
        .collect();
    let mut tuples: Vec<VerificationTuple<Aff<P>>> = items.iter().map(|i| tuple::<P>(&i.prog, LABEL, &i.points, &i.proof).unwrap()).collect();
    let d: Fr<P> = rand_nonzero(&mut c.rng);
    let f = |x: i64| if x < 0 { -Fr::<P>::from((-x) as u64) } else { Fr::<P>::from(x as u64) };
    // errors proportional to `errs`: cancel for weights orthogonal to it
    let (name, errs): (&str, Vec<i64>) = match c.below(9) {
        0 => ("equal weights", vec![1, -1]),
        1 => ("opposite weights", vec![1, 1]),
        2 => ("weights 1,2", vec![2, -1]),
        3 => ("weights 2,1", vec![1, -2]),
        4 => ("weights 1,2,3", vec![1, 1, -1]),
        5 => ("first ignored", vec![1, 0]),
        6 => ("second ignored", vec![0, 1]),
        7 => ("last ignored", {
            let mut v = vec![0; k];
            v[k - 1] = 1;
            v
        }),
        _ => ("equal weights after the first", {
            let mut v = vec![0; k];
            v[k - 1] = 1;
            if k > 2 {
                v[k - 2] = -1;
            }
            v
        }),
    };
    let place = c.below(3);
    let before: Vec<Vec<Fr<P>>> = tuples.iter().map(|t| t.proof_independent_scalars.clone()).collect();
    for (t, e) in tuples.iter_mut().zip(&errs) {
        let i = match place {
            0 => 0,
            1 => 1,
            _ => 2, // the first generator, at the same place in all sizes
        };
        t.proof_independent_scalars[i] += d * f(*e);
    }
    let desc = format!("{} {} place {} k={}", P::NAME, name, place, k);
    c.describe(desc.clone());
    c.distinct(&desc);
    if tuples.iter().zip(&before).all(|(t, b)| t.proof_independent_scalars == *b) {
        return; // fewer tuples than the pattern needs
    }
    let r = batch_verify(tuples, &pc, &bp);
    c.count("cancelling batches", 1);
    c.check(r.is_err(), || format!("a batch of invalid proofs was accepted: errors {:?} cancel for {}", errs, name));
    // the same proof twice, once negated: cancels under equal weights
    let mut a = tuple::<P>(&items[0].prog, LABEL, &items[0].points, &items[0].proof).unwrap();
    let b = tuple::<P>(&items[0].prog, LABEL, &items[0].points, &items[0].proof).unwrap();
    a.proof_dependent_scalars.iter_mut().for_each(|s| *s += Fr::<P>::one());
    let mut nb = VerificationTuple { proof_dependent_points: a.proof_dependent_points.clone(), proof_dependent_scalars: a.proof_dependent_scalars.clone(), proof_independent_scalars: a.proof_independent_scalars.clone() };
    nb.proof_dependent_scalars.iter_mut().for_each(|s| *s = -*s);
    nb.proof_independent_scalars.iter_mut().for_each(|s| *s = -*s);
    let r = batch_verify(vec![b, a, nb], &pc, &bp);
    c.check(r.is_err(), || "a proof and its negation cancelled".into());
    c.sample(|| desc);
}

/// Long lists: opposite errors at two places, at distances a generator of weights could have as
/// its period, and between the ends.
fn cancelling_long<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(2, 1);
    let it = item::<P>(c, 2, &pc, &bp);
    let dist = [1usize, 2, 4, 8, 16, 32, 64, 128, 3, 7, 10, 100][(c.idx as usize / 4) % 12];
    let k = dist + 1 + c.below(dist.min(40) + 1);
    let copy = |t: &VerificationTuple<Aff<P>>| VerificationTuple {
        proof_dependent_points: t.proof_dependent_points.clone(),
        proof_dependent_scalars: t.proof_dependent_scalars.clone(),
        proof_independent_scalars: t.proof_independent_scalars.clone(),
    };
    let t0 = tuple::<P>(&it.prog, LABEL, &it.points, &it.proof).unwrap();
    let d: Fr<P> = rand_nonzero(&mut c.rng);
    for (name, i, j) in [("distance", 0, dist), ("distance", k - 1 - dist, k - 1), ("ends", 0, k - 1), ("last two", k - 2.min(k), k - 1), ("random", c.below(k), c.below(k))] {
        if i == j {
            continue;
        }
        for opposite in [true, false] {
            let mut b: Vec<_> = (0..k).map(|_| copy(&t0)).collect();
            b[i].proof_independent_scalars[0] += d;
            if opposite {
                b[j].proof_independent_scalars[0] -= d;
            } else {
                b[j].proof_independent_scalars[0] += d;
            }
            let r = batch_verify(b, &pc, &bp);
            c.check(r.is_err(), || format!("errors of proofs {} and {} of {} cancelled ({}, opposite={})", i, j, k, name, opposite));
            c.count("long cancelling batches", 1);
        }
    }
    // and each place on its own counts
    let i = c.below(k);
    let mut b: Vec<_> = (0..k).map(|_| copy(&t0)).collect();
    let m = b[i].proof_independent_scalars.len();
    b[i].proof_independent_scalars[m - 1] += d;
    c.check(batch_verify(b, &pc, &bp).is_err(), || format!("the error of proof {} of {} went unnoticed", i, k));
    let b: Vec<_> = (0..k).map(|_| copy(&t0)).collect();
    c.check(batch_verify(b, &pc, &bp).is_ok(), || format!("{} copies of a valid proof were rejected", k));
    c.distinct(&format!("long {} {} {}", P::NAME, dist, k));
}

/// The weights themselves, read off the multi-scalar multiplication the batch runs.
fn weights<P: Curve>(c: &mut Case, all: &Mutex<HashSet<Vec<u8>>>) {
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(16, 1);
    // every eighth batch is long: weights must not come round again either
    let big = (c.idx / 4) % 8 == 3;
    let k = if big { [20, 40, 70, 140, 20, 40, 70, 270][(c.idx as usize / 32) % 8] + c.below(3) } else { 2 + c.below(4) };
    let items: Vec<Item<P>> = (0..k).map(|_| item::<P>(c, if big { 2 } else { 16 }, &pc, &bp)).collect();
    if big {
        c.count("long batches with observed weights", 1);
    }
    c.describe(format!("{} k={}", P::NAME, k));
    c.distinct(&format!("{} k={} {}", P::NAME, k, c.idx));
    let tuples: Vec<VerificationTuple<Aff<P>>> = items.iter().map(|i| tuple::<P>(&i.prog, LABEL, &i.points, &i.proof).unwrap()).collect();
    let copy = |t: &VerificationTuple<Aff<P>>| VerificationTuple {
        proof_dependent_points: t.proof_dependent_points.clone(),
        proof_dependent_scalars: t.proof_dependent_scalars.clone(),
        proof_independent_scalars: t.proof_independent_scalars.clone(),
    };
    let mut seen_here: Vec<Vec<Fr<P>>> = vec![];
    for _ in 0..2 {
        let b: Vec<_> = tuples.iter().map(copy).collect();
        let (r, obs) = capture::msms::<P, _>(|| batch_verify(b, &pc, &bp));
        c.check(r.is_ok(), || format!("a batch of valid proofs was rejected: {:?}", r));
        let mut e: Eqn<P> = HashMap::new();
        let (bases, scalars) = match capture::final_equation::<P>(&obs) {
            Some(x) => x,
            None => {
                c.inconclusive(format!("{} multiplications observed, none of which is the batch equation", obs.len()));
                return;
            }
        };
        for (p, s) in bases.iter().zip(&scalars) {
            add_term::<P>(&mut e, p, *s);
        }
        // weight of tuple i: from its A_I1, a point of its own
        let mut ws = vec![];
        for (it, t) in items.iter().zip(&tuples) {
            let a = match Wire::<P>::decode(&it.proof.to_bytes()) {
                Some(w) => w.first[0],
                None => return,
            };
            let pos = t.proof_dependent_points.iter().position(|p| *p == a);
            let (pos, co) = match (pos, e.get(&point_bytes(&a))) {
                (Some(p), Some(c)) => (p, c.1),
                _ => {
                    c.fail("a proof's commitment does not take part in the batch equation");
                    return;
                }
            };
            ws.push(co * t.proof_dependent_scalars[pos].inverse().unwrap());
        }
        // the whole equation is the weighted sum of the proofs'
        let mut want: Eqn<P> = HashMap::new();
        let gens = RefGens::<P>::new(16);
        for (t, w) in tuples.iter().zip(&ws) {
            let m = (t.proof_independent_scalars.len() - 2) / 2;
            let fixed = [gens.b, gens.bb].into_iter().chain(gens.g[..m].iter().copied()).chain(gens.h[..m].iter().copied());
            for (p, s) in t.proof_dependent_points.iter().copied().zip(&t.proof_dependent_scalars).chain(fixed.zip(&t.proof_independent_scalars)) {
                add_term::<P>(&mut want, &p, *s * w);
            }
        }
        let keys: HashSet<&Vec<u8>> = e.keys().chain(want.keys()).collect();
        let z = Fr::<P>::zero();
        let bad = keys.iter().filter(|k| e.get(**k).map(|x| x.1).unwrap_or(z) != want.get(**k).map(|x| x.1).unwrap_or(z)).count();
        c.check(bad == 0, || format!("{} coefficients of the batch equation are not the weighted sum of the proofs'", bad));
        c.check(ws.iter().all(|w| !w.is_zero()), || "a proof has weight zero".into());
        // ratios between weights are what matters
        if ws.iter().any(|w| w.is_zero()) {
            return;
        }
        let inv: Vec<Fr<P>> = ws.iter().map(|w| w.inverse().unwrap()).collect();
        let smalls: HashSet<Fr<P>> = (0..256u64).flat_map(|v| [Fr::<P>::from(v), -Fr::<P>::from(v)]).collect();
        let mut here: HashSet<Fr<P>> = HashSet::new();
        for i in 0..k {
            for j in 0..i {
                let ratio = ws[i] * inv[j];
                // in a long batch only neighbours go into the collection kept over all batches
                let fresh = here.insert(ratio) && (k > 8 && i - j > 2 || all.lock().unwrap().insert(point_bytes(&ratio)));
                c.check(fresh, || format!("the relative weight of proofs {} and {} repeats: weights are not fresh", j, i));
                c.check(!smalls.contains(&ratio), || "a relative weight is a small number".into());
            }
        }
        c.count("weights observed", k as u64);
        seen_here.push(ws);
    }
    let _ = seen_here;
    let _ = Aff::<P>::zero().into_group().into_affine();
}

fn main() {
    let mut r = Report::new(
        "C06",
        "Batches of 0 to 6 proofs of random systems of mixed sizes over 4 curves, with 0, 1 or 2 damaged proofs, in random order: batch verdict compared with the individual verdicts. Tuples with errors that cancel under predictable weights, also at every likely period in long lists. The weights (up to 270 at once) are read off the recorded multi-scalar multiplication and must be nonzero, unrepeated and not small. Distinct = curve, sizes and validity pattern.",
    );
    r.stage("mixed", 600, 30000, |c| {
        let i = c.idx as usize;
        on_curve!(i, mixed(c))
    });
    r.stage("long", 24, 800, |c| {
        let i = c.idx as usize;
        on_curve!(i, long(c))
    });
    r.stage("cancelling", 400, 20000, |c| {
        let i = c.idx as usize;
        on_curve!(i, cancelling(c))
    });
    r.stage("cancelling_long", 96, 2000, |c| {
        let i = c.idx as usize;
        on_curve!(i, cancelling_long(c))
    });
    let all = Mutex::new(HashSet::new());
    r.stage("weights", 160, 6000, |c| {
        let i = c.idx as usize;
        let all = &all;
        on_curve!(i, weights(c, all))
    });
    r.require("batches of valid proofs", 8);
    r.require("batches with an invalid proof", 8);
    r.require("long cancelling batches", 100);
    r.require("long batches with observed weights", 4);
    r.finish()
}
