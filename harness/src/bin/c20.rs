//! C20: curve check and point addition inside the circuit.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, UniformRand, Zero, One};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use relations::curve::*;

// Q: points; P: the curve over whose scalar field the circuit is.

fn check_rec<'g, P: Curve>(pc: &'g PedersenGens<Aff<P>>, x: Fr<P>, y: Fr<P>, a: Fr<P>, b: Fr<P>) -> (Rec<'g, P>, usize, usize) {
    let mut rec = Rec::<P>::new(pc);
    let (vx, vy) = (rec.input(x), rec.input(y));
    curve_check(&mut rec, vx.into(), vy.into(), a, b);
    (rec, Rec::<P>::id(vx), Rec::<P>::id(vy))
}

/// y^2 = x^3 + a x + b for arbitrary coefficients.
fn curve_eq<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    for _ in 0..12 {
        let own = c.below(3) == 0;
        let (x, y, a, b): (F0, F0, F0, F0) = if own {
            let p = rand_point::<Q, _>(&mut c.rng);
            (p.x, p.y, Q::COEFF_A, Q::COEFF_B)
        } else {
            let (x, y, a): (F0, F0, F0) = (edge_scalar(&mut c.rng), edge_scalar(&mut c.rng), edge_scalar(&mut c.rng));
            (x, y, a, y.square() - x * x * x - a * x)
        };
        let (rec, _, _) = check_rec::<P>(&pc, x, y, a, b);
        c.check(rec.satisfied(), || format!("point ({}, {}) of the curve a={} b={} fails the check", x, y, a, b));
        let (rec, _, _) = check_rec::<P>(&pc, x, -y, a, b);
        c.check(rec.satisfied(), || "the negated point fails the check".into());
        c.count("points on a curve checked", 2);
        c.distinct(&format!("on {} {} {} {}", x, y, a, b));
        let e = F0::one();
        let mut offs = vec![(x + e, y, a, b), (x, y + e, a, b), (x, y, a + e, b), (x, y, a, b + e), (-x, y, a, b), (y, x, a, b), (x, y, b, a), (x, y, -a, b), (x, y, a, -b), (x.double(), y, a, b), (x, y.double(), a, b)];
        offs.push((F0::rand(&mut c.rng), F0::rand(&mut c.rng), a, b));
        offs.push((F0::zero(), y, a, b));
        offs.push((x, F0::zero(), a, b));
        for (x, y, a, b) in offs {
            let on = y.square() == x * x * x + a * x + b;
            let (rec, ix, iy) = check_rec::<P>(&pc, x, y, a, b);
            c.check(rec.satisfied() == on, || format!("({}, {}) on a={} b={}: {} but the constraints say {}", x, y, a, b, on, !on));
            c.distinct(&format!("{} {} {} {} {}", on, x, y, a, b));
            if !on && c.below(3) == 0 {
                let (sys, hint) = rec.system();
                let mut rng = c.sub_rng();
                let r = sys.complete(&[(ix, x), (iy, y)], &hint, &[], &mut rng);
                c.check(!matches!(r, Completion::Found(_)), || "a forged witness passes the curve check".into());
                c.count("points off the curve: forgeries tried", 1);
            }
            c.count("points off the curve checked", (!on) as u64);
        }
    }
    let (x, y, a, b) = (F0::rand(&mut c.rng), F0::rand(&mut c.rng), F0::rand(&mut c.rng), F0::rand(&mut c.rng));
    let (rec, _, _) = check_rec::<P>(&pc, x, y, a, b);
    let (rec2, _, _) = check_rec::<P>(&pc, F0::zero(), F0::zero(), a, b);
    c.check(rec.fingerprint(5) == rec2.fingerprint(5), || "the circuit depends on the values".into());
}

struct Add<'g, F0: PrimeField, P: Curve + SWCurveConfig<ScalarField = F0>> {
    rec: Rec<'g, P>,
    ids: [usize; 6],
}

/// The constraints with all six coordinates as variables; delta and the inverse as given.
fn add_rec<'g, F0: PrimeField, P: Curve + SWCurveConfig<ScalarField = F0>>(pc: &'g PedersenGens<Aff<P>>, v: [F0; 6], delta: Option<F0>, inv: Option<Option<F0>>) -> Add<'g, F0, P> {
    let mut rec = Rec::<P>::new(pc);
    let x = v.map(|v| rec.input(v));
    let prms = CurveAddition { x_l: x[0].into(), y_l: x[1].into(), x_r: x[2].into(), y_r: x[3].into(), x_o: x[4].into(), y_o: x[5].into(), delta };
    match inv {
        None => incomplete_curve_addition(&mut rec, &prms),
        Some(i) => checked_curve_addition(&mut rec, &prms, i),
    }
    Add { rec, ids: x.map(Rec::<P>::id) }
}

fn addition<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let l = rand_point::<Q, _>(&mut c.rng);
    let kind = c.below(6);
    let r = match kind {
        0 => l,
        1 => -l,
        2 => (l + l).into_affine(),
        3 => -((l + l).into_affine()), // the sum is -l
        _ => rand_point::<Q, _>(&mut c.rng),
    };
    c.describe(format!("{} kind {}", Q::NAME, kind));
    let distinct_x = l.x != r.x;
    for checked in [false, true] {
        let inv = |x: F0| if checked { Some(Some(x.inverse().unwrap_or(F0::one()))) } else { None };
        if distinct_x {
            let s = (l + r).into_affine();
            let delta = (r.y - l.y) * (r.x - l.x).inverse().unwrap();
            let good = add_rec::<F0, P>(&pc, [l.x, l.y, r.x, r.y, s.x, s.y], Some(delta), inv(l.x - r.x));
            c.check(good.rec.satisfied(), || format!("the true sum fails (checked: {})", checked));
            c.count("true sums", 1);
            // a verifier has the same constraints
            let none = add_rec::<F0, P>(&pc, [l.x, l.y, r.x, r.y, s.x, s.y], None, if checked { Some(None) } else { None });
            c.check(good.rec.fingerprint(5) == none.rec.fingerprint(5), || "the verifier's circuit differs".into());
            // local uniqueness of the output
            let (sys, a) = good.rec.system();
            c.check(sys.satisfied(&a), || "the extracted system disagrees".into());
            let und = sys.undetermined(&a, &good.ids[..4], &good.ids[4..]);
            c.check(und.is_empty(), || format!("the sum is not determined by the summands (checked: {})", checked));
            // the output is forced
            let pins: Vec<_> = good.ids[..4].iter().cloned().zip([l.x, l.y, r.x, r.y]).collect();
            if let Some(f) = sys.forced(&pins) {
                if let (Some(x), Some(y)) = (f[good.ids[4]], f[good.ids[5]]) {
                    c.check((x, y) == (s.x, s.y), || "the constraints force another sum".into());
                    c.count("sums forced by the summands", 1);
                }
            } else {
                c.fail("the summands contradict the constraints");
            }
            // other outputs, for any internal values
            for (x, y) in [(s.x, -s.y), (s.x + F0::one(), s.y), (s.x, s.y + F0::one()), (l.x, l.y), (r.x, r.y), (l.x, -l.y), (r.x, -r.y), (F0::zero(), F0::zero()), (F0::rand(&mut c.rng), F0::rand(&mut c.rng))] {
                if (x, y) == (s.x, s.y) {
                    continue;
                }
                let mut p = pins.clone();
                p.push((good.ids[4], x));
                p.push((good.ids[5], y));
                let mut rng = c.sub_rng();
                let res = sys.complete(&p, &a, &[], &mut rng);
                c.check(!matches!(res, Completion::Found(_)), || format!("a false sum is provable (checked: {})", checked));
                c.count("false sums tried", 1);
                let bad = add_rec::<F0, P>(&pc, [l.x, l.y, r.x, r.y, x, y], Some(delta), inv(l.x - r.x));
                c.check(!bad.rec.satisfied(), || "a false sum satisfies".into());
            }
            // wrong slope
            let bad = add_rec::<F0, P>(&pc, [l.x, l.y, r.x, r.y, s.x, s.y], Some(delta + F0::one()), inv(l.x - r.x));
            c.check(!bad.rec.satisfied(), || "a wrong slope satisfies".into());
            if checked {
                let bad = add_rec::<F0, P>(&pc, [l.x, l.y, r.x, r.y, s.x, s.y], Some(delta), Some(Some((l.x - r.x).inverse().unwrap() + F0::one())));
                c.check(!bad.rec.satisfied(), || "a wrong inverse satisfies".into());
            }
        } else if checked || kind == 1 {
            // equal x: the checked addition has no witness at all; opposite points have none either way
            let mut rng = c.sub_rng();
            for _ in 0..4 {
                let d = F0::rand(&mut c.rng);
                // the chord with slope d through l: what a forger would claim
                let xo = d.square() - l.x - r.x;
                let yo = d * (l.x - xo) - l.y;
                let bad = add_rec::<F0, P>(&pc, [l.x, l.y, r.x, r.y, xo, yo], Some(d), inv(F0::zero()));
                c.check(!bad.rec.satisfied(), || "summands with equal x satisfy the addition".into());
                let (sys, a) = bad.rec.system();
                let pins: Vec<_> = bad.ids[..4].iter().cloned().zip([l.x, l.y, r.x, r.y]).collect();
                let res = sys.complete(&pins, &a, &bad.ids[4..], &mut rng);
                c.check(!matches!(res, Completion::Found(_)), || "summands with equal x can be added".into());
                c.count("exceptional summands tried", 1);
            }
        }
        c.distinct(&format!("{} {} {} {}", Q::NAME, kind, checked, l));
    }
}

/// The helpers allocate the output themselves.
fn helpers<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let n = 2 + c.below(4);
    let pts: Vec<Aff<Q>> = (0..n).map(|_| rand_point::<Q, _>(&mut c.rng)).collect();
    let checked: Vec<bool> = (0..n).map(|_| c.coin()).collect();
    let build = |wit: bool| {
        let mut rec = Rec::<P>::new(&pc);
        let reps: Vec<PointRepresentation<F0, Aff<Q>>> = pts
            .iter()
            .map(|p| PointRepresentation { x: rec.input(p.x).into(), y: rec.input(p.y).into(), witness: if wit { Some(*p) } else { None } })
            .collect();
        let mut acc = reps[0].clone();
        for i in 1..n {
            acc = if checked[i] {
                checked_curve_addition_helper(&mut rec, acc, reps[i].clone())
            } else {
                incomplete_curve_addition_helper(&mut rec, acc, reps[i].clone())
            };
        }
        (rec, acc)
    };
    let (rec, acc) = build(true);
    let mut want = pts[0].into_group();
    for p in &pts[1..] {
        want += p;
    }
    let want = want.into_affine();
    c.check(rec.satisfied(), || "honest sums do not satisfy".into());
    c.check(acc.witness == Some(want), || "the sum returned is wrong".into());
    let (ex, ey) = (rec.eval(&acc.x), rec.eval(&acc.y));
    c.check(ex == want.x && ey == want.y, || "the variables of the sum have wrong values".into());
    let (none, acc2) = build(false);
    c.check(acc2.witness.is_none() && none.missing > 0, || "a verifier got a witness".into());
    c.check(rec.fingerprint(4) == none.fingerprint(4), || "the verifier's circuit differs".into());
    c.count("chains of additions", 1);
    c.distinct(&format!("chain {} {} {:?}", Q::NAME, n, checked));
    if c.below(3) == 0 {
        // proved and verified, with the sum made public; and a wrong public sum
        let bp = BulletproofGens::<Aff<P>>::new(64, 1);
        for lie in [false, true] {
            let claim = if lie { -want } else { want };
            let mut p = Prover::new(&pc, Transcript::new(b"c20"));
            let mut comms = vec![];
            let mut reps = vec![];
            for q in &pts {
                let (cx, vx) = p.commit(q.x, F0::rand(&mut c.rng));
                let (cy, vy) = p.commit(q.y, F0::rand(&mut c.rng));
                comms.push((cx, cy));
                reps.push(PointRepresentation { x: vx.into(), y: vy.into(), witness: Some(*q) });
            }
            let mut acc = reps[0].clone();
            for r in &reps[1..] {
                acc = checked_curve_addition_helper(&mut p, acc, r.clone());
            }
            p.constrain(acc.x - claim.x);
            p.constrain(acc.y - claim.y);
            let proof = p.prove(&bp).unwrap();
            let mut v = Verifier::new(Transcript::new(b"c20"));
            let mut reps: Vec<PointRepresentation<F0, Aff<Q>>> = vec![];
            for (cx, cy) in comms {
                reps.push(PointRepresentation { x: v.commit(cx).into(), y: v.commit(cy).into(), witness: None });
            }
            let mut acc = reps[0].clone();
            for r in &reps[1..] {
                acc = checked_curve_addition_helper(&mut v, acc, r.clone());
            }
            v.constrain(acc.x - claim.x);
            v.constrain(acc.y - claim.y);
            let res = v.verify(&proof, &pc, &bp);
            c.check(res.is_ok() != lie, || format!("sum of {} points, lie: {}, verdict {:?}", n, lie, res));
            c.count("sums proved", 1);
        }
    }
}

macro_rules! go {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 4 {
            0 => $f::<_, _, PallasC, VestaC>($($a),*),
            1 => $f::<_, _, VestaC, PallasC>($($a),*),
            2 => $f::<_, _, SecpC, SecqC>($($a),*),
            _ => $f::<_, _, SecqC, SecpC>($($a),*),
        }
    };
}

fn main() {
    let mut r = Report::new(
        "C20",
        "Curve check with arbitrary coefficients on points on and off the curve; additions of distinct, equal, opposite and doubled points with right and wrong outputs, forged internal witnesses, local uniqueness; addition chains through the helpers, proved and verified. Distinct = (coefficients, point) or (kind, variant, points).",
    );
    r.stage("curve-equation", 120, 6000, |c| {
        let i = c.idx as usize;
        go!(i, curve_eq(c))
    });
    r.stage("addition", 240, 12000, |c| {
        let i = c.idx as usize;
        go!(i, addition(c))
    });
    r.stage("helpers", 120, 6000, |c| {
        let i = c.idx as usize;
        go!(i, helpers(c))
    });
    r.require("points on a curve checked", 100);
    r.require("points off the curve checked", 100);
    r.require("true sums", 50);
    r.require("exceptional summands tried", 20);
    r.require("sums proved", 10);
    r.finish()
}
