//! C12: the constraint-system interface: linear-combination algebra, identical allocation on both
//! sides, metrics, and errors for missing assignments and generators.
use ark_ff::{Field, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::*;
use ctmon::cycles::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use std::sync::Arc;

/// Random expressions over variables, built with the public operators, against plain arithmetic.
fn algebra<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(16, 1);
    let mut p = Prover::new(&pc, Transcript::new(b"c12"));
    let mut vars: Vec<(Variable<Fr<P>>, Fr<P>)> = vec![];
    for _ in 0..1 + c.below(3) {
        let v = edge_scalar(&mut c.rng);
        let (_, x) = p.commit(v, edge_scalar(&mut c.rng));
        vars.push((x, v));
    }
    for _ in 0..c.below(3) {
        let vs: Vec<Fr<P>> = (0..1 + c.below(5)).map(|_| edge_scalar(&mut c.rng)).collect();
        let (_, xs) = p.commit_vec(&vs, edge_scalar(&mut c.rng), &bp);
        c.check(xs.len() == vs.len(), || "one variable per vector entry".into());
        vars.extend(xs.into_iter().zip(vs));
    }
    for _ in 0..1 + c.below(3) {
        let (a, b): (Fr<P>, Fr<P>) = (edge_scalar(&mut c.rng), edge_scalar(&mut c.rng));
        let (l, r, o) = p.allocate_multiplier(Some((a, b))).unwrap();
        vars.extend([(l, a), (r, b), (o, a * b)]);
        let s: Fr<P> = edge_scalar(&mut c.rng);
        let x = p.allocate(Some(s)).unwrap();
        vars.push((x, s));
    }
    let mut pool: Vec<(LinearCombination<Fr<P>>, Fr<P>)> = vec![(LinearCombination::default(), Fr::<P>::zero())];
    let mut shape = String::new();
    for _ in 0..30 {
        let (v, x) = vars[c.below(vars.len())];
        let (w, y) = vars[c.below(vars.len())];
        let (la, a) = pool[c.below(pool.len())].clone();
        let (lb, b) = pool[c.below(pool.len())].clone();
        let k: Fr<P> = edge_scalar(&mut c.rng);
        let op = c.below(19);
        shape.push((b'a' + op as u8) as char);
        let (lc, val) = match op {
            0 => (v + w, x + y),
            1 => (v - w, x - y),
            2 => (v * k, x * k),
            3 => (-v, -x),
            4 => (la + lb, a + b),
            5 => (la - lb, a - b),
            6 => (la * k, a * k),
            7 => (-la, -a),
            8 => (la + v, a + x),
            9 => (la - v, a - x),
            10 => (v + la, x + a),
            11 => (v - la, x - a),
            12 => (la.scalar_mul(k), a * k),
            13 => (constant::<Fr<P>, Fr<P>>(k), k),
            14 => (LinearCombination::from(v), x),
            15 => (LinearCombination::from(k), k),
            16 => (la + constant::<Fr<P>, Fr<P>>(k), a + k),
            17 => (vec![(v, k), (w, x), (v, y)].iter().collect(), x * k + y * x + x * y),
            _ => (vec![(v, k), (w, k)].into_iter().collect::<LinearCombination<Fr<P>>>(), (x + y) * k),
        };
        let got = p.eval(&lc);
        c.check(got == val, || format!("operation {} evaluates wrongly", op));
        // multiplication gadget agrees
        if c.below(6) == 0 {
            let (l, r, o) = p.multiply(lc.clone(), LinearCombination::from(v));
            let (gl, gr, go) = (p.eval(&l.into()), p.eval(&r.into()), p.eval(&o.into()));
            c.check(gl == val && gr == x && go == val * x, || "multiply assigns wrong values".into());
            vars.extend([(l, val), (r, x), (o, val * x)]);
        }
        pool.push((lc, val));
        if pool.len() > 12 {
            pool.remove(0);
        }
    }
    // earlier variables keep their values
    for (v, x) in &vars {
        let got = p.eval(&(*v).into());
        c.check(got == *x, || "a variable changed its value".into());
    }
    c.distinct(&format!("{} {}", P::NAME, shape));
    c.count("expressions evaluated", 30);
    c.sample(|| format!("{} {}", P::NAME, shape));
}

/// Both sides hand out the same variables and count the same.
fn agreement<P: Curve>(c: &mut Case) {
    let mut shape = Shape::random(&mut c.rng);
    if c.idx % 16 == 7 {
        shape = Shape::big(&mut c.rng, 400);
        c.count("large systems", 1);
    }
    let mut prog = Program::<Fr<P>>::random(&mut c.rng, shape);
    while prog.muls().1 > 64 && c.idx % 16 != 7 {
        let shape = Shape::random(&mut c.rng);
        prog = Program::<Fr<P>>::random(&mut c.rng, shape);
    }
    let prog = Arc::new(prog);
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let (p, points, pv) = build_prover::<P, _>(&prog, Transcript::new(b"c12"), &pc, &bp);
    let (v, vv) = build_verifier::<P, _>(&prog, Transcript::new(b"c12"), &points);
    c.check(pv == vv, || format!("variables differ: {:?} / {:?}", pv, vv));
    // no two handles denote the same variable
    for i in 0..pv.len() {
        for j in 0..i {
            c.check(pv[i] != pv[j], || format!("variables {} and {} coincide", i, j));
        }
    }
    let (pm, vm) = (p.metrics(), v.metrics());
    let muls1 = {
        // explicit multipliers, without the padding that proving adds
        let mut n = 0;
        let mut pend = false;
        let mut cons = 0;
        for o in &prog.phase1 {
            match o {
                Op::Mul(..) => {
                    n += 1;
                    cons += 2;
                }
                Op::AllocMul(..) => n += 1,
                Op::Alloc(_) => {
                    if !pend {
                        n += 1;
                    }
                    pend = !pend;
                }
                Op::Con(_) => cons += 1,
                _ => {}
            }
        }
        (n, cons)
    };
    for (who, m) in [("prover", &pm), ("verifier", &vm)] {
        c.check(m.multipliers == muls1.0, || format!("{} reports {} multipliers, there are {}", who, m.multipliers, muls1.0));
        // callbacks are deferred: each counts as phase two until it runs
        c.check(m.phase_one_constraints == muls1.1, || format!("{} reports {} phase-one constraints, there are {}", who, m.phase_one_constraints, muls1.1));
        c.check(m.constraints == m.phase_one_constraints + m.phase_two_constraints, || format!("{}: constraints do not add up: {:?}", who, m));
    }
    c.check(pm.multipliers == vm.multipliers && pm.constraints == vm.constraints && pm.phase_two_constraints == vm.phase_two_constraints, || format!("metrics differ: {:?} / {:?}", pm, vm));
    let (n1, _) = prog.muls();
    c.check(p.size() == n1, || format!("prover size {} but {} multipliers are needed", p.size(), n1));
    c.check(v.size() == n1, || format!("verifier size {} but {} multipliers are needed", v.size(), n1));
    c.check(p.number_of_constraints() == muls1.0, || "number_of_constraints".into());
    // reference values of all variables
    let vals = prog.values(&vec![Fr::<P>::zero(); prog.phase2.len()]);
    for (i, x) in pv.iter().enumerate() {
        let got = p.eval(&(*x).into());
        c.check(got == vals[i], || format!("variable {} has the wrong assignment", i));
    }
    c.count("variables compared", pv.len() as u64);
    c.sample(|| d);
}

fn errors<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    // a prover without a witness value gets an error, a verifier needs none
    {
        let mut p = Prover::new(&pc, Transcript::new(b"c12"));
        for _ in 0..c.below(3) {
            let _ = p.allocate(Some(edge_scalar(&mut c.rng))).unwrap();
        }
        let before = (p.metrics().multipliers, p.size());
        let a = p.allocate(None);
        let b = p.allocate_multiplier(None);
        c.check(matches!(a, Err(R1CSError::MissingAssignment)) && matches!(b, Err(R1CSError::MissingAssignment)), || format!("missing assignment: {:?} {:?}", a, b));
        c.check(before == (p.metrics().multipliers, p.size()), || "a refused allocation left a multiplier behind".into());
        let mut v = Verifier::<_, Aff<P>>::new(Transcript::new(b"c12"));
        c.check(v.allocate(None).is_ok() && v.allocate_multiplier(None).is_ok(), || "the verifier needs no assignment".into());
        // values given to a verifier are ignored
        let x = Fr::<P>::from(3u64);
        c.check(v.allocate(Some(x)).is_ok(), || "verifier allocate".into());
    }
    // an error inside a callback surfaces on both sides
    {
        let bp = BulletproofGens::<Aff<P>>::new(4, 1);
        let mut p = Prover::new(&pc, Transcript::new(b"c12"));
        p.specify_randomized_constraints(|cs| {
            cs.allocate(None)?;
            Ok(())
        })
        .unwrap();
        let r = p.prove(&bp).map(|_| ());
        c.check(matches!(r, Err(R1CSError::MissingAssignment)), || format!("error in a prover callback: {:?}", r));
        let ok = Arc::new(Program::<Fr<P>> { phase1: vec![], phase2: vec![vec![]] });
        let proof = prove::<P>(&ok, b"c12", &pc, &bp).proof.unwrap();
        let mut v = Verifier::<_, Aff<P>>::new(Transcript::new(b"c12"));
        v.specify_randomized_constraints(|_| Err(R1CSError::GadgetError { description: "no".into() })).unwrap();
        let r = v.verify(&proof, &pc, &bp);
        c.check(matches!(r, Err(R1CSError::GadgetError { .. })), || format!("error in a verifier callback: {:?}", r));
    }
    // several callbacks: whichever fails, the error is not covered up by the others
    {
        let bp = BulletproofGens::<Aff<P>>::new(16, 1);
        let k = 2 + c.below(5);
        let bad = [0, k - 1, k / 2, c.below(k)][c.below(4)];
        let early = c.coin(); // fails before or after adding something
        let one = Fr::<P>::from(1u64);
        let mut p = Prover::new(&pc, Transcript::new(b"c12"));
        for i in 0..k {
            p.specify_randomized_constraints(move |cs| {
                if i == bad && early {
                    return cs.allocate(None).map(|_| ());
                }
                let (l, r, _) = cs.allocate_multiplier(Some((one, one)))?;
                cs.constrain(l - r);
                if i == bad {
                    return Err(R1CSError::GadgetError { description: format!("{}", i) });
                }
                Ok(())
            })
            .unwrap();
        }
        let r = p.prove(&bp).map(|_| ());
        c.check(
            if early { matches!(r, Err(R1CSError::MissingAssignment)) } else { matches!(r, Err(R1CSError::GadgetError { .. })) },
            || format!("callback {} of {} failed but the prover says {:?}", bad, k, r),
        );
        let body = vec![Op::AllocMul(vec![one], vec![one]), Op::Con(Lin { terms: vec![(Some(0), vec![one]), (Some(0), vec![-one])] })];
        let ok = Arc::new(Program::<Fr<P>> { phase1: vec![], phase2: vec![body; k] });
        let proof = prove::<P>(&ok, b"c12", &pc, &bp).proof.unwrap();
        for fails in [true, false] {
            for api in 0..2 {
                let mut v = Verifier::<_, Aff<P>>::new(Transcript::new(b"c12"));
                for i in 0..k {
                    v.specify_randomized_constraints(move |cs| {
                        if fails && i == bad && early {
                            return Err(R1CSError::GadgetError { description: "early".into() });
                        }
                        let (_l, _r, _) = cs.allocate_multiplier(None)?;
                        cs.constrain(LinearCombination::default());
                        if fails && i == bad {
                            return Err(R1CSError::GadgetError { description: "late".into() });
                        }
                        Ok(())
                    })
                    .unwrap();
                }
                let r = if api == 0 { v.verify(&proof, &pc, &bp).map(|_| ()) } else { v.verification_scalars_and_points(&proof).map(|_| ()) };
                if fails {
                    c.check(matches!(r, Err(R1CSError::GadgetError { .. })), || format!("callback {} of {} failed but the verifier says {:?}", bad, k, r));
                } else {
                    c.count(if r.is_ok() { "hand-built verifiers that accept" } else { "hand-built verifiers that reject" }, 1);
                }
            }
        }
        c.count("one of several callbacks fails", 1);
    }
    // generators: exactly the padded size is enough
    let n1 = c.below(10);
    let n2 = if c.coin() { c.below(8) } else { 0 };
    let f = |x: u64| Fr::<P>::from(x);
    let prog = Arc::new(Program::<Fr<P>> {
        phase1: (0..n1).map(|_| Op::AllocMul(vec![f(2)], vec![f(3)])).collect(),
        phase2: if n2 > 0 { vec![(0..n2).map(|_| Op::AllocMul(vec![f(2), f(1)], vec![f(3)])).collect()] } else { vec![] },
    });
    let need = (n1 + n2).next_power_of_two();
    let full = BulletproofGens::<Aff<P>>::new(need, 1);
    let proof = prove::<P>(&prog, b"c12", &pc, &full).proof;
    c.check(proof.is_ok(), || format!("{} multipliers cannot be proved with {} generators", n1 + n2, need));
    for cap in [need - 1, need / 2, 0, (n1 + n2).min(need - 1), n1.min(need - 1)] {
        if cap >= need {
            continue;
        }
        let few = BulletproofGens::<Aff<P>>::new(cap, 1);
        let r = guard(|| prove::<P>(&prog, b"c12", &pc, &few).proof.map(|_| ()));
        c.check(matches!(r, Ok(Err(R1CSError::InvalidGeneratorsLength))), || format!("proving {}+{} multipliers with {} generators: {:?}", n1, n2, cap, r));
        if let Ok(p) = &proof {
            let r = guard(|| verify::<P>(&prog, b"c12", &[], p, &pc, &few));
            c.check(matches!(r, Ok(Err(R1CSError::InvalidGeneratorsLength))), || format!("verifying {}+{} multipliers with {} generators: {:?}", n1, n2, cap, r));
        }
        c.count("capacity errors checked", 1);
    }
    let _ = f(1).inverse();
    c.distinct(&format!("errors {} {} {}", P::NAME, n1, n2));
}

fn main() {
    let mut r = Report::new(
        "C12",
        "Random expressions over all variable kinds built with every public operator, evaluated against plain arithmetic; random programs built on both sides with variables, sizes, metrics and assignments compared with an independent model; missing assignments, failing callbacks and every insufficient generator capacity. Distinct = operator sequence or program shape.",
    );
    r.stage("algebra", 800, 60000, |c| {
        let i = c.idx as usize;
        on_curve!(i, algebra(c))
    });
    r.stage("agreement", 800, 60000, |c| {
        let i = c.idx as usize;
        on_curve!(i, agreement(c))
    });
    r.stage("errors", 200, 8000, |c| {
        let i = c.idx as usize;
        on_curve!(i, errors(c))
    });
    r.require("expressions evaluated", 100);
    r.require("variables compared", 100);
    r.finish()
}
