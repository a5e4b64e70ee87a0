//! C21: rerandomization: output = input + randomness * base, and no other output.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField};
use bulletproofs::r1cs::*;
use bulletproofs::PedersenGens;
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::*;
use relations::curve::PointRepresentation;
use relations::lookup::Lookup3Bit;
use relations::rerandomize::{build_tables, re_randomize};

// Q is the curve whose points are rerandomized, P the curve whose scalar field is Q's base field.

struct Setup<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>> {
    pc: PedersenGens<Aff<P>>,
    h: Aff<Q>,
    tables: Vec<Lookup3Bit<2, F0>>,
}

fn setup<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>() -> Setup<F0, F1, P, Q> {
    let h = PedersenGens::<Aff<Q>>::default().B_blinding;
    Setup { pc: PedersenGens::default(), h, tables: build_tables(h) }
}

struct Run<'g, F0: PrimeField, P: Curve + SWCurveConfig<ScalarField = F0>> {
    rec: Rec<'g, P>,
    ids: [usize; 4],
}

/// Record the gadget: commitment p (variables), claimed output q (variables), randomness r.
fn run<'g, F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(
    s: &'g Setup<F0, F1, P, Q>,
    p: Aff<Q>,
    out: Aff<Q>,
    r: Option<F1>,
) -> Run<'g, F0, P> {
    let mut rec = Rec::<P>::new(&s.pc);
    let v = [rec.input(p.x), rec.input(p.y), rec.input(out.x), rec.input(out.y)];
    re_randomize(
        &mut rec,
        &s.tables,
        PointRepresentation { x: v[0].into(), y: v[1].into(), witness: r.map(|_| p) },
        v[2].into(),
        v[3].into(),
        r,
    );
    Run { ids: [Rec::<P>::id(v[0]), Rec::<P>::id(v[1]), Rec::<P>::id(v[2]), Rec::<P>::id(v[3])], rec }
}

fn good_r<F: PrimeField>(c: &mut Case) -> F {
    nonzero_scalar::<F, _>(&mut c.rng)
}

/// Satisfied exactly for the right output.
fn honest<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(c: &mut Case) {
    let s = setup::<F0, F1, P, Q>();
    let p = rand_point::<Q, _>(&mut c.rng);
    for _ in 0..6 {
        let r: F1 = good_r(c);
        c.describe(format!("{} r = {}", Q::NAME, r));
        let want = (naive_mul::<Q>(&s.h, &r) + p).into_affine();
        let rn = run(&s, p, want, Some(r));
        c.check(rn.rec.satisfied(), || format!("{}: the true rerandomization by {} does not satisfy the constraints", Q::NAME, r));
        // wrong outputs with the same randomness
        for wrong in [
            (want + s.h).into_affine(),
            -want,
            (naive_mul::<Q>(&s.h, &-r) + p).into_affine(),
            p,
            rand_point::<Q, _>(&mut c.rng),
        ] {
            let rw = run(&s, p, wrong, Some(r));
            c.check(!rw.rec.satisfied(), || format!("{}: a wrong rerandomization satisfies the constraints", Q::NAME));
        }
        // the right output with other randomness
        let rw = run(&s, p, want, Some(if (r + F1::one()).is_zero() { r.double() } else { r + F1::one() }));
        c.check(!rw.rec.satisfied(), || format!("{}: wrong randomness satisfies the constraints", Q::NAME));
        // both sides, and all witnesses, give the same circuit
        let other = run(&s, p, want, Some(good_r(c)));
        let none = run(&s, p, want, None);
        c.check(rn.rec.fingerprint(7) == none.rec.fingerprint(7), || "the verifier's circuit differs from the prover's".into());
        c.check(rn.rec.fingerprint(7) == other.rec.fingerprint(7), || "the circuit depends on the randomness".into());
        c.count("honest gadget runs", 1);
        c.count("constraints evaluated", rn.rec.rows() as u64);
        c.distinct(&format!("honest {} {}", Q::NAME, r));
        c.sample(|| format!("{}: {} gates, {} constraints, r = {}", Q::NAME, rn.rec.gates(), rn.rec.rows(), r));
    }
}

fn bits_of<F: PrimeField>(r: &F, lambda: usize) -> Vec<bool> {
    let b = r.into_bigint();
    (0..lambda).map(|k| k < 64 * b.as_ref().len() && b.get_bit(k)).collect()
}

/// Variables whose value is bit k of the randomness in every sampled run.
fn bit_vars<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(s: &Setup<F0, F1, P, Q>, c: &mut Case) -> Vec<Vec<usize>> {
    let p = rand_point::<Q, _>(&mut c.rng);
    let windows = s.tables.len() * 3;
    let lambda = F1::MODULUS_BIT_SIZE as usize;
    let mut pat: Vec<u64> = vec![];
    let mut bits: Vec<u64> = vec![0; windows];
    let mut bad: Vec<bool> = vec![];
    // all samples together set each bit both ways; the top bits need special care
    for t in 0..60u64 {
        let r = F1::rand(&mut c.rng);
        let rn = run(s, p, p, Some(r));
        for (k, b) in bits_of(&r, lambda).into_iter().enumerate() {
            if b {
                bits[k] |= 1 << t;
            }
        }
        let n = rn.rec.gates();
        pat.resize(3 * n, 0);
        bad.resize(3 * n, false);
        for v in 0..3 * n {
            let x = rn.rec.eval(&Rec::<P>::var(v).into());
            if x == F0::from(1u64) {
                pat[v] |= 1 << t;
            } else if !x.is_zero() {
                bad[v] = true;
            }
        }
    }
    let used: Vec<bool> = bits.iter().map(|p| *p != 0 && *p != (1 << 60) - 1).collect();
    (0..windows)
        .map(|k| {
            if !used[k] {
                return vec![];
            }
            (0..pat.len()).filter(|v| !bad[*v] && pat[*v] == bits[k]).collect()
        })
        .collect()
}

/// Every pair (window, entry, sign) for which earlier windows can sum to +-the entry: bit strings.
fn exceptional<F: PrimeField>(m: usize) -> Vec<(usize, Vec<bool>)> {
    let pow = |k: usize| F::from(2u64).pow([3 * k as u64]);
    let mut out = vec![];
    let mut off = F::zero();
    let mut rsum = F::zero();
    for i in 1..=m {
        let right = if i < m { pow(i) } else { -rsum };
        rsum += if i < m { pow(i) } else { F::zero() };
        if i > 1 {
            for j in 0..8u64 {
                let t = F::from(j) * pow(i - 1) + right;
                for sgn in [true, false] {
                    let need = (if sgn { t } else { -t }) - off;
                    let mut b: Vec<bool> = bits_of(&need, 3 * (i - 1) + 8);
                    // the sum of the earlier windows must fit in their bits
                    let full = need.into_bigint();
                    let mut cand = vec![];
                    if (full.num_bits() as usize) <= 3 * (i - 1) {
                        cand.push(b.clone());
                    }
                    let mut plus = full;
                    let carry = plus.add_with_carry(&F::MODULUS);
                    if !carry && (plus.num_bits() as usize) <= 3 * (i - 1) {
                        b = (0..3 * (i - 1)).map(|k| k < 256 && plus.get_bit(k)).collect();
                        cand.push(b);
                    }
                    for mut b in cand {
                        b.resize(3 * (i - 1), false);
                        b.extend([j & 1 == 1, j & 2 == 2, j & 4 == 4]);
                        out.push((i, b));
                    }
                }
            }
        }
        // every entry carries its own right term, so the sums start from these
        off += right;
    }
    out
}

/// With the input and all window bits fixed, what outputs do the constraints allow?
fn forged<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(c: &mut Case) {
    let s = setup::<F0, F1, P, Q>();
    let m = s.tables.len();
    let lambda = F1::MODULUS_BIT_SIZE as usize;
    let bv = bit_vars(&s, c);
    let known = bv.iter().filter(|v| !v.is_empty()).count();
    c.count("randomness bits located", known as u64);
    if known < lambda - 3 {
        c.inconclusive(format!("only {} of {} randomness bits were located among the variables", known, lambda));
    }
    let k: F1 = rand_nonzero(&mut c.rng);
    let p = naive_mul::<Q>(&s.h, &k).into_affine();
    let base = run(&s, p, p, Some(F1::rand(&mut c.rng)));
    let (sys, hint) = base.rec.system();
    let ids = base.ids;
    c.count("variables in extracted systems", 3 * sys.n as u64);

    // the bits to try
    let mut tries: Vec<(String, Vec<bool>)> = vec![];
    let exc = exceptional::<F1>(m);
    let ne = exc.len();
    // the windows cut at 3*m bits; bits of windows that honest runs never set have no located variable
    for (i, b) in exc {
        let mut b = b;
        while b.len() < 3 * m {
            b.push(i < m - 1 && c.coin());
        }
        tries.push((format!("exceptional sum at window {} of {}", i, m), b));
    }
    c.count("exceptional window sums enumerated", ne as u64);
    for _ in 0..3 {
        let r = F1::rand(&mut c.rng);
        let mut b = bits_of(&r, lambda);
        b.resize(3 * m, false);
        tries.push(("random bits".into(), b));
    }
    // the last addition: output bits * base = +-input
    for kk in [k, -k] {
        let mut b = bits_of(&kk, lambda);
        b.resize(3 * m, false);
        tries.push(("input equal to plus or minus the randomizer".into(), b));
    }
    // the tries are dealt out over four cases per curve
    let part = (c.idx / 4 % 4) as usize;
    for (what, b) in tries.into_iter().skip(part).step_by(4) {
        let mut pins: Vec<(usize, F0)> = vec![(ids[0], p.x), (ids[1], p.y)];
        let mut r = F1::zero();
        for (i, x) in b.iter().enumerate().rev() {
            r.double_in_place();
            if bv[i].is_empty() {
                continue;
            }
            if *x {
                r += F1::one();
            }
            for v in &bv[i] {
                pins.push((*v, if *x { F0::one() } else { F0::zero() }));
            }
        }
        // window bits that honest runs never set: all their values
        let mut free: Vec<usize> = (0..b.len()).filter(|i| bv[*i].is_empty()).collect();
        let classes = sys.boolean_classes(&pins);
        c.count("window bits located by their range", classes.len() as u64);
        if sys.forced(&pins).is_none() {
            c.eval();
            c.count("forgeries: impossible", 1);
            continue;
        }
        if classes.len() > 6 {
            c.inconclusive("too many open boolean variables");
            continue;
        }
        // the outputs allowed: any choice of the open bits
        free.truncate(6);
        let mut allowed = vec![];
        for mask in 0..1usize << free.len() {
            let mut rr = r;
            for (k, i) in free.iter().enumerate() {
                if mask >> k & 1 == 1 {
                    rr += F1::from(2u64).pow([*i as u64]);
                }
            }
            let w = (naive_mul::<Q>(&s.h, &rr) + p).into_affine();
            if !w.is_zero() {
                allowed.push((w.x, w.y));
            }
        }
        for mask in 0..1usize << classes.len() {
            let mut pins = pins.clone();
            for (k, cl) in classes.iter().enumerate() {
                for v in cl {
                    pins.push((*v, if mask >> k & 1 == 1 { F0::one() } else { F0::zero() }));
                }
            }
            let mut rng = c.sub_rng();
            for k in 0..2 {
                // a different honest run to guess from the second time
                let hint = if k == 0 { hint.clone() } else { hint.iter().map(|x| if x.is_zero() || *x == F0::one() { *x } else { *x + F0::one() }).collect() };
                match sys.complete(&pins, &hint, &ids[2..], &mut rng) {
                    Completion::Impossible => {
                        c.eval();
                        c.count("forgeries: impossible", 1);
                        break;
                    }
                    Completion::Unknown => {
                        c.eval();
                        c.count("forgeries: none found", 1);
                    }
                    Completion::Found(a) => {
                        assert!(sys.satisfied(&a));
                        c.count("forgeries: completed", 1);
                        let got = (a[ids[2]], a[ids[3]]);
                        c.check(allowed.contains(&got), || format!("{}: {}: the constraints admit an output that is not input + randomness * base", Q::NAME, what));
                    }
                }
            }
        }
        c.distinct(&format!("{} {} {:?}", Q::NAME, what, b.iter().map(|x| *x as u8).collect::<Vec<_>>()));
    }
    // bits that are no bits
    for _ in 0..12 {
        let r = F1::rand(&mut c.rng);
        let b = bits_of(&r, lambda);
        let i = c.below(lambda);
        if bv[i].is_empty() {
            continue;
        }
        let odd = match c.below(3) {
            0 => F0::from(2u64),
            1 => -F0::one(),
            _ => F0::rand(&mut c.rng),
        };
        let mut pins: Vec<(usize, F0)> = vec![(ids[0], p.x), (ids[1], p.y)];
        for (k, x) in b.iter().enumerate() {
            for v in &bv[k] {
                let val = if k == i { odd } else if *x { F0::one() } else { F0::zero() };
                pins.push((*v, val));
            }
        }
        let mut rng = c.sub_rng();
        let bad = matches!(sys.complete(&pins, &hint, &ids[2..], &mut rng), Completion::Found(_));
        c.check(!bad, || format!("{}: a window bit can be {} ", Q::NAME, odd));
        c.count("non-boolean bits tried", 1);
    }
}

/// Outputs are locally determined by the input at honest witnesses.
fn unique<F0: PrimeField, F1: PrimeField, P: Curve + SWCurveConfig<BaseField = F1, ScalarField = F0>, Q: Curve + SWCurveConfig<BaseField = F0, ScalarField = F1>>(c: &mut Case) {
    let s = setup::<F0, F1, P, Q>();
    let p = rand_point::<Q, _>(&mut c.rng);
    let r: F1 = good_r(c);
    let want = (naive_mul::<Q>(&s.h, &r) + p).into_affine();
    let rn = run(&s, p, want, Some(r));
    let (sys, a) = rn.rec.system();
    c.check(sys.satisfied(&a), || "the extracted system disagrees with the recorded one".into());
    let und = sys.undetermined(&a, &rn.ids[..2], &rn.ids[2..]);
    c.check(und.is_empty(), || format!("{}: the output is not determined by the input: {} of 2 coordinates are free", Q::NAME, und.len()));
    // with the output fixed instead, the input is determined too
    let und = sys.undetermined(&a, &rn.ids[2..], &rn.ids[..2]);
    c.check(und.is_empty(), || format!("{}: the input is not determined by the output", Q::NAME));
    c.count("Jacobian rank decisions", 2);
    c.count("constraints in rank decisions", (sys.rows.len() + sys.n) as u64);
    c.distinct(&format!("unique {} {}", Q::NAME, r));
    c.sample(|| format!("{}: {} rows, {} gates", Q::NAME, sys.rows.len(), sys.n));
}

macro_rules! go {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 4 {
            0 => $f::<_, _, PallasC, VestaC>($($a),*),
            1 => $f::<_, _, VestaC, PallasC>($($a),*),
            2 => $f::<_, _, SecpC, SecqC>($($a),*),
            _ => $f::<_, _, SecqC, SecpC>($($a),*),
        }
    };
}

fn main() {
    let mut r = Report::new(
        "C21",
        "Rerandomization gadget on a recording constraint system: honest runs with edge and random scalars must be satisfied, wrong outputs and randomness not; local uniqueness of the output from the rank of the Jacobian; forged witnesses with all window bits pinned, including every bit string for which the partial sum meets plus or minus the next table entry. Distinct = (curve, kind, bits or scalar).",
    );
    r.stage("honest", 40, 2000, |c| {
        let i = c.idx as usize;
        go!(i, honest(c))
    });
    r.stage("unique", 16, 600, |c| {
        let i = c.idx as usize;
        go!(i, unique(c))
    });
    r.stage("forged", 16, 400, |c| {
        let i = c.idx as usize;
        go!(i, forged(c))
    });
    r.require("honest gadget runs", 10);
    r.require("Jacobian rank decisions", 4);
    r.require("forgeries: completed", 4);
    r.require("randomness bits located", 500);
    r.finish()
}
