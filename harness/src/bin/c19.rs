//! C19: three-bit lookup and the rerandomization tables.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::{AffineRepr, CurveGroup, Group};
use ark_ff::{Field, PrimeField, UniformRand, Zero, One};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use relations::lookup::{is_bit, lookup, Lookup3Bit};
use relations::rerandomize::build_tables;

fn table<const N: usize, P: Curve>(c: &mut Case) -> Lookup3Bit<N, Fr<P>> {
    let mut elems = [[Fr::<P>::zero(); 8]; N];
    let kind = c.below(4);
    for col in elems.iter_mut() {
        for (j, e) in col.iter_mut().enumerate() {
            *e = match kind {
                0 => edge_scalar(&mut c.rng),
                1 => Fr::<P>::from(j as u64),
                _ => Fr::<P>::rand(&mut c.rng),
            };
        }
    }
    Lookup3Bit { elems }
}

/// The lookup with its outputs tied to fresh variables.
fn record<'g, const N: usize, P: Curve>(pc: &'g PedersenGens<Aff<P>>, t: &Lookup3Bit<N, Fr<P>>, index: Option<usize>, out: [Fr<P>; N]) -> (Rec<'g, P>, Vec<usize>, Vec<Fr<P>>) {
    let mut rec = Rec::<P>::new(pc);
    let vars: Vec<_> = out.iter().map(|o| rec.input(*o)).collect();
    let res = lookup(&mut rec, t, index).unwrap();
    let vals: Vec<Fr<P>> = res.iter().map(|lc| rec.eval(lc)).collect();
    for (v, lc) in vars.iter().zip(res) {
        rec.constrain(lc - *v);
    }
    (rec, vars.into_iter().map(Rec::<P>::id).collect(), vals)
}

fn gadget<const N: usize, P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let t = table::<N, P>(c);
    let entry = |j: usize| -> [Fr<P>; N] { std::array::from_fn(|k| t.elems[k][j]) };
    let none = record::<N, P>(&pc, &t, None, entry(0)).0.fingerprint(9);
    for j in 0..8 {
        let (rec, ids, vals) = record::<N, P>(&pc, &t, Some(j), entry(j));
        c.check(vals[..] == entry(j)[..], || format!("lookup of {} yields another entry", j));
        c.check(rec.satisfied(), || format!("index {} does not satisfy", j));
        let f = rec.fingerprint(9);
        c.check(f == none, || "the circuit depends on the index".into());
        c.count("indices looked up", 1);
        c.distinct(&format!("{} {} {} {:?}", P::NAME, N, j, entry(j)));
        // other outputs for this index
        for j2 in 0..8 {
            if entry(j2) != entry(j) {
                let (bad, _, _) = record::<N, P>(&pc, &t, Some(j), entry(j2));
                c.check(!bad.satisfied(), || format!("entry {} satisfies for index {}", j2, j));
            }
        }
        // mixtures of two entries (both coordinates must come from the same index)
        if N > 1 {
            let j2 = (j + 1 + c.below(7)) % 8;
            let mut mix = entry(j);
            mix[N - 1] = t.elems[N - 1][j2];
            if !(0..8).any(|k| entry(k) == mix) {
                let (bad, _, _) = record::<N, P>(&pc, &t, Some(j), mix);
                c.check(!bad.satisfied(), || "a mixture of two entries satisfies".into());
            }
        }
        // locally, nothing can move
        let (sys, a) = rec.system();
        c.check(sys.satisfied(&a), || "the extracted system disagrees".into());
        let und = sys.undetermined(&a, &[], &ids);
        c.check(und.is_empty(), || format!("index {}: the output can be varied continuously", j));
        c.count("Jacobian rank decisions", 1);
    }
    // the set of all witnesses: boolean variables, and what they force
    let (rec, ids, _) = record::<N, P>(&pc, &t, Some(c.idx as usize % 8), entry(0));
    let (sys, hint) = rec.system();
    let mut seen: Vec<[Fr<P>; N]> = vec![];
    let mut stack: Vec<Vec<(usize, Fr<P>)>> = vec![vec![]];
    let mut open_end = false;
    let mut leaves = 0;
    while let Some(pins) = stack.pop() {
        let f = match sys.forced(&pins) {
            None => continue,
            Some(f) => f,
        };
        if ids.iter().all(|i| f[*i].is_some()) {
            leaves += 1;
            let out: [Fr<P>; N] = std::array::from_fn(|k| f[ids[k]].unwrap());
            c.check((0..8).any(|j| entry(j) == out), || format!("an assignment of the bits yields an output that is no entry of the table: {:?}", pins));
            if !seen.contains(&out) {
                seen.push(out);
            }
            continue;
        }
        let cl = sys.boolean_classes(&pins);
        match cl.first() {
            None => {
                open_end = true;
            }
            Some(cl) => {
                for x in [Fr::<P>::zero(), Fr::<P>::one()] {
                    let mut p = pins.clone();
                    p.extend(cl.iter().map(|v| (*v, x)));
                    stack.push(p);
                }
            }
        }
        if leaves > 64 {
            break;
        }
    }
    if open_end {
        // some variable is neither forced nor boolean: let it be anything
        let mut rng = c.sub_rng();
        for _ in 0..6 {
            let v = (c.below(3 * sys.n), Fr::<P>::rand(&mut c.rng));
            if ids.contains(&v.0) {
                continue;
            }
            if let Completion::Found(a) = sys.complete(&[v], &hint, &ids, &mut rng) {
                let out: [Fr<P>; N] = std::array::from_fn(|k| a[ids[k]]);
                c.check((0..8).any(|j| entry(j) == out), || "internal values can be chosen so that the output is no entry of the table".into());
                c.count("free completions", 1);
            }
        }
    } else {
        for j in 0..8 {
            c.check(seen.contains(&entry(j)), || format!("entry {} is unreachable", j));
        }
        c.count("complete enumerations of all bit assignments", 1);
    }
    // outputs that are no entries
    let mut rng = c.sub_rng();
    for _ in 0..4 {
        let mut out = entry(c.below(8));
        let k = c.below(N);
        out[k] = match c.below(3) {
            0 => out[k] + Fr::<P>::one(),
            1 => t.elems[k][c.below(8)] + t.elems[k][c.below(8)],
            _ => Fr::<P>::rand(&mut c.rng),
        };
        if (0..8).any(|j| entry(j) == out) {
            continue;
        }
        let pins: Vec<_> = ids.iter().cloned().zip(out).collect();
        let r = sys.complete(&pins, &hint, &[], &mut rng);
        c.check(!matches!(r, Completion::Found(_)), || "an output that is no entry is provable".into());
        c.count("false outputs tried", 1);
    }
    c.sample(|| format!("{} width {}: {} gates {} rows", P::NAME, N, sys.n, sys.rows.len()));
}

fn bits<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    for _ in 0..16 {
        let v: Fr<P> = edge_scalar(&mut c.rng);
        let mut rec = Rec::<P>::new(&pc);
        let x = rec.input(v);
        let k: Fr<P> = edge_scalar(&mut c.rng);
        // a linear combination with the value v
        is_bit(&mut rec, x + constant::<Fr<P>, Fr<P>>(k) - constant::<Fr<P>, Fr<P>>(k));
        let is = v.is_zero() || v.is_one();
        c.check(rec.satisfied() == is, || format!("is_bit({}) is {}", v, !is));
        let (sys, a) = rec.system();
        let mut rng = c.sub_rng();
        let r = sys.complete(&[(Rec::<P>::id(x), v)], &a, &[], &mut rng);
        c.check(matches!(r, Completion::Found(_)) == is, || format!("forging is_bit({})", v));
        c.distinct(&format!("bit {} {}", P::NAME, v));
        c.count("bit constraints", 1);
    }
}

/// proved and verified lookups, right and wrong
fn proved<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(16, 1);
    let t = table::<2, P>(c);
    let j = c.below(8);
    let claim = if c.coin() { j } else { c.below(8) };
    let out = [t.elems[0][claim], t.elems[1][claim]];
    let truth = (0..8).any(|k| k == j && t.elems[0][k] == out[0] && t.elems[1][k] == out[1]);
    let mut p = Prover::new(&pc, Transcript::new(b"c19"));
    let (c0, v0) = p.commit(out[0], Fr::<P>::rand(&mut c.rng));
    let (c1, v1) = p.commit(out[1], Fr::<P>::rand(&mut c.rng));
    let [a, b] = lookup(&mut p, &t, Some(j)).unwrap();
    p.constrain(a - v0);
    p.constrain(b - v1);
    let proof = p.prove(&bp).unwrap();
    let mut v = Verifier::new(Transcript::new(b"c19"));
    let (v0, v1) = (v.commit(c0), v.commit(c1));
    let [a, b] = lookup(&mut v, &t, None).unwrap();
    v.constrain(a - v0);
    v.constrain(b - v1);
    let r = v.verify(&proof, &pc, &bp);
    c.check(r.is_ok() == truth, || format!("lookup proof: index {} claimed entry {}: {:?}", j, claim, r));
    c.count("lookups proved", 1);
    c.distinct(&format!("proved {} {} {}", P::NAME, j, claim));
}

/// The tables of a curve: T_i[j] = T_i[0] + j * 8^(i-1) * h, the T_i[0] sum to zero, and partial
/// sums stay clear of the next entries.
fn tables<P: Curve>(c: &mut Case) {
    let h = if c.idx < 4 { PedersenGens::<Aff<P>>::default().B_blinding } else { rand_point::<P, _>(&mut c.rng) };
    let t = build_tables(h);
    let lambda = Fr::<P>::MODULUS_BIT_SIZE as usize;
    let m = t.len();
    c.check(3 * m >= lambda, || format!("{} windows do not cover {} bits", m, lambda));
    let point = |i: usize, j: usize| -> Option<Aff<P>> {
        let p = Aff::<P>::new_unchecked(t[i].elems[0][j], t[i].elems[1][j]);
        if p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve() { Some(p) } else { None }
    };
    let mut step = h.into_group();
    let mut sum0 = Proj::<P>::default();
    let mut ok = true;
    for i in 0..m {
        let mut row = vec![];
        for j in 0..8 {
            match point(i, j) {
                Some(p) => row.push(p),
                None => {
                    c.fail(format!("{}: entry {} of window {} is not on the curve", P::NAME, j, i + 1));
                    ok = false;
                }
            }
            c.count("table entries compared", 1);
        }
        if !ok {
            return;
        }
        let mut want = row[0].into_group();
        for j in 1..8 {
            want += step;
            c.check(want.into_affine() == row[j], || format!("{}: entry {} of window {} is not entry 0 plus {} steps", P::NAME, j, i + 1, j));
        }
        for a in 0..8 {
            for b in 0..a {
                c.check(row[a].x != row[b].x, || format!("{}: entries {} and {} of window {} share an x-coordinate", P::NAME, a, b, i + 1));
            }
        }
        sum0 += row[0];
        step = step.double().double().double();
    }
    c.check(sum0.is_zero(), || format!("{}: the offsets of the windows do not cancel", P::NAME));
    // offsets: T_i[0] = k * 8^(i-1) * h with a small k
    let mut ks: Vec<Option<u64>> = vec![];
    let mut unit = h.into_group();
    for i in 0..m - 2 {
        let p = point(i, 0).unwrap().into_group();
        let mut acc = Proj::<P>::default();
        let mut k = None;
        for q in 1..=64u64 {
            acc += unit;
            if acc == p {
                k = Some(q);
                break;
            }
        }
        ks.push(k);
        unit = unit.double().double().double();
    }
    if ks.iter().all(|k| k.is_some()) {
        // entry i ranges over [k, k+7] * 8^(i-1); the sum of the earlier ones must stay below the
        // smallest entry and, with the largest, below the group order
        // in units of 8^(i-1), the sum of the earlier windows is below (max k + 7)/7
        let mut hi = 0f64; // upper bound of the running sum in units of 8^(i-1)
        for (i, k) in ks.iter().enumerate() {
            let k = k.unwrap() as f64;
            if i > 0 {
                hi /= 8.0;
                c.check(hi < k, || format!("{}: the sum of the windows before {} can meet one of its entries", P::NAME, i + 1));
            }
            hi += k + 7.0;
            // the group order is above 2^(lambda-1)
            c.check(hi.log2() + 3.0 * (i as f64) < lambda as f64 - 1.0, || format!("{}: the sum up to window {} can wrap around the group order", P::NAME, i + 1));
            c.count("windows checked for exceptional sums", 1);
        }
    } else {
        c.inconclusive(format!("{}: window offsets are not small multiples; exceptional sums are judged by C21 only", P::NAME));
    }
    // whole sums
    for _ in 0..4 {
        let r: Fr<P> = edge_scalar(&mut c.rng);
        let b = r.into_bigint();
        use ark_ff::BigInteger;
        let bit = |k: usize| k < lambda && b.get_bit(k);
        let mut acc = Proj::<P>::default();
        for i in 0..m {
            let j = bit(3 * i) as usize + 2 * bit(3 * i + 1) as usize + 4 * bit(3 * i + 2) as usize;
            acc += point(i, j).unwrap();
        }
        c.check(acc.into_affine() == naive_mul::<P>(&h, &r).into_affine(), || format!("{}: the windows of {} do not sum to its multiple of the base", P::NAME, r));
        c.count("window sums compared", 1);
    }
    c.distinct(&format!("tables {} {}", P::NAME, c.idx));
    let _ = (Fr::<P>::one().inverse(), <P as SWCurveConfig>::COEFF_A);
}

fn g1<P: Curve>(c: &mut Case) { gadget::<1, P>(c) }
fn g2<P: Curve>(c: &mut Case) { gadget::<2, P>(c) }
fn g3<P: Curve>(c: &mut Case) { gadget::<3, P>(c) }

fn main() {
    let mut r = Report::new(
        "C19",
        "Lookup on a recording constraint system: all indices of random and structured tables of widths 1 to 3; wrong and mixed outputs; rank of the Jacobian; enumeration of everything the boolean variables admit; bit constraint on edge values; proofs; and the rerandomization tables of four curves against naive arithmetic, with bounds on partial sums. Distinct = (curve, width, index, entry) or table.",
    );
    r.stage("gadget", 120, 6000, |c| {
        let i = c.idx as usize;
        match i / 4 % 4 {
            0 => on_curve!(i, g1(c)),
            1 => on_curve!(i, g3(c)),
            _ => on_curve!(i, g2(c)),
        }
    });
    r.stage("bits", 40, 2000, |c| {
        let i = c.idx as usize;
        on_curve!(i, bits(c))
    });
    r.stage("proved", 80, 4000, |c| {
        let i = c.idx as usize;
        on_curve!(i, proved(c))
    });
    r.stage("tables", 12, 400, |c| {
        let i = c.idx as usize;
        on_curve!(i, tables(c))
    });
    r.require("indices looked up", 100);
    r.require("table entries compared", 2000);
    r.require("windows checked for exceptional sums", 0);
    r.require("lookups proved", 10);
    r.finish()
}
