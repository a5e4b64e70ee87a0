//! C11: commitments are the announced linear combinations.
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::cycles::*;
use ctmon::refver::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use std::any::{Any, TypeId};
use std::collections::{HashMap, HashSet};
use std::sync::{Mutex, OnceLock};

const CAP: usize = 520;

fn layer<P: Curve + Copy>() -> &'static SingleLayerParameters<P> {
    static CACHE: OnceLock<Mutex<HashMap<TypeId, &'static (dyn Any + Send + Sync)>>> = OnceLock::new();
    let mut g = CACHE.get_or_init(Default::default).lock().unwrap();
    g.entry(TypeId::of::<P>())
        .or_insert_with(|| Box::leak(Box::new(SingleLayerParameters::<P>::new::<P>(CAP))))
        .downcast_ref()
        .unwrap()
}

fn gens<P: Curve>() -> (Vec<Aff<P>>, Aff<P>, Aff<P>) {
    static CACHE: OnceLock<Mutex<HashMap<TypeId, Box<dyn Any + Send>>>> = OnceLock::new();
    let mut g = CACHE.get_or_init(Default::default).lock().unwrap();
    let v = g.entry(TypeId::of::<P>()).or_insert_with(|| {
        let (b, bb) = ref_pedersen::<P>();
        Box::new((ref_gens::<P>(b'G', 0, CAP), b, bb))
    });
    v.downcast_ref::<(Vec<Aff<P>>, Aff<P>, Aff<P>)>().unwrap().clone()
}

fn values<F: PrimeField>(c: &mut Case, n: usize) -> Vec<F> {
    let style = c.below(4);
    let one = edge_scalar::<F, _>(&mut c.rng);
    (0..n)
        .map(|_| match style {
            0 => edge_scalar(&mut c.rng),
            1 => F::rand(&mut c.rng),
            2 => one,
            _ => {
                if c.below(4) == 0 {
                    edge_scalar(&mut c.rng)
                } else {
                    F::zero()
                }
            }
        })
        .collect()
}

fn scalars<P: Curve + Copy>(c: &mut Case) {
    let (_, b, bb) = gens::<P>();
    let pc = PedersenGens::<Aff<P>>::default();
    c.check(pc.B == b && pc.B_blinding == bb, || "the Pedersen bases differ from their definition".into());
    let mut seen: HashMap<Vec<u8>, (Fr<P>, Fr<P>)> = HashMap::new();
    let mut list = vec![];
    for _ in 0..10 {
        let (v, r) = (edge_scalar::<Fr<P>, _>(&mut c.rng), edge_scalar::<Fr<P>, _>(&mut c.rng));
        let want = (naive_mul::<P>(&b, &v) + naive_mul::<P>(&bb, &r)).into_affine();
        let got = pc.commit(v, r);
        c.check(got == want, || format!("{}: commitment to {} with randomness {} is not v*B + r*B_blinding", P::NAME, v, r));
        let mut prover = Prover::new(&pc, Transcript::new(b"c11"));
        let (pcomm, _) = prover.commit(v, r);
        c.check(pcomm == want, || "the prover's scalar commitment differs from the Pedersen commitment".into());
        if let Some(o) = seen.insert(point_bytes(&got), (v, r)) {
            c.check(o == (v, r), || format!("two openings {:?} and {:?} give one commitment", o, (v, r)));
        }
        list.push((v, r, got));
        c.distinct(&format!("{} {} {}", P::NAME, v, r));
        c.count("scalar commitments compared", 2);
    }
    // other bases
    let pc2 = PedersenGens::<Aff<P>> { B: rand_point::<P, _>(&mut c.rng), B_blinding: rand_point::<P, _>(&mut c.rng) };
    let (v, r) = (edge_scalar::<Fr<P>, _>(&mut c.rng), edge_scalar::<Fr<P>, _>(&mut c.rng));
    let want = (naive_mul::<P>(&pc2.B, &v) + naive_mul::<P>(&pc2.B_blinding, &r)).into_affine();
    c.check(pc2.commit(v, r) == want, || "commitments ignore the chosen bases".into());
    let mut prover = Prover::new(&pc2, Transcript::new(b"c11"));
    c.check(prover.commit(v, r).0 == want, || "the prover's commitments ignore the chosen bases".into());
    for w in list.windows(2) {
        let sum = (w[0].2 + w[1].2).into_affine();
        c.check(pc.commit(w[0].0 + w[1].0, w[0].1 + w[1].1) == sum, || "scalar commitments are not additive".into());
        let k = Fr::<P>::rand(&mut c.rng);
        c.check(pc.commit(w[0].0 * k, w[0].1 * k) == naive_mul::<P>(&w[0].2, &k).into_affine(), || "scalar commitments are not linear".into());
    }
}

fn vectors<P: Curve + Copy>(c: &mut Case) {
    let (g, _, bb) = gens::<P>();
    let sl = layer::<P>();
    let pc = PedersenGens::<Aff<P>>::default();
    let n = match c.below(if c.idx % 8 == 3 { 7 } else { 6 }) {
        6 => [64, 100, 127, 128, 129, 200, 255, 256, 257, 260, 300, 511, 513][c.below(13)],
        0 => 1,
        1 => 2,
        2 => [3, 4, 5, 7, 8, 9, 16, 17, 31, 32][c.below(10)],
        _ => 1 + c.below(24),
    };
    let sets = CAP / n;
    let far = c.below(4) == 0;
    let set = c.below(if far { sets } else { sets.min(6) });
    let v = values::<Fr<P>>(c, n);
    let r = edge_scalar::<Fr<P>, _>(&mut c.rng);
    let d = format!("{} n={} set={} r={} v0={}", P::NAME, n, set, r, v[0]);
    c.describe(d.clone());
    c.distinct(&d);
    let def = |v: &[Fr<P>], r: &Fr<P>, set: usize| (naive_msm::<P>(&g[set * v.len()..(set + 1) * v.len()], v) + naive_mul::<P>(&bb, r)).into_affine();
    let want = def(&v, &r, set);
    let got = sl.commit(&v, r, set);
    c.check(got == want, || "a node commitment is not the sum over the bases of its set plus the blinding".into());
    c.count("vector commitments compared", 1);
    // the prover's vector commitment is the one of set 0, whatever the capacity of the generators
    let extra = c.below(5);
    let bp = BulletproofGens::<Aff<P>>::new(n + extra, 1 + c.below(2));
    let mut prover = Prover::new(&pc, Transcript::new(b"c11"));
    let before = c.below(3);
    for _ in 0..before {
        prover.commit(Fr::<P>::from(1u64), Fr::<P>::from(2u64));
        prover.commit_vec(&v[..1], r, &bp);
    }
    let (pv, vars) = prover.commit_vec(&v, r, &bp);
    c.check(pv == def(&v, &r, 0), || format!("the prover's vector commitment ({} before it, {} spare generators) is not the announced sum", 2 * before, extra));
    c.check(vars.len() == n, || format!("{} variables for a vector of {}", vars.len(), n));
    for (i, var) in vars.iter().enumerate() {
        c.check(prover.eval(&(*var).into()) == v[i], || format!("variable {} of a vector commitment has another value", i));
    }
    c.count("vector commitments compared", 1);
    // additivity, scaling
    let w = values::<Fr<P>>(c, n);
    let r2 = edge_scalar::<Fr<P>, _>(&mut c.rng);
    let sum: Vec<_> = v.iter().zip(&w).map(|(a, b)| *a + b).collect();
    c.check(sl.commit(&sum, r + r2, set) == (got + sl.commit(&w, r2, set)).into_affine(), || "vector commitments are not additive".into());
    let k = nonzero_scalar::<Fr<P>, _>(&mut c.rng);
    let sc: Vec<_> = v.iter().map(|a| *a * k).collect();
    c.check(sl.commit(&sc, r * k, set) == naive_mul::<P>(&got, &k).into_affine(), || "vector commitments are not linear".into());
    // different openings differ
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut openings: HashSet<String> = HashSet::new();
    let mut add = |c: &mut Case, v: &[Fr<P>], r: Fr<P>, set: usize, what: &str| {
        // an all-zero vector commits to the same thing in every set
        let key = if v.iter().all(|x| x.is_zero()) { format!("{}", r) } else { format!("{:?} {} {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>(), r, set) };
        if openings.insert(key) {
            let fresh = seen.insert(point_bytes(&sl.commit(v, r, set)));
            c.check(fresh, || format!("two different openings give one commitment: {}", what));
            c.count("pairs of openings compared", openings.len() as u64 - 1);
        }
    };
    add(c, &v, r, set, "base");
    for i in 0..n.min(8) {
        let mut w = v.clone();
        w[i] += Fr::<P>::from(1u64);
        add(c, &w, r, set, "entry changed");
        let mut w = v.clone();
        w.swap(i, (i + 1) % n);
        add(c, &w, r, set, "entries exchanged");
    }
    add(c, &v, r + Fr::<P>::from(1u64), set, "randomness changed");
    add(c, &v, -r, set, "randomness negated");
    for s in 0..sets.min(6) {
        add(c, &v, r, s, "other set");
    }
    // moving an entry to the next position or set
    let unit = |i: usize| -> Vec<Fr<P>> { (0..n).map(|j| if i == j { Fr::<P>::from(1u64) } else { Fr::<P>::zero() }).collect() };
    for i in 0..n.min(4) {
        for s in 0..sets.min(3) {
            let cm = sl.commit(&unit(i), Fr::<P>::zero(), s);
            c.check(cm == g[s * n + i], || format!("position {} of set {} does not use its own base", i, s));
        }
    }
    // not enough generators: refused, not truncated
    let too = CAP / n;
    let ones = vec![Fr::<P>::from(1u64); n];
    let r3 = guard(|| sl.commit(&ones, Fr::<P>::zero(), too));
    c.check(r3.is_err(), || format!("set {} of {}-vectors is beyond the generators but was committed to", too, n));
    c.sample(|| d);
}

fn main() {
    let mut r = Report::new(
        "C11",
        "a case is one (curve, vector length, set index, values, randomness) with edge and random scalars; each commitment is recomputed by double-and-add over independently derived bases",
    );
    r.assume("different openings giving one commitment among those tried would be a relation between the bases");
    r.require("vector commitments compared", 200);
    r.require("scalar commitments compared", 200);
    r.stage("scalars", 120, 3000, |c| on_curve!(c.idx, scalars(c)));
    r.stage("vectors", 400, 12000, |c| on_curve!(c.idx, vectors(c)));
    r.finish();
}
