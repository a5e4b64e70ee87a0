//! C18: select: x is one of the listed values.
use ark_ff::{Field, UniformRand, Zero, One};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use relations::select::select;

fn list<P: Curve>(c: &mut Case, n: usize) -> Vec<Fr<P>> {
    let kind = c.below(5);
    let mut xs: Vec<Fr<P>> = (0..n)
        .map(|i| match kind {
            0 => Fr::<P>::rand(&mut c.rng),
            1 => edge_scalar(&mut c.rng),
            2 => Fr::<P>::from(i as u64 + 1),
            3 => Fr::<P>::from(2u64).pow([i as u64]),
            _ => if i < n / 2 { Fr::<P>::rand(&mut c.rng) } else { Fr::<P>::zero() },
        })
        .collect();
    if n > 2 && c.below(3) == 0 {
        let (a, b) = (c.below(n), c.below(n));
        xs[a] = xs[b];
    }
    xs
}

fn record<'g, P: Curve>(pc: &'g PedersenGens<Aff<P>>, xs: &[Fr<P>], x: Fr<P>, shape: usize) -> (Rec<'g, P>, usize, Vec<usize>) {
    let mut rec = Rec::<P>::new(pc);
    let xv = rec.input(x);
    let vars: Vec<_> = xs.iter().map(|x| rec.input(*x)).collect();
    // the list as variables, as constants (the root's children), or as sums
    let lcs: Vec<LinearCombination<Fr<P>>> = vars
        .iter()
        .zip(xs)
        .enumerate()
        .map(|(i, (v, x))| match (shape + if shape > 2 { i } else { 0 }) % 3 {
            0 => (*v).into(),
            1 => constant(*x),
            _ => *v + constant::<Fr<P>, Fr<P>>(Fr::<P>::from(5u64)) - constant::<Fr<P>, Fr<P>>(Fr::<P>::from(5u64)),
        })
        .collect();
    select(&mut rec, xv.into(), lcs.into_iter());
    let ids = vars.into_iter().map(Rec::<P>::id).collect();
    (rec, Rec::<P>::id(xv), ids)
}

fn gadget<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let n = match c.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 if c.idx % 8 == 1 => [100, 127, 128, 129, 200, 255, 256, 257, 300][c.below(9)],
        3 => 1 + c.below(64),
        _ => 1 + c.below(16),
    };
    let xs = list::<P>(c, n);
    let shape = c.below(4);
    c.describe(format!("{} list of {} shape {}", P::NAME, n, shape));
    let mut first: Option<(usize, Vec<Fr<P>>)> = None;
    for i in 0..n {
        if n > 64 && i > 2 && i + 3 < n && c.below(n) > 12 {
            continue;
        }
        let (rec, _, _) = record::<P>(&pc, &xs, xs[i], shape);
        c.check(rec.satisfied(), || format!("element {} of {} cannot be selected", i, n));
        c.distinct(&format!("{} {} {} member {}", P::NAME, n, shape, i));
        c.count("members selected", 1);
        if i == 0 || i + 1 == n {
            let f = rec.fingerprint(3);
            if let Some(g) = &first {
                c.check(f == *g, || "the circuit depends on the selected position".into());
            } else {
                first = Some(f);
            }
        }
    }
    // values outside the list
    let mut outs: Vec<Fr<P>> = vec![Fr::<P>::rand(&mut c.rng), Fr::<P>::zero(), Fr::<P>::one(), xs.iter().sum(), xs.iter().product()];
    for _ in 0..4 {
        let (a, b) = (xs[c.below(n)], xs[c.below(n)]);
        outs.extend([a + Fr::<P>::one(), a - Fr::<P>::one(), -a, a.double(), a + b, a - b, a * b, (a + b) * Fr::<P>::from(2u64).inverse().unwrap()]);
    }
    let mut sys = None;
    for x in outs {
        if xs.contains(&x) {
            continue;
        }
        let (rec, xid, ids) = record::<P>(&pc, &xs, x, shape);
        c.check(!rec.satisfied(), || format!("{} is not in the list but satisfies the constraints", x));
        if let Some(g) = &first {
            if c.below(4) == 0 {
                let mine = rec.fingerprint(3);
                c.check(mine == *g, || "the circuit depends on the selected value".into());
            }
        }
        // can the prover choose the internal values so that it does?
        let (s, a) = sys.get_or_insert_with(|| rec.system());
        let mut pins = vec![(xid, x)];
        pins.extend(ids.iter().cloned().zip(xs.iter().cloned()));
        let mut rng = c.sub_rng();
        let r = s.complete(&pins, a, &[], &mut rng);
        c.check(!matches!(r, Completion::Found(_)), || format!("internal values can be chosen so that {} outside the list is accepted", x));
        c.count(if matches!(r, Completion::Impossible) { "non-members: impossible" } else { "non-members: none found" }, 1);
        c.distinct(&format!("{} {} {} outside {}", P::NAME, n, shape, x));
    }
    c.sample(|| format!("{} list of {}: {:?}", P::NAME, n, xs.iter().take(3).map(|x| x.to_string()).collect::<Vec<_>>()));
}

/// selection from a vector commitment, proved and verified
fn proved<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let n = if c.idx % 16 == 5 { 100 + c.below(250) } else { 1 + c.below(20) };
    let bp = BulletproofGens::<Aff<P>>::new((n + 2).next_power_of_two().max(32), 1);
    let xs = list::<P>(c, n);
    let member = c.coin();
    let x = if member { xs[c.below(n)] } else { xs[c.below(n)] + Fr::<P>::from(1 + c.below(3) as u64) };
    let truth = xs.contains(&x);
    let mut p = Prover::new(&pc, Transcript::new(b"c18"));
    let (cx, vx) = p.commit(x, Fr::<P>::rand(&mut c.rng));
    let (cl, vl) = p.commit_vec(&xs, Fr::<P>::rand(&mut c.rng), &bp);
    select(&mut p, vx.into(), vl.into_iter().map(|v| v.into()));
    let proof = match p.prove(&bp) {
        Ok(p) => p,
        Err(e) => {
            c.fail(format!("proving failed: {:?}", e));
            return;
        }
    };
    let mut v = Verifier::new(Transcript::new(b"c18"));
    let vx = v.commit(cx);
    let vl = v.commit_vec(n, cl);
    select(&mut v, vx.into(), vl.into_iter().map(|v| v.into()));
    let r = v.verify(&proof, &pc, &bp);
    c.check(r.is_ok() == truth, || format!("{}: membership is {} but the verdict is {:?} (list of {})", P::NAME, truth, r, n));
    c.count(if truth { "proofs of members" } else { "proofs of non-members" }, 1);
    c.distinct(&format!("proved {} {} {} {}", P::NAME, n, truth, c.idx));
}

fn main() {
    let mut r = Report::new(
        "C18",
        "Select on a recording constraint system: every position of random, structured, repeated and zero-padded lists; values outside the list both as honest values and with the internal values solved for; same circuit for all positions; selections from vector commitments proved and verified. Distinct = (curve, list length, shape, position or value).",
    );
    r.stage("gadget", 240, 12000, |c| {
        let i = c.idx as usize;
        on_curve!(i, gadget(c))
    });
    r.stage("proved", 160, 6000, |c| {
        let i = c.idx as usize;
        on_curve!(i, proved(c))
    });
    r.require("members selected", 200);
    r.require("non-members: impossible", 200);
    r.require("proofs of members", 10);
    r.require("proofs of non-members", 10);
    r.finish()
}
