//! C22: range proof: exactly the values in [0, 2^n).
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::cycles::*;
use ctmon::gadget::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use relations::range_proof::range_proof;

fn record<'g, P: Curve>(pc: &'g PedersenGens<Aff<P>>, v: Fr<P>, q: Option<u64>, n: usize) -> (Rec<'g, P>, usize, usize) {
    let mut rec = Rec::<P>::new(pc);
    let x = rec.input(v);
    let before = rec.metrics().multipliers;
    range_proof(&mut rec, x.into(), q, n).unwrap();
    let used = rec.metrics().multipliers - before;
    (rec, Rec::<P>::id(x), used)
}

fn fits<F: PrimeField>(v: &F, n: usize) -> bool {
    (v.into_bigint().num_bits() as usize) <= n
}

fn inside(c: &mut Case, n: usize) -> u64 {
    use rand::Rng;
    let max = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
    match c.below(6) {
        0 => 0,
        1 => max,
        2 => max / 2,
        3 => max / 2 + 1,
        4 => 1u64 << c.below(n.min(64)),
        _ => c.rng.gen::<u64>() & max,
    }
}

/// Widths beyond the type of the value, and no bits at all.
fn wide<P: Curve>(c: &mut Case) {
    c.count("widths beyond 64 bits", 1);
    let n = match (c.idx as usize / 4) % 6 {
        0 => 65,
        1 => 66 + c.below(30),
        2 => 127 + c.below(3),
        3 => 130 + c.below(100),
        4 => 250,
        _ => {
            let pc = PedersenGens::<Aff<P>>::default();
            c.describe(format!("{} no bits", P::NAME));
            for (v, q) in [(Fr::<P>::zero(), 0), (Fr::<P>::one(), 1), (Fr::<P>::one(), 0), (-Fr::<P>::one(), 0), (Fr::<P>::rand(&mut c.rng), 0)] {
                let (rec, _, used) = record::<P>(&pc, v, Some(q), 0);
                c.check(used == 0, || format!("{} gates for no bits", used));
                c.check(rec.satisfied() == v.is_zero(), || format!("{} in no bits: {}", v, rec.satisfied()));
            }
            return;
        }
    };
    gadget::<P>(c, n)
}

fn gadget<P: Curve>(c: &mut Case, n: usize) {
    let pc = PedersenGens::<Aff<P>>::default();
    c.describe(format!("{} {} bits", P::NAME, n));
    let mut print: Option<(usize, Vec<Fr<P>>)> = None;
    for _ in 0..6 {
        let q = inside(c, n);
        let (rec, _, used) = record::<P>(&pc, q.into(), Some(q), n);
        c.check(used == n, || format!("{} gates for {} bits", used, n));
        c.check(rec.satisfied(), || format!("{} fits in {} bits but fails", q, n));
        c.count("values in range", 1);
        c.distinct(&format!("{} {} {}", P::NAME, n, q));
        let f = rec.fingerprint(2);
        if let Some(g) = &print {
            c.check(f == *g, || "the circuit depends on the value".into());
        } else {
            let none = record::<P>(&pc, q.into(), None, n).0.fingerprint(2);
            c.check(f == none, || "the verifier's circuit differs".into());
            print = Some(f);
        }
    }
    // values outside, with the bits an honest or dishonest caller may give
    let two_n = Fr::<P>::from(2u64).pow([n as u64]);
    let q = inside(c, n);
    let mut outs = vec![two_n, two_n + Fr::<P>::one(), two_n + Fr::<P>::from(q), -Fr::<P>::one(), -Fr::<P>::from(q), -two_n, two_n.double(), two_n.double() - Fr::<P>::one(), Fr::<P>::one().double().inverse().unwrap(), two_n.inverse().unwrap(), Fr::<P>::from(q) - two_n];
    outs.push(Fr::<P>::rand(&mut c.rng));
    outs.push(Fr::<P>::from(u64::MAX) + Fr::<P>::one());
    let (base, xid, _) = record::<P>(&pc, q.into(), Some(q), n);
    let (sys, hint) = base.system();
    c.check(sys.satisfied(&hint), || "the extracted system disagrees".into());
    for v in outs {
        if fits(&v, n) {
            continue;
        }
        let low = {
            let b = v.into_bigint();
            b.as_ref()[0]
        };
        for bits in [low, q, 0, u64::MAX, low.wrapping_neg()] {
            let (rec, _, _) = record::<P>(&pc, v, Some(bits), n);
            c.check(!rec.satisfied(), || format!("{} does not fit in {} bits but satisfies with bits {:x}", v, n, bits));
            c.count("values out of range", 1);
        }
        let mut rng = c.sub_rng();
        if n <= 8 || c.below(4) == 0 {
            let r = sys.complete(&[(xid, v)], &hint, &[], &mut rng);
            c.check(!matches!(r, Completion::Found(_)), || format!("bits can be chosen so that {} fits in {} bits", v, n));
        }
        c.distinct(&format!("{} {} {}", P::NAME, n, v));
    }
    // in-range value with wrong bits
    let (rec, _, _) = record::<P>(&pc, q.into(), Some(q ^ (1 << c.below(n.min(64)))), n);
    c.check(!rec.satisfied(), || "wrong bits satisfy".into());
    // locally rigid
    let und = sys.undetermined(&hint, &[], &[xid]);
    c.check(und.is_empty(), || format!("{} bits: the value can be varied continuously", n));
    // each internal variable made non-boolean: does the rest of the system still let v go out of range?
    for _ in 0..8 {
        let var = c.below(3 * sys.n);
        if var / 3 == xid / 3 {
            continue;
        }
        let odd = [Fr::<P>::from(2u64), -Fr::<P>::one(), Fr::<P>::from(3u64), Fr::<P>::rand(&mut c.rng)][c.below(4)];
        let mut rng = c.sub_rng();
        if let Completion::Found(a) = sys.complete(&[(var, odd)], &hint, &[xid], &mut rng) {
            c.check(fits(&a[xid], n), || format!("an internal value {} admits {} in {} bits", odd, a[xid], n));
        } else {
            c.eval();
        }
        c.count("non-boolean internal values tried", 1);
    }
    // random walks over the boolean variables end in range, and both ends are reachable
    for walk in 0..3 {
        let mut pins: Vec<(usize, Fr<P>)> = match walk {
            0 => vec![(xid, Fr::<P>::zero())],
            1 => vec![(xid, two_n - Fr::<P>::one())],
            _ => vec![],
        };
        if walk < 2 {
            // the two ends, with the honest bits as hint
            let end = if walk == 0 { 0 } else if n >= 64 { u64::MAX } else { (1 << n) - 1 };
            let (rec, _, _) = record::<P>(&pc, end.into(), Some(end), n);
            c.check(rec.satisfied(), || format!("end {} of {} bits is not reachable", end, n));
            continue;
        }
        if n > 12 {
            continue;
        }
        loop {
            let f = match sys.forced(&pins) {
                None => {
                    c.fail("a choice of bits is contradictory");
                    break;
                }
                Some(f) => f,
            };
            if let Some(x) = f[xid] {
                c.check(fits(&x, n), || format!("a choice of bits gives {} for {} bits", x, n));
                c.count("bit assignments walked", 1);
                break;
            }
            let cl = sys.boolean_classes(&pins);
            if cl.is_empty() {
                c.inconclusive("a variable is neither forced nor boolean");
                break;
            }
            let k = c.below(cl.len());
            let b = if c.coin() { Fr::<P>::one() } else { Fr::<P>::zero() };
            pins.extend(cl[k].iter().map(|v| (*v, b)));
        }
    }
    c.sample(|| format!("{} {} bits: {} gates, {} rows", P::NAME, n, sys.n, sys.rows.len()));
}

fn proved<P: Curve>(c: &mut Case) {
    let pc = PedersenGens::<Aff<P>>::default();
    let n = match c.below(5) {
        0 => 64,
        1 => 1 + c.below(4),
        2 => 65 + c.below(60),
        _ => 1 + c.below(64),
    };
    let bp = BulletproofGens::<Aff<P>>::new(128, 1);
    let q = inside(c, n);
    let lie = c.below(3);
    let v: Fr<P> = match lie {
        0 => q.into(),
        1 => Fr::<P>::from(q) + Fr::<P>::from(2u64).pow([n as u64]),
        _ => -Fr::<P>::from(q) - Fr::<P>::one(),
    };
    let mut p = Prover::new(&pc, Transcript::new(b"c22"));
    let (cv, x) = p.commit(v, Fr::<P>::rand(&mut c.rng));
    range_proof(&mut p, x.into(), Some(q), n).unwrap();
    let proof = match p.prove(&bp) {
        Ok(p) => p,
        Err(e) => {
            c.fail(format!("proving failed {:?}", e));
            return;
        }
    };
    let verify = |m: usize| {
        let mut w = Verifier::new(Transcript::new(b"c22"));
        let x = w.commit(cv);
        range_proof(&mut w, x.into(), None, m).unwrap();
        w.verify(&proof, &pc, &bp)
    };
    let r = verify(n);
    c.check(r.is_ok() == (lie == 0), || format!("{} in {} bits: verdict {:?}", v, n, r));
    // a proof for n bits is none for another width
    let m = if n > 1 && c.coin() { n - 1 } else { n + 1 };
    let r = verify(m);
    c.check(r.is_err(), || format!("a proof for {} bits verifies for {}", n, m));
    c.count("range proofs verified", 1);
    c.distinct(&format!("proved {} {} {} {}", P::NAME, n, lie, q));
}

fn main() {
    let mut r = Report::new(
        "C22",
        "Range constraint on a recording constraint system for every width 1 to 64 and widths up to 250 on four curves: edge and random values inside, wrapped, negative and neighbouring values outside with honest and dishonest bits, forged internal values, rank of the Jacobian, walks over all bit choices for small widths; and proofs with commitments. Distinct = (curve, width, value).",
    );
    r.stage("gadget", 256, 8192, |c| {
        let i = c.idx as usize;
        on_curve!(i, gadget(c, 1 + (i / 4) % 64))
    });
    r.stage("wide", 48, 1200, |c| {
        let i = c.idx as usize;
        on_curve!(i, wide(c))
    });
    r.stage("proved", 120, 6000, |c| {
        let i = c.idx as usize;
        on_curve!(i, proved(c))
    });
    r.require("values in range", 500);
    r.require("values out of range", 500);
    r.require("range proofs verified", 20);
    r.finish()
}
