//! C03: no altered proof is accepted: every element of a proof and its encoding is binding.
use ark_ec::AffineRepr;
use ark_ff::Zero;
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::*;
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::refver::*;
use ctmon::report::Case;
use ctmon::*;
use rand::Rng;
use std::sync::Arc;

const LABEL: &[u8] = b"c03";

struct Setup<P: Curve> {
    prog: Arc<Program<Fr<P>>>,
    pc: PedersenGens<Aff<P>>,
    bp: BulletproofGens<Aff<P>>,
    gens: RefGens<P>,
    points: Vec<Aff<P>>,
    bytes: Vec<u8>,
    wire: Wire<P>,
}

fn setup<P: Curve>(c: &mut Case) -> Option<Setup<P>> {
    let large = c.idx % 60 >= 56;
    let prog = loop {
        if large {
            let shape = Shape::big(&mut c.rng, 150);
            c.count("large systems", 1);
            break Arc::new(Program::<Fr<P>>::random(&mut c.rng, shape));
        }
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 32 {
            break Arc::new(p);
        }
    };
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    // room for longer arguments, so that a capacity error is not what rejects
    let bp = BulletproofGens::<Aff<P>>::new(2 * cap, 1);
    let gens = RefGens::<P>::new(2 * cap);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let bytes = pr.proof.expect("honest proof").to_bytes();
    let wire = match Wire::<P>::decode(&bytes) {
        Some(w) => w,
        None => {
            c.fail("the proof does not have the documented layout");
            return None;
        }
    };
    Some(Setup { prog, pc, bp, gens, points: pr.points, bytes, wire })
}

/// Present bytes to the decoder and verifier. true = accepted.
fn present<P: Curve>(c: &mut Case, s: &Setup<P>, bytes: &[u8], what: &str) -> bool {
    let r = guard(|| match R1CSProof::<Aff<P>>::from_bytes(bytes) {
        Err(_) => Err("decode"),
        Ok(p) => verify::<P>(&s.prog, LABEL, &s.points, &p, &s.pc, &s.bp).map_err(|_| "verify"),
    });
    c.count("altered proofs presented", 1);
    match r {
        Err(p) => {
            // C05 decides termination without panics; here a panic is a rejection in release mode
            c.count("panics (rejections)", 1);
            let _ = p;
            false
        }
        Ok(Err("decode")) => {
            c.count("rejected by the decoder", 1);
            false
        }
        Ok(Err(_)) => {
            c.count("rejected by the verifier", 1);
            false
        }
        Ok(Ok(())) => {
            c.count("accepted", 1);
            let _ = what;
            true
        }
    }
}

fn expect_reject<P: Curve>(c: &mut Case, s: &Setup<P>, w: &Wire<P>, what: &str) {
    let bytes = w.encode();
    if bytes == s.bytes {
        return;
    }
    let got = present::<P>(c, s, &bytes, what);
    c.distinct(&format!("{} {} {}", P::NAME, what, s.prog.summary()));
    c.check(!got, || format!("an altered proof was accepted: {}", what));
    // the independent verifier agrees
    let rf = ref_verify::<P>(&s.prog, LABEL, &s.points, w, &s.gens);
    if rf.is_ok() {
        c.inconclusive(format!("reference accepts: {}", what));
    }
}

fn elements<P: Curve>(c: &mut Case) {
    let s = match setup::<P>(c) {
        Some(s) => s,
        None => return,
    };
    let ok = present::<P>(c, &s, &s.bytes.clone(), "original");
    if !c.check(ok, || "the honest proof is rejected".into()) {
        return;
    }
    let (np, ns) = {
        let mut w = s.wire.clone();
        (w.points_mut().len(), w.scalars_mut().len())
    };
    let op_zero: Vec<usize> = {
        let mut w = s.wire.clone();
        w.points_mut().iter().enumerate().filter(|(_, p)| p.is_zero()).map(|x| x.0).collect()
    };
    // every point, altered in one way each; every scalar too
    for i in 0..np {
        let mut w = s.wire.clone();
        let r = rand_point::<P, _>(&mut c.rng);
        let k = c.below(6);
        let other = c.below(np);
        let name;
        {
            let mut ps = w.points_mut();
            let old = *ps[i];
            let o2 = *ps[other];
            *ps[i] = match k {
                0 => {
                    name = "random point";
                    r
                }
                1 => {
                    name = "negated point";
                    -old
                }
                2 => {
                    name = "point plus B";
                    (Proj::<P>::from(old) + s.pc.B).into()
                }
                3 => {
                    name = "point plus B_blinding";
                    (Proj::<P>::from(old) + s.pc.B_blinding).into()
                }
                4 => {
                    name = "identity";
                    Aff::<P>::identity()
                }
                _ => {
                    name = "another element";
                    o2
                }
            };
        }
        let zero = if op_zero.contains(&i) { " (unused slot)" } else { "" };
        expect_reject::<P>(c, &s, &w, &format!("point {} of {}: {}{}", i, np, name, zero));
    }
    for i in 0..ns {
        let mut w = s.wire.clone();
        let d: Fr<P> = nonzero_scalar(&mut c.rng);
        let k = c.below(4);
        let other = c.below(ns);
        {
            let mut sc = w.scalars_mut();
            let old = *sc[i];
            let o2 = *sc[other];
            *sc[i] = match k {
                0 => old + d,
                1 => -old,
                2 => Fr::<P>::zero(),
                _ => o2,
            };
        }
        expect_reject::<P>(c, &s, &w, &format!("scalar {} altered", i));
    }
    // pairs of changes that keep simple sums or products
    let d: Fr<P> = rand_nonzero(&mut c.rng);
    use ark_ff::Field;
    for (n, f) in [
        ("a*d, b/d", Box::new(|w: &mut Wire<P>| {
            w.ab[0] *= d;
            w.ab[1] *= d.inverse().unwrap();
        }) as Box<dyn Fn(&mut Wire<P>)>),
        ("a,b swapped", Box::new(|w| w.ab.swap(0, 1))),
        ("blindings shifted", Box::new(|w| {
            w.scalars[1] += d;
            w.scalars[2] -= d;
        })),
        ("-a,-b", Box::new(|w| {
            w.ab[0] = -w.ab[0];
            w.ab[1] = -w.ab[1];
        })),
        ("T shifted between degrees", Box::new(|w| {
            let n = w.t.len();
            w.t[0] = (Proj::<P>::from(w.t[0]) + s.pc.B).into();
            w.t[n - 1] = (Proj::<P>::from(w.t[n - 1]) - s.pc.B).into();
        })),
        ("A_I and S shifted", Box::new(|w| {
            w.first[0] = (Proj::<P>::from(w.first[0]) + s.pc.B_blinding).into();
            w.first[2] = (Proj::<P>::from(w.first[2]) - s.pc.B_blinding).into();
        })),
        ("L and R of a round exchanged", Box::new(|w| {
            if !w.l.is_empty() {
                let k = w.l.len() - 1;
                std::mem::swap(&mut w.l[k], &mut w.r[k]);
            } else {
                w.ab[0] += d;
            }
        })),
        ("rounds exchanged", Box::new(|w| {
            if w.l.len() > 1 {
                w.l.swap(0, 1);
                w.r.swap(0, 1);
            } else {
                w.ab[0] += d;
            }
        })),
    ] {
        let mut w = s.wire.clone();
        f(&mut w);
        expect_reject::<P>(c, &s, &w, n);
    }
    c.sample(|| format!("{}: {} points and {} scalars altered one by one", s.prog.summary(), np, ns));
}

/// Structural changes: vector lengths, unused slots, presence flags.
fn structure<P: Curve>(c: &mut Case) {
    let s = match setup::<P>(c) {
        Some(s) => s,
        None => return,
    };
    let z = Aff::<P>::identity();
    let r = rand_point::<P, _>(&mut c.rng);
    let op = s.wire.t.iter().position(|p| p.is_zero());
    let mut muts: Vec<(&str, Wire<P>)> = vec![];
    let mut add = |n: &'static str, f: &dyn Fn(&mut Wire<P>)| {
        let mut w = s.wire.clone();
        f(&mut w);
        muts.push((n, w));
    };
    add("R longer than L", &|w| w.r.push(r));
    add("R longer than L by many", &|w| w.r.extend([r, z, r]));
    add("R longer than L by an identity", &|w| w.r.push(z));
    add("R shorter than L", &|w| {
        w.r.pop();
    });
    add("L longer than R", &|w| w.l.push(r));
    add("L shorter than R", &|w| {
        w.l.pop();
    });
    add("one more round", &|w| {
        w.l.push(r);
        w.r.push(r);
    });
    add("one more round of identities", &|w| {
        w.l.push(z);
        w.r.push(z);
    });
    add("one round less", &|w| {
        w.l.pop();
        w.r.pop();
    });
    add("T longer", &|w| w.t.push(r));
    add("T longer by an identity", &|w| w.t.push(z));
    add("T shorter", &|w| {
        w.t.pop();
    });
    add("T empty", &|w| w.t.clear());
    add("unused T set", &|w| {
        if let Some(i) = op {
            w.t[i] = r
        }
    });
    add("L, R exchanged whole", &|w| std::mem::swap(&mut w.l, &mut w.r));
    add("second phase added", &|w| {
        if w.flag == 0 {
            w.flag = 1;
            w.second = [r, r, r];
        } else {
            w.flag = 0;
            w.second = [z, z, z];
        }
    });
    add("second phase of identities", &|w| {
        w.flag = 1;
        w.second = [z, z, z];
    });
    add("second phase partly identity", &|w| {
        w.flag = 1;
        w.second[1] = r;
    });
    for (n, w) in muts {
        expect_reject::<P>(c, &s, &w, n);
    }
    c.sample(|| s.prog.summary());
}

/// Byte-level: any accepted byte string is the honest one.
fn bytes<P: Curve>(c: &mut Case) {
    let s = match setup::<P>(c) {
        Some(s) => s,
        None => return,
    };
    let n = s.bytes.len();
    let mut muts: Vec<(String, Vec<u8>)> = vec![];
    // every flag byte and length prefix region is hit over the cases; random bits elsewhere
    for _ in 0..24 {
        let mut b = s.bytes.clone();
        let i = c.below(n);
        let bit = c.below(8);
        b[i] ^= 1 << bit;
        muts.push((format!("bit {} of byte {} of {}", bit, i, n), b));
    }
    let ps = point_bytes(&Aff::<P>::identity()).len();
    // the phase flag
    for v in [1u8, 2, 3, 0x80, 0xff, 0] {
        let mut b = s.bytes.clone();
        b[3 * ps] = v;
        muts.push((format!("phase flag set to {}", v), b));
    }
    // second-phase points made explicit
    if s.wire.flag == 0 {
        let mut b = s.bytes[..3 * ps].to_vec();
        b.push(1);
        for _ in 0..3 {
            b.extend(point_bytes(&Aff::<P>::identity()));
        }
        b.extend(&s.bytes[3 * ps + 1..]);
        muts.push(("explicit identities for the second phase".into(), b));
    }
    // the encoding of the unused (identity) slot
    let off = 3 * ps + 1 + if s.wire.flag == 1 { 3 * ps } else { 0 } + 8;
    if let Some(k) = s.wire.t.iter().position(|p| p.is_zero()) {
        for _ in 0..4 {
            let mut b = s.bytes.clone();
            let j = off + k * ps + c.below(ps);
            b[j] ^= 1 << c.below(8);
            muts.push((format!("bit in the identity encoding of T[{}]", k), b));
        }
    }
    for k in [1usize, 2, 33] {
        let mut b = s.bytes.clone();
        b.extend(std::iter::repeat(c.rng.gen::<u8>()).take(k));
        muts.push((format!("{} trailing bytes", k), b));
    }
    {
        let mut b = s.bytes.clone();
        b.truncate(n - 1 - c.below(n.min(40)));
        muts.push(("truncated".into(), b));
    }
    {
        let mut b = s.bytes.clone();
        let x = b.clone();
        b.extend(x);
        muts.push(("doubled".into(), b));
    }
    for (what, b) in muts {
        if b == s.bytes {
            continue;
        }
        let got = present::<P>(c, &s, &b, &what);
        c.distinct(&format!("{} {}", P::NAME, what));
        c.check(!got, || format!("a different byte string is accepted: {}", what));
    }
    c.sample(|| format!("{} bytes, {}", n, s.prog.summary()));
}

/// Elements transplanted from another proof of the same statement.
fn transplant<P: Curve>(c: &mut Case) {
    let s = match setup::<P>(c) {
        Some(s) => s,
        None => return,
    };
    let pr = prove::<P>(&s.prog, LABEL, &s.pc, &s.bp);
    let other = match Wire::<P>::decode(&pr.proof.expect("honest").to_bytes()) {
        Some(w) => w,
        None => return,
    };
    let mut o = other.clone();
    let mut full = s.wire.clone();
    let np = full.points_mut().len();
    for i in 0..np {
        let mut w = s.wire.clone();
        let q = *o.points_mut()[i];
        *w.points_mut()[i] = q;
        expect_reject::<P>(c, &s, &w, &format!("point {} from another proof", i));
    }
    for i in 0..5 {
        let mut w = s.wire.clone();
        let q = *o.scalars_mut()[i];
        *w.scalars_mut()[i] = q;
        expect_reject::<P>(c, &s, &w, &format!("scalar {} from another proof", i));
    }
    // whole sections
    let mut w = s.wire.clone();
    w.l = other.l.clone();
    w.r = other.r.clone();
    w.ab = other.ab;
    expect_reject::<P>(c, &s, &w, "inner-product argument from another proof");
    let mut w = s.wire.clone();
    w.t = other.t.clone();
    w.scalars = other.scalars;
    expect_reject::<P>(c, &s, &w, "polynomial part from another proof");
    let mut w = s.wire.clone();
    w.first = other.first;
    w.second = other.second;
    expect_reject::<P>(c, &s, &w, "commitments from another proof");
    c.sample(|| s.prog.summary());
}

fn main() {
    let mut r = Report::new(
        "C03",
        "Honest proofs of random systems over 4 curves, then: every point and scalar altered one at a time, compensating pairs, vector-length and phase-flag changes, bit flips, trailing and truncated bytes, elements transplanted from a second proof of the same statement. Every altered byte string is decoded and verified by the real code. Distinct = alteration, curve and circuit shape.",
    );
    r.stage("elements", 240, 12000, |c| {
        let i = c.idx as usize;
        on_curve!(i, elements(c))
    });
    r.stage("structure", 240, 8000, |c| {
        let i = c.idx as usize;
        on_curve!(i, structure(c))
    });
    r.stage("bytes", 240, 12000, |c| {
        let i = c.idx as usize;
        on_curve!(i, bytes(c))
    });
    r.stage("transplant", 160, 4000, |c| {
        let i = c.idx as usize;
        on_curve!(i, transplant(c))
    });
    r.require("altered proofs presented", 100);
    r.require("rejected by the verifier", 20);
    r.finish()
}
