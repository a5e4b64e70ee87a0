//! C07: proof encoding: exact size, lossless, canonical, and validated on decoding.
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::*;
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::report::Case;
use ctmon::*;
use std::sync::Arc;

const LABEL: &[u8] = b"c07";

fn roundtrip<P: Curve>(c: &mut Case) {
    let prog = loop {
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 64 {
            break Arc::new(p);
        }
    };
    let n = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(n, 1);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let proof = pr.proof.expect("honest proof");
    let bytes = proof.to_bytes();
    c.count("bytes encoded", bytes.len() as u64);
    // the documented layout
    let w = match Wire::<P>::decode(&bytes) {
        Some(w) => w,
        None => return c.fail("the encoding does not have the documented layout"),
    };
    c.check(w.encode() == bytes, || "re-encoding the parsed layout differs".into());
    // size: exact and logarithmic in the circuit, linear in the number of vector commitments
    let ps = point_bytes(&Aff::<P>::identity()).len();
    let ss = point_bytes(&Fr::<P>::from(0u64)).len();
    let k = prog.phase1.iter().filter(|o| matches!(o, Op::CommitVec(..))).count();
    let tn = 2 * (2 + 2 * (k / 2) + 1) + 1;
    let (n1, nn) = prog.muls();
    let six = nn > n1;
    let want = 3 * ps + 1 + if six { 3 * ps } else { 0 } + 8 + tn * ps + 3 * ss + 16 + 2 * (n.trailing_zeros() as usize) * ps + 2 * ss;
    c.check(bytes.len() == want, || format!("{} bytes, the layout has {}", bytes.len(), want));
    for (mode, name) in [(Compress::Yes, "compressed"), (Compress::No, "uncompressed")] {
        let mut b = vec![];
        proof.serialize_with_mode(&mut b, mode).unwrap();
        c.check(b.len() == proof.serialized_size(mode), || format!("{}: announced size {} but {} bytes", name, proof.serialized_size(mode), b.len()));
        if mode == Compress::Yes {
            c.check(b == bytes, || "to_bytes and serialize_compressed differ".into());
        }
        for val in [Validate::Yes, Validate::No] {
            let mut rd = &b[..];
            match R1CSProof::<Aff<P>>::deserialize_with_mode(&mut rd, mode, val) {
                Err(e) => c.fail(format!("{} encoding does not decode: {:?}", name, e)),
                Ok(p) => {
                    c.check(rd.is_empty(), || format!("{} decoding left {} bytes", name, rd.len()));
                    c.check(p.to_bytes() == bytes, || format!("{} decoding is lossy", name));
                    let r = verify::<P>(&prog, LABEL, &pr.points, &p, &pc, &bp);
                    c.check(r.is_ok(), || format!("proof decoded from its {} encoding rejected", name));
                    c.check(p.check().is_ok(), || "an honest proof fails its validity check".into());
                    c.count("decodings", 1);
                }
            }
        }
        ctmon::iofault::writing(c, name, &proof, mode);
        if c.idx % 4 == 0 {
            ctmon::iofault::reading(c, name, &proof, mode);
        }
        // in a container, with a neighbour
        let list = vec![proof.clone(), proof.clone()];
        let mut lb = vec![];
        list.serialize_with_mode(&mut lb, mode).unwrap();
        match Vec::<R1CSProof<Aff<P>>>::deserialize_with_mode(&lb[..], mode, Validate::Yes) {
            Ok(l) => {
                c.check(l.len() == 2 && l.iter().all(|p| p.to_bytes() == bytes), || "a list of proofs does not survive".into());
            }
            Err(e) => c.fail(format!("a list of proofs does not decode: {:?}", e)),
        }
        // every strict prefix is refused
        for _ in 0..6 {
            let cut = c.below(b.len());
            let r = R1CSProof::<Aff<P>>::deserialize_with_mode(&b[..cut], mode, Validate::Yes);
            c.check(r.is_err(), || format!("a {}-byte prefix of {} bytes decodes ({})", cut, b.len(), name));
            c.count("malformed encodings presented", 1);
        }
    }
    match R1CSProof::<Aff<P>>::from_bytes(&bytes) {
        Ok(p) => {
            c.check(p.to_bytes() == bytes, || "from_bytes is lossy".into());
        }
        Err(e) => c.fail(format!("from_bytes fails on an honest proof: {:?}", e)),
    }
    c.sample(|| format!("{}: {} bytes", d, bytes.len()));
}
use ark_serialize::Valid;

/// Encodings that denote no proof, or are a second encoding of one.
fn invalid<P: Curve>(c: &mut Case) {
    let prog = loop {
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 8 {
            break Arc::new(p);
        }
    };
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(8, 1);
    c.describe(format!("{} {}", P::NAME, prog.summary()));
    c.distinct(&format!("{} {}", P::NAME, prog.summary()));
    let proof = prove::<P>(&prog, LABEL, &pc, &bp).proof.expect("honest proof");
    let bytes = proof.to_bytes();
    let w = match Wire::<P>::decode(&bytes) {
        Some(w) => w,
        None => return c.fail("unreadable proof"),
    };
    let ss = point_bytes(&Fr::<P>::from(0u64)).len();
    let ps = point_bytes(&Aff::<P>::identity()).len();
    let modulus = {
        let mut m = Fr::<P>::MODULUS.to_bytes_le();
        m.resize(ss, 0);
        m
    };
    let mut bad: Vec<(String, Vec<u8>)> = vec![];
    // scalars: value + modulus, in each of the five places
    let t_end = 3 * ps + 1 + if w.flag == 1 { 3 * ps } else { 0 } + 8 + w.t.len() * ps;
    let places: Vec<usize> = (0..3).map(|i| t_end + i * ss).chain([bytes.len() - 2 * ss, bytes.len() - ss]).collect();
    for (k, at) in places.iter().enumerate() {
        let mut b = bytes.clone();
        let mut carry = 0u16;
        for i in 0..ss {
            let s = b[at + i] as u16 + modulus[i] as u16 + carry;
            b[at + i] = s as u8;
            carry = s >> 8;
        }
        if carry == 0 {
            bad.push((format!("scalar {} not reduced", k), b));
        }
        let mut b = bytes.clone();
        b[*at..at + ss].copy_from_slice(&modulus);
        bad.push((format!("scalar {} equal to the modulus", k), b));
    }
    // points: an x with no point on the curve
    for k in 0..3 {
        let mut b = bytes.clone();
        let mut tries = 0;
        loop {
            for i in 0..ps - 1 {
                b[k * ps + i] = rand::Rng::gen(&mut c.rng);
            }
            b[k * ps + ps - 2] = 0;
            if Aff::<P>::deserialize_compressed(&b[k * ps..(k + 1) * ps]).is_err() {
                break;
            }
            tries += 1;
            if tries > 200 {
                break;
            }
        }
        if tries <= 200 {
            bad.push((format!("point {} not on the curve", k), b));
        }
    }
    bad.push(("one trailing byte".into(), [&bytes[..], &[0]].concat()));
    bad.push(("empty".into(), vec![]));
    for f in [2u8, 3, 7, 0x10, 0x80, 0xfe, 0xff] {
        let mut b = bytes.clone();
        b[3 * ps] = f;
        bad.push((format!("phase flag {}", f), b));
    }
    let mut w2 = w.clone();
    if w2.flag == 0 {
        w2.flag = 1;
        bad.push(("second phase present but empty".into(), w2.encode()));
    }
    for (what, b) in &bad {
        let r = guard(|| R1CSProof::<Aff<P>>::from_bytes(b).is_ok());
        c.count("malformed encodings presented", 1);
        c.check(matches!(r, Ok(false)), || format!("malformed proof bytes decode ({}): {:?}", what, r));
    }
    // off-curve points in the uncompressed form, alone and inside a container
    let mut u = vec![];
    proof.serialize_uncompressed(&mut u).unwrap();
    let pu = {
        let mut v = vec![];
        pc.B.serialize_uncompressed(&mut v).unwrap();
        v.len()
    };
    let off = {
        // not on the curve: shift y
        let p = rand_point::<P, _>(&mut c.rng);
        let (x, y) = (p.x, p.y + Fq::<P>::from(1u64));
        Aff::<P>::new_unchecked(x, y)
    };
    if !off.is_on_curve() {
        let mut offb = vec![];
        off.serialize_uncompressed(&mut offb).unwrap();
        // T and L vectors and the plain points
        let u_t = 3 * pu + 1 + if w.flag == 1 { 3 * pu } else { 0 } + 8;
        let mut at: Vec<(String, usize)> = (0..3).map(|i| (format!("commitment {}", i), i * pu)).collect();
        at.extend((0..w.t.len()).map(|i| (format!("T[{}]", i), u_t + i * pu)));
        let su = ss;
        let l0 = u_t + w.t.len() * pu + 3 * su + 8;
        at.extend((0..w.l.len()).map(|i| (format!("L[{}]", i), l0 + i * pu)));
        let r0 = l0 + w.l.len() * pu + 8;
        at.extend((0..w.r.len()).map(|i| (format!("R[{}]", i), r0 + i * pu)));
        for (what, o) in at {
            let mut b = u.clone();
            b[o..o + pu].copy_from_slice(&offb);
            let r = guard(|| R1CSProof::<Aff<P>>::deserialize_uncompressed(&b[..]).is_ok());
            c.check(matches!(r, Ok(false)), || format!("an off-curve {} is accepted by the uncompressed decoder: {:?}", what, r));
            let mut lb = 1u64.to_le_bytes().to_vec();
            lb.extend(&b);
            let r = guard(|| Vec::<R1CSProof<Aff<P>>>::deserialize_uncompressed(&lb[..]).is_ok());
            c.check(matches!(r, Ok(false)), || format!("an off-curve {} is accepted inside a list: {:?}", what, r));
            c.count("malformed encodings presented", 2);
            if let Ok(p) = R1CSProof::<Aff<P>>::deserialize_uncompressed_unchecked(&b[..]) {
                c.check(p.check().is_err(), || format!("the validity check misses an off-curve {}", what));
            }
        }
    }
    c.sample(|| format!("{} malformed variants of a {}-byte proof", bad.len(), bytes.len()));
}

/// Proofs nobody computed: any well-formed proof object has exactly one encoding and comes back
/// from it, whichever of its points are the identity and however long its lists are.
fn crafted<P: Curve>(c: &mut Case) {
    let z = Aff::<P>::identity();
    let mut point = |c: &mut Case, id: bool| if id { z } else { rand_point::<P, _>(&mut c.rng) };
    let mask = (c.idx / 4) % 8;
    let first = [0, 1, 2].map(|_| {
        let id = c.below(4) == 0;
        point(c, id)
    });
    let second = [0, 1, 2].map(|i| point(c, mask >> i & 1 == 0));
    let mut list = |c: &mut Case, n: usize| -> Vec<Aff<P>> {
        (0..n)
            .map(|_| {
                let id = c.below(5) == 0;
                point(c, id)
            })
            .collect()
    };
    let (nt, nl) = (c.below(12), c.below(8));
    let nr = if c.below(4) == 0 { c.below(8) } else { nl };
    let w = Wire::<P> {
        first,
        flag: (mask != 0) as u8,
        second,
        t: list(c, nt),
        scalars: [0, 1, 2].map(|_| edge_scalar(&mut c.rng)),
        l: list(c, nl),
        r: list(c, nr),
        ab: [0, 1].map(|_| edge_scalar(&mut c.rng)),
    };
    let what = format!("{} second-phase points present {:03b}, lists {} {} {}", P::NAME, mask, nt, nl, nr);
    c.describe(what.clone());
    c.distinct(&what);
    let bytes = w.encode();
    let proof = match guard(|| R1CSProof::<Aff<P>>::from_bytes(&bytes)) {
        Ok(Ok(p)) => p,
        o => return c.fail(format!("{}: a well-formed encoding is refused: {:?}", what, o.map(|r| r.map(|_| ())))),
    };
    let again = match guard(|| proof.to_bytes()) {
        Ok(b) => b,
        Err(e) => return c.fail(format!("{}: encoding panics: {}", what, e)),
    };
    c.check(again == bytes, || format!("{}: the encoding of the decoded proof differs ({} and {} bytes)", what, again.len(), bytes.len()));
    c.check(proof.check().is_ok(), || format!("{}: fails its validity check", what));
    for mode in [Compress::Yes, Compress::No] {
        let mut b = vec![];
        proof.serialize_with_mode(&mut b, mode).unwrap();
        c.check(b.len() == proof.serialized_size(mode), || format!("{}: announced size {} but {} bytes", what, proof.serialized_size(mode), b.len()));
        let mut rd = &b[..];
        match R1CSProof::<Aff<P>>::deserialize_with_mode(&mut rd, mode, Validate::Yes) {
            Ok(p) => {
                c.check(rd.is_empty(), || format!("{}: decoding left {} bytes", what, rd.len()));
                c.check(p.to_bytes() == bytes, || format!("{}: does not survive its encoding", what));
            }
            Err(e) => c.fail(format!("{}: its own encoding is refused: {:?}", what, e)),
        }
        c.count("decodings", 1);
    }
    c.count("proof objects nobody computed", 1);
}

fn main() {
    let mut r = Report::new(
        "C07",
        "Honest proofs of random systems over 4 curves: exact announced size, documented layout (checked by an independent parser), compressed and uncompressed round trips alone and in a list, refusal of prefixes; and encodings that are not the canonical one of a valid proof (unreduced scalars, off-curve points everywhere, flags, trailing bytes). Distinct = curve and circuit shape.",
    );
    r.require("failing writes", 1000);
    r.stage("roundtrip", 500, 20000, |c| {
        let i = c.idx as usize;
        on_curve!(i, roundtrip(c))
    });
    r.stage("invalid", 240, 10000, |c| {
        let i = c.idx as usize;
        on_curve!(i, invalid(c))
    });
    r.stage("crafted", 800, 40000, |c| {
        let i = c.idx as usize;
        on_curve!(i, crafted(c))
    });
    r.require("decodings", 20);
    r.require("proof objects nobody computed", 32);
    r.require("malformed encodings presented", 50);
    r.finish()
}
