//! C10: generators: deterministic, prefix-stable, independent of how capacity was reached, valid and
//! pairwise distinct.
use ark_ec::AffineRepr;
use bulletproofs::{affine_from_bytes_tai, BulletproofGens, PedersenGens};
use ctmon::capture;
use ctmon::circuit::*;
use bulletproofs::r1cs::*;
use ctmon::cycles::*;
use ctmon::refver::*;
use ctmon::report::Case;
use ctmon::tree::{Cycle, Params};
use ctmon::*;
use ark_ff::{BigInteger, PrimeField, Zero};
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use rand::RngCore;
use std::collections::HashSet;
use std::sync::Arc;

fn grow<P: Curve>(c: &mut Case) {
    let parties = 1 + c.below(4);
    // a random history of capacity requests, including shrinking and repeated ones
    let first = c.below(40);
    let mut hist = vec![first];
    let mut g = BulletproofGens::<Aff<P>>::new(first, parties);
    let mut cap = first;
    for _ in 0..c.below(7) {
        let n = match c.below(4) {
            0 => cap,
            1 => cap + 1,
            2 => c.below(cap + 1),
            _ => cap + c.below(40),
        };
        g.increase_capacity(n);
        cap = cap.max(n);
        hist.push(n);
    }
    let d = format!("{} parties={} history={:?}", P::NAME, parties, hist);
    c.describe(d.clone());
    c.distinct(&d);
    c.check(g.gens_capacity == cap, || format!("capacity is {} after {:?}", g.gens_capacity, hist));
    c.check(g.party_capacity == parties, || "party capacity changed".into());
    let direct = BulletproofGens::<Aff<P>>::new(cap, parties);
    let larger = BulletproofGens::<Aff<P>>::new(cap + 5, parties + 1);
    let cl = g.clone();
    let mut all: HashSet<Vec<u8>> = HashSet::new();
    let (b, bb) = ref_pedersen::<P>();
    all.insert(point_bytes(&b));
    all.insert(point_bytes(&bb));
    for j in 0..parties {
        let want = ref_gens::<P>(b'G', j as u32, cap);
        let got: Vec<Aff<P>> = g.share(j).G(cap).copied().collect();
        c.count("generators compared", cap as u64);
        c.check(got == want, || format!("generators of party {} differ from their definition (first at {:?})", j, got.iter().zip(&want).position(|(a, b)| a != b)));
        c.check(direct.share(j).G(cap).copied().collect::<Vec<_>>() == got, || "grown and directly built generators differ".into());
        c.check(larger.share(j).G(cap).copied().collect::<Vec<_>>() == got, || "a larger set has a different prefix".into());
        c.check(cl.share(j).G(cap).copied().collect::<Vec<_>>() == got, || "a clone differs".into());
        let k = c.below(cap + 1);
        c.check(g.share(j).G(k).copied().collect::<Vec<_>>() == got[..k], || "a shorter request is not a prefix".into());
        for p in got.iter().chain(ref_gens::<P>(b'H', j as u32, cap).iter()) {
            c.check(!p.is_zero() && p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve(), || "a generator is not a valid point".into());
            c.check(all.insert(point_bytes(p)), || "two generators coincide".into());
        }
    }
    c.sample(|| d);
}

/// Many parties: indices around the boundaries of their bytes keep their own generators.
fn parties<P: Curve>(c: &mut Case) {
    let n = [258usize, 300, 515, 600][(c.idx / 4 % 4) as usize];
    let n = if matches!(c.tier, report::Tier::Thorough) && c.idx < 4 { 65538 } else { n };
    let cap = 1 + c.below(2) * (n < 1000) as usize;
    let g = BulletproofGens::<Aff<P>>::new(cap, n);
    let d = format!("{} parties={} capacity={}", P::NAME, n, cap);
    c.describe(d.clone());
    c.distinct(&d);
    let mut seen: std::collections::HashMap<Vec<u8>, (usize, usize)> = Default::default();
    for j in 0..n {
        let got: Vec<Aff<P>> = g.share(j).G(cap).copied().collect();
        c.check(got.len() == cap, || format!("party {} has {} of {} generators", j, got.len(), cap));
        for (i, p) in got.iter().enumerate() {
            if let Some(o) = seen.insert(point_bytes(p), (j, i)) {
                c.fail(format!("generator {} of party {} is generator {} of party {}", i, j, o.1, o.0));
            }
        }
        if j < 3 || j % 251 == 0 || (250..262).contains(&j) || (508..516).contains(&j) || j + 3 > n {
            c.check(got == ref_gens::<P>(b'G', j as u32, cap), || format!("generators of party {} of {} differ from their definition", j, n));
        }
        c.count("parties compared", 1);
    }
}

/// Far along the chain: sets that grow past the places where a short counter would wrap. The second
/// vector is seen in the first commitment of a proof, which is then given up.
fn large<P: Curve>(c: &mut Case) {
    let wrap = if c.tier == report::Tier::Thorough || c.idx == 0 { 1usize << 16 } else { 1 << 12 };
    let base = wrap - 20 + c.below(40);
    let cap = wrap + 30 + c.below(30);
    let hist = match c.idx % 3 {
        0 => vec![base, wrap + 2 + c.below(20), cap],
        1 => vec![c.below(300), base, base + 1 + c.below(3), cap],
        _ => vec![cap],
    };
    let d = format!("{} history={:?}", P::NAME, hist);
    c.describe(d.clone());
    c.distinct(&d);
    let mut g = BulletproofGens::<Aff<P>>::new(hist[0], 1);
    for n in &hist[1..] {
        g.increase_capacity(*n);
    }
    let (want_g, want_h) = (ref_gens::<P>(b'G', 0, cap), ref_gens::<P>(b'H', 0, cap));
    let got: Vec<Aff<P>> = g.share(0).G(cap).copied().collect();
    c.check(got == want_g, || format!("generators differ from their definition (first at {:?} of {})", got.iter().zip(&want_g).position(|(a, b)| a != b), cap));
    c.count("generators compared", cap as u64);
    let mut seen: std::collections::HashMap<(Vec<u8>, bool), usize> = Default::default();
    for (i, p) in got.iter().enumerate() {
        if let Some(o) = seen.insert((point_bytes(p), false), i) {
            c.fail(format!("generators {} and {} coincide", o, i));
        }
    }
    let pc = PedersenGens::<Aff<P>>::default();
    let f = |x: usize| Fr::<P>::from(x as u64);
    let (_, obs) = capture::msms::<P, _>(|| {
        let mut p = Prover::new(&pc, merlin::Transcript::new(b"c10"));
        for i in 0..cap {
            p.allocate_multiplier(Some((f(2 * i + 1), f(2 * i + 2)))).unwrap();
        }
        p.specify_randomized_constraints(|_| Err(R1CSError::FormatError)).unwrap();
        p.prove(&g).is_ok()
    });
    let at = |i: usize, h: bool| -> Aff<P> { if h { want_h[i] } else { want_g[i] } };
    let mut best: Option<(usize, usize)> = None;
    for m in &obs {
        // which base carries which wire
        let by: std::collections::HashMap<Vec<u8>, &Aff<P>> = m.scalars.iter().map(|s| point_bytes(s)).zip(m.bases.iter()).collect();
        let found: Vec<Option<&Aff<P>>> = (0..2 * cap).map(|k| by.get(&point_bytes(&f(k + 1))).copied()).collect();
        if found.iter().all(|x| x.is_some()) {
            let wrong = (0..2 * cap).filter(|k| *found[*k].unwrap() != at(k / 2, k % 2 == 1)).collect::<Vec<_>>();
            best = Some((wrong.len(), *wrong.first().unwrap_or(&0)));
            break;
        }
    }
    match best {
        Some((n, first)) => {
            c.count("far generators observed in a commitment", 2 * cap as u64);
            c.check(n == 0, || format!("{} wires are committed to other generators than their own (first is {} wire {})", n, if first % 2 == 0 { "left" } else { "right" }, first / 2));
        }
        None => c.inconclusive("no commitment to all wires observed"),
    }
    c.sample(|| d);
}

/// The generators actually used in proving (both vectors), whatever the growth history.
fn used<P: Curve>(c: &mut Case) {
    let n = 1 + c.below(12);
    let pad = n.next_power_of_two();
    let mut g = BulletproofGens::<Aff<P>>::new(c.below(4), 1 + c.below(3));
    let mut hist = vec![g.gens_capacity];
    while g.gens_capacity < pad {
        let k = g.gens_capacity + 1 + c.below(6);
        g.increase_capacity(k);
        hist.push(k);
    }
    let pc = PedersenGens::<Aff<P>>::default();
    let f = |x: u64| Fr::<P>::from(x);
    let prog = Arc::new(Program::<Fr<P>> { phase1: (0..n).map(|i| Op::AllocMul(vec![f(100 + i as u64)], vec![f(200 + i as u64)])).collect(), phase2: vec![] });
    let d = format!("{} n={} history={:?}", P::NAME, n, hist);
    c.describe(d.clone());
    c.distinct(&d);
    let (pr, obs) = capture::msms::<P, _>(|| prove::<P>(&prog, b"c10", &pc, &g));
    let proof = pr.proof.expect("honest proof");
    // fresh generators on the verifying side
    let direct = BulletproofGens::<Aff<P>>::new(pad, 1);
    let r = verify::<P>(&prog, b"c10", &[], &proof, &pc, &direct);
    c.check(r.is_ok(), || "a proof made with grown generators is rejected with directly built ones".into());
    let r = verify::<P>(&prog, b"c10", &[], &proof, &pc, &g);
    c.check(r.is_ok(), || "a proof is rejected with the generators it was made with".into());
    // the wire commitment: wires sit on their own G and H
    let gens = RefGens::<P>::new(pad);
    let w = match ctmon::codec::Wire::<P>::decode(&proof.to_bytes()) {
        Some(w) => w,
        None => return c.fail("unreadable proof"),
    };
    let mut found = false;
    let mut seen = false;
    for m in &obs {
        if Aff::<P>::from(m.result) != w.first[0] {
            continue;
        }
        seen = true;
        let at = |p: &Aff<P>| m.bases.iter().position(|b| b == p).map(|i| m.scalars[i]);
        if (0..n).all(|i| at(&gens.g[i]) == Some(f(100 + i as u64)) && at(&gens.h[i]) == Some(f(200 + i as u64))) {
            found = true;
        }
    }
    if !seen {
        c.inconclusive("the multiplication of the wire commitment was not observed");
    } else {
        c.check(found, || "the wires are not committed to over the specified generators".into());
        c.count("wire commitments observed", 1);
    }
}

fn hashing<P: Curve>(c: &mut Case) {
    for _ in 0..20 {
        let mut b = vec![0u8; c.below(80)];
        c.rng.fill_bytes(&mut b);
        let p: Aff<P> = affine_from_bytes_tai(&b);
        let q: Aff<P> = affine_from_bytes_tai(&b);
        c.check(p == ref_tai::<P>(&b), || "hash to curve differs from its definition".into());
        c.check(p == q && p.is_on_curve() && !p.is_zero(), || "hash to curve is not a fixed valid point".into());
        c.count("points hashed", 1);
        c.distinct(&format!("{} {}", P::NAME, report::fnv(&b)));
    }
    let pc = PedersenGens::<Aff<P>>::default();
    let (b, bb) = ref_pedersen::<P>();
    c.check(pc.B == b && pc.B_blinding == bb && b != bb, || "commitment generators differ from their definition".into());
}

/// The parameters of a curve tree, for lengths that differ between the two curves.
fn parameters<K: Cycle>(c: &mut Case) {
    let mut lens = [c.below(40) + 1, c.below(200) + 1];
    if c.coin() {
        lens.swap(0, 1);
    }
    let d = format!("{} {:?}", K::P0::NAME, lens);
    c.describe(d.clone());
    c.distinct(&d);
    let p = Params::<K>::new(lens[0], lens[1]);
    let q = Params::<K>::new(lens[1], lens[0] + 3);
    side::<K::P0>(c, &p.even_parameters, &q.even_parameters, lens[0], "even");
    side::<K::P1>(c, &p.odd_parameters, &q.odd_parameters, lens[1], "odd");
    c.count("parameter sets compared", 1);
}

fn side<P: Curve + Copy>(c: &mut Case, p: &SingleLayerParameters<P>, q: &SingleLayerParameters<P>, len: usize, what: &str) {
    c.check(p.bp_gens.gens_capacity == len, || format!("the {} side has {} generators, {} were asked for", what, p.bp_gens.gens_capacity, len));
    let n = len.min(p.bp_gens.gens_capacity);
    let g: Vec<Aff<P>> = p.bp_gens.share(0).G(n).copied().collect();
    c.check(g == ref_gens::<P>(b'G', 0, n), || format!("the {} generators differ from their definition", what));
    let m = n.min(q.bp_gens.gens_capacity);
    c.check(q.bp_gens.share(0).G(m).copied().collect::<Vec<_>>() == g[..m], || format!("{}: parameters of other lengths have other generators", what));
    let (b, bb) = ref_pedersen::<P>();
    c.check(p.pc_gens.B == b && p.pc_gens.B_blinding == bb, || format!("{}: commitment generators differ from their definition", what));
    c.check(p.delta == q.delta, || format!("{}: the offset depends on the lengths", what));
    let mut seen: HashSet<Vec<u8>> = g.iter().chain(&ref_gens::<P>(b'H', 0, n)).chain([&b, &bb]).flat_map(|x| [point_bytes(x), point_bytes(&-*x)]).collect();
    c.check(!p.delta.is_zero() && p.delta.is_on_curve() && seen.insert(point_bytes(&p.delta)), || format!("{}: the offset is no point of its own", what));
    c.check(p.coeff_a == P::COEFF_A && p.coeff_b == P::COEFF_B, || format!("{}: wrong curve coefficients", what));
    // one entry of each table, chosen by the bits of r, sums up to r times the blinding base
    for t in [&p.tables, &q.tables] {
        let r: Fr<P> = edge_scalar(&mut c.rng);
        let bits = r.into_bigint().to_bits_le();
        let mut acc = Proj::<P>::zero();
        for (i, t) in t.iter().enumerate() {
            let k = (0..3).map(|j| (*bits.get(3 * i + j).unwrap_or(&false) as usize) << j).sum::<usize>();
            acc += Aff::<P>::new_unchecked(t.elems[0][k], t.elems[1][k]);
        }
        c.check(acc == naive_mul::<P>(&bb, &r), || format!("{}: the tables do not add up to a multiple of the blinding base", what));
    }
}

fn main() {
    let mut r = Report::new(
        "C10",
        "Random capacity histories (growing, repeated and smaller requests) and party counts over 4 curves, compared with an independent derivation from the hash-chain definition (sets of more than 65536 generators and more than 256 parties included), with directly built and larger sets, and with clones; validity and pairwise distinctness of all generators including the second vector; the generators observed in recorded commitments of real proofs; hash-to-curve inputs of random length; curve tree parameters with different lengths per curve. Distinct = curve, party count and history.",
    );
    r.stage("grow", 300, 20000, |c| {
        let i = c.idx as usize;
        on_curve!(i, grow(c))
    });
    r.stage("parties", 16, 64, |c| {
        let i = c.idx as usize;
        on_curve!(i, parties(c))
    });
    r.stage("large", 6, 48, |c| {
        let i = c.idx as usize;
        on_curve!(i, large(c))
    });
    r.stage("used", 200, 8000, |c| {
        let i = c.idx as usize;
        on_curve!(i, used(c))
    });
    r.stage("hashing", 100, 8000, |c| {
        let i = c.idx as usize;
        on_curve!(i, hashing(c))
    });
    r.stage("parameters", 24, 800, |c| on_tree!(c.idx, parameters[](c)));
    r.require("parameter sets compared", 4);
    r.require("generators compared", 100);
    r.require("parties compared", 1000);
    r.require("far generators observed in a commitment", 100000);
    r.finish()
}
