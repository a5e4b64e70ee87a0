//! C09: results do not depend on threads, schedule or build features.
//!
//! The same binary is the workload and the monitor. `--emit FILE` computes a fixed workload and
//! writes a digest per deterministic result ("D"), every proof it made ("P") and the verdicts it
//! reached ("V"); `--consume FILE` verifies the proofs another process made. The monitor runs it
//! with different thread pools, with injected delays, in a build without the parallel feature and
//! under ThreadSanitizer, and compares.
use ark_ec::CurveGroup;
use ark_ff::One;
use ark_serialize::CanonicalDeserialize;
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::*;
use ctmon::cycles::*;
use ctmon::pour::*;
use ctmon::refver::hex;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use merlin::Transcript;
use rand::Rng;
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use sha3::{Digest, Sha3_256};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

const L: usize = 4;

fn rng_for(seed: u64, what: &str) -> ChaCha20Rng {
    let mut h = Sha3_256::new();
    h.update(seed.to_le_bytes());
    h.update(what.as_bytes());
    let mut s = [0u8; 32];
    s.copy_from_slice(&h.finalize());
    ChaCha20Rng::from_seed(s)
}

fn digest(b: &[u8]) -> String {
    hex(&Sha3_256::digest(b)[..12])
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Size {
    Tiny,
    Small,
    Large,
}

struct Out {
    text: String,
}
impl Out {
    fn d(&mut self, name: &str, bytes: &[u8]) {
        writeln!(self.text, "D {} {}", name.replace(' ', "_"), digest(bytes)).unwrap();
    }
    fn p(&mut self, kind: &str, cycle: usize, k: usize, parts: &[Vec<u8>]) {
        write!(self.text, "P {} {} {}", kind, cycle, k).unwrap();
        for x in parts {
            write!(self.text, " {}", if x.is_empty() { "-".to_string() } else { hex(x) }).unwrap();
        }
        self.text.push('\n');
    }
    fn v(&mut self, name: &str, want: bool, got: bool) {
        writeln!(self.text, "V {} {} {}", name.replace(' ', "_"), want as u8, got as u8).unwrap();
    }
}

fn gens_for(s: Size) -> usize {
    match s {
        Size::Tiny => 1 << 10,
        _ => 1 << 12,
    }
}

/// the k-th program of a seed; sizes spread over powers of two and their neighbours
fn program<P: Curve>(seed: u64, k: usize) -> Arc<Program<Fr<P>>> {
    let mut rng = rng_for(seed, &format!("program {} {}", P::NAME, k));
    loop {
        let shape = Shape::random(&mut rng);
        let p = Program::<Fr<P>>::random(&mut rng, shape);
        if p.muls().1 <= 64 {
            return Arc::new(p);
        }
    }
}

/// a long chain of multiplications with a vector commitment: many gates
fn chain<P: Curve, CS: ConstraintSystem<Fr<P>>>(cs: &mut CS, x: Variable<Fr<P>>, n: usize) -> Variable<Fr<P>> {
    let mut v = x;
    for i in 0..n {
        let c = Fr::<P>::from(i as u64 + 1);
        let (_, _, o) = cs.multiply(v + c, x + c);
        v = o;
    }
    v
}

fn chain_value<P: Curve>(x: Fr<P>, n: usize) -> Fr<P> {
    (0..n).fold(x, |v, i| {
        let c = Fr::<P>::from(i as u64 + 1);
        (v + c) * (x + c)
    })
}

fn chain_prove<P: Curve>(x: Fr<P>, r: Fr<P>, n: usize, pc: &PedersenGens<Aff<P>>, bp: &BulletproofGens<Aff<P>>) -> (Aff<P>, R1CSProof<Aff<P>>) {
    let mut p = Prover::new(pc, Transcript::new(b"c09-chain"));
    let (c, vars) = p.commit_vec(&[x, x + Fr::<P>::one()], r, bp);
    let end = chain::<P, _>(&mut p, vars[0], n);
    p.constrain(end - chain_value::<P>(x, n));
    p.constrain(vars[1] - vars[0] - Fr::<P>::one());
    (c, p.prove(bp).expect("chain proof"))
}

fn chain_tuple<P: Curve>(c: Aff<P>, end: Fr<P>, n: usize, proof: &R1CSProof<Aff<P>>) -> Result<VerificationTuple<Aff<P>>, String> {
    guard(|| {
        let mut v = Verifier::new(Transcript::new(b"c09-chain"));
        let vars = v.commit_vec(2, c);
        let e = chain::<P, _>(&mut v, vars[0], n);
        v.constrain(e - end);
        v.constrain(vars[1] - vars[0] - Fr::<P>::one());
        v.verification_scalars_and_points(proof).map_err(|e| format!("{:?}", e))
    })
    .unwrap_or_else(Err)
}

fn chain_verify<P: Curve>(c: Aff<P>, end: Fr<P>, n: usize, proof: &R1CSProof<Aff<P>>, pc: &PedersenGens<Aff<P>>, bp: &BulletproofGens<Aff<P>>) -> bool {
    chain_tuple::<P>(c, end, n, proof).map_or(false, |t| matches!(guard(|| batch_verify(vec![t], pc, bp)), Ok(Ok(()))))
}

fn chain_len(k: usize, size: Size) -> usize {
    match size {
        Size::Tiny => [3, 60][k % 2],
        Size::Small => [1, 7, 64, 100, 500][k % 5],
        Size::Large => [1, 2, 3, 31, 64, 100, 255, 256, 257, 700, 1024, 2000][k % 12],
    }
}

fn generators<P: Curve>(o: &mut Out) {
    for (cap, parties) in [(0usize, 1usize), (1, 1), (33, 3), (128, 2)] {
        let g = BulletproofGens::<Aff<P>>::new(cap, parties);
        let mut b = vec![];
        for j in 0..parties {
            for x in g.share(j).G(cap) {
                b.extend(point_bytes(x));
            }
        }
        o.d(&format!("gens {} {} {}", P::NAME, cap, parties), &b);
    }
    let mut g = BulletproofGens::<Aff<P>>::new(5, 2);
    g.increase_capacity(70);
    let mut b = vec![];
    for j in 0..2 {
        for x in g.share(j).G(70) {
            b.extend(point_bytes(x));
        }
    }
    o.d(&format!("grown gens {}", P::NAME), &b);
    let pc = PedersenGens::<Aff<P>>::default();
    o.d(&format!("pedersen {}", P::NAME), &[point_bytes(&pc.B), point_bytes(&pc.B_blinding)].concat());
}

fn layer<P: Curve + Copy>(name: &str, p: &relations::single_level_select_and_rerandomize::SingleLayerParameters<P>, o: &mut Out) {
    let mut b = vec![];
    for t in &p.tables {
        for row in &t.elems {
            for e in row {
                b.extend(point_bytes(e));
            }
        }
    }
    o.d(&format!("tables {}", name), &b);
    o.d(&format!("delta {}", name), &point_bytes(&p.delta));
}

fn trees<K: Cycle>(seed: u64, size: Size, p: &Params<K>, o: &mut Out) {
    let counts: &[usize] = match size {
        Size::Tiny => &[1, 5],
        Size::Small => &[1, L + 1, 4 * L + 3],
        Size::Large => &[1, 2, L, L + 1, 4 * L + 3, L * L * L, L * L * L + 1, 300],
    };
    for n in counts {
        let mut rng = rng_for(seed, &format!("tree {}", n));
        let set = leaves::<K, _>(*n, p, &mut rng);
        for h in [None, Some(2), Some(3)] {
            let t = Tree::<K, L, 1>::from_set(&set, p, h);
            o.d(&format!("root {} {} {:?}", K::P0::NAME, n, h), &root_bytes::<K, L, 1>(&t));
            let t2 = Tree::<K, L, 2>::from_set(&set, p, h);
            o.d(&format!("roots {} {} {:?}", K::P0::NAME, n, h), &root_bytes::<K, L, 2>(&t2));
        }
        let t = Tree::<K, L, 1>::from_set(&set, p, None);
        let t = t.increase_height(Some(4), p);
        o.d(&format!("raised {} {}", K::P0::NAME, n), &root_bytes::<K, L, 1>(&t));
    }
}

struct Forest<K: Cycle> {
    p: &'static Params<K>,
    set: Vec<Leaf<K>>,
    tree: Tree<K, L, 1>,
    other: Tree<K, L, 1>,
    multi: Tree<K, L, 2>,
    other_multi: Tree<K, L, 2>,
}
fn forest<K: Cycle>(seed: u64, size: Size) -> Forest<K> {
    let p = params::<K>(gens_for(size));
    let h = if size == Size::Tiny { 1 } else { 2 };
    let mut rng = rng_for(seed, "forest");
    let n = L.pow(h) - 1;
    let set: Vec<_> = (0..n).map(|_| rand_point::<K::P0, _>(&mut rng)).collect();
    let mut alt = set.clone();
    for x in alt.iter_mut() {
        *x = rand_point::<K::P0, _>(&mut rng);
    }
    Forest {
        tree: Tree::<K, L, 1>::from_set(&set, p, Some(h as usize)),
        other: Tree::<K, L, 1>::from_set(&alt, p, Some(h as usize)),
        multi: Tree::<K, L, 2>::from_set(&set, p, Some(h as usize)),
        other_multi: Tree::<K, L, 2>::from_set(&alt, p, Some(h as usize)),
        p,
        set,
    }
}

fn proofs<K: Cycle>(seed: u64, size: Size, cyc: usize, o: &mut Out) {
    let n = match size {
        Size::Tiny => 1,
        Size::Small => 1 + (cyc == 0) as usize,
        Size::Large => 8,
    };
    let pc = PedersenGens::<Aff<K::P0>>::default();
    let bp = BulletproofGens::<Aff<K::P0>>::new(64, 1);
    for k in 0..4 * n {
        let prog = program::<K::P0>(seed, k);
        let pr = prove::<K::P0>(&prog, b"c09", &pc, &bp);
        let proof = match pr.proof {
            Ok(p) => p,
            Err(e) => {
                writeln!(o.text, "V program_{}_{}_{:?} 1 0", cyc, k, e).unwrap();
                continue;
            }
        };
        let mut pts = vec![];
        for x in &pr.points {
            pts.extend(point_bytes(x));
        }
        o.d(&format!("commitments {} {}", cyc, k), &pts);
        o.p("program", cyc, k, &[bytes_of(&pr.points), proof.to_bytes()]);
    }
    let big = BulletproofGens::<Aff<K::P0>>::new(if size == Size::Tiny { 64 } else { 2048 }, 1);
    let chains = match size {
        Size::Tiny => 2,
        Size::Small => 5,
        Size::Large => 12,
    };
    for k in 0..chains {
        let mut rng = rng_for(seed, &format!("chain {}", k));
        let (x, r) = (edge_scalar::<Fr<K::P0>, _>(&mut rng), edge_scalar::<Fr<K::P0>, _>(&mut rng));
        let (c, proof) = chain_prove::<K::P0>(x, r, chain_len(k, size), &pc, &big);
        o.d(&format!("chain commitment {} {}", cyc, k), &point_bytes(&c));
        o.p("chain", cyc, k, &[bytes_of(&c), proof.to_bytes()]);
    }
    let f = forest::<K>(seed, size);
    for k in 0..n {
        let mut rng = rng_for(seed, &format!("showing {}", k));
        let i = rng.gen_range(0..f.set.len());
        let s = show::<K, L, 1, _>(&f.tree, i, f.p, &mut rng);
        o.d(&format!("path {} {}", cyc, k), &bytes_of(&s.path));
        o.d(&format!("scalar {} {}", cyc, k), &bytes_of(&s.scalar));
        o.p("showing", cyc, k, &[bytes_of(&s.path), s.even.to_bytes(), s.odd.to_bytes()]);
    }
    for k in 0..n {
        let mut rng = rng_for(seed, &format!("batched {}", k));
        let i = [rng.gen_range(0..f.set.len()), rng.gen_range(0..f.set.len())];
        let s = show_multi::<K, L, 2, _>(&f.multi, i, f.p, &mut rng);
        o.d(&format!("multi path {} {}", cyc, k), &bytes_of(&s.path));
        o.d(&format!("multi scalars {} {}", cyc, k), &bytes_of(&s.scalars.to_vec()));
        let got = verify_multi::<K, L, 2>(&f.multi, &s.path, &s.even, &s.odd, f.p);
        let right = got.as_ref().map_or(false, |l| (0..2).all(|j| l[j] == rerandomized(&f.set[i[j]], &s.scalars[j], &f.p.even_parameters)));
        o.v(&format!("batched {} {}", cyc, k), true, right);
        let wrong = verify_multi::<K, L, 2>(&f.other_multi, &s.path, &s.even, &s.odd, f.p).is_ok();
        o.v(&format!("batched elsewhere {} {}", cyc, k), false, wrong);
    }
}

fn world<K: Cycle, C: CurveGroup>(seed: u64, size: Size) -> World<K, L, C> {
    let mut rng = rng_for(seed, "world");
    World::new(&[1000, u64::MAX, 7, 123456], 2, 3, Some(2), gens_for(size).max(1 << 12), &mut rng)
}

fn pours<K: Cycle, C: CurveGroup>(seed: u64, size: Size, cyc: usize, o: &mut Out) {
    let w = world::<K, C>(seed, size);
    let n = if size == Size::Large { 4 } else { 1 };
    for k in 0..n {
        let mut rng = rng_for(seed, &format!("pour {}", k));
        let i = rng.gen_range(0..4);
        let j = (i + 1 + rng.gen_range(0..3)) % 4;
        let total = w.coins[i].coin_aux.value as u128 + w.coins[j].coin_aux.value as u128;
        let (a, b) = random_split(total, &mut rng);
        let tx = w.pour(i, j, a, rng.gen_range(0..2), b, rng.gen_range(0..2), &mut rng);
        if let Ok(p) = PourOf::<K, C, L>::deserialize_compressed(tx.pour_bytes.as_slice()) {
            o.d(&format!("minted {} {}", cyc, k), &[bytes_of(&p.minted_coin_commitment_0), bytes_of(&p.minted_coin_commitment_1), bytes_of(&p.pk0), bytes_of(&p.pk1)].concat());
        }
        o.p("pour", cyc, k, &[bytes_of(&tx)]);
    }
}

fn cycles_for(size: Size) -> &'static [usize] {
    match size {
        Size::Tiny => &[0],
        Size::Small => &[0, 2],
        Size::Large => &[0, 1, 2, 3],
    }
}

macro_rules! with_key_curve {
    ($cyc:expr, $f:ident ( $($a:expr),* )) => {
        match $cyc {
            0 => $f::<PV, Proj<VestaC>>($($a),*),
            1 => $f::<VP, Proj<PallasC>>($($a),*),
            2 => $f::<SQ, Proj<SecqC>>($($a),*),
            _ => $f::<QS, Proj<SecpC>>($($a),*),
        }
    };
}

fn params_out<K: Cycle>(size: Size, o: &mut Out) {
    let p = params::<K>(gens_for(size));
    generators::<K::P0>(o);
    layer::<K::P0>(&format!("{} even", K::P0::NAME), &p.even_parameters, o);
    layer::<K::P1>(&format!("{} odd", K::P0::NAME), &p.odd_parameters, o);
}

fn emit(seed: u64, size: Size) -> String {
    let mut o = Out { text: String::new() };
    for &c in cycles_for(size) {
        let t0 = Instant::now();
        let lap = |o: &mut Out, what: &str| writeln!(o.text, "T {} {:?}", what, t0.elapsed()).unwrap();
        on_tree!(c, params_out[](size, &mut o));
        lap(&mut o, "parameters");
        match c {
            0 => trees::<PV>(seed, size, params::<PV>(gens_for(size)), &mut o),
            1 => trees::<VP>(seed, size, params::<VP>(gens_for(size)), &mut o),
            2 => trees::<SQ>(seed, size, params::<SQ>(gens_for(size)), &mut o),
            _ => trees::<QS>(seed, size, params::<QS>(gens_for(size)), &mut o),
        }
        lap(&mut o, "trees");
        on_tree!(c, proofs[](seed, size, c, &mut o));
        lap(&mut o, "proofs");
        if size != Size::Tiny {
            with_key_curve!(c, pours(seed, size, c, &mut o));
        }
        lap(&mut o, "pours");
    }
    o.text
}

type Item = (String, usize, Vec<Vec<u8>>);

/// Verify the proofs of another process: each must be accepted as made and refused for another
/// statement, alone and in batches.
fn consume_cycle<K: Cycle>(seed: u64, size: Size, cyc: usize, items: &[Item], o: &mut Out) {
    let pc = PedersenGens::<Aff<K::P0>>::default();
    let bp = BulletproofGens::<Aff<K::P0>>::new(64, 1);
    let big = BulletproofGens::<Aff<K::P0>>::new(if size == Size::Tiny { 64 } else { 2048 }, 1);
    let f = forest::<K>(seed, size);
    let mut tuples: Vec<(Aff<K::P0>, Fr<K::P0>, usize, R1CSProof<Aff<K::P0>>)> = vec![];
    for (kind, k, parts) in items {
        let name = format!("{} {} {}", kind, cyc, k);
        match kind.as_str() {
            "program" => {
                let prog = program::<K::P0>(seed, *k);
                let pts = Vec::<Aff<K::P0>>::deserialize_compressed(&parts[0][..]).unwrap();
                let proof = match R1CSProof::from_bytes(&parts[1]) {
                    Ok(p) => p,
                    Err(_) => {
                        o.v(&name, true, false);
                        continue;
                    }
                };
                o.v(&name, true, circuit::verify::<K::P0>(&prog, b"c09", &pts, &proof, &pc, &bp).is_ok());
                o.v(&format!("{} label", name), false, circuit::verify::<K::P0>(&prog, b"c09-other", &pts, &proof, &pc, &bp).is_ok());
            }
            "chain" => {
                let mut rng = rng_for(seed, &format!("chain {}", k));
                let x = edge_scalar::<Fr<K::P0>, _>(&mut rng);
                let n = chain_len(*k, size);
                let end = chain_value::<K::P0>(x, n);
                let c = Aff::<K::P0>::deserialize_compressed(&parts[0][..]).unwrap();
                let proof = match R1CSProof::from_bytes(&parts[1]) {
                    Ok(p) => p,
                    Err(_) => {
                        o.v(&name, true, false);
                        continue;
                    }
                };
                o.v(&name, true, chain_verify::<K::P0>(c, end, n, &proof, &pc, &big));
                o.v(&format!("{} result", name), false, chain_verify::<K::P0>(c, end + Fr::<K::P0>::one(), n, &proof, &pc, &big));
                tuples.push((c, end, n, proof));
            }
            "showing" => {
                let mut rng = rng_for(seed, &format!("showing {}", k));
                let i = rng.gen_range(0..f.set.len());
                let path = Path::<K, L>::deserialize_compressed(&parts[0][..]).unwrap();
                let even = EvenProof::<K>::from_bytes(&parts[1]);
                let odd = OddProof::<K>::from_bytes(&parts[2]);
                let (even, odd) = match (even, odd) {
                    (Ok(e), Ok(d)) => (e, d),
                    _ => {
                        o.v(&name, true, false);
                        continue;
                    }
                };
                // the scalar is a result of the path
                let s = {
                    let mut ep = Prover::new(&f.p.even_parameters.pc_gens, Transcript::new(LABEL));
                    let mut op = Prover::new(&f.p.odd_parameters.pc_gens, Transcript::new(LABEL));
                    f.tree.select_and_rerandomize_prover_gadget(i, 0, &mut ep, &mut op, f.p, &mut rng).1
                };
                let r = verify_showing::<K>(&f.tree, &path, &even, &odd, f.p);
                o.v(&name, true, r == Some(rerandomized(&f.set[i], &s, &f.p.even_parameters)));
                o.v(&format!("{} elsewhere", name), false, verify_showing::<K>(&f.other, &path, &even, &odd, f.p).is_some());
            }
            _ => {}
        }
    }
    // batches: all good, and with one bad at each place
    if !tuples.is_empty() {
        for bad in 0..=tuples.len() {
            let ts: Result<Vec<_>, String> = tuples
                .iter()
                .enumerate()
                .map(|(i, (c, end, n, p))| chain_tuple::<K::P0>(*c, if i == bad { *end - Fr::<K::P0>::one() } else { *end }, *n, p))
                .collect();
            let got = ts.map_or(false, |ts| matches!(guard(|| batch_verify(ts, &pc, &big)), Ok(Ok(()))));
            o.v(&format!("batch {} {}", cyc, bad), bad == tuples.len(), got);
        }
    }
}

fn verify_showing<K: Cycle>(t: &Tree<K, L, 1>, path: &Path<K, L>, even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>) -> Option<Leaf<K>> {
    let a = tree::verify::<K, L, 1>(t, path, even, odd, p).ok();
    let b = tree::verify_single::<K, L, 1>(t, path, even, odd, p).ok();
    // the two ways must agree; a disagreement is reported as no leaf in either polarity's favour
    if a == b {
        a
    } else {
        None
    }
}

fn consume_pours<K: Cycle, C: CurveGroup>(seed: u64, size: Size, cyc: usize, items: &[Item], o: &mut Out) {
    let w = world::<K, C>(seed, size);
    let mut rng = rng_for(seed, "other world");
    let mut set = w.set.clone();
    for x in set.iter_mut() {
        *x = rand_point::<K::P0, _>(&mut rng);
    }
    let other = Tree::<K, L, 1>::from_set(&set, w.p, Some(2));
    for (kind, k, parts) in items {
        if kind != "pour" {
            continue;
        }
        let name = format!("{} {} {}", kind, cyc, k);
        let tx = match Tx::<K, C>::deserialize_compressed(&parts[0][..]) {
            Ok(t) => t,
            Err(_) => {
                o.v(&name, true, false);
                continue;
            }
        };
        o.v(&name, true, w.verify(&tx).is_ok());
        o.v(&format!("{} elsewhere", name), false, w.verify_with(&tx, &other, &w.sig, POUR).is_ok());
        let mut t2 = tx.clone();
        t2.signature_prover_response_1 += C::ScalarField::one();
        o.v(&format!("{} signature", name), false, w.verify(&t2).is_ok());
    }
}

fn consume(seed: u64, size: Size, text: &str) -> String {
    let mut o = Out { text: String::new() };
    for &c in cycles_for(size) {
        let items: Vec<Item> = text
            .lines()
            .filter_map(|l| l.strip_prefix("P "))
            .filter_map(|l| {
                let f: Vec<&str> = l.split(' ').collect();
                if f[1].parse::<usize>().unwrap() != c {
                    return None;
                }
                Some((f[0].to_string(), f[2].parse().unwrap(), f[3..].iter().map(|x| if *x == "-" { vec![] } else { unhex(x) }).collect()))
            })
            .collect();
        on_tree!(c, consume_cycle[](seed, size, c, &items, &mut o));
        if size != Size::Tiny {
            with_key_curve!(c, consume_pours(seed, size, c, &items, &mut o));
        }
    }
    o.text
}

/// Several threads share everything; used under ThreadSanitizer and natively.
fn stress(seed: u64, users: usize) -> usize {
    let p = params::<PV>(1 << 10);
    let f = forest::<PV>(seed, Size::Tiny);
    let pc = PedersenGens::<Aff<PallasC>>::default();
    let bp = BulletproofGens::<Aff<PallasC>>::new(64, 2);
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for u in 0..users {
            let (f, pc, bp, bad) = (&f, &pc, &bp, &bad);
            s.spawn(move || {
                let mut rng = rng_for(seed, &format!("user {}", u));
                let fail = |n: usize| {
                    bad.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                };
                match u % 4 {
                    0 => {
                        let sh = show::<PV, L, 1, _>(&f.tree, u % f.set.len(), p, &mut rng);
                        if tree::verify::<PV, L, 1>(&f.tree, &sh.path, &sh.even, &sh.odd, p).is_err() {
                            fail(1)
                        }
                    }
                    1 => {
                        for k in 0..3 {
                            let prog = program::<PallasC>(seed, k + u);
                            let pr = prove::<PallasC>(&prog, b"c09", pc, bp);
                            match pr.proof {
                                Ok(proof) => {
                                    if circuit::verify::<PallasC>(&prog, b"c09", &pr.points, &proof, pc, bp).is_err() {
                                        fail(1)
                                    }
                                }
                                Err(_) => fail(1),
                            }
                        }
                    }
                    2 => {
                        let t = Tree::<PV, L, 1>::from_set(&f.set, p, Some(1));
                        if root_bytes::<PV, L, 1>(&t) != root_bytes::<PV, L, 1>(&f.tree) {
                            fail(1)
                        }
                        let t = Tree::<PV, L, 2>::from_set(&f.set, p, Some(1));
                        if root_bytes::<PV, L, 2>(&t) != root_bytes::<PV, L, 2>(&f.multi) {
                            fail(1)
                        }
                    }
                    _ => {
                        let n = 20;
                        let x = edge_scalar::<Fr<PallasC>, _>(&mut rng);
                        let (c, proof) = chain_prove::<PallasC>(x, x, n, pc, bp);
                        let ts: Vec<_> = (0..3).filter_map(|_| chain_tuple::<PallasC>(c, chain_value::<PallasC>(x, n), n, &proof).ok()).collect();
                        if batch_verify(ts, pc, bp).is_err() {
                            fail(1)
                        }
                    }
                }
            });
        }
    });
    // provers moved between threads, and both proofs made side by side
    let mut rng = rng_for(seed, "side by side");
    let mut ep = Prover::new(&p.even_parameters.pc_gens, Transcript::new(LABEL));
    let mut op = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(LABEL));
    let (path, _) = f.tree.select_and_rerandomize_prover_gadget(1, 0, &mut ep, &mut op, p, &mut rng);
    let (even, odd) = rayon::join(|| ep.prove(&p.even_parameters.bp_gens).unwrap(), || op.prove(&p.odd_parameters.bp_gens).unwrap());
    if tree::verify::<PV, L, 1>(&f.tree, &path, &even, &odd, p).is_err() {
        bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    bad.into_inner()
}

/// Which pieces may be shared or moved between threads, as the compiler sees it.
mod marks {
    use std::marker::PhantomData;
    pub struct W<T: ?Sized>(pub PhantomData<T>);
    pub trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T: ?Sized> No for W<T> {}
    pub struct S<T: ?Sized>(pub PhantomData<T>);
    impl<T: ?Sized> No for S<T> {}
    impl<T: ?Sized + Send> W<T> {
        #[allow(dead_code)]
        pub const SEND: bool = true;
    }
    impl<T: ?Sized + Sync> S<T> {
        #[allow(dead_code)]
        pub const SYNC: bool = true;
    }
}
macro_rules! is_send {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use marks::No;
        <marks::W<$t>>::SEND
    }};
}
macro_rules! is_sync {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use marks::No;
        <marks::S<$t>>::SYNC
    }};
}

/// A transcript handle that may not leave its thread.
struct Local(#[allow(dead_code)] std::rc::Rc<()>, Transcript);
impl std::borrow::Borrow<Transcript> for Local {
    fn borrow(&self) -> &Transcript {
        &self.1
    }
}
impl std::borrow::BorrowMut<Transcript> for Local {
    fn borrow_mut(&mut self) -> &mut Transcript {
        &mut self.1
    }
}

struct Run {
    name: String,
    out: String,
    status: Option<i32>,
    err: String,
    wall: f64,
}

static GIVE_UP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn spawn(bin: &str, name: &str, args: &[String], env: &[(&str, String)], limit: Duration) -> Run {
    let t0 = Instant::now();
    // after one process did not finish there is a verdict, and no time for more
    if GIVE_UP.load(std::sync::atomic::Ordering::Relaxed) {
        return Run { name: name.into(), out: String::new(), status: None, err: "not started".into(), wall: 0.0 };
    }
    let dir = format!("{}/out", report::verif_dir());
    let err_path = format!("{}/c09-{}.err", dir, name.replace(|c: char| !c.is_alphanumeric(), "_"));
    let err = std::fs::File::create(&err_path).expect("err file");
    let mut cmd = Command::new(bin);
    cmd.args(args).stdout(Stdio::null()).stderr(err).stdin(Stdio::null());
    for (k, v) in env {
        cmd.env(k, v);
    }
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return Run { name: name.into(), out: String::new(), status: None, err: format!("cannot start: {}", e), wall: 0.0 },
    };
    let status = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s.code().or(Some(-1)),
            None if t0.elapsed() > limit => {
                GIVE_UP.store(true, std::sync::atomic::Ordering::Relaxed);
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    let err = String::from_utf8_lossy(&std::fs::read(&err_path).unwrap_or_default()).into_owned();
    Run { name: name.into(), out: String::new(), status, err, wall: t0.elapsed().as_secs_f64() }
}

struct Conf {
    bin: String,
    name: String,
    threads: usize,
    perturb: u64,
    inside: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let size_of = |s: &str| match s {
        "tiny" => Size::Tiny,
        "small" => Size::Small,
        _ => Size::Large,
    };
    if args.len() > 1 && args[1].starts_with("--") && ["--emit", "--consume", "--stress"].contains(&args[1].as_str()) {
        let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
        let perturb = env("CTMON_PERTURB");
        merlin::perturb::on(perturb);
        ark_ec::perturb::on(perturb);
        let seed: u64 = args[2].parse().unwrap();
        let size = size_of(&args[3]);
        let body = || match args[1].as_str() {
            "--emit" => emit(seed, size),
            "--consume" => consume(seed, size, &std::fs::read_to_string(&args[5]).unwrap()),
            _ => {
                let bad = stress(seed, args[5].parse().unwrap());
                format!("V stress 1 {}\n", (bad == 0) as u8)
            }
        };
        let mut text = if env("CTMON_INSIDE") == 1 {
            rayon::ThreadPoolBuilder::new().num_threads(env("RAYON_NUM_THREADS").max(1) as usize).build().unwrap().install(body)
        } else {
            body()
        };
        let order = [merlin::perturb::take_order(), ark_ec::perturb::take_order()].concat();
        if perturb != 0 {
            let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
            let threads: std::collections::BTreeSet<u8> = order.iter().copied().collect();
            writeln!(text, "O {} {} {} {}", digest(&order), order.len(), switches, threads.len()).unwrap();
        }
        std::fs::write(&args[4], text).unwrap();
        return;
    }

    let mut rep = Report::new(
        "C09",
        "one workload (generators, tables, trees, programs, long chains, showings, batched showings, pours, batches) run in processes with 1..16 worker threads, from inside and outside the pool, with injected delays, and in a build without the parallel feature: every deterministic result equal bit for bit, every proof of one process accepted by the others and refused for other statements; shared parameters used from many threads at once, natively and under ThreadSanitizer; which values the compiler lets move between threads",
    );
    rep.untimed = true;
    let root = report::verif_dir();
    let dir = format!("{}/out/c09", root);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let seed = rep.seed();
    let thorough = rep.tier() == Tier::Thorough;
    let size = if thorough { "large" } else { "small" };
    let par = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let seq = format!("{}/harness/target-seq/release/c09", root);
    let limit = Duration::from_secs(if thorough { 1500 } else { 240 });

    // --- configurations -------------------------------------------------------------------
    let mut confs: Vec<Conf> = vec![];
    let pools: &[usize] = if thorough { &[1, 2, 3, 4, 5, 7, 8, 16] } else { &[1, 2, 3, 8] };
    for &t in pools {
        confs.push(Conf { bin: par.clone(), name: format!("parallel-{}", t), threads: t, perturb: 0, inside: false });
    }
    for (i, t) in (if thorough { vec![1, 2, 2, 3, 4, 8, 8, 16] } else { vec![2, 4] }).into_iter().enumerate() {
        confs.push(Conf { bin: par.clone(), name: format!("delayed-{}-{}", t, i), threads: t, perturb: seed * 1000 + i as u64 + 1, inside: i % 2 == 1 });
    }
    confs.push(Conf { bin: seq.clone(), name: "sequential".into(), threads: 4, perturb: 0, inside: false });
    let n = confs.len();
    let confs = &confs;
    let file = |i: usize| format!("{}/emit-{}", dir, confs[i].name);
    let env_of = |c: &Conf| vec![("RAYON_NUM_THREADS", c.threads.to_string()), ("CTMON_PERTURB", c.perturb.to_string()), ("CTMON_INSIDE", (c.inside as u8).to_string())];
    // several processes at once, so that threads are also preempted
    let run_all = |jobs: Vec<Box<dyn Fn() -> Run + Send + Sync + '_>>, width: usize| -> Vec<Run> {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res: Vec<std::sync::Mutex<Option<Run>>> = jobs.iter().map(|_| Default::default()).collect();
        std::thread::scope(|s| {
            for _ in 0..width {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= jobs.len() {
                        break;
                    }
                    *res[i].lock().unwrap() = Some(jobs[i]());
                });
            }
        });
        res.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
    };
    let emits = run_all(
        (0..n)
            .map(|i| {
                let f = file(i);
                Box::new(move || {
                    let c = &confs[i];
                    let mut r = spawn(&c.bin, &format!("emit-{}", c.name), &["--emit".into(), seed.to_string(), size.into(), f.clone()], &env_of(c), limit);
                    r.out = std::fs::read_to_string(&f).unwrap_or_default();
                    r
                }) as Box<dyn Fn() -> Run + Send + Sync>
            })
            .collect(),
        4,
    );
    let emit_runs = &emits;
    rep.stage("results by configuration", n as u64, n as u64, |c: &mut Case| {
        let i = c.idx as usize;
        let r = &emit_runs[i];
        let base = &emit_runs[0];
        c.describe(r.name.clone());
        c.distinct(&r.name);
        match r.status {
            Some(0) => {}
            None if r.err == "not started" => return c.inconclusive(r.name.clone()),
            None => return c.fail(format!("{} did not finish: {}", r.name, r.err.lines().last().unwrap_or(""))),
            Some(s) => return c.fail(format!("{} ended with status {}: {}", r.name, s, r.err.lines().last().unwrap_or(""))),
        }
        let d = |t: &str| -> BTreeMap<String, String> {
            t.lines().filter_map(|l| l.strip_prefix("D ")).filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
        };
        let (a, b) = (d(&base.out), d(&r.out));
        c.check(a.len() == b.len() && !a.is_empty(), || format!("{}: {} results, {} in {}", r.name, b.len(), a.len(), base.name));
        for (k, v) in &b {
            c.check(a.get(k) == Some(v), || format!("{} differs between {} and {}", k, base.name, r.name));
        }
        c.count("results compared between configurations", b.len() as u64);
        verdicts(c, r);
        if let Some(o) = r.out.lines().find_map(|l| l.strip_prefix("O ")) {
            let f: Vec<&str> = o.split(' ').collect();
            c.distinct(&format!("order {}", f[0]));
            c.count("monitored operations in delayed runs", f[1].parse().unwrap());
            c.count("thread switches in delayed runs", f[2].parse().unwrap());
            c.check(confs[i].threads == 1 || f[3].parse::<usize>().unwrap() > 1, || format!("{} used one thread only", r.name));
        }
        c.sample(|| format!("{}: {} results, {} proofs, {:.1}s", r.name, b.len(), r.out.lines().filter(|l| l.starts_with("P ")).count(), r.wall));
    });

    // --- each configuration reads another's proofs -----------------------------------------
    let seq_i = n - 1;
    let mut pairs: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
    pairs.push((0, seq_i));
    pairs.push((seq_i, 2));
    if thorough {
        for i in 0..n {
            pairs.push((i, (i + 3) % n));
        }
    }
    let pairs = &pairs;
    let reads = run_all(
        pairs
            .iter()
            .map(|&(from, by)| {
                let f = file(from);
                let out = format!("{}/read-{}-{}", dir, confs[from].name, confs[by].name);
                Box::new(move || {
                    let c = &confs[by];
                    let mut r = spawn(&c.bin, &format!("read-{}-{}", confs[from].name, c.name), &["--consume".into(), seed.to_string(), size.into(), out.clone(), f.clone()], &env_of(c), limit);
                    r.out = std::fs::read_to_string(&out).unwrap_or_default();
                    r
                }) as Box<dyn Fn() -> Run + Send + Sync>
            })
            .collect(),
        4,
    );
    let reads = &reads;
    rep.stage("proofs of another configuration", pairs.len() as u64, pairs.len() as u64, |c: &mut Case| {
        let i = c.idx as usize;
        let r = &reads[i];
        c.describe(r.name.clone());
        c.distinct(&r.name);
        match r.status {
            Some(0) => {}
            None if r.err == "not started" => return c.inconclusive(r.name.clone()),
            None => return c.fail(format!("{} did not finish", r.name)),
            Some(s) => return c.fail(format!("{} ended with status {}: {}", r.name, s, r.err.lines().last().unwrap_or(""))),
        }
        verdicts(c, r);
        c.sample(|| format!("{}: {} verdicts, {:.1}s", r.name, r.out.lines().count(), r.wall));
    });

    // --- shared use ------------------------------------------------------------------------
    let nst = if thorough { 40 } else { 6 };
    let stresses = run_all(
        (0..nst)
            .map(|i| {
                let out = format!("{}/stress-{}", dir, i);
                let bin = par.clone();
                Box::new(move || {
                    let env = vec![("RAYON_NUM_THREADS", (1 + i % 8).to_string()), ("CTMON_PERTURB", (seed * 77 + i as u64 + 1).to_string())];
                    let mut r = spawn(&bin, &format!("stress-{}", i), &["--stress".into(), (seed + i as u64).to_string(), "tiny".into(), out.clone(), "16".into()], &env, limit);
                    r.out = std::fs::read_to_string(&out).unwrap_or_default();
                    r
                }) as Box<dyn Fn() -> Run + Send + Sync>
            })
            .collect(),
        4,
    );
    let stresses = &stresses;
    rep.stage("shared parameters", nst as u64, nst as u64, |c: &mut Case| {
        let r = &stresses[c.idx as usize];
        c.describe(r.name.clone());
        match r.status {
            Some(0) => {}
            None if r.err == "not started" => return c.inconclusive(r.name.clone()),
            None => return c.fail(format!("{} did not finish", r.name)),
            Some(s) => return c.fail(format!("{} ended with status {}: {}", r.name, s, r.err.lines().last().unwrap_or(""))),
        }
        verdicts(c, r);
        if let Some(o) = r.out.lines().find_map(|l| l.strip_prefix("O ")) {
            let f: Vec<&str> = o.split(' ').collect();
            c.distinct(&format!("order {}", f[0]));
            c.count("thread switches in shared use", f[2].parse().unwrap());
        }
    });

    // --- ThreadSanitizer --------------------------------------------------------------------
    let tsan = format!("{}/harness/target-tsan/x86_64-unknown-linux-gnu/release/c09", root);
    let nts = if thorough { 12 } else { 2 };
    let races = run_all(
        (0..nts)
            .map(|i| {
                let out = format!("{}/tsan-{}", dir, i);
                let tsan = tsan.clone();
                Box::new(move || {
                    let env = vec![
                        ("RAYON_NUM_THREADS", (2 + 3 * i).to_string()),
                        ("CTMON_PERTURB", if i % 2 == 1 { (seed * 5 + i as u64).to_string() } else { "0".into() }),
                        ("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 report_signal_unsafe=0".to_string()),
                    ];
                    let mut r = spawn(&tsan, &format!("tsan-{}", i), &["--stress".into(), (seed * 31 + i as u64).to_string(), "tiny".into(), out.clone(), "8".into()], &env, limit);
                    r.out = std::fs::read_to_string(&out).unwrap_or_default();
                    r
                }) as Box<dyn Fn() -> Run + Send + Sync>
            })
            .collect(),
        2,
    );
    let races = &races;
    rep.stage("race detector", nts as u64, nts as u64, |c: &mut Case| {
        let r = &races[c.idx as usize];
        c.describe(r.name.clone());
        c.distinct(&r.name);
        let reports = r.err.lines().filter(|l| l.contains("WARNING: ThreadSanitizer")).count();
        let first = r.err.lines().skip_while(|l| !l.contains("WARNING: ThreadSanitizer")).filter(|l| l.contains("#")).take(6).collect::<Vec<_>>().join(" | ");
        c.check(reports == 0, || format!("{} reports of the race detector, first: {}", reports, first));
        match r.status {
            Some(0) => {
                c.count("runs under the race detector", 1);
                verdicts(c, r);
            }
            Some(66) => {}
            None => c.inconclusive(format!("{}: no answer: {}", r.name, r.err.lines().last().unwrap_or(""))),
            Some(s) => c.fail(format!("{} ended with status {}: {}", r.name, s, r.err.lines().last().unwrap_or(""))),
        }
        c.sample(|| format!("{}: {} reports, {:.1}s", r.name, reports, r.wall));
    });

    // --- the other checks of the proofs, in the build without the parallel feature ------------
    let others = ["c01", "c08"];
    let seqs = run_all(
        others
            .iter()
            .map(|b| {
                let bin = format!("{}/harness/target-seq/release/{}", root, b);
                let vd = format!("{}/seq-{}", dir, b);
                Box::new(move || {
                    std::fs::create_dir_all(&vd).unwrap();
                    let env = vec![("VERIF_DIR", vd.clone()), ("CTMON_SCALE", "25".to_string()), ("VERIF_TIER", "quick".into()), ("VERIF_SEED", seed.to_string())];
                    spawn(&bin, &format!("seq-{}", b), &[], &env, limit)
                }) as Box<dyn Fn() -> Run + Send + Sync>
            })
            .collect(),
        1,
    );
    let seqs = &seqs;
    rep.stage("sequential build", others.len() as u64, others.len() as u64, |c: &mut Case| {
        let r = &seqs[c.idx as usize];
        c.describe(r.name.clone());
        c.distinct(&r.name);
        match r.status {
            Some(0) => c.count("checks run in the sequential build", 1),
            Some(1) => {
                let vd = format!("{}/out/c09/{}/out", report::verif_dir(), r.name);
                let first = std::fs::read_dir(&vd).ok().and_then(|mut d| d.next()).and_then(|f| std::fs::read_to_string(f.ok()?.path()).ok());
                let msg = first.and_then(|t| t.lines().find_map(|l| l.strip_prefix("message ").map(str::to_string)));
                c.fail(format!("{} fails in the build without the parallel feature: {}", others[c.idx as usize], msg.unwrap_or_default()));
            }
            Some(s) if s != 2 => c.fail(format!("{} died with status {}", r.name, s)),
            _ => c.inconclusive(format!("{}: no answer", r.name)),
        }
    });

    rep.stage("builds", 1, 1, |c: &mut Case| {
        let st = std::fs::read_to_string(format!("{}/out/c09-builds", root)).unwrap_or_default();
        c.check(!st.contains("sequential failed"), || "the crates do not compile without the parallel feature".into());
        c.distinct("builds");
    });
    // --- what may cross threads --------------------------------------------------------------
    rep.stage("thread markers", 1, 1, |c: &mut Case| {
        type E = Aff<PallasC>;
        c.check(is_send!(Prover<'static, Transcript, E>), || "a prover that owns its transcript cannot be moved to another thread".into());
        c.check(!is_send!(Prover<'static, Local, E>), || "a prover whose transcript handle may not leave its thread can be moved to another thread".into());
        c.check(!is_send!(Verifier<Local, E>), || "a verifier whose transcript handle may not leave its thread can be moved to another thread".into());
        c.check(!is_sync!(Prover<'static, Local, E>), || "a prover whose transcript handle may not be shared can be shared".into());
        c.check(!is_sync!(Verifier<Local, E>), || "a verifier whose transcript handle may not be shared can be shared".into());
        c.check(is_send!(Params<PV>) && is_sync!(Params<PV>), || "parameters cannot be shared".into());
        c.check(is_send!(Tree<PV, L, 1>) && is_sync!(Tree<PV, L, 1>), || "trees cannot be shared".into());
        c.check(is_send!(BulletproofGens<E>) && is_sync!(BulletproofGens<E>), || "generators cannot be shared".into());
        c.check(is_send!(PedersenGens<E>) && is_sync!(PedersenGens<E>), || "generators cannot be shared".into());
        c.check(is_send!(R1CSProof<E>) && is_sync!(R1CSProof<E>), || "proofs cannot be shared".into());
        c.check(is_send!(Path<PV, L>) && is_sync!(Path<PV, L>), || "paths cannot be shared".into());
        c.check(is_send!(VerificationTuple<E>), || "a verification tuple cannot be moved".into());
        c.count("thread markers read", 12);
        c.distinct("markers");
    });
    // programs the compiler must accept or refuse: pre/C09.sh tries them and records the outcome
    let probes = std::fs::read_to_string(format!("{}/out/c09-probes", root)).unwrap_or_default();
    let probes: Vec<Vec<String>> = probes.lines().map(|l| l.split_whitespace().map(str::to_string).collect()).collect();
    let probes = &probes;
    rep.stage("programs that move values between threads", probes.len() as u64, probes.len() as u64, |c: &mut Case| {
        let p = &probes[c.idx as usize];
        c.describe(p.join(" "));
        c.distinct(&p[0]);
        // name, expectation, outcome
        match p[2].as_str() {
            "compiles" => {
                c.check(p[1] == "compiles", || format!("safe code can move a value that may not leave its thread to another thread: {}", p[0]));
            }
            "refused" => {
                c.check(p[1] == "refused", || format!("a program that moves only movable values does not compile: {}", p[0]));
            }
            _ => c.inconclusive(format!("{}: {}", p[0], p[2])),
        }
        c.count("probe programs judged", 1);
    });
    rep.require("results compared between configurations", 200);
    rep.require("verdicts compared", 200);
    rep.require("runs under the race detector", 1);
    rep.require("checks run in the sequential build", 2);
    rep.require("probe programs judged", 3);
    rep.require("thread switches in delayed runs", 50);
    rep.assume("the race detector sees the Rust code and the standard library, both instrumented; ark's inline assembly is not");
    rep.finish();
}

fn verdicts(c: &mut Case, r: &Run) {
    let mut k = 0;
    for l in r.out.lines().filter_map(|l| l.strip_prefix("V ")) {
        let f: Vec<&str> = l.split(' ').collect();
        c.check(f[1] == f[2], || format!("{}: {} is {} instead of {}", r.name, f[0], f[2], f[1]));
        k += 1;
    }
    c.count("verdicts compared", k);
}
