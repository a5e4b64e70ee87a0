//! C17: membership proofs hide which leaf was used.
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ctmon::capture::{self, Event};
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::pour::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use rand::{Error, RngCore};
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use std::collections::{HashMap, HashSet};

const GENS: usize = 1 << 12;

/// Counts what is drawn from the caller's generator.
struct Counting<R> {
    inner: R,
    bytes: u64,
}
impl<R: RngCore> RngCore for Counting<R> {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.bytes += d.len() as u64;
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.bytes += d.len() as u64;
        self.inner.try_fill_bytes(d)
    }
}

/// Amounts an observer knows: zero, small multiples of the bases, the shift, the first generators.
fn known<P: Curve + Copy>(p: &SingleLayerParameters<P>) -> HashMap<Vec<u8>, String> {
    let mut m = HashMap::new();
    m.insert(point_bytes(&Aff::<P>::zero()), "nothing".to_string());
    let mut bases = vec![("blinding base", p.pc_gens.B_blinding), ("value base", p.pc_gens.B), ("shift", p.delta)];
    bases.extend(p.bp_gens.share(0).G(3).map(|g| ("generator", *g)));
    for (n, b) in bases {
        let mut acc = b.into_group();
        for k in 1..=32 {
            m.entry(point_bytes(&acc.into_affine())).or_insert(format!("{} times the {}", k, n));
            m.entry(point_bytes(&(-acc).into_affine())).or_insert(format!("-{} times the {}", k, n));
            acc += b;
        }
    }
    m
}

/// What is remembered of one curve: blindings (shown minus true) and all shown points.
struct Memory<P: SWCurveConfig> {
    blindings: Vec<(String, Proj<P>)>,
    shown: HashMap<Vec<u8>, String>,
}
impl<P: Curve + Copy> Memory<P> {
    fn new() -> Self {
        Memory { blindings: vec![], shown: HashMap::new() }
    }
    /// `s` was shown in place of `truth`; `all` are the nodes of the tree on this curve.
    fn node(&mut self, c: &mut Case, name: String, s: &Aff<P>, truth: &Proj<P>, all: &[Aff<P>], known: &HashMap<Vec<u8>, String>) {
        for t in all {
            let d = (s.into_group() - t).into_affine();
            if let Some(k) = known.get(&point_bytes(&d)) {
                c.fail(format!("{} differs from a node of the tree by {}", name, k));
            }
        }
        c.eval();
        let d = s.into_group() - truth;
        if let Some(k) = known.get(&point_bytes(&d.into_affine())) {
            c.fail(format!("{} is its true node blinded by {}", name, k));
        }
        for (n, o) in &self.blindings {
            for (x, w) in [(d - o, "differ"), (d + o, "add up")] {
                if let Some(k) = known.get(&point_bytes(&x.into_affine())) {
                    c.fail(format!("the blindings of {} and {} {} by {}", n, name, w, k));
                }
            }
        }
        self.blindings.push((name.clone(), d));
        self.element(c, name, s);
        c.count("shown nodes judged", 1);
    }
    /// a group element that is made public
    fn element(&mut self, c: &mut Case, name: String, s: &Aff<P>) {
        c.eval();
        if s.is_zero() {
            return;
        }
        if let Some(o) = self.shown.insert(point_bytes(s), name.clone()) {
            c.fail(format!("{} and {} are the same point", o, name));
        }
    }
    fn proof(&mut self, c: &mut Case, name: &str, w: &Wire<P>, private: &HashSet<Vec<u8>>) {
        let mut w = w.clone();
        for (i, p) in w.points_mut().into_iter().enumerate() {
            if private.contains(&point_bytes(p)) {
                c.fail(format!("point {} of the {} is a node of the tree", i, name));
            }
            self.element(c, format!("point {} of the {}", i, name), p);
        }
    }
}

#[derive(PartialEq, Debug, Clone)]
struct Shape {
    path_bytes: (usize, usize),
    proofs: (usize, usize),
    transcript: Vec<(bool, Vec<u8>, usize)>,
    msms: (Vec<usize>, Vec<usize>),
}

fn difference(a: &Shape, b: &Shape) -> String {
    if a.path_bytes != b.path_bytes {
        return format!("path sizes {:?} and {:?}", a.path_bytes, b.path_bytes);
    }
    if a.proofs != b.proofs {
        return format!("proof sizes {:?} and {:?}", a.proofs, b.proofs);
    }
    if a.msms != b.msms {
        return format!("multi-scalar multiplications of sizes {:?} and {:?}", a.msms, b.msms);
    }
    let k = a.transcript.iter().zip(&b.transcript).position(|(x, y)| x != y);
    format!("transcripts of {} and {} operations, first difference at {:?}", a.transcript.len(), b.transcript.len(), k)
}

/// the public operations of a run, per transcript in order of first use
fn ops(ev: &[Event]) -> Vec<(bool, Vec<u8>, usize)> {
    let mut ids: Vec<u64> = vec![];
    let mut o = vec![];
    for e in ev {
        if let Event::Append { id, .. } | Event::Challenge { id, .. } = e {
            if !ids.contains(id) {
                ids.push(*id);
            }
        }
    }
    for i in ids {
        for e in ev {
            match e {
                Event::Append { id, label, bytes } if *id == i => o.push((true, label.to_vec(), bytes.len())),
                Event::Challenge { id, label, bytes } if *id == i => o.push((false, label.to_vec(), bytes.len())),
                _ => {}
            }
        }
    }
    o
}

fn messages(ev: &[Event]) -> Vec<&Vec<u8>> {
    ev.iter().filter_map(|e| if let Event::Append { bytes, .. } = e { Some(bytes) } else { None }).collect()
}

fn bits<F: PrimeField>(f: &F) -> u32 {
    f.into_bigint().num_bits()
}

/// The tree's nodes per curve, all levels.
fn split<K: Cycle>(levels: &[Nodes<K>], set: usize) -> (Vec<Aff<K::P0>>, Vec<Aff<K::P1>>) {
    let (mut e, mut o) = (vec![], vec![]);
    for l in levels {
        match l {
            Nodes::Even(v) => e.extend(v.iter().map(|x| x[set])),
            Nodes::Odd(v) => o.extend(v.iter().map(|x| x[set])),
        }
    }
    (e, o)
}

/// secrets in any form they could be sent: nodes and their shifted versions, and coordinates
fn private<P: Curve + Copy>(nodes: &[Aff<P>], p: &SingleLayerParameters<P>) -> (HashSet<Vec<u8>>, HashSet<Vec<u8>>) {
    let (mut pts, mut raw) = (HashSet::new(), HashSet::new());
    for n in nodes {
        for x in [*n, -*n, (*n + p.delta).into_affine(), -(*n + p.delta).into_affine()] {
            if x.is_zero() {
                continue;
            }
            pts.insert(point_bytes(&x));
            let mut b = vec![];
            x.serialize_uncompressed(&mut b).unwrap();
            raw.insert(b);
            raw.insert(point_bytes(&x));
            raw.insert(point_bytes(&x.x));
            raw.insert(point_bytes(&x.y));
        }
    }
    (pts, raw)
}

fn level_even<K: Cycle>(levels: &[Nodes<K>], l: usize, i: usize, set: usize) -> Aff<K::P0> {
    match &levels[l] {
        Nodes::Even(v) => v[i][set],
        _ => panic!("level is odd"),
    }
}
fn level_odd<K: Cycle>(levels: &[Nodes<K>], l: usize, i: usize, set: usize) -> Aff<K::P1> {
    match &levels[l] {
        Nodes::Odd(v) => v[i][set],
        _ => panic!("level is even"),
    }
}

/// (curve is even, level) of the shown nodes from the top, the leaf last
fn schedule(height: usize) -> Vec<(bool, usize)> {
    (0..height).rev().map(|l| (l % 2 == 0, l)).collect()
}

struct Watch<K: Cycle> {
    even: Memory<K::P0>,
    odd: Memory<K::P1>,
    ke: HashMap<Vec<u8>, String>,
    ko: HashMap<Vec<u8>, String>,
}
impl<K: Cycle> Watch<K> {
    fn new(p: &Params<K>) -> Self {
        Watch { even: Memory::new(), odd: Memory::new(), ke: known(&p.even_parameters), ko: known(&p.odd_parameters) }
    }
}

fn judge_path<K: Cycle, const L: usize>(c: &mut Case, w: &mut Watch<K>, name: &str, levels: &[Nodes<K>], height: usize, leaf: usize, path: &Path<K, L>) {
    let (all_e, all_o) = split::<K>(levels, 0);
    let (mut ie, mut io) = (0, 0);
    for (even, l) in schedule(height) {
        let at = leaf / L.pow(l as u32);
        let n = format!("node at level {} of {}", l, name);
        if even {
            let s = if l == 0 { path.selected_commitment } else { path.even_commitments[ie] };
            ie += 1;
            w.even.node(c, n, &s, &level_even::<K>(levels, l, at, 0).into_group(), &all_e, &w.ke);
        } else {
            let s = path.odd_commitments[io];
            io += 1;
            w.odd.node(c, n, &s, &level_odd::<K>(levels, l, at, 0).into_group(), &all_o, &w.ko);
        }
    }
}

/// Several showings on one tree.
fn history<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>, every: bool) {
    let p = params::<K>(GENS);
    let set: Vec<_> = (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect();
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let levels = ref_tree::<K>(&set, p, L, 1, height);
    let h = t.height();
    let leaves: Vec<usize> = if every {
        (0..n).collect()
    } else {
        let a = c.below(n);
        vec![a, a, c.below(n)]
    };
    let what = format!("{} L={} n={} height={} leaves={:?}", K::P0::NAME, L, n, h, leaves);
    c.describe(what.clone());
    c.distinct(&what);
    let (all_e, all_o) = split::<K>(&levels[..h], 0);
    let (pe, re) = private(&all_e, &p.even_parameters);
    let (po, ro) = private(&all_o, &p.odd_parameters);
    let mut w = Watch::<K>::new(p);
    let mut scalars: Vec<K::F0> = vec![];
    let mut shape: Option<Shape> = None;
    for (k, leaf) in leaves.iter().enumerate() {
        let name = format!("showing {} (leaf {})", k, leaf);
        let mut rng = Counting { inner: c.sub_rng(), bytes: 0 };
        let (((s, mo), me), ev) = {
            let (r, ev) = capture::transcript(|| {
                // one recording per curve is taken from two identical runs' sizes: the monitor keeps
                // everything, so the run is recorded once and split by type
                ark_ec::monitor::start();
                let s = show::<K, L, 1, _>(&t, *leaf, p, &mut rng);
                let all = ark_ec::monitor::stop();
                let (mut a, mut b) = (vec![], vec![]);
                for m in all {
                    let ark_ec::monitor::Op::Msm(m) = m else { continue };
                    if let Some(x) = m.bases.downcast_ref::<Vec<Aff<K::P0>>>() {
                        a.push(x.len());
                    } else if let Some(x) = m.bases.downcast_ref::<Vec<Aff<K::P1>>>() {
                        b.push(x.len());
                    }
                }
                ((s, b), a)
            });
            (r, ev)
        };
        c.count("multi-scalar multiplications seen", (me.len() + mo.len()) as u64);
        judge_path::<K, L>(c, &mut w, &name, &levels, h, *leaf, &s.path);
        // randomness
        let nodes = h as u64;
        c.check(rng.bytes >= 16 * nodes, || format!("{}: only {} bytes were drawn for the blindings of {} nodes", name, rng.bytes, nodes));
        c.check(bits(&s.scalar) > 128, || format!("{}: the leaf's randomness is short", name));
        for o in &scalars {
            c.check(bits(&(*o - s.scalar)) > 100 && bits(&(s.scalar - *o)) > 100, || format!("{}: randomness close to that of an earlier showing", name));
        }
        scalars.push(s.scalar);
        // nothing private in clear
        for m in messages(&ev) {
            if re.contains(m) || ro.contains(m) {
                c.fail(format!("{}: a message in the transcript is a node of the tree", name));
            }
        }
        c.eval();
        match (Wire::<K::P0>::decode(&s.even.to_bytes()), Wire::<K::P1>::decode(&s.odd.to_bytes())) {
            (Some(a), Some(b)) => {
                w.even.proof(c, &format!("even proof of {}", name), &a, &pe);
                w.odd.proof(c, &format!("odd proof of {}", name), &b, &po);
            }
            _ => c.fail("unreadable proof"),
        }
        let sh = Shape {
            path_bytes: (s.path.serialized_size(ark_serialize::Compress::Yes), s.path.serialized_size(ark_serialize::Compress::No)),
            proofs: (s.even.serialized_size(ark_serialize::Compress::Yes), s.odd.serialized_size(ark_serialize::Compress::Yes)),
            transcript: ops(&ev),
            msms: (me, mo),
        };
        match &shape {
            None => shape = Some(sh),
            Some(f) => {
                c.check(*f == sh, || format!("leaf {} and leaf {} are shown differently: {}", leaves[0], leaf, difference(f, &sh)));
                c.count("showings compared in shape", 1);
            }
        }
    }
    c.sample(|| what);
}

/// Several batched showings on one tree.
fn batched<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(GENS);
    let set: Vec<_> = (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect();
    let t = Tree::<K, L, M>::from_set(&set, p, height);
    let levels = ref_tree::<K>(&set, p, L, M, height);
    let h = t.height();
    let first: [usize; M] = core::array::from_fn(|_| c.below(n));
    let other: [usize; M] = core::array::from_fn(|_| c.below(n));
    let what = format!("{} L={} M={} n={} height={} leaves={:?} {:?}", K::P0::NAME, L, M, n, h, first, other);
    c.describe(what.clone());
    c.distinct(&what);
    let (mut all_e, mut all_o) = (vec![], vec![]);
    for m in 0..M {
        let (e, o) = split::<K>(&levels[..h], m);
        all_e.extend(e);
        all_o.extend(o);
    }
    let (pe, re) = private(&all_e, &p.even_parameters);
    let (po, ro) = private(&all_o, &p.odd_parameters);
    let mut w = Watch::<K>::new(p);
    let mut scalars: Vec<K::F0> = vec![];
    let mut shape: Option<Shape> = None;
    for (k, leaves) in [first, first, other].into_iter().enumerate() {
        let name = format!("showing {}", k);
        let mut rng = Counting { inner: c.sub_rng(), bytes: 0 };
        let (s, ev) = capture::transcript(|| show_multi::<K, L, M, _>(&t, leaves, p, &mut rng));
        let (mut ie, mut io) = (0, 0);
        for (even, l) in schedule(h) {
            let n = format!("node at level {} of {}", l, name);
            let at = |i: usize| leaves[i] / L.pow(l as u32);
            if even && l == 0 {
                for i in 0..M {
                    w.even.node(c, format!("{}, leaf {}", n, i), &s.path.selected_commitments[i], &set[leaves[i]].into_group(), &all_e, &w.ke);
                }
            } else if even {
                let sum: Proj<K::P0> = (0..M).map(|i| level_even::<K>(&levels, l, at(i), i).into_group()).sum();
                w.even.node(c, n, &s.path.even_commitments[ie], &sum, &all_e, &w.ke);
                ie += 1;
            } else {
                let sum: Proj<K::P1> = (0..M).map(|i| level_odd::<K>(&levels, l, at(i), i).into_group()).sum();
                w.odd.node(c, n, &s.path.odd_commitments[io], &sum, &all_o, &w.ko);
                io += 1;
            }
        }
        let nodes = (h - 1 + M) as u64;
        c.check(rng.bytes >= 16 * nodes, || format!("{}: only {} bytes were drawn for the blindings of {} nodes", name, rng.bytes, nodes));
        for x in &s.scalars {
            c.check(bits(x) > 128, || format!("{}: a leaf's randomness is short", name));
            for o in &scalars {
                c.check(bits(&(*o - *x)) > 100 && bits(&(*x - *o)) > 100, || format!("{}: the randomness of two leaves is close", name));
            }
            scalars.push(*x);
        }
        for m in messages(&ev) {
            if re.contains(m) || ro.contains(m) {
                c.fail(format!("{}: a message in the transcript is a node of the tree", name));
            }
        }
        c.eval();
        match (Wire::<K::P0>::decode(&s.even.to_bytes()), Wire::<K::P1>::decode(&s.odd.to_bytes())) {
            (Some(a), Some(b)) => {
                w.even.proof(c, &format!("even proof of {}", name), &a, &pe);
                w.odd.proof(c, &format!("odd proof of {}", name), &b, &po);
            }
            _ => c.fail("unreadable proof"),
        }
        let mut pb = vec![];
        s.path.serialize_compressed(&mut pb).unwrap();
        let sh = Shape { path_bytes: (pb.len(), 0), proofs: (s.even.to_bytes().len(), s.odd.to_bytes().len()), transcript: ops(&ev), msms: (vec![], vec![]) };
        match &shape {
            None => shape = Some(sh),
            Some(f) => {
                c.check(*f == sh, || format!("leaves {:?} and {:?} are shown differently: {}", first, leaves, difference(f, &sh)));
                c.count("showings compared in shape", 1);
            }
        }
    }
    c.sample(|| what);
}

/// The same coins spent in several pours.
fn spends<K: Cycle, C: CurveGroup, const L: usize>(c: &mut Case, fillers: usize, height: usize) {
    let mut rng = c.sub_rng();
    let w = World::<K, L, C>::new(&[100, 200], 1, fillers, Some(height), GENS, &mut rng);
    // distinct leaves only: equal fillers would make shown nodes ambiguous
    let levels = ref_tree::<K>(&w.set, w.p, L, 1, Some(height));
    let what = format!("pours {} L={} height={}", K::P0::NAME, L, w.tree.height());
    c.describe(what.clone());
    c.distinct(&what);
    let (all_e, all_o) = split::<K>(&levels[..height], 0);
    let (pe, re) = private(&all_e, &w.p.even_parameters);
    let (po, ro) = private(&all_o, &w.p.odd_parameters);
    let mut watch = Watch::<K>::new(w.p);
    for k in 0..2 {
        let (tx, ev) = capture::transcript(|| w.pour(0, 1, 150, 0, 150, 0, &mut rng));
        let pour = PourOf::<K, C, L>::deserialize_compressed(&tx.pour_bytes[..]).unwrap();
        judge_path::<K, L>(c, &mut watch, &format!("input 0 of pour {}", k), &levels, height, w.coins[0].index, &pour.randomized_path_0);
        judge_path::<K, L>(c, &mut watch, &format!("input 1 of pour {}", k), &levels, height, w.coins[1].index, &pour.randomized_path_1);
        watch.even.element(c, format!("minted coin 0 of pour {}", k), &pour.minted_coin_commitment_0);
        watch.even.element(c, format!("minted coin 1 of pour {}", k), &pour.minted_coin_commitment_1);
        match (Wire::<K::P0>::decode(&pour.even_proof.to_bytes()), Wire::<K::P1>::decode(&pour.odd_proof.to_bytes())) {
            (Some(a), Some(b)) => {
                watch.even.proof(c, &format!("even proof of pour {}", k), &a, &pe);
                watch.odd.proof(c, &format!("odd proof of pour {}", k), &b, &po);
            }
            _ => c.fail("unreadable proof"),
        }
        for m in messages(&ev) {
            if re.contains(m) || ro.contains(m) {
                c.fail(format!("pour {}: a message in the transcript is a node of the tree", k));
            }
        }
        c.eval();
        c.count("pours judged", 1);
    }
    c.sample(|| what);
}

fn main() {
    let mut r = Report::new(
        "C17",
        "Histories of showings on one tree: the same leaf twice and another leaf, every leaf of small trees, batched showings, the same coins in several pours; four cycle orientations, even and odd roots, branching 2..32. The monitor keeps every shown point, and the difference of each shown node to the true node of an independently built tree: differences must not be zero, a small multiple of a public base, or in such a relation to each other; no shown point, proof point or transcript message may be a node of the tree (shifted, negated or as coordinate); no two points of the history may be equal; randomness drawn is counted. Path and proof sizes, transcript operations and sizes of all multi-scalar multiplications must be the same for all leaves. Distinct = tree and leaves.",
    );
    r.stage("history", 24, 800, |c| {
        let i = c.idx as usize;
        match (i / 4) % 6 {
            5 => on_tree!(i, history[2](c, 3, Some(6), false)),
            0 => on_tree!(i, history[4](c, 3, None, false)),
            1 => on_tree!(i, history[2](c, 4, None, false)),
            2 => on_tree!(i, history[2](c, 5, None, false)),
            3 => on_tree!(i, history[3](c, 2, Some(4), false)),
            _ => on_tree!(i, history[32](c, 33, None, false)),
        }
    });
    r.stage("every leaf", 12, 400, |c| {
        let i = c.idx as usize;
        match (i / 4) % 3 {
            0 => on_tree!(i, history[4](c, 4, Some(1), true)),
            1 => on_tree!(i, history[2](c, 3, Some(2), true)),
            _ => on_tree!(i, history[2](c, 4, Some(3), true)),
        }
    });
    r.stage("batched", 12, 400, |c| {
        let i = c.idx as usize;
        match (i / 4) % 3 {
            0 => on_tree!(i, batched[4, 2](c, 3, None)),
            1 => on_tree!(i, batched[2, 2](c, 4, None)),
            _ => on_tree!(i, batched[2, 3](c, 5, None)),
        }
    });
    r.stage("spends", 8, 240, |c| {
        let (f, h) = [(1, 1), (2, 2), (2, 3)][(c.idx % 3) as usize];
        match c.idx % 4 {
            0 => spends::<PV, Proj<PallasC>, 4>(c, f, h),
            1 => spends::<VP, Proj<PallasC>, 4>(c, f, h),
            2 => spends::<SQ, Proj<SecpC>, 4>(c, f, h),
            _ => spends::<QS, Proj<VestaC>, 4>(c, f, h),
        }
    });
    r.require("shown nodes judged", 150);
    r.require("showings compared in shape", 50);
    r.require("multi-scalar multiplications seen", 100);
    r.finish()
}
