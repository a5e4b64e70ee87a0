//! C25: paths, pours and transactions have an exact, validating encoding.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Valid, Validate};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::circuit::{prove, Program, Shape};
use ctmon::cycles::*;
use ctmon::pour::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use rand::Rng;
use relations::coin::*;
use relations::curve_tree::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Arc;

// --- allocation monitor --------------------------------------------------------------------
struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn note(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// peak bytes allocated on this thread while `f` ran
fn metered<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - base).max(0) as usize)
}

// --- layouts ---------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Even,
    Odd,
    Key,
    Scalar,
    Flag,
    Len,
}
type Spans = Vec<(Kind, usize, usize)>;

struct Sizes {
    even: usize,
    odd: usize,
    key: usize,
    scalar: usize,
}
fn sizes<K: Cycle, C: CurveGroup>(m: Compress) -> Sizes {
    Sizes {
        even: Aff::<K::P0>::zero().serialized_size(m),
        odd: Aff::<K::P1>::zero().serialized_size(m),
        key: C::Affine::zero().serialized_size(m),
        scalar: 32,
    }
}
struct Walk<'a> {
    b: &'a [u8],
    at: usize,
    s: &'a Sizes,
    out: Spans,
}
impl<'a> Walk<'a> {
    fn put(&mut self, k: Kind, n: usize) {
        let sz = match k {
            Kind::Even => self.s.even,
            Kind::Odd => self.s.odd,
            Kind::Key => self.s.key,
            Kind::Scalar => self.s.scalar,
            Kind::Flag => 1,
            Kind::Len => 8,
        };
        for _ in 0..n {
            self.out.push((k, self.at, sz));
            self.at += sz;
        }
    }
    fn len(&mut self) -> Option<usize> {
        let v = u64::from_le_bytes(self.b.get(self.at..self.at + 8)?.try_into().ok()?) as usize;
        self.put(Kind::Len, 1);
        (v <= self.b.len()).then_some(v)
    }
    fn list(&mut self, k: Kind) -> Option<()> {
        let n = self.len()?;
        self.put(k, n);
        Some(())
    }
    /// even/odd proof
    fn proof(&mut self, k: Kind) -> Option<()> {
        self.put(k, 3);
        let f = *self.b.get(self.at)?;
        self.put(Kind::Flag, 1);
        if f == 1 {
            self.put(k, 3);
        }
        self.list(k)?;
        self.put(Kind::Scalar, 3);
        self.list(k)?;
        self.list(k)?;
        self.put(Kind::Scalar, 2);
        Some(())
    }
    fn path(&mut self) -> Option<()> {
        self.put(Kind::Even, 1);
        self.list(Kind::Odd)?;
        self.list(Kind::Even)
    }
    fn pour(&mut self) -> Option<()> {
        self.proof(Kind::Even)?;
        self.proof(Kind::Odd)?;
        self.path()?;
        self.path()?;
        self.put(Kind::Key, 2);
        self.put(Kind::Even, 2);
        Some(())
    }
}
fn walk<'a>(b: &'a [u8], s: &'a Sizes, f: impl FnOnce(&mut Walk) -> Option<()>) -> Option<Spans> {
    let mut w = Walk { b, at: 0, s, out: vec![] };
    f(&mut w)?;
    (w.at == b.len()).then_some(w.out)
}

// --- values ----------------------------------------------------------------------------------
const L: usize = 3;

fn pt<P: Curve + Copy, R: Rng>(rng: &mut R) -> Aff<P> {
    match rng.gen_range(0..10) {
        0 => Aff::<P>::zero(),
        1 => Aff::<P>::generator(),
        2 => -Aff::<P>::generator(),
        _ => rand_point::<P, _>(rng),
    }
}
fn a_path<K: Cycle, R: Rng>(rng: &mut R) -> Path<K, L> {
    let n = rng.gen_range(0..6);
    let m = if rng.gen_bool(0.7) { n + rng.gen_range(0..2) } else { rng.gen_range(0..9) };
    SelectAndRerandomizePath {
        selected_commitment: pt::<K::P0, _>(rng),
        odd_commitments: (0..m).map(|_| pt::<K::P1, _>(rng)).collect(),
        even_commitments: (0..n).map(|_| pt::<K::P0, _>(rng)).collect(),
    }
}
fn a_proof<P: Curve, R: Rng>(rng: &mut R) -> R1CSProof<Aff<P>> {
    let prog = loop {
        let shape = Shape::random(rng);
        let p = Program::<Fr<P>>::random(rng, shape);
        if p.muls().1 <= 16 {
            break Arc::new(p);
        }
    };
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(16, 1);
    prove::<P>(&prog, b"c25", &pc, &bp).proof.expect("honest proof")
}
fn key<C: CurveGroup, R: Rng>(rng: &mut R) -> C::Affine {
    match rng.gen_range(0..8) {
        0 => C::Affine::zero(),
        1 => C::Affine::generator(),
        _ => C::rand(rng).into_affine(),
    }
}
fn a_pour<K: Cycle, C: CurveGroup, R: Rng>(rng: &mut R) -> PourOf<K, C, L> {
    Pour {
        even_proof: a_proof::<K::P0, _>(rng),
        odd_proof: a_proof::<K::P1, _>(rng),
        randomized_path_0: a_path::<K, _>(rng),
        randomized_path_1: a_path::<K, _>(rng),
        pk0: key::<C, _>(rng),
        pk1: key::<C, _>(rng),
        minted_coin_commitment_0: pt::<K::P0, _>(rng),
        minted_coin_commitment_1: pt::<K::P0, _>(rng),
    }
}

fn enc<T: CanonicalSerialize>(t: &T, m: Compress) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_with_mode(&mut b, m).unwrap();
    b
}
/// the reference encoding of a list
fn list<T: CanonicalSerialize>(v: &[T], m: Compress) -> Vec<u8> {
    let mut b = (v.len() as u64).to_le_bytes().to_vec();
    for x in v {
        b.extend(enc(x, m));
    }
    b
}
fn path_ref<K: Cycle>(p: &Path<K, L>, m: Compress) -> Vec<u8> {
    [enc(&p.selected_commitment, m), list(&p.odd_commitments, m), list(&p.even_commitments, m)].concat()
}
fn pour_ref<K: Cycle, C: CurveGroup>(p: &PourOf<K, C, L>, m: Compress) -> Vec<u8> {
    [
        enc(&p.even_proof, m),
        enc(&p.odd_proof, m),
        path_ref::<K>(&p.randomized_path_0, m),
        path_ref::<K>(&p.randomized_path_1, m),
        enc(&p.pk0, m),
        enc(&p.pk1, m),
        enc(&p.minted_coin_commitment_0, m),
        enc(&p.minted_coin_commitment_1, m),
    ]
    .concat()
}
fn same_path<K: Cycle>(a: &Path<K, L>, b: &Path<K, L>) -> bool {
    a.selected_commitment == b.selected_commitment && a.odd_commitments == b.odd_commitments && a.even_commitments == b.even_commitments
}
fn same_pour<K: Cycle, C: CurveGroup>(a: &PourOf<K, C, L>, b: &PourOf<K, C, L>) -> bool {
    a.even_proof.to_bytes() == b.even_proof.to_bytes()
        && a.odd_proof.to_bytes() == b.odd_proof.to_bytes()
        && same_path::<K>(&a.randomized_path_0, &b.randomized_path_0)
        && same_path::<K>(&a.randomized_path_1, &b.randomized_path_1)
        && a.pk0 == b.pk0
        && a.pk1 == b.pk1
        && a.minted_coin_commitment_0 == b.minted_coin_commitment_0
        && a.minted_coin_commitment_1 == b.minted_coin_commitment_1
}
fn same_tx<K: Cycle, C: CurveGroup>(a: &Tx<K, C>, b: &Tx<K, C>) -> bool {
    a.signature_prover_response_0 == b.signature_prover_response_0
        && a.signature_verifier_challenge_0 == b.signature_verifier_challenge_0
        && a.signature_prover_response_1 == b.signature_prover_response_1
        && a.signature_verifier_challenge_1 == b.signature_verifier_challenge_1
        && a.pour_bytes == b.pour_bytes
}

const MODES: [(Compress, &str); 2] = [(Compress::Yes, "compressed"), (Compress::No, "uncompressed")];

/// The decoder under observation: panics and allocations are recorded. The outer result is Err
/// if the decoder misbehaved.
fn decode<T: CanonicalDeserialize>(c: &mut Case, what: &str, b: &[u8], m: Compress, v: Validate) -> Option<(T, usize)> {
    let mut rd = b;
    let (r, peak) = metered(|| guard(|| T::deserialize_with_mode(&mut rd, m, v)));
    c.count("byte strings decoded", 1);
    // a decoded point needs a constant factor of its encoding; lists grow by doubling
    let bound = 16 * b.len() + 4096;
    c.check(peak <= bound, || format!("{}: decoding {} bytes allocated {} bytes", what, b.len(), peak));
    match r {
        Err(p) => {
            c.fail(format!("{}: the decoder panicked: {}", what, p));
            None
        }
        Ok(Err(_)) => None,
        Ok(Ok(t)) => Some((t, b.len() - rd.len())),
    }
}

/// Everything that holds for one value of one type.
fn exact<T: CanonicalSerialize + CanonicalDeserialize + Clone>(c: &mut Case, what: &str, v: &T, reference: impl Fn(Compress) -> Vec<u8>, same: impl Fn(&T, &T) -> bool) {
    for (m, name) in MODES {
        let b = enc(v, m);
        c.check(b.len() == v.serialized_size(m), || format!("{} {}: announces {} bytes, has {}", what, name, v.serialized_size(m), b.len()));
        c.check(b == reference(m), || format!("{} {}: not the documented sequence of fields", what, name));
        // into a writer that is exactly as large as announced, and one that is too small
        let mut exact = vec![0u8; v.serialized_size(m)];
        c.check(v.serialize_with_mode(&mut exact[..], m).is_ok() && exact == b, || format!("{} {}: does not fit the announced size", what, name));
        if !b.is_empty() {
            let mut small = vec![0u8; b.len() - 1];
            let r = guard(|| v.serialize_with_mode(&mut small[..], m).is_err());
            c.check(r == Ok(true), || format!("{} {}: writing to a full writer gives {:?}", what, name, r));
        }
        for val in [Validate::Yes, Validate::No] {
            let mut bb = b.clone();
            let tail: usize = c.rng.gen_range(0..3);
            bb.extend((0..tail).map(|i| i as u8 + 7));
            match decode::<T>(c, what, &bb, m, val) {
                None => c.fail(format!("{} {}: does not decode", what, name)),
                Some((t, used)) => {
                    c.check(used == b.len(), || format!("{} {}: decoding consumed {} of {} bytes", what, name, used, b.len()));
                    c.check(same(&t, v), || format!("{} {}: decodes to another value", what, name));
                    for (m2, n2) in MODES {
                        c.check(enc(&t, m2) == enc(v, m2), || format!("{} {} to {}: re-encodes differently", what, name, n2));
                    }
                    c.check(t.check().is_ok(), || format!("{} {}: fails its own validity check", what, name));
                    c.count("round trips", 1);
                }
            }
        }
        ctmon::iofault::writing(c, &format!("{} {}", what, name), v, m);
        if c.idx % 4 == 0 {
            ctmon::iofault::reading(c, &format!("{} {}", what, name), v, m);
        }
        // containers
        let lst = vec![v.clone(), v.clone(), v.clone()];
        let lb = enc(&lst, m);
        c.check(lb.len() == lst.serialized_size(m), || format!("{} {}: a list announces {} bytes, has {}", what, name, lst.serialized_size(m), lb.len()));
        match decode::<Vec<T>>(c, what, &lb, m, Validate::Yes) {
            None => c.fail(format!("{} {}: a list does not decode", what, name)),
            Some((l, used)) => {
                c.check(used == lb.len() && l.len() == 3 && l.iter().all(|x| same(x, v)), || format!("{} {}: a list decodes to other values", what, name));
            }
        }
        // every prefix, or many
        let step = 1 + b.len() / 150;
        let off = c.rng.gen_range(0..step);
        for cut in (off..b.len()).step_by(step).chain([0, b.len() - 1]) {
            for val in [Validate::Yes, Validate::No] {
                let r = decode::<T>(c, what, &b[..cut], m, val);
                c.check(r.is_none(), || format!("{} {}: a prefix of {} of {} bytes decodes", what, name, cut, b.len()));
            }
            c.count("truncations", 1);
        }
    }
}

fn roundtrip<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let kind = c.idx % 5;
    match kind {
        0 | 1 => {
            let p = a_path::<K, _>(rng);
            let d = format!("path {} {}/{}", K::P0::NAME, p.odd_commitments.len(), p.even_commitments.len());
            c.describe(d.clone());
            c.distinct(&d);
            exact(c, "path", &p, |m| path_ref::<K>(&p, m), |a, b| same_path::<K>(a, b));
            // pairs share a writer
            let q = a_path::<K, _>(rng);
            let pair = (p.clone(), q.clone());
            for (m, _) in MODES {
                let b = enc(&pair, m);
                c.check(b == [path_ref::<K>(&p, m), path_ref::<K>(&q, m)].concat(), || "a pair of paths is not the two encodings".into());
                if let Some(((x, y), used)) = decode::<(Path<K, L>, Path<K, L>)>(c, "pair", &b, m, Validate::Yes) {
                    c.check(used == b.len() && same_path::<K>(&x, &p) && same_path::<K>(&y, &q), || "a pair of paths decodes to others".into());
                } else {
                    c.fail("a pair of paths does not decode");
                }
            }
        }
        2 => {
            let p = a_pour::<K, C, _>(rng);
            let d = format!("pour {} {}", K::P0::NAME, enc(&p, Compress::Yes).len());
            c.describe(d.clone());
            c.distinct(&d);
            exact(c, "pour", &p, |m| pour_ref::<K, C>(&p, m), |a, b| same_pour::<K, C>(a, b));
            for (m, name) in MODES {
                let s = sizes::<K, C>(m);
                let b = enc(&p, m);
                c.check(walk(&b, &s, |w| w.pour()).is_some(), || format!("pour {}: unreadable layout", name));
            }
        }
        3 => {
            // transactions around pours and around other byte strings
            let body = match c.rng.gen_range(0..4) {
                0 => vec![],
                1 => (0..c.rng.gen_range(0..300)).map(|_| rng.gen()).collect(),
                _ => bytes_of(&a_pour::<K, C, _>(rng)),
            };
            let sc: Vec<C::ScalarField> = (0..4).map(|_| edge_scalar::<C::ScalarField, _>(rng)).collect();
            let mut wire = vec![];
            for x in &sc {
                wire.extend(bytes_of(x));
            }
            wire.extend(list(&body, Compress::Yes));
            let d = format!("transaction {} {}", K::P0::NAME, body.len());
            c.describe(d.clone());
            c.distinct(&d);
            let tx = match Tx::<K, C>::deserialize_compressed(&wire[..]) {
                Ok(t) => t,
                Err(e) => return c.fail(format!("a transaction put together from its fields does not decode: {:?}", e)),
            };
            c.check(
                tx.signature_prover_response_0 == sc[0]
                    && tx.signature_verifier_challenge_0 == sc[1]
                    && tx.signature_prover_response_1 == sc[2]
                    && tx.signature_verifier_challenge_1 == sc[3]
                    && tx.pour_bytes == body,
                || "a transaction's fields are not in the documented order".into(),
            );
            exact(c, "transaction", &tx, |_| wire.clone(), |a, b| same_tx::<K, C>(a, b));
        }
        _ => {
            multi::<K, 1, _>(c, rng);
            multi::<K, 2, _>(c, rng);
            multi::<K, 3, _>(c, rng);
        }
    }
    c.sample(|| format!("kind {} on {}", kind, K::P0::NAME));
}

/// batched paths can only be encoded
fn multi<K: Cycle, const M: usize, R: Rng>(c: &mut Case, rng: &mut R) {
    let p = a_path::<K, _>(rng);
    let sel: [Aff<K::P0>; M] = std::array::from_fn(|_| pt::<K::P0, _>(rng));
    let mp: MultiPath<K, L, M> = SelectAndRerandomizeMultiPath { selected_commitments: sel, odd_commitments: p.odd_commitments.clone(), even_commitments: p.even_commitments.clone() };
    c.distinct(&format!("multi path {} {} {}/{}", M, K::P0::NAME, p.odd_commitments.len(), p.even_commitments.len()));
    for (m, name) in MODES {
        let b = enc(&mp, m);
        c.check(b.len() == mp.serialized_size(m), || format!("multi path {}: announces {} bytes, has {}", name, mp.serialized_size(m), b.len()));
        ctmon::iofault::writing(c, &format!("multi path {}", name), &mp, m);
        let mut r = vec![];
        for x in &sel {
            r.extend(enc(x, m));
        }
        r.extend(list(&p.odd_commitments, m));
        r.extend(list(&p.even_commitments, m));
        c.check(b == r, || format!("multi path {}: not the documented sequence of fields", name));
    }
}

/// bytes of an encoding that is no point
fn no_point<P: SWCurveConfig, R: Rng>(m: Compress, orig: &[u8], rng: &mut R) -> Vec<u8> {
    let n = P::BaseField::zero().serialized_size(Compress::Yes);
    loop {
        let x = P::BaseField::rand(rng);
        let y2 = x * x * x + P::COEFF_A * x + P::COEFF_B;
        match m {
            Compress::Yes => {
                if y2.sqrt().is_none() {
                    // keep the encoding's flag byte
                    let mut b = bytes_of(&x);
                    b.resize(orig.len(), 0);
                    if orig.len() > n {
                        b[n..].copy_from_slice(&orig[n..]);
                        b[n] &= 0x80;
                    }
                    return b;
                }
            }
            Compress::No => {
                let mut y = P::BaseField::rand(rng);
                if rng.gen() {
                    // next to the curve
                    if let Some(s) = y2.sqrt() {
                        y = s + P::BaseField::from(1u64);
                    }
                }
                if y * y != y2 {
                    return enc(&Affine::<P>::new_unchecked(x, y), m);
                }
            }
        }
    }
}
/// a coordinate that is not reduced
fn unreduced<F: Field>(orig: &[u8]) -> Vec<u8> {
    let mut b = orig.to_vec();
    let mut m = <F::BasePrimeField as PrimeField>::MODULUS.to_bytes_le();
    m.resize(32, 0);
    b[..32].copy_from_slice(&m);
    b
}

/// Points off the curve, at every position, in the value and in containers of it.
fn off_curve<K: Cycle, Q: Curve + Copy>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let is_pour = c.idx % 3 == 0;
    for (m, name) in MODES {
        let s = sizes::<K, Proj<Q>>(m);
        let (b, spans) = if is_pour {
            let p = a_pour::<K, Proj<Q>, _>(rng);
            let b = enc(&p, m);
            let sp = walk(&b, &s, |w| w.pour());
            (b, sp)
        } else {
            let p = a_path::<K, _>(rng);
            let b = enc(&p, m);
            let sp = walk(&b, &s, |w| w.path());
            (b, sp)
        };
        let what = if is_pour { "pour" } else { "path" };
        let spans = match spans {
            Some(s) => s,
            None => return c.fail(format!("{} {}: unreadable layout", what, name)),
        };
        let d = format!("{} {} {}", what, name, spans.len());
        c.describe(d.clone());
        for (i, (kind, at, len)) in spans.iter().enumerate() {
            let orig = &b[*at..*at + *len];
            let bads: Vec<Vec<u8>> = match kind {
                Kind::Even => vec![no_point::<K::P0, _>(m, orig, rng), unreduced::<<K::P0 as ark_ec::CurveConfig>::BaseField>(orig)],
                Kind::Odd => vec![no_point::<K::P1, _>(m, orig, rng), unreduced::<<K::P1 as ark_ec::CurveConfig>::BaseField>(orig)],
                Kind::Key => vec![no_point::<Q, _>(m, orig, rng), unreduced::<<Q as ark_ec::CurveConfig>::BaseField>(orig)],
                _ => continue,
            };
            for (j, bad) in bads.into_iter().enumerate() {
                let mut x = b.clone();
                x[*at..*at + *len].copy_from_slice(&bad);
                let why = if j == 0 { "off the curve" } else { "with an unreduced coordinate" };
                let place = format!("{} {}: point {} of {} ({:?}) {}", what, name, i, spans.len(), kind, why);
                c.distinct(&format!("{} {} {:?} {} {}", what, name, kind, i.min(40), why));
                let refused = if is_pour { decode::<PourOf<K, Proj<Q>, L>>(c, &place, &x, m, Validate::Yes).is_none() } else { decode::<Path<K, L>>(c, &place, &x, m, Validate::Yes).is_none() };
                c.check(refused, || format!("{} is accepted", place));
                // as one of several
                let mut lst = 3u64.to_le_bytes().to_vec();
                let k = rng.gen_range(0..3);
                for q in 0..3 {
                    lst.extend(if q == k { &x } else { &b });
                }
                let refused = if is_pour { decode::<Vec<PourOf<K, Proj<Q>, L>>>(c, &place, &lst, m, Validate::Yes).is_none() } else { decode::<Vec<Path<K, L>>>(c, &place, &lst, m, Validate::Yes).is_none() };
                c.check(refused, || format!("{}, in element {} of a list, is accepted", place, k));
                c.count("invalid points presented", 2);
            }
        }
    }
}

fn bad_affine<P: SWCurveConfig, R: Rng>(rng: &mut R) -> Affine<P> {
    let b = no_point::<P, _>(Compress::No, &[], rng);
    Affine::<P>::deserialize_with_mode(&b[..], Compress::No, Validate::No).expect("no check was asked for")
}

/// The validity check of values in memory: one bad point at each field.
fn checks<K: Cycle, Q: Curve + Copy>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    c.distinct(&format!("memory {} {}", K::P0::NAME, c.idx / 4));
    let p = a_path::<K, _>(rng);
    c.check(p.check().is_ok(), || "a valid path fails its check".into());
    let mut bads: Vec<(String, Path<K, L>)> = vec![];
    let mut q = p.clone();
    q.selected_commitment = bad_affine::<K::P0, _>(rng);
    bads.push(("selected".into(), q));
    for i in 0..p.odd_commitments.len() {
        let mut q = p.clone();
        q.odd_commitments[i] = bad_affine::<K::P1, _>(rng);
        bads.push((format!("odd {}", i), q));
    }
    for i in 0..p.even_commitments.len() {
        let mut q = p.clone();
        q.even_commitments[i] = bad_affine::<K::P0, _>(rng);
        bads.push((format!("even {}", i), q));
    }
    let pour = a_pour::<K, Proj<Q>, _>(rng);
    c.check(pour.check().is_ok(), || "a valid pour fails its check".into());
    let mut pours: Vec<(String, PourOf<K, Proj<Q>, L>)> = vec![];
    for (n, b) in &bads {
        c.check(b.check().is_err(), || format!("a path with a bad point ({}) passes its check", n));
        c.check(Path::<K, L>::batch_check([p.clone(), b.clone()].iter()).is_err(), || format!("a list of paths with a bad point ({}) passes its check", n));
        for slot in 0..2 {
            let mut x = pour.clone();
            if slot == 0 {
                x.randomized_path_0 = b.clone()
            } else {
                x.randomized_path_1 = b.clone()
            }
            pours.push((format!("path {} {}", slot, n), x));
        }
    }
    let mut x = pour.clone();
    x.pk0 = bad_affine::<Q, _>(rng);
    pours.push(("pk0".into(), x));
    let mut x = pour.clone();
    x.pk1 = bad_affine::<Q, _>(rng);
    pours.push(("pk1".into(), x));
    let mut x = pour.clone();
    x.minted_coin_commitment_0 = bad_affine::<K::P0, _>(rng);
    pours.push(("minted 0".into(), x));
    let mut x = pour.clone();
    x.minted_coin_commitment_1 = bad_affine::<K::P0, _>(rng);
    pours.push(("minted 1".into(), x));
    // proofs: every point, through an unchecked decoding
    fn spoil<P: Curve + Copy, R: Rng>(proof: &R1CSProof<Aff<P>>, rng: &mut R) -> Vec<R1CSProof<Aff<P>>> {
        let s = Sizes { even: Aff::<P>::zero().serialized_size(Compress::No), odd: 0, key: 0, scalar: 32 };
        let b = enc(proof, Compress::No);
        let spans = walk(&b, &s, |w| w.proof(Kind::Even)).unwrap_or_default();
        spans
            .iter()
            .filter(|s| s.0 == Kind::Even)
            .map(|(_, at, len)| {
                let mut x = b.clone();
                x[*at..*at + *len].copy_from_slice(&no_point::<P, _>(Compress::No, &[], rng));
                R1CSProof::<Aff<P>>::deserialize_with_mode(&x[..], Compress::No, Validate::No)
            })
            .filter_map(|r| r.ok())
            .collect()
    }
    let e = spoil::<K::P0, _>(&pour.even_proof, rng);
    c.count("spoiled proofs", e.len() as u64);
    for (i, p) in e.into_iter().enumerate() {
        let mut x = pour.clone();
        x.even_proof = p;
        pours.push((format!("even proof point {}", i), x));
    }
    for (i, p) in spoil::<K::P1, _>(&pour.odd_proof, rng).into_iter().enumerate() {
        let mut x = pour.clone();
        x.odd_proof = p;
        pours.push((format!("odd proof point {}", i), x));
    }
    for (n, x) in pours {
        c.check(x.check().is_err(), || format!("a pour with a bad point ({}) passes its check", n));
        c.count("invalid values in memory", 1);
    }
}

fn on_curve<P: SWCurveConfig>(p: &Affine<P>) -> bool {
    p.infinity || p.y * p.y == p.x * p.x * p.x + P::COEFF_A * p.x + P::COEFF_B
}

/// Mutated encodings and arbitrary bytes: no panic, no unbounded allocation, and what decodes is
/// valid and stable.
fn hostile<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let kind = c.idx % 3;
    let m = if rng.gen() { Compress::Yes } else { Compress::No };
    let s = sizes::<K, C>(m);
    let (b, spans) = match kind {
        0 => {
            let p = a_path::<K, _>(rng);
            let b = enc(&p, m);
            let sp = walk(&b, &s, |w| w.path());
            (b, sp)
        }
        1 => {
            let p = a_pour::<K, C, _>(rng);
            let b = enc(&p, m);
            let sp = walk(&b, &s, |w| w.pour());
            (b, sp)
        }
        _ => {
            let body: Vec<u8> = (0..rng.gen_range(0..200)).map(|_| rng.gen()).collect();
            let mut b: Vec<u8> = vec![];
            for _ in 0..4 {
                b.extend(bytes_of(&C::ScalarField::rand(rng)));
            }
            b.extend(list(&body, Compress::Yes));
            let at = 128;
            (b, Some((0..4).map(|i| (Kind::Scalar, 32 * i, 32)).chain([(Kind::Len, at, 8)]).collect()))
        }
    };
    let spans: Spans = match spans {
        Some(s) => s,
        None => return c.fail("unreadable layout"),
    };
    let mut inputs: Vec<(String, Vec<u8>)> = vec![];
    for (k, at, _) in spans.iter().filter(|s| s.0 == Kind::Len) {
        let v = u64::from_le_bytes(b[*at..*at + 8].try_into().unwrap());
        for n in [u64::MAX, u64::MAX / 2 + 1, 1 << 60, 1 << 58, (1 << 59) - 1, 1 << 48, 1 << 40, 1 << 32, (1 << 32) - 1, 1 << 24, v.wrapping_add(1), v.wrapping_sub(1), v * 2 + 1, rng.gen()] {
            let mut x = b.clone();
            x[*at..*at + 8].copy_from_slice(&n.to_le_bytes());
            inputs.push((format!("{:?} at {} set to {}", k, at, n), x));
        }
        // a long claim and nothing behind it
        let mut x = b[..*at].to_vec();
        x.extend((rng.gen::<u64>() | 1 << 40).to_le_bytes());
        inputs.push(("claim without content".into(), x));
    }
    for _ in 0..60 {
        let mut x = b.clone();
        for _ in 0..rng.gen_range(1..4) {
            if x.is_empty() {
                break;
            }
            match rng.gen_range(0..5) {
                0 => {
                    let i = rng.gen_range(0..x.len());
                    x[i] ^= 1 << rng.gen_range(0..8);
                }
                1 => {
                    let i = rng.gen_range(0..x.len());
                    x[i] = *[0u8, 255, 128, 64, 127][..].get(rng.gen_range(0..5)).unwrap();
                }
                2 => {
                    let i = rng.gen_range(0..x.len());
                    x.remove(i);
                }
                3 => {
                    let i = rng.gen_range(0..=x.len());
                    x.insert(i, rng.gen());
                }
                _ => {
                    let (i, j) = (rng.gen_range(0..spans.len()), rng.gen_range(0..spans.len()));
                    let (a, d) = (spans[i], spans[j]);
                    let n = a.2.min(d.2);
                    if a.1 + n <= x.len() && d.1 + n <= x.len() {
                        x.copy_within(a.1..a.1 + n, d.1);
                    }
                }
            }
        }
        inputs.push(("mutated".into(), x));
    }
    for _ in 0..10 {
        let n = rng.gen_range(0..400);
        inputs.push(("arbitrary".into(), (0..n).map(|_| rng.gen()).collect()));
    }
    for (what, x) in inputs {
        for val in [Validate::Yes, Validate::No] {
            c.count("hostile byte strings", 1);
            let what = format!("{} {:?}", what, m == Compress::Yes);
            match kind {
                0 => {
                    if let Some((p, used)) = decode::<Path<K, L>>(c, &what, &x, m, val) {
                        if val == Validate::Yes {
                            let ok = on_curve(&p.selected_commitment) && p.odd_commitments.iter().all(on_curve) && p.even_commitments.iter().all(on_curve);
                            c.check(ok, || format!("{}: decodes to a path with a point off the curve", what));
                            c.check(p.check().is_ok(), || format!("{}: decodes to a path that fails its check", what));
                        }
                        c.check(used == p.serialized_size(m), || format!("{}: consumed {} bytes for a path of {}", what, used, p.serialized_size(m)));
                        let again = decode::<Path<K, L>>(c, &what, &enc(&p, m), m, val);
                        c.check(again.map_or(false, |(q, _)| same_path::<K>(&p, &q)), || format!("{}: what decoded does not survive its own encoding", what));
                        c.count("hostile byte strings that denote a value", 1);
                    }
                }
                1 => {
                    if let Some((p, used)) = decode::<PourOf<K, C, L>>(c, &what, &x, m, val) {
                        if val == Validate::Yes {
                            c.check(p.check().is_ok(), || format!("{}: decodes to a pour that fails its check", what));
                            let paths = [&p.randomized_path_0, &p.randomized_path_1];
                            let ok = paths.iter().all(|p| on_curve(&p.selected_commitment) && p.odd_commitments.iter().all(on_curve) && p.even_commitments.iter().all(on_curve))
                                && on_curve(&p.minted_coin_commitment_0)
                                && on_curve(&p.minted_coin_commitment_1);
                            c.check(ok, || format!("{}: decodes to a pour with a point off the curve", what));
                        }
                        c.check(used == p.serialized_size(m), || format!("{}: consumed {} bytes for a pour of {}", what, used, p.serialized_size(m)));
                        c.count("hostile byte strings that denote a value", 1);
                    }
                }
                _ => {
                    if let Some((t, used)) = decode::<Tx<K, C>>(c, &what, &x, m, val) {
                        c.check(used == t.serialized_size(m) && enc(&t, m) == x[..used], || format!("{}: decodes to a transaction with another encoding", what));
                        c.count("hostile byte strings that denote a value", 1);
                    }
                }
            }
        }
    }
    let d = format!("hostile {} {} {}", kind, K::P0::NAME, b.len());
    c.describe(d.clone());
    c.distinct(&d);
}

/// Real proofs, paths and transactions survive and stay acceptable; spoiled ones are refused by
/// the transaction's verifier.
fn honest<K: Cycle, Q: Curve + Copy>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let w = World::<K, L, Proj<Q>>::new(&[10, 20], 1, 2, Some(2), 1 << 12, rng);
    let tx = w.pour(0, 1, 13, 0, 17, 0, rng);
    c.distinct(&format!("honest {}", K::P0::NAME));
    for (m, name) in MODES {
        let b = enc(&tx, m);
        match decode::<Tx<K, Proj<Q>>>(c, "transaction", &b, m, Validate::Yes) {
            Some((t, _)) => {
                let r = w.verify(&t);
                c.check(r.is_ok(), || format!("a transaction decoded from its {} encoding is refused: {:?}", name, r));
            }
            None => c.fail(format!("a {} transaction does not decode", name)),
        }
    }
    let pour = match PourOf::<K, Proj<Q>, L>::deserialize_compressed(&tx.pour_bytes[..]) {
        Ok(p) => p,
        Err(_) => return c.fail("the pour of a transaction does not decode"),
    };
    c.check(bytes_of(&pour) == tx.pour_bytes, || "the pour of a transaction re-encodes differently".into());
    let s = sizes::<K, Proj<Q>>(Compress::Yes);
    let spans = walk(&tx.pour_bytes, &s, |w| w.pour()).unwrap_or_default();
    c.check(!spans.is_empty(), || "unreadable pour".into());
    for (k, at, len) in spans {
        let orig = tx.pour_bytes[at..at + len].to_vec();
        let bad = match k {
            Kind::Even => no_point::<K::P0, _>(Compress::Yes, &orig, rng),
            Kind::Odd => no_point::<K::P1, _>(Compress::Yes, &orig, rng),
            Kind::Key => no_point::<Q, _>(Compress::Yes, &orig, rng),
            _ => continue,
        };
        let mut t = tx.clone();
        t.pour_bytes[at..at + len].copy_from_slice(&bad);
        // signed by the owner, so that only decoding can refuse
        let b = t.pour_bytes.clone();
        let s0 = w.sign(&w.coins[0].sk, Some(&w.coins[0].coin_aux.pk_randomness), &b, rng);
        let s1 = w.sign(&w.coins[1].sk, Some(&w.coins[1].coin_aux.pk_randomness), &b, rng);
        let t = assemble::<K, Proj<Q>>(&s0, &s1, &b);
        let r = w.verify(&t);
        c.check(r.is_err(), || format!("a transaction whose pour has no point at {} ({:?}) is accepted", at, k));
        c.count("invalid points presented", 1);
    }
}

macro_rules! keyed {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 6 {
            0 => $f::<PV, Proj<VestaC>>($($a),*),
            1 => $f::<VP, Proj<SecpC>>($($a),*),
            2 => $f::<SQ, Proj<SecqC>>($($a),*),
            3 => $f::<QS, Proj<PallasC>>($($a),*),
            4 => $f::<PV, Proj<SecqC>>($($a),*),
            _ => $f::<SQ, Proj<PallasC>>($($a),*),
        }
    };
}
macro_rules! keyed_curve {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 6 {
            0 => $f::<PV, VestaC>($($a),*),
            1 => $f::<VP, SecpC>($($a),*),
            2 => $f::<SQ, SecqC>($($a),*),
            3 => $f::<QS, PallasC>($($a),*),
            4 => $f::<PV, SecqC>($($a),*),
            _ => $f::<SQ, PallasC>($($a),*),
        }
    };
}

fn main() {
    let mut r = Report::new(
        "C25",
        "random paths, pours (of random proofs) and transactions over both cycles and four key curves, encoded in both modes: announced size, reference layout, round trips alone, in pairs and in lists, truncations; a point off the curve or an unreduced coordinate at every position of the encoding, of lists and of values in memory; hostile lengths, mutations and arbitrary bytes under an allocation and panic monitor",
    );
    r.require("failing writes", 1000);
    r.stage("round trips", 240, 6000, |c| keyed!(c.idx / 5, roundtrip(c)));
    r.stage("invalid points", 48, 1200, |c| keyed_curve!(c.idx / 3, off_curve(c)));
    r.stage("values in memory", 48, 1200, |c| keyed_curve!(c.idx, checks(c)));
    r.stage("hostile bytes", 240, 12000, |c| keyed!(c.idx / 3, hostile(c)));
    r.stage("transactions", 4, 24, |c| keyed_curve!(c.idx, honest(c)));
    r.require("round trips", 500);
    r.require("truncations", 1000);
    r.require("invalid points presented", 1000);
    r.require("invalid values in memory", 500);
    r.require("spoiled proofs", 100);
    r.require("hostile byte strings", 10000);
    r.require("hostile byte strings that denote a value", 50);
    r.finish();
}
