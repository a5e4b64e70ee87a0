//! C26: coins bind value and owner, and do not reveal them.
use ark_crypto_primitives::signature::schnorr::{PublicKey, Schnorr, SecretKey};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use blake2::Blake2s256;
use bulletproofs::r1cs::*;
use ctmon::cycles::*;
use ctmon::pour::*;
use ctmon::refver::hex;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use merlin::Transcript;
use rand::Rng;
use relations::coin::*;
use relations::range_proof::range_proof;
use std::collections::HashMap;

const GENS: usize = 128;
const UNKNOWN: &str = "own pours not laid out as the verifier expects";
const MINT: &[u8] = b"c26-mint";

struct Keys<C: CurveGroup> {
    sig: SigParams<C>,
    owner: Owner<C>,
}
fn keys<C: CurveGroup, R: Rng>(rng: &mut R) -> Keys<C> {
    let sig: SigParams<C> = Schnorr::<C, Blake2s256>::setup(rng).unwrap();
    let (pk, sk) = Schnorr::<C, Blake2s256>::keygen(&sig, rng).unwrap();
    Keys { sig, owner: Owner { pk, sk } }
}
fn edge_key<C: CurveGroup, R: Rng>(k: &Keys<C>, rng: &mut R) -> (PublicKey<C>, Option<C::ScalarField>) {
    match rng.gen_range(0..8) {
        0 => (k.sig.generator, Some(C::ScalarField::one())),
        1 => ((-k.sig.generator.into_group()).into_affine(), Some(-C::ScalarField::one())),
        2 => (infinity::<C>(), Some(C::ScalarField::zero())),
        _ => (k.owner.pk, None),
    }
}

/// What a coin's fields must be.
fn judge_coin<K: Cycle, C: CurveGroup>(c: &mut Case, what: &str, coin: &CoinOf<K, C>, comm: &Leaf<K>, value: u64, pk: &PublicKey<C>, sig: &SigParams<C>, p: &Params<K>) {
    c.check(coin.value == value, || format!("{}: the coin holds {} instead of {}", what, coin.value, value));
    // the rerandomized key is the key shifted by a function of the randomness
    let shift = randomizer::<C>(sig, &coin.pk_randomness);
    let rpk = (sig.generator.into_group() * shift + *pk).into_affine();
    let lib = CoinOf::<K, C>::rerandomized_pk(pk, &coin.pk_randomness, sig);
    c.check(lib == rpk, || format!("{}: the rerandomized key is not the key shifted by the randomness", what));
    c.check(coin.tag == tag_of::<K, C>(&rpk), || format!("{}: the tag is not that of the rerandomized key", what));
    c.check(*comm == coin_commitment::<K>(p, K::F0::from(value), &coin.tag, &coin.blinding), || format!("{}: the commitment does not open to value and tag", what));
    // hiding: blinded, and the key is not shown
    c.check(!coin.blinding.is_zero(), || format!("{}: no blinding", what));
    c.check(!shift.is_zero() && rpk != *pk, || format!("{}: the key is not rerandomized", what));
    c.check(coin.tag != tag_of::<K, C>(pk), || format!("{}: the tag is that of the owner's own key", what));
    c.count("coins opened", 1);
}

fn mint_verify<K: Cycle>(p: &Params<K>, comm: Leaf<K>, claim: Option<K::F0>, tag_claim: Option<K::F0>, proof: &EvenProof<K>) -> Result<(), String> {
    guard(|| {
        let mut v = Verifier::new(Transcript::new(MINT));
        let x = verify_mint(&mut v, comm);
        if let Some(val) = claim {
            v.constrain(x - val);
        }
        if let Some(t) = tag_claim {
            // the second component of the same commitment
            let y = match x {
                Variable::VectorCommit(j, i) => Variable::VectorCommit(j, i + 1),
                other => other,
            };
            v.constrain(y - t);
        }
        v.verify(proof, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("{:?}", e))
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)))
}

/// Mint proofs: for the stated value, key and commitment only.
fn mint<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let p = params::<K>(GENS);
    let k = keys::<C, _>(rng);
    let (pk, _) = edge_key::<C, _>(&k, rng);
    let value = edge_u64(rng);
    c.describe(format!("{} value {}", K::P0::NAME, value));
    c.distinct(&format!("mint {} {}", K::P0::NAME, value));
    // new
    let (coin, comm) = CoinOf::<K, C>::new(value, &pk, &k.sig, &p.even_parameters, rng);
    judge_coin::<K, C>(c, "new", &coin, &comm, value, &pk, &k.sig, p);
    // mint
    let claim = c.idx % 3;
    let mut prover = Prover::new(&p.even_parameters.pc_gens, Transcript::new(MINT));
    let (coin, comm, var) = CoinOf::<K, C>::mint(value, &pk, &k.sig, &p.even_parameters, rng, &mut prover);
    judge_coin::<K, C>(c, "mint", &coin, &comm, value, &pk, &k.sig, p);
    c.check(prover.eval(&var.into()) == K::F0::from(value), || "the variable of the mint does not carry its value".into());
    let (vc, tc) = (if claim > 0 { Some(K::F0::from(value)) } else { None }, if claim == 2 { Some(coin.tag) } else { None });
    if let Some(v) = vc {
        prover.constrain(var - v);
    }
    if let Some(t) = tc {
        let y = match var {
            Variable::VectorCommit(j, i) => Variable::VectorCommit(j, i + 1),
            other => other,
        };
        c.check(prover.eval(&y.into()) == coin.tag, || "the commitment's second component is not the tag".into());
        prover.constrain(y - t);
    }
    let proof = match prover.prove(&p.even_parameters.bp_gens) {
        Ok(x) => x,
        Err(e) => return c.fail(format!("an honest mint has no proof: {:?}", e)),
    };
    let r = mint_verify::<K>(p, comm, vc, tc, &proof);
    c.check(r.is_ok(), || format!("an honest mint is refused: {:?}", r));
    c.count("honest mints", 1);
    // another value, another tag
    let mut wrong: Vec<(String, Leaf<K>, Option<K::F0>, Option<K::F0>)> = vec![];
    if let Some(v) = vc {
        for d in [K::F0::one(), -K::F0::one(), K::F0::from(1u64 << 32), two64::<K::F0>(), -two64::<K::F0>(), K::F0::rand(rng)] {
            wrong.push(("another value".into(), comm, Some(v + d), tc));
        }
        wrong.push(("the tag as value".into(), comm, Some(coin.tag), tc));
    }
    if let Some(t) = tc {
        wrong.push(("another tag".into(), comm, vc, Some(t + K::F0::one())));
        wrong.push(("the tag of the owner's own key".into(), comm, vc, Some(tag_of::<K, C>(&pk))));
        wrong.push(("the tag of another rerandomization".into(), comm, vc, Some(CoinOf::<K, C>::new(value, &pk, &k.sig, &p.even_parameters, rng).0.tag)));
        wrong.push(("the value as tag".into(), comm, vc, Some(K::F0::from(value))));
    }
    // another commitment
    let g: Vec<_> = p.even_parameters.bp_gens.share(0).G(3).copied().collect();
    let h = p.even_parameters.pc_gens.B_blinding;
    let (_, other) = CoinOf::<K, C>::new(value, &pk, &k.sig, &p.even_parameters, rng);
    for (n, x) in [
        ("another coin of the same owner and value", other),
        ("one more", (comm + g[0]).into_affine()),
        ("another tag", (comm + g[1]).into_affine()),
        ("a third component", (comm + g[2]).into_affine()),
        ("another blinding", (comm + h).into_affine()),
        ("the negation", -comm),
        ("the identity", Leaf::<K>::zero()),
        ("the sum with itself", (comm + comm).into_affine()),
    ] {
        if x != comm {
            wrong.push((format!("the commitment replaced by {}", n), x, vc, tc));
        }
    }
    for (n, x, v, t) in wrong {
        let r = mint_verify::<K>(p, x, v, t, &proof);
        c.check(r.is_err(), || format!("a mint of {} is accepted with {}", value, n));
        c.count("mismatched mints", 1);
    }
    c.sample(|| format!("{} value {} claims {}", K::P0::NAME, value, claim));
}
fn two64<F: Field>() -> F {
    F::from(u64::MAX) + F::one()
}

/// Minters that choose the opening freely: only 64-bit values are accepted.
fn forged_mint<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let p = params::<K>(GENS);
    let k = keys::<C, _>(rng);
    let (coin, _) = CoinOf::<K, C>::new(7, &k.owner.pk, &k.sig, &p.even_parameters, rng);
    let hi: u64 = rng.gen_range(1..1 << 20);
    let (name, value, hint): (&str, K::F0, u64) = match c.idx % 9 {
        0 => ("2^64", two64(), 0),
        1 => ("2^64 plus something", two64::<K::F0>() + K::F0::from(hi), hi),
        2 => ("minus one", -K::F0::one(), u64::MAX),
        3 => ("a small negative", -K::F0::from(hi), hi.wrapping_neg()),
        4 => ("a multiple of 2^64", two64::<K::F0>() * K::F0::from(hi), 0),
        5 => {
            let x = K::F0::rand(rng);
            ("a random field element", x, x.into_bigint().as_ref()[0])
        }
        6 => ("2^128", two64::<K::F0>().square(), 0),
        7 => ("half", K::F0::from(2u64).inverse().unwrap(), 0),
        _ => {
            let v = edge_u64(rng);
            ("in range", K::F0::from(v), v)
        }
    };
    let honest = name == "in range";
    c.describe(format!("{} {}", K::P0::NAME, name));
    c.distinct(&format!("forged {} {}", K::P0::NAME, name));
    for third in [false, true] {
        // a commitment of the stated shape or with more inside it
        let mut opening = vec![value, coin.tag];
        if third {
            opening.push(K::F0::rand(rng));
        }
        let mut prover = Prover::new(&p.even_parameters.pc_gens, Transcript::new(MINT));
        let (comm, vars) = prover.commit_vec(&opening, coin.blinding, &p.even_parameters.bp_gens);
        let _ = range_proof(&mut prover, vars[0].into(), Some(hint), 64);
        match guard(|| prover.prove(&p.even_parameters.bp_gens)) {
            Ok(Ok(proof)) => {
                let r = mint_verify::<K>(p, comm, None, None, &proof);
                if honest && !third {
                    // the library's own mints are judged elsewhere
                    c.count(if r.is_ok() { "honest mints" } else { "own mints not laid out as the verifier expects" }, 1);
                    c.eval();
                } else if !honest {
                    c.check(r.is_err(), || format!("a mint of {} is accepted (third component: {})", name, third));
                    c.count("mismatched mints", 1);
                }
            }
            _ => c.count("minters without a proof", 1),
        }
    }
}

/// Histories of coins of one owner and one value.
fn histories<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let p = params::<K>(GENS);
    let k = keys::<C, _>(&mut rng);
    let value = edge_u64(&mut rng);
    let n = 400;
    c.describe(format!("{} value {}", K::P0::NAME, value));
    c.distinct(&format!("history {} {} {}", K::P0::NAME, value, c.idx));
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let (mut blind, mut rand_) = (vec![], vec![]);
    for i in 0..n {
        // fresh generators as well as one continued stream
        let mut fresh = c.sub_rng();
        let r: &mut rand_chacha::ChaCha20Rng = if i % 2 == 0 { &mut rng } else { &mut fresh };
        let (coin, comm) = if i % 10 < 8 {
            CoinOf::<K, C>::new(value, &k.owner.pk, &k.sig, &p.even_parameters, r)
        } else {
            let mut prover = Prover::new(&p.even_parameters.pc_gens, Transcript::new(MINT));
            let (a, b, _) = CoinOf::<K, C>::mint(value, &k.owner.pk, &k.sig, &p.even_parameters, r, &mut prover);
            (a, b)
        };
        if i % 40 == 0 {
            judge_coin::<K, C>(c, "history", &coin, &comm, value, &k.owner.pk, &k.sig, p);
        }
        let rpk = CoinOf::<K, C>::rerandomized_pk(&k.owner.pk, &coin.pk_randomness, &k.sig);
        // no two of these coincide, within a coin or between coins
        for (what, b) in [
            ("commitment", bytes_of(&comm)),
            ("tag", bytes_of(&coin.tag)),
            ("rerandomized key", bytes_of(&rpk)),
            ("blinding", bytes_of(&coin.blinding)),
            ("key randomness", bytes_of(&coin.pk_randomness)),
        ] {
            let name = format!("{} of coin {}", what, i);
            // 32-byte scalars of different fields are compared by their bytes
            if let Some(old) = seen.insert(b, name.clone()) {
                c.fail(format!("{} equals {}", name, old));
            }
            c.eval();
        }
        // nor up to sign
        for (what, b) in [("commitment", bytes_of(&-comm)), ("blinding", bytes_of(&-coin.blinding)), ("rerandomized key", bytes_of(&(-rpk.into_group()).into_affine()))] {
            if let Some(old) = seen.get(&b) {
                c.fail(format!("the {} of coin {} is the negation of the {}", what, i, old));
            }
        }
        blind.push(coin.blinding);
        rand_.push(coin.pk_randomness);
        c.count("coins in histories", 1);
    }
    // differences do not repeat either (a counter or a fixed step would)
    fn steps<F: PrimeField>(c: &mut Case, what: &str, v: &[F]) {
        let mut d: HashMap<Vec<u8>, usize> = HashMap::new();
        for (i, w) in v.windows(2).enumerate() {
            if let Some(j) = d.insert(bytes_of(&(w[1] - w[0])), i) {
                c.fail(format!("the {} of coins moves by the same step at {} and {}", what, j, i));
            }
        }
        // every low bit varies: none is constant over hundreds of coins
        for bit in 0..F::MODULUS_BIT_SIZE as usize - 8 {
            let ones = v.iter().filter(|x| x.into_bigint().get_bit(bit)).count();
            c.check(ones > v.len() / 8 && ones < v.len() * 7 / 8, || format!("bit {} of the {} is set in {} of {} coins", bit, what, ones, v.len()));
        }
    }
    steps(c, "blinding", &blind);
    steps(c, "key randomness", &rand_);
}

/// A generator that follows one stream for a number of bytes and another one from there on.
struct Splice {
    a: rand_chacha::ChaCha20Rng,
    b: rand_chacha::ChaCha20Rng,
    left: usize,
    drawn: usize,
}
impl rand::RngCore for Splice {
    fn next_u32(&mut self) -> u32 {
        let mut x = [0u8; 4];
        self.fill_bytes(&mut x);
        u32::from_le_bytes(x)
    }
    fn next_u64(&mut self) -> u64 {
        let mut x = [0u8; 8];
        self.fill_bytes(&mut x);
        u64::from_le_bytes(x)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            // both streams advance, so that they stay in step
            let (mut p, mut q) = ([0u8; 1], [0u8; 1]);
            self.a.fill_bytes(&mut p);
            self.b.fill_bytes(&mut q);
            *x = if self.left > 0 { p[0] } else { q[0] };
            self.left = self.left.saturating_sub(1);
            self.drawn += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for Splice {}

/// The blinding and the key randomness do not determine each other: a tag becomes public when the
/// coin is spent, so a commitment blinded by a function of it would then be opened by guessing.
fn independence<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let p = params::<K>(GENS);
    let k = keys::<C, _>(&mut rng);
    let value = edge_u64(&mut rng);
    let minted = c.coin();
    c.describe(format!("{} value {} minted {}", K::P0::NAME, value, minted));
    c.distinct(&format!("independence {} {} {}", K::P0::NAME, value, minted));
    let (a, b) = (c.sub_rng(), c.sub_rng());
    let run = |left: usize| {
        let mut r = Splice { a: a.clone(), b: b.clone(), left, drawn: 0 };
        let coin = if minted {
            let mut prover = Prover::new(&p.even_parameters.pc_gens, Transcript::new(MINT));
            CoinOf::<K, C>::mint(value, &k.owner.pk, &k.sig, &p.even_parameters, &mut r, &mut prover).0
        } else {
            CoinOf::<K, C>::new(value, &k.owner.pk, &k.sig, &p.even_parameters, &mut r).0
        };
        (coin.tag, coin.blinding, r.drawn)
    };
    let (tag, blinding, drawn) = run(usize::MAX);
    c.check(drawn >= 60, || format!("only {} bytes were drawn for a blinding and a key randomness", drawn));
    let (mut tag_only, mut blinding_only) = (0u32, 0u32);
    for left in (0..=drawn).step_by(8) {
        let (t, bl, _) = run(left);
        tag_only += (t == tag && bl != blinding) as u32;
        blinding_only += (t != tag && bl == blinding) as u32;
        c.count("spliced coins", 1);
    }
    c.check(tag_only + blinding_only > 0, || "blinding and tag of a coin change only together: one is a function of the other".into());
}

/// The tag as a function, and rerandomized keys as keys.
fn tags<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let k = keys::<C, _>(rng);
    let p = params::<K>(GENS);
    let (pk, dlog) = edge_key::<C, _>(&k, rng);
    let r = edge_scalar::<C::ScalarField, _>(rng);
    c.describe(format!("{} randomness {}", K::P0::NAME, hex(&bytes_of(&r))));
    c.distinct(&format!("tag {} {}", K::P0::NAME, hex(&bytes_of(&r))));
    let a = CoinOf::<K, C>::rerandomized_pk(&pk, &r, &k.sig);
    let b = CoinOf::<K, C>::rerandomized_pk(&pk, &r, &k.sig);
    let shift = randomizer::<C>(&k.sig, &r);
    let want = (k.sig.generator.into_group() * shift + pk).into_affine();
    c.check(a == b && a == want, || "a rerandomized key is not a fixed shift of the key".into());
    if !r.is_zero() {
        c.check(a != pk, || "a key is rerandomized to itself".into());
    }
    // other randomness, other key
    let r2 = r + C::ScalarField::one();
    c.check(CoinOf::<K, C>::rerandomized_pk(&pk, &r2, &k.sig) != a, || "two rerandomizations of a key coincide".into());
    // the byte hash, on arbitrary strings
    for n in [0usize, 1, 31, 32, 33, 64, 71, 72, 73, 135, 136, 300] {
        let m: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
        use sha3::{Digest, Sha3_512};
        let h = Sha3_512::digest(&m);
        let mut acc = K::F0::zero();
        for x in h.iter().rev() {
            acc = acc * K::F0::from(256u64) + K::F0::from(*x as u64);
        }
        c.check(element_from_bytes_stat::<K::F0>(&m) == acc, || format!("the hash of {} bytes is not SHA3-512 reduced", n));
    }
    // tags of coins with this key, of its negation, of neighbours
    let neg = (-pk.into_group()).into_affine();
    let mut ts: Vec<(String, K::F0)> = vec![];
    for (n, q) in [("key", pk), ("negated key", neg), ("shifted key", (pk + k.sig.generator).into_affine())] {
        let (coin, _) = CoinOf::<K, C>::new(1, &q, &k.sig, &p.even_parameters, rng);
        let rpk = CoinOf::<K, C>::rerandomized_pk(&q, &coin.pk_randomness, &k.sig);
        c.check(coin.tag == tag_of::<K, C>(&rpk), || format!("the tag of a coin of a {} is not that of its rerandomized key", n));
        // by the hash the library exposes
        c.check(coin.tag == element_from_bytes_stat::<K::F0>(&bytes_of(&rpk)), || "the tag is not the library's hash of the rerandomized key".into());
        // the opposite point has another tag
        c.check(coin.tag != tag_of::<K, C>(&(-rpk.into_group()).into_affine()), || "opposite keys share a tag".into());
        ts.push((n.into(), coin.tag));
        c.count("tags recomputed", 1);
    }
    for i in 0..3 {
        for j in 0..i {
            c.check(ts[i].1 != ts[j].1, || format!("coins of a {} and of a {} share a tag", ts[i].0, ts[j].0));
        }
    }
    // the owner, and only with this randomness, signs for the rerandomized key
    let sk: C::ScalarField = dlog.unwrap_or(k.owner.sk.0);
    let msg: Vec<u8> = (0..rng.gen_range(0..100)).map(|_| rng.gen()).collect();
    let skk = SecretKey::<C>(sk);
    let s = match guard(|| sign(&k.sig, &skk, Some(&r), &msg, rng)) {
        Ok(s) => s,
        Err(e) => return c.fail(format!("the owner cannot sign: {}", e)),
    };
    let ok = |pk: &PublicKey<C>, s: &_, m: &[u8]| Schnorr::<C, Blake2s256>::verify(&k.sig, pk, m, s).unwrap_or(false);
    c.check(ok(&a, &s, &msg), || "the owner's rerandomized signature is refused under the rerandomized key".into());
    c.check(signature_holds::<C>(&k.sig, &a, &msg, &s), || "the signature equation does not hold".into());
    if a != pk {
        c.check(!ok(&pk, &s, &msg), || "a rerandomized signature holds under the original key".into());
        let s0 = sign(&k.sig, &skk, None, &msg, rng);
        c.check(!ok(&a, &s0, &msg), || "an unrandomized signature holds under the rerandomized key".into());
    }
    let s2 = sign(&k.sig, &skk, Some(&r2), &msg, rng);
    c.check(!ok(&a, &s2, &msg), || "a signature with other randomness holds".into());
    c.count("rerandomized signatures", 1);
}

const L: usize = 3;
/// Spending: with the coin's own value, tag and blinding, and under its rerandomized key.
fn spend<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let (a, b) = (edge_u64(rng).max(3), edge_u64(rng).max(3));
    let w = World::<K, L, C>::new(&[a, b, a], 2, 2, Some(2), 1 << 12, rng);
    let kind = c.idx % 11;
    let slot = (c.idx / 11 % 2) as usize;
    let (v0, v1) = random_split(a as u128 + b as u128, rng);
    let infos = [info_copy::<K, C>(&w.coins[0]), info_copy::<K, C>(&w.coins[1])];
    let [mut i0, mut i1] = infos;
    let (v0, v1) = (v0, v1);
    let t = if slot == 0 { &mut i0 } else { &mut i1 };
    let third = &w.coins[2];
    let mut outs = (v0, v1);
    let name = match kind {
        0 => "honest",
        1 => {
            t.coin_aux.value -= 1;
            if outs.0 > 0 {
                outs.0 -= 1
            } else {
                outs.1 -= 1
            }
            "a value one less"
        }
        2 => {
            t.coin_aux.value = t.coin_aux.value.wrapping_add(1);
            if outs.0 < u64::MAX {
                outs.0 += 1
            } else {
                outs.1 = outs.1.wrapping_add(1)
            }
            "a value one more"
        }
        3 => {
            t.coin_aux.tag += K::F0::one();
            "another tag"
        }
        4 => {
            t.coin_aux.blinding += K::F0::one();
            "another blinding"
        }
        5 => {
            t.randomized_pk = w.owners[w.owner_of[slot]].pk;
            "the owner's own key"
        }
        6 => {
            t.randomized_pk = third.randomized_pk;
            "the key of another coin"
        }
        7 => {
            t.randomized_pk = (-t.randomized_pk.into_group()).into_affine();
            "the negated key"
        }
        8 => {
            t.coin_aux.tag = third.coin_aux.tag;
            t.randomized_pk = third.randomized_pk;
            t.coin_aux.pk_randomness = third.coin_aux.pk_randomness;
            "tag and key of another coin"
        }
        9 => {
            t.index = third.index;
            "the place of another coin"
        }
        _ => {
            t.coin_aux.pk_randomness += C::ScalarField::one();
            "other key randomness"
        }
    };
    c.describe(format!("{} input {} with {}", K::P0::NAME, slot, name));
    c.distinct(&format!("spend {} {} {}", K::P0::NAME, slot, name));
    // through the library
    let r = guard(|| w.pour_infos(&i0, &i1, outs.0, 0, outs.1, 1, rng));
    match r {
        Err(_) if kind != 0 => c.count("spends the prover refuses", 1),
        Err(e) => c.fail(format!("an honest spend panics: {}", e)),
        Ok(tx) => {
            let r = w.verify(&tx);
            if kind == 0 {
                c.check(r.is_ok(), || format!("an honest spend is refused: {:?}", r));
                c.count("honest spends", 1);
            } else {
                c.check(r.is_err(), || format!("a coin is spent with {}", name));
                c.count("mismatched spends", 1);
            }
        }
    }
    if w.learn_layout(0, 1, &mut c.sub_rng()).is_none() {
        c.count(UNKNOWN, 1);
        return;
    }
    // through a prover without the library's own assertion, with valid signatures for the shown key
    for keep in [true, false] {
        let r = guard(|| {
            let mut plan = w.honest_plan(0, 1, outs.0, 0, outs.1, 1, rng);
            for (j, i) in [&i0, &i1].into_iter().enumerate() {
                plan.spends[j] = Spend {
                    index: i.index,
                    witness: None,
                    value: K::F0::from(i.coin_aux.value),
                    tag: i.coin_aux.tag,
                    claimed_tag: tag_of::<K, C>(&i.randomized_pk),
                    blinding: i.coin_aux.blinding,
                    keep_commitment: keep,
                };
                plan.pks[j] = i.randomized_pk;
            }
            w.pour_plan(&plan, rng)
        });
        let pour = match r {
            Ok(p) => p,
            Err(_) => {
                c.count("spends the prover refuses", 1);
                continue;
            }
        };
        // only the proofs: the signatures are judged elsewhere
        let r = w.verify_pour(&pour, &w.tree);
        // key randomness is not part of the proof
        if kind == 0 || kind == 10 {
            c.check(r.is_ok(), || format!("an honest spend put together from its parts is refused: {:?}", r));
            c.count("honest spends", 1);
        } else {
            c.check(r.is_err(), || format!("a coin is spent with {} (own prover, commitment {})", name, if keep { "kept" } else { "replaced" }));
            c.count("mismatched spends", 1);
        }
    }
}
/// Outputs of pours to one receiver for one value.
fn outputs<K: Cycle, C: CurveGroup>(c: &mut Case) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let w = World::<K, L, C>::new(&[50, 50, 50], 1, 1, Some(2), 1 << 12, rng);
    c.distinct(&format!("outputs {}", K::P0::NAME));
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    for i in &w.coins {
        seen.insert(bytes_of(&w.set[i.index]), "a spent coin".into());
    }
    for k in 0..2 {
        use ark_serialize::CanonicalDeserialize;
        let tx = w.pour(k, k + 1, 50, 0, 50, 0, rng);
        let p = match PourOf::<K, C, L>::deserialize_compressed(&tx.pour_bytes[..]) {
            Ok(p) => p,
            Err(_) => return c.fail("a pour does not decode"),
        };
        let points = [
            ("first output", bytes_of(&p.minted_coin_commitment_0)),
            ("second output", bytes_of(&p.minted_coin_commitment_1)),
            ("first selected", bytes_of(&p.randomized_path_0.selected_commitment)),
            ("second selected", bytes_of(&p.randomized_path_1.selected_commitment)),
        ];
        for (n, b) in points {
            let name = format!("{} of pour {}", n, k);
            if let Some(old) = seen.insert(b, name.clone()) {
                c.fail(format!("{} equals {}", name, old));
            }
            c.eval();
        }
        // neither the owner's key nor its tag is in the transaction
        let b = bytes_of(&tx);
        let pk = bytes_of(&w.owners[0].pk);
        c.check(!b.windows(pk.len()).any(|x| x == pk), || "the owner's own key is part of the transaction".into());
        for i in &w.coins {
            for (n, s) in [("the blinding", bytes_of(&i.coin_aux.blinding)), ("the key randomness", bytes_of(&i.coin_aux.pk_randomness)), ("the secret key", bytes_of(&i.sk.0)), ("the coin's commitment", bytes_of(&w.set[i.index]))] {
                c.check(!b.windows(s.len()).any(|x| x == s), || format!("{} of a spent coin is part of the transaction", n));
            }
        }
        c.count("pours searched", 1);
    }
}

macro_rules! keyed {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 6 {
            0 => $f::<PV, Proj<VestaC>>($($a),*),
            1 => $f::<VP, Proj<SecpC>>($($a),*),
            2 => $f::<SQ, Proj<SecqC>>($($a),*),
            3 => $f::<QS, Proj<PallasC>>($($a),*),
            4 => $f::<PV, Proj<PallasC>>($($a),*),
            _ => $f::<QS, Proj<SecpC>>($($a),*),
        }
    };
}

fn main() {
    let mut r = Report::new(
        "C26",
        "coins over both cycles and four key curves: fields against an independent opening, tag and key; mint proofs presented with wrong values, tags and commitments, and from minters that choose the opening; histories of coins of one owner and value compared in all fields; signatures under rerandomized keys; spends with each part of the coin replaced, by the library's prover and by one without its assertions",
    );
    r.stage("mint", 96, 4000, |c| keyed!(c.idx, mint(c)));
    r.stage("forged mint", 72, 3000, |c| keyed!(c.idx / 9, forged_mint(c)));
    r.stage("histories", 12, 200, |c| keyed!(c.idx, histories(c)));
    r.stage("independence", 24, 400, |c| keyed!(c.idx, independence(c)));
    r.stage("tags and keys", 300, 10000, |c| keyed!(c.idx, tags(c)));
    r.stage("spending", 22, 440, |c| keyed!(c.idx / 2, spend(c)));
    r.stage("outputs", 4, 40, |c| keyed!(c.idx, outputs(c)));
    r.require("coins opened", 200);
    r.require_unless("honest mints", 90, "own mints not laid out as the verifier expects");
    r.require("mismatched mints", 800);
    r.require("coins in histories", 4000);
    r.require("spliced coins", 200);
    r.require("tags recomputed", 800);
    r.require("rerandomized signatures", 250);
    r.require_unless("honest spends", 4, UNKNOWN);
    r.require_unless("mismatched spends", 10, UNKNOWN);
    r.require("pours searched", 8);
    r.finish();
}
