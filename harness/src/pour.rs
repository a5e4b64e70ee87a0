//! Coins and pours: worlds of owned coins in a tree, honest and freely chosen pours, verification.

use crate::cycles::*;
use crate::guard;
use crate::tree::*;
use ark_crypto_primitives::signature::schnorr::{Parameters, PublicKey, Schnorr, SecretKey, Signature};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::UniformRand;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use blake2::Blake2s256;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::seq::SliceRandom;
use rand::Rng;
use relations::coin::*;
use relations::range_proof::range_proof;

pub type SigParams<C> = Parameters<C, Blake2s256>;
pub type Tx<K, C> = SignedTx<<K as Cycle>::P0, <K as Cycle>::P1, C>;
pub type PourOf<K, C, const L: usize> = Pour<L, <K as Cycle>::P0, <K as Cycle>::P1, C>;
pub type CoinOf<K, C> = Coin<<K as Cycle>::P0, C>;
pub const POUR: &[u8] = b"ctmon-pour";

pub struct Owner<C: CurveGroup> {
    pub pk: PublicKey<C>,
    pub sk: SecretKey<C>,
}

pub struct World<K: Cycle, const L: usize, C: CurveGroup> {
    pub p: &'static Params<K>,
    pub sig: SigParams<C>,
    pub owners: Vec<Owner<C>>,
    pub coins: Vec<SpendingInfo<K::P0, C>>,
    pub owner_of: Vec<usize>,
    pub set: Vec<Leaf<K>>,
    pub tree: Tree<K, L, 1>,
}

pub fn coin_copy<K: Cycle, C: CurveGroup>(c: &CoinOf<K, C>) -> CoinOf<K, C> {
    Coin { value: c.value, tag: c.tag, blinding: c.blinding, pk_randomness: c.pk_randomness }
}

pub fn info_copy<K: Cycle, C: CurveGroup>(i: &SpendingInfo<K::P0, C>) -> SpendingInfo<K::P0, C> {
    SpendingInfo { index: i.index, coin_aux: coin_copy::<K, C>(&i.coin_aux), randomized_pk: i.randomized_pk, sk: SecretKey(i.sk.0) }
}

impl<K: Cycle, const L: usize, C: CurveGroup> World<K, L, C> {
    /// coins of the given values for `owners` owners at random places among `fillers` other leaves
    pub fn new<R: Rng>(values: &[u64], owners: usize, fillers: usize, height: Option<usize>, gens: usize, rng: &mut R) -> Self {
        let p = params::<K>(gens);
        let sig: SigParams<C> = Schnorr::<C, Blake2s256>::setup(rng).unwrap();
        let owners: Vec<Owner<C>> = (0..owners)
            .map(|_| {
                let (pk, sk) = Schnorr::<C, Blake2s256>::keygen(&sig, rng).unwrap();
                Owner { pk, sk }
            })
            .collect();
        let n = values.len() + fillers;
        let mut places: Vec<usize> = (0..n).collect();
        places.shuffle(rng);
        let mut set = leaves::<K, _>(n, p, rng);
        let (mut coins, mut owner_of) = (vec![], vec![]);
        for (i, v) in values.iter().enumerate() {
            let o = rng.gen_range(0..owners.len());
            let (coin, comm) = CoinOf::<K, C>::new(*v, &owners[o].pk, &sig, &p.even_parameters, rng);
            set[places[i]] = comm;
            let rpk = CoinOf::<K, C>::rerandomized_pk(&owners[o].pk, &coin.pk_randomness, &sig);
            coins.push(SpendingInfo { index: places[i], coin_aux: coin, randomized_pk: rpk, sk: SecretKey(owners[o].sk.0) });
            owner_of.push(o);
        }
        let tree = Tree::<K, L, 1>::from_set(&set, p, height);
        World { p, sig, owners, coins, owner_of, set, tree }
    }

    pub fn provers(&self, label: &'static [u8]) -> (EvenProver<'static, K>, OddProver<'static, K>) {
        (
            Prover::new(&self.p.even_parameters.pc_gens, Transcript::new(label)),
            Prover::new(&self.p.odd_parameters.pc_gens, Transcript::new(label)),
        )
    }

    /// the library's pour
    pub fn pour<R: Rng>(&self, i: usize, j: usize, v0: u64, to0: usize, v1: u64, to1: usize, rng: &mut R) -> Tx<K, C> {
        self.pour_infos(&self.coins[i], &self.coins[j], v0, to0, v1, to1, rng)
    }

    pub fn pour_infos<R: Rng>(&self, i: &SpendingInfo<K::P0, C>, j: &SpendingInfo<K::P0, C>, v0: u64, to0: usize, v1: u64, to1: usize, rng: &mut R) -> Tx<K, C> {
        let (ep, op) = self.provers(POUR);
        prove_pour(ep, op, self.p, &self.tree, i, j, v0, self.owners[to0].pk, v1, self.owners[to1].pk, &self.sig, rng)
    }

    /// The verifier of the library's tests. A panic is a rejection.
    pub fn verify(&self, tx: &Tx<K, C>) -> Result<(), String> {
        self.verify_with(tx, &self.tree, &self.sig, POUR)
    }

    pub fn verify_with(&self, tx: &Tx<K, C>, tree: &Tree<K, L, 1>, sig: &SigParams<C>, label: &'static [u8]) -> Result<(), String> {
        guard(|| {
            let (evt, ovt) = tx.clone().verification_gadget(label, self.p, tree, sig);
            batch_verify(vec![evt], &self.p.even_parameters.pc_gens, &self.p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
            batch_verify(vec![ovt], &self.p.odd_parameters.pc_gens, &self.p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))?;
            Ok(())
        })
        .unwrap_or_else(|e| Err(format!("panic: {}", e)))
    }

    /// Only the proofs, signatures aside.
    pub fn verify_pour(&self, pour: &PourOf<K, C, L>, tree: &Tree<K, L, 1>) -> Result<(), String> {
        guard(|| {
            let (evt, ovt) = pour.clone().verification_gadget(POUR, self.p, tree);
            batch_verify(vec![evt], &self.p.even_parameters.pc_gens, &self.p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
            batch_verify(vec![ovt], &self.p.odd_parameters.pc_gens, &self.p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))?;
            Ok(())
        })
        .unwrap_or_else(|e| Err(format!("panic: {}", e)))
    }

    /// A pour made from a freely chosen plan, laid out as the verifier expects it.
    pub fn pour_plan<R: Rng>(&self, plan: &Plan<K, C, L>, rng: &mut R) -> PourOf<K, C, L> {
        self.pour_plan_as(plan, &layout().unwrap_or(USUAL), rng)
    }

    /// Find the layout under which the verifier accepts an honest plan, if that is not known yet.
    pub fn learn_layout<R: Rng>(&self, i: usize, j: usize, rng: &mut R) -> Option<Layout> {
        *LAYOUT.get_or_init(|| {
            let (a, b) = (self.coins[i].coin_aux.value, self.coins[j].coin_aux.value);
            let total = a as u128 + b as u128;
            let v0 = total.min(u64::MAX as u128) as u64;
            let v1 = (total - v0 as u128) as u64;
            let plan = self.honest_plan(i, j, v0, 0, v1, 0, rng);
            Layout::all().into_iter().find(|l| {
                let p = guard(|| self.pour_plan_as(&plan, l, rng));
                p.is_ok() && self.verify_pour(&p.unwrap(), &self.tree).is_ok()
            })
        })
    }

    fn pour_plan_as<R: Rng>(&self, plan: &Plan<K, C, L>, l: &Layout, rng: &mut R) -> PourOf<K, C, L> {
        let (mut ep, mut op) = self.provers(POUR);
        let mut out = [Leaf::<K>::default(); 2];
        let mut vars: Vec<LinearCombination<K::F0>> = vec![LinearCombination::default(); 4];
        let mut paths: Vec<Option<Path<K, L>>> = vec![None, None];
        for part in l.order {
            if part < 2 {
                let m = &plan.mints[part];
                let (c, v) = ep.commit_vec(&m.opening, m.blinding, &self.p.even_parameters.bp_gens);
                if m.range && l.range[part] {
                    range_proof(&mut ep, v[0].into(), Some(m.hint), 64).unwrap();
                }
                out[part] = c;
                vars[part] = v[0].into();
            } else {
                let s = &plan.spends[part - 2];
                let w = match &s.witness {
                    Some(w) => w.clone(),
                    None => self.tree.select_and_rerandomize_prover_witness(s.index, 0, self.p),
                };
                let (mut path, r) = w.select_and_rerandomize_prover_gadget(&mut ep, &mut op, self.p, rng);
                let (c, v) = ep.commit_vec(&[s.value, s.tag], s.blinding + r, &self.p.even_parameters.bp_gens);
                match l.tag {
                    1 => ep.constrain(v[1] - s.claimed_tag),
                    -1 => ep.constrain(constant::<K::F0, _>(s.claimed_tag) - v[1]),
                    _ => {}
                }
                if s.keep_commitment {
                    assert_eq!(path.selected_commitment, c);
                } else {
                    path.selected_commitment = c;
                }
                paths[part - 2] = Some(path);
                vars[part] = v[0].into();
            }
        }
        let balance = vars[0].clone() + vars[1].clone() - vars[2].clone() - vars[3].clone();
        match l.balance {
            1 => ep.constrain(balance),
            -1 => ep.constrain(-balance),
            _ => {}
        }
        let even_proof = ep.prove(&self.p.even_parameters.bp_gens).expect("even proof");
        let odd_proof = op.prove(&self.p.odd_parameters.bp_gens).expect("odd proof");
        let p1 = paths.pop().unwrap().unwrap();
        let p0 = paths.pop().unwrap().unwrap();
        Pour {
            even_proof,
            odd_proof,
            randomized_path_0: p0,
            randomized_path_1: p1,
            pk0: plan.pks[0],
            pk1: plan.pks[1],
            minted_coin_commitment_0: out[0],
            minted_coin_commitment_1: out[1],
        }
    }

    /// the plan an honest prover would follow
    pub fn honest_plan<R: Rng>(&self, i: usize, j: usize, v0: u64, to0: usize, v1: u64, to1: usize, rng: &mut R) -> Plan<K, C, L> {
        let mint = |v: u64, to: usize, rng: &mut R| {
            let (c, _) = CoinOf::<K, C>::new(v, &self.owners[to].pk, &self.sig, &self.p.even_parameters, rng);
            Mint { opening: vec![K::F0::from(v), c.tag], hint: v, blinding: c.blinding, range: true }
        };
        let spend = |i: usize| {
            let c = &self.coins[i];
            Spend { index: c.index, witness: None, value: K::F0::from(c.coin_aux.value), tag: c.coin_aux.tag, claimed_tag: c.coin_aux.tag, blinding: c.coin_aux.blinding, keep_commitment: true }
        };
        Plan { mints: [mint(v0, to0, rng), mint(v1, to1, rng)], spends: [spend(i), spend(j)], pks: [self.coins[i].randomized_pk, self.coins[j].randomized_pk] }
    }

    pub fn sign<R: Rng>(&self, sk: &SecretKey<C>, randomness: Option<&C::ScalarField>, msg: &[u8], rng: &mut R) -> Signature<C> {
        sign(&self.sig, sk, randomness, msg, rng)
    }

    /// signs a pour with the keys of the two coins
    pub fn signed<R: Rng>(&self, pour: &PourOf<K, C, L>, i: usize, j: usize, rng: &mut R) -> Tx<K, C> {
        let b = bytes_of(pour);
        let s0 = self.sign(&self.coins[i].sk, Some(&self.coins[i].coin_aux.pk_randomness), &b, rng);
        let s1 = self.sign(&self.coins[j].sk, Some(&self.coins[j].coin_aux.pk_randomness), &b, rng);
        assemble::<K, C>(&s0, &s1, &b)
    }
}

/// The order in which a pour's verifier goes through its parts (outputs 0, 1, inputs 2, 3), and the form of its own
/// constraints: with this or the opposite sign, or not there at all.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    pub order: [usize; 4],
    pub tag: i8,
    pub balance: i8,
    pub range: [bool; 2],
}
pub const USUAL: Layout = Layout { order: [0, 1, 2, 3], tag: 1, balance: 1, range: [true, true] };
static LAYOUT: std::sync::OnceLock<Option<Layout>> = std::sync::OnceLock::new();

/// the layout found by `learn_layout`
pub fn layout() -> Option<Layout> {
    LAYOUT.get().copied().flatten()
}

impl Layout {
    /// the usual one first
    fn all() -> Vec<Layout> {
        let mut v = vec![];
        for range in [[true, true], [true, false], [false, true], [false, false]] {
            for (tag, balance) in [(1, 1), (-1, 1), (1, -1), (-1, -1), (0, 1), (1, 0), (0, -1), (-1, 0), (0, 0)] {
                for order in [[0, 1, 2, 3], [2, 3, 0, 1], [1, 0, 2, 3], [0, 1, 3, 2], [1, 0, 3, 2], [3, 2, 1, 0], [2, 3, 1, 0], [3, 2, 0, 1], [0, 2, 1, 3], [2, 0, 3, 1]] {
                    if range == [true, true] || order[0] == 0 || order[0] == 2 {
                        v.push(Layout { order, tag, balance, range });
                    }
                }
            }
        }
        v
    }
}

pub struct Mint<F> {
    pub opening: Vec<F>,
    pub hint: u64,
    pub blinding: F,
    pub range: bool,
}
pub struct Spend<K: Cycle, const L: usize> {
    pub index: usize,
    pub witness: Option<relations::curve_tree_prover::CurveTreeWitnessPath<L, K::P0, K::P1>>,
    pub value: K::F0,
    pub tag: K::F0,
    pub claimed_tag: K::F0,
    pub blinding: K::F0,
    pub keep_commitment: bool,
}
pub struct Plan<K: Cycle, C: CurveGroup, const L: usize> {
    pub mints: [Mint<K::F0>; 2],
    pub spends: [Spend<K, L>; 2],
    pub pks: [PublicKey<C>; 2],
}

pub fn sign<C: CurveGroup, R: Rng>(sig: &SigParams<C>, sk: &SecretKey<C>, randomness: Option<&C::ScalarField>, msg: &[u8], rng: &mut R) -> Signature<C> {
    let s = Schnorr::<C, Blake2s256>::sign(sig, sk, msg, rng).unwrap();
    match randomness {
        Some(r) => Schnorr::<C, Blake2s256>::randomize_signature(sig, &s, &bytes_of(r)).unwrap(),
        None => s,
    }
}

pub fn bytes_of<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_compressed(&mut b).unwrap();
    b
}

/// the wire form of a transaction
pub fn assemble_bytes<C: CurveGroup>(s0: &Signature<C>, s1: &Signature<C>, pour: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    for s in [&s0.prover_response, &s0.verifier_challenge, &s1.prover_response, &s1.verifier_challenge] {
        s.serialize_compressed(&mut b).unwrap();
    }
    b.extend((pour.len() as u64).to_le_bytes());
    b.extend(pour);
    b
}

pub fn assemble<K: Cycle, C: CurveGroup>(s0: &Signature<C>, s1: &Signature<C>, pour: &[u8]) -> Tx<K, C> {
    Tx::<K, C>::deserialize_compressed(assemble_bytes::<C>(s0, s1, pour).as_slice()).expect("a transaction put together from its parts decodes")
}

/// Independent check of a rerandomized signature: challenge = H(salt, response*G + challenge*pk, message).
pub fn signature_holds<C: CurveGroup>(sig: &SigParams<C>, pk: &PublicKey<C>, msg: &[u8], s: &Signature<C>) -> bool {
    use blake2::Digest;
    let r = (sig.generator * s.prover_response + *pk * s.verifier_challenge).into_affine();
    let mut h = vec![];
    h.extend(sig.salt);
    h.extend(bytes_of(&r));
    h.extend((msg.len() as u64).to_le_bytes());
    h.extend(msg);
    use ark_ff::Field;
    C::ScalarField::from_random_bytes(&Blake2s256::digest(&h)) == Some(s.verifier_challenge)
}

/// the tag of a key: its compressed encoding hashed to 512 bits, reduced little-endian
pub fn tag_of<K: Cycle, C: CurveGroup>(pk: &PublicKey<C>) -> K::F0 {
    use sha3::{Digest, Sha3_512};
    let h = Sha3_512::digest(&bytes_of(pk));
    // Horner, byte by byte from the top
    let mut acc = K::F0::from(0u64);
    let base = K::F0::from(256u64);
    for b in h.iter().rev() {
        acc = acc * base + K::F0::from(*b as u64);
    }
    acc
}

/// value * G_0 + tag * G_1 + blinding * B_blinding by double-and-add
pub fn coin_commitment<K: Cycle>(p: &Params<K>, value: K::F0, tag: &K::F0, blinding: &K::F0) -> Leaf<K> {
    let g: Vec<_> = p.even_parameters.bp_gens.share(0).G(2).copied().collect();
    naive_msm::<K::P0>(&[g[0], g[1], p.even_parameters.pc_gens.B_blinding], &[value, *tag, *blinding]).into_affine()
}

pub fn random_split<R: Rng>(total: u128, rng: &mut R) -> (u64, u64) {
    let lo = total.saturating_sub(u64::MAX as u128);
    let hi = total.min(u64::MAX as u128);
    let a = match rng.gen_range(0..4) {
        0 => lo,
        1 => hi,
        _ => lo + (rng.gen::<u128>() % (hi - lo + 1)),
    };
    (a as u64, (total - a) as u64)
}

pub fn edge_u64<R: Rng>(rng: &mut R) -> u64 {
    match rng.gen_range(0..10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => 1 << 63,
        5 => 1 << 32,
        6 => (1 << 32) - 1,
        7 => rng.gen_range(0..1000),
        _ => rng.gen(),
    }
}

pub fn rand_scalar_nonzero<C: CurveGroup, R: Rng>(rng: &mut R) -> C::ScalarField {
    use ark_ff::Zero;
    loop {
        let x = C::ScalarField::rand(rng);
        if !x.is_zero() {
            return x;
        }
    }
}

pub fn infinity<C: CurveGroup>() -> PublicKey<C> {
    C::Affine::zero()
}

/// the scalar by which randomness shifts a secret key
pub fn randomizer<C: CurveGroup>(sig: &SigParams<C>, randomness: &C::ScalarField) -> C::ScalarField {
    use ark_ff::{One, Zero};
    let s = Signature::<C> { prover_response: C::ScalarField::zero(), verifier_challenge: -C::ScalarField::one() };
    Schnorr::<C, Blake2s256>::randomize_signature(sig, &s, &bytes_of(randomness)).unwrap().prover_response
}
