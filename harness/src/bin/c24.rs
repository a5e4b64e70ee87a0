//! C24: no value from nothing, no spending without the key.
use ark_crypto_primitives::signature::schnorr::{SecretKey, Signature};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::R1CSProof;
use ctmon::cycles::*;
use ctmon::pour::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use rand::Rng;
use relations::coin::SpendingInfo;

const GENS: usize = 1 << 12;

fn two64<F: Field>() -> F {
    F::from(u64::MAX) + F::one()
}

/// One dishonest plan per (kind, slot); the signatures are always those a thief could make.
const KINDS: usize = 22;
const UNKNOWN: &str = "own pours not laid out as the verifier expects";
fn cheat<K: Cycle, C: CurveGroup, const L: usize>(c: &mut Case, fillers: usize, height: usize) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let kind = (c.idx as usize) % KINDS;
    let slot = (c.idx as usize / KINDS) % 2;
    let other = 1 - slot;
    let (a, b) = match kind {
        // values whose total passes 64 bits
        4 | 5 => (u64::MAX - rng.gen_range(0..1000), u64::MAX - rng.gen_range(0..1000)),
        _ => (edge_u64(rng).max(2000), edge_u64(rng).max(2000)),
    };
    let w = World::<K, L, C>::new(&[a, b, 5000, 77], 2, fillers, Some(height), GENS, rng);
    if w.learn_layout(0, 1, &mut c.sub_rng()).is_none() {
        // the library's verifier goes through a pour in a way this prover does not know
        c.count(UNKNOWN, 1);
        c.eval();
        return;
    }
    let (v0, v1) = random_split(a as u128 + b as u128, rng);
    let (to0, to1) = (rng.gen_range(0..2), rng.gen_range(0..2));
    let mut plan = w.honest_plan(0, 1, v0, to0, v1, to1, rng);
    // who signs: (secret key, randomness) per slot
    let mut signers: Vec<(C::ScalarField, Option<C::ScalarField>)> = (0..2).map(|i| (w.coins[i].sk.0, Some(w.coins[i].coin_aux.pk_randomness))).collect();
    let total = K::F0::from(a) + K::F0::from(b);
    let one = K::F0::one();
    let mut honest = false;
    let name: String = match kind {
        0 => {
            honest = true;
            "honest plan".into()
        }
        1 => {
            plan.mints[slot].opening[0] += one;
            plan.mints[slot].hint = plan.mints[slot].hint.wrapping_add(1);
            format!("output {} is one more", slot)
        }
        2 => {
            plan.mints[slot].opening[0] -= one;
            plan.mints[slot].hint = plan.mints[slot].hint.wrapping_sub(1);
            format!("output {} is one less", slot)
        }
        3 => {
            // negative output that balances the other
            let d = K::F0::from(1 + rng.gen_range(0u64..1000));
            plan.mints[slot].opening[0] = -d;
            plan.mints[slot].hint = (0u64).wrapping_sub(1 + rng.gen_range(0u64..1000));
            let rest = total + d;
            plan.mints[other].opening[0] = rest;
            plan.mints[other].hint = a.wrapping_add(b);
            format!("output {} is negative", slot)
        }
        4 => {
            // 2^64 and the rest
            plan.mints[slot].opening[0] = two64();
            plan.mints[slot].hint = 0;
            plan.mints[other].opening[0] = total - two64::<K::F0>();
            plan.mints[other].hint = (a as u128 + b as u128 - (1u128 << 64)) as u64;
            format!("output {} is 2^64", slot)
        }
        5 => {
            plan.mints[slot].opening[0] = total;
            plan.mints[slot].hint = a.wrapping_add(b);
            plan.mints[other].opening[0] = K::F0::zero();
            plan.mints[other].hint = 0;
            format!("output {} is the whole total beyond 64 bits", slot)
        }
        6 => {
            // the range proof is about another value
            let d: u64 = rng.gen_range(1..1000);
            plan.mints[slot].opening[0] += K::F0::from(d);
            format!("output {} larger than its range proof's value", slot)
        }
        7 => {
            plan.mints[slot].range = false;
            format!("output {} without range constraints", slot)
        }
        8 => {
            // claims more than the coin holds
            plan.spends[slot].value += one;
            plan.mints[other].opening[0] += one;
            plan.mints[other].hint = plan.mints[other].hint.wrapping_add(1);
            plan.spends[slot].keep_commitment = false;
            format!("input {} claims one more than its coin", slot)
        }
        9 => {
            // the same without touching the path: the commitment in the transaction is the path's
            plan.spends[slot].value += one;
            plan.spends[slot].keep_commitment = false;
            plan.spends[other].value -= one;
            plan.spends[other].keep_commitment = false;
            "value moved between the inputs' claims".into()
        }
        10 | 11 => {
            // a coin that is not in the tree; its own leaf index is used for the path
            let (coin, comm) = CoinOf::<K, C>::new(w.coins[slot].coin_aux.value + 5, &w.owners[0].pk, &w.sig, &w.p.even_parameters, rng);
            let s = &mut plan.spends[slot];
            s.value = K::F0::from(coin.value);
            s.tag = coin.tag;
            s.claimed_tag = coin.tag;
            s.blinding = coin.blinding;
            s.keep_commitment = false;
            if kind == 11 {
                // the path's witness shows the foreign coin as the child
                let mut wit = w.tree.select_and_rerandomize_prover_witness(s.index, 0, w.p);
                wit.odd_internal_nodes.last_mut().unwrap().child_witness = comm;
                s.witness = Some(wit);
                s.keep_commitment = true;
            }
            let rpk = CoinOf::<K, C>::rerandomized_pk(&w.owners[0].pk, &coin.pk_randomness, &w.sig);
            plan.pks[slot] = rpk;
            signers[slot] = (w.owners[0].sk.0, Some(coin.pk_randomness));
            plan.mints[slot].opening[0] += K::F0::from(5u64);
            plan.mints[slot].hint = plan.mints[slot].hint.wrapping_add(5);
            if plan.mints[slot].hint < 5 {
                // keep the output in range
                plan.mints[slot].opening[0] -= K::F0::from(5u64);
                plan.mints[slot].hint = plan.mints[slot].hint.wrapping_sub(5);
                plan.mints[other].opening[0] += K::F0::from(5u64);
                plan.mints[other].hint = plan.mints[other].hint.wrapping_add(5);
            }
            format!("input {} is a coin outside the tree", slot)
        }
        12 => {
            // thief: path and opening of the victim's coin, key of the thief
            let thief = &w.owners[1 - w.owner_of[slot]];
            plan.pks[slot] = thief.pk;
            signers[slot] = (thief.sk.0, None);
            format!("input {} with the thief's key, tag constraint kept", slot)
        }
        13 => {
            let thief = &w.owners[1 - w.owner_of[slot]];
            plan.pks[slot] = thief.pk;
            plan.spends[slot].claimed_tag = tag_of::<K, C>(&thief.pk);
            signers[slot] = (thief.sk.0, None);
            format!("input {} with the thief's key and tag claim", slot)
        }
        14 => {
            let thief = &w.owners[1 - w.owner_of[slot]];
            plan.pks[slot] = thief.pk;
            plan.spends[slot].claimed_tag = tag_of::<K, C>(&thief.pk);
            plan.spends[slot].tag = plan.spends[slot].claimed_tag;
            plan.spends[slot].keep_commitment = false;
            signers[slot] = (thief.sk.0, None);
            format!("input {} reopened to the thief's tag", slot)
        }
        15 => {
            // the owner's key without the coin's randomness
            plan.pks[slot] = w.owners[w.owner_of[slot]].pk;
            signers[slot].1 = None;
            format!("input {} with the owner's unrandomized key", slot)
        }
        16 => {
            plan.pks.swap(0, 1);
            signers.swap(0, 1);
            "keys exchanged".into()
        }
        17 => {
            // the signature of the thief
            let thief = &w.owners[1 - w.owner_of[slot]];
            signers[slot].0 = thief.sk.0;
            format!("signature {} by another key", slot)
        }
        18 => {
            signers[slot].1 = None;
            format!("signature {} not rerandomized", slot)
        }
        19 => {
            signers[slot] = signers[other];
            format!("both signatures by the owner of input {}", other)
        }
        20 => {
            // one coin twice
            let i = slot;
            plan = w.honest_plan(i, i, 0, to0, 0, to1, rng);
            let (x, y) = random_split(2 * w.coins[i].coin_aux.value as u128, rng);
            for (m, v) in plan.mints.iter_mut().zip([x, y]) {
                m.opening[0] = K::F0::from(v);
                m.hint = v;
            }
            signers = vec![signers[i]; 2];
            format!("coin {} spent as both inputs", i)
        }
        _ => {
            // the claim trades value for tag
            plan.spends[slot].value += one;
            plan.spends[slot].tag -= one;
            plan.spends[slot].keep_commitment = false;
            plan.mints[slot].opening[0] += one;
            plan.mints[slot].hint = plan.mints[slot].hint.wrapping_add(1);
            format!("input {} opened with value and tag shifted", slot)
        }
    };
    let what = format!("{} L={} height={} {}", K::P0::NAME, L, w.tree.height(), name);
    c.describe(what.clone());
    c.distinct(&what);
    let pour = w.pour_plan(&plan, rng);
    let b = bytes_of(&pour);
    let s: Vec<_> = signers.iter().map(|(sk, r)| w.sign(&SecretKey(*sk), r.as_ref(), &b, rng)).collect();
    let tx = assemble::<K, C>(&s[0], &s[1], &b);
    let v = w.verify(&tx);
    c.check(v.is_ok() == honest, || if honest { format!("an honest pour was rejected: {:?}", v) } else { format!("accepted: {}", name) });
    c.count(if honest { "honest controls accepted" } else { "dishonest pours rejected" }, 1);
    c.sample(|| what);
}

/// Mutations of a valid pour, signed afresh with the right keys: the proofs must catch them.
fn resigned<K: Cycle, C: CurveGroup, const L: usize>(c: &mut Case, fillers: usize, height: usize) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let (a, b) = (edge_u64(rng), edge_u64(rng));
    let w = World::<K, L, C>::new(&[a, b, 40, 50], 2, fillers, Some(height), GENS, rng);
    let (v0, v1) = random_split(a as u128 + b as u128, rng);
    let tx = w.pour(0, 1, v0, 0, v1, 1, rng);
    // a second transaction with the same coins and values
    let tx2 = w.pour(0, 1, v0, 0, v1, 1, rng);
    let good = PourOf::<K, C, L>::deserialize_compressed(&tx.pour_bytes[..]).unwrap();
    let second = PourOf::<K, C, L>::deserialize_compressed(&tx2.pour_bytes[..]).unwrap();
    c.describe(format!("{} L={} height={}", K::P0::NAME, L, w.tree.height()));
    c.check(w.verify(&w.signed(&good, 0, 1, rng)).is_ok(), || "an honest pour signed again was rejected".into());
    let mut muts: Vec<(String, PourOf<K, C, L>)> = vec![];
    macro_rules! m {
        ($n:expr, |$p:ident| $e:expr) => {{
            let mut $p = good.clone();
            $e;
            muts.push(($n.to_string(), $p));
        }};
    }
    let h = w.p.even_parameters.pc_gens.B_blinding;
    let ho = w.p.odd_parameters.pc_gens.B_blinding;
    m!("minted 0 rerandomized", |p| p.minted_coin_commitment_0 = (p.minted_coin_commitment_0 + h).into_affine());
    m!("minted 1 rerandomized", |p| p.minted_coin_commitment_1 = (p.minted_coin_commitment_1 + h).into_affine());
    m!("minted commitments exchanged", |p| std::mem::swap(&mut p.minted_coin_commitment_0, &mut p.minted_coin_commitment_1));
    m!("minted 0 doubled", |p| p.minted_coin_commitment_1 = p.minted_coin_commitment_0);
    m!("minted 0 negated", |p| p.minted_coin_commitment_0 = -p.minted_coin_commitment_0);
    m!("minted 1 zero", |p| p.minted_coin_commitment_1 = Leaf::<K>::zero());
    m!("minted value plus one", |p| {
        let g0 = *w.p.even_parameters.bp_gens.share(0).G(1).next().unwrap();
        p.minted_coin_commitment_0 = (p.minted_coin_commitment_0 + g0).into_affine()
    });
    m!("minted values moved", |p| {
        let g0 = *w.p.even_parameters.bp_gens.share(0).G(1).next().unwrap();
        p.minted_coin_commitment_0 = (p.minted_coin_commitment_0 + g0).into_affine();
        p.minted_coin_commitment_1 = (p.minted_coin_commitment_1 - g0).into_affine()
    });
    m!("minted owner changed", |p| {
        let g1 = *w.p.even_parameters.bp_gens.share(0).G(2).nth(1).unwrap();
        p.minted_coin_commitment_1 = (p.minted_coin_commitment_1 + g1).into_affine()
    });
    m!("paths exchanged", |p| std::mem::swap(&mut p.randomized_path_0, &mut p.randomized_path_1));
    m!("paths and keys exchanged", |p| {
        std::mem::swap(&mut p.randomized_path_0, &mut p.randomized_path_1);
        std::mem::swap(&mut p.pk0, &mut p.pk1)
    });
    m!("path 0 twice", |p| p.randomized_path_1 = p.randomized_path_0.clone());
    m!("keys exchanged", |p| std::mem::swap(&mut p.pk0, &mut p.pk1));
    m!("key 0 replaced", |p| p.pk0 = w.owners[0].pk);
    m!("key 1 replaced", |p| p.pk1 = w.coins[2].randomized_pk);
    m!("key 1 negated", |p| p.pk1 = (-p.pk1.into_group()).into_affine());
    m!("selected 0 shifted", |p| p.randomized_path_0.selected_commitment = (p.randomized_path_0.selected_commitment + h).into_affine());
    m!("selected 1 shifted", |p| p.randomized_path_1.selected_commitment = (p.randomized_path_1.selected_commitment + h).into_affine());
    m!("selected exchanged", |p| std::mem::swap(&mut p.randomized_path_0.selected_commitment, &mut p.randomized_path_1.selected_commitment));
    m!("selected value plus one", |p| {
        let g0 = *w.p.even_parameters.bp_gens.share(0).G(1).next().unwrap();
        p.randomized_path_0.selected_commitment = (p.randomized_path_0.selected_commitment + g0).into_affine()
    });
    m!("even proof of the second pour", |p| p.even_proof = second.even_proof.clone());
    m!("odd proof of the second pour", |p| p.odd_proof = second.odd_proof.clone());
    m!("both proofs of the second pour", |p| {
        p.even_proof = second.even_proof.clone();
        p.odd_proof = second.odd_proof.clone()
    });
    m!("path 0 of the second pour", |p| p.randomized_path_0 = second.randomized_path_0.clone());
    m!("path 1 of the second pour", |p| p.randomized_path_1 = second.randomized_path_1.clone());
    m!("minted 0 of the second pour", |p| p.minted_coin_commitment_0 = second.minted_coin_commitment_0);
    m!("minted 1 of the second pour", |p| p.minted_coin_commitment_1 = second.minted_coin_commitment_1);
    m!("spends of the second pour, mints kept", |p| {
        p = second.clone();
        p.minted_coin_commitment_0 = good.minted_coin_commitment_0;
        p.minted_coin_commitment_1 = good.minted_coin_commitment_1
    });
    for i in 0..good.randomized_path_0.odd_commitments.len() {
        m!(format!("odd node {} of path 0 shifted", i), |p| p.randomized_path_0.odd_commitments[i] = (p.randomized_path_0.odd_commitments[i] + ho).into_affine());
        m!(format!("odd node {} of path 1 of the second pour", i), |p| p.randomized_path_1.odd_commitments[i] = second.randomized_path_1.odd_commitments[i]);
    }
    for i in 0..good.randomized_path_0.even_commitments.len() {
        m!(format!("even node {} of path 1 shifted", i), |p| p.randomized_path_1.even_commitments[i] = (p.randomized_path_1.even_commitments[i] + h).into_affine());
        m!(format!("even node {} of path 0 of the second pour", i), |p| p.randomized_path_0.even_commitments[i] = second.randomized_path_0.even_commitments[i]);
    }
    let total = muts.len();
    // the slow part is verification; a rotating third per case
    for (k, (name, p)) in muts.into_iter().enumerate() {
        if (k as u64 + c.idx) % 3 != 0 {
            continue;
        }
        let before = bytes_of(&good);
        let b = bytes_of(&p);
        if b == before {
            continue;
        }
        // the keys named in the pour sign
        let keyed = |pk: &C::Affine, d: usize| -> (C::ScalarField, Option<C::ScalarField>) {
            for x in &w.coins {
                if x.randomized_pk == *pk {
                    return (x.sk.0, Some(x.coin_aux.pk_randomness));
                }
            }
            for o in &w.owners {
                if o.pk == *pk {
                    return (o.sk.0, None);
                }
            }
            for x in &w.coins {
                if (-x.randomized_pk.into_group()).into_affine() == *pk {
                    return (-(x.sk.0 + randomizer(&w.sig, &x.coin_aux.pk_randomness)), None);
                }
            }
            (w.coins[d].sk.0, None)
        };
        let (k0, r0) = keyed(&p.pk0, 0);
        let (k1, r1) = keyed(&p.pk1, 1);
        let s0 = w.sign(&SecretKey(k0), r0.as_ref(), &b, rng);
        let s1 = w.sign(&SecretKey(k1), r1.as_ref(), &b, rng);
        if !signature_holds(&w.sig, &p.pk0, &b, &s0) || !signature_holds(&w.sig, &p.pk1, &b, &s1) {
            c.fail(format!("{}: the harness could not sign", name));
            continue;
        }
        let v = w.verify(&assemble::<K, C>(&s0, &s1, &b));
        c.check(v.is_err(), || format!("accepted with valid signatures: {}", name));
        c.distinct(&format!("{} {}", K::P0::NAME, name));
        c.count("changed and signed pours rejected", 1);
    }
    // proofs changed in one component, signed
    for _ in 0..4 {
        let mut p = good.clone();
        let mut name = String::new();
        let even = rng.gen::<bool>();
        let mut mutate = |b: &mut Vec<u8>| {
            let i = rng.gen_range(0..b.len());
            b[i] ^= 1 << rng.gen_range(0..8);
            name = format!("bit flip at byte {} of the {} proof", i, if even { "even" } else { "odd" });
        };
        if even {
            let mut b = bytes_of(&p.even_proof);
            mutate(&mut b);
            match R1CSProof::deserialize_compressed(&b[..]) {
                Ok(x) => p.even_proof = x,
                Err(_) => continue,
            }
        } else {
            let mut b = bytes_of(&p.odd_proof);
            mutate(&mut b);
            match R1CSProof::deserialize_compressed(&b[..]) {
                Ok(x) => p.odd_proof = x,
                Err(_) => continue,
            }
        }
        // bits that the point encoding ignores give the same proof
        if bytes_of(&p) == bytes_of(&good) {
            continue;
        }
        let v = w.verify(&w.signed(&p, 0, 1, rng));
        c.check(v.is_err(), || format!("accepted with valid signatures: {}", name));
        c.count("changed and signed pours rejected", 1);
    }
    c.sample(|| format!("{} mutations of a pour over {}", total, K::P0::NAME));
    // other tree, other label, other signature parameters
    let mut set = w.set.clone();
    let k = (w.coins[2].index + 1) % set.len();
    set[k] = rand_point::<K::P0, _>(rng);
    let tree = Tree::<K, L, 1>::from_set(&set, w.p, Some(w.tree.height()));
    if set[w.coins[0].index] == w.set[w.coins[0].index] && set[w.coins[1].index] == w.set[w.coins[1].index] {
        c.check(w.verify_with(&tx, &tree, &w.sig, POUR).is_err(), || "accepted against another tree".into());
    }
    c.check(w.verify_with(&tx, &w.tree, &w.sig, b"another pour").is_err(), || "accepted under another domain".into());
    let mut sig = w.sig.clone();
    sig.salt[3] ^= 1;
    c.check(w.verify_with(&tx, &w.tree, &sig, POUR).is_err(), || "accepted under another salt".into());
}

/// The answer of the signature check, whatever its form.
trait Verdict {
    fn ok(self) -> bool;
}
impl Verdict for () {
    fn ok(self) -> bool {
        true
    }
}
impl Verdict for bool {
    fn ok(self) -> bool {
        self
    }
}
impl<T: Verdict, E> Verdict for Result<T, E> {
    fn ok(self) -> bool {
        self.map_or(false, |t| t.ok())
    }
}

/// Signatures and bytes of a signed transaction.
fn signatures<K: Cycle, C: CurveGroup, const L: usize>(c: &mut Case, fillers: usize, height: usize) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let w = World::<K, L, C>::new(&[100, 200, 300], 2, fillers, Some(height), GENS, rng);
    let a = w.pour(0, 1, 50, 0, 250, 1, rng);
    let b = w.pour(1, 2, 250, 1, 250, 0, rng);
    let good = PourOf::<K, C, L>::deserialize_compressed(&a.pour_bytes[..]).unwrap();
    c.describe(format!("{} L={} height={}", K::P0::NAME, L, w.tree.height()));
    let check = |tx: &Tx<K, C>, pk0: &C::Affine, pk1: &C::Affine| guard(|| tx.verify_signatures(&w.sig, pk0, pk1).ok()).unwrap_or(false);
    c.check(check(&a, &good.pk0, &good.pk1), || "honest signatures were rejected".into());
    let f = |t: &Tx<K, C>| {
        (
            Signature::<C> { prover_response: t.signature_prover_response_0, verifier_challenge: t.signature_verifier_challenge_0 },
            Signature::<C> { prover_response: t.signature_prover_response_1, verifier_challenge: t.signature_verifier_challenge_1 },
        )
    };
    let ((a0, a1), (b0, b1)) = (f(&a), f(&b));
    let z = C::ScalarField::zero();
    let one = C::ScalarField::one();
    let sg = |r, e| Signature::<C> { prover_response: r, verifier_challenge: e };
    let honest = [a0.clone(), a1.clone()];
    let foreign = w.sign(&w.owners[0].sk, None, b"something else", rng);
    // forged signatures per slot
    let mut list: Vec<(String, Signature<C>, Signature<C>)> = vec![];
    for slot in 0..2 {
        let h = &honest[slot];
        let variants = vec![
            ("zero", sg(z, z)),
            ("response zero", sg(z, h.verifier_challenge)),
            ("challenge zero", sg(h.prover_response, z)),
            ("response plus one", sg(h.prover_response + one, h.verifier_challenge)),
            ("challenge plus one", sg(h.prover_response, h.verifier_challenge + one)),
            ("negated", sg(-h.prover_response, -h.verifier_challenge)),
            ("parts exchanged", sg(h.verifier_challenge, h.prover_response)),
            ("random", sg(C::ScalarField::rand(rng), C::ScalarField::rand(rng))),
            ("of the other input", honest[1 - slot].clone()),
            ("first of another pour", b0.clone()),
            ("second of another pour", b1.clone()),
            ("over another message", foreign.clone()),
        ];
        for (n, s) in variants {
            let (x, y) = if slot == 0 { (s, a1.clone()) } else { (a0.clone(), s) };
            list.push((format!("signature {} {}", slot, n), x, y));
        }
    }
    list.push(("signatures exchanged".into(), a1.clone(), a0.clone()));
    list.push(("signatures of another pour".into(), b0.clone(), b1.clone()));
    list.push(("both zero".into(), sg(z, z), sg(z, z)));
    for (k, (name, x, y)) in list.iter().enumerate() {
        let tx = assemble::<K, C>(x, y, &a.pour_bytes);
        c.check(!check(&tx, &good.pk0, &good.pk1), || format!("verify_signatures accepted: {}", name));
        // and through the whole verifier
        if (k as u64 + c.idx) % 4 == 0 {
            c.check(w.verify(&tx).is_err(), || format!("accepted: {}", name));
        }
        c.distinct(&format!("{} {}", K::P0::NAME, name));
        c.count("forged signatures rejected", 1);
    }
    // valid signatures with other keys
    for (n, p0, p1) in [("keys exchanged", good.pk1, good.pk0), ("first key twice", good.pk0, good.pk0), ("second key twice", good.pk1, good.pk1), ("plain keys", w.owners[0].pk, w.owners[1].pk), ("identity keys", infinity::<C>(), infinity::<C>())] {
        c.check(!check(&a, &p0, &p1), || format!("verify_signatures accepted: {}", n));
    }
    // parts of two transactions
    let pb = PourOf::<K, C, L>::deserialize_compressed(&b.pour_bytes[..]).unwrap();
    c.check(w.verify(&assemble::<K, C>(&a0, &a1, &b.pour_bytes)).is_err(), || "accepted: pour of another transaction".into());
    let _ = pb;
    // every byte of the message is signed: bits of the pour's bytes
    for _ in 0..120 {
        let mut m = a.pour_bytes.clone();
        let i = rng.gen_range(0..m.len());
        m[i] ^= 1 << rng.gen_range(0..8);
        let tx = assemble::<K, C>(&a0, &a1, &m);
        c.check(!check(&tx, &good.pk0, &good.pk1), || format!("signatures accepted over a pour changed at byte {}", i));
        c.count("changed messages rejected", 1);
    }
    for (n, m) in [("truncated", a.pour_bytes[..a.pour_bytes.len() - 1].to_vec()), ("extended", [&a.pour_bytes[..], &[0]].concat()), ("empty", vec![])] {
        let tx = assemble::<K, C>(&a0, &a1, &m);
        c.check(w.verify(&tx).is_err(), || format!("accepted with the pour {}", n));
    }
    // bytes of the whole transaction through decoder and verifier
    let enc = bytes_of(&a);
    for _ in 0..12 {
        let mut m = enc.clone();
        // signatures are short: half of the flips go there
        let i = if rng.gen() { rng.gen_range(0..m.len() - a.pour_bytes.len()) } else { rng.gen_range(0..m.len()) };
        let x = 1 << rng.gen_range(0..8);
        m[i] ^= x;
        match Tx::<K, C>::deserialize_compressed(&m[..]) {
            Err(_) => {
                c.eval();
                c.count("changed transactions rejected in decoding", 1);
            }
            Ok(tx) => {
                c.check(w.verify(&tx).is_err(), || format!("accepted with byte {} changed by {:#x}", i, x));
                c.count("changed transactions rejected in verification", 1);
            }
        }
    }
    c.sample(|| format!("{} forged signature pairs over {}", list.len(), K::P0::NAME));
}

/// The library's own prover used dishonestly: other values, other coins, other keys.
fn misuse<K: Cycle, C: CurveGroup, const L: usize>(c: &mut Case, fillers: usize, height: usize) {
    let mut rng = c.sub_rng();
    let rng = &mut rng;
    let (a, b) = (edge_u64(rng).max(3000), edge_u64(rng).max(3000));
    let w = World::<K, L, C>::new(&[a, b], 2, fillers, Some(height), GENS, rng);
    let (v0, v1) = random_split(a as u128 + b as u128, rng);
    let (mut i, mut j) = (info_copy::<K, C>(&w.coins[0]), info_copy::<K, C>(&w.coins[1]));
    let (mut x, mut y) = (v0, v1);
    let name = match c.idx % 8 {
        0 => {
            x = x.wrapping_add(1);
            "one more in output 0"
        }
        1 => {
            y = y.wrapping_sub(1);
            "one less in output 1"
        }
        2 => {
            x = a;
            y = a.wrapping_add(b);
            if x as u128 + y as u128 == a as u128 + b as u128 {
                y = y.wrapping_add(1);
            }
            "wrapped total"
        }
        3 => {
            let t = 1 - w.owner_of[0];
            i.sk = SecretKey(w.owners[t].sk.0);
            "first input signed by the other owner"
        }
        4 => {
            let t = 1 - w.owner_of[1];
            j.sk = SecretKey(w.owners[t].sk.0);
            "second input signed by the other owner"
        }
        5 => {
            let t = 1 - w.owner_of[0];
            i.randomized_pk = w.owners[t].pk;
            i.sk = SecretKey(w.owners[t].sk.0);
            "first input claimed by the other owner"
        }
        6 => {
            let t = 1 - w.owner_of[1];
            let r = rand_scalar_nonzero::<C, _>(rng);
            j.randomized_pk = CoinOf::<K, C>::rerandomized_pk(&w.owners[t].pk, &r, &w.sig);
            j.sk = SecretKey(w.owners[t].sk.0);
            j.coin_aux.pk_randomness = r;
            "second input claimed by the other owner with its own randomness"
        }
        _ => {
            j = SpendingInfo { index: i.index, coin_aux: coin_copy::<K, C>(&i.coin_aux), randomized_pk: i.randomized_pk, sk: SecretKey(i.sk.0) };
            let (p, q) = random_split(2 * a as u128, rng);
            x = p;
            y = q;
            "one coin as both inputs"
        }
    };
    let what = format!("{} L={} height={} {}", K::P0::NAME, L, w.tree.height(), name);
    c.describe(what.clone());
    c.distinct(&what);
    match guard(|| w.pour_infos(&i, &j, x, 0, y, 1, rng)) {
        Err(_) => {
            c.eval();
            c.count("refused by the prover", 1);
        }
        Ok(tx) => {
            c.check(w.verify(&tx).is_err(), || format!("accepted: {}", name));
            c.count("dishonest pours rejected", 1);
        }
    }
}

fn main() {
    let mut r = Report::new(
        "C24",
        "Pours made by a prover that follows a freely chosen plan (values off by one, negative, wrapped, beyond the range, without range constraints, claims that differ from the coin, foreign coins with replaced commitment or forged witness, thief's keys with and without forged tags, one coin twice), each per slot and with the best signatures the cheat could make; valid pours changed in one part and signed again by the right keys; forged and exchanged signatures judged alone and in the whole verifier; bit flips of the signed message and of the encoded transaction; the library's prover called with dishonest inputs. Controls: the honest plan and the honest pour signed again are accepted. Distinct = curve, tree and attack.",
    );
    r.assume("double spending across transactions is the ledger's business and not part of the library");
    let on = |c: &mut Case, which: usize| {
        let (f, h) = [(1, 1), (3, 2), (2, 2)][(c.idx % 3) as usize];
        macro_rules! go {
            ($f:ident) => {
                match (c.idx / 3) % 4 {
                    0 => $f::<PV, Proj<PallasC>, 4>(c, f, h),
                    1 => $f::<VP, Proj<PallasC>, 4>(c, f, h),
                    2 => $f::<SQ, Proj<SecpC>, 4>(c, f, h),
                    _ => $f::<QS, Proj<VestaC>, 4>(c, f, h),
                }
            };
        }
        match which {
            0 => go!(cheat),
            1 => go!(resigned),
            2 => go!(signatures),
            _ => go!(misuse),
        }
    };
    r.stage("cheat", 2 * KINDS as u64, 60 * KINDS as u64, |c| on(c, 0));
    r.stage("resigned", 12, 400, |c| on(c, 1));
    r.stage("signatures", 8, 400, |c| on(c, 2));
    r.stage("misuse", 16, 640, |c| on(c, 3));
    r.require_unless("honest controls accepted", 2, UNKNOWN);
    r.require_unless("dishonest pours rejected", 40, UNKNOWN);
    r.require("changed and signed pours rejected", 60);
    r.require("forged signatures rejected", 100);
    r.finish()
}
