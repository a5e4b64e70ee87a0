//! C23: balanced pours prove, sign and verify; the outputs have the requested values and owners.
use ark_ec::CurveGroup;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ctmon::cycles::*;
use ctmon::pour::*;
use ctmon::report::Case;
use ctmon::tree::*;
use ctmon::*;
use rand::Rng;

const GENS: usize = 1 << 13;

fn honest<K: Cycle, C: CurveGroup, const L: usize>(c: &mut Case, cname: &str, fillers: usize, height: Option<usize>) {
    let mut rng = c.sub_rng();
    let (a, b) = (edge_u64(&mut rng), edge_u64(&mut rng));
    let owners = if c.idx % 3 == 1 { 2 + c.below(2) } else { 1 + c.below(3) };
    // a third coin that stays unspent
    let total = a as u128 + b as u128;
    // outputs of equal value as well (the total made even)
    let equal = c.idx % 3 == 1;
    let (a, total) = if equal && total % 2 == 1 { if a > 0 { (a - 1, total - 1) } else { (1, total + 1) } } else { (a, total) };
    let w = World::<K, L, C>::new(&[a, b, 7], owners, fillers, height, GENS, &mut rng);
    let (v0, v1) = if equal { ((total / 2) as u64, (total / 2) as u64) } else { random_split(total, &mut rng) };
    let to0 = c.below(owners);
    let to1 = if equal { (to0 + 1) % owners } else { c.below(owners) };
    let swap = c.coin();
    let (i, j) = if swap { (1, 0) } else { (0, 1) };
    let shape = format!("{} keys on {} L={} height={} leaves={} spend {} and {}", K::P0::NAME, cname, L, w.tree.height(), w.set.len(), w.coins[i].index, w.coins[j].index);
    let what = format!("{}: {} + {} -> {} + {}", shape, w.coins[i].coin_aux.value, w.coins[j].coin_aux.value, v0, v1);
    c.describe(what.clone());
    c.distinct(&what);
    c.count("coins spent beyond place 255", w.coins[..2].iter().filter(|x| x.index > 255).count() as u64);
    let seed = c.sub_rng();
    let tx = match guard(|| w.pour(i, j, v0, to0, v1, to1, &mut seed.clone())) {
        Ok(t) => t,
        Err(e) => return c.fail(format!("an honest pour could not be made: {}", e)),
    };
    // transaction through its encoding, both modes
    if let Err(e) = w.verify(&tx) {
        c.fail(format!("an honest pour was rejected: {}", e));
    } else {
        c.eval();
        c.count("pours verified", 1);
    }
    let mut enc = vec![];
    let compressed = c.coin();
    if compressed { tx.serialize_compressed(&mut enc).unwrap() } else { tx.serialize_uncompressed(&mut enc).unwrap() }
    match if compressed { Tx::<K, C>::deserialize_compressed(&enc[..]) } else { Tx::<K, C>::deserialize_uncompressed(&enc[..]) } {
        Ok(t2) => match w.verify(&t2) {
            Ok(()) => c.eval(),
            Err(e) => c.fail(format!("an honest pour was rejected after encoding: {}", e)),
        },
        Err(e) => c.fail(format!("an encoded transaction does not decode: {:?}", e)),
    }
    let pour = match PourOf::<K, C, L>::deserialize_compressed(&tx.pour_bytes[..]) {
        Ok(p) => p,
        Err(e) => return c.fail(format!("the pour of a transaction does not decode: {:?}", e)),
    };
    // the signatures, by their definition
    let s0 = ark_crypto_primitives::signature::schnorr::Signature { prover_response: tx.signature_prover_response_0, verifier_challenge: tx.signature_verifier_challenge_0 };
    let s1 = ark_crypto_primitives::signature::schnorr::Signature { prover_response: tx.signature_prover_response_1, verifier_challenge: tx.signature_verifier_challenge_1 };
    c.check(pour.pk0 == w.coins[i].randomized_pk && pour.pk1 == w.coins[j].randomized_pk, || "the pour names other keys than the spent coins'".into());
    c.check(signature_holds(&w.sig, &pour.pk0, &tx.pour_bytes, &s0), || "the first signature does not hold for the coin's key".into());
    c.check(signature_holds(&w.sig, &pour.pk1, &tx.pour_bytes, &s1), || "the second signature does not hold for the coin's key".into());
    // The order in which the generator is used is the library's own affair; what is required is that
    // each output opens to the requested value and a tag of a rerandomization of the requested key.
    // The openings are replayed: the coins are the generator's first ones in some order.
    let mut outputs = vec![];
    let mut replay = seed.clone();
    for (v, to) in [(v0, to0), (v1, to1)] {
        let (coin, comm) = CoinOf::<K, C>::new(v, &w.owners[to].pk, &w.sig, &w.p.even_parameters, &mut replay);
        let rpk = CoinOf::<K, C>::rerandomized_pk(&w.owners[to].pk, &coin.pk_randomness, &w.sig);
        let want = coin_commitment::<K>(w.p, K::F0::from(v), &tag_of::<K, C>(&rpk), &coin.blinding);
        c.check(want == comm, || "a coin's commitment does not open to its value and the tag of its owner's key".into());
        outputs.push((coin, comm, to));
    }
    // an output that opens otherwise: to another value, or for another owner
    for (slot, got, wanted) in [(0, pour.minted_coin_commitment_0, (v0, to0)), (1, pour.minted_coin_commitment_1, (v1, to1))] {
        let (a, b) = (w.coins[i].coin_aux.value, w.coins[j].coin_aux.value);
        for at in 0..3 {
            for v in [v0, v1, a, b, 0] {
                for to in 0..owners {
                    let mut replay = seed.clone();
                    for _ in 0..at {
                        CoinOf::<K, C>::new(1, &w.owners[0].pk, &w.sig, &w.p.even_parameters, &mut replay);
                    }
                    let (_, comm) = CoinOf::<K, C>::new(v, &w.owners[to].pk, &w.sig, &w.p.even_parameters, &mut replay);
                    if comm == got {
                        c.check((v, to) == wanted, || format!("output {} holds {} for owner {} where {} for owner {} was requested", slot, v, to, wanted.0, wanted.1));
                        c.count("outputs identified", 1);
                    }
                }
            }
        }
    }
    if outputs[0].1 == pour.minted_coin_commitment_0 && outputs[1].1 == pour.minted_coin_commitment_1 {
        c.eval();
        c.count("output coins opened", 2);
        // the outputs can be spent in turn
        if c.idx % 4 == 0 {
            let mut set = w.set.clone();
            let at = c.below(set.len() + 1);
            set.insert(at, pour.minted_coin_commitment_0);
            let at1 = set.len();
            set.push(pour.minted_coin_commitment_1);
            let tree = Tree::<K, L, 1>::from_set(&set, w.p, Some(w.tree.height()));
            let mut coins = vec![];
            for ((coin, _, to), index) in outputs.into_iter().zip([at, at1]) {
                let rpk = CoinOf::<K, C>::rerandomized_pk(&w.owners[to].pk, &coin.pk_randomness, &w.sig);
                coins.push(relations::coin::SpendingInfo { index, coin_aux: coin, randomized_pk: rpk, sk: ark_crypto_primitives::signature::schnorr::SecretKey(w.owners[to].sk.0) });
            }
            let w2 = World::<K, L, C> { p: w.p, sig: w.sig.clone(), owners: vec![Owner { pk: w.owners[0].pk, sk: ark_crypto_primitives::signature::schnorr::SecretKey(w.owners[0].sk.0) }], coins, owner_of: vec![to0, to1], set, tree };
            let (x, y) = random_split(v0 as u128 + v1 as u128, &mut rng);
            match guard(|| w2.pour(0, 1, x, 0, y, 0, &mut rng)) {
                Ok(t) => match w2.verify(&t) {
                    Ok(()) => {
                        c.eval();
                        c.count("second-generation pours verified", 1);
                    }
                    Err(e) => c.fail(format!("a pour that spends the outputs of a pour was rejected: {}", e)),
                },
                Err(e) => c.fail(format!("the outputs of a pour could not be spent: {}", e)),
            }
        }
    } else {
        c.inconclusive("the outputs are not the first two coins of the generator");
    }
    c.sample(|| what);
}

fn sizes<K: Cycle, C: CurveGroup>(c: &mut Case, cname: &str) {
    match c.idx % 7 {
        0 => honest::<K, C, 4>(c, cname, 1, Some(1)),
        1 => honest::<K, C, 256>(c, cname, 0, Some(1)),
        2 if c.idx % 2 == 0 => {
            // coins beyond the first 256 places
            let n = 500 + c.below(500);
            honest::<K, C, 4>(c, cname, n, Some(5))
        }
        2 => {
            let n = c.below(6);
            honest::<K, C, 4>(c, cname, n, Some(2))
        }
        3 => {
            let n = [30, 400, 900][c.below(3)];
            honest::<K, C, 32>(c, cname, n, Some(2))
        }
        4 => {
            let n = c.below(6);
            honest::<K, C, 3>(c, cname, n, Some(3))
        }
        5 => {
            let n = c.below(4);
            honest::<K, C, 2>(c, cname, n, Some(3))
        }
        _ => {
            let h = c.rng.gen_range(4..=6);
            honest::<K, C, 2>(c, cname, 2, Some(h))
        }
    }
}

fn main() {
    let mut r = Report::new(
        "C23",
        "Honest pours over four curve orientations with keys on the same and on other curves, branching factors 2..256, heights 1..4, edge and random 64-bit values and splits whose total may exceed 64 bits, one or several owners, both orders of inputs. Oracles: verdict of the transaction as made and through its encoding; each signature by the definition of the scheme; each output opened by naive arithmetic to the requested value and the tag of the requested key; outputs put into a tree and spent again. Distinct = configuration and values.",
    );
    let f = |c: &mut Case| match c.idx % 5 {
        0 => sizes::<PV, Proj<PallasC>>(c, "pallas"),
        1 => sizes::<VP, Proj<PallasC>>(c, "pallas"),
        2 => sizes::<SQ, Proj<SecpC>>(c, "secp256k1"),
        3 => sizes::<QS, Proj<VestaC>>(c, "vesta"),
        _ => sizes::<PV, Proj<SecpC>>(c, "secp256k1"),
    };
    r.stage("honest", 35, 1400, f);
    r.require("pours verified", 20);
    r.require("output coins opened", 20);
    r.require("outputs identified", 40);
    r.require("coins spent beyond place 255", 3);
    r.finish()
}
