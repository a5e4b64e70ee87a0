//! Curve trees over the four curve cycles: parameters, an independent reference tree, showing and
//! verifying membership.

use crate::cycles::*;
use crate::guard;
use ark_ec::short_weierstrass::{Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, UniformRand, Zero};
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::Rng;
use relations::curve_tree::*;
use relations::curve_tree_prover::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub trait Cycle: Send + Sync + 'static {
    type F0: PrimeField;
    type F1: PrimeField;
    type P0: Curve + Copy + SWCurveConfig<BaseField = Self::F1, ScalarField = Self::F0>;
    type P1: Curve + Copy + SWCurveConfig<BaseField = Self::F0, ScalarField = Self::F1>;
}
macro_rules! cycle {
    ($n:ident, $a:ty, $b:ty) => {
        pub struct $n;
        impl Cycle for $n {
            type F0 = Fr<$a>;
            type F1 = Fr<$b>;
            type P0 = $a;
            type P1 = $b;
        }
    };
}
cycle!(PV, PallasC, VestaC);
cycle!(VP, VestaC, PallasC);
cycle!(SQ, SecpC, SecqC);
cycle!(QS, SecqC, SecpC);

/// dispatch `f::<K>(args)` or `f::<K, consts..>(args)` over the cycles
#[macro_export]
macro_rules! on_tree {
    ($i:expr, $f:ident [ $($k:tt),* ] ( $($a:expr),* )) => {
        match $i % 4 {
            0 => $f::<$crate::tree::PV, $($k),*>($($a),*),
            1 => $f::<$crate::tree::VP, $($k),*>($($a),*),
            2 => $f::<$crate::tree::SQ, $($k),*>($($a),*),
            _ => $f::<$crate::tree::QS, $($k),*>($($a),*),
        }
    };
}

pub type Params<K> = SelRerandParameters<<K as Cycle>::P0, <K as Cycle>::P1>;
pub type Tree<K, const L: usize, const M: usize> = CurveTree<L, M, <K as Cycle>::P0, <K as Cycle>::P1>;
pub type Path<K, const L: usize> = SelectAndRerandomizePath<L, <K as Cycle>::P0, <K as Cycle>::P1>;
pub type MultiPath<K, const L: usize, const M: usize> = SelectAndRerandomizeMultiPath<L, M, <K as Cycle>::P0, <K as Cycle>::P1>;
pub type Leaf<K> = Aff<<K as Cycle>::P0>;
pub type EvenProver<'g, K> = Prover<'g, Transcript, Aff<<K as Cycle>::P0>>;
pub type OddProver<'g, K> = Prover<'g, Transcript, Aff<<K as Cycle>::P1>>;
pub type EvenProof<K> = R1CSProof<Aff<<K as Cycle>::P0>>;
pub type OddProof<K> = R1CSProof<Aff<<K as Cycle>::P1>>;

/// Parameters are built once per process and shared by all cases.
pub fn params<K: Cycle>(len: usize) -> &'static Params<K> {
    static CACHE: OnceLock<Mutex<HashMap<(TypeId, usize), &'static (dyn Any + Send + Sync)>>> = OnceLock::new();
    let mut g = CACHE.get_or_init(Default::default).lock().unwrap();
    let p = g
        .entry((TypeId::of::<K>(), len))
        .or_insert_with(|| Box::leak(Box::new(SelRerandParameters::<K::P0, K::P1>::new(len, len))));
    p.downcast_ref().unwrap()
}

/// A level of the reference tree: for each node one commitment per generator set.
pub enum Nodes<K: Cycle> {
    Even(Vec<Vec<Aff<K::P0>>>),
    Odd(Vec<Vec<Aff<K::P1>>>),
}
impl<K: Cycle> Nodes<K> {
    pub fn len(&self) -> usize {
        match self {
            Nodes::Even(v) => v.len(),
            Nodes::Odd(v) => v.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

fn ref_level<P, Q>(children: &[Vec<Aff<Q>>], delta: &Aff<Q>, gens: &[Aff<P>], l: usize, m: usize) -> Vec<Vec<Aff<P>>>
where
    P: Curve,
    Q: Curve + SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField>,
{
    children
        .chunks(l)
        .map(|ch| {
            (0..m)
                .map(|set| {
                    let xs: Vec<P::ScalarField> = ch.iter().map(|c| (c[set] + *delta).into_affine().x).collect();
                    naive_msm::<P>(&gens[set * l..set * l + xs.len()], &xs).into_affine()
                })
                .collect()
        })
        .collect()
}

/// The tree by its definition: level 0 is the leaves, each node commits to the x coordinates of
/// its shifted children.
pub fn ref_tree<K: Cycle>(leaves: &[Leaf<K>], p: &Params<K>, l: usize, m: usize, height: Option<usize>) -> Vec<Nodes<K>> {
    let ge: Vec<_> = p.even_parameters.bp_gens.share(0).G(l * m).copied().collect();
    let go: Vec<_> = p.odd_parameters.bp_gens.share(0).G(l * m).copied().collect();
    let mut levels: Vec<Nodes<K>> = vec![Nodes::Even(leaves.iter().map(|x| vec![*x; m]).collect())];
    while levels.last().unwrap().len() > 1 || levels.len() - 1 < height.unwrap_or(0) {
        let next = match levels.last().unwrap() {
            Nodes::Even(c) => Nodes::Odd(ref_level::<K::P1, K::P0>(c, &p.even_parameters.delta, &go, l, m)),
            Nodes::Odd(c) => Nodes::Even(ref_level::<K::P0, K::P1>(c, &p.odd_parameters.delta, &ge, l, m)),
        };
        levels.push(next);
    }
    levels
}

pub fn root_bytes<K: Cycle, const L: usize, const M: usize>(t: &Tree<K, L, M>) -> Vec<u8> {
    let mut o = vec![];
    for i in 0..M {
        match t {
            CurveTree::Even(n) => o.extend(point_bytes(&n.commitment(i))),
            CurveTree::Odd(n) => o.extend(point_bytes(&n.commitment(i))),
        }
    }
    o
}

/// A membership proof.
pub struct Showing<K: Cycle, const L: usize> {
    pub path: Path<K, L>,
    pub scalar: K::F0,
    pub even: EvenProof<K>,
    pub odd: OddProof<K>,
}

pub const LABEL: &[u8] = b"ctmon-membership";

pub fn show<K: Cycle, const L: usize, const M: usize, R: Rng>(t: &Tree<K, L, M>, index: usize, p: &Params<K>, rng: &mut R) -> Showing<K, L> {
    let mut ep = Prover::new(&p.even_parameters.pc_gens, Transcript::new(LABEL));
    let mut op = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(LABEL));
    let (path, scalar) = t.select_and_rerandomize_prover_gadget(index, 0, &mut ep, &mut op, p, rng);
    let even = ep.prove(&p.even_parameters.bp_gens).expect("even proof");
    let odd = op.prove(&p.odd_parameters.bp_gens).expect("odd proof");
    Showing { path, scalar, even, odd }
}

/// A showing from an arbitrary witness path (a prover that chooses its witness freely).
pub fn show_witness<K: Cycle, const L: usize, R: Rng>(w: &CurveTreeWitnessPath<L, K::P0, K::P1>, p: &Params<K>, rng: &mut R) -> Showing<K, L> {
    let mut ep = Prover::new(&p.even_parameters.pc_gens, Transcript::new(LABEL));
    let mut op = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(LABEL));
    let (path, scalar) = w.select_and_rerandomize_prover_gadget(&mut ep, &mut op, p, rng);
    let even = ep.prove(&p.even_parameters.bp_gens).expect("even proof");
    let odd = op.prove(&p.odd_parameters.bp_gens).expect("odd proof");
    Showing { path, scalar, even, odd }
}

/// The verifier of the library's tests: both gadgets, then both proofs. A panic is a rejection.
pub fn verify<K: Cycle, const L: usize, const M: usize>(t: &Tree<K, L, M>, path: &Path<K, L>, even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>) -> Result<Leaf<K>, String> {
    verify_labelled::<K, L, M>(t, path, even, odd, p, LABEL)
}

pub fn verify_labelled<K: Cycle, const L: usize, const M: usize>(t: &Tree<K, L, M>, path: &Path<K, L>, even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>, label: &'static [u8]) -> Result<Leaf<K>, String> {
    guard(|| {
        let mut ev = Verifier::new(Transcript::new(label));
        let mut ov = Verifier::new(Transcript::new(label));
        let leaf = t.select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, path.clone(), p);
        let evt = ev.verification_scalars_and_points(even).map_err(|e| format!("even: {:?}", e))?;
        let ovt = ov.verification_scalars_and_points(odd).map_err(|e| format!("odd: {:?}", e))?;
        batch_verify(vec![evt], &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
        batch_verify(vec![ovt], &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))?;
        Ok(leaf)
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)))
}

/// As `verify`, through `Verifier::verify`.
pub fn verify_single<K: Cycle, const L: usize, const M: usize>(t: &Tree<K, L, M>, path: &Path<K, L>, even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>) -> Result<Leaf<K>, String> {
    guard(|| {
        let mut ev = Verifier::new(Transcript::new(LABEL));
        let mut ov = Verifier::new(Transcript::new(LABEL));
        let leaf = t.select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, path.clone(), p);
        ev.verify(even, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
        ov.verify(odd, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))?;
        Ok(leaf)
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)))
}

/// Several showings, from several trees, in one pair of proofs.
pub fn show_all<K: Cycle, const L: usize, R: Rng>(ws: &[CurveTreeWitnessPath<L, K::P0, K::P1>], p: &Params<K>, rng: &mut R) -> (Vec<Path<K, L>>, Vec<K::F0>, EvenProof<K>, OddProof<K>) {
    let mut ep = Prover::new(&p.even_parameters.pc_gens, Transcript::new(LABEL));
    let mut op = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(LABEL));
    let (paths, scalars) = ws.iter().map(|w| w.select_and_rerandomize_prover_gadget(&mut ep, &mut op, p, rng)).unzip();
    let even = ep.prove(&p.even_parameters.bp_gens).expect("even proof");
    let odd = op.prove(&p.odd_parameters.bp_gens).expect("odd proof");
    (paths, scalars, even, odd)
}

pub fn verify_all<K: Cycle, const L: usize>(ts: &[&Tree<K, L, 1>], paths: &[Path<K, L>], even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>) -> Result<Vec<Leaf<K>>, String> {
    guard(|| {
        let mut ev = Verifier::new(Transcript::new(LABEL));
        let mut ov = Verifier::new(Transcript::new(LABEL));
        let leaves = ts.iter().zip(paths).map(|(t, path)| t.select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, path.clone(), p)).collect();
        ev.verify(even, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
        ov.verify(odd, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))?;
        Ok(leaves)
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)))
}

/// leaf + r * blinding base, by double-and-add
pub fn rerandomized<P: Curve + Copy>(leaf: &Aff<P>, r: &P::ScalarField, p: &SingleLayerParameters<P>) -> Aff<P> {
    (naive_mul::<P>(&p.pc_gens.B_blinding, r) + leaf).into_affine()
}

/// Leaves: random points, coin-like commitments, small multiples, repeats, the identity.
pub fn leaves<K: Cycle, R: Rng>(n: usize, p: &Params<K>, rng: &mut R) -> Vec<Leaf<K>> {
    let mut v: Vec<Leaf<K>> = Vec::with_capacity(n);
    for i in 0..n {
        let x = match rng.gen_range(0..12) {
            0 if i > 0 => v[rng.gen_range(0..i)],
            1 if i > 0 => -v[rng.gen_range(0..i)],
            2 => p.even_parameters.commit(&[K::F0::from(rng.gen::<u64>()), K::F0::rand(rng)], K::F0::rand(rng), 0),
            3 => p.even_parameters.commit(&[K::F0::from(rng.gen::<u64>()), K::F0::zero()], K::F0::zero(), 0),
            4 => Leaf::<K>::zero(),
            5 => Leaf::<K>::generator(),
            _ => rand_point::<K::P0, _>(rng),
        };
        v.push(x);
    }
    v
}

pub struct MultiShowing<K: Cycle, const L: usize, const M: usize> {
    pub path: MultiPath<K, L, M>,
    pub scalars: [K::F0; M],
    pub even: EvenProof<K>,
    pub odd: OddProof<K>,
}

pub fn show_multi<K: Cycle, const L: usize, const M: usize, R: Rng>(t: &Tree<K, L, M>, index: [usize; M], p: &Params<K>, rng: &mut R) -> MultiShowing<K, L, M> {
    let mut ep = Prover::new(&p.even_parameters.pc_gens, Transcript::new(LABEL));
    let mut op = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(LABEL));
    let (path, scalars) = t.batched_select_and_rerandomize_prover_gadget(index, &mut ep, &mut op, p, rng);
    let even = ep.prove(&p.even_parameters.bp_gens).expect("even proof");
    let odd = op.prove(&p.odd_parameters.bp_gens).expect("odd proof");
    MultiShowing { path, scalars, even, odd }
}

pub fn show_multi_witness<K: Cycle, const L: usize, const M: usize, R: Rng>(w: &relations::batched_curve_tree_prover::CurveTreeWitnessMultiPath<L, M, K::P0, K::P1>, p: &Params<K>, rng: &mut R) -> MultiShowing<K, L, M> {
    let mut ep = Prover::new(&p.even_parameters.pc_gens, Transcript::new(LABEL));
    let mut op = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(LABEL));
    let (path, scalars) = w.batched_select_and_rerandomize_prover_gadget(&mut ep, &mut op, p, rng);
    let even = ep.prove(&p.even_parameters.bp_gens).expect("even proof");
    let odd = op.prove(&p.odd_parameters.bp_gens).expect("odd proof");
    MultiShowing { path, scalars, even, odd }
}

pub fn verify_multi<K: Cycle, const L: usize, const M: usize>(t: &Tree<K, L, M>, path: &MultiPath<K, L, M>, even: &EvenProof<K>, odd: &OddProof<K>, p: &Params<K>) -> Result<[Leaf<K>; M], String> {
    guard(|| {
        let mut ev = Verifier::new(Transcript::new(LABEL));
        let mut ov = Verifier::new(Transcript::new(LABEL));
        let leaves = t.batched_select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, path.clone(), p);
        let evt = ev.verification_scalars_and_points(even).map_err(|e| format!("even: {:?}", e))?;
        let ovt = ov.verification_scalars_and_points(odd).map_err(|e| format!("odd: {:?}", e))?;
        batch_verify(vec![evt], &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
        batch_verify(vec![ovt], &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))?;
        Ok(leaves)
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)))
}

/// Completing a shown path with a tree's root puts that root (for several tree sets, the sum of their
/// roots) in front of the commitments of its level's parity and leaves the rest alone; the number of
/// commitments is then the tree's height.
pub fn completion<K: Cycle, const L: usize, const M: usize>(t: &Tree<K, L, M>, path: &Path<K, L>) -> Result<(), String> {
    let mut p = path.clone();
    t.select_and_rerandomize_verification_commitments(&mut p);
    let (mut even, mut odd) = (path.even_commitments.clone(), path.odd_commitments.clone());
    match t {
        relations::curve_tree::CurveTree::Even(n) => even.insert(0, n.commitment(0)),
        relations::curve_tree::CurveTree::Odd(n) => odd.insert(0, n.commitment(0)),
    }
    judge_completion(p.even_commitments == even && p.odd_commitments == odd && p.selected_commitment == path.selected_commitment, even.len() + odd.len(), t.height())
}

/// The same for a path of several members.
pub fn completion_multi<K: Cycle, const L: usize, const M: usize>(t: &Tree<K, L, M>, path: &MultiPath<K, L, M>) -> Result<(), String> {
    let mut p = path.clone();
    t.batched_select_and_rerandomize_verification_commitments(&mut p);
    let (mut even, mut odd) = (path.even_commitments.clone(), path.odd_commitments.clone());
    match t {
        relations::curve_tree::CurveTree::Even(n) => even.insert(0, (0..M).map(|i| n.commitment(i).into_group()).sum::<Projective<K::P0>>().into_affine()),
        relations::curve_tree::CurveTree::Odd(n) => odd.insert(0, (0..M).map(|i| n.commitment(i).into_group()).sum::<Projective<K::P1>>().into_affine()),
    }
    judge_completion(p.even_commitments == even && p.odd_commitments == odd && p.selected_commitments == path.selected_commitments, even.len() + odd.len(), t.height())
}

fn judge_completion(same: bool, levels: usize, height: usize) -> Result<(), String> {
    if !same {
        return Err("the completed path is not the shown path with the root in front".into());
    }
    if levels != height {
        return Err(format!("a completed path has {} levels in a tree of height {}", levels, height));
    }
    Ok(())
}
