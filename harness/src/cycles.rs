//! Curves and curve cycles the workloads run on.

use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField};
use ark_std::UniformRand;
use rand::RngCore;

/// The scalar fields in use: prime fields whose Montgomery form fits in four limbs.
pub trait Curve: SWCurveConfig + Clone + PartialEq + Send + Sync + 'static {
    const NAME: &'static str;
}

pub type PallasC = ark_pallas::PallasConfig;
pub type VestaC = ark_vesta::VestaConfig;
pub type SecpC = ark_secp256k1::Config;
pub type SecqC = ark_secq256k1::Config;

impl Curve for PallasC {
    const NAME: &'static str = "pallas";
}
impl Curve for VestaC {
    const NAME: &'static str = "vesta";
}
impl Curve for SecpC {
    const NAME: &'static str = "secp256k1";
}
impl Curve for SecqC {
    const NAME: &'static str = "secq256k1";
}

pub type Aff<P> = Affine<P>;
pub type Proj<P> = Projective<P>;
pub type Fr<P> = <P as ark_ec::CurveConfig>::ScalarField;
pub type Fq<P> = <P as ark_ec::CurveConfig>::BaseField;

/// dispatch `$f::<P>(args)` over the four curves by index
#[macro_export]
macro_rules! on_curve {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 4 {
            0 => $f::<$crate::cycles::PallasC>($($a),*),
            1 => $f::<$crate::cycles::VestaC>($($a),*),
            2 => $f::<$crate::cycles::SecpC>($($a),*),
            _ => $f::<$crate::cycles::SecqC>($($a),*),
        }
    };
}

/// dispatch `$f::<P0, P1>(args)` over the four orientations of the two cycles
#[macro_export]
macro_rules! on_cycle {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 4 {
            0 => $f::<$crate::cycles::PallasC, $crate::cycles::VestaC>($($a),*),
            1 => $f::<$crate::cycles::VestaC, $crate::cycles::PallasC>($($a),*),
            2 => $f::<$crate::cycles::SecpC, $crate::cycles::SecqC>($($a),*),
            _ => $f::<$crate::cycles::SecqC, $crate::cycles::SecpC>($($a),*),
        }
    };
}

pub fn rand_point<P: SWCurveConfig, R: RngCore>(rng: &mut R) -> Aff<P> {
    loop {
        let p = Proj::<P>::rand(rng).into_affine();
        if !p.is_zero() {
            return p;
        }
    }
}

/// A scalar from a distribution that likes edges.
pub fn edge_scalar<F: PrimeField, R: RngCore>(rng: &mut R) -> F {
    match rng.next_u32() % 16 {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2u64),
        4 => F::from(rng.next_u32() as u64 % 1000),
        5 => -F::from(rng.next_u32() as u64 % 1000),
        6 => F::from(u64::MAX),
        7 => F::from(u64::MAX) + F::one(),
        8 => F::from(u128::MAX),
        9 => F::one().double().inverse().unwrap(), // (p+1)/2
        10 => -F::one().double().inverse().unwrap(),
        11 => {
            // a power of two
            let k = rng.next_u32() % (F::MODULUS_BIT_SIZE - 1);
            F::from(2u64).pow([k as u64])
        }
        12 => {
            let k = rng.next_u32() % (F::MODULUS_BIT_SIZE - 1);
            F::from(2u64).pow([k as u64]) - F::one()
        }
        _ => F::rand(rng),
    }
}

pub fn nonzero_scalar<F: PrimeField, R: RngCore>(rng: &mut R) -> F {
    loop {
        let s = edge_scalar::<F, _>(rng);
        if !s.is_zero() {
            return s;
        }
    }
}

pub fn rand_nonzero<F: PrimeField, R: RngCore>(rng: &mut R) -> F {
    loop {
        let s = F::rand(rng);
        if !s.is_zero() {
            return s;
        }
    }
}

/// Plain double-and-add, independent of the multi-scalar multiplication code.
pub fn naive_mul<P: SWCurveConfig>(p: &Aff<P>, s: &Fr<P>) -> Proj<P> {
    let bits = s.into_bigint();
    let mut acc = Proj::<P>::default();
    let mut started = false;
    use ark_ff::BigInteger;
    use ark_ec::Group;
    for b in bits.to_bits_be() {
        if started {
            acc.double_in_place();
        }
        if b {
            acc += p;
            started = true;
        }
    }
    acc
}

/// sum of naive_mul, one term at a time
pub fn naive_msm<P: SWCurveConfig>(bases: &[Aff<P>], scalars: &[Fr<P>]) -> Proj<P> {
    let mut acc = Proj::<P>::default();
    for (b, s) in bases.iter().zip(scalars) {
        if !s.is_zero() {
            acc += naive_mul::<P>(b, s);
        }
    }
    acc
}
use ark_ff::Zero;

pub fn point_bytes<C: ark_serialize::CanonicalSerialize>(p: &C) -> Vec<u8> {
    let mut v = Vec::new();
    p.serialize_compressed(&mut v).unwrap();
    v
}
