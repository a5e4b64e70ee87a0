// provers that own their transcripts are moved to another thread and used there
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
fn main() {
    let pc = PedersenGens::<ark_pallas::Affine>::default();
    let bp = BulletproofGens::<ark_pallas::Affine>::new(4, 1);
    let p = Prover::new(&pc, Transcript::new(b"probe"));
    let q = Prover::new(&pc, Transcript::new(b"probe"));
    std::thread::scope(|s| {
        s.spawn(|| p.prove(&bp).is_ok());
        s.spawn(|| q.prove(&bp).is_ok());
    });
}
