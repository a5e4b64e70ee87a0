// a callback that owns movable values goes to another thread inside its prover
use bulletproofs::r1cs::*;
use bulletproofs::PedersenGens;
use merlin::Transcript;
fn main() {
    let pc = PedersenGens::<ark_pallas::Affine>::default();
    let mut p = Prover::new(&pc, Transcript::new(b"probe"));
    let shared = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
    let mine = shared.clone();
    p.specify_randomized_constraints(move |_| {
        mine.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(())
    })
    .unwrap();
    std::thread::scope(|s| {
        s.spawn(move || drop(p));
    });
}
