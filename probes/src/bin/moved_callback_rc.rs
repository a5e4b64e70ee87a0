// a callback that holds an Rc, of which this thread keeps another handle, must not go to another thread
use bulletproofs::r1cs::*;
use bulletproofs::PedersenGens;
use merlin::Transcript;
fn main() {
    let pc = PedersenGens::<ark_pallas::Affine>::default();
    let mut p = Prover::new(&pc, Transcript::new(b"probe"));
    let shared = std::rc::Rc::new(std::cell::Cell::new(0));
    let mine = shared.clone();
    p.specify_randomized_constraints(move |_| {
        mine.set(mine.get() + 1);
        Ok(())
    })
    .unwrap();
    std::thread::scope(|s| {
        s.spawn(move || drop(p));
        let _ = shared.clone();
    });
}
