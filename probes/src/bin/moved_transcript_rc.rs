// a transcript handle that holds an Rc, of which this thread keeps another handle, must not go to another thread
use bulletproofs::r1cs::*;
use bulletproofs::PedersenGens;
use merlin::Transcript;
struct Local(std::rc::Rc<()>, Transcript);
impl std::borrow::Borrow<Transcript> for Local {
    fn borrow(&self) -> &Transcript {
        &self.1
    }
}
impl std::borrow::BorrowMut<Transcript> for Local {
    fn borrow_mut(&mut self) -> &mut Transcript {
        let _ = self.0.clone();
        &mut self.1
    }
}
fn main() {
    let pc = PedersenGens::<ark_pallas::Affine>::default();
    let shared = std::rc::Rc::new(());
    let p = Prover::new(&pc, Local(shared.clone(), Transcript::new(b"probe")));
    std::thread::scope(|s| {
        s.spawn(move || drop(p));
        let _ = shared.clone();
    });
}
