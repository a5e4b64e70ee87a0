//! Random constraint systems as data: generated with their witness, replayed through the real
//! prover and verifier, and judged by a plain evaluation of the constraints.

use crate::cycles::*;
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ff::{Field, PrimeField};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use rand::{Rng, RngCore};
use std::sync::Arc;

/// A polynomial in the challenge of the current callback (a constant before the challenge phase).
pub type Poly<F> = Vec<F>;

pub fn padd<F: Field>(a: &Poly<F>, b: &Poly<F>) -> Poly<F> {
    let mut r = vec![F::zero(); a.len().max(b.len())];
    for (i, x) in a.iter().enumerate() {
        r[i] += x;
    }
    for (i, x) in b.iter().enumerate() {
        r[i] += x;
    }
    r
}
pub fn pmul<F: Field>(a: &Poly<F>, b: &Poly<F>) -> Poly<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    r
}
pub fn pneg<F: Field>(a: &Poly<F>) -> Poly<F> {
    a.iter().map(|x| -*x).collect()
}
pub fn peval<F: Field>(a: &Poly<F>, x: &F) -> F {
    let mut r = F::zero();
    for c in a.iter().rev() {
        r = r * x + c;
    }
    r
}
pub fn pzero<F: Field>(a: &Poly<F>) -> bool {
    a.iter().all(|x| x.is_zero())
}

/// handle of a variable, in order of creation; None is the constant one
pub type Handle = Option<usize>;

#[derive(Clone, Debug, PartialEq)]
pub struct Lin<F: Field> {
    pub terms: Vec<(Handle, Poly<F>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op<F: Field> {
    Commit(F, F),
    CommitVec(Vec<F>, F),
    Mul(Lin<F>, Lin<F>),
    Alloc(Poly<F>),
    AllocMul(Poly<F>, Poly<F>),
    Con(Lin<F>),
    Msg(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    L(usize),
    R(usize),
    O(usize),
    V(usize),
    VC(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Program<F: Field> {
    pub phase1: Vec<Op<F>>,
    pub phase2: Vec<Vec<Op<F>>>,
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub max_commits: usize,
    pub max_vec: usize,
    pub max_vec_len: usize,
    pub ops1: usize,
    pub callbacks: usize,
    pub ops2: usize,
    pub mul2: bool,
    pub max_terms: usize,
}

impl Shape {
    pub fn random<R: RngCore>(rng: &mut R) -> Shape {
        let two = rng.gen_range(0..3) == 0;
        let vecs = match rng.gen_range(0..4) {
            0 => 0,
            1 => 1,
            _ => rng.gen_range(0..7),
        };
        let mul2 = two && (rng.gen() || vecs == 0);
        Shape {
            max_commits: if rng.gen() { rng.gen_range(0..4) } else { rng.gen_range(0..9) },
            max_vec: if mul2 { 0 } else { vecs },
            max_vec_len: *[1usize, 2, 3, 5, 8, 17].get(rng.gen_range(0..6)).unwrap(),
            ops1: match rng.gen_range(0..5) {
                0 => rng.gen_range(0..3),
                1 => rng.gen_range(20..45),
                _ => rng.gen_range(1..14),
            },
            callbacks: if two { rng.gen_range(1..4) } else { 0 },
            ops2: rng.gen_range(0..8),
            mul2,
            max_terms: rng.gen_range(1..7),
        }
    }

    /// One dimension is far larger than in `random`: gates, commitments, vectors, terms or callbacks.
    pub fn big<R: RngCore>(rng: &mut R, gates: usize) -> Shape {
        let s = Shape { max_commits: 3, max_vec: 2, max_vec_len: 5, ops1: rng.gen_range(1..40), callbacks: 0, ops2: 0, mul2: false, max_terms: 4 };
        match rng.gen_range(0..6) {
            0 | 1 => Shape { ops1: rng.gen_range(gates / 2..gates * 2), max_terms: 3, ..s },
            2 => Shape { max_commits: rng.gen_range(250..400), ..s },
            3 => Shape { max_vec: rng.gen_range(1..4), max_vec_len: rng.gen_range(gates / 3..gates), ..s },
            4 => Shape { max_terms: rng.gen_range(250..400), ops1: rng.gen_range(10..60), max_commits: 20, ..s },
            _ => Shape { callbacks: rng.gen_range(20..60), ops2: rng.gen_range(5..25), max_vec: 0, mul2: true, ..s },
        }
    }
}

struct Gen<'a, F: PrimeField, R: RngCore> {
    rng: &'a mut R,
    vals: Vec<Poly<F>>,
    shape: Shape,
    /// handles usable now
    usable: Vec<usize>,
    in2: bool,
}

impl<'a, F: PrimeField, R: RngCore> Gen<'a, F, R> {
    fn coef(&mut self) -> Poly<F> {
        let n = if self.in2 { self.rng.gen_range(1..3) } else { 1 };
        (0..n).map(|_| edge_scalar::<F, _>(self.rng)).collect()
    }
    fn lin(&mut self) -> Lin<F> {
        let n = self.rng.gen_range(0..=self.shape.max_terms);
        let mut terms: Vec<(Handle, Poly<F>)> = Vec::new();
        for _ in 0..n {
            let h = if self.usable.is_empty() || self.rng.gen_range(0..6) == 0 {
                None
            } else if !terms.is_empty() && self.rng.gen_range(0..5) == 0 {
                // the same variable twice
                terms[self.rng.gen_range(0..terms.len())].0
            } else {
                Some(self.usable[self.rng.gen_range(0..self.usable.len())])
            };
            let c = self.coef();
            terms.push((h, c));
        }
        Lin { terms }
    }
    fn eval(&self, l: &Lin<F>) -> Poly<F> {
        let mut r = vec![F::zero()];
        for (h, c) in &l.terms {
            r = match h {
                None => padd(&r, c),
                Some(i) => padd(&r, &pmul(c, &self.vals[*i])),
            };
        }
        r
    }
    fn new_handle(&mut self, v: Poly<F>) {
        self.usable.push(self.vals.len());
        self.vals.push(v);
    }
    fn op(&mut self, allow_mul: bool) -> Op<F> {
        let k = self.rng.gen_range(0..10);
        match k {
            0 | 1 | 2 if allow_mul => {
                let (mut l, mut r) = (self.lin(), self.lin());
                // keep the degree in the challenge small
                while self.in2 && self.eval(&l).len() + self.eval(&r).len() > 7 {
                    l.terms.pop();
                    r.terms.pop();
                }
                let (lv, rv) = (self.eval(&l), self.eval(&r));
                let ov = pmul(&lv, &rv);
                self.new_handle(lv);
                self.new_handle(rv);
                self.new_handle(ov);
                Op::Mul(l, r)
            }
            3 | 4 if allow_mul => {
                let v = self.coef();
                self.new_handle(v.clone());
                Op::Alloc(v)
            }
            5 if allow_mul => {
                let (l, r) = (self.coef(), self.coef());
                let o = pmul(&l, &r);
                self.new_handle(l.clone());
                self.new_handle(r.clone());
                self.new_handle(o);
                Op::AllocMul(l, r)
            }
            6 if !self.in2 && self.rng.gen_range(0..3) == 0 => {
                let mut b = vec![0u8; self.rng.gen_range(0..40)];
                self.rng.fill_bytes(&mut b);
                Op::Msg(b)
            }
            _ => {
                let mut l = self.lin();
                // satisfied by construction: fold the value into the constant term
                let v = self.eval(&l);
                if !pzero(&v) || self.rng.gen() {
                    l.terms.push((None, pneg(&v)));
                }
                Op::Con(l)
            }
        }
    }
}

impl<F: PrimeField> Program<F> {
    /// A program whose constraints all hold.
    pub fn random<R: RngCore>(rng: &mut R, shape: Shape) -> Program<F> {
        let mut g = Gen { rng, vals: vec![], shape, usable: vec![], in2: false };
        let mut phase1 = vec![];
        let mut commits = g.rng.gen_range(0..=shape.max_commits);
        let mut vecs = if shape.max_vec == 0 { 0 } else { g.rng.gen_range(0..=shape.max_vec) };
        let mut ops = shape.ops1;
        while commits + vecs + ops > 0 {
            let k = g.rng.gen_range(0..commits + vecs + ops);
            // commitments mostly come first, but are mixed in too
            if k < commits || (commits > 0 && g.rng.gen()) {
                commits -= 1;
                let v = edge_scalar::<F, _>(g.rng);
                let r = edge_scalar::<F, _>(g.rng);
                g.new_handle(vec![v]);
                phase1.push(Op::Commit(v, r));
            } else if k < commits + vecs || (vecs > 0 && g.rng.gen()) {
                vecs -= 1;
                let n = g.rng.gen_range(1..=shape.max_vec_len);
                let vs: Vec<F> = (0..n).map(|_| edge_scalar::<F, _>(g.rng)).collect();
                for v in &vs {
                    g.new_handle(vec![*v]);
                }
                let r = edge_scalar::<F, _>(g.rng);
                phase1.push(Op::CommitVec(vs, r));
            } else if ops > 0 {
                ops -= 1;
                let op = g.op(true);
                phase1.push(op);
            }
        }
        g.in2 = true;
        let base = g.usable.clone();
        let mut phase2 = vec![];
        for _ in 0..shape.callbacks {
            // only phase-one variables and this callback's own (their values are polynomials in
            // this callback's challenge)
            g.usable = base.clone();
            let mut ops = vec![];
            for _ in 0..g.rng.gen_range(0..=shape.ops2) {
                let op = g.op(shape.mul2);
                ops.push(op);
            }
            phase2.push(ops);
        }
        Program { phase1, phase2 }
    }

    /// A program with exactly `k` vector commitments, each of which takes part in a constraint and
    /// (some) in a gate.
    pub fn with_vectors<R: RngCore>(rng: &mut R, k: usize, max_len: usize) -> Program<F> {
        let mut phase1 = vec![];
        let mut first = vec![];
        let mut at = 0;
        for _ in 0..k {
            if rng.gen_range(0..12) == 0 {
                // a commitment to nothing
                phase1.push(Op::CommitVec(vec![], edge_scalar::<F, _>(rng)));
                continue;
            }
            let len = rng.gen_range(1..=max_len);
            let vs: Vec<F> = (0..len).map(|_| edge_scalar::<F, _>(rng)).collect();
            let pos = rng.gen_range(0..len);
            first.push((at + pos, vs[pos]));
            at += len;
            let r = edge_scalar::<F, _>(rng);
            phase1.push(Op::CommitVec(vs, r));
        }
        let mut sum = F::zero();
        let mut terms = vec![];
        for (h, v) in &first {
            let co = edge_scalar::<F, _>(rng);
            sum += co * v;
            terms.push((Some(*h), vec![co]));
        }
        terms.push((None, vec![-sum]));
        phase1.push(Op::Con(Lin { terms }));
        for i in 1..first.len() {
            if rng.gen_range(0..4) == 0 {
                let ((h, v), (g, w)) = (first[i - 1], first[i]);
                phase1.push(Op::Mul(Lin { terms: vec![(Some(h), vec![F::one()])] }, Lin { terms: vec![(Some(g), vec![F::one()])] }));
                phase1.push(Op::Con(Lin { terms: vec![(Some(at + 2), vec![F::one()]), (None, vec![-(v * w)])] }));
                at += 3;
            }
        }
        Program { phase1, phase2: vec![] }
    }

    pub fn all_ops(&self) -> impl Iterator<Item = &Op<F>> {
        self.phase1.iter().chain(self.phase2.iter().flatten())
    }

    pub fn num_constraints(&self) -> usize {
        self.all_ops().filter(|o| matches!(o, Op::Con(_))).count()
    }

    pub fn muls(&self) -> (usize, usize) {
        let (mut pend, mut n) = (false, 0);
        let mut n1 = 0;
        let mut maxvec = 0;
        for (k, ops) in std::iter::once(&self.phase1).chain(self.phase2.iter()).enumerate() {
            if k == 1 {
                pend = false;
            }
            for o in ops {
                match o {
                    Op::Mul(..) | Op::AllocMul(..) => n += 1,
                    Op::Alloc(_) => {
                        if !pend {
                            n += 1;
                        }
                        pend = !pend;
                    }
                    Op::CommitVec(v, _) => maxvec = maxvec.max(v.len()),
                    _ => {}
                }
            }
            if k == 0 {
                n = n.max(maxvec);
                n1 = n;
            }
        }
        (n1, n)
    }

    /// Values of all handles, given one challenge per callback; an independent evaluation.
    pub fn values(&self, chals: &[F]) -> Vec<F> {
        let mut v: Vec<F> = vec![];
        let none = F::zero();
        for (k, ops) in std::iter::once(&self.phase1).chain(self.phase2.iter()).enumerate() {
            let c = if k == 0 { &none } else { &chals[k - 1] };
            for o in ops {
                match o {
                    Op::Commit(a, _) => v.push(*a),
                    Op::CommitVec(a, _) => v.extend(a.iter()),
                    Op::Mul(l, r) => {
                        let (l, r) = (l.eval(&v, c), r.eval(&v, c));
                        v.push(l);
                        v.push(r);
                        v.push(l * r);
                    }
                    Op::Alloc(a) => v.push(peval(a, c)),
                    Op::AllocMul(l, r) => {
                        let (l, r) = (peval(l, c), peval(r, c));
                        v.push(l);
                        v.push(r);
                        v.push(l * r);
                    }
                    Op::Con(_) | Op::Msg(_) => {}
                }
            }
        }
        v
    }

    /// Which explicit constraints fail (reference semantics).
    pub fn failing(&self, chals: &[F]) -> Vec<usize> {
        let v = self.values(chals);
        let mut bad = vec![];
        let mut i = 0;
        let none = F::zero();
        for (k, ops) in std::iter::once(&self.phase1).chain(self.phase2.iter()).enumerate() {
            let c = if k == 0 { &none } else { &chals[k - 1] };
            for o in ops {
                if let Op::Con(l) = o {
                    if !l.eval(&v, c).is_zero() {
                        bad.push(i);
                    }
                    i += 1;
                }
            }
        }
        bad
    }

    pub fn summary(&self) -> String {
        let mut c = 0;
        let mut vs = vec![];
        let mut m = 0;
        for o in self.phase1.iter() {
            match o {
                Op::Commit(..) => c += 1,
                Op::CommitVec(v, _) => vs.push(v.len()),
                Op::Msg(_) => m += 1,
                _ => {}
            }
        }
        let (n1, n) = self.muls();
        format!(
            "commits={} vectors={:?} multipliers={}+{} constraints={} callbacks={} messages={}",
            c, vs, n1, n - n1, self.num_constraints(), self.phase2.len(), m
        )
    }
}

impl<F: PrimeField> Lin<F> {
    pub fn eval(&self, v: &[F], c: &F) -> F {
        let mut r = F::zero();
        for (h, k) in &self.terms {
            let k = peval(k, c);
            r += match h {
                None => k,
                Some(i) => k * v[*i],
            };
        }
        r
    }
    /// Build the crate's linear combination, through one of its construction styles.
    pub fn build(&self, vars: &[Variable<F>], c: &F) -> LinearCombination<F> {
        let coefs: Vec<(Option<Variable<F>>, F)> =
            self.terms.iter().map(|(h, k)| (h.map(|i| vars[i]), peval(k, c))).collect();
        match self.terms.len() % 3 {
            0 => {
                let mut lc = LinearCombination::default();
                for (v, k) in coefs {
                    lc = match v {
                        None => lc + constant::<F, F>(k),
                        Some(v) => lc + v * k,
                    };
                }
                lc
            }
            1 => {
                let mut lc = LinearCombination::default();
                for (v, k) in coefs {
                    lc = match v {
                        None => lc - constant::<F, F>(-k),
                        Some(v) => lc - (LinearCombination::from(v) * (-k)),
                    };
                }
                lc
            }
            _ => coefs
                .into_iter()
                .map(|(v, k)| (v.unwrap_or(Variable::One(std::marker::PhantomData)), k))
                .collect(),
        }
    }
}

/// Applies the ops of a phase. `assign`: whether witness values are supplied.
pub fn apply<F: PrimeField, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    ops: &[Op<F>],
    vars: &mut Vec<Variable<F>>,
    c: &F,
    assign: bool,
    commit: &mut dyn FnMut(&mut CS, &Op<F>, &mut Vec<Variable<F>>),
) -> Result<(), R1CSError> {
    for o in ops {
        match o {
            Op::Commit(..) | Op::CommitVec(..) => commit(cs, o, vars),
            Op::Mul(l, r) => {
                let (l, r) = (l.build(vars, c), r.build(vars, c));
                let (a, b, o) = cs.multiply(l, r);
                vars.extend([a, b, o]);
            }
            Op::Alloc(v) => {
                let x = cs.allocate(if assign { Some(peval(v, c)) } else { None })?;
                vars.push(x);
            }
            Op::AllocMul(l, r) => {
                let (a, b, o) =
                    cs.allocate_multiplier(if assign { Some((peval(l, c), peval(r, c))) } else { None })?;
                vars.extend([a, b, o]);
            }
            Op::Con(l) => {
                let l = l.build(vars, c);
                cs.constrain(l);
            }
            Op::Msg(b) => cs.transcript().append_message(b"user message", b),
        }
    }
    Ok(())
}

fn specify<F: PrimeField, CS: RandomizableConstraintSystem<F>>(
    cs: &mut CS,
    prog: &Arc<Program<F>>,
    vars: &[Variable<F>],
    assign: bool,
) -> Result<(), R1CSError> {
    // all callbacks of phase one see the phase-one variables; later callbacks' handles follow the
    // handles of the callbacks before them, so share the list
    let shared = std::sync::Arc::new(std::sync::Mutex::new(vars.to_vec()));
    for k in 0..prog.phase2.len() {
        let prog = prog.clone();
        let shared = shared.clone();
        cs.specify_randomized_constraints(move |rcs| {
            let c = rcs.challenge_scalar(b"callback challenge");
            let mut vars = shared.lock().unwrap();
            apply(rcs, &prog.phase2[k], &mut vars, &c, assign, &mut |_, _, _| unreachable!())
        })?;
    }
    Ok(())
}

pub struct Proved<P: SWCurveConfig> {
    pub points: Vec<Aff<P>>,
    pub proof: Result<R1CSProof<Aff<P>>, R1CSError>,
    pub metrics: Metrics,
    pub vars: Vec<Variable<Fr<P>>>,
}

pub fn commit_prover<'g, P: SWCurveConfig, T: std::borrow::BorrowMut<Transcript>>(
    p: &mut Prover<'g, T, Aff<P>>,
    o: &Op<Fr<P>>,
    bp: &BulletproofGens<Aff<P>>,
    points: &mut Vec<Aff<P>>,
    vars: &mut Vec<Variable<Fr<P>>>,
) {
    match o {
        Op::Commit(v, r) => {
            let (c, x) = p.commit(*v, *r);
            points.push(c);
            vars.push(x);
        }
        Op::CommitVec(v, r) => {
            let (c, x) = p.commit_vec(v, *r, bp);
            points.push(c);
            vars.extend(x);
        }
        _ => unreachable!(),
    }
}

/// Build the prover's side up to (excluding) proving.
pub fn build_prover<'g, P: SWCurveConfig, T: std::borrow::BorrowMut<Transcript>>(
    prog: &Arc<Program<Fr<P>>>,
    transcript: T,
    pc: &'g PedersenGens<Aff<P>>,
    bp: &BulletproofGens<Aff<P>>,
) -> (Prover<'g, T, Aff<P>>, Vec<Aff<P>>, Vec<Variable<Fr<P>>>) {
    let mut p = Prover::new(pc, transcript);
    let mut points = vec![];
    let mut vars = vec![];
    apply(&mut p, &prog.phase1, &mut vars, &Fr::<P>::from(0u64), true, &mut |p, o, vars| {
        commit_prover::<P, T>(p, o, bp, &mut points, vars)
    })
    .expect("prover allocation");
    specify(&mut p, prog, &vars, true).expect("specify");
    (p, points, vars)
}

pub fn prove<P: SWCurveConfig>(
    prog: &Arc<Program<Fr<P>>>,
    label: &'static [u8],
    pc: &PedersenGens<Aff<P>>,
    bp: &BulletproofGens<Aff<P>>,
) -> Proved<P> {
    let mut t = Transcript::new(label);
    let (p, points, vars) = build_prover::<P, _>(prog, &mut t, pc, bp);
    let metrics = p.metrics();
    let proof = p.prove(bp);
    Proved { points, proof, metrics, vars }
}

/// Build the verifier's side from the public part of the program and the commitments.
pub fn build_verifier<P: SWCurveConfig, T: std::borrow::BorrowMut<Transcript>>(
    prog: &Arc<Program<Fr<P>>>,
    transcript: T,
    points: &[Aff<P>],
) -> (Verifier<T, Aff<P>>, Vec<Variable<Fr<P>>>) {
    let mut v = Verifier::new(transcript);
    let mut it = points.iter();
    let mut vars = vec![];
    apply(&mut v, &prog.phase1, &mut vars, &Fr::<P>::from(0u64), false, &mut |v, o, vars| match o {
        Op::Commit(..) => vars.push(v.commit(*it.next().unwrap())),
        Op::CommitVec(x, _) => vars.extend(v.commit_vec(x.len(), *it.next().unwrap())),
        _ => unreachable!(),
    })
    .expect("verifier allocation");
    specify(&mut v, prog, &vars, false).expect("specify");
    (v, vars)
}

pub fn verify<P: SWCurveConfig>(
    prog: &Arc<Program<Fr<P>>>,
    label: &'static [u8],
    points: &[Aff<P>],
    proof: &R1CSProof<Aff<P>>,
    pc: &PedersenGens<Aff<P>>,
    bp: &BulletproofGens<Aff<P>>,
) -> Result<(), R1CSError> {
    let mut t = Transcript::new(label);
    let (v, _) = build_verifier::<P, _>(prog, &mut t, points);
    v.verify(proof, pc, bp)
}

pub fn tuple<P: SWCurveConfig>(
    prog: &Arc<Program<Fr<P>>>,
    label: &'static [u8],
    points: &[Aff<P>],
    proof: &R1CSProof<Aff<P>>,
) -> Result<VerificationTuple<Aff<P>>, R1CSError> {
    let mut t = Transcript::new(label);
    let (v, _) = build_verifier::<P, _>(prog, &mut t, points);
    v.verification_scalars_and_points(proof)
}
