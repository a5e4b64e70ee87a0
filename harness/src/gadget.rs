//! A recording constraint system for gadgets.
//!
//! `Rec` wraps a real prover. It forwards every call, so that values are exactly those the prover
//! would commit to, and keeps the linear combinations the gadget constrained. They are turned into
//! an explicit `System` (rows over the variables of the multiplication gates) by evaluating them
//! with `Prover::eval` under one-hot assignments: only public behaviour is used. On the explicit
//! system the monitors decide whether an assignment satisfies it, whether a forged assignment
//! exists that agrees with given values (`complete`), and whether values are locally determined
//! by others (`undetermined`: kernel of the Jacobian).

use crate::cycles::*;
use ark_ff::{Field, One, UniformRand, Zero};
use bulletproofs::r1cs::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use ark_serialize::CanonicalSerialize;
use bulletproofs::PedersenGens;
use merlin::Transcript;
use rand::RngCore;
use relations::curve::{curve_check, PointRepresentation};
use relations::rerandomize::re_randomize;
use relations::select::select;
use relations::single_level_select_and_rerandomize::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct Rec<'g, P: Curve> {
    pub prover: Prover<'g, Transcript, Aff<P>>,
    pc: &'g PedersenGens<Aff<P>>,
    rows: Vec<LinearCombination<Fr<P>>>,
    /// allocations made without a value (as a verifier makes them)
    pub missing: usize,
}

pub type Lc<P> = LinearCombination<Fr<P>>;

impl<'g, P: Curve> Rec<'g, P> {
    pub fn new(pc: &'g PedersenGens<Aff<P>>) -> Self {
        Rec { prover: Prover::new(pc, Transcript::new(b"gadget")), pc, rows: vec![], missing: 0 }
    }
    pub fn gates(&self) -> usize {
        self.prover.metrics().multipliers
    }
    /// a fresh unconstrained variable with this value (a whole gate is spent on it)
    pub fn input(&mut self, v: Fr<P>) -> Variable<Fr<P>> {
        self.prover.allocate_multiplier(Some((v, Fr::<P>::zero()))).unwrap().0
    }
    pub fn eval(&self, lc: &Lc<P>) -> Fr<P> {
        self.prover.eval(lc)
    }
    pub fn rows(&self) -> usize {
        self.rows.len()
    }
    /// are all constraints satisfied by the values the gadget assigned?
    pub fn satisfied(&self) -> bool {
        self.rows.iter().all(|r| self.prover.eval(r).is_zero())
    }
    /// indices of violated constraints
    pub fn violated(&self) -> Vec<usize> {
        (0..self.rows.len()).filter(|i| !self.prover.eval(&self.rows[*i]).is_zero()).collect()
    }
    fn probe(&self, vals: &dyn Fn(usize) -> (Fr<P>, Fr<P>)) -> Prover<'g, Transcript, Aff<P>> {
        let mut p = Prover::new(self.pc, Transcript::new(b"probe"));
        for i in 0..self.gates() {
            p.allocate_multiplier(Some(vals(i))).unwrap();
        }
        p
    }
    /// Values of all rows under a pseudo-random assignment: equal for equal systems.
    pub fn fingerprint(&self, seed: u64) -> (usize, Vec<Fr<P>>) {
        use rand::SeedableRng;
        let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(seed);
        let vals: Vec<_> = (0..self.gates()).map(|_| (Fr::<P>::rand(&mut rng), Fr::<P>::rand(&mut rng))).collect();
        let p = self.probe(&|i| vals[i]);
        (self.gates(), self.rows.iter().map(|r| p.eval(r)).collect())
    }
    /// The explicit system and the current assignment.
    pub fn system(&self) -> (System<Fr<P>>, Vec<Fr<P>>) {
        let n = self.gates();
        let z = Fr::<P>::zero();
        let o = Fr::<P>::one();
        let p0 = self.probe(&|_| (z, z));
        let mut rows: Vec<Row<Fr<P>>> = self.rows.iter().map(|r| Row { c: p0.eval(r), t: vec![] }).collect();
        let block = 24;
        let mix = |i: usize, k: u64| Fr::<P>::from((i as u64 + 3).wrapping_mul(0x9E3779B97F4A7C15) ^ k.wrapping_mul(0xD1B54A32D192ED03));
        for b in 0..(n + block - 1) / block {
            let inside = |i: usize| i / block == b;
            let pb = self.probe(&|i| if inside(i) { (mix(i, 1), mix(i, 2)) } else { (z, z) });
            let touched: Vec<usize> = (0..rows.len()).filter(|j| pb.eval(&self.rows[*j]) != rows[*j].c).collect();
            if touched.is_empty() {
                continue;
            }
            for g in b * block..((b + 1) * block).min(n) {
                let pg = self.probe(&|i| if i == g { (mix(i, 3), mix(i, 4)) } else { (z, z) });
                let hit: Vec<usize> = touched.iter().cloned().filter(|j| pg.eval(&self.rows[*j]) != rows[*j].c).collect();
                if hit.is_empty() {
                    continue;
                }
                let pl = self.probe(&|i| if i == g { (o, z) } else { (z, z) });
                let pr = self.probe(&|i| if i == g { (z, o) } else { (z, z) });
                let po = self.probe(&|i| if i == g { (o, o) } else { (z, z) });
                for j in hit {
                    let c = rows[j].c;
                    let l = pl.eval(&self.rows[j]) - c;
                    let r = pr.eval(&self.rows[j]) - c;
                    let out = po.eval(&self.rows[j]) - c - l - r;
                    for (k, v) in [l, r, out].into_iter().enumerate() {
                        if !v.is_zero() {
                            rows[j].t.push((3 * g + k, v));
                        }
                    }
                }
            }
        }
        let sys = System { n, rows };
        let assign = (0..3 * n).map(|v| self.prover.eval(&Self::var(v).into())).collect();
        (sys, assign)
    }
    pub fn var(id: usize) -> Variable<Fr<P>> {
        match id % 3 {
            0 => Variable::MultiplierLeft(id / 3),
            1 => Variable::MultiplierRight(id / 3),
            _ => Variable::MultiplierOutput(id / 3),
        }
    }
    pub fn id(v: Variable<Fr<P>>) -> usize {
        match v {
            Variable::MultiplierLeft(i) => 3 * i,
            Variable::MultiplierRight(i) => 3 * i + 1,
            Variable::MultiplierOutput(i) => 3 * i + 2,
            _ => panic!("not a gate variable"),
        }
    }
}

impl<'g, P: Curve> ConstraintSystem<Fr<P>> for Rec<'g, P> {
    fn transcript(&mut self) -> &mut Transcript {
        self.prover.transcript()
    }
    fn multiply(&mut self, left: Lc<P>, right: Lc<P>) -> (Variable<Fr<P>>, Variable<Fr<P>>, Variable<Fr<P>>) {
        let (l, r, o) = self.prover.multiply(left.clone(), right.clone());
        self.rows.push(left - l);
        self.rows.push(right - r);
        (l, r, o)
    }
    fn allocate(&mut self, a: Option<Fr<P>>) -> Result<Variable<Fr<P>>, R1CSError> {
        if a.is_none() {
            self.missing += 1;
        }
        self.prover.allocate(Some(a.unwrap_or_else(Fr::<P>::zero)))
    }
    fn allocate_multiplier(&mut self, a: Option<(Fr<P>, Fr<P>)>) -> Result<(Variable<Fr<P>>, Variable<Fr<P>>, Variable<Fr<P>>), R1CSError> {
        if a.is_none() {
            self.missing += 1;
        }
        self.prover.allocate_multiplier(Some(a.unwrap_or_else(|| (Fr::<P>::zero(), Fr::<P>::zero()))))
    }
    fn metrics(&self) -> Metrics {
        self.prover.metrics()
    }
    fn constrain(&mut self, lc: Lc<P>) {
        self.rows.push(lc.clone());
        self.prover.constrain(lc)
    }
}

#[derive(Clone, Debug)]
pub struct Row<F> {
    pub c: F,
    pub t: Vec<(usize, F)>,
}

/// sum of terms + c = 0 for each row; var 3i * var 3i+1 = var 3i+2 for each i < n
#[derive(Clone, Debug)]
pub struct System<F> {
    pub n: usize,
    pub rows: Vec<Row<F>>,
}

pub enum Completion<F> {
    /// no assignment agrees with the pins (derived by forced steps only)
    Impossible,
    /// an assignment that satisfies everything
    Found(Vec<F>),
    /// no forced step left, and guesses did not lead to an assignment
    Unknown,
}

impl<F: Field> System<F> {
    pub fn satisfied(&self, a: &[F]) -> bool {
        (0..self.n).all(|i| a[3 * i] * a[3 * i + 1] == a[3 * i + 2])
            && self.rows.iter().all(|r| {
                let mut s = r.c;
                for (v, k) in &r.t {
                    s += a[*v] * k;
                }
                s.is_zero()
            })
    }

    /// add the constraint that a linear form equals a value
    pub fn pin_row(&mut self, terms: Vec<(usize, F)>, c: F) {
        self.rows.push(Row { c, t: terms });
    }

    /// Try to extend the pinned values to an assignment that satisfies the system: forced steps
    /// until nothing is forced, then guesses for what is free.
    /// `hint`, an assignment of some honest run, is where the first guesses come from.
    /// Variables in `defer` are guessed last.
    pub fn complete<R: RngCore>(&self, pins: &[(usize, F)], hint: &[F], defer: &[usize], rng: &mut R) -> Completion<F> {
        let mut st = Solver::new(self);
        for (v, x) in pins {
            if !st.set(*v, *x) {
                return Completion::Impossible;
            }
        }
        if !st.run() {
            return Completion::Impossible;
        }
        if st.unknown == 0 {
            return Completion::Found(st.done());
        }
        for attempt in 0..8 {
            let mut s = st.clone();
            let mut ok = true;
            while s.unknown > 0 {
                // the variable whose value decides the most others
                let mut open: Vec<usize> = (0..s.val.len()).filter(|v| s.val[*v].is_none() && !defer.contains(v)).collect();
                if open.is_empty() {
                    open = (0..s.val.len()).filter(|v| s.val[*v].is_none()).collect();
                }
                let probe = F::from(0x9E3779B97F4A7C15u64);
                let mut best = (0, open[0]);
                for v in open.iter().cloned().take(96) {
                    let mut t = s.clone();
                    if t.set(v, probe) && t.run() && s.unknown - t.unknown > best.0 {
                        best = (s.unknown - t.unknown, v);
                    }
                }
                let v = best.1;
                let x = match attempt {
                    0 => hint.get(v).cloned().unwrap_or_else(F::zero),
                    1 => F::zero(),
                    2 => F::one(),
                    3 | 4 => match rng.next_u32() % 3 {
                        0 => F::zero(),
                        1 => F::one(),
                        _ => -F::one(),
                    },
                    _ => F::rand(rng),
                };
                if !s.set(v, x) || !s.run() {
                    ok = false;
                    break;
                }
            }
            if ok {
                return Completion::Found(s.done());
            }
        }
        Completion::Unknown
    }

    /// Try to repair an assignment that violates some constraints by changing only variables near
    /// them: those within `radius` constraints of a violated one. `hint` is where guesses come from.
    pub fn repair<R: RngCore>(&self, a: &[F], hint: &[F], radius: usize, rng: &mut R) -> Completion<F> {
        // constraints: rows first, then gates
        let vars_of = |k: usize| -> Vec<usize> {
            if k < self.rows.len() {
                self.rows[k].t.iter().map(|x| x.0).collect()
            } else {
                let i = k - self.rows.len();
                vec![3 * i, 3 * i + 1, 3 * i + 2]
            }
        };
        let total = self.rows.len() + self.n;
        let mut uses: Vec<Vec<usize>> = vec![vec![]; 3 * self.n];
        for k in 0..total {
            for v in vars_of(k) {
                uses[v].push(k);
            }
        }
        let mut front: Vec<usize> = (0..total)
            .filter(|k| {
                if *k < self.rows.len() {
                    let r = &self.rows[*k];
                    let mut s = r.c;
                    for (v, x) in &r.t {
                        s += a[*v] * x;
                    }
                    !s.is_zero()
                } else {
                    let i = k - self.rows.len();
                    a[3 * i] * a[3 * i + 1] != a[3 * i + 2]
                }
            })
            .collect();
        if front.is_empty() {
            return Completion::Found(a.to_vec());
        }
        let mut seen: BTreeSet<usize> = front.iter().cloned().collect();
        let mut free: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..=radius {
            let mut next = vec![];
            for k in &front {
                for v in vars_of(*k) {
                    if free.insert(v) {
                        for u in &uses[v] {
                            if seen.insert(*u) {
                                next.push(*u);
                            }
                        }
                    }
                }
            }
            front = next;
        }
        let pins: Vec<(usize, F)> = (0..3 * self.n).filter(|v| !free.contains(v)).map(|v| (v, a[v])).collect();
        self.complete(&pins, hint, &[], rng)
    }

    /// Everything the pinned values force, step by step; None if they contradict the system.
    pub fn forced(&self, pins: &[(usize, F)]) -> Option<Vec<Option<F>>> {
        let mut st = Solver::new(self);
        for (v, x) in pins {
            if !st.set(*v, *x) {
                return None;
            }
        }
        if st.run() {
            Some(st.val)
        } else {
            None
        }
    }

    /// Among the variables the pins leave open: those that can only be zero or one, grouped into
    /// classes that are forced to be equal.
    pub fn boolean_classes(&self, pins: &[(usize, F)]) -> Vec<Vec<usize>> {
        let mut base = Solver::new(self);
        for (v, x) in pins {
            if !base.set(*v, *x) {
                return vec![];
            }
        }
        if !base.run() {
            return vec![];
        }
        let open: Vec<usize> = (0..base.val.len()).filter(|v| base.val[*v].is_none()).collect();
        let can = |v: usize, x: F| -> Option<Vec<Option<F>>> {
            let mut s = base.clone();
            if s.set(v, x) && s.run() {
                Some(s.val)
            } else {
                None
            }
        };
        let mut classes: Vec<Vec<usize>> = vec![];
        let mut seen = BTreeSet::new();
        for v in open.iter().cloned() {
            if seen.contains(&v) {
                continue;
            }
            if can(v, F::from(2u64)).is_some() || can(v, -F::one()).is_some() || can(v, F::from(7u64)).is_some() {
                continue;
            }
            if let (Some(at0), Some(at1)) = (can(v, F::zero()), can(v, F::one())) {
                let class: Vec<usize> = open
                    .iter()
                    .cloned()
                    .filter(|w| at0[*w] == Some(F::zero()) && at1[*w] == Some(F::one()))
                    .collect();
                seen.extend(class.iter().cloned());
                classes.push(class);
            }
        }
        classes
    }

    /// Which of `targets` are not determined, to first order at assignment `a`, by the values of
    /// `fixed`: a tangent vector of the solution set with the fixed values kept moves them.
    pub fn undetermined(&self, a: &[F], fixed: &[usize], targets: &[usize]) -> Vec<usize> {
        // rows of the Jacobian
        let fixed: BTreeSet<usize> = fixed.iter().cloned().collect();
        let mut rows: Vec<BTreeMap<usize, F>> = vec![];
        for r in &self.rows {
            let mut m = BTreeMap::new();
            for (v, k) in &r.t {
                if !fixed.contains(v) {
                    *m.entry(*v).or_insert_with(F::zero) += *k;
                }
            }
            rows.push(m);
        }
        for i in 0..self.n {
            let mut m = BTreeMap::new();
            for (v, k) in [(3 * i, a[3 * i + 1]), (3 * i + 1, a[3 * i]), (3 * i + 2, -F::one())] {
                if !fixed.contains(&v) {
                    *m.entry(v).or_insert_with(F::zero) += k;
                }
            }
            rows.push(m);
        }
        for m in rows.iter_mut() {
            m.retain(|_, k| !k.is_zero());
        }
        let mut uses: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); 3 * self.n];
        for (j, m) in rows.iter().enumerate() {
            for v in m.keys() {
                uses[*v].insert(j);
            }
        }
        // a row with one variable makes that variable zero in every tangent vector
        let mut zero = vec![false; 3 * self.n];
        for v in &fixed {
            zero[*v] = true;
        }
        let mut work: Vec<usize> = (0..rows.len()).filter(|j| rows[*j].len() == 1).collect();
        let drain = |work: &mut Vec<usize>, rows: &mut Vec<BTreeMap<usize, F>>, uses: &mut Vec<BTreeSet<usize>>, zero: &mut Vec<bool>| {
            while let Some(j) = work.pop() {
                if rows[j].len() != 1 {
                    continue;
                }
                let v = *rows[j].keys().next().unwrap();
                zero[v] = true;
                for k in std::mem::take(&mut uses[v]) {
                    rows[k].remove(&v);
                    if rows[k].len() == 1 {
                        work.push(k);
                    }
                }
            }
        };
        drain(&mut work, &mut rows, &mut uses, &mut zero);
        // eliminate the rest: shortest rows first, pivot on the variable with the fewest uses;
        // targets are pivoted last, so that what remains are relations among targets
        let is_target: BTreeSet<usize> = targets.iter().cloned().collect();
        loop {
            let cand = (0..rows.len())
                .filter(|j| rows[*j].keys().any(|v| !is_target.contains(v)))
                .min_by_key(|j| rows[*j].len());
            let j = match cand {
                None => break,
                Some(j) => j,
            };
            let v = *rows[j].keys().filter(|v| !is_target.contains(v)).min_by_key(|v| uses[**v].len()).unwrap();
            let piv = std::mem::take(&mut rows[j]);
            for w in piv.keys() {
                uses[*w].remove(&j);
            }
            let inv = piv[&v].inverse().unwrap();
            let others: Vec<usize> = uses[v].iter().cloned().collect();
            for k in others {
                let f = rows[k][&v] * inv;
                for (w, x) in &piv {
                    let e = rows[k].entry(*w).or_insert_with(F::zero);
                    *e -= f * x;
                    if e.is_zero() {
                        rows[k].remove(w);
                        uses[*w].remove(&k);
                    } else {
                        uses[*w].insert(k);
                    }
                }
                if rows[k].len() == 1 {
                    work.push(k);
                }
            }
            drain(&mut work, &mut rows, &mut uses, &mut zero);
        }
        // relations among targets: reduced row echelon form
        let mut rest: Vec<BTreeMap<usize, F>> = rows.into_iter().filter(|r| !r.is_empty()).collect();
        let mut done: Vec<(usize, BTreeMap<usize, F>)> = vec![];
        while let Some(mut piv) = rest.pop() {
            if piv.is_empty() {
                continue;
            }
            let (v, c) = piv.iter().next().map(|(v, c)| (*v, *c)).unwrap();
            let inv = c.inverse().unwrap();
            for x in piv.values_mut() {
                *x *= inv;
            }
            for r in rest.iter_mut().chain(done.iter_mut().map(|d| &mut d.1)) {
                if let Some(f) = r.get(&v).cloned() {
                    for (w, y) in &piv {
                        *r.entry(*w).or_insert_with(F::zero) -= f * y;
                    }
                    r.retain(|_, k| !k.is_zero());
                }
            }
            done.push((v, piv));
        }
        for (v, r) in &done {
            if r.len() == 1 {
                zero[*v] = true;
            }
        }
        targets.iter().cloned().filter(|v| !zero[*v]).collect()
    }
}

#[derive(Clone)]
struct Solver<'a, F: Field> {
    sys: &'a System<F>,
    val: Vec<Option<F>>,
    unknown: usize,
    left: Vec<usize>,
    sum: Vec<F>,
    uses: std::rc::Rc<Vec<Vec<(usize, F)>>>,
    ready_rows: Vec<usize>,
    ready_gates: Vec<usize>,
}

impl<'a, F: Field> Solver<'a, F> {
    fn new(sys: &'a System<F>) -> Self {
        let nv = 3 * sys.n;
        let mut uses = vec![vec![]; nv];
        let mut left = vec![];
        let mut sum = vec![];
        for (j, r) in sys.rows.iter().enumerate() {
            let mut m: BTreeMap<usize, F> = BTreeMap::new();
            for (v, k) in &r.t {
                *m.entry(*v).or_insert_with(F::zero) += *k;
            }
            m.retain(|_, k| !k.is_zero());
            left.push(m.len());
            sum.push(r.c);
            for (v, k) in m {
                uses[v].push((j, k));
            }
        }
        Solver {
            sys,
            val: vec![None; nv],
            unknown: nv,
            left,
            sum,
            uses: std::rc::Rc::new(uses),
            ready_rows: (0..sys.rows.len()).collect(),
            ready_gates: (0..sys.n).collect(),
        }
    }
    fn set(&mut self, v: usize, x: F) -> bool {
        if let Some(y) = self.val[v] {
            return x == y;
        }
        self.val[v] = Some(x);
        self.unknown -= 1;
        let uses = self.uses.clone();
        for (j, k) in &uses[v] {
            self.left[*j] -= 1;
            self.sum[*j] += x * k;
            if self.left[*j] <= 1 {
                self.ready_rows.push(*j);
            }
        }
        self.ready_gates.push(v / 3);
        true
    }
    fn run(&mut self) -> bool {
        loop {
            if let Some(j) = self.ready_rows.pop() {
                if self.left[j] == 0 {
                    if !self.sum[j].is_zero() {
                        return false;
                    }
                } else if self.left[j] == 1 {
                    let mut found = None;
                    let mut m: BTreeMap<usize, F> = BTreeMap::new();
                    for (v, k) in &self.sys.rows[j].t {
                        *m.entry(*v).or_insert_with(F::zero) += *k;
                    }
                    for (v, k) in m {
                        if self.val[v].is_none() && !k.is_zero() {
                            found = Some((v, k));
                        }
                    }
                    if let Some((v, k)) = found {
                        let x = -self.sum[j] * k.inverse().unwrap();
                        if !self.set(v, x) {
                            return false;
                        }
                    }
                }
                continue;
            }
            if let Some(i) = self.ready_gates.pop() {
                let (l, r, o) = (self.val[3 * i], self.val[3 * i + 1], self.val[3 * i + 2]);
                let step = match (l, r, o) {
                    (Some(l), Some(r), _) => Some((3 * i + 2, l * r)),
                    (Some(l), _, _) if l.is_zero() => Some((3 * i + 2, F::zero())),
                    (_, Some(r), _) if r.is_zero() => Some((3 * i + 2, F::zero())),
                    (Some(l), None, Some(o)) => Some((3 * i + 1, o * l.inverse().unwrap())),
                    (None, Some(r), Some(o)) => Some((3 * i, o * r.inverse().unwrap())),
                    _ => None,
                };
                if let (Some(l), None, Some(o)) = (l, r, o) {
                    if l.is_zero() && !o.is_zero() {
                        return false;
                    }
                }
                if let (None, Some(r), Some(o)) = (l, r, o) {
                    if r.is_zero() && !o.is_zero() {
                        return false;
                    }
                }
                if let Some((v, x)) = step {
                    if !self.set(v, x) {
                        return false;
                    }
                }
                continue;
            }
            return true;
        }
    }
    fn done(self) -> Vec<F> {
        self.val.into_iter().map(|v| v.unwrap()).collect()
    }
}

/// How much of a level's relation a prover shows.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Part {
    All,
    Nothing,
    /// only the message to the transcript
    Said,
    NotSelected,
    NotRerandomized,
}

/// `single_level_select_and_rerandomize` of a prover, possibly with parts left out.
pub fn partial_level<Fs: PrimeField, Fb: PrimeField, C2: SWCurveConfig<BaseField = Fs, ScalarField = Fb> + Copy, Cs: ConstraintSystem<Fs>>(
    cs: &mut Cs,
    parameters: &SingleLayerParameters<C2>,
    out: &Affine<C2>,
    children: Vec<LinearCombination<Fs>>,
    child_plus_delta: Affine<C2>,
    r: Fb,
    part: Part,
) {
    match part {
        Part::Nothing => return,
        Part::All => return single_level_select_and_rerandomize(cs, parameters, out, children, Some(child_plus_delta), Some(r)),
        _ => {}
    }
    let mut b = vec![];
    out.serialize_compressed(&mut b).unwrap();
    cs.transcript().append_message(b"rerandomized_child", &b);
    if part == Part::Said {
        return;
    }
    let x = cs.allocate(Some(child_plus_delta.x)).unwrap();
    let y = cs.allocate(Some(child_plus_delta.y)).unwrap();
    if part != Part::NotSelected {
        select(cs, x.into(), children.into_iter());
    }
    curve_check(cs, x.into(), y.into(), parameters.coeff_a, parameters.coeff_b);
    if part != Part::NotRerandomized {
        let o = (*out + parameters.delta).into_affine();
        re_randomize(cs, &parameters.tables, PointRepresentation { x: x.into(), y: y.into(), witness: Some(child_plus_delta) }, constant(o.x), constant(o.y), Some(r));
    }
}
