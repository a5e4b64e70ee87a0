//! C27: the prover's owned witness storage is erased on every exit.
//!
//! The monitor is the program's allocator. Blocks allocated inside calls of the prover are
//! recorded; when the prover is about to end, the recorded blocks that hold witness values are
//! marked as its witness storage (growing a block keeps the mark), and from then on each marked
//! block is scanned at the moment it is released. A marked block that is never released is
//! scanned at the end.
use ark_ec::AffineRepr;
use ark_ff::{Field, UniformRand};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::cycles::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use rand::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

// ---------------------------------------------------------------- the allocator

const CTXS: usize = 32;
const SLOTS: usize = 1 << 15;
const FINDS: usize = 32;

#[derive(Clone, Copy)]
struct Slot {
    ptr: usize,
    size: usize,
    owned: bool,
}
struct Inner {
    gen: u64,
    /// sorted (limb, witness index)
    patterns: *const (u64, u32),
    n_patterns: usize,
    slots: [Slot; SLOTS],
    free: [u32; SLOTS],
    n_free: usize,
    next: usize,
    finds: [(u32, usize, usize); FINDS],
    n_finds: usize,
    released: u64,
    moved: u64,
    overflow: u64,
}
struct Ctx {
    lock: AtomicBool,
    inner: UnsafeCell<Inner>,
}
unsafe impl Sync for Ctx {}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Ctx = Ctx {
    lock: AtomicBool::new(false),
    inner: UnsafeCell::new(Inner {
        gen: 0,
        patterns: std::ptr::null(),
        n_patterns: 0,
        slots: [Slot { ptr: 0, size: 0, owned: false }; SLOTS],
        free: [0; SLOTS],
        n_free: 0,
        next: 0,
        finds: [(0, 0, 0); FINDS],
        n_finds: 0,
        released: 0,
        moved: 0,
        overflow: 0,
    }),
};
static CTX: [Ctx; CTXS] = [EMPTY; CTXS];
static NEXT_CTX: AtomicU32 = AtomicU32::new(0);
static GEN: AtomicU64 = AtomicU64::new(1);

thread_local! {
    /// the context allocations on this thread are recorded in, plus one; 0 when off
    static ON: Cell<u32> = const { Cell::new(0) };
    static MINE: Cell<u32> = const { Cell::new(u32::MAX) };
}

fn with<R>(ctx: usize, f: impl FnOnce(&mut Inner) -> R) -> R {
    let c = &CTX[ctx];
    while c.lock.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *c.inner.get() });
    c.lock.store(false, SeqCst);
    r
}

impl Inner {
    /// the first witness value found in a block, with its offset
    unsafe fn scan(&self, ptr: usize, size: usize, all: bool, mut hit: impl FnMut(u32, usize)) {
        if self.n_patterns == 0 {
            return;
        }
        let pats = std::slice::from_raw_parts(self.patterns, self.n_patterns);
        for k in 0..size / 8 {
            let w = *((ptr + 8 * k) as *const u64);
            if w == 0 {
                continue;
            }
            if let Ok(i) = pats.binary_search_by(|p| p.0.cmp(&w)) {
                hit(pats[i].1, 8 * k);
                if !all {
                    return;
                }
            }
        }
    }
    fn judge(&mut self, s: usize) {
        let Slot { ptr, size, .. } = self.slots[s];
        let mut found = None;
        unsafe { self.scan(ptr, size, false, |w, off| found = Some((w, off))) };
        if let Some((w, off)) = found {
            if self.n_finds < FINDS {
                self.finds[self.n_finds] = (w, off, size);
            }
            self.n_finds += 1;
        }
    }
}

struct Watching;
#[global_allocator]
static ALLOC: Watching = Watching;

/// header: generation, then (context << 32 | slot + 1), 0 when not recorded
fn offset(l: &Layout) -> usize {
    l.align().max(16)
}
unsafe fn outer(l: &Layout, size: usize) -> Layout {
    Layout::from_size_align_unchecked(size + offset(l), l.align().max(16))
}
unsafe fn head(p: *mut u8) -> (*mut u64, *mut u64) {
    ((p as usize - 16) as *mut u64, (p as usize - 8) as *mut u64)
}
unsafe fn record(p: *mut u8, size: usize) {
    let (g, s) = head(p);
    *s = 0;
    let on = ON.try_with(|o| o.get()).unwrap_or(0);
    if on == 0 {
        return;
    }
    with(on as usize - 1, |i| {
        let k = if i.n_free > 0 {
            i.n_free -= 1;
            i.free[i.n_free] as usize
        } else if i.next < SLOTS {
            i.next += 1;
            i.next - 1
        } else {
            i.overflow += 1;
            return;
        };
        i.slots[k] = Slot { ptr: p as usize, size, owned: false };
        *g = i.gen;
        *s = ((on as u64 - 1) << 32) | (k as u64 + 1);
    });
}
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(outer(&l, l.size()));
        if p.is_null() {
            return p;
        }
        let p = p.add(offset(&l));
        record(p, l.size());
        if *head(p).1 != 0 {
            // nothing of an earlier block shows in the part that is not written yet
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(outer(&l, l.size()));
        if p.is_null() {
            return p;
        }
        let p = p.add(offset(&l));
        record(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (g, s) = head(p);
        let (g, s) = (*g, *s);
        if s != 0 {
            with((s >> 32) as usize, |i| {
                if i.gen == g {
                    let k = (s as u32 - 1) as usize;
                    if i.slots[k].owned {
                        i.judge(k);
                        i.released += 1;
                    }
                    i.slots[k] = Slot { ptr: 0, size: 0, owned: false };
                    i.free[i.n_free] = k as u32;
                    i.n_free += 1;
                }
            });
        }
        System.dealloc(p.sub(offset(&l)), outer(&l, l.size()));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p.sub(offset(&l)), outer(&l, l.size()), size + offset(&l));
        if q.is_null() {
            return q;
        }
        let q = q.add(offset(&l));
        let (g, s) = head(q);
        let (g, s) = (*g, *s);
        if s != 0 {
            if size > l.size() {
                std::ptr::write_bytes(q.add(l.size()), 0, size - l.size());
            }
            with((s >> 32) as usize, |i| {
                if i.gen == g {
                    let k = (s as u32 - 1) as usize;
                    i.slots[k].ptr = q as usize;
                    i.slots[k].size = size;
                    i.moved += i.slots[k].owned as u64;
                }
            });
        }
        q
    }
}

/// The monitor of one prover's life.
struct Watch {
    ctx: usize,
    patterns: Vec<(u64, u32)>,
    names: Vec<String>,
    located: HashSet<u32>,
}
impl Watch {
    fn begin() -> Watch {
        let ctx = MINE.with(|m| {
            if m.get() == u32::MAX {
                m.set(NEXT_CTX.fetch_add(1, SeqCst));
            }
            m.get() as usize
        });
        assert!(ctx < CTXS);
        with(ctx, |i| {
            i.gen = GEN.fetch_add(1, SeqCst);
            i.n_patterns = 0;
            i.n_free = 0;
            i.next = 0;
            i.n_finds = 0;
            i.released = 0;
            i.moved = 0;
            i.overflow = 0;
        });
        Watch { ctx, patterns: vec![], names: vec![], located: HashSet::new() }
    }
    fn id(&self) -> u32 {
        self.ctx as u32 + 1
    }
    /// A witness value whose limbs are to be looked for. Values are random, so that a limb of one
    /// appears nowhere else by chance.
    fn secret<F: Field>(&mut self, name: String, x: &F) {
        self.secret_as(name, x)
    }
    fn secret_as<F: Field>(&mut self, name: String, x: &F) {
        let n = std::mem::size_of::<F>() / 8;
        let w: &[u64] = unsafe { std::slice::from_raw_parts(x as *const F as *const u64, n) };
        let id = self.names.len() as u32;
        self.names.push(name);
        for l in w {
            if *l >> 40 != 0 && *l >> 40 != (1 << 24) - 1 {
                self.patterns.push((*l, id));
            }
        }
        self.patterns.sort();
    }
    /// Mark the recorded blocks that hold witness values now.
    fn mark(&mut self, from: u32) -> usize {
        // `from`: values recorded before this one do not make a block the prover's own
        let off = ON.with(|o| o.replace(0));
        let mut hits: Vec<u32> = Vec::with_capacity(4 * self.patterns.len() + 64);
        let room = hits.capacity();
        let n = with(self.ctx, |i| {
            i.patterns = self.patterns.as_ptr();
            i.n_patterns = self.patterns.len();
            let mut n = 0;
            for k in 0..i.next {
                let Slot { ptr, size, .. } = i.slots[k];
                if ptr == 0 {
                    continue;
                }
                let mut any = false;
                unsafe {
                    i.scan(ptr, size, true, |w, _| {
                        any |= w >= from;
                        if hits.len() < room {
                            hits.push(w);
                        }
                    })
                };
                if any {
                    i.slots[k].owned = true;
                    n += 1;
                }
            }
            n
        });
        self.located.extend(hits);
        ON.with(|o| o.set(off));
        n
    }
    /// After the end: no marked block was released with a witness value, none still holds one.
    fn end(&mut self, c: &mut Case, how: &str) {
        let (finds, n, released, moved, live, overflow) = with(self.ctx, |i| {
            let mut live = 0;
            for k in 0..i.next {
                if i.slots[k].ptr != 0 && i.slots[k].owned {
                    live += 1;
                    i.judge(k);
                }
            }
            i.n_patterns = 0;
            i.gen = GEN.fetch_add(1, SeqCst);
            (i.finds, i.n_finds, i.released, i.moved, live, i.overflow)
        });
        c.eval();
        for (w, off, size) in finds.iter().take(n.min(4)) {
            c.fail(format!("{}: {} survives at offset {} of a block of {} bytes that the prover held ({} of {} blocks)",
                how, self.names[*w as usize], off, size, n, released + live));
        }
        if overflow > 0 {
            c.inconclusive("too many blocks to record");
        }
        c.count("witness blocks scanned at release", released);
        c.count("witness blocks never released", live);
        c.count("witness blocks that grew", moved);
        c.count("witness values", self.names.len() as u64);
        c.count("witness values located in the prover's storage", self.located.len() as u64);
        c.count(&format!("ended by {}", how), 1);
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        with(self.ctx, |i| {
            i.n_patterns = 0;
            i.gen = GEN.fetch_add(1, SeqCst);
        });
    }
}
/// Record what is allocated in `f`.
fn rec<R>(id: u32, f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            ON.with(|o| o.set(self.0));
        }
    }
    let _b = Back(ON.with(|o| o.replace(id)));
    f()
}
fn pause<R>(f: impl FnOnce() -> R) -> R {
    rec(0, f)
}

// ---------------------------------------------------------------- programs

#[derive(Clone, Debug)]
enum Step<F: Field> {
    Commit(F, F),
    Vector(Vec<F>, F),
    Alloc(F),
    AllocMul(F, F),
    Mul(Vec<(usize, F)>, Vec<(usize, F)>),
    Con(Vec<(usize, F)>),
}
fn steps<F: Field, R: Rng>(rng: &mut R, vectors: bool, width: usize, len: usize) -> Vec<Step<F>> {
    let mut out = vec![];
    for _ in 0..len {
        out.push(match rng.gen_range(0..if vectors { 12 } else { 10 }) {
            0 | 1 => Step::Commit(F::rand(rng), F::rand(rng)),
            2 | 3 => Step::Alloc(F::rand(rng)),
            4 | 5 | 6 => Step::AllocMul(F::rand(rng), F::rand(rng)),
            7 | 8 => {
                let mut lc = || (0..rng.gen_range(1..4)).map(|_| (rng.gen_range(0..1000), F::rand(rng))).collect();
                Step::Mul(lc(), lc())
            }
            9 => Step::Con((0..rng.gen_range(1..4)).map(|_| (rng.gen_range(0..1000), F::rand(rng))).collect()),
            _ => {
                let n = rng.gen_range(1..=width.max(1));
                Step::Vector((0..n).map(|_| F::rand(rng)).collect(), F::rand(rng))
            }
        });
    }
    out
}

/// Where a program stands: its variables and their values.
struct State<F: Field> {
    vars: Vec<(Variable<F>, F)>,
    pending: Option<F>,
    count: usize,
}
impl<F: Field> State<F> {
    fn new() -> Self {
        State { vars: vec![], pending: None, count: 0 }
    }
    fn lc(&self, t: &[(usize, F)]) -> (LinearCombination<F>, F) {
        let mut lc = LinearCombination::default();
        let mut val = F::zero();
        for (k, co) in t {
            if self.vars.is_empty() {
                break;
            }
            let (v, x) = self.vars[k % self.vars.len()];
            lc = lc + v * *co;
            val += x * co;
        }
        (lc, val)
    }
    /// one step on any constraint system; commitments only on a prover
    fn low<CS: ConstraintSystem<F>>(&mut self, id: u32, cs: &mut CS, s: &Step<F>, w: &mut Watch, tag: &str) {
        let k = self.count;
        self.count += 1;
        match s {
            Step::Alloc(x) => {
                let v = rec(id, || cs.allocate(Some(*x))).unwrap();
                self.vars.push((v, *x));
                w.secret(format!("allocated {} {}{}", if self.pending.is_some() { "right" } else { "left" }, tag, k), x);
                self.pending = match self.pending {
                    None => Some(*x),
                    Some(l) => {
                        w.secret(format!("output of allocated pair {}{}", tag, k), &(l * x));
                        None
                    }
                };
            }
            Step::AllocMul(a, b) => {
                let (l, r, o) = rec(id, || cs.allocate_multiplier(Some((*a, *b)))).unwrap();
                self.vars.extend([(l, *a), (r, *b), (o, *a * b)]);
                w.secret(format!("left input {}{}", tag, k), a);
                w.secret(format!("right input {}{}", tag, k), b);
                w.secret(format!("output {}{}", tag, k), &(*a * b));
            }
            Step::Mul(a, b) => {
                let (la, a) = self.lc(a);
                let (lb, b) = self.lc(b);
                let (l, r, o) = rec(id, || cs.multiply(la, lb));
                self.vars.extend([(l, a), (r, b), (o, a * b)]);
                w.secret(format!("left input {}{}", tag, k), &a);
                w.secret(format!("right input {}{}", tag, k), &b);
                w.secret(format!("output {}{}", tag, k), &(a * b));
            }
            Step::Con(t) => {
                // constrain a combination to a random multiple of another variable; that it does
                // not hold is none of the prover's business
                let (lc, _) = self.lc(t);
                rec(id, || cs.constrain(lc));
            }
            _ => unreachable!(),
        }
    }
    fn step<C: AffineRepr<ScalarField = F>, T: std::borrow::BorrowMut<Transcript>>(
        &mut self,
        p: &mut Prover<'_, T, C>,
        s: &Step<F>,
        w: &mut Watch,
        bp: &BulletproofGens<C>,
    ) {
        let id = w.id();
        let k = self.count;
        match s {
            Step::Commit(x, b) => {
                self.count += 1;
                let (_, v) = rec(id, || p.commit(*x, *b));
                self.vars.push((v, *x));
                w.secret(format!("committed value {}", k), x);
                w.secret(format!("blinding {}", k), b);
            }
            Step::Vector(xs, b) => {
                self.count += 1;
                let (_, vs) = rec(id, || p.commit_vec(xs, *b, bp));
                for (i, (v, x)) in vs.into_iter().zip(xs).enumerate() {
                    self.vars.push((v, *x));
                    w.secret(format!("element {} of vector {}", i, k), x);
                }
                w.secret(format!("vector blinding {}", k), b);
            }
            other => self.low(id, p, other, w, ""),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Unused,
    UnusedElsewhere,
    UserPanic,
    CommitPanic,
    MissingAssignment,
    Proof,
    ProofAndTranscript,
    TwoPhase,
    TwoPhaseMore,
    FewGens,
    FewGensLate,
    CallbackError,
    CallbackMissing,
    CallbackPanic,
    LatePanic,
    ManyVectors,
}
const ENDS: [End; 16] = [
    End::Unused,
    End::UnusedElsewhere,
    End::UserPanic,
    End::CommitPanic,
    End::MissingAssignment,
    End::Proof,
    End::ProofAndTranscript,
    End::TwoPhase,
    End::TwoPhaseMore,
    End::FewGens,
    End::FewGensLate,
    End::CallbackError,
    End::CallbackMissing,
    End::CallbackPanic,
    End::LatePanic,
    End::ManyVectors,
];

const GENS: usize = 64;

// The watch of the running case, for the callbacks, which run inside `prove`.
thread_local! {
    static WATCH: Cell<*mut Watch> = const { Cell::new(std::ptr::null_mut()) };
}

/// Register callbacks; the last one ends as `end` says.
fn callbacks<P: Curve, T: std::borrow::BorrowMut<Transcript>>(
    p: &mut Prover<'_, T, Aff<P>>,
    id: u32,
    phase2: Vec<Vec<Step<Fr<P>>>>,
    end: End,
) {
    let n = phase2.len();
    for (k, st) in phase2.into_iter().enumerate() {
        let st = Arc::new(st);
        let s2 = st.clone();
        // the closure holds no witness value in a block of its own
        rec(id, || {
            p.specify_randomized_constraints(move |cs| {
                pause(|| {
                    let w: &mut Watch = unsafe { &mut *WATCH.with(|w| w.get()) };
                    let first = w.names.len() as u32;
                    let mut s = State::new();
                    for x in s2.iter() {
                        s.low(id, cs, x, w, &format!("of callback {} ", k));
                    }
                    let ch = cs.challenge_scalar(b"c27");
                    rec(id, || cs.constrain(LinearCombination::from(ch) - ch));
                    w.mark(first);
                    if k + 1 == n {
                        match end {
                            End::CallbackError => return Err(R1CSError::GadgetError { description: "stop".into() }),
                            End::CallbackMissing => {
                                cs.allocate(None)?;
                            }
                            End::CallbackPanic => panic!("callback"),
                            _ => {}
                        }
                    }
                    Ok(())
                })
            })
        })
        .unwrap();
        drop(st);
    }
}

fn life<P: Curve>(c: &mut Case, end: End) {
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(GENS, 1);
    let vectors = match end {
        End::CommitPanic => c.coin(),
        End::TwoPhaseMore | End::FewGensLate => false,
        End::LatePanic | End::ManyVectors => true,
        _ => c.coin(),
    };
    let len = 1 + c.below(14);
    let mut prog = steps::<Fr<P>, _>(&mut c.rng, vectors, 9, len);
    match end {
        End::ManyVectors => {
            for _ in 0..18 {
                let at = c.below(prog.len() + 1);
                let n = 1 + c.below(3);
                let v = Step::Vector((0..n).map(|_| UniformRand::rand(&mut c.rng)).collect(), UniformRand::rand(&mut c.rng));
                prog.insert(at, v);
            }
        }
        End::LatePanic => {
            prog.push(Step::Vector(vec![UniformRand::rand(&mut c.rng)], UniformRand::rand(&mut c.rng)));
        }
        End::FewGens => {
            for _ in 0..3 {
                prog.push(Step::AllocMul(UniformRand::rand(&mut c.rng), UniformRand::rand(&mut c.rng)));
            }
        }
        _ => {}
    }
    let has_vec = prog.iter().any(|s| matches!(s, Step::Vector(..)));
    // multipliers in callbacks
    let phase2: Vec<Vec<Step<Fr<P>>>> = match end {
        End::TwoPhase | End::TwoPhaseMore | End::FewGensLate | End::CallbackError | End::CallbackMissing | End::CallbackPanic | End::LatePanic => {
            let n = 1 + c.below(3);
            let may = !has_vec || end == End::LatePanic || matches!(end, End::CallbackError | End::CallbackMissing | End::CallbackPanic);
            let mut cbs: Vec<Vec<_>> = (0..n)
                .map(|_| {
                    let l = if may { c.below(6) } else { 0 };
                    steps::<Fr<P>, _>(&mut c.rng, false, 0, l).into_iter().filter(|s| !matches!(s, Step::Commit(..))).collect()
                })
                .collect();
            let need = match end {
                End::LatePanic | End::TwoPhaseMore => 1,
                End::FewGensLate => 12,
                _ => 0,
            };
            for _ in 0..need {
                cbs[0].push(Step::AllocMul(UniformRand::rand(&mut c.rng), UniformRand::rand(&mut c.rng)));
            }
            cbs
        }
        _ => vec![],
    };
    let how = format!("{:?}", end);
    c.describe(format!("{} {:?} {} steps, callbacks {:?}", P::NAME, end, prog.len(), phase2.iter().map(|p| p.len()).collect::<Vec<_>>()));
    c.distinct(&format!("{:?} {} {:?} {:?}", end, P::NAME, shape(&prog), phase2.iter().map(|p| shape(p)).collect::<Vec<_>>()));

    let mut w = Watch::begin();
    let wp: *mut Watch = &mut w;
    WATCH.with(|x| x.set(wp));
    let id = w.id();
    let mut tr = Transcript::new(b"c27");
    let own = end == End::ProofAndTranscript || end == End::UnusedElsewhere || c.coin();
    let mut result: Result<(), String> = Ok(());
    macro_rules! run {
        ($tr:expr, $fin:expr) => {{
            let mut p: Prover<_, Aff<P>> = rec(id, || Prover::new(&pc, $tr));
            let mut st = State::new();
            for s in &prog {
                st.step(&mut p, s, &mut w, &bp);
            }
            callbacks::<P, _>(&mut p, id, phase2.clone(), end);
            w.mark(0);
            let gens = match end {
                End::FewGens => BulletproofGens::<Aff<P>>::new(c.below(st_mults(&prog).max(1)), 1),
                End::FewGensLate => BulletproofGens::<Aff<P>>::new(pad1(&prog), 1),
                _ => bp.clone(),
            };
            match end {
                End::Unused => drop(p),
                End::UserPanic => {
                    result = guard(|| {
                        let _p = p;
                        panic!("the user of the prover panics")
                    });
                }
                End::CommitPanic => {
                    let long: Vec<Fr<P>> = (0..GENS + 1).map(|_| UniformRand::rand(&mut c.rng)).collect();
                    let b = UniformRand::rand(&mut c.rng);
                    result = guard(|| {
                        let mut p = p;
                        p.commit_vec(&long, b, &bp);
                    });
                }
                End::MissingAssignment => {
                    let r = (|| {
                        let mut p = p;
                        p.allocate_multiplier(None)?;
                        p.prove(&bp)
                    })();
                    result = r.map(|_| ()).map_err(|e| format!("{:?}", e));
                }
                End::ProofAndTranscript => {
                    let r = guard(|| rec(id, || p.prove_and_return_transcript(&gens).map(|_| ()).map_err(|e| format!("{:?}", e))));
                    result = r.and_then(|x| x);
                }
                _ => {
                    let fin: fn(Prover<'_, _, Aff<P>>, &BulletproofGens<Aff<P>>) -> Result<(), String> = $fin;
                    let r = guard(|| rec(id, || fin(p, &gens)));
                    result = r.and_then(|x| x);
                }
            }
        }};
    }
    if end == End::UnusedElsewhere {
        let mut p: Prover<_, Aff<P>> = rec(id, || Prover::new(&pc, tr));
        let mut st = State::new();
        for s in &prog {
            st.step(&mut p, s, &mut w, &bp);
        }
        w.mark(0);
        std::thread::scope(|s| {
            s.spawn(move || drop(p));
        });
    } else if own {
        run!(tr, |p: Prover<'_, Transcript, Aff<P>>, g| p.prove(g).map(|_| ()).map_err(|e| format!("{:?}", e)));
    } else {
        run!(&mut tr, |p: Prover<'_, &mut Transcript, Aff<P>>, g| p.prove(g).map(|_| ()).map_err(|e| format!("{:?}", e)));
    }
    WATCH.with(|x| x.set(std::ptr::null_mut()));
    // did the life end as planned?
    let planned = match end {
        End::Unused | End::UnusedElsewhere | End::Proof | End::ProofAndTranscript | End::TwoPhase | End::TwoPhaseMore => result.is_ok(),
        _ => result.is_err(),
    };
    if planned {
        c.count("lives that ended as planned", 1);
    } else {
        c.count("lives that ended otherwise", 1);
        c.sample(|| format!("{:?} ended with {:?}", end, result));
    }
    let located = w.located.len();
    let total = w.names.len();
    w.end(c, &how);
    c.sample(|| format!("{} {:?}: {} of {} witness values located, result {:?}", P::NAME, end, located, total, result));
}

fn shape<F: Field>(p: &[Step<F>]) -> String {
    p.iter()
        .map(|s| match s {
            Step::Commit(..) => "c".into(),
            Step::Vector(v, _) => format!("v{}", v.len()),
            Step::Alloc(_) => "a".into(),
            Step::AllocMul(..) => "m".into(),
            Step::Mul(a, b) => format!("x{}{}", a.len(), b.len()),
            Step::Con(_) => "k".to_string(),
        })
        .collect()
}
fn st_mults<F: Field>(p: &[Step<F>]) -> usize {
    let m = p.iter().filter(|s| matches!(s, Step::AllocMul(..) | Step::Mul(..))).count();
    let a = p.iter().filter(|s| matches!(s, Step::Alloc(_))).count();
    let v = p.iter().map(|s| if let Step::Vector(v, _) = s { v.len() } else { 0 }).max().unwrap_or(0);
    (m + a.div_ceil(2)).max(v)
}
fn pad1<F: Field>(p: &[Step<F>]) -> usize {
    st_mults(p).max(1)
}

// ---------------------------------------------------------------- provers of the library

fn words<F: Field>(xs: &[F]) -> Vec<u64> {
    let n = std::mem::size_of::<F>() / 8;
    xs.iter().flat_map(|x| unsafe { std::slice::from_raw_parts(x as *const F as *const u64, n) }.to_vec()).collect()
}
/// The assignment of a prover, read back through its public evaluation, as the sequences it is
/// made of.
fn assignment<P: Curve>(p: &Prover<'_, Transcript, Aff<P>>) -> Vec<(String, Vec<Fr<P>>)> {
    let n = p.metrics().multipliers;
    let seq = |f: &dyn Fn(usize) -> Variable<Fr<P>>, n: usize| (0..n).map(|i| p.eval(&f(i).into())).collect::<Vec<_>>();
    let mut out = vec![
        ("left input".to_string(), seq(&|i| Variable::MultiplierLeft(i), n)),
        ("right input".to_string(), seq(&|i| Variable::MultiplierRight(i), n)),
        ("output".to_string(), seq(&|i| Variable::MultiplierOutput(i), n)),
    ];
    for j in 0..40 {
        let mut v = vec![];
        while let Ok(x) = guard(|| p.eval(&Variable::VectorCommit(j, v.len()).into())) {
            v.push(x);
        }
        if v.is_empty() {
            break;
        }
        out.push((format!("vector {} element", j), v));
    }
    out
}
impl Watch {
    /// Mark the recorded blocks that hold one of the sequences.
    fn mark_sequences(&mut self, seqs: &[(String, Vec<u64>)]) -> usize {
        let mut found = 0;
        for (_, s) in seqs {
            // a run of up to 12 elements
            let run = &s[..s.len().min(48)];
            if run.iter().all(|w| *w == 0) {
                continue;
            }
            with(self.ctx, |i| {
                for k in 0..i.next {
                    let Slot { ptr, size, .. } = i.slots[k];
                    if ptr == 0 || size < 8 * run.len() {
                        continue;
                    }
                    let b = unsafe { std::slice::from_raw_parts(ptr as *const u64, size / 8) };
                    if b.windows(run.len()).any(|w| w == run) {
                        i.slots[k].owned = true;
                        found += 1;
                    }
                }
            });
        }
        with(self.ctx, |i| {
            i.patterns = self.patterns.as_ptr();
            i.n_patterns = self.patterns.len();
        });
        found
    }
    fn secrets<F: Field>(&mut self, seqs: &[(String, Vec<F>)]) {
        for (n, s) in seqs {
            for (k, x) in s.iter().enumerate() {
                let id = self.names.len() as u32;
                self.names.push(format!("{} {}", n, k));
                for l in words(&[*x]) {
                    if l >> 40 != 0 && l >> 40 != (1 << 24) - 1 {
                        self.patterns.push((l, id));
                    }
                }
            }
        }
        self.patterns.sort();
        self.patterns.dedup_by_key(|p| p.0);
    }
}

fn finish<P: Curve>(c: &mut Case, p: Prover<'_, Transcript, Aff<P>>, id: u32, how: u64, bp: &BulletproofGens<Aff<P>>) {
    match how {
        0 => drop(p),
        1 => {
            let r = guard(|| rec(id, || p.prove(bp).map(|_| ())));
            c.check(matches!(r, Ok(Ok(()))), || format!("an honest program has no proof: {:?}", r));
        }
        2 => {
            let few = BulletproofGens::<Aff<P>>::new(3, 1);
            let r = guard(|| rec(id, || p.prove(&few).map(|_| ())));
            c.check(matches!(r, Ok(Err(R1CSError::InvalidGeneratorsLength))), || format!("proof with three generators: {:?}", r));
        }
        _ => {
            let _ = guard(|| {
                let _p = p;
                panic!("the user of the prover panics")
            });
        }
    }
}
const HOW: [&str; 4] = ["dropping a library prover", "a library proof", "a library prover's error", "a panic with a library prover"];

fn library<K: ctmon::tree::Cycle>(c: &mut Case) {
    use ctmon::tree::*;
    let mut rng = c.sub_rng();
    let how = (c.idx / 2) % 4;
    let mut w = Watch::begin();
    let id = w.id();
    if c.idx % 2 == 0 {
        // range proofs in a row over committed values and vectors
        let p = params::<K>(256);
        let mut ep: EvenProver<K> = rec(id, || Prover::new(&p.even_parameters.pc_gens, Transcript::new(b"c27")));
        let vals: Vec<u64> = (0..1 + c.below(3)).map(|_| rng.gen()).collect();
        let mut com: Vec<(String, Vec<K::F0>)> = vec![];
        for v in &vals {
            let b = K::F0::rand(&mut rng);
            let (_, x) = rec(id, || ep.commit(K::F0::from(*v), b));
            rec(id, || relations::range_proof::range_proof(&mut ep, x.into(), Some(*v), 64)).unwrap();
            com.push(("blinding".into(), vec![b]));
        }
        let open = vec![K::F0::from(vals[0]), K::F0::rand(&mut rng)];
        let b = K::F0::rand(&mut rng);
        let (_, xs) = rec(id, || ep.commit_vec(&open, b, &p.even_parameters.bp_gens));
        rec(id, || relations::range_proof::range_proof(&mut ep, xs[0].into(), Some(vals[0]), 64)).unwrap();
        c.describe(format!("{} range proofs of {:?}, ended by {}", K::P0::NAME, vals, HOW[how as usize]));
        c.distinct(&format!("range {} {:?} {}", K::P0::NAME, vals, how));
        let mut a = assignment::<K::P0>(&ep);
        a.push(("committed value".into(), vals.iter().map(|v| K::F0::from(*v)).collect()));
        a.push(("blinding".into(), com.iter().map(|x| x.1[0]).collect()));
        w.secrets(&a);
        // the vector's blinding lies beside the pointer to its values
        w.secrets(&[("vector blinding".to_string(), vec![b])]);
        a.push(("vector blinding".into(), vec![b]));
        let s: Vec<_> = a.iter().map(|(n, x)| (n.clone(), words(x))).collect();
        let f = w.mark_sequences(&s);
        c.count("sequences of library provers located", f as u64);
        c.count("sequences of library provers", s.len() as u64);
        finish::<K::P0>(c, ep, id, how, &p.even_parameters.bp_gens);
    } else {
        let p = params::<K>(2048);
        let n = 1 + c.below(6);
        let l = leaves::<K, _>(n, p, &mut rng);
        let t = Tree::<K, 4, 1>::from_set(&l, p, Some(3));
        let at = c.below(n);
        let mut ep: EvenProver<K> = rec(id, || Prover::new(&p.even_parameters.pc_gens, Transcript::new(b"c27")));
        let mut op: OddProver<K> = rec(id, || Prover::new(&p.odd_parameters.pc_gens, Transcript::new(b"c27")));
        let got = guard(|| rec(id, || t.select_and_rerandomize_prover_gadget(at, 0, &mut ep, &mut op, p, &mut rng)));
        if got.is_err() {
            return;
        }
        c.describe(format!("{} path to leaf {} of {}, ended by {}", K::P0::NAME, at, n, HOW[how as usize]));
        c.distinct(&format!("path {} {} {} {}", K::P0::NAME, at, n, how));
        let a = assignment::<K::P0>(&ep);
        let b = assignment::<K::P1>(&op);
        w.secrets(&a);
        w.secrets(&b);
        let s: Vec<_> = a.iter().map(|(n, x)| (n.clone(), words(x))).chain(b.iter().map(|(n, x)| (n.clone(), words(x)))).collect();
        let f = w.mark_sequences(&s);
        c.count("sequences of library provers located", f as u64);
        c.count("sequences of library provers", s.len() as u64);
        finish::<K::P0>(c, ep, id, how, &p.even_parameters.bp_gens);
        finish::<K::P1>(c, op, id, how, &p.odd_parameters.bp_gens);
    }
    w.end(c, HOW[how as usize]);
}

fn main() {
    let mut r = Report::new(
        "C27",
        "provers on four curves whose life ends in each of sixteen ways; every block that holds the witness assignment is scanned when it is released",
    );
    r.stage("lives", 16 * 500, 16 * 12000, |c| {
        let end = ENDS[(c.idx % 16) as usize];
        on_curve!(c.idx / 16, life(c, end))
    });
    r.stage("library", 64, 1600, |c| match (c.idx / 8) % 4 {
        0 => library::<tree::PV>(c),
        1 => library::<tree::VP>(c),
        2 => library::<tree::SQ>(c),
        _ => library::<tree::QS>(c),
    });
    r.require("lives that ended as planned", 6000);
    r.require("witness blocks scanned at release", 20000);
    r.require("witness values located in the prover's storage", 100000);
    r.require("sequences of library provers located", 200);
    r.finish();
}
