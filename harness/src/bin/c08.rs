//! C08: zero knowledge by construction: every element of a proof is blinded by fresh, independent,
//! nonzero randomness; nothing is shared between proofs or between parts of one proof.
use ark_ec::AffineRepr;
use ark_ff::Zero;
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::capture::{self, MsmObs};
use ctmon::circuit::*;
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::refver::*;
use ctmon::report::Case;
use ctmon::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

const LABEL: &[u8] = b"c08";

/// every blinding value seen in this run, over all proofs, threads and curves
type Pool = Mutex<HashMap<Vec<u8>, String>>;

/// true if it was not there before
fn fresh(pool: &Pool, bytes: Vec<u8>, role: &str) -> Option<String> {
    pool.lock().unwrap().insert(bytes, role.to_string())
}

fn prog_with<P: Curve>(c: &mut Case) -> Arc<Program<Fr<P>>> {
    loop {
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 32 {
            return Arc::new(p);
        }
    }
}

struct Blind<P: Curve> {
    tag: String,
    v: Fr<P>,
}

/// Reads the blinding values of one proof off the recorded multi-scalar multiplications.
fn extract<P: Curve>(c: &mut Case, obs: &[MsmObs<P>], w: &Wire<P>, gens: &RefGens<P>, n1: usize, n: usize) -> Option<Vec<Blind<P>>> {
    let find = |p: &Aff<P>| obs.iter().find(|m| Aff::<P>::from(m.result) == *p);
    let coef = |m: &MsmObs<P>, p: &Aff<P>| {
        let mut s = Fr::<P>::zero();
        for (b, k) in m.bases.iter().zip(&m.scalars) {
            if b == p {
                s += k;
            }
        }
        s
    };
    let mut out = vec![];
    let two = n > n1;
    let names = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"];
    for (k, p) in w.first.iter().chain(w.second.iter()).enumerate() {
        if k >= 3 && !two {
            c.check(p.is_zero(), || format!("{} is present without a second phase", names[k]));
            continue;
        }
        let m = match find(p) {
            Some(m) => m,
            None => {
                c.inconclusive(format!("no multiplication observed for {}", names[k]));
                return None;
            }
        };
        out.push(Blind { tag: format!("{} blinding", names[k]), v: coef(m, &gens.bb) });
        if k == 2 || k == 5 {
            let r = if k == 2 { 0..n1 } else { n1..n };
            for i in r {
                out.push(Blind { tag: format!("{} mask of left wire", names[k]), v: coef(m, &gens.g[i]) });
                out.push(Blind { tag: format!("{} mask of right wire", names[k]), v: coef(m, &gens.h[i]) });
            }
        }
    }
    for (d, p) in w.t.iter().enumerate() {
        if p.is_zero() {
            continue;
        }
        match find(p) {
            Some(m) => out.push(Blind { tag: format!("T_{} blinding", d), v: coef(m, &gens.bb) }),
            None => {
                c.inconclusive(format!("no multiplication observed for T_{}", d));
                return None;
            }
        }
    }
    Some(out)
}

fn large<P: Curve>(c: &mut Case, pool: &Pool) {
    let shape = Shape::big(&mut c.rng, 400);
    let prog = Arc::new(Program::<Fr<P>>::random(&mut c.rng, shape));
    c.count("large systems", 1);
    blindings_of::<P>(c, pool, prog)
}

fn blindings<P: Curve>(c: &mut Case, pool: &Pool) {
    let prog = prog_with::<P>(c);
    blindings_of::<P>(c, pool, prog)
}

fn blindings_of<P: Curve>(c: &mut Case, pool: &Pool, prog: Arc<Program<Fr<P>>>) {
    let (n1, n) = prog.muls();
    let cap = n.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let gens = RefGens::<P>::new(cap);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let mut wires = vec![];
    let runs = 3;
    let witness: HashSet<Vec<u8>> = prog
        .values(&vec![Fr::<P>::zero(); prog.phase2.len()])
        .iter()
        .map(|v| point_bytes(v))
        .chain(prog.phase1.iter().filter_map(|o| match o {
            Op::Commit(_, r) | Op::CommitVec(_, r) => Some(point_bytes(r)),
            _ => None,
        }))
        .collect();
    for run in 0..runs {
        // identical inputs every time
        let (pr, obs) = capture::msms::<P, _>(|| prove::<P>(&prog, LABEL, &pc, &bp));
        let proof = pr.proof.expect("honest proof");
        let w = match Wire::<P>::decode(&proof.to_bytes()) {
            Some(w) => w,
            None => return c.fail("unreadable proof"),
        };
        if let Some(bl) = extract::<P>(c, &obs, &w, &gens, n1, n) {
            c.count("blinding values observed", bl.len() as u64);
            for b in bl {
                c.check(!b.v.is_zero(), || format!("{} is zero", b.tag));
                let by = point_bytes(&b.v);
                // small values are not uniform
                c.check(by[16..31].iter().any(|x| *x != 0), || format!("{} is a short number", b.tag));
                c.check(!witness.contains(&by), || format!("{} equals a witness value", b.tag));
                let neg = point_bytes(&-b.v);
                let role = format!("{} run {} case {}", b.tag, run, c.idx);
                if let Some(prev) = fresh(pool, by, &role) {
                    c.fail(format!("{} repeats the value of {}", role, prev));
                } else {
                    c.eval();
                }
                if pool.lock().unwrap().contains_key(&neg) {
                    c.fail(format!("{} is the negative of an earlier blinding", role));
                }
            }
        }
        // what goes into the proof in the clear
        let open = [("t_x_blinding", w.scalars[1]), ("e_blinding", w.scalars[2])];
        for (name, s) in open {
            c.check(!s.is_zero(), || format!("{} is zero", name));
            if let Some(prev) = fresh(pool, point_bytes(&s), name) {
                c.fail(format!("{} repeats {}", name, prev));
            }
        }
        if n > 0 {
            for (name, s) in [("a", w.ab[0]), ("b", w.ab[1]), ("t_x", w.scalars[0])] {
                if let Some(prev) = fresh(pool, point_bytes(&s), name) {
                    c.fail(format!("{} repeats {}", name, prev));
                }
            }
        }
        wires.push(w);
    }
    // nothing repeats between proofs of the same statement with the same witness
    for i in 0..runs {
        for j in 0..i {
            let (mut a, mut b) = (wires[i].clone(), wires[j].clone());
            let same = a
                .points_mut()
                .iter()
                .zip(b.points_mut().iter())
                .enumerate()
                .filter(|(_, (x, y))| !x.is_zero() && x == y)
                .map(|x| x.0)
                .collect::<Vec<_>>();
            c.check(same.is_empty(), || format!("two proofs of the same statement share points {:?}", same));
            let same = a.scalars_mut().iter().zip(b.scalars_mut().iter()).filter(|(x, y)| x == y).count();
            c.check(n == 0 || same == 0, || format!("two proofs of the same statement share {} scalars", same));
        }
    }
    c.count("proofs compared", runs as u64);
    c.sample(|| d);
}

/// A distinguisher that knows the witness exactly: a proof must not be explained by a witness
/// without its blinding. For each commitment, subtracting the known wire part must leave a multiple
/// of the blinding generator that is not trivial.
fn explained<P: Curve>(c: &mut Case) {
    let f = |x: u64| Fr::<P>::from(x);
    let n = 1 + c.below(4);
    let vals: Vec<(Fr<P>, Fr<P>)> = (0..n).map(|_| (edge_scalar(&mut c.rng), edge_scalar(&mut c.rng))).collect();
    let prog = Arc::new(Program::<Fr<P>> {
        phase1: vals.iter().map(|(a, b)| Op::AllocMul(vec![*a], vec![*b])).collect(),
        phase2: vec![],
    });
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(4, 1);
    let gens = RefGens::<P>::new(4);
    let pr = prove::<P>(&prog, LABEL, &pc, &bp);
    let w = match Wire::<P>::decode(&pr.proof.expect("honest").to_bytes()) {
        Some(w) => w,
        None => return c.fail("unreadable proof"),
    };
    let mut ai = Proj::<P>::zero();
    let mut ao = Proj::<P>::zero();
    for (i, (a, b)) in vals.iter().enumerate() {
        ai += naive_mul::<P>(&gens.g[i], a) + naive_mul::<P>(&gens.h[i], b);
        ao += naive_mul::<P>(&gens.g[i], &(*a * b));
    }
    for (name, p, known) in [("A_I1", w.first[0], ai), ("A_O1", w.first[1], ao)] {
        let rest: Aff<P> = (Proj::<P>::from(p) - known).into();
        c.check(!rest.is_zero(), || format!("{} is the unblinded commitment to the wires", name));
        for k in 0..40u64 {
            let t: Aff<P> = naive_mul::<P>(&gens.bb, &f(k)).into();
            c.check(rest != t && rest != -t, || format!("{} is blinded by a guessable value", name));
        }
    }
    // S: not a combination explained by the wires either
    c.check(!w.first[2].is_zero() && w.first[2] != w.first[0] && w.first[2] != w.first[1], || "S1 carries no mask".into());
    let diff: Aff<P> = (Proj::<P>::from(w.first[2]) - w.first[0]).into();
    c.check(!diff.is_zero(), || "S1 equals A_I1".into());
    c.distinct(&format!("{} {} {}", P::NAME, n, c.idx));
}

/// Proofs made at the same time on many threads: still no repeats.
fn threads(c: &mut Case, pool: &Pool) {
    let pc = PedersenGens::<Aff<PallasC>>::default();
    let bp = BulletproofGens::<Aff<PallasC>>::new(4, 1);
    let prog = Arc::new(Program::<Fr<PallasC>> {
        phase1: vec![Op::Commit(Fr::<PallasC>::from(3u64), Fr::<PallasC>::from(4u64)), Op::AllocMul(vec![Fr::<PallasC>::from(2u64)], vec![Fr::<PallasC>::from(9u64)])],
        phase2: vec![],
    });
    let wires: Mutex<Vec<Wire<PallasC>>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                for _ in 0..4 {
                    let b = prove::<PallasC>(&prog, LABEL, &pc, &bp).proof.unwrap().to_bytes();
                    if let Some(w) = Wire::<PallasC>::decode(&b) {
                        wires.lock().unwrap().push(w);
                    }
                }
            });
        }
    });
    let ws = wires.into_inner().unwrap();
    for mut w in ws {
        for p in w.points_mut() {
            if !p.is_zero() {
                if let Some(_) = fresh(pool, point_bytes(p), "concurrent proof point") {
                    c.fail("two concurrent proofs share a point");
                }
            }
        }
        for s in w.scalars_mut() {
            if let Some(_) = fresh(pool, point_bytes(s), "concurrent proof scalar") {
                c.fail("two concurrent proofs share a scalar");
            }
        }
        c.count("proofs compared", 1);
        c.eval();
    }
    c.distinct(&format!("threads {}", c.idx));
}

fn main() {
    let mut r = Report::new(
        "C08",
        "Random systems over 4 curves, each proved three times with identical inputs: every blinding value (read off the recorded multi-scalar multiplications: wire commitments, masks, polynomial commitments) must be nonzero, long, different from the witness and from every other blinding value of the whole run; no point or scalar repeats between the proofs; commitments minus the known wires are not explained by guessable blindings; concurrent proofs share nothing. Distinct = curve and circuit shape.",
    );
    r.assume("the system's random source is unpredictable; the check decides that the code draws from it anew for every value");
    let pool: Pool = Mutex::new(HashMap::new());
    r.stage("blindings", 500, 15000, |c| {
        let i = c.idx as usize;
        let pool = &pool;
        on_curve!(i, blindings(c, pool))
    });
    r.stage("large", 16, 400, |c| {
        let i = c.idx as usize;
        let pool = &pool;
        on_curve!(i, large(c, pool))
    });
    r.stage("explained", 100, 2000, |c| {
        let i = c.idx as usize;
        on_curve!(i, explained(c))
    });
    r.stage_on("threads", 4, 60, 1, false, |c| threads(c, &pool));
    r.require("proofs compared", 20);
    r.finish()
}
