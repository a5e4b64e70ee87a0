//! C04: Fiat-Shamir: prover and verifier run the same transcript, and every prover-chosen value is
//! absorbed before the challenges that must depend on it.
use bulletproofs::{BulletproofGens, PedersenGens};
use ctmon::capture::{self, Event};
use ctmon::circuit::*;
use ctmon::codec::Wire;
use ctmon::cycles::*;
use ctmon::report::Case;
use ctmon::*;
use merlin::Transcript;
use ark_ec::CurveGroup;
use std::sync::Arc;

/// the events of one transcript instance, in order
#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Absorb(Vec<u8>, Vec<u8>),
    Challenge(Vec<u8>, Vec<u8>),
}

fn project(evs: &[Event]) -> Vec<Ev> {
    evs.iter()
        .filter_map(|e| match e {
            Event::Append { label, bytes, .. } => Some(Ev::Absorb(label.to_vec(), bytes.clone())),
            Event::Challenge { label, bytes, .. } => Some(Ev::Challenge(label.to_vec(), bytes.clone())),
            _ => None,
        })
        .collect()
}

/// Items that have to be absorbed, each before the k-th challenge (counting from 0).
fn spec<P: Curve>(prog: &Program<Fr<P>>, points: &[Aff<P>], w: &Wire<P>) -> Vec<(String, Vec<u8>, usize)> {
    let mut v = vec![];
    let mut scalars = 0;
    let mut it = points.iter();
    for o in &prog.phase1 {
        match o {
            Op::Commit(..) => {
                scalars += 1;
                v.push(("commitment".to_string(), point_bytes(it.next().unwrap()), 0))
            }
            Op::CommitVec(..) => v.push(("vector commitment".to_string(), point_bytes(it.next().unwrap()), 0)),
            Op::Msg(b) => v.push(("user message".to_string(), b.clone(), 0)),
            _ => {}
        }
    }
    v.push(("the number of commitments".to_string(), (scalars as u64).to_le_bytes().to_vec(), 0));
    v.extend(proof_items(w, prog.phase2.len()));
    v
}

/// The items of a proof, with `k` challenges drawn by second-phase callbacks.
fn proof_items<P: Curve>(w: &Wire<P>, k: usize) -> Vec<(String, Vec<u8>, usize)> {
    let mut v = vec![];
    for (n, p) in ["A_I1", "A_O1", "S1"].iter().zip(&w.first) {
        v.push((n.to_string(), point_bytes(p), 0));
    }
    for (n, p) in ["A_I2", "A_O2", "S2"].iter().zip(&w.second) {
        v.push((n.to_string(), point_bytes(p), k));
    }
    for (d, p) in w.t.iter().enumerate() {
        use ark_ec::AffineRepr;
        if !p.is_zero() {
            v.push((format!("T_{}", d), point_bytes(p), k + 2));
        }
    }
    for (n, s) in ["t_x", "t_x_blinding", "e_blinding"].iter().zip(&w.scalars) {
        v.push((n.to_string(), point_bytes(s), k + 4));
    }
    v.push(("the size of the inner product".to_string(), (1u64 << w.l.len()).to_le_bytes().to_vec(), k + 5));
    for (i, (l, r)) in w.l.iter().zip(&w.r).enumerate() {
        v.push((format!("L_{}", i), point_bytes(l), k + 5 + i));
        v.push((format!("R_{}", i), point_bytes(r), k + 5 + i));
    }
    v
}

/// The monitor: walks the log once; every item must occur, in order, before its challenge.
fn monitor(evs: &[Ev], items: &[(String, Vec<u8>, usize)], challenges: usize) -> Result<usize, String> {
    let mut next = 0;
    let mut seen = 0;
    for e in evs {
        match e {
            Ev::Absorb(_, b) => {
                if next < items.len() && items[next].1 == *b {
                    next += 1;
                }
            }
            Ev::Challenge(l, _) => {
                if let Some(i) = items[next..].iter().find(|i| i.2 <= seen) {
                    return Err(format!("challenge {} ({}) was drawn before {} was absorbed", seen, String::from_utf8_lossy(l), i.0));
                }
                seen += 1;
            }
        }
    }
    if next != items.len() {
        return Err(format!("{} was never absorbed", items[next].0));
    }
    if seen != challenges {
        return Err(format!("{} challenges were drawn, the protocol has {}", seen, challenges));
    }
    Ok(seen)
}

fn agree<P: Curve>(c: &mut Case) {
    let large = c.idx % 60 >= 56;
    let vectors = c.idx % 60 >= 52 && !large;
    let prog = loop {
        if vectors {
            let k = 5 + c.below(24);
            break Arc::new(Program::with_vectors(&mut c.rng, k, 3));
        }
        let shape = if large { Shape::big(&mut c.rng, 400) } else { Shape::random(&mut c.rng) };
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 64 || large {
            break Arc::new(p);
        }
    };
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    c.distinct(&d);
    let ((points, proof, mut tp), pe) = capture::transcript(|| {
        let t = Transcript::new(b"c04");
        let (p, points, _) = build_prover::<P, _>(&prog, t, &pc, &bp);
        let (proof, t) = p.prove_and_return_transcript(&bp).expect("honest proof");
        (points, proof, t)
    });
    let ((r, mut tv), ve) = capture::transcript(|| {
        let mut t = Transcript::new(b"c04");
        let r = build_verifier::<P, _>(&prog, &mut t, &points).0.verify(&proof, &pc, &bp);
        (r, t)
    });
    c.check(r.is_ok(), || format!("honest proof rejected {:?}", r));
    let (pe, ve) = (project(&pe), project(&ve));
    c.count("transcript events", (pe.len() + ve.len()) as u64);
    // identical logs
    let first = pe.iter().zip(&ve).position(|(a, b)| a != b);
    c.check(first.is_none() && pe.len() == ve.len(), || {
        format!("prover and verifier transcripts differ: {} vs {} events, first difference at {:?}: {:?} / {:?}", pe.len(), ve.len(), first, first.map(|i| &pe[i]), first.map(|i| &ve[i]))
    });
    let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
    tp.challenge_bytes(b"after", &mut a);
    tv.challenge_bytes(b"after", &mut b);
    c.check(a == b, || "the transcripts of prover and verifier end in different states".into());
    // order
    let w = match Wire::<P>::decode(&proof.to_bytes()) {
        Some(w) => w,
        None => return c.fail("unreadable proof"),
    };
    let items = spec::<P>(&prog, &points, &w);
    let nch = prog.phase2.len() + 5 + w.l.len();
    for (who, evs) in [("prover", &pe), ("verifier", &ve)] {
        match monitor(evs, &items, nch) {
            Ok(n) => {
                c.eval();
                c.count("challenges observed", n as u64);
                c.count("absorbed items matched", items.len() as u64);
            }
            Err(e) => c.fail(format!("{}: {}", who, e)),
        }
    }
    // all challenges distinct
    let mut ch: Vec<&Vec<u8>> = pe.iter().filter_map(|e| if let Ev::Challenge(_, b) = e { Some(b) } else { None }).collect();
    let n = ch.len();
    ch.sort();
    ch.dedup();
    c.check(ch.len() == n, || "two challenges are equal".into());
    // statement structure is bound: commitment kinds and counts end up in the log
    c.sample(|| format!("{}: {} events, {} items, {} challenges", d, pe.len(), items.len(), nch));
}

/// Two different statements or proofs never share a challenge (from the first differing item on).
fn binding<P: Curve>(c: &mut Case) {
    // programs that differ only in: a commitment, a message, the number of scalar commitments, the
    // presence of a second phase
    let f = |x: u64| Fr::<P>::from(x);
    let base = |n: usize, msg: &[u8], two: bool, v: u64| {
        let mut p = Program::<Fr<P>> { phase1: vec![], phase2: vec![] };
        for i in 0..n {
            p.phase1.push(Op::Commit(f(v + i as u64), f(3 + i as u64)));
        }
        p.phase1.push(Op::Msg(msg.to_vec()));
        p.phase1.push(Op::AllocMul(vec![f(2)], vec![f(5)]));
        if two {
            p.phase2.push(vec![]);
        }
        Arc::new(p)
    };
    let variants = [
        base(1, b"m", false, 4),
        base(1, b"m", false, 5),
        base(2, b"m", false, 4),
        base(1, b"n", false, 4),
        base(1, b"m", true, 4),
        base(0, b"m", false, 4),
    ];
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(2, 1);
    let mut logs = vec![];
    for v in &variants {
        let (_, e) = capture::transcript(|| prove::<P>(v, b"c04", &pc, &bp).proof.is_ok());
        logs.push(project(&e).into_iter().filter_map(|e| if let Ev::Challenge(_, b) = e { Some(b) } else { None }).collect::<Vec<_>>());
    }
    for i in 0..logs.len() {
        for j in 0..i {
            let n = logs[i].iter().filter(|x| logs[j].contains(x)).count();
            c.check(n == 0, || format!("statements {} and {} share {} challenges", i, j, n));
        }
    }
    c.distinct(&format!("binding {} {}", P::NAME, c.idx));
    // one proof, different statements on the verifier's side: the first challenges differ
    let pr = prove::<P>(&variants[0], b"c04", &pc, &bp);
    let proof = pr.proof.unwrap();
    let first = |v: &Arc<Program<Fr<P>>>, pts: &[Aff<P>], label: &'static [u8]| {
        let (_, e) = capture::transcript(|| circuit::verify::<P>(v, label, pts, &proof, &pc, &bp).is_ok());
        first_challenge(&project(&e))
    };
    let mut firsts = vec![("the statement".to_string(), first(&variants[0], &pr.points, b"c04"))];
    for k in 0..pr.points.len() {
        let mut pts = pr.points.clone();
        pts[k] = rand_point::<P, _>(&mut c.rng);
        firsts.push((format!("another commitment {}", k), first(&variants[0], &pts, b"c04")));
    }
    firsts.push(("another label".into(), first(&variants[0], &pr.points, b"c04b")));
    firsts.push(("another message".into(), first(&variants[3], &pr.points, b"c04")));
    firsts.push(("an additional commitment".into(), first(&variants[2], &[pr.points[0], pr.points[0]], b"c04")));
    firsts.push(("no commitment".into(), first(&variants[5], &[], b"c04")));
    firsts.push(("two phases".into(), first(&variants[4], &pr.points, b"c04")));
    c.check(firsts[0].1.is_some(), || "no challenge was observed".into());
    for i in 0..firsts.len() {
        for j in 0..i {
            if firsts[i].1.is_some() {
                c.check(firsts[i].1 != firsts[j].1, || format!("the verifier's first challenge is the same with {} and with {}", firsts[j].0, firsts[i].0));
                c.count("statement changes observed", 1);
            }
        }
    }
}

fn first_challenge(evs: &[Ev]) -> Option<Vec<u8>> {
    evs.iter().find_map(|e| if let Ev::Challenge(_, b) = e { Some(b.clone()) } else { None })
}

/// The identity is refused wherever an honest element is not the identity, before any equation is
/// looked at.
fn identity<P: Curve>(c: &mut Case) {
    let prog = loop {
        let shape = Shape::random(&mut c.rng);
        let p = Program::<Fr<P>>::random(&mut c.rng, shape);
        if p.muls().1 <= 16 {
            break Arc::new(p);
        }
    };
    let cap = prog.muls().1.next_power_of_two();
    let pc = PedersenGens::<Aff<P>>::default();
    let bp = BulletproofGens::<Aff<P>>::new(cap, 1);
    let d = format!("{} {}", P::NAME, prog.summary());
    c.describe(d.clone());
    let pr = prove::<P>(&prog, b"c04", &pc, &bp);
    let w = match pr.proof.ok().and_then(|p| Wire::<P>::decode(&p.to_bytes())) {
        Some(w) => w,
        None => return c.fail("no honest proof"),
    };
    let mut list: Vec<(String, Wire<P>)> = vec![];
    use ark_ec::AffineRepr;
    let z = Aff::<P>::zero();
    for i in 0..3 {
        let mut m = w.clone();
        m.first[i] = z;
        list.push((format!("first-phase commitment {}", i), m));
    }
    for i in 0..w.t.len() {
        if !w.t[i].is_zero() {
            let mut m = w.clone();
            m.t[i] = z;
            list.push((format!("T {}", i), m));
        }
    }
    for i in 0..w.l.len() {
        let mut m = w.clone();
        m.l[i] = z;
        list.push((format!("L {}", i), m));
        let mut m = w.clone();
        m.r[i] = z;
        list.push((format!("R {}", i), m));
    }
    for (n, m) in list {
        let p = match bulletproofs::r1cs::R1CSProof::<Aff<P>>::from_bytes(&m.encode()) {
            Ok(p) => p,
            Err(_) => {
                c.eval();
                c.count("identity points refused", 1);
                continue;
            }
        };
        let r = tuple::<P>(&prog, b"c04", &pr.points, &p);
        c.check(r.is_err(), || format!("the identity as {} was taken into the transcript and the verification equation", n));
        c.distinct(&format!("{} identity {}", P::NAME, n));
        c.count("identity points refused", 1);
    }
}

use ctmon::pour::*;
use ctmon::tree::*;

fn by_id(evs: &[Event]) -> Vec<Vec<Ev>> {
    let mut ids: Vec<u64> = vec![];
    for e in evs {
        if let Event::Append { id, .. } | Event::Challenge { id, .. } = e {
            if !ids.contains(id) {
                ids.push(*id);
            }
        }
    }
    ids.iter()
        .map(|i| {
            let of: Vec<Event> = evs
                .iter()
                .filter(|e| matches!(e, Event::Append { id, .. } | Event::Challenge { id, .. } if id == i))
                .cloned()
                .collect();
            project(&of)
        })
        .collect()
}

/// the transcript into which the first element of the proof was absorbed
fn of_proof<P: Curve>(groups: &[Vec<Ev>], w: &Wire<P>) -> Option<Vec<Ev>> {
    let a = point_bytes(&w.first[0]);
    groups.iter().find(|g| g.iter().any(|e| matches!(e, Ev::Absorb(_, b) if *b == a))).cloned()
}

/// Prover's and verifier's log of one proof are equal and in the order of the protocol.
fn same_log<P: Curve>(c: &mut Case, what: &str, pe: &[Vec<Ev>], ve: &[Vec<Ev>], w: &Wire<P>) -> Option<Vec<Ev>> {
    let (p, v) = match (of_proof(pe, w), of_proof(ve, w)) {
        (Some(p), Some(v)) => (p, v),
        _ => {
            c.fail(format!("{}: the proof was not absorbed by both sides", what));
            return None;
        }
    };
    let first = p.iter().zip(&v).position(|(a, b)| a != b);
    c.check(first.is_none() && p.len() == v.len(), || format!("{}: prover and verifier transcripts differ: {} vs {} events, first difference at {:?}", what, p.len(), v.len(), first));
    c.count("transcript events", (p.len() + v.len()) as u64);
    let items = proof_items(w, 0);
    match monitor(&v, &items, 5 + w.l.len()) {
        Ok(n) => {
            c.eval();
            c.count("challenges observed", n as u64);
        }
        Err(e) => c.fail(format!("{}: {}", what, e)),
    }
    Some(v)
}

/// The verifier's first challenge per proof, with some element of the statement changed.
fn must_change(c: &mut Case, what: &str, node: &str, base: &Option<Vec<u8>>, changed: Option<Vec<u8>>) {
    c.check(base.is_some() && *base != changed, || format!("{}: the first challenge does not depend on {}", what, node));
    c.count("statement elements changed", 1);
}

fn membership<K: Cycle, const L: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(1 << 12);
    let set = leaves::<K, _>(n, p, &mut c.rng);
    let t = Tree::<K, L, 1>::from_set(&set, p, height);
    let i = c.below(n);
    let what = format!("{} L={} n={} height={} leaf={}", K::P0::NAME, L, n, t.height(), i);
    c.describe(what.clone());
    c.distinct(&what);
    let mut rng = c.sub_rng();
    let (s, pe) = capture::transcript(|| show::<K, L, 1, _>(&t, i, p, &mut rng));
    let run = |path: &Path<K, L>| {
        let (r, e) = capture::transcript(|| verify_single::<K, L, 1>(&t, path, &s.even, &s.odd, p));
        (r.is_ok(), by_id(&e))
    };
    let (ok, ve) = run(&s.path);
    c.check(ok, || "an honest membership proof was rejected".into());
    let (we, wo) = match (Wire::<K::P0>::decode(&s.even.to_bytes()), Wire::<K::P1>::decode(&s.odd.to_bytes())) {
        (Some(a), Some(b)) => (a, b),
        _ => return c.fail("unreadable proof"),
    };
    let pe = by_id(&pe);
    let e = same_log::<K::P0>(c, "even proof", &pe, &ve, &we).and_then(|v| first_challenge(&v));
    let o = same_log::<K::P1>(c, "odd proof", &pe, &ve, &wo).and_then(|v| first_challenge(&v));
    let h = p.even_parameters.pc_gens.B_blinding;
    let ho = p.odd_parameters.pc_gens.B_blinding;
    // both proofs' first challenges under a changed path; the even verifier runs first and may stop
    // the run, so the challenges are taken from the two proofs' own transcripts where they exist
    let firsts = |path: &Path<K, L>| {
        let (_, e) = capture::transcript(|| {
            let _ = guard(|| {
                use bulletproofs::r1cs::Verifier;
                use merlin::Transcript;
                let mut ev = Verifier::new(Transcript::new(LABEL));
                let mut ov = Verifier::new(Transcript::new(LABEL));
                t.select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, path.clone(), p);
                let _ = ev.verification_scalars_and_points(&s.even);
                let _ = ov.verification_scalars_and_points(&s.odd);
            });
        });
        let g = by_id(&e);
        (of_proof(&g, &we).and_then(|v| first_challenge(&v)), of_proof(&g, &wo).and_then(|v| first_challenge(&v)))
    };
    for k in 0..s.path.odd_commitments.len() {
        let mut q = s.path.clone();
        q.odd_commitments[k] = (q.odd_commitments[k] + ho).into_affine();
        let (e2, o2) = firsts(&q);
        let n = format!("odd node {}", k);
        must_change(c, "even proof", &n, &e, e2);
        must_change(c, "odd proof", &n, &o, o2);
    }
    for k in 0..s.path.even_commitments.len() {
        let mut q = s.path.clone();
        q.even_commitments[k] = (q.even_commitments[k] + h).into_affine();
        let (e2, o2) = firsts(&q);
        let n = format!("even node {}", k);
        must_change(c, "even proof", &n, &e, e2);
        must_change(c, "odd proof", &n, &o, o2);
    }
    let mut q = s.path.clone();
    q.selected_commitment = (q.selected_commitment + h).into_affine();
    let (_, o2) = firsts(&q);
    must_change(c, "odd proof", "the selected commitment", &o, o2);
    c.sample(|| what);
}

fn batched<K: Cycle, const L: usize, const M: usize>(c: &mut Case, n: usize, height: Option<usize>) {
    let p = params::<K>(1 << 12);
    let set: Vec<_> = (0..n).map(|_| rand_point::<K::P0, _>(&mut c.rng)).collect();
    let t = Tree::<K, L, M>::from_set(&set, p, height);
    let mut idx = [0; M];
    for x in idx.iter_mut() {
        *x = c.below(n);
    }
    let what = format!("{} L={} M={} n={} height={} leaves={:?}", K::P0::NAME, L, M, n, t.height(), idx);
    c.describe(what.clone());
    c.distinct(&what);
    let mut rng = c.sub_rng();
    let (s, pe) = capture::transcript(|| show_multi::<K, L, M, _>(&t, idx, p, &mut rng));
    let run = |path: &MultiPath<K, L, M>| {
        let (r, e) = capture::transcript(|| {
            guard(|| {
                use bulletproofs::r1cs::Verifier;
                use merlin::Transcript;
                let mut ev = Verifier::new(Transcript::new(LABEL));
                let mut ov = Verifier::new(Transcript::new(LABEL));
                t.batched_select_and_rerandomize_verifier_gadget(&mut ev, &mut ov, path.clone(), p);
                let a = ev.verify(&s.even, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens);
                let b = ov.verify(&s.odd, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens);
                a.is_ok() && b.is_ok()
            })
        });
        (r.unwrap_or(false), by_id(&e))
    };
    let (ok, ve) = run(&s.path);
    c.check(ok, || "an honest batched membership proof was rejected".into());
    let (we, wo) = match (Wire::<K::P0>::decode(&s.even.to_bytes()), Wire::<K::P1>::decode(&s.odd.to_bytes())) {
        (Some(a), Some(b)) => (a, b),
        _ => return c.fail("unreadable proof"),
    };
    let pe = by_id(&pe);
    let e = same_log::<K::P0>(c, "even proof", &pe, &ve, &we).and_then(|v| first_challenge(&v));
    let o = same_log::<K::P1>(c, "odd proof", &pe, &ve, &wo).and_then(|v| first_challenge(&v));
    let h = p.even_parameters.pc_gens.B_blinding;
    let ho = p.odd_parameters.pc_gens.B_blinding;
    let firsts = |path: &MultiPath<K, L, M>| {
        let g = run(path).1;
        (of_proof(&g, &we).and_then(|v| first_challenge(&v)), of_proof(&g, &wo).and_then(|v| first_challenge(&v)))
    };
    for k in 0..s.path.odd_commitments.len() {
        let mut q = s.path.clone();
        q.odd_commitments[k] = (q.odd_commitments[k] + ho).into_affine();
        let (e2, o2) = firsts(&q);
        let n = format!("the sum of odd nodes {}", k);
        must_change(c, "even proof", &n, &e, e2);
        must_change(c, "odd proof", &n, &o, o2);
    }
    for k in 0..s.path.even_commitments.len() {
        let mut q = s.path.clone();
        q.even_commitments[k] = (q.even_commitments[k] + h).into_affine();
        let (e2, o2) = firsts(&q);
        let n = format!("the sum of even nodes {}", k);
        must_change(c, "even proof", &n, &e, e2);
        must_change(c, "odd proof", &n, &o, o2);
    }
    for k in 0..M {
        let mut q = s.path.clone();
        q.selected_commitments[k] = (q.selected_commitments[k] + h).into_affine();
        let (_, o2) = firsts(&q);
        must_change(c, "odd proof", &format!("selected commitment {}", k), &o, o2);
    }
    c.sample(|| what);
}

fn pour<K: Cycle, C: CurveGroup, const L: usize>(c: &mut Case, fillers: usize, height: usize) {
    use ark_serialize::CanonicalDeserialize;
    let mut rng = c.sub_rng();
    let w = World::<K, L, C>::new(&[100, 200], 2, fillers, Some(height), 1 << 12, &mut rng);
    let what = format!("pour {} L={} height={}", K::P0::NAME, L, w.tree.height());
    c.describe(what.clone());
    c.distinct(&what);
    let (tx, pe) = capture::transcript(|| w.pour(0, 1, 120, 0, 180, 1, &mut rng));
    let pour = PourOf::<K, C, L>::deserialize_compressed(&tx.pour_bytes[..]).unwrap();
    let run = |q: &PourOf<K, C, L>| {
        let (r, e) = capture::transcript(|| w.verify_pour(q, &w.tree));
        (r, by_id(&e))
    };
    let (ok, ve) = run(&pour);
    c.check(ok.is_ok(), || format!("an honest pour was rejected: {:?}", ok));
    let (we, wo) = match (Wire::<K::P0>::decode(&pour.even_proof.to_bytes()), Wire::<K::P1>::decode(&pour.odd_proof.to_bytes())) {
        (Some(a), Some(b)) => (a, b),
        _ => return c.fail("unreadable proof"),
    };
    let pe = by_id(&pe);
    let e = same_log::<K::P0>(c, "even proof", &pe, &ve, &we).and_then(|v| first_challenge(&v));
    let o = same_log::<K::P1>(c, "odd proof", &pe, &ve, &wo).and_then(|v| first_challenge(&v));
    let h = w.p.even_parameters.pc_gens.B_blinding;
    let ho = w.p.odd_parameters.pc_gens.B_blinding;
    let firsts = |q: &PourOf<K, C, L>| {
        let g = run(q).1;
        (of_proof(&g, &we).and_then(|v| first_challenge(&v)), of_proof(&g, &wo).and_then(|v| first_challenge(&v)))
    };
    for which in 0..2 {
        fn path<K: Cycle, C: CurveGroup, const L: usize>(q: &mut PourOf<K, C, L>, which: usize) -> &mut Path<K, L> {
            if which == 0 { &mut q.randomized_path_0 } else { &mut q.randomized_path_1 }
        }
        let mut q = pour.clone();
        if which == 0 {
            q.minted_coin_commitment_0 = (q.minted_coin_commitment_0 + h).into_affine();
        } else {
            q.minted_coin_commitment_1 = (q.minted_coin_commitment_1 + h).into_affine();
        }
        must_change(c, "even proof", &format!("minted coin {}", which), &e, firsts(&q).0);
        let mut q = pour.clone();
        let x = path::<K, C, L>(&mut q, which);
        x.selected_commitment = (x.selected_commitment + h).into_affine();
        let (e2, o2) = firsts(&q);
        let n = format!("spent coin {}", which);
        must_change(c, "even proof", &n, &e, e2);
        must_change(c, "odd proof", &n, &o, o2);
        for k in 0..pour.randomized_path_0.odd_commitments.len() {
            let mut q = pour.clone();
            let x = path::<K, C, L>(&mut q, which);
            x.odd_commitments[k] = (x.odd_commitments[k] + ho).into_affine();
            let (e2, o2) = firsts(&q);
            let n = format!("odd node {} of path {}", k, which);
            must_change(c, "even proof", &n, &e, e2);
            must_change(c, "odd proof", &n, &o, o2);
        }
        for k in 0..pour.randomized_path_0.even_commitments.len() {
            let mut q = pour.clone();
            let x = path::<K, C, L>(&mut q, which);
            x.even_commitments[k] = (x.even_commitments[k] + h).into_affine();
            let (e2, o2) = firsts(&q);
            let n = format!("even node {} of path {}", k, which);
            must_change(c, "even proof", &n, &e, e2);
            must_change(c, "odd proof", &n, &o, o2);
        }
    }
    c.sample(|| what);
}

fn main() {
    let mut r = Report::new(
        "C04",
        "Random constraint systems over 4 curves proved and verified with the transcript recorder on: the two logs must be identical, and an order automaton requires each commitment, message, proof point and proof scalar to be absorbed before the challenges that follow it in the protocol. Membership, batched-membership and pour transcripts: logs of prover and verifier equal, elements in the order of the protocol, and the first challenge of each proof must change with every node of the path, selected commitment and minted coin that the proof is about. Identity points in the place of any honest element are refused before the equation is formed. Distinct = curve and circuit shape.",
    );
    r.stage("agree", 1200, 60000, |c| {
        let i = c.idx as usize;
        on_curve!(i, agree(c))
    });
    r.stage("binding", 64, 2000, |c| {
        let i = c.idx as usize;
        on_curve!(i, binding(c))
    });
    r.stage("identity", 64, 3000, |c| {
        let i = c.idx as usize;
        on_curve!(i, identity(c))
    });
    r.stage("membership", 16, 640, |c| {
        let i = c.idx as usize;
        match (i / 4) % 4 {
            0 => on_tree!(i, membership[4](c, 3, None)),
            1 => on_tree!(i, membership[2](c, 4, None)),
            2 => on_tree!(i, membership[2](c, 5, None)),
            _ => on_tree!(i, membership[3](c, 2, Some(4))),
        }
    });
    r.stage("batched", 12, 400, |c| {
        let i = c.idx as usize;
        match (i / 4) % 3 {
            0 => on_tree!(i, batched[4, 2](c, 3, None)),
            1 => on_tree!(i, batched[2, 2](c, 4, None)),
            _ => on_tree!(i, batched[2, 3](c, 5, None)),
        }
    });
    r.stage("pour", 8, 240, |c| {
        let (f, h) = [(1, 1), (3, 2), (2, 3)][(c.idx % 3) as usize];
        match c.idx % 4 {
            0 => pour::<PV, Proj<PallasC>, 4>(c, f, h),
            1 => pour::<VP, Proj<PallasC>, 4>(c, f, h),
            2 => pour::<SQ, Proj<SecpC>, 4>(c, f, h),
            _ => pour::<QS, Proj<VestaC>, 4>(c, f, h),
        }
    });
    r.require("statement elements changed", 100);
    r.require("identity points refused", 100);
    r.require("challenges observed", 100);
    r.finish()
}
