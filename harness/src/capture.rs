//! Reading the transcript and multiplication monitors of the patched dependencies.

use crate::cycles::*;
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::monitor::Op;
use ark_ec::AffineRepr;
use ark_ff::{One, Zero};
pub use merlin::monitor::Event;
use std::collections::HashMap;

/// Runs `f` on this thread with the transcript monitor on.
pub fn transcript<R>(f: impl FnOnce() -> R) -> (R, Vec<Event>) {
    merlin::monitor::start();
    let r = f();
    (r, merlin::monitor::stop())
}

pub struct MsmObs<P: SWCurveConfig> {
    pub bases: Vec<Aff<P>>,
    pub scalars: Vec<Fr<P>>,
    pub result: Proj<P>,
}

/// A value that was computed, by a multi-scalar multiplication or otherwise.
struct Node<P: SWCurveConfig> {
    parts: Vec<(Aff<P>, Fr<P>)>,
    /// the parts that were themselves computed
    known: Vec<(usize, Fr<P>)>,
    result: Proj<P>,
    size: usize,
    single: bool,
    consumed: bool,
}

/// Runs `f` with the multiplication monitor on; observations on other curves are dropped.
///
/// Besides the multi-scalar multiplications, single multiplications and additions made outside of
/// them are reported as combinations too: of their operands, which are replaced by what they were
/// computed from. However a value is put together, it is found in this list over its bases.
/// (Long intermediate sums are left out.)
pub fn msms<P: SWCurveConfig, R>(f: impl FnOnce() -> R) -> (R, Vec<MsmObs<P>>) {
    ark_ec::monitor::start();
    let r = f();
    let v = ark_ec::monitor::stop();
    let mut nodes: Vec<Node<P>> = vec![];
    // where a value was computed; only looked up for operands of single operations
    let mut at: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut indexed = 0;
    for m in v {
        let (parts, result): (Vec<(Proj<P>, Fr<P>)>, Proj<P>) = match m {
            Op::Msm(m) => {
                let (bases, scalars, result) = match (m.bases.downcast::<Vec<Aff<P>>>(), m.scalars.downcast::<Vec<Fr<P>>>(), m.result.downcast::<Proj<P>>()) {
                    (Ok(b), Ok(s), Ok(r)) => (b, s, r),
                    _ => continue,
                };
                let parts: Vec<_> = bases.into_iter().zip(scalars.into_iter()).collect();
                nodes.push(Node { size: parts.len(), parts, known: vec![], result: *result, single: false, consumed: false });
                continue;
            }
            Op::Mul(b, s, r) => match (b.downcast::<Proj<P>>(), s.downcast::<Fr<P>>(), r.downcast::<Proj<P>>()) {
                (Ok(b), Ok(s), Ok(r)) => (vec![(*b, *s)], *r),
                _ => continue,
            },
            Op::Add(a, b, r) => match (a.downcast::<Proj<P>>(), b.downcast::<Proj<P>>(), r.downcast::<Proj<P>>()) {
                (Ok(a), Ok(b), Ok(r)) => (vec![(*a, Fr::<P>::one()), (*b, Fr::<P>::one())], *r),
                _ => continue,
            },
        };
        while indexed < nodes.len() {
            at.insert(point_bytes(&Aff::<P>::from(nodes[indexed].result)), indexed);
            indexed += 1;
        }
        let mut n = Node { parts: vec![], known: vec![], result, size: 0, single: true, consumed: false };
        for (p, k) in parts {
            let p = Aff::<P>::from(p);
            if p.is_zero() {
                continue;
            }
            let (known, signed) = match at.get(&point_bytes(&p)) {
                Some(i) => (Some(*i), k),
                None => (at.get(&point_bytes(&-p)).copied(), -k),
            };
            match known {
                Some(i) if nodes[i].size < 1 << 22 => {
                    n.size = n.size.saturating_add(nodes[i].size);
                    nodes[i].consumed = true;
                    n.known.push((i, signed));
                }
                _ => {
                    n.size += 1;
                    n.parts.push((p, k));
                }
            }
        }
        nodes.push(n);
    }
    let mut obs = vec![];
    for (i, n) in nodes.iter().enumerate() {
        if n.single && n.consumed && n.size > 64 {
            continue;
        }
        let (mut bases, mut scalars) = (vec![], vec![]);
        let mut todo = vec![(i, Fr::<P>::one())];
        while let Some((j, k)) = todo.pop() {
            for (p, s) in &nodes[j].parts {
                bases.push(*p);
                scalars.push(*s * k);
            }
            todo.extend(nodes[j].known.iter().map(|(j, s)| (*j, *s * k)));
        }
        obs.push(MsmObs { bases, scalars, result: n.result });
    }
    (r, obs)
}

/// The combination that a verification compares with the identity: the last one that yields it, or
/// the difference of two that yield the same.
pub fn final_equation<P: SWCurveConfig>(obs: &[MsmObs<P>]) -> Option<(Vec<Aff<P>>, Vec<Fr<P>>)> {
    if let Some(m) = obs.iter().rev().find(|m| m.result.is_zero() && !m.bases.is_empty()) {
        return Some((m.bases.clone(), m.scalars.clone()));
    }
    let last = obs.last()?;
    for (sign, other) in obs.iter().rev().skip(1).flat_map(|m| [(-Fr::<P>::one(), m), (Fr::<P>::one(), m)]) {
        let r = if sign == Fr::<P>::one() { other.result } else { -other.result };
        if last.result + r == Proj::<P>::zero() {
            let mut b = last.bases.clone();
            let mut s = last.scalars.clone();
            b.extend(other.bases.iter().copied());
            s.extend(other.scalars.iter().map(|x| *x * sign));
            return Some((b, s));
        }
    }
    None
}
