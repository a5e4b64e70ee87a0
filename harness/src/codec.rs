//! A plain, independent reading of the proof wire format, used to build mutated proofs.

use crate::cycles::*;
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

#[derive(Clone, Debug, PartialEq)]
pub struct Wire<P: SWCurveConfig> {
    pub first: [Aff<P>; 3],
    pub flag: u8,
    pub second: [Aff<P>; 3],
    pub t: Vec<Aff<P>>,
    pub scalars: [Fr<P>; 3],
    pub l: Vec<Aff<P>>,
    pub r: Vec<Aff<P>>,
    pub ab: [Fr<P>; 2],
}

fn pt<P: SWCurveConfig>(b: &mut &[u8]) -> Option<Aff<P>> {
    Aff::<P>::deserialize_compressed(b).ok()
}
fn sc<P: SWCurveConfig>(b: &mut &[u8]) -> Option<Fr<P>> {
    Fr::<P>::deserialize_compressed(b).ok()
}
fn pts<P: SWCurveConfig>(b: &mut &[u8]) -> Option<Vec<Aff<P>>> {
    let n = u64::deserialize_compressed(&mut *b).ok()?;
    (0..n).map(|_| pt::<P>(b)).collect()
}

impl<P: SWCurveConfig> Wire<P> {
    pub fn decode(mut bytes: &[u8]) -> Option<Wire<P>> {
        let b = &mut bytes;
        let first = [pt::<P>(b)?, pt::<P>(b)?, pt::<P>(b)?];
        let flag = u8::deserialize_compressed(&mut *b).ok()?;
        let z = Aff::<P>::identity();
        let second = if flag == 1 { [pt::<P>(b)?, pt::<P>(b)?, pt::<P>(b)?] } else { [z, z, z] };
        let t = pts::<P>(b)?;
        let scalars = [sc::<P>(b)?, sc::<P>(b)?, sc::<P>(b)?];
        let l = pts::<P>(b)?;
        let r = pts::<P>(b)?;
        let ab = [sc::<P>(b)?, sc::<P>(b)?];
        if !b.is_empty() {
            return None;
        }
        Some(Wire { first, flag, second, t, scalars, l, r, ab })
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        for p in &self.first {
            p.serialize_compressed(&mut o).unwrap();
        }
        o.push(self.flag);
        if self.flag == 1 {
            for p in &self.second {
                p.serialize_compressed(&mut o).unwrap();
            }
        }
        for v in [&self.t] {
            (v.len() as u64).serialize_compressed(&mut o).unwrap();
            for p in v {
                p.serialize_compressed(&mut o).unwrap();
            }
        }
        for s in &self.scalars {
            s.serialize_compressed(&mut o).unwrap();
        }
        for v in [&self.l, &self.r] {
            (v.len() as u64).serialize_compressed(&mut o).unwrap();
            for p in v {
                p.serialize_compressed(&mut o).unwrap();
            }
        }
        for s in &self.ab {
            s.serialize_compressed(&mut o).unwrap();
        }
        o
    }

    /// all points, in wire order, mutable
    pub fn points_mut(&mut self) -> Vec<&mut Aff<P>> {
        let two = self.flag == 1;
        let mut v: Vec<&mut Aff<P>> = self.first.iter_mut().collect();
        if two {
            v.extend(self.second.iter_mut());
        }
        v.extend(self.t.iter_mut());
        v.extend(self.l.iter_mut());
        v.extend(self.r.iter_mut());
        v
    }
    pub fn scalars_mut(&mut self) -> Vec<&mut Fr<P>> {
        self.scalars.iter_mut().chain(self.ab.iter_mut()).collect()
    }
}
