//! An independent verifier for `Program`s, written from the protocol: it replays the Fiat-Shamir
//! transcript with merlin, derives every challenge, and forms the two group equations a proof has
//! to satisfy (the inner-product equation and the polynomial equation) as explicit
//! point -> coefficient maps. It shares no code with the crate under test.

use crate::circuit::*;
use crate::codec::Wire;
use crate::cycles::*;
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ec::AffineRepr;
use ark_ff::{Field, One, PrimeField, Zero};
use digest::{ExtendableOutput, Update, XofReader};
use merlin::Transcript;
use std::collections::HashMap;
use std::sync::Arc;

/// try-and-increment hash to curve
pub fn ref_tai<P: SWCurveConfig>(bytes: &[u8]) -> Aff<P> {
    use sha3::{Digest, Sha3_256};
    for i in 0..=u8::MAX {
        let mut h = Sha3_256::new();
        Digest::update(&mut h, bytes);
        Digest::update(&mut h, [i]);
        if let Some(p) = Aff::<P>::from_random_bytes(h.finalize().as_slice()) {
            return p;
        }
    }
    panic!("no point")
}

/// The generator vector of a party, from its definition.
pub fn ref_gens<P: SWCurveConfig>(kind: u8, party: u32, n: usize) -> Vec<Aff<P>> {
    let mut h = sha3::Shake256::default();
    h.update(b"GeneratorsChain");
    let mut label = vec![kind];
    label.extend_from_slice(&party.to_le_bytes());
    h.update(&label);
    let mut x = h.finalize_xof();
    (0..n)
        .map(|_| {
            let mut b = [0u8; 64];
            x.read(&mut b);
            ref_tai::<P>(&b)
        })
        .collect()
}

pub fn ref_pedersen<P: SWCurveConfig>() -> (Aff<P>, Aff<P>) {
    let g = P::GENERATOR;
    (g, ref_tai::<P>(&point_bytes(&g)))
}

/// The fixed points a reference check runs against, for capacity n.
pub struct RefGens<P: SWCurveConfig> {
    pub b: Aff<P>,
    pub bb: Aff<P>,
    pub g: Vec<Aff<P>>,
    pub h: Vec<Aff<P>>,
}
impl<P: SWCurveConfig> RefGens<P> {
    pub fn new(n: usize) -> Self {
        let (b, bb) = ref_pedersen::<P>();
        RefGens { b, bb, g: ref_gens::<P>(b'G', 0, n), h: ref_gens::<P>(b'H', 0, n) }
    }
}

pub fn ref_challenge<F: Field>(t: &mut Transcript, label: &'static [u8]) -> F {
    use sha3::{Digest, Sha3_256};
    let mut b = [0u8; 64];
    t.challenge_bytes(label, &mut b);
    for i in 0..=u8::MAX {
        let mut h = Sha3_256::new();
        Digest::update(&mut h, b);
        Digest::update(&mut h, [i]);
        if let Some(s) = F::from_random_bytes(h.finalize().as_slice()) {
            return s;
        }
    }
    panic!("no scalar")
}

pub type Eqn<P> = HashMap<Vec<u8>, (Aff<P>, Fr<P>)>;

pub fn add_term<P: SWCurveConfig>(e: &mut Eqn<P>, p: &Aff<P>, s: Fr<P>) {
    if p.is_zero() {
        return;
    }
    let k = point_bytes(p);
    e.entry(k).or_insert((*p, Fr::<P>::zero())).1 += s;
}

pub fn eqn_sum<P: SWCurveConfig>(e: &Eqn<P>) -> Proj<P> {
    let v: Vec<_> = e.values().filter(|(_, s)| !s.is_zero()).collect();
    // the library's own multi-scalar multiplication is one side of a cross-check elsewhere (C11)
    let bases: Vec<Aff<P>> = v.iter().map(|(p, _)| *p).collect();
    let scalars: Vec<Fr<P>> = v.iter().map(|(_, s)| *s).collect();
    if bases.len() < 24 {
        naive_msm::<P>(&bases, &scalars)
    } else {
        <Proj<P> as ark_ec::VariableBaseMSM>::msm_unchecked(&bases, &scalars)
    }
}

#[derive(Debug)]
pub struct RefOut<P: SWCurveConfig> {
    pub ipp: Eqn<P>,
    pub poly: Eqn<P>,
    pub padded_n: usize,
    pub n1: usize,
    pub callback_challenges: Vec<Fr<P>>,
    pub y: Fr<P>,
    pub z: Fr<P>,
    pub u: Fr<P>,
    pub x: Fr<P>,
    pub w: Fr<P>,
}

/// One linear constraint over variable kinds.
type Row<F> = Vec<(Option<Kind>, F)>;

struct Build<F: PrimeField> {
    kinds: Vec<Kind>,
    rows: Vec<Row<F>>,
    n: usize,
    pending: Option<usize>,
    scalars: usize,
    vecs: Vec<usize>,
}

impl<F: PrimeField> Build<F> {
    fn row(&self, l: &Lin<F>, c: &F) -> Row<F> {
        l.terms.iter().map(|(h, k)| (h.map(|i| self.kinds[i]), peval(k, c))).collect()
    }
    fn ops(&mut self, ops: &[Op<F>], c: &F, mut on_commit: impl FnMut(), mut on_msg: impl FnMut(&[u8], bool)) {
        for o in ops {
            match o {
                Op::Commit(..) => {
                    on_commit();
                    on_msg(&[], true);
                    self.kinds.push(Kind::V(self.scalars));
                    self.scalars += 1;
                }
                Op::CommitVec(v, _) => {
                    on_commit();
                    on_msg(&[], true);
                    for i in 0..v.len() {
                        self.kinds.push(Kind::VC(self.vecs.len(), i));
                    }
                    self.vecs.push(v.len());
                }
                Op::Mul(l, r) => {
                    let i = self.n;
                    self.n += 1;
                    let mut l = self.row(l, c);
                    let mut r = self.row(r, c);
                    l.push((Some(Kind::L(i)), -F::one()));
                    r.push((Some(Kind::R(i)), -F::one()));
                    self.rows.push(l);
                    self.rows.push(r);
                    self.kinds.extend([Kind::L(i), Kind::R(i), Kind::O(i)]);
                }
                Op::Alloc(_) => match self.pending.take() {
                    None => {
                        self.pending = Some(self.n);
                        self.kinds.push(Kind::L(self.n));
                        self.n += 1;
                    }
                    Some(i) => self.kinds.push(Kind::R(i)),
                },
                Op::AllocMul(..) => {
                    let i = self.n;
                    self.n += 1;
                    self.kinds.extend([Kind::L(i), Kind::R(i), Kind::O(i)]);
                }
                Op::Con(l) => {
                    let r = self.row(l, c);
                    self.rows.push(r);
                }
                Op::Msg(b) => on_msg(b, false),
            }
        }
    }
}

/// Err(reason): the proof is rejected before any group equation.
pub fn ref_equations<P: SWCurveConfig>(
    prog: &Arc<Program<Fr<P>>>,
    label: &'static [u8],
    points: &[Aff<P>],
    w: &Wire<P>,
    gens: &RefGens<P>,
) -> Result<RefOut<P>, String> {
    let zero = Fr::<P>::zero();
    let one = Fr::<P>::one();
    let mut t = Transcript::new(label);
    t.append_message(b"dom-sep", b"r1cs v1");
    let mut b = Build { kinds: vec![], rows: vec![], n: 0, pending: None, scalars: 0, vecs: vec![] };
    {
        let mut it = points.iter();
        let tt = &mut t;
        b.ops(&prog.phase1, &zero, || {}, |m, commit| {
            if commit {
                tt.append_message(b"V", &point_bytes(it.next().unwrap()));
            } else {
                tt.append_message(b"user message", m);
            }
        });
    }
    // split the commitments by kind
    let (mut vs, mut vcs) = (vec![], vec![]);
    let mut it = points.iter();
    for o in &prog.phase1 {
        match o {
            Op::Commit(..) => vs.push(*it.next().unwrap()),
            Op::CommitVec(..) => vcs.push(*it.next().unwrap()),
            _ => {}
        }
    }
    // vectors longer than the multipliers pad the system
    b.n = b.n.max(b.vecs.iter().copied().max().unwrap_or(0));
    let n1 = b.n;
    t.append_u64(b"m", vs.len() as u64);
    let val = |t: &mut Transcript, l: &'static [u8], p: &Aff<P>| -> Result<(), String> {
        if p.is_zero() {
            return Err("identity point where a commitment is required".into());
        }
        t.append_message(l, &point_bytes(p));
        Ok(())
    };
    val(&mut t, b"A_I1", &w.first[0])?;
    val(&mut t, b"A_O1", &w.first[1])?;
    val(&mut t, b"S1", &w.first[2])?;
    b.pending = None;
    let mut chals = vec![];
    if prog.phase2.is_empty() {
        t.append_message(b"dom-sep", b"r1cs-1phase");
    } else {
        t.append_message(b"dom-sep", b"r1cs-2phase");
        for ops in &prog.phase2 {
            let c: Fr<P> = ref_challenge(&mut t, b"callback challenge");
            chals.push(c);
            b.ops(ops, &c, || {}, |_, _| unreachable!());
        }
    }
    let n = b.n;
    let padded_n = n.next_power_of_two();
    if gens.g.len() < padded_n {
        return Err("not enough generators".into());
    }
    for (l, p) in [(&b"A_I2"[..], &w.second[0]), (b"A_O2", &w.second[1]), (b"S2", &w.second[2])] {
        t.append_message(l, &point_bytes(p));
    }
    if !b.vecs.is_empty() && w.second.iter().any(|p| !p.is_zero()) {
        return Err("second-phase commitments next to vector commitments".into());
    }
    let y: Fr<P> = ref_challenge(&mut t, b"y");
    let z: Fr<P> = ref_challenge(&mut t, b"z");
    let k = b.vecs.len();
    let op = 2 + 2 * (k / 2);
    let deg = 2 * (op + 1);
    if w.t.len() != deg + 1 {
        return Err("wrong number of polynomial commitments".into());
    }
    if !w.t[op].is_zero() {
        return Err("unused polynomial commitment is not empty".into());
    }
    const T: [&[u8]; 41] = [
        b"T_0", b"T_1", b"T_2", b"T_3", b"T_4", b"T_5", b"T_6", b"T_7", b"T_8", b"T_9", b"T_10",
        b"T_11", b"T_12", b"T_13", b"T_14", b"T_15", b"T_16", b"T_17", b"T_18", b"T_19", b"T_20",
        b"T_21", b"T_22", b"T_23", b"T_24", b"T_25", b"T_26", b"T_27", b"T_28", b"T_29", b"T_30",
        b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36", b"T_37", b"T_38", b"T_39", b"T_40",
    ];
    for d in 0..=deg {
        if d != op {
            val(&mut t, T.get(d).copied().unwrap_or(b"T"), &w.t[d])?;
        }
    }
    let u: Fr<P> = ref_challenge(&mut t, b"u");
    let x: Fr<P> = ref_challenge(&mut t, b"x");
    for (l, s) in [(&b"t_x"[..], w.scalars[0]), (b"t_x_blinding", w.scalars[1]), (b"e_blinding", w.scalars[2])] {
        t.append_message(l, &point_bytes(&s));
    }
    let wq: Fr<P> = ref_challenge(&mut t, b"w");
    let xp = |e: usize| x.pow([e as u64]);

    // degrees of the left/right polynomial in which vector commitment j sits
    let mid = op / 2;
    let degs: Vec<(usize, usize)> =
        (1..=op).filter(|r| *r != mid).map(|r| (op - r, r)).take(k).collect();

    // flatten the constraints
    let mut wl = vec![zero; padded_n];
    let mut wr = vec![zero; padded_n];
    let mut wo = vec![zero; padded_n];
    let mut wv = vec![zero; vs.len()];
    let mut wc = zero;
    let mut wvc = vec![vec![zero; padded_n]; k];
    let mut zq = one;
    for row in &b.rows {
        zq *= z;
        for (kind, c) in row {
            match kind {
                Some(Kind::L(i)) => wl[*i] += zq * c,
                Some(Kind::R(i)) => wr[*i] += zq * c,
                Some(Kind::O(i)) => wo[*i] += zq * c,
                Some(Kind::V(i)) => wv[*i] -= zq * c,
                Some(Kind::VC(j, i)) => wvc[*j][*i] += zq * c,
                None => wc -= zq * c,
            }
        }
    }
    // inner product argument challenges
    let lg = w.l.len();
    if lg >= 32 || (1usize << lg) != padded_n || w.r.len() != lg {
        return Err("wrong inner-product proof size".into());
    }
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_u64(b"n", padded_n as u64);
    let mut us: Vec<Fr<P>> = vec![];
    for (l, r) in w.l.iter().zip(&w.r) {
        val(&mut t, b"L", l)?;
        val(&mut t, b"R", r)?;
        us.push(ref_challenge(&mut t, b"u"));
    }
    let (a, bq) = (w.ab[0], w.ab[1]);
    // s_i = prod_j u_j^{+1 if bit j of i (from the most significant) is set, else -1}
    let s: Vec<Fr<P>> = (0..padded_n)
        .map(|i| {
            let mut v = one;
            for (j, uj) in us.iter().enumerate() {
                let bit = (i >> (lg - 1 - j)) & 1;
                v *= if bit == 1 { *uj } else { uj.inverse().unwrap() };
            }
            v
        })
        .collect();
    let y_inv = y.inverse().unwrap();
    let mut ipp: Eqn<P> = HashMap::new();
    let mut poly: Eqn<P> = HashMap::new();
    for (j, c) in vcs.iter().enumerate() {
        add_term::<P>(&mut ipp, c, xp(degs[j].0));
    }
    let phase = [one, u];
    for (f, ps) in phase.iter().zip([&w.first, &w.second]) {
        add_term::<P>(&mut ipp, &ps[0], xp(mid) * f);
        add_term::<P>(&mut ipp, &ps[1], xp(op) * f);
        add_term::<P>(&mut ipp, &ps[2], xp(op + 1) * f);
    }
    for (i, uj) in us.iter().enumerate() {
        add_term::<P>(&mut ipp, &w.l[i], *uj * uj);
        add_term::<P>(&mut ipp, &w.r[i], (*uj * uj).inverse().unwrap());
    }
    add_term::<P>(&mut ipp, &gens.b, wq * (w.scalars[0] - a * bq));
    add_term::<P>(&mut ipp, &gens.bb, -w.scalars[2]);
    let mut delta = zero;
    let mut yi = one;
    for i in 0..padded_n {
        let f = if i < n1 { one } else { u };
        delta += yi * wr[i] * wl[i];
        add_term::<P>(&mut ipp, &gens.g[i], f * (xp(mid) * yi * wr[i] - a * s[i]));
        let mut comb = xp(mid) * wl[i] + wo[i];
        for j in 0..k {
            comb += xp(degs[j].1) * wvc[j][i];
        }
        add_term::<P>(&mut ipp, &gens.h[i], f * (yi * (comb - bq * s[padded_n - 1 - i]) - one));
        yi *= y_inv;
    }
    for (i, v) in vs.iter().enumerate() {
        add_term::<P>(&mut poly, v, wv[i] * xp(op));
    }
    for d in 0..=deg {
        if d != op {
            add_term::<P>(&mut poly, &w.t[d], xp(d));
        }
    }
    add_term::<P>(&mut poly, &gens.b, xp(op) * (wc + delta) - w.scalars[0]);
    add_term::<P>(&mut poly, &gens.bb, -w.scalars[1]);
    Ok(RefOut { ipp, poly, padded_n, n1, callback_challenges: chals, y, z, u, x, w: wq })
}

/// The reference verdict.
pub fn ref_verify<P: SWCurveConfig>(
    prog: &Arc<Program<Fr<P>>>,
    label: &'static [u8],
    points: &[Aff<P>],
    w: &Wire<P>,
    gens: &RefGens<P>,
) -> Result<RefOut<P>, String> {
    let o = ref_equations::<P>(prog, label, points, w, gens)?;
    if !eqn_sum::<P>(&o.ipp).is_zero() {
        return Err("inner-product equation fails".into());
    }
    if !eqn_sum::<P>(&o.poly).is_zero() {
        return Err("polynomial equation fails".into());
    }
    Ok(o)
}

/// Is `obs` = alpha*ipp + beta*poly for nonzero alpha, beta? Returns (alpha, beta).
pub fn in_span<P: SWCurveConfig>(obs: &Eqn<P>, o: &RefOut<P>) -> Result<(Fr<P>, Fr<P>), String> {
    let zero = Fr::<P>::zero();
    let get = |e: &Eqn<P>, k: &Vec<u8>| e.get(k).map(|x| x.1).unwrap_or(zero);
    // alpha from a point only in ipp, beta from a point only in poly
    let mut alpha = None;
    let mut beta = None;
    for (k, (_, s)) in &o.ipp {
        if !s.is_zero() && get(&o.poly, k).is_zero() {
            alpha = Some(get(obs, k) * s.inverse().unwrap());
            break;
        }
    }
    for (k, (_, s)) in &o.poly {
        if !s.is_zero() && get(&o.ipp, k).is_zero() {
            beta = Some(get(obs, k) * s.inverse().unwrap());
            break;
        }
    }
    let (alpha, beta) = match (alpha, beta) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err("undetermined".into()),
    };
    if alpha.is_zero() {
        return Err("the inner-product equation is not part of the check".into());
    }
    if beta.is_zero() {
        return Err("the polynomial equation is not part of the check".into());
    }
    let keys: std::collections::HashSet<&Vec<u8>> =
        obs.keys().chain(o.ipp.keys()).chain(o.poly.keys()).collect();
    for k in keys {
        let want = alpha * get(&o.ipp, k) + beta * get(&o.poly, k);
        if get(obs, k) != want {
            return Err(format!("coefficient of point {} differs from the protocol's", hex(k)));
        }
    }
    Ok((alpha, beta))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
