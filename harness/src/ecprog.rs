//! Programs of curve-point gadgets over model points: synthesis, domain and group-law truth.
use crate::big::*;
use crate::curve::*;
use crate::field::*;
use crate::r1cs::*;
use crate::rng::Rng;
use halo::*;

#[derive(Clone, Debug)]
pub enum Op {
    /// constant point (not the identity)
    Const(Pt),
    Identity,
    Witness(Pt),
    /// kind: 0 constant, 1 allocated, 2 negated allocated
    Endo(usize, bool, u8),
    Neg(usize, bool, u8),
    AddInc(usize, usize),
    Add(usize, usize),
    AddCond(usize, usize, bool, u8),
    AddCondInc(usize, usize, bool, u8),
    Double(usize),
    DblAddInc(usize, usize),
    Mul(usize, Vec<bool>),
    MulEndo(usize, u128),
    MulInvEndo(usize, u128),
    MulFast(usize, Vec<bool>),
    MulInv(usize, Vec<bool>),
    MulInvFast(usize, Vec<bool>),
}

pub const NAMES: [&str; 17] = [
    "constant",
    "identity",
    "witness",
    "conditional_endo",
    "conditional_neg",
    "add_incomplete",
    "add",
    "add_conditionally",
    "add_conditionally_incomplete",
    "double",
    "double_and_add_incomplete",
    "multiply",
    "multiply_endo",
    "multiply_inv_endo",
    "multiply_fast",
    "multiply_inv",
    "multiply_inv_fast",
];

impl Op {
    pub fn kind(&self) -> usize {
        match self {
            Op::Const(_) => 0,
            Op::Identity => 1,
            Op::Witness(_) => 2,
            Op::Endo(..) => 3,
            Op::Neg(..) => 4,
            Op::AddInc(..) => 5,
            Op::Add(..) => 6,
            Op::AddCond(..) => 7,
            Op::AddCondInc(..) => 8,
            Op::Double(_) => 9,
            Op::DblAddInc(..) => 10,
            Op::Mul(..) => 11,
            Op::MulEndo(..) => 12,
            Op::MulInvEndo(..) => 13,
            Op::MulFast(..) => 14,
            Op::MulInv(..) => 15,
            Op::MulInvFast(..) => 16,
        }
    }
    pub fn name(&self) -> &'static str {
        NAMES[self.kind()]
    }
}

pub fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Const(p) => format!("const{}", show_pt(p)),
            Op::Witness(p) => format!("witness{}", show_pt(p)),
            Op::Mul(i, b) | Op::MulFast(i, b) | Op::MulInv(i, b) | Op::MulInvFast(i, b) => {
                format!("{}({}, {} bits 0x{})", o.name(), i, b.len(), hexbits(b))
            }
            Op::MulEndo(i, c) | Op::MulInvEndo(i, c) => format!("{}({}, {:#x})", o.name(), i, c),
            o => format!("{:?}", o),
        })
        .collect::<Vec<_>>()
        .join("; ")
}
fn hexbits(b: &[bool]) -> String {
    let mut s = String::new();
    for c in b.chunks(4) {
        let mut d = 0;
        for (i, x) in c.iter().enumerate() {
            d |= (*x as u32) << i;
        }
        s.insert(0, char::from_digit(d, 16).unwrap());
    }
    s
}

/// Challenge expansion from its definition, over integers mod the group order.
pub fn expand<C: PC>(c: u128) -> U {
    let p = <C::S as PF>::P;
    let beta = u_of(&<C::S as Field>::BETA);
    let mut acc = U::from_u64(3);
    for i in 1..64 {
        acc = addm(&acc, &acc, &p);
        if (c >> (2 * i)) & 1 == 1 {
            acc = subm(&acc, &U::from_u64(1), &p);
        } else {
            acc = addm(&acc, &U::from_u64(1), &p);
        }
        if (c >> (2 * i + 1)) & 1 == 1 {
            acc = mulm(&acc, &beta, &p);
        }
    }
    acc
}

/// little-endian bits reduced modulo the group order
pub fn scalar<C: PC>(bits: &[bool]) -> U {
    let p = <C::S as PF>::P;
    let mut acc = U::ZERO;
    for b in bits.iter().rev() {
        acc = addm(&acc, &acc, &p);
        if *b {
            acc = addm(&acc, &U::from_u64(1), &p);
        }
    }
    acc
}

pub struct Group<C: PC> {
    pub m: Model,
    beta: U,
    _c: std::marker::PhantomData<C>,
}
impl<C: PC> Group<C> {
    pub fn new() -> Self {
        Group {
            m: Model::of::<C>(),
            beta: u_of(&<C::B as Field>::BETA),
            _c: std::marker::PhantomData,
        }
    }
    pub fn endo(&self, p: &Pt) -> Pt {
        p.map(|(x, y)| (mulm(&x, &self.beta, &self.m.m.p), y))
    }
    pub fn inv(&self, k: &U) -> Option<U> {
        if k.is_zero() {
            return None;
        }
        Some(Mont::new(self.m.order).invo(k))
    }
    fn inc_ok(&self, p: &Pt, q: &Pt) -> bool {
        p.is_some() && q.is_some() && p != q && *p != self.m.neg(q)
    }
    fn dbl_inc_ok(&self, p: &Pt, q: &Pt) -> bool {
        self.inc_ok(p, q) && self.m.neg(&self.m.add(p, p)) != *q
    }
    /// the ladder with incomplete steps meets no exceptional case, as multiples of T
    pub fn fast_ok(&self, bits: &[bool]) -> bool {
        let n = bits.len();
        if n == 0 || !bits[n - 1] {
            return false;
        }
        let p = self.m.order;
        let one = U::from_u64(1);
        let m1 = subm(&U::ZERO, &one, &p);
        let exc = |a: &U| a.is_zero() || *a == one || *a == m1;
        if n == 1 {
            return true;
        }
        let mut acc = U::from_u64(3);
        for i in (1..n - 1).rev() {
            if exc(&acc) {
                return false;
            }
            // acc + (acc ± 1): the second addition meets P + Q = ±P
            let s = if bits[i] { addm(&acc, &one, &p) } else { subm(&acc, &one, &p) };
            let d = addm(&s, &acc, &p);
            if d.is_zero() || s.is_zero() {
                return false;
            }
            acc = d;
        }
        !exc(&acc)
    }
    /// group-law result of one operation; None when outside its domain
    pub fn truth(&self, vals: &[Pt], op: &Op) -> Option<Pt> {
        let m = &self.m;
        Some(match op {
            Op::Const(p) => {
                p.as_ref()?;
                *p
            }
            Op::Identity => None,
            Op::Witness(p) => *p,
            Op::Endo(i, b, _) => {
                if *b {
                    self.endo(&vals[*i])
                } else {
                    vals[*i]
                }
            }
            Op::Neg(i, b, _) => {
                if *b {
                    m.neg(&vals[*i])
                } else {
                    vals[*i]
                }
            }
            Op::AddInc(i, j) => {
                if !self.inc_ok(&vals[*i], &vals[*j]) {
                    return None;
                }
                m.add(&vals[*i], &vals[*j])
            }
            Op::Add(i, j) => m.add(&vals[*i], &vals[*j]),
            Op::AddCond(i, j, b, _) => {
                if *b {
                    m.add(&vals[*i], &vals[*j])
                } else {
                    vals[*i]
                }
            }
            Op::AddCondInc(i, j, b, _) => {
                if !self.inc_ok(&vals[*i], &vals[*j]) {
                    return None;
                }
                if *b {
                    m.add(&vals[*i], &vals[*j])
                } else {
                    vals[*i]
                }
            }
            Op::Double(i) => m.add(&vals[*i], &vals[*i]),
            Op::DblAddInc(i, j) => {
                if !self.dbl_inc_ok(&vals[*i], &vals[*j]) {
                    return None;
                }
                m.add(&m.add(&vals[*i], &vals[*i]), &vals[*j])
            }
            Op::Mul(i, b) => m.mul(&vals[*i], &scalar::<C>(b)),
            Op::MulEndo(i, c) => m.mul(&vals[*i], &expand::<C>(*c)),
            Op::MulInvEndo(i, c) => m.mul(&vals[*i], &self.inv(&expand::<C>(*c))?),
            Op::MulFast(i, b) => {
                if !self.fast_ok(b) {
                    return None;
                }
                m.mul(&vals[*i], &scalar::<C>(b))
            }
            Op::MulInv(i, b) => m.mul(&vals[*i], &self.inv(&scalar::<C>(b))?),
            Op::MulInvFast(i, b) => {
                if !self.fast_ok(b) {
                    return None;
                }
                m.mul(&vals[*i], &self.inv(&scalar::<C>(b))?)
            }
        })
    }
}

pub struct Run<F: Field> {
    pub rec: Rec<F>,
    /// coordinate variables of witnessed points and condition/scalar bits
    pub points: Vec<(usize, usize)>,
    pub bits: Vec<usize>,
    /// per handle: x and y linear forms, reported values
    pub out: Vec<(Vec<(usize, F)>, Vec<(usize, F)>, Option<F>, Option<F>)>,
}

pub fn lcv<F: PF>(lc: &LinearCombination<F>) -> Vec<(usize, F)> {
    lc.as_ref().iter().map(|(v, c)| (Rec::<F>::idx(*v), c.value())).collect()
}

pub fn synth<C: PC>(ops: &[Op], witness: bool) -> Result<Run<C::B>, SynthesisError> {
    let mut cs = Rec::<C::B>::with_paths();
    let mut pool: Vec<CurvePoint<C>> = vec![];
    let mut points = vec![];
    let mut bits: Vec<usize> = vec![];
    fn bit<F: PF>(cs: &mut Rec<F>, bits: &mut Vec<usize>, b: bool, witness: bool, i: usize, j: usize) -> Result<AllocatedBit, SynthesisError> {
        let a = AllocatedBit::alloc(cs.namespace(|| format!("bit {} {}", i, j)), || {
            if witness {
                Ok(b)
            } else {
                Err(SynthesisError::AssignmentMissing)
            }
        })?;
        bits.push(Rec::<F>::idx(a.get_variable()));
        Ok(a)
    }
    for (i, o) in ops.iter().enumerate() {
        let label = format!("op {}", i);
        macro_rules! cond {
            ($b:expr, $k:expr) => {
                match $k {
                    0 => Boolean::constant($b),
                    1 => Boolean::from(bit(&mut cs, &mut bits, $b, witness, i, 0)?),
                    _ => Boolean::from(bit(&mut cs, &mut bits, !$b, witness, i, 0)?).not(),
                }
            };
        }
        macro_rules! alloc {
            ($bs:expr) => {{
                let mut v = vec![];
                for (j, b) in $bs.iter().enumerate() {
                    v.push(bit(&mut cs, &mut bits, *b, witness, i, j)?);
                }
                v
            }};
        }
        macro_rules! ns {
            () => {
                cs.namespace(|| label.clone())
            };
        }
        let c128 = |c: &u128| (0..128).map(|j| (c >> j) & 1 == 1).collect::<Vec<bool>>();
        let p = match o {
            Op::Const(p) => {
                let (x, y) = p.unwrap();
                CurvePoint::constant(f_of(&x), f_of(&y))
            }
            Op::Identity => CurvePoint::identity(),
            Op::Witness(p) => {
                let p = CurvePoint::<C>::witness(ns!(), || {
                    if witness {
                        Ok(c_of::<C>(p))
                    } else {
                        Err(SynthesisError::AssignmentMissing)
                    }
                })?;
                let (x, y) = p.get_xy();
                let (x, y) = (lcv(&x.lc(&mut cs)), lcv(&y.lc(&mut cs)));
                assert!(x.len() == 1 && y.len() == 1, "witnessed coordinates are not variables");
                points.push((x[0].0, y[0].0));
                p
            }
            Op::Endo(a, b, k) => {
                let c = cond!(*b, *k);
                pool[*a].conditional_endo(ns!(), &c)?
            }
            Op::Neg(a, b, k) => {
                let c = cond!(*b, *k);
                pool[*a].conditional_neg(ns!(), &c)?
            }
            Op::AddInc(a, b) => pool[*a].add_incomplete(ns!(), &pool[*b])?,
            Op::Add(a, b) => pool[*a].add(ns!(), &pool[*b])?,
            Op::AddCond(a, q, b, k) => {
                let c = cond!(*b, *k);
                pool[*a].add_conditionally(ns!(), &pool[*q], &c)?
            }
            Op::AddCondInc(a, q, b, k) => {
                let c = cond!(*b, *k);
                pool[*a].add_conditionally_incomplete(ns!(), &pool[*q], &c)?
            }
            Op::Double(a) => pool[*a].double(ns!())?,
            Op::DblAddInc(a, b) => pool[*a].double_and_add_incomplete(ns!(), &pool[*b])?,
            Op::Mul(a, b) => {
                let b = alloc!(b);
                pool[*a].multiply(ns!(), &b)?
            }
            Op::MulEndo(a, c) => {
                let b = alloc!(c128(c));
                pool[*a].multiply_endo(ns!(), &b)?
            }
            Op::MulInvEndo(a, c) => {
                let b = alloc!(c128(c));
                pool[*a].multiply_inv_endo(ns!(), &b)?
            }
            Op::MulFast(a, b) => {
                let b = alloc!(b);
                pool[*a].multiply_fast(ns!(), &b)?
            }
            Op::MulInv(a, b) => {
                let b = alloc!(b);
                pool[*a].multiply_inv(ns!(), &b)?
            }
            Op::MulInvFast(a, b) => {
                let b = alloc!(b);
                pool[*a].multiply_inv_fast(ns!(), &b)?
            }
        };
        pool.push(p);
    }
    let out = pool
        .iter()
        .map(|p| {
            let (x, y) = p.get_xy();
            (lcv(&x.lc(&mut cs)), lcv(&y.lc(&mut cs)), x.value(), y.value())
        })
        .collect();
    Ok(Run { rec: cs, points, bits, out })
}

/// Scalar bits: edge scalars, sparse, dense and random, of any length up to `max`.
pub fn bits<C: PC>(r: &mut Rng, max: usize) -> Vec<bool> {
    let n = match r.below(4) {
        0 => r.range(1, 6.min(max)),
        1 => max,
        _ => r.range(1, max),
    };
    match r.below(6) {
        0 => (0..n).map(|_| true).collect(),
        1 => (0..n).map(|i| i + 1 == n).collect(),
        2 if n >= 255 => {
            // near a multiple of the order
            let q = <C::S as PF>::P;
            let d = U::from_u64(r.below(4) as u64);
            let v = if r.bool() { q.addc(&d).0 } else { q.wsub(&d) };
            (0..n).map(|i| i < 256 && v.bit(i)).collect()
        }
        3 => (0..n).map(|_| r.below(16) == 0).collect(),
        _ => (0..n).map(|_| r.bool()).collect(),
    }
}

pub fn chall(r: &mut Rng) -> u128 {
    match r.below(7) {
        0 => r.below(16) as u128,
        1 => u128::MAX - r.below(16) as u128,
        2 => 1u128 << r.below(128),
        3 => u128::MAX << r.below(128),
        4 => 0x5555_5555_5555_5555_5555_5555_5555_5555 << r.below(2),
        _ => r.u128() | 1 << 127,
    }
}

/// A point related (or not) to the earlier ones.
pub fn related<C: PC>(g: &Group<C>, vals: &[Pt], r: &mut Rng) -> Pt {
    if !vals.is_empty() && r.below(3) > 0 {
        let p = vals[r.below(vals.len())];
        return match r.below(8) {
            0 => p,
            1 => g.m.neg(&p),
            2 => g.endo(&p),
            3 => g.m.neg(&g.endo(&p)),
            4 => g.m.add(&p, &p),
            5 => g.m.neg(&g.m.add(&p, &p)),
            6 => g.endo(&g.endo(&p)),
            _ => None,
        };
    }
    match r.below(6) {
        0 => None,
        1 => pt_of(&C::one()),
        2 => g.m.neg(&pt_of(&C::one())),
        _ => pt_of(&rand_pt::<C>(r)),
    }
}

/// A random program: `len` operations after the first point; `mul` allows ladders of up
/// to that many bits.
pub fn program<C: PC>(g: &Group<C>, r: &mut Rng, len: usize, mul: usize, force: Option<usize>) -> (Vec<Op>, Vec<Pt>) {
    let mut ops: Vec<Op> = vec![];
    let mut vals: Vec<Pt> = vec![];
    let push = |o: Op, ops: &mut Vec<Op>, vals: &mut Vec<Pt>| -> bool {
        match g.truth(vals, &o) {
            Some(v) => {
                ops.push(o);
                vals.push(v);
                true
            }
            None => false,
        }
    };
    let point = |vals: &[Pt], r: &mut Rng| -> Op {
        let p = related(g, vals, r);
        match (p, r.below(3)) {
            (None, 0) => Op::Identity,
            (Some(_), 0) => Op::Const(p),
            _ => Op::Witness(p),
        }
    };
    let mut done = 0;
    let mut tries = 0;
    while done < len && tries < 200 {
        tries += 1;
        let kind = match force {
            Some(k) if done + 1 == len => k,
            _ => r.range(3, 10),
        };
        if vals.is_empty() || r.below(3) == 0 {
            let o = point(&vals, r);
            push(o, &mut ops, &mut vals);
        }
        if r.below(3) == 0 {
            let o = point(&vals, r);
            push(o, &mut ops, &mut vals);
        }
        let n = vals.len();
        let (a, q) = (r.below(n), r.below(n));
        let a = if force.is_some() && done > 0 && r.bool() { n - 1 } else { a };
        let (b, k) = (r.bool(), r.below(3) as u8);
        let o = match kind {
            0..=2 => point(&vals, r),
            3 => Op::Endo(a, b, k),
            4 => Op::Neg(a, b, k),
            5 => Op::AddInc(a, q),
            6 => Op::Add(a, q),
            7 => Op::AddCond(a, q, b, k),
            8 => Op::AddCondInc(a, q, b, k),
            9 => Op::Double(a),
            10 => Op::DblAddInc(a, q),
            11 => Op::Mul(a, bits::<C>(r, mul)),
            12 => Op::MulEndo(a, chall(r)),
            13 => Op::MulInvEndo(a, chall(r)),
            14 => Op::MulFast(a, {
                let mut b = bits::<C>(r, mul);
                *b.last_mut().unwrap() = true;
                b
            }),
            15 => Op::MulInv(a, bits::<C>(r, mul)),
            _ => Op::MulInvFast(a, {
                let mut b = bits::<C>(r, mul);
                *b.last_mut().unwrap() = true;
                b
            }),
        };
        if push(o, &mut ops, &mut vals) {
            done += 1;
        }
    }
    (ops, vals)
}

/// Coordinates of every handle under an assignment against the group law.
pub fn judge<C: PC>(run: &Run<C::B>, vals: &[Pt], asg: &[C::B]) -> Option<String> {
    for (i, o) in run.out.iter().enumerate() {
        let (x, y) = (run.rec.eval(&o.0, asg), run.rec.eval(&o.1, asg));
        let (wx, wy) = vals[i].unwrap_or((U::ZERO, U::ZERO));
        if u_of(&x) != wx || u_of(&y) != wy {
            return Some(format!("point {} is ({:?}, {:?}), want {}", i, x, y, show_pt(&vals[i])));
        }
    }
    None
}
