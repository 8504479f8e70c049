//! The two curves and an independent affine/Jacobian integer model of their groups.
use crate::big::*;
use crate::field::*;
use crate::rng::Rng;
use halo::{Curve, Ec0, Ec1, Field, Fp, Fq};

pub trait PC: Curve<Scalar = <Self as PC>::S, Base = <Self as PC>::B> {
    type S: PF;
    type B: PF;
    const CNAME: &'static str;
    const BCOEF: u64;
}
impl PC for Ec0 {
    type S = Fp;
    type B = Fq;
    const CNAME: &'static str = "Ec0";
    const BCOEF: u64 = 5;
}
impl PC for Ec1 {
    type S = Fq;
    type B = Fp;
    const CNAME: &'static str = "Ec1";
    const BCOEF: u64 = 7;
}

/// Affine model point in ordinary integers; None is the identity.
pub type Pt = Option<(U, U)>;

#[derive(Clone, Copy)]
pub struct Model {
    pub m: Mont,
    pub b: U,
    pub order: U,
}

impl Model {
    pub fn of<C: PC>() -> Model {
        Model {
            m: Mont::new(<C::B as PF>::P),
            b: U::from_u64(C::BCOEF),
            order: <C::S as PF>::P,
        }
    }
    pub fn on_curve(&self, x: &U, y: &U) -> bool {
        let p = &self.m.p;
        if x.ge(p) || y.ge(p) {
            return false;
        }
        let m = &self.m;
        let (xm, ym) = (m.to(x), m.to(y));
        let rhs = m.add(&m.mul(&m.sq(&xm), &xm), &m.to(&self.b));
        m.sq(&ym) == rhs
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        a.map(|(x, y)| (x, negm(&y, &self.m.p)))
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        match (a, b) {
            (None, _) => *b,
            (_, None) => *a,
            (Some((x1, y1)), Some((x2, y2))) => {
                let m = &self.m;
                let (x1m, y1m, x2m, y2m) = (m.to(x1), m.to(y1), m.to(x2), m.to(y2));
                let l = if x1 == x2 {
                    if y1 != y2 || y1.is_zero() {
                        return None;
                    }
                    let xx = m.sq(&x1m);
                    let num = m.add(&m.add(&xx, &xx), &xx);
                    m.mul(&num, &m.inv(&m.add(&y1m, &y1m)))
                } else {
                    m.mul(&m.sub(&y2m, &y1m), &m.inv(&m.sub(&x2m, &x1m)))
                };
                let x3 = m.sub(&m.sub(&m.sq(&l), &x1m), &x2m);
                let y3 = m.sub(&m.mul(&l, &m.sub(&x1m, &x3)), &y1m);
                Some((m.of(&x3), m.of(&y3)))
            }
        }
    }
    pub fn sub(&self, a: &Pt, b: &Pt) -> Pt {
        self.add(a, &self.neg(b))
    }
    /// Integer multiple (k is any 256-bit integer), Jacobian double-and-add.
    pub fn mul(&self, a: &Pt, k: &U) -> Pt {
        let (x, y) = match a {
            None => return None,
            Some(v) => *v,
        };
        let m = &self.m;
        let (ax, ay) = (m.to(&x), m.to(&y));
        // acc in Jacobian coordinates; z = 0 is the identity
        let mut acc = (m.one(), m.one(), U::ZERO);
        for i in (0..256).rev() {
            acc = self.jdouble(&acc);
            if k.bit(i) {
                acc = self.jadd_affine(&acc, &ax, &ay);
            }
        }
        if acc.2.is_zero() {
            return None;
        }
        let zi = m.inv(&acc.2);
        let zi2 = m.sq(&zi);
        Some((
            m.of(&m.mul(&acc.0, &zi2)),
            m.of(&m.mul(&acc.1, &m.mul(&zi2, &zi))),
        ))
    }
    fn jdouble(&self, p: &(U, U, U)) -> (U, U, U) {
        let m = &self.m;
        if p.2.is_zero() || p.1.is_zero() {
            return (m.one(), m.one(), U::ZERO);
        }
        let d = |a: &U| m.add(a, a);
        let xx = m.sq(&p.0);
        let yy = m.sq(&p.1);
        let s = d(&d(&m.mul(&p.0, &yy)));
        let mm = m.add(&d(&xx), &xx);
        let x3 = m.sub(&m.sq(&mm), &d(&s));
        let y4 = m.sq(&yy);
        let y3 = m.sub(&m.mul(&mm, &m.sub(&s, &x3)), &d(&d(&d(&y4))));
        let z3 = d(&m.mul(&p.1, &p.2));
        (x3, y3, z3)
    }
    fn jadd_affine(&self, p: &(U, U, U), x2: &U, y2: &U) -> (U, U, U) {
        let m = &self.m;
        if p.2.is_zero() {
            return (*x2, *y2, m.one());
        }
        let zz = m.sq(&p.2);
        let u2 = m.mul(x2, &zz);
        let s2 = m.mul(y2, &m.mul(&zz, &p.2));
        let h = m.sub(&u2, &p.0);
        let rr = m.sub(&s2, &p.1);
        if h.is_zero() {
            if rr.is_zero() {
                return self.jdouble(p);
            }
            return (m.one(), m.one(), U::ZERO);
        }
        let hh = m.sq(&h);
        let hhh = m.mul(&hh, &h);
        let v = m.mul(&p.0, &hh);
        let x3 = m.sub(&m.sub(&m.sq(&rr), &hhh), &m.add(&v, &v));
        let y3 = m.sub(&m.mul(&rr, &m.sub(&v, &x3)), &m.mul(&p.1, &hhh));
        let z3 = m.mul(&p.2, &h);
        (x3, y3, z3)
    }
    /// A point found by trial x (model only).
    pub fn random(&self, r: &mut Rng) -> Pt {
        loop {
            let x = hostile_u(r, &self.m.p);
            if let Some(y) = self.lift_x(&x) {
                let y = if r.bool() { negm(&y, &self.m.p) } else { y };
                return Some((x, y));
            }
        }
    }
    /// A square root of x^3+b, by Tonelli-Shanks in the model.
    pub fn lift_x(&self, x: &U) -> Option<U> {
        let m = &self.m;
        let xm = m.to(x);
        let rhs = m.of(&m.add(&m.mul(&m.sq(&xm), &xm), &m.to(&self.b)));
        msqrt(m, &rhs)
    }
}

/// Tonelli-Shanks over the model.
pub fn msqrt(m: &Mont, a: &U) -> Option<U> {
    if a.is_zero() {
        return Some(U::ZERO);
    }
    if m.legendre(a) != 1 {
        return None;
    }
    let pm1 = m.p.wsub(&U::ONE);
    let mut s = 0;
    let mut t = pm1;
    while !t.bit(0) {
        t = t.shr1();
        s += 1;
    }
    let mut z = U::from_u64(2);
    while m.legendre(&z) != -1 {
        z = z.wadd(&U::ONE);
    }
    let am = m.to(a);
    let mut c = m.pow(&m.to(&z), &t);
    let mut r = m.pow(&am, &t.wadd(&U::ONE).shr1());
    let mut tt = m.pow(&am, &t);
    let mut mm = s;
    while tt != m.one() {
        let mut i = 0;
        let mut x = tt;
        while x != m.one() {
            x = m.sq(&x);
            i += 1;
        }
        let mut b = c;
        for _ in 0..(mm - i - 1) {
            b = m.sq(&b);
        }
        r = m.mul(&r, &b);
        c = m.sq(&b);
        tt = m.mul(&tt, &c);
        mm = i;
    }
    Some(m.of(&r))
}

/// What the point is, read through its coordinates (identity: None).
pub fn pt_of<C: PC>(p: &C) -> Pt {
    let xy = p.get_xy();
    if bool::from(xy.is_some()) {
        let (x, y) = xy.unwrap();
        Some((u_of(&x), u_of(&y)))
    } else {
        None
    }
}
/// The same group element computed from the raw projective triple.
pub fn pt_of_raw<C: PC>(p: &C) -> Pt {
    let (x, y, z) = p.get_xyz();
    let m = Mont::new(<C::B as PF>::P);
    let (x, y, z) = (u_of(&x), u_of(&y), u_of(&z));
    if z.is_zero() {
        return None;
    }
    let zi = m.invo(&z);
    Some((mulm(&x, &zi, &m.p), mulm(&y, &zi, &m.p)))
}
/// Native point of a model point (through the encoding).
pub fn c_of<C: PC>(p: &Pt) -> C {
    match p {
        None => C::zero(),
        Some((x, y)) => {
            let r = C::from_xy(f_of(x), f_of(y));
            assert!(bool::from(r.is_some()), "on-curve coordinates refused");
            r.unwrap()
        }
    }
}
/// Another representative of the same group element.
pub fn rescale<C: PC>(p: &C, r: &mut Rng) -> C {
    let k = C::one() * &rand_f::<C::S>(r);
    (*p + k) - k
}
/// A native random point (cheap, random scalar of the generator).
pub fn rand_pt<C: PC>(r: &mut Rng) -> C {
    C::one() * &rand_f::<C::S>(r)
}
pub fn show_pt(p: &Pt) -> String {
    match p {
        None => "identity".into(),
        Some((x, y)) => format!("({}, {})", x.hex(), y.hex()),
    }
}
pub fn fzero<F: Field>(f: &F) -> bool {
    bool::from(f.is_zero())
}
