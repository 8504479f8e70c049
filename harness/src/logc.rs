//! Curves "in the exponent": group elements kept as their discrete logarithm to the base
//! point, so that the repository's generic prover, verifier and recursion code runs on
//! big parameters at field-arithmetic cost. Coordinates are those of the true point, so
//! transcripts, proofs and verdicts are the ones of the real curve. A point that enters
//! through its coordinates has no known logarithm and is kept as a real point.
use halo::*;
use std::ops::*;
use std::sync::OnceLock;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait LogCurve: Curve {
    type Real: Curve<Scalar = Self::Scalar, Base = Self::Base>;
    fn of_log(s: Self::Scalar) -> Self;
    fn of_real(p: Self::Real) -> Self;
    /// A point that shows its faces in turn, one each time its coordinates are read (the
    /// last one from then on); for witnesses that contradict themselves. Thread-local.
    fn faced(faces: Vec<Self::Real>) -> Self;
    fn real(&self) -> Self::Real;
}

macro_rules! logcurve {
    ($name:ident, $c:ty, $s:ty, $b:ty, $tab:ident) => {
        #[derive(Copy, Clone, Debug)]
        pub enum $name {
            Log($s),
            Real($c),
            Faced(u32),
        }
        thread_local! {
            static FACES: std::cell::RefCell<Vec<(Vec<$c>, usize)>> = std::cell::RefCell::new(vec![]);
        }
        use $name::*;

        static $tab: OnceLock<Vec<$c>> = OnceLock::new();

        impl LogCurve for $name {
            type Real = $c;
            fn of_log(s: $s) -> Self {
                Log(s)
            }
            fn of_real(p: $c) -> Self {
                Real(p)
            }
            fn faced(faces: Vec<$c>) -> Self {
                FACES.with(|f| {
                    let mut f = f.borrow_mut();
                    f.push((faces, 0));
                    Faced(f.len() as u32 - 1)
                })
            }
            fn real(&self) -> $c {
                match self {
                    Real(p) => *p,
                    Faced(i) => FACES.with(|f| {
                        let e = &mut f.borrow_mut()[*i as usize];
                        let n = e.1.min(e.0.len() - 1);
                        e.1 += 1;
                        e.0[n]
                    }),
                    Log(s) => {
                        // 32 windows of 8 bits
                        let t = $tab.get_or_init(|| {
                            let mut v = Vec::with_capacity(32 * 256);
                            let mut base = <$c>::one();
                            for _ in 0..32 {
                                let mut cur = <$c>::zero();
                                for _ in 0..256 {
                                    v.push(cur);
                                    cur = cur + base;
                                }
                                base = cur;
                            }
                            v
                        });
                        let mut acc = <$c>::zero();
                        for (i, b) in s.to_bytes().iter().enumerate() {
                            if *b != 0 {
                                acc = acc + &t[i * 256 + *b as usize];
                            }
                        }
                        acc
                    }
                }
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl $name {
            fn add2(&self, o: &Self) -> Self {
                match (self, o) {
                    (Log(a), Log(b)) => Log(*a + b),
                    (Log(a), x) | (x, Log(a)) if bool::from(Field::is_zero(a)) => *x,
                    _ => Real(self.real() + &o.real()),
                }
            }
            fn neg1(&self) -> Self {
                match self {
                    Log(a) => Log(-*a),
                    _ => Real(-self.real()),
                }
            }
            fn mul2(&self, k: &$s) -> Self {
                match self {
                    Log(a) => Log(*a * k),
                    _ => Real(self.real() * k),
                }
            }
        }
        impl Add for $name {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                self.add2(&o)
            }
        }
        impl<'a> Add<&'a $name> for $name {
            type Output = Self;
            fn add(self, o: &Self) -> Self {
                self.add2(o)
            }
        }
        impl Sub for $name {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                self.add2(&o.neg1())
            }
        }
        impl<'a> Sub<&'a $name> for $name {
            type Output = Self;
            fn sub(self, o: &Self) -> Self {
                self.add2(&o.neg1())
            }
        }
        impl Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                self.neg1()
            }
        }
        impl Mul<$s> for $name {
            type Output = Self;
            fn mul(self, k: $s) -> Self {
                self.mul2(&k)
            }
        }
        impl<'a> Mul<&'a $s> for $name {
            type Output = Self;
            fn mul(self, k: &$s) -> Self {
                self.mul2(k)
            }
        }
        impl MulAssign<$s> for $name {
            fn mul_assign(&mut self, k: $s) {
                *self = self.mul2(&k)
            }
        }
        impl<'a> MulAssign<&'a $s> for $name {
            fn mul_assign(&mut self, k: &$s) {
                *self = self.mul2(k)
            }
        }
        impl AddAssign for $name {
            fn add_assign(&mut self, o: Self) {
                *self = self.add2(&o)
            }
        }
        impl<'a> AddAssign<&'a $name> for $name {
            fn add_assign(&mut self, o: &Self) {
                *self = self.add2(o)
            }
        }
        impl SubAssign for $name {
            fn sub_assign(&mut self, o: Self) {
                *self = self.add2(&o.neg1())
            }
        }
        impl<'a> SubAssign<&'a $name> for $name {
            fn sub_assign(&mut self, o: &Self) {
                *self = self.add2(&o.neg1())
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                match (self, o) {
                    (Log(a), Log(b)) => a == b,
                    _ => self.real() == o.real(),
                }
            }
        }
        impl Eq for $name {}
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) {
                    *b
                } else {
                    *a
                }
            }
        }
        impl Curve for $name {
            type Scalar = $s;
            type Base = $b;
            const BETA_SCALAR: $s = <$c as Curve>::BETA_SCALAR;
            const BETA_BASE: $b = <$c as Curve>::BETA_BASE;
            fn zero() -> Self {
                Log(<$s as Field>::zero())
            }
            fn one() -> Self {
                Log(<$s as Field>::one())
            }
            fn is_zero(&self) -> Choice {
                match self {
                    Log(a) => Field::is_zero(a),
                    _ => self.real().is_zero(),
                }
            }
            fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
                let p = <$c>::from_bytes(b);
                let ok = p.is_some();
                CtOption::new(Real(p.unwrap_or(<$c>::zero())), ok)
            }
            fn to_bytes(&self) -> [u8; 32] {
                self.real().to_bytes()
            }
            fn get_xy(&self) -> CtOption<($b, $b)> {
                self.real().get_xy()
            }
            fn get_xyz(&self) -> ($b, $b, $b) {
                self.real().get_xyz()
            }
            fn from_xy(x: $b, y: $b) -> CtOption<Self> {
                let p = <$c>::from_xy(x, y);
                let ok = p.is_some();
                CtOption::new(Real(p.unwrap_or(<$c>::zero())), ok)
            }
            fn from_xy_unchecked(x: $b, y: $b) -> Self {
                Real(<$c>::from_xy_unchecked(x, y))
            }
            fn double(&self) -> Self {
                self.add2(self)
            }
            fn b() -> $b {
                <$c>::b()
            }
            fn is_on_curve(&self) -> bool {
                match self {
                    Log(_) => true,
                    _ => self.real().is_on_curve(),
                }
            }
        }
    };
}
mod l0 {
    use super::*;
    logcurve!(Log0, Ec0, Fp, Fq, T0);
}
mod l1 {
    use super::*;
    logcurve!(Log1, Ec1, Fq, Fp, T1);
}
pub use l0::Log0;
pub use l1::Log1;

impl crate::curve::PC for Log0 {
    type S = Fp;
    type B = Fq;
    const CNAME: &'static str = "Ec0";
    const BCOEF: u64 = 5;
}
impl crate::curve::PC for Log1 {
    type S = Fq;
    type B = Fp;
    const CNAME: &'static str = "Ec1";
    const BCOEF: u64 = 7;
}

/// Parameters over random generators of known logarithm, and the same parameters over
/// the real curve.
pub fn log_params<L: LogCurve>(k: usize, logs: Vec<L::Scalar>) -> (Params<L>, Params<L::Real>)
where
    L::Base: Send,
{
    let d = 1usize << k;
    assert_eq!(logs.len(), d);
    let generators: Vec<L> = logs.into_iter().map(L::of_log).collect();
    let mut real = vec![L::Real::zero(); d];
    let chunk = (d / 8).max(1);
    std::thread::scope(|s| {
        for (o, g) in real.chunks_mut(chunk).zip(generators.chunks(chunk)) {
            s.spawn(move || {
                for (o, g) in o.iter_mut().zip(g) {
                    let (x, y) = g.real().get_xy().unwrap();
                    *o = L::Real::from_xy_unchecked(x, y);
                }
            });
        }
    });
    let generators_xy: Vec<(L::Base, L::Base)> = real.iter().map(|g| g.get_xy().unwrap()).collect();
    let a = Params {
        g: L::one(),
        k,
        d,
        n: d / 4,
        generators,
        generators_xy: generators_xy.clone(),
    };
    let b = Params {
        g: L::Real::one(),
        k,
        d,
        n: d / 4,
        generators: real,
        generators_xy,
    };
    (a, b)
}

pub fn real_proof<L: LogCurve>(p: &Proof<L>) -> Proof<L::Real> {
    let c = |p: &L| p.real();
    let v = |v: &Vec<L>| v.iter().map(c).collect::<Vec<_>>();
    Proof {
        r_commitment: c(&p.r_commitment),
        s_cur_commitment: c(&p.s_cur_commitment),
        t_positive_commitment: c(&p.t_positive_commitment),
        t_negative_commitment: c(&p.t_negative_commitment),
        c_commitment: c(&p.c_commitment),
        s_new_commitment: c(&p.s_new_commitment),
        rx_opening: p.rx_opening,
        rxy_opening: p.rxy_opening,
        sx_old_opening: p.sx_old_opening,
        sx_cur_opening: p.sx_cur_opening,
        tx_positive_opening: p.tx_positive_opening,
        tx_negative_opening: p.tx_negative_opening,
        sx_new_opening: p.sx_new_opening,
        inner_product: MultiPolynomialOpening {
            rounds: p
                .inner_product
                .rounds
                .iter()
                .map(|r| InnerProductRound { L: v(&r.L), R: v(&r.R), l: r.l.clone(), r: r.r.clone() })
                .collect(),
            a: p.inner_product.a.clone(),
            g: c(&p.inner_product.g),
        },
    }
}
pub fn real_left<L: LogCurve>(l: &Leftovers<L>) -> Leftovers<L::Real> {
    Leftovers {
        s_new_commitment: l.s_new_commitment.real(),
        y_new: l.y_new,
        g_new: l.g_new.real(),
        challenges_sq_packed_new: l.challenges_sq_packed_new.clone(),
    }
}

/// Parameters whose coordinates are only filled in for the first `m` generators (the ones
/// that public inputs use); the others repeat.
pub fn log_params_part<L: LogCurve>(k: usize, seed: L::Scalar, m: usize) -> Params<L>
where
    L::Base: Send,
{
    let d = 1usize << k;
    let m = m.min(d);
    // logs follow seed -> seed^2 + 1: distinct in practice, cheap and reproducible
    let mut s = seed;
    let mut generators: Vec<L> = Vec::with_capacity(d);
    for _ in 0..d {
        generators.push(L::of_log(s));
        s = s * &s + &L::Scalar::one();
    }
    let mut xy: Vec<(L::Base, L::Base)> = vec![(L::Base::zero(), L::Base::zero()); m];
    let chunk = (m + 7) / 8;
    std::thread::scope(|s| {
        for (o, g) in xy.chunks_mut(chunk).zip(generators.chunks(chunk)) {
            s.spawn(move || {
                for (o, g) in o.iter_mut().zip(g) {
                    *o = g.real().get_xy().unwrap();
                }
            });
        }
    });
    xy.resize(d, xy[m - 1]);
    Params {
        g: L::one(),
        k,
        d,
        n: d / 4,
        generators,
        generators_xy: xy,
    }
}
