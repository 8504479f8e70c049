//! A one-word field and a one-word group over it, for running the repository's generic
//! parallel routines under interpreters and sanitizers (and with injected delays).
//! The field is the integers modulo 2^64 - 2^32 + 1, the group its additive group.
use halo::*;
use std::cell::Cell;
use std::ops::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::Mutex;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub const P: u64 = 0xffff_ffff_0000_0001;

/// One delay in every this many operations (0: none). Written before threads start.
pub static DELAYS: AtomicU32 = AtomicU32::new(0);
static TRACED: AtomicBool = AtomicBool::new(false);
static THREADS: AtomicU32 = AtomicU32::new(0);
static TRACE: Mutex<(u64, BTreeMap<u32, u64>, u64)> = Mutex::new((0, BTreeMap::new(), 0));
/// Start recording in which order threads reach injected delays (one call at a time).
pub fn trace_on() {
    TRACED.store(true, Ordering::Relaxed);
}
/// The order seen since the last call: its digest, how many threads and how many events.
pub fn trace_take() -> (u64, usize, u64) {
    let mut t = TRACE.lock().unwrap();
    let o = (t.0, t.1.len(), t.2);
    *t = (0, BTreeMap::new(), 0);
    o
}
pub fn trace_off() {
    TRACED.store(false, Ordering::Relaxed);
    trace_take();
}
thread_local! {
    static TID: Cell<u32> = const { Cell::new(0) };
    static ROLL: Cell<u64> = Cell::new(0);
}
fn maybe_delay() {
    let d = DELAYS.load(Ordering::Relaxed);
    if d == 0 {
        return;
    }
    ROLL.with(|c| {
        let mut x = c.get();
        if x == 0 {
            // different on every thread
            x = (c as *const _ as u64) ^ 0x9e37_79b9_7f4a_7c15;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        if x % d as u64 == 0 {
            if TRACED.load(Ordering::Relaxed) {
                let me = TID.with(|t| {
                    if t.get() == 0 {
                        t.set(1 + THREADS.fetch_add(1, Ordering::Relaxed));
                    }
                    t.get()
                });
                let mut t = TRACE.lock().unwrap();
                // which thread, counted from the first one heard of in this trace
                let n = t.1.len() as u64;
                let i = *t.1.entry(me).or_insert(n);
                t.0 = (t.0 ^ i).wrapping_mul(0x100000001b3).rotate_left(7);
                t.2 += 1;
            }
            if x & 0x700 == 0 {
                std::thread::sleep(std::time::Duration::from_micros(50));
            } else {
                std::thread::yield_now();
            }
        }
    })
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
pub struct Tf(pub u64);
#[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
pub struct Tg(pub u64);

fn add(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % P as u128) as u64
}
fn sub(a: u64, b: u64) -> u64 {
    ((a as u128 + (P - b) as u128) % P as u128) as u64
}
fn mul(a: u64, b: u64) -> u64 {
    maybe_delay();
    ((a as u128 * b as u128) % P as u128) as u64
}
fn pow(mut a: u64, mut e: u64) -> u64 {
    let mut o = 1;
    while e > 0 {
        if e & 1 == 1 {
            o = mul(o, a);
        }
        a = mul(a, a);
        e >>= 1;
    }
    o
}

macro_rules! group {
    ($t:ident) => {
        impl Add for $t {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                $t(add(self.0, o.0))
            }
        }
        impl<'a> Add<&'a $t> for $t {
            type Output = Self;
            fn add(self, o: &Self) -> Self {
                $t(add(self.0, o.0))
            }
        }
        impl Sub for $t {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                $t(sub(self.0, o.0))
            }
        }
        impl<'a> Sub<&'a $t> for $t {
            type Output = Self;
            fn sub(self, o: &Self) -> Self {
                $t(sub(self.0, o.0))
            }
        }
        impl Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                $t(sub(0, self.0))
            }
        }
        impl Mul<Tf> for $t {
            type Output = Self;
            fn mul(self, o: Tf) -> Self {
                $t(mul(self.0, o.0))
            }
        }
        impl<'a> Mul<&'a Tf> for $t {
            type Output = Self;
            fn mul(self, o: &Tf) -> Self {
                $t(mul(self.0, o.0))
            }
        }
        impl MulAssign<Tf> for $t {
            fn mul_assign(&mut self, o: Tf) {
                self.0 = mul(self.0, o.0)
            }
        }
        impl<'a> MulAssign<&'a Tf> for $t {
            fn mul_assign(&mut self, o: &Tf) {
                self.0 = mul(self.0, o.0)
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: Self) {
                maybe_delay();
                self.0 = add(self.0, o.0)
            }
        }
        impl<'a> AddAssign<&'a $t> for $t {
            fn add_assign(&mut self, o: &Self) {
                maybe_delay();
                self.0 = add(self.0, o.0)
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: Self) {
                self.0 = sub(self.0, o.0)
            }
        }
        impl<'a> SubAssign<&'a $t> for $t {
            fn sub_assign(&mut self, o: &Self) {
                self.0 = sub(self.0, o.0)
            }
        }
        impl ConstantTimeEq for $t {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self.0 == o.0) as u8)
            }
        }
        impl ConditionallySelectable for $t {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) {
                    *b
                } else {
                    *a
                }
            }
        }
    };
}
group!(Tf);
group!(Tg);

impl From<bool> for Tf {
    fn from(b: bool) -> Self {
        Tf(b as u64)
    }
}
impl Field for Tf {
    const NUM_BITS: u32 = 64;
    const CAPACITY: u32 = 63;
    const S: u32 = 32;
    // 7 generates the multiplicative group; 7^((p - 1) / 2^32)
    const ALPHA: Self = Tf(1753635133440165772);
    const RESCUE_ALPHA: u64 = 7;
    // not used
    const RESCUE_INVALPHA: [u64; 4] = [1, 0, 0, 0];
    // 7^((p - 1) / 3)
    const BETA: Self = Tf(BETA);

    fn is_zero(&self) -> Choice {
        Choice::from((self.0 == 0) as u8)
    }
    fn from_u64(v: u64) -> Self {
        Tf(v % P)
    }
    fn from_u128(v: u128) -> Self {
        Tf((v % P as u128) as u64)
    }
    fn sqrt(&self) -> CtOption<Self> {
        unimplemented!()
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Tf(pow(self.0, P - 2)), Choice::from((self.0 != 0) as u8))
    }
    fn zero() -> Self {
        Tf(0)
    }
    fn one() -> Self {
        Tf(1)
    }
    fn square(&self) -> Self {
        Tf(mul(self.0, self.0))
    }
    fn to_bytes(&self) -> [u8; 32] {
        let mut o = [0; 32];
        o[..8].copy_from_slice(&self.0.to_le_bytes());
        o
    }
    fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        let mut v = [0; 8];
        v.copy_from_slice(&b[..8]);
        let v = u64::from_le_bytes(v);
        CtOption::new(Tf(v % P), Choice::from((v < P) as u8))
    }
    fn get_lower_128(&self) -> u128 {
        self.0 as u128
    }
}
const BETA: u64 = 18446744065119617025;

impl Curve for Tg {
    type Scalar = Tf;
    type Base = Tf;
    const BETA_SCALAR: Tf = Tf(BETA);
    const BETA_BASE: Tf = Tf(BETA);
    fn zero() -> Self {
        Tg(0)
    }
    fn one() -> Self {
        Tg(1)
    }
    fn is_zero(&self) -> Choice {
        Choice::from((self.0 == 0) as u8)
    }
    /// half of all strings decode
    fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        let mut v = [0; 8];
        v.copy_from_slice(&b[..8]);
        let v = u64::from_le_bytes(v);
        CtOption::new(Tg(v % P), Choice::from((v < P && v != 0 && v % 2 == 0) as u8))
    }
    fn to_bytes(&self) -> [u8; 32] {
        Tf(self.0).to_bytes()
    }
    fn get_xy(&self) -> CtOption<(Tf, Tf)> {
        CtOption::new((Tf(self.0), Tf(self.0)), Choice::from((self.0 != 0) as u8))
    }
    fn get_xyz(&self) -> (Tf, Tf, Tf) {
        (Tf(self.0), Tf(self.0), Tf(1))
    }
    fn from_xy(x: Tf, y: Tf) -> CtOption<Self> {
        CtOption::new(Tg(x.0), Choice::from((x == y) as u8))
    }
    fn from_xy_unchecked(x: Tf, _: Tf) -> Self {
        Tg(x.0)
    }
    fn double(&self) -> Self {
        maybe_delay();
        Tg(add(self.0, self.0))
    }
    fn b() -> Tf {
        Tf(0)
    }
    fn is_on_curve(&self) -> bool {
        true
    }
}

/// The parallel routines on one size, against their definitions. Returns what differs.
pub fn judge(routine: usize, n: usize, seed: u64) -> Option<String> {
    let mut s = seed | 1;
    let mut next = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s % P
    };
    let a: Vec<Tf> = (0..n).map(|_| Tf(next())).collect();
    let b: Vec<Tf> = (0..n).map(|_| Tf(next())).collect();
    let g: Vec<Tg> = (0..n).map(|_| Tg(next())).collect();
    match routine {
        0 => {
            let got = multiexp(&a, &g);
            let want = g.iter().zip(&a).fold(0, |acc, (g, a)| add(acc, mul(g.0, a.0)));
            if got.0 != want {
                return Some(format!("multiexp of {} terms: {} instead of {}", n, got.0, want));
            }
        }
        1 => {
            if n == 0 {
                return None;
            }
            // unequal lengths
            let m = 1 + n / 2;
            let b = &b[..m.min(n)];
            let got = multiply_polynomials(a.clone(), b.to_vec());
            let mut want = vec![0; n + b.len() - 1];
            for (i, x) in a.iter().enumerate() {
                for (j, y) in b.iter().enumerate() {
                    want[i + j] = add(want[i + j], mul(x.0, y.0));
                }
            }
            if got.iter().map(|x| x.0).ne(want) {
                return Some(format!("multiply_polynomials of {} and {} terms", n, b.len()));
            }
        }
        2 => {
            if n < 2 || n % 2 == 1 {
                return None;
            }
            let mut got = g.clone();
            let (c, ci) = (a[0], b[0]);
            parallel_generator_collapse(&mut got, c, ci);
            for i in 0..n / 2 {
                let want = add(mul(g[i].0, ci.0), mul(g[i + n / 2].0, c.0));
                if got[i].0 != want {
                    return Some(format!("parallel_generator_collapse of {} elements: element {}", n, i));
                }
            }
        }
        3 => {
            let got = compute_inner_product(&a, &b);
            let want = a.iter().zip(&b).fold(0, |acc, (a, b)| add(acc, mul(a.0, b.0)));
            if got.0 != want {
                return Some(format!("compute_inner_product of {} terms", n));
            }
        }
        4 => {
            let mut v = a.clone();
            if n > 2 {
                v[n / 2] = Tf(0);
            }
            let w = v.clone();
            Tf::batch_invert(&mut v);
            for (x, y) in v.iter().zip(&w) {
                if (y.0 != 0 && mul(x.0, y.0) != 1) || (y.0 == 0 && x.0 != 0) {
                    return Some(format!("batch_invert of {} elements", n));
                }
            }
        }
        _ => {
            let k = 4 + n % 3;
            let p: Params<Tg> = Params::new(k);
            let d = 1 << k;
            if p.generators.len() != d || p.generators_xy.len() != d {
                return Some(format!("Params::new({}): {} generators", k, p.generators.len()));
            }
            for i in 0..d {
                let v = p.generators[i].0;
                if v == 0 || p.generators_xy[i] != (Tf(v), Tf(v)) {
                    return Some(format!("Params::new({}): generator {}", k, i));
                }
                if p.generators[..i].iter().any(|g| g.0 == v) {
                    return Some(format!("Params::new({}): generator {} repeats", k, i));
                }
            }
        }
    }
    None
}

/// Sizes worth trying with `cpus` threads.
pub fn sizes(cpus: usize, seed: u64, more: usize, max: usize) -> Vec<usize> {
    let n = cpus;
    let mut v: Vec<usize> = (0..18).collect();
    for m in [n, 2 * n, 3 * n, n * n, n * n + n, 2 * n * n] {
        v.extend([m.wrapping_sub(1), m, m + 1]);
    }
    for e in 4..10 {
        v.extend([(1 << e) - 1, 1 << e, (1 << e) + 1]);
    }
    let mut s = seed | 1;
    for _ in 0..more {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        v.push((s % max.max(1) as u64) as usize);
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
