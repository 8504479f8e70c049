//! Workload of F04, run under valgrind's memcheck: operands are marked undefined, so a
//! branch or an address that depends on them is reported. Prints, per operation, the number
//! of reports, and what it computed.
use halo::*;
use hv::*;
use std::arch::asm;
use std::mem::{size_of, ManuallyDrop};
use subtle::{Choice, CtOption};

/// A valgrind client request; 0 when not under valgrind.
#[inline(never)]
fn request(code: u64, a: u64, b: u64) -> u64 {
    let args = [code, a, b, 0, 0, 0];
    let r: u64;
    unsafe {
        asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") 0u64 => r,
            out("rdi") _,
        );
    }
    r
}
fn undefined<T>(p: *const T) {
    request(0x4d43_0001, p as u64, size_of::<T>() as u64);
}
fn defined<T>(p: *const T) {
    request(0x4d43_0002, p as u64, size_of::<T>() as u64);
}
fn reports() -> u64 {
    request(0x1201, 0, 0)
}

/// Marking can be turned off, to compare what is computed.
static MARK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

#[inline(never)]
fn secret<T: Copy>(v: &T) -> T {
    let t = *v;
    if MARK.load(std::sync::atomic::Ordering::Relaxed) {
        undefined(&t);
    }
    unsafe { std::ptr::read_volatile(&t) }
}

struct Out {
    pass: usize,
}
impl Out {
    /// `f` gets no operand but the secrets it captured; `show` reads its result, defined.
    #[inline(never)]
    fn op<T>(&self, name: &str, f: impl FnOnce() -> T, show: impl FnOnce(T) -> Vec<u8>) {
        let e0 = reports();
        let mut v = ManuallyDrop::new(f());
        let e1 = reports();
        defined(&mut v as *mut _);
        let v = unsafe { std::ptr::read_volatile(&*v as *const T) };
        let e2 = reports();
        let s = show(v);
        let mut h = 0xcbf29ce484222325u64;
        for b in &s {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        println!("op {} {} {} {:016x}", self.pass, name, e1 - e0 + (e2 - e1), h);
    }
}

fn fb<F: PF>(v: F) -> Vec<u8> {
    v.to_bytes().to_vec()
}
fn ob<F: PF>(v: CtOption<F>) -> Vec<u8> {
    let mut o = vec![v.is_some().unwrap_u8()];
    o.extend(v.unwrap_or(F::zero()).to_bytes());
    o
}
fn cb(c: Choice) -> Vec<u8> {
    vec![c.unwrap_u8()]
}
fn pb<C: PC>(p: C) -> Vec<u8> {
    let (x, y, z) = p.get_xyz();
    [x.to_bytes(), y.to_bytes(), z.to_bytes()].concat()
}

macro_rules! inherent {
    ($f:ident, $o:ident, $n:expr, $a:ident, $b:ident) => {{
        let n = $n;
        $o.op(&n("inherent-add"), || <$f>::add(&$a, &$b), fb);
        $o.op(&n("inherent-sub"), || <$f>::sub(&$a, &$b), fb);
        $o.op(&n("inherent-mul"), || <$f>::mul(&$a, &$b), fb);
        $o.op(&n("inherent-square"), || <$f>::square(&$a), fb);
        $o.op(&n("inherent-double"), || <$f>::double(&$a), fb);
        $o.op(&n("inherent-neg"), || <$f>::neg(&$a), fb);
        $o.op(&n("ref-add"), || &$a + &$b, fb);
        $o.op(&n("ref-sub"), || &$a - &$b, fb);
        $o.op(&n("ref-mul"), || &$a * &$b, fb);
        $o.op(&n("ref-neg"), || -&$a, fb);
        let w = secret(&[$a.to_bytes()[0]; 64]);
        $o.op(&n("from_bytes_wide"), || <$f>::from_bytes_wide(&w), fb);
        let l = secret(&[3u64, 5, 7, 9]);
        $o.op(&n("from_raw"), || <$f>::from_raw(l), fb);
        $o.op(&n("into-bytes"), || <[u8; 32]>::from(&$a), |v| v.to_vec());
    }};
}

fn field<F: PF>(o: &Out, r: &mut Rng, kind: usize) -> (F, F, String) {
    let pick = |r: &mut Rng| match kind {
        0 => rand_f::<F>(r),
        1 => F::zero(),
        2 => F::one(),
        _ => hostile_f::<F>(r),
    };
    let (pa, pb_) = (pick(r), if kind == 2 { F::zero() } else { pick(r) });
    let (a, b) = (secret(&pa), secret(&pb_));
    let n = |s: &str| format!("{}:{}", F::NAME, s);
    o.op(&n("add"), || a + b, fb);
    o.op(&n("add-ref"), || a + &b, fb);
    o.op(&n("sub"), || a - b, fb);
    o.op(&n("sub-ref"), || a - &b, fb);
    o.op(&n("mul"), || a * b, fb);
    o.op(&n("mul-ref"), || a * &b, fb);
    o.op(&n("neg"), || -a, fb);
    o.op(&n("square"), || a.square(), fb);
    o.op(&n("add-assign"), || { let mut t = a; t += b; t += &b; t }, fb);
    o.op(&n("sub-assign"), || { let mut t = a; t -= b; t -= &b; t }, fb);
    o.op(&n("mul-assign"), || { let mut t = a; t *= b; t *= &b; t }, fb);
    o.op(&n("ct_eq"), || a.ct_eq(&b), cb);
    o.op(&n("ct_eq-itself"), || a.ct_eq(&a), cb);
    o.op(&n("is_zero"), || a.is_zero(), cb);
    for c in [0u8, 1] {
        let c = secret(&Choice::from(c));
        o.op(&n("conditional_select"), || F::conditional_select(&a, &b, c), fb);
        o.op(&n("conditional_assign"), || { let mut t = a; t.conditional_assign(&b, c); t }, fb);
        o.op(&n("conditional_swap"), || { let (mut t, mut u) = (a, b); F::conditional_swap(&mut t, &mut u, c); t - u }, fb);
    }
    o.op(&n("invert"), || a.invert(), ob);
    o.op(&n("sqrt"), || a.sqrt(), ob);
    let sq = secret(&pa.square());
    o.op(&n("sqrt-of-square"), || sq.sqrt(), ob);
    let e = secret(&u_of(&pb_).0);
    o.op(&n("pow"), || a.pow(&e), fb);
    o.op(&n("pow-public-exponent"), || a.pow(&[r.u64(), 0, 1 << 63, 5]), fb);
    o.op(&n("pow_vartime-public-exponent"), || a.pow_vartime(&[r.u64(), 0, u64::MAX, 5]), fb);
    o.op(&n("to_bytes"), || a.to_bytes(), |v| v.to_vec());
    o.op(&n("get_lower_128"), || a.get_lower_128(), |v| v.to_le_bytes().to_vec());
    let mut raw = pa.to_bytes();
    let x = secret(&raw);
    o.op(&n("from_bytes"), || F::from_bytes(&x), ob);
    raw[31] = raw[31].wrapping_add(0x5d);
    let x = secret(&raw);
    o.op(&n("from_bytes-noncanonical"), || F::from_bytes(&x), ob);
    let v = secret(&r.u64());
    o.op(&n("from_u64"), || F::from_u64(v), fb);
    o.op(&n("From<u64>"), || F::from(v), fb);
    let v = secret(&((r.u64() as u128) << 64 | r.u64() as u128));
    o.op(&n("from_u128"), || F::from_u128(v), fb);
    (a, b, F::NAME.to_string())
}

fn curve<C: PC>(o: &Out, r: &mut Rng, kind: usize) {
    let p = rand_pt::<C>(r);
    // any representative
    let (pp, pq) = match kind {
        0 => (p, rand_pt::<C>(r)),
        1 => (p, C::zero()),
        2 => (p, p),
        _ => (p, -p),
    };
    let pp = if kind == 3 { pp + C::one() - C::one() } else { pp };
    let (a, b) = (secret(&pp), secret(&pq));
    let n = |s: &str| format!("{}:{}", C::CNAME, s);
    o.op(&n("add"), || a + b, pb);
    o.op(&n("add-ref"), || a + &b, pb);
    o.op(&n("add-assign"), || { let mut t = a; t += b; t += &b; t }, pb);
    o.op(&n("double"), || a.double(), pb);
    o.op(&n("ct_eq"), || a.ct_eq(&b), cb);
    o.op(&n("is_zero"), || b.is_zero(), cb);
    let xy = |v: CtOption<(C::B, C::B)>| {
        if v.is_some().unwrap_u8() == 0 {
            return vec![0];
        }
        let (x, y) = v.unwrap();
        [x.to_bytes(), y.to_bytes()].concat()
    };
    o.op(&n("get_xy"), || a.get_xy(), xy);
    o.op(&n("get_xyz"), || a.get_xyz(), |(x, y, z)| [x.to_bytes(), y.to_bytes(), z.to_bytes()].concat());
    let s = match kind {
        0 => rand_f::<C::S>(r),
        1 => C::S::zero(),
        2 => C::S::one(),
        _ => hostile_f::<C::S>(r),
    };
    let k = secret(&s);
    o.op(&n("mul"), || a * k, pb);
    o.op(&n("mul-ref"), || a * &k, pb);
    o.op(&n("mul-of-identity"), || b * &k, pb);
    o.op(&n("mul-generator"), || C::one() * &k, pb);
    o.op(&n("mul-assign"), || { let mut t = a; t *= k; t }, pb);
    for c in [0u8, 1] {
        let c = secret(&Choice::from(c));
        o.op(&n("conditional_select"), || C::conditional_select(&a, &b, c), pb);
        o.op(&n("conditional_assign"), || { let mut t = a; t.conditional_assign(&b, c); t }, pb);
    }
}

#[inline(never)]
fn branch(v: u64) -> u64 {
    if v & 4 == 4 {
        std::hint::black_box(v) ^ 1
    } else {
        3
    }
}
static TABLE: [u8; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i * 7 % 251) as u8; i += 1 } t };
#[inline(never)]
fn index(v: u64) -> u8 {
    unsafe { std::ptr::read_volatile(&TABLE[(v & 255) as usize]) }
}

fn main() {
    let seed: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let rounds: usize = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(4);
    println!("valgrind {}", request(0x1001, 0, 0));
    for pass in 0..2 {
        // second pass: the same, unmarked
        MARK.store(pass == 0, std::sync::atomic::Ordering::Relaxed);
        let o = Out { pass };
        // controls: these must be reported
        let v = secret(&0x1234u64);
        o.op("control:branch", || branch(v), |v| vec![v as u8]);
        o.op("control:index", || index(v), |v| vec![v]);
        let e = secret(&[v, 5, 7, 11]);
        o.op("control:pow_vartime", || Fp::from_u64(7).pow_vartime(&e), fb);
        for i in 0..rounds {
            let mut r = Rng::new(seed.wrapping_add(i as u64));
            let o = Out { pass };
            println!("round {}", i);
            let (a, b, m) = field::<Fp>(&o, &mut r, i % 4);
            inherent!(Fp, o, |s: &str| format!("{}:{}", m, s), a, b);
            let (a, b, m) = field::<Fq>(&o, &mut r, i % 4);
            inherent!(Fq, o, |s: &str| format!("{}:{}", m, s), a, b);
            curve::<Ec0>(&o, &mut r, i % 4);
            curve::<Ec1>(&o, &mut r, i % 4);
        }
    }
    println!("END");
}
