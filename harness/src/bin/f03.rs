//! F03: inversion, square roots, batch inversion, constants.
use hv::*;
use halo::{Field, Fp, Fq};

fn one_elem<F: PF>(ctx: &Ctx, r: &mut Rng, a: &U) {
    let m = Mont::new(F::P);
    let f: F = f_of(a);
    ctx.case(Some(hash_str(&format!("{}{}", F::NAME, a.hex()))));
    let inv = f.invert();
    let ok: bool = inv.is_some().into();
    ctx.count("inversions", 1);
    ctx.check(ok == !a.is_zero(), &format!("{}:invert-some", F::NAME), || a.hex());
    if ok {
        let i = inv.unwrap();
        ctx.check(mulm(&u_of(&i), a, &F::P) == U::ONE, &format!("{}:invert", F::NAME), || {
            format!("a={} inv={}", a.hex(), u_of(&i).hex())
        });
    }
    let sq = f.sqrt();
    let ok: bool = sq.is_some().into();
    let isq = a.is_zero() || m.legendre(a) == 1;
    ctx.count(if isq { "sqrt of squares" } else { "sqrt of non-squares" }, 1);
    ctx.check(ok == isq, &format!("{}:sqrt-some", F::NAME), || format!("a={} square={} got={}", a.hex(), isq, ok));
    if ok {
        let s = u_of(&sq.unwrap());
        ctx.check(mulm(&s, &s, &F::P) == *a, &format!("{}:sqrt", F::NAME), || {
            format!("a={} root={}", a.hex(), s.hex())
        });
    }
    let _ = r;
}

fn batch<F: PF>(ctx: &Ctx, r: &mut Rng, len: usize) {
    let m = Mont::new(F::P);
    let pz = r.below(5);
    let v: Vec<U> = (0..len)
        .map(|i| {
            let z = match pz {
                0 => false,
                1 => r.one_in(2),
                2 => true,
                3 => i == 0 || i + 1 == len,
                _ => r.one_in(8),
            };
            if z {
                U::ZERO
            } else {
                let mut x = hostile_u(r, &F::P);
                if x.is_zero() {
                    x = U::ONE
                }
                x
            }
        })
        .collect();
    let mut f: Vec<F> = v.iter().map(f_of).collect();
    if let Some(all) = ctx.total("batch_invert", || F::batch_invert(&mut f)) {
        let mut prod = m.one();
        for x in &v {
            if !x.is_zero() {
                prod = m.mul(&prod, &m.to(x));
            }
        }
        let want = m.of(&m.inv(&prod));
        ctx.check(u_of(&all) == want, &format!("{}:batch-product", F::NAME), || {
            format!("len={} zeros={} want={} got={}", len, v.iter().filter(|x| x.is_zero()).count(), want.hex(), u_of(&all).hex())
        });
        for (i, (x, y)) in v.iter().zip(f.iter()).enumerate() {
            let y = u_of(y);
            let ok = if x.is_zero() { y.is_zero() } else { mulm(x, &y, &F::P) == U::ONE };
            if !ok {
                ctx.violation(&format!("{}:batch", F::NAME), format!("len={} index={} x={} got={}", len, i, x.hex(), y.hex()));
                break;
            }
        }
    }
    ctx.count("batch elements", len as u64);
    ctx.max("longest batch", len as u64);
    ctx.case(Some(hash_str(&format!("{}{}{:?}", F::NAME, len, v.iter().map(|x| x.hex()).collect::<Vec<_>>()))));
}

fn consts<F: PF>(ctx: &Ctx) {
    let p = F::P;
    let m = Mont::new(p);
    let n = F::NAME;
    let pm1 = p.wsub(&U::ONE);
    // two-adicity
    let mut s = 0;
    let mut t = pm1;
    while !t.bit(0) {
        t = t.shr1();
        s += 1;
    }
    ctx.check(F::S == s, &format!("{}:S", n), || format!("{} want {}", F::S, s));
    let bits = (0..256).rev().find(|i| p.bit(*i)).unwrap() as u32 + 1;
    ctx.check(F::NUM_BITS == bits, &format!("{}:NUM_BITS", n), || format!("{}", F::NUM_BITS));
    ctx.check(F::CAPACITY == bits - 1, &format!("{}:CAPACITY", n), || format!("{}", F::CAPACITY));
    // ALPHA has order exactly 2^S
    let a = u_of(&F::ALPHA);
    let mut x = a;
    for _ in 0..s - 1 {
        x = mulm(&x, &x, &p);
    }
    ctx.check(x == pm1, &format!("{}:ALPHA", n), || format!("ALPHA^(2^{}) = {}", s - 1, x.hex()));
    // BETA of order exactly 3
    let b = u_of(&F::BETA);
    ctx.check(b != U::ONE && m.powo(&b, &U::from_u64(3)) == U::ONE, &format!("{}:BETA", n), || b.hex());
    // exponents of the power map
    let e = F::RESCUE_ALPHA;
    let ie = U(F::RESCUE_INVALPHA);
    let w = ie.mul_wide(&U::from_u64(e));
    ctx.check(red512(&w, &pm1) == U::ONE, &format!("{}:RESCUE_INVALPHA", n), || ie.hex());
    // gcd(p-1, alpha) = 1, so the map is a permutation
    let rem = (0..4).rev().fold(0u128, |acc, i| ((acc << 64) | pm1.0[i] as u128) % e as u128) as u64;
    let gcd = |mut a: u64, mut b: u64| {
        while b != 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        a
    };
    ctx.check(gcd(e, rem) == 1, &format!("{}:RESCUE_ALPHA", n), || format!("{}", e));
    ctx.case_str(&format!("consts{}", n));
}

fn structured<F: PF>(ctx: &Ctx, r: &mut Rng) {
    // every power-of-two order class, times a square / an odd-order element: the branch
    // structure of the root extraction
    let p = F::P;
    let m = Mont::new(p);
    let root = u_of(&F::ALPHA);
    let mut x = root;
    for _ in 0..F::S {
        for k in 0..2 {
            let mut y = x;
            if k == 1 {
                // times an element of odd order
                let z = hostile_u(r, &p);
                let e = U::ONE.shl(F::S as usize);
                y = mulm(&y, &m.powo(&z, &e), &p);
            }
            one_elem::<F>(ctx, r, &y);
        }
        x = mulm(&x, &x, &p);
    }
    let z = hostile_u(r, &p);
    let e = r.range(0, 40);
    one_elem::<F>(ctx, r, &m.powo(&z, &U::ONE.shl(e)));
    one_elem::<F>(ctx, r, &mulm(&z, &z, &p));
    one_elem::<F>(ctx, r, &mulm(&U::from_u64(F::GEN), &mulm(&z, &z, &p), &p));
}

fn main() {
    run(
        "F03",
        "one evaluation = one element put through inversion and square root, one batch inversion, or one constant suite; distinct = distinct inputs",
        60,
        400,
        |ctx| {
            consts::<Fp>(ctx);
            consts::<Fq>(ctx);
            ctx.par("struct", ctx.scale(1000, 20000), |i, r| {
                if i % 2 == 0 {
                    structured::<Fp>(ctx, r)
                } else {
                    structured::<Fq>(ctx, r)
                }
            });
            for i in 0..20u64 {
                let mut r = ctx.rng("small", i);
                for u in [U::from_u64(i), P_FP.wsub(&U::from_u64(i + 1))] {
                    one_elem::<Fp>(ctx, &mut r, &u);
                }
                for u in [U::from_u64(i), P_FQ.wsub(&U::from_u64(i + 1))] {
                    one_elem::<Fq>(ctx, &mut r, &u);
                }
            }
            ctx.par("elem", ctx.scale(200000, 4000000), |_, r| {
                let a = hostile_u(r, &P_FP);
                one_elem::<Fp>(ctx, r, &a);
                let a = hostile_u(r, &P_FQ);
                one_elem::<Fq>(ctx, r, &a);
            });
            ctx.par("batch", ctx.scale(20000, 100000), |i, r| {
                let len = if i < 70 {
                    i / 2
                } else if i < 90 {
                    // around every power of two up to 2^14
                    (1 << (5 + i / 2 % 10)) + r.range(1, 2 << (i / 2 % 10))
                } else if r.one_in(20) {
                    r.range(100, 1500)
                } else {
                    r.below(64)
                };
                if i % 2 == 0 {
                    batch::<Fp>(ctx, r, len)
                } else {
                    batch::<Fq>(ctx, r, len)
                }
            });
        },
    );
}
