//! F01: field arithmetic against the bit-by-bit integer model.
use hv::*;
use halo::{Field, Fp, Fq};

fn related(r: &mut Rng, a: &U, p: &U) -> U {
    let m = Mont::new(*p);
    match r.below(9) {
        0 => *a,
        1 => negm(a, p),
        2 => addm(&negm(a, p), &U::from_u64(r.below(3) as u64), p),
        3 => addm(a, &U::from_u64(1), p),
        // internal representations that differ from a's (or from its complement) by one
        4 => addm(a, &m.of(&U::ONE), p),
        5 => addm(&negm(a, p), &m.of(&U::ONE), p),
        6 => subm(&negm(a, p), &m.of(&U::ONE), p),
        7 => {
            // share some internal limbs
            let mut x = m.to(a);
            let o = m.to(&hostile_u(r, p));
            for i in 0..4 {
                if r.bool() {
                    x.0[i] = o.0[i];
                }
            }
            m.of(&red(&x, p))
        }
        _ => subm(a, &m.of(&U::ONE), p),
    }
}

macro_rules! field_job {
    ($name:ident, $F:ty) => {
        fn $name(ctx: &Ctx, r: &mut Rng, n: usize) {
            let p = <$F as PF>::P;
            for _ in 0..n {
                let a = hostile_u(r, &p);
                let b = if r.one_in(3) { related(r, &a, &p) } else { hostile_u(r, &p) };
                let (fa, fb): ($F, $F) = (f_of(&a), f_of(&b));
                ctx.case(Some(hash_str(&format!("{}{}{}", <$F as PF>::NAME, a.hex(), b.hex()))));
                ctx.sample(|| format!("{} a={} b={}", <$F as PF>::NAME, a.hex(), b.hex()));
                let judge = |op: &str, want: &U, got: &[$F]| {
                    ctx.count(&format!("ops {}", op), got.len() as u64);
                    let w: $F = f_of(want);
                    for (i, g) in got.iter().enumerate() {
                        if *g != w || u_of(g) != *want || !u_of(g).lt(&p) {
                            ctx.violation(
                                &format!("{}:{}:form{}", <$F as PF>::NAME, op, i),
                                format!("a={} b={} want={} got={}", a.hex(), b.hex(), want.hex(), u_of(g).hex()),
                            );
                        }
                    }
                };
                let s = addm(&a, &b, &p);
                let (mut t1, mut t2) = (fa, fa);
                t1 += fb;
                t2 += &fb;
                judge("add", &s, &[fa + fb, &fa + fb, fa + &fb, &fa + &fb, t1, t2, <$F>::add(&fa, &fb)]);
                let d = subm(&a, &b, &p);
                let (mut t1, mut t2) = (fa, fa);
                t1 -= fb;
                t2 -= &fb;
                judge("sub", &d, &[fa - fb, &fa - fb, fa - &fb, &fa - &fb, t1, t2, <$F>::sub(&fa, &fb)]);
                let m = mulm(&a, &b, &p);
                let (mut t1, mut t2) = (fa, fa);
                t1 *= fb;
                t2 *= &fb;
                judge("mul", &m, &[fa * fb, &fa * fb, fa * &fb, &fa * &fb, t1, t2, <$F>::mul(&fa, &fb)]);
                judge("neg", &negm(&a, &p), &[-fa, -&fa, <$F>::neg(&fa)]);
                judge("double", &addm(&a, &a, &p), &[<$F>::double(&fa), fa + fa]);
                judge("square", &mulm(&a, &a, &p), &[<$F>::square(&fa), <$F as Field>::square(&fa), fa * fa]);
                let is0: bool = Field::is_zero(&fa).into();
                ctx.check(is0 == a.is_zero(), "is_zero", || format!("a={}", a.hex()));
                // a chained expression without re-encoding between the steps
                let chain = ((fa + fb) * (fa - fb) - fa.square()) + fb.square();
                judge("chain", &U::ZERO, &[chain]);
            }
        }
    };
}
field_job!(job_fp, Fp);
field_job!(job_fq, Fq);

fn pows<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let m = Mont::new(F::P);
    let a = hostile_u(r, &F::P);
    let e = match r.below(8) {
        0 => U::from_u64(r.below(5) as u64),
        1 => F::P.wsub(&U::from_u64(r.below(3) as u64)),
        2 => U::ONE.shl(r.below(256)),
        3 => U([u64::MAX; 4]),
        4 => U([0, 0, 0, r.u64()]),
        5 => U([r.u64(), 0, r.u64(), 0]),
        _ => U([r.u64(), r.u64(), r.u64(), r.u64()]),
    };
    let want = m.powo(&a, &e);
    let fa: F = f_of(&a);
    ctx.case(Some(hash_str(&format!("pow{}{}{}", F::NAME, a.hex(), e.hex()))));
    ctx.count("ops pow", 2);
    for (k, g) in [fa.pow(&e.0), fa.pow_vartime(&e.0)].iter().enumerate() {
        ctx.check(u_of(g) == want && *g == f_of::<F>(&want), &format!("{}:pow{}", F::NAME, k), || {
            format!("a={} e={} want={} got={}", a.hex(), e.hex(), want.hex(), u_of(g).hex())
        });
    }
}

fn convs<F: PF>(ctx: &Ctx, r: &mut Rng, raw: fn([u64; 4]) -> F) {
    let limb = |r: &mut Rng| match r.below(5) {
        0 => 0,
        1 => u64::MAX,
        2 => 1u64 << r.below(64),
        _ => r.u64(),
    };
    let v = limb(r);
    let w = ((limb(r) as u128) << 64) | limb(r) as u128;
    let mut ok = |what: &str, g: F, want: U, inp: String| {
        ctx.count(&format!("ops {}", what), 1);
        ctx.check(u_of(&g) == want && g == f_of::<F>(&want), &format!("{}:{}", F::NAME, what), || {
            format!("input {} want={} got={}", inp, want.hex(), u_of(&g).hex())
        });
    };
    ok("from_u64", F::from_u64(v), U::from_u64(v), format!("{:x}", v));
    ok("From<u64>", F::from(v), U::from_u64(v), format!("{:x}", v));
    ok("from_u128", F::from_u128(w), U::from_u128(w), format!("{:x}", w));
    ok("from_bool", F::from(true), U::ONE, "true".into());
    ok("from_bool", F::from(false), U::ZERO, "false".into());
    ok("default", F::default(), U::ZERO, "default".into());
    ok("zero", F::zero(), U::ZERO, "zero".into());
    ok("one", F::one(), U::ONE, "one".into());
    // wide: hostile halves, including multiples of the modulus and all ones
    let mut l = [0u64; 8];
    match r.below(5) {
        0 => l = [u64::MAX; 8],
        1 => {
            let k = U([limb(r), limb(r), limb(r), limb(r)]);
            l = F::P.mul_wide(&k);
            if r.bool() {
                for x in l.iter_mut() {
                    let (y, c) = x.overflowing_add(1);
                    *x = y;
                    if !c {
                        break;
                    }
                }
            }
        }
        2 => {
            for x in l[..4].iter_mut() {
                *x = limb(r);
            }
        }
        3 => {
            for x in l[4..].iter_mut() {
                *x = limb(r);
            }
        }
        _ => {
            for x in l.iter_mut() {
                *x = limb(r);
            }
        }
    }
    let mut b = [0u8; 64];
    for i in 0..8 {
        b[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
    }
    ok("from_bytes_wide", F::wide(&b), red512(&l, &F::P), format!("{:x?}", l));
    let q = U([limb(r), limb(r), limb(r), limb(r)]);
    ok("from_raw", raw(q.0), red(&q, &F::P), q.hex());
    ctx.case(Some(hash_str(&format!("conv{}{:x?}{:x}", F::NAME, l, w))));
}

fn word(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(3) as u64,
        1 => u64::MAX - r.below(3) as u64,
        2 => 1u64 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1),
        4 => u64::MAX << r.below(64),
        _ => r.u64(),
    }
}

/// the exported 64-bit limb helpers the fields are built from, against 128-bit integers
fn limbs(ctx: &Ctx, r: &mut Rng) {
    for _ in 0..200 {
        let (a, b, c, k) = (word(r), word(r), word(r), word(r));
        ctx.case(Some(hash_str(&format!("limbs{:x?}", (a, b, c, k)))));
        let join = |(l, h): (u64, u64)| ((h as u128) << 64) | l as u128;
        // every carry a caller can hold: 0 or 1 from an addition, any word from a product
        for carry in [0, 1, k] {
            let at = || format!("a={:x} b={:x} c={:x} carry={:x}", a, b, c, carry);
            ctx.check(join(halo::adc(a, b, carry)) == a as u128 + b as u128 + carry as u128, "limbs:adc", at);
            ctx.check(
                join(halo::mac(a, b, c, carry)) == b as u128 * c as u128 + (a as u128 + carry as u128),
                "limbs:mac",
                at,
            );
        }
        // borrows are all zeros or all ones, as a previous subtraction leaves them
        for borrow in [0u64, u64::MAX] {
            let (d, out) = halo::sbb(a, b, borrow);
            let take = b as u128 + (borrow & 1) as u128;
            let (want, under) = if a as u128 >= take {
                (a as u128 - take, 0)
            } else {
                (a as u128 + (1u128 << 64) - take, u64::MAX)
            };
            ctx.check(d as u128 == want && out == under, "limbs:sbb", || {
                format!("a={:x} b={:x} borrow={:x} got {:x} {:x}", a, b, borrow, d, out)
            });
        }
        ctx.count("ops limbs", 8);
    }
}

fn main() {
    run(
        "F01",
        "one evaluation = one operand pair (or exponent / conversion input) put through every operator form of one field and compared limb-for-limb with integer arithmetic; distinct = distinct operands",
        60,
        400,
        |ctx| {
            ctx.par("arith", ctx.scale(5000, 120000), |i, r| {
                if i % 2 == 0 {
                    job_fp(ctx, r, 200)
                } else {
                    job_fq(ctx, r, 200)
                }
            });
            ctx.par("pow", ctx.scale(40000, 800000), |_, r| {
                pows::<Fp>(ctx, r);
                pows::<Fq>(ctx, r);
            });
            ctx.par("limbs", ctx.scale(1000, 40000), |_, r| limbs(ctx, r));
            ctx.par("conv", ctx.scale(60000, 2000000), |_, r| {
                convs::<Fp>(ctx, r, Fp::from_raw);
                convs::<Fq>(ctx, r, Fq::from_raw);
            });
        },
    );
}
