//! F02: canonical encodings.
use hv::*;
use halo::{Field, Fp, Fq};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

fn dec<F: PF>(ctx: &Ctx, v: &U) {
    let bytes = v.to_le();
    let r = F::from_bytes(&bytes);
    let acc: bool = r.is_some().into();
    ctx.count(if acc { "decodings accepted" } else { "decodings refused" }, 1);
    ctx.case(Some(hash_str(&format!("{}{}", F::NAME, v.hex()))));
    let want = v.lt(&F::P);
    if !ctx.check(acc == want, &format!("{}:decode", F::NAME), || {
        format!("{} accepted={} canonical={}", v.hex(), acc, want)
    }) {
        return;
    }
    if acc {
        let f = r.unwrap();
        ctx.check(f.to_bytes() == bytes, &format!("{}:reencode", F::NAME), || v.hex());
        // the element really is that integer: rebuilt from 64-bit words arithmetically
        let two64 = F::from_u64(1 << 32).square();
        let mut acc = F::zero();
        for i in (0..4).rev() {
            acc = acc * two64 + F::from_u64(v.0[i]);
        }
        ctx.check(acc == f, &format!("{}:value", F::NAME), || v.hex());
        let dbg = format!("{:?}", f);
        let digits = dbg.trim_start_matches("0x").trim_start_matches("0X").to_lowercase();
        let want: String = (0..4).rev().map(|i| format!("{:016x}", v.0[i])).collect();
        ctx.check(
            digits.trim_start_matches('0') == want.trim_start_matches('0'),
            &format!("{}:format", F::NAME),
            || format!("{} prints as {}", v.hex(), dbg),
        );
        ctx.check(
            f.get_lower_128() == (v.0[0] as u128) | ((v.0[1] as u128) << 64),
            &format!("{}:lower128", F::NAME),
            || v.hex(),
        );
        ctx.check(bool::from(f.is_zero()) == v.is_zero(), &format!("{}:is_zero", F::NAME), || v.hex());
    }
}

fn eqs<F: PF>(ctx: &Ctx, a: &U, b: &U) {
    let (x, y): (F, F) = (f_of(a), f_of(b));
    let want = a == b;
    ctx.count("equality pairs", 1);
    let e = [
        x == y,
        y == x,
        !(x != y),
        bool::from(x.ct_eq(&y)),
        bool::from(y.ct_eq(&x)),
        x.to_bytes() == y.to_bytes(),
    ];
    ctx.check(e.iter().all(|v| *v == want), &format!("{}:eq", F::NAME), || {
        format!("a={} b={} want {} got {:?}", a.hex(), b.hex(), want, e)
    });
    let s0 = F::conditional_select(&x, &y, Choice::from(0));
    let s1 = F::conditional_select(&x, &y, Choice::from(1));
    let (mut c0, mut c1) = (x, x);
    c0.conditional_assign(&y, Choice::from(0));
    c1.conditional_assign(&y, Choice::from(1));
    let (mut w0, mut w1) = (x, y);
    F::conditional_swap(&mut w0, &mut w1, Choice::from(1));
    ctx.check(
        u_of(&s0) == *a && u_of(&s1) == *b && u_of(&c0) == *a && u_of(&c1) == *b && u_of(&w0) == *b && u_of(&w1) == *a,
        &format!("{}:select", F::NAME),
        || format!("a={} b={}", a.hex(), b.hex()),
    );
    ctx.case(Some(hash_str(&format!("eq{}{}{}", F::NAME, a.hex(), b.hex()))));
}

fn field<F: PF>(ctx: &Ctx, r: &mut Rng, i: usize) {
    let p = F::P;
    // strings around the modulus, its multiples and limb-wise comparisons with it
    let mut v = p;
    match i % 10 {
        0 => {
            let d = U::from_u64(r.below(6) as u64);
            v = if r.bool() { v.wadd(&d) } else { v.wsub(&d) };
        }
        1 => {
            let k = r.below(4);
            v.0[k] = v.0[k].wrapping_add(1 + r.below(2) as u64);
            if r.bool() && k > 0 {
                let j = r.below(k);
                v.0[j] = r.u64();
            }
        }
        2 => {
            let k = r.below(4);
            v.0[k] = v.0[k].wrapping_sub(1 + r.below(2) as u64);
            for j in 0..k {
                v.0[j] = if r.bool() { u64::MAX } else { r.u64() };
            }
        }
        3 => v = U([r.u64(), r.u64(), r.u64(), r.u64()]),
        4 => v = U([u64::MAX - r.below(3) as u64, u64::MAX, u64::MAX, u64::MAX]),
        5 => {
            let s = hostile_u(r, &p);
            v = s.wadd(&p); // the other encoding of s
        }
        6 => v = hostile_u(r, &p),
        7 => {
            // two limbs of the modulus, two random
            for j in 0..4 {
                if r.bool() {
                    v.0[j] = r.u64();
                }
            }
        }
        8 => v = U::ONE.shl(r.below(256)),
        _ => v = p.wsub(&U::ONE.shl(r.below(250))),
    }
    dec::<F>(ctx, &v);
    let a = hostile_u(r, &p);
    let mut b = a;
    match r.below(5) {
        0 => {}
        1 => {
            b.0[r.below(4)] ^= 1 << r.below(64);
            b = red(&b, &p);
        }
        2 => {
            // one internal bit
            let m = Mont::new(p);
            let mut t = m.to(&a);
            t.0[r.below(4)] ^= 1 << r.below(64);
            b = m.of(&red(&t, &p));
        }
        3 => b = negm(&a, &p),
        _ => b = hostile_u(r, &p),
    }
    eqs::<F>(ctx, &a, &b);
}

fn main() {
    run(
        "F02",
        "one evaluation = one 32-byte string decoded, or one pair compared/selected; distinct = distinct strings and pairs",
        60,
        400,
        |ctx| {
            for d in 0..64u64 {
                for f in 0..2 {
                    let (lo, hi) = (U::from_u64(d), U([u64::MAX; 4]).wsub(&U::from_u64(d)));
                    if f == 0 {
                        dec::<Fp>(ctx, &lo);
                        dec::<Fp>(ctx, &hi);
                        dec::<Fp>(ctx, &P_FQ.wadd(&lo));
                        dec::<Fp>(ctx, &P_FP.wadd(&lo));
                        dec::<Fp>(ctx, &P_FP.wsub(&lo));
                    } else {
                        dec::<Fq>(ctx, &lo);
                        dec::<Fq>(ctx, &hi);
                        dec::<Fq>(ctx, &P_FP.wsub(&lo));
                        dec::<Fq>(ctx, &P_FQ.wadd(&lo));
                        dec::<Fq>(ctx, &P_FQ.wsub(&lo));
                    }
                }
            }
            ctx.par("codec", ctx.scale(800000, 20000000), |i, r| {
                field::<Fp>(ctx, r, i);
                field::<Fq>(ctx, r, i);
            });
        },
    );
}
