//! C04: endomorphism constants and 128-bit challenge expansion.
use hv::*;
use halo::{get_challenge_scalar, Ec0, Ec1, Field, Fp, Fq};

fn consts<C: PC>(ctx: &Ctx) {
    let (bs, bb) = (u_of(&C::BETA_SCALAR), u_of(&C::BETA_BASE));
    let ms = Mont::new(<C::S as PF>::P);
    let mb = Mont::new(<C::B as PF>::P);
    for (n, b, m) in [("scalar", bs, ms), ("base", bb, mb)] {
        ctx.check(b != U::ONE && m.powo(&b, &U::from_u64(3)) == U::ONE, &format!("{}:order3-{}", C::CNAME, n), || b.hex());
    }
    ctx.check(
        C::BETA_SCALAR == <C::S as Field>::BETA && C::BETA_BASE == <C::B as Field>::BETA,
        &format!("{}:constants-match-fields", C::CNAME),
        || format!("{:?} {:?}", C::BETA_SCALAR, C::BETA_BASE),
    );
    ctx.case_str(C::CNAME);
}

/// The expansion, written from its definition over the challenge bits: an integer
/// combination (of one and of beta), tracked as Eisenstein integers.
fn coeffs(c: u128) -> (i128, i128) {
    let (mut a, mut b) = (3i128, 0i128);
    for i in 1..64 {
        a = 2 * a + if (c >> (2 * i)) & 1 == 1 { -1 } else { 1 };
        b *= 2;
        if (c >> (2 * i + 1)) & 1 == 1 {
            // (a + b beta) beta with beta^2 = -1 - beta
            let t = (-b, a - b);
            a = t.0;
            b = t.1;
        }
    }
    (a, b)
}

fn sgn(v: i128, p: &U) -> U {
    if v < 0 {
        negm(&U::from_u128((-v) as u128), p)
    } else {
        U::from_u128(v as u128)
    }
}

fn model<F: PF>(c: u128) -> U {
    let (a, b) = coeffs(c);
    addm(&mulm(&sgn(b, &F::P), &u_of(&F::BETA), &F::P), &sgn(a, &F::P), &F::P)
}

fn chall(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => r.below(16) as u128,
        1 => u128::MAX - r.below(16) as u128,
        2 => 1u128 << r.below(128),
        3 => u128::MAX << r.below(128),
        4 => 0x5555_5555_5555_5555_5555_5555_5555_5555 << r.below(2),
        5 => r.u128() & 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa,
        _ => r.u128(),
    }
}

fn expand(ctx: &Ctx, r: &mut Rng) {
    let c = chall(r);
    // any field element whose low 128 bits are the challenge
    let hi = match r.below(3) {
        0 => U::ZERO,
        _ => U([0, 0, r.u64(), r.u64() >> 2]),
    };
    let mut u = U::from_u128(c);
    u.0[2] = hi.0[2];
    u.0[3] = hi.0[3];
    ctx.case(Some(hash_str(&u.hex())));
    let (wp, wq) = (model::<Fp>(c), model::<Fq>(c));
    let mut got: Vec<(&str, U, U)> = vec![];
    if u.lt(&P_FP) {
        let f: Fp = f_of(&u);
        got.push(("Fp->Fp", u_of(&get_challenge_scalar::<Fp, Fp>(f)), wp));
        got.push(("Fp->Fq", u_of(&get_challenge_scalar::<Fp, Fq>(f)), wq));
    }
    if u.lt(&P_FQ) {
        let f: Fq = f_of(&u);
        got.push(("Fq->Fp", u_of(&get_challenge_scalar::<Fq, Fp>(f)), wp));
        got.push(("Fq->Fq", u_of(&get_challenge_scalar::<Fq, Fq>(f)), wq));
    }
    for (n, g, w) in got {
        ctx.count("expansions", 1);
        ctx.check(g == w, &format!("expand:{}", n), || format!("challenge {} want {} got {}", u.hex(), w.hex(), g.hex()));
    }
}

fn endo<C: PC>(ctx: &Ctx, r: &mut Rng) {
    let m = Model::of::<C>();
    let p = m.random(r);
    let (x, y) = p.unwrap();
    let bb = u_of(&C::BETA_BASE);
    let phi = |p: &Pt| p.map(|(x, y)| (mulm(&x, &bb, &m.m.p), y));
    let c = c_of::<C>(&p);
    // native: (beta x, y) is beta_scalar times the point
    let img: C = C::from_xy(f_of::<C::B>(&x) * C::BETA_BASE, f_of(&y)).unwrap_or(C::zero());
    ctx.check(c * C::BETA_SCALAR == img && !bool::from(img.is_zero()), &format!("{}:endo", C::CNAME), || {
        format!("P={} beta*P={} phi(P)={}", show_pt(&p), show_pt(&pt_of(&(c * C::BETA_SCALAR))), show_pt(&phi(&p)))
    });
    ctx.check(m.mul(&p, &u_of(&C::BETA_SCALAR)) == phi(&p), &format!("{}:endo-model", C::CNAME), || show_pt(&p));
    // bit-by-bit with endomorphism steps
    let ch = chall(r);
    let fphi = |c: &C| -> C {
        match c.get_xy().is_some().into() {
            true => {
                let (x, y) = c.get_xy().unwrap();
                C::from_xy_unchecked(x * C::BETA_BASE, y)
            }
            false => *c,
        }
    };
    let mut acc = c.double() + &c;
    for i in 1..64 {
        let q = if (ch >> (2 * i)) & 1 == 1 { -c } else { c };
        acc = acc.double() + &q;
        if (ch >> (2 * i + 1)) & 1 == 1 {
            acc = fphi(&acc);
        }
    }
    let s: C::S = get_challenge_scalar::<C::B, C::S>(C::B::from_u128(ch));
    ctx.count("endomorphism multiplications", 1);
    ctx.check(acc == c * s, &format!("{}:endo-steps", C::CNAME), || {
        format!("P={} challenge {:x} stepwise {} scalar {}", show_pt(&p), ch, show_pt(&pt_of(&acc)), show_pt(&pt_of(&(c * s))))
    });
    ctx.case(Some(hash_str(&format!("{}{}{:x}", C::CNAME, show_pt(&p), ch))));
    ctx.sample(|| format!("{} P={} challenge={:x}", C::CNAME, show_pt(&p), ch));
}

fn main() {
    run(
        "C04",
        "one evaluation = one challenge expanded in every field pairing and compared with the integer-coefficient model, or one point put through the endomorphism and the stepwise multiplication; distinct = distinct inputs",
        60,
        300,
        |ctx| {
            consts::<Ec0>(ctx);
            consts::<Ec1>(ctx);
            ctx.par("expand", ctx.scale(200000, 3000000), |_, r| expand(ctx, r));
            ctx.par("endo", ctx.scale(10000, 100000), |_, r| {
                endo::<Ec0>(ctx, r);
                endo::<Ec1>(ctx, r);
            });
        },
    );
}
