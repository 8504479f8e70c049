//! C01: group law against the affine integer model.
use hv::*;
use halo::{Ec0, Ec1, Field};

/// A model point, a native representative of it, chosen adversarially.
fn repr<C: PC>(m: &Model, p: &Pt, r: &mut Rng) -> C {
    match r.below(4) {
        0 => c_of::<C>(p),
        1 => rescale(&c_of::<C>(p), r),
        2 => {
            // P = (P + Q) - Q in a different order, or doubling of the half
            let q = m.random(r);
            c_of::<C>(&m.add(p, &q)) - &c_of::<C>(&q)
        }
        _ => match p {
            None => match r.below(6) {
                0 => C::zero(),
                1 => C::one() * &C::S::zero(),
                2 => -C::zero(),
                3 => C::zero().double(),
                4 => C::default(),
                _ => {
                    let q = rand_pt::<C>(r);
                    q - &q
                }
            },
            _ => -(-rescale(&c_of::<C>(p), r)),
        },
    }
}

fn related<C: PC>(m: &Model, p: &Pt, r: &mut Rng) -> Pt {
    let endo = |p: &Pt, k: usize| {
        p.map(|(x, y)| {
            let mut x = x;
            for _ in 0..k {
                x = mulm(&x, &u_of(&C::BETA_BASE), &m.m.p);
            }
            (x, y)
        })
    };
    match r.below(9) {
        0 => *p,
        1 => m.neg(p),
        2 => None,
        3 => m.add(p, p),
        4 => endo(p, 1 + r.below(2)),
        5 => m.neg(&endo(p, 1 + r.below(2))),
        6 => m.add(&m.add(p, p), p),
        7 => m.neg(&m.add(p, p)),
        _ => m.random(r),
    }
}

fn same<C: PC>(ctx: &Ctx, what: &str, got: &C, want: &Pt, info: &dyn Fn() -> String) {
    ctx.count(&format!("ops {}", what), 1);
    let raw = pt_of_raw(got);
    let xy = pt_of(got);
    let id: bool = got.is_zero().into();
    let ok = raw == *want && xy == *want && id == want.is_none() && got.is_on_curve() && *got == c_of::<C>(want);
    ctx.check(ok, &format!("{}:{}", C::CNAME, what), || {
        format!(
            "{} want {} got {} (raw {}) identity flag {} on curve {}",
            info(),
            show_pt(want),
            show_pt(&xy),
            show_pt(&raw),
            id,
            got.is_on_curve()
        )
    });
}

fn pair<C: PC>(ctx: &Ctx, r: &mut Rng) {
    let m = Model::of::<C>();
    let p = if r.one_in(10) { None } else { m.random(r) };
    let q = related::<C>(&m, &p, r);
    let (cp, cq): (C, C) = (repr(&m, &p, r), repr(&m, &q, r));
    ctx.case(Some(hash_str(&format!("{}{}{}{:?}", C::CNAME, show_pt(&p), show_pt(&q), cp.get_xyz()))));
    let info = || format!("P={} Q={} reps {:?} {:?}", show_pt(&p), show_pt(&q), cp.get_xyz(), cq.get_xyz());
    ctx.sample(|| info());
    if p == q {
        ctx.count("pairs equal", 1)
    } else if p == m.neg(&q) {
        ctx.count("pairs opposite", 1)
    }
    if p.is_none() || q.is_none() {
        ctx.count("pairs with identity", 1)
    }
    let (mut a1, mut a2) = (cp, cp);
    a1 += cq;
    a2 += &cq;
    let w = m.add(&p, &q);
    for (n, g) in [("add", cp + cq), ("add&", cp + &cq), ("add=", a1), ("add=&", a2)] {
        same(ctx, n, &g, &w, &info);
    }
    let (mut a1, mut a2) = (cp, cp);
    a1 -= cq;
    a2 -= &cq;
    let w = m.sub(&p, &q);
    for (n, g) in [("sub", cp - cq), ("sub&", cp - &cq), ("sub=", a1), ("sub=&", a2)] {
        same(ctx, n, &g, &w, &info);
    }
    same(ctx, "neg", &-cp, &m.neg(&p), &info);
    same(ctx, "double", &cp.double(), &m.add(&p, &p), &info);
    // sums that run through unnormalised intermediates
    let w = m.sub(&m.add(&m.add(&p, &q), &m.add(&p, &q)), &p);
    same(ctx, "chain", &((cp + cq).double() - cp), &w, &info);
}

fn refs<C: PC>(ctx: &Ctx, r: &mut Rng, f: &dyn Fn(&C, &C, &C::S) -> Vec<(&'static str, u8, C)>) {
    // operator forms on references
    let m = Model::of::<C>();
    let p = m.random(r);
    let q = related::<C>(&m, &p, r);
    let k = hostile_u(r, &m.order);
    let (cp, cq): (C, C) = (repr(&m, &p, r), repr(&m, &q, r));
    for (n, kind, g) in f(&cp, &cq, &f_of::<C::S>(&k)) {
        let w = match kind {
            0 => m.add(&p, &q),
            1 => m.sub(&p, &q),
            2 => m.neg(&p),
            _ => m.mul(&p, &k),
        };
        same(ctx, n, &g, &w, &|| format!("P={} Q={} k={}", show_pt(&p), show_pt(&q), k.hex()));
    }
    ctx.case(None);
}
macro_rules! forms {
    ($C:ty) => {
        |p: &$C, q: &$C, k: &_| {
            vec![
                ("&add&", 0, p + q),
                ("&add", 0, p + *q),
                ("&sub&", 1, p - q),
                ("&sub", 1, p - *q),
                ("&neg", 2, -p),
                ("&mul&", 3, p * k),
                ("&mul", 3, p * *k),
            ]
        }
    };
}

fn smul<C: PC>(ctx: &Ctx, r: &mut Rng) {
    let m = Model::of::<C>();
    let p = match r.below(8) {
        0 => None,
        1 => pt_of(&C::one()),
        _ => m.random(r),
    };
    let k = hostile_u(r, &m.order);
    let cp: C = repr(&m, &p, r);
    let f: C::S = f_of(&k);
    let info = || format!("P={} k={}", show_pt(&p), k.hex());
    let w = m.mul(&p, &k);
    let (mut a1, mut a2) = (cp, cp);
    a1 *= f;
    a2 *= &f;
    for (n, g) in [("mul", cp * f), ("mul&", cp * &f), ("mul=", a1), ("mul=&", a2)] {
        same(ctx, n, &g, &w, &info);
    }
    // order: (r-1)P + P is the identity, kP + (r-k)P too
    let nk: C::S = f_of(&negm(&k, &m.order));
    same(ctx, "order", &(cp * f + cp * nk), &None, &info);
    ctx.case(Some(hash_str(&format!("m{}{}{}", C::CNAME, show_pt(&p), k.hex()))));
}

fn fixed<C: PC>(ctx: &Ctx) {
    let m = Model::of::<C>();
    let g = pt_of(&C::one());
    ctx.check(
        g.map(|(x, y)| m.on_curve(&x, &y)) == Some(true),
        &format!("{}:generator", C::CNAME),
        || show_pt(&g),
    );
    ctx.check(u_of(&C::b()) == U::from_u64(C::BCOEF), &format!("{}:b", C::CNAME), || format!("{:?}", C::b()));
    ctx.check(m.mul(&g, &m.order).is_none(), "model-order", || "model".into());
    let rm1 = m.order.wsub(&U::ONE);
    same(ctx, "order", &(C::one() * &f_of::<C::S>(&rm1) + C::one()), &None, &|| "generator".into());
    same(ctx, "zero", &C::zero(), &None, &|| "zero()".into());
    same(ctx, "default", &C::default(), &None, &|| "default()".into());
    same(ctx, "default", &(C::default() + C::one()), &g, &|| "default() + generator".into());
    for i in 0..64u64 {
        let w = m.mul(&g, &U::from_u64(i));
        same(ctx, "mul", &(C::one() * &C::S::from_u64(i)), &w, &|| format!("{} G", i));
        ctx.case(Some(i));
    }
}

fn main() {
    run(
        "C01",
        "one evaluation = one pair of group elements in adversarially chosen representatives put through every addition-type operator, or one (point, scalar) multiplication, each compared with the affine model; distinct = distinct operands and representatives",
        60,
        400,
        |ctx| {
            fixed::<Ec0>(ctx);
            fixed::<Ec1>(ctx);
            ctx.par("pair", ctx.scale(15000, 400000), |_, r| {
                pair::<Ec0>(ctx, r);
                pair::<Ec1>(ctx, r);
            });
            ctx.par("forms", ctx.scale(1500, 20000), |_, r| {
                refs::<Ec0>(ctx, r, &forms!(Ec0));
                refs::<Ec1>(ctx, r, &forms!(Ec1));
            });
            ctx.par("mul", ctx.scale(3000, 60000), |_, r| {
                smul::<Ec0>(ctx, r);
                smul::<Ec1>(ctx, r);
            });
        },
    );
}
