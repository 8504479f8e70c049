//! C02: equality, identity and selection of points.
use hv::*;
use halo::{Ec0, Ec1, Field};
use subtle::Choice;

fn ids<C: PC>(r: &mut Rng) -> C {
    let q = rand_pt::<C>(r);
    match r.below(10) {
        0 => C::zero(),
        1 => C::default(),
        2 => q - &q,
        3 => q + &(-q),
        4 => C::one() * &C::S::zero(),
        5 => C::zero().double(),
        6 => -C::zero(),
        7 => C::zero() * &rand_f::<C::S>(r),
        8 => (q * &(-C::S::one())) + &q,
        _ => C::from_bytes(&[0; 32]).unwrap(),
    }
}

fn one<C: PC>(ctx: &Ctx, r: &mut Rng) {
    let m = Model::of::<C>();
    let p = if r.one_in(5) { None } else { m.random(r) };
    let endo = |p: &Pt| p.map(|(x, y)| (mulm(&x, &u_of(&C::BETA_BASE), &m.m.p), y));
    let q = match r.below(8) {
        0 | 1 | 2 => p,
        3 => m.neg(&p),
        4 => endo(&p),
        5 => None,
        6 => m.add(&p, &p),
        _ => m.random(r),
    };
    let mk = |p: &Pt, r: &mut Rng| -> C {
        match p {
            None => ids(r),
            _ => match r.below(3) {
                0 => c_of(p),
                1 => rescale(&c_of(p), r),
                _ => rescale(&rescale(&c_of(p), r), r),
            },
        }
    };
    let (a, b): (C, C) = (mk(&p, r), mk(&q, r));
    let want = p == q;
    ctx.count(if want { "equal pairs" } else { "different pairs" }, 1);
    if p.is_none() != q.is_none() {
        ctx.count("identity against non-identity", 1);
    }
    ctx.case(Some(hash_str(&format!("{}{:?}{:?}", C::CNAME, a.get_xyz(), b.get_xyz()))));
    let got = [
        a == b,
        b == a,
        !(a != b),
        bool::from(a.ct_eq(&b)),
        bool::from(b.ct_eq(&a)),
        bool::from((a - b).is_zero()),
    ];
    ctx.check(got.iter().all(|g| *g == want), &format!("{}:eq", C::CNAME), || {
        format!("P={} Q={} reps {:?} {:?} want {} got {:?}", show_pt(&p), show_pt(&q), a.get_xyz(), b.get_xyz(), want, got)
    });
    for (x, px) in [(&a, &p), (&b, &q)] {
        let z: bool = x.is_zero().into();
        let ok = z == px.is_none()
            && (*x == C::zero()) == z
            && (C::zero() == *x) == z
            && (*x == C::default()) == z
            && bool::from(x.get_xy().is_some()) == !z
            && *x == *x;
        ctx.check(ok, &format!("{}:identity", C::CNAME), || format!("{:?} of {}", x.get_xyz(), show_pt(px)));
    }
    let s0 = C::conditional_select(&a, &b, Choice::from(0));
    let s1 = C::conditional_select(&a, &b, Choice::from(1));
    let (mut c0, mut c1) = (a, a);
    c0.conditional_assign(&b, Choice::from(0));
    c1.conditional_assign(&b, Choice::from(1));
    ctx.check(
        s0.get_xyz() == a.get_xyz() && s1.get_xyz() == b.get_xyz() && c0.get_xyz() == a.get_xyz() && c1.get_xyz() == b.get_xyz(),
        &format!("{}:select", C::CNAME),
        || format!("{:?} {:?} selected {:?} {:?}", a.get_xyz(), b.get_xyz(), s0.get_xyz(), s1.get_xyz()),
    );
    ctx.sample(|| format!("{} {} vs {}", C::CNAME, show_pt(&p), show_pt(&q)));
}

fn main() {
    run(
        "C02",
        "one evaluation = one pair of representatives compared in every form and selected between; the verdict comes from the affine model elements they were built from; distinct = distinct representative pairs",
        60,
        300,
        |ctx| {
            ctx.par("pairs", ctx.scale(40000, 700000), |_, r| {
                one::<Ec0>(ctx, r);
                one::<Ec1>(ctx, r);
            });
        },
    );
}
