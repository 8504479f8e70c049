//! S02: the two partial evaluations of the circuit polynomial against its definition.
use halo::*;
use hv::circ::*;
use hv::*;

fn point<F: PF>(r: &mut Rng) -> F {
    match r.below(8) {
        0 => F::one(),
        1 => -F::one(),
        2 => F::from_u64(2),
        3 => F::from_u128(r.u128() | 1 << 127),
        _ => {
            let f = hostile_f::<F>(r);
            if f == F::zero() {
                F::one()
            } else {
                f
            }
        }
    }
}

fn one<C: PC>(ctx: &Ctx, r: &mut Rng, params: &[Params<C>]) {
    // large sizes now and then
    let params = if r.one_in(300) { r.pick(params) } else { r.pick(&params[..5]) };
    let n = params.n;
    let full = r.one_in(4);
    let shape = Shape {
        ops: if full { 40 * n } else { r.below(3 * n) },
        max_gates: if full { n } else { n - 1 },
        max_lcs: params.d - 1,
        inputs: r.below(1 + n / 2),
        namespaces: r.bool(),
    };
    let p = Prog::<C::S>::random(r, &shape);
    let asg = match ctx.total("synthesis", || Asg::<C::S>::of(&p, false)) {
        Some(Ok(a)) => a,
        _ => return ctx.violation("synthesis refused", format!("{:?}", p.ops)),
    };
    ctx.max("gates", asg.n as u64);
    ctx.max("linear constraints", asg.q() as u64);
    ctx.count("circuits filling the gates", (asg.n == n) as u64);
    ctx.case(Some(hash_str(&format!("{:?}", p.ops))));
    let info = |x: &C::S, y: &C::S| {
        format!("{} k={} x={} y={} gates={} ops={:?}", C::CNAME, params.k, hexf(x), hexf(y), asg.n, p.ops.iter().take(40).collect::<Vec<_>>())
    };
    // the same circuit with its witness, with a false witness, and without one
    let mut bad = p.clone();
    for v in bad.vals.iter_mut().skip(1) {
        *v = hostile_f(r);
    }
    let variants = [p.clone(), bad, p.blank()];
    let mut last: Option<(Vec<C::S>, Vec<C::S>)> = None;
    let zero = C::S::zero();
    let (x, y) = (point::<C::S>(r), if r.one_in(12) { zero } else { point::<C::S>(r) });
    for (i, v) in variants.iter().enumerate() {
        let got = ctx.total("partial evaluation", || {
            (params.compute_sx::<_, Basic>(v, y), params.compute_sy::<_, Basic>(v, x, n, asg.q()))
        });
        let (sx, sy) = match got {
            Some((Ok(a), Ok(b))) => (a, b),
            Some((a, b)) => {
                return ctx.violation("partial evaluation refused", format!("{} {:?} {:?}", info(&x, &y), a.err(), b.err()));
            }
            None => return,
        };
        ctx.count("evaluations of both sides", 1);
        if let Some(l) = &last {
            ctx.check(l.0 == sx && l.1 == sy, "depends on the witness", || format!("variant {} {}", i, info(&x, &y)));
            continue;
        }
        let mut e1 = zero;
        let mut cur = x.invert().unwrap().pow(&[n as u64, 0, 0, 0]);
        for c in &sx {
            e1 = e1 + &(*c * &cur);
            cur = cur * &x;
        }
        let mut e2 = zero;
        let mut cur = C::S::one();
        for c in &sy {
            e2 = e2 + &(*c * &cur);
            cur = cur * &y;
        }
        let want = asg.s(n, x, y);
        ctx.sample(|| format!("{} value {}", info(&x, &y), hexf(&want)));
        ctx.check(e1 == want, &format!("{}:fixed y", C::CNAME), || format!("{} got {} want {}", info(&x, &y), hexf(&e1), hexf(&want)));
        ctx.check(e2 == want, &format!("{}:fixed x", C::CNAME), || format!("{} got {} want {}", info(&x, &y), hexf(&e2), hexf(&want)));
        ctx.count("nonzero values", (want != zero) as u64);
        // an independent second point on each partially evaluated side
        let x2 = point::<C::S>(r);
        let y2 = point::<C::S>(r);
        let mut e1 = zero;
        let mut cur = x2.invert().unwrap().pow(&[n as u64, 0, 0, 0]);
        for c in &sx {
            e1 = e1 + &(*c * &cur);
            cur = cur * &x2;
        }
        ctx.check(e1 == asg.s(n, x2, y), &format!("{}:fixed y", C::CNAME), || info(&x2, &y));
        let mut e2 = zero;
        let mut cur = C::S::one();
        for c in &sy {
            e2 = e2 + &(*c * &cur);
            cur = cur * &y2;
        }
        ctx.check(e2 == asg.s(n, x, y2), &format!("{}:fixed x", C::CNAME), || info(&x, &y2));
        last = Some((sx, sy));
    }
}

fn main() {
    run(
        "S02",
        "one evaluation is one random circuit evaluated at three pairs of points; distinct circuits are counted by their operations",
        75,
        600,
        |ctx| {
            let ks = if ctx.quick() { 4..11 } else { 4..13 };
            let p0: Vec<Params<Ec0>> = ks.clone().map(Params::new).collect();
            let p1: Vec<Params<Ec1>> = ks.map(Params::new).collect();
            ctx.par("random", ctx.scale(60000, 600000), |i, r| {
                if i % 2 == 0 {
                    one::<Ec0>(ctx, r, &p0)
                } else {
                    one::<Ec1>(ctx, r, &p1)
                }
            });
        },
    )
}
