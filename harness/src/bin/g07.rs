//! G07: with the input points and bits fixed, no satisfying assignment of a curve-point
//! program carries other coordinates than the group law's.
use halo::*;
use hv::ecprog::*;
use hv::exact::*;
use hv::forge::*;
use hv::*;

fn job<C: PC>(ctx: &Ctx, r: &mut Rng, len: usize, mul: usize, force: Option<usize>, deviate: usize) {
    let g = Group::<C>::new();
    let (mut ops, mut vals) = program(&g, r, len, mul, force);
    // the identity flag is only visible through a following operation
    if r.bool() {
        let last = ops.len() - 1;
        let p = pt_of(&rand_pt::<C>(r));
        let tail = if r.bool() { vec![Op::Witness(p), Op::Add(last, last + 1)] } else { vec![Op::Double(last), Op::Add(last + 1, last)] };
        for o in tail {
            vals.push(g.truth(&vals, &o).unwrap());
            ops.push(o);
        }
    }
    let info = || format!("{} {}", C::CNAME, show(&ops));
    ctx.case_str(&info());
    ctx.sample(|| info());
    for o in &ops {
        ctx.count(o.name(), 1);
    }
    let run = match ctx.guard(|| synth::<C>(&ops, true)) {
        Ok(Ok(x)) => x,
        // refusals and panics are G06's business
        _ => return ctx.count("programs not synthesized", 1),
    };
    if run.rec.ok().is_some() {
        return ctx.count("programs unsatisfied by the honest witness", 1);
    }
    let wrong = |v: &[C::B]| judge::<C>(&run, &vals, v);
    let mut fixed = run.bits.clone();
    for (x, y) in &run.points {
        fixed.push(*x);
        fixed.push(*y);
    }
    if let Some(w) = wrong(&run.rec.vals) {
        return ctx.violation("forged", format!("honest witness: {}; {}", w, info()));
    }
    let e = exact(&run.rec, &fixed, &[], 3000, 600, r, &wrong);
    ctx.count("solutions examined", e.families);
    ctx.count(if e.complete { "programs decided exhaustively" } else { "programs with guessed values" }, 1);
    ctx.max("open variables", e.open as u64);
    if let Some(w) = e.wrong {
        return ctx.violation("forged", format!("{}; {}", w, info()));
    }
    if deviate > 0 {
        let out = attack(&run.rec, &fixed, &[], deviate, r, &dev_values::<C::B>, &wrong);
        ctx.count("deviations tried", out.deviations);
        ctx.count("deviations repaired to a satisfying assignment", out.repaired);
        if let Some(w) = out.forged {
            return ctx.violation("forged", format!("{}; {}", w, info()));
        }
    }
    // splice histories of other points into this one
    let f = Forger::new(&run.rec);
    for k in 0..4 {
        let mut o2 = ops.clone();
        let kinds = r.below(3);
        for o in o2.iter_mut() {
            match o {
                Op::Witness(p) => {
                    *p = match k {
                        0 => g.m.neg(p),
                        1 => g.endo(p),
                        2 => None,
                        _ => pt_of(&rand_pt::<C>(r)),
                    }
                }
                Op::Neg(_, b, _) | Op::Endo(_, b, _) if kinds == 1 => *b = !*b,
                Op::AddCond(_, _, b, _) | Op::AddCondInc(_, _, b, _) if kinds == 1 => *b = !*b,
                Op::Mul(_, b) | Op::MulInv(_, b) if kinds == 2 => {
                    let i = r.below(b.len());
                    b[i] = !b[i];
                }
                Op::MulEndo(_, c) | Op::MulInvEndo(_, c) if kinds == 2 => *c ^= 4 << r.below(126),
                _ => {}
            }
        }
        if let Ok(Ok(x)) = ctx.guard(|| synth::<C>(&o2, true)) {
            if x.rec.vals.len() == run.rec.vals.len() {
                ctx.count("histories spliced", 1);
                if let Some(w) = transplant(&f, &fixed, &x.rec.vals, r, &wrong) {
                    return ctx.violation("forged", format!("{}; {}", w, info()));
                }
            }
        }
    }
}

/// no assignment gives a witnessed point coordinates off the curve
fn on_curve<C: PC>(ctx: &Ctx, r: &mut Rng) {
    let g = Group::<C>::new();
    let honest = related(&g, &[], r);
    let ops = vec![Op::Witness(honest)];
    let run = match ctx.guard(|| synth::<C>(&ops, true)) {
        Ok(Ok(x)) => x,
        _ => return ctx.count("programs not synthesized", 1),
    };
    let (xv, yv) = run.points[0];
    let wrong = |v: &[C::B]| {
        let (x, y) = (u_of(&v[xv]), u_of(&v[yv]));
        if (x.is_zero() && y.is_zero()) || g.m.on_curve(&x, &y) {
            None
        } else {
            Some(format!("witnessed point ({:?}, {:?}) is not on the curve", v[xv], v[yv]))
        }
    };
    let p = related(&g, &[honest], r);
    let (px, py) = match p {
        None => (C::B::zero(), C::B::zero()),
        Some((x, y)) => (f_of(&x), f_of(&y)),
    };
    // coordinates near the curve, on its twist-like siblings, on axes, anywhere
    let (x, y): (C::B, C::B) = match r.below(10) {
        0 => (px, C::B::zero()),
        1 => (C::B::zero(), py),
        2 => (px, py + &C::B::one()),
        3 => (px + &C::B::one(), py),
        4 => (py, px),
        5 => {
            // y^2 = x^3: the equation without its constant
            let t = rand_f::<C::B>(r);
            (t * &t, t * &t * &t)
        }
        6 => {
            // y^2 = x^3 - b, x^3 + 2b, ...
            let k = r.below(5) as u64;
            let mut x = rand_f::<C::B>(r);
            let mut y = C::B::zero();
            for _ in 0..40 {
                let t = x * &x * &x + &(C::B::from_u64(k) * &C::b()) - &C::b();
                if bool::from(t.sqrt().is_some()) {
                    y = t.sqrt().unwrap();
                    break;
                }
                x = x + &C::B::one();
            }
            (x, y)
        }
        7 => (-px, py),
        8 => (hostile_f(r), hostile_f(r)),
        _ => (rand_f(r), rand_f(r)),
    };
    ctx.case_str(&format!("{} point {:?} {:?}", C::CNAME, x, y));
    ctx.count("coordinate pairs tried", 1);
    for extra in [vec![(xv, x), (yv, y)], vec![(xv, x)], vec![(yv, y)]] {
        let e = exact(&run.rec, &[], &extra, 2000, 100, r, &wrong);
        ctx.count(if e.complete { "coordinate pairs refuted or solved exhaustively" } else { "coordinate pairs with guessed values" }, 1);
        if let Some(w) = e.wrong {
            return ctx.violation("off-curve point", format!("{} {}", C::CNAME, w));
        }
    }
    let f = Forger::new(&run.rec);
    if let Some(v) = f.attempt(&run.rec.vals, &[], &[(xv, x), (yv, y)], &Budget { steps: 2000, branches: 20 }, r) {
        if let Some(w) = wrong(&v) {
            ctx.violation("off-curve point", format!("{} {}", C::CNAME, w));
        }
    }
}

fn main() {
    run(
        "G07",
        "one evaluation is one program of curve-point gadgets (or one attempted coordinate pair) whose satisfying assignments with the inputs fixed are examined for any coordinate differing from the group law; distinct by program",
        60,
        900,
        |ctx| {
            ctx.par("witness", ctx.scale(1500, 40000), |i, r| {
                if i % 2 == 0 {
                    on_curve::<Ec0>(ctx, r)
                } else {
                    on_curve::<Ec1>(ctx, r)
                }
            });
            ctx.par("ladders", ctx.scale(96, 4000), |i, r| {
                let kind = 11 + (i / 2) % 6;
                let max = if i < 72 { *r.pick(&[3, 4, 6]) } else { *r.pick(&[32, 128, 256]) };
                let dev = 20;
                if i % 2 == 0 {
                    job::<Ec0>(ctx, r, 1, max, Some(kind), dev)
                } else {
                    job::<Ec1>(ctx, r, 1, max, Some(kind), dev)
                }
            });
            ctx.par("programs", ctx.scale(1600, 60000), |i, r| {
                let len = r.range(1, 2);
                let force = Some(3 + (i / 2) % 8);
                if i % 2 == 0 {
                    job::<Ec0>(ctx, r, len, 0, force, 200)
                } else {
                    job::<Ec1>(ctx, r, len, 0, force, 200)
                }
            });
        },
    )
}
