//! G06: programs of curve-point gadgets are satisfied by their honest witness and carry
//! the group-law results.
use halo::*;
use hv::ecprog::*;
use hv::*;

fn job<C: PC>(ctx: &Ctx, r: &mut Rng, len: usize, mul: usize, force: Option<usize>) {
    let g = Group::<C>::new();
    let (ops, vals) = program(&g, r, len, mul, force);
    let info = || format!("{} {}", C::CNAME, show(&ops));
    ctx.case_str(&info());
    ctx.sample(|| info());
    for o in &ops {
        ctx.count(o.name(), 1);
    }
    let run = match ctx.total("curve gadgets", || synth::<C>(&ops, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("refused", format!("{:?} {}", e, info())),
        None => return,
    };
    if let Some(v) = run.rec.ok() {
        return ctx.violation("honest unsatisfied", format!("{} {}", v, info()));
    }
    if let Some(w) = judge::<C>(&run, &vals, &run.rec.vals) {
        return ctx.violation("value", format!("{}; {}", w, info()));
    }
    for (i, o) in run.out.iter().enumerate() {
        let ok = o.2 == Some(run.rec.eval(&o.0, &run.rec.vals)) && o.3 == Some(run.rec.eval(&o.1, &run.rec.vals));
        ctx.check(ok, "reported value", || format!("point {} {}", i, info()));
    }
    ctx.count("points compared", run.out.len() as u64);
    ctx.count("gates recorded", run.rec.gates.len() as u64);
    // the shape depends on neither the values nor their presence
    match ctx.total("curve gadgets without witness", || synth::<C>(&ops, false)) {
        Some(Ok(x)) => {
            ctx.check(x.rec.gates == run.rec.gates && x.rec.lcs == run.rec.lcs && x.rec.inputs == run.rec.inputs, "shape", || info());
        }
        Some(Err(e)) => ctx.violation("witness-less refused", format!("{:?} {}", e, info())),
        None => {}
    }
}

fn main() {
    run(
        "G06",
        "one evaluation is one program of curve-point gadgets over concrete points, bits and scalars: satisfied, shaped as without witness, and every coordinate equal to the group law of an independent integer model; distinct by program",
        90,
        900,
        |ctx| {
            // every ladder kind, short and full length
            ctx.par("ladders", ctx.scale(1200, 20000), |i, r| {
                let kind = 11 + (i / 2) % 6;
                let len = 1 + r.below(2);
                let max = *r.pick(&[6, 32, 128, 255, 256, 260]);
                if i % 2 == 0 {
                    job::<Ec0>(ctx, r, len, max, Some(kind))
                } else {
                    job::<Ec1>(ctx, r, len, max, Some(kind))
                }
            });
            ctx.par("programs", ctx.scale(40000, 600000), |i, r| {
                let len = r.range(1, 6);
                let force = if r.bool() { Some(3 + (i / 2) % 8) } else { None };
                if i % 2 == 0 {
                    job::<Ec0>(ctx, r, len, 0, force)
                } else {
                    job::<Ec1>(ctx, r, len, 0, force)
                }
            });
        },
    )
}
