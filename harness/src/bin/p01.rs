//! P01: honest proofs verify, and their leftovers chain.
use halo::*;
use hv::circ::*;
use hv::proofs::*;
use hv::*;

/// the same circuit with another satisfying assignment: free wires change, coefficients stay
fn rewitness<F: PF>(p: &Prog<F>, r: &mut Rng) -> Option<Prog<F>> {
    // scale is not free in general; retry random values for unconstrained allocations only
    let mut q = p.clone();
    for o in &p.ops {
        if let Op::Alloc(v) = o {
            if r.bool() {
                q.vals[*v] = rand_f(r);
            }
        }
    }
    // recompute gate outputs of free gates and drop the attempt if anything breaks
    if q.violated().is_empty() {
        Some(q)
    } else {
        None
    }
}

/// a program that uses most of the gates and constraints the parameters offer
fn crowded<F: PF>(r: &mut Rng, k: usize, inputs: usize) -> Prog<F> {
    let n = (1usize << k) / 4;
    loop {
        let s = Shape { ops: r.range(2 * n, 6 * n), max_gates: n - 1, max_lcs: (1usize << k) - 2, inputs, namespaces: r.bool() };
        let p = Prog::random(r, &s);
        let a = Asg::of(&p, true).expect("program");
        if a.n < n && a.q() < 4 * n {
            return p;
        }
    }
}

fn chain<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize, len: usize) {
    let params: Params<C> = Params::new(k);
    let mut p = if k < 6 {
        let ni = *r.pick(&[0, 0, 1, 2, 3, 5]);
        fitting::<C::Scalar>(r, k, ni)
    } else {
        let ni = r.below((1 << k) / 8);
        crowded::<C::Scalar>(r, k, ni)
    };
    let mut old = Leftovers::dummy(&params);
    let circuit = p.blank();
    let info = |p: &Prog<C::Scalar>, i: usize| format!("{} k={} step {} of {}: {:?}", C::CNAME, k, i, len, p);
    ctx.max("largest parameter size", k as u64);
    ctx.max("longest chain", len as u64);
    match ctx.total("leftovers of the dummy step", || old.verify::<_, Basic>(&params, &circuit)) {
        Some(Ok(true)) => {}
        Some(x) => return ctx.violation("dummy leftovers", format!("{:?} {}", x, info(&p, 0))),
        None => return,
    }
    let dd = Deferred::<C::Scalar>::dummy(k);
    ctx.check(ctx.guard(|| dd.verify(k)).unwrap_or(false), "dummy deferred", || format!("k={}", k));
    for i in 0..len {
        ctx.case_str(&info(&p, i));
        if i == 0 {
            ctx.sample(|| info(&p, i));
        }
        let a = Asg::of(&p, true).unwrap();
        ctx.count("gates proved", a.n as u64);
        ctx.max("most gates", a.n as u64);
        ctx.max("most public inputs", p.inputs().len() as u64);
        ctx.count("linear constraints proved", a.q() as u64);
        ctx.count("public inputs proved", p.inputs().len() as u64);
        let (proof, left) = match ctx.total("prover", || Proof::new::<_, Basic>(&params, &p, &old)) {
            Some(Ok(x)) => x,
            Some(Err(e)) => return ctx.violation("prover refused", format!("{:?} {}", e, info(&p, i))),
            None => return,
        };
        let kc = params.commit(&ky_poly(&a, &p.inputs()), false);
        for (n, kc) in [("without commitment", None), ("with commitment", Some(kc))] {
            // verifying needs no witness
            let v = match ctx.total("verifier", || full_verify(&params, &circuit, &old, &proof, &p.inputs(), kc)) {
                Some(v) => v,
                None => return,
            };
            ctx.count("proofs verified", 1);
            if !v.ok {
                return ctx.violation("honest proof rejected", format!("{} {} {}", v.why, n, info(&p, i)));
            }
            let (vl, vd, forks) = v.parts.unwrap();
            ctx.check(vl == left, "leftovers differ", || info(&p, i));
            ctx.check(forks.len() == k, "fork values", || info(&p, i));
            ctx.check(vd.challenges_sq_packed_old == old.challenges_sq_packed_new && vd.y_old == old.y_new, "old step carried", || info(&p, i));
            ctx.check(vd.challenges_sq_packed_new == left.challenges_sq_packed_new && vd.y_new == left.y_new, "new step carried", || info(&p, i));
        }
        old = left;
        if let Some(q) = rewitness(&p, r) {
            p = q;
        }
    }
}

fn main() {
    run(
        "P01",
        "one evaluation is one honest proof of a random satisfied program in a chain, verified with and without the input commitment; distinct by program and position",
        50,
        1200,
        |ctx| {
            ctx.par("sizes", ctx.scale(12, 72), |i, r| {
                let k = [10, 9, 8, 7, 6, 8, 11, 12][(i / 2) % ctx.scale(6, 8)];
                if i % 2 == 0 {
                    chain::<Ec0>(ctx, r, k, 1)
                } else {
                    chain::<Ec1>(ctx, r, k, 1)
                }
            });
            ctx.par("chains", ctx.scale(6, 100), |i, r| {
                let len = r.range(3, 5);
                if i % 2 == 0 {
                    chain::<Ec0>(ctx, r, 4, len)
                } else {
                    chain::<Ec1>(ctx, r, 4, len)
                }
            });
            ctx.par("programs", ctx.scale(64, 3000), |i, r| {
                let k = 4 + r.below(8) / 6;
                let len = 1 + r.below(2);
                if i % 2 == 0 {
                    chain::<Ec0>(ctx, r, k, len)
                } else {
                    chain::<Ec1>(ctx, r, k, len)
                }
            });
        },
    )
}
