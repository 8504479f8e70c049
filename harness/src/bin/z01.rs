//! Z01: the step circuit accepts every honest step, and has one shape.
use halo::*;
use hv::logc::*;
use hv::proofs::*;
use hv::r1cs::*;
use hv::steps::*;
use hv::*;

const K: usize = 15;

fn accepted<F: Field>(ctx: &Ctx, what: &str, j: &Result<Judge<F>, SynthesisError>, info: &dyn Fn() -> String) -> bool {
    match j {
        Err(e) => ctx.check(false, what, || format!("{}: synthesis error {:?}", info(), e)),
        Ok(j) => {
            ctx.count("constraints judged", j.gates + j.lcs);
            ctx.check(j.broken == 0 && !j.missing, what, || {
                format!("{}: {} constraints broken, first: {:?}, values missing: {}", info(), j.broken, j.first, j.missing)
            })
        }
    }
}

fn shape<F: Field>(j: &Judge<F>) -> (u64, u64, usize, u64) {
    (j.gates, j.lcs, j.inputs.len(), j.digest)
}

/// base cases with small parameters
fn base<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let p: Params<L> = log_params_part(k, rand_f::<<L as PC>::S>(r), 1 << k);
    let inner = Inner::random(r, 4);
    let payload = inner.next(&inner.base(), r);
    let info = || format!("base case over {} k={} {:?} payload {:?}", L::CNAME, k, inner, payload);
    ctx.case_str(&info());
    ctx.sample(|| info());
    let ol = random_leftovers::<O>(r, k);
    // what may be claimed about the previous leftovers is free in the base case
    let a = match ctx.total("base case", || run_base::<L, O, _>(&p, &inner, &payload, Some(ol.clone()), true)) {
        Some(a) => a,
        None => return,
    };
    accepted(ctx, "base case", &a, &info);
    let payload2: Vec<u8> = payload.iter().map(|b| !b).collect();
    let b = ctx.total("bare circuit", || run_base::<L, O, _>(&p, &inner, &payload2, None, false));
    if let (Ok(a), Some(Ok(b))) = (&a, &b) {
        ctx.count("shapes compared", 1);
        ctx.check(shape(a) == shape(b), "shape", || format!("{}: {:?} with values, {:?} without", info(), shape(a), shape(b)));
        // the inputs are the bits of the public data
        let want: Vec<<L as PC>::B> = {
            let mut v = payload.clone();
            v.extend(ol.to_bytes());
            v.extend(Leftovers::dummy(&p).to_bytes());
            v.extend(Deferred::<<L as PC>::S>::dummy(k).to_bytes());
            bits_f(&v)
        };
        ctx.check(a.input_values() == want, "public inputs", || format!("{}: inputs are not the bits of the public data", info()));
    }
}

fn own_check<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, pl: &Params<L>, po: &Params<O>) {
    // the library's own satisfaction check agrees
    let inner = Inner::random(r, 3);
    let payload = inner.next(&inner.base(), r);
    ctx.case_str(&format!("recursive_is_satisfied {} {:?} {:?}", O::CNAME, inner, payload));
    let got = ctx.total("satisfaction check of a base case", || dev::recursive_is_satisfied::<O, L, _, Basic>(po, pl, None, &inner, &payload));
    ctx.check(matches!(got, Some(Ok(true))), "satisfaction check", || {
        format!("base case {:?} payload {:?} reported {:?}", inner, payload, got.map(|g| g.map_err(|_| "error")))
    });
}

/// an honest step after a toy step
fn step<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>) {
    let inner = Inner::random(r, 24);
    let n = inner.len();
    // after a base step or any later one
    let old_payload: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    let chained = r.below(3);
    let mut used: Leftovers<L> = Leftovers::dummy(p);
    let mut what = vec![];
    for _ in 0..chained {
        let o2 = random_leftovers::<O>(r, K);
        let st = Prev::<L, O>::prove(p, &used, old_payload.clone(), used.clone(), o2, Deferred::dummy(K));
        if let Some(st) = st {
            if st.worked {
                used = st.left.clone();
                what.push("chained");
            }
        }
    }
    let o2 = if r.one_in(4) {
        what.push("random other leftovers");
        random_leftovers::<O>(r, K)
    } else {
        let mut l = random_leftovers::<O>(r, K);
        if r.one_in(3) {
            // as in the first step: nothing committed yet
            what.push("identity commitment");
            l.s_new_commitment = O::zero();
            l.y_new = <O as PC>::S::zero();
        }
        l
    };
    let def: Deferred<<O as PC>::S> = if r.one_in(4) {
        what.push("dummy deferred");
        Deferred::dummy(K)
    } else {
        valid_deferred(r, K, |r| <O as PC>::S::from_u128(r.u128() | 1 << 127))
    };
    if !def.verify(K) {
        return ctx.count("deferred values the checker refuses", 1);
    }
    let prev = match ctx.total("previous step", || Prev::<L, O>::prove(p, &used, old_payload.clone(), used.clone(), o2, def)) {
        Some(Some(p)) => p,
        _ => return ctx.violation("previous step", "an honest previous step could not be proved".into()),
    };
    if !prev.worked || !prev.def.verify(K) {
        return ctx.violation("previous step", format!("the honest proof of the previous step is refused natively (opening {})", prev.worked));
    }
    let payload = inner.next(&old_payload, r);
    let info = || format!("step after {} ({:?}) {:?} {:?} -> {:?} forks {:?}", L::CNAME, what, inner, old_payload, payload, prev.forks);
    ctx.case_str(&info());
    ctx.sample(|| info());
    let s = Step::after(&prev, payload.clone());
    let j = match ctx.total("step circuit", || s.run(p, &inner, false)) {
        Some(j) => j,
        None => return,
    };
    let j = if j.as_ref().map(|j| j.broken > 0).unwrap_or(false) { s.run(p, &inner, true) } else { j };
    accepted(ctx, "honest step", &j, &info);
    if let Ok(j) = &j {
        let want: Vec<<L as PC>::B> = {
            let mut v = payload.clone();
            v.extend(s.old_leftovers.to_bytes());
            v.extend(s.new_leftovers.to_bytes());
            v.extend(s.deferred.to_bytes());
            bits_f(&v)
        };
        ctx.check(j.input_values() == want, "public inputs", || format!("{}: inputs are not the bits of the public data", info()));
        ctx.max("gates of a step at k = 15", j.gates);
        if r.one_in(3) {
            // same shape as the base case
            let values = r.bool();
            let ol = if values { Some(random_leftovers::<O>(r, K)) } else { None };
            if let Some(Ok(b)) = ctx.total("base case", || run_base::<L, O, _>(p, &inner, &payload, ol, values)) {
                ctx.count("shapes compared", 1);
                ctx.check(shape(j) == shape(&b), "shape", || format!("{}: {:?} for the step, {:?} for the base case", info(), shape(j), shape(&b)));
            }
        }
    }
}
/// the real thing: proofs of steps about proofs of steps
fn chain(ctx: &Ctx, r: &mut Rng, steps: usize, flip: bool) {
    if flip {
        chain_from::<Log1, Log0>(ctx, r, steps)
    } else {
        chain_from::<Log0, Log1>(ctx, r, steps)
    }
}
fn chain_from<A: PC<B = <D as PC>::S> + LogCurve, D: PC<B = <A as PC>::S> + LogCurve>(ctx: &Ctx, r: &mut Rng, steps: usize) {
    let k = 22;
    let pa: Params<A> = log_params_part(k, rand_f::<<A as PC>::S>(r), 18_600);
    let pd: Params<D> = log_params_part(k, rand_f::<<D as PC>::S>(r), 18_600);
    let inner = loop {
        let i = Inner::random(r, 8);
        if i.len() > 0 {
            break i;
        }
    };
    let mut payload = inner.next(&inner.base(), r);
    let info = |i: usize, p: &[u8]| format!("step {} of a chain starting on {} {:?} payload {:?}", i, A::CNAME, inner, p);
    ctx.case_str(&info(1, &payload));
    ctx.sample(|| info(1, &payload));
    let mut a: RecursiveProof<A, D> = match ctx.total("base proof", || RecursiveProof::create_proof(&pa, &pd, None, &inner, &payload)) {
        Some(Ok(p)) => p,
        Some(Err(e)) => return ctx.violation("chain", format!("{}: {:?}", info(1, &payload), e)),
        None => return,
    };
    let v = ctx.total("verification", || a.verify(&pa, &pd, &inner));
    ctx.count("recursive proofs verified", 1);
    if !ctx.check(matches!(v, Some(Ok(true))), "chain", || format!("{}: verification gave {:?}", info(1, &payload), v)) {
        return;
    }
    let mut i = 1;
    while i < steps {
        i += 1;
        payload = inner.next(&payload, r);
        ctx.case_str(&info(i, &payload));
        // the library's own satisfaction check agrees, with the real old proof
        if i == 2 {
            let got = ctx.total("satisfaction check of a step", || dev::recursive_is_satisfied::<D, A, _, Basic>(&pd, &pa, Some(&a), &inner, &payload));
            ctx.count("satisfaction checks of a step", 1);
            if !ctx.check(matches!(got, Some(Ok(true))), "satisfaction check", || {
                format!("{}: reported {:?}", info(i, &payload), got.map(|g| g.map_err(|_| "error")))
            }) {
                return;
            }
        }
        let d: RecursiveProof<D, A> = match ctx.total("step proof", || RecursiveProof::create_proof(&pd, &pa, Some(&a), &inner, &payload)) {
            Some(Ok(p)) => p,
            Some(Err(e)) => return ctx.violation("chain", format!("{}: {:?}", info(i, &payload), e)),
            None => return,
        };
        let v = ctx.total("verification", || d.verify(&pd, &pa, &inner));
        ctx.count("recursive proofs verified", 1);
        if !ctx.check(matches!(v, Some(Ok(true))), "chain", || format!("{}: verification gave {:?}", info(i, &payload), v)) {
            return;
        }
        if i >= steps {
            break;
        }
        i += 1;
        payload = inner.next(&payload, r);
        ctx.case_str(&info(i, &payload));
        a = match ctx.total("step proof", || RecursiveProof::create_proof(&pa, &pd, Some(&d), &inner, &payload)) {
            Some(Ok(p)) => p,
            Some(Err(e)) => return ctx.violation("chain", format!("{}: {:?}", info(i, &payload), e)),
            None => return,
        };
        let v = ctx.total("verification", || a.verify(&pa, &pd, &inner));
        ctx.count("recursive proofs verified", 1);
        if !ctx.check(matches!(v, Some(Ok(true))), "chain", || format!("{}: verification gave {:?}", info(i, &payload), v)) {
            return;
        }
    }
}

fn main() {
    run(
        "Z01",
        "one evaluation is one honest step (base case, step after a proved step, or step of a real chain) whose constraints are all evaluated, or whose proof is verified natively; distinct by inner circuit, payloads and history",
        75,
        1500,
        |ctx| {
            ctx.assume("previous steps at k = 15 are proofs of a circuit with the same public inputs as a step and no other content; the chain at k = 22 is made of real steps");
            ctx.assume("the old proof's curve is represented in the exponent, over generators of known discrete logarithm; coordinates are those of the real curve");
            let mut rc = ctx.rng("chain", 0);
            std::thread::scope(|s| {
                let h = std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, || {
                        let n = if ctx.quick() { 2 } else { 4 };
                        let mut first = true;
                        while first || (!ctx.quick() && !ctx.done()) {
                            let flip = rc.bool();
                            chain(ctx, &mut rc, n, flip);
                            first = false;
                        }
                    })
                    .unwrap();
                ctx.par("base", ctx.scale(24, 800), |i, r| {
                    let k = 4 + (i / 2) % 6;
                    if i % 2 == 0 {
                        base::<Log0, Ec1>(ctx, r, k)
                    } else {
                        base::<Log1, Ec0>(ctx, r, k)
                    }
                });
                let mut r = ctx.rng("params", 0);
                let s4 = (Params::<Ec0>::new(4), Params::<Ec1>::new(4));
                let l4: (Params<Log0>, Params<Log1>) = (
                    log_params_part(4, rand_f::<Fp>(&mut r), 16),
                    log_params_part(4, rand_f::<Fq>(&mut r), 16),
                );
                ctx.par("own check", ctx.scale(6, 200), |i, r| {
                    if i % 2 == 0 {
                        own_check::<Log0, Ec1>(ctx, r, &l4.0, &s4.1)
                    } else {
                        own_check::<Log1, Ec0>(ctx, r, &l4.1, &s4.0)
                    }
                });
                let p0: Params<Log0> = log_params_part(K, rand_f::<Fp>(&mut r), 16_000);
                let p1: Params<Log1> = log_params_part(K, rand_f::<Fq>(&mut r), 16_000);
                ctx.par("step", ctx.scale(20, 4000), |i, r| {
                    if i % 2 == 0 {
                        step::<Log0, Ec1>(ctx, r, &p0)
                    } else {
                        step::<Log1, Ec0>(ctx, r, &p1)
                    }
                });
                h.join().unwrap();
            });
        },
    )
}
