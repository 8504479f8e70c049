//! P05: proofs made from unsatisfied assignments, by a prover that lies as well as the
//! protocol allows, are never accepted.
use halo::*;
use hv::circ::*;
use hv::proofs::*;
use hv::*;

fn attempt<C: PC>(
    ctx: &Ctx,
    label: &str,
    params: &Params<C>,
    circuit: &Prog<C::Scalar>,
    a: &Asg<C::Scalar>,
    inputs: &[C::Scalar],
    old: &Old<C>,
    lie: &Lie<C::Scalar>,
    give_commitment: bool,
    info: &dyn Fn() -> String,
    r: &mut Rng,
) {
    let f = match ctx.guard(|| forge(params, a, inputs, old, lie, &mut r.fork())) {
        Ok(Some(f)) => f,
        _ => return ctx.count("lies that could not be told", 1),
    };
    let kc = if give_commitment { Some(f.kc) } else { None };
    for (how, proof) in f.versions() {
        let v = match ctx.guard(|| full_verify(params, circuit, &old.left, &proof, inputs, kc)) {
            Ok(v) => v,
            Err(_) => {
                ctx.count("verifications that panicked", 1);
                continue;
            }
        };
        ctx.count(label, 1);
        if v.ok {
            ctx.violation(label, format!("accepted ({}): {:?}; {}", how, lie, info()));
        } else {
            ctx.count(&format!("rejected by: {}", v.why), 1);
        }
    }
}

/// a satisfied statement, then damaged; returns what was damaged
fn damage<F: PF>(r: &mut Rng, a: &mut Asg<F>, inputs: &mut Vec<F>) -> String {
    for _ in 0..50 {
        let (mut b, mut i2) = (a.clone(), inputs.clone());
        let delta = if r.bool() { F::one() } else { hostile_f(r) };
        let pick = match r.below(4) {
            0 => 0,
            1 => b.n - 1,
            _ => r.below(b.n),
        };
        let what = match r.below(5) {
            0 => {
                b.a[pick] = b.a[pick] + &delta;
                "left wire"
            }
            1 => {
                b.b[pick] = b.b[pick] + &delta;
                "right wire"
            }
            2 => {
                b.c[pick] = b.c[pick] + &delta;
                "output wire"
            }
            3 => {
                // a wire whose gate is kept: only lines can notice
                b.a[pick] = b.a[pick] + &delta;
                b.c[pick] = b.a[pick] * &b.b[pick];
                "left and output wire"
            }
            _ => {
                if i2.is_empty() {
                    continue;
                }
                let j = r.below(i2.len());
                i2[j] = i2[j] + &delta;
                "claimed input"
            }
        };
        if let Some(w) = unsatisfied(&b, &ky_poly(&b, &i2)) {
            *a = b;
            *inputs = i2;
            return format!("{} (violates {})", what, w);
        }
    }
    // there is always the constant: claim that it is not one
    a.a[0] = a.a[0] + &F::one();
    a.c[0] = a.a[0] * &a.b[0];
    "constant wire".into()
}

fn previous<C: PC>(params: &Params<C>, p: &Prog<C::Scalar>, r: &mut Rng) -> Option<Old<C>> {
    let d = Old::dummy(params);
    if r.bool() {
        return Some(d);
    }
    // a step made by our own prover, told the truth
    let a = Asg::of(p, true).ok()?;
    let f = forge(params, &a, &p.inputs(), &d, &Lie::none(), r)?;
    let v = full_verify(params, &p.blank(), &d.left, &f.proof, &p.inputs(), None);
    Old::of(params, &a, &v.parts?.0)
}

fn unsat<C: PC>(ctx: &Ctx, r: &mut Rng, protocols: &[Protocol]) {
    let k = if r.below(5) == 0 { 5 } else { 4 };
    let params: Params<C> = Params::new(k);
    let inputs = r.below(3);
    let p = fitting::<C::Scalar>(r, k, inputs);
    let good = Asg::of(&p, true).unwrap();
    if unsatisfied(&good, &ky_poly(&good, &p.inputs())).is_some() {
        return ctx.count("programs the synthesis left unsatisfied", 1);
    }
    let (mut a, mut claimed) = (good.clone(), p.inputs());
    let what = damage(r, &mut a, &mut claimed);
    let old = match ctx.guard(|| previous(&params, &p, &mut r.fork())) {
        Ok(Some(o)) => o,
        _ => Old::dummy(&params),
    };
    let info = || format!("{} k={} damaged {} inputs {:?} {:?}", C::CNAME, k, what, claimed, p);
    ctx.case_str(&info());
    ctx.sample(|| info());
    let circuit = p.blank();
    for protocol in protocols {
        for cover in COVERS.iter() {
            if *cover == Cover::TxBoth && protocol.z_at > 5 && protocol.same.is_none() && r.below(4) > 0 {
                continue;
            }
            let lie = Lie { protocol: *protocol, cover: *cover, ..Lie::none() };
            attempt(ctx, "unsatisfied assignment", &params, &circuit, &a, &claimed, &old, &lie, r.bool(), &info, r);
        }
    }
}

/// the honest prover on a falsified program
fn honest_prover<C: PC>(ctx: &Ctx, r: &mut Rng) {
    let params: Params<C> = Params::new(4);
    let inputs = r.below(2);
    let mut p = fitting::<C::Scalar>(r, 4, inputs);
    let cs = p.constraints();
    if cs.is_empty() {
        return;
    }
    let i = *r.pick(&cs);
    p.falsify(i, C::Scalar::one());
    if p.violated().is_empty() {
        return;
    }
    ctx.case_str(&format!("{} honest prover {:?}", C::CNAME, p));
    let old = Leftovers::dummy(&params);
    let made = ctx.guard(|| Proof::new::<_, Basic>(&params, &p, &old));
    match made {
        Ok(Ok((proof, _))) => {
            let v = ctx.guard(|| full_verify(&params, &p.blank(), &old, &proof, &p.inputs(), None).ok);
            ctx.count("honest prover produced a proof", 1);
            ctx.check(v.ok() != Some(true), "honest prover on a false statement", || format!("{} {:?}", C::CNAME, p));
        }
        _ => ctx.count("honest prover refused", 1),
    }
}

/// false public inputs hidden behind a commitment to others
fn inputs<C: PC>(ctx: &Ctx, r: &mut Rng, protocols: &[Protocol]) {
    let params: Params<C> = Params::new(4);
    let p = loop {
        let p = fitting::<C::Scalar>(r, 4, 2);
        if !p.inputs().is_empty() {
            break p;
        }
    };
    let a = Asg::of(&p, true).unwrap();
    let real = p.inputs();
    let mut claimed = real.clone();
    let j = r.below(claimed.len());
    claimed[j] = claimed[j] + &C::Scalar::one();
    let old = Old::dummy(&params);
    let circuit = p.blank();
    let info = || format!("{} claimed {:?} {:?}", C::CNAME, claimed, p);
    ctx.case_str(&info());
    for protocol in protocols {
        for cover in [Cover::Nothing, Cover::TxPos, Cover::SxCur, Cover::SCur, Cover::SCurAndC, Cover::Rxy] {
            let lie = Lie {
                protocol: *protocol,
                cover,
                ky: Some(ky_poly(&a, &real)),
                ..Lie::none()
            };
            attempt(ctx, "inputs behind another commitment", &params, &circuit, &a, &claimed, &old, &lie, true, &info, r);
        }
        // the same error in s_cur, k committed so that both cancel
        let mut b = a.clone();
        if b.n < params.n {
            // an unused gate 1 * 0 = 0
            for w in [&mut b.a, &mut b.b, &mut b.c] {
                w.resize(params.n, C::Scalar::zero());
            }
            b.a[params.n - 1] = C::Scalar::one();
            b.n = params.n;
        }
        let w = b.a[params.n - 1].invert();
        if bool::from(w.is_some()) {
            let (kr, mut kc) = (ky_poly(&a, &real), ky_poly(&a, &claimed));
            for (i, v) in kc.iter_mut().enumerate() {
                *v = *v + &((*v - &kr[i]) * &w.unwrap());
            }
            let lie = Lie { protocol: *protocol, cover: Cover::QShift, ky: Some(kc), ..Lie::none() };
            attempt(ctx, "inputs behind another commitment, shifted", &params, &circuit, &b, &claimed, &old, &lie, true, &info, r);
        }
        // true inputs, false commitment
        let lie = Lie {
            protocol: *protocol,
            ky: Some(ky_poly(&a, &claimed)),
            ..Lie::none()
        };
        attempt(ctx, "false input commitment", &params, &circuit, &a, &real, &old, &lie, true, &info, r);
    }
}

/// a satisfied step that carries on from false leftovers, or leaves false ones
fn accumulation<C: PC>(ctx: &Ctx, r: &mut Rng, protocols: &[Protocol]) {
    let params: Params<C> = Params::new(4);
    let inputs = r.below(2);
    let p = fitting::<C::Scalar>(r, 4, inputs);
    let a = Asg::of(&p, true).unwrap();
    let honest = match ctx.guard(|| previous(&params, &p, &mut r.fork())) {
        Ok(Some(o)) => o,
        _ => Old::dummy(&params),
    };
    let circuit = p.blank();
    let mut old = honest.clone();
    let what = match r.below(3) {
        0 => {
            // s_new of another polynomial
            let j = r.below(old.s.len());
            old.s[j] = old.s[j] + &C::Scalar::one();
            old.left.s_new_commitment = multiexp(&old.s, &params.generators[..old.s.len()]);
            "s"
        }
        1 => {
            let j = r.below(old.g.len());
            old.g[j] = old.g[j] + &C::Scalar::one();
            old.left.g_new = multiexp(&old.g, &params.generators);
            "g"
        }
        _ => "new s",
    };
    let info = || format!("{} false {} after {:?} {:?}", C::CNAME, what, honest.left.y_new, p);
    ctx.case_str(&info());
    for protocol in protocols {
        for claim in [OldClaim::Committed, OldClaim::Demanded, OldClaim::Bent, OldClaim::BentNew] {
            let lie = Lie {
                protocol: *protocol,
                old: claim,
                false_new_s: what == "new s",
                false_new_s_same_x: r.bool(),
                ..Lie::none()
            };
            attempt(ctx, "false leftovers carried on", &params, &circuit, &a, &p.inputs(), &old, &lie, false, &info, r);
            if what == "g" || what == "new s" {
                break;
            }
        }
    }
}

/// openings that claim a fixed multiple of the truth: a verifier that compares points up
/// to sign or by one coordinate would believe them
fn scaled<C: PC>(ctx: &Ctx, r: &mut Rng, protocols: &[Protocol]) {
    let params: Params<C> = Params::new(4);
    let n = params.n;
    for (j, f) in scalings::<C>() {
        if j == 3 {
            // nothing false follows from this one alone
            continue;
        }
        // gates with the outputs the liar wants, pinned by lines
        let mut p = Prog::<C::Scalar>::empty();
        let want = if j == 1 { f } else { C::Scalar::one() };
        for _ in 0..r.range(1, n - 1) {
            let (x, y) = (rand_f::<C::Scalar>(r), hostile_f::<C::Scalar>(r));
            let (x, y) = (p.push(x), p.push(y));
            let z = p.push(p.vals[x] * &p.vals[y] * &want);
            p.ops.push(Op::Gate(x, y, z));
            for v in [x, y, z] {
                if r.bool() {
                    let e = p.vals[v];
                    p.ops.push(Op::Lin(vec![(Coeff::One, v), (Coeff::Full(-e), 0)]));
                }
            }
        }
        let mut a = Asg::of(&p, true).unwrap();
        if j == 1 {
            a = scaled_gates(&a, f);
        }
        let honest = match r.bool() {
            // the previous step is one of the same circuit
            b if j == 2 || (b && j == 0) => match ctx.guard(|| previous(&params, &p, &mut r.fork())) {
                Ok(Some(o)) => o,
                _ => Old::dummy(&params),
            },
            _ => Old::dummy(&params),
        };
        let old = scaled_old(&params, &honest, j, f);
        let false_now = match j {
            1 => unsatisfied(&a, &ky_poly(&a, &[])).is_some(),
            _ => old.left.g_new != honest.left.g_new || old.left.s_new_commitment != honest.left.s_new_commitment,
        };
        if !false_now {
            continue;
        }
        let circuit = p.blank();
        let info = || format!("{} opening {} scaled {:?} {:?}", C::CNAME, j, f, p);
        ctx.case_str(&info());
        for protocol in protocols {
            let lie = Lie { protocol: *protocol, scaled: Some((j, f)), ..Lie::none() };
            attempt(ctx, "scaled opening", &params, &circuit, &a, &[], &old, &lie, false, &info, r);
        }
    }
}

/// more gates than the parameters hold: the excess must not go unchecked
fn too_large<C: PC>(ctx: &Ctx, r: &mut Rng, protocols: &[Protocol]) {
    let params: Params<C> = Params::new(4);
    let n = params.n;
    let mut p = Prog::<C::Scalar>::empty();
    let extra = r.range(0, 3);
    // the constant takes a gate of its own
    for i in 0..n - 1 + extra {
        let (x, y) = (hostile_f::<C::Scalar>(r), hostile_f::<C::Scalar>(r));
        let (x, y) = (p.push(x), p.push(y));
        let z = p.push(p.vals[x] * &p.vals[y]);
        p.ops.push(Op::Gate(x, y, z));
        if i >= n - 1 {
            // linked to a demand that cannot be met
            p.ops.push(Op::Lin(vec![(Coeff::One, z)]));
            p.ops.push(Op::Lin(vec![(Coeff::One, z), (Coeff::One, 0)]));
        } else {
            let e = p.vals[z];
            p.ops.push(Op::Lin(vec![(Coeff::One, z), (Coeff::Full(-e), 0)]));
        }
    }
    if extra == 0 {
        // exactly full, last gate damaged below
    }
    let whole = Asg::of(&p, true).unwrap();
    let mut a = whole.clone();
    a.n = n.min(a.n);
    a.a.truncate(n);
    a.b.truncate(n);
    a.c.truncate(n);
    for l in a.lines.iter_mut() {
        l.retain(|(v, _)| match v {
            Variable::A(i) | Variable::B(i) | Variable::C(i) => *i <= n,
        });
    }
    if extra == 0 {
        a.c[n - 1] = a.c[n - 1] + &C::Scalar::one();
    }
    let old = Old::dummy(&params);
    let circuit = p.blank();
    let info = || format!("{} {} gates for n = {}", C::CNAME, whole.n, n);
    ctx.case_str(&format!("{} {:?}", info(), p.vals));
    for protocol in protocols {
        // lines beyond the gates: the demand "one = 0" stays; bend like any other lie
        for cover in [Cover::Nothing, Cover::TxPos] {
            let lie = Lie { protocol: *protocol, cover, ..Lie::none() };
            attempt(ctx, "circuit too large", &params, &circuit, &a, &p.inputs(), &old, &lie, false, &info, r);
        }
        // without the impossible demands: only the excess gates themselves are false
        let mut q = p.clone();
        q.ops.retain(|o| !matches!(o, Op::Lin(_)));
        let mut aq = Asg::of(&q, true).unwrap();
        if aq.n > n {
            aq.n = n;
            aq.a.truncate(n);
            aq.b.truncate(n);
            aq.c.truncate(n);
            let lie = Lie { protocol: *protocol, ..Lie::none() };
            attempt(ctx, "circuit too large", &params, &q.blank(), &aq, &q.inputs(), &old, &lie, false, &info, r);
        }
    }
}

fn main() {
    run(
        "P05",
        "one evaluation is one false statement (damaged assignment, hidden inputs, false leftovers, oversized circuit) attacked with every lie of the catalogue; distinct by statement; only an accepted proof is a violation",
        60,
        1500,
        |ctx| {
            let mut r = Rng::new(ctx.seed);
            let (p0, p1) = std::thread::scope(|s| {
                let (mut a, mut b) = (r.fork(), r.fork());
                let x = s.spawn(move || ctx.guard(|| accepted_protocols::<Ec0>(&mut a, true)).unwrap_or_default());
                let y = s.spawn(move || ctx.guard(|| accepted_protocols::<Ec1>(&mut b, true)).unwrap_or_default());
                (x.join().unwrap(), y.join().unwrap())
            });
            for (n, p) in [("Ec0", &p0), ("Ec1", &p1)] {
                for x in p.iter() {
                    ctx.count(&format!("{} protocol accepted on honest data: {:?}", n, x), 1);
                }
                if p.is_empty() {
                    ctx.count("no known protocol accepted on honest data", 1);
                }
            }
            let (a, b): (Vec<Protocol>, Vec<Protocol>) = (
                if p0.is_empty() { vec![STANDARD] } else { p0 },
                if p1.is_empty() { vec![STANDARD] } else { p1 },
            );
            ctx.par("too large", ctx.scale(8, 300), |i, r| if i % 2 == 0 { too_large::<Ec0>(ctx, r, &a) } else { too_large::<Ec1>(ctx, r, &b) });
            ctx.par("scaled", ctx.scale(8, 300), |i, r| if i % 2 == 0 { scaled::<Ec0>(ctx, r, &a) } else { scaled::<Ec1>(ctx, r, &b) });
            ctx.par("honest prover", ctx.scale(24, 1000), |i, r| if i % 2 == 0 { honest_prover::<Ec0>(ctx, r) } else { honest_prover::<Ec1>(ctx, r) });
            ctx.par("accumulation", ctx.scale(24, 1000), |i, r| if i % 2 == 0 { accumulation::<Ec0>(ctx, r, &a) } else { accumulation::<Ec1>(ctx, r, &b) });
            ctx.par("inputs", ctx.scale(8, 500), |i, r| if i % 2 == 0 { inputs::<Ec0>(ctx, r, &a) } else { inputs::<Ec1>(ctx, r, &b) });
            ctx.par("unsatisfied", ctx.scale(24, 2000), |i, r| if i % 2 == 0 { unsat::<Ec0>(ctx, r, &a) } else { unsat::<Ec1>(ctx, r, &b) });
        },
    )
}
