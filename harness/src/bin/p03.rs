//! P03: a valid proof is rejected for every other statement.
use halo::*;
use hv::circ::*;
use hv::proofs::*;
use hv::*;

struct Base<C: PC> {
    params: Params<C>,
    other_params: Params<C>,
    prog: Prog<C::S>,
    circuit: Prog<C::S>,
    inputs: Vec<C::S>,
    old: Leftovers<C>,
    /// other valid leftovers of the same circuit
    olds: Vec<Leftovers<C>>,
    proof: Proof<C>,
    kc: C,
    k: usize,
}

fn base<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize) -> Option<Base<C>> {
    let params: Params<C> = Params::new(k);
    let ni = *r.pick(&[0, 1, 2, 3, 4]);
    let p = fitting::<C::S>(r, k, ni);
    let dummy = Leftovers::dummy(&params);
    let made = ctx.guard(|| {
        let (p1, l1) = Proof::new::<_, Basic>(&params, &p, &dummy).ok()?;
        let (p2, l2) = Proof::new::<_, Basic>(&params, &p, &l1).ok()?;
        Some((p1, l1, p2, l2))
    });
    let (p1, l1, p2, l2) = match made {
        Ok(Some(x)) => x,
        _ => {
            ctx.count("provers that failed", 1);
            return None;
        }
    };
    let (old, proof, olds) = if r.bool() { (l1, p2, vec![dummy, l2]) } else { (dummy, p1, vec![l1, l2]) };
    let circuit = p.blank();
    let inputs = p.inputs();
    let a = Asg::of(&p, true).ok()?;
    let kc = params.commit(&ky_poly(&a, &inputs), false);
    let v = ctx.guard(|| {
        full_verify(&params, &circuit, &old, &proof, &inputs, None).ok && full_verify(&params, &circuit, &old, &proof, &inputs, Some(kc)).ok
    });
    if v.ok() != Some(true) {
        ctx.count("honest proofs rejected (see P01)", 1);
        return None;
    }
    Some(Base { params, other_params: Params::new(k), prog: p, circuit, inputs, old, olds, proof, kc, k })
}

/// The statement put before the verifier.
struct Stmt<'a, C: PC> {
    params: &'a Params<C>,
    circuit: Prog<C::S>,
    inputs: Vec<C::S>,
    old: Leftovers<C>,
    kc: Option<C>,
}

fn judge<C: PC>(ctx: &Ctx, b: &Base<C>, s: Stmt<C>, what: &str) {
    ctx.case_str(&format!("{} k={} {} {:?} {:?}", C::CNAME, b.k, what, b.prog, s.inputs));
    ctx.sample(|| what.to_string());
    ctx.count(&format!("substituted: {}", what.split(':').next().unwrap()), 1);
    let ok = match ctx.guard(|| full_verify(s.params, &s.circuit, &s.old, &b.proof, &s.inputs, s.kc)) {
        Ok(v) => {
            ctx.count(&format!("rejected by: {}", if v.ok { "nothing" } else { v.why }), 1);
            v.ok
        }
        Err(_) => {
            ctx.count("verifications that panicked (see P07)", 1);
            false
        }
    };
    ctx.check(!ok, "accepted for another statement", || format!("{} k={} {} inputs {:?} program {:?}", C::CNAME, b.k, what, s.inputs, s.circuit));
}

fn stmt<'a, C: PC>(b: &'a Base<C>) -> Stmt<'a, C> {
    Stmt { params: &b.params, circuit: b.circuit.clone(), inputs: b.inputs.clone(), old: b.old.clone(), kc: None }
}

fn inputs<C: PC>(ctx: &Ctx, b: &Base<C>, r: &mut Rng, how: usize) {
    let mut s = stmt(b);
    let n = s.inputs.len();
    let mut what = "";
    match how {
        0 if n > 0 => {
            let i = r.below(n);
            s.inputs[i] = rand_f(r);
            what = "inputs: one replaced";
        }
        1 if n > 0 => {
            let i = *r.pick(&[0, n - 1]);
            s.inputs[i] = match r.below(4) {
                0 => C::S::zero(),
                1 => -s.inputs[i],
                2 => s.inputs[i] + &C::S::one(),
                _ => s.inputs[i] * &C::BETA_SCALAR,
            };
            what = "inputs: one bent";
        }
        2 if n > 1 => {
            s.inputs.rotate_left(1);
            what = "inputs: rotated";
        }
        3 if n > 1 => {
            // the sum stays the same
            let d = rand_f::<C::S>(r);
            s.inputs[0] = s.inputs[0] + &d;
            s.inputs[1] = s.inputs[1] - &d;
            what = "inputs: sum kept";
        }
        4 if n > 0 => {
            s.inputs.pop();
            what = "inputs: last missing";
        }
        5 if n > 0 => {
            s.inputs.remove(0);
            what = "inputs: first missing";
        }
        6 => {
            s.inputs.push(if r.bool() { C::S::zero() } else { C::S::one() });
            what = "inputs: one more";
        }
        7 => {
            s.inputs.insert(0, C::S::one());
            what = "inputs: the constant repeated";
        }
        8 if n > 0 => {
            s.inputs.clear();
            what = "inputs: none";
        }
        _ => {}
    }
    if what.is_empty() || s.inputs == b.inputs {
        return ctx.count("substitutions that change nothing", 1);
    }
    // with the commitment left to the verifier, that of the proof, and a matching one
    match r.below(3) {
        0 => {}
        1 => s.kc = Some(b.kc),
        _ => {
            let a = Asg::of(&b.prog, true).unwrap();
            s.kc = Some(b.params.commit(&ky_poly(&a, &s.inputs), false));
        }
    }
    judge(ctx, b, s, what);
}

fn commitment<C: PC>(ctx: &Ctx, b: &Base<C>, r: &mut Rng) {
    let mut s = stmt(b);
    let (c, what) = match r.below(7) {
        0 => (C::zero(), "commitment: identity"),
        1 => (-b.kc, "commitment: negated"),
        2 => (b.kc + b.kc, "commitment: doubled"),
        3 => (b.kc + *r.pick(&b.params.generators), "commitment: plus a generator"),
        4 => (rand_pt::<C>(r), "commitment: random"),
        5 => (b.proof.r_commitment, "commitment: that of the witness"),
        _ => (b.kc * &C::BETA_SCALAR, "commitment: endomorphism image"),
    };
    if pt_of(&c) == pt_of(&b.kc) {
        return ctx.count("substitutions that change nothing", 1);
    }
    s.kc = Some(c);
    judge(ctx, b, s, what);
}

fn other_circuit<C: PC>(ctx: &Ctx, b: &Base<C>, r: &mut Rng) {
    let mut s = stmt(b);
    let lins: Vec<usize> = (0..b.prog.ops.len()).filter(|i| matches!(b.prog.ops[*i], Op::Lin(_))).collect();
    let what = match r.below(6) {
        0 if !lins.is_empty() => {
            let i = *r.pick(&lins);
            s.circuit.falsify(i, rand_f(r));
            "circuit: a constant"
        }
        1 if !lins.is_empty() => {
            let i = *r.pick(&lins);
            if let Op::Lin(l) = &mut s.circuit.ops[i] {
                if l.is_empty() {
                    l.push((Coeff::One, 0));
                } else {
                    let j = r.below(l.len());
                    l[j].0 = rand_coeff(r);
                }
            }
            "circuit: a coefficient"
        }
        2 if !lins.is_empty() => {
            let i = *r.pick(&lins);
            s.circuit.ops.remove(i);
            "circuit: a constraint missing"
        }
        3 => {
            let l = s.circuit.rand_lc(r);
            s.circuit.ops.push(Op::Lin(l));
            "circuit: one more constraint"
        }
        4 => {
            // another constraint in front, moving all the others
            s.circuit.ops.insert(0, Op::Lin(vec![(Coeff::NegativeOne, 0), (Coeff::One, 0)]));
            "circuit: shifted"
        }
        _ => {
            let n = s.inputs.len();
            s.circuit = fitting::<C::S>(r, b.k, n).blank();
            s.inputs.truncate(s.circuit.inputs().len());
            "circuit: unrelated"
        }
    };
    // does the statement really differ?
    let n = b.params.n;
    let (x, y) = (rand_f::<C::S>(r), rand_f::<C::S>(r));
    let (a0, a1) = match (Asg::of(&b.circuit, false), Asg::of(&s.circuit, false)) {
        (Ok(a), Ok(c)) => (a, c),
        _ => return ctx.count("circuits that do not synthesise", 1),
    };
    if a1.n >= n || a1.q() >= b.params.d {
        return ctx.count("circuits that do not fit", 1);
    }
    let pos = |a: &Asg<C::S>| a.inputs.iter().map(|i| i.0).collect::<Vec<_>>();
    if a0.s(n, x, y) == a1.s(n, x, y) && pos(&a0) == pos(&a1) {
        return ctx.count("substitutions that change nothing", 1);
    }
    if r.bool() {
        s.kc = Some(b.kc);
    }
    judge(ctx, b, s, what);
}

fn leftovers<C: PC>(ctx: &Ctx, b: &Base<C>, r: &mut Rng, how: usize) {
    let mut s = stmt(b);
    let o = &mut s.old;
    let src = r.pick(&b.olds).clone();
    let what = match how {
        0 => {
            *o = src;
            "leftovers: those of another step"
        }
        1 => {
            o.s_new_commitment = src.s_new_commitment;
            "leftovers: s commitment of another step"
        }
        2 => {
            o.g_new = src.g_new;
            "leftovers: basis of another step"
        }
        3 => {
            o.y_new = src.y_new;
            "leftovers: point of another step"
        }
        4 => {
            o.challenges_sq_packed_new = src.challenges_sq_packed_new;
            "leftovers: challenges of another step"
        }
        5 => {
            o.s_new_commitment = if r.bool() { o.s_new_commitment + C::one() } else { -o.s_new_commitment };
            "leftovers: s commitment bent"
        }
        6 => {
            o.g_new = if r.bool() { o.g_new + C::one() } else { -o.g_new };
            "leftovers: basis bent"
        }
        7 => {
            o.y_new = o.y_new + &C::S::one();
            "leftovers: point bent"
        }
        8 => {
            let i = r.below(b.k);
            // a challenge that expands differently
            let c = &mut o.challenges_sq_packed_new[i];
            *c = C::S::from_u128(c.get_lower_128() ^ (1 << r.range(2, 127)));
            "leftovers: one challenge bent"
        }
        _ => {
            o.challenges_sq_packed_new.rotate_left(1);
            "leftovers: challenges rotated"
        }
    };
    let eq = pt_of(&o.s_new_commitment) == pt_of(&b.old.s_new_commitment)
        && pt_of(&o.g_new) == pt_of(&b.old.g_new)
        && o.y_new == b.old.y_new
        && expand::<C>(&o.challenges_sq_packed_new) == expand::<C>(&b.old.challenges_sq_packed_new);
    if eq {
        return ctx.count("substitutions that change nothing", 1);
    }
    judge(ctx, b, s, what);
}
fn expand<C: PC>(v: &[C::S]) -> Vec<C::S> {
    v.iter().map(|c| get_challenge_scalar(*c)).collect()
}

fn job<C: PC>(ctx: &Ctx, r: &mut Rng, which: usize) {
    let k = if which % 7 == 6 { 5 } else { 4 };
    let b = match base::<C>(ctx, r, k) {
        Some(b) => b,
        None => return,
    };
    for how in 0..9 {
        if how % 3 == which % 3 {
            inputs(ctx, &b, r, how);
        }
    }
    for _ in 0..2 {
        commitment(ctx, &b, r);
    }
    for _ in 0..3 {
        other_circuit(ctx, &b, r);
    }
    for how in 0..10 {
        if how % 3 == which % 3 {
            leftovers(ctx, &b, r, how);
        }
    }
    if which % 4 == 0 {
        let mut s = stmt(&b);
        s.params = &b.other_params;
        judge(ctx, &b, s, "parameters");
    }
}

fn main() {
    run(
        "P03",
        "one evaluation is one valid proof put before the complete verification procedure with one part of the statement substituted; distinct by substitution and program",
        45,
        1200,
        |ctx| {
            ctx.par("statements", ctx.scale(48, 4000), |i, r| {
                if i % 2 == 0 {
                    job::<Ec0>(ctx, r, i / 2)
                } else {
                    job::<Ec1>(ctx, r, i / 2)
                }
            });
        },
    )
}
