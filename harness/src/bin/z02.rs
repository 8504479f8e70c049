//! Z02: the step circuit, and the verifier around it, refuse every invalid previous step.
use halo::verif::*;
use halo::*;
use hv::exact::*;
use hv::forge::*;
use hv::logc::*;
use hv::proofs::*;
use hv::r1cs::*;
use hv::steps::*;
use hv::*;

const K: usize = 15;
type B<L> = <L as PC>::B;

/// an inner circuit under which the step is not a base step and not a free choice
fn setting(r: &mut Rng, max: usize) -> (Inner, Vec<u8>, Vec<u8>) {
    loop {
        let inner = Inner::random(r, max);
        if inner.len() == 0 || matches!(inner, Inner::Free(_)) {
            continue;
        }
        let old: Vec<u8> = (0..inner.len()).map(|_| r.u64() as u8).collect();
        let new = inner.next(&old, r);
        if old != inner.base() && new != inner.next(&inner.base(), r) {
            return (inner, old, new);
        }
    }
}

/// the circuit must refuse what it is given
fn refused<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(
    ctx: &Ctx,
    label: &str,
    p: &Params<L>,
    s: &Step<L, O>,
    inner: &Inner,
    info: &dyn Fn() -> String,
) {
    ctx.case_str(&format!("{} {}", label, info()));
    ctx.sample(|| format!("{} {}", label, info()));
    match ctx.guard(|| s.run(p, inner, false)) {
        Err(_) => ctx.count("refused by a panic", 1),
        Ok(Err(_)) => ctx.count("refused while synthesizing", 1),
        Ok(Ok(j)) => {
            ctx.count(label, 1);
            ctx.count("constraints judged", j.gates + j.lcs);
            if j.broken == 0 {
                ctx.violation(label, format!("the step circuit is satisfied: {}", info()));
            }
            if j.broken < 20 {
                ctx.count("refused by fewer than twenty constraints", 1);
            }
        }
    }
}

fn some_previous<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, payload: usize) -> Leftovers<L> {
    let mut used: Leftovers<L> = Leftovers::dummy(p);
    if r.bool() {
        let o2 = random_leftovers::<O>(r, K);
        if let Some(st) = Prev::<L, O>::prove(p, &used.clone(), vec![7; payload], used.clone(), o2, Deferred::dummy(K)) {
            if st.worked {
                used = st.left;
                ctx.count("previous steps of previous steps", 1);
            }
        }
    }
    used
}
fn some_deferred<F: PF>(r: &mut Rng, k: usize) -> Deferred<F> {
    valid_deferred(r, k, |r| F::from_u128(r.u128() | 1 << 127))
}
/// any index, the ends more often
fn index(r: &mut Rng, n: usize) -> usize {
    match r.below(5) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    }
}
fn bend<C: PC>(c: C, r: &mut Rng) -> (C, &'static str) {
    match r.below(4) {
        0 => (-c, "negated"),
        1 => (c * &C::BETA_SCALAR, "endomorphism"),
        2 => (c + C::one(), "next"),
        _ => (C::one() * rand_f::<C::S>(r), "random"),
    }
}
fn bend_f<F: PF>(v: F, r: &mut Rng) -> F {
    match r.below(4) {
        0 => -v,
        1 => v + &F::one(),
        2 => rand_f(r),
        _ => {
            let mut b = v.to_bytes();
            b[r.below(31)] ^= 1 << r.below(8);
            Option::<F>::from(F::from_bytes(&b)).unwrap_or(v - &F::one())
        }
    }
}
fn bend128<F: PF>(v: F, r: &mut Rng) -> F {
    let c = v.get_lower_128();
    F::from_u128(match r.below(3) {
        0 => c ^ 1 << r.below(127),
        1 => c ^ 1 << 126,
        _ => r.u128() | 1 << 127,
    })
}
/// one component of the deferred values replaced
fn bend_def<F: PF>(d: &mut Deferred<F>, which: usize, r: &mut Rng) -> String {
    let k = d.challenges_sq_packed_new.len();
    if which < 16 {
        let mut s = scalars(d);
        let (n, v) = (s[which].0, &mut *s[which].1);
        // the first four are 128-bit challenges
        *v = if which < 4 { bend128(*v, r) } else { bend_f(*v, r) };
        return n.to_string();
    }
    let i = index(r, k);
    let square = which < 18;
    let c = if which % 2 == 0 { &mut d.challenges_sq_packed_old } else { &mut d.challenges_sq_packed_new };
    c[i] = if square { packed_challenge(r, true) } else { packed_challenge(r, false) };
    format!("{} challenge {}{}", if which % 2 == 0 { "old" } else { "new" }, i, if square { "" } else { ", not a square" })
}
const DEF_PARTS: usize = 20;
fn bend_left<C: PC>(l: &mut Leftovers<C>, which: usize, r: &mut Rng) -> String {
    match which {
        0 => {
            let (p, how) = bend(l.s_new_commitment, r);
            l.s_new_commitment = p;
            format!("s {}", how)
        }
        1 => {
            let (p, how) = bend(l.g_new, r);
            l.g_new = p;
            format!("g {}", how)
        }
        2 => {
            l.y_new = bend128(l.y_new, r);
            "y".into()
        }
        _ => {
            let k = l.challenges_sq_packed_new.len();
            let i = index(r, k);
            l.challenges_sq_packed_new[i] = packed_challenge(r, true);
            format!("challenge {}", i)
        }
    }
}

/// deferred values of the previous step that the native check refuses
fn bad_deferred<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize) {
    let (inner, old, new) = setting(r, 4);
    let mut d: Deferred<<O as PC>::S> = some_deferred(r, K);
    let what = bend_def(&mut d, which, r);
    if want_def(&d, K) {
        return ctx.count("alterations that leave valid data", 1);
    }
    let used = some_previous::<L, O>(ctx, r, p, old.len());
    let o2 = random_leftovers::<O>(r, K);
    let prev = match Prev::<L, O>::prove(p, &used, old.clone(), used.clone(), o2, d) {
        Some(p) if p.worked => p,
        _ => return ctx.count("previous steps that could not be built", 1),
    };
    let s = Step::after(&prev, new);
    refused(ctx, "invalid deferred values", p, &s, &inner, &|| format!("{} altered; step after {} {:?} {:?}", what, L::CNAME, inner, old));
}

/// the leftovers named by the previous step are not those its proof continues from
fn bad_old_leftovers<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize, mode: usize) {
    let (inner, old, new) = setting(r, 4);
    let used = some_previous::<L, O>(ctx, r, p, old.len());
    let mut alt = used.clone();
    let what = if mode == 2 {
        // one coordinate kept, the other not
        let (c, how): (fn(L) -> L, _) = if which % 2 == 0 {
            (|p: L| -p, "negated")
        } else {
            (|p: L| p * &L::BETA_SCALAR, "endomorphism")
        };
        if which < 2 {
            alt.s_new_commitment = c(alt.s_new_commitment);
            format!("s {}", how)
        } else {
            alt.g_new = c(alt.g_new);
            format!("g {}", how)
        }
    } else {
        bend_left(&mut alt, which, r)
    };
    let differs = alt.to_bytes() != used.to_bytes();
    if !differs {
        return ctx.count("alterations that change nothing", 1);
    }
    let o2 = random_leftovers::<O>(r, K);
    let def = some_deferred(r, K);
    let prev = match Prev::<L, O>::prove(p, &used, old.clone(), alt.clone(), o2, def) {
        Some(p) if p.worked => p,
        _ => return ctx.count("previous steps that could not be built", 1),
    };
    let mode_name;
    let mut s = match mode {
        0 => {
            // the outputs claimed are those of the leftovers really used
            mode_name = "outputs of the true leftovers";
            Step::after(&prev, new)
        }
        1 => {
            // the outputs a verifier computes from the leftovers named
            mode_name = "outputs of the leftovers named";
            match ctx.guard(|| {
                Prev::<L, O>::of(p, prev.parts.proof.clone(), &alt, old.clone(), alt.clone(), prev.parts.oldproof2.clone(), prev.parts.deferred.clone())
            }) {
                Ok(Some(q)) if !q.worked => Step::after(&q, new),
                _ => return ctx.count("alterations the native verifier accepts or cannot judge", 1),
            }
        }
        _ => {
            // the witness points are those used, whatever the bits say
            mode_name = "witness contradicts the named leftovers";
            Step::after(&prev, new)
        }
    };
    if mode == 2 {
        let o = &mut s.parts.oldproof1;
        if which < 2 {
            o.s_new_commitment = L::faced(vec![alt.s_new_commitment.real(), used.s_new_commitment.real()]);
        } else {
            o.g_new = L::faced(vec![alt.g_new.real(), used.g_new.real()]);
        }
    }
    refused(ctx, "other leftovers than those used", p, &s, &inner, &|| format!("{} ({}); step after {} {:?} {:?}", what, mode_name, L::CNAME, inner, old));
}

fn honest<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>) -> Option<(Inner, Vec<u8>, Vec<u8>, Leftovers<L>, Prev<L, O>)> {
    let (inner, old, new) = setting(r, 4);
    let used = some_previous::<L, O>(ctx, r, p, old.len());
    let o2 = random_leftovers::<O>(r, K);
    let def = some_deferred(r, K);
    match Prev::<L, O>::prove(p, &used, old.clone(), used.clone(), o2, def) {
        Some(q) if q.worked => Some((inner, old, new, used, q)),
        _ => {
            ctx.count("previous steps that could not be built", 1);
            None
        }
    }
}

/// false outputs, a false previous statement, a false witness
fn bad_outputs<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize) {
    let (inner, old, new, used, prev) = match honest::<L, O>(ctx, r, p) {
        Some(x) => x,
        None => return,
    };
    let mut s = Step::after(&prev, new.clone());
    let mut label = "false outputs";
    let what = match which {
        0..=3 => {
            let w = bend_left(&mut s.new_leftovers, which, r);
            if s.new_leftovers.to_bytes() == prev.left.to_bytes() {
                return;
            }
            format!("new leftovers {}", w)
        }
        4..=7 => {
            let w = bend_left(&mut s.old_leftovers, which - 4, r);
            if s.old_leftovers.to_bytes() == prev.parts.oldproof2.to_bytes() {
                return;
            }
            format!("published previous leftovers {}", w)
        }
        8..=25 => {
            let w = bend_def(&mut s.deferred, which - 8, r);
            if s.deferred.to_bytes() == prev.def.to_bytes() {
                return;
            }
            format!("new deferred {}", w)
        }
        26..=31 => {
            label = "previous statement altered";
            let mut q = prev.clone();
            let w = match which {
                26 | 27 => {
                    let i = r.below(old.len());
                    q.parts.payload[i] ^= 1 << r.below(8);
                    "payload"
                }
                28 | 29 => {
                    q.parts.deferred = some_deferred(r, K);
                    "deferred values"
                }
                _ => {
                    q.parts.oldproof2 = random_leftovers::<O>(r, K);
                    "other leftovers"
                }
            };
            let new = inner.next(&q.parts.payload, r);
            if which % 2 == 1 {
                let again = ctx.guard(|| {
                    Prev::<L, O>::of(
                        p,
                        q.parts.proof.clone(),
                        &used,
                        q.parts.payload.clone(),
                        q.parts.oldproof1.clone(),
                        q.parts.oldproof2.clone(),
                        q.parts.deferred.clone(),
                    )
                });
                q = match again {
                    Ok(Some(q)) if !q.worked => q,
                    _ => return ctx.count("alterations the native verifier accepts or cannot judge", 1),
                };
            }
            s = Step::after(&q, new);
            format!("{}, outputs {}", w, if which % 2 == 1 { "recomputed" } else { "kept" })
        }
        32 | 33 => {
            label = "payload relation violated";
            let i = r.below(new.len());
            s.payload[i] ^= 1 << r.below(8);
            if s.payload == inner.next(&inner.base(), r) {
                return;
            }
            format!("payload {:?}", s.payload)
        }
        34 => {
            // a valid previous step passed off as no previous step at all
            label = "base case with another payload";
            s.base_case = true;
            "honest outputs".into()
        }
        _ => {
            label = "other fork values";
            let i = index(r, K);
            s.forks[i] ^= 1 << r.below(3);
            format!("fork {}", i)
        }
    };
    refused(ctx, label, p, &s, &inner, &|| format!("{}; step after {} {:?} {:?} -> {:?}", what, L::CNAME, inner, old, new));
}

/// proofs by a prover that lies as well as it can, and altered proofs
fn bad_proofs<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize) {
    let (inner, old, new) = setting(r, 3);
    let dummy = Old::dummy(p);
    let o2 = random_leftovers::<O>(r, K);
    let def: Deferred<<O as PC>::S> = some_deferred(r, K);
    let one = <L as PC>::S::one();
    let (lies, what): (Vec<(&'static str, Prev<L, O>)>, String) = {
        let mut lie = Lie::none();
        let mut before = dummy.clone();
        let mut dmg: Box<dyn Fn(&mut hv::circ::Asg<<L as PC>::S>)> = Box::new(|_| {});
        let what;
        let sc = scalings::<L>();
        match which {
            0..=4 => {
                let cover = [Cover::TxPos, Cover::Rxy, Cover::SxCur, Cover::SCur, Cover::SCurAndC][which];
                lie.cover = cover;
                dmg = Box::new(move |a| {
                    let i = a.n / 2;
                    a.c[i] = a.c[i] + &one;
                });
                what = format!("{:?}", cover);
            }
            5 | 6 => {
                let j = r.below(before.s.len());
                before.s[j] = before.s[j] + &one;
                before.left.s_new_commitment = multiexp(&before.s, &p.generators[..before.s.len()]);
                lie.old = if which == 5 { OldClaim::Demanded } else { OldClaim::Committed };
                what = format!("false old s, {:?}", lie.old);
            }
            7 => {
                let j = r.below(before.g.len());
                before.g[j] = before.g[j] + &one;
                before.left.g_new = multiexp(&before.g, &p.generators);
                lie.old = OldClaim::Demanded;
                what = "false old g".to_string();
            }
            _ => {
                let (j, f) = sc[which - 8];
                lie.scaled = Some((j, f));
                before = scaled_old(p, &dummy, j, f);
                if j == 1 {
                    dmg = Box::new(move |a| *a = scaled_gates(a, f));
                }
                what = format!("opening {} scaled by {:?}", j, f);
            }
        }
        let made = ctx.guard(|| Prev::<L, O>::forge(p, &before, old.clone(), before.left.clone(), o2, def, &lie, &*dmg, &mut r.fork()));
        (made.unwrap_or_default(), what)
    };
    if lies.is_empty() {
        ctx.count("lies that could not be told", 1);
    }
    for (how, prev) in lies {
        if prev.worked {
            // true claims: what is false about them is deferred
            ctx.count("lies left to the deferred values", 1);
            ctx.check(!prev.def.verify(K) || which > 4, "deferred values of a lie", || format!("{} ({})", what, how));
            continue;
        }
        let s = Step::after(&prev, new.clone());
        refused(ctx, "forged proof", p, &s, &inner, &|| format!("{} ({}); step after {} {:?} {:?}", what, how, L::CNAME, inner, old));
    }
}

fn bend_proof<L: PC>(q: &mut Proof<L>, which: usize, r: &mut Rng) -> String {
    let ip = &mut q.inner_product;
    let k = ip.rounds.len();
    let round = index(r, k);
    let j = r.below(5);
    let points: Vec<(&str, &mut L)> = vec![
        ("r", &mut q.r_commitment),
        ("s_cur", &mut q.s_cur_commitment),
        ("t+", &mut q.t_positive_commitment),
        ("t-", &mut q.t_negative_commitment),
        ("c", &mut q.c_commitment),
        ("s_new", &mut q.s_new_commitment),
        ("g", &mut ip.g),
        ("L", &mut ip.rounds[round].L[j]),
    ];
    for (i, (n, v)) in points.into_iter().enumerate() {
        if i == which {
            let (x, how) = bend(*v, r);
            *v = x;
            return format!("{} {}", n, how);
        }
    }
    if which == 8 {
        let (x, how) = bend(ip.rounds[round].R[j], r);
        ip.rounds[round].R[j] = x;
        return format!("R_{} of round {} {}", j, round, how);
    }
    let values: Vec<(&str, &mut <L as Curve>::Scalar)> = vec![
        ("rx", &mut q.rx_opening),
        ("rxy", &mut q.rxy_opening),
        ("sx_old", &mut q.sx_old_opening),
        ("sx_cur", &mut q.sx_cur_opening),
        ("t+ opening", &mut q.tx_positive_opening),
        ("t- opening", &mut q.tx_negative_opening),
        ("sx_new", &mut q.sx_new_opening),
        ("a", &mut ip.a[j]),
        ("l", &mut ip.rounds[round].l[j]),
    ];
    for (i, (n, v)) in values.into_iter().enumerate() {
        if i + 9 == which {
            *v = bend_f::<L::S>(*v, r);
            return n.to_string();
        }
    }
    ip.rounds[round].r[j] = bend_f::<L::S>(ip.rounds[round].r[j], r);
    "r of a round".to_string()
}
const PROOF_PARTS: usize = 19;
fn altered_proofs<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize) {
    let (inner, old, new, used, prev) = match honest::<L, O>(ctx, r, p) {
        Some(x) => x,
        None => return,
    };
    let mut proof = prev.parts.proof.clone();
    let what = bend_proof(&mut proof, which, r);
    let again = ctx.guard(|| {
        Prev::<L, O>::of(p, proof, &used, old.clone(), used.clone(), prev.parts.oldproof2.clone(), prev.parts.deferred.clone())
    });
    match again {
        Ok(Some(q)) if !q.worked => {
            let s = Step::after(&q, new.clone());
            refused(ctx, "altered proof", p, &s, &inner, &|| format!("{}; step after {} {:?} {:?}", what, L::CNAME, inner, old));
        }
        _ => ctx.count("alterations the native verifier accepts or cannot judge", 1),
    }
}

// ---------------------------------------------------------------- witnesses of an adversary

/// An honest step's constraints, kept; every public value altered in turn, with a search
/// for a witness that satisfies the circuit all the same.
fn flips<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, n: usize) {
    let (inner, _old, new, _used, prev) = match honest::<L, O>(ctx, r, p) {
        Some(x) => x,
        None => return,
    };
    let s = Step::after(&prev, new.clone());
    let mut rec: Rec<B<L>> = Rec::new();
    match ctx.guard(|| s.synthesize(p, &inner, &mut rec)) {
        Ok(Ok(())) => {}
        _ => return ctx.count("honest steps that could not be built", 1),
    }
    if rec.ok().is_some() {
        return ctx.count("honest steps that are not satisfied", 1);
    }
    let f = Forger::new(&rec);
    let fixed = rec.inputs.clone();
    let bud = Budget { steps: 3000, branches: 60 };
    // where the fields of the public data are
    let nb = 8 * new.len();
    let lo = 1024 + 128 * (K + 1);
    let mut fields: Vec<(String, usize, usize)> = vec![("payload".into(), 0, nb)];
    for (w, at) in [("previous leftovers", nb), ("new leftovers", nb + lo)] {
        let mut at = at;
        for (n, l) in [("s.x", 256), ("s.y", 256), ("y", 128), ("g.x", 256), ("g.y", 256)] {
            fields.push((format!("{} {}", w, n), at, l));
            at += l;
        }
        for i in 0..K {
            fields.push((format!("{} challenge {}", w, i), at, 128));
            at += 128;
        }
    }
    let mut at = nb + 2 * lo;
    for i in 0..4 {
        fields.push((format!("deferred challenge point {}", i), at, 128));
        at += 128;
    }
    for i in 0..6 {
        fields.push((format!("deferred opening {}", i), at, 256));
        at += 256;
    }
    for i in 0..K {
        fields.push((format!("deferred old challenge {}", i), at, 128));
        at += 128;
    }
    fields.push(("deferred g_old".into(), at, 256));
    at += 256;
    for i in 0..K {
        fields.push((format!("deferred new challenge {}", i), at, 128));
        at += 128;
    }
    for i in 0..5 {
        fields.push((format!("deferred b {}", i), at, 256));
        at += 256;
    }
    if at != fixed.len() {
        // another layout: single bits only
        fields = (0..fixed.len() / 64).map(|i| (format!("bits from {}", 64 * i), 64 * i, 64)).collect();
    }
    let b1 = B::<L>::one();
    for i in 0..n {
        let (name, at, len) = fields[if i < fields.len() { i } else { r.below(fields.len()) }].clone();
        let flip = |x: usize| (fixed[x], b1 - &rec.vals[fixed[x]]);
        let (how, devs): (&str, Vec<(usize, B<L>)>) = match r.below(4) {
            0 => ("all bits", (at..at + len).map(|x| flip(x)).collect()),
            1 => ("random bits", {
                let mut v: Vec<_> = (at..at + len).filter(|_| r.bool()).map(|x| flip(x)).collect();
                v.push(flip(at + len - 1));
                v.sort_by_key(|x| x.0);
                v.dedup_by_key(|x| x.0);
                v
            }),
            _ => {
                let x = at + index(r, len);
                ("one bit", vec![flip(x)])
            }
        };
        ctx.case_str(&format!("{} {} {:?} {:?}", L::CNAME, name, how, devs.iter().map(|d| d.0).collect::<Vec<_>>()));
        ctx.count("public values altered under a kept circuit", 1);
        // a free inner circuit or the base payload are excluded by `setting`
        if let Some(v) = f.attempt(&rec.vals, &fixed, &devs, &bud, r) {
            let changed: Vec<String> = (0..v.len()).filter(|i| v[*i] != rec.vals[*i]).take(6).map(|i| format!("v{}", i)).collect();
            ctx.violation("altered public values", format!("{} ({}) of a step after {}: satisfying assignment, changed {:?}", name, how, L::CNAME, changed));
            return;
        }
    }
}

/// The component(s) of the circuit that check the previous deferred values, once all bits
/// are given: every satisfying assignment, for invalid values.
fn deferred_exact<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize) {
    let k = p.k;
    let (inner, old, new) = setting(r, 2);
    let left = random_leftovers::<L>(r, k);
    let toy = Toy { n: 1, values: Some(vec![<L as PC>::S::one()]) };
    let proof = match Proof::new::<_, Basic>(p, &toy, &Leftovers::dummy(p)) {
        Ok((p, _)) => p,
        Err(_) => return,
    };
    let good: Deferred<<O as PC>::S> = some_deferred(r, k);
    let mut bad = good.clone();
    let mut known = None;
    let what = match which {
        0..=17 => bend_def(&mut bad, which, r),
        18 => {
            bad.gx_old_opening = -bad.gx_old_opening;
            known = Some("deferred-root-sign");
            "g_old negated".into()
        }
        19 => {
            for (_, v) in scalars(&mut bad).into_iter().skip(11) {
                *v = -*v;
            }
            known = Some("deferred-root-sign");
            "every b negated".into()
        }
        20 => {
            let i = 11 + r.below(5);
            let mut s = scalars(&mut bad);
            *s[i].1 = -*s[i].1;
            "one b negated".into()
        }
        _ => {
            // two alterations at once
            let a = bend_def(&mut bad, r.below(18), r);
            let b = bend_def(&mut bad, r.below(18), r);
            format!("{} and {}", a, b)
        }
    };
    if want_def(&bad, k) {
        return ctx.count("alterations that leave valid data", 1);
    }
    if [(true, false), (false, true), (true, true)].iter().any(|s| want_def(&negated(&bad, s.0, s.1), k)) {
        known = Some("deferred-root-sign");
    }
    let step = |d: &Deferred<<O as PC>::S>| deferred_step::<L, O>(ctx, p, &inner, &old, &new, &left, &proof, d);
    let (g, b) = match (step(&good), step(&bad)) {
        (Some(g), Some(b)) => (g, b),
        _ => return ctx.count("refused while synthesizing", 1),
    };
    if g.gates.len() != b.gates.len() || g.lcs.len() != b.lcs.len() {
        return ctx.count("different shapes", 1);
    }
    ctx.case_str(&format!("{} k={} {} {:?}", L::CNAME, k, what, bad.to_bytes()));
    let bits = bit_vars(&b);
    let comp = components(&b, &bits);
    let bg = broken(&g, &comp);
    let bb = broken(&b, &comp);
    let mine: Vec<usize> = bb.iter().cloned().filter(|c| !bg.contains(c)).collect();
    if mine.is_empty() {
        return ctx.violation("invalid deferred values, all components", format!("{} k={} {}: nothing breaks that a valid step would not break: {:?}", L::CNAME, k, what, bad.to_bytes()));
    }
    let mut all = true;
    let mut done = true;
    for c in &mine {
        let (sub, fixed) = extract(&b, &comp, &bits, *c);
        ctx.max("variables of a component", sub.vals.len() as u64);
        let wrong = |_: &[B<L>]| Some(String::new());
        let e = exact(&sub, &fixed, &[], 4000, 6000, r, &wrong);
        ctx.count("nodes of exact searches", e.nodes);
        done &= e.complete;
        if e.wrong.is_some() {
            continue;
        }
        // unsatisfiable, as far as explored; local repairs as well
        let f = Forger::new(&sub);
        if f.repair(&sub.vals, &fixed, &Budget { steps: 4000, branches: 60 }, r).is_none() {
            all = false;
            if e.complete {
                break;
            }
        }
    }
    ctx.count(if done { "altered deferred values decided exhaustively" } else { "altered deferred values decided in part" }, 1);
    if all {
        let sig = known.unwrap_or("invalid deferred values, other witness");
        ctx.violation(sig, format!("{} k={} {}: there is a witness for {:?}", L::CNAME, k, what, bad.to_bytes()));
    } else if known.is_some() {
        ctx.count("sign changes refused", 1);
    }
}

/// Deviate inside the component that checks the previous deferred values, all bits given but
/// those of one value: whatever else that value can be must be valid as well.
fn deferred_inside<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize) {
    let k = p.k;
    let (inner, old, new) = setting(r, 2);
    let left = random_leftovers::<L>(r, k);
    let toy = Toy { n: 1, values: Some(vec![<L as PC>::S::one()]) };
    let proof = match Proof::new::<_, Basic>(p, &toy, &Leftovers::dummy(p)) {
        Ok((p, _)) => p,
        Err(_) => return,
    };
    let step = |d: &Deferred<<O as PC>::S>| deferred_step::<L, O>(ctx, p, &inner, &old, &new, &left, &proof, d);
    let good: Deferred<<O as PC>::S> = some_deferred(r, k);
    let mut other = good.clone();
    let name;
    {
        let mut s = scalars(&mut other);
        name = s[which].0;
        *s[which].1 = rand_f(r);
    }
    let (g, b) = match (step(&good), step(&other)) {
        (Some(g), Some(b)) => (g, b),
        _ => return ctx.count("refused while synthesizing", 1),
    };
    if g.gates.len() != b.gates.len() || g.lcs.len() != b.lcs.len() {
        return ctx.count("different shapes", 1);
    }
    let value = |d: &Deferred<<O as PC>::S>| *scalars(&mut d.clone())[which].1;
    let bits = bit_vars(&b);
    let comp = components(&b, &bits);
    let bg = broken(&g, &comp);
    let mut cs: Vec<usize> = broken(&b, &comp).into_iter().filter(|c| !bg.contains(c)).collect();
    cs.sort();
    for c in cs {
        let (mut sub, fixed) = extract(&g, &comp, &bits, c);
        let (subb, _) = extract(&b, &comp, &bits, c);
        let isbit: std::collections::HashSet<usize> = fixed.iter().cloned().collect();
        let mine = |v: usize| isbit.contains(&v) && sub.vals[v] != subb.vals[v];
        let mut packings = vec![];
        let mut lcs = vec![];
        for l in &sub.lcs {
            if l.iter().any(|t| mine(t.0)) {
                let mut free: Vec<usize> = l.iter().map(|t| t.0).filter(|v| *v != 0 && !isbit.contains(v)).collect();
                free.sort();
                free.dedup();
                match &free[..] {
                    [x] if sub.vals[*x] == value(&good) => packings.push(*x),
                    _ => lcs.push(l.clone()),
                }
            } else {
                lcs.push(l.clone());
            }
        }
        if packings.is_empty() {
            ctx.count("values whose packing was not recognised", 1);
            continue;
        }
        sub.lcs = lcs;
        let wrong = |vals: &[B<L>]| -> Option<String> {
            for x in &packings {
                if vals[*x] != value(&good) {
                    let mut d = good.clone();
                    *scalars(&mut d)[which].1 = vals[*x];
                    let harmless = want_def(&d, k) || [(true, false), (false, true), (true, true)].iter().any(|s| want_def(&negated(&d, s.0, s.1), k));
                    if !harmless {
                        return Some(format!("{} can be {:?}", name, vals[*x]));
                    }
                }
            }
            None
        };
        ctx.case_str(&format!("inside {} k={} {} {:?}", L::CNAME, k, name, good.to_bytes()));
        let o = attack(&sub, &fixed, &[], ctx.scale(700, 20_000), r, &|r, v| if r.bool() { vec![rand_f(r)] } else { vec![v + B::<L>::one()] }, &wrong);
        ctx.count("deviations inside the deferred checks", o.deviations);
        ctx.count("of them repaired", o.repaired);
        if let Some(w) = o.forged {
            return ctx.violation("deferred value not determined", format!("{} k={}: {}", L::CNAME, k, w));
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn deferred_step<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(
    ctx: &Ctx,
    p: &Params<L>,
    inner: &Inner,
    old: &[u8],
    new: &[u8],
    left: &Leftovers<L>,
    proof: &Proof<L>,
    d: &Deferred<<O as PC>::S>,
) -> Option<Rec<B<L>>> {
    let k = p.k;
    let s = Step::<L, O> {
        parts: RecursiveParts {
            proof: proof.clone(),
            oldproof1: left.clone(),
            oldproof2: Leftovers::dummy_of(k),
            deferred: d.clone(),
            payload: old.to_vec(),
        },
        base_case: false,
        payload: new.to_vec(),
        forks: vec![0; k],
        old_leftovers: Leftovers::dummy_of(k),
        new_leftovers: left.clone(),
        deferred: Deferred::dummy(k),
    };
    let mut rec = Rec::new();
    match ctx.guard(|| s.synthesize(p, inner, &mut rec)) {
        Ok(Ok(())) => Some(rec),
        _ => None,
    }
}
fn negated<F: PF>(d: &Deferred<F>, old: bool, new: bool) -> Deferred<F> {
    let mut d = d.clone();
    for (i, (_, v)) in scalars(&mut d).into_iter().enumerate() {
        if (i == 10 && old) || (i > 10 && new) {
            *v = -*v;
        }
    }
    d
}

/// connected components of the constraints, through the variables that are not bits
fn components<F: PF>(rec: &Rec<F>, bits: &[bool]) -> Vec<usize> {
    let n = rec.vals.len();
    let mut up: Vec<usize> = (0..n).collect();
    fn find(up: &mut Vec<usize>, mut x: usize) -> usize {
        while up[x] != x {
            up[x] = up[up[x]];
            x = up[x];
        }
        x
    }
    let mut join = |vs: &mut dyn Iterator<Item = usize>| {
        let mut first = None;
        for v in vs {
            if v == 0 || bits[v] {
                continue;
            }
            match first {
                None => first = Some(v),
                Some(f) => {
                    let (a, b) = (find(&mut up, f), find(&mut up, v));
                    up[a] = b;
                }
            }
        }
    };
    for g in &rec.gates {
        join(&mut [g.0, g.1, g.2].iter().cloned());
    }
    for l in &rec.lcs {
        join(&mut l.iter().map(|t| t.0));
    }
    (0..n).map(|i| if i == 0 || bits[i] { 0 } else { find(&mut up, i) }).collect()
}
fn of<'a>(comp: &[usize], vs: &mut dyn Iterator<Item = usize>) -> usize {
    vs.map(|v| comp[v]).find(|c| *c != 0).unwrap_or(0)
}
fn broken<F: PF>(rec: &Rec<F>, comp: &[usize]) -> std::collections::HashSet<usize> {
    let mut out = std::collections::HashSet::new();
    for g in &rec.gates {
        if rec.vals[g.0] * &rec.vals[g.1] != rec.vals[g.2] {
            out.insert(of(comp, &mut [g.0, g.1, g.2].iter().cloned()));
        }
    }
    for l in &rec.lcs {
        if rec.eval(l, &rec.vals) != F::zero() {
            out.insert(of(comp, &mut l.iter().map(|t| t.0)));
        }
    }
    out
}
/// the constraints of one component, over the variables they mention; the bits are fixed
fn extract<F: PF>(rec: &Rec<F>, comp: &[usize], bits: &[bool], c: usize) -> (Rec<F>, Vec<usize>) {
    let mut out = Rec::new();
    let mut map: std::collections::HashMap<usize, usize> = Default::default();
    map.insert(0, 0);
    let mut fixed = vec![];
    let mut var = |v: usize, out: &mut Rec<F>| -> usize {
        *map.entry(v).or_insert_with(|| {
            out.vals.push(rec.vals[v]);
            out.kinds.push(rec.kinds[v]);
            if bits[v] {
                fixed.push(out.vals.len() - 1);
            }
            out.vals.len() - 1
        })
    };
    for g in &rec.gates {
        if of(comp, &mut [g.0, g.1, g.2].iter().cloned()) == c {
            let t = (var(g.0, &mut out), var(g.1, &mut out), var(g.2, &mut out));
            out.gates.push(t);
        }
    }
    for l in &rec.lcs {
        if of(comp, &mut l.iter().map(|t| t.0)) == c {
            let l: Vec<(usize, F)> = l.iter().map(|(v, k)| (var(*v, &mut out), *k)).collect();
            out.lcs.push(l);
        }
    }
    (out, fixed)
}
trait DummyOf {
    fn dummy_of(k: usize) -> Self;
}
impl<C: PC> DummyOf for Leftovers<C> {
    fn dummy_of(k: usize) -> Self {
        Leftovers {
            s_new_commitment: C::zero(),
            y_new: C::S::zero(),
            g_new: C::one(),
            challenges_sq_packed_new: vec![C::S::from_u128(1 << 127); k],
        }
    }
}

/// base steps (small parameters) with a payload that does not follow from the base payload
fn base_payload<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, p: &Params<L>, which: usize) {
    let k = p.k;
    let (mut inner, mut old, mut new) = setting(r, 3);
    for _ in 0..if which > 0 { 100 } else { 0 } {
        // the base payload but for one bit
        let (i2, _, _) = setting(r, 3);
        let base = i2.base();
        let at: Vec<usize> = (0..8 * base.len()).filter(|i| (base[i / 8] >> (i % 8)) & 1 == (which - 1) as u8).collect();
        if at.is_empty() {
            continue;
        }
        let i = *r.pick(&at);
        let mut o2 = base.clone();
        o2[i / 8] ^= 1 << (i % 8);
        let n2 = i2.next(&o2, r);
        if n2 != i2.next(&base, r) {
            inner = i2;
            old = o2;
            new = n2;
            break;
        }
    }
    let info = || format!("{} k={} {:?} claims to start from {:?}, payload {:?}", L::CNAME, k, inner, old, new);
    // claiming another base payload in the witness
    let s = Step::<L, O> {
        parts: RecursiveParts {
            proof: match Proof::new::<_, Basic>(p, &Toy { n: 1, values: Some(vec![<L as PC>::S::one()]) }, &Leftovers::dummy(p)) {
                Ok((p, _)) => p,
                Err(_) => return,
            },
            oldproof1: Leftovers::dummy(p),
            oldproof2: Leftovers::dummy_of(k),
            deferred: Deferred::dummy(k),
            payload: old.clone(),
        },
        base_case: true,
        payload: new.clone(),
        forks: vec![0; k],
        old_leftovers: random_leftovers::<O>(r, k),
        new_leftovers: Leftovers::dummy(p),
        deferred: Deferred::dummy(k),
    };
    let mut rec: Rec<B<L>> = Rec::new();
    ctx.case_str(&info());
    ctx.count("base steps from another payload", 1);
    match ctx.guard(|| s.synthesize(p, &inner, &mut rec)) {
        Ok(Ok(())) => {}
        _ => return ctx.count("refused while synthesizing", 1),
    }
    if rec.ok().is_none() {
        return ctx.violation("base case with another payload", info());
    }
    let f = Forger::new(&rec);
    let fixed = rec.inputs.clone();
    if (0..6).any(|_| f.repair(&rec.vals, &fixed, &Budget { steps: 3000, branches: 60 }, r).is_some()) {
        ctx.violation("base case with another payload", format!("with a repaired witness: {}", info()));
    }
}

// ---------------------------------------------------------------- around the circuit

/// Base steps whose public outputs (which the circuit leaves free) are false, proved for
/// real; and lies of the proof itself. The verifier around the proof must refuse.
fn outer<A: PC<B = <D as PC>::S> + LogCurve, D: PC<B = <A as PC>::S> + LogCurve>(ctx: &Ctx, r: &mut Rng, pa: &Params<A>, pd: &Params<D>, which: usize) {
    let k = pa.k;
    let (inner, _, wrong_payload) = setting(r, 3);
    let mut payload = inner.next(&inner.base(), r);
    let old = Leftovers::<A>::dummy(pa);
    let mut new = Leftovers::<D>::dummy(pd);
    let mut def = Deferred::<<D as PC>::S>::dummy(k);
    let what = match which {
        0 => {
            let part = r.below(DEF_PARTS - 2);
            def = some_deferred(r, k);
            let w = bend_def(&mut def, part, r);
            if want_def(&def, k) {
                return;
            }
            format!("deferred values with {} altered", w)
        }
        1 => {
            let w = if r.bool() { bend_left(&mut new, 1, r) } else { bend_left(&mut new, 0, r) };
            if new.to_bytes() == Leftovers::<D>::dummy(pd).to_bytes() {
                new.s_new_commitment = D::one();
            }
            format!("leftovers of the other curve with {} altered", w)
        }
        2 => "commitment to another s(X, y_new) left behind".to_string(),
        _ => {
            payload = wrong_payload.clone();
            format!("payload that does not follow{}", if which == 4 { ", relation covered by a false opening" } else { "" })
        }
    };
    let info = || format!("base step on {} k={} {:?} {:?}: {}", A::CNAME, k, inner, payload, what);
    ctx.case_str(&info());
    ctx.sample(|| info());
    let forks = vec![0; k];
    let circuit = StepCircuit::<A, D, Inner> {
        params: pd,
        base_case: Some(true),
        inner_circuit: &inner,
        proof: None,
        new_payload: &payload,
        forkvalues: Some(&forks),
        old_leftovers: Some(old.clone()),
        new_leftovers: Some(new.clone()),
        deferred: Some(def.clone()),
    };
    let proof = if which > 1 {
        let made = ctx.guard(|| {
            let a = hv::circ::Asg::of(&circuit, true).ok()?;
            let mut b = payload.clone();
            b.extend(old.to_bytes());
            b.extend(new.to_bytes());
            b.extend(def.to_bytes());
            let lie = Lie { false_new_s: which == 2, false_new_s_same_x: which == 2, cover: if which == 4 { Cover::TxPos } else { Cover::Nothing }, ..Lie::none() };
            forge(pa, &a, &bits_f::<<A as PC>::S>(&b), &Old::dummy(pa), &lie, &mut r.fork()).map(|f| f.proof)
        });
        match made {
            Ok(Some(p)) => p,
            _ => return ctx.count("lies that could not be told", 1),
        }
    } else {
        match ctx.guard(|| Proof::new::<_, Basic>(pa, &circuit, &old)) {
            Ok(Ok((p, _))) => p,
            _ => return ctx.count("the prover refuses", 1),
        }
    };
    let rp = RecursiveParts {
        proof,
        oldproof1: old,
        oldproof2: new,
        deferred: def,
        payload: payload.clone(),
    }
    .assemble();
    ctx.count("false recursive proofs judged", 1);
    match ctx.guard(|| rp.verify(pa, pd, &inner)) {
        Ok(Ok(true)) => ctx.violation("recursive proof", format!("accepted: {}", info())),
        Ok(Ok(false)) => ctx.count("recursive proofs refused", 1),
        _ => ctx.count("recursive proofs refused with an error", 1),
    }
}

fn main() {
    run(
        "Z02",
        "one evaluation is one false step (previous deferred values, leftovers, statement, proof, outputs, payload or base-case flag altered) whose constraints are all evaluated, or one altered public value under a kept circuit with a search for another witness, or one false recursive proof verified; distinct by alteration and history",
        420,
        1500,
        |ctx| {
            ctx.assume("previous steps at k = 15 are proofs of a circuit with the same public inputs as a step and no other content");
            ctx.assume("the old proof's curve is represented in the exponent, over generators of known discrete logarithm; coordinates are those of the real curve");
            ctx.assume("searches for other witnesses are local repairs, or exhaustive for the components that check the deferred values with all bits given");
            let mut r = ctx.rng("params", 0);
            let flip = r.bool();
            let rs: Vec<Rng> = (0..5).map(|_| r.fork()).collect();
            let (s0, s1) = (rand_f::<Fp>(&mut r), rand_f::<Fq>(&mut r));
            std::thread::scope(|s| {
                let h = std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let p0: Params<Log0> = log_params_part(22, s0, 18_600);
                        let p1: Params<Log1> = log_params_part(22, s1, 18_600);
                        let mut round = 0;
                        let mut rs = rs;
                        loop {
                            std::thread::scope(|s| {
                                let mut hs = vec![];
                                for (i, r) in rs.iter_mut().enumerate() {
                                    let (p0, p1) = (&p0, &p1);
                                    hs.push(
                                        std::thread::Builder::new()
                                            .stack_size(512 << 20)
                                            .spawn_scoped(s, move || {
                                                if flip ^ (round % 2 == 1) ^ (i % 2 == 1) {
                                                    outer::<Log0, Log1>(ctx, r, p0, p1, i)
                                                } else {
                                                    outer::<Log1, Log0>(ctx, r, p1, p0, i)
                                                }
                                            })
                                            .unwrap(),
                                    );
                                }
                                for h in hs {
                                    if let Err(e) = h.join() {
                                        std::panic::resume_unwind(e);
                                    }
                                }
                            });
                            round += 1;
                            if ctx.quick() || ctx.done() {
                                break;
                            }
                        }
                    })
                    .unwrap();
                let l4: (Params<Log0>, Params<Log1>) = (
                    log_params_part(4, rand_f::<Fp>(&mut r), 16),
                    log_params_part(4, rand_f::<Fq>(&mut r), 16),
                );
                ctx.par("deferred, every witness", ctx.scale(44, 4000), |i, r| {
                    if i % 2 == 0 {
                        deferred_exact::<Log0, Ec1>(ctx, r, &l4.0, (i / 2) % 22)
                    } else {
                        deferred_exact::<Log1, Ec0>(ctx, r, &l4.1, (i / 2) % 22)
                    }
                });
                ctx.par("deferred, from inside", ctx.scale(8, 400), |i, r| {
                    // the values checked by an equation with the challenges
                    let which = [10, 11, 10, 12, 13, 14, 15, 10][(i / 2 + 4 * (i % 2)) % 8];
                    if i % 2 == 0 {
                        deferred_inside::<Log0, Ec1>(ctx, r, &l4.0, which)
                    } else {
                        deferred_inside::<Log1, Ec0>(ctx, r, &l4.1, which)
                    }
                });
                ctx.par("base payload", ctx.scale(12, 600), |i, r| {
                    let which = (i / 2) % 3;
                    if i % 2 == 0 {
                        base_payload::<Log0, Ec1>(ctx, r, &l4.0, which)
                    } else {
                        base_payload::<Log1, Ec0>(ctx, r, &l4.1, which)
                    }
                });
                let p0: Params<Log0> = log_params_part(K, rand_f::<Fp>(&mut r), 16_000);
                let p1: Params<Log1> = log_params_part(K, rand_f::<Fq>(&mut r), 16_000);
                let side = |i: usize, r: &mut Rng, family: usize, which: usize| {
                    macro_rules! go {
                        ($l:ty, $o:ty, $p:expr) => {
                            match family {
                                0 => bad_deferred::<$l, $o>(ctx, r, $p, which),
                                1 => bad_old_leftovers::<$l, $o>(ctx, r, $p, which % 4, which / 4),
                                2 => bad_outputs::<$l, $o>(ctx, r, $p, which),
                                3 => bad_proofs::<$l, $o>(ctx, r, $p, which),
                                4 => altered_proofs::<$l, $o>(ctx, r, $p, which),
                                _ => flips::<$l, $o>(ctx, r, $p, 150),
                            }
                        };
                    }
                    if i % 2 == 0 {
                        go!(Log0, Ec1, &p0)
                    } else {
                        go!(Log1, Ec0, &p1)
                    }
                };
                let mut todo: Vec<(usize, usize)> = vec![(5, 0), (5, 1)];
                for (f, n) in [(3, 18), (1, 12), (0, DEF_PARTS), (2, 36), (4, PROOF_PARTS)] {
                    for w in 0..n {
                        todo.push((f, w));
                    }
                }
                let shift = r.below(2);
                let n = todo.len();
                ctx.par("step", ctx.scale(n, 40 * n), |i, r| {
                    let (f, w) = todo[i % n];
                    side(i + i / n + shift, r, f, w)
                });
                h.join().unwrap();
            });
        },
    )
}
