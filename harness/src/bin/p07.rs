//! P07: whatever the data handed to the verification routines, they return a verdict.
use halo::verif::*;
use halo::*;
use hv::circ::*;
use hv::proofs::*;
use hv::*;

fn any_point<C: PC>(r: &mut Rng, pool: &[C]) -> C {
    match r.below(9) {
        0 | 1 => C::zero(),
        2 => C::one(),
        3 => -C::one(),
        4 => C::one() * &hostile_f::<C::S>(r),
        5 => C::from_xy_unchecked(hostile_f(r), hostile_f(r)),
        6 => rescale(&rand_pt::<C>(r), r),
        _ => *r.pick(pool),
    }
}
fn any_scalar<F: PF>(r: &mut Rng) -> F {
    match r.below(6) {
        0 | 1 => F::zero(),
        2 => F::one(),
        3 => -F::one(),
        4 => hostile_f(r),
        _ => rand_f(r),
    }
}
/// lengths: emptied, truncated by one or by some, extended by one or doubled
fn relen<T: Clone>(r: &mut Rng, v: &mut Vec<T>, mut extra: impl FnMut(&mut Rng) -> T) -> &'static str {
    match r.below(6) {
        0 => {
            v.clear();
            "emptied"
        }
        1 => {
            v.pop();
            "one short"
        }
        2 => {
            let n = if v.is_empty() { 0 } else { r.below(v.len()) };
            v.truncate(n);
            "truncated"
        }
        3 => {
            let e = extra(r);
            v.push(e);
            "one too many"
        }
        4 => {
            if !v.is_empty() {
                v.remove(0);
            }
            "first missing"
        }
        _ => {
            let w = v.clone();
            v.extend(w);
            if v.is_empty() {
                let e = extra(r);
                v.push(e);
            }
            "doubled"
        }
    }
}

fn spoil_proof<C: PC>(r: &mut Rng, p: &mut Proof<C>, pool: &[C], tags: &mut Vec<String>) {
    let ip = &mut p.inner_product;
    match r.below(12) {
        0 => tags.push(format!("rounds {}", {
            let round = ip.rounds.get(0).cloned();
            if let Some(round) = round {
                relen(r, &mut ip.rounds, |_| round.clone())
            } else {
                "none"
            }
        })),
        1 => tags.push(format!("a {}", relen(r, &mut ip.a, any_scalar))),
        2 | 3 => {
            if !ip.rounds.is_empty() {
                let i = r.below(ip.rounds.len());
                let f = r.below(4);
                let round = &mut ip.rounds[i];
                let how = match f {
                    0 => relen(r, &mut round.L, |r| any_point(r, pool)),
                    1 => relen(r, &mut round.R, |r| any_point(r, pool)),
                    2 => relen(r, &mut round.l, any_scalar),
                    _ => relen(r, &mut round.r, any_scalar),
                };
                tags.push(format!("round {} field {} {}", i, f, how));
            }
        }
        4 => {
            // every round vector of one kind
            let f = r.below(2);
            for round in &mut ip.rounds {
                if f == 0 {
                    round.L.pop();
                    round.R.pop();
                    round.l.pop();
                    round.r.pop();
                } else {
                    round.L.push(any_point(r, pool));
                    round.R.push(any_point(r, pool));
                    round.l.push(any_scalar(r));
                    round.r.push(any_scalar(r));
                }
            }
            if r.bool() {
                if f == 0 {
                    ip.a.pop();
                } else {
                    ip.a.push(any_scalar(r));
                }
            }
            tags.push(format!("all rounds {}", if f == 0 { "one instance short" } else { "one instance too many" }));
        }
        5 => {
            for round in &mut ip.rounds {
                for q in round.L.iter_mut().chain(round.R.iter_mut()) {
                    *q = any_point(r, pool);
                }
                for q in round.l.iter_mut().chain(round.r.iter_mut()) {
                    *q = any_scalar(r);
                }
            }
            tags.push("all rounds random".into());
        }
        6 => {
            for q in &mut ip.a {
                *q = any_scalar(r);
            }
            ip.g = any_point(r, pool);
            tags.push("final values random".into());
        }
        7 => {
            let n = r.below(6);
            let v = any_point(r, pool);
            *[&mut p.r_commitment, &mut p.s_cur_commitment, &mut p.t_positive_commitment, &mut p.t_negative_commitment, &mut p.c_commitment, &mut p.s_new_commitment][n] = v;
            tags.push(format!("commitment {}", n));
        }
        8 => {
            let n = r.below(7);
            let v = any_scalar(r);
            *[&mut p.rx_opening, &mut p.rxy_opening, &mut p.sx_old_opening, &mut p.sx_cur_opening, &mut p.tx_positive_opening, &mut p.tx_negative_opening, &mut p.sx_new_opening][n] = v;
            tags.push(format!("claim {}", n));
        }
        9 => {
            // everything zero
            let z = C::zero();
            p.r_commitment = z;
            p.s_cur_commitment = z;
            p.t_positive_commitment = z;
            p.t_negative_commitment = z;
            p.c_commitment = z;
            p.s_new_commitment = z;
            for c in vec![&mut p.rx_opening, &mut p.rxy_opening, &mut p.sx_old_opening, &mut p.sx_cur_opening, &mut p.tx_positive_opening, &mut p.tx_negative_opening, &mut p.sx_new_opening] {
                *c = C::S::zero();
            }
            if r.bool() {
                for round in &mut p.inner_product.rounds {
                    round.L.iter_mut().chain(round.R.iter_mut()).for_each(|q| *q = C::zero());
                    round.l.iter_mut().chain(round.r.iter_mut()).for_each(|q| *q = C::S::zero());
                }
                p.inner_product.a.iter_mut().for_each(|q| *q = C::S::zero());
                p.inner_product.g = C::zero();
            }
            tags.push("all zero".into());
        }
        _ => {}
    }
}
fn spoil_left<C: PC>(r: &mut Rng, l: &mut Leftovers<C>, pool: &[C], tags: &mut Vec<String>) {
    match r.below(9) {
        0 | 1 => tags.push(format!("leftover challenges {}", relen(r, &mut l.challenges_sq_packed_new, any_scalar))),
        2 => {
            for c in &mut l.challenges_sq_packed_new {
                *c = any_scalar(r);
            }
            tags.push("leftover challenges random".into());
        }
        3 => {
            if !l.challenges_sq_packed_new.is_empty() {
                let i = r.below(l.challenges_sq_packed_new.len());
                l.challenges_sq_packed_new[i] = any_scalar(r);
                tags.push("one leftover challenge".into());
            }
        }
        4 => {
            l.s_new_commitment = any_point(r, pool);
            tags.push("leftover commitment".into());
        }
        5 => {
            l.g_new = any_point(r, pool);
            tags.push("leftover basis".into());
        }
        6 => {
            l.y_new = any_scalar(r);
            tags.push("leftover point".into());
        }
        _ => {}
    }
}
fn spoil_deferred<F: PF>(r: &mut Rng, d: &mut Deferred<F>, tags: &mut Vec<String>) {
    for _ in 0..1 + r.below(2) {
        match r.below(6) {
            0 => tags.push(format!("old challenges {}", relen(r, &mut d.challenges_sq_packed_old, any_scalar))),
            1 => tags.push(format!("new challenges {}", relen(r, &mut d.challenges_sq_packed_new, any_scalar))),
            2 => {
                let v = any_scalar(r);
                if r.bool() {
                    d.x = v
                } else {
                    d.y_cur = v
                }
                tags.push("point".into());
            }
            3 => {
                d.y_old = any_scalar(r);
                d.y_new = any_scalar(r);
                d.ky_opening = any_scalar(r);
                d.b_x = any_scalar(r);
                tags.push("values".into());
            }
            4 => {
                for c in d.challenges_sq_packed_new.iter_mut().chain(d.challenges_sq_packed_old.iter_mut()) {
                    if r.bool() {
                        *c = any_scalar(r);
                    }
                }
                tags.push("challenges".into());
            }
            _ => {
                let z = F::zero();
                d.x = z;
                d.y_old = z;
                d.y_cur = z;
                d.y_new = z;
                tags.push("all points zero".into());
            }
        }
    }
}

fn session<C: PC>(ctx: &Ctx, r: &mut Rng, cases: usize) {
    let k = 4 + r.below(3);
    let params: Params<C> = Params::new(k);
    let ni = r.below(4);
    let p = fitting::<C::S>(r, k, ni);
    let dummy = Leftovers::dummy(&params);
    let (proof, _) = match ctx.guard(|| Proof::new::<_, Basic>(&params, &p, &dummy)) {
        Ok(Ok(x)) => x,
        _ => return,
    };
    let circuit = p.blank();
    let inputs = p.inputs();
    let pool: Vec<C> = vec![proof.r_commitment, proof.c_commitment, proof.inner_product.g, params.generators[1], dummy.g_new];
    for _ in 0..cases {
        if ctx.done() {
            return;
        }
        let (mut q, mut l, mut i) = (proof.clone(), dummy.clone(), inputs.clone());
        let mut tags = vec![];
        for _ in 0..1 + r.below(2) {
            spoil_proof(r, &mut q, &pool, &mut tags);
            if r.one_in(3) {
                spoil_left(r, &mut l, &pool, &mut tags);
            }
            if r.one_in(4) {
                tags.push(format!("inputs {}", relen(r, &mut i, any_scalar)));
            }
        }
        let kc = match r.below(4) {
            0 => {
                tags.push("input commitment".into());
                Some(any_point(r, &pool))
            }
            _ => None,
        };
        let key = format!("{} k={} {:?}", C::CNAME, k, tags);
        ctx.case_str(&format!("{} {}", key, r.u64()));
        ctx.sample(|| key.clone());
        let lens = (
            q.inner_product.rounds.len() != k
                || q.inner_product.a.len() != 5
                || q.inner_product.rounds.iter().any(|x| x.L.len() != 5 || x.R.len() != 5 || x.l.len() != 5 || x.r.len() != 5)
                || l.challenges_sq_packed_new.len() != k,
            i.len() != inputs.len(),
        );
        let out = match ctx.guard(|| q.verify::<_, Basic>(&l, &params, &circuit, &i, kc)) {
            Ok(v) => v,
            Err(e) => {
                ctx.violation("panic: proof verification", format!("{}: {}", key, e));
                continue;
            }
        };
        ctx.count(
            match &out {
                Err(_) => "proofs answered with an error",
                Ok((false, ..)) => "proofs rejected by the opening argument",
                Ok((true, ..)) => "proofs passed on to the deferred checks",
            },
            1,
        );
        if lens.0 || lens.1 {
            ctx.count("malformed proofs", 1);
        }
        // whatever came out is checked further, as it is or altered
        if let Ok((ok, mut left, mut def, forks)) = out {
            ctx.check(!(ok && lens.0), "malformed proof passes the opening argument", || key.clone());
            if r.bool() {
                spoil_left(r, &mut left, &pool, &mut tags);
            }
            if r.bool() {
                spoil_deferred(r, &mut def, &mut tags);
            }
            let malformed = def.challenges_sq_packed_old.len() != k || def.challenges_sq_packed_new.len() != k;
            match ctx.guard(|| (def.verify(k), def.to_bytes().len())) {
                Ok((v, _)) => {
                    ctx.count(if v { "deferred values accepted" } else { "deferred values rejected" }, 1);
                    ctx.check(!(v && malformed), "malformed deferred values accepted", || format!("{:?}", tags));
                }
                Err(e) => ctx.violation("panic: deferred check", format!("{} k={} {:?}: {}", C::CNAME, k, tags, e)),
            }
            let malformed = left.challenges_sq_packed_new.len() != k;
            match ctx.guard(|| (left.verify::<_, Basic>(&params, &circuit), left.to_bytes().len())) {
                Ok((v, _)) => {
                    let v = matches!(v, Ok(true));
                    ctx.count(if v { "leftovers accepted" } else { "leftovers rejected" }, 1);
                    ctx.check(!(v && malformed), "malformed leftovers accepted", || format!("{:?}", tags));
                }
                Err(e) => ctx.violation("panic: leftovers check", format!("{} k={} {:?}: {}", C::CNAME, k, tags, e)),
            }
            let _ = forks;
        }
        // the checks on their own, from valid data
        let mut d = Deferred::<C::S>::dummy(k);
        let mut t2 = vec![];
        spoil_deferred(r, &mut d, &mut t2);
        let kk = if r.one_in(4) { 4 + r.below(6) } else { k };
        match ctx.guard(|| d.verify(kk)) {
            Ok(_) => ctx.count("dummy-derived deferred values checked", 1),
            Err(e) => ctx.violation("panic: deferred check", format!("{} k={} {:?}: {}", C::CNAME, kk, t2, e)),
        }
    }
}

struct Inner;
impl<F: Field> RecursiveCircuit<F> for Inner {
    fn base_payload(&self) -> Vec<bool> {
        vec![false; 8]
    }
    fn synthesize<CS: ConstraintSystem<F>>(&self, _: &mut CS, _: &[AllocatedBit], _: &[AllocatedBit]) -> Result<(), SynthesisError> {
        Ok(())
    }
}

fn recursive<E1, E2>(ctx: &Ctx, r: &mut Rng, k: usize)
where
    E1: PC<B = <E2 as PC>::S>,
    E2: PC<B = <E1 as PC>::S>,
{
    let p1: Params<E1> = Params::new(k);
    let p2: Params<E2> = Params::new(k);
    let pool1 = vec![p1.generators[0], E1::one()];
    let pool2 = vec![p2.generators[0], E2::one()];
    let sparse = r.bool();
    let toy = fitting::<E1::S>(r, k, 0);
    let base = Leftovers::dummy(&p1);
    let proof = match ctx.guard(|| Proof::new::<_, Basic>(&p1, &toy, &base)) {
        Ok(Ok((p, _))) => p,
        _ => return,
    };
    let mut parts = RecursiveParts::<E1, E2> {
        proof,
        oldproof1: base,
        oldproof2: Leftovers::dummy(&p2),
        deferred: Deferred::dummy(k),
        payload: vec![0; 1],
    };
    if sparse {
        // hardly any input bit set, so that the small parameter set suffices
        let magic = parts.oldproof1.challenges_sq_packed_new[0];
        parts.oldproof1.s_new_commitment = E1::zero();
        parts.oldproof1.g_new = E1::zero();
        parts.oldproof1.challenges_sq_packed_new = vec![if r.bool() { E1::S::zero() } else { magic }; k];
        parts.oldproof2.s_new_commitment = E2::zero();
        parts.oldproof2.g_new = E2::zero();
        parts.oldproof2.challenges_sq_packed_new = vec![E2::S::zero(); k];
        let z = E2::S::zero();
        let d = &mut parts.deferred;
        for f in vec![
            &mut d.x, &mut d.y_old, &mut d.y_cur, &mut d.y_new, &mut d.ky_opening, &mut d.tx_positive_opening, &mut d.tx_negative_opening,
            &mut d.sx_cur_opening, &mut d.rx_opening, &mut d.rxy_opening, &mut d.gx_old_opening, &mut d.b_x, &mut d.b_xy, &mut d.b_y_old, &mut d.b_y_cur, &mut d.b_y_new,
        ] {
            *f = z;
        }
        d.challenges_sq_packed_old = vec![z; k];
        d.challenges_sq_packed_new = vec![z; k];
    }
    let mut tags = vec![format!("sparse={}", sparse)];
    match r.below(7) {
        0 => tags.push(format!("payload {}", relen(r, &mut parts.payload, |r| r.u64() as u8))),
        1 => spoil_left(r, &mut parts.oldproof1, &pool1, &mut tags),
        2 => spoil_left(r, &mut parts.oldproof2, &pool2, &mut tags),
        3 => spoil_deferred(r, &mut parts.deferred, &mut tags),
        4 | 5 => spoil_proof(r, &mut parts.proof, &pool1, &mut tags),
        _ => {}
    }
    let key = format!("recursive over {} k={} {:?}", E1::CNAME, k, tags);
    ctx.case_str(&format!("{} {}", key, r.u64()));
    ctx.sample(|| key.clone());
    let rp = parts.assemble();
    match ctx.guard(|| rp.verify(&p1, &p2, &Inner)) {
        Ok(v) => {
            ctx.count(if v.is_err() { "recursive proofs answered with an error" } else { "recursive proofs rejected" }, 1);
            ctx.check(!matches!(v, Ok(true)), "bogus recursive proof accepted", || key.clone());
        }
        Err(e) => ctx.violation("panic: recursive verification", format!("{}: {}", key, e)),
    }
    if r.one_in(3) {
        // continuing from a bogus proof must be refused or go through, not crash
        match ctx.guard(|| RecursiveProof::<E2, E1>::create_proof(&p2, &p1, Some(&rp), &Inner, &[0])) {
            Ok(v) => ctx.count(if v.is_err() { "continuations refused" } else { "continuations built" }, 1),
            Err(e) => ctx.violation("panic: continuing a recursive proof", format!("{}: {}", key, e)),
        }
    }
}

fn main() {
    run(
        "P07",
        "honest proofs, leftovers, deferred values and input lists with vectors emptied, shortened, extended or doubled and elements replaced by identity, zero, off-curve and random values, handed to every verification entry point; seeded",
        30,
        400,
        |ctx| {
            ctx.par("hostile", ctx.scale(64, 2000), |i, r| {
                if i % 4 == 3 {
                    let k = 4 + r.below(2);
                    if r.bool() {
                        recursive::<Ec0, Ec1>(ctx, r, k)
                    } else {
                        recursive::<Ec1, Ec0>(ctx, r, k)
                    }
                } else if i % 2 == 0 {
                    session::<Ec0>(ctx, r, 24)
                } else {
                    session::<Ec1>(ctx, r, 24)
                }
            });
        },
    )
}
