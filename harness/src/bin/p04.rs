//! P04: the final checks of leftovers and deferred values accept exactly consistent data,
//! and their byte encodings tell different data apart.
use halo::*;
use hv::circ::*;
use hv::proofs::*;
use hv::*;

fn naive<C: PC>(coeffs: &[C::S], gens: &[C]) -> C {
    let mut acc = C::zero();
    for (c, g) in coeffs.iter().zip(gens) {
        if !fzero(c) {
            acc = acc + *g * c;
        }
    }
    acc
}
// ---------------------------------------------------------------- leftovers

fn want_left<C: PC>(params: &Params<C>, a: &Asg<C::S>, l: &Leftovers<C>) -> bool {
    if l.challenges_sq_packed_new.len() != params.k {
        return false;
    }
    let f = match fold_coeffs(&l.challenges_sq_packed_new) {
        Some(f) => f,
        None => return false,
    };
    pt_of(&naive(&f, &params.generators)) == pt_of(&l.g_new)
        && pt_of(&naive(&sx(a, params.n, l.y_new), &params.generators)) == pt_of(&l.s_new_commitment)
}

fn left_case<C: PC>(ctx: &Ctx, params: &Params<C>, p: &Prog<C::S>, a: &Asg<C::S>, l: &Leftovers<C>, what: &str, want: Option<bool>) {
    let want = want.unwrap_or_else(|| want_left(params, a, l));
    ctx.case_str(&format!("{} k={} {} {:?} {:?}", C::CNAME, params.k, what, p, l.challenges_sq_packed_new));
    ctx.count(if want { "leftovers that must pass" } else { "leftovers that must fail" }, 1);
    ctx.sample(|| format!("leftovers: {}", what));
    let got = match ctx.total("check of leftovers", || l.verify::<_, Basic>(params, p)) {
        Some(g) => matches!(g, Ok(true)),
        None => return,
    };
    ctx.check(got == want, "verdict on leftovers", || {
        format!("{} k={} {}: got {} want {} for {:?} of {:?}", C::CNAME, params.k, what, got, want, l, p)
    });
}

fn bend_all<C: PC>(ctx: &Ctx, r: &mut Rng, params: &Params<C>, p: &Prog<C::S>, a: &Asg<C::S>, good: &Leftovers<C>) {
    let k = params.k;
    let bend = |c: C, r: &mut Rng| match r.below(6) {
        0 => -c,
        1 => C::zero(),
        2 => c + C::one(),
        3 => rand_pt::<C>(r),
        4 => c * &C::BETA_SCALAR,
        _ => c + params.generators[r.below(params.d)],
    };
    for how in 0..9 {
        let mut l = good.clone();
        let what = match how {
            0 => {
                l.s_new_commitment = bend(l.s_new_commitment, r);
                "s commitment replaced"
            }
            1 => {
                l.g_new = bend(l.g_new, r);
                "basis replaced"
            }
            2 => {
                l.y_new = if r.bool() { point128(r) } else { l.y_new + &C::S::one() };
                "point replaced"
            }
            3 => {
                let i = r.below(k);
                l.challenges_sq_packed_new[i] = packed_challenge(r, true);
                "challenge replaced"
            }
            4 => {
                let i = *r.pick(&[0, k - 1]);
                l.challenges_sq_packed_new[i] = packed_challenge(r, false);
                "challenge replaced by a non-square"
            }
            5 => {
                let i = r.below(k);
                let c = l.challenges_sq_packed_new[i].get_lower_128();
                l.challenges_sq_packed_new[i] = C::S::from_u128(c ^ (1 << r.range(2, 127)));
                "one bit of a challenge"
            }
            6 => {
                let i = r.below(k - 1);
                l.challenges_sq_packed_new.swap(i, i + 1);
                "challenges swapped"
            }
            7 => {
                std::mem::swap(&mut l.s_new_commitment, &mut l.g_new);
                "points swapped"
            }
            _ => {
                if r.bool() {
                    l.challenges_sq_packed_new.pop();
                } else {
                    let c = l.challenges_sq_packed_new[0];
                    l.challenges_sq_packed_new.push(c);
                }
                "challenge count"
            }
        };
        left_case(ctx, params, p, a, &l, what, None);
    }
}

fn leftovers<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let params: Params<C> = Params::new(k);
    let ni = r.below(3);
    let p = fitting::<C::S>(r, k, ni).blank();
    let a = Asg::of(&p, false).unwrap();
    let y = match r.below(5) {
        0 => C::S::zero(),
        _ => point128(r),
    };
    let ch: Vec<C::S> = (0..k).map(|_| if r.one_in(8) { C::S::from_u64(12) } else { packed_challenge(r, true) }).collect();
    let f = match fold_coeffs(&ch) {
        Some(f) => f,
        None => return,
    };
    let good = Leftovers {
        s_new_commitment: naive(&sx(&a, params.n, y), &params.generators),
        y_new: y,
        g_new: naive(&f, &params.generators),
        challenges_sq_packed_new: ch,
    };
    left_case(ctx, &params, &p, &a, &good, "consistent", None);
    let mut l = good.clone();
    l.g_new = rescale(&l.g_new, r);
    l.s_new_commitment = rescale(&l.s_new_commitment, r);
    left_case(ctx, &params, &p, &a, &l, "consistent, other representation", Some(true));
    left_case(ctx, &params, &p, &a, &Leftovers::dummy(&params), "dummy", None);
    bend_all(ctx, r, &params, &p, &a, &good);
    // placeholders, wholly and in part
    let mut l = Leftovers::dummy(&params);
    bend_all(ctx, r, &params, &p, &a, &l);
    l.y_new = good.y_new;
    l.s_new_commitment = good.s_new_commitment;
    left_case(ctx, &params, &p, &a, &l, "placeholder challenges", Some(true));
    bend_all(ctx, r, &params, &p, &a, &l);
    let mut l = good.clone();
    l.y_new = C::S::zero();
    l.s_new_commitment = C::zero();
    left_case(ctx, &params, &p, &a, &l, "placeholder polynomial", Some(true));
    bend_all(ctx, r, &params, &p, &a, &l);
    // the wrong circuit
    let q = fitting::<C::S>(r, k, ni).blank();
    let b = Asg::of(&q, false).unwrap();
    left_case(ctx, &params, &q, &b, &good, "another circuit", None);
    encodings_left(ctx, r, k, &good);
}

fn encodings_left<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize, good: &Leftovers<C>) {
    let enc = |l: &Leftovers<C>| l.to_bytes();
    let base = enc(good);
    let mut check = |l: &Leftovers<C>, differ: bool, what: &str| {
        let e = enc(l);
        ctx.count("encodings compared", 1);
        ctx.check(e.len() == base.len(), "leftovers encoding length", || format!("{} {} k={}: {} and {}", C::CNAME, what, k, base.len(), e.len()));
        ctx.check((e != base) == differ, "leftovers encoding", || format!("{} {} k={}: differ {} {:?} {:?}", C::CNAME, what, k, e != base, good, l));
    };
    let mut l = good.clone();
    l.g_new = rescale(&l.g_new, r);
    l.s_new_commitment = rescale(&l.s_new_commitment, r);
    check(&l, false, "other representation");
    for how in 0..8 {
        let mut l = good.clone();
        let what = match how {
            0 => {
                l.s_new_commitment = l.s_new_commitment + C::one();
                "s commitment"
            }
            1 => {
                l.s_new_commitment = -l.s_new_commitment;
                "s commitment negated"
            }
            2 => {
                l.g_new = l.g_new * &C::BETA_SCALAR;
                "basis endomorphism"
            }
            3 => {
                l.g_new = C::zero();
                "basis identity"
            }
            4 => {
                l.g_new = -l.g_new;
                "basis negated"
            }
            5 => {
                l.y_new = C::S::from_u128(l.y_new.get_lower_128() ^ (1 << r.below(127)));
                "point"
            }
            6 => {
                let i = r.below(k);
                let c = l.challenges_sq_packed_new[i].get_lower_128();
                l.challenges_sq_packed_new[i] = C::S::from_u128(c ^ (1 << r.below(128)));
                "challenge"
            }
            _ => {
                l.challenges_sq_packed_new.rotate_left(1);
                "challenges rotated"
            }
        };
        let low = |l: &Leftovers<C>| {
            (
                pt_of(&l.s_new_commitment),
                pt_of(&l.g_new),
                l.y_new.get_lower_128(),
                l.challenges_sq_packed_new.iter().map(|c| c.get_lower_128()).collect::<Vec<_>>(),
            )
        };
        check(&l, low(&l) != low(good), what);
    }
}

// ---------------------------------------------------------------- deferred values

fn show<F: PF>(d: &Deferred<F>) -> String {
    let mut d = d.clone();
    let s: Vec<String> = scalars(&mut d).into_iter().map(|(n, v)| format!("{}={}", n, hexf(v))).collect();
    format!("{} old={:?} new={:?}", s.join(" "), d.challenges_sq_packed_old, d.challenges_sq_packed_new)
}
fn def_case<F: PF>(ctx: &Ctx, d: &Deferred<F>, k: usize, what: &str) {
    let want = want_def(d, k);
    ctx.case_str(&format!("k={} {} {}", k, what, show(d)));
    ctx.sample(|| format!("deferred: {}", what));
    ctx.count(if want { "deferred values that must pass" } else { "deferred values that must fail" }, 1);
    if let Some(got) = ctx.total("check of deferred values", || d.verify(k)) {
        ctx.check(got == want, "verdict on deferred values", || format!("k={} {}: got {} want {} for {}", k, what, got, want, show(d)));
    }
}
fn alter_all<F: PF>(ctx: &Ctx, r: &mut Rng, good: &Deferred<F>, k: usize) {
    let n = scalars(&mut good.clone()).len();
    for i in 0..n {
        let mut d = good.clone();
        let name = {
            let mut s = scalars(&mut d);
            let (name, v) = &mut s[i];
            **v = match r.below(6) {
                0 => F::zero(),
                1 => -**v,
                2 => **v + &F::one(),
                3 => F::one(),
                4 => **v + &**v,
                _ => rand_f(r),
            };
            *name
        };
        def_case(ctx, &d, k, &format!("{} replaced", name));
        encoding_def(ctx, good, &d, k, name);
    }
    for how in 0..8 {
        let mut d = good.clone();
        let i = *r.pick(&[0, k - 1, r.clone().below(k)]);
        let what = match how {
            0 => {
                d.challenges_sq_packed_old[i] = packed_challenge(r, true);
                "old challenge"
            }
            1 => {
                d.challenges_sq_packed_new[i] = packed_challenge(r, true);
                "new challenge"
            }
            2 => {
                d.challenges_sq_packed_old[i] = packed_challenge(r, false);
                "old challenge not a square"
            }
            3 => {
                d.challenges_sq_packed_new[i] = packed_challenge(r, false);
                "new challenge not a square"
            }
            4 => {
                d.challenges_sq_packed_new.rotate_left(1);
                "new challenges rotated"
            }
            5 => {
                d.challenges_sq_packed_old.rotate_left(1);
                "old challenges rotated"
            }
            6 => {
                std::mem::swap(&mut d.challenges_sq_packed_old, &mut d.challenges_sq_packed_new);
                "challenge lists swapped"
            }
            _ => {
                std::mem::swap(&mut d.tx_positive_opening, &mut d.tx_negative_opening);
                "halves of t swapped"
            }
        };
        def_case(ctx, &d, k, what);
        encoding_def(ctx, good, &d, k, what);
    }
    // two errors that cancel in a sum
    let mut d = good.clone();
    let e = rand_f::<F>(r);
    d.b_y_cur = d.b_y_cur + &e;
    d.b_y_new = d.b_y_new - &e;
    def_case(ctx, &d, k, "two evaluations, sum kept");
    let mut d = good.clone();
    d.challenges_sq_packed_old.pop();
    def_case(ctx, &d, k, "old challenge missing");
    let mut d = good.clone();
    d.challenges_sq_packed_new.push(F::from_u64(12));
    def_case(ctx, &d, k, "new challenge too many");
}
fn encoding_def<F: PF>(ctx: &Ctx, a: &Deferred<F>, b: &Deferred<F>, k: usize, what: &str) {
    // the four points and the challenges are encoded by their low 128 bits
    let low = |d: &Deferred<F>| {
        let mut d = d.clone();
        for c in d.challenges_sq_packed_old.iter_mut().chain(d.challenges_sq_packed_new.iter_mut()) {
            *c = F::from_u128(c.get_lower_128());
        }
        for v in vec![&mut d.x, &mut d.y_old, &mut d.y_cur, &mut d.y_new] {
            *v = F::from_u128(v.get_lower_128());
        }
        let s: Vec<F> = scalars(&mut d).into_iter().map(|(_, v)| *v).collect();
        (s, d.challenges_sq_packed_old.clone(), d.challenges_sq_packed_new.clone())
    };
    let differ = low(a) != low(b);
    let (ea, eb) = (a.to_bytes(), b.to_bytes());
    ctx.count("encodings compared", 1);
    ctx.check(ea.len() == eb.len(), "deferred encoding length", || format!("{} k={}: {} and {}", what, k, ea.len(), eb.len()));
    ctx.check((ea != eb) == differ, "deferred encoding", || format!("{} k={}: differ {} for {} and {}", what, k, ea != eb, show(a), show(b)));
}
/// Consistent values that coincide with one another or with the placeholders.
fn degenerate<F: PF>(r: &mut Rng, k: usize) -> Deferred<F> {
    let mut d = valid_deferred::<F>(r, k, |r| point128(r));
    let pool = [F::one(), F::from_u64(12), d.x, d.y_new, -F::one(), d.x.invert().unwrap()];
    for (i, (_, v)) in scalars(&mut d).into_iter().take(10).enumerate() {
        match r.below(4) {
            0 => *v = *r.pick(&pool),
            1 if i >= 4 || i == 1 || i == 3 => *v = F::zero(),
            _ => {}
        }
    }
    if r.one_in(4) {
        for (_, v) in scalars(&mut d).into_iter().skip(4).take(6) {
            *v = F::zero();
        }
    }
    match r.below(6) {
        0 => d.challenges_sq_packed_old = vec![F::from_u64(12); k],
        1 => d.challenges_sq_packed_new = vec![F::from_u64(12); k],
        2 => d.challenges_sq_packed_new = d.challenges_sq_packed_old.clone(),
        3 => d.challenges_sq_packed_new = vec![d.challenges_sq_packed_new[0]; k],
        _ => {}
    }
    settle(&mut d, k);
    d
}
fn deferred<F: PF>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let d = Deferred::<F>::dummy(k);
    def_case(ctx, &d, k, "dummy");
    alter_all(ctx, r, &d, k);
    let d = degenerate::<F>(r, k);
    def_case(ctx, &d, k, "consistent, degenerate");
    alter_all(ctx, r, &d, k);
    let d = valid_deferred::<F>(r, k, |r| point128(r));
    ctx.max("largest size", k as u64);
    def_case(ctx, &d, k, "consistent");
    alter_all(ctx, r, &d, k);
}

/// what the verifier itself hands out
fn real<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let params: Params<C> = Params::new(k);
    let ni = r.below(3);
    let p = fitting::<C::S>(r, k, ni);
    let made = ctx.guard(|| {
        let (_, l1) = Proof::new::<_, Basic>(&params, &p, &Leftovers::dummy(&params)).ok()?;
        let (p2, _) = Proof::new::<_, Basic>(&params, &p, &l1).ok()?;
        p2.verify::<_, Basic>(&l1, &params, &p.blank(), &p.inputs(), None).ok()
    });
    let (ok, l, d, _) = match made {
        Ok(Some(x)) => x,
        _ => return ctx.count("proofs that could not be made", 1),
    };
    if !ok {
        return ctx.count("honest proofs rejected (see P01)", 1);
    }
    let a = Asg::of(&p, true).unwrap();
    let q = p.blank();
    ctx.count("real proofs", 1);
    left_case(ctx, &params, &q, &a, &l, "of a real proof", None);
    def_case(ctx, &d, k, "of a real proof");
    alter_all(ctx, r, &d, k);
    encodings_left(ctx, r, k, &l);
}

fn main() {
    run(
        "P04",
        "one evaluation is one check of leftovers or deferred values, consistent or altered in one place, compared with direct recomputation; distinct by data",
        70,
        1000,
        |ctx| {
            ctx.par("deferred", ctx.scale(300, 6000), |i, r| {
                let k = if i % 8 == 7 { r.range(7, if ctx.quick() { 10 } else { 13 }) } else { r.range(4, 7) };
                if i % 2 == 0 {
                    deferred::<Fp>(ctx, r, k)
                } else {
                    deferred::<Fq>(ctx, r, k)
                }
            });
            ctx.par("leftovers", ctx.scale(48, 1500), |i, r| {
                let k = 4 + r.below(8) / 6;
                if i % 2 == 0 {
                    leftovers::<Ec0>(ctx, r, k)
                } else {
                    leftovers::<Ec1>(ctx, r, k)
                }
            });
            ctx.par("real", ctx.scale(20, 400), |i, r| {
                if i % 2 == 0 {
                    real::<Ec0>(ctx, r, 4)
                } else {
                    real::<Ec1>(ctx, r, 4)
                }
            });
        },
    )
}
