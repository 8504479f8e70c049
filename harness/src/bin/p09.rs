//! P09: the multi-polynomial opening argument accepts exactly the openings that satisfy its
//! equations under the challenges it drew, and an honest prover always satisfies them.
//!
//! The oracle reads the challenges off the verifier's own output and evaluates the two
//! equations of every instance itself, so it does not depend on how the transcript is laid
//! out.
use halo::*;
use hv::proofs::*;
use hv::*;

#[derive(Clone, Debug)]
struct Claim<C: PC> {
    p: C,
    v: C::S,
    x: C::S,
    right: bool,
}
fn openings<C: PC>(claims: &[Claim<C>]) -> Vec<PolynomialOpening<C>> {
    claims.iter().map(|c| PolynomialOpening::verif_new(c.p, c.v, c.x, c.right)).collect()
}
/// a transcript with a past, which ends in a challenge as it does in a proof
///
/// (The fork value that is counted up until the challenge is a square must not be the
/// first element of a block, where the sponge ignores it: finding R02. Hence the challenge,
/// and hence no openings of 0, 3 or 6 polynomials, whose rounds fill whole blocks.)
fn transcript<C: PC>(seed: u64) -> rescue::Rescue<C::Base> {
    let mut t = rescue::Rescue::new();
    for i in 0..seed % 15 {
        t.absorb(C::Base::from_u64(seed.rotate_left(i as u32)));
    }
    t.squeeze();
    t
}

struct Out<C: PC> {
    ok: bool,
    packed: Vec<C::S>,
    g: C,
    forks: Vec<u8>,
    after: C::Base,
}
fn verify<C: PC>(ctx: &Ctx, seed: u64, claims: &[Claim<C>], p: &MultiPolynomialOpening<C>, k: usize) -> Option<Out<C>> {
    ctx.total("verify_proof", || {
        let mut t = transcript::<C>(seed);
        let (ok, packed, g, forks) = p.verify_proof(&mut t, &openings(claims), k);
        Out { ok, packed, g, forks, after: t.squeeze() }
    })
}

/// the two sides of instance j under the challenges: what is left of the commitment and of
/// the value (left minus right)
fn rest<C: PC>(claims: &[Claim<C>], p: &MultiPolynomialOpening<C>, packed: &[C::S], j: usize) -> Option<(C, C::S)> {
    let b = eval(&fold_coeffs(packed)?, claims[j].x);
    let mut lhs = claims[j].p;
    let mut val = claims[j].v;
    for (round, c) in p.rounds.iter().zip(packed) {
        let c2: C::S = get_challenge_scalar(*c);
        let ci2 = c2.invert().to_option()?;
        lhs = lhs + round.L[j] * &c2 + round.R[j] * &ci2;
        val = val + &(round.l[j] * &c2) + &(round.r[j] * &ci2);
    }
    Some((lhs - p.g * &p.a[j], val - &(p.a[j] * &b)))
}
fn shaped<C: PC>(p: &MultiPolynomialOpening<C>, n: usize, k: usize) -> bool {
    p.rounds.len() == k
        && p.a.len() == n
        && p.rounds.iter().all(|r| r.L.len() == n && r.R.len() == n && r.l.len() == n && r.r.len() == n)
}

/// verdict of the oracle, given the challenges the verifier says it drew
fn want<C: PC>(claims: &[Claim<C>], p: &MultiPolynomialOpening<C>, k: usize, packed: &[C::S]) -> Option<bool> {
    if !shaped(p, claims.len(), k) {
        return Some(false);
    }
    if packed.len() != k {
        return None;
    }
    let mut ok = true;
    for j in 0..claims.len() {
        let (d, e) = rest(claims, p, packed, j)?;
        ok &= bool::from(d.is_zero()) && fzero(&e);
    }
    Some(ok)
}

fn judge<C: PC>(ctx: &Ctx, seed: u64, claims: &[Claim<C>], p: &MultiPolynomialOpening<C>, k: usize, what: &str) -> Option<bool> {
    let o = verify(ctx, seed, claims, p, k)?;
    let info = || format!("{} k={} instances={} {} transcript {:x}; claims {:?}", C::CNAME, k, claims.len(), what, seed, claims);
    ctx.case_str(&format!("{} {} {:?} {:?} {:?}", k, what, o.packed, claims, seed));
    match want(claims, p, k, &o.packed) {
        None => {
            ctx.check(!o.ok, "challenges not usable", || format!("{:?} {}", o.packed, info()));
        }
        Some(w) => {
            ctx.count(if w { "openings that must pass" } else { "openings that must fail" }, 1);
            ctx.check(o.ok == w, if w { "true opening refused" } else { "false opening accepted" }, || info());
        }
    }
    Some(o.ok)
}

struct Inst<C: PC> {
    poly: Vec<C::S>,
    claim: Claim<C>,
}

fn poly<F: PF>(r: &mut Rng, d: usize) -> Vec<F> {
    let len = match r.below(4) {
        0 => 1 + r.below(d),
        _ => d,
    };
    match r.below(9) {
        0 => vec![F::zero(); len],
        1 => vec![rand_f(r); len],
        2 => {
            let mut v = vec![F::zero(); len];
            let i = *r.pick(&[0, len - 1, len / 2]);
            v[i] = if r.bool() { F::one() } else { rand_f(r) };
            v
        }
        3 => (0..len).map(|_| F::from_u64(r.below(3) as u64)).collect(),
        4 => {
            // one half empty
            let h = r.below(2);
            (0..len).map(|i| if (i * 2 < len) == (h == 0) { rand_f(r) } else { F::zero() }).collect()
        }
        _ => (0..len).map(|_| hostile_f(r)).collect(),
    }
}
fn commit<C: PC>(gens: &[C], v: &[C::S], right: bool) -> C {
    let off = if right { gens.len() - v.len() } else { 0 };
    let mut acc = C::zero();
    for (c, g) in v.iter().zip(&gens[off..]) {
        if !fzero(c) {
            acc = acc + *g * c;
        }
    }
    acc
}
fn opening<F: PF>(d: usize, v: &[F], x: F, right: bool) -> F {
    let e = eval(v, x);
    if right {
        e * &pow(x, d - v.len())
    } else {
        e
    }
}
fn instance<C: PC>(r: &mut Rng, gens: &[C], prev: &[Inst<C>]) -> Inst<C> {
    let d = gens.len();
    let (poly, right) = if !prev.is_empty() && r.one_in(3) {
        let o = r.pick(prev);
        (o.poly.clone(), o.claim.right)
    } else {
        (poly::<C::S>(r, d), r.bool())
    };
    let x = if !prev.is_empty() && r.one_in(3) {
        r.pick(prev).claim.x
    } else {
        match r.below(8) {
            0 => C::S::zero(),
            1 => C::S::one(),
            2 => -C::S::one(),
            3 => hostile_f(r),
            _ => rand_f(r),
        }
    };
    let claim = Claim { p: commit(gens, &poly, right), v: opening(d, &poly, x, right), x, right };
    Inst { poly, claim }
}

fn delta_pt<C: PC>(r: &mut Rng, c: C) -> C {
    match r.below(7) {
        0 => -c,
        1 => C::zero(),
        2 => c + C::one(),
        3 => rand_pt::<C>(r),
        4 => c * &C::BETA_SCALAR,
        5 => c + c,
        _ => c - C::one(),
    }
}
fn delta_sc<F: PF>(r: &mut Rng, c: F) -> F {
    match r.below(7) {
        0 => -c,
        1 => F::zero(),
        2 => c + &F::one(),
        3 => rand_f(r),
        4 => c * &F::BETA,
        5 => F::one(),
        _ => c - &F::one(),
    }
}

fn one<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize, n: usize, alterations: usize) {
    let d = 1 << k;
    let gens: Vec<C> = (0..d).map(|_| rand_pt::<C>(r)).collect();
    let mut inst: Vec<Inst<C>> = vec![];
    for _ in 0..n {
        let i = instance(r, &gens, &inst);
        inst.push(i);
    }
    let claims: Vec<Claim<C>> = inst.iter().map(|i| i.claim.clone()).collect();
    let seed = r.u64();
    let os = openings(&claims);
    let made = ctx.total("new_proof", || {
        let mut t = transcript::<C>(seed);
        let pairs: Vec<(PolynomialOpening<C>, &[C::S])> = os.into_iter().zip(inst.iter()).map(|(o, i)| (o, &i.poly[..])).collect();
        let (p, packed, g) = MultiPolynomialOpening::new_proof(&mut t, &pairs, &gens, k);
        (p, packed, g, t.squeeze())
    });
    let (proof, packed, g, after) = match made {
        Some(x) => x,
        None => return,
    };
    let info = || format!("{} k={} transcript {:x} claims {:?} polynomials {:?}", C::CNAME, k, seed, claims, inst.iter().map(|i| &i.poly).collect::<Vec<_>>());
    ctx.sample(|| info());
    ctx.count(&format!("honest openings of {} polynomials", n), 1);
    ctx.max("rounds", k as u64);
    if !ctx.check(shaped(&proof, n, k), "shape of a proof", || info()) {
        return;
    }
    // honest: accepted, and both sides agree
    let o = match verify(ctx, seed, &claims, &proof, k) {
        Some(o) => o,
        None => return,
    };
    ctx.case_str(&format!("honest {} {:?} {:?}", k, claims, seed));
    if !ctx.check(o.ok, "honest opening refused", || info()) {
        return;
    }
    ctx.check(o.packed == packed, "challenges differ between prover and verifier", || format!("{:?} and {:?} {}", packed, o.packed, info()));
    ctx.check(o.after == after, "transcripts differ after the opening", || info());
    ctx.check(o.forks.len() == k, "fork values", || format!("{:?} {}", o.forks, info()));
    for c in &packed {
        let sq: C::S = get_challenge_scalar(*c);
        let low = *c == C::S::from_u128(c.get_lower_128()) && c.get_lower_128() >> 127 == 1;
        ctx.check(low && bool::from(sq.sqrt().is_some()), "form of a challenge", || format!("{:?} {}", c, info()));
    }
    if k > 0 {
        if let Some(f) = fold_coeffs(&packed) {
            let want = pt_of(&commit(&gens, &f, false));
            for (h, got) in &[("prover", g), ("proof", proof.g), ("verifier", o.g)] {
                ctx.check(pt_of(got) == want, "folded basis", || format!("{}: {}", h, info()));
            }
        }
        if want(&claims, &proof, k, &packed) != Some(true) {
            ctx.violation("honest opening misses its equations", info());
            return;
        }
    }
    if n == 0 {
        return;
    }
    for _ in 0..alterations {
        if ctx.done() {
            return;
        }
        let (mut cl, mut pr) = (claims.clone(), proof.clone());
        let j = r.below(n);
        let i = r.below(k);
        let j2 = r.below(n);
        let what = match r.below(22) {
            0 | 1 => {
                cl[j].v = delta_sc(r, cl[j].v);
                "false value"
            }
            2 | 3 => {
                cl[j].p = delta_pt(r, cl[j].p);
                "false commitment"
            }
            4 => {
                cl[j].x = delta_sc(r, cl[j].x);
                "false point"
            }
            5 => {
                let e = rand_f::<C::S>(r);
                cl[j].v = cl[j].v + &e;
                cl[j2].v = cl[j2].v - &e;
                "false values, sum kept"
            }
            6 => {
                let e = rand_pt::<C>(r);
                cl[j].p = cl[j].p + e;
                cl[j2].p = cl[j2].p - e;
                "false commitments, sum kept"
            }
            7 => {
                cl.swap(j, j2);
                "claims exchanged"
            }
            8 => {
                pr.a[j] = delta_sc(r, pr.a[j]);
                "last scalar"
            }
            9 => {
                pr.g = delta_pt(r, pr.g);
                "basis"
            }
            10 => {
                // scaled so that the product is kept
                let e = rand_f::<C::S>(r);
                pr.g = pr.g * &e;
                let ei = e.invert().unwrap();
                for a in pr.a.iter_mut() {
                    *a = *a * &ei;
                }
                "basis and last scalars scaled"
            }
            11 => {
                pr.rounds[i].L[j] = delta_pt(r, pr.rounds[i].L[j]);
                "left point"
            }
            12 => {
                pr.rounds[i].R[j] = delta_pt(r, pr.rounds[i].R[j]);
                "right point"
            }
            13 => {
                pr.rounds[i].l[j] = delta_sc(r, pr.rounds[i].l[j]);
                "left value"
            }
            14 => {
                pr.rounds[i].r[j] = delta_sc(r, pr.rounds[i].r[j]);
                "right value"
            }
            15 => {
                let i2 = r.below(k);
                pr.rounds.swap(i, i2);
                "rounds exchanged"
            }
            16 => {
                match r.below(7) {
                    0 => {
                        pr.rounds.pop();
                    }
                    1 => {
                        let x = pr.rounds[i].clone();
                        pr.rounds.push(x);
                    }
                    2 => {
                        pr.a.pop();
                    }
                    3 => pr.a.push(C::S::zero()),
                    4 => {
                        pr.rounds[i].L.pop();
                    }
                    5 => pr.rounds[i].r.push(C::S::zero()),
                    _ => {
                        pr.rounds[i].R.pop();
                        pr.rounds[i].l.pop();
                    }
                }
                "malformed"
            }
            // the lies below are built against the challenges: the equations of the values
            // hold and those of the commitments do not, or the other way round
            m => {
                match m % 4 {
                    0 => pr.rounds[i].L[j] = delta_pt(r, pr.rounds[i].L[j]),
                    1 => pr.rounds[i].l[j] = delta_sc(r, pr.rounds[i].l[j]),
                    2 => pr.a[j] = delta_sc(r, pr.a[j]),
                    _ => pr.g = delta_pt(r, pr.g),
                }
                if r.one_in(3) {
                    // all zero
                    for round in pr.rounds.iter_mut() {
                        round.L[j] = C::zero();
                        round.R[j] = C::zero();
                        round.l[j] = C::S::zero();
                        round.r[j] = C::S::zero();
                    }
                    pr.a[j] = C::S::zero();
                }
                let o = match verify(ctx, seed, &cl, &pr, k) {
                    Some(o) if o.packed.len() == k => o,
                    _ => continue,
                };
                let mode = r.below(4);
                for t in 0..n {
                    if let Some((dp, dv)) = rest(&cl, &pr, &o.packed, t) {
                        if t != j || mode & 1 != 0 {
                            cl[t].p = cl[t].p - dp;
                        }
                        if t != j || mode & 2 != 0 {
                            cl[t].v = cl[t].v - &dv;
                        }
                    }
                }
                if mode & 1 == 0 && r.bool() {
                    // whatever was left, make sure something is
                    cl[j].p = cl[j].p + rand_pt::<C>(r);
                }
                if mode & 2 == 0 && r.bool() {
                    cl[j].v = cl[j].v + &rand_f(r);
                }
                ["neither equation", "commitments only", "values only", "both equations"][mode]
            }
        };
        ctx.count(&format!("alteration: {}", what), 1);
        judge(ctx, seed, &cl, &pr, k, what);
    }
}

fn main() {
    run(
        "P09",
        "one evaluation is one opening argument, honest or altered, judged by the verifier and by its equations under the verifier's own challenges; distinct by claims, messages and transcript",
        40,
        900,
        |ctx| {
            ctx.par("large", ctx.scale(8, 60), |i, r| {
                let k = r.range(6, ctx.scale(8, 10));
                if i % 2 == 0 {
                    one::<Ec0>(ctx, r, k, 1 + i % 2, 4)
                } else {
                    one::<Ec1>(ctx, r, k, 1 + i % 2, 4)
                }
            });
            ctx.par("openings", ctx.scale(400, 20000), |i, r| {
                let k = *r.pick(&[1, 1, 2, 2, 3, 4, 5]);
                let n = *r.pick(&[1, 1, 2, 2, 2, 2, 4, 5, 5, 7]);
                if i % 2 == 0 {
                    one::<Ec0>(ctx, r, k, n, 24)
                } else {
                    one::<Ec1>(ctx, r, k, n, 24)
                }
            });
        },
    )
}
