//! P08: every message the prover sends influences every challenge drawn after it and none
//! drawn before it. Challenges are read off the verifier's outputs.
use halo::*;
use hv::circ::*;
use hv::proofs::*;
use hv::*;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Msg {
    /// the commitment to the inputs, given explicitly
    K,
    /// the input values, the commitment to them computed from them
    Inputs,
    /// the input values under an unchanged commitment
    Ky,
    Commit(usize),
    Claim(usize),
    OldChallenge(usize),
    L(usize, usize),
    R(usize, usize),
    Lv(usize, usize),
    Rv(usize, usize),
}
const COMMIT: [&str; 6] = ["r", "s_cur", "t_positive", "t_negative", "c", "s_new"];
const CLAIM: [&str; 7] = ["rx", "rxy", "sx_old", "sx_cur", "tx_positive", "tx_negative", "sx_new"];
impl Msg {
    fn name(&self) -> String {
        match self {
            Msg::K => "k".into(),
            Msg::Inputs => "inputs".into(),
            Msg::Ky => "ky_opening".into(),
            Msg::Commit(i) => COMMIT[*i].into(),
            Msg::Claim(i) => format!("{}_opening", CLAIM[*i]),
            Msg::OldChallenge(_) => "gx_old_opening".into(),
            Msg::L(_, j) => format!("L_{}", j),
            Msg::R(_, j) => format!("R_{}", j),
            Msg::Lv(_, j) => format!("l_{}", j),
            Msg::Rv(_, j) => format!("r_{}", j),
        }
    }
    /// index of the first observable challenge drawn after the message: y_cur, x, y_new,
    /// then one per round
    fn first(&self) -> usize {
        match self {
            Msg::K | Msg::Inputs | Msg::Commit(0) => 0,
            Msg::Commit(1) | Msg::Commit(2) | Msg::Commit(3) => 1,
            Msg::Commit(4) => 2,
            Msg::Commit(_) | Msg::Claim(_) | Msg::Ky | Msg::OldChallenge(_) => 3,
            Msg::L(i, _) | Msg::R(i, _) | Msg::Lv(i, _) | Msg::Rv(i, _) => 3 + i,
        }
    }
}

struct Run<C: PC> {
    params: Params<C>,
    circuit: Prog<C::S>,
    inputs: Vec<C::S>,
    old: Leftovers<C>,
    proof: Proof<C>,
    kc: C,
    challenges: Vec<C::S>,
    k: usize,
}

fn challenges<C: PC>(ctx: &Ctx, params: &Params<C>, circuit: &Prog<C::S>, old: &Leftovers<C>, proof: &Proof<C>, inputs: &[C::S], kc: Option<C>) -> Option<(Vec<C::S>, Leftovers<C>, bool)> {
    match ctx.guard(|| proof.verify::<_, Basic>(old, params, circuit, inputs, kc)) {
        Ok(Ok((ok, left, def, _))) => {
            let mut v = vec![def.y_cur, def.x, def.y_new];
            v.extend(left.challenges_sq_packed_new.iter().cloned());
            Some((v, left, ok))
        }
        _ => None,
    }
}

fn alter_point<C: PC>(r: &mut Rng, p: &mut C, how: usize) -> &'static str {
    match how {
        0 => {
            // same ordinate, other abscissa
            match p.get_xy().to_option() {
                Some((x, y)) => *p = C::from_xy_unchecked(x * &C::BETA_BASE, y),
                None => *p = rand_pt(r),
            }
            "endo"
        }
        1 => {
            if bool::from(p.is_zero()) {
                *p = C::one();
            } else {
                *p = -*p;
            }
            "negation"
        }
        2 => {
            *p = rand_pt(r);
            "random"
        }
        3 => {
            if bool::from(p.is_zero()) {
                *p = -C::one();
            } else {
                *p = C::zero();
            }
            "identity"
        }
        _ => {
            *p = *p + C::one();
            "shift"
        }
    }
}
fn alter_scalar<C: PC>(r: &mut Rng, s: &mut C::S, how: usize) -> &'static str {
    let old = *s;
    let name = match how {
        0 => {
            *s = old * &C::BETA_SCALAR;
            "endo"
        }
        1 => {
            *s = -old;
            "negation"
        }
        2 => {
            *s = rand_f(r);
            "random"
        }
        3 => {
            *s = C::S::zero();
            "zero"
        }
        _ => {
            *s = old + &C::S::one();
            "shift"
        }
    };
    if *s == old {
        *s = old + &C::S::one();
        return "shift";
    }
    name
}

fn probe<C: PC>(ctx: &Ctx, r: &mut Rng, b: &Run<C>, m: Msg, how: usize) {
    let mut p = b.proof.clone();
    let mut old = b.old.clone();
    let mut inputs = b.inputs.clone();
    let mut kc = Some(b.kc);
    let name = match m {
        Msg::K => {
            let mut k = b.kc;
            let n = alter_point(r, &mut k, how);
            kc = Some(k);
            n
        }
        Msg::Inputs | Msg::Ky => {
            if inputs.is_empty() {
                return;
            }
            let i = r.below(inputs.len());
            if m == Msg::Inputs {
                kc = None;
            }
            alter_scalar::<C>(r, &mut inputs[i], how)
        }
        Msg::Commit(i) => alter_point(
            r,
            [&mut p.r_commitment, &mut p.s_cur_commitment, &mut p.t_positive_commitment, &mut p.t_negative_commitment, &mut p.c_commitment, &mut p.s_new_commitment][i],
            how,
        ),
        Msg::Claim(i) => alter_scalar::<C>(
            r,
            [&mut p.rx_opening, &mut p.rxy_opening, &mut p.sx_old_opening, &mut p.sx_cur_opening, &mut p.tx_positive_opening, &mut p.tx_negative_opening, &mut p.sx_new_opening][i],
            how,
        ),
        Msg::OldChallenge(i) => {
            // another packed challenge that expands to a square
            loop {
                let c = C::S::from_u128(r.u128() | 1 << 127);
                let e: C::S = get_challenge_scalar(c);
                if bool::from(e.sqrt().is_some()) && !fzero(&e) {
                    old.challenges_sq_packed_new[i] = c;
                    break;
                }
            }
            "random"
        }
        Msg::L(i, j) => alter_point(r, &mut p.inner_product.rounds[i].L[j], how),
        Msg::R(i, j) => alter_point(r, &mut p.inner_product.rounds[i].R[j], how),
        Msg::Lv(i, j) => alter_scalar::<C>(r, &mut p.inner_product.rounds[i].l[j], how),
        Msg::Rv(i, j) => alter_scalar::<C>(r, &mut p.inner_product.rounds[i].r[j], how),
    };
    let key = format!("{} k={} {:?} {}", C::CNAME, b.k, m, name);
    ctx.case_str(&format!("{} {:?}", key, b.challenges[0]));
    ctx.sample(|| key.clone());
    let got = match challenges(ctx, &b.params, &b.circuit, &old, &p, &inputs, kc) {
        Some((c, _, _)) => c,
        None => {
            ctx.count("altered transcripts answered with an error", 1);
            return;
        }
    };
    ctx.count("altered transcripts observed", 1);
    ctx.count(&format!("alterations: {}", name), 1);
    let first = m.first();
    ctx.check(got.len() == b.challenges.len(), "challenge count", || key.clone());
    for (i, (x, y)) in got.iter().zip(&b.challenges).enumerate() {
        if i < first {
            ctx.count("earlier challenges compared", 1);
            ctx.check(x == y, "message affects an earlier challenge", || format!("{}: challenge {} of {:?}", key, i, b.challenges));
        } else {
            ctx.count("later challenges compared", 1);
            if !ctx.check(x != y, &format!("{}-blind:{}", name, m.name()), || {
                format!("{}: challenge {} is unchanged; proof over {:?} inputs {:?}", key, i, b.circuit, b.inputs)
            }) {
                break;
            }
        }
    }
}

fn point_of<C: PC>(p: &mut Proof<C>, m: Msg) -> Option<&mut C> {
    Some(match m {
        Msg::Commit(0) => &mut p.r_commitment,
        Msg::Commit(1) => &mut p.s_cur_commitment,
        Msg::Commit(2) => &mut p.t_positive_commitment,
        Msg::Commit(3) => &mut p.t_negative_commitment,
        Msg::Commit(4) => &mut p.c_commitment,
        Msg::Commit(5) => &mut p.s_new_commitment,
        Msg::L(i, j) => &mut p.inner_product.rounds[i].L[j],
        Msg::R(i, j) => &mut p.inner_product.rounds[i].R[j],
        _ => return None,
    })
}
fn scalar_of<C: PC>(p: &mut Proof<C>, m: Msg) -> Option<&mut C::S> {
    Some(match m {
        Msg::Claim(0) => &mut p.rx_opening,
        Msg::Claim(1) => &mut p.rxy_opening,
        Msg::Claim(2) => &mut p.sx_old_opening,
        Msg::Claim(3) => &mut p.sx_cur_opening,
        Msg::Claim(4) => &mut p.tx_positive_opening,
        Msg::Claim(5) => &mut p.tx_negative_opening,
        Msg::Claim(6) => &mut p.sx_new_opening,
        Msg::Lv(i, j) => &mut p.inner_product.rounds[i].l[j],
        Msg::Rv(i, j) => &mut p.inner_product.rounds[i].r[j],
        _ => return None,
    })
}

/// Two messages of one kind: what one gives up the other takes, so that any way of
/// combining them symmetrically, or of leaving out a neutral one, goes unnoticed.
fn pair<C: PC>(ctx: &Ctx, r: &mut Rng, b: &Run<C>, m1: Msg, m2: Msg, how: usize) {
    let (mut p, mut q) = (b.proof.clone(), b.proof.clone());
    let points = point_of::<C>(&mut p, m1).is_some();
    let same;
    if points {
        let (x, y) = (*point_of(&mut p, m1).unwrap(), *point_of(&mut p, m2).unwrap());
        let (pp, qq) = match how {
            0 => ((x, y), (y, x)),
            1 => ((x, y), (x + C::one(), y - C::one())),
            2 => {
                let z: C = rand_pt(r);
                ((C::zero(), z), (z, C::zero()))
            }
            _ => ((x, y), (-x, -y)),
        };
        *point_of(&mut p, m1).unwrap() = pp.0;
        *point_of(&mut p, m2).unwrap() = pp.1;
        *point_of(&mut q, m1).unwrap() = qq.0;
        *point_of(&mut q, m2).unwrap() = qq.1;
        same = (pt_of(&pp.0) == pt_of(&qq.0), pt_of(&pp.1) == pt_of(&qq.1));
        if same.0 && same.1 {
            return ctx.count("pairs of equal messages", 1);
        }
    } else {
        let (x, y) = (*scalar_of::<C>(&mut p, m1).unwrap(), *scalar_of::<C>(&mut p, m2).unwrap());
        let (pp, qq) = match how {
            0 => ((x, y), (y, x)),
            1 => ((x, y), (x + &C::S::one(), y - &C::S::one())),
            2 => {
                let z: C::S = rand_f(r);
                ((C::S::zero(), z), (z, C::S::zero()))
            }
            _ => ((x, y), (-x, -y)),
        };
        *scalar_of::<C>(&mut p, m1).unwrap() = pp.0;
        *scalar_of::<C>(&mut p, m2).unwrap() = pp.1;
        *scalar_of::<C>(&mut q, m1).unwrap() = qq.0;
        *scalar_of::<C>(&mut q, m2).unwrap() = qq.1;
        same = (pp.0 == qq.0, pp.1 == qq.1);
        if same.0 && same.1 {
            return ctx.count("pairs of equal messages", 1);
        }
    }
    let what = ["exchanged", "shifted against each other", "one of them neutral", "both negated"][how];
    let key = format!("{} k={} {:?} and {:?} {}", C::CNAME, b.k, m1, m2, what);
    ctx.case_str(&format!("{} {:?}", key, b.challenges[0]));
    let run = |p: &Proof<C>| challenges(ctx, &b.params, &b.circuit, &b.old, p, &b.inputs, Some(b.kc)).map(|x| x.0);
    let (x, y) = match (run(&p), run(&q)) {
        (Some(x), Some(y)) => (x, y),
        _ => return ctx.count("altered transcripts answered with an error", 1),
    };
    ctx.count("pairs of transcripts compared", 1);
    ctx.count(&format!("pairs: {}", what), 1);
    let first = if same.0 { m2.first() } else if same.1 { m1.first() } else { m1.first().min(m2.first()) };
    for i in 0..x.len() {
        if i < first {
            ctx.check(x[i] == y[i], "message affects an earlier challenge", || format!("{}: challenge {}", key, i));
        } else if !ctx.check(x[i] != y[i], &format!("pair-blind:{}:{}", m1.name(), m2.name()), || format!("{}: challenge {} is the same; proof over {:?} inputs {:?}", key, i, b.circuit, b.inputs)) {
            break;
        }
    }
}

/// Challenges of unrelated transcripts must not repeat, and must span the challenge space.
#[derive(Default)]
struct Pool {
    seen: std::collections::HashMap<u128, usize>,
    basis: Vec<u128>,
    origin: Option<u128>,
}
impl Pool {
    fn add(&mut self, c: u128, transcript: usize) -> bool {
        let fresh = self.seen.insert(c, transcript).is_none();
        let o = *self.origin.get_or_insert(c);
        let mut v = c ^ o;
        for b in &self.basis {
            v = v.min(v ^ b);
        }
        if v != 0 {
            self.basis.push(v);
        }
        fresh
    }
}

fn session<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize, per: usize, pool: &Mutex<Pool>) {
    let params: Params<C> = Params::new(k);
    let ni = r.below(4);
    let p = fitting::<C::S>(r, k, ni);
    let dummy = Leftovers::dummy(&params);
    let deep = r.bool();
    let made = ctx.guard(|| {
        let (p1, l1) = Proof::new::<_, Basic>(&params, &p, &dummy).ok()?;
        if deep {
            let (p2, l2) = Proof::new::<_, Basic>(&params, &p, &l1).ok()?;
            Some((l1, p2, l2))
        } else {
            Some((dummy.clone(), p1, l1))
        }
    });
    let (old, proof, left) = match made {
        Ok(Some(x)) => x,
        _ => {
            ctx.count("provers that failed (see P01)", 1);
            return;
        }
    };
    let circuit = p.blank();
    let inputs = p.inputs();
    // the same challenges on both sides, however the commitment is supplied
    let a = Asg::of(&p, true).unwrap();
    let kc = params.commit(&ky_poly(&a, &inputs), false);
    let (v, vleft, ok) = match challenges(ctx, &params, &circuit, &old, &proof, &inputs, None) {
        Some(x) => x,
        None => {
            ctx.count("honest proofs not verifiable (see P01)", 1);
            return;
        }
    };
    if !ok {
        ctx.count("honest proofs rejected (see P01)", 1);
        return;
    }
    ctx.count("honest transcripts", 1);
    let same = pt_of(&left.s_new_commitment) == pt_of(&vleft.s_new_commitment)
        && pt_of(&left.g_new) == pt_of(&vleft.g_new)
        && left.y_new == vleft.y_new
        && left.challenges_sq_packed_new == vleft.challenges_sq_packed_new;
    ctx.check(same, "prover and verifier disagree on the challenges", || format!("{} k={} {:?}: {:?} and {:?}", C::CNAME, k, p, left, vleft));
    let again = challenges(ctx, &params, &circuit, &old, &proof, &inputs, Some(kc)).map(|x| x.0);
    ctx.check(again.as_ref() == Some(&v), "challenges depend on how the input commitment is supplied", || format!("{} k={} {:?}", C::CNAME, k, p));
    for (i, c) in v.iter().enumerate() {
        let w = u_of(c);
        let c = (w.0[0] as u128) | (w.0[1] as u128) << 64;
        ctx.check(w.0[2] | w.0[3] == 0, "challenge longer than 128 bits", || format!("{:?}", v));
        let fresh = pool.lock().unwrap().add(c, i);
        ctx.check(fresh, "challenge repeated in another transcript", || format!("{} k={} challenge {}: {:032x}", C::CNAME, k, i, c));
        ctx.count("challenges of honest transcripts", 1);
    }
    for i in 0..v.len() {
        for j in 0..i {
            ctx.check(v[i] != v[j], "challenge drawn twice", || format!("{} k={} challenges {} and {} of {:?}", C::CNAME, k, j, i, v));
        }
    }
    let b = Run { params, circuit, inputs, old, proof, kc, challenges: v, k };
    let mut msgs = vec![Msg::K, Msg::Inputs, Msg::Ky];
    msgs.extend((0..6).map(Msg::Commit));
    msgs.extend((0..7).map(Msg::Claim));
    msgs.extend((0..k).map(Msg::OldChallenge));
    let base = msgs.len();
    for i in 0..k {
        for j in 0..5 {
            msgs.extend(vec![Msg::L(i, j), Msg::R(i, j), Msg::Lv(i, j), Msg::Rv(i, j)]);
        }
    }
    for (n, m) in msgs.iter().enumerate() {
        for how in 0..5 {
            if ctx.done() {
                break;
            }
            // endomorphism image and negation always for the early messages
            if n < base && how < 2 || r.below(100) < per {
                probe(ctx, r, &b, *m, how);
            }
        }
    }
    // pairs: neighbours in the transcript, and any two
    let (pts, scs): (Vec<Msg>, Vec<Msg>) = {
        let mut p = b.proof.clone();
        let pts: Vec<Msg> = msgs.iter().cloned().filter(|m| point_of::<C>(&mut p, *m).is_some()).collect();
        let scs = msgs.iter().cloned().filter(|m| scalar_of::<C>(&mut p, *m).is_some()).collect();
        (pts, scs)
    };
    for list in [&pts, &scs].iter() {
        for i in 0..list.len() {
            let j = if r.bool() { (i + 1) % list.len() } else { r.below(list.len()) };
            if i != j && (i < 7 || r.below(100) < per / 3) {
                let how = r.below(4);
                pair(ctx, r, &b, list[i], list[j], how);
            }
        }
    }
}

/// Many short transcripts, for the spread of the challenges.
fn spread<C: PC>(ctx: &Ctx, r: &mut Rng, params: &Params<C>, pool: &Mutex<Pool>, n: usize) {
    let p = fitting::<C::S>(r, params.k, 1);
    let dummy = Leftovers::dummy(params);
    let proof = match ctx.guard(|| Proof::new::<_, Basic>(params, &p, &dummy).ok()) {
        Ok(Some((x, _))) => x,
        _ => return ctx.count("provers that failed (see P01)", 1),
    };
    for i in 0..n {
        let mut q = proof.clone();
        q.r_commitment = rand_pt(r);
        if let Some((c, _, _)) = challenges(ctx, params, &p.blank(), &dummy, &q, &p.inputs(), Some(C::one())) {
            for (j, c) in c.iter().enumerate() {
                let w = u_of(c);
                let c = (w.0[0] as u128) | (w.0[1] as u128) << 64;
                let fresh = pool.lock().unwrap().add(c, i);
                ctx.check(fresh, "challenge repeated in another transcript", || format!("{} k={} challenge {}: {:032x}", C::CNAME, params.k, j, c));
                ctx.count("challenges of altered transcripts", 1);
            }
        }
    }
}

fn main() {
    run(
        "P08",
        "honest transcripts; every message in turn replaced by its endomorphism image, negation, identity or zero, neighbour or a random value, and every observable challenge compared; seeded",
        75,
        400,
        |ctx| {
            let per = ctx.scale(35, 80);
            let pools = [Mutex::new(Pool::default()), Mutex::new(Pool::default())];
            {
                let p0 = Params::<Ec0>::new(4);
                let p1 = Params::<Ec1>::new(4);
                ctx.par("spread", ctx.scale(8, 40), |i, r| {
                    if i % 2 == 0 {
                        spread::<Ec0>(ctx, r, &p0, &pools[0], 30)
                    } else {
                        spread::<Ec1>(ctx, r, &p1, &pools[1], 30)
                    }
                });
            }
            ctx.par("transcripts", ctx.scale(16, 400), |i, r| {
                let k = 4 + r.below(ctx.scale(2, 3));
                if i % 2 == 0 {
                    session::<Ec0>(ctx, r, k, per, &pools[0])
                } else {
                    session::<Ec1>(ctx, r, k, per, &pools[1])
                }
            });
            for (i, p) in pools.iter().enumerate() {
                let p = p.lock().unwrap();
                ctx.max(&format!("challenge bits spanned on Ec{}", i), p.basis.len() as u64);
                if p.seen.len() >= 250 {
                    ctx.check(p.basis.len() >= 120, "challenges confined to a small subspace", || format!("Ec{}: {} challenges span {} bits", i, p.seen.len(), p.basis.len()));
                }
            }
        },
    )
}
