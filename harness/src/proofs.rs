//! Proofs: the complete verification procedure, and a prover of our own that follows the
//! protocol except for the lies it is told to tell.
use crate::big::*;
use crate::circ::*;
use crate::curve::*;
use crate::field::*;
use crate::rng::Rng;
use halo::rescue::Rescue;
use halo::*;

// ---------------------------------------------------------------- statements

/// A program that fits parameters of size k with `inputs` public inputs (at most).
pub fn fitting<F: PF>(r: &mut Rng, k: usize, inputs: usize) -> Prog<F> {
    let n = (1usize << k) / 4;
    loop {
        let full = r.one_in(3);
        let s = Shape {
            ops: r.range(1, if full { 6 * n } else { 2 * n }),
            max_gates: n - 1,
            max_lcs: (1usize << k) - 2,
            inputs,
            namespaces: r.bool(),
        };
        let p = Prog::random(r, &s);
        let a = Asg::of(&p, true).expect("program");
        if a.n < n && a.q() < 4 * n {
            return p;
        }
    }
}

pub struct Verdict<C: Curve> {
    pub ok: bool,
    pub why: &'static str,
    pub parts: Option<(Leftovers<C>, Deferred<C::Scalar>, Vec<u8>)>,
}

/// What a careful user does with a proof: the verifier's verdict, the deferred relation
/// and the final check of the new leftovers.
pub fn full_verify<C: PC, K: Circuit<C::Scalar>>(
    params: &Params<C>,
    circuit: &K,
    old: &Leftovers<C>,
    proof: &Proof<C>,
    inputs: &[C::Scalar],
    kc: Option<C>,
) -> Verdict<C> {
    match proof.verify::<_, Basic>(old, params, circuit, inputs, kc) {
        Err(_) => Verdict { ok: false, why: "error", parts: None },
        Ok((ok, left, def, forks)) => {
            let why = if !ok {
                "opening"
            } else if !def.verify(params.k) {
                "deferred"
            } else {
                match left.verify::<_, Basic>(params, circuit) {
                    Ok(true) => "",
                    _ => "leftovers",
                }
            };
            Verdict {
                ok: why.is_empty(),
                why,
                parts: Some((left, def, forks)),
            }
        }
    }
}

// ---------------------------------------------------------------- polynomials

pub fn pow<F: Field>(x: F, e: usize) -> F {
    x.pow(&[e as u64, 0, 0, 0])
}
pub fn eval<F: Field>(p: &[F], x: F) -> F {
    let mut acc = F::zero();
    for c in p.iter().rev() {
        acc = acc * &x + c;
    }
    acc
}
/// s(X, y), lowest power x^-n first
pub fn sx<F: Field>(a: &Asg<F>, n: usize, y: F) -> Vec<F> {
    let mut out = vec![F::zero(); 3 * n + 1];
    let mut yq = F::one();
    for l in &a.lines {
        yq = yq * &y;
        for (v, c) in l {
            let i = match v {
                Variable::A(i) => n - i,
                Variable::B(i) => n + i,
                Variable::C(i) => 2 * n + i,
            };
            out[i] = out[i] + &(yq * c);
        }
    }
    out
}
/// x^n s(x, Y)
pub fn sy<F: Field>(a: &Asg<F>, n: usize, x: F) -> Vec<F> {
    let mut p = vec![F::one(); 3 * n + 1];
    for i in 1..p.len() {
        p[i] = p[i - 1] * &x;
    }
    let mut out = vec![F::zero()];
    for l in &a.lines {
        let mut acc = F::zero();
        for (v, c) in l {
            let i = match v {
                Variable::A(i) => n - i,
                Variable::B(i) => n + i,
                Variable::C(i) => 2 * n + i,
            };
            acc = acc + &(p[i] * c);
        }
        out.push(acc);
    }
    out
}
fn mulpoly<F: PF>(a: &[F], b: &[F]) -> Vec<F> {
    if a.len().min(b.len()) > 256 {
        return mulfast(a, b);
    }
    let mut o = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if bool::from(x.is_zero()) {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            o[i + j] = o[i + j] + &(*x * y);
        }
    }
    o
}
/// number-theoretic transform, in place (length a power of two)
fn ntt<F: Field>(v: &mut [F], root: F) {
    let n = v.len();
    let mut j = 0usize;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j ^= bit;
        if i < j {
            v.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        let w = pow(root, n / len);
        let mut tw = vec![F::one(); len / 2];
        for i in 1..len / 2 {
            tw[i] = tw[i - 1] * &w;
        }
        for c in v.chunks_mut(len) {
            for i in 0..len / 2 {
                let t = c[i + len / 2] * &tw[i];
                c[i + len / 2] = c[i] - &t;
                c[i] = c[i] + &t;
            }
        }
        len *= 2;
    }
}
fn mulfast<F: PF>(a: &[F], b: &[F]) -> Vec<F> {
    let out = a.len() + b.len() - 1;
    let n = out.next_power_of_two();
    // (p - 1) / n
    let mut e = F::P.wsub(&U::from_u64(1));
    for _ in 0..n.trailing_zeros() {
        e = e.shr1();
    }
    let root = F::from_u64(F::GEN).pow(&e.0);
    assert!(pow(root, n) == F::one() && pow(root, n / 2) != F::one(), "root of unity");
    let mut x = a.to_vec();
    let mut y = b.to_vec();
    x.resize(n, F::zero());
    y.resize(n, F::zero());
    ntt(&mut x, root);
    ntt(&mut y, root);
    for (x, y) in x.iter_mut().zip(&y) {
        *x = *x * y;
    }
    ntt(&mut x, root.invert().unwrap());
    let ni = F::from_u64(n as u64).invert().unwrap();
    for x in x.iter_mut() {
        *x = *x * &ni;
    }
    x.truncate(out);
    x
}
/// coefficients of the folded basis, from the packed squared challenges
pub fn fold_coeffs<F: Field>(packed: &[F]) -> Option<Vec<F>> {
    let mut out = vec![F::one()];
    for p in packed.iter().rev() {
        let c2: F = get_challenge_scalar(*p);
        let c = c2.sqrt();
        if !bool::from(c.is_some()) {
            return None;
        }
        let c = c.unwrap();
        let ci = c.invert();
        if !bool::from(ci.is_some()) {
            return None;
        }
        let ci = ci.unwrap();
        let lo: Vec<F> = out.iter().map(|v| *v * &ci).collect();
        let hi: Vec<F> = out.iter().map(|v| *v * &c).collect();
        out = lo;
        out.extend(hi);
    }
    Some(out)
}

// ---------------------------------------------------------------- transcript

fn point<C: Curve>(t: &mut Rescue<C::Base>, p: &C) {
    let xy = p.get_xy();
    let (x, y) = if bool::from(xy.is_some()) { xy.unwrap() } else { (C::Base::zero(), C::Base::zero()) };
    t.absorb(x);
    t.absorb(y);
}
fn scalar<C: Curve>(t: &mut Rescue<C::Base>, s: &C::Scalar) {
    point::<C>(t, &(C::one() * s));
}
fn challenge<C: Curve>(t: &mut Rescue<C::Base>) -> C::Scalar {
    let c = t.squeeze().get_lower_128() | (1 << 127);
    C::Scalar::from_u128(c)
}

// ---------------------------------------------------------------- the liar

/// The previous step as the prover knows it: the polynomials really committed to.
#[derive(Clone)]
pub struct Old<C: Curve> {
    pub left: Leftovers<C>,
    /// what s_new_commitment commits to
    pub s: Vec<C::Scalar>,
    /// what g_new commits to
    pub g: Vec<C::Scalar>,
}
impl<C: PC> Old<C> {
    pub fn dummy(params: &Params<C>) -> Self {
        let left = Leftovers::dummy(params);
        let g = fold_coeffs(&left.challenges_sq_packed_new).expect("dummy challenges");
        Old {
            left,
            s: vec![C::Scalar::zero(); 3 * params.n + 1],
            g,
        }
    }
    pub fn of(params: &Params<C>, a: &Asg<C::Scalar>, left: &Leftovers<C>) -> Option<Self> {
        Some(Old {
            s: sx(a, params.n, left.y_new),
            g: fold_coeffs(&left.challenges_sq_packed_new)?,
            left: left.clone(),
        })
    }
}

/// Which claimed value absorbs the difference that keeps the deferred relation true.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cover {
    /// none: every claim is what the committed polynomials really open to
    Nothing,
    TxPos,
    TxNeg,
    /// split over both halves so that the batched claim stays true (needs an early z)
    TxBoth,
    Rx,
    Rxy,
    SxCur,
    /// s_cur itself is another polynomial, opening to the needed value
    SCur,
    /// ... and the opening at y_cur of the s(x, Y) commitment agrees with it
    SCurAndC,
    /// ... and s_new agrees with that commitment as well
    SCurAndCAndSNew,
    /// s_cur is off by the constant by which the committed k(Y) is off at y
    QShift,
}
pub const COVERS: [Cover; 10] = [
    Cover::Nothing,
    Cover::TxPos,
    Cover::TxNeg,
    Cover::TxBoth,
    Cover::Rx,
    Cover::Rxy,
    Cover::SxCur,
    Cover::SCur,
    Cover::SCurAndC,
    Cover::SCurAndCAndSNew,
];

/// What is claimed about the previous step when its commitments are false.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OldClaim {
    /// the value the previous commitment really opens to
    Committed,
    /// the value the circuit demands
    Demanded,
    /// the committed value, with s(x, Y) bent to agree, and s_new bent too
    Bent,
    BentNew,
}

/// The protocol as the prover believes it to be.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Protocol {
    /// term left out of the batched opening (0 r, 1 s_old, 2 s_cur, 3 t+, 4 t-, 5 s_new, 6 g_old, 7 k in q)
    pub without: Option<usize>,
    /// z is drawn before this claim (9: after all of them)
    pub z_at: usize,
    /// this term shares its power of z with the one before it (7: k with s(x, Y))
    pub same: Option<usize>,
}
pub const STANDARD: Protocol = Protocol { without: None, z_at: 9, same: None };

#[derive(Clone, Debug)]
pub struct Lie<F: Field> {
    pub protocol: Protocol,
    pub cover: Cover,
    pub old: OldClaim,
    /// polynomial really committed to as k(Y) (None: the claimed inputs)
    pub ky: Option<Vec<F>>,
    /// the new leftovers commit to another polynomial
    pub false_new_s: bool,
    /// ... one with the same value at x
    pub false_new_s_same_x: bool,
    /// one opening (0 batch, 1 r(xy), 2 s_old, 3 q) claims this multiple of the truth
    pub scaled: Option<(usize, F)>,
}
impl<F: Field> Lie<F> {
    pub fn none() -> Self {
        Lie {
            protocol: STANDARD,
            cover: Cover::Nothing,
            old: OldClaim::Committed,
            ky: None,
            false_new_s: false,
            false_new_s_same_x: false,
            scaled: None,
        }
    }
}

/// A forged proof; its last message matches the commitments, `by_value` is the
/// alternative that matches the claimed values instead.
pub struct Forged<C: Curve> {
    pub proof: Proof<C>,
    pub kc: C,
    pub by_value: Vec<C::Scalar>,
}
impl<C: Curve> Forged<C> {
    /// both versions, without repetition
    pub fn versions(&self) -> Vec<(&'static str, Proof<C>)> {
        let mut o = vec![("by commitment", self.proof.clone())];
        if self.by_value != self.proof.inner_product.a {
            let mut p = self.proof.clone();
            p.inner_product.a = self.by_value.clone();
            o.push(("by value", p));
        }
        o
    }
}

/// Does the assignment violate a gate or a line (given k(Y))?
pub fn unsatisfied<F: Field>(a: &Asg<F>, ky: &[F]) -> Option<String> {
    for i in 0..a.n {
        if a.a[i] * &a.b[i] != a.c[i] {
            return Some(format!("gate {} of {}", i + 1, a.n));
        }
    }
    for (q, l) in a.lines.iter().enumerate() {
        let mut acc = F::zero();
        for (v, c) in l {
            let x = match v {
                Variable::A(i) => a.a[i - 1],
                Variable::B(i) => a.b[i - 1],
                Variable::C(i) => a.c[i - 1],
            };
            acc = acc + &(x * c);
        }
        if acc != ky.get(q + 1).cloned().unwrap_or(F::zero()) {
            return Some(format!("line {} of {}", q + 1, a.lines.len()));
        }
    }
    None
}

/// k(Y) of the given inputs (the constant one included) at the circuit's input lines
pub fn ky_poly<F: Field>(a: &Asg<F>, inputs: &[F]) -> Vec<F> {
    let mut ky = vec![F::zero()];
    for ((i, _), v) in a.inputs.iter().zip(Some(F::one()).iter().chain(inputs.iter())) {
        if ky.len() < i + 1 {
            ky.resize(i + 1, F::zero());
        }
        ky[*i] = *v;
    }
    ky
}

/// Run the protocol on the wire values in `a` (which need not satisfy anything), claiming
/// `inputs`. Returns the proof and the commitment to k(Y) it uses.
pub fn forge<C: PC>(
    params: &Params<C>,
    a: &Asg<C::Scalar>,
    inputs: &[C::Scalar],
    old: &Old<C>,
    lie: &Lie<C::Scalar>,
    r: &mut Rng,
) -> Option<Forged<C>> {
    type S<C> = <C as Curve>::Scalar;
    let (n, d, k) = (params.n, params.d, params.k);
    if a.n > n || a.q() >= d {
        return None;
    }
    let zero = S::<C>::zero();
    let one = S::<C>::one();
    let commit = |p: &[S<C>], right: bool| -> C {
        if right {
            multiexp(p, &params.generators[d - p.len()..])
        } else {
            multiexp(p, &params.generators[..p.len()])
        }
    };
    let open_right = |p: &[S<C>], x: S<C>| eval(p, x) * &pow(x, d - p.len());
    let mut t = Rescue::<C::Base>::new();

    let true_ky = ky_poly(a, inputs);
    let ky = lie.ky.clone().unwrap_or_else(|| true_ky.clone());
    let kc = commit(&ky, false);
    point::<C>(&mut t, &kc);

    let pad = |v: &[S<C>]| {
        let mut v = v.to_vec();
        v.resize(n, zero);
        v
    };
    let mut rx: Vec<S<C>> = pad(&a.c).into_iter().rev().collect();
    rx.extend(pad(&a.b).into_iter().rev());
    rx.push(zero);
    rx.extend(pad(&a.a));
    let rc = commit(&rx, true);
    point::<C>(&mut t, &rc);
    let y = challenge::<C>(&mut t);
    let yi = y.invert().unwrap();

    let true_s = sx(a, n, y);
    let mut rxy = rx.clone();
    let mut cur = pow(y, n);
    for c in rxy.iter_mut().rev() {
        *c = *c * &cur;
        cur = cur * &yi;
    }
    let mut rp = rxy.clone();
    rp.resize(4 * n + 1, zero);
    let yn = pow(y, n);
    for i in 0..3 * n + 1 {
        let mut c = true_s[i] * &yn;
        if i > 2 * n {
            c = c - &pow(y, i - 2 * n) - &pow(yi, i - 2 * n);
        }
        rp[n + i] = rp[n + i] + &c;
    }
    let tx = mulpoly(&rx, &rp);
    let tpos = tx[4 * n + 1..].to_vec();
    let tneg = tx[..4 * n].to_vec();
    let factor = |j: usize| match lie.scaled {
        Some((i, f)) if i == j => f,
        _ => one,
    };
    // the polynomial committed to as s_cur: when it is bent, the amount is only known
    // after x, so the bend is left to the claim; a bent commitment uses another circuit
    let mut s_cur = true_s.clone();
    let bend_s = matches!(lie.cover, Cover::SCur | Cover::SCurAndC | Cover::SCurAndCAndSNew);
    if bend_s {
        // choose s_cur so that the constant coefficient of t vanishes as demanded:
        // r(X) * (r' + e X^j) has coefficient 4n changed by e * rx[4n - n - j'] ...
        let want = eval(&true_ky, y) * &yn;
        let delta = want - &tx[4 * n];
        let mut done = false;
        for i in 0..3 * n + 1 {
            // position n + i of r' meets rx[3n - i]
            if 3 * n - i < rx.len() && rx[3 * n - i] != zero {
                let e = delta * &rx[3 * n - i].invert().unwrap() * &yn.invert().unwrap();
                s_cur[i] = s_cur[i] + &e;
                done = true;
                break;
            }
        }
        if !done {
            return None;
        }
    }
    if lie.cover == Cover::QShift {
        s_cur[0] = s_cur[0] + &(eval(&ky, y) - &eval(&true_ky, y));
    }
    for c in s_cur.iter_mut() {
        *c = *c * &factor(3);
    }
    let (tpos, tneg) = if bend_s || lie.cover == Cover::QShift || lie.scaled.is_some() {
        let mut rp: Vec<S<C>> = rxy.iter().map(|v| *v * &factor(1)).collect();
        rp.resize(4 * n + 1, zero);
        for i in 0..3 * n + 1 {
            let mut c = s_cur[i] * &factor(0) * &yn;
            if i > 2 * n {
                c = c - &pow(y, i - 2 * n) - &pow(yi, i - 2 * n);
            }
            rp[n + i] = rp[n + i] + &c;
        }
        let tx = mulpoly(&rx, &rp);
        (tx[4 * n + 1..].to_vec(), tx[..4 * n].to_vec())
    } else {
        (tpos, tneg)
    };
    let sc = commit(&s_cur, false);
    let tpc = commit(&tpos, false);
    let tnc = commit(&tneg, false);
    point::<C>(&mut t, &sc);
    point::<C>(&mut t, &tpc);
    point::<C>(&mut t, &tnc);
    let x = challenge::<C>(&mut t);

    let y_old = old.left.y_new;
    let mut c = sy(a, n, x);
    for v in c.iter_mut() {
        *v = *v * &factor(0);
    }
    // the value the s(x, Y) commitment has to take at y_cur / y_old after bending
    let s_old_committed = eval(&old.s, x) * &factor(0);
    let s_old_demanded = eval(&c, y_old);
    let mut fixes: Vec<(S<C>, S<C>)> = vec![];
    match lie.old {
        OldClaim::Bent | OldClaim::BentNew => {
            fixes.push((y_old, s_old_committed - &s_old_demanded));
            fixes.push((y, zero));
        }
        _ => {}
    }
    if matches!(lie.cover, Cover::SCurAndC | Cover::SCurAndCAndSNew) {
        let e = eval(&s_cur, x) - &eval(&c, y);
        if fixes.is_empty() {
            fixes.push((y_old, zero));
            fixes.push((y, e));
        } else {
            fixes[1].1 = e;
        }
    }
    if !fixes.is_empty() && y_old != y {
        // add the line through both points
        let (p0, p1) = (fixes[0], fixes[1]);
        let slope = (p1.1 - &p0.1) * &(p1.0 - &p0.0).invert().unwrap();
        let icept = p0.1 - &(slope * &p0.0);
        if c.len() < 2 {
            c.resize(2, zero);
        }
        c[0] = c[0] + &icept;
        c[1] = c[1] + &slope;
    }
    let cc = commit(&c, false);
    point::<C>(&mut t, &cc);
    let y_new = challenge::<C>(&mut t);
    let mut s_new = sx(a, n, y_new);
    let xi = x.invert().unwrap();
    let bend_new = lie.cover == Cover::SCurAndCAndSNew || lie.old == OldClaim::BentNew;
    if bend_new {
        // make s_new(x) agree with c(y_new)
        let e = eval(&c, y_new) - &eval(&s_new, x);
        let j = r.below(s_new.len());
        s_new[j] = s_new[j] + &(e * &pow(x, j).invert().unwrap());
    }
    if lie.false_new_s {
        let j = r.below(s_new.len() - 1);
        s_new[j] = s_new[j] + &one;
        if lie.false_new_s_same_x {
            // divisible by X - x
            s_new[j + 1] = s_new[j + 1] - &xi;
        }
    }
    let snc = commit(&s_new, false);
    point::<C>(&mut t, &snc);

    // claims
    let ky_open = eval(&true_ky, y) * &factor(3);
    let mut rx_open = open_right(&rx, x) * &factor(0);
    let mut rxy_open = open_right(&rx, x * &y) * &factor(1);
    let sx_old_open = match lie.old {
        OldClaim::Demanded => s_old_demanded,
        _ => s_old_committed,
    };
    let mut sx_cur_open = eval(&s_cur, x) * &factor(0);
    let mut tp_open = eval(&tpos, x) * &factor(0);
    let mut tn_open = eval(&tneg, x) * &factor(0);
    // the bent s(x, Y) opens to whatever it opens to; honest s_new otherwise
    let sx_new_open = eval(&s_new, x) * &factor(0);
    let old_roots: Vec<(S<C>, S<C>)> = {
        let mut v = vec![];
        for p in &old.left.challenges_sq_packed_new {
            let c2: S<C> = get_challenge_scalar(*p);
            let c = c2.sqrt();
            if !bool::from(c.is_some()) {
                return None;
            }
            let c = c.unwrap();
            v.push((c, c.invert().unwrap()));
        }
        v
    };
    let bfold = |x: S<C>, roots: &[(S<C>, S<C>)]| -> S<C> {
        let mut acc = one;
        let mut p = x;
        for (c, ci) in roots.iter().rev() {
            acc = acc * &(*ci + &(*c * &p));
            p = p * &p;
        }
        acc
    };
    let g_open = bfold(x, &old_roots);

    // absorb, drawing z where the protocol says so
    let mut z = None;
    let relation = |rx: S<C>, rxy: S<C>, s: S<C>, tp: S<C>, tn: S<C>| -> S<C> {
        // rhs - lhs
        let mut g = zero;
        let (xy, xdy) = (x * &y, x * &yi);
        let (mut p, mut q) = (xy, xdy);
        for _ in 0..n {
            g = g + &p + &q;
            p = p * &xy;
            q = q * &xdy;
        }
        let l = s * &pow(xi, n) * &yn - &(g * &pow(x, n)) + &(rxy * &pow(xi * &yi, 3 * n - 1));
        let l = l * &rx * &pow(xi, 3 * n - 1) - &(ky_open * &yn);
        tp * &x + &(tn * &pow(xi, 4 * n)) - &l
    };
    let zmaybe = |t: &mut Rescue<C::Base>, i: usize, z: &mut Option<S<C>>| {
        if lie.protocol.z_at == i && z.is_none() {
            *z = Some(get_challenge_scalar(challenge::<C>(t)));
        }
    };
    // covers that need no z are applied before anything is sent
    let diff = relation(rx_open, rxy_open, sx_cur_open, tp_open, tn_open);
    match lie.cover {
        Cover::TxPos => tp_open = tp_open - &(diff * &xi),
        Cover::TxNeg => tn_open = tn_open - &(diff * &pow(x, 4 * n)),
        Cover::Rx => {
            // lhs = rx * A - ky
            let unit = relation(zero, rxy_open, sx_cur_open, tp_open, tn_open);
            let slope = unit - &relation(one, rxy_open, sx_cur_open, tp_open, tn_open);
            if slope == zero {
                return None;
            }
            rx_open = unit * &slope.invert().unwrap();
        }
        Cover::Rxy => {
            let u = relation(rx_open, zero, sx_cur_open, tp_open, tn_open);
            let slope = u - &relation(rx_open, one, sx_cur_open, tp_open, tn_open);
            if slope == zero {
                return None;
            }
            rxy_open = u * &slope.invert().unwrap();
        }
        Cover::SxCur => {
            let u = relation(rx_open, rxy_open, zero, tp_open, tn_open);
            let slope = u - &relation(rx_open, rxy_open, one, tp_open, tn_open);
            if slope == zero {
                return None;
            }
            sx_cur_open = u * &slope.invert().unwrap();
        }
        _ => {}
    }
    zmaybe(&mut t, 0, &mut z);
    scalar::<C>(&mut t, &ky_open);
    zmaybe(&mut t, 1, &mut z);
    scalar::<C>(&mut t, &rx_open);
    zmaybe(&mut t, 2, &mut z);
    scalar::<C>(&mut t, &rxy_open);
    zmaybe(&mut t, 3, &mut z);
    scalar::<C>(&mut t, &sx_old_open);
    zmaybe(&mut t, 4, &mut z);
    scalar::<C>(&mut t, &sx_cur_open);
    zmaybe(&mut t, 5, &mut z);
    if lie.cover == Cover::TxBoth {
        // x d1 + x^-4n d2 = -diff  and  z d1 + d2 = 0 (a guess of one when z is unknown)
        let zz = z.unwrap_or(one);
        let det = x - &(pow(xi, 4 * n) * &zz);
        if det == zero {
            return None;
        }
        let d1 = -diff * &det.invert().unwrap();
        tp_open = tp_open + &d1;
        tn_open = tn_open - &(d1 * &zz);
    }
    scalar::<C>(&mut t, &tp_open);
    zmaybe(&mut t, 6, &mut z);
    scalar::<C>(&mut t, &tn_open);
    zmaybe(&mut t, 7, &mut z);
    scalar::<C>(&mut t, &sx_new_open);
    zmaybe(&mut t, 8, &mut z);
    scalar::<C>(&mut t, &g_open);
    zmaybe(&mut t, 9, &mut z);
    let z = z.unwrap();

    // batched instance
    let polys: [(&[S<C>], S<C>, bool); 7] = [
        (&rx, rx_open, true),
        (&old.s, sx_old_open, false),
        (&s_cur, sx_cur_open, false),
        (&tpos, tp_open, false),
        (&tneg, tn_open, false),
        (&s_new, sx_new_open, false),
        (&old.g, g_open, false),
    ];
    let mut px = vec![zero; d];
    let mut pv = zero;
    for (i, (p, v, right)) in polys.iter().enumerate() {
        if lie.protocol.without == Some(i) {
            continue;
        }
        if lie.protocol.same != Some(i) {
            for e in px.iter_mut() {
                *e = *e * &z;
            }
            pv = pv * &z;
        }
        pv = pv + v;
        let off = if *right { d - p.len() } else { 0 };
        for (j, e) in p.iter().enumerate() {
            px[off + j] = px[off + j] + e;
        }
    }
    let mut q = c.clone();
    let mut qv = sx_cur_open;
    if lie.protocol.without != Some(7) {
        if q.len() < ky.len() {
            q.resize(ky.len(), zero);
        }
        let z = if lie.protocol.same == Some(7) { one } else { z };
        for (i, e) in ky.iter().enumerate() {
            q[i] = q[i] + &(*e * &z);
        }
        qv = qv + &(ky_open * &z);
    }
    let mut rfull = vec![zero; d - rx.len()];
    rfull.extend(rx.iter().cloned());
    let full = |p: &[S<C>]| {
        let mut p = p.to_vec();
        p.resize(d, zero);
        p
    };
    let inst: Vec<(Vec<S<C>>, S<C>, S<C>)> = vec![
        (px, pv, x),
        (rfull, rxy_open, x * &y),
        (full(&c), sx_old_open, y_old),
        (full(&q), qv, y),
        (full(&c), sx_new_open, y_new),
    ];
    let factors: Vec<S<C>> = (0..5).map(factor).collect();
    let (ip, by_value) = open_all::<C>(&mut t, inst, &factors, &params.generators, k, &bfold);
    Some(Forged {
        proof: Proof {
            r_commitment: rc,
            s_cur_commitment: sc,
            t_positive_commitment: tpc,
            t_negative_commitment: tnc,
            c_commitment: cc,
            s_new_commitment: snc,
            rx_opening: rx_open,
            rxy_opening: rxy_open,
            sx_old_opening: sx_old_open,
            sx_cur_opening: sx_cur_open,
            tx_positive_opening: tp_open,
            tx_negative_opening: tn_open,
            sx_new_opening: sx_new_open,
            inner_product: ip,
        },
        kc,
        by_value,
    })
}

/// Opening proof for (polynomial, claimed value, point) triples.
#[allow(non_snake_case)]
fn open_all<C: PC>(
    t: &mut Rescue<C::Base>,
    inst: Vec<(Vec<C::Scalar>, C::Scalar, C::Scalar)>,
    factors: &[C::Scalar],
    gens: &[C],
    k: usize,
    bfold: &dyn Fn(C::Scalar, &[(C::Scalar, C::Scalar)]) -> C::Scalar,
) -> (MultiPolynomialOpening<C>, Vec<C::Scalar>) {
    let ip = |a: &[C::Scalar], b: &[C::Scalar]| {
        let mut acc = C::Scalar::zero();
        for (x, y) in a.iter().zip(b) {
            acc = acc + &(*x * y);
        }
        acc
    };
    let mut g = gens.to_vec();
    let mut a: Vec<Vec<C::Scalar>> = inst.iter().map(|i| i.0.clone()).collect();
    let mut v: Vec<C::Scalar> = inst.iter().map(|i| i.1).collect();
    let mut b: Vec<Vec<C::Scalar>> = inst
        .iter()
        .map(|i| {
            let mut o = vec![C::Scalar::one()];
            for j in 1..1 << k {
                let n = o[j - 1] * &i.2;
                o.push(n);
            }
            o
        })
        .collect();
    let mut rounds = vec![];
    let mut roots = vec![];
    for round in (0..k).rev() {
        let h = 1usize << round;
        let (mut L, mut R, mut l, mut r) = (vec![], vec![], vec![], vec![]);
        for j in 0..inst.len() {
            L.push(multiexp(&a[j][..h], &g[h..]));
            R.push(multiexp(&a[j][h..], &g[..h]));
            l.push(ip(&a[j][..h], &b[j][h..]) * &factors[j]);
            r.push(ip(&a[j][h..], &b[j][..h]) * &factors[j]);
            point::<C>(t, &L[j]);
            point::<C>(t, &R[j]);
            scalar::<C>(t, &l[j]);
            scalar::<C>(t, &r[j]);
        }
        let mut fork = C::Base::zero();
        let mut tries = 0;
        let (c, c2) = loop {
            // (a fork absorbed where the sponge ignores it would loop for ever)
            tries += 1;
            assert!(tries < 120, "no square challenge");
            let mut t2 = t.clone();
            t2.absorb(fork);
            let c2: C::Scalar = get_challenge_scalar(challenge::<C>(&mut t2));
            let c = c2.sqrt();
            if bool::from(c.is_some()) {
                break (c.unwrap(), c2);
            }
            fork = fork + &C::Base::one();
        };
        t.absorb(fork);
        let _ = challenge::<C>(t);
        let ci = c.invert().unwrap();
        let ci2 = ci * &ci;
        for j in 0..inst.len() {
            v[j] = v[j] + &(l[j] * &c2) + &(r[j] * &ci2);
            for i in 0..h {
                a[j][i] = a[j][i] * &c + &(a[j][i + h] * &ci);
                b[j][i] = b[j][i] * &ci + &(b[j][i + h] * &c);
            }
            a[j].truncate(h);
            b[j].truncate(h);
        }
        for i in 0..h {
            g[i] = (g[i] * &ci) + (g[i + h] * &c);
        }
        g.truncate(h);
        roots.push((c, ci));
        rounds.push(InnerProductRound { L, R, l, r });
    }
    let by_value = (0..inst.len())
        .map(|j| {
            let i = bfold(inst[j].2, &roots).invert();
            if bool::from(i.is_some()) {
                v[j] * &i.unwrap()
            } else {
                a[j][0]
            }
        })
        .collect();
    let by_commitment = a.iter().map(|a| a[0]).collect();
    (
        MultiPolynomialOpening {
            rounds,
            a: by_commitment,
            g: g[0],
        },
        by_value,
    )
}

/// The instances a scaled opening can be told about, with the false history each needs:
/// factors are -1 and the cube roots of unity (the maps a point comparison by one
/// coordinate cannot see).
pub fn scalings<C: PC>() -> Vec<(usize, C::Scalar)> {
    let (m, l) = (-C::Scalar::one(), <C as Curve>::BETA_SCALAR);
    vec![(0, m), (1, m), (1, l), (1, l * &l), (2, m), (2, l), (2, l * &l), (3, m), (3, l), (3, l * &l)]
}
/// The previous step for which the scaled opening is consistent.
pub fn scaled_old<C: PC>(params: &Params<C>, honest: &Old<C>, j: usize, f: C::Scalar) -> Old<C> {
    let mut o = honest.clone();
    match j {
        0 => {
            let fi = f.invert().unwrap();
            for v in o.g.iter_mut() {
                *v = *v * &fi;
            }
            o.left.g_new = multiexp(&o.g, &params.generators);
        }
        2 => {
            for v in o.s.iter_mut() {
                *v = *v * &f;
            }
            o.left.s_new_commitment = multiexp(&o.s, &params.generators[..o.s.len()]);
        }
        _ => {}
    }
    o
}
/// Every gate multiplied wrongly by the factor.
pub fn scaled_gates<F: Field>(a: &Asg<F>, f: F) -> Asg<F> {
    let mut a = a.clone();
    for i in 0..a.n {
        a.c[i] = a.a[i] * &a.b[i] * &f;
    }
    a
}

/// The protocols (as believed by the liar) under which honest data is accepted.
pub fn accepted_protocols<C: PC>(r: &mut Rng, wide: bool) -> Vec<Protocol> {
    let params: Params<C> = Params::new(4);
    let mut cands = vec![STANDARD];
    for w in 0..8 {
        cands.push(Protocol { without: Some(w), ..STANDARD });
    }
    for z_at in 0..9 {
        cands.push(Protocol { z_at, ..STANDARD });
    }
    for i in 1..8 {
        cands.push(Protocol { same: Some(i), ..STANDARD });
    }
    if !wide {
        cands.truncate(1);
    }
    let p = fitting::<C::Scalar>(r, 4, 1);
    let a = Asg::of(&p, true).unwrap();
    // a previous step with non-trivial leftovers
    let d = Old::dummy(&params);
    let old = match Proof::new::<_, Basic>(&params, &p, &d.left) {
        Ok((_, l)) => Old::of(&params, &a, &l).unwrap_or(d),
        Err(_) => d,
    };
    let mut out = vec![];
    for c in cands {
        let lie = Lie { protocol: c, ..Lie::none() };
        let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| forge(&params, &a, &p.inputs(), &old, &lie, r)));
        if let Ok(Some(f)) = made {
            if full_verify(&params, &p.blank(), &old.left, &f.proof, &p.inputs(), None).ok {
                out.push(c);
                if c == STANDARD {
                    break;
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- deferred values

/// a packed challenge whose expansion is a square (or not)
pub fn packed_challenge<F: PF>(r: &mut Rng, square: bool) -> F {
    loop {
        let c = F::from_u128(r.u128() | 1 << 127);
        let e: F = get_challenge_scalar(c);
        if fzero(&e) {
            continue;
        }
        if bool::from(e.sqrt().is_some()) == square {
            return c;
        }
    }
}
pub fn point128<F: PF>(r: &mut Rng) -> F {
    match r.below(6) {
        0 => F::one(),
        1 => hostile_f(r),
        2 => rand_f(r),
        _ => F::from_u128(r.u128() | 1 << 127),
    }
}

/// x + ... + x^n, naively
pub fn geo<F: PF>(x: F, n: usize) -> F {
    let mut acc = F::zero();
    let mut p = x;
    for _ in 0..n {
        acc = acc + &p;
        p = p * &x;
    }
    acc
}
/// right side minus left side of the circuit relation
pub fn relation<F: PF>(d: &Deferred<F>, k: usize) -> F {
    let dd = 1usize << k;
    let n = dd / 4;
    let (x, y) = (d.x, d.y_cur);
    let (xi, yi) = (x.invert().unwrap(), y.invert().unwrap());
    let yn = pow(y, n);
    let mut l = d.sx_cur_opening * &pow(xi, n) * &yn;
    l = l - &((geo(x * &y, n) + &geo(x * &yi, n)) * &pow(x, n));
    l = l + &(d.rxy_opening * &pow(xi * &yi, 3 * n - 1));
    l = l * &d.rx_opening * &pow(xi, 3 * n - 1) - &(d.ky_opening * &yn);
    d.tx_positive_opening * &x + &(d.tx_negative_opening * &pow(xi, dd)) - &l
}
pub fn want_def<F: PF>(d: &Deferred<F>, k: usize) -> bool {
    if fzero(&d.x) || fzero(&d.y_cur) || d.challenges_sq_packed_old.len() != k || d.challenges_sq_packed_new.len() != k {
        return false;
    }
    let (fo, fnw) = match (fold_coeffs(&d.challenges_sq_packed_old), fold_coeffs(&d.challenges_sq_packed_new)) {
        (Some(a), Some(b)) => (a, b),
        _ => return false,
    };
    fzero(&relation(d, k))
        && d.gx_old_opening == eval(&fo, d.x)
        && d.b_x == eval(&fnw, d.x)
        && d.b_xy == eval(&fnw, d.x * &d.y_cur)
        && d.b_y_old == eval(&fnw, d.y_old)
        && d.b_y_cur == eval(&fnw, d.y_cur)
        && d.b_y_new == eval(&fnw, d.y_new)
}
pub fn scalars<F: PF>(d: &mut Deferred<F>) -> Vec<(&'static str, &mut F)> {
    vec![
        ("x", &mut d.x),
        ("y_old", &mut d.y_old),
        ("y_cur", &mut d.y_cur),
        ("y_new", &mut d.y_new),
        ("ky", &mut d.ky_opening),
        ("t+", &mut d.tx_positive_opening),
        ("t-", &mut d.tx_negative_opening),
        ("s_cur", &mut d.sx_cur_opening),
        ("r(x)", &mut d.rx_opening),
        ("r(xy)", &mut d.rxy_opening),
        ("g_old", &mut d.gx_old_opening),
        ("b(x)", &mut d.b_x),
        ("b(xy)", &mut d.b_xy),
        ("b(y_old)", &mut d.b_y_old),
        ("b(y_cur)", &mut d.b_y_cur),
        ("b(y_new)", &mut d.b_y_new),
    ]
}
/// Random deferred values for which every check passes.
pub fn valid_deferred<F: PF>(r: &mut Rng, k: usize, point: impl Fn(&mut Rng) -> F) -> Deferred<F> {
    let ch = |r: &mut Rng| -> Vec<F> { (0..k).map(|_| packed_challenge(r, true)).collect() };
    let mut d = Deferred::<F>::dummy(k);
    d.challenges_sq_packed_old = ch(r);
    d.challenges_sq_packed_new = ch(r);
    for (_, v) in scalars(&mut d).into_iter().take(4) {
        loop {
            *v = point(r);
            if !fzero(v) {
                break;
            }
        }
    }
    for (_, v) in scalars(&mut d).into_iter().skip(4).take(6) {
        *v = if r.one_in(12) { hostile_f(r) } else { rand_f(r) };
    }
    settle(&mut d, k);
    d
}

/// Makes the dependent values consistent with the points, claims and challenges.
pub fn settle<F: PF>(d: &mut Deferred<F>, k: usize) {
    let e = relation(&*d, k);
    d.tx_positive_opening = d.tx_positive_opening - &(e * &d.x.invert().unwrap());
    let (fo, fnw) = (fold_coeffs(&d.challenges_sq_packed_old).unwrap(), fold_coeffs(&d.challenges_sq_packed_new).unwrap());
    d.gx_old_opening = eval(&fo, d.x);
    d.b_x = eval(&fnw, d.x);
    d.b_xy = eval(&fnw, d.x * &d.y_cur);
    d.b_y_old = eval(&fnw, d.y_old);
    d.b_y_cur = eval(&fnw, d.y_cur);
    d.b_y_new = eval(&fnw, d.y_new);
}
