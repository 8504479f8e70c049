//! P02: a proof with one component replaced is rejected.
use halo::*;
use hv::proofs::*;
use hv::*;

/// every component of a proof
#[derive(Clone, Copy, Debug, PartialEq)]
enum Slot {
    Commit(usize),
    Claim(usize),
    L(usize, usize),
    R(usize, usize),
    Lv(usize, usize),
    Rv(usize, usize),
    A(usize),
    G,
}
fn slots(k: usize) -> Vec<Slot> {
    let mut o = vec![];
    o.extend((0..6).map(Slot::Commit));
    o.extend((0..7).map(Slot::Claim));
    for i in 0..k {
        for j in 0..5 {
            o.push(Slot::L(i, j));
            o.push(Slot::R(i, j));
            o.push(Slot::Lv(i, j));
            o.push(Slot::Rv(i, j));
        }
    }
    o.extend((0..5).map(Slot::A));
    o.push(Slot::G);
    o
}
enum Ref<'a, C: PC> {
    P(&'a mut C),
    S(&'a mut C::S),
}
fn at<C: PC>(p: &mut Proof<C>, s: Slot) -> Ref<C> {
    match s {
        Slot::Commit(i) => Ref::P(match i {
            0 => &mut p.r_commitment,
            1 => &mut p.s_cur_commitment,
            2 => &mut p.t_positive_commitment,
            3 => &mut p.t_negative_commitment,
            4 => &mut p.c_commitment,
            _ => &mut p.s_new_commitment,
        }),
        Slot::Claim(i) => Ref::S(match i {
            0 => &mut p.rx_opening,
            1 => &mut p.rxy_opening,
            2 => &mut p.sx_old_opening,
            3 => &mut p.sx_cur_opening,
            4 => &mut p.tx_positive_opening,
            5 => &mut p.tx_negative_opening,
            _ => &mut p.sx_new_opening,
        }),
        Slot::L(i, j) => Ref::P(&mut p.inner_product.rounds[i].L[j]),
        Slot::R(i, j) => Ref::P(&mut p.inner_product.rounds[i].R[j]),
        Slot::Lv(i, j) => Ref::S(&mut p.inner_product.rounds[i].l[j]),
        Slot::Rv(i, j) => Ref::S(&mut p.inner_product.rounds[i].r[j]),
        Slot::A(j) => Ref::S(&mut p.inner_product.a[j]),
        Slot::G => Ref::P(&mut p.inner_product.g),
    }
}
fn same<C: PC>(a: &Proof<C>, b: &Proof<C>, k: usize) -> bool {
    let (mut a, mut b) = (a.clone(), b.clone());
    slots(k).into_iter().all(|s| match (at(&mut a, s), at(&mut b, s)) {
        (Ref::P(x), Ref::P(y)) => pt_of(x) == pt_of(y),
        (Ref::S(x), Ref::S(y)) => x == y,
        _ => false,
    })
}

struct Base<C: PC> {
    params: Params<C>,
    circuit: hv::circ::Prog<C::Scalar>,
    inputs: Vec<C::Scalar>,
    old: Leftovers<C>,
    proof: Proof<C>,
    other: Proof<C>,
    k: usize,
}

fn base<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize) -> Option<Base<C>> {
    let params: Params<C> = Params::new(k);
    let ni = r.below(3);
    let p = fitting::<C::Scalar>(r, k, ni);
    let dummy = Leftovers::dummy(&params);
    let made = ctx.guard(|| {
        // a first step, so that the second one has non-trivial leftovers, and a proof of
        // another program to take components from
        let (p1, l1) = Proof::new::<_, Basic>(&params, &p, &dummy).ok()?;
        let (p2, _) = Proof::new::<_, Basic>(&params, &p, &l1).ok()?;
        Some((p1, l1, p2))
    });
    let (p1, l1, p2) = match made {
        Ok(Some(x)) => x,
        _ => {
            ctx.count("provers that failed", 1);
            return None;
        }
    };
    let (old, proof, other) = if r.bool() { (l1, p2, p1) } else { (dummy, p1, p2) };
    let circuit = p.blank();
    let inputs = p.inputs();
    let v = ctx.guard(|| full_verify(&params, &circuit, &old, &proof, &inputs, None).ok);
    if v.ok() != Some(true) {
        ctx.count("honest proofs rejected (see P01)", 1);
        return None;
    }
    Some(Base { params, circuit, inputs, old, proof, other, k })
}

fn tamper<C: PC>(b: &Base<C>, s: Slot, how: usize, r: &mut Rng) -> (Proof<C>, &'static str) {
    let mut p = b.proof.clone();
    let all = slots(b.k);
    let mut src = if how % 2 == 0 { b.other.clone() } else { b.proof.clone() };
    let name = match at(&mut p, s) {
        Ref::P(x) => match how {
            0 => {
                // the same component of another valid proof
                if let Ref::P(y) = at(&mut src, s) {
                    *x = *y
                }
                "replayed"
            }
            1 | 6 => {
                // another point of a proof
                let pts: Vec<Slot> = all.into_iter().filter(|t| matches!(t, Slot::Commit(_) | Slot::L(..) | Slot::R(..) | Slot::G)).collect();
                let t = *r.pick(&pts);
                if let Ref::P(y) = at(&mut src, t) {
                    *x = *y
                }
                "copied"
            }
            2 => {
                *x = -*x;
                "negated"
            }
            3 => {
                *x = C::zero();
                "identity"
            }
            4 => {
                *x = *x + *x;
                "doubled"
            }
            5 => {
                *x = *x + C::one();
                "plus generator"
            }
            7 => {
                *x = *x * &C::BETA_SCALAR;
                "endomorphism image"
            }
            _ => {
                *x = rand_pt::<C>(r);
                "random"
            }
        },
        Ref::S(x) => match how {
            0 => {
                if let Ref::S(y) = at(&mut src, s) {
                    *x = *y
                }
                "replayed"
            }
            1 | 6 => {
                let sc: Vec<Slot> = all.into_iter().filter(|t| matches!(t, Slot::Claim(_) | Slot::Lv(..) | Slot::Rv(..) | Slot::A(_))).collect();
                let t = *r.pick(&sc);
                if let Ref::S(y) = at(&mut src, t) {
                    *x = *y
                }
                "copied"
            }
            2 => {
                *x = -*x;
                "negated"
            }
            3 => {
                *x = C::S::zero();
                "zero"
            }
            4 => {
                *x = *x + &*x;
                "doubled"
            }
            5 => {
                *x = *x + &C::S::one();
                "plus one"
            }
            7 => {
                *x = *x * &C::BETA_SCALAR;
                "times beta"
            }
            _ => {
                *x = rand_f(r);
                "random"
            }
        },
    };
    (p, name)
}

/// several components at once, chosen so that simple sums are preserved
fn structured<C: PC>(b: &Base<C>, r: &mut Rng) -> (Proof<C>, &'static str) {
    let mut p = b.proof.clone();
    let k = b.k;
    let i = r.below(k);
    let j = r.below(5);
    let name = match r.below(9) {
        0 => {
            let ip = &mut p.inner_product.rounds[i];
            let t = ip.L[j];
            ip.L[j] = ip.R[j];
            ip.R[j] = t;
            "L and R swapped"
        }
        1 => {
            let ip = &mut p.inner_product.rounds[i];
            std::mem::swap(&mut ip.l, &mut ip.r);
            std::mem::swap(&mut ip.L, &mut ip.R);
            "left and right sides swapped"
        }
        2 => {
            p.inner_product.rounds.swap(i, (i + 1) % k);
            "rounds swapped"
        }
        3 => {
            let d = rand_pt::<C>(r);
            let ip = &mut p.inner_product.rounds[i];
            ip.L[j] = ip.L[j] + d;
            ip.R[j] = ip.R[j] - d;
            "sum of L and R kept"
        }
        4 => {
            let d = rand_f::<C::S>(r);
            let ip = &mut p.inner_product.rounds[i];
            ip.l[j] = ip.l[j] + &d;
            ip.r[j] = ip.r[j] - &d;
            "sum of l and r kept"
        }
        5 => {
            // scale the last message and the basis
            let d = rand_f::<C::S>(r);
            let di = d.invert().unwrap();
            for a in p.inner_product.a.iter_mut() {
                *a = *a * &di;
            }
            p.inner_product.g = p.inner_product.g * &d;
            "last message and basis scaled"
        }
        6 => {
            p.inner_product.g = -p.inner_product.g;
            for a in p.inner_product.a.iter_mut() {
                *a = -*a;
            }
            "last message and basis negated"
        }
        7 => {
            std::mem::swap(&mut p.tx_positive_opening, &mut p.tx_negative_opening);
            std::mem::swap(&mut p.t_positive_commitment, &mut p.t_negative_commitment);
            "halves of t swapped"
        }
        _ => {
            p.inner_product = b.other.inner_product.clone();
            "opening proof replayed"
        }
    };
    (p, name)
}

fn judge<C: PC>(ctx: &Ctx, b: &Base<C>, p: &Proof<C>, what: &str) {
    if same(p, &b.proof, b.k) {
        return ctx.count("replacements equal to the original", 1);
    }
    let ok = match ctx.guard(|| full_verify(&b.params, &b.circuit, &b.old, p, &b.inputs, None)) {
        Ok(v) => {
            ctx.count(&format!("rejected by: {}", if v.ok { "nothing" } else { v.why }), 1);
            v.ok
        }
        // crashes are P07's business
        Err(_) => {
            ctx.count("verifications that panicked", 1);
            false
        }
    };
    ctx.check(!ok, "altered proof accepted", || format!("{} k={} {} {:?}", C::CNAME, b.k, what, b.circuit));
}

fn job<C: PC>(ctx: &Ctx, r: &mut Rng, which: usize) {
    let k = 4;
    let b = match base::<C>(ctx, r, k) {
        Some(b) => b,
        None => return,
    };
    let all = slots(k);
    // every job covers a stripe of the components with different replacements
    for (i, s) in all.iter().enumerate() {
        if i % 8 != which % 8 {
            continue;
        }
        let how = r.below(9);
        let (p, name) = tamper(&b, *s, how, r);
        let what = format!("{:?} {}", s, name);
        ctx.case_str(&format!("{} {} {:?}", C::CNAME, what, b.circuit));
        ctx.sample(|| what.clone());
        ctx.count(&format!("replacement: {}", name), 1);
        judge(ctx, &b, &p, &what);
    }
    for _ in 0..3 {
        let (p, name) = structured(&b, r);
        ctx.case_str(&format!("{} {} {:?} {}", C::CNAME, name, b.circuit, r.u64()));
        ctx.count("structured alterations", 1);
        judge(ctx, &b, &p, name);
    }
}

fn main() {
    run(
        "P02",
        "one evaluation is one alteration of one valid proof put through the complete verification procedure; distinct by alteration and program",
        45,
        1200,
        |ctx| {
            ctx.par("alterations", ctx.scale(64, 4000), |i, r| {
                if i % 2 == 0 {
                    job::<Ec0>(ctx, r, i / 2)
                } else {
                    job::<Ec1>(ctx, r, i / 2)
                }
            });
        },
    )
}
