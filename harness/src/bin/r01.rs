//! R01: the native sponge against an independent duplex Rescue over big integers.
use halo::rescue::Rescue;
use halo::*;
use hv::refhash::*;
use hv::*;

struct Pair<F: PF> {
    n: Rescue<F>,
    r: RefRescue,
}
impl<F: PF> Clone for Pair<F> {
    fn clone(&self) -> Self {
        Pair { n: self.n.clone(), r: self.r.clone() }
    }
}

fn step<F: PF>(ctx: &Ctx, p: &mut Pair<F>, absorb: Option<U>, trace: &mut String, what: &str) -> bool {
    match absorb {
        Some(v) => {
            trace.push_str(&format!("A{:x?};", v.0));
            p.r.absorb(&v);
            ctx.count("absorbed", 1);
            ctx.total("absorb", || p.n.absorb(f_of(&v))).is_some()
        }
        None => {
            trace.push_str("S;");
            let want = p.r.squeeze();
            let got = match ctx.total("squeeze", || p.n.squeeze()) {
                Some(g) => g,
                None => return false,
            };
            ctx.count("squeezed", 1);
            ctx.check(u_of(&got) == want, &format!("{}:{}", F::NAME, what), || {
                format!("after {} got {} want {}", trace, hexf(&got), want.hex())
            })
        }
    }
}

fn val<F: PF>(r: &mut Rng) -> U {
    match r.below(6) {
        // values that cancel the first key or the padding
        0 => F::P.wsub(&U::ONE),
        1 => U::ONE,
        2 => U::ZERO,
        _ => hostile_u(r, &F::P),
    }
}

fn fresh<F: PF>() -> Pair<F> {
    Pair { n: Rescue::new(), r: RefRescue::new::<F>() }
}

fn shape<F: PF>(ctx: &Ctx, r: &mut Rng, blocks: &[(usize, usize)], what: &str) {
    let mut p = fresh::<F>();
    let mut t = String::new();
    for (a, s) in blocks {
        for _ in 0..*a {
            let v = val::<F>(r);
            if !step(ctx, &mut p, Some(v), &mut t, what) {
                return;
            }
        }
        for _ in 0..*s {
            if !step(ctx, &mut p, None, &mut t, what) {
                return;
            }
        }
    }
    ctx.case(Some(hash_str(&t)));
    ctx.sample(|| format!("{} {:?}", F::NAME, blocks));
}

fn clones<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let mut ps = vec![(fresh::<F>(), String::new())];
    for _ in 0..r.range(5, 60) {
        let i = r.below(ps.len());
        if ps.len() < 4 && r.one_in(8) {
            let c = (ps[i].0.clone(), ps[i].1.clone() + "clone;");
            ps.push(c);
            ctx.count("clones", 1);
            continue;
        }
        let v = if r.below(3) < 2 { Some(val::<F>(r)) } else { None };
        let (p, t) = &mut ps[i];
        if !step(ctx, p, v, t, "cloned sponge") {
            return;
        }
    }
    for (p, t) in ps.iter_mut() {
        for _ in 0..2 {
            step(ctx, p, None, t, "cloned sponge");
        }
        ctx.case(Some(hash_str(t)));
    }
    // the default sponge is the fresh one
    let mut d = Pair::<F> { n: Rescue::default(), r: RefRescue::new::<F>() };
    let mut t = "default;".to_string();
    step(ctx, &mut d, None, &mut t, "default sponge");
}

fn main() {
    run(
        "R01",
        "one evaluation is one history on one sponge, every squeezed element compared; distinct histories are counted by operations and absorbed values",
        90,
        900,
        |ctx| {
            // every count of absorbs and squeezes around the rate, in one and two blocks
            let mut one = vec![];
            for a in 0..=26 {
                for s in [1, 2, 11, 12, 13, 24, 25, 26] {
                    one.push(vec![(a, s)]);
                }
            }
            for a in [0, 1, 11, 12, 13, 24, 25] {
                for s in [1, 12, 13] {
                    for b in [1, 11, 12, 13] {
                        one.push(vec![(a, s), (b, 1)]);
                    }
                }
            }
            ctx.count("boundary shapes", one.len() as u64);
            ctx.par("shapes", one.len() * 2, |i, r| {
                if i % 2 == 0 {
                    shape::<Fp>(ctx, r, &one[i / 2], "history")
                } else {
                    shape::<Fq>(ctx, r, &one[i / 2], "history")
                }
            });
            ctx.par("random", ctx.scale(600, 20000), |i, r| {
                let blocks: Vec<_> = (0..r.range(1, 5)).map(|_| (r.below(30), r.range(1, 16))).collect();
                if i % 2 == 0 {
                    shape::<Fp>(ctx, r, &blocks, "history")
                } else {
                    shape::<Fq>(ctx, r, &blocks, "history")
                }
            });
            ctx.par("clones", ctx.scale(300, 10000), |i, r| {
                if i % 2 == 0 {
                    clones::<Fp>(ctx, r)
                } else {
                    clones::<Fq>(ctx, r)
                }
            });
        },
    )
}
