//! U01: multi-exponentiation and commitments against sums of known discrete logs.
use hv::*;
use halo::{multiexp, Ec0, Ec1, Field, Params};

struct Pool<C: PC> {
    k: Vec<U>,
    p: Vec<C>,
}
fn pool<C: PC>(ctx: &Ctx) -> Pool<C> {
    let mut r = ctx.rng("pool", 0);
    let ord = <C::S as PF>::P;
    let mut k = vec![U::ZERO, U::ONE, ord.wsub(&U::ONE), U::from_u64(2), u_of(&C::BETA_SCALAR)];
    for _ in 0..150 {
        k.push(hostile_u(&mut r, &ord));
    }
    for i in 0..40 {
        let n = negm(&k[5 + i], &ord);
        k.push(n);
    }
    let p = k
        .iter()
        .map(|u| {
            let c = C::one() * &f_of::<C::S>(u);
            if r.bool() {
                rescale(&c, &mut r)
            } else {
                c
            }
        })
        .collect();
    Pool { k, p }
}

fn scalars(r: &mut Rng, len: usize, ord: &U) -> Vec<U> {
    let mode = r.below(7);
    (0..len)
        .map(|i| match mode {
            0 => U::ZERO,
            1 => ord.wsub(&U::ONE),
            2 => U::ONE,
            3 => {
                // single window set
                red(&U::from_u64(1 + r.below(255) as u64).shl(8 * r.below(32)), ord)
            }
            4 => {
                if i % 3 == 0 {
                    U::ZERO
                } else {
                    hostile_u(r, ord)
                }
            }
            5 => {
                let w = U([u64::MAX, u64::MAX, u64::MAX, 0x3fff_ffff_ffff_ffff]);
                red(&w, ord)
            }
            _ => hostile_u(r, ord),
        })
        .collect()
}

fn one<C: PC>(ctx: &Ctx, pool: &Pool<C>, r: &mut Rng, len: usize, cpus: &[usize]) {
    let ord = <C::S as PF>::P;
    let m = Model::of::<C>();
    let s = scalars(r, len, &ord);
    let same = r.one_in(6);
    let f = r.below(pool.k.len());
    let idx: Vec<usize> = (0..len)
        .map(|_| {
            if same {
                f
            } else if r.one_in(8) {
                r.below(5)
            } else {
                r.below(pool.k.len())
            }
        })
        .collect();
    let fs: Vec<C::S> = s.iter().map(f_of).collect();
    let bs: Vec<C> = idx.iter().map(|i| pool.p[*i]).collect();
    let mut acc = U::ZERO;
    for (s, i) in s.iter().zip(&idx) {
        acc = addm(&acc, &mulm(s, &pool.k[*i], &ord), &ord);
    }
    let want = m.mul(&pt_of(&C::one()), &acc);
    for n in cpus {
        let all = par::allowed();
        let got = ctx.guard(|| par::with_cpus(*n, &all, || multiexp::<C::S, C>(&fs, &bs)));
        ctx.count("multiexps", 1);
        ctx.count(&format!("multiexps on {} cpus", n), 1);
        match got {
            Ok(g) => {
                ctx.check(pt_of(&g) == want, &format!("{}:multiexp", C::CNAME), || {
                    format!("len={} cpus={} scalars[..4]={:?} bases={:?} want {} got {}", len, n, &s.iter().take(4).map(|u| u.hex()).collect::<Vec<_>>(), &idx[..len.min(8)], show_pt(&want), show_pt(&pt_of(&g)))
                });
            }
            Err(e) => {
                ctx.total("multiexp", || panic!("len={} cpus={}: {}", len, n, e));
            }
        }
    }
    ctx.max("longest multiexp", len as u64);
    ctx.case(Some(hash_str(&format!("{}{:?}{:?}", C::CNAME, idx, fs))));
    ctx.sample(|| format!("{} len {} bases {:?}", C::CNAME, len, &idx[..len.min(10)]));
}

fn commits<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let params = Params::<C>::new(k);
    let m = Model::of::<C>();
    let ord = <C::S as PF>::P;
    let d = params.generators.len();
    let gens: Vec<Pt> = params.generators.iter().map(pt_of).collect();
    let lens: Vec<usize> = (0..ctx.scale(6, 24))
        .map(|i| match i {
            0 => d,
            1 => d - 1,
            2 => 1,
            3 => 0,
            _ => r.below(d + 1),
        })
        .collect();
    for len in lens {
        let s = scalars(r, len, &ord);
        let fs: Vec<C::S> = s.iter().map(f_of).collect();
        for right in [false, true] {
            let off = if right { d - len } else { 0 };
            let mut acc: Pt = None;
            for i in 0..len {
                acc = m.add(&acc, &m.mul(&gens[off + i], &s[i]));
            }
            if let Some(g) = ctx.total("commit", || params.commit(&fs, right)) {
                ctx.count("commitments", 1);
                ctx.check(pt_of(&g) == acc, &format!("{}:commit-right{}", C::CNAME, right), || {
                    format!("k={} len={} want {} got {}", k, len, show_pt(&acc), show_pt(&pt_of(&g)))
                });
            }
            ctx.case(Some(hash_str(&format!("c{}{}{}{:?}", C::CNAME, k, right, fs))));
        }
    }
}

fn main() {
    run(
        "U01",
        "one evaluation = one multi-exponentiation (on one or more processor counts) over bases of known discrete logarithm, or one commitment against freshly created generators; distinct = distinct scalars and bases",
        90,
        500,
        |ctx| {
            let p0 = pool::<Ec0>(ctx);
            let p1 = pool::<Ec1>(ctx);
            let ncpu = par::allowed().len();
            let few: Vec<usize> = [1, 2, 3, 5, 8, 16].iter().cloned().filter(|n| *n <= ncpu).collect();
            ctx.par("small", ctx.scale(70, 200), |i, r| {
                one::<Ec0>(ctx, &p0, r, i, &few);
                one::<Ec1>(ctx, &p1, r, i, &few);
            });
            ctx.par("mid", ctx.scale(320, 6000), |_, r| {
                let n = 1 + r.below(ncpu);
                let len = if r.one_in(3) { r.range(200, 900) } else { r.below(260) };
                one::<Ec0>(ctx, &p0, r, len, &[n, ncpu]);
                one::<Ec1>(ctx, &p1, r, len, &[n, ncpu]);
            });
            // lengths around the bucket-width changes of one chunk
            ctx.par("width", ctx.scale(24, 300), |i, r| {
                let c = [1097usize, 404, 149, 55, 32, 31, 8 * 55, 8 * 32][i % 8];
                let len = c - 1 + r.below(4);
                let n = [1, ncpu][r.below(2)];
                one::<Ec0>(ctx, &p0, r, len, &[n]);
                one::<Ec1>(ctx, &p1, r, len, &[n]);
            });
            // wide buckets: one chunk of ten to twelve bits per window, and eight chunks at once
            ctx.par("wide", ctx.scale(6, 24), |i, r| {
                let len = [60_000usize, 23_000, 8_200, 8_104, 22_027, 3_000][i % 6] + r.below(500);
                let n = if r.one_in(4) { ncpu } else { 1 };
                if i % 2 == 0 {
                    one::<Ec0>(ctx, &p0, r, len, &[n]);
                } else {
                    one::<Ec1>(ctx, &p1, r, len, &[n]);
                }
            });
            if !ctx.quick() {
                ctx.par("big", 40, |_, r| {
                    let len = r.range(2000, 40000);
                    one::<Ec0>(ctx, &p0, r, len, &[ncpu, 3]);
                    one::<Ec1>(ctx, &p1, r, len, &[ncpu, 3]);
                });
            }
            ctx.par("commit", ctx.scale(8, 60), |i, r| {
                let k = 4 + i % ctx.scale(3, 6);
                commits::<Ec0>(ctx, r, k);
                commits::<Ec1>(ctx, r, k);
            });
        },
    );
}
