//! U02: polynomial multiplication against the schoolbook product over integers.
use hv::*;
use halo::{multiply_polynomials, Fp, Fq};

fn poly(r: &mut Rng, len: usize, p: &U) -> Vec<U> {
    let mode = r.below(6);
    (0..len)
        .map(|i| match mode {
            0 => U::ZERO,
            1 => {
                if i + 1 == len || i == 0 {
                    U::ONE
                } else {
                    U::ZERO
                }
            }
            2 => p.wsub(&U::ONE),
            3 => {
                if r.one_in(3) {
                    hostile_u(r, p)
                } else {
                    U::ZERO
                }
            }
            _ => hostile_u(r, p),
        })
        .collect()
}

fn one<F: PF>(ctx: &Ctx, r: &mut Rng, la: usize, lb: usize, cpus: &[usize]) {
    let p = F::P;
    let m = Mont::new(p);
    let (a, b) = (poly(r, la, &p), poly(r, lb, &p));
    let (am, bm): (Vec<U>, Vec<U>) = (a.iter().map(|x| m.to(x)).collect(), b.iter().map(|x| m.to(x)).collect());
    let mut want = vec![U::ZERO; la + lb - 1];
    for i in 0..la {
        if am[i].is_zero() {
            continue;
        }
        for j in 0..lb {
            want[i + j] = m.add(&want[i + j], &m.mul(&am[i], &bm[j]));
        }
    }
    let want: Vec<U> = want.iter().map(|x| m.of(x)).collect();
    let fa: Vec<F> = a.iter().map(f_of).collect();
    let fb: Vec<F> = b.iter().map(f_of).collect();
    let all = par::allowed();
    for n in cpus {
        let got = ctx.guard(|| {
            let (x, y) = (fa.clone(), fb.clone());
            par::with_cpus(*n, &all, || multiply_polynomials(x, y))
        });
        ctx.count(&format!("products on {} cpus", n), 1);
        match got {
            Ok(g) => {
                let g: Vec<U> = g.iter().map(u_of).collect();
                ctx.check(g == want, &format!("{}:product", F::NAME), || {
                    let i = g.iter().zip(&want).position(|(x, y)| x != y);
                    format!("lengths {}x{} cpus {}: result length {} want {}, first difference {:?} a={:?} b={:?}", la, lb, n, g.len(), want.len(), i,
                        a.iter().take(3).map(|x| x.hex()).collect::<Vec<_>>(), b.iter().take(3).map(|x| x.hex()).collect::<Vec<_>>())
                });
            }
            Err(e) => {
                ctx.total("multiply_polynomials", || panic!("{}x{} cpus={}: {}", la, lb, n, e));
            }
        }
    }
    ctx.max("longest result", (la + lb - 1) as u64);
    ctx.case(Some(hash_str(&format!("{}{:?}{:?}", F::NAME, fa, fb))));
    ctx.sample(|| format!("{} {}x{} cpus {:?}", F::NAME, la, lb, cpus));
}

/// Long products, compared at random points (a wrong one agrees with probability 2^-238).
fn long<F: PF>(ctx: &Ctx, r: &mut Rng, la: usize, lb: usize, cpus: &[usize]) {
    let p = F::P;
    let (a, b) = (poly(r, la, &p), poly(r, lb, &p));
    let fa: Vec<F> = a.iter().map(f_of).collect();
    let fb: Vec<F> = b.iter().map(f_of).collect();
    let m = Mont::new(p);
    let at = m.to(&rand_u(r, &p));
    let eval = |v: &[F]| v.iter().rev().fold(U::ZERO, |acc, c| m.add(&m.mul(&acc, &at), &m.to(&u_of(c))));
    let want = m.mul(&eval(&fa), &eval(&fb));
    let all = par::allowed();
    for n in cpus {
        let got = ctx.total("multiply_polynomials", || {
            let (x, y) = (fa.clone(), fb.clone());
            par::with_cpus(*n, &all, || multiply_polynomials(x, y))
        });
        ctx.count(&format!("long products on {} cpus", n), 1);
        if let Some(g) = got {
            ctx.check(g.len() == la + lb - 1 && eval(&g) == want, &format!("{}:product", F::NAME), || {
                format!("lengths {}x{} cpus {}: result length {}, value at {} is {} instead of {}", la, lb, n, g.len(), m.of(&at).hex(), m.of(&eval(&g)).hex(), m.of(&want).hex())
            });
        }
    }
    ctx.max("longest result", (la + lb - 1) as u64);
    ctx.case(Some(hash_str(&format!("{}{:?}{:?}", F::NAME, fa, fb))));
    ctx.sample(|| format!("{} {}x{} cpus {:?}", F::NAME, la, lb, cpus));
}

fn main() {
    run(
        "U02",
        "one evaluation = one product of two coefficient vectors, computed on one or more processor counts and compared with the schoolbook product; distinct = distinct vectors",
        90,
        500,
        |ctx| {
            let ncpu = par::allowed().len();
            let few: Vec<usize> = [1, 2, 3, 4, 7, 8, 16].iter().cloned().filter(|n| *n <= ncpu).collect();
            let lim = ctx.scale(20, 48);
            ctx.par("grid", lim * lim, |i, r| {
                let (la, lb) = (1 + i / lim, 1 + i % lim);
                let n = *r.pick(&few);
                one::<Fp>(ctx, r, la, lb, &[n, ncpu]);
                one::<Fq>(ctx, r, la, lb, &[n, ncpu]);
            });
            ctx.par("random", ctx.scale(150, 4000), |_, r| {
                let lens = |r: &mut Rng| match r.below(4) {
                    0 => 1 << r.below(10),
                    1 => (1usize << r.below(10)) + 1,
                    _ => 1 + r.below(500),
                };
                let (la, lb) = (lens(r), lens(r));
                one::<Fp>(ctx, r, la, lb, &few);
                one::<Fq>(ctx, r, la, lb, &few);
            });
            ctx.par("long", ctx.scale(20, 200), |i, r| {
                let e = 10 + i % ctx.scale(6, 8);
                let n = 1usize << e;
                let (la, lb) = match r.below(4) {
                    0 => (n / 2, n / 2 + 1),
                    1 => (n / 2 + 1, n / 2 + 1),
                    2 => (n, 1 + r.below(5)),
                    _ => (1 + r.below(n), 1 + r.below(n)),
                };
                let n = [*r.pick(&few), ncpu];
                if r.bool() {
                    long::<Fp>(ctx, r, la, lb, &n)
                } else {
                    long::<Fq>(ctx, r, la, lb, &n)
                }
            });
            if !ctx.quick() {
                ctx.par("big", 60, |_, r| {
                    let (la, lb) = (r.range(1000, 9000), r.range(1000, 9000));
                    one::<Fp>(ctx, r, la, lb, &[ncpu, 3]);
                    one::<Fq>(ctx, r, la, lb, &[ncpu, 3]);
                });
            }
        },
    );
}
