//! U03: inner-product-argument helpers against their definitions.
use hv::*;
use halo::*;

fn nz(r: &mut Rng, p: &U) -> U {
    loop {
        let u = hostile_u(r, p);
        if !u.is_zero() {
            return u;
        }
    }
}

fn one<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let p = <C::S as PF>::P;
    let m = Mont::new(p);
    let md = Model::of::<C>();
    let n = 1usize << k;
    let f = |u: &U| f_of::<C::S>(u);
    // challenges in the order the prover draws them (first round first)
    let ch: Vec<U> = (0..k).map(|_| nz(r, &p)).collect();
    let chi: Vec<U> = ch.iter().map(|c| m.invo(c)).collect();
    let x = hostile_u(r, &p);
    ctx.case(Some(hash_str(&format!("{}{}{:?}{:?}", C::CNAME, k, ch, x))));
    let info = || format!("k={} x={} challenges={:?}", k, x.hex(), ch.iter().map(|c| c.hex()).collect::<Vec<_>>());
    ctx.sample(|| info());
    let fold = |v: &[U], i: usize, lo: &U, hi: &U| -> Vec<U> {
        let l = v.len() / 2;
        let _ = i;
        (0..l).map(|j| addm(&mulm(&v[j], lo, &p), &mulm(&v[j + l], hi, &p), &p)).collect()
    };
    let fch: Vec<C::S> = ch.iter().map(f).collect();
    let fchi: Vec<C::S> = chi.iter().map(f).collect();
    if k >= 1 {
        // folded power vector
        let mut b = vec![U::ONE];
        for i in 1..n {
            let t = mulm(&b[i - 1], &x, &p);
            b.push(t);
        }
        for i in 0..k {
            b = fold(&b, i, &chi[i], &ch[i]);
        }
        if let Some(g) = ctx.total("compute_b", || compute_b(f(&x), &fch, &fchi)) {
            ctx.count("folded power vectors", 1);
            ctx.check(u_of(&g) == b[0], &format!("{}:compute_b", C::CNAME), || format!("{} want {} got {:?}", info(), b[0].hex(), g));
        }
    }
    // folded generator coefficients: position i carries prod c_j^{+-1}
    let mut want = vec![U::ONE; n];
    for i in 0..n {
        for j in 0..k {
            let hi = (i >> (k - 1 - j)) & 1 == 1;
            want[i] = mulm(&want[i], if hi { &ch[j] } else { &chi[j] }, &p);
        }
    }
    let sq: Vec<C::S> = ch.iter().map(|c| f(&mulm(c, c, &p))).collect();
    let mut allinv = U::ONE;
    for c in &chi {
        allinv = mulm(&allinv, c, &p);
    }
    if let Some(g) = ctx.total("compute_g_coeffs", || compute_g_coeffs_for_inner_product(&sq, f(&allinv))) {
        ctx.count("coefficient vectors", 1);
        ctx.check(
            g.len() == n && g.iter().zip(&want).all(|(a, b)| u_of(a) == *b),
            &format!("{}:g_coeffs", C::CNAME),
            || info(),
        );
    }
    // generators of known discrete logarithm
    if k <= 7 {
        let dl: Vec<U> = (0..n).map(|_| hostile_u(r, &p)).collect();
        let gens: Vec<C> = dl.iter().map(|d| C::one() * &f(d)).collect();
        let mut wd = U::ZERO;
        for i in 0..n {
            wd = addm(&wd, &mulm(&want[i], &dl[i], &p), &p);
        }
        let wp = md.mul(&pt_of(&C::one()), &wd);
        if let Some(g) = ctx.total("compute_g", || compute_g_for_inner_product::<C::S, C>(&gens, &sq, f(&allinv))) {
            ctx.count("folded bases", 1);
            ctx.check(pt_of(&g) == wp, &format!("{}:compute_g", C::CNAME), || info());
        }
        // round by round, with varying processor counts
        let all = par::allowed();
        let mut g = gens.clone();
        let mut d = dl.clone();
        for i in 0..k {
            let cpus = 1 + r.below(all.len());
            let (c, ci) = (fch[i], fchi[i]);
            let len = g.len();
            let mut gg = g.clone();
            match ctx.guard(|| {
                par::with_cpus(cpus, &all, || parallel_generator_collapse(&mut gg, c, ci));
                gg
            }) {
                Ok(v) => g = v,
                Err(e) => {
                    ctx.total("collapse", || panic!("len={} cpus={}: {}", len, cpus, e));
                    return;
                }
            }
            g.truncate(len / 2);
            d = fold(&d, i, &chi[i], &ch[i]);
            ctx.count("basis foldings", 1);
            if r.one_in(3) || i + 1 == k {
                for (j, (a, b)) in g.iter().zip(&d).enumerate() {
                    let w = md.mul(&pt_of(&C::one()), b);
                    if !ctx.check(pt_of(a) == w, &format!("{}:collapse", C::CNAME), || {
                        format!("round {} of {} position {} cpus {} {}", i, k, j, cpus, info())
                    }) {
                        return;
                    }
                }
            }
        }
    }
    // inner products
    let len = r.below(70);
    let a: Vec<U> = (0..len).map(|_| hostile_u(r, &p)).collect();
    let b: Vec<U> = (0..len).map(|_| hostile_u(r, &p)).collect();
    let mut w = U::ZERO;
    for i in 0..len {
        w = addm(&w, &mulm(&a[i], &b[i], &p), &p);
    }
    let fa: Vec<C::S> = a.iter().map(f).collect();
    let fb: Vec<C::S> = b.iter().map(f).collect();
    if let Some(g) = ctx.total("inner_product", || compute_inner_product(&fa, &fb)) {
        ctx.count("inner products", 1);
        ctx.check(u_of(&g) == w, &format!("{}:inner_product", C::CNAME), || format!("len={} want {} got {:?}", len, w.hex(), g));
    }
}

/// Sizes that recursion uses: fingerprints and sampled positions instead of every entry.
fn deep<C: PC>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let p = <C::S as PF>::P;
    let m = Mont::new(p);
    let md = Model::of::<C>();
    let n = 1usize << k;
    let f = |u: &U| f_of::<C::S>(u);
    let ch: Vec<U> = (0..k).map(|_| nz(r, &p)).collect();
    let chi: Vec<U> = ch.iter().map(|c| m.invo(c)).collect();
    let x = hostile_u(r, &p);
    ctx.case(Some(hash_str(&format!("deep{}{}{:?}{:?}", C::CNAME, k, ch, x))));
    let info = || format!("k={} x={} challenges={:?}", k, x.hex(), ch.iter().map(|c| c.hex()).collect::<Vec<_>>());
    ctx.max("rounds", k as u64);
    // prod (c_j^-1 + c_j x^(2^(k-1-j))), the sum of the coefficients times powers of x
    let at = |x: &U| {
        let mut w = U::ONE;
        let mut pw = *x;
        for j in (0..k).rev() {
            w = mulm(&w, &addm(&chi[j], &mulm(&ch[j], &pw, &p), &p), &p);
            pw = mulm(&pw, &pw, &p);
        }
        w
    };
    let fch: Vec<C::S> = ch.iter().map(f).collect();
    let fchi: Vec<C::S> = chi.iter().map(f).collect();
    if let Some(g) = ctx.total("compute_b", || compute_b(f(&x), &fch, &fchi)) {
        ctx.count("folded power vectors", 1);
        ctx.check(u_of(&g) == at(&x), &format!("{}:compute_b", C::CNAME), || info());
    }
    let sq: Vec<C::S> = ch.iter().map(|c| f(&mulm(c, c, &p))).collect();
    let allinv = chi.iter().fold(U::ONE, |a, c| mulm(&a, c, &p));
    let coeff = |i: usize| {
        (0..k).fold(U::ONE, |a, j| mulm(&a, if (i >> (k - 1 - j)) & 1 == 1 { &ch[j] } else { &chi[j] }, &p))
    };
    let s = match ctx.total("compute_g_coeffs", || compute_g_coeffs_for_inner_product(&sq, f(&allinv))) {
        Some(s) => s,
        None => return,
    };
    ctx.count("coefficient vectors", 1);
    let mut ok = s.len() == n;
    if ok {
        let z = rand_u(r, &p);
        let fz: C::S = f(&z);
        let mut acc = C::S::zero();
        for c in s.iter().rev() {
            acc = acc * fz + *c;
        }
        ok = u_of(&acc) == at(&z);
        let near = (0..k).flat_map(|j| vec![(1usize << j) - 1, 1 << j, (1 << j) + 1]).filter(|i| *i < n);
        let mut pos: Vec<usize> = near.collect();
        pos.push(n - 1);
        for _ in 0..40 {
            pos.push(r.below(n));
        }
        for i in pos {
            ok &= u_of(&s[i]) == coeff(i);
            ctx.count("sampled coefficients", 1);
        }
    }
    ctx.check(ok, &format!("{}:g_coeffs", C::CNAME), || info());
    if k <= 13 {
        // generators start, start + step, ...
        let (a, d) = (rand_u(r, &p), rand_u(r, &p));
        let one = C::one();
        let step = one * &f(&d);
        let mut g = vec![one * &f(&a)];
        for i in 1..n {
            let t = g[i - 1] + &step;
            g.push(t);
        }
        let dl = |i: usize| addm(&a, &mulm(&d, &U::from_u64(i as u64), &p), &p);
        let mut wd = U::ZERO;
        for i in 0..n {
            wd = addm(&wd, &mulm(&u_of(&s[i]), &dl(i), &p), &p);
        }
        if let Some(q) = ctx.total("compute_g", || compute_g_for_inner_product::<C::S, C>(&g, &sq, f(&allinv))) {
            ctx.count("folded bases", 1);
            ctx.check(pt_of(&q) == md.mul(&pt_of(&one), &wd), &format!("{}:compute_g", C::CNAME), || info());
        }
        let all = par::allowed();
        let cpus = 1 + r.below(all.len());
        let mut h = g.clone();
        let (c, ci) = (fch[0], fchi[0]);
        match ctx.guard(|| {
            par::with_cpus(cpus, &all, || parallel_generator_collapse(&mut h, c, ci));
            h
        }) {
            Ok(h) => {
                ctx.count("basis foldings", 1);
                let l = n / 2;
                let mut pos: Vec<usize> = vec![0, 1, l / 8, l / 8 - 1, l / 2, l - 2, l - 1];
                for _ in 0..20 {
                    pos.push(r.below(l));
                }
                // every position at once, by a random combination that the basis law determines
                let w = |i: usize| addm(&mulm(&chi[0], &dl(i), &p), &mulm(&ch[0], &dl(i + l), &p), &p);
                for i in pos {
                    ctx.check(pt_of(&h[i]) == md.mul(&pt_of(&one), &w(i)), &format!("{}:collapse", C::CNAME), || {
                        format!("position {} cpus {} {}", i, cpus, info())
                    });
                }
                // consecutive differences are constant: no position deviates
                let diff = h[1] - &h[0];
                let odd = (1..l).find(|i| h[*i] - &h[*i - 1] != diff);
                ctx.check(odd.is_none(), &format!("{}:collapse", C::CNAME), || format!("position {:?} cpus {} {}", odd, cpus, info()));
            }
            Err(e) => {
                ctx.total("collapse", || panic!("len={} cpus={}: {}", n, cpus, e));
            }
        }
    }
}

/// Long inner products, on any number of processors.
fn inner<F: PF>(ctx: &Ctx, r: &mut Rng, i: usize) {
    let len = if i < 36 { (1 << (i / 2)) + r.below(3) - 1 } else { { let top = 2 << r.below(16); r.below(top) } };
    let len = len.min(70_000);
    let all = par::allowed();
    let cpus = 1 + r.below(all.len());
    // a few values, repeated: the products are what costs
    let few: Vec<U> = (0..r.range(1, 40)).map(|_| if r.one_in(5) { U::ZERO } else { hostile_u(r, &F::P) }).collect();
    let ff: Vec<F> = few.iter().map(f_of).collect();
    let mut times = vec![vec![0u64; few.len()]; few.len()];
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..len {
        let (x, y) = (r.below(few.len()), r.below(few.len()));
        times[x][y] += 1;
        a.push(ff[x]);
        b.push(ff[y]);
    }
    let mut want = U::ZERO;
    for x in 0..few.len() {
        for y in 0..few.len() {
            let t = mulm(&mulm(&few[x], &few[y], &F::P), &U::from_u64(times[x][y]), &F::P);
            want = addm(&want, &t, &F::P);
        }
    }
    ctx.case(Some(hash_str(&format!("inner {} {} {} {:?}", F::NAME, len, cpus, few))));
    if let Some(g) = ctx.total("inner_product", || par::with_cpus(cpus, &all, || compute_inner_product(&a, &b))) {
        ctx.count("inner products", 1);
        ctx.max("longest inner product", len as u64);
        ctx.check(u_of(&g) == want, &format!("{}:inner_product", F::NAME), || {
            format!("len={} cpus={} values={:?} want {} got {:?}", len, cpus, few.iter().map(|c| c.hex()).collect::<Vec<_>>(), want.hex(), g)
        });
    }
}

fn main() {
    run(
        "U03",
        "one evaluation = one challenge list put through every helper (and a basis of known discrete logarithms folded round by round); distinct = distinct challenge lists",
        60,
        500,
        |ctx| {
            ctx.par("ipa", ctx.scale(260, 6000), |i, r| {
                let k = if i < 20 { i / 2 } else { [1, 2, 3, 4, 5, 6, 7, 9][r.below(8)] };
                one::<Ec0>(ctx, r, k);
                one::<Ec1>(ctx, r, k);
            });
            ctx.par("inner", ctx.scale(400, 6000), |i, r| if i % 2 == 0 { inner::<Fp>(ctx, r, i) } else { inner::<Fq>(ctx, r, i) });
            // the largest first
            ctx.par("deep", ctx.scale(16, 60), |i, r| {
                let k = [22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 13, 12, 12, 11, 11, 10][i % 16];
                if i % 2 == 0 {
                    deep::<Ec0>(ctx, r, k);
                } else {
                    deep::<Ec1>(ctx, r, k);
                }
            });
        },
    );
}
