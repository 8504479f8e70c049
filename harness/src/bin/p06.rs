//! P06: parameters are well formed, unrelated and correctly sized; evaluation and
//! commitment agree on where a short polynomial sits.
use halo::*;
use hv::*;
use std::collections::HashMap;
use std::sync::Mutex;

type Seen = Mutex<HashMap<[u8; 32], String>>;

/// Generators equal up to sign and endomorphism share the cube of their abscissa.
fn class(md: &Model, x: &U) -> [u8; 32] {
    let xm = md.m.to(x);
    md.m.of(&md.m.mul(&md.m.sq(&xm), &xm)).to_le()
}

fn create<C: PC>(ctx: &Ctx, seen: &Seen, k: usize, cpus: usize, all: &[usize]) -> Option<Params<C>> {
    let tag = format!("{} k={} cpus={}", C::CNAME, k, cpus);
    ctx.case_str(&tag);
    ctx.sample(|| tag.clone());
    let params: Params<C> = match ctx.guard(|| par::with_cpus(cpus, all, || Params::new(k))) {
        Ok(p) => p,
        Err(e) => {
            ctx.violation("parameter creation fails", format!("{}: {}", tag, e));
            return None;
        }
    };
    let md = Model::of::<C>();
    ctx.count("parameter sets", 1);
    ctx.count(&format!("{} sets of size 2^{}", C::CNAME, k), 1);
    ctx.count("generators", params.generators.len() as u64);
    let sizes = params.k == k && params.d == 1 << k && params.n == (1 << k) / 4;
    if !ctx.check(sizes, "recorded sizes", || format!("{}: k={} d={} n={}", tag, params.k, params.d, params.n)) {
        return None;
    }
    let counted = params.generators.len() == params.d && params.generators_xy.len() == params.d;
    if !ctx.check(counted, "generator count", || {
        format!("{}: {} generators, {} coordinates", tag, params.generators.len(), params.generators_xy.len())
    }) {
        return None;
    }
    let g = pt_of_raw(&params.g);
    ctx.check(g.map_or(false, |(x, y)| md.on_curve(&x, &y)), "base point", || format!("{}: {}", tag, show_pt(&g)));
    let mut local: HashMap<[u8; 32], usize> = HashMap::new();
    let mut pts = vec![];
    for (i, (gen, xy)) in params.generators.iter().zip(&params.generators_xy).enumerate() {
        let p = pt_of_raw(gen);
        let (x, y) = match p {
            Some(v) => v,
            None => {
                ctx.violation("identity generator", format!("{}: generator {}", tag, i));
                return None;
            }
        };
        if !ctx.check(md.on_curve(&x, &y), "generator off the curve", || format!("{}: generator {} is {}", tag, i, show_pt(&p))) {
            return None;
        }
        ctx.check(u_of(&xy.0) == x && u_of(&xy.1) == y, "recorded coordinates", || {
            format!("{}: generator {} is {} but ({}, {}) is recorded", tag, i, show_pt(&p), hexf(&xy.0), hexf(&xy.1))
        });
        let c = class(&md, &x);
        if let Some(j) = local.insert(c, i) {
            ctx.violation("two generators of one set coincide up to sign and endomorphism", format!("{}: {} and {}", tag, j, i));
            return None;
        }
        pts.push(p);
    }
    if let Some((x, _)) = g {
        let hit = local.get(&class(&md, &x));
        ctx.check(hit.is_none(), "generator equals the base point up to sign and endomorphism", || format!("{}: {:?}", tag, hit));
    }
    // simple linear relations: doublings, triplings, neighbour sums and differences,
    // steps by the base point, and repeated steps
    let find = |q: &Pt| q.as_ref().and_then(|(x, _)| local.get(&class(&md, x)).cloned());
    let step = (pts.len() / 512).max(1);
    let mut diffs: HashMap<[u8; 32], usize> = HashMap::new();
    for i in (0..pts.len()).step_by(step) {
        let p = pts[i];
        let next = pts[(i + 1) % pts.len()];
        let half = pts[(i + pts.len() / 2) % pts.len()];
        let two = md.add(&p, &p);
        let diff = md.sub(&next, &p);
        let mut cand = vec![
            ("twice", two),
            ("three times", md.add(&two, &p)),
            ("four times", md.add(&two, &two)),
            ("base point more than", md.add(&p, &g)),
            ("base point less than", md.sub(&p, &g)),
        ];
        if pts.len() > 2 {
            cand.push(("sum with successor of", md.add(&p, &next)));
            cand.push(("difference with successor of", diff));
            cand.push(("sum with opposite of", md.add(&p, &half)));
        }
        ctx.count("candidate linear relations tested", cand.len() as u64 + 1);
        for (how, q) in cand {
            if let Some(j) = find(&q) {
                ctx.violation("generators linearly related", format!("{}: generator {} is {} generator {} (up to sign and endomorphism)", tag, j, how, i));
                return None;
            }
        }
        if let Some((x, _)) = diff {
            if let Some(j) = diffs.insert(class(&md, &x), i) {
                if step > 1 || (j + 1) % pts.len() != i || pts.len() > 2 {
                    ctx.violation("generators linearly related", format!("{}: the steps after generators {} and {} are equal", tag, j, i));
                    return None;
                }
            }
        }
    }
    let mut s = seen.lock().unwrap();
    for (c, i) in local {
        if let Some(o) = s.insert(c, format!("{} generator {}", tag, i)) {
            ctx.violation("generators of separately created parameters coincide", format!("{} generator {} and {}", tag, i, o));
            return None;
        }
    }
    Some(params)
}

fn align<C: PC>(ctx: &Ctx, r: &mut Rng, params: &Params<C>, len: usize, right: bool) {
    let d = params.d;
    let p = <C::S as PF>::P;
    let mut v: Vec<U> = (0..len).map(|_| if r.one_in(4) { U::ZERO } else { hostile_u(r, &p) }).collect();
    // vectors with special values: constants, unit vectors, short scalars
    if len > 0 {
        let c = if r.bool() { U::ONE } else { hostile_u(r, &p) };
        match r.below(12) {
            0 => v = vec![c; len],
            1 | 2 => {
                v = vec![U::ZERO; len];
                let i = *r.pick(&[0, len - 1, r.clone().below(len)]);
                v[i] = c;
            }
            3 => v = vec![U::ZERO; len],
            4 => v.iter_mut().for_each(|v| *v = U::from_u64(r.below(4) as u64)),
            _ => {}
        }
    }
    let x = if r.one_in(8) { U::from_u64(r.below(3) as u64) } else { hostile_u(r, &p) };
    let f = |u: &U| f_of::<C::S>(u);
    let vf: Vec<C::S> = v.iter().map(f).collect();
    let off = if right { d - len } else { 0 };
    ctx.case_str(&format!("{} {} {} {} {:?} {:?}", C::CNAME, params.k, len, right, v, x));
    ctx.count("alignment cases", 1);
    let info = || format!("{} k={} len={} right={} x={} v={:?}", C::CNAME, params.k, len, right, x.hex(), v.iter().map(|c| c.hex()).collect::<Vec<_>>());
    // evaluation of the polynomial with v placed at `off`
    let mut want = U::ZERO;
    let mut cur = U::ONE;
    for i in 0..d {
        if i >= off && i < off + len {
            want = addm(&want, &mulm(&v[i - off], &cur, &p), &p);
        }
        cur = mulm(&cur, &x, &p);
    }
    if let Some(got) = ctx.total("compute_opening", || params.compute_opening(&vf, f(&x), right)) {
        ctx.check(u_of(&got) == want, &format!("{}:evaluation", C::CNAME), || format!("{} want {} got {}", info(), want.hex(), hexf(&got)));
    }
    if len == 0 {
        return;
    }
    if let Some(got) = ctx.total("commit", || params.commit(&vf, right)) {
        let mut w = C::zero();
        for i in 0..len {
            if !v[i].is_zero() {
                w = w + params.generators[off + i] * &vf[i];
            }
        }
        ctx.check(pt_of(&got) == pt_of(&w), &format!("{}:commitment", C::CNAME), info);
    }
}

fn one<C: PC>(ctx: &Ctx, seen: &Seen, i: usize, r: &mut Rng) {
    let all = par::allowed();
    let cpus = 1 + (i / 2) % all.len();
    let k = 4 + (i / 4) % ctx.scale(7, 9);
    let params: Params<C> = match create(ctx, seen, k, cpus, &all) {
        Some(p) => p,
        None => return,
    };
    let lens: Vec<usize> = if k == 4 {
        (0..=params.d).collect()
    } else {
        let mut v = vec![0, 1, params.n, params.d - 1, params.d, 3 * params.n + 1];
        for _ in 0..6 {
            v.push(r.range(1, params.d));
        }
        v.retain(|l| *l <= 1 << 9 || r.one_in(4));
        v
    };
    for len in lens {
        if ctx.done() {
            return;
        }
        for right in &[false, true] {
            align(ctx, r, &params, len, *right);
        }
    }
}

fn main() {
    run(
        "P06",
        "parameters of sizes 2^4 upward under 1..N processors; every generator checked against the integer curve model and all earlier parameter sets; evaluation and commitment at lengths 0..d, both alignments; seeded",
        45,
        300,
        |ctx| {
            let (s0, s1): (Seen, Seen) = (Mutex::new(HashMap::new()), Mutex::new(HashMap::new()));
            // the larger sizes first, one after the other (creation is itself parallel)
            let all = par::allowed();
            let mut r = ctx.rng("large", 0);
            for k in 11..=ctx.scale(12, 17) {
                for _ in 0..ctx.scale(1, 3) {
                    let n = 1 + r.below(all.len());
                    let p0 = create::<Ec0>(ctx, &s0, k, n, &all);
                    let n = 1 + r.below(all.len());
                    let p1 = create::<Ec1>(ctx, &s1, k, n, &all);
                    ctx.par(&format!("long/{}", k), 8, |i, r| {
                        let part = r.range(1 << (k - 1), 1 << k);
                        let len = if i < 4 { part } else { 1 << k };
                        match (&p0, &p1) {
                            (Some(p), _) if i % 2 == 0 => align(ctx, r, p, len, i & 2 == 0),
                            (_, Some(p)) if i % 2 == 1 => align(ctx, r, p, len, i & 2 == 0),
                            _ => {}
                        }
                        ctx.max("longest vector evaluated and committed to", 1 << k);
                    });
                }
            }
            ctx.par("params", ctx.scale(224, 2400), |i, r| if i % 2 == 0 { one::<Ec0>(ctx, &s0, i, r) } else { one::<Ec1>(ctx, &s1, i, r) });
        },
    )
}
