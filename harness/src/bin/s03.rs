//! S03: coefficient, linear-combination and number-combination algebra against
//! symbolic linear forms.
use halo::*;
use hv::circ::*;
use hv::r1cs::*;
use hv::*;

/// Expected linear form: coefficient per variable, index 0 is the constant one.
type Form<F> = Vec<F>;

fn form_of<F: PF>(lc: &LinearCombination<F>, m: usize) -> Form<F> {
    let mut f = vec![F::zero(); m];
    for (v, c) in lc.as_ref() {
        let i = Rec::<F>::idx(*v);
        f[i] = f[i] + &cval(c);
    }
    f
}
fn addf<F: PF>(a: &Form<F>, b: &Form<F>, s: F) -> Form<F> {
    a.iter().zip(b).map(|(x, y)| *x + &(*y * &s)).collect()
}
fn unit<F: PF>(m: usize, i: usize, s: F) -> Form<F> {
    let mut f = vec![F::zero(); m];
    f[i] = s;
    f
}

fn coeffs<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let mut c = rand_coeff::<F>(r);
    let mut v = cval(&c);
    let mut trace = vec![format!("{:?}", c)];
    for _ in 0..r.below(8) {
        match r.below(8) {
            0 => {
                let f = hostile_f::<F>(r);
                c = c * f;
                v = v * &f;
                trace.push(format!("* {:?}", f));
            }
            1 | 2 => {
                let d = rand_coeff::<F>(r);
                let (x, y) = (c, d);
                c = x * y;
                v = v * &cval(&d);
                trace.push(format!("* {:?}", d));
            }
            3 => {
                let d = rand_coeff::<F>(r);
                c = d * c;
                v = v * &cval(&d);
                trace.push(format!("{:?} *", d));
            }
            4 => {
                c = -c;
                v = -v;
                trace.push("neg".into());
            }
            5 | 6 => {
                c = c.double();
                v = v + &v;
                trace.push("double".into());
            }
            _ => {
                let f = hostile_f::<F>(r);
                c = Coeff::from(f);
                v = f;
                trace.push(format!("from {:?}", f));
            }
        }
        ctx.count("coefficient steps", 1);
        let ok = cval(&c) == v && c.value() == v;
        if !ctx.check(ok, &format!("{}:coefficient", F::NAME), || format!("{:?} gives {:?} want {:?}", trace, c, v)) {
            return;
        }
        let w = hostile_f::<F>(r);
        let mut x = w;
        c.multiply(&mut x);
        ctx.check(x == w * &v, &format!("{}:multiply by coefficient", F::NAME), || format!("{:?} on {:?}", c, w));
    }
    ctx.case(Some(hash_str(&trace.join(","))));
}

fn lcs<F: PF>(ctx: &Ctx, r: &mut Rng, wide: bool) {
    let m = if wide { r.range(50, 1500) } else { 2 + r.below(5) };
    // wires of all three families, most of them sharing their index with a neighbour
    let base = r.below(4);
    let var = |i: usize| wire(i + base);
    let form_of = |lc: &LinearCombination<F>, m: usize| -> Form<F> {
        let mut f = vec![F::zero(); m + base];
        for (v, c) in lc.as_ref() {
            let i = flat(*v);
            f[i] = f[i] + &cval(c);
        }
        f.split_off(base)
    };
    let mut pool: Vec<(LinearCombination<F>, Form<F>)> = vec![(LinearCombination::zero(), vec![F::zero(); m])];
    let mut trace = vec![];
    let (mut last, mut last_k) = ((0, Coeff::One), 0);
    for _ in 0..1 + if wide { r.range(100, 400) } else { r.below(12) } {
        // mostly the expression just built
        let pick = if r.bool() { pool.len() - 1 } else { r.below(pool.len()) };
        let (lc, f) = pool[pick].clone();
        let (other, of) = pool[r.below(pool.len())].clone();
        // a wire near the last one, and often the last coefficient again: adjacent terms
        // that are alike in all but the family, or alike entirely
        let i = if r.bool() { (last.0 + r.below(3)) % m } else { r.below(m) };
        let c = if r.one_in(3) { last.1 } else { rand_coeff::<F>(r) };
        last = (i, c);
        let one = F::one();
        let mut k = if r.one_in(3) { last_k } else { r.below(9) };
        if wide && (k == 8 || lc.as_ref().len() + other.as_ref().len() > 6000) {
            k %= 4;
        }
        last_k = k;
        trace.push(format!("{}:{:?}:{}", k, c, i));
        let next = match k {
            0 => (lc + var(i), addf(&f, &unit(m, i, one), one)),
            1 => (lc - var(i), addf(&f, &unit(m, i, one), -one)),
            2 => (lc + (c, var(i)), addf(&f, &unit(m, i, cval(&c)), one)),
            3 => (lc - (c, var(i)), addf(&f, &unit(m, i, cval(&c)), -one)),
            4 => (lc + &other, addf(&f, &of, one)),
            5 => (lc - &other, addf(&f, &of, -one)),
            6 => (lc + (c, &other), addf(&f, &of, cval(&c))),
            7 => (lc - (c, &other), addf(&f, &of, -cval(&c))),
            _ => (LinearCombination::from(var(i)), unit(m, i, one)),
        };
        ctx.count("combination steps", 1);
        if !ctx.check(form_of(&next.0, m) == next.1, &format!("{}:linear combination", F::NAME), || {
            format!("{:?}: {:?} want {:?}", trace, next.0.as_ref(), next.1)
        }) {
            return;
        }
        pool.push(next);
        if pool.len() > 6 {
            pool.remove(1);
        }
    }
    ctx.case(Some(hash_str(&trace.join(","))));
    // evaluation over the three wire families
    let n = if wide { r.range(50, 2000) } else { 1 + r.below(5) };
    let a: Vec<F> = (0..n).map(|_| hostile_f(r)).collect();
    let b: Vec<F> = (0..n).map(|_| hostile_f(r)).collect();
    let c: Vec<F> = (0..n).map(|_| hostile_f(r)).collect();
    let mut lc = LinearCombination::zero();
    let mut want = F::zero();
    for _ in 0..if wide { r.range(100, 5000) } else { r.below(10) } {
        let i = r.range(1, n);
        let co = if r.one_in(3) { last.1 } else { rand_coeff::<F>(r) };
        last.1 = co;
        let (v, x) = match r.below(3) {
            0 => (Variable::A(i), a[i - 1]),
            1 => (Variable::B(i), b[i - 1]),
            _ => (Variable::C(i), c[i - 1]),
        };
        if r.bool() {
            lc = lc + (co, v);
            want = want + &(cval(&co) * &x);
        } else {
            lc = lc - (co, v);
            want = want - &(cval(&co) * &x);
        }
    }
    ctx.count("evaluations", 1);
    ctx.max("terms", lc.as_ref().len() as u64);
    ctx.check(lc.evaluate(&a, &b, &c) == want, &format!("{}:evaluate", F::NAME), || format!("{:?}", lc.as_ref()));
}

fn nums<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let known = !r.one_in(6);
    let m = 1 + r.range(1, 6);
    let mut cs = Rec::<F>::new();
    let mut an = vec![AllocatedNum::one(&mut cs)];
    for i in 1..m {
        let v = hostile_f::<F>(r);
        // in the unknown case only some values are missing
        let have = known || r.bool();
        let n = AllocatedNum::alloc(&mut cs, || if have { Ok(v) } else { Err(SynthesisError::AssignmentMissing) }).unwrap();
        assert_eq!(Rec::<F>::idx(n.get_variable()), i);
        an.push(n);
    }
    let vals = cs.vals.clone();
    let eval = |f: &Form<F>| f.iter().zip(&vals).fold(F::zero(), |a, (x, y)| a + &(*x * y));
    let mut trace: Vec<String> = vec![];
    let one = F::one();

    // numbers
    let mut ns: Vec<(Num<F>, Form<F>)> = vec![];
    for _ in 0..r.range(2, 8) {
        let i = r.below(m);
        let c = rand_coeff::<F>(r);
        let f = hostile_f::<F>(r);
        let base = if ns.is_empty() { (Num::from(an[i]), unit(m, i, one)) } else { r.pick(&ns).clone() };
        let k = r.below(7);
        trace.push(format!("n{}:{}:{:?}:{:?}", k, i, c, f));
        let next = match k {
            0 => (Num::from(an[i]), unit(m, i, one)),
            1 => (Num::from((c, an[i])), unit(m, i, cval(&c))),
            2 => (Num::from((c, base.0)), addf(&vec![F::zero(); m], &base.1, cval(&c))),
            3 => (base.0.scale(f), addf(&vec![F::zero(); m], &base.1, f)),
            4 => (-base.0, addf(&vec![F::zero(); m], &base.1, -one)),
            5 => (Num::constant(f), unit(m, 0, f)),
            _ => (Num::Constant(c), unit(m, 0, cval(&c))),
        };
        let got = form_of(&next.0.lc(&mut cs), m);
        ctx.count("number steps", 1);
        let v = next.0.value();
        let ok = got == next.1
            && match v {
                Some(v) => v == eval(&next.1),
                None => !known,
            };
        if !ctx.check(ok, &format!("{}:number", F::NAME), || {
            format!("{:?}: form {:?} want {:?}; value {:?} want {:?}", trace, got, next.1, v, eval(&next.1))
        }) {
            return;
        }
        ns.push(next);
    }
    // combinations
    let mut pool: Vec<(Combination<F>, Form<F>)> = vec![(Combination::zero(), vec![F::zero(); m])];
    let (mut last, mut last_k) = ((0, Coeff::One), 0);
    for _ in 0..r.range(1, 14) {
        let pick = if r.bool() { pool.len() - 1 } else { r.below(pool.len()) };
        let (cb, f) = pool[pick].clone();
        let (other, of) = pool[r.below(pool.len())].clone();
        let i = if r.bool() { (last.0 + r.below(3)) % m } else { r.below(m) };
        let (n, nf) = r.pick(&ns).clone();
        let c = if r.one_in(3) { last.1 } else { rand_coeff::<F>(r) };
        last = (i, c);
        let s = hostile_f::<F>(r);
        let k = if r.one_in(3) { last_k } else { r.below(12) };
        last_k = k;
        trace.push(format!("c{}:{}:{:?}:{:?}", k, i, c, s));
        let next = match k {
            0 => (cb + an[i], addf(&f, &unit(m, i, one), one)),
            1 => (cb - an[i], addf(&f, &unit(m, i, one), -one)),
            2 => (cb + n, addf(&f, &nf, one)),
            3 => (cb + (c, an[i]), addf(&f, &unit(m, i, cval(&c)), one)),
            4 => (cb + (c, n), addf(&f, &nf, cval(&c))),
            5 => (cb + other, addf(&f, &of, one)),
            6 => {
                let mut x = cb;
                x += an[i];
                (x, addf(&f, &unit(m, i, one), one))
            }
            7 => {
                let mut x = cb;
                x += n;
                (x, addf(&f, &nf, one))
            }
            8 => (cb.scale(s), addf(&vec![F::zero(); m], &f, s)),
            9 => (Combination::from(an[i]), unit(m, i, one)),
            10 => (Combination::from(n), nf),
            _ => (Combination::zero(), vec![F::zero(); m]),
        };
        let got = form_of(&next.0.lc(&mut cs), m);
        let v = next.0.get_value();
        ctx.count("number combination steps", 1);
        let ok = got == next.1
            && match v {
                Some(v) => v == eval(&next.1),
                None => !known,
            };
        if !ctx.check(ok, &format!("{}:combination", F::NAME), || {
            format!("{:?}: form {:?} want {:?}; value {:?} want {:?}", trace, got, next.1, v, eval(&next.1))
        }) {
            return;
        }
        pool.push(next);
        if pool.len() > 5 {
            pool.remove(1);
        }
    }
    ctx.count("expressions with unknown values", !known as u64);
    ctx.check(cs.gates.is_empty() && cs.lcs.is_empty(), "algebra emitted constraints", || format!("{:?}", trace));
    ctx.sample(|| format!("{:?}", trace));
    ctx.case(Some(hash_str(&trace.join(","))));
}

fn main() {
    run(
        "S03",
        "one evaluation is one random expression built step by step and compared with its symbolic linear form after every step; distinct expressions are counted by their construction trace",
        75,
        600,
        |ctx| {
            ctx.par("expressions", ctx.scale(300000, 6000000), |i, r| match i % 6 {
                0 => coeffs::<Fp>(ctx, r),
                1 => coeffs::<Fq>(ctx, r),
                2 => lcs::<Fp>(ctx, r, i % 6000 == 2),
                3 => lcs::<Fq>(ctx, r, i % 6000 == 3),
                4 => nums::<Fp>(ctx, r),
                _ => nums::<Fq>(ctx, r),
            });
        },
    )
}
