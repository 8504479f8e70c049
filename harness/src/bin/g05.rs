//! G05: programs of number gadgets: values, satisfiability and every other solution.
use halo::*;
use hv::exact::*;
use hv::forge::*;
use hv::r1cs::*;
use hv::*;

/// one term of a combination: how it is added
#[derive(Clone, Copy, Debug)]
struct Term<F> {
    how: u8,
    of: usize,
    k: F,
    c: u8,
}

#[derive(Clone, Debug)]
enum Op<F> {
    Alloc(F),
    Input(F),
    One,
    Bit(bool),
    Inputize(usize),
    Mul(usize, usize),
    AllocSquare(F),
    Eval(Vec<Term<F>>, F),
    CMul(Vec<Term<F>>, Vec<Term<F>>),
    CSquare(Vec<Term<F>>),
    Alpha(Vec<Term<F>>),
    InvAlpha(Vec<Term<F>>),
    Invert(usize),
    Sqrt(usize),
}

struct Run<F: Field> {
    rec: Rec<F>,
    fixed: Vec<usize>,
    /// per handle: linear form and reported value
    forms: Vec<(Vec<(usize, F)>, Option<F>)>,
    /// linear forms of the raw combinations, with their reported values
    combos: Vec<(Vec<(usize, F)>, Option<F>)>,
    inputs: usize,
}

fn coeff<F: PF>(c: u8, k: F) -> Coeff<F> {
    match c {
        0 => Coeff::Zero,
        1 => Coeff::One,
        2 => Coeff::NegativeOne,
        _ => Coeff::Full(k),
    }
}

fn lcv<F: PF>(lc: &LinearCombination<F>) -> Vec<(usize, F)> {
    lc.as_ref().iter().map(|(v, c)| (Rec::<F>::idx(*v), c.value())).collect()
}

fn combo<F: PF>(pool: &[Num<F>], nums: &[Option<AllocatedNum<F>>], t: &[Term<F>]) -> Combination<F> {
    let mut c = Combination::zero();
    for (i, t) in t.iter().enumerate() {
        let of = t.of % pool.len();
        let k = coeff(t.c, t.k);
        let n = pool[of];
        c = match (t.how, nums[of]) {
            (0, _) => c + n,
            (1, Some(a)) => c + a,
            (2, Some(a)) => c - a,
            (3, Some(a)) => c + (k, a),
            (4, _) => c + (k, n),
            (5, _) => c + Combination::from(n).scale(t.k),
            (6, _) => c + (-n).scale(t.k),
            (7, _) => {
                c += Num::from((k, n));
                c
            }
            (8, Some(a)) => {
                c += a;
                c
            }
            (9, _) => c + Num::constant(t.k),
            (10, Some(a)) if i == 0 => Combination::from(a),
            (11, _) => c.scale(t.k) + n,
            _ => c + n,
        };
    }
    c
}
fn combo_val<F: PF>(vals: &[F], isnum: &[bool], t: &[Term<F>]) -> F {
    let mut c = F::zero();
    for t in t.iter() {
        let of = t.of % vals.len();
        let k = coeff(t.c, t.k);
        let kv = match t.c {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            _ => t.k,
        };
        let _ = k;
        let n = vals[of];
        c = match (t.how, isnum[of]) {
            (2, true) => c - &n,
            (3, true) | (4, _) | (7, _) => c + &(n * &kv),
            (5, _) => c + &(n * &t.k),
            (6, _) => c - &(n * &t.k),
            (9, _) => c + &t.k,
            (11, _) => c * &t.k + &n,
            _ => c + &n,
        };
    }
    c
}

/// `over`: replaces the values of free operands (allocations) in order
fn synth<F: PF>(ops: &[Op<F>], witness: bool) -> Result<Run<F>, SynthesisError> {
    let mut cs = Rec::<F>::with_paths();
    let mut fixed = vec![];
    let mut pool: Vec<Num<F>> = vec![];
    let mut nums: Vec<Option<AllocatedNum<F>>> = vec![];
    let mut combos = vec![];
    let mut inputs = 0;
    let w = |v: F| if witness { Ok(v) } else { Err(SynthesisError::AssignmentMissing) };
    for (i, o) in ops.iter().enumerate() {
        macro_rules! push_num {
            ($n:expr) => {{
                let n: AllocatedNum<F> = $n;
                pool.push(n.into());
                nums.push(Some(n));
            }};
        }
        match o {
            Op::Alloc(v) => {
                let n = AllocatedNum::alloc(cs.namespace(|| format!("op {}", i)), || w(*v))?;
                fixed.push(Rec::<F>::idx(n.get_variable()));
                push_num!(n);
            }
            Op::Input(v) => {
                inputs += 1;
                let n = AllocatedNum::alloc_input(cs.namespace(|| format!("op {}", i)), || w(*v))?;
                fixed.push(Rec::<F>::idx(n.get_variable()));
                push_num!(n);
            }
            Op::One => push_num!(AllocatedNum::one(cs.namespace(|| "one"))),
            Op::Bit(b) => {
                let bit = AllocatedBit::alloc(cs.namespace(|| format!("op {}", i)), || {
                    if witness {
                        Ok(*b)
                    } else {
                        Err(SynthesisError::AssignmentMissing)
                    }
                })?;
                fixed.push(Rec::<F>::idx(bit.get_variable()));
                push_num!(AllocatedNum::from(bit));
            }
            Op::Inputize(x) => {
                let x = *x % nums.len();
                if let Some(n) = nums[x] {
                    inputs += 1;
                    let n = n.inputize(cs.namespace(|| format!("op {}", i)))?;
                    let ok = cs.inputs.last() == Some(&Rec::<F>::idx(n.get_variable()));
                    if !ok {
                        panic!("inputize did not return the new input");
                    }
                    pool.push(n.into());
                    nums.push(Some(n));
                } else {
                    pool.push(pool[x]);
                    nums.push(None);
                }
            }
            Op::Mul(a, b) => {
                let (a, b) = (*a % nums.len(), *b % nums.len());
                match (nums[a], nums[b]) {
                    (Some(x), Some(y)) => {
                        let n = x.mul(cs.namespace(|| format!("op {}", i)), &y)?;
                        push_num!(n)
                    }
                    _ => {
                        let n = Combination::from(pool[a]).mul(cs.namespace(|| format!("op {}", i)), &Combination::from(pool[b]))?;
                        push_num!(n)
                    }
                }
            }
            Op::AllocSquare(v) => {
                let (a, b) = AllocatedNum::alloc_and_square(cs.namespace(|| format!("op {}", i)), || w(*v))?;
                fixed.push(Rec::<F>::idx(a.get_variable()));
                push_num!(a);
                pool.push(b.into());
                nums.push(Some(b));
            }
            Op::Eval(t, _) => {
                let c = combo(&pool, &nums, t);
                combos.push((lcv(&c.lc(&mut cs)), c.get_value()));
                let n = c.evaluate(cs.namespace(|| format!("op {}", i)))?;
                pool.push(n);
                nums.push(None);
            }
            Op::CMul(a, b) => {
                let (a, b) = (combo(&pool, &nums, a), combo(&pool, &nums, b));
                combos.push((lcv(&a.lc(&mut cs)), a.get_value()));
                let n = a.mul(cs.namespace(|| format!("op {}", i)), &b)?;
                pool.push(n.into());
                nums.push(Some(n));
            }
            Op::CSquare(a) => {
                let a = combo(&pool, &nums, a);
                let n = a.square(cs.namespace(|| format!("op {}", i)))?;
                pool.push(n.into());
                nums.push(Some(n));
            }
            Op::Alpha(a) => {
                let a = combo(&pool, &nums, a);
                let n = a.rescue_alpha(cs.namespace(|| format!("op {}", i)))?;
                pool.push(n);
                nums.push(None);
            }
            Op::InvAlpha(a) => {
                let a = combo(&pool, &nums, a);
                let n = a.rescue_invalpha(cs.namespace(|| format!("op {}", i)))?;
                pool.push(n);
                nums.push(None);
            }
            Op::Invert(x) | Op::Sqrt(x) => {
                let n = match nums[*x] {
                    Some(n) => n,
                    None => panic!("generator: operand of invert/sqrt must be a number"),
                };
                let ns = cs.namespace(|| format!("op {}", i));
                let n = if let Op::Invert(_) = o { n.invert(ns)? } else { n.sqrt(ns)? };
                push_num!(n);
            }
        }
    }
    for n in &pool {
        // a number reported constant is one: known without a witness, and built from no variable
        if n.is_constant() && (n.value().is_none() || lcv(&n.lc(&mut cs)).iter().any(|(v, _)| *v != 0)) {
            panic!("a number built from variables calls itself constant");
        }
    }
    let forms: Vec<_> = pool.iter().map(|n| (lcv(&n.lc(&mut cs)), n.value())).collect();
    Ok(Run { rec: cs, fixed, forms, combos, inputs })
}

struct Truth<F> {
    vals: Vec<F>,
    isnum: Vec<bool>,
    combos: Vec<F>,
}

fn fifth_root<F: PF>(v: F) -> F {
    let x = v.pow(&F::RESCUE_INVALPHA);
    assert!(x.pow(&[5, 0, 0, 0]) == v, "fifth root exponent");
    x
}

/// Forward evaluation; square roots are read from `root` (the value chosen by the
/// assignment) and checked.
fn truth<F: PF>(ops: &[Op<F>], root: &dyn Fn(usize) -> Option<F>) -> Result<Truth<F>, String> {
    let mut t = Truth { vals: vec![], isnum: vec![], combos: vec![] };
    for o in ops {
        let n = t.vals.len();
        let (v, isnum) = match o {
            Op::Alloc(v) | Op::Input(v) => (*v, true),
            Op::One => (F::one(), true),
            Op::Bit(b) => (if *b { F::one() } else { F::zero() }, true),
            Op::Inputize(x) => (t.vals[*x % n], t.isnum[*x % n]),
            Op::Mul(a, b) => (t.vals[*a % n] * &t.vals[*b % n], true),
            Op::AllocSquare(v) => {
                t.vals.push(*v);
                t.isnum.push(true);
                (*v * v, true)
            }
            Op::Eval(c, _) => {
                let v = combo_val(&t.vals, &t.isnum, c);
                t.combos.push(v);
                (v, false)
            }
            Op::CMul(a, b) => {
                let v = combo_val(&t.vals, &t.isnum, a);
                t.combos.push(v);
                (v * &combo_val(&t.vals, &t.isnum, b), true)
            }
            Op::CSquare(a) => {
                let v = combo_val(&t.vals, &t.isnum, a);
                (v * &v, true)
            }
            Op::Alpha(a) => {
                let v = combo_val(&t.vals, &t.isnum, a);
                let q = v * &v;
                (q * &q * &v, false)
            }
            Op::InvAlpha(a) => (fifth_root(combo_val(&t.vals, &t.isnum, a)), false),
            Op::Invert(x) => {
                let v = t.vals[*x];
                if v == F::zero() {
                    return Err("inverse of zero".into());
                }
                (v.invert().unwrap(), true)
            }
            Op::Sqrt(x) => {
                let v = t.vals[*x];
                let s = match root(n) {
                    Some(s) => s,
                    None => {
                        let s = v.sqrt();
                        if bool::from(s.is_some()) {
                            s.unwrap()
                        } else {
                            return Err("root of a non-square".into());
                        }
                    }
                };
                if s * &s != v {
                    return Err(format!("value {:?} claimed as the root of {:?}", s, v));
                }
                (s, true)
            }
        };
        t.vals.push(v);
        t.isnum.push(isnum);
    }
    Ok(t)
}

fn terms<F: PF>(r: &mut Rng) -> Vec<Term<F>> {
    let len = if r.one_in(200) { r.range(10, 300) } else { r.below(5) };
    (0..len)
        .map(|_| Term {
            how: r.below(12) as u8,
            of: r.u64() as usize,
            k: hostile_f(r),
            c: r.below(5) as u8,
        })
        .collect()
}

fn program<F: PF>(r: &mut Rng, len: usize) -> Vec<Op<F>> {
    let mut ops = vec![Op::Alloc(hostile_f::<F>(r))];
    while ops.len() < len {
        let o = match r.below(16) {
            0 | 1 => Op::Alloc(hostile_f(r)),
            2 => Op::Input(hostile_f(r)),
            3 => Op::One,
            4 => Op::Bit(r.bool()),
            5 => Op::Inputize(r.u64() as usize),
            6 => Op::Mul(r.u64() as usize, r.u64() as usize),
            7 => Op::AllocSquare(hostile_f(r)),
            8 | 9 => Op::Eval(terms(r), F::zero()),
            10 => Op::CMul(terms(r), terms(r)),
            11 => Op::CSquare(terms(r)),
            12 => Op::Alpha(terms(r)),
            13 => Op::InvAlpha(terms(r)),
            14 => {
                let t = truth(&ops, &|_| None).unwrap();
                let c: Vec<usize> = (0..t.vals.len()).filter(|i| t.isnum[*i] && t.vals[*i] != F::zero()).collect();
                if c.is_empty() {
                    continue;
                }
                Op::Invert(*r.pick(&c))
            }
            _ => {
                let t = truth(&ops, &|_| None).unwrap();
                let c: Vec<usize> = (0..t.vals.len()).filter(|i| t.isnum[*i] && bool::from(t.vals[*i].sqrt().is_some())).collect();
                if c.is_empty() {
                    continue;
                }
                Op::Sqrt(*r.pick(&c))
            }
        };
        ops.push(o);
    }
    ops
}

fn job<F: PF>(ctx: &Ctx, r: &mut Rng, forge: bool) {
    let len = r.range(1, if forge { 8 } else { 16 });
    let ops = program::<F>(r, len);
    let info = || format!("{} {:?}", F::NAME, ops);
    ctx.case_str(&format!("{} {}", forge, info()));
    ctx.sample(|| info());
    let run = match ctx.total("number gadgets", || synth(&ops, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("refused", format!("{:?} {}", e, info())),
        None => return,
    };
    if let Some(v) = run.rec.ok() {
        return ctx.violation("honest unsatisfied", format!("{} {}", v, info()));
    }
    let judge = |v: &[F]| -> Option<String> {
        let t = match truth(&ops, &|i| Some(run.rec.eval(&run.forms[i].0, v))) {
            Ok(t) => t,
            Err(e) => return Some(e),
        };
        for (i, f) in run.forms.iter().enumerate() {
            let got = run.rec.eval(&f.0, v);
            if got != t.vals[i] {
                return Some(format!("value {} is {:?}, want {:?}", i, got, t.vals[i]));
            }
        }
        for (i, f) in run.combos.iter().enumerate() {
            if run.rec.eval(&f.0, v) != t.combos[i] {
                return Some(format!("combination {} is wrong", i));
            }
        }
        None
    };
    if let Some(w) = judge(&run.rec.vals) {
        return ctx.violation("value", format!("{}; {}", w, info()));
    }
    for (i, f) in run.forms.iter().enumerate() {
        ctx.check(f.1 == Some(run.rec.eval(&f.0, &run.rec.vals)), "reported value", || format!("handle {} {}", i, info()));
    }
    for (i, f) in run.combos.iter().enumerate() {
        ctx.check(f.1 == Some(run.rec.eval(&f.0, &run.rec.vals)), "reported combination", || format!("combination {} {}", i, info()));
    }
    ctx.count("values compared", (run.forms.len() + run.combos.len()) as u64);
    ctx.check(run.rec.inputs.len() == run.inputs, "inputs", || info());
    // constants only: evaluating them needs no witness; otherwise shapes agree
    if let Some(x) = ctx.total("number gadgets without witness", || synth(&ops, false)) {
        match x {
            Ok(x) => {
                ctx.check(x.rec.gates == run.rec.gates && x.rec.lcs == run.rec.lcs, "shape", || info());
            }
            Err(e) => ctx.violation("witness-less refused", format!("{:?} {}", e, info())),
        }
    }
    let e = exact(&run.rec, &run.fixed, &[], 4000, 400, r, &judge);
    ctx.count("solutions examined", e.families);
    ctx.count(if e.complete { "programs decided exhaustively" } else { "programs with guessed values" }, 1);
    if let Some(w) = e.wrong {
        return ctx.violation("forged", format!("{}; {}", w, info()));
    }
    if e.complete {
        ctx.check(e.families >= 1, "solution count", || format!("{} {}", e.families, info()));
    }
    if !forge {
        return;
    }
    let out = attack(&run.rec, &run.fixed, &[], 200, r, &dev_values::<F>, &judge);
    ctx.count("deviations tried", out.deviations);
    if let Some(w) = out.forged {
        ctx.violation("forged", format!("{}; {}", w, info()));
    }
}

/// inverting zero and rooting a non-square
fn impossible<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let root = r.bool();
    let (good, bad) = loop {
        let a = hostile_f::<F>(r);
        if !root {
            if a != F::zero() {
                break (a, F::zero());
            }
            continue;
        }
        // non-squares: the multiplicative generator times a square, checked by the
        // quadratic character rather than by sqrt itself
        let e = {
            F::P.wsub(&U::from_u64(1)).shr1()
        };
        let ex = [e.0[0], e.0[1], e.0[2], e.0[3]];
        if a != F::zero() && a.pow(&ex) == -F::one() {
            let g = rand_f::<F>(r);
            break (g * &g, a);
        }
    };
    let mk = |v: F| {
        let ops = vec![Op::Alloc(v), if root { Op::Sqrt(0) } else { Op::Invert(0) }];
        synth(&ops, true)
    };
    ctx.case_str(&format!("impossible {} {} {:?}", F::NAME, root, bad));
    ctx.count("impossible operands tried", 1);
    let name = if root { "sqrt" } else { "invert" };
    match ctx.total(name, || mk(bad)) {
        Some(Err(_)) | None => {}
        Some(Ok(x)) => {
            ctx.check(x.rec.ok().is_some(), &format!("{}:impossible satisfied", name), || format!("{} {:?}", F::NAME, bad));
        }
    }
    if let Some(Ok(x)) = ctx.total(name, || mk(good)) {
        let var = x.fixed[0];
        let e = exact(&x.rec, &[], &[(var, bad)], 1000, 100, r, &|_| Some("accepted".into()));
        if let Some(w) = e.wrong {
            ctx.violation(&format!("{}:impossible forged", name), format!("{} {:?}: {}", F::NAME, bad, w));
        }
        ctx.count(if e.complete { "impossible operands refuted" } else { "impossible operands not fully refuted" }, 1);
    }
}

fn main() {
    run(
        "G05",
        "one evaluation is one program of number gadgets with concrete operands, compared with field arithmetic and with all of its satisfying assignments examined; distinct by program and operands",
        90,
        900,
        |ctx| {
            ctx.par("programs", ctx.scale(40000, 600000), |i, r| {
                if i % 2 == 0 {
                    job::<Fp>(ctx, r, i % 10 < 2)
                } else {
                    job::<Fq>(ctx, r, i % 10 < 2)
                }
            });
            ctx.par("impossible", ctx.scale(2000, 20000), |i, r| {
                if i % 2 == 0 {
                    impossible::<Fp>(ctx, r)
                } else {
                    impossible::<Fq>(ctx, r)
                }
            });
        },
    )
}
