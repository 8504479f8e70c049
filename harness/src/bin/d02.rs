//! D02: the determinism check and the constraint counts against the operations a
//! circuit program really issues.
use halo::dev::*;
use halo::*;
use hv::circ::*;
use hv::logc::*;
use hv::proofs::*;
use hv::steps::*;
use hv::*;
use std::cell::Cell;
use std::collections::BTreeMap;

/// Issues `first` on its first synthesis and `then` on every later one.
struct TwoFaced<'a, F: PF> {
    first: &'a Prog<F>,
    then: &'a Prog<F>,
    runs: Cell<usize>,
}
impl<'a, F: PF> Circuit<F> for TwoFaced<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let n = self.runs.get();
        self.runs.set(n + 1);
        if n == 0 {
            self.first.synthesize(cs)
        } else {
            self.then.synthesize(cs)
        }
    }
}

/// Behaves differently depending on whether its witness closures are called.
struct Peeking<'a, F: PF> {
    p: &'a Prog<F>,
    q: &'a Prog<F>,
    asked: Cell<bool>,
}
impl<'a, F: PF> Circuit<F> for Peeking<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        self.asked.set(false);
        let v = cs.alloc(
            || "peek",
            || {
                self.asked.set(true);
                Ok(F::one())
            },
        )?;
        cs.enforce_zero(LinearCombination::from(v) - CS::ONE);
        if self.asked.get() {
            self.q.synthesize(cs)
        } else {
            self.p.synthesize(cs)
        }
    }
}

fn shape(r: &mut Rng, ops: usize) -> Shape {
    Shape {
        ops,
        max_gates: 100000,
        max_lcs: 100000,
        inputs: r.below(5),
        namespaces: true,
    }
}

/// Operations as the checker must tell them apart.
fn trace<F: PF>(p: &Prog<F>) -> Vec<String> {
    p.ops
        .iter()
        .filter_map(|o| match o {
            Op::Alloc(_) => Some("alloc".into()),
            Op::Input(_) => Some("input".into()),
            Op::Gate(..) => Some("gate".into()),
            Op::Lin(l) => {
                // what the constraint means: terms merged, zero ones dropped
                let mut m: BTreeMap<usize, F> = BTreeMap::new();
                for (c, v) in l {
                    let e = m.entry(*v).or_insert(F::zero());
                    *e = *e + &cval(c);
                }
                m.retain(|_, c| *c != F::zero());
                Some(format!("{:?}", m.iter().map(|(v, c)| (*v, u_of(c))).collect::<Vec<_>>()))
            }
            _ => None,
        })
        .collect()
}

fn determinism<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let n = r.below(25);
    let s = shape(r, n);
    let p = Prog::<F>::random(r, &s);
    ctx.case(Some(hash_str(&format!("{:?}", p.ops))));
    let info = |q: &Prog<F>| format!("{} {:?} against {:?}", F::NAME, p.ops, q.ops);
    if let Some(g) = ctx.total("determinism_check", || determinism_check(&p)) {
        ctx.check(g.is_ok(), "deterministic circuit refused", || format!("{:?} {}", g, info(&p)));
        ctx.count("deterministic circuits accepted", 1);
    }
    // values may differ between the two runs
    let mut other = p.clone();
    for v in other.vals.iter_mut().skip(1) {
        *v = hostile_f(r);
    }
    let t = TwoFaced { first: &p, then: &other, runs: Cell::new(0) };
    if let Some(g) = ctx.total("determinism_check", || determinism_check(&t)) {
        ctx.check(g.is_ok(), "values mistaken for structure", || format!("{:?} {}", g, info(&other)));
    }
    // divergences
    for _ in 0..6 {
        let mut q = p.clone();
        let what;
        match r.below(7) {
            0 => {
                // cut the end
                what = "second run stops short";
                let keep = if r.bool() { q.ops.len().saturating_sub(1) } else { r.below(q.ops.len() + 1) };
                q.ops.truncate(keep);
                close(&mut q);
            }
            1 => {
                what = "second run goes on";
                close(&mut q);
                match r.below(3) {
                    0 => {
                        let v = q.push(F::one());
                        q.ops.push(Op::Alloc(v));
                    }
                    1 => q.ops.push(Op::Lin(if r.bool() { vec![] } else { vec![(Coeff::One, 0)] })),
                    _ => {
                        let a = q.push(F::one());
                        let b = q.push(F::one());
                        let c = q.push(F::one());
                        q.ops.push(Op::Gate(a, b, c));
                    }
                }
            }
            2 | 3 => {
                what = "a coefficient or variable differs";
                let ls: Vec<usize> = (0..q.ops.len()).filter(|i| matches!(&q.ops[*i], Op::Lin(l) if !l.is_empty())).collect();
                if ls.is_empty() {
                    continue;
                }
                let at = *r.pick(&ls);
                let seen = variables_before(&q, at);
                if let Op::Lin(l) = &mut q.ops[at] {
                    let j = r.below(l.len());
                    if r.bool() {
                        let c = cval(&l[j].0);
                        l[j].0 = match r.below(3) {
                            0 => Coeff::Full(c + &F::one()),
                            1 => -l[j].0,
                            _ => l[j].0.double(),
                        };
                    } else {
                        l[j].1 = r.below(seen);
                    }
                }
            }
            4 => {
                what = "a term more or less";
                let ls: Vec<usize> = (0..q.ops.len()).filter(|i| matches!(&q.ops[*i], Op::Lin(_))).collect();
                if ls.is_empty() {
                    continue;
                }
                let at = *r.pick(&ls);
                let seen = variables_before(&q, at);
                if let Op::Lin(l) = &mut q.ops[at] {
                    if !l.is_empty() && r.bool() {
                        l.pop();
                    } else {
                        l.push((Coeff::One, r.below(seen)));
                    }
                }
            }
            5 => {
                what = "an allocation becomes an input";
                let ls: Vec<usize> = (0..q.ops.len()).filter(|i| matches!(&q.ops[*i], Op::Alloc(_) | Op::Input(_))).collect();
                if ls.is_empty() {
                    continue;
                }
                let at = *r.pick(&ls);
                q.ops[at] = match q.ops[at] {
                    Op::Alloc(v) => Op::Input(v),
                    Op::Input(v) => Op::Alloc(v),
                    _ => unreachable!(),
                };
            }
            _ => {
                what = "operations reordered";
                if q.ops.len() < 2 {
                    continue;
                }
                let i = r.below(q.ops.len() - 1);
                let ok = matches!(
                    (&q.ops[i], &q.ops[i + 1]),
                    (Op::Lin(_), Op::Lin(_)) | (Op::Lin(_), Op::Alloc(_)) | (Op::Lin(_), Op::Gate(..)) | (Op::Lin(_), Op::Input(_))
                );
                if !ok {
                    continue;
                }
                q.ops.swap(i, i + 1);
            }
        }
        if trace(&p) == trace(&q) {
            continue;
        }
        // only divergences in meaning are judged
        let swap = r.bool();
        let (first, then) = if swap { (&q, &p) } else { (&p, &q) };
        ctx.count(&format!("divergence: {}", what), 1);
        let t = TwoFaced { first, then, runs: Cell::new(0) };
        let g = ctx.guard(|| determinism_check(&t));
        ctx.check(!matches!(g, Ok(Ok(()))), "divergence undetected", || format!("{} swapped={} {}", what, swap, info(&q)));
        let t = Peeking { p: first, q: then, asked: Cell::new(false) };
        let g = ctx.guard(|| determinism_check(&t));
        ctx.check(!matches!(g, Ok(Ok(()))), "witness-dependent divergence undetected", || format!("{} swapped={} {}", what, swap, info(&q)));
    }
}

fn variables_before<F: PF>(p: &Prog<F>, at: usize) -> usize {
    let mut n = 1;
    for o in &p.ops[..at] {
        n += match o {
            Op::Alloc(_) | Op::Input(_) => 1,
            Op::Gate(..) => 3,
            _ => 0,
        };
    }
    n
}

fn close<F: PF>(p: &mut Prog<F>) {
    let mut d = 0i64;
    for o in &p.ops {
        match o {
            Op::Push(_) => d += 1,
            Op::Pop => d -= 1,
            _ => {}
        }
    }
    for _ in 0..d {
        p.ops.push(Op::Pop);
    }
    let n = variables_before(p, p.ops.len());
    p.vals.truncate(n);
}

#[derive(Clone, Default, PartialEq, Debug)]
struct Cnt {
    allocations: usize,
    gates: usize,
    mults: usize,
    lcs: usize,
}

/// Attributes every event the driver emits to the namespaces open at that moment.
struct Tally {
    open: Vec<String>,
    by: BTreeMap<String, Cnt>,
}
impl Tally {
    fn add(&mut self, f: impl Fn(&mut Cnt)) {
        let mut prefixes: Vec<String> = vec!["".into()];
        for i in 0..self.open.len() {
            prefixes.push(self.open[..=i].join("/"));
        }
        for p in prefixes {
            f(self.by.entry(p).or_default());
        }
    }
}
impl<'a, F: Field> Backend<F> for &'a mut Tally {
    type LinearConstraintIndex = ();
    fn get_for_q(&self, _: usize) {}
    fn new_multiplication_gate<A, AR>(&mut self, _: Option<A>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.add(|c| c.mults += 1);
    }
    fn new_linear_constraint<A, AR>(&mut self, _: A)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.open.push(n().into());
        self.add(|_| {});
    }
    fn pop_namespace(&mut self, _: Option<String>) {
        self.open.pop();
    }
}

fn counts<F: PF>(ctx: &Ctx, r: &mut Rng, ops: usize) {
    let s = shape(r, ops);
    let mut p = Prog::<F>::random(r, &s);
    if r.bool() {
        p.witness = false;
    }
    let info = || format!("{} {:?}", F::NAME, p.ops);
    ctx.case(Some(hash_str(&format!("{:?}", p.ops))));
    ctx.sample(|| info());
    // gates come from the driver's events, everything else from the program
    let mut t = Tally { open: vec![], by: BTreeMap::new() };
    t.by.entry("".into()).or_default();
    if ctx.total("synthesize", || <Basic as SynthesisDriver>::synthesize::<F, _, _>(&mut t, &p).is_ok()) != Some(true) {
        return ctx.violation("synthesis refused", info());
    }
    let mut want = t.by;
    for (o, path) in p.ops.iter().zip(p.paths()) {
        let mut prefixes: Vec<String> = vec!["".into()];
        let parts: Vec<&str> = if path.is_empty() { vec![] } else { path.split('/').collect() };
        for i in 0..parts.len() {
            prefixes.push(parts[..=i].join("/"));
        }
        for x in prefixes {
            let c = want.entry(x).or_default();
            match o {
                Op::Alloc(_) => c.allocations += 1,
                Op::Input(_) => {
                    c.allocations += 1;
                    c.lcs += 1;
                }
                Op::Gate(..) => c.gates += 1,
                Op::Lin(_) => c.lcs += 1,
                _ => {}
            }
        }
    }
    {
        // the constant-one wire
        let c = want.get_mut("").unwrap();
        c.allocations += 1;
        c.lcs += 1;
    }
    let got = match ctx.total("constraint_count", || constraint_count::<F, _, Basic>(&p)) {
        Some(Ok(g)) => g,
        Some(Err(e)) => return ctx.violation("constraint_count refused", format!("{:?} {}", e, info())),
        None => return,
    };
    let got: BTreeMap<String, Cnt> = got
        .into_iter()
        .map(|(k, (c, _))| {
            (
                k,
                Cnt {
                    allocations: c.allocations,
                    gates: c.mult_constraints,
                    mults: c.total_mults,
                    lcs: c.total_lcs,
                },
            )
        })
        .collect();
    ctx.count("namespaces counted", got.len() as u64);
    ctx.check(got == want, "counts", || {
        let diff: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(*v)).map(|(k, v)| (k, v, got.get(k))).collect();
        let extra: Vec<_> = got.keys().filter(|k| !want.contains_key(*k)).collect();
        format!("(path, want, got) {:?} extra {:?}; {}", diff, extra, info())
    });
}

/// The counts of the step circuit against the operations it issues.
fn step_counts<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, k: usize) {
    let p: Params<L> = log_params_part(k, rand_f::<<L as PC>::S>(r), 1 << k);
    let inner = Inner::random(r, 4);
    let payload = inner.next(&inner.base(), r);
    let info = || format!("step circuit over {} k={} {:?} payload {:?}", L::CNAME, k, inner, payload);
    ctx.case_str(&info());
    ctx.sample(|| info());
    let j = match ctx.total("step circuit", || run_base::<L, O, _>(&p, &inner, &payload, None, false)) {
        Some(Ok(j)) => j,
        e => return ctx.violation("synthesis refused", format!("{}: {:?}", info(), e.map(|e| e.err()))),
    };
    let got = match ctx.total("recursive_constraint_count", || recursive_constraint_count::<O, L, _, Basic>(&p, &inner, &payload)) {
        Some(Ok(g)) => g,
        Some(Err(e)) => return ctx.violation("recursive_constraint_count refused", format!("{:?} {}", e, info())),
        None => return,
    };
    let top = match got.get("") {
        Some((c, _)) => c.clone(),
        None => return ctx.violation("counts", format!("no entry for the whole circuit: {}", info())),
    };
    // variables outside gates, plus the constant-one wire; its constraint and one for each input
    let singles = j.vals.len() as u64 - 3 * j.gates;
    let want = (singles, j.gates, j.lcs + j.inputs.len() as u64 + 1);
    let have = (top.allocations as u64, top.mult_constraints as u64, top.total_lcs as u64);
    ctx.count("step circuits counted", 1);
    ctx.max("constraints of a step circuit counted", want.1 + want.2);
    ctx.check(have == want, "step counts", || format!("{}: (allocations, gates, linear constraints) {:?}, counted {:?}", info(), want, have));
    // every single variable takes a wire of a gate, two to a gate
    ctx.check(
        top.total_mults as u64 >= j.gates + (singles + 2) / 3 && top.total_mults as u64 <= j.gates + singles,
        "step counts",
        || format!("{}: {} multiplications for {} gates and {} variables", info(), top.total_mults, j.gates, singles),
    );
}

fn main() {
    run(
        "D02",
        "one evaluation is one circuit program (with its divergences, or with its counts); distinct programs are counted by their operations",
        75,
        600,
        |ctx| {
            ctx.par("determinism", ctx.scale(16000, 200000), |i, r| {
                if i % 2 == 0 {
                    determinism::<Fp>(ctx, r)
                } else {
                    determinism::<Fq>(ctx, r)
                }
            });
            ctx.par("step counts", ctx.scale(8, 60), |i, r| {
                let k = 4 + r.below(3);
                if i % 2 == 0 {
                    step_counts::<Log0, Ec1>(ctx, r, k)
                } else {
                    step_counts::<Log1, Ec0>(ctx, r, k)
                }
            });
            ctx.par("counts", ctx.scale(16000, 200000), |i, r| {
                let ops = if i % 100 == 0 { 400 } else { r.below(60) };
                if i % 2 == 0 {
                    counts::<Fp>(ctx, r, ops)
                } else {
                    counts::<Fq>(ctx, r, ops)
                }
            });
        },
    )
}
