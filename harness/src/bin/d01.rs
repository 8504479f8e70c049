//! D01: verdicts of the development satisfaction checker against an independent
//! evaluation of the same circuit program.
use halo::dev::*;
use halo::*;
use hv::circ::*;
use hv::logc::*;
use hv::proofs::*;
use hv::steps::*;
use hv::*;

fn path_of(ns: &str, name: &str) -> String {
    if ns.is_empty() {
        name.to_string()
    } else {
        format!("{}/{}", ns, name)
    }
}

fn judge<F: PF>(ctx: &Ctx, p: &Prog<F>, inputs: &[F], what: &str) {
    let right = p.inputs();
    let bad = p.violated();
    let mism: Vec<usize> = (0..right.len().min(inputs.len())).filter(|i| right[*i] != inputs[*i]).collect();
    let lens = right.len() == inputs.len();
    let info = || {
        format!(
            "{} {}: {} violated {:?} wrong inputs {:?} supplied {} of {}; {:?}",
            F::NAME,
            what,
            p.ops.len(),
            bad,
            mism,
            inputs.len(),
            right.len(),
            p.ops.iter().take(40).collect::<Vec<_>>()
        )
    };
    ctx.case(Some(hash_str(&format!("{:?}{:?}{:?}", p.ops, p.vals, inputs))));
    ctx.sample(|| info());
    let got = match ctx.total("is_satisfied", || is_satisfied::<F, _, Basic>(p, inputs)) {
        Some(g) => g,
        None => return,
    };
    let paths = p.paths();
    let needs = p.ops.iter().any(|o| matches!(o, Op::Alloc(_) | Op::Input(_) | Op::Gate(..)));
    if !p.witness && needs {
        ctx.count("circuits without a witness", 1);
        ctx.check(got == Err(SatisfactionError::Synthesis(SynthesisError::AssignmentMissing)), "missing witness", || {
            format!("{:?} {}", got, info())
        });
        return;
    }
    match &got {
        Ok(v) => {
            ctx.check(*v && lens && bad.is_empty() && mism.is_empty(), "accepted", || format!("{:?} {}", got, info()));
            ctx.count("accepted", 1);
        }
        Err(e) => {
            ctx.check(!(lens && bad.is_empty() && mism.is_empty()), "rejected a satisfied circuit", || format!("{:?} {}", e, info()));
            ctx.count("rejected", 1);
            match e {
                SatisfactionError::Synthesis(_) => {
                    ctx.violation("synthesis error on a full witness", format!("{:?} {}", e, info()));
                }
                SatisfactionError::InputLength(a, b) => {
                    ctx.check(!lens && *a == inputs.len() && *b == right.len(), "input length report", || format!("{:?} {}", e, info()));
                    ctx.count("input length reports", 1);
                }
                SatisfactionError::Multiplication(path, a, b, c) => {
                    let named = bad.iter().any(|i| match p.ops[*i] {
                        Op::Gate(x, y, z) => {
                            path_of(&paths[*i], &format!("gate {}", i)) == *path
                                && p.vals[x] == *a
                                && p.vals[y] == *b
                                && p.vals[z] == *c
                        }
                        _ => false,
                    });
                    ctx.check(named && *a * b != *c, "named gate is not violated", || format!("{:?} {}", e, info()));
                    ctx.count("gate reports", 1);
                }
                SatisfactionError::Linear(path, lhs, rhs) => {
                    let ns = |i: usize| paths[i].is_empty() || path.starts_with(&format!("{}/", paths[i]));
                    let named = bad.iter().any(|i| match &p.ops[*i] {
                        Op::Lin(l) => ns(*i) && p.eval(l) == *lhs && *rhs == F::zero(),
                        _ => false,
                    });
                    let mut j = 0;
                    let mut named_in = false;
                    for (i, o) in p.ops.iter().enumerate() {
                        if let Op::Input(v) = o {
                            if mism.contains(&j) && ns(i) && p.vals[*v] == *lhs && inputs[j] == *rhs {
                                named_in = true;
                            }
                            j += 1;
                        }
                    }
                    ctx.check((named || named_in) && lhs != rhs, "named linear constraint is not violated", || format!("{:?} {}", e, info()));
                    ctx.count("linear reports", 1);
                }
            }
        }
    }
}

fn one<F: PF>(ctx: &Ctx, r: &mut Rng, shape: Shape) {
    let p = Prog::<F>::random(r, &shape);
    let inputs = p.inputs();
    judge(ctx, &p, &inputs, "satisfied");
    judge(ctx, &p.blank(), &inputs, "no witness");
    let cons = p.constraints();
    if !cons.is_empty() {
        for which in 0..3 {
            let at = match which {
                0 => cons[0],
                1 => *cons.last().unwrap(),
                _ => *r.pick(&cons),
            };
            let mut q = p.clone();
            let d = match r.below(4) {
                0 => F::one(),
                1 => -F::one(),
                _ => {
                    let d = hostile_f::<F>(r);
                    if d == F::zero() {
                        F::one()
                    } else {
                        d
                    }
                }
            };
            q.falsify(at, d);
            let qi = q.inputs();
            judge(ctx, &q, &qi, "one constraint broken");
        }
    }
    // arbitrary reassignment of one variable
    for _ in 0..2 {
        if p.vals.len() > 1 {
            let mut q = p.clone();
            let i = r.range(1, p.vals.len() - 1);
            q.vals[i] = hostile_f(r);
            let qi = q.inputs();
            judge(ctx, &q, &qi, "one value changed");
        }
    }
    // wrong inputs
    if !inputs.is_empty() {
        let mut w = inputs.clone();
        let i = match r.below(3) {
            0 => 0,
            1 => w.len() - 1,
            _ => r.below(w.len()),
        };
        w[i] = hostile_f(r);
        judge(ctx, &p, &w, "one input changed");
        let mut w = inputs.clone();
        w.swap(0, inputs.len() - 1);
        judge(ctx, &p, &w, "inputs swapped");
        judge(ctx, &p, &inputs[1..], "first input missing");
        judge(ctx, &p, &inputs[..inputs.len() - 1], "last input missing");
    }
    let mut w = inputs.clone();
    w.push(*r.pick(&[F::zero(), F::one()]));
    judge(ctx, &p, &w, "an input too many");
    let mut w = inputs.clone();
    w.insert(0, F::one());
    judge(ctx, &p, &w, "the one wire supplied");
}

/// The checker of recursive steps, on base cases: true payloads satisfy, others do not.
fn recursive<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>>(ctx: &Ctx, r: &mut Rng, pl: &Params<L>, po: &Params<O>) {
    let inner = Inner::random(r, 3);
    let right = inner.next(&inner.base(), r);
    let got = ctx.total("recursive_is_satisfied", || recursive_is_satisfied::<O, L, _, Basic>(po, pl, None, &inner, &right));
    let info = |p: &[u8]| format!("base case over {} {:?} payload {:?}", O::CNAME, inner, p);
    ctx.case_str(&info(&right));
    ctx.check(matches!(got, Some(Ok(true))), "satisfied step refused", || format!("{}: {:?}", info(&right), got.map(|g| g.map_err(|_| "error"))));
    if right.is_empty() || matches!(inner, Inner::Free(_)) {
        return;
    }
    let mut wrong = right.clone();
    let i = r.below(wrong.len());
    wrong[i] ^= 1 << r.below(8);
    ctx.case_str(&info(&wrong));
    let got = ctx.guard(|| recursive_is_satisfied::<O, L, _, Basic>(po, pl, None, &inner, &wrong));
    ctx.count("false steps judged", 1);
    ctx.check(!matches!(got, Ok(Ok(true))), "violated step accepted", || info(&wrong));
}

fn main() {
    run(
        "D01",
        "one evaluation is one verdict of the checker on a program, assignment and input list; distinct ones are counted by all three",
        75,
        600,
        |ctx| {
            let mut r = ctx.rng("params", 0);
            let s4 = (Params::<Ec0>::new(4), Params::<Ec1>::new(4));
            let l4: (Params<Log0>, Params<Log1>) = (log_params_part(4, rand_f::<Fp>(&mut r), 16), log_params_part(4, rand_f::<Fq>(&mut r), 16));
            ctx.par("recursive", ctx.scale(12, 200), |i, r| {
                if i % 2 == 0 {
                    recursive::<Log0, Ec1>(ctx, r, &l4.0, &s4.1)
                } else {
                    recursive::<Log1, Ec0>(ctx, r, &l4.1, &s4.0)
                }
            });
            ctx.par("programs", ctx.scale(6000, 80000), |i, r| {
                let shape = Shape {
                    ops: if i % 100 == 0 { 300 } else { r.below(30) },
                    max_gates: 100000,
                    max_lcs: 100000,
                    inputs: r.below(6),
                    namespaces: true,
                };
                if i % 2 == 0 {
                    one::<Fp>(ctx, r, shape)
                } else {
                    one::<Fq>(ctx, r, shape)
                }
            });
        },
    )
}
