//! R03: the in-circuit sponge against the native one, and forging attempts.
use halo::rescue::Rescue;
use halo::*;
use hv::exact::*;
use hv::forge::*;
use hv::r1cs::*;
use hv::*;

#[derive(Clone, Copy, Debug)]
enum O<F: Field> {
    /// kind: 0 constant, 1 witnessed, 2 scaled witnessed, 3 negated witnessed
    A(u8, F, F),
    S,
}

struct Run<F: Field> {
    rec: Rec<F>,
    fixed: Vec<usize>,
    outs: Vec<usize>,
    got: Vec<Option<F>>,
}

fn gadget<F: PF>(ops: &[O<F>], witness: bool) -> Result<Run<F>, SynthesisError> {
    let mut cs = Rec::with_paths();
    let mut fixed = vec![];
    let mut outs = vec![];
    let mut got = vec![];
    let mut g = RescueGadget::<F>::new(cs.namespace(|| "init"))?;
    for (i, o) in ops.iter().enumerate() {
        match o {
            O::A(kind, v, s) => {
                let num = if *kind == 0 {
                    Num::constant(*v * s)
                } else {
                    let n = AllocatedNum::alloc(cs.namespace(|| format!("in {}", i)), || {
                        if witness {
                            Ok(*v)
                        } else {
                            Err(SynthesisError::AssignmentMissing)
                        }
                    })?;
                    fixed.push(Rec::<F>::idx(n.get_variable()));
                    match kind {
                        1 => Num::from(n),
                        2 => Num::from((Coeff::Full(*s), n)),
                        _ => Num::from((Coeff::NegativeOne, n)),
                    }
                };
                g.absorb(cs.namespace(|| format!("absorb {}", i)), num)?;
            }
            O::S => {
                let n = g.squeeze(cs.namespace(|| format!("squeeze {}", i)))?;
                outs.push(Rec::<F>::idx(n.get_variable()));
                got.push(n.get_value());
            }
        }
    }
    Ok(Run { rec: cs, fixed, outs, got })
}

fn native<F: PF>(ops: &[O<F>]) -> Vec<F> {
    let mut s = Rescue::<F>::new();
    let mut out = vec![];
    for o in ops {
        match o {
            O::A(k, v, c) => s.absorb(match k {
                0 | 2 => *v * c,
                1 => *v,
                _ => -*v,
            }),
            O::S => out.push(s.squeeze()),
        }
    }
    out
}

fn rand_ops<F: PF>(r: &mut Rng, long: bool) -> Vec<O<F>> {
    let mut ops = vec![];
    for _ in 0..r.range(1, if long { 4 } else { 2 }) {
        for _ in 0..r.range(0, if long { 26 } else { 13 }) {
            let v = match r.below(4) {
                0 => -F::one(),
                _ => hostile_f(r),
            };
            ops.push(O::A(r.below(4) as u8, v, hostile_f(r)));
        }
        for _ in 0..r.range(1, if long { 14 } else { 3 }) {
            ops.push(O::S);
        }
    }
    ops
}

fn honest<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let ops = rand_ops::<F>(r, true);
    let want = native(&ops);
    ctx.case(Some(hash_str(&format!("{:?}", ops))));
    let info = || format!("{} {:?}", F::NAME, ops);
    ctx.sample(|| info());
    let run = match ctx.total("sponge gadget", || gadget(&ops, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("gadget refused", format!("{:?} {}", e, info())),
        None => return,
    };
    ctx.count("constraints checked", (run.rec.gates.len() + run.rec.lcs.len()) as u64);
    ctx.count("outputs compared", want.len() as u64);
    if let Some(v) = run.rec.ok() {
        ctx.violation("honest history unsatisfied", format!("{} {}", v, info()));
        return;
    }
    for (i, w) in want.iter().enumerate() {
        let ok = run.rec.vals[run.outs[i]] == *w && run.got[i] == Some(*w);
        ctx.check(ok, &format!("{}:output", F::NAME), || format!("output {} got {:?} {:?} want {:?}; {}", i, run.rec.vals[run.outs[i]], run.got[i], w, info()));
    }
    // the circuit does not depend on the witness (constants are part of the circuit)
    if let Some(Ok(b)) = ctx.total("sponge gadget without witness", || gadget(&ops, false)) {
        ctx.check(b.rec.gates == run.rec.gates && b.rec.lcs == run.rec.lcs, "shape depends on the witness", || info());
        ctx.count("witness-less runs", 1);
    }
}

fn forge<F: PF>(ctx: &Ctx, r: &mut Rng, max: usize) {
    let ops = rand_ops::<F>(r, false);
    let run = match ctx.total("sponge gadget", || gadget(&ops, true)) {
        Some(Ok(x)) => x,
        _ => return ctx.violation("gadget refused", format!("{:?}", ops)),
    };
    if run.rec.ok().is_some() {
        return;
    }
    ctx.case(Some(hash_str(&format!("forge{:?}", ops))));
    let want: Vec<F> = run.outs.iter().map(|i| run.rec.vals[*i]).collect();
    let e = exact(&run.rec, &run.fixed, &[], 50, 200, r, &|v| {
        for (i, o) in run.outs.iter().enumerate() {
            if v[*o] != want[i] {
                return Some(format!("output {} is {:?} instead of {:?}", i, v[*o], want[i]));
            }
        }
        None
    });
    ctx.count(if e.complete { "histories whose outputs were shown unique" } else { "histories with undecided wires" }, 1);
    if let Some(f) = e.wrong {
        return ctx.violation(&format!("{}:forged", F::NAME), format!("{}; {:?}", f, ops));
    }
    let out = attack(&run.rec, &run.fixed, &run.outs, max, r, &dev_values::<F>, &|v| {
        for (i, o) in run.outs.iter().enumerate() {
            if v[*o] != want[i] {
                return Some(format!("output {} is {:?} instead of {:?}", i, v[*o], want[i]));
            }
        }
        None
    });
    ctx.count("deviations tried", out.deviations);
    ctx.count("deviations repaired without changing an output", out.repaired);
    if let Some(f) = out.forged {
        ctx.violation(&format!("{}:forged", F::NAME), format!("{}; {:?}", f, ops));
    }
}

fn main() {
    run(
        "R03",
        "one evaluation is one absorb/squeeze history synthesised in-circuit (compared with the native sponge, or attacked); distinct histories are counted by operations, kinds and values",
        90,
        900,
        |ctx| {
            ctx.par("honest", ctx.scale(60, 3000), |i, r| {
                if i % 2 == 0 {
                    honest::<Fp>(ctx, r)
                } else {
                    honest::<Fq>(ctx, r)
                }
            });
            ctx.par("forge", ctx.scale(24, 500), |i, r| {
                let max = if ctx.quick() { 300 } else { 2000 };
                if i % 2 == 0 {
                    forge::<Fp>(ctx, r, max)
                } else {
                    forge::<Fq>(ctx, r, max)
                }
            });
        },
    )
}
