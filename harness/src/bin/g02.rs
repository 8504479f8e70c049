//! G02: 64-bit integer gadgets against integer arithmetic, and forging attempts.
use halo::*;
use hv::exact::*;
use hv::forge::*;
use hv::r1cs::*;
use hv::*;

/// how an operand is built
#[derive(Clone, Debug, PartialEq)]
enum Src {
    Constant,
    Alloc,
    /// from_bits: per bit 0 constant, 1 witnessed, 2 negated witnessed
    Bits(Vec<u8>),
    /// same object as operand i
    Same(usize),
    /// output of the previous step: (step, high?)
    Out(usize, bool),
}

#[derive(Clone, Debug)]
struct Step {
    src: [Src; 4],
}

#[derive(Clone, Debug)]
struct Plan {
    steps: Vec<Step>,
}

struct Run<F: Field> {
    rec: Rec<F>,
    fixed: Vec<usize>,
    /// bits of every operand and result, low to high, as linear combinations
    words: Vec<(Vec<Vec<(usize, F)>>, Vec<Option<bool>>)>,
    /// full-word linear combinations
    packed: Vec<Vec<(usize, F)>>,
    outs: Vec<usize>,
}

fn lcv<F: PF>(lc: &LinearCombination<F>) -> Vec<(usize, F)> {
    lc.as_ref().iter().map(|(v, c)| (Rec::<F>::idx(*v), c.value())).collect()
}

fn synth<F: PF>(p: &Plan, vals: &[[u64; 4]], witness: bool) -> Result<Run<F>, SynthesisError> {
    let mut cs = Rec::<F>::with_paths();
    let mut fixed = vec![];
    let mut words: Vec<UInt64> = vec![];
    let mut outs: Vec<(UInt64, UInt64)> = vec![];
    let mut order = vec![];
    for (si, s) in p.steps.iter().enumerate() {
        let mut ops: Vec<UInt64> = vec![];
        for (i, src) in s.src.iter().enumerate() {
            let v = vals[si][i];
            let w = match src {
                Src::Constant => UInt64::constant(v),
                Src::Alloc => {
                    let from = cs.vals.len();
                    let w = UInt64::alloc(cs.namespace(|| format!("operand {} {}", si, i)), if witness { Some(v) } else { None })?;
                    let _ = from;
                    for b in w.clone().into_bits() {
                        if let Boolean::Is(b) = b {
                            fixed.push(Rec::<F>::idx(b.get_variable()));
                        }
                    }
                    w
                }
                Src::Bits(k) => {
                    let mut bits = vec![];
                    for (j, k) in k.iter().enumerate() {
                        let bit = (v >> j) & 1 == 1;
                        if *k == 0 {
                            bits.push(Boolean::constant(bit));
                            continue;
                        }
                        let a = AllocatedBit::alloc(cs.namespace(|| format!("bit {} {} {}", si, i, j)), || {
                            if witness {
                                Ok(bit ^ (*k == 2))
                            } else {
                                Err(SynthesisError::AssignmentMissing)
                            }
                        })?;
                        fixed.push(Rec::<F>::idx(a.get_variable()));
                        let b = Boolean::from(a);
                        bits.push(if *k == 2 { b.not() } else { b });
                    }
                    UInt64::from_bits(&bits)
                }
                Src::Same(j) => ops[*j].clone(),
                Src::Out(st, hi) => {
                    if *hi {
                        outs[*st].1.clone()
                    } else {
                        outs[*st].0.clone()
                    }
                }
            };
            ops.push(w);
        }
        let (lo, hi) = ops[0].mul_acc2(cs.namespace(|| format!("mul_acc2 {}", si)), &ops[1], &ops[2], &ops[3])?;
        order.extend(ops.iter().cloned());
        order.push(lo.clone());
        order.push(hi.clone());
        outs.push((lo, hi));
    }
    words.append(&mut order);
    let packed = words.iter().map(|w| lcv(&w.lc::<F, Rec<F>>())).collect();
    let mut ov = vec![];
    for (lo, hi) in outs {
        for b in lo.into_bits().into_iter().chain(hi.into_bits()) {
            if let Boolean::Is(a) | Boolean::Not(a) = b {
                ov.push(Rec::<F>::idx(a.get_variable()));
            }
        }
    }
    let words = words
        .into_iter()
        .map(|w| {
            let bits = w.into_bits();
            (
                bits.iter().map(|b| lcv(&b.lc::<F>(Variable::A(0), Coeff::One))).collect(),
                bits.iter().map(|b| b.get_value()).collect(),
            )
        })
        .collect();
    Ok(Run { rec: cs, fixed, words, packed, outs: ov })
}

fn hostile64(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - r.below(4) as u64,
        4 => 1u64 << r.below(64),
        5 => (1u64 << r.below(64)).wrapping_sub(1),
        6 => r.u64() >> r.below(64),
        _ => r.u64(),
    }
}

fn plan(r: &mut Rng, steps: usize) -> Plan {
    let mut p = Plan { steps: vec![] };
    for s in 0..steps {
        let mut src = vec![];
        for i in 0..4 {
            let x = match r.below(if s > 0 { 8 } else { 6 }) {
                0 => Src::Constant,
                1 | 2 => Src::Alloc,
                3 | 4 => {
                    let m = r.below(3);
                    Src::Bits((0..64).map(|_| if m == 0 { 1 + r.below(2) as u8 } else { r.below(3) as u8 }).collect())
                }
                5 if i > 0 => Src::Same(r.below(i)),
                5 => Src::Alloc,
                _ => Src::Out(r.below(s), r.bool()),
            };
            src.push(x);
        }
        p.steps.push(Step {
            src: [src[0].clone(), src[1].clone(), src[2].clone(), src[3].clone()],
        });
    }
    p
}

/// operand values and results the plan implies for given free values
fn truth(p: &Plan, vals: &[[u64; 4]]) -> Vec<u64> {
    let mut words = vec![];
    let mut outs: Vec<(u64, u64)> = vec![];
    for (si, s) in p.steps.iter().enumerate() {
        let mut o = vec![];
        for (i, src) in s.src.iter().enumerate() {
            o.push(match src {
                Src::Same(j) => o[*j],
                Src::Out(st, hi) => {
                    if *hi {
                        outs[*st].1
                    } else {
                        outs[*st].0
                    }
                }
                _ => vals[si][i],
            });
        }
        let w = (o[0] as u128) * (o[1] as u128) + o[2] as u128 + o[3] as u128;
        words.extend(o);
        words.push(w as u64);
        words.push((w >> 64) as u64);
        outs.push((w as u64, (w >> 64) as u64));
    }
    words
}

fn wrong_words<F: PF>(run: &Run<F>, want: &[u64], v: &[F]) -> Option<String> {
    for (wi, (bits, _)) in run.words.iter().enumerate() {
        for (j, lc) in bits.iter().enumerate() {
            let b = run.rec.eval(lc, v);
            let w = if (want[wi] >> j) & 1 == 1 { F::one() } else { F::zero() };
            if b != w {
                return Some(format!("word {} bit {} is {:?}", wi, j, b));
            }
        }
    }
    None
}

fn one<F: PF>(ctx: &Ctx, r: &mut Rng, forge: bool) {
    let p = plan(r, if forge { 1 } else { r.clone().range(1, 4) });
    let vals: Vec<[u64; 4]> = p.steps.iter().map(|_| [hostile64(r), hostile64(r), hostile64(r), hostile64(r)]).collect();
    let want = truth(&p, &vals);
    let info = || {
        let kinds: Vec<Vec<String>> = p
            .steps
            .iter()
            .map(|s| s.src.iter().map(|x| if let Src::Bits(_) = x { "mixed".into() } else { format!("{:?}", x) }).collect())
            .collect();
        format!("{} {:x?} {:?}", F::NAME, vals, kinds)
    };
    ctx.case_str(&format!("{} {}", forge, info()));
    ctx.sample(|| info());
    let run = match ctx.total("mul_acc2", || synth::<F>(&p, &vals, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("refused", format!("{:?} {}", e, info())),
        None => return,
    };
    if let Some(v) = run.rec.ok() {
        return ctx.violation("honest unsatisfied", format!("{} {}", v, info()));
    }
    ctx.count("words compared", want.len() as u64);
    if let Some(w) = wrong_words(&run, &want, &run.rec.vals) {
        return ctx.violation("value", format!("{}; {}", w, info()));
    }
    for (i, w) in want.iter().enumerate() {
        let native: Vec<Option<bool>> = (0..64).map(|j| Some((w >> j) & 1 == 1)).collect();
        ctx.check(run.words[i].1 == native, "bit values", || format!("word {} {}", i, info()));
        let got = run.rec.eval(&run.packed[i], &run.rec.vals);
        ctx.check(got == f_of::<F>(&U::from_u64(*w)), "packed combination", || format!("word {} is {:?}; {}", i, got, info()));
    }
    if let Some(x) = ctx.total("mul_acc2 without witness", || synth::<F>(&p, &vals, false)) {
        match x {
            Ok(x) => {
                ctx.check(x.rec.gates == run.rec.gates && x.rec.lcs == run.rec.lcs, "shape", || info());
            }
            Err(e) => ctx.violation("witness-less refused", format!("{:?} {}", e, info())),
        }
    }
    if !forge {
        return;
    }
    let wrong = |v: &[F]| wrong_words(&run, &want, v);
    let report = |w: String| ctx.violation("forged", format!("{}; {}", w, info()));
    let f = Forger::new(&run.rec);
    let e = exact(&run.rec, &run.fixed, &[], 4000, 600, r, &wrong);
    ctx.count(if e.complete { "operands whose results were decided exhaustively" } else { "operands with guessed values" }, 1);
    if e.complete {
        ctx.check(e.families >= 1, "no solution", || info());
    }
    if let Some(w) = e.wrong {
        return report(w);
    }
    // splices of histories with other operands
    for k in 0..ctx.scale(12, 40) {
        let mut v2 = vals.clone();
        for i in 0..4 {
            if k < 4 && i != k {
                continue;
            }
            if r.bool() || k < 4 {
                v2[0][i] = hostile64(r);
            }
        }
        for i in 0..4 {
            if p.steps[0].src[i] == Src::Constant {
                v2[0][i] = vals[0][i];
            } else if let Src::Bits(b) = &p.steps[0].src[i] {
                for (j, k) in b.iter().enumerate() {
                    if *k == 0 {
                        v2[0][i] = (v2[0][i] & !(1 << j)) | (vals[0][i] & (1 << j));
                    }
                }
            }
        }
        if let Some(Ok(o)) = ctx.total("mul_acc2", || synth::<F>(&p, &v2, true)) {
            ctx.count("spliced histories", 1);
            if let Some(w) = transplant(&f, &run.fixed, &o.rec.vals, r, &wrong) {
                return report(w);
            }
        }
    }
    // every single variable, and pairs of result bits that keep the sum
    let out = attack(&run.rec, &run.fixed, &run.outs, ctx.scale(300, 1200), r, &dev_values::<F>, &wrong);
    ctx.count("deviations tried", out.deviations);
    if let Some(w) = out.forged {
        return report(w);
    }
    let b = Budget { steps: 3000, branches: 8 };
    for i in 0..run.outs.len() {
        let j = r.below(run.outs.len());
        if i == j {
            continue;
        }
        let (bi, bj) = (run.rec.vals[run.outs[i]], run.rec.vals[run.outs[j]]);
        // flip bit j, compensate in bit i
        let nj = F::one() - &bj;
        let mut pow = F::one();
        for _ in 0..(if i > j { i - j } else { j - i }) {
            pow = pow + &pow;
        }
        let ratio = if i > j { pow.invert().unwrap() } else { pow };
        let ni = bi - &((nj - &bj) * &ratio);
        ctx.count("compensated pairs tried", 1);
        if let Some(v) = f.attempt(&run.rec.vals, &run.fixed, &[(run.outs[j], nj), (run.outs[i], ni)], &b, r) {
            if let Some(w) = wrong(&v) {
                return report(w);
            }
        }
    }
    // all solutions with the high (or low) bits of the result already fixed
    let n = run.outs.len();
    if n == 128 {
        let from = r.below(120);
        let mut fixed = run.fixed.clone();
        for (i, o) in run.outs.iter().enumerate() {
            if i < from || i >= from + 8 {
                fixed.push(*o);
            }
        }
        let e = exact(&run.rec, &fixed, &[], 4000, 600, r, &wrong);
        ctx.count("8-bit windows", 1);
        ctx.count(if e.complete { "8-bit windows decided exhaustively" } else { "8-bit windows with guessed values" }, 1);
        if e.complete {
            ctx.check(e.families >= 1, "window incomplete", || info());
        }
        if let Some(w) = e.wrong {
            return report(w);
        }
    }
}

/// from_bits/into_bits/constant/alloc on their own: every bit position
fn packing<F: PF>(ctx: &Ctx, i: usize, r: &mut Rng) {
    let v = if i < 64 { 1u64 << i } else if i < 128 { !(1u64 << (i - 64)) } else { hostile64(r) };
    ctx.case_str(&format!("pack {} {:x}", F::NAME, v));
    let mut cs = Rec::<F>::with_paths();
    for kind in 0..3 {
        let w = match kind {
            0 => UInt64::constant(v),
            1 => UInt64::alloc(cs.namespace(|| "w"), Some(v)).unwrap(),
            _ => UInt64::from_bits(&UInt64::alloc(cs.namespace(|| "x"), Some(!v)).unwrap().into_bits().iter().map(|b| b.not()).collect::<Vec<_>>()),
        };
        let p = cs.eval(&lcv(&w.lc::<F, Rec<F>>()), &cs.vals);
        ctx.check(p == f_of::<F>(&U::from_u64(v)), "pack", || format!("kind {} {:x} {:?}", kind, v, p));
        let bits = w.into_bits();
        ctx.check(bits.len() == 64, "bit count", || format!("{}", bits.len()));
        for (j, b) in bits.iter().enumerate() {
            let e = cs.eval(&lcv(&b.lc::<F>(Variable::A(0), Coeff::One)), &cs.vals);
            let bit = (v >> j) & 1 == 1;
            ctx.check(b.get_value() == Some(bit) && e == if bit { F::one() } else { F::zero() }, "bit", || format!("kind {} {:x} bit {}", kind, v, j));
        }
    }
    if let Some(x) = cs.ok() {
        ctx.violation("packing unsatisfied", x);
    }
    // each bit of an allocated word can only be a bit
    if i % 16 == 0 {
        let mut cs = Rec::<F>::new();
        let w = UInt64::alloc(cs.namespace(|| "w"), Some(v)).unwrap();
        let vars: Vec<usize> = w
            .into_bits()
            .iter()
            .map(|b| match b {
                Boolean::Is(a) | Boolean::Not(a) => Rec::<F>::idx(a.get_variable()),
                _ => 0,
            })
            .collect();
        for (j, x) in vars.iter().enumerate() {
            let fixed: Vec<usize> = vars.iter().cloned().filter(|y| y != x).collect();
            let e = exact(&cs, &fixed, &[], 1000, 400, r, &|val| {
                if val[*x] == F::zero() || val[*x] == F::one() {
                    None
                } else {
                    Some(format!("bit {} of an allocated word is {:?}", j, val[*x]))
                }
            });
            ctx.check(!e.complete || e.families == 2, "allocated bit range", || format!("bit {} has {} values", j, e.families));
            if let Some(w) = e.wrong {
                ctx.violation("forged bit", w);
            }
        }
    }
}

fn main() {
    run(
        "G02",
        "one evaluation is one program of 64-bit gadget calls (operand sources and values); distinct by both",
        90,
        900,
        |ctx| {
            ctx.par("packing", ctx.scale(200, 2000), |i, r| {
                packing::<Fp>(ctx, i, r);
                packing::<Fq>(ctx, i, r);
            });
            ctx.par("arithmetic", ctx.scale(6000, 60000), |i, r| {
                if i % 2 == 0 {
                    one::<Fp>(ctx, r, false)
                } else {
                    one::<Fq>(ctx, r, false)
                }
            });
            ctx.par("forge", ctx.scale(150, 2000), |i, r| {
                if i % 2 == 0 {
                    one::<Fp>(ctx, r, true)
                } else {
                    one::<Fq>(ctx, r, true)
                }
            });
        },
    )
}
