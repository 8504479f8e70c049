//! G08: 32-bit word gadgets against word arithmetic, and forging attempts.
use halo::*;
use hv::exact::*;
use hv::forge::*;
use hv::r1cs::*;
use hv::*;

/// how an operand word is built
#[derive(Clone, Debug, PartialEq)]
enum Src {
    Constant(u32),
    Alloc(u32),
    /// value, per bit 0 constant, 1 witnessed, 2 negated witnessed; big-endian constructor
    Bits(u32, Vec<u8>, bool),
}

#[derive(Clone, Debug)]
enum Op {
    Rotr(usize, usize),
    Shr(usize, usize),
    Xor(usize, usize),
    Maj(usize, usize, usize),
    Ch(usize, usize, usize),
    Add(Vec<usize>),
    /// bits taken out and a word rebuilt from them, most significant first or last
    Rebuild(usize, bool),
}

#[derive(Clone, Debug)]
struct Plan {
    src: Vec<Src>,
    ops: Vec<Op>,
}

struct Run<F: Field> {
    rec: Rec<F>,
    fixed: Vec<usize>,
    words: Vec<(Vec<Vec<(usize, F)>>, Vec<Option<bool>>)>,
    outs: Vec<usize>,
}

fn lcv<F: PF>(lc: &LinearCombination<F>) -> Vec<(usize, F)> {
    lc.as_ref().iter().map(|(v, c)| (Rec::<F>::idx(*v), c.value())).collect()
}

fn var<F: PF>(b: &Boolean) -> Option<usize> {
    match b {
        Boolean::Is(a) | Boolean::Not(a) => Some(Rec::<F>::idx(a.get_variable())),
        _ => None,
    }
}

fn synth<F: PF>(p: &Plan, witness: bool) -> Result<Run<F>, SynthesisError> {
    let mut cs = Rec::<F>::with_paths();
    let mut fixed = vec![];
    let mut w: Vec<UInt32> = vec![];
    for (i, s) in p.src.iter().enumerate() {
        w.push(match s {
            Src::Constant(v) => UInt32::constant(*v),
            Src::Alloc(v) => {
                let x = UInt32::alloc(cs.namespace(|| format!("operand {}", i)), if witness { Some(*v) } else { None })?;
                fixed.extend(x.clone().into_bits().iter().filter_map(|b| var::<F>(b)));
                x
            }
            Src::Bits(v, k, be) => {
                let mut bits = vec![];
                for (j, k) in k.iter().enumerate() {
                    let bit = (v >> j) & 1 == 1;
                    if *k == 0 {
                        bits.push(Boolean::constant(bit));
                        continue;
                    }
                    let a = AllocatedBit::alloc(cs.namespace(|| format!("bit {} {}", i, j)), || {
                        if witness {
                            Ok(bit ^ (*k == 2))
                        } else {
                            Err(SynthesisError::AssignmentMissing)
                        }
                    })?;
                    fixed.push(Rec::<F>::idx(a.get_variable()));
                    let b = Boolean::from(a);
                    bits.push(if *k == 2 { b.not() } else { b });
                }
                if *be {
                    bits.reverse();
                    UInt32::from_bits_be(&bits)
                } else {
                    UInt32::from_bits(&bits)
                }
            }
        });
    }
    let mut outs = vec![];
    for (i, op) in p.ops.iter().enumerate() {
        let from = cs.vals.len();
        let n = cs.namespace(|| format!("op {}", i));
        let x = match op {
            Op::Rotr(a, by) => w[*a].rotr(*by),
            Op::Shr(a, by) => w[*a].shr(*by),
            Op::Xor(a, b) => w[*a].xor(n, &w[*b])?,
            Op::Maj(a, b, c) => UInt32::sha256_maj(n, &w[*a], &w[*b], &w[*c])?,
            Op::Ch(a, b, c) => UInt32::sha256_ch(n, &w[*a], &w[*b], &w[*c])?,
            Op::Add(v) => UInt32::addmany(n, &v.iter().map(|i| w[*i].clone()).collect::<Vec<_>>())?,
            Op::Rebuild(a, be) => {
                if *be {
                    UInt32::from_bits_be(&w[*a].clone().into_bits_be())
                } else {
                    UInt32::from_bits(&w[*a].clone().into_bits())
                }
            }
        };
        outs.extend(x.clone().into_bits().iter().filter_map(|b| var::<F>(b)).filter(|v| *v >= from));
        w.push(x);
    }
    let words = w
        .into_iter()
        .map(|w| {
            let bits = w.into_bits();
            (
                bits.iter().map(|b| lcv(&b.lc::<F>(Variable::A(0), Coeff::One))).collect(),
                bits.iter().map(|b| b.get_value()).collect(),
            )
        })
        .collect();
    Ok(Run { rec: cs, fixed, words, outs })
}

/// every word of the plan in plain word arithmetic
fn truth(p: &Plan) -> Vec<u32> {
    let mut w: Vec<u32> = p
        .src
        .iter()
        .map(|s| match s {
            Src::Constant(v) | Src::Alloc(v) | Src::Bits(v, _, _) => *v,
        })
        .collect();
    for op in &p.ops {
        let x = match op {
            Op::Rotr(a, by) => w[*a].rotate_right((*by % 32) as u32),
            Op::Shr(a, by) => w[*a] >> by,
            Op::Xor(a, b) => w[*a] ^ w[*b],
            Op::Maj(a, b, c) => (w[*a] & w[*b]) | (w[*c] & (w[*a] | w[*b])),
            Op::Ch(a, b, c) => w[*c] ^ (w[*a] & (w[*b] ^ w[*c])),
            Op::Add(v) => v.iter().fold(0u64, |s, i| s + w[*i] as u64) as u32,
            Op::Rebuild(a, _) => w[*a],
        };
        w.push(x);
    }
    w
}

fn hostile(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => u32::MAX - r.below(2) as u32,
        4 => 1u32 << r.below(32),
        5 => (1u32 << r.below(32)).wrapping_sub(1),
        6 => (r.u64() as u32) >> r.below(32),
        _ => r.u64() as u32,
    }
}

fn source(r: &mut Rng, v: u32) -> Src {
    match r.below(5) {
        0 => Src::Constant(v),
        1 | 2 => Src::Alloc(v),
        _ => {
            let m = r.below(4);
            let edge = r.below(32);
            let k = (0..32)
                .map(|j| match m {
                    0 => 1 + r.below(2) as u8,
                    1 => (j == edge) as u8,
                    2 => (j != edge) as u8,
                    _ => r.below(3) as u8,
                })
                .collect();
            Src::Bits(v, k, r.bool())
        }
    }
}

fn plan(r: &mut Rng, n: usize, ops: usize) -> Plan {
    let all_max = r.one_in(6);
    let src: Vec<Src> = (0..n)
        .map(|_| {
            let v = if all_max { u32::MAX } else { hostile(r) };
            source(r, v)
        })
        .collect();
    let mut p = Plan { src, ops: vec![] };
    for i in 0..ops {
        let have = n + i;
        let pick = |r: &mut Rng| r.below(have);
        let op = match r.below(10) {
            0 => Op::Rotr(pick(r), r.below(34)),
            1 => Op::Shr(pick(r), r.below(32)),
            2 => Op::Xor(pick(r), pick(r)),
            3 => Op::Maj(pick(r), pick(r), pick(r)),
            4 => Op::Ch(pick(r), pick(r), pick(r)),
            5 => Op::Rebuild(pick(r), r.bool()),
            _ => {
                let k = match r.below(4) {
                    0 => 2,
                    1 => 10,
                    _ => r.range(2, 10),
                };
                Op::Add((0..k).map(|_| pick(r)).collect())
            }
        };
        p.ops.push(op);
    }
    p
}

fn wrong_words<F: PF>(run: &Run<F>, want: &[u32], v: &[F]) -> Option<String> {
    for (wi, (bits, _)) in run.words.iter().enumerate() {
        for (j, lc) in bits.iter().enumerate() {
            let b = run.rec.eval(lc, v);
            if b != if (want[wi] >> j) & 1 == 1 { F::one() } else { F::zero() } {
                return Some(format!("word {} bit {} is {:?}", wi, j, b));
            }
        }
    }
    None
}

fn examine<F: PF>(ctx: &Ctx, r: &mut Rng, p: &Plan, forge: bool) {
    let want = truth(p);
    let info = || format!("{} {:x?}", F::NAME, p);
    ctx.case_str(&format!("{} {}", forge, info()));
    ctx.sample(|| info());
    let run = match ctx.total("32-bit words", || synth::<F>(p, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("refused", format!("{:?} {}", e, info())),
        None => return,
    };
    if let Some(v) = run.rec.ok() {
        return ctx.violation("honest unsatisfied", format!("{} {}", v, info()));
    }
    ctx.count("words compared", want.len() as u64);
    for (i, w) in want.iter().enumerate() {
        let native: Vec<Option<bool>> = (0..32).map(|j| Some((w >> j) & 1 == 1)).collect();
        if !ctx.check(run.words[i].1 == native, "bit values", || format!("word {} {}", i, info())) {
            return;
        }
    }
    if let Some(w) = wrong_words(&run, &want, &run.rec.vals) {
        return ctx.violation("value", format!("{}; {}", w, info()));
    }
    if let Some(x) = ctx.total("32-bit words without witness", || synth::<F>(p, false)) {
        match x {
            Ok(x) => {
                ctx.check(x.rec.gates == run.rec.gates && x.rec.lcs == run.rec.lcs, "shape", || info());
            }
            Err(e) => ctx.violation("witness-less refused", format!("{:?} {}", e, info())),
        }
    }
    if !forge {
        return;
    }
    let wrong = |v: &[F]| wrong_words(&run, &want, v);
    let e = exact(&run.rec, &run.fixed, &[], 2000, 600, r, &wrong);
    ctx.count(if e.complete { "plans whose words were shown unique" } else { "plans with guessed values" }, 1);
    if e.complete {
        ctx.check(e.families >= 1, "no solution", || info());
    }
    if let Some(w) = e.wrong {
        return ctx.violation("forged", format!("{}; {}", w, info()));
    }
    let f = Forger::new(&run.rec);
    let b = Budget { steps: 2000, branches: 8 };
    for i in 0..run.outs.len() {
        // flip one result bit and compensate in another one
        let j = r.below(run.outs.len());
        if i == j {
            continue;
        }
        let (bi, bj) = (run.rec.vals[run.outs[i]], run.rec.vals[run.outs[j]]);
        let nj = F::one() - &bj;
        let mut pow = F::one();
        for _ in 0..(if i > j { i - j } else { j - i }) {
            pow = pow + &pow;
        }
        let ratio = if i > j { pow.invert().unwrap() } else { pow };
        let ni = bi - &((nj - &bj) * &ratio);
        ctx.count("compensated pairs tried", 1);
        if let Some(v) = f.attempt(&run.rec.vals, &run.fixed, &[(run.outs[j], nj), (run.outs[i], ni)], &b, r) {
            if let Some(w) = wrong(&v) {
                return ctx.violation("forged", format!("{}; {}", w, info()));
            }
        }
    }
    for _ in 0..ctx.scale(60, 400) {
        let x = 1 + r.below(run.rec.vals.len().max(2) - 1);
        if x >= run.rec.vals.len() || run.fixed.contains(&x) {
            continue;
        }
        let v = *r.pick(&dev_values::<F>(&mut r.clone(), run.rec.vals[x]));
        ctx.count("deviations tried", 1);
        if let Some(vals) = f.attempt(&run.rec.vals, &run.fixed, &[(x, v)], &b, r) {
            if let Some(w) = wrong(&vals) {
                return ctx.violation("forged", format!("{}; {}", w, info()));
            }
        }
    }
}

fn main() {
    run(
        "G08",
        "one evaluation is one program of 32-bit word gadget calls (operand sources, values, operations); distinct by all three",
        90,
        900,
        |ctx| {
            // every rotation and shift distance on one word of each kind
            ctx.par("distances", 68, |i, r| {
                for kind in 0..3 {
                    let v = r.u64() as u32;
                    let s = match kind {
                        0 => Src::Constant(v),
                        1 => Src::Alloc(v),
                        _ => Src::Bits(v, (0..32).map(|j| (j % 3) as u8).collect(), r.bool()),
                    };
                    let op = if i < 34 { Op::Rotr(0, i) } else { Op::Shr(0, (i - 34) % 32) };
                    let p = Plan { src: vec![s], ops: vec![op, Op::Rebuild(1, true), Op::Xor(0, 1)] };
                    examine::<Fp>(ctx, r, &p, false);
                    examine::<Fq>(ctx, r, &p, false);
                }
            });
            // sums of every size at the largest and at random values
            ctx.par("sums", ctx.scale(360, 1800), |i, r| {
                let k = 2 + i % 9;
                let max = i % 2 == 0;
                let src = (0..k)
                    .map(|_| {
                        let v = if max { u32::MAX } else { hostile(r) };
                        source(r, v)
                    })
                    .collect();
                let p = Plan { src, ops: vec![Op::Add((0..k).collect())] };
                if (i / 2) % 2 == 0 {
                    examine::<Fp>(ctx, r, &p, true)
                } else {
                    examine::<Fq>(ctx, r, &p, true)
                }
            });
            ctx.par("programs", ctx.scale(12000, 90000), |i, r| {
                let (n, o) = (r.range(1, 7), r.range(1, 9));
                let p = plan(r, n, o);
                if i % 2 == 0 {
                    examine::<Fp>(ctx, r, &p, false)
                } else {
                    examine::<Fq>(ctx, r, &p, false)
                }
            });
            ctx.par("forge", ctx.scale(800, 8000), |i, r| {
                let (n, o) = (r.range(1, 4), r.range(1, 4));
                let p = plan(r, n, o);
                if i % 2 == 0 {
                    examine::<Fp>(ctx, r, &p, true)
                } else {
                    examine::<Fq>(ctx, r, &p, true)
                }
            });
        },
    )
}
