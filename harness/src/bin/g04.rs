//! G04: unpacking field elements: honest bits, and every satisfying set of bits.
use halo::*;
use hv::exact::*;
use hv::forge::*;
use hv::r1cs::*;
use hv::*;

struct Run<F: Field> {
    rec: Rec<F>,
    num: Option<usize>,
    bits: Vec<usize>,
    vals: Vec<Option<bool>>,
}

/// kind: 0 allocated, 1 allocated with a coefficient, 2 constant, 3 negated
fn synth<F: PF>(v: F, kind: u8, k: F, witness: bool) -> Result<Run<F>, SynthesisError> {
    let mut cs = Rec::<F>::with_paths();
    let mut var = None;
    let num = if kind == 2 {
        Num::constant(v)
    } else {
        let inner = match kind {
            0 => v,
            1 => v * &k.invert().unwrap(),
            _ => -v,
        };
        let n = AllocatedNum::alloc(cs.namespace(|| "num"), || if witness { Ok(inner) } else { Err(SynthesisError::AssignmentMissing) })?;
        var = Some(Rec::<F>::idx(n.get_variable()));
        match kind {
            0 => Num::from(n),
            1 => Num::from((Coeff::Full(k), n)),
            _ => -Num::from(n),
        }
    };
    let bits = unpack_fe(cs.namespace(|| "unpack"), &num)?;
    Ok(Run {
        bits: bits.iter().map(|b| Rec::<F>::idx(b.get_variable())).collect(),
        vals: bits.iter().map(|b| b.get_value()).collect(),
        rec: cs,
        num: var,
    })
}

fn int_of<F: PF>(bits: &[usize], v: &[F]) -> Result<U, String> {
    let mut b = [0u8; 32];
    for (i, x) in bits.iter().enumerate() {
        if v[*x] == F::one() {
            b[i / 8] |= 1 << (i % 8);
        } else if v[*x] != F::zero() {
            return Err(format!("bit {} is {:?}", i, v[*x]));
        }
    }
    Ok(U::from_le(&b))
}

fn job<F: PF>(ctx: &Ctx, r: &mut Rng, idx: usize) {
    // the classes where two decompositions exist below 2^256: all values, up to three extra
    let v: F = if idx < 256 && idx < 254 {
        f_of(&{
            let mut b = [0u8; 32];
            b[idx / 8] |= 1 << (idx % 8);
            U::from_le(&b)
        })
    } else {
        match r.below(4) {
            0 => -F::one(),
            1 => f_of(&U::from_u64(r.u64())),
            _ => hostile_f(r),
        }
    };
    let kind = r.below(4) as u8;
    let mut k = hostile_f::<F>(r);
    if k == F::zero() {
        k = F::one();
    }
    let info = || format!("{} {:?} kind {} coeff {:?}", F::NAME, v, kind, k);
    ctx.case_str(&info());
    ctx.sample(|| info());
    let run = match ctx.total("unpack_fe", || synth(v, kind, k, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("refused", format!("{:?} {}", e, info())),
        None => return,
    };
    if let Some(x) = run.rec.ok() {
        return ctx.violation("honest unsatisfied", format!("{} {}", x, info()));
    }
    let canon = u_of(&v);
    let p = F::P;
    ctx.check(run.bits.len() == 256, "bit count", || format!("{}", run.bits.len()));
    match int_of(&run.bits, &run.rec.vals) {
        Ok(t) => {
            ctx.check(t == canon, "honest bits", || format!("bits of {} for {}", t.hex(), info()));
        }
        Err(e) => ctx.violation("honest bits", format!("{} {}", e, info())),
    }
    ctx.check((0..256).all(|i| run.vals.get(i) == Some(&Some(canon.bit(i)))), "bit values", || info());
    if kind != 2 {
        if let Some(Ok(x)) = ctx.total("unpack_fe without witness", || synth(v, kind, k, false)) {
            ctx.check(x.rec.gates == run.rec.gates && x.rec.lcs == run.rec.lcs, "shape", || info());
        }
    }
    let fixed: Vec<usize> = run.num.iter().cloned().collect();
    // top bits enumerated, the rest decomposes uniquely: every solution is visited
    let judge = |val: &[F]| -> Option<(String, String)> {
        match int_of(&run.bits, val) {
            Err(e) => Some(("non-bit".into(), e)),
            Ok(t) if t == canon => None,
            Ok(t) => {
                let mut w = canon;
                for k in 1..4 {
                    let (n, c) = w.addc(&p);
                    if c {
                        break;
                    }
                    w = n;
                    if t == w {
                        return Some(("noncanonical-plus-p".into(), format!("bits of value + {}p accepted", k)));
                    }
                }
                Some(("other-value".into(), format!("bits of {} accepted", t.hex())))
            }
        }
    };
    let top: Vec<usize> = run.bits[run.bits.len() - 3..].to_vec();
    let mut families = 0;
    let mut complete = true;
    for m in 0..8 {
        let extra: Vec<(usize, F)> = top
            .iter()
            .enumerate()
            .map(|(i, x)| (*x, if (m >> i) & 1 == 1 { F::one() } else { F::zero() }))
            .collect();
        let found = std::sync::Mutex::new(None);
        let e = exact(&run.rec, &fixed, &extra, 200, 900, r, &|val| {
            if let Some(j) = judge(val) {
                *found.lock().unwrap() = Some(j);
            }
            None
        });
        families += e.families;
        complete &= e.complete;
        if let Some((sig, d)) = found.lock().unwrap().take() {
            ctx.violation(&sig, format!("{}; {}", d, info()));
        };
    }
    ctx.count("solutions examined", families);
    ctx.count(if complete { "values with every decomposition enumerated" } else { "values with undecided bits" }, 1);
    if complete {
        ctx.check(families >= 1, "no solution", || info());
    }
    // non-bits: each bit alone, and compensated pairs
    let f = Forger::new(&run.rec);
    let b = Budget { steps: 4000, branches: 6 };
    for _ in 0..ctx.scale(40, 256) {
        let (i, j) = (r.below(256), r.below(256));
        if i == j {
            continue;
        }
        let (xi, xj) = (run.bits[i], run.bits[j]);
        let nj = if r.bool() { F::one() - &run.rec.vals[xj] } else { rand_f(r) };
        let mut pow = F::one();
        for _ in 0..(if i > j { i - j } else { j - i }) {
            pow = pow + &pow;
        }
        let ratio = if i > j { pow.invert().unwrap() } else { pow };
        let ni = run.rec.vals[xi] - &((nj - &run.rec.vals[xj]) * &ratio);
        ctx.count("compensated pairs tried", 1);
        if let Some(val) = f.attempt(&run.rec.vals, &fixed, &[(xj, nj), (xi, ni)], &b, r) {
            if let Some((sig, d)) = judge(&val) {
                ctx.violation(&sig, format!("{}; {}", d, info()));
            }
        }
    }
    // bits of an unrelated value
    let o: F = hostile_f(r);
    if let Some(Ok(other)) = ctx.total("unpack_fe", || synth(o, kind, k, true)) {
        if kind != 2 {
            ctx.count("spliced histories", 1);
            if let Some(w) = transplant(&f, &fixed, &other.rec.vals, r, &|v| judge(v).filter(|j| j.0 != "noncanonical-plus-p").map(|j| j.1)) {
                ctx.violation("other-value", format!("{}; {}", w, info()));
            }
        }
    }
}

fn main() {
    run(
        "G04",
        "one evaluation is one field element (and form of operand) unpacked, with all decompositions examined; distinct by value and form",
        90,
        900,
        |ctx| {
            ctx.par("unpack", ctx.scale(320, 12000), |i, r| {
                job::<Fp>(ctx, r, i);
                job::<Fq>(ctx, r, i);
            });
        },
    )
}
