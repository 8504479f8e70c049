//! G03: the SHA-256 gadget against SHA-256; uniqueness of the digest and forging attempts.
use halo::sha256::{sha256 as gadget, sha256_block_no_padding};
use halo::*;
use hv::exact::*;
use hv::forge::*;
use hv::r1cs::*;
use hv::refhash::sha256;
use hv::*;

struct Run<F: Field> {
    rec: Rec<F>,
    fixed: Vec<usize>,
    out: Vec<(Vec<(usize, F)>, Option<bool>)>,
}

/// kinds: 0 constant, 1 witnessed, 2 negated witnessed, 3 repeats the previous bit object
fn synth<F: PF>(bits: &[bool], kinds: &[u8], block: bool, witness: bool) -> Result<Run<F>, SynthesisError> {
    let mut cs = Rec::<F>::with_paths();
    cs.keep_paths = false;
    let mut fixed = vec![];
    let mut input: Vec<Boolean> = vec![];
    for (i, (b, k)) in bits.iter().zip(kinds).enumerate() {
        input.push(match k {
            0 => Boolean::constant(*b),
            3 if i > 0 && bits[i - 1] == *b => input[i - 1].clone(),
            k => {
                let a = AllocatedBit::alloc(cs.namespace(|| format!("m {}", i)), || {
                    if witness {
                        Ok(*b ^ (*k == 2))
                    } else {
                        Err(SynthesisError::AssignmentMissing)
                    }
                })?;
                fixed.push(Rec::<F>::idx(a.get_variable()));
                let x = Boolean::from(a);
                if *k == 2 {
                    x.not()
                } else {
                    x
                }
            }
        });
    }
    let out = if block {
        sha256_block_no_padding(cs.namespace(|| "block"), &input)?
    } else {
        gadget(cs.namespace(|| "sha256"), &input)?
    };
    let out = out
        .iter()
        .map(|b| {
            (
                b.lc::<F>(Variable::A(0), Coeff::One).as_ref().iter().map(|(v, c)| (Rec::<F>::idx(*v), c.value())).collect(),
                b.get_value(),
            )
        })
        .collect();
    Ok(Run { rec: cs, fixed, out })
}

fn bits_of(m: &[u8]) -> Vec<bool> {
    m.iter().flat_map(|b| (0..8).rev().map(move |i| (b >> i) & 1 == 1)).collect()
}

fn message(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut m = vec![0u8; n];
    match r.below(5) {
        0 => {}
        1 => m.iter_mut().for_each(|x| *x = 0xff),
        2 => m.iter_mut().enumerate().for_each(|(i, x)| *x = i as u8),
        _ => r.fill(&mut m),
    }
    m
}

fn wrong_digest<F: PF>(run: &Run<F>, want: &[bool], v: &[F]) -> Option<String> {
    for (i, (lc, _)) in run.out.iter().enumerate() {
        let x = run.rec.eval(lc, v);
        if x != if want[i] { F::one() } else { F::zero() } {
            return Some(format!("digest bit {} is {:?}", i, x));
        }
    }
    None
}

fn kinds(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.below(5);
    (0..n)
        .map(|i| match mode {
            0 => 1,
            1 => 0,
            2 => r.below(3) as u8,
            3 => {
                if i < n / 2 {
                    0
                } else {
                    1 + r.below(2) as u8
                }
            }
            _ => r.below(4) as u8,
        })
        .collect()
}

fn job<F: PF>(ctx: &Ctx, r: &mut Rng, len: usize, forge: usize) {
    let m = message(r, len);
    let bits = bits_of(&m);
    let mut k = kinds(r, bits.len());
    if forge > 0 {
        k.iter_mut().for_each(|x| *x = (*x).max(1));
    }
    let block = len == 64 && r.bool();
    let want = if block { compress(&m) } else { bits_of(&sha256(&m)) };
    let info = || format!("{} len {} block {} msg {:02x?} kinds {:?}", F::NAME, len, block, m, k);
    ctx.case_str(&format!("{} {}", forge, info()));
    ctx.sample(|| info());
    let run = match ctx.total("sha256 gadget", || synth::<F>(&bits, &k, block, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("refused", format!("{:?} {}", e, info())),
        None => return,
    };
    ctx.count("constraints checked", (run.rec.gates.len() + run.rec.lcs.len()) as u64);
    if let Some(v) = run.rec.ok() {
        return ctx.violation("honest unsatisfied", format!("{} {}", v, info()));
    }
    ctx.check(run.out.len() == 256, "digest length", || format!("{}", run.out.len()));
    if let Some(w) = wrong_digest(&run, &want, &run.rec.vals) {
        return ctx.violation("digest", format!("{}; {}", w, info()));
    }
    ctx.check(run.out.iter().zip(&want).all(|(o, w)| o.1 == Some(*w)), "bit values", || info());
    ctx.count("digests compared", 1);
    let wrong = |v: &[F]| wrong_digest(&run, &want, v);
    // every solution with these message bits
    let e = exact(&run.rec, &run.fixed, &[], 200, 800, r, &wrong);
    ctx.count(if e.complete { "messages whose digest was shown unique" } else { "messages with undecided wires" }, 1);
    ctx.count("undecided wires", e.open as u64);
    if let Some(w) = e.wrong {
        return ctx.violation("forged", format!("{}; {}", w, info()));
    }
    if r.one_in(4) || forge > 0 {
        if let Some(x) = ctx.total("sha256 gadget without witness", || synth::<F>(&bits, &k, block, false)) {
            match x {
                Ok(x) => {
                    ctx.check(x.rec.gates == run.rec.gates && x.rec.lcs == run.rec.lcs, "shape", || info());
                }
                Err(e) => ctx.violation("witness-less refused", format!("{:?} {}", e, info())),
            }
        }
    }
    if forge == 0 || run.rec.vals.len() < 2 {
        return;
    }
    let f = Forger::new(&run.rec);
    for _ in 0..ctx.scale(2, 6) {
        let m2 = message(r, len);
        let b2 = bits_of(&m2);
        if let Some(Ok(o)) = ctx.total("sha256 gadget", || synth::<F>(&b2, &k, block, true)) {
            if o.rec.vals.len() != run.rec.vals.len() {
                continue;
            }
            ctx.count("spliced histories", 1);
            if let Some(w) = transplant(&f, &run.fixed, &o.rec.vals, r, &wrong) {
                return ctx.violation("forged", format!("{}; {}", w, info()));
            }
        }
    }
    let prefer: Vec<usize> = run.out.iter().flat_map(|o| o.0.iter().map(|x| x.0)).filter(|x| *x != 0).collect();
    let b = Budget { steps: 3000, branches: 8 };
    for i in 0..forge {
        let x = if i % 8 == 0 && !prefer.is_empty() { *r.pick(&prefer) } else { 1 + r.below(run.rec.vals.len() - 1) };
        if run.fixed.contains(&x) {
            continue;
        }
        let v = *r.pick(&dev_values::<F>(&mut r.clone(), run.rec.vals[x]));
        ctx.count("deviations tried", 1);
        if let Some(vals) = f.attempt(&run.rec.vals, &run.fixed, &[(x, v)], &b, r) {
            if let Some(w) = wrong(&vals) {
                return ctx.violation("forged", format!("{}; {}", w, info()));
            }
        }
    }
}

/// messages of many blocks: constant up to a few witnessed bits near the end
fn long<F: PF>(ctx: &Ctx, r: &mut Rng, len: usize) {
    let m = message(r, len);
    let bits = bits_of(&m);
    let want = bits_of(&sha256(&m));
    let mut k = vec![0u8; bits.len()];
    for _ in 0..r.below(4) {
        let i = bits.len() - 1 - r.below(bits.len().min(600));
        k[i] = 1 + r.below(2) as u8;
    }
    let wit: Vec<usize> = (0..k.len()).filter(|i| k[*i] > 0).collect();
    let info = || format!("{} len {} witnessed bits {:?}", F::NAME, len, wit);
    ctx.case_str(&format!("long {} {:02x?}", info(), &m[len - 8..]));
    let run = match ctx.total("sha256 gadget", || synth::<F>(&bits, &k, false, true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("refused", format!("{:?} {}", e, info())),
        None => return,
    };
    if let Some(v) = run.rec.ok() {
        return ctx.violation("honest unsatisfied", format!("{} {}", v, info()));
    }
    if let Some(w) = wrong_digest(&run, &want, &run.rec.vals) {
        return ctx.violation("digest", format!("{}; {}", w, info()));
    }
    ctx.check(run.out.iter().zip(&want).all(|(o, w)| o.1 == Some(*w)), "bit values", || info());
    ctx.count("digests compared", 1);
    ctx.max("longest message in bytes", len as u64);
}

/// reference compression of one block from the standard initial state, no padding
fn compress(m: &[u8]) -> Vec<bool> {
    bits_of(&hv::refhash::sha256_compress_iv(m))
}

fn main() {
    run(
        "G03",
        "one evaluation is one message (contents and kind of every bit) hashed in-circuit, compared, and its digest's uniqueness examined; distinct by message and kinds",
        60,
        900,
        |ctx| {
            let lens = [0usize, 1, 3, 31, 32, 54, 55, 56, 57, 63, 64, 65, 80, 118, 119, 120, 127, 128];
            ctx.par("messages", ctx.scale(36, 800), |i, r| {
                let len = if i < 2 * lens.len() { lens[i / 2] } else { r.range(0, 200) };
                if i % 2 == 0 {
                    job::<Fp>(ctx, r, len, 0)
                } else {
                    job::<Fq>(ctx, r, len, 0)
                }
            });
            let big = [255usize, 256, 257, 511, 512, 1023, 1024, 2047, 4096, 4097, 8183, 8191, 8192, 8193, 9001, 16384, 33000, 65536];
            ctx.par("long messages", ctx.scale(big.len(), 6 * big.len()), |i, r| {
                let len = if i < big.len() { big[big.len() - 1 - i] } else { r.range(200, 140_000) };
                if r.bool() {
                    long::<Fp>(ctx, r, len)
                } else {
                    long::<Fq>(ctx, r, len)
                }
            });
            ctx.par("forge", ctx.scale(6, 100), |i, r| {
                let len = *r.pick(&[0usize, 5, 55, 64, 70]);
                let n = ctx.scale(200, 4000);
                if i % 2 == 0 {
                    job::<Fp>(ctx, r, len, n)
                } else {
                    job::<Fq>(ctx, r, len, n)
                }
            });
        },
    )
}
