//! G01: every boolean gadget, every kind of operand, every value, every solution.
use halo::*;
use hv::exact::*;
use hv::r1cs::*;
use hv::*;

const OPS2: [&str; 9] = ["xor", "and", "equal", "bit xor", "bit and", "bit and_not", "bit nor", "not xor", "lc sum"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    C,
    Is,
    Not,
}
const KS: [K; 3] = [K::C, K::Is, K::Not];

/// operand: how it is presented and which bit slot it reads
type Opd = (K, usize);

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Alloc,
    CheckedInput,
}

struct Built<F: Field> {
    rec: Rec<F>,
    /// slot -> variable
    slot: Vec<Option<usize>>,
    /// outputs as linear combinations over the recorder
    out: Vec<(Vec<(usize, F)>, Option<bool>)>,
}

fn lc_of<F: PF>(b: &Boolean, k: Coeff<F>) -> Vec<(usize, F)> {
    b.lc(Variable::A(0), k)
        .as_ref()
        .iter()
        .map(|(v, c)| (Rec::<F>::idx(*v), c.value()))
        .collect()
}

fn alloc_bit<F: PF>(cs: &mut Rec<F>, how: How, v: bool, witness: bool, tag: usize) -> Result<AllocatedBit, SynthesisError> {
    let val = || if witness { Ok(v) } else { Err(SynthesisError::AssignmentMissing) };
    Ok(match how {
        How::Alloc => AllocatedBit::alloc(cs.namespace(|| format!("bit {}", tag)), val)?,
        How::CheckedInput => {
            let b = AllocatedBit::alloc_input_unchecked(cs.namespace(|| format!("in {}", tag)), val)?;
            b.check(cs.namespace(|| format!("check {}", tag)))?;
            b
        }
    })
}

struct Case {
    op: usize, // 0.. OPS2 then 100 ch, 101 maj
    opds: Vec<Opd>,
    vals: Vec<bool>,
    how: How,
}

impl Case {
    fn name(&self) -> String {
        let o = match self.op {
            100 => "ch",
            101 => "maj",
            i => OPS2[i],
        };
        format!("{} {:?} slots {:?} {:?}", o, self.opds, self.vals, self.how)
    }
    fn sig(&self) -> String {
        match self.op {
            100 => "sha256_ch".into(),
            101 => "sha256_maj".into(),
            i => OPS2[i].replace(' ', "-"),
        }
    }
    /// truth value of operand i given the slot values
    fn opv(&self, i: usize, slots: &[bool]) -> bool {
        let (k, s) = self.opds[i];
        match k {
            K::C => self.vals[s],
            K::Is => slots[s],
            K::Not => !slots[s],
        }
    }
    fn bits_only(&self) -> bool {
        (3..7).contains(&self.op)
    }
    fn truth(&self, slots: &[bool]) -> bool {
        let v = |i| self.opv(i, slots);
        match self.op {
            0 | 3 => v(0) ^ v(1),
            1 | 4 => v(0) & v(1),
            2 => v(0) == v(1),
            5 => v(0) & !v(1),
            6 => !v(0) & !v(1),
            7 => !(v(0) ^ v(1)),
            8 => v(0),
            100 => (v(0) & v(1)) ^ (!v(0) & v(2)),
            101 => (v(0) & v(1)) ^ (v(0) & v(2)) ^ (v(1) & v(2)),
            _ => unreachable!(),
        }
    }
}

fn build<F: PF>(c: &Case, witness: bool) -> Result<Built<F>, SynthesisError> {
    let mut cs = Rec::<F>::with_paths();
    let mut slot = vec![None; c.vals.len()];
    let mut bits: Vec<Option<AllocatedBit>> = vec![None; c.vals.len()];
    for (k, s) in &c.opds {
        if *k != K::C && bits[*s].is_none() {
            let b = alloc_bit(&mut cs, c.how, c.vals[*s], witness, *s)?;
            slot[*s] = Some(Rec::<F>::idx(b.get_variable()));
            bits[*s] = Some(b);
        }
    }
    let bo = |i: usize| -> Boolean {
        let (k, s) = c.opds[i];
        match k {
            K::C => Boolean::constant(c.vals[s]),
            K::Is => Boolean::from(bits[s].clone().unwrap()),
            K::Not => Boolean::from(bits[s].clone().unwrap()).not(),
        }
    };
    let ab = |cs: &mut Rec<F>, i: usize| -> AllocatedBit {
        let (k, s) = c.opds[i];
        match k {
            K::C => AllocatedBit::one::<F, _>(cs),
            _ => bits[s].clone().unwrap(),
        }
    };
    let mut out = vec![];
    let mut push = |b: Boolean| {
        let form = lc_of(&b, Coeff::One);
        // a bit reported constant is one: known without a witness, and built from no variable
        if b.is_constant() && (b.get_value().is_none() || form.iter().any(|(v, _)| *v != 0)) {
            panic!("a bit built from variables calls itself constant");
        }
        out.push((form, b.get_value()))
    };
    match c.op {
        0 => push(Boolean::xor(cs.namespace(|| "op"), &bo(0), &bo(1))?),
        1 => push(Boolean::and(cs.namespace(|| "op"), &bo(0), &bo(1))?),
        2 => Boolean::enforce_equal(cs.namespace(|| "op"), &bo(0), &bo(1))?,
        3 | 4 | 5 | 6 => {
            let (a, b) = (ab(&mut cs, 0), ab(&mut cs, 1));
            let n = cs.namespace(|| "op");
            push(
                match c.op {
                    3 => AllocatedBit::xor(n, &a, &b)?,
                    4 => AllocatedBit::and(n, &a, &b)?,
                    5 => AllocatedBit::and_not(n, &a, &b)?,
                    _ => AllocatedBit::nor(n, &a, &b)?,
                }
                .into(),
            )
        }
        7 => push(Boolean::xor(cs.namespace(|| "op"), &bo(0), &bo(1))?.not()),
        8 => push(bo(0)),
        100 => push(Boolean::sha256_ch(cs.namespace(|| "op"), &bo(0), &bo(1), &bo(2))?),
        101 => push(Boolean::sha256_maj(cs.namespace(|| "op"), &bo(0), &bo(1), &bo(2))?),
        _ => unreachable!(),
    }
    Ok(Built { rec: cs, slot, out })
}

fn as_bit<F: PF>(f: F) -> Option<bool> {
    if f == F::zero() {
        Some(false)
    } else if f == F::one() {
        Some(true)
    } else {
        None
    }
}

fn judge<F: PF>(ctx: &Ctx, c: &Case, r: &mut Rng) {
    let name = || format!("{} {}", F::NAME, c.name());
    ctx.case_str(&name());
    ctx.sample(|| name());
    let b = match ctx.total(&c.sig(), || build::<F>(c, true)) {
        None => return,
        Some(Err(e)) => {
            // refusing to equate two different constants is the unsatisfiable outcome
            let fine = c.op == 2 && c.opds.iter().all(|o| o.0 == K::C) && !c.truth(&c.vals);
            ctx.check(fine, &format!("{}:refused", c.sig()), || format!("{:?} {}", e, name()));
            return;
        }
        Some(Ok(b)) => b,
    };
    let want = c.truth(&c.vals);
    let sat = b.rec.ok();
    if c.op == 2 {
        ctx.check(sat.is_none() == want, "equal:satisfied", || format!("violated {:?}, operands equal: {}; {}", sat, want, name()));
    } else {
        ctx.check(sat.is_none(), &format!("{}:honest unsatisfied", c.sig()), || format!("{:?}; {}", sat, name()));
        for (lc, v) in &b.out {
            let got = b.rec.eval(lc, &b.rec.vals);
            ctx.check(as_bit(got) == Some(want) && *v == Some(want), &format!("{}:value", c.sig()), || {
                format!("lc {:?} value {:?} want {}; {}", got, v, want, name())
            });
        }
    }
    // every solution whatsoever
    let wrong = |vals: &[F]| -> Option<String> {
        let mut slots = c.vals.clone();
        for (i, s) in b.slot.iter().enumerate() {
            if let Some(x) = s {
                match as_bit(vals[*x]) {
                    Some(v) => slots[i] = v,
                    None => return Some(format!("bit {} is {:?}", i, vals[*x])),
                }
            }
        }
        let w = c.truth(&slots);
        if c.op == 2 {
            return if w { None } else { Some(format!("unequal operands accepted, slots {:?}", slots)) };
        }
        for (lc, _) in &b.out {
            let got = b.rec.eval(lc, vals);
            if as_bit(got) != Some(w) {
                return Some(format!("result {:?} for slots {:?}, want {}", got, slots, w));
            }
        }
        None
    };
    let e = exact(&b.rec, &[], &[], 20_000, 400, r, &wrong);
    ctx.count("solutions examined", e.families);
    ctx.count(if e.complete { "cases decided exhaustively" } else { "cases with guessed values" }, 1);
    if let Some(w) = e.wrong {
        ctx.violation(&format!("{}:forged", c.sig()), format!("{}; {}", w, name()));
    }
    // every combination of bit values is actually a solution
    let free = b.slot.iter().filter(|s| s.is_some()).count();
    if c.op != 2 && e.complete {
        ctx.check(e.families >= 1 << free, &format!("{}:incomplete", c.sig()), || {
            format!("{} solutions for {} free bits; {}", e.families, free, name())
        });
    }
    if let Some(w) = ctx.total(&c.sig(), || build::<F>(c, false)) {
        match w {
            Ok(w) => {
                ctx.check(w.rec.gates == b.rec.gates && w.rec.lcs == b.rec.lcs, &format!("{}:shape", c.sig()), || name());
            }
            Err(e) => ctx.violation(&format!("{}:witness-less", c.sig()), format!("{:?} {}", e, name())),
        }
    }
}

fn cases() -> Vec<Case> {
    let mut v = vec![];
    for op in 0..OPS2.len() {
        for ka in &KS {
            for kb in &KS {
                for share in 0..2 {
                    for m in 0..(1 << (2 - share)) {
                        for how in &[How::Alloc, How::CheckedInput] {
                            let vals: Vec<bool> = (0..2 - share).map(|i| (m >> i) & 1 == 1).collect();
                            let c = Case {
                                op,
                                opds: vec![(*ka, 0), (*kb, 1 - share)],
                                vals,
                                how: *how,
                            };
                            if c.bits_only() && (c.opds.iter().any(|o| o.0 == K::Not)) {
                                continue;
                            }
                            if c.bits_only() && c.opds.iter().any(|o| o.0 == K::C && !c.vals[o.1]) {
                                continue;
                            }
                            v.push(c);
                        }
                    }
                }
            }
        }
    }
    let parts: [[usize; 3]; 5] = [[0, 1, 2], [0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 0, 0]];
    for op in &[100, 101] {
        for k in 0..27 {
            for p in &parts {
                let n = p.iter().max().unwrap() + 1;
                for m in 0..(1 << n) {
                    v.push(Case {
                        op: *op,
                        opds: (0..3).map(|i| (KS[(k / 3usize.pow(i as u32)) % 3], p[i])).collect(),
                        vals: (0..n).map(|i| (m >> i) & 1 == 1).collect(),
                        how: if (k + m) % 4 == 3 { How::CheckedInput } else { How::Alloc },
                    });
                }
            }
        }
    }
    v
}

/// a random program over several bits: composition of the gadgets
fn program<F: PF>(ctx: &Ctx, r: &mut Rng) {
    let nb = r.range(1, 5);
    let vals: Vec<bool> = (0..nb).map(|_| r.bool()).collect();
    let nops = r.range(1, 14);
    let plan: Vec<(usize, usize, usize, usize, bool, bool)> =
        (0..nops).map(|_| (r.below(8), r.u64() as usize, r.u64() as usize, r.u64() as usize, r.bool(), r.bool())).collect();
    let inputs: Vec<bool> = (0..nb).map(|_| r.one_in(3)).collect();
    let consts = [r.bool(), r.bool()];
    let synth = |witness: bool| -> Result<(Rec<F>, Vec<usize>, Vec<Boolean>), SynthesisError> {
        let mut cs = Rec::<F>::with_paths();
        let mut pool = vec![Boolean::constant(consts[0])];
        let mut slot = vec![];
        for i in 0..nb {
            let b = alloc_bit(&mut cs, if inputs[i] { How::CheckedInput } else { How::Alloc }, vals[i], witness, i)?;
            slot.push(Rec::<F>::idx(b.get_variable()));
            pool.push(b.into());
        }
        for (j, (op, a, b, c, na, nb)) in plan.iter().enumerate() {
            let g = |x: &usize, n: bool| -> Boolean {
                let v = &pool[*x % pool.len()];
                if n {
                    v.not()
                } else {
                    v.clone()
                }
            };
            let (x, y, z) = (g(a, *na), g(b, *nb), g(c, false));
            let n = cs.namespace(|| format!("op {}", j));
            let o = match op {
                0 | 1 => Boolean::xor(n, &x, &y)?,
                2 | 3 => Boolean::and(n, &x, &y)?,
                4 | 5 => Boolean::sha256_ch(n, &x, &y, &z)?,
                6 => Boolean::sha256_maj(n, &x, &y, &z)?,
                _ => Boolean::constant(consts[1]),
            };
            pool.push(o);
        }
        Ok((cs, slot, pool))
    };
    let eval = |vals: &[bool]| -> Vec<bool> {
        let mut pool = vec![consts[0]];
        pool.extend(vals);
        for (op, a, b, c, na, nb) in &plan {
            let g = |x: &usize, n: bool| pool[*x % pool.len()] ^ n;
            let (x, y, z) = (g(a, *na), g(b, *nb), g(c, false));
            let o = match op {
                0 | 1 => x ^ y,
                2 | 3 => x & y,
                4 | 5 => (x & y) ^ (!x & z),
                6 => (x & y) ^ (x & z) ^ (y & z),
                _ => consts[1],
            };
            pool.push(o);
        }
        pool
    };
    let info = || format!("{} bits {:?} plan {:?}", F::NAME, vals, plan);
    ctx.case_str(&info());
    let (rec, slot, pool) = match ctx.total("program", || synth(true)) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return ctx.violation("program refused", format!("{:?} {}", e, info())),
        None => return,
    };
    if let Some(v) = rec.ok() {
        return ctx.violation("program honest unsatisfied", format!("{} {}", v, info()));
    }
    let want = eval(&vals);
    let lcs: Vec<Vec<(usize, F)>> = pool.iter().map(|b| lc_of(b, Coeff::One)).collect();
    let k = rand_f::<F>(r);
    for (i, b) in pool.iter().enumerate() {
        let ok = as_bit(rec.eval(&lcs[i], &rec.vals)) == Some(want[i]) && b.get_value() == Some(want[i]);
        ctx.check(ok, "program value", || format!("value {} {}", i, info()));
        let kv = rec.eval(&lc_of(b, Coeff::Full(k)), &rec.vals);
        ctx.check(kv == if want[i] { k } else { F::zero() }, "scaled combination", || format!("value {} {}", i, info()));
    }
    let e = exact(&rec, &[], &[], 4000, 600, r, &|v| {
        let mut s = vec![];
        for (i, x) in slot.iter().enumerate() {
            match as_bit(v[*x]) {
                Some(b) => s.push(b),
                None => return Some(format!("bit {} is {:?}", i, v[*x])),
            }
        }
        let w = eval(&s);
        for (i, l) in lcs.iter().enumerate() {
            if as_bit(rec.eval(l, v)) != Some(w[i]) {
                return Some(format!("value {} wrong for {:?}", i, s));
            }
        }
        None
    });
    ctx.count("program solutions examined", e.families);
    ctx.count(if e.complete { "programs decided exhaustively" } else { "programs with guessed values" }, 1);
    if e.complete {
        ctx.check(e.families >= 1 << nb, "program incomplete", || format!("{} solutions; {}", e.families, info()));
    }
    if let Some(w) = e.wrong {
        ctx.violation("program forged", format!("{}; {}", w, info()));
    }
}

fn main() {
    run(
        "G01",
        "one evaluation is one gadget (or program of gadgets) synthesised for one choice of operand kinds, sharing and values and all of its satisfying assignments examined; distinct by that choice",
        90,
        900,
        |ctx| {
            let all = cases();
            ctx.count("operand configurations", all.len() as u64);
            ctx.par("tables", all.len(), |i, r| {
                judge::<Fp>(ctx, &all[i], r);
                judge::<Fq>(ctx, &all[i], r);
            });
            ctx.par("programs", ctx.scale(15000, 200000), |i, r| {
                if i % 2 == 0 {
                    program::<Fp>(ctx, r)
                } else {
                    program::<Fq>(ctx, r)
                }
            });
        },
    )
}
