//! Random circuit programs with an independent interpreter.
//!
//! Variables are numbered in program order (0 is the constant one). A program stores the
//! value of each variable, so the same program can be synthesised satisfied, falsified
//! in one place, or without a witness.
use crate::field::*;
use crate::rng::Rng;
use halo::*;
use std::cell::RefCell;

pub type Lc<F> = Vec<(Coeff<F>, usize)>;

#[derive(Clone, Debug)]
pub enum Op<F: Field> {
    Alloc(usize),
    Input(usize),
    /// gate whose three wires are free apart from c = a*b
    Gate(usize, usize, usize),
    Lin(Lc<F>),
    Push(String),
    Pop,
}

#[derive(Clone, Debug)]
pub struct Prog<F: Field> {
    pub ops: Vec<Op<F>>,
    pub vals: Vec<F>,
    pub witness: bool,
}

pub fn cval<F: Field>(c: &Coeff<F>) -> F {
    match c {
        Coeff::Zero => F::zero(),
        Coeff::One => F::one(),
        Coeff::NegativeOne => -F::one(),
        Coeff::Full(f) => *f,
    }
}

pub struct Shape {
    pub ops: usize,
    pub max_gates: usize,
    pub max_lcs: usize,
    pub inputs: usize,
    pub namespaces: bool,
}

pub fn rand_coeff<F: PF>(r: &mut Rng) -> Coeff<F> {
    match r.below(8) {
        0 => Coeff::Zero,
        1 | 2 => Coeff::One,
        3 => Coeff::NegativeOne,
        4 => Coeff::Full(F::from_u64(r.below(3) as u64)),
        5 => Coeff::Full(-F::one()),
        _ => Coeff::Full(hostile_f(r)),
    }
}

impl<F: PF> Prog<F> {
    pub fn empty() -> Self {
        Prog {
            ops: vec![],
            vals: vec![F::one()],
            witness: true,
        }
    }
    /// A satisfied program.
    pub fn random(r: &mut Rng, s: &Shape) -> Self {
        let mut p = Prog::empty();
        let mut depth = 0;
        let mut inputs_left = s.inputs;
        for i in 0..s.ops {
            let (g, q) = (p.gates(), p.lcs());
            let left = s.ops - i;
            if inputs_left > 0 && (r.below(left) < inputs_left) {
                inputs_left -= 1;
                if g + 1 <= s.max_gates && q + 1 <= s.max_lcs {
                    let v = p.push(hostile_f(r));
                    p.ops.push(Op::Input(v));
                }
                continue;
            }
            match r.below(10) {
                0 | 1 => {
                    if g + 1 <= s.max_gates {
                        let v = p.push(hostile_f(r));
                        p.ops.push(Op::Alloc(v));
                    }
                }
                2 | 3 | 4 => {
                    // gate with linking constraints on existing variables
                    if g + 1 <= s.max_gates && q + 2 <= s.max_lcs {
                        let (l, m) = (p.rand_lc(r), p.rand_lc(r));
                        p.gate_of(l, m);
                    }
                }
                5 => {
                    if g + 1 <= s.max_gates {
                        let (a, b) = (hostile_f::<F>(r), hostile_f::<F>(r));
                        let a = p.push(a);
                        let b = p.push(b);
                        let c = p.push(p.vals[a] * &p.vals[b]);
                        p.ops.push(Op::Gate(a, b, c));
                    }
                }
                6 | 7 => {
                    if q + 1 <= s.max_lcs {
                        let mut l = p.rand_lc(r);
                        let e = p.eval(&l);
                        l.push((Coeff::Full(-e), 0));
                        p.ops.push(Op::Lin(l));
                    }
                }
                8 => {
                    if q + 1 <= s.max_lcs && r.one_in(4) {
                        p.ops.push(Op::Lin(vec![]));
                    }
                }
                _ => {
                    if s.namespaces {
                        if depth > 0 && r.bool() {
                            depth -= 1;
                            p.ops.push(Op::Pop);
                        } else {
                            depth += 1;
                            let n = format!("ns {}", r.below(3));
                            p.ops.push(Op::Push(n));
                        }
                    }
                }
            }
        }
        for _ in 0..depth {
            p.ops.push(Op::Pop);
        }
        p
    }
    pub fn push(&mut self, v: F) -> usize {
        self.vals.push(v);
        self.vals.len() - 1
    }
    pub fn rand_lc(&self, r: &mut Rng) -> Lc<F> {
        // mostly short; now and then far longer than the wires are many
        let len = match r.below(1024) {
            0 => 200 + r.below(2000),
            1..=16 => r.below(40),
            _ => r.below(5),
        };
        (0..len).map(|_| (rand_coeff(r), r.below(self.vals.len()))).collect()
    }
    pub fn gate_of(&mut self, mut l: Lc<F>, mut m: Lc<F>) -> (usize, usize, usize) {
        let (x, y) = (self.eval(&l), self.eval(&m));
        let a = self.push(x);
        let b = self.push(y);
        let c = self.push(x * &y);
        self.ops.push(Op::Gate(a, b, c));
        l.push((Coeff::NegativeOne, a));
        m.push((Coeff::NegativeOne, b));
        self.ops.push(Op::Lin(l));
        self.ops.push(Op::Lin(m));
        (a, b, c)
    }
    pub fn eval(&self, l: &Lc<F>) -> F {
        let mut acc = F::zero();
        for (c, v) in l {
            acc = acc + &(cval(c) * &self.vals[*v]);
        }
        acc
    }
    /// Multiplication gates the driver will need (allocations are paired).
    pub fn gates(&self) -> usize {
        let mut allocs = 1;
        let mut gates = 0;
        for o in &self.ops {
            match o {
                Op::Alloc(_) | Op::Input(_) => allocs += 1,
                Op::Gate(..) => gates += 1,
                _ => {}
            }
        }
        gates + (allocs + 1) / 2
    }
    pub fn lcs(&self) -> usize {
        1 + self
            .ops
            .iter()
            .filter(|o| match o {
                Op::Lin(_) | Op::Input(_) => true,
                _ => false,
            })
            .count()
    }
    pub fn inputs(&self) -> Vec<F> {
        self.ops
            .iter()
            .filter_map(|o| match o {
                Op::Input(v) => Some(self.vals[*v]),
                _ => None,
            })
            .collect()
    }
    /// Indices of the operations the stored values violate.
    pub fn violated(&self) -> Vec<usize> {
        let mut out = vec![];
        for (i, o) in self.ops.iter().enumerate() {
            let bad = match o {
                Op::Gate(a, b, c) => self.vals[*a] * &self.vals[*b] != self.vals[*c],
                Op::Lin(l) => self.eval(l) != F::zero(),
                _ => false,
            };
            if bad {
                out.push(i);
            }
        }
        out
    }
    pub fn blank(&self) -> Self {
        let mut p = self.clone();
        p.witness = false;
        p
    }
    /// Constrained operations.
    pub fn constraints(&self) -> Vec<usize> {
        (0..self.ops.len())
            .filter(|i| match &self.ops[*i] {
                Op::Gate(..) | Op::Lin(_) => true,
                _ => false,
            })
            .collect()
    }
    /// Make operation `i` (a gate or linear constraint) false. For a gate the output
    /// wire gets a fresh value nothing else mentions when possible, for a linear
    /// constraint the constant moves.
    pub fn falsify(&mut self, i: usize, delta: F) {
        match &mut self.ops[i] {
            Op::Gate(_, _, c) => {
                let c = *c;
                self.vals[c] = self.vals[c] + &delta;
            }
            Op::Lin(l) => l.push((Coeff::Full(delta), 0)),
            _ => panic!("not a constraint"),
        }
    }
    /// Namespace path (joined by '/') each operation runs in.
    pub fn paths(&self) -> Vec<String> {
        let mut cur: Vec<&str> = vec![];
        let mut out = vec![];
        for o in &self.ops {
            if let Op::Pop = o {
                cur.pop();
            }
            out.push(cur.join("/"));
            if let Op::Push(n) = o {
                cur.push(n);
            }
        }
        out
    }
    /// Variables in the order of allocation that each `cs` call returned.
    pub fn vars(&self) -> usize {
        self.vals.len()
    }
}

/// Circuit adapter; `log` receives (program variable, driver variable).
pub struct Synth<'a, F: PF> {
    pub p: &'a Prog<F>,
    pub log: Option<&'a RefCell<Vec<(usize, Variable)>>>,
}

fn build<F: PF>(l: &Lc<F>, vars: &[Variable]) -> LinearCombination<F> {
    // exercise the different ways of adding a term
    let mut lc = LinearCombination::zero();
    for (i, (c, v)) in l.iter().enumerate() {
        let var = vars[*v];
        lc = match (c, i % 3) {
            (Coeff::One, 0) => lc + var,
            (Coeff::NegativeOne, 0) => lc - var,
            (c, 1) => lc - (-*c, var),
            (c, 2) => lc + &(LinearCombination::zero() + (*c, var)),
            (c, _) => lc + (*c, var),
        };
    }
    lc
}

fn go<F: PF, CS: ConstraintSystem<F>>(
    p: &Prog<F>,
    cs: &mut CS,
    pos: &mut usize,
    vars: &mut Vec<Variable>,
) -> Result<(), SynthesisError> {
    let w = |i: usize| {
        if p.witness {
            Ok(p.vals[i])
        } else {
            Err(SynthesisError::AssignmentMissing)
        }
    };
    while *pos < p.ops.len() {
        let o = &p.ops[*pos];
        let at = *pos;
        *pos += 1;
        match o {
            Op::Alloc(i) => {
                let v = cs.alloc(|| format!("alloc {}", at), || w(*i))?;
                assert_eq!(vars.len(), *i);
                vars.push(v);
            }
            Op::Input(i) => {
                let v = cs.alloc_input(|| "input", || w(*i))?;
                assert_eq!(vars.len(), *i);
                vars.push(v);
            }
            Op::Gate(a, b, c) => {
                let (x, y, z) = cs.multiply(|| format!("gate {}", at), || Ok((w(*a)?, w(*b)?, w(*c)?)))?;
                assert_eq!(vars.len(), *a);
                vars.push(x);
                vars.push(y);
                vars.push(z);
            }
            Op::Lin(l) => cs.enforce_zero(build(l, vars)),
            Op::Push(n) => {
                let mut ns = cs.namespace(|| n.clone());
                go(p, &mut ns, pos, vars)?;
            }
            Op::Pop => return Ok(()),
        }
    }
    Ok(())
}

impl<'a, F: PF> Circuit<F> for Synth<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut vars = vec![CS::ONE];
        let mut pos = 0;
        let r = go(self.p, cs, &mut pos, &mut vars);
        if let Some(l) = self.log {
            *l.borrow_mut() = vars.iter().cloned().enumerate().collect();
        }
        r
    }
}

impl<F: PF> Circuit<F> for Prog<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        Synth { p: self, log: None }.synthesize(cs)
    }
}

/// What the backend receives: gate values, lines and input powers.
#[derive(Clone)]
pub struct Asg<F: Field> {
    pub n: usize,
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub c: Vec<F>,
    pub lines: Vec<Vec<(Variable, F)>>,
    pub inputs: Vec<(usize, Option<F>)>,
    pub values: bool,
}
impl<F: Field> Asg<F> {
    /// Synthesise through the repository's basic driver.
    pub fn of<C: Circuit<F>>(c: &C, values: bool) -> Result<Self, SynthesisError> {
        let mut s = Asg {
            n: 0,
            a: vec![],
            b: vec![],
            c: vec![],
            lines: vec![],
            inputs: vec![],
            values,
        };
        Basic::synthesize(&mut s, c)?;
        Ok(s)
    }
    pub fn q(&self) -> usize {
        self.lines.len()
    }
    /// s(x, y) from the definition.
    pub fn s(&self, n: usize, x: F, y: F) -> F {
        let xi = x.invert().unwrap();
        let mut neg = vec![F::one()];
        let mut pos = vec![F::one()];
        for i in 0..2 * n {
            let t = neg[i] * &xi;
            neg.push(t);
            let t = pos[i] * &x;
            pos.push(t);
        }
        let mut acc = F::zero();
        let mut yq = F::one();
        for l in &self.lines {
            yq = yq * &y;
            for (v, c) in l {
                let m = match v {
                    Variable::A(i) => neg[*i],
                    Variable::B(i) => pos[*i],
                    Variable::C(i) => pos[*i + n],
                };
                acc = acc + &(yq * c * &m);
            }
        }
        acc
    }
}
impl<'a, F: Field> Backend<F> for &'a mut Asg<F> {
    type LinearConstraintIndex = usize;
    fn get_var(&self, v: Variable) -> Option<F> {
        Some(match v {
            Variable::A(i) => self.a[i - 1],
            Variable::B(i) => self.b[i - 1],
            Variable::C(i) => self.c[i - 1],
        })
    }
    fn set_var<FF, A, AR>(&mut self, _a: Option<A>, v: Variable, value: FF) -> Result<(), SynthesisError>
    where
        FF: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.values {
            let x = value()?;
            match v {
                Variable::A(i) => self.a[i - 1] = x,
                Variable::B(i) => self.b[i - 1] = x,
                Variable::C(i) => self.c[i - 1] = x,
            }
        }
        Ok(())
    }
    fn new_multiplication_gate<A, AR>(&mut self, _a: Option<A>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.n += 1;
        self.a.push(F::zero());
        self.b.push(F::zero());
        self.c.push(F::zero());
    }
    fn new_linear_constraint<A, AR>(&mut self, _a: A) -> usize
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.lines.push(vec![]);
        self.lines.len() - 1
    }
    fn insert_coefficient(&mut self, v: Variable, c: Coeff<F>, y: &usize) {
        self.lines[*y].push((v, cval(&c)));
    }
    fn get_for_q(&self, q: usize) -> usize {
        q - 1
    }
    fn new_k_power(&mut self, index: usize, value: Option<F>) -> Result<(), SynthesisError> {
        self.inputs.push((index, value));
        Ok(())
    }
}
