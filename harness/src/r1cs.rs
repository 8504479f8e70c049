//! A constraint system that records everything: values, gates and linear constraints.
use halo::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    One,
    Alloc,
    Input,
    GateA,
    GateB,
    GateC,
}

/// The recorder numbers its wires consecutively; towards the code under test they are
/// spread over the three families, as they are in a real backend.
pub fn wire(i: usize) -> Variable {
    match i % 3 {
        0 => Variable::A(i / 3),
        1 => Variable::B(i / 3),
        _ => Variable::C(i / 3),
    }
}
pub fn flat(v: Variable) -> usize {
    match v {
        Variable::A(i) => 3 * i,
        Variable::B(i) => 3 * i + 1,
        Variable::C(i) => 3 * i + 2,
    }
}

#[derive(Clone)]
pub struct Rec<F: Field> {
    pub vals: Vec<F>,
    pub kinds: Vec<Kind>,
    pub gates: Vec<(usize, usize, usize)>,
    pub lcs: Vec<Vec<(usize, F)>>,
    pub inputs: Vec<usize>,
    pub ns: Vec<String>,
    pub keep_paths: bool,
    /// namespace path of each gate / lc, when keep_paths
    pub gate_path: Vec<String>,
    pub lc_path: Vec<String>,
    pub depth_now: i64,
    pub ns_opened: u64,
    pub missing: bool,
}

impl<F: Field> Rec<F> {
    pub fn new() -> Self {
        Rec {
            vals: vec![F::one()],
            kinds: vec![Kind::One],
            gates: vec![],
            lcs: vec![],
            inputs: vec![],
            ns: vec![],
            keep_paths: false,
            gate_path: vec![],
            lc_path: vec![],
            depth_now: 0,
            ns_opened: 0,
            missing: false,
        }
    }
    pub fn with_paths() -> Self {
        let mut r = Self::new();
        r.keep_paths = true;
        r
    }
    pub fn idx(v: Variable) -> usize {
        flat(v)
    }
    fn push(&mut self, v: Result<F, SynthesisError>, k: Kind) -> Result<usize, SynthesisError> {
        let v = match v {
            Ok(v) => v,
            Err(SynthesisError::AssignmentMissing) => {
                self.missing = true;
                F::zero()
            }
            Err(e) => return Err(e),
        };
        self.vals.push(v);
        self.kinds.push(k);
        Ok(self.vals.len() - 1)
    }
    pub fn eval(&self, lc: &[(usize, F)], vals: &[F]) -> F {
        let mut acc = F::zero();
        for (v, c) in lc {
            acc = acc + &(vals[*v] * c);
        }
        acc
    }
    pub fn eval_lc(&self, lc: &LinearCombination<F>, vals: &[F]) -> F {
        let mut acc = F::zero();
        for (v, c) in lc.as_ref() {
            acc = acc + &(vals[Self::idx(*v)] * &c.value());
        }
        acc
    }
    /// First violated constraint under `vals`.
    pub fn violated(&self, vals: &[F]) -> Option<String> {
        for (i, g) in self.gates.iter().enumerate() {
            if vals[g.0] * &vals[g.1] != vals[g.2] {
                return Some(format!(
                    "gate {}{}",
                    i,
                    self.gate_path.get(i).map(|p| format!(" at {}", p)).unwrap_or_default()
                ));
            }
        }
        for (i, l) in self.lcs.iter().enumerate() {
            if self.eval(l, vals) != F::zero() {
                return Some(format!(
                    "linear constraint {}{}",
                    i,
                    self.lc_path.get(i).map(|p| format!(" at {}", p)).unwrap_or_default()
                ));
            }
        }
        None
    }
    pub fn ok(&self) -> Option<String> {
        self.violated(&self.vals)
    }
    pub fn var(&self, v: Variable) -> F {
        self.vals[Self::idx(v)]
    }
}

impl<FF: Field> ConstraintSystem<FF> for Rec<FF> {
    type Root = Self;
    const ONE: Variable = Variable::A(0);

    fn alloc<F, A, AR>(&mut self, _a: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        Ok(wire(self.push(value(), Kind::Alloc)?))
    }
    fn alloc_input<F, A, AR>(&mut self, _a: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let i = self.push(value(), Kind::Input)?;
        self.inputs.push(i);
        Ok(wire(i))
    }
    fn enforce_zero(&mut self, lc: LinearCombination<FF>) {
        self.lcs.push(
            lc.as_ref()
                .iter()
                .map(|(v, c)| (Self::idx(*v), c.value()))
                .collect(),
        );
        if self.keep_paths {
            self.lc_path.push(self.ns.join("/"));
        }
    }
    fn multiply<F, A, AR>(
        &mut self,
        _a: A,
        values: F,
    ) -> Result<(Variable, Variable, Variable), SynthesisError>
    where
        F: FnOnce() -> Result<(FF, FF, FF), SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let (a, b, c) = match values() {
            Ok(v) => v,
            Err(SynthesisError::AssignmentMissing) => {
                self.missing = true;
                (FF::zero(), FF::zero(), FF::zero())
            }
            Err(e) => return Err(e),
        };
        let a = self.push(Ok(a), Kind::GateA)?;
        let b = self.push(Ok(b), Kind::GateB)?;
        let c = self.push(Ok(c), Kind::GateC)?;
        self.gates.push((a, b, c));
        if self.keep_paths {
            self.gate_path.push(self.ns.join("/"));
        }
        Ok((wire(a), wire(b), wire(c)))
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.ns_opened += 1;
        self.depth_now += 1;
        if self.keep_paths {
            self.ns.push(name_fn().into());
        }
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        self.depth_now -= 1;
        if self.keep_paths {
            self.ns.pop();
        }
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}

/// A constraint system that only judges: every constraint is evaluated as it arrives and
/// nothing but the assignment is kept. The structure (which variables, which
/// coefficients) is folded into a digest.
pub struct Judge<F: Field> {
    pub vals: Vec<F>,
    pub gates: u64,
    pub lcs: u64,
    pub inputs: Vec<usize>,
    pub broken: u64,
    pub first: Option<String>,
    pub paths: bool,
    ns: Vec<String>,
    pub digest: u64,
    pub missing: bool,
}
impl<F: Field> Judge<F> {
    pub fn new() -> Self {
        Judge { vals: vec![F::one()], gates: 0, lcs: 0, inputs: vec![], broken: 0, first: None, paths: false, ns: vec![], digest: 7, missing: false }
    }
    fn mix(&mut self, v: u64) {
        self.digest = (self.digest ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
    fn fail(&mut self, what: &str) {
        self.broken += 1;
        if self.first.is_none() {
            self.first = Some(format!("{} {}", what, self.ns.join("/")));
        }
    }
    fn push(&mut self, v: Result<F, SynthesisError>) -> Result<usize, SynthesisError> {
        let v = match v {
            Ok(v) => v,
            Err(SynthesisError::AssignmentMissing) => {
                self.missing = true;
                F::zero()
            }
            Err(e) => return Err(e),
        };
        self.vals.push(v);
        Ok(self.vals.len() - 1)
    }
    pub fn input_values(&self) -> Vec<F> {
        self.inputs.iter().map(|i| self.vals[*i]).collect()
    }
}
impl<FF: Field> ConstraintSystem<FF> for Judge<FF> {
    type Root = Self;
    const ONE: Variable = Variable::A(0);
    fn alloc<F, A, AR>(&mut self, _a: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.mix(1);
        Ok(wire(self.push(value())?))
    }
    fn alloc_input<F, A, AR>(&mut self, _a: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.mix(2);
        let i = self.push(value())?;
        self.inputs.push(i);
        Ok(wire(i))
    }
    fn enforce_zero(&mut self, lc: LinearCombination<FF>) {
        self.mix(3);
        self.lcs += 1;
        let mut acc = FF::zero();
        for (v, c) in lc.as_ref() {
            let c = c.value();
            let i = Rec::<FF>::idx(*v);
            acc = acc + &(self.vals[i] * &c);
            let b = c.get_lower_128() as u64;
            self.mix(i as u64);
            self.mix(b as u64);
        }
        if acc != FF::zero() && !self.missing {
            self.fail("linear constraint in");
        }
    }
    fn multiply<F, A, AR>(&mut self, _a: A, values: F) -> Result<(Variable, Variable, Variable), SynthesisError>
    where
        F: FnOnce() -> Result<(FF, FF, FF), SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.mix(4);
        self.gates += 1;
        let (a, b, c) = match values() {
            Ok(v) => v,
            Err(SynthesisError::AssignmentMissing) => {
                self.missing = true;
                (FF::zero(), FF::zero(), FF::zero())
            }
            Err(e) => return Err(e),
        };
        if a * &b != c {
            self.fail("gate in");
        }
        let a = self.push(Ok(a))?;
        let b = self.push(Ok(b))?;
        let c = self.push(Ok(c))?;
        Ok((wire(a), wire(b), wire(c)))
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if self.paths {
            self.ns.push(name_fn().into());
        }
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        if self.paths {
            self.ns.pop();
        }
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
