//! S01: what the basic driver hands to the backend against the circuit as written.
use halo::*;
use hv::circ::*;
use hv::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum W {
    A(usize),
    B(usize),
    C(usize),
}
fn w(v: Variable) -> W {
    match v {
        Variable::A(i) => W::A(i),
        Variable::B(i) => W::B(i),
        Variable::C(i) => W::C(i),
    }
}

struct Mon<F: Field> {
    gates: usize,
    vals: HashMap<W, F>,
    lcs: Vec<Vec<(W, F)>>,
    kpow: Vec<(usize, Option<F>)>,
    ns: Vec<String>,
    depth: i64,
    underflow: bool,
    bad_var: Option<String>,
    values: bool,
    blank_errors: bool,
}
impl<F: Field> Mon<F> {
    fn new(values: bool) -> Self {
        Mon {
            gates: 0,
            vals: HashMap::new(),
            lcs: vec![],
            kpow: vec![],
            ns: vec![],
            depth: 0,
            underflow: false,
            bad_var: None,
            values,
            blank_errors: false,
        }
    }
    fn known(&mut self, v: W, what: &str) {
        let i = match v {
            W::A(i) | W::B(i) | W::C(i) => i,
        };
        if i == 0 || i > self.gates {
            self.bad_var = Some(format!("{} of {:?} while {} gates exist", what, v, self.gates));
        }
    }
}
impl<'a, F: Field> Backend<F> for &'a mut Mon<F> {
    type LinearConstraintIndex = usize;
    fn get_var(&self, v: Variable) -> Option<F> {
        self.vals.get(&w(v)).cloned()
    }
    fn set_var<FF, A, AR>(&mut self, _a: Option<A>, v: Variable, value: FF) -> Result<(), SynthesisError>
    where
        FF: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.known(w(v), "assignment");
        if self.values {
            let x = match value() {
                Ok(x) => x,
                Err(e) => {
                    self.blank_errors = true;
                    return Err(e);
                }
            };
            if let Some(old) = self.vals.insert(w(v), x) {
                if old != x {
                    self.bad_var = Some(format!("{:?} assigned two values", w(v)));
                }
            }
        }
        Ok(())
    }
    fn new_multiplication_gate<A, AR>(&mut self, _a: Option<A>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.gates += 1;
    }
    fn new_linear_constraint<A, AR>(&mut self, _a: A) -> usize
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.lcs.push(vec![]);
        self.lcs.len() - 1
    }
    fn insert_coefficient(&mut self, v: Variable, c: Coeff<F>, y: &usize) {
        self.known(w(v), "coefficient");
        self.lcs[*y].push((w(v), cval(&c)));
    }
    fn get_for_q(&self, q: usize) -> usize {
        q - 1
    }
    fn new_k_power(&mut self, index: usize, value: Option<F>) -> Result<(), SynthesisError> {
        self.kpow.push((index, value));
        Ok(())
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.depth += 1;
        self.ns.push(n().into());
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        self.depth -= 1;
        self.underflow |= self.depth < 0;
        self.ns.push("<pop>".into());
    }
}

type Form = BTreeMap<W, U>;
fn form<F: PF>(it: impl Iterator<Item = (W, F)>) -> Form {
    let mut m: BTreeMap<W, F> = BTreeMap::new();
    for (v, c) in it {
        let e = m.entry(v).or_insert(F::zero());
        *e = *e + &c;
    }
    m.iter().filter(|x| *x.1 != F::zero()).map(|x| (*x.0, u_of(x.1))).collect()
}

/// Structural comparison; returns the wires of each program variable.
fn structure<F: PF>(ctx: &Ctx, p: &Prog<F>, m: &Mon<F>, vars: &[(usize, Variable)], info: &dyn Fn() -> String) -> Option<Vec<W>> {
    let map: Vec<W> = vars.iter().map(|x| w(x.1)).collect();
    let bad = |s: &str, d: String| {
        ctx.violation(s, format!("{}: {}", d, info()));
        None
    };
    if let Some(b) = &m.bad_var {
        return bad("wire out of range", b.clone());
    }
    if map.len() != p.vals.len() {
        return bad("variables lost", format!("{} of {} variables returned", map.len(), p.vals.len()));
    }
    if map.iter().collect::<BTreeSet<_>>().len() != map.len() {
        return bad("two variables on one wire", format!("{:?}", map));
    }
    if map[0] != W::A(1) {
        return bad("one wire", format!("ONE is {:?}", map[0]));
    }
    // gates
    let mut gate_ids: BTreeMap<usize, usize> = BTreeMap::new();
    let mut n_alloc = 1;
    for (i, o) in p.ops.iter().enumerate() {
        match o {
            Op::Gate(a, b, c) => {
                let g = match (map[*a], map[*b], map[*c]) {
                    (W::A(x), W::B(y), W::C(z)) if x == y && y == z => x,
                    t => return bad("gate wires", format!("operation {}: {:?}", i, t)),
                };
                if gate_ids.insert(g, i).is_some() {
                    return bad("gate shared", format!("gate {}", g));
                }
            }
            Op::Alloc(_) | Op::Input(_) => n_alloc += 1,
            _ => {}
        }
    }
    // allocated variables live on A or B wires of gates that constrain nothing else
    for (i, o) in p.ops.iter().enumerate() {
        if let Op::Alloc(v) | Op::Input(v) = o {
            match map[*v] {
                W::A(g) | W::B(g) => {
                    if gate_ids.contains_key(&g) {
                        return bad("allocation on a constrained gate", format!("operation {}", i));
                    }
                }
                W::C(_) => return bad("allocation on a product wire", format!("operation {}", i)),
            }
        }
    }
    if m.gates < gate_ids.len() + (n_alloc + 1) / 2 {
        return bad("gates missing", format!("{}", m.gates));
    }
    // public inputs: one wire first, then in order, each with its own line
    let mut want_inputs = vec![0usize];
    want_inputs.extend(p.ops.iter().filter_map(|o| if let Op::Input(v) = o { Some(*v) } else { None }));
    if m.kpow.len() != want_inputs.len() {
        return bad("input count", format!("{} powers for {} inputs", m.kpow.len(), want_inputs.len()));
    }
    if m.kpow[0].0 != 1 {
        return bad("one wire power", format!("{}", m.kpow[0].0));
    }
    let mut lines = BTreeSet::new();
    for (j, v) in want_inputs.iter().enumerate() {
        let (idx, val) = m.kpow[j];
        if idx == 0 || idx > m.lcs.len() {
            return bad("input power out of range", format!("input {} power {}", j, idx));
        }
        if !lines.insert(idx) {
            return bad("input power shared", format!("input {} power {}", j, idx));
        }
        let mut want = Form::new();
        want.insert(map[*v], U::ONE);
        let got = form(m.lcs[idx - 1].iter().cloned());
        if got != want {
            return bad("input line", format!("input {} power {} line {:?} want {:?}", j, idx, got, want));
        }
        let expect = if p.witness || j == 0 { Some(p.vals[*v]) } else { None };
        // the value of an input is only handed over when known
        if val.is_some() && val != expect || (val.is_none() && expect.is_some()) {
            return bad("input value", format!("input {} value {:?} want {:?}", j, val, expect));
        }
    }
    // the circuit's own linear constraints, as a multiset of linear forms
    let mut want: BTreeMap<Form, i64> = BTreeMap::new();
    for o in &p.ops {
        if let Op::Lin(l) = o {
            let f = form(l.iter().map(|(c, v)| (map[*v], cval(c))));
            if !f.is_empty() {
                *want.entry(f).or_insert(0) += 1;
            }
        }
    }
    for (i, l) in m.lcs.iter().enumerate() {
        if lines.contains(&(i + 1)) {
            continue;
        }
        let f = form(l.iter().cloned());
        if !f.is_empty() {
            match want.get_mut(&f) {
                Some(n) if *n > 0 => *n -= 1,
                _ => return bad("foreign linear constraint", format!("line {}: {:?}", i + 1, f)),
            }
        }
    }
    if let Some((f, _)) = want.iter().find(|x| *x.1 != 0) {
        return bad("linear constraint lost", format!("{:?}", f));
    }
    // namespaces
    let mut want_ns = vec![];
    let mut open = 0;
    for o in &p.ops {
        match o {
            Op::Push(n) => {
                open += 1;
                want_ns.push(n.clone())
            }
            Op::Pop => {
                open -= 1;
                want_ns.push("<pop>".into())
            }
            _ => {}
        }
    }
    assert_eq!(open, 0);
    if m.underflow || m.depth != 0 || m.ns != want_ns {
        return bad("namespaces", format!("{:?} want {:?}", m.ns, want_ns));
    }
    Some(map)
}

/// Violations in the recorded backend system under the recorded values.
fn backend_violations<F: PF>(m: &Mon<F>, inputs: &[F]) -> usize {
    let g = |x: W| m.vals.get(&x).cloned().unwrap_or(F::zero());
    let mut n = 0;
    for i in 1..=m.gates {
        if g(W::A(i)) * &g(W::B(i)) != g(W::C(i)) {
            n += 1;
        }
    }
    let mut k = vec![F::zero(); m.lcs.len()];
    for (j, (idx, _)) in m.kpow.iter().enumerate() {
        k[idx - 1] = if j == 0 { F::one() } else { inputs[j - 1] };
    }
    for (l, k) in m.lcs.iter().zip(k) {
        let mut acc = F::zero();
        for (v, c) in l {
            acc = acc + &(g(*v) * c);
        }
        if acc != k {
            n += 1;
        }
    }
    n
}

fn record<F: PF>(ctx: &Ctx, p: &Prog<F>, values: bool) -> Option<(Mon<F>, Vec<(usize, Variable)>, Result<(), SynthesisError>)> {
    ctx.total("synthesize", || {
        let mut m = Mon::new(values);
        let log = RefCell::new(vec![]);
        let res = Basic::synthesize(&mut m, &Synth { p, log: Some(&log) });
        let v = log.into_inner();
        (m, v, res)
    })
}

fn one<F: PF>(ctx: &Ctx, r: &mut Rng, shape: Shape) {
    let mut p = Prog::<F>::random(r, &shape);
    let info = |p: &Prog<F>| format!("{} {:?}", F::NAME, p.ops.iter().take(60).collect::<Vec<_>>());
    ctx.case(Some(hash_str(&format!("{:?}{:?}", p.ops, p.vals))));
    ctx.sample(|| info(&p));
    let (m, vars, res) = match record(ctx, &p, true) {
        Some(x) => x,
        None => return,
    };
    ctx.count("operations synthesised", p.ops.len() as u64);
    ctx.count("linear constraints recorded", m.lcs.len() as u64);
    if !ctx.check(res.is_ok(), "synthesis refused", || format!("{:?} {}", res, info(&p))) {
        return;
    }
    let map = match structure(ctx, &p, &m, &vars, &|| info(&p)) {
        Some(x) => x,
        None => return,
    };
    // values land on their wires
    for (i, x) in map.iter().enumerate() {
        if !ctx.check(m.vals.get(x) == Some(&p.vals[i]), "value", || {
            format!("variable {} on {:?}: {:?} want {:?}; {}", i, x, m.vals.get(x), p.vals[i], info(&p))
        }) {
            return;
        }
    }
    let v = backend_violations(&m, &p.inputs());
    ctx.check(v == 0, "satisfying assignment violates the backend system", || format!("{} {}", v, info(&p)));
    ctx.count("satisfying assignments", 1);
    // perturbed assignments: same verdict, and the same number of violated constraints
    let cons = p.constraints();
    for _ in 0..3 {
        let mut q = p.clone();
        if !cons.is_empty() && r.bool() {
            let at = match r.below(3) {
                0 => cons[0],
                1 => *cons.last().unwrap(),
                _ => *r.pick(&cons),
            };
            let mut d = hostile_f::<F>(r);
            if d == F::zero() {
                d = F::one();
            }
            // linear constraints gain a constant, gates a wrong product
            q.falsify(at, d);
        } else if p.vals.len() > 1 {
            let i = r.range(1, p.vals.len() - 1);
            q.vals[i] = hostile_f(r);
        }
        let (m2, vars2, res2) = match record(ctx, &q, true) {
            Some(x) => x,
            None => return,
        };
        if res2.is_err() {
            continue;
        }
        if structure(ctx, &q, &m2, &vars2, &|| info(&q)).is_none() {
            return;
        }
        let want = q.violated().len();
        let got = backend_violations(&m2, &q.inputs());
        ctx.count("perturbed assignments", 1);
        ctx.count("violated constraints seen", want as u64);
        ctx.check(got == want, "violations differ", || format!("backend {} circuit {:?} {}", got, q.violated(), info(&q)));
    }
    // without values the shape is the same
    for blank in [false, true] {
        if blank {
            p.witness = false;
        }
        if let Some((m3, vars3, res3)) = record(ctx, &p, false) {
            ctx.check(res3.is_ok(), "valueless synthesis refused", || format!("{:?} {}", res3, info(&p)));
            let same = m3.gates == m.gates
                && m3.lcs == m.lcs
                && vars3.iter().map(|x| w(x.1)).collect::<Vec<_>>() == map
                && m3.kpow.iter().map(|x| x.0).collect::<Vec<_>>() == m.kpow.iter().map(|x| x.0).collect::<Vec<_>>();
            ctx.check(same, "shape depends on the values", || info(&p));
            ctx.count("valueless runs", 1);
            if blank {
                structure(ctx, &p, &m3, &vars3, &|| info(&p));
            }
        }
    }
    // a missing witness is reported to a backend that asks for values
    let needs = p.ops.iter().any(|o| matches!(o, Op::Alloc(_) | Op::Input(_) | Op::Gate(..)));
    if needs {
        if let Some((m4, _, res4)) = record(ctx, &p, true) {
            ctx.check(m4.blank_errors && res4 == Err(SynthesisError::AssignmentMissing), "missing witness", || {
                format!("{:?} {}", res4, info(&p))
            });
        }
    }
}

fn main() {
    run(
        "S01",
        "one evaluation is one random circuit program; distinct programs are counted by operations, coefficients and values",
        75,
        600,
        |ctx| {
            // every small operation sequence over the four kinds
            let max = if ctx.quick() { 6 } else { 8 };
            let mut seqs: Vec<Vec<u8>> = vec![vec![]];
            let mut lo = 0;
            for _ in 0..max {
                let hi = seqs.len();
                for i in lo..hi {
                    for k in 0..4u8 {
                        let mut s = seqs[i].clone();
                        s.push(k);
                        seqs.push(s);
                    }
                }
                lo = hi;
            }
            ctx.count("exhaustive operation orders", seqs.len() as u64);
            ctx.par("orders", seqs.len(), |i, r| {
                let mut p = Prog::<Fq>::empty();
                for k in &seqs[i] {
                    match k {
                        0 => {
                            let v = p.push(rand_f(r));
                            p.ops.push(Op::Alloc(v));
                        }
                        1 => {
                            let v = p.push(rand_f(r));
                            p.ops.push(Op::Input(v));
                        }
                        2 => {
                            let (a, b) = (rand_f::<Fq>(r), rand_f::<Fq>(r));
                            let a = p.push(a);
                            let b = p.push(b);
                            let c = p.push(p.vals[a] * &p.vals[b]);
                            p.ops.push(Op::Gate(a, b, c));
                        }
                        _ => {
                            let mut l = p.rand_lc(r);
                            let e = p.eval(&l);
                            l.push((Coeff::Full(-e), 0));
                            p.ops.push(Op::Lin(l));
                        }
                    }
                }
                ctx.case(Some(hash_str(&format!("{:?}", seqs[i]))));
                if let Some((m, vars, res)) = record(ctx, &p, true) {
                    let info = || format!("order {:?}", seqs[i]);
                    if ctx.check(res.is_ok(), "synthesis refused", info) {
                        structure(ctx, &p, &m, &vars, &info);
                        let v = backend_violations(&m, &p.inputs());
                        ctx.check(v == 0, "satisfying assignment violates the backend system", info);
                    }
                }
            });
            ctx.par("random", ctx.scale(30000, 400000), |i, r| {
                let shape = Shape {
                    ops: if i % 50 == 0 { 400 } else { r.below(40) },
                    max_gates: 10000,
                    max_lcs: 10000,
                    inputs: if i % 100 == 0 { r.below(400) } else { r.below(8) },
                    namespaces: true,
                };
                if i % 2 == 0 {
                    one::<Fp>(ctx, r, shape)
                } else {
                    one::<Fq>(ctx, r, shape)
                }
            });
        },
    )
}
