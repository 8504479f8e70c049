//! Adversarial re-solver: given a recorded constraint system with an assignment, fix
//! the inputs, give some variable another value and try to repair every constraint it
//! breaks by changing further free variables. A returned assignment is a concrete,
//! fully satisfying witness; nothing is ever reported on a heuristic basis.
use crate::r1cs::*;
use crate::rng::Rng;
use halo::Field;
use std::collections::VecDeque;

#[derive(Clone, Copy)]
enum C {
    G(u32),
    L(u32),
}

type Mv<F> = (usize, C, F);

pub struct Forger<'a, F: Field> {
    pub rec: &'a Rec<F>,
    by_var: Vec<Vec<C>>,
}

pub struct Budget {
    pub steps: usize,
    pub branches: usize,
}

struct St<F> {
    vals: Vec<F>,
    locked: Vec<bool>,
    trail: Vec<(usize, F, bool)>,
    steps: usize,
    branches: usize,
    loose: bool,
}

impl<'a, F: Field> Forger<'a, F> {
    pub fn new(rec: &'a Rec<F>) -> Self {
        let mut by_var = vec![vec![]; rec.vals.len()];
        for (i, g) in rec.gates.iter().enumerate() {
            by_var[g.0].push(C::G(i as u32));
            by_var[g.1].push(C::G(i as u32));
            by_var[g.2].push(C::G(i as u32));
        }
        for (i, l) in rec.lcs.iter().enumerate() {
            for (v, c) in l {
                if *c != F::zero() {
                    by_var[*v].push(C::L(i as u32));
                }
            }
        }
        Forger { rec, by_var }
    }

    fn holds(&self, c: C, v: &[F]) -> bool {
        match c {
            C::G(i) => {
                let g = self.rec.gates[i as usize];
                v[g.0] * &v[g.1] == v[g.2]
            }
            C::L(i) => self.rec.eval(&self.rec.lcs[i as usize], v) == F::zero(),
        }
    }

    /// Moves that would repair a violated constraint: (variable, coefficient of it in
    /// a linear constraint).
    fn moves(&self, c: C, st: &St<F>) -> Vec<Mv<F>> {
        let v = &st.vals;
        let mut out = vec![];
        match c {
            C::G(i) => {
                let (a, b, cc) = self.rec.gates[i as usize];
                if !st.locked[cc] {
                    out.push((cc, c, F::one()));
                }
                if !st.locked[a] && v[b] != F::zero() {
                    out.push((a, c, F::one()));
                }
                if !st.locked[b] && v[a] != F::zero() {
                    out.push((b, c, F::one()));
                }
            }
            C::L(i) => {
                let lc = &self.rec.lcs[i as usize];
                let mut seen: Vec<usize> = vec![];
                for (x, _) in lc {
                    if st.locked[*x] || seen.contains(x) {
                        continue;
                    }
                    seen.push(*x);
                    let mut k = F::zero();
                    for (y, d) in lc {
                        if y == x {
                            k = k + d;
                        }
                    }
                    if k != F::zero() {
                        out.push((*x, c, k));
                    }
                    if seen.len() > 64 {
                        break;
                    }
                }
            }
        }
        out
    }

    /// Value the move gives its variable.
    fn value(&self, m: &Mv<F>, v: &[F]) -> F {
        match m.1 {
            C::G(i) => {
                let (a, b, cc) = self.rec.gates[i as usize];
                if m.0 == cc {
                    v[a] * &v[b]
                } else if m.0 == a {
                    v[cc] * &v[b].invert().unwrap()
                } else {
                    v[cc] * &v[a].invert().unwrap()
                }
            }
            C::L(i) => {
                let sum = self.rec.eval(&self.rec.lcs[i as usize], v);
                let d = if m.2 == F::one() {
                    sum
                } else if m.2 == -F::one() {
                    -sum
                } else {
                    sum * &m.2.invert().unwrap()
                };
                v[m.0] - &d
            }
        }
    }

    fn apply(&self, st: &mut St<F>, m: &Mv<F>, q: &mut VecDeque<C>) {
        let val = self.value(m, &st.vals);
        self.set(st, m.0, val, q)
    }

    fn set(&self, st: &mut St<F>, x: usize, val: F, q: &mut VecDeque<C>) {
        st.trail.push((x, st.vals[x], st.locked[x]));
        st.vals[x] = val;
        st.locked[x] = true;
        st.steps += 1;
        for c in &self.by_var[x] {
            q.push_back(*c);
        }
    }

    fn undo(&self, st: &mut St<F>, mark: usize) {
        while st.trail.len() > mark {
            let (x, v, l) = st.trail.pop().unwrap();
            st.vals[x] = v;
            st.locked[x] = l;
        }
    }

    fn solve(&self, st: &mut St<F>, mut q: VecDeque<C>, mut pending: Vec<C>, b: &Budget, r: &mut Rng) -> bool {
        let mark = st.trail.len();
        loop {
            while let Some(c) = q.pop_front() {
                if st.steps > b.steps {
                    self.undo(st, mark);
                    return false;
                }
                if self.holds(c, &st.vals) {
                    continue;
                }
                let m = self.moves(c, st);
                match m.len() {
                    0 => {
                        self.undo(st, mark);
                        return false;
                    }
                    1 => self.apply(st, &m[0], &mut q),
                    _ => pending.push(c),
                }
            }
            // re-examine what was left open
            let mut best: Option<(usize, Vec<Mv<F>>)> = None;
            let mut open = vec![];
            let mut forced = None;
            for c in pending.drain(..) {
                if self.holds(c, &st.vals) {
                    continue;
                }
                let m = self.moves(c, st);
                match m.len() {
                    0 => {
                        self.undo(st, mark);
                        return false;
                    }
                    1 if forced.is_none() => {
                        forced = Some(m[0]);
                    }
                    n => {
                        if best.as_ref().map(|b| n < b.1.len()).unwrap_or(true) {
                            best = Some((open.len(), m));
                        }
                        open.push(c);
                    }
                }
            }
            if let Some(m) = forced {
                pending = open;
                self.apply(st, &m, &mut q);
                continue;
            }
            let (_, mut m) = match best {
                None => return true,
                Some(b) => b,
            };
            if st.branches >= b.branches {
                self.undo(st, mark);
                return false;
            }
            st.branches += 1;
            // prefer later variables: values flow forward
            m.sort_by(|a, b| b.0.cmp(&a.0));
            if st.loose {
                // whatever the fewest constraints hold on to
                m.sort_by_key(|m| self.by_var[m.0].len());
            } else if r.one_in(3) {
                r.shuffle(&mut m);
            }
            let inner = st.trail.len();
            for m in m.into_iter().take(4) {
                let mut q2 = VecDeque::new();
                self.apply(st, &m, &mut q2);
                if self.solve(st, q2, open.clone(), b, r) {
                    return true;
                }
                self.undo(st, inner);
                if st.steps > b.steps || st.branches >= b.branches {
                    break;
                }
            }
            self.undo(st, mark);
            return false;
        }
    }

    /// Deviate `devs` from `base`, keeping `fixed` variables, and try to repair.
    pub fn attempt(
        &self,
        base: &[F],
        fixed: &[usize],
        devs: &[(usize, F)],
        b: &Budget,
        r: &mut Rng,
    ) -> Option<Vec<F>> {
        let mut st = St {
            vals: base.to_vec(),
            locked: vec![false; base.len()],
            trail: vec![],
            steps: 0,
            branches: 0,
            loose: r.one_in(3),
        };
        st.locked[0] = true;
        for f in fixed {
            st.locked[*f] = true;
        }
        let mut q = VecDeque::new();
        for (x, v) in devs {
            self.set(&mut st, *x, *v, &mut q);
        }
        if self.solve(&mut st, q, vec![], b, r) {
            if self.rec.violated(&st.vals).is_none() {
                return Some(st.vals);
            }
        }
        None
    }

    /// Start from an assignment that may violate constraints (e.g. a claimed output was
    /// overwritten) and try to repair all of them.
    pub fn repair(&self, base: &[F], fixed: &[usize], b: &Budget, r: &mut Rng) -> Option<Vec<F>> {
        let mut st = St {
            vals: base.to_vec(),
            locked: vec![false; base.len()],
            trail: vec![],
            steps: 0,
            branches: 0,
            loose: r.one_in(3),
        };
        st.locked[0] = true;
        for f in fixed {
            st.locked[*f] = true;
        }
        let mut q = VecDeque::new();
        for i in 0..self.rec.gates.len() {
            q.push_back(C::G(i as u32));
        }
        for i in 0..self.rec.lcs.len() {
            q.push_back(C::L(i as u32));
        }
        if self.solve(&mut st, q, vec![], b, r) && self.rec.violated(&st.vals).is_none() {
            return Some(st.vals);
        }
        None
    }
}

pub struct Outcome {
    pub deviations: u64,
    pub repaired: u64,
    pub forged: Option<String>,
}

/// Try to find a satisfying assignment with the same `fixed` inputs for which
/// `wrong(vals)` describes a false statement. Deviates every non-fixed variable (or a
/// sample of `max` of them) to several values.
pub fn attack<F: Field>(
    rec: &Rec<F>,
    fixed: &[usize],
    prefer: &[usize],
    max: usize,
    r: &mut Rng,
    values: &dyn Fn(&mut Rng, F) -> Vec<F>,
    wrong: &dyn Fn(&[F]) -> Option<String>,
) -> Outcome {
    let f = Forger::new(rec);
    let mut out = Outcome {
        deviations: 0,
        repaired: 0,
        forged: None,
    };
    let isfixed: std::collections::HashSet<usize> = fixed.iter().cloned().collect();
    let mut vars: Vec<usize> = (1..rec.vals.len()).filter(|i| !isfixed.contains(i)).collect();
    r.shuffle(&mut vars);
    vars.truncate(max);
    let mut order: Vec<usize> = prefer.iter().cloned().filter(|i| !isfixed.contains(i)).collect();
    order.extend(vars);
    let b = Budget {
        steps: 4000 + rec.vals.len() / 4,
        branches: 24,
    };
    for x in order {
        for v in values(r, rec.vals[x]) {
            if v == rec.vals[x] {
                continue;
            }
            out.deviations += 1;
            if let Some(vals) = f.attempt(&rec.vals, fixed, &[(x, v)], &b, r) {
                out.repaired += 1;
                if let Some(w) = wrong(&vals) {
                    let mut diff = vec![];
                    for i in 0..vals.len() {
                        if vals[i] != rec.vals[i] && diff.len() < 6 {
                            diff.push(format!("v{}: {:?} -> {:?}", i, rec.vals[i], vals[i]));
                        }
                    }
                    out.forged = Some(format!(
                        "{} (satisfying assignment; changed {})",
                        w,
                        diff.join(", ")
                    ));
                    return out;
                }
            }
        }
    }
    out
}

/// Default deviation values: neighbours, negation, bit flips, random.
pub fn dev_values<F: crate::field::PF>(r: &mut Rng, v: F) -> Vec<F> {
    let mut o = vec![F::one() - &v, -v, crate::field::rand_f::<F>(r)];
    if r.bool() {
        o.push(v + &F::one());
    }
    if r.bool() {
        o.push(F::zero());
    }
    o
}

/// Take a satisfying assignment made for other inputs, put the fixed inputs back and try
/// to repair: whatever is not tied to the inputs keeps the other history's values.
pub fn transplant<F: Field>(
    f: &Forger<F>,
    fixed: &[usize],
    other: &[F],
    r: &mut Rng,
    wrong: &dyn Fn(&[F]) -> Option<String>,
) -> Option<String> {
    let mut base = other.to_vec();
    for x in fixed {
        base[*x] = f.rec.vals[*x];
    }
    let b = Budget {
        steps: 4000 + base.len(),
        branches: 24,
    };
    let vals = if f.rec.violated(&base).is_none() {
        base
    } else {
        f.repair(&base, fixed, &b, r)?
    };
    wrong(&vals).map(|w| format!("{} (satisfying assignment spliced from another history)", w))
}
