//! Exact resolver for recorded constraint systems: fix some variables and enumerate
//! every satisfying assignment of the rest by substitution, linear elimination and
//! case splits that lose no solution (products that are zero, quadratics in one linear
//! form). Only when none of these applies is a value guessed; the result then says so.
use crate::field::*;
use crate::r1cs::*;
use crate::rng::Rng;

type Form<F> = (Vec<(u32, F)>, F);

fn is0<F: PF>(f: &F) -> bool {
    *f == F::zero()
}
fn add_scaled<F: PF>(a: &Form<F>, b: &Form<F>, k: F) -> Form<F> {
    if is0(&k) {
        return a.clone();
    }
    let mut out = Vec::with_capacity(a.0.len() + b.0.len());
    let (mut i, mut j) = (0, 0);
    while i < a.0.len() || j < b.0.len() {
        if j >= b.0.len() || (i < a.0.len() && a.0[i].0 < b.0[j].0) {
            out.push(a.0[i]);
            i += 1;
        } else if i >= a.0.len() || b.0[j].0 < a.0[i].0 {
            out.push((b.0[j].0, b.0[j].1 * &k));
            j += 1;
        } else {
            let c = a.0[i].1 + &(b.0[j].1 * &k);
            if !is0(&c) {
                out.push((a.0[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    (out, a.1 + &(b.1 * &k))
}
fn scale<F: PF>(a: &Form<F>, k: F) -> Form<F> {
    if is0(&k) {
        return (vec![], F::zero());
    }
    (a.0.iter().map(|(v, c)| (*v, *c * &k)).collect(), a.1 * &k)
}
/// k with a = k*b + m as forms (linear parts proportional)
fn proportional<F: PF>(a: &Form<F>, b: &Form<F>) -> Option<F> {
    if a.0.is_empty() {
        return Some(F::zero());
    }
    if a.0.len() != b.0.len() {
        return None;
    }
    let k = a.0[0].1 * &b.0[0].1.invert().unwrap();
    for (x, y) in a.0.iter().zip(&b.0) {
        if x.0 != y.0 || x.1 != y.1 * &k {
            return None;
        }
    }
    Some(k)
}

#[derive(Clone)]
struct St<F: PF> {
    form: Vec<Form<F>>,
    gates: Vec<(u32, u32, u32)>,
    eqs: Vec<Form<F>>,
}

pub struct Exact {
    /// every satisfying assignment is covered by what was examined
    pub complete: bool,
    /// solution families found
    pub families: u64,
    pub nodes: u64,
    pub wrong: Option<String>,
    /// variables that were left after propagating the fixed values
    pub open: usize,
}

struct Solver<'a, F: PF> {
    rec: &'a Rec<F>,
    known: Vec<Option<F>>,
    open: Vec<usize>,
    budget: u64,
    out: Exact,
    wrong: &'a dyn Fn(&[F]) -> Option<String>,
}

/// Classes of variables forced to be equal by constraints of the form x - y = 0.
fn classes<F: PF>(rec: &Rec<F>) -> Vec<usize> {
    let n = rec.vals.len();
    let mut up: Vec<usize> = (0..n).collect();
    fn find(up: &mut Vec<usize>, mut x: usize) -> usize {
        while up[x] != x {
            up[x] = up[up[x]];
            x = up[x];
        }
        x
    }
    for l in &rec.lcs {
        if l.len() == 2 && l[0].0 != l[1].0 && !is0(&l[0].1) && l[0].1 == -l[1].1 {
            let (a, b) = (find(&mut up, l[0].0), find(&mut up, l[1].0));
            up[a] = b;
        }
    }
    (0..n).map(|i| find(&mut up, i)).collect()
}

/// Variables that can only be 0 or 1: operand of a gate whose three wires are equal.
pub fn bit_vars<F: PF>(rec: &Rec<F>) -> Vec<bool> {
    let c = classes(rec);
    let mut cls = vec![false; c.len()];
    for g in &rec.gates {
        if c[g.0] == c[g.1] && c[g.0] == c[g.2] {
            cls[c[g.0]] = true;
        }
    }
    c.iter().map(|i| cls[*i]).collect()
}

/// Pairs (x, y) with y = x^5 forced through x^2 and x^4.
fn fifth_powers<F: PF>(rec: &Rec<F>) -> Vec<(usize, usize)> {
    let c = classes(rec);
    let mut sq: std::collections::HashMap<usize, Vec<usize>> = Default::default();
    for g in &rec.gates {
        if c[g.0] == c[g.1] {
            sq.entry(c[g.0]).or_default().push(c[g.2]);
        }
    }
    let mut out = vec![];
    for g in &rec.gates {
        for (d, x) in &[(g.0, g.1), (g.1, g.0)] {
            for x2 in sq.get(&c[*x]).into_iter().flatten() {
                if sq.get(x2).map(|v| v.contains(&c[*d])).unwrap_or(false) {
                    out.push((*x, g.2));
                }
            }
        }
    }
    out
}

struct Prop<'a, F: PF> {
    rec: &'a Rec<F>,
    by: Vec<Vec<u32>>,
    unknown: Vec<u32>,
    queue: Vec<u32>,
    bits: Vec<bool>,
    fifth: Vec<(usize, usize)>,
    pow2: std::collections::HashMap<[u8; 32], u32>,
    half: Vec<F>,
}

impl<'a, F: PF> Prop<'a, F> {
    fn new(rec: &'a Rec<F>, known: &[Option<F>]) -> Self {
        let ng = rec.gates.len();
        let mut by: Vec<Vec<u32>> = vec![vec![]; rec.vals.len()];
        let mut unknown = vec![0u32; ng + rec.lcs.len()];
        for (i, g) in rec.gates.iter().enumerate() {
            for x in &[g.0, g.1, g.2] {
                by[*x].push(i as u32);
            }
        }
        for (i, l) in rec.lcs.iter().enumerate() {
            for (v, _) in l {
                by[*v].push((ng + i) as u32);
                if known[*v].is_none() {
                    unknown[ng + i] += 1;
                }
            }
        }
        let queue: Vec<u32> = (0..unknown.len() as u32).rev().collect();
        let mut pow2 = std::collections::HashMap::new();
        let mut half = vec![];
        let mut c = F::one();
        for i in 0..254 {
            pow2.insert(c.to_bytes(), i);
            half.push(c);
            c = c + &c;
        }
        Prop {
            rec,
            by,
            unknown,
            queue,
            bits: bit_vars(rec),
            fifth: fifth_powers(rec),
            pow2,
            half,
        }
    }

    fn set(&mut self, known: &mut [Option<F>], v: usize, x: F) {
        if known[v].is_some() {
            return;
        }
        known[v] = Some(x);
        let ng = self.rec.gates.len();
        for i in 0..self.by[v].len() {
            let c = self.by[v][i];
            if (c as usize) < ng {
                self.queue.push(c);
            } else {
                let u = &mut self.unknown[c as usize];
                *u -= 1;
                if *u <= 1 {
                    self.queue.push(c);
                }
            }
        }
    }

    fn simple(&mut self, known: &mut Vec<Option<F>>) -> bool {
        let ng = self.rec.gates.len();
        while let Some(c) = self.queue.pop() {
            let mut set: Option<(usize, F)> = None;
            if (c as usize) < ng {
                let (a, b, d) = self.rec.gates[c as usize];
                match (known[a], known[b], known[d]) {
                    (Some(x), Some(y), Some(z)) => {
                        if x * &y != z {
                            return false;
                        }
                    }
                    (Some(x), Some(y), None) => set = Some((d, x * &y)),
                    (Some(x), None, _) if is0(&x) && known[d].is_none() => set = Some((d, F::zero())),
                    (None, Some(x), _) if is0(&x) && known[d].is_none() => set = Some((d, F::zero())),
                    (Some(x), None, Some(z)) if a != b && b != d => {
                        if is0(&x) {
                            if !is0(&z) {
                                return false;
                            }
                        } else {
                            set = Some((b, z * &x.invert().unwrap()));
                        }
                    }
                    (None, Some(y), Some(z)) if a != b && a != d => {
                        if is0(&y) {
                            if !is0(&z) {
                                return false;
                            }
                        } else {
                            set = Some((a, z * &y.invert().unwrap()));
                        }
                    }
                    _ => {}
                }
            } else {
                if self.unknown[c as usize] > 64 {
                    continue;
                }
                let l = &self.rec.lcs[c as usize - ng];
                let mut sum = F::zero();
                let mut unk: Option<(usize, F)> = None;
                let mut many = false;
                for (v, k) in l {
                    match known[*v] {
                        Some(x) => sum = sum + &(x * k),
                        None => match unk {
                            None => unk = Some((*v, *k)),
                            Some((w, q)) if w == *v => unk = Some((w, q + k)),
                            _ => {
                                many = true;
                                break;
                            }
                        },
                    }
                }
                if !many {
                    match unk {
                        Some((v, k)) if !is0(&k) => set = Some((v, -(sum * &k.invert().unwrap()))),
                        _ => {
                            if !is0(&sum) {
                                return false;
                            }
                        }
                    }
                }
            }
            if let Some((v, x)) = set {
                self.set(known, v, x);
            }
        }
        true
    }

    /// A linear constraint whose unknowns are all bits with distinct powers of two as
    /// coefficients (up to one common factor) has at most one solution while the powers
    /// sum to less than the modulus.
    fn decompose(&mut self, i: usize, known: &mut Vec<Option<F>>) -> Option<bool> {
        let ng = self.rec.gates.len();
        let n = self.unknown[ng + i];
        if n < 2 || n > 254 {
            return None;
        }
        let l = &self.rec.lcs[i];
        let mut unk: Vec<(usize, F)> = vec![];
        let mut sum = F::zero();
        for (v, k) in l {
            match known[*v] {
                Some(x) => sum = sum + &(x * k),
                None => {
                    if !self.bits[*v] {
                        return None;
                    }
                    unk.push((*v, *k));
                }
            }
        }
        for lead in &[unk[0].1, unk[unk.len() - 1].1] {
            if is0(lead) {
                return None;
            }
            let s = lead.invert().unwrap();
            let mut e: Vec<(u32, usize)> = vec![];
            for (v, k) in &unk {
                match self.pow2.get(&(*k * &s).to_bytes()) {
                    Some(x) => e.push((*x, *v)),
                    None => break,
                }
            }
            if e.len() != unk.len() {
                continue;
            }
            e.sort();
            if e.windows(2).any(|w| w[0].0 == w[1].0) {
                return None;
            }
            // all exponents <= 253, distinct: the total is below 2^254 <= p
            let mut t = u_of(&-(sum * &s));
            for (x, _) in &e {
                if t.bit(*x as usize) {
                    t = t.wsub(&u_of(&self.half[*x as usize]));
                }
            }
            if !t.is_zero() {
                return Some(false);
            }
            let t = u_of(&-(sum * &s));
            for (x, v) in e {
                self.set(known, v, if t.bit(x as usize) { F::one() } else { F::zero() });
            }
            return Some(true);
        }
        None
    }
}

/// Propagate values: everything forced by a constraint with a single unknown or by a
/// unique binary decomposition. False when no assignment exists at all.
pub fn propagate<F: PF>(rec: &Rec<F>, known: &mut Vec<Option<F>>) -> bool {
    let mut p = Prop::new(rec, known);
    loop {
        if !p.simple(known) {
            return false;
        }
        let mut progress = false;
        // x -> x^5 is a permutation of both fields, so a known fifth power fixes x
        for (x, y) in p.fifth.clone() {
            if let (None, Some(v)) = (known[x], known[y]) {
                let root = v.pow(&F::RESCUE_INVALPHA);
                if root.pow(&[5, 0, 0, 0]) == v {
                    p.set(known, x, root);
                    progress = true;
                    if !p.simple(known) {
                        return false;
                    }
                }
            }
        }
        for i in 0..rec.lcs.len() {
            match p.decompose(i, known) {
                Some(false) => return false,
                Some(true) => {
                    progress = true;
                    if !p.simple(known) {
                        return false;
                    }
                }
                None => {}
            }
        }
        if !progress {
            return true;
        }
    }
}

impl<'a, F: PF> Solver<'a, F> {
    /// Impose form = 0. False on contradiction.
    fn eliminate(st: &mut St<F>, f: &Form<F>) -> bool {
        if f.0.is_empty() {
            return is0(&f.1);
        }
        // eliminate the highest parameter: values flow forward
        let (p, c) = *f.0.last().unwrap();
        let k = -c.invert().unwrap();
        let sub: Form<F> = (
            f.0[..f.0.len() - 1].iter().map(|(v, d)| (*v, *d * &k)).collect(),
            f.1 * &k,
        );
        let fix = |g: &mut Form<F>| {
            if let Ok(i) = g.0.binary_search_by(|x| x.0.cmp(&p)) {
                let d = g.0[i].1;
                g.0.remove(i);
                *g = add_scaled(g, &sub, d);
            }
        };
        for g in st.form.iter_mut() {
            fix(g);
        }
        for g in st.eqs.iter_mut() {
            fix(g);
        }
        true
    }

    fn leaf(&mut self, st: &St<F>, r: &mut Rng) {
        self.out.families += 1;
        for round in 0..2 {
            let mut pv: Vec<F> = vec![];
            for x in &self.open {
                pv.push(if round == 0 { self.rec.vals[*x] } else { rand_f(r) });
            }
            let mut vals: Vec<F> = self.known.iter().map(|k| k.unwrap_or(F::zero())).collect();
            for (i, x) in self.open.iter().enumerate() {
                let f = &st.form[i];
                let mut s = f.1;
                for (p, c) in &f.0 {
                    s = s + &(pv[*p as usize] * c);
                }
                vals[*x] = s;
            }
            if self.rec.violated(&vals).is_some() {
                // cannot happen unless this solver is wrong; never trusted
                self.out.complete = false;
                continue;
            }
            if let Some(w) = (self.wrong)(&vals) {
                let mut diff = vec![];
                for i in 0..vals.len() {
                    if vals[i] != self.rec.vals[i] && diff.len() < 6 {
                        diff.push(format!("v{}: {:?} -> {:?}", i, self.rec.vals[i], vals[i]));
                    }
                }
                self.out.wrong = Some(format!("{} (satisfying assignment; changed {})", w, diff.join(", ")));
                return;
            }
            if st.form.iter().all(|f| f.0.is_empty()) {
                break;
            }
        }
    }

    fn go(&mut self, mut st: St<F>, r: &mut Rng, depth: usize) {
        self.out.nodes += 1;
        if self.out.wrong.is_some() {
            return;
        }
        if self.out.nodes > self.budget || depth > 300 {
            self.out.complete = false;
            return;
        }
        loop {
            while let Some(f) = st.eqs.pop() {
                if !Self::eliminate(&mut st, &f) {
                    return;
                }
            }
            // gates that have become linear
            let mut changed = false;
            let mut keep = Vec::with_capacity(st.gates.len());
            let gates = std::mem::take(&mut st.gates);
            for g in gates {
                let (a, b, c) = (&st.form[g.0 as usize], &st.form[g.1 as usize], &st.form[g.2 as usize]);
                if a.0.is_empty() {
                    let e = add_scaled(&scale(b, a.1), c, -F::one());
                    st.eqs.push(e);
                    changed = true;
                } else if b.0.is_empty() {
                    let e = add_scaled(&scale(a, b.1), c, -F::one());
                    st.eqs.push(e);
                    changed = true;
                } else {
                    keep.push(g);
                }
            }
            st.gates = keep;
            if !changed {
                break;
            }
        }
        if st.gates.is_empty() {
            return self.leaf(&st, r);
        }
        // case splits that lose nothing
        let mut guess: Option<usize> = None;
        for (i, g) in st.gates.iter().enumerate() {
            let (a, b, c) = (&st.form[g.0 as usize], &st.form[g.1 as usize], &st.form[g.2 as usize]);
            let mut split: Option<Vec<Form<F>>> = None;
            if c.0.is_empty() && is0(&c.1) {
                split = Some(vec![a.clone(), b.clone()]);
            } else if let (Some(k), Some(l)) = (proportional(a, b), proportional(c, b)) {
                // a = k b + m, c = l b + n:  k b^2 + (m - l) b - n = 0
                let m = a.1 - &(b.1 * &k);
                let n = c.1 - &(b.1 * &l);
                let p = m - &l;
                // k != 0
                let ik = k.invert().unwrap();
                let h = p * &ik * &F::from_u64(2).invert().unwrap();
                let disc = h * &h + &(n * &ik);
                let root = if is0(&disc) {
                    Some(F::zero())
                } else {
                    Option::<F>::from(disc.sqrt()).filter(|s| *s * s == disc)
                };
                let mut out = vec![];
                if let Some(s) = root {
                    out.push(add_scaled(b, &(vec![], s - &h), -F::one()));
                    if !is0(&s) {
                        out.push(add_scaled(b, &(vec![], -s - &h), -F::one()));
                    }
                }
                split = Some(out);
            }
            if let Some(cases) = split {
                let gi = i;
                for f in cases {
                    let mut s2 = st.clone();
                    s2.gates.remove(gi);
                    // the gate holds on this branch only if it is implied: keep it
                    s2.gates.push(*g);
                    s2.eqs.push(f);
                    self.go(s2, r, depth + 1);
                }
                return;
            }
            if guess.is_none() {
                guess = Some(i);
            }
        }
        // guess a value of the first parameter of the first open gate
        self.out.complete = false;
        let g = st.gates[guess.unwrap()];
        let p = {
            let a = &st.form[g.0 as usize];
            let b = &st.form[g.1 as usize];
            if r.bool() {
                a.0[0].0
            } else {
                b.0[0].0
            }
        };
        let honest = self.rec.vals[self.open[p as usize]];
        let mut vals = vec![honest, F::zero(), F::one(), -honest, rand_f(r)];
        if depth > 3 {
            vals.truncate(2);
        }
        if depth > 12 {
            vals.truncate(1);
        }
        for v in vals {
            let mut s2 = st.clone();
            s2.eqs.push((vec![(p, F::one())], -v));
            self.go(s2, r, depth + 1);
        }
    }
}

/// Fix `fixed` at their recorded values and examine every solution of the rest.
pub fn exact<F: PF>(
    rec: &Rec<F>,
    fixed: &[usize],
    extra: &[(usize, F)],
    budget: u64,
    max_open: usize,
    r: &mut Rng,
    wrong: &dyn Fn(&[F]) -> Option<String>,
) -> Exact {
    let mut known: Vec<Option<F>> = vec![None; rec.vals.len()];
    known[0] = Some(F::one());
    for f in fixed {
        known[*f] = Some(rec.vals[*f]);
    }
    for (x, v) in extra {
        known[*x] = Some(*v);
    }
    let mut out = Exact {
        complete: true,
        families: 0,
        nodes: 0,
        wrong: None,
        open: 0,
    };
    if !propagate(rec, &mut known) {
        return out;
    }
    let open: Vec<usize> = (0..rec.vals.len()).filter(|i| known[*i].is_none()).collect();
    out.open = open.len();
    if open.len() > max_open {
        out.complete = false;
        return out;
    }
    let mut pos = vec![u32::MAX; rec.vals.len()];
    for (i, x) in open.iter().enumerate() {
        pos[*x] = i as u32;
    }
    let mut form: Vec<Form<F>> = (0..open.len()).map(|i| (vec![(i as u32, F::one())], F::zero())).collect();
    // known operands of open gates become extra constant slots
    let mut slot = |x: usize, form: &mut Vec<Form<F>>| -> u32 {
        match known[x] {
            None => pos[x],
            Some(v) => {
                form.push((vec![], v));
                (form.len() - 1) as u32
            }
        }
    };
    let mut gates = vec![];
    for g in &rec.gates {
        if known[g.0].is_some() && known[g.1].is_some() && known[g.2].is_some() {
            continue;
        }
        gates.push((slot(g.0, &mut form), slot(g.1, &mut form), slot(g.2, &mut form)));
    }
    let mut eqs = vec![];
    for l in rec.lcs.iter().rev() {
        if l.iter().all(|(v, _)| known[*v].is_some()) {
            continue;
        }
        let mut f: Form<F> = (vec![], F::zero());
        for (v, k) in l {
            match known[*v] {
                Some(x) => f.1 = f.1 + &(x * k),
                None => f = add_scaled(&f, &(vec![(pos[*v], F::one())], F::zero()), *k),
            }
        }
        eqs.push(f);
    }
    let mut s = Solver {
        rec,
        known: known.clone(),
        open,
        budget,
        out,
        wrong,
    };
    s.go(St { form, gates, eqs }, r, 0);
    s.out
}
