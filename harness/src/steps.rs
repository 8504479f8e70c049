//! Recursion steps: previous steps over toy circuits (whose public inputs are those of a
//! real step), inner circuits, and the assembly of step circuits from chosen parts.
use crate::circ::Asg;
use crate::curve::PC;
use crate::logc::*;
use crate::proofs::*;
use crate::r1cs::*;
use crate::rng::Rng;
use crate::*;
use halo::verif::*;
use halo::*;

/// A circuit that only has public inputs.
pub struct Toy<F> {
    pub n: usize,
    pub values: Option<Vec<F>>,
}
impl<F: Field> Circuit<F> for Toy<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        for i in 0..self.n {
            cs.alloc_input(
                || "",
                || self.values.as_ref().map(|v| v[i]).ok_or(SynthesisError::AssignmentMissing),
            )?;
        }
        Ok(())
    }
}

pub fn bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1 == 1)).collect()
}
pub fn bits_f<F: Field>(b: &[u8]) -> Vec<F> {
    bits(b).into_iter().map(|b| if b { F::one() } else { F::zero() }).collect()
}

/// Inner circuits: what the payloads of consecutive steps have to do with each other.
#[derive(Clone, Debug)]
pub enum Inner {
    /// nothing
    Free(usize),
    /// new = old xor mask, bit by bit
    Xor(Vec<u8>),
    /// new = old + 1 as a little-endian counter
    Count(usize),
    /// new = old with its bytes' bits rotated by one, base payload all ones
    Rotate(usize),
}
impl Inner {
    pub fn len(&self) -> usize {
        match self {
            Inner::Free(n) | Inner::Count(n) | Inner::Rotate(n) => *n,
            Inner::Xor(m) => m.len(),
        }
    }
    pub fn base(&self) -> Vec<u8> {
        match self {
            Inner::Rotate(n) => (0..*n).map(|i| 0xf1 ^ i as u8).collect(),
            Inner::Xor(m) => m.iter().map(|b| b.wrapping_mul(3)).collect(),
            i => vec![0; i.len()],
        }
    }
    pub fn next(&self, old: &[u8], r: &mut Rng) -> Vec<u8> {
        match self {
            Inner::Free(n) => (0..*n).map(|_| r.u64() as u8).collect(),
            Inner::Xor(m) => old.iter().zip(m).map(|(a, b)| a ^ b).collect(),
            Inner::Count(_) => {
                let mut o = old.to_vec();
                for b in o.iter_mut() {
                    let (v, c) = b.overflowing_add(1);
                    *b = v;
                    if !c {
                        break;
                    }
                }
                o
            }
            Inner::Rotate(n) => {
                let b = bits(old);
                let mut o = vec![0u8; *n];
                for i in 0..b.len() {
                    if b[(i + 1) % b.len()] {
                        o[i / 8] |= 1 << (i % 8);
                    }
                }
                o
            }
        }
    }
    pub fn random(r: &mut Rng, max: usize) -> Inner {
        let n = r.below(max + 1);
        match r.below(4) {
            0 => Inner::Free(n),
            1 => Inner::Xor((0..n).map(|_| r.u64() as u8).collect()),
            2 => Inner::Count(n),
            _ => Inner::Rotate(n),
        }
    }
}
impl<F: Field> RecursiveCircuit<F> for Inner {
    fn base_payload(&self) -> Vec<bool> {
        bits(&self.base())
    }
    fn synthesize<CS: ConstraintSystem<F>>(
        &self,
        cs: &mut CS,
        old: &[AllocatedBit],
        new: &[AllocatedBit],
    ) -> Result<(), SynthesisError> {
        assert_eq!(old.len(), 8 * self.len());
        assert_eq!(new.len(), 8 * self.len());
        let zero = LinearCombination::<F>::zero;
        match self {
            Inner::Free(_) => {}
            Inner::Xor(m) => {
                for (i, b) in bits(m).into_iter().enumerate() {
                    let l = zero() + new[i].get_variable();
                    cs.enforce_zero(if b { l + old[i].get_variable() - CS::ONE } else { l - old[i].get_variable() });
                }
            }
            Inner::Rotate(_) => {
                for i in 0..new.len() {
                    cs.enforce_zero(zero() + new[i].get_variable() - old[(i + 1) % old.len()].get_variable());
                }
            }
            Inner::Count(_) => {
                // carry starts at one; new_i = old_i + carry - 2 old_i carry
                let mut carry = CS::ONE;
                let mut cv = Some(true);
                for i in 0..new.len() {
                    let (ov, c0) = (old[i].get_value(), cv);
                    let and = match (ov, c0) {
                        (Some(a), Some(b)) => Some(a && b),
                        _ => None,
                    };
                    let f = |b: bool| if b { F::one() } else { F::zero() };
                    let (a, b, c) = cs.multiply(
                        || format!("carry {}", i),
                        || {
                            Ok((
                                f(ov.ok_or(SynthesisError::AssignmentMissing)?),
                                f(c0.ok_or(SynthesisError::AssignmentMissing)?),
                                f(and.ok_or(SynthesisError::AssignmentMissing)?),
                            ))
                        },
                    )?;
                    cs.enforce_zero(zero() + a - old[i].get_variable());
                    cs.enforce_zero(zero() + b - carry);
                    cs.enforce_zero(zero() + new[i].get_variable() - a - b + (Coeff::Full(F::one() + &F::one()), c));
                    carry = c;
                    cv = and;
                }
            }
        }
        Ok(())
    }
}

/// Leftovers nobody checks in the step: random points, challenges that expand to squares.
pub fn random_leftovers<C: PC>(r: &mut Rng, k: usize) -> Leftovers<C> {
    let pt = |r: &mut Rng| C::one() * rand_f::<C::S>(r);
    Leftovers {
        s_new_commitment: pt(r),
        y_new: C::S::from_u128(r.u128() | 1 << 127),
        g_new: pt(r),
        challenges_sq_packed_new: (0..k).map(|_| packed_challenge::<C::S>(r, true)).collect(),
    }
}

/// A previous step and everything its verifier computed from it.
#[derive(Clone)]
pub struct Prev<L: LogCurve, O: Curve> {
    pub parts: RecursiveParts<L, O>,
    pub worked: bool,
    pub left: Leftovers<L>,
    pub def: Deferred<L::Scalar>,
    pub forks: Vec<u8>,
    pub n_inputs: usize,
}
impl<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>> Prev<L, O> {
    pub fn statement(payload: &[u8], o1: &Leftovers<L>, o2: &Leftovers<O>, d: &Deferred<O::Scalar>) -> Vec<u8> {
        let mut b = payload.to_vec();
        b.extend(o1.to_bytes());
        b.extend(o2.to_bytes());
        b.extend(d.to_bytes());
        b
    }
    /// Verify `proof` natively (against `used`, which an honest caller also publishes as
    /// `oldproof1`) and keep the results.
    pub fn of(
        params: &Params<L>,
        proof: Proof<L>,
        used: &Leftovers<L>,
        payload: Vec<u8>,
        o1: Leftovers<L>,
        o2: Leftovers<O>,
        deferred: Deferred<O::Scalar>,
    ) -> Option<Self> {
        let st = bits_f::<<L as PC>::S>(&Self::statement(&payload, &o1, &o2, &deferred));
        let toy = Toy { n: st.len(), values: None };
        let (worked, left, def, forks) = proof.verify::<_, Basic>(used, params, &toy, &st, None).ok()?;
        Some(Prev {
            parts: RecursiveParts { proof, oldproof1: o1, oldproof2: o2, deferred, payload },
            worked,
            left,
            def,
            forks,
            n_inputs: st.len(),
        })
    }
    /// The honest proof of a toy step.
    pub fn prove(
        params: &Params<L>,
        used: &Leftovers<L>,
        payload: Vec<u8>,
        o1: Leftovers<L>,
        o2: Leftovers<O>,
        deferred: Deferred<O::Scalar>,
    ) -> Option<Self> {
        let st = bits_f::<<L as PC>::S>(&Self::statement(&payload, &o1, &o2, &deferred));
        let toy = Toy { n: st.len(), values: Some(st) };
        let (proof, _) = Proof::new::<_, Basic>(params, &toy, used).ok()?;
        Self::of(params, proof, used, payload, o1, o2, deferred)
    }
    /// A proof of our own prover, told to lie.
    pub fn forge(
        params: &Params<L>,
        old: &Old<L>,
        payload: Vec<u8>,
        o1: Leftovers<L>,
        o2: Leftovers<O>,
        deferred: Deferred<O::Scalar>,
        lie: &Lie<<L as PC>::S>,
        damage: &dyn Fn(&mut Asg<<L as PC>::S>),
        r: &mut Rng,
    ) -> Vec<(&'static str, Self)> {
        let st = bits_f::<<L as PC>::S>(&Self::statement(&payload, &o1, &o2, &deferred));
        let toy = Toy { n: st.len(), values: Some(st.clone()) };
        let mut a = match Asg::of(&toy, true) {
            Ok(a) => a,
            Err(_) => return vec![],
        };
        damage(&mut a);
        let f = match forge(params, &a, &st, old, lie, r) {
            Some(f) => f,
            None => return vec![],
        };
        f.versions()
            .into_iter()
            .filter_map(|(how, p)| {
                Self::of(params, p, &old.left, payload.clone(), o1.clone(), o2.clone(), deferred.clone()).map(|p| (how, p))
            })
            .collect()
    }
    pub fn toy(&self) -> Toy<<L as PC>::S> {
        Toy { n: self.n_inputs, values: None }
    }
}

/// What a step circuit is given.
#[derive(Clone)]
pub struct Step<L: LogCurve, O: Curve> {
    pub parts: RecursiveParts<L, O>,
    pub base_case: bool,
    pub payload: Vec<u8>,
    pub forks: Vec<u8>,
    pub old_leftovers: Leftovers<O>,
    pub new_leftovers: Leftovers<L>,
    pub deferred: Deferred<L::Scalar>,
}
impl<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>> Step<L, O> {
    pub fn after(p: &Prev<L, O>, payload: Vec<u8>) -> Self {
        Step {
            parts: p.parts.clone(),
            base_case: false,
            payload,
            forks: p.forks.clone(),
            old_leftovers: p.parts.oldproof2.clone(),
            new_leftovers: p.left.clone(),
            deferred: p.def.clone(),
        }
    }
    /// Synthesize and judge the step circuit.
    pub fn run<I: RecursiveCircuit<<L as PC>::B>>(&self, params: &Params<L>, inner: &I, paths: bool) -> Result<Judge<<L as PC>::B>, SynthesisError> {
        let mut j: Judge<<L as PC>::B> = Judge::new();
        j.paths = paths;
        self.synthesize(params, inner, &mut j)?;
        Ok(j)
    }
    pub fn synthesize<I: RecursiveCircuit<<L as PC>::B>, CS: ConstraintSystem<<L as PC>::B>>(
        &self,
        params: &Params<L>,
        inner: &I,
        cs: &mut CS,
    ) -> Result<(), SynthesisError> {
        let rp = self.parts.clone().assemble();
        let c = StepCircuit::<O, L, I> {
            params,
            base_case: Some(self.base_case),
            inner_circuit: inner,
            proof: Some(&rp),
            new_payload: &self.payload,
            forkvalues: Some(&self.forks),
            old_leftovers: Some(self.old_leftovers.clone()),
            new_leftovers: Some(self.new_leftovers.clone()),
            deferred: Some(self.deferred.clone()),
        };
        c.synthesize(cs)
    }
}
/// The base case, or (without values) the bare circuit.
pub fn run_base<L: PC<B = <O as PC>::S> + LogCurve, O: PC<B = <L as PC>::S>, I: RecursiveCircuit<<L as PC>::B>>(
    params: &Params<L>,
    inner: &I,
    payload: &[u8],
    old_leftovers: Option<Leftovers<O>>,
    values: bool,
) -> Result<Judge<<L as PC>::B>, SynthesisError>
{
    let mut j: Judge<<L as PC>::B> = Judge::new();
    j.paths = true;
    let forks = vec![0; params.k];
    let c = StepCircuit::<O, L, I> {
        params,
        base_case: if values { Some(true) } else { None },
        inner_circuit: inner,
        proof: None,
        new_payload: payload,
        forkvalues: if values { Some(&forks) } else { None },
        old_leftovers,
        new_leftovers: if values { Some(Leftovers::dummy(params)) } else { None },
        deferred: if values { Some(Deferred::dummy(params.k)) } else { None },
    };
    c.synthesize(&mut j)?;
    Ok(j)
}
