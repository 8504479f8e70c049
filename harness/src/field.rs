//! The two prime fields as seen by the monitors, and hostile value generators.
use crate::big::*;
use crate::rng::Rng;
use halo::{Field, Fp, Fq};

pub const P_FP: U = U([
    0x99fffe7d00000001,
    0x81be9c1a32012482,
    0xbac2a757742b3930,
    0x5c5e464a35c12769,
]);
pub const P_FQ: U = U([
    0x19fffe7d00000001,
    0x1b849d0f18018604,
    0xbac2a757742b3931,
    0x5c5e464a35c12769,
]);

pub trait PF: Field + From<u64> {
    const NAME: &'static str;
    const P: U;
    const GEN: u64;
    fn wide(b: &[u8; 64]) -> Self;
}

impl PF for Fp {
    const NAME: &'static str = "Fp";
    const P: U = P_FP;
    const GEN: u64 = 7;
    fn wide(b: &[u8; 64]) -> Self {
        Fp::from_bytes_wide(b)
    }
}
impl PF for Fq {
    const NAME: &'static str = "Fq";
    const P: U = P_FQ;
    const GEN: u64 = 5;
    fn wide(b: &[u8; 64]) -> Self {
        Fq::from_bytes_wide(b)
    }
}

/// Canonical integer of an element (through its encoding).
pub fn u_of<F: Field>(f: &F) -> U {
    U::from_le(&f.to_bytes())
}
/// Element of an integer below the modulus.
pub fn f_of<F: PF>(u: &U) -> F {
    let r = F::from_bytes(&u.to_le());
    assert!(
        bool::from(r.is_some()),
        "decoding of the canonical integer {} of {} refused",
        u.hex(),
        F::NAME
    );
    r.unwrap()
}

pub fn rand_u(r: &mut Rng, p: &U) -> U {
    let w = [
        r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(),
    ];
    red512(&w, p)
}

/// Uniform element.
pub fn rand_f<F: PF>(r: &mut Rng) -> F {
    f_of(&rand_u(r, &F::P))
}

/// Hostile canonical integer: boundary values, powers of two, limb patterns, values
/// whose internal (Montgomery) limbs are extreme, and uniform ones.
pub fn hostile_u(r: &mut Rng, p: &U) -> U {
    fn limb(r: &mut Rng) -> u64 {
        match r.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => u64::MAX - r.below(4) as u64,
            4 => 1u64 << r.below(64),
            _ => r.u64(),
        }
    }
    let small = |r: &mut Rng| U::from_u64(r.below(8) as u64);
    match r.below(14) {
        0 => small(r),
        1 => {
            let s = U::from_u64(1 + r.below(8) as u64);
            p.wsub(&s)
        }
        2 => red(&U::ONE.shl(r.below(255)), p),
        3 => red(&U::ONE.shl(r.below(255)).wsub(&U::ONE), p),
        4 => {
            let h = p.shr1();
            let s = small(r);
            red(&h.wadd(&s), p)
        }
        5 => {
            let s = U::ONE.shl(r.below(254));
            subm(&U::ZERO, &red(&s, p), p)
        }
        6 | 7 => {
            let u = U([limb(r), limb(r), limb(r), limb(r) >> r.below(3)]);
            red(&u, p)
        }
        8 | 9 => {
            // extreme internal limbs: v * R^-1
            let u = U([limb(r), limb(r), limb(r), limb(r)]);
            Mont::new(*p).of(&red(&u, p))
        }
        10 => {
            // internal limbs just below the modulus
            let mut u = *p;
            let i = r.below(4);
            u.0[i] = u.0[i].wrapping_sub(1 + r.below(3) as u64);
            Mont::new(*p).of(&red(&u, p))
        }
        11 => U::from_u128(r.u128()),
        _ => rand_u(r, p),
    }
}
pub fn hostile_f<F: PF>(r: &mut Rng) -> F {
    f_of(&hostile_u(r, &F::P))
}

pub fn hexf<F: Field>(f: &F) -> String {
    u_of(f).hex()
}
