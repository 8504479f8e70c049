//! Independent integer models: 256/512-bit integers with bit-by-bit reduction
//! (the oracle) and a Montgomery context (used where the oracle must be fast; it
//! is checked against the bit-by-bit one by `selfcheck`).

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct U(pub [u64; 4]); // little endian; use cmp_u for ordering

impl U {
    pub const ZERO: U = U([0; 4]);
    pub const ONE: U = U([1, 0, 0, 0]);
    pub fn from_u64(v: u64) -> U {
        U([v, 0, 0, 0])
    }
    pub fn from_u128(v: u128) -> U {
        U([v as u64, (v >> 64) as u64, 0, 0])
    }
    pub fn from_le(b: &[u8; 32]) -> U {
        let mut r = [0u64; 4];
        for i in 0..32 {
            r[i / 8] |= (b[i] as u64) << (8 * (i % 8));
        }
        U(r)
    }
    pub fn to_le(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for i in 0..32 {
            b[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        b
    }
    pub fn bit(&self, i: usize) -> bool {
        (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn ge(&self, o: &U) -> bool {
        for i in (0..4).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] > o.0[i];
            }
        }
        true
    }
    pub fn lt(&self, o: &U) -> bool {
        !self.ge(o)
    }
    /// wrapping add with carry out
    pub fn addc(&self, o: &U) -> (U, bool) {
        let mut r = [0; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        (U(r), c == 1)
    }
    pub fn subb(&self, o: &U) -> (U, bool) {
        let mut r = [0; 4];
        let mut bo = 0i128;
        for i in 0..4 {
            let mut t = self.0[i] as i128 - o.0[i] as i128 + bo;
            bo = 0;
            if t < 0 {
                t += 1i128 << 64;
                bo = -1;
            }
            r[i] = t as u64;
        }
        (U(r), bo != 0)
    }
    pub fn wadd(&self, o: &U) -> U {
        self.addc(o).0
    }
    pub fn wsub(&self, o: &U) -> U {
        self.subb(o).0
    }
    pub fn shr1(&self) -> U {
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = self.0[i] >> 1 | if i < 3 { self.0[i + 1] << 63 } else { 0 };
        }
        U(r)
    }
    pub fn shl(&self, n: usize) -> U {
        let mut r = [0u64; 4];
        for i in 0..256usize {
            if i >= n && self.bit(i - n) {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        U(r)
    }
    pub fn mul_wide(&self, o: &U) -> [u64; 8] {
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + 4] = c as u64;
        }
        r
    }
    pub fn hex(&self) -> String {
        format!(
            "0x{:016x}{:016x}{:016x}{:016x}",
            self.0[3], self.0[2], self.0[1], self.0[0]
        )
    }
}

/// 512-bit value modulo p, one bit at a time.
pub fn red512(v: &[u64; 8], p: &U) -> U {
    let mut r = U::ZERO;
    for i in (0..512).rev() {
        let top = r.bit(255);
        let mut t = r.wadd(&r);
        if (v[i / 64] >> (i % 64)) & 1 == 1 {
            t.0[0] |= 1;
        }
        if top || t.ge(p) {
            t = t.wsub(p);
        }
        r = t;
    }
    r
}

pub fn red(v: &U, p: &U) -> U {
    let mut t = *v;
    while t.ge(p) {
        t = t.wsub(p);
    }
    t
}
pub fn addm(a: &U, b: &U, p: &U) -> U {
    let (t, c) = a.addc(b);
    if c || t.ge(p) {
        t.wsub(p)
    } else {
        t
    }
}
pub fn subm(a: &U, b: &U, p: &U) -> U {
    let (t, bo) = a.subb(b);
    if bo {
        t.wadd(p)
    } else {
        t
    }
}
pub fn negm(a: &U, p: &U) -> U {
    subm(&U::ZERO, a, p)
}
pub fn mulm(a: &U, b: &U, p: &U) -> U {
    red512(&a.mul_wide(b), p)
}

/// Own Montgomery arithmetic, for the models that need speed.
#[derive(Clone, Copy)]
pub struct Mont {
    pub p: U,
    n0: u64,
    r1: U,
    r2: U,
}

impl Mont {
    pub fn new(p: U) -> Mont {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(p.0[0].wrapping_mul(inv)));
        }
        let mut one = [0u64; 8];
        one[4] = 1;
        let r1 = red512(&one, &p);
        let r2 = mulm(&r1, &r1, &p);
        Mont {
            p,
            n0: inv.wrapping_neg(),
            r1,
            r2,
        }
    }
    fn redc(&self, t: [u64; 8]) -> U {
        let mut t9 = [0u64; 9];
        t9[..8].copy_from_slice(&t);
        for i in 0..4 {
            let m = t9[i].wrapping_mul(self.n0);
            let mut c = 0u128;
            for j in 0..4 {
                let s = m as u128 * self.p.0[j] as u128 + t9[i + j] as u128 + c;
                t9[i + j] = s as u64;
                c = s >> 64;
            }
            let mut k = i + 4;
            while c != 0 {
                let s = t9[k] as u128 + c;
                t9[k] = s as u64;
                c = s >> 64;
                k += 1;
            }
        }
        let r = U([t9[4], t9[5], t9[6], t9[7]]);
        if t9[8] != 0 || r.ge(&self.p) {
            r.wsub(&self.p)
        } else {
            r
        }
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        self.redc(a.mul_wide(b))
    }
    pub fn sq(&self, a: &U) -> U {
        self.mul(a, a)
    }
    pub fn to(&self, a: &U) -> U {
        self.mul(a, &self.r2)
    }
    pub fn of(&self, a: &U) -> U {
        self.redc([a.0[0], a.0[1], a.0[2], a.0[3], 0, 0, 0, 0])
    }
    pub fn one(&self) -> U {
        self.r1
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        addm(a, b, &self.p)
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        subm(a, b, &self.p)
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = self.one();
        for i in (0..256).rev() {
            r = self.sq(&r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// a^(p-2); zero maps to zero
    pub fn inv(&self, a: &U) -> U {
        self.pow(a, &self.p.wsub(&U::from_u64(2)))
    }
    /// ordinary-form helpers
    pub fn mulo(&self, a: &U, b: &U) -> U {
        self.mul(&self.to(a), b)
    }
    pub fn powo(&self, a: &U, e: &U) -> U {
        self.of(&self.pow(&self.to(a), e))
    }
    pub fn invo(&self, a: &U) -> U {
        self.of(&self.inv(&self.to(a)))
    }
    /// Euler criterion: 0, 1 (square) or -1
    pub fn legendre(&self, a: &U) -> i32 {
        if a.is_zero() {
            return 0;
        }
        let e = self.p.shr1();
        if self.powo(a, &e) == U::ONE {
            1
        } else {
            -1
        }
    }
}

/// The fast model must agree with the bit-by-bit one before either is trusted.
pub fn selfcheck() {
    let mut r = crate::rng::Rng::new(99);
    for p in [crate::field::P_FP, crate::field::P_FQ] {
        let m = Mont::new(p);
        for _ in 0..200 {
            let a = red(&U([r.u64(), r.u64(), r.u64(), r.u64()]), &p);
            let b = red(&U([r.u64(), r.u64(), r.u64(), r.u64()]), &p);
            assert_eq!(m.of(&m.mul(&m.to(&a), &m.to(&b))), mulm(&a, &b, &p), "model mul");
            assert_eq!(mulm(&m.invo(&a), &a, &p), U::ONE, "model inverse");
            assert_eq!(subm(&addm(&a, &b, &p), &b, &p), a);
        }
    }
}
