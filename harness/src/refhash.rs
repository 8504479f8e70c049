//! Independent references: the duplex Rescue sponge (over the integer model) and
//! SHA-256.
use crate::big::*;
use crate::field::*;

pub const M: usize = 13;
pub const RATE: usize = 12;

#[derive(Clone)]
pub struct RefRescue {
    m: Mont,
    ks: Vec<[U; M]>,
    mds: [[U; M]; M],
    inva: U,
    state: [U; M],
    absorbing: Vec<U>,
    squeezing: Option<Vec<U>>,
}

impl RefRescue {
    pub fn new<F: PF>() -> Self {
        let m = Mont::new(F::P);
        // M[i][j] = (i+1) * j, as documented in the source
        let mut mds = [[U::ZERO; M]; M];
        for i in 0..M {
            for j in 0..M {
                mds[i][j] = m.to(&U::from_u64(((i + 1) * j) as u64));
            }
        }
        // inverse of 5 modulo p-1: e with 5e = 1 + t(p-1), small t
        let pm1 = F::P.wsub(&U::ONE);
        let mut inva = U::ZERO;
        for t in 1..5u64 {
            // (1 + t(p-1)) / 5 by long division
            let mut w = pm1.mul_wide(&U::from_u64(t));
            let mut i = 0;
            loop {
                let (x, c) = w[i].overflowing_add(1);
                w[i] = x;
                if !c {
                    break;
                }
                i += 1;
            }
            let mut rem = 0u128;
            let mut q = [0u64; 8];
            for i in (0..8).rev() {
                let cur = (rem << 64) | w[i] as u128;
                q[i] = (cur / 5) as u64;
                rem = cur % 5;
            }
            if rem == 0 {
                inva = U([q[0], q[1], q[2], q[3]]);
                break;
            }
        }
        let mut s = RefRescue {
            m,
            ks: vec![],
            mds,
            inva,
            state: [U::ZERO; M],
            absorbing: vec![],
            squeezing: None,
        };
        // key schedule of the all-zero master key with all-one round constants
        let one = m.one();
        let mut k = [one; M]; // zero key + constant
        s.ks.push(k);
        for r in 0..20 {
            k = s.half(&k, r);
            for x in k.iter_mut() {
                *x = m.add(x, &one);
            }
            s.ks.push(k);
        }
        s
    }
    fn half(&self, st: &[U; M], r: usize) -> [U; M] {
        let mut p = [U::ZERO; M];
        for i in 0..M {
            p[i] = if r % 2 == 0 {
                self.m.pow(&st[i], &self.inva)
            } else {
                self.m.pow(&st[i], &U::from_u64(5))
            };
        }
        let mut o = [U::ZERO; M];
        for i in 0..M {
            let mut a = U::ZERO;
            for j in 0..M {
                a = self.m.add(&a, &self.m.mul(&self.mds[i][j], &p[j]));
            }
            o[i] = a;
        }
        o
    }
    fn permute(&mut self) {
        let mut st = self.state;
        for i in 0..M {
            st[i] = self.m.add(&st[i], &self.ks[0][i]);
        }
        for r in 0..20 {
            st = self.half(&st, r);
            for i in 0..M {
                st[i] = self.m.add(&st[i], &self.ks[r + 1][i]);
            }
        }
        self.state = st;
    }
    fn duplex(&mut self) -> Vec<U> {
        for i in 0..RATE {
            let v = self.absorbing.get(i).cloned().unwrap_or(self.m.one());
            self.state[i] = self.m.add(&self.state[i], &v);
        }
        self.absorbing.clear();
        self.permute();
        self.state[..RATE].to_vec()
    }
    pub fn absorb(&mut self, v: &U) {
        if self.squeezing.take().is_some() {
            self.absorbing.clear();
        }
        if self.absorbing.len() == RATE {
            self.duplex();
        }
        let v = self.m.to(v);
        self.absorbing.push(v);
    }
    pub fn squeeze(&mut self) -> U {
        loop {
            if let Some(o) = &mut self.squeezing {
                if !o.is_empty() {
                    let v = o.remove(0);
                    return self.m.of(&v);
                }
            }
            let o = self.duplex();
            self.squeezing = Some(o);
        }
    }
}

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(&((msg.len() as u64) * 8).to_be_bytes());
    sha256_compress_iv(&m)
}

/// Compression of whole blocks from the standard initial state, without padding.
pub fn sha256_compress_iv(m: &[u8]) -> [u8; 32] {
    fn primes(n: usize) -> Vec<u64> {
        let mut v = vec![];
        let mut c = 2u64;
        while v.len() < n {
            if v.iter().all(|p| c % p != 0) {
                v.push(c);
            }
            c += 1;
        }
        v
    }
    // fractional bits of square / cube roots by integer search
    fn root(p: u64, cube: bool) -> u32 {
        // floor(p^(1/n) * 2^32) mod 2^32
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while lo + 1 < hi {
            let mid = (lo + hi) / 2;
            let le = if cube {
                mid * mid * mid <= (p as u128) << 96
            } else {
                mid * mid <= (p as u128) << 64
            };
            if le {
                lo = mid
            } else {
                hi = mid
            }
        }
        lo as u32
    }
    let ps = primes(64);
    let k: Vec<u32> = ps.iter().map(|p| root(*p, true)).collect();
    let mut h: Vec<u32> = ps[..8].iter().map(|p| root(*p, false)).collect();
    for blk in m.chunks(64) {
        let mut w = vec![0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut s = h.clone();
        for i in 0..64 {
            let s1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = s0.wrapping_add(maj);
            s[7] = s[6];
            s[6] = s[5];
            s[5] = s[4];
            s[4] = s[3].wrapping_add(t1);
            s[3] = s[2];
            s[2] = s[1];
            s[1] = s[0];
            s[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
