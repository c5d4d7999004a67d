//! 512-bit unsigned integers for exact oracles (never overflow silently: every operation asserts).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct U512(pub [u64; 8]);

impl PartialOrd for U512 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U512 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        for i in (0..8).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
}
pub const ZERO: U512 = U512([0; 8]);
pub const ONE: U512 = U512([1, 0, 0, 0, 0, 0, 0, 0]);

pub fn u(v: u128) -> U512 {
    U512([v as u64, (v >> 64) as u64, 0, 0, 0, 0, 0, 0])
}
impl U512 {
    pub fn add(self, o: U512) -> U512 {
        let mut r = [0u64; 8];
        let mut c = 0u128;
        for i in 0..8 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        assert!(c == 0, "oracle overflow");
        U512(r)
    }
    pub fn sub(self, o: U512) -> U512 {
        assert!(self >= o, "oracle underflow");
        let mut r = [0u64; 8];
        let mut b = 0i128;
        for i in 0..8 {
            let mut t = self.0[i] as i128 - o.0[i] as i128 + b;
            if t < 0 {
                t += 1i128 << 64;
                b = -1;
            } else {
                b = 0;
            }
            r[i] = t as u64;
        }
        U512(r)
    }
    pub fn limbs(&self) -> usize {
        let mut n = 8;
        while n > 0 && self.0[n - 1] == 0 {
            n -= 1;
        }
        n
    }
    pub fn mul(self, o: U512) -> U512 {
        let (la, lb) = (self.limbs(), o.limbs());
        assert!(la + lb <= 9, "oracle overflow");
        let mut r = [0u64; 9];
        for i in 0..la {
            let mut c = 0u128;
            for j in 0..lb {
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            let mut k = i + lb;
            while c > 0 {
                assert!(k < 9, "oracle overflow");
                let t = r[k] as u128 + c;
                r[k] = t as u64;
                c = t >> 64;
                k += 1;
            }
        }
        assert!(r[8] == 0, "oracle overflow");
        let mut q = [0u64; 8];
        q.copy_from_slice(&r[..8]);
        U512(q)
    }
    pub fn bits(&self) -> usize {
        let n = self.limbs();
        if n == 0 {
            0
        } else {
            n * 64 - self.0[n - 1].leading_zeros() as usize
        }
    }
    fn shl1(self) -> U512 {
        let mut r = [0u64; 8];
        let mut c = 0;
        for i in 0..8 {
            r[i] = (self.0[i] << 1) | c;
            c = self.0[i] >> 63;
        }
        assert!(c == 0);
        U512(r)
    }
    /// (quotient, remainder)
    pub fn divrem(self, d: U512) -> (U512, U512) {
        assert!(d.limbs() > 0, "oracle division by zero");
        if self < d {
            return (ZERO, self);
        }
        if d.limbs() == 1 {
            let dd = d.0[0] as u128;
            let mut q = [0u64; 8];
            let mut rem = 0u128;
            for i in (0..self.limbs()).rev() {
                let t = (rem << 64) | self.0[i] as u128;
                q[i] = (t / dd) as u64;
                rem = t % dd;
            }
            return (U512(q), u(rem));
        }
        if self.limbs() <= 2 {
            let (a, b) = (self.lo128(), d.lo128());
            return (u(a / b), u(a % b));
        }
        let mut q = [0u64; 8];
        let mut r = ZERO;
        for i in (0..self.bits()).rev() {
            r = r.shl1();
            if (self.0[i / 64] >> (i % 64)) & 1 == 1 {
                r.0[0] |= 1;
            }
            if r >= d {
                r = r.sub(d);
                q[i / 64] |= 1 << (i % 64);
            }
        }
        (U512(q), r)
    }
    pub fn div_ceil(self, d: U512) -> U512 {
        let (q, r) = self.divrem(d);
        if r == ZERO {
            q
        } else {
            q.add(ONE)
        }
    }
    pub fn fits128(&self) -> bool {
        self.limbs() <= 2
    }
    pub fn lo128(&self) -> u128 {
        self.0[0] as u128 | (self.0[1] as u128) << 64
    }
    pub fn to_f64(&self) -> f64 {
        let mut f = 0.0;
        for i in (0..8).rev() {
            f = f * 18446744073709551616.0 + self.0[i] as f64;
        }
        f
    }
}
pub fn pow10(k: u32) -> U512 {
    let mut r = ONE;
    let ten = u(10);
    for _ in 0..k {
        r = r.mul(ten);
    }
    r
}
/// Precomputed powers of ten (512 bits hold up to 10^153).
pub fn p10(k: u32) -> U512 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<U512>> = OnceLock::new();
    T.get_or_init(|| (0..=150).map(pow10).collect())[k as usize]
}
