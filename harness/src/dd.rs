//! Double-double arithmetic (about 31 significant digits): the "exact" side of the curve oracles.
use hmmcl_sandbox::decimal::Decimal;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, Default)]
pub struct Dd {
    pub h: f64,
    pub l: f64,
}
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick(a: f64, b: f64) -> Dd {
    let s = a + b;
    Dd { h: s, l: b - (s - a) }
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, f64::mul_add(a, b, -p))
}
impl Add for Dd {
    type Output = Dd;
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.h, o.h);
        let (t, f) = two_sum(self.l, o.l);
        let r = quick(s, e + t);
        quick(r.h, r.l + f)
    }
}
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd { h: -self.h, l: -self.l }
    }
}
impl Sub for Dd {
    type Output = Dd;
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    fn mul(self, o: Dd) -> Dd {
        let (p, e) = two_prod(self.h, o.h);
        quick(p, e + (self.h * o.l + self.l * o.h))
    }
}
impl Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let q1 = self.h / o.h;
        let r = self - o * dd(q1);
        let q2 = r.h / o.h;
        let r = r - o * dd(q2);
        let q3 = r.h / o.h;
        quick(q1, q2) + dd(q3)
    }
}
impl PartialEq for Dd {
    fn eq(&self, o: &Dd) -> bool {
        self.h == o.h && self.l == o.l
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<std::cmp::Ordering> {
        match self.h.partial_cmp(&o.h) {
            Some(std::cmp::Ordering::Equal) => self.l.partial_cmp(&o.l),
            x => x,
        }
    }
}
pub fn dd(x: f64) -> Dd {
    Dd { h: x, l: 0.0 }
}
pub const ZERO: Dd = Dd { h: 0.0, l: 0.0 };
pub const ONE: Dd = Dd { h: 1.0, l: 0.0 };
/// exact value of an integer up to 2^106, closest otherwise
pub fn from_u128(v: u128) -> Dd {
    let hi = (v >> 64) as u64;
    let lo = v as u64;
    let part = |x: u64| -> Dd {
        let a = (x >> 32) as f64 * 4294967296.0;
        let b = (x & 0xffff_ffff) as f64;
        let (s, e) = two_sum(a, b);
        quick(s, e)
    };
    part(hi) * dd(18446744073709551616.0) + part(lo)
}
pub fn from_dec(x: Decimal) -> Dd {
    let mut den = 1u128;
    for _ in 0..x.scale.min(38) {
        den *= 10;
    }
    let v = from_u128(x.value) / from_u128(den);
    if x.negative {
        -v
    } else {
        v
    }
}
/// greatest compute-scale decimal not above a non-negative value (up to rounding of the last digit)
pub fn to_dec(x: Dd) -> Decimal {
    let y = x * dd(1e12);
    let hi = y.h.floor();
    let mut v = hi as u128;
    let rest = (y - dd(hi)).h.floor();
    if rest < 0.0 {
        v -= (-rest) as u128;
    } else {
        v += rest as u128;
    }
    Decimal::new(v, 12, false)
}
impl Dd {
    pub fn f(self) -> f64 {
        self.h
    }
    pub fn abs(self) -> Dd {
        if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn min(self, o: Dd) -> Dd {
        if self <= o {
            self
        } else {
            o
        }
    }
    pub fn max(self, o: Dd) -> Dd {
        if self >= o {
            self
        } else {
            o
        }
    }
    pub fn sqrt(self) -> Dd {
        if self.h <= 0.0 {
            return ZERO;
        }
        let x = 1.0 / self.h.sqrt();
        let ax = dd(self.h * x);
        let y = ax + dd((self - ax * ax).h * (x * 0.5));
        // one more Newton step in full precision
        (y + self / y) * dd(0.5)
    }
    pub fn exp(self) -> Dd {
        let ln2 = Dd { h: std::f64::consts::LN_2, l: 2.319046813846299558e-17 };
        let k = (self.h / std::f64::consts::LN_2).round();
        let r = (self - ln2 * dd(k)) * dd(1.0 / 1024.0);
        let mut term = ONE;
        let mut sum = ONE;
        for i in 1..14 {
            term = term * r / dd(i as f64);
            sum = sum + term;
        }
        for _ in 0..10 {
            sum = sum * sum;
        }
        let s = 2f64.powi(k as i32);
        Dd { h: sum.h * s, l: sum.l * s }
    }
    pub fn ln(self) -> Dd {
        let mut y = dd(self.h.ln());
        for _ in 0..2 {
            y = y + self * (-y).exp() - ONE;
        }
        y
    }
    pub fn powi(self, n: u32) -> Dd {
        let mut r = ONE;
        let mut b = self;
        let mut e = n;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
    /// self^q for q in quarters: q4/4
    pub fn pow_quarters(self, q4: i32) -> Dd {
        let a = q4.unsigned_abs();
        let mut r = self.powi(a / 4);
        let s = self.sqrt();
        match a % 4 {
            1 => r = r * s.sqrt(),
            2 => r = r * s,
            3 => r = r * s * s.sqrt(),
            _ => {}
        }
        if q4 < 0 {
            ONE / r
        } else {
            r
        }
    }
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn sanity() {
        let two = dd(2.0);
        let e = two.ln() - Dd { h: std::f64::consts::LN_2, l: 2.319046813846299558e-17 };
        assert!(e.h.abs() < 1e-30, "{:?}", e);
        let s = two.sqrt();
        assert!((s * s - two).h.abs() < 1e-30);
        let q = dd(7.25).pow_quarters(5);
        assert!((q.pow_quarters(4) - q).h.abs() < 1e-28);
        assert!(((q * q * q * q) - dd(7.25).powi(5)).h.abs() / q.h < 1e-26);
        let d = from_dec(Decimal::new(123456789012345678901234567, 12, false));
        assert_eq!(to_dec(d).value, 123456789012345678901234567);
    }
}
