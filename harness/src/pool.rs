//! C11-C21: history exploration of the pools in lock-step with a reference model of concentrated liquidity.
use crate::dd::{self, dd, from_dec, Dd, ONE, ZERO};
use crate::fw::{guard, hash64, Ctx};
use crate::math::{hmm_dx, hmm_dy, tol_hmm_dx, tol_hmm_dy};
use hmmcl_sandbox::cl_pool::{Pool, PoolMath};
use hmmcl_sandbox::cl_pool_float as fl;
use hmmcl_sandbox::decimal::{Decimal, Sub};
use std::collections::BTreeMap;

pub const USERS: [&str; 4] = ["alice", "bob", "carol", "dave"];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: String,
    pub spacing: u128,
    /// added to every bound asked for (below the spacing, so that it rounds away)
    pub skew: u128,
    pub start: u128,
    /// strength in quarters (0 = none)
    pub q4: i32,
    /// fee rate in 1e-12
    pub fee: u128,
    /// ranges in ticks
    pub ranges: Vec<(u128, u128)>,
    /// deposit amounts (x, y) for each user, in 1e-12
    pub amounts: Vec<(u128, u128)>,
    /// swap amounts to use
    pub swaps: Vec<AmtSpec>,
    pub oracles: Vec<OraSpec>,
    pub users: usize,
    pub half: bool,
    /// also withdraw all but a sliver, and a sliver
    pub sliver: bool,
    pub depth: usize,
    /// what has happened before the histories begin
    pub pre: Vec<Pre>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pre {
    /// user, numerator and denominator of the usual amounts, range
    Dep(usize, u32, u32, u128, u128),
    Wd(usize, u128, u128),
    /// whether X comes in, how much, the oracle
    Swap(bool, AmtSpec, OraSpec),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AmtSpec {
    /// a fraction of what moves the price to the next bound
    Frac(u32, u32),
    /// exactly to the next bound, plus so many units in the last place
    Bound(i64),
    /// to the next bound and half of what follows
    Through,
    /// two bounds and half of what follows
    Through2,
    /// more than all liquidity in that direction
    Beyond,
    /// a fixed amount in 1e-12
    Fixed(u128),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OraSpec {
    None,
    /// beyond every bound in the direction of the trade
    Far,
    /// half way to the next bound in the direction of the trade
    Mid,
    /// behind the trade
    Behind,
    /// at the current price
    Here,
    /// on the next bound
    OnBound,
}

pub struct Out<A> {
    pub recv: A,
    pub send: A,
    pub adj: A,
    pub fee: A,
    pub avg: A,
    pub end: A,
}

#[derive(Clone, Debug)]
pub struct Obs<A> {
    /// reserve, adjustment pot, fee pot
    pub x: [A; 3],
    pub y: [A; 3],
    pub liq: A,
    pub rp: A,
    pub tick: u128,
    pub npos: usize,
    pub ticks: Vec<u128>,
}

pub trait Sut: Sized {
    type A: Copy + std::fmt::Debug + 'static;
    const ABS: f64;
    const REL: f64;
    const FLOAT: bool;
    const NAME: &'static str;
    fn new(c: &Cfg) -> Self;
    /// a root price inside the tick, so that rounding down lands on it
    fn dep(&mut self, user: usize, x: Self::A, y: Self::A, ta: u128, tb: u128);
    fn wd(&mut self, user: usize, l: Self::A, ta: u128, tb: u128);
    fn swap(&mut self, xin: bool, a: Self::A, oracle: Self::A) -> Out<Self::A>;
    fn obs(&self) -> Obs<Self::A>;
    fn rp_of(t: u128) -> Self::A;
    fn liq_for(x: Self::A, y: Self::A, rp: Self::A, ta: u128, tb: u128) -> Self::A;
    fn dd(a: Self::A) -> Dd;
    /// amount not above a non-negative value
    fn from(x: Dd) -> Self::A;
    fn dec(d: Decimal) -> Self::A;
    fn ulps(a: Self::A, k: i64) -> Self::A;
    fn add(a: Self::A, b: Self::A) -> Self::A;
    fn sub(a: Self::A, b: Self::A) -> Self::A;
    /// do the signed amounts cancel (exactly for fixed point, to rounding for floating point)?
    fn cancels(t: &[(Self::A, i32)]) -> bool;
    fn show(a: Self::A) -> String;
    fn bits(a: Self::A) -> u64;
    /// part of a position to withdraw
    const PART: f64;
    /// the liquidity that a withdrawal of so much removes (the floating-point pool keeps whole units)
    fn eff(l: Self::A) -> Self::A;
    fn neg_of(x: Dd) -> Self::A;
    /// the smallest liquidity above nothing
    fn unit() -> Self::A;
}

pub struct Fx {
    pub p: Pool<'static>,
    pub skew: u128,
}
pub fn mid_rp(t: u128) -> Decimal {
    let a = <Pool as PoolMath>::tick_to_rp(t);
    let b = <Pool as PoolMath>::tick_to_rp(t + 1);
    Decimal::new((a.value + b.value) / 2, 12, false)
}
impl Sut for Fx {
    type A = Decimal;
    const ABS: f64 = 1e-12;
    const REL: f64 = 0.0;
    const FLOAT: bool = false;
    const NAME: &'static str = "fixed";
    const PART: f64 = 0.5;
    fn eff(l: Decimal) -> Decimal {
        l
    }
    fn neg_of(x: Dd) -> Decimal {
        Decimal::new(dd::to_dec(x).value, 12, true)
    }
    fn unit() -> Decimal {
        Decimal::new(1, 12, false)
    }
    fn new(c: &Cfg) -> Self {
        Fx {
            skew: c.skew,
            p: Pool::new(
                "X",
                12,
                "Y",
                6,
                mid_rp(c.start),
                c.spacing,
                Decimal::new(c.q4 as u128 * 250_000_000_000, 12, false),
                Decimal::new(c.fee, 12, false),
            ),
        }
    }
    fn dep(&mut self, user: usize, x: Decimal, y: Decimal, ta: u128, tb: u128) {
        self.p.deposit(USERS[user], x, y, mid_rp(ta + self.skew), mid_rp(tb + self.skew))
    }
    fn wd(&mut self, user: usize, l: Decimal, ta: u128, tb: u128) {
        self.p.withdraw(USERS[user], l, mid_rp(ta + self.skew), mid_rp(tb + self.skew))
    }
    fn swap(&mut self, xin: bool, a: Decimal, oracle: Decimal) -> Out<Decimal> {
        let o = if xin { self.p.execute_swap_from_x(a, oracle) } else { self.p.execute_swap_from_y(a, oracle) };
        Out { recv: o.recv_amount(), send: o.send_amount(), adj: o.send_hmm_adj(), fee: o.recv_fee(), avg: o.avg_price(), end: o.end_price() }
    }
    fn obs(&self) -> Obs<Decimal> {
        let (x, y) = (self.p.x_info(), self.p.y_info());
        let mut ticks = self.p.tick_keys_cloned(false);
        ticks.sort_unstable();
        // the count, and the same ticks in descending order, tell the same
        if self.p.tick_count() != ticks.len() || !self.p.tick_keys_cloned(true).into_iter().rev().map(|t| t as u128).eq(ticks.iter().copied()) {
            ticks.push(u128::MAX);
        }
        Obs {
            x: [x.0, x.1, x.2],
            y: [y.0, y.1, y.2],
            liq: self.p.glbl_liq(),
            rp: self.p.glbl_rp(),
            tick: self.p.glbl_tick(),
            npos: self.p.position_count(),
            ticks,
        }
    }
    fn rp_of(t: u128) -> Decimal {
        <Pool as PoolMath>::tick_to_rp(t)
    }
    fn liq_for(x: Decimal, y: Decimal, rp: Decimal, ta: u128, tb: u128) -> Decimal {
        <Pool as PoolMath>::liq_from_x_y_rp_rng(x, y, rp, Self::rp_of(ta), Self::rp_of(tb))
    }
    fn dd(a: Decimal) -> Dd {
        from_dec(a)
    }
    fn from(x: Dd) -> Decimal {
        dd::to_dec(x)
    }
    fn dec(d: Decimal) -> Decimal {
        d
    }
    fn ulps(a: Decimal, k: i64) -> Decimal {
        Decimal::new(if k < 0 { a.value.saturating_sub((-k) as u128) } else { a.value + k as u128 }, 12, false)
    }
    fn add(a: Decimal, b: Decimal) -> Decimal {
        hmmcl_sandbox::decimal::Add::add(a, b).unwrap()
    }
    fn sub(a: Decimal, b: Decimal) -> Decimal {
        Sub::sub(a, b).unwrap()
    }
    fn cancels(t: &[(Decimal, i32)]) -> bool {
        let mut s = 0i128;
        for (a, k) in t {
            let v = a.value as i128 * if a.negative { -1 } else { 1 };
            s += v * *k as i128;
        }
        s == 0 && t.iter().all(|a| a.0.scale == 12)
    }
    fn show(a: Decimal) -> String {
        let s = format!("{}", a.value / 1_000_000_000_000);
        format!("{}{}.{:012}", if a.negative { "-" } else { "" }, s, a.value % 1_000_000_000_000)
    }
    fn bits(a: Decimal) -> u64 {
        (a.value as u64) ^ ((a.value >> 64) as u64).rotate_left(7) ^ (a.negative && a.value != 0) as u64
    }
}

pub struct Ff {
    pub p: fl::Pool<'static>,
    pub skew: u128,
}
use fl::PoolMath as FlMath;
pub fn mid_f(t: u128) -> f64 {
    from_dec(mid_rp(t)).f()
}
impl Sut for Ff {
    type A = f64;
    const ABS: f64 = 1e-14;
    const REL: f64 = 4e-12;
    const FLOAT: bool = true;
    const NAME: &'static str = "float";
    const PART: f64 = 1.0 / 3.0;
    fn neg_of(x: Dd) -> f64 {
        -x.f()
    }
    fn unit() -> f64 {
        1.0
    }
    fn eff(l: f64) -> f64 {
        if <fl::Pool as FlMath>::FLOOR_LIQ {
            l.floor()
        } else {
            l
        }
    }
    fn new(c: &Cfg) -> Self {
        Ff { skew: c.skew, p: fl::Pool::new("X", 12, "Y", 6, mid_f(c.start), c.spacing as u32, c.q4 as f64 / 4.0, c.fee as f64 / 1e12) }
    }
    fn dep(&mut self, user: usize, x: f64, y: f64, ta: u128, tb: u128) {
        self.p.deposit(USERS[user], x, y, mid_f(ta + self.skew), mid_f(tb + self.skew))
    }
    fn wd(&mut self, user: usize, l: f64, ta: u128, tb: u128) {
        self.p.withdraw(USERS[user], l, mid_f(ta + self.skew), mid_f(tb + self.skew))
    }
    fn swap(&mut self, xin: bool, a: f64, oracle: f64) -> Out<f64> {
        let o = if xin { self.p.execute_swap_from_x(a, oracle) } else { self.p.execute_swap_from_y(a, oracle) };
        Out { recv: o.recv_amount(), send: o.send_amount(), adj: o.send_hmm_adj(), fee: o.recv_fee(), avg: o.avg_price(), end: o.end_price() }
    }
    fn obs(&self) -> Obs<f64> {
        let (x, y) = (self.p.x_info(), self.p.y_info());
        let mut ticks: Vec<u128> = self.p.tick_keys_cloned(false).into_iter().map(|t| t as u128).collect();
        ticks.sort_unstable();
        // the count, and the same ticks in descending order, tell the same
        if self.p.tick_count() != ticks.len() || !self.p.tick_keys_cloned(true).into_iter().rev().map(|t| t as u128).eq(ticks.iter().copied()) {
            ticks.push(u128::MAX);
        }
        Obs {
            x: [x.0, x.1, x.2],
            y: [y.0, y.1, y.2],
            liq: self.p.glbl_liq(),
            rp: self.p.glbl_rp(),
            tick: self.p.glbl_tick() as u128,
            npos: self.p.position_count(),
            ticks,
        }
    }
    fn rp_of(t: u128) -> f64 {
        <fl::Pool as FlMath>::tick_to_rp(t as u32)
    }
    fn liq_for(x: f64, y: f64, rp: f64, ta: u128, tb: u128) -> f64 {
        let l = <fl::Pool as FlMath>::liq_from_x_y_rp_rng(x, y, rp, Self::rp_of(ta), Self::rp_of(tb));
        if <fl::Pool as FlMath>::FLOOR_LIQ {
            l.floor()
        } else {
            l
        }
    }
    fn dd(a: f64) -> Dd {
        dd(a)
    }
    fn from(x: Dd) -> f64 {
        x.f()
    }
    fn dec(d: Decimal) -> f64 {
        from_dec(d).f()
    }
    fn ulps(a: f64, k: i64) -> f64 {
        a * (1.0 + k as f64 * 1e-15)
    }
    fn add(a: f64, b: f64) -> f64 {
        a + b
    }
    fn sub(a: f64, b: f64) -> f64 {
        a - b
    }
    fn cancels(t: &[(f64, i32)]) -> bool {
        let s: f64 = t.iter().map(|(a, k)| a * *k as f64).sum();
        let m: f64 = t.iter().map(|(a, _)| a.abs()).sum();
        s.abs() <= 1e-13 * m + 1e-14
    }
    fn show(a: f64) -> String {
        format!("{:?}", a)
    }
    fn bits(a: f64) -> u64 {
        a.to_bits()
    }
}

// ---------------------------------------------------------------- reference model
#[derive(Clone, Debug)]
pub struct Pos<A> {
    pub liq: A,
    /// earned and not collected: x fees, y fees, x adjustment, y adjustment
    pub owed: [Dd; 4],
    pub tol: [f64; 4],
}
pub type Key = (usize, u128, u128);
#[derive(Clone, Debug)]
pub struct Model<A> {
    pub pos: BTreeMap<Key, Pos<A>>,
    /// accumulated rounding allowance: x, y, x fee, y fee, x adj, y adj
    pub slack: [f64; 6],
    pub nops: usize,
}
pub struct Seg {
    pub l: Dd,
    pub from: Dd,
    pub to: Dd,
    pub inn: Dd,
    pub fee: Dd,
    pub gross: Dd,
    pub adj: Dd,
    pub e_in: f64,
    pub e_out: f64,
    pub e_adj: f64,
    /// input that the rounded price does not account for
    pub e_pos: f64,
    pub cover: Vec<Key>,
}
pub struct Walk {
    pub segs: Vec<Seg>,
    pub end: Dd,
    /// where the price may also be: the amount runs out within rounding of a bound next to a gap
    pub alt: Option<Dd>,
    pub e_rp: f64,
    pub filled: bool,
    /// the amount left when liquidity ran out
    pub left: Dd,
}
pub fn fee_dd(c: &Cfg) -> Dd {
    dd(c.fee as f64) / dd(1e12)
}

impl<A: Copy + std::fmt::Debug + 'static> Model<A> {
    pub fn new() -> Self {
        Model { pos: BTreeMap::new(), slack: [0.0; 6], nops: 0 }
    }
    pub fn bounds(&self) -> Vec<u128> {
        let mut v: Vec<u128> = self.pos.keys().flat_map(|k| [k.1, k.2]).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    fn cover<S: Sut<A = A>>(&self, lo: Dd, hi: Dd) -> (Dd, Vec<Key>) {
        let mut l = ZERO;
        let mut ks = vec![];
        for (k, p) in &self.pos {
            if S::dd(S::rp_of(k.1)) <= lo && S::dd(S::rp_of(k.2)) >= hi {
                l = l + S::dd(p.liq);
                ks.push(*k);
            }
        }
        (l, ks)
    }
    /// exact amounts to take the price to the following bounds in a direction: (input without fee, bound, liquidity)
    pub fn ahead<S: Sut<A = A>>(&self, rp: Dd, xin: bool) -> Vec<(Dd, Dd, Dd)> {
        let mut b: Vec<Dd> = self.bounds().iter().map(|&t| S::dd(S::rp_of(t))).collect();
        if xin {
            b.reverse();
        }
        let mut p = rp;
        let mut v = vec![];
        for q in b {
            if xin && q >= p || !xin && q <= p {
                continue;
            }
            let (l, _) = self.cover::<S>(p.min(q), p.max(q));
            let d = if xin { l * (p - q) / (p * q) } else { l * (q - p) };
            v.push((d, q, l));
            p = q;
        }
        v
    }
    /// follow the exact curve
    pub fn walk<S: Sut<A = A>>(&self, c: &Cfg, rp: Dd, xin: bool, amount: Dd, oracle: Dd) -> Walk {
        let f = fee_dd(c);
        let ff = ONE - f;
        let mut left = amount;
        let mut p = rp;
        let mut segs = vec![];
        let ahead = self.ahead::<S>(rp, xin);
        let mut e_in_total = 0.0;
        let mut filled = false;
        let mut alt = None;
        let mut e_rp = 0.0;
        let mut entered = false;
        for (i, &(d, q, l)) in ahead.iter().enumerate() {
            if l.f() <= 0.0 {
                // a gap: the price jumps, if anything is left to trade and there is liquidity beyond
                p = q;
                continue;
            }
            entered = true;
            let lf = l.f();
            let gross_need = d / ff;
            let (to, inn, fee, part) = if gross_need < left {
                (q, d, d * f / ff, false)
            } else {
                let inn = left * ff;
                let to = if xin { l * p / (inn * p + l) } else { p + inn / l };
                (to, inn, left - inn, true)
            };
            let (a, r) = (S::ABS, S::REL);
            let p2 = (p * p.min(to).max(dd(1e-9)) * ONE).f().min((to * to).f());
            let e_in = if xin {
                4.0 * a * (1.0 + (1.0 + inn.f()) / p2) + r * inn.f() + if S::FLOAT { lf / p.f() * 4e-15 } else { 0.0 }
            } else {
                4.0 * a * (1.0 + p.f()) + r * inn.f() + if S::FLOAT { lf * p.f() * 4e-15 } else { 0.0 }
            };
            let e_p = if part {
                let own = 4.0 * a * (1.0 + (1.0 + p.f()) * (1.0 + p.f()) / lf) + if S::FLOAT { 4e-15 * p.f() + r * (p - to).f().abs() } else { 0.0 };
                own + (e_in_total + 4.0 * a) * if xin { (p * p).f() / lf } else { 1.0 / lf }
            } else if S::FLOAT {
                4e-15 * p.f()
            } else {
                0.0
            };
            let (gross, e_out) = if xin {
                (l * (p - to), 4.0 * a + lf * e_p + r * (l * (p - to)).f())
            } else {
                let g = l * (to - p) / (p * to);
                (g, 4.0 * a * (1.0 + (1.0 + g.f()) / p2) + lf * e_p / p2 + r * g.f())
            };
            // oracle adjustment
            let mut adj = ZERO;
            let mut e_adj = 0.0;
            let k = oracle;
            let toward = c.q4 != 0 && k.f() > 0.0 && if xin { k < p } else { k > p };
            if toward {
                let stop = if xin { k.max(to) } else { k.min(to) };
                let (h, e) = if xin {
                    (-hmm_dy(l, p, stop, c.q4, k), tol_hmm_dy(lf, p.f(), stop.f(), c.q4, k.f()))
                } else {
                    (-hmm_dx(l, p, stop, c.q4, k), tol_hmm_dx(lf, p.f(), stop.f(), c.q4, k.f()))
                };
                let plain = if xin { l * (p - stop) } else { l * (stop - p) / (p * stop) };
                adj = plain - h;
                let e = if S::FLOAT { 1e-13 * lf * (1.0 + k.f()) / k.f().min(1.0) + 8e-12 * plain.f() } else { e };
                e_adj = e + e_out * 2.0;
            }
            // (an amount that just reaches the bound may count as ending inside)
            let e_pos = lf * e_p.max(4.0 * a) * if xin { 1.0 / p2 } else { 1.0 };
            // the amount just reaches the bound, or just does not
            let near_amt = (gross_need - left).abs().f() <= 2.0 * e_in / (1.0 - f.f()) + e_pos;
            let (mut e_in, mut e_out) = (e_in, e_out);
            if near_amt {
                e_in += (gross_need - left).abs().f();
                e_out += lf * 4.0 * a * if xin { 1.0 } else { 1.0 / p2 };
                if !part {
                    e_rp = 4.0 * a;
                    alt = Some(q);
                }
            }
            if part {
                e_rp = e_p;
                // close to the bound: the swap may as well have reached it, and jumped a gap behind it
                let near = near_amt || (q - to).abs().f() <= 4.0 * e_p + a;
                if near && i + 1 < ahead.len() && ahead[i + 1].2.f() <= 0.0 {
                    let mut z = ahead[i + 1].1;
                    for n in &ahead[i + 2..] {
                        if n.2.f() > 0.0 {
                            break;
                        }
                        z = n.1;
                    }
                    alt = Some(z);
                }
            }
            let (_, cover) = self.cover::<S>(p.min(q), p.max(q));
            e_in_total += e_in;
            segs.push(Seg { l, from: p, to, inn, fee, gross, adj, e_in, e_out, e_adj, e_pos, cover });
            p = to;
            if part {
                left = ZERO;
                filled = true;
                break;
            }
            left = left - gross_need;
        }
        if !filled {
            // out of liquidity
            if !entered {
                p = rp;
            }
            e_rp = e_rp.max(if S::FLOAT { 4e-15 * p.f() } else { 0.0 });
        }
        let _ = entered;
        // exhausted exactly (or within rounding) at a bound that was counted as passed, gap behind
        Walk { segs, end: p, alt, e_rp: e_rp + S::ABS * 2.0, filled, left }
    }
}

// ---------------------------------------------------------------- operations
#[derive(Clone, Copy, Debug)]
pub enum Op<A> {
    Dep { u: usize, x: A, y: A, ta: u128, tb: u128 },
    Wd { u: usize, l: A, ta: u128, tb: u128 },
    Swap { xin: bool, a: A, oracle: A },
}
pub fn show_op<S: Sut>(o: &Op<S::A>) -> String {
    match o {
        Op::Dep { u, x, y, ta, tb } => format!("{} deposits x {} y {} in [{}, {})", USERS[*u], S::show(*x), S::show(*y), ta, tb),
        Op::Wd { u, l, ta, tb } => format!("{} withdraws {} from [{}, {})", USERS[*u], S::show(*l), ta, tb),
        Op::Swap { xin, a, oracle } => format!("swap {} {} oracle-rp {}", if *xin { "X in" } else { "Y in" }, S::show(*a), S::show(*oracle)),
    }
}
pub fn show_hist<S: Sut>(c: &Cfg, h: &[Op<S::A>]) -> String {
    let v: Vec<String> = h.iter().map(|o| show_op::<S>(o)).collect();
    format!(
        "[{} {} spacing {} start tick {} strength {}/4 fee {}e-12] {}",
        S::NAME,
        c.name,
        c.spacing,
        c.start,
        c.q4,
        c.fee,
        v.join("; ")
    )
}
pub fn run_op<S: Sut>(s: &mut S, o: &Op<S::A>) -> Option<Out<S::A>> {
    match *o {
        Op::Dep { u, x, y, ta, tb } => {
            s.dep(u, x, y, ta, tb);
            None
        }
        Op::Wd { u, l, ta, tb } => {
            s.wd(u, l, ta, tb);
            None
        }
        Op::Swap { xin, a, oracle } => Some(s.swap(xin, a, oracle)),
    }
}
pub fn replay<S: Sut>(c: &Cfg, h: &[Op<S::A>]) -> Option<S> {
    guard(|| {
        let mut s = S::new(c);
        for o in h {
            run_op(&mut s, o);
        }
        s
    })
    .ok()
}

// monitors
pub const M_LIQ: u32 = 1; // C11
pub const M_BAL: u32 = 2; // C12
pub const M_EXIT: u32 = 4; // C13
pub const M_FEE: u32 = 8; // C14
pub const M_CURVE: u32 = 16; // C15
pub const M_SPLIT: u32 = 32; // C16
pub const M_TWIN: u32 = 64; // C17
pub const M_BAD: u32 = 128; // C18
pub const M_SPACING: u32 = 256; // C19
pub const M_ROUND: u32 = 512; // C13 deposit and withdraw at once

pub struct Eng<'a> {
    pub cx: &'a mut Ctx,
    pub mon: u32,
    pub muted: bool,
}
impl Eng<'_> {
    pub fn fail(&mut self, key: &str, desc: impl FnOnce() -> String) {
        if !self.muted {
            let d = desc();
            self.cx.fail(key, d);
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, desc: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, desc);
        }
        ok
    }
    pub fn on(&self, m: u32) -> bool {
        self.mon & m != 0
    }
}

pub fn initial<S: Sut>(c: &Cfg) -> Option<Obs<S::A>> {
    guard(|| S::new(c).obs()).ok()
}

/// the operations offered in a state
pub fn alphabet<S: Sut>(c: &Cfg, m: &Model<S::A>, o: &Obs<S::A>) -> Vec<Op<S::A>> {
    let mut v = vec![];
    for (i, &(ta, tb)) in c.ranges.iter().enumerate() {
        let us = if i == 0 { c.users } else { 1 };
        for u in 0..us {
            let (x, y) = c.amounts[u % c.amounts.len()];
            v.push(Op::Dep { u, x: S::dec(Decimal::new(x, 12, false)), y: S::dec(Decimal::new(y, 12, false)), ta, tb });
        }
    }
    if m.pos.is_empty() {
        return v;
    }
    for (k, p) in &m.pos {
        v.push(Op::Wd { u: k.0, l: p.liq, ta: k.1, tb: k.2 });
        if c.half {
            let h = S::from(S::dd(p.liq) * dd(S::PART));
            v.push(Op::Wd { u: k.0, l: h, ta: k.1, tb: k.2 });
            v.push(Op::Wd { u: k.0, l: S::from(ZERO), ta: k.1, tb: k.2 });
        }
        if c.sliver {
            for part in [S::unit(), S::from(dd(0.5))] {
                if (S::dd(p.liq) - S::dd(part)).f() <= 0.0 {
                    continue;
                }
                v.push(Op::Wd { u: k.0, l: S::sub(p.liq, part), ta: k.1, tb: k.2 });
                v.push(Op::Wd { u: k.0, l: part, ta: k.1, tb: k.2 });
            }
        }
        // down to exactly the liquidity of a position that ends where this one starts, or the other way round:
        // the net liquidity of the shared tick is then nil
        for (k2, p2) in &m.pos {
            if (k.2 == k2.1 || k.1 == k2.2) && (S::dd(p.liq) - S::dd(p2.liq)).f() > 0.0 {
                v.push(Op::Wd { u: k.0, l: S::sub(p.liq, p2.liq), ta: k.1, tb: k.2 });
            }
        }
    }
    v.extend(swaps::<S>(c, m, o));
    v
}
pub fn swaps<S: Sut>(c: &Cfg, m: &Model<S::A>, o: &Obs<S::A>) -> Vec<Op<S::A>> {
    let mut v = vec![];
    let rp = S::dd(o.rp);
    let ff = ONE - fee_dd(c);
    for xin in [true, false] {
        let ahead: Vec<(Dd, Dd, Dd)> = m.ahead::<S>(rp, xin);
        let live: Vec<(Dd, Dd, Dd)> = ahead.iter().copied().filter(|a| a.2.f() > 0.0).collect();
        let total = live.iter().fold(ZERO, |a, b| a + b.0) / ff;
        let mut amts: Vec<S::A> = vec![];
        if live.is_empty() {
            amts.push(S::from(dd(1.5)));
        } else {
            for s in &c.swaps {
                let a = match *s {
                    AmtSpec::Frac(n, d) => S::from(live[0].0 / ff * dd(n as f64) / dd(d as f64)),
                    AmtSpec::Bound(k) => S::ulps(S::from(live[0].0 / ff), k),
                    AmtSpec::Through if live.len() > 1 => S::from((live[0].0 + live[1].0 * dd(0.5)) / ff),
                    AmtSpec::Through2 if live.len() > 2 => S::from((live[0].0 + live[1].0 + live[2].0 * dd(0.5)) / ff),
                    AmtSpec::Through | AmtSpec::Through2 => continue,
                    AmtSpec::Beyond => S::from(total * dd(1.25) + ONE),
                    AmtSpec::Fixed(x) => S::dec(Decimal::new(x, 12, false)),
                };
                if S::dd(a).f() > 0.0 {
                    amts.push(a);
                }
            }
        }
        let next = live.first().map(|a| a.1).unwrap_or(rp);
        let far = if xin { rp * dd(0.8) } else { rp * dd(1.25) };
        let mut oras: Vec<S::A> = vec![];
        for os in &c.oracles {
            oras.push(match os {
                OraSpec::None => S::from(ZERO),
                OraSpec::Far => S::from(far),
                OraSpec::Mid => S::from((rp + next) * dd(0.5)),
                OraSpec::Behind => S::from(if xin { rp * dd(1.25) } else { rp * dd(0.8) }),
                OraSpec::Here => o.rp,
                OraSpec::OnBound => S::from(next),
            });
        }
        if c.q4 == 0 {
            oras = vec![S::from(ZERO)];
        }
        for &a in &amts {
            for &k in &oras {
                v.push(Op::Swap { xin, a, oracle: k });
            }
        }
    }
    v
}

/// Checks one step against the model and updates the model. Returns false if the branch must not be continued.
pub fn step<S: Sut>(
    e: &mut Eng,
    c: &Cfg,
    m: &mut Model<S::A>,
    h: &[Op<S::A>],
    op: &Op<S::A>,
    pre: &Obs<S::A>,
    res: &Result<Option<Out<S::A>>, String>,
    post: Option<&Obs<S::A>>,
) -> bool {
    let hist = || {
        let mut v: Vec<Op<S::A>> = h.to_vec();
        v.push(*op);
        show_hist::<S>(c, &v)
    };
    let a = S::ABS;
    m.nops += 1;
    match *op {
        Op::Dep { u, x, y, ta, tb } => {
            let rp = S::dd(pre.rp);
            let l = match guard(|| S::liq_for(x, y, pre.rp, ta, tb)) {
                Ok(l) => l,
                Err(_) => return false,
            };
            let key = (u, ta, tb);
            let lz = S::dd(l).f() == 0.0;
            if lz && !m.pos.contains_key(&key) {
                // nothing to deposit: no position must come out of it
                if let (Ok(_), Some(p)) = (res, post) {
                    if e.on(M_LIQ) {
                        e.check(p.npos == m.pos.len() && p.ticks == m.bounds(), "empty-position", || {
                            format!("a deposit of no liquidity leaves {} positions, ticks {:?}: {}", p.npos, p.ticks, hist())
                        });
                    }
                    return p.npos == m.pos.len() && p.ticks == m.bounds();
                }
                return false;
            }
            let post = match (res, post) {
                (Ok(_), Some(p)) => p,
                (Err(t), _) => {
                    e.fail("abort:deposit", || format!("deposit refused ({}): {}", t, hist()));
                    return false;
                }
                _ => return false,
            };
            let (pa, pb) = (S::dd(S::rp_of(ta)), S::dd(S::rp_of(tb)));
            let pp = rp.max(pa).min(pb);
            let lf = S::dd(l);
            let (wx, wy) = (lf * (pb - pp) / (pp * pb), lf * (pp - pa));
            let ex = 4.0 * a * (1.0 + (1.0 + wx.f()) / (pp * pb).f()) + S::REL * wx.f() + if S::FLOAT { lf.f() / pp.f() * 4e-15 } else { 0.0 };
            let ey = 4.0 * a + S::REL * wy.f() + if S::FLOAT { lf.f() * pp.f() * 4e-15 } else { 0.0 };
            touched::<S>(e, m, key, pre, post, &hist);
            if e.on(M_BAL) {
                let dx = S::dd(post.x[0]) - S::dd(pre.x[0]);
                let dy = S::dd(post.y[0]) - S::dd(pre.y[0]);
                e.check((dx - wx).f().abs() <= ex && (dy - wy).f().abs() <= ey, "deposit-amounts", || {
                    format!("liquidity {} takes x {:e} y {:e}, exact x {:e} y {:e}: {}", S::show(l), dx.f(), dy.f(), wx.f(), wy.f(), hist())
                });
                let (gx, gy) = (S::dd(x), S::dd(y));
                let over = |v: Dd, g: Dd| (v - g).f() > if S::FLOAT { 1e-12 * (1.0 + g.f()) } else { 1e-15 };
                e.check(!over(dx, gx) && !over(dy, gy), "deposit-takes-more", || {
                    format!("takes x {:e} of {:e}, y {:e} of {:e}: {}", dx.f(), gx.f(), dy.f(), gy.f(), hist())
                });
                unmoved::<S>(e, pre, post, &hist);
            }
            m.slack[0] += ex;
            m.slack[1] += ey;
            let en = m.pos.entry(key).or_insert(Pos { liq: S::from(ZERO), owed: [ZERO; 4], tol: [0.0; 4] });
            en.liq = S::add(en.liq, l);
            en.owed = [ZERO; 4];
            en.tol = [0.0; 4];
            mirror::<S>(e, c, m, post, &hist);
            true
        }
        Op::Wd { u, l, ta, tb } => {
            let key = (u, ta, tb);
            let l = S::eff(l);
            let post = match (res, post) {
                (Ok(_), Some(p)) => p,
                (Err(t), _) => {
                    e.fail("abort:withdraw", || format!("withdrawal refused ({}): {}", t, hist()));
                    return false;
                }
                _ => return false,
            };
            let rp = S::dd(pre.rp);
            let (pa, pb) = (S::dd(S::rp_of(ta)), S::dd(S::rp_of(tb)));
            let pp = rp.max(pa).min(pb);
            let lf = S::dd(l);
            let (wx, wy) = (lf * (pb - pp) / (pp * pb), lf * (pp - pa));
            let ex = 4.0 * a * (1.0 + (1.0 + wx.f()) / (pp * pb).f()) + (S::REL + 2e-12) * wx.f() + if S::FLOAT { lf.f() / pp.f() * 4e-15 } else { 0.0 };
            let ey = 4.0 * a + (S::REL + 2e-12) * wy.f() + if S::FLOAT { lf.f() * pp.f() * 4e-15 } else { 0.0 };
            touched::<S>(e, m, key, pre, post, &hist);
            if e.on(M_BAL) {
                let dx = S::dd(pre.x[0]) - S::dd(post.x[0]);
                let dy = S::dd(pre.y[0]) - S::dd(post.y[0]);
                // reserves may be short of the exact amount by the rounding of earlier operations
                let (sx, sy) = (m.slack[0], m.slack[1]);
                let okx = (dx - wx).f() <= ex && (wx - dx).f() <= ex + sx;
                let oky = (dy - wy).f() <= ey && (wy - dy).f() <= ey + sy;
                e.check(okx && oky, "withdraw-amounts", || {
                    format!("liquidity {} pays x {:e} y {:e}, exact x {:e} y {:e}: {}", S::show(l), dx.f(), dy.f(), wx.f(), wy.f(), hist())
                });
                unmoved::<S>(e, pre, post, &hist);
            }
            m.slack[0] += ex;
            m.slack[1] += ey;
            if let Some(p) = m.pos.get_mut(&key) {
                p.liq = S::sub(p.liq, l);
                p.owed = [ZERO; 4];
                p.tol = [0.0; 4];
                if S::dd(p.liq).f() == 0.0 {
                    m.pos.remove(&key);
                }
            }
            mirror::<S>(e, c, m, post, &hist);
            true
        }
        Op::Swap { xin, a: amt, oracle } => {
            let w = m.walk::<S>(c, S::dd(pre.rp), xin, S::dd(amt), S::dd(oracle));
            let sum = |f: &dyn Fn(&Seg) -> Dd| w.segs.iter().fold(ZERO, |z, s| z + f(s));
            let sume = |f: &dyn Fn(&Seg) -> f64| w.segs.iter().map(|s| f(s)).sum::<f64>();
            let gross = sum(&|s| s.gross);
            let adj = sum(&|s| s.adj);
            let fee = sum(&|s| s.fee);
            let inn = sum(&|s| s.inn);
            let (e_out, e_adj, e_in) = (sume(&|s| s.e_out), sume(&|s| s.e_adj), sume(&|s| s.e_in));
            // what was left of the input at the last segment shifts by the rounding of the earlier ones
            let fr = fee_dd(c).f();
            let e_fee = 4.0 * a * (w.segs.len() as f64 + 1.0) + fr / (1.0 - fr) * (e_in + 4.0 * a) + S::REL * fee.f();
            let pmax = S::dd(pre.rp).f().max(w.end.f());
            let pmin = S::dd(pre.rp).f().min(w.end.f());
            let price = if xin { pmax * pmax } else { 1.0 / (pmin * pmin) };
            let e_out = e_out + e_in * price;
            let e_adj = e_adj + if c.q4 != 0 { e_in * price + 2.0 * e_out } else { 0.0 };
            let (out, post) = match (res, post) {
                (Ok(Some(o)), Some(p)) => (o, p),
                (Err(t), _) => {
                    // refusing a trade whose output is not above rounding is allowed
                    // (which is liquidity times the resolution of the price)
                    let lmax = w.segs.iter().map(|s| s.l.f()).fold(0.0, f64::max);
                    let quant = 4.0 * a * lmax * (1.0 + 1.0 / (pmin * pmin));
                    let dust = (gross - adj).f() <= 2.0 * (e_out + e_adj) + 2.0 * a + quant;
                    if dust {
                        if !e.muted {
                            e.cx.count("dust swaps refused", 1);
                        }
                    } else {
                        e.fail("abort:swap", || format!("swap refused ({}), expected output {:e}: {}", t, (gross - adj).f(), hist()));
                    }
                    return false;
                }
                _ => return false,
            };
            let (i, o) = if xin { (0, 1) } else { (1, 0) };
            let pre_b = [pre.x, pre.y];
            let post_b = [post.x, post.y];
            let (pi, po) = (pre_b[i], pre_b[o]);
            let (qi, qo) = (post_b[i], post_b[o]);
            if e.on(M_BAL) {
                // exact bookkeeping
                let ok = S::cancels(&[(qi[0], 1), (qi[2], 1), (pi[0], -1), (pi[2], -1), (out.recv, -1)])
                    && S::cancels(&[(qi[2], 1), (pi[2], -1), (out.fee, -1)])
                    && S::cancels(&[(qo[0], 1), (po[0], -1), (out.send, -1), (out.adj, 1)])
                    && S::cancels(&[(qo[1], 1), (po[1], -1), (out.adj, -1)])
                    && S::cancels(&[(qi[1], 1), (pi[1], -1)])
                    && S::cancels(&[(qo[2], 1), (po[2], -1)]);
                e.check(ok, "swap-balances", || {
                    format!(
                        "reported in {} out {} adj {} fee {}; in-token {:?} -> {:?}, out-token {:?} -> {:?}: {}",
                        S::show(out.recv),
                        S::show(out.send),
                        S::show(out.adj),
                        S::show(out.fee),
                        pi.map(|z| S::show(z)),
                        qi.map(|z| S::show(z)),
                        po.map(|z| S::show(z)),
                        qo.map(|z| S::show(z)),
                        hist()
                    )
                });
                let f = S::dd(out.fee);
                let want = S::dd(out.recv) * fee_dd(c);
                let tf = 4.0 * a * (w.segs.len() as f64 + 2.0) * (1.0 + fr) + 1e-12 * S::REL.signum() * want.f();
                e.check((f - want).f().abs() <= tf, "fee-rate", || format!("fee {} on input {}, exact {:e}: {}", S::show(out.fee), S::show(out.recv), want.f(), hist()));
                let neg = |z: Dd| z.f() < if S::FLOAT { -1e-9 } else { 0.0 };
                e.check(post_b.iter().flatten().all(|&z| !neg(S::dd(z))), "negative-balance", || format!("balances {:?} {:?}: {}", qi.map(|z| S::show(z)), qo.map(|z| S::show(z)), hist()));
                e.check(S::cancels(&[(pre.liq, 1), (pre.liq, -1)]) && post.npos == pre.npos && post.ticks == pre.ticks, "swap-touches-positions", || {
                    format!("positions {} -> {}, ticks {:?} -> {:?}: {}", pre.npos, post.npos, pre.ticks, post.ticks, hist())
                });
            }
            let rp1 = S::dd(post.rp);
            let e_rp = w.e_rp;
            if e.on(M_CURVE) {
                let (r, s, j) = (S::dd(out.recv), -S::dd(out.send), S::dd(out.adj));
                e.check(r.f() >= 0.0 && s.f() >= 0.0 && j.f() >= 0.0, "signs", || format!("in {} out {} adj {}: {}", S::show(out.recv), S::show(out.send), S::show(out.adj), hist()));
                let dir = if xin { rp1 <= S::dd(pre.rp) } else { rp1 >= S::dd(pre.rp) };
                e.check(dir, "direction", || format!("root price {} -> {}: {}", S::show(pre.rp), S::show(post.rp), hist()));
                let at = (rp1 - w.end).f().abs() <= e_rp || w.alt.map_or(false, |z| (rp1 - z).f().abs() <= e_rp);
                e.check(at, "end-price", || format!("root price ends at {}, exact {:.14} (allowed {:e}): {}", S::show(post.rp), w.end.f(), e_rp, hist()));
                let given = S::dd(amt);
                let over = if S::FLOAT { (r - given).f() > 1e-12 * (1.0 + given.f()) } else { r > given };
                e.check(!over, "takes-more", || format!("takes {} of {}: {}", S::show(out.recv), S::show(amt), hist()));
                if w.filled {
                    let full = if S::FLOAT { (r - given).f().abs() <= 1e-12 * (1.0 + given.f()) + e_in } else { r == given };
                    // the last liquidity may run out within rounding of the amount
                    let edge = w.segs.last().map_or(false, |s| {
                        let nb = m.ahead::<S>(S::dd(pre.rp), xin).iter().filter(|q| q.2.f() > 0.0).last().map(|q| q.1);
                        nb.map_or(false, |q| (s.to - q).f().abs() <= 4.0 * e_rp)
                    });
                    e.check(full || edge && (given - r).f() <= 4.0 * (e_in + e_fee) + 4.0 * a, "not-filled", || {
                        format!("takes {} of {} though liquidity remains: {}", S::show(out.recv), S::show(amt), hist())
                    });
                } else {
                    let want = inn + fee;
                    e.check((r - want).f().abs() <= 2.0 * (e_in + e_fee), "fill-to-last", || {
                        format!("takes {} before liquidity runs out, exact {:e} (allowed {:e}): {}", S::show(out.recv), want.f(), 2.0 * (e_in + e_fee), hist())
                    });
                }
                // the last of the reserves may be short by the rounding of earlier operations
                let short = if S::dd(qo[0]).f() <= 0.0 { m.slack[o] } else { 0.0 };
                let off = (s + j - gross).f();
                e.check(off <= 2.0 * e_out && off >= -2.0 * e_out - short, "output", || {
                    format!("pays {} plus adjustment {}, exact {:.15e} (off {:e}, allowed {:e}): {}", S::show(out.send), S::show(out.adj), gross.f(), (s + j - gross).f(), 2.0 * e_out, hist())
                });
                e.check((j - adj).f().abs() <= 2.0 * e_adj + 2.0 * e_out * (c.q4 != 0) as i32 as f64, "adjustment", || {
                    format!("adjustment {}, exact {:.15e} (allowed {:e}): {}", S::show(out.adj), adj.f(), 2.0 * e_adj + 2.0 * e_out, hist())
                });
                let pr = rp1 * rp1;
                e.check((S::dd(out.end) - pr).f().abs() <= 4.0 * a * (1.0 + rp1.f()) + S::REL * pr.f(), "reported-end", || {
                    format!("reports end price {}, pool root price {}: {}", S::show(out.end), S::show(post.rp), hist())
                });
                if r.f() > 0.0 {
                    let (n, dn) = if xin { (s, r) } else { (r, s) };
                    let avg = S::dd(out.avg);
                    if dn.f() > 0.0 {
                        let q = n / dn;
                        let mut ok = (avg.abs() - q).f().abs() <= 4.0 * a * (1.0 + q.f()) + S::REL * q.f();
                        // the floating-point pool reports the average price with the sign of the flow
                        ok &= S::FLOAT || !(avg.f() < 0.0);
                        e.check(ok, "average-price", || format!("reports {} for in {} out {}: {}", S::show(out.avg), S::show(out.recv), S::show(out.send), hist()));
                        // without fee and adjustment it lies between start and end price
                        let net_in = r - S::dd(out.fee);
                        let g_out = s + j;
                        let (n, dn) = if xin { (g_out, net_in) } else { (net_in, g_out) };
                        if dn.f() > 0.0 && n.f() > 0.0 {
                            let q = (n / dn).f();
                            let (p0, p1) = (S::dd(pre.rp).f().powi(2), pr.f());
                            let rel = (2.0 * e_out + short) / g_out.f() + 2.0 * (e_in + e_fee) / net_in.f() + 1e-12;
                            let (lo, hi) = (p0.min(p1) * (1.0 - rel), p0.max(p1) * (1.0 + rel));
                            e.check(q >= lo && q <= hi, "average-between", || format!("average {:e} outside [{:e}, {:e}]: {}", q, lo, hi, hist()));
                        }
                    }
                }
            }
            // fees to the liquidity that was trading
            for s in &w.segs {
                for k in &s.cover {
                    let p = m.pos.get_mut(k).unwrap();
                    let l = S::dd(p.liq);
                    let share = l / s.l;
                    let (fi, ai) = if xin { (0, 3) } else { (1, 2) };
                    p.owed[fi] = p.owed[fi] + s.fee * share;
                    p.owed[ai] = p.owed[ai] + s.adj * share;
                    let g = l.f() * a * 3.0 + if S::FLOAT { 1e-11 * (s.fee * share).f() + 1e-11 * (s.adj * share).f() } else { 0.0 };
                    p.tol[fi] += g + (4.0 * a + fr / (1.0 - fr) * (s.e_in + e_in) * 2.0) * share.f();
                    p.tol[ai] += g + if c.q4 != 0 { (2.0 * s.e_adj + 4.0 * s.e_out + e_in * price) * share.f() } else { 0.0 };
                }
            }
            if w.alt.is_some() || w.segs.is_empty() || w.segs.last().map_or(false, |s| (s.to - rp1).f().abs() > 0.0) {
                // a swap ending within rounding of a bound may spill dust into the next range
                for p in m.pos.values_mut() {
                    for t in p.tol.iter_mut() {
                        *t += 8.0 * (e_fee + if c.q4 != 0 { e_adj } else { 0.0 }) * 0.0 + 8.0 * a;
                    }
                }
            }
            m.slack[i] += 2.0 * (e_in + sume(&|s| s.e_pos));
            m.slack[o] += 2.0 * e_out;
            m.slack[2 + i] += 2.0 * e_fee;
            m.slack[4 + o] += 2.0 * e_adj;
            mirror::<S>(e, c, m, post, &hist);
            true
        }
    }
}

/// what a position collects when it is touched, and that nothing else leaves the pots
fn touched<S: Sut>(e: &mut Eng, m: &mut Model<S::A>, key: Key, pre: &Obs<S::A>, post: &Obs<S::A>, hist: &dyn Fn() -> String) {
    let (owed, tol) = m.pos.get(&key).map(|p| (p.owed, p.tol)).unwrap_or(([ZERO; 4], [0.0; 4]));
    let pots = |o: &Obs<S::A>| [o.x[2], o.y[2], o.x[1], o.y[1]];
    let (p, q) = (pots(pre), pots(post));
    if e.on(M_FEE) || e.on(M_BAL) {
        let names = ["x fees", "y fees", "x adjustment", "y adjustment"];
        for i in 0..4 {
            let paid = S::dd(p[i]) - S::dd(q[i]);
            let t = 2.0 * tol[i] + 2.0 * S::ABS + if S::FLOAT { 1e-12 * S::dd(p[i]).f() } else { 0.0 };
            e.check((paid - owed[i]).f().abs() <= t, "collected", || {
                format!("{} collected {:e}, earned {:e} (off {:e}, allowed {:e}): {}", names[i], paid.f(), owed[i].f(), (paid - owed[i]).f(), t, hist())
            });
        }
    }
    let dst = [2usize, 3, 4, 5];
    for i in 0..4 {
        m.slack[dst[i]] += 2.0 * tol[i] + 2.0 * S::ABS;
    }
}
fn unmoved<S: Sut>(e: &mut Eng, pre: &Obs<S::A>, post: &Obs<S::A>, hist: &dyn Fn() -> String) {
    e.check(S::cancels(&[(pre.rp, 1), (post.rp, -1)]) && pre.tick == post.tick, "price-moved", || {
        format!("price {} tick {} -> price {} tick {}: {}", S::show(pre.rp), pre.tick, S::show(post.rp), post.tick, hist())
    });
    let neg = |z: Dd| z.f() < if S::FLOAT { -1e-9 } else { 0.0 };
    e.check([post.x, post.y].iter().flatten().all(|&z| !neg(S::dd(z))), "negative-balance", || {
        format!("balances {:?} {:?}: {}", post.x.map(|z| S::show(z)), post.y.map(|z| S::show(z)), hist())
    });
}
/// in-range liquidity, active ticks, current tick against the open positions
fn mirror<S: Sut>(e: &mut Eng, c: &Cfg, m: &Model<S::A>, o: &Obs<S::A>, hist: &dyn Fn() -> String) {
    if !e.on(M_LIQ) {
        return;
    }
    let mut terms: Vec<(S::A, i32)> = vec![(o.liq, -1)];
    for (k, p) in &m.pos {
        if k.1 <= o.tick && o.tick < k.2 {
            terms.push((p.liq, 1));
        }
    }
    e.check(S::cancels(&terms), "liquidity", || {
        format!("in-range liquidity {} at tick {}, covering positions {:?}: {}", S::show(o.liq), o.tick, terms[1..].iter().map(|t| S::show(t.0)).collect::<Vec<_>>(), hist())
    });
    let b = m.bounds();
    e.check(o.ticks == b && o.npos == m.pos.len(), "active-ticks", || format!("active ticks {:?}, {} positions; bounds of open positions {:?}: {}", o.ticks, o.npos, b, hist()));
    // the current tick and the current price agree: the price is inside the (spacing-wide) tick, ends included
    let s = c.spacing;
    let rp = S::dd(o.rp);
    let lo = S::dd(S::rp_of(o.tick));
    let hi = S::dd(S::rp_of((o.tick / s + 1) * s));
    let slop = if S::FLOAT { 1e-14 * rp.f() } else { 0.0 };
    e.check((lo - rp).f() <= slop && (rp - hi).f() <= slop, "tick-vs-price", || {
        format!("tick {} spans [{}, {}] but the root price is {}: {}", o.tick, S::show(S::rp_of(o.tick)), S::show(S::rp_of((o.tick / s + 1) * s)), S::show(o.rp), hist())
    });
    // the price and the covering positions agree, whichever side of a bound the tick is on
    for (k, _) in &m.pos {
        let (pa, pb) = (S::dd(S::rp_of(k.1)), S::dd(S::rp_of(k.2)));
        let inside_tick = k.1 <= o.tick && o.tick < k.2;
        let strictly_in = (rp - pa).f() > slop && (pb - rp).f() > slop;
        let strictly_out = (pa - rp).f() > slop || (rp - pb).f() > slop;
        e.check(!(strictly_in && !inside_tick || strictly_out && inside_tick), "range-vs-price", || {
            format!("range [{}, {}) counted {} at root price {}: {}", k.1, k.2, if inside_tick { "in" } else { "out" }, S::show(o.rp), hist())
        });
    }
}

fn state_hash<S: Sut>(c: &Cfg, o: &Obs<S::A>, m: &Model<S::A>) -> u64 {
    let mut v = vec![c.start, c.spacing, c.q4 as u128, c.fee].iter().map(|&z| z as u64).collect::<Vec<_>>();
    v.push(o.tick as u64);
    for z in o.x.iter().chain(&o.y).chain([&o.liq, &o.rp]) {
        v.push(S::bits(*z));
    }
    for (k, p) in &m.pos {
        v.extend([k.0 as u64, k.1 as u64, k.2 as u64, S::bits(p.liq)]);
        v.extend(p.owed.iter().map(|z| z.f().to_bits()));
    }
    hash64(&v)
}

/// All histories up to the configured depth.
pub fn explore<S: Sut>(e: &mut Eng, c: &Cfg) {
    let Some(o) = initial::<S>(c) else {
        if e.cx.mine() {
            e.fail("abort:new", || format!("pool creation aborts: {:?}", c));
        }
        return;
    };
    // ranges are placed on allowed ticks
    let c = &Cfg { ranges: c.ranges.iter().map(|r| (r.0 / c.spacing * c.spacing, r.1 / c.spacing * c.spacing)).collect(), ..c.clone() };
    let m = Model::new();
    if e.cx.mine() {
        e.check(o.tick == c.start / c.spacing * c.spacing && S::bits(o.rp) == S::bits(S::rp_of(o.tick)), "start-tick", || {
            format!("created at tick {} with root price {}, asked for tick {} spacing {}", o.tick, S::show(o.rp), c.start, c.spacing)
        });
        probes::<S>(e, c, &[], &m, &o);
    }
    let Some((mut h, m, o)) = prefix::<S>(e, c, m, o) else { return };
    rec::<S>(e, c, &mut h, &m, &o, 0);
}
/// carries out what precedes the histories
pub fn prefix<S: Sut>(e: &mut Eng, c: &Cfg, mut m: Model<S::A>, mut o: Obs<S::A>) -> Option<(Vec<Op<S::A>>, Model<S::A>, Obs<S::A>)> {
    let mut h = vec![];
    if c.pre.is_empty() {
        return Some((h, m, o));
    }
    let muted = e.muted;
    e.muted |= !e.cx.mine();
    for p in &c.pre {
        let Some(op) = pre_op::<S>(c, p, &m, &o) else {
            e.fail("setup", || format!("there is no {:?} after {}", p, show_hist::<S>(c, &h)));
            break;
        };
        let r = guard(|| replay::<S>(c, &h).map(|mut s| { let r = guard(|| run_op(&mut s, &op)); (r, guard(|| s.obs()).ok()) }));
        let Ok(Some((r, post))) = r else { break };
        let post = if r.is_ok() { post } else { None };
        let ok = step::<S>(e, c, &mut m, &h, &op, &o, &r, post.as_ref());
        e.cx.transitions += !e.muted as u64;
        h.push(op);
        match post {
            Some(q) if ok => o = q,
            _ => {
                e.fail("setup", || format!("does not get past {}", show_hist::<S>(c, &h)));
                e.muted = muted;
                return None;
            }
        }
    }
    if !e.muted {
        probes::<S>(e, c, &h, &m, &o);
    }
    e.muted = muted;
    Some((h, m, o))
}
pub fn pre_op<S: Sut>(c: &Cfg, p: &Pre, m: &Model<S::A>, o: &Obs<S::A>) -> Option<Op<S::A>> {
    Some(match *p {
        Pre::Dep(u, n, d, ta, tb) => {
            let (x, y) = c.amounts[0];
            let f = |v: u128| S::dec(Decimal::new(v * n as u128 / d as u128, 12, false));
            Op::Dep { u, x: f(x), y: f(y), ta, tb }
        }
        Pre::Wd(u, ta, tb) => Op::Wd { u, l: m.pos.get(&(u, ta, tb))?.liq, ta, tb },
        Pre::Swap(xin, a, k) => {
            let c1 = Cfg { swaps: vec![a], oracles: vec![k], ..c.clone() };
            let v = swaps::<S>(&c1, m, o);
            *v.iter().find(|q| matches!(q, Op::Swap { xin: z, .. } if *z == xin))?
        }
    })
}
fn rec<S: Sut>(e: &mut Eng, c: &Cfg, h: &mut Vec<Op<S::A>>, m: &Model<S::A>, o: &Obs<S::A>, level: usize) {
    for op in alphabet::<S>(c, m, o) {
        // the first levels divide the work
        let split = 2.min(c.depth - 1);
        let mut mine = true;
        if level <= split {
            mine = e.cx.mine();
        }
        let deeper = level < split;
        if level <= split && !mine && !deeper {
            continue;
        }
        let Some(mut s) = replay::<S>(c, h) else {
            continue;
        };
        e.muted = !mine;
        let r = guard(|| run_op(&mut s, &op));
        let post = if r.is_ok() { guard(|| s.obs()).ok() } else { None };
        let mut m2 = m.clone();
        let ok = step::<S>(e, c, &mut m2, h, &op, o, &r, post.as_ref());
        if mine {
            e.cx.transitions += 1;
            e.cx.tick();
        }
        let Some(post) = post else {
            e.muted = false;
            continue;
        };
        if mine {
            e.cx.state(state_hash::<S>(c, &post, &m2));
            if e.cx.samples.len() < 3 && level + 1 == c.depth {
                let mut v = h.clone();
                v.push(op);
                e.cx.sample(|| show_hist::<S>(c, &v));
            }
        }
        h.push(op);
        if ok && mine {
            probes::<S>(e, c, h, &m2, &post);
            if level + 1 == c.depth {
                e.cx.traces += 1;
            }
        }
        e.muted = false;
        // the op itself may belong to another worker while some of its successors are ours
        if ok && level + 1 < c.depth {
            rec::<S>(e, c, h, &m2, &post, level + 1);
        }
        h.pop();
    }
}

/// checks that need extra runs from a reached state
fn probes<S: Sut>(e: &mut Eng, c: &Cfg, h: &[Op<S::A>], m: &Model<S::A>, o: &Obs<S::A>) {
    if e.on(M_EXIT) {
        exits::<S>(e, c, h, m);
    }
    if e.on(M_ROUND) {
        round::<S>(e, c, h, m, o);
    }
    if e.on(M_SPLIT) {
        splits::<S>(e, c, h, m, o);
    }
    if e.on(M_TWIN) {
        let t = Cfg { q4: 0, ..c.clone() };
        twin::<S>(e, c, &t, h, o, true, &|op| *op);
    }
    if e.on(M_SPACING) {
        let t = Cfg { spacing: 1, skew: 0, start: c.start / c.spacing * c.spacing, ..c.clone() };
        twin::<S>(e, c, &t, h, o, false, &|op| *op);
    }
    if e.on(M_BAD) {
        bad::<S>(e, c, h, m, o);
    }
}

/// The same history on a twin pool: without adjustment (`adj`), or with spacing one and the rounded ranges.
fn twin<S: Sut>(e: &mut Eng, c: &Cfg, t: &Cfg, h: &[Op<S::A>], o: &Obs<S::A>, adj: bool, map: &dyn Fn(&Op<S::A>) -> Op<S::A>) {
    if h.is_empty() {
        return;
    }
    let run = |c: &Cfg, f: &dyn Fn(&Op<S::A>) -> Op<S::A>| {
        guard(|| {
            let mut s = S::new(c);
            let mut out = None;
            for op in h {
                out = run_op(&mut s, &f(op));
            }
            (s.obs(), out)
        })
    };
    let Ok((a, ao)) = run(c, &|op| *op) else { return };
    e.cx.transitions += 1;
    let (b, bo) = match run(t, map) {
        Ok(r) => r,
        Err(m) => {
            // dust may be refused in the one and not in the other
            let dust = match (&ao, h.last()) {
                (Some(w), Some(Op::Swap { .. })) => S::dd(w.send).f().abs() < 1e-6,
                _ => false,
            };
            if !dust {
                e.fail("twin-refuses", || format!("the {} pool refuses ({}): {}", if adj { "unadjusted" } else { "spacing-one" }, m, show_hist::<S>(c, h)));
            }
            return;
        }
    };
    let same = |x: S::A, y: S::A| S::cancels(&[(x, 1), (y, -1)]);
    let pots = if adj { [0, 2, 2] } else { [0, 1, 2] };
    let ok = pots.iter().all(|&i| same(a.x[i], b.x[i]) && same(a.y[i], b.y[i])) && same(a.liq, b.liq) && same(a.rp, b.rp) && a.npos == b.npos && a.ticks == b.ticks && (!adj || a.tick == b.tick);
    let _ = o;
    e.check(ok, "twin-state", || {
        format!(
            "price {} / {}, tick {} / {}, liquidity {} / {}, x {:?} / {:?}, y {:?} / {:?} with / without {}: {}",
            S::show(a.rp),
            S::show(b.rp),
            a.tick,
            b.tick,
            S::show(a.liq),
            S::show(b.liq),
            a.x.map(|z| S::show(z)),
            b.x.map(|z| S::show(z)),
            a.y.map(|z| S::show(z)),
            b.y.map(|z| S::show(z)),
            if adj { "adjustment" } else { "spacing" },
            show_hist::<S>(c, h)
        )
    });
    if let (Some(p), Some(q), Some(Op::Swap { xin, oracle, .. })) = (&ao, &bo, h.last()) {
        let ok = same(p.recv, q.recv) && same(p.fee, q.fee) && same(p.end, q.end);
        e.check(ok, "twin-swap", || {
            format!("in {} / {}, fee {} / {}, end price {} / {}: {}", S::show(p.recv), S::show(q.recv), S::show(p.fee), S::show(q.fee), S::show(p.end), S::show(q.end), show_hist::<S>(c, h))
        });
        let ok = S::cancels(&[(p.send, 1), (p.adj, -1), (q.send, -1), (q.adj, 1)]);
        e.check(ok, "twin-difference", || {
            format!("out {} adjustment {} against {} adjustment {}: {}", S::show(p.send), S::show(p.adj), S::show(q.send), S::show(q.adj), show_hist::<S>(c, h))
        });
        if adj {
            let z = |v: S::A| S::dd(v).f() == 0.0;
            e.check(z(q.adj), "adjusted-at-zero", || format!("adjustment {} at strength zero: {}", S::show(q.adj), show_hist::<S>(t, h)));
            e.check(S::dd(p.adj).f() >= 0.0, "adjustment-sign", || format!("adjustment {}: {}", S::show(p.adj), show_hist::<S>(c, h)));
            // start price of this swap
            let start = replay::<S>(c, &h[..h.len() - 1]).map(|s| S::dd(s.obs().rp));
            if let Some(st) = start {
                let k = S::dd(*oracle);
                let diverges = k.f() == 0.0 || if *xin { k >= st } else { k <= st };
                e.check(!diverges || z(p.adj), "adjusted-diverging", || format!("adjustment {} on a trade away from the oracle: {}", S::show(p.adj), show_hist::<S>(c, h)));
            }
        }
    }
}

/// requests that must be refused, and requests without effect
fn bad<S: Sut>(e: &mut Eng, c: &Cfg, h: &[Op<S::A>], m: &Model<S::A>, o: &Obs<S::A>) {
    let n = |v: f64| S::neg_of(dd(v));
    let one = S::from(ONE);
    let zero = S::from(ZERO);
    let mut ops: Vec<(&'static str, Op<S::A>)> = vec![];
    for xin in [true, false] {
        for k in [zero, o.rp] {
            ops.push(("zero swap", Op::Swap { xin, a: zero, oracle: k }));
            ops.push(("negative swap", Op::Swap { xin, a: n(1.0), oracle: k }));
            ops.push(("negative swap", Op::Swap { xin, a: n(1e-9), oracle: k }));
        }
    }
    let (ra, rb) = c.ranges[0];
    ops.push(("negative deposit", Op::Dep { u: 0, x: n(1.0), y: one, ta: ra, tb: rb }));
    ops.push(("negative deposit", Op::Dep { u: 0, x: one, y: n(1.0), ta: ra, tb: rb }));
    ops.push(("negative deposit", Op::Dep { u: 0, x: n(2.0), y: n(2.0), ta: ra, tb: rb }));
    let lots = S::from(dd(50.0));
    for &(ta, tb) in &c.ranges {
        ops.push(("deposit into an empty range", Op::Dep { u: 0, x: lots, y: lots, ta, tb: ta }));
        ops.push(("deposit into an empty range", Op::Dep { u: 0, x: lots, y: lots, ta: tb, tb }));
        ops.push(("deposit into an inverted range", Op::Dep { u: 0, x: lots, y: lots, ta: tb, tb: ta }));
        if c.spacing > 1 {
            ops.push(("deposit into a range empty after rounding", Op::Dep { u: 0, x: lots, y: lots, ta, tb: ta + c.spacing - 1 }));
        }
        for u in 0..3 {
            match m.pos.get(&(u, ta, tb)) {
                None => {
                    ops.push(("withdrawal without position", Op::Wd { u, l: one, ta, tb }));
                    ops.push(("withdrawal without position", Op::Wd { u, l: S::from(dd(1000.0)), ta, tb }));
                }
                Some(p) => {
                    ops.push(("withdrawal of more than held", Op::Wd { u, l: S::add(p.liq, S::unit()), ta, tb }));
                    ops.push(("withdrawal of more than held", Op::Wd { u, l: S::add(p.liq, p.liq), ta, tb }));
                    ops.push(("negative withdrawal", Op::Wd { u, l: n(1.0), ta, tb }));
                    // the bounds must be those of the position
                    let s = c.spacing;
                    for (xa, xb) in [(ta + s, tb), (ta, tb + s), (ta - s, tb), (ta, tb - s)] {
                        if xa < xb && !m.pos.contains_key(&(u, xa, xb)) {
                            ops.push(("withdrawal from a range not held", Op::Wd { u, l: p.liq, ta: xa, tb: xb }));
                        }
                    }
                    ops.push(("withdrawal from an inverted range", Op::Wd { u, l: p.liq, ta: tb, tb: ta }));
                }
            }
        }
    }
    for (what, op) in ops {
        let Some(mut s) = replay::<S>(c, h) else { return };
        e.cx.transitions += 1;
        let r = guard(|| run_op(&mut s, &op));
        e.check(r.is_err(), "accepted", || format!("{} is accepted: {}; then {}", what, show_hist::<S>(c, h), show_op::<S>(&op)));
    }
    // withdrawing nothing: the balances change by what is owed, the positions not at all
    for (k, p) in &m.pos {
        let Some(mut s) = replay::<S>(c, h) else { return };
        e.cx.transitions += 2;
        let op = Op::Wd { u: k.0, l: zero, ta: k.1, tb: k.2 };
        // (the first collects what is owed)
        let r = guard(|| {
            run_op(&mut s, &op);
            let a = s.obs();
            run_op(&mut s, &op);
            (a, s.obs())
        });
        let show = || format!("{}; then twice {}", show_hist::<S>(c, h), show_op::<S>(&op));
        match r {
            Err(t) => e.fail("zero-withdrawal-refused", || format!("refused ({}): {}", t, show())),
            Ok((a, b)) => {
                let same = |p: &Obs<S::A>, q: &Obs<S::A>, pots: bool| {
                    (0..3).all(|i| i > 0 && !pots || S::cancels(&[(p.x[i], 1), (q.x[i], -1)]) && S::cancels(&[(p.y[i], 1), (q.y[i], -1)]))
                        && S::cancels(&[(p.liq, 1), (q.liq, -1)])
                        && S::cancels(&[(p.rp, 1), (q.rp, -1)])
                        && (p.tick, p.npos, &p.ticks) == (q.tick, q.npos, &q.ticks)
                };
                e.check(same(&a, &b, true), "zero-withdrawal", || format!("a withdrawal of nothing changes {:?} to {:?}: {}", a, b, show()));
                e.check(same(o, &a, false), "zero-withdrawal", || format!("a withdrawal of nothing changes {:?} to {:?}: {}", o, a, show()));
                if p.owed.iter().all(|v| v.f() == 0.0) && p.tol.iter().all(|t| *t == 0.0) {
                    e.check(same(o, &a, true), "zero-withdrawal", || format!("a withdrawal of nothing changes {:?} to {:?}: {}", o, a, show()));
                }
            }
        }
    }
    // deposits that are worth no liquidity
    for &(ta, tb) in &c.ranges {
        let (pa, pb) = (S::dd(S::rp_of(ta)), S::dd(S::rp_of(tb)));
        let rp = S::dd(o.rp);
        let mut none = vec![(zero, zero)];
        if rp > pa {
            none.push((lots, zero));
        }
        if rp < pb {
            none.push((zero, lots));
        }
        for (x, y) in none {
            if m.pos.contains_key(&(1, ta, tb)) {
                continue;
            }
            let Some(mut s) = replay::<S>(c, h) else { return };
            e.cx.transitions += 1;
            let op = Op::Dep { u: 1, x, y, ta, tb };
            let r = guard(|| {
                run_op(&mut s, &op);
                s.obs()
            });
            if let Ok(q) = r {
                let ok = q.npos == o.npos && q.ticks == o.ticks && (0..3).all(|i| S::cancels(&[(q.x[i], 1), (o.x[i], -1)]) && S::cancels(&[(q.y[i], 1), (o.y[i], -1)]));
                e.check(ok, "empty-deposit", || format!("a deposit worth no liquidity changes {:?} to {:?}: {}; then {}", o, q, show_hist::<S>(c, h), show_op::<S>(&op)));
            }
        }
    }
    // no liquidity at all: nothing is exchanged
    if m.pos.is_empty() {
        for xin in [true, false] {
            for a in [1e-9, 1.0, 1e6] {
                for k in [zero, o.rp, S::from(S::dd(o.rp) * dd(0.9)), S::from(S::dd(o.rp) * dd(1.1))] {
                    let Some(mut s) = replay::<S>(c, h) else { return };
                    e.cx.transitions += 1;
                    let op = Op::Swap { xin, a: S::from(dd(a)), oracle: k };
                    let r = guard(|| (run_op(&mut s, &op).unwrap(), s.obs()));
                    if let Ok((w, q)) = r {
                        let z = |v: S::A| S::dd(v).f() == 0.0;
                        let ok = z(w.recv) && z(w.send) && z(w.adj) && z(w.fee) && (0..3).all(|i| S::cancels(&[(q.x[i], 1), (o.x[i], -1)]) && S::cancels(&[(q.y[i], 1), (o.y[i], -1)]));
                        e.check(ok, "empty-swap", || {
                            format!("in {} out {} in a pool without liquidity, {:?} to {:?}: {}; then {}", S::show(w.recv), S::show(w.send), o, q, show_hist::<S>(c, h), show_op::<S>(&op))
                        });
                    }
                }
            }
        }
    }
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q: Vec<usize> = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}
fn exits<S: Sut>(e: &mut Eng, c: &Cfg, h: &[Op<S::A>], m: &Model<S::A>) {
    let ks: Vec<(Key, S::A)> = m.pos.iter().map(|(k, p)| (*k, p.liq)).collect();
    if ks.is_empty() {
        return;
    }
    for p in orders(ks.len()) {
        let Some(mut s) = replay::<S>(c, h) else { return };
        let mut done = h.to_vec();
        let mut bad = None;
        for &i in &p {
            let (k, l) = ks[i];
            done.push(Op::Wd { u: k.0, l, ta: k.1, tb: k.2 });
            if let Err(t) = guard(|| s.wd(k.0, l, k.1, k.2)) {
                bad = Some(t);
                break;
            }
        }
        e.cx.transitions += p.len() as u64;
        if let Some(t) = bad {
            e.fail("exit-refused", || format!("exit refused ({}): {}", t, show_hist::<S>(c, &done)));
            continue;
        }
        let Ok(o) = guard(|| s.obs()) else { return };
        let n = ks.len() as f64;
        let mut lim = m.slack;
        for (k, l) in &ks {
            let po = &m.pos[k];
            let lf = S::dd(*l).f();
            let (pa, pb) = (S::dd(S::rp_of(k.1)).f(), S::dd(S::rp_of(k.2)).f());
            lim[0] += (S::REL + 2e-12) * lf * (pb - pa) / (pa * pb) + 4.0 * S::ABS * (1.0 + (1.0 + lf * (pb - pa)) / (pa * pa)) + if S::FLOAT { 8e-15 * lf / pa } else { 0.0 };
            lim[1] += (S::REL + 2e-12) * lf * (pb - pa) + 4.0 * S::ABS + if S::FLOAT { 8e-15 * lf * pb } else { 0.0 };
            for (i, j) in [(0usize, 2usize), (1, 3), (2, 4), (3, 5)] {
                lim[j] += 2.0 * po.tol[i];
            }
        }
        let left = [o.x[0], o.y[0], o.x[2], o.y[2], o.x[1], o.y[1]];
        for i in 0..6 {
            let v = S::dd(left[i]).f();
            let lo = if S::FLOAT { -2.0 * lim[i] } else { 0.0 };
            e.check(v >= lo && v <= 2.0 * lim[i] + 8.0 * S::ABS * (n + 1.0), "left-over", || {
                format!("{} {:e} left after everyone left (allowed {:e}): {}", ["x", "y", "x fees", "y fees", "x adj", "y adj"][i], v, 2.0 * lim[i] + 8.0 * S::ABS * (n + 1.0), show_hist::<S>(c, &done))
            });
        }
        e.check(o.npos == 0 && o.ticks.is_empty() && S::dd(o.liq).f() == 0.0, "not-empty", || {
            format!("{} positions, ticks {:?}, liquidity {} left: {}", o.npos, o.ticks, S::show(o.liq), show_hist::<S>(c, &done))
        });
    }
}
/// all orders, or with many positions all choices of the first and the last
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 {
        return perms(n);
    }
    let mut v = vec![];
    for a in 0..n {
        for b in (0..n).filter(|b| *b != a) {
            let mut p: Vec<usize> = vec![a];
            p.extend((0..n).filter(|z| *z != a && *z != b));
            if (a + b) % 2 == 0 {
                p[1..].reverse();
            }
            p.push(b);
            v.push(p);
        }
    }
    v
}
/// deposit and leave at once: never more out than in
fn round<S: Sut>(e: &mut Eng, c: &Cfg, h: &[Op<S::A>], _m: &Model<S::A>, o: &Obs<S::A>) {
    for &(ta, tb) in &c.ranges {
        let (x, y) = c.amounts[0];
        let (x, y) = (S::dec(Decimal::new(x, 12, false)), S::dec(Decimal::new(y, 12, false)));
        let Ok(l) = guard(|| S::liq_for(x, y, o.rp, ta, tb)) else { continue };
        if S::dd(l).f() <= 0.0 {
            continue;
        }
        let Some(mut s) = replay::<S>(c, h) else { return };
        let mut done = h.to_vec();
        done.push(Op::Dep { u: 2, x, y, ta, tb });
        done.push(Op::Wd { u: 2, l, ta, tb });
        let r = guard(|| {
            s.dep(2, x, y, ta, tb);
            s.wd(2, l, ta, tb);
        });
        e.cx.transitions += 2;
        if let Err(t) = r {
            e.fail("round-refused", || format!("deposit and withdrawal refused ({}): {}", t, show_hist::<S>(c, &done)));
            continue;
        }
        let q = s.obs();
        let tot = |o: &Obs<S::A>| [S::dd(o.x[0]) + S::dd(o.x[1]) + S::dd(o.x[2]), S::dd(o.y[0]) + S::dd(o.y[1]) + S::dd(o.y[2])];
        let (a, b) = (tot(o), tot(&q));
        let slop = |v: Dd, put: S::A| if S::FLOAT { 1e-13 * v.f() + 1e-13 + 4e-16 * S::dd(put).f() } else { 0.0 };
        e.check((a[0] - b[0]).f() <= slop(a[0], x) && (a[1] - b[1]).f() <= slop(a[1], y), "round-gains", || {
            format!("pool holds x {:.15e} -> {:.15e}, y {:.15e} -> {:.15e}: {}", a[0].f(), b[0].f(), a[1].f(), b[1].f(), show_hist::<S>(c, &done))
        });
        e.check(q.npos == o.npos && q.ticks == o.ticks && S::cancels(&[(q.liq, 1), (o.liq, -1)]), "round-residue", || {
            format!("positions {} -> {}, ticks {:?} -> {:?}: {}", o.npos, q.npos, o.ticks, q.ticks, show_hist::<S>(c, &done))
        });
    }
}
/// splitting a swap, and coming back
fn splits<S: Sut>(e: &mut Eng, c: &Cfg, h: &[Op<S::A>], m: &Model<S::A>, o: &Obs<S::A>) {
    if m.pos.is_empty() {
        return;
    }
    for op in swaps::<S>(c, m, o) {
        let Op::Swap { xin, a, oracle } = op else { continue };
        let w = m.walk::<S>(c, S::dd(o.rp), xin, S::dd(a), S::dd(oracle));
        if w.segs.is_empty() {
            continue;
        }
        let pmax = S::dd(o.rp).f().max(w.end.f());
        let pmin = S::dd(o.rp).f().min(w.end.f());
        let price = if xin { pmax * pmax } else { 1.0 / (pmin * pmin) };
        let e_in: f64 = w.segs.iter().map(|s| s.e_in).sum();
        let e1: f64 = w.segs.iter().map(|s| s.e_out + s.e_adj).sum::<f64>() + e_in * price;
        // a piece ends somewhere inside a range: price rounding times liquidity, for each piece
        let lmax = w.segs.iter().map(|s| s.l.f()).fold(0.0, f64::max);
        let kfac = if c.q4 == 4 { crate::math::LN_ABS * lmax * (S::dd(oracle).f() + 1.0 / S::dd(oracle).f().max(0.1)) } else { 0.0 };
        let per = 8.0 * S::ABS * (1.0 + lmax) * (1.0 + pmax) * (1.0 + 1.0 / (pmin * pmin)) + kfac + S::REL * 4.0 * w.segs.iter().map(|s| s.gross.f()).sum::<f64>() + if S::FLOAT { 1e-14 * lmax * (pmax + 1.0 / pmin) } else { 0.0 };
        let Some(mut one) = replay::<S>(c, h) else { return };
        let Ok(r1) = guard(|| one.swap(xin, a, oracle)) else { continue };
        let end1 = one.obs();
        e.cx.transitions += 1;
        for (n, dn) in [(1u32, 2u32), (1, 3), (9, 10)] {
            let a1 = S::from(S::dd(a) * dd(n as f64) / dd(dn as f64));
            let a2 = S::sub(a, a1);
            if S::dd(a1).f() <= 0.0 || S::dd(a2).f() <= 0.0 {
                continue;
            }
            let Some(mut two) = replay::<S>(c, h) else { return };
            let mut got = vec![];
            let r = guard(|| {
                for q in [a1, a2] {
                    got.push(two.swap(xin, q, oracle));
                }
            });
            e.cx.transitions += 2;
            if r.is_err() {
                continue; // a piece may be too small to trade
            }
            let out2 = -(S::dd(got[0].send) + S::dd(got[1].send));
            let out1 = -S::dd(r1.send);
            let lim = 4.0 * (e1 + 2.0 * per);
            e.check((out2 - out1).f() <= lim, "split-gains", || {
                format!(
                    "in one piece {:.15e}, split {}/{} {:.15e} (gain {:e}, allowed {:e}): {}; then {}",
                    out1.f(),
                    n,
                    dn,
                    out2.f(),
                    (out2 - out1).f(),
                    lim,
                    show_hist::<S>(c, h),
                    show_op::<S>(&op)
                )
            });
            let end2 = two.obs();
            if c.fee == 0 {
                let d = (S::dd(end1.rp) - S::dd(end2.rp)).f().abs();
                let lmin = w.segs.iter().map(|s| s.l.f()).fold(f64::MAX, f64::min);
                let lim = 8.0 * w.e_rp + 16.0 * S::ABS * (1.0 + (1.0 + pmax * pmax) / lmin * (2.0 + 1.0 / (pmin * pmin))) + 4.0 * e_in * (pmax * pmax + 1.0) / lmin + if S::FLOAT { 1e-11 * pmax } else { 0.0 };
                // ending next to a gap, one of the two may be across it
                let gap = m.ahead::<S>(S::dd(o.rp), xin).iter().any(|q| q.2.f() <= 0.0 && (q.1 - S::dd(end1.rp)).f().abs().min((q.1 - S::dd(end2.rp)).f().abs()) <= lim);
                e.check(d <= lim || gap, "split-price", || {
                    format!("ends at {} in one piece, {} split {}/{} (allowed {:e}): {}; then {}", S::show(end1.rp), S::show(end2.rp), n, dn, lim, show_hist::<S>(c, h), show_op::<S>(&op))
                });
            }
        }
        // and back with what was paid out
        let back = S::from(-S::dd(r1.send));
        if S::dd(back).f() > 0.0 {
            for k in [oracle, S::from(ZERO)] {
                let Some(mut s) = replay::<S>(c, h) else { return };
                let r = guard(|| {
                    s.swap(xin, a, oracle);
                    s.swap(!xin, back, k)
                });
                e.cx.transitions += 2;
                if let Ok(r) = r {
                    let got = -S::dd(r.send);
                    let spent = S::dd(r1.recv);
                    let inv = if xin { 1.0 / (pmin * pmin) } else { pmax * pmax };
                    let lim = 4.0 * (e1 + 2.0 * per) * (1.0 + inv) + 4.0 * e_in;
                    e.check((got - spent).f() <= lim, "round-trip-gains", || {
                        format!("puts in {:.15e}, gets back {:.15e} (gain {:e}, allowed {:e}): {}; then {} and back with oracle {}", spent.f(), got.f(), (got - spent).f(), lim, show_hist::<S>(c, h), show_op::<S>(&op), S::show(k))
                    });
                }
                if c.q4 == 0 {
                    break;
                }
            }
        }
    }
}

pub fn base_cfg(name: &str) -> Cfg {
    Cfg {
        name: name.into(),
        spacing: 1,
        skew: 0,
        start: 100,
        q4: 0,
        fee: 0,
        ranges: vec![(90, 110), (100, 120), (80, 140)],
        amounts: vec![(100_000_000_000_000, 100_000_000_000_000), (37_500_000_000_000, 41_250_000_000_000)],
        swaps: vec![AmtSpec::Frac(1, 2), AmtSpec::Bound(0), AmtSpec::Through, AmtSpec::Beyond],
        oracles: vec![OraSpec::None],
        users: 2,
        half: true,
        sliver: false,
        depth: 4,
        pre: vec![],
    }
}
pub const FEE: u128 = 3_000_000_000;

pub fn layouts() -> Vec<(&'static str, Vec<(u128, u128)>)> {
    vec![
        ("overlapping", vec![(90, 110), (100, 120), (80, 140)]),
        ("gaps", vec![(95, 105), (110, 120), (80, 90)]),
        ("adjacent", vec![(90, 100), (100, 110), (90, 110)]),
    ]
}

pub fn configs(d: usize) -> Vec<Cfg> {
    let mut v = vec![];
    for (n, r) in layouts() {
        for fee in [0, FEE] {
            let mut c = base_cfg(n);
            c.ranges = r.clone();
            c.fee = fee;
            c.depth = d;
            v.push(c);
        }
    }
    // exact and off-by-one-ulp arrival at bounds
    let mut c = base_cfg("ulps");
    c.swaps = vec![AmtSpec::Bound(-1), AmtSpec::Bound(1), AmtSpec::Frac(1, 1000), AmtSpec::Fixed(1_000_000)];
    c.ranges = vec![(95, 105), (105, 120), (80, 90)];
    c.half = false;
    c.depth = d;
    v.push(c.clone());
    c.fee = FEE;
    v.push(c);
    // nearly everything, or nearly nothing withdrawn
    for q4 in [0, 8] {
        let mut c = base_cfg("slivers");
        c.ranges = vec![(90, 110), (80, 100)];
        c.q4 = q4;
        c.fee = FEE;
        c.swaps = vec![AmtSpec::Frac(1, 2), AmtSpec::Beyond];
        c.oracles = if q4 == 0 { vec![OraSpec::None] } else { vec![OraSpec::Far] };
        c.users = 1;
        c.half = false;
        c.sliver = true;
        c.depth = d;
        v.push(c);
    }
    // strengths
    for q4 in [4, 5, 6, 8] {
        let mut c = base_cfg("oracle");
        c.q4 = q4;
        c.fee = if q4 == 6 { FEE } else { 0 };
        c.ranges = vec![(90, 110), (100, 120)];
        c.swaps = vec![AmtSpec::Frac(1, 2), AmtSpec::Through, AmtSpec::Beyond];
        c.oracles = vec![OraSpec::Far, OraSpec::Mid, OraSpec::Behind];
        c.half = true;
        c.users = 1;
        c.depth = d;
        v.push(c);
    }
    // spacing
    for (s, st) in [(10u128, 104u128), (7, 100)] {
        let mut c = base_cfg("spaced");
        c.spacing = s;
        c.start = st;
        c.fee = if s == 10 { FEE } else { 0 };
        c.ranges = vec![(91, 115), (103, 127), (75, 149)];
        c.depth = d;
        v.push(c);
    }
    // dear and almost free
    for (fee, q4) in [(300_000_000_000u128, 0), (990_000_000_000, 6), (1, 5)] {
        let mut c = base_cfg("fees");
        c.ranges = vec![(90, 110), (100, 120)];
        c.q4 = q4;
        c.fee = fee;
        c.swaps = vec![AmtSpec::Frac(1, 2), AmtSpec::Bound(0), AmtSpec::Through, AmtSpec::Beyond];
        c.oracles = if q4 == 0 { vec![OraSpec::None] } else { vec![OraSpec::Far] };
        c.users = 1;
        c.depth = d;
        v.push(c);
    }
    // dust and fortunes: from a ten-thousandth of a token to ten thousand million tokens
    for (u, q4, fee) in [(100_000_000u128, 0, FEE), (20_000_000_000, 6, 0), (100_000_000_000_000_000_000, 0, FEE), (10_000_000_000_000_000_000_000, 6, FEE)] {
        let mut c = base_cfg("magnitude");
        c.amounts = vec![(u, u), (u / 3, u / 2)];
        c.ranges = vec![(90, 110), (80, 100)];
        c.q4 = q4;
        c.fee = fee;
        c.swaps = vec![AmtSpec::Frac(1, 2), AmtSpec::Through, AmtSpec::Beyond];
        c.oracles = if q4 == 0 { vec![OraSpec::None] } else { vec![OraSpec::Far] };
        c.users = 1;
        c.depth = d;
        v.push(c);
    }
    v
}

/// pools with a past: many positions, or many trades; short histories from there
pub fn rich_configs(d: usize, q4: &[i32]) -> Vec<Cfg> {
    use AmtSpec::*;
    let mut v = vec![];
    for &q4 in q4 {
        let mk = |n: &str, pre: Vec<Pre>| {
            let mut c = base_cfg(n);
            c.q4 = q4;
            c.fee = if q4 == 8 { 0 } else { FEE };
            c.ranges = vec![(90, 110), (60, 140)];
            c.users = 1;
            c.half = false;
            c.swaps = vec![Frac(1, 2), Through, Through2, Beyond];
            if q4 != 0 {
                c.oracles = vec![OraSpec::Far, OraSpec::Mid];
                c.swaps = vec![Frac(1, 2), Through2, Beyond];
            }
            c.pre = pre;
            c.depth = d;
            c
        };
        let sw = |xin, a| Pre::Swap(xin, a, OraSpec::Far);
        // a rung every ten ticks, and one wide position
        let mut p: Vec<Pre> = (0..8).map(|k| Pre::Dep([0, 1, 3][k % 3], 1 + k as u32, 4, 60 + 10 * k as u128, 70 + 10 * k as u128)).collect();
        p.push(Pre::Dep(1, 1, 2, 60, 140));
        v.push(mk("ladder", p));
        // the same ranges held by several, nested and crossing
        let mut p = vec![];
        for (k, (a, b)) in [(90u128, 110u128), (90, 130), (70, 110), (100, 110), (90, 100), (60, 140)].into_iter().enumerate() {
            p.push(Pre::Dep(0, 1, 1 + k as u32, a, b));
            if k % 2 == 0 {
                p.push(Pre::Dep(1, 2, 3 + k as u32, a, b));
            } else {
                p.push(Pre::Dep(3, 1, 7, a, b));
            }
        }
        v.push(mk("crowd", p));
        // traded up and down across the bounds with deposits and exits in between
        v.push(mk(
            "worn",
            vec![
                Pre::Dep(0, 1, 1, 90, 110),
                Pre::Dep(1, 1, 2, 60, 140),
                sw(false, Through),
                Pre::Dep(0, 1, 3, 105, 120),
                sw(true, Frac(1, 3)),
                sw(true, Through2),
                Pre::Dep(3, 2, 1, 80, 90),
                sw(false, Through),
                Pre::Wd(0, 90, 110),
                sw(true, Frac(1, 2)),
                Pre::Dep(0, 1, 1, 90, 110),
                sw(false, Through2),
            ],
        ));
        // everything sold out on either side, then liquidity at a distance
        for xin in [false, true] {
            v.push(mk(
                "sold-out",
                vec![Pre::Dep(0, 1, 1, 90, 110), Pre::Dep(1, 1, 3, 95, 105), sw(xin, Beyond), Pre::Dep(3, 1, 2, if xin { 60 } else { 120 }, if xin { 80 } else { 140 }), sw(!xin, Frac(1, 2)), sw(xin, Beyond), Pre::Dep(1, 1, 1, 60, 140)],
            ));
        }
        // a gap on both sides of the price
        v.push(mk("islands", vec![Pre::Dep(0, 1, 1, 101, 104), Pre::Dep(1, 1, 1, 92, 97), Pre::Dep(3, 1, 1, 120, 122), Pre::Dep(0, 1, 5, 70, 71), sw(false, Through), sw(true, Through)]));
    }
    v
}
pub fn run_rich<S: Sut>(cx: &mut Ctx, mon: u32, d: usize, q4: &[i32]) {
    for c in &rich_configs(d, q4) {
        let mut e = Eng { cx, mon, muted: false };
        explore::<S>(&mut e, c);
    }
}

pub fn run_mon(cx: &mut Ctx, mon: u32, quick: usize, thorough: usize) {
    let d = cx.pick(quick, thorough);
    for c in &configs(d) {
        let mut e = Eng { cx, mon, muted: false };
        explore::<Fx>(&mut e, c);
    }
    // the floating-point pool, one operation less
    for c in &configs(d - 1) {
        let mut e = Eng { cx, mon, muted: false };
        explore::<Ff>(&mut e, c);
    }
    let costly = mon & (M_EXIT | M_SPLIT) != 0;
    let d = rich_depth(cx.tier, costly);
    run_rich::<Fx>(cx, mon, d, &[0, 5]);
    run_rich::<Ff>(cx, mon, d, &[0, 5]);
}
fn rich_depth(t: crate::fw::Tier, costly: bool) -> usize {
    3 - costly as usize + (t == crate::fw::Tier::Thorough) as usize
}
fn rich_bounds(d: usize, q4: &[i32]) -> String {
    let v: Vec<String> = rich_configs(d, q4).iter().map(|c| format!("{} (strength {}/4): {:?}", c.name, c.q4, c.pre)).collect();
    format!("; and every history of up to {} further operations (the same kinds) in both pools after each of these setups: {}", d, v.join(" | "))
}
pub fn c11(cx: &mut Ctx) {
    run_mon(cx, M_LIQ, 5, 6)
}
pub fn c12(cx: &mut Ctx) {
    run_mon(cx, M_BAL, 5, 6)
}
pub fn c13(cx: &mut Ctx) {
    run_mon(cx, M_EXIT | M_ROUND, 5, 5)
}
pub fn c14(cx: &mut Ctx) {
    run_mon(cx, M_FEE, 5, 6)
}
pub fn c15(cx: &mut Ctx) {
    run_mon(cx, M_CURVE, 5, 6)
}
pub fn c16(cx: &mut Ctx) {
    run_mon(cx, M_SPLIT, 4, 5)
}
/// strengths, with every relation of the oracle to the trade
fn oracle_configs(d: usize) -> Vec<Cfg> {
    let mut v = vec![];
    for q4 in [4, 5, 6, 8] {
        for (i, (n, r)) in layouts().into_iter().enumerate() {
            let mut c = base_cfg(n);
            c.q4 = q4;
            c.fee = if (i + q4 as usize) % 2 == 0 { FEE } else { 0 };
            c.ranges = r[..2].to_vec();
            c.swaps = vec![AmtSpec::Frac(1, 2), AmtSpec::Through, AmtSpec::Beyond];
            c.oracles = vec![OraSpec::None, OraSpec::Far, OraSpec::Mid, OraSpec::Behind, OraSpec::Here, OraSpec::OnBound];
            c.half = false;
            c.users = 1;
            c.depth = d;
            v.push(c);
        }
    }
    v
}
pub fn c17(cx: &mut Ctx) {
    let d = cx.pick(4, 5);
    for c in &oracle_configs(d) {
        let mut e = Eng { cx, mon: M_TWIN | M_CURVE, muted: false };
        explore::<Fx>(&mut e, c);
        explore::<Ff>(&mut e, c);
    }
    let d = rich_depth(cx.tier, true);
    run_rich::<Fx>(cx, M_TWIN | M_CURVE, d, &[4, 5, 6, 8]);
    run_rich::<Ff>(cx, M_TWIN | M_CURVE, d, &[4, 5, 6, 8]);
}
pub fn bounds_17(t: crate::fw::Tier) -> String {
    bounds_of(oracle_configs(if t == crate::fw::Tier::Quick { 4 } else { 5 })) + "; fixed-point and floating-point pool, each in lock-step with the same history at strength zero" + &rich_bounds(rich_depth(t, true), &[4, 5, 6, 8])
}
/// a bad parameter must be refused; a pool that is created must trade
pub fn params<S: Sut>(e: &mut Eng) {
    for q4 in 0..=12 {
        for fee in [0, FEE, 10_000_000_000, 500_000_000_000, 999_000_000_000, 1_000_000_000_000, 1_500_000_000_000] {
            for spacing in [0u128, 1, 2, 10] {
                if !e.cx.mine() {
                    continue;
                }
                let mut c = base_cfg("parameters");
                c.q4 = q4;
                c.fee = fee;
                c.spacing = spacing;
                e.cx.transitions += 1;
                let r = guard(|| {
                    S::new(&c);
                });
                let bad = fee >= 1_000_000_000_000 || spacing == 0 || q4 > 8;
                if bad {
                    e.check(r.is_err(), "parameter-accepted", || format!("pool with strength {}/4, fee {}e-12, spacing {} is created", q4, fee, spacing));
                    continue;
                }
                // every liquidity range may be refused, but a pool that exists must trade normally
                let supported = [0, 4, 5, 6, 8].contains(&q4);
                if r.is_err() {
                    e.check(!supported, "parameter-refused", || format!("pool with strength {}/4, fee {}e-12, spacing {} is refused", q4, fee, spacing));
                    continue;
                }
                if S::FLOAT && (!supported || S::NAME.starts_with("prototype")) {
                    continue;
                }
                c.ranges = vec![(90, 110)];
                c.half = false;
                c.users = 1;
                c.swaps = vec![AmtSpec::Frac(1, 2), AmtSpec::Beyond];
                c.oracles = vec![OraSpec::Far, OraSpec::Mid];
                c.depth = 3;
                let mon = e.mon;
                e.mon = M_CURVE | M_BAL;
                let mut all = std::mem::replace(&mut e.muted, false);
                sub::<S>(e, &c, &mut all);
                e.mon = mon;
            }
        }
    }
}
/// the histories of one pool inside a single case
fn sub<S: Sut>(e: &mut Eng, c: &Cfg, _x: &mut bool) {
    let Some(o) = initial::<S>(c) else { return };
    let c = &Cfg { ranges: c.ranges.iter().map(|r| (r.0 / c.spacing * c.spacing, r.1 / c.spacing * c.spacing)).collect(), ..c.clone() };
    fn go<S: Sut>(e: &mut Eng, c: &Cfg, h: &mut Vec<Op<S::A>>, m: &Model<S::A>, o: &Obs<S::A>) {
        for op in alphabet::<S>(c, m, o) {
            let Some(mut s) = replay::<S>(c, h) else { return };
            let r = guard(|| run_op(&mut s, &op));
            let post = if r.is_ok() { guard(|| s.obs()).ok() } else { None };
            let mut m2 = m.clone();
            let ok = step::<S>(e, c, &mut m2, h, &op, o, &r, post.as_ref());
            e.cx.transitions += 1;
            e.cx.tick();
            let Some(post) = post else { continue };
            e.cx.state(state_hash::<S>(c, &post, &m2));
            h.push(op);
            if ok && h.len() < c.depth {
                go::<S>(e, c, h, &m2, &post);
            }
            h.pop();
        }
    }
    go::<S>(e, c, &mut vec![], &Model::new(), &o);
}
fn bad_configs(d: usize) -> Vec<Cfg> {
    let mut v = configs(d);
    v.retain(|c| c.name != "oracle" || c.q4 == 6);
    v
}
pub fn c18(cx: &mut Ctx) {
    let d = cx.pick(4, 5);
    let mut e = Eng { cx, mon: M_BAD, muted: false };
    params::<Fx>(&mut e);
    params::<Ff>(&mut e);
    for q in [(1u128, true), (250_000_000_000, true)] {
        // negative strength and fee rate
        if e.cx.mine() {
            let d = |v: u128, n: bool| Decimal::new(v, 12, n);
            for (c, f, rp) in [(d(q.0, q.1), d(0, false), mid_rp(100)), (d(0, false), d(q.0, q.1), mid_rp(100)), (d(0, false), d(0, false), d(mid_rp(100).value, true)), (d(q.0, false), d(0, false), mid_rp(100))] {
                let r = guard(|| {
                    Pool::new("X", 12, "Y", 6, rp, 1, c, f);
                });
                e.cx.transitions += 1;
                e.check(r.is_err(), "parameter-accepted", || format!("pool with strength {:?}, fee {:?}, root price {:?} is created", c, f, rp));
                let z = |d: Decimal| from_dec(d).f();
                let r = guard(|| {
                    fl::Pool::new("X", 12, "Y", 6, z(rp), 1, z(c), z(f));
                });
                // (any strength from 0 to 2 goes there)
                e.check(r.is_err() || (0.0..=2.0).contains(&z(c)) && z(f) >= 0.0 && z(rp) >= 0.0, "parameter-accepted", || format!("floating-point pool with strength {}, fee {}, root price {} is created", z(c), z(f), z(rp)));
            }
        }
    }
    for c in &bad_configs(d) {
        explore::<Fx>(&mut e, c);
        explore::<Ff>(&mut e, c);
    }
    boots(cx);
    let d = rich_depth(cx.tier, true);
    run_rich::<Fx>(cx, M_BAD, d, &[0, 5]);
    run_rich::<Ff>(cx, M_BAD, d, &[0, 5]);
}
/// a pool starts at the allowed tick below the price asked for, or is refused
fn boots(cx: &mut Ctx) {
    let one = 1_000_000_000_000u128;
    let mut v: Vec<u128> = vec![0, 1, one / 1_000_000, one / 2, one * 3 / 4, one - one / 1000, one - 2, one - 1, one, one + 1, one + one / 3, one * 2, one * 100];
    for t in [1u128, 6, 7, 8, 100, 30_000] {
        let r = Fx::rp_of(t).value;
        v.extend([r - 1, r, r + 1]);
    }
    for rp in v {
        for s in [1u128, 2, 7, 60] {
            if !cx.mine() {
                continue;
            }
            cx.tick();
            let d = Decimal::new(rp, 12, false);
            let zero = Decimal::new(0, 12, false);
            let g = guard(|| {
                let p = Pool::new("X", 12, "Y", 6, d, s, zero, zero);
                (p.glbl_tick(), p.glbl_rp())
            });
            cx.transitions += 1;
            match g {
                Ok((t, r)) => {
                    let ok = t % s == 0 && r.value == Fx::rp_of(t).value && r.value <= rp && Fx::rp_of(t + s).value > rp;
                    cx.check(ok, "start-price", || format!("fixed pool asked for root price {} spacing {} starts at tick {} root price {}", Fx::show(d), s, t, Fx::show(r)));
                }
                Err(m) => {
                    cx.check(rp < one, "parameter-refused", || format!("fixed pool at root price {} spacing {} is refused: {}", Fx::show(d), s, m));
                }
            }
            let f = from_dec(d).f();
            let g = guard(|| {
                let p = fl::Pool::new("X", 12, "Y", 6, f, s as u32, 0.0, 0.0);
                (p.glbl_tick() as u128, p.glbl_rp())
            });
            cx.transitions += 1;
            match g {
                Ok((t, r)) => {
                    let ok = t % s == 0 && r == Ff::rp_of(t) && r <= f && Ff::rp_of(t + s) > f;
                    cx.check(ok, "start-price", || format!("float pool asked for root price {:?} spacing {} starts at tick {} root price {:?}", f, s, t, r));
                }
                Err(m) => {
                    cx.check(rp < one, "parameter-refused", || format!("float pool at root price {:?} spacing {} is refused: {}", f, s, m));
                }
            }
        }
    }
}
pub fn bounds_18(t: crate::fw::Tier) -> String {
    bounds_of(bad_configs(if t == crate::fw::Tier::Quick { 4 } else { 5 }))
        + "; fixed-point and floating-point pool; after every prefix: every malformed request of the stated classes, a withdrawal of nothing from every position, deposits worth nothing into every range, swaps when there is no liquidity; and all pool parameters strength 0..3 in quarters x fee rate x spacing, and 31 start prices (none, below, at and next to one and ticks) x spacing" + &rich_bounds(rich_depth(t, true), &[0, 5])
}
/// price levels and spacings
pub fn level_configs(d: usize) -> Vec<Cfg> {
    let mut v = vec![];
    for (level, spacings) in [(30u128, vec![1u128, 3]), (100, vec![2, 7, 10]), (2000, vec![1, 5, 10, 60]), (23027, vec![1, 10, 64]), (76013, vec![1, 10])] {
        for s in spacings {
            let mut c = base_cfg("level");
            c.spacing = s;
            c.start = (level / s) * s;
            let w = s.max(if level > 1000 { 10 } else { 1 });
            let b = c.start;
            // bounds that are not multiples of the spacing are to be rounded down
            c.skew = s / 2;
            let lo = |k: u128| b.saturating_sub(k * w) / s * s;
            c.ranges = vec![(lo(1), b + 2 * w), (b, b + 4 * w), (lo(3), lo(1))];
            let p = mid_rp(b).value as f64 / 1e12;
            let y = (100.0 * p * p * 1e12) as u128;
            c.amounts = vec![(100_000_000_000_000, y)];
            c.fee = if s % 2 == 0 { FEE } else { 0 };
            c.q4 = if s == 5 || s == 10 { 6 } else { 0 };
            c.oracles = vec![OraSpec::None, OraSpec::Far];
            c.users = 1;
            c.half = false;
            c.depth = if level > 20000 { d.min(4) } else { d };
            v.push(c);
        }
    }
    v
}
/// ranges down to tick 0, below which there is no tick
fn floor_configs(d: usize) -> Vec<Cfg> {
    let mut v = vec![];
    for (s, fee, q4) in [(1u128, 0, 0), (1, FEE, 6), (10, FEE, 0), (7, 0, 8)] {
        for start in [0u128, 20 / s * s] {
            let mut c = base_cfg("floor");
            c.spacing = s;
            c.start = start;
            c.fee = fee;
            c.q4 = q4;
            c.oracles = vec![OraSpec::None, OraSpec::Far];
            c.ranges = [(0, 30), (10, 40), (0, 10)].map(|(a, b)| (a / s * s, (b / s + (b % s != 0) as u128) * s)).to_vec();
            c.users = 1;
            c.half = s == 1;
            c.depth = d;
            v.push(c);
        }
    }
    v
}
pub fn c19(cx: &mut Ctx) {
    let d = cx.pick(4, 5);
    for c in &floor_configs(d) {
        let mut e = Eng { cx, mon: M_SPACING | M_LIQ | M_BAL | M_FEE | M_CURVE | M_EXIT, muted: false };
        explore::<Fx>(&mut e, c);
        explore::<Ff>(&mut e, c);
    }
    for c in &level_configs(d) {
        let mut e = Eng { cx, mon: M_SPACING | M_LIQ | M_BAL | M_FEE | M_CURVE, muted: false };
        explore::<Fx>(&mut e, c);
        explore::<Ff>(&mut e, c);
    }
}
pub fn bounds_19(t: crate::fw::Tier) -> String {
    let d = if t == crate::fw::Tier::Quick { 4 } else { 5 };
    bounds_of(level_configs(d).into_iter().chain(floor_configs(d)).collect()) + "; fixed-point and floating-point pool, each in lock-step with the same history at spacing one on the rounded ranges"
}
pub fn c20(cx: &mut Ctx) {
    for c in &configs(5) {
        let mut e = Eng { cx, mon: M_LIQ | M_BAL | M_EXIT | M_ROUND | M_FEE | M_CURVE, muted: false };
        explore::<Ff>(&mut e, c);
    }
    if cx.tier == crate::fw::Tier::Thorough {
        for c in &configs(6) {
            let mut e = Eng { cx, mon: M_LIQ | M_BAL | M_FEE | M_CURVE, muted: false };
            explore::<Ff>(&mut e, c);
        }
    }
    run_rich::<Ff>(cx, M_LIQ | M_BAL | M_EXIT | M_ROUND | M_FEE | M_CURVE, 2, &[0, 4, 5, 6, 8]);
    run_rich::<Ff>(cx, M_LIQ | M_BAL | M_FEE | M_CURVE, rich_depth(cx.tier, false), &[4, 6, 8]);
}
pub fn bounds_20(t: crate::fw::Tier) -> String {
    bounds_text(if t == crate::fw::Tier::Quick { 5 } else { 6 }) + "; floating-point pool; after every prefix of up to 5 operations: all exit orders, and a deposit/withdrawal probe into every range" + &rich_bounds(rich_depth(t, false), &[0, 4, 5, 6, 8])
}
fn bounds_text(d: usize) -> String {
    bounds_of(configs(d))
}
pub fn bounds_of(cs: Vec<Cfg>) -> String {
    let d = cs.iter().map(|c| c.depth).max().unwrap_or(0);
    let v: Vec<String> = cs
        .iter()
        .map(|c| {
            format!(
                "{}: deposits {:?} in 1e-12, ranges {:?} (+{}), start tick {}, spacing {}, strength {}/4, fee {}e-12, {} users, swap amounts {:?}, oracles {:?}{}{}",
                c.name,
                c.amounts,
                c.ranges,
                c.skew,
                c.start,
                c.spacing,
                c.q4,
                c.fee,
                c.users,
                c.swaps,
                c.oracles,
                if c.half { ", partial and zero withdrawals" } else { "" },
                if c.pre.is_empty() { String::new() } else { format!(", up to {} operations after the setup {:?}", c.depth, c.pre) }
            )
        })
        .collect();
    format!("every history of up to {} operations (deposit into any range by any user, withdrawal of any position, swap either way by any amount with any oracle) in each of {} pools: {}", d, cs.len(), v.join(" | "))
}
pub fn bounds_56(t: crate::fw::Tier) -> String {
    bounds_text(if t == crate::fw::Tier::Quick { 5 } else { 6 }) + "; and the floating-point pool over the same alphabet to one operation less" + &rich_bounds(rich_depth(t, false), &[0, 5])
}
pub fn bounds_55(t: crate::fw::Tier) -> String {
    bounds_text(5) + "; after every prefix: all exit orders, and a deposit/withdrawal probe into every range; and the floating-point pool over the same alphabet to one operation less" + &rich_bounds(rich_depth(t, true), &[0, 5])
}
pub fn bounds_45(t: crate::fw::Tier) -> String {
    bounds_text(if t == crate::fw::Tier::Quick { 4 } else { 5 }) + "; after every prefix each offered swap is also split 1/2, 1/3, 9/10 and traded back; and the floating-point pool over the same alphabet to one operation less" + &rich_bounds(rich_depth(t, true), &[0, 5])
}

/// everything at once, shallow: a quick look at mechanical mutants (tools/mutate), not a registered check
pub fn zz<S: Sut>(cx: &mut Ctx) {
    for c in &configs(4) {
        let mut e = Eng { cx, mon: M_LIQ | M_BAL | M_FEE | M_CURVE, muted: false };
        explore::<S>(&mut e, c);
    }
    for c in &configs(3) {
        let mut e = Eng { cx, mon: M_EXIT | M_ROUND | M_SPLIT | M_BAD, muted: false };
        explore::<S>(&mut e, c);
    }
    for c in &oracle_configs(3) {
        let mut e = Eng { cx, mon: M_TWIN | M_CURVE, muted: false };
        explore::<S>(&mut e, c);
    }
    for c in &level_configs(3) {
        let mut e = Eng { cx, mon: M_SPACING | M_LIQ | M_BAL | M_FEE | M_CURVE, muted: false };
        explore::<S>(&mut e, c);
    }
    let mut e = Eng { cx, mon: M_BAD, muted: false };
    params::<S>(&mut e);
    run_rich::<S>(cx, M_LIQ | M_BAL | M_FEE | M_CURVE | M_EXIT | M_ROUND | M_SPLIT | M_BAD, 2, &[0, 5]);
    run_rich::<S>(cx, M_TWIN, 2, &[5, 8]);
}
