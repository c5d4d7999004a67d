//! C21: the fixed-point pool, the floating-point pool and the Python prototype in lock-step.
use crate::dd::dd;
use crate::flt::{self, F};
use crate::fw::{guard, hash64, Ctx, Tier};
use crate::pool::*;
use hmmcl_sandbox::decimal::Decimal;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ---------------------------------------------------------------- the prototype as a third pool
struct Server {
    _kid: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    next: u64,
}
thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}
fn start() -> Server {
    let repo = std::env::var("HMMCL_REPO").unwrap_or_else(|_| "/repo".into());
    let mut kid = Command::new("python3")
        .args(["-B", "-S", "-c", include_str!("../py/driver.py")])
        .arg(format!("{}/programs/hmmcl-sandbox/src/cl_python/v3_pool.py", repo))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("python3");
    Server { to: kid.stdin.take().unwrap(), from: BufReader::new(kid.stdout.take().unwrap()), _kid: kid, next: 0 }
}
fn raw(cmd: &str) -> String {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(start);
        s.to.write_all(cmd.as_bytes()).and_then(|_| s.to.write_all(b"\n")).expect("prototype driver gone");
        let mut l = String::new();
        s.from.read_line(&mut l).expect("prototype driver gone");
        assert!(!l.is_empty(), "the prototype cannot be loaded");
        l.trim_end().to_string()
    })
}
fn ask(cmd: &str) -> String {
    let r = raw(cmd);
    match r.strip_prefix("ok") {
        Some(t) => t.trim().to_string(),
        None => panic!("{}", r.strip_prefix("err ").unwrap_or(&r)),
    }
}
fn nums(t: &str) -> Vec<f64> {
    t.split_whitespace().map(|z| z.parse::<f64>().unwrap()).collect()
}
/// the prototype, with its ticks `D` below the ticks of the model (prices below one)
pub struct PyAt<const D: u128> {
    id: u64,
    skew: u128,
}
pub type Py = PyAt<0>;
/// the root price mid-way of a tick and the next
fn mid(t: i128) -> f64 {
    if t >= 0 {
        mid_f(t as u128)
    } else {
        1.0001f64.powf((t as f64 + 0.5) / 2.0)
    }
}
impl<const D: u128> PyAt<D> {
    fn at(&self, t: u128) -> f64 {
        mid((t + self.skew) as i128 - D as i128)
    }
}
impl<const D: u128> Drop for PyAt<D> {
    fn drop(&mut self) {
        raw(&format!("del {}", self.id));
    }
}
impl<const D: u128> Sut for PyAt<D> {
    type A = f64;
    const ABS: f64 = 1e-14;
    const REL: f64 = 4e-12;
    const FLOAT: bool = true;
    const NAME: &'static str = if D == 0 { "prototype" } else { "prototype (ticks below zero)" };
    const PART: f64 = 1.0 / 3.0;
    fn new(c: &Cfg) -> Self {
        let id = SERVER.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.get_or_insert_with(start);
            s.next += 1;
            s.next
        });
        let p = PyAt { id, skew: c.skew };
        ask(&format!("new {} {:?} {} {:?} {:?}", id, mid(c.start as i128 - D as i128), c.spacing, c.q4 as f64 / 4.0, c.fee as f64 / 1e12));
        p
    }
    fn dep(&mut self, user: usize, x: f64, y: f64, ta: u128, tb: u128) {
        ask(&format!("dep {} u{} {:?} {:?} {:?} {:?}", self.id, user, x, y, self.at(ta), self.at(tb)));
    }
    fn wd(&mut self, user: usize, l: f64, ta: u128, tb: u128) {
        ask(&format!("wd {} u{} {:?} {:?} {:?}", self.id, user, l, self.at(ta), self.at(tb)));
    }
    fn swap(&mut self, xin: bool, a: f64, oracle: f64) -> Out<f64> {
        let v = nums(&ask(&format!("{} {} {:?} {:?}", if xin { "sx" } else { "sy" }, self.id, a, oracle)));
        Out { recv: v[0], send: v[1], adj: v[2], fee: v[3], avg: v[4], end: v[5] }
    }
    fn obs(&self) -> Obs<f64> {
        let t = ask(&format!("obs {}", self.id));
        let w: Vec<&str> = t.split_whitespace().collect();
        let v: Vec<f64> = w[..8].iter().map(|z| z.parse().unwrap()).collect();
        let i: Vec<i128> = w[8..].iter().map(|z| z.parse().unwrap()).collect();
        Obs {
            x: [v[0], v[1], v[2]],
            y: [v[3], v[4], v[5]],
            liq: v[6],
            rp: v[7],
            tick: (i[0] + D as i128) as u128,
            npos: i[1] as usize,
            ticks: i[2..].iter().map(|&z| (z + D as i128) as u128).collect(),
        }
    }
    fn rp_of(t: u128) -> f64 {
        1.0001f64.powf((t as i128 - D as i128) as f64 / 2.0)
    }
    fn liq_for(x: f64, y: f64, rp: f64, ta: u128, tb: u128) -> f64 {
        ask(&format!("liq {:?} {:?} {:?} {} {}", x, y, rp, ta as i128 - D as i128, tb as i128 - D as i128)).parse().unwrap()
    }
    fn dd(a: f64) -> crate::dd::Dd {
        dd(a)
    }
    fn from(x: crate::dd::Dd) -> f64 {
        x.f()
    }
    fn dec(d: Decimal) -> f64 {
        crate::dd::from_dec(d).f()
    }
    fn ulps(a: f64, k: i64) -> f64 {
        Ff::ulps(a, k)
    }
    fn add(a: f64, b: f64) -> f64 {
        a + b
    }
    fn sub(a: f64, b: f64) -> f64 {
        a - b
    }
    fn cancels(t: &[(f64, i32)]) -> bool {
        Ff::cancels(t)
    }
    fn show(a: f64) -> String {
        format!("{:?}", a)
    }
    fn bits(a: f64) -> u64 {
        a.to_bits()
    }
    fn eff(l: f64) -> f64 {
        l.floor()
    }
    fn neg_of(x: crate::dd::Dd) -> f64 {
        -x.f()
    }
    fn unit() -> f64 {
        1.0
    }
}

// ---------------------------------------------------------------- lock-step
/// what is asked of all three
#[derive(Clone, Copy, Debug)]
enum Ask {
    Dep { u: usize, x: u128, y: u128, ta: u128, tb: u128 },
    /// whole units of liquidity, or all of it
    Wd { u: usize, l: Option<u64>, ta: u128, tb: u128 },
    Swap { xin: bool, a: u128, oracle: u128 },
}
fn show(a: &Ask) -> String {
    let n = |z: u128| Fx::show(Decimal::new(z, 12, false));
    match *a {
        Ask::Dep { u, x, y, ta, tb } => format!("user {} deposits x {} y {} in [{}, {})", u, n(x), n(y), ta, tb),
        Ask::Wd { u, l: Some(l), ta, tb } => format!("user {} withdraws {} from [{}, {})", u, l, ta, tb),
        Ask::Wd { u, l: None, ta, tb } => format!("user {} withdraws all from [{}, {})", u, ta, tb),
        Ask::Swap { xin, a, oracle } => format!("swap {} {} oracle-rp {}", if xin { "X in" } else { "Y in" }, n(a), n(oracle)),
    }
}
fn show_all(c: &Cfg, h: &[Ask], a: &Ask) -> String {
    let mut v: Vec<String> = h.iter().map(show).collect();
    v.push(show(a));
    format!("[{} spacing {} start tick {} strength {}/4 fee {}e-12] {}", c.name, c.spacing, c.start, c.q4, c.fee, v.join("; "))
}
/// the operation as one of the pools takes it
fn op_for<S: Sut>(a: &Ask, m: &Model<S::A>) -> Op<S::A> {
    let d = |z: u128| S::dec(Decimal::new(z, 12, false));
    match *a {
        Ask::Dep { u, x, y, ta, tb } => Op::Dep { u, x: d(x), y: d(y), ta, tb },
        Ask::Wd { u, l, ta, tb } => Op::Wd {
            u,
            l: match l {
                Some(l) => d(l as u128 * 1_000_000_000_000),
                None => m.pos[&(u, ta, tb)].liq,
            },
            ta,
            tb,
        },
        Ask::Swap { xin, a, oracle } => Op::Swap { xin, a: d(a), oracle: d(oracle) },
    }
}

struct Side<S: Sut> {
    h: Vec<Op<S::A>>,
    m: Model<S::A>,
    o: Obs<S::A>,
}
impl<S: Sut> Clone for Side<S> {
    fn clone(&self) -> Self {
        Side { h: self.h.clone(), m: self.m.clone(), o: self.o.clone() }
    }
}
/// an observation as plain numbers
struct Seen {
    ok: Result<(), String>,
    /// balances, liquidity, price
    v: Vec<f64>,
    out: Vec<f64>,
    tick: u128,
    npos: usize,
    ticks: Vec<u128>,
    slack: [f64; 6],
    fine: bool,
}
const NAMES: [&str; 8] = ["x reserve", "x adjustments", "x fees", "y reserve", "y adjustments", "y fees", "liquidity", "root price"];
const OUTS: [&str; 6] = ["amount in", "amount out", "adjustment", "fee", "average price", "end price"];

fn advance<S: Sut>(cx: &mut Ctx, mon: u32, muted: bool, c: &Cfg, s: &Side<S>, a: &Ask) -> (Seen, Option<Side<S>>) {
    let f = |z: S::A| S::dd(z).f();
    let op = op_for::<S>(a, &s.m);
    let run = replay::<S>(c, &s.h);
    let Some(mut p) = run else {
        return (Seen { ok: Err("history does not repeat".into()), v: vec![], out: vec![], tick: 0, npos: 0, ticks: vec![], slack: [0.0; 6], fine: false }, None);
    };
    let r = guard(|| run_op(&mut p, &op));
    let post = if r.is_ok() { guard(|| p.obs()).ok() } else { None };
    let mut n = s.clone();
    let mut e = Eng { cx, mon, muted };
    let fine = step::<S>(&mut e, c, &mut n.m, &s.h, &op, &s.o, &r, post.as_ref());
    cx.transitions += 1;
    let out = match &r {
        Ok(Some(o)) => vec![f(o.recv), f(o.send), f(o.adj), f(o.fee), f(o.avg).abs(), f(o.end)],
        _ => vec![],
    };
    let seen = Seen {
        ok: r.map(|_| ()),
        v: post.as_ref().map_or(vec![], |o| vec![f(o.x[0]), f(o.x[1]), f(o.x[2]), f(o.y[0]), f(o.y[1]), f(o.y[2]), f(o.liq), f(o.rp)]),
        out,
        tick: post.as_ref().map_or(0, |o| o.tick),
        npos: post.as_ref().map_or(0, |o| o.npos),
        ticks: post.as_ref().map_or(vec![], |o| o.ticks.clone()),
        slack: n.m.slack,
        fine,
    };
    let side = post.map(|o| {
        n.o = o;
        n.h.push(op);
        n
    });
    (seen, side)
}

/// Relative difference of the liquidity of a deposit that the resolution of the fixed-point root prices leaves
/// (and the whole units of liquidity), and the largest sum of liquidity so deposited.
#[derive(Clone, Copy)]
struct Loose {
    rel: f64,
    liq: f64,
}

fn same(cx: &mut Ctx, c: &Cfg, h: &[Ask], a: &Ask, names: [&str; 2], p: &Seen, q: &Seen, z: Loose) {
    let rel = z.rel;
    let who = || format!("{} and {} pool", names[0], names[1]);
    if p.ok.is_ok() != q.ok.is_ok() {
        let (w, t) = if let Err(t) = &p.ok { (names[0], t) } else { (names[1], q.ok.as_ref().unwrap_err()) };
        cx.fail("one-refuses", format!("only the {} pool refuses ({}; of {}): {}", w, t, who(), show_all(c, h, a)));
        return;
    }
    if p.ok.is_err() || p.v.is_empty() || q.v.is_empty() {
        return;
    }
    let rp = p.v[7];
    let bal = p.v[0] + p.v[3] + 1.0;
    let unit = 1.0 + rp * rp + 1.0 / (rp * rp);
    // what is traded carries so much more with the fee on it
    let gross = 1.0 / (1.0 - c.fee as f64 / 1e12);
    // slack order: x, y, x fee, y fee, x adj, y adj
    let sl = [0usize, 4, 2, 1, 5, 3];
    for i in 0..8 {
        let t = match i {
            6 => rel * (1.0 + p.v[6] + z.liq),
            7 => rel * rp,
            2 | 5 => gross * rel * (bal * unit).min(bal + 1e6) + 4.0 * (p.slack[sl[i]] + q.slack[sl[i]]),
            _ => rel * (bal * unit).min(bal + 1e6) + 4.0 * (p.slack[sl[i]] + q.slack[sl[i]]),
        };
        cx.check((p.v[i] - q.v[i]).abs() <= t, "states-differ", || {
            format!("{}: {} {:e} and {:e} (allowed {:e}): {}", who(), NAMES[i], p.v[i], q.v[i], t, show_all(c, h, a))
        });
    }
    cx.check(p.npos == q.npos && p.ticks == q.ticks, "positions-differ", || {
        format!("{}: {} and {} positions, active ticks {:?} and {:?}: {}", who(), p.npos, q.npos, p.ticks, q.ticks, show_all(c, h, a))
    });
    // next to the root price of a tick either side is as good, unless the tick is a bound of a range
    let hi = p.tick.max(q.tick);
    let edge = p.tick.abs_diff(q.tick) == 1 && (Ff::rp_of(hi) - rp).abs() <= rel * rp && !p.ticks.contains(&hi);
    cx.check(p.tick == q.tick || edge, "ticks-differ", || format!("{}: current tick {} and {} at root price {:?}: {}", who(), p.tick, q.tick, rp, show_all(c, h, a)));
    if p.out.len() == 6 && q.out.len() == 6 {
        let big = p.out[0].abs().max(p.out[1].abs());
        let sum = |s: &[f64; 6]| s.iter().sum::<f64>();
        for i in 0..6 {
            let t = match i {
                // an average over next to nothing is noise
                4 => 4.0 * rel * p.out[4].abs() + 8.0 * (sum(&p.slack) + sum(&q.slack)) * (1.0 + p.out[4].abs()) / p.out[0].abs().min(p.out[1].abs()).max(1e-12),
                5 => 4.0 * rel * p.out[5],
                0 | 3 => rel * (gross * bal + big) + 4.0 * (sum(&p.slack) + sum(&q.slack)),
                _ => rel * (bal + big) + 4.0 * (sum(&p.slack) + sum(&q.slack)),
            };
            cx.check((p.out[i] - q.out[i]).abs() <= t, "swaps-differ", || {
                format!("{}: {} {:e} and {:e} (allowed {:e}): {}", who(), OUTS[i], p.out[i], q.out[i], t, show_all(c, h, a))
            });
        }
    }
}

/// resolution of the fixed-point root prices, with allowance
const RES: f64 = 4e-11;

#[derive(Clone)]
struct All {
    fx: Side<Fx>,
    ff: Side<Ff>,
    py: Side<Py>,
    loose: Loose,
}

fn e12(v: f64) -> u128 {
    (v * 1e12).round() as u128
}
/// a deposit of amounts worth (hardly more than) a whole number of units of liquidity
fn whole(s: &Side<Ff>, op: Op<f64>) -> Option<Ask> {
    let Op::Dep { u, x, y, ta, tb } = op else { return None };
    let l = Ff::liq_for(x, y, s.o.rp, ta, tb) * (1.0 + 1e-9);
    if l < 1.0 || l * 1e-9 > 0.5 {
        return None;
    }
    let (pa, pb) = (Ff::rp_of(ta), Ff::rp_of(tb));
    let pp = s.o.rp.max(pa).min(pb);
    // next to a bound the liquidity hangs on the last digits of the price
    if pp > pa && pp - pa < 2e-5 * pb || pp < pb && pb - pp < 2e-5 * pb {
        return None;
    }
    let (x, y) = (l * (pb - pp) / (pp * pb), l * (pp - pa));
    Some(Ask::Dep { u, x: e12(x), y: e12(y), ta, tb })
}
/// the operations offered in a state: those of the floating-point pool, in numbers that all three can take
fn offers(c: &Cfg, s: &Side<Ff>) -> Vec<Ask> {
    let mut v = vec![];
    for op in alphabet::<Ff>(c, &s.m, &s.o) {
        match op {
            Op::Dep { .. } => v.extend(whole(s, op)),
            Op::Wd { u, l, ta, tb } => {
                let all = s.m.pos[&(u, ta, tb)].liq;
                v.push(Ask::Wd { u, l: if l == all { None } else { Some(l.floor() as u64) }, ta, tb });
            }
            Op::Swap { xin, a, oracle } => v.push(Ask::Swap { xin, a: e12(a), oracle: e12(oracle) }),
        }
    }
    // what all of them must refuse
    if let Some((k, p)) = s.m.pos.iter().next() {
        v.push(Ask::Wd { u: k.0, l: Some((p.liq * 1.00001) as u64 + 1), ta: k.1, tb: k.2 });
        v.push(Ask::Wd { u: 2, l: Some(1), ta: k.1, tb: k.2 });
    }
    v
}
fn refused(a: &Ask, s: &Side<Ff>) -> bool {
    matches!(*a, Ask::Wd { u, l: Some(l), ta, tb } if s.m.pos.get(&(u, ta, tb)).map_or(true, |p| l as f64 > p.liq))
}

fn try_all(cx: &mut Ctx, c: &Cfg, h: &[Ask], a: &Ask, s: &All, mine: bool) -> Option<All> {
    if refused(a, &s.ff) {
        if mine {
            let fx = guard(|| run_op(&mut replay::<Fx>(c, &s.fx.h).unwrap(), &op_for::<Fx>(a, &s.fx.m))).is_err();
            let ff = guard(|| run_op(&mut replay::<Ff>(c, &s.ff.h).unwrap(), &op_for::<Ff>(a, &s.ff.m))).is_err();
            let py = guard(|| run_op(&mut replay::<Py>(c, &s.py.h).unwrap(), &op_for::<Py>(a, &s.py.m))).is_err();
            cx.transitions += 3;
            cx.check(fx && ff && py, "not-refused", || format!("refused by fixed {} float {} prototype {}: {}", fx, ff, py, show_all(c, h, a)));
        }
        return None;
    }
    let (p, a1) = advance::<Fx>(cx, 0, true, c, &s.fx, a);
    let (q, a2) = advance::<Ff>(cx, 0, true, c, &s.ff, a);
    let (r, a3) = advance::<Py>(cx, M_LIQ | M_BAL | M_FEE | M_CURVE, !mine, c, &s.py, a);
    // a trade whose output is not above rounding may be refused
    let dust = matches!(a, Ask::Swap { .. }) && [&p, &q, &r].iter().any(|z| z.ok.is_ok() && z.out[1].abs() <= 1e-9);
    let mut z = s.loose;
    if let Ask::Dep { x, y, ta, tb, .. } = *a {
        let (pa, pb, rp) = (Ff::rp_of(ta), Ff::rp_of(tb), s.ff.o.rp);
        let w = if rp <= pa || rp >= pb { pb - pa } else { (pb - rp).min(rp - pa) };
        z.rel = z.rel.max(RES * (1.0 + pb) / w);
        z.liq += Ff::liq_for(x as f64 / 1e12, y as f64 / 1e12, rp, ta, tb);
    }
    if mine && !dust {
        same(cx, c, h, a, [Fx::NAME, Ff::NAME], &p, &q, z);
        same(cx, c, h, a, [Ff::NAME, Py::NAME], &q, &r, Loose { rel: 1e-11 + 1e-15 * c.start as f64, liq: 0.0 });
        same(cx, c, h, a, [Fx::NAME, Py::NAME], &p, &r, z);
    }
    if !(p.fine && q.fine && r.fine) {
        return None;
    }
    Some(All { fx: a1?, ff: a2?, py: a3?, loose: z })
}

fn walk(cx: &mut Ctx, c: &Cfg, h: &mut Vec<Ask>, s: &All, base: usize) {
    let level = h.len() - base;
    let split = 2.min(c.depth - 1);
    for a in offers(c, &s.ff) {
        let mine = if level <= split { cx.mine() } else { true };
        if !mine && level >= split {
            continue;
        }
        let n = try_all(cx, c, h, &a, s, mine);
        cx.tick();
        let Some(n) = n else { continue };
        if mine {
            let o = &n.ff.o;
            let mut v: Vec<u64> = vec![o.tick as u64, c.start as u64, c.q4 as u64, c.fee as u64];
            v.extend(o.x.iter().chain(&o.y).chain([&o.liq, &o.rp]).map(|z| z.to_bits()));
            v.extend(n.ff.m.pos.iter().flat_map(|(k, p)| [k.0 as u64, k.1 as u64, k.2 as u64, p.liq.to_bits()]));
            cx.state(hash64(&v));
            if level + 1 == c.depth {
                cx.traces += 1;
                cx.sample(|| show_all(c, h, &a));
            }
        }
        if level + 1 < c.depth {
            h.push(a);
            walk(cx, c, h, &n, base);
            h.pop();
        }
    }
}

/// the root price of a tick is a power of a root with twelve decimals
fn base(c: &Cfg) -> f64 {
    4e-8 + 8e-12 * c.start as f64
}
fn cfgs(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let swaps = vec![AmtSpec::Frac(1, 3), AmtSpec::Through, AmtSpec::Through2, AmtSpec::Beyond];
    for mut c in configs(if q { 5 } else { 6 }) {
        if c.name == "ulps" || c.sliver {
            continue;
        }
        c.half &= c.q4 == 0;
        if c.q4 == 0 {
            c.swaps = swaps.clone();
        } else {
            c.swaps = vec![AmtSpec::Frac(1, 3), AmtSpec::Through, AmtSpec::Beyond];
        }
        if c.half {
            c.users = 1;
        }
        v.push(c);
    }
    v.extend(rich_configs(if q { 2 } else { 3 }, &[0, 5]));
    for mut c in level_configs(if q { 4 } else { 5 }) {
        c.swaps = swaps.clone();
        v.push(c);
    }
    v
}
/// what precedes the histories, in all three
fn setup(cx: &mut Ctx, c: &Cfg, mut s: All) -> Option<(Vec<Ask>, All)> {
    let mut h = vec![];
    if c.pre.is_empty() {
        return Some((h, s));
    }
    let mine = cx.mine();
    for p in &c.pre {
        // (deposits next to a bound are left out, see `whole`)
        let Some(op) = pre_op::<Ff>(c, p, &s.ff.m, &s.ff.o) else { continue };
        let a = match op {
            op @ Op::Dep { .. } => match whole(&s.ff, op) {
                Some(a) => a,
                None => continue,
            },
            Op::Wd { u, ta, tb, .. } => Ask::Wd { u, l: None, ta, tb },
            Op::Swap { xin, a, oracle } => Ask::Swap { xin, a: e12(a), oracle: e12(oracle) },
        };
        let n = try_all(cx, c, &h, &a, &s, mine);
        h.push(a);
        match n {
            Some(n) => s = n,
            None => {
                if mine {
                    cx.fail("setup", format!("does not get past {}", show_all(c, &h[..h.len() - 1], &a)));
                }
                return None;
            }
        }
    }
    Some((h, s))
}
pub fn c21(cx: &mut Ctx) {
    for c in cfgs(cx.tier) {
        let c = Cfg { ranges: c.ranges.iter().map(|r| (r.0 / c.spacing * c.spacing, r.1 / c.spacing * c.spacing)).collect(), ..c };
        let made = (initial::<Fx>(&c), initial::<Ff>(&c), initial::<Py>(&c));
        let (Some(a), Some(b), Some(d)) = made else {
            if cx.mine() {
                cx.fail("abort:new", format!("creation: fixed {} float {} prototype {}: {:?}", made.0.is_some(), made.1.is_some(), made.2.is_some(), c));
            }
            continue;
        };
        if cx.mine() {
            let (ra, rb, rd) = (Fx::dd(a.rp).f(), b.rp, d.rp);
            cx.check(a.tick == b.tick && b.tick == d.tick && (ra - rb).abs() < base(&c) * ra && (rb - rd).abs() < (1e-15 + 4e-16 * c.start as f64) * ra, "starts-differ", || {
                format!("created at ticks {} {} {} root prices {} {} {}", a.tick, b.tick, d.tick, ra, rb, rd)
            });
        }
        let s = All { fx: Side { h: vec![], m: Model::new(), o: a }, ff: Side { h: vec![], m: Model::new(), o: b }, py: Side { h: vec![], m: Model::new(), o: d }, loose: Loose { rel: base(&c), liq: 0.0 } };
        let Some((mut h, s)) = setup(cx, &c, s) else { continue };
        let base = h.len();
        walk(cx, &c, &mut h, &s, base);
    }
    ticks(cx);
    formulas(cx);
    params::<Py>(&mut Eng { cx, mon: M_BAD, muted: false });
    // the prototype alone on the exact curve, with exact arrival at bounds and malformed requests
    for (d, mon) in [(cx.pick(4, 5), M_LIQ | M_BAL | M_FEE | M_CURVE), (cx.pick(3, 4), M_BAD | M_EXIT | M_ROUND)] {
        for c in &own(d) {
            let mut e = Eng { cx, mon, muted: false };
            explore::<Py>(&mut e, c);
        }
    }
    // and at prices below one, which only the prototype has
    below_one(cx);
    for (d, mon) in [(cx.pick(3, 4), M_LIQ | M_BAL | M_FEE | M_CURVE), (cx.pick(2, 3), M_BAD | M_EXIT | M_ROUND)] {
        for c in &own(d) {
            let mut e = Eng { cx, mon, muted: false };
            // (ticks are to stay multiples of the spacing)
            if 100 % c.spacing == 0 {
                explore::<PyAt<100>>(&mut e, c);
            }
            explore::<PyAt<21_000>>(&mut e, c);
        }
    }
}
/// conversions of ticks below zero
fn below_one(cx: &mut Ctx) {
    let rp = |t: i128| ask(&format!("rp {}", t)).parse::<f64>().unwrap();
    let tick = |rp: f64, up: bool| ask(&format!("tick {:?} {}", rp, up as u8)).parse::<i128>().unwrap();
    let n: i128 = cx.pick(2000, 20_000);
    let list: Vec<i128> = (1..n).chain((20_000..600_000).step_by(cx.pick(1999, 301))).collect();
    for chunk in list.chunks(16) {
        if !cx.mine() {
            continue;
        }
        cx.tick();
        for &t in chunk {
            let (Ok(lo), Ok(r), Ok(hi)) = (guard(|| rp(-t - 1)), guard(|| rp(-t)), guard(|| rp(1 - t))) else {
                cx.fail("below-one-aborts", format!("root price of tick {} or a neighbour aborts", -t));
                continue;
            };
            let ex = dd(1.0) / crate::math::exact_rp(t as u128);
            let tol = f64::EPSILON * r * (t as f64 + 26.0);
            cx.transitions += 1;
            cx.state(hash64(&[r.to_bits()]));
            cx.check((dd(r) - ex).f().abs() <= tol && lo < r && r < hi, "below-one-price", || format!("root prices of ticks {} to {} are {:e} {:e} {:e}, exact {:e}", -t - 1, 1 - t, lo, r, hi, ex.f()));
            for (p, fl, ce) in [(r, -t, -t), ((r + hi) / 2.0, -t, 1 - t), (f64::from_bits(r.to_bits() + 1), -t, 1 - t), (f64::from_bits(r.to_bits() - 1), -t - 1, -t)] {
                for up in [false, true] {
                    let g = guard(|| tick(p, up));
                    let want = if up { ce } else { fl };
                    cx.transitions += 1;
                    cx.check(g == Ok(want), "below-one-tick", || format!("price {:e} next to tick {} up={} gives {:?}, expected {}", p, -t, up, g, want));
                }
            }
        }
    }
    for s in [1i128, 2, 3, 7, 10, 60, 1000] {
        if !cx.mine() {
            continue;
        }
        cx.tick();
        for t in (1..=130).chain([s - 1, s, s + 1, 50 * s - 1, 50 * s, 50 * s + 1, 443_636, 887_272]) {
            for up in [false, true] {
                let to = |v: i128| if up { -(v / s * s) } else { -((v + s - 1) / s * s) };
                let g = guard(|| ask(&format!("poss {} {} {}", -t, s, up as u8)).parse::<i128>().unwrap());
                cx.transitions += 1;
                cx.check(g == Ok(to(t)), "below-one-spacing", || format!("tick {} to a multiple of {} (up={}) gives {:?}, expected {}", -t, s, up, g, to(t)));
                let g = guard(|| ask(&format!("possrp {:?} {} {}", rp(-t), s, up as u8)).parse::<i128>().unwrap());
                cx.check(g == Ok(to(t)), "below-one-price-to-allowed-tick", || format!("root price of tick {} spacing {} up={} gives {:?}, expected {}", -t, s, up, g, to(t)));
            }
        }
    }
}
fn own(d: usize) -> Vec<Cfg> {
    let mut v = configs(d);
    v.extend(rich_configs((d - 2).max(1), &[0, 6]));
    v.retain(|c| !c.sliver && (c.name != "oracle" || c.q4 == 6));
    for c in &mut v {
        c.half &= c.q4 == 0;
    }
    v
}
fn name(f: F) -> &'static str {
    match f {
        F::LiqX => "liq_x_only",
        F::LiqY => "liq_y_only",
        F::Liq => "liq_from_x_y_rP_rng",
        F::LiqTick => "_liq_from_x_y_rP_rng",
        F::X => "x_from_L_rP_rng",
        F::XTick => "_x_from_L_rP_rng",
        F::Y => "y_from_L_rP_rng",
        F::YTick => "_y_from_L_rP_rng",
        F::RpaL => "rPa_from_L_rP_y",
        F::RpbL => "rPb_from_L_rP_x",
        F::RpaXy => "rPa_from_x_y_rP_rPb",
        F::RpbXy => "rPb_from_x_y_rP_rPa",
        F::Dx => "dX_from_L_drP",
        F::Dy => "dY_from_L_drP",
        F::DxHmm => "dX_from_L_drP_hmm",
        F::DyHmm => "dY_from_L_drP_hmm",
        F::NewDx => "rP_new_from_L_dX",
        F::NewDy => "rP_new_from_L_dY",
    }
}
/// formulas and conversions of the prototype
struct Proto;
impl flt::Formulas for Proto {
    const NAME: &'static str = "prototype";
    fn has(f: F) -> bool {
        thread_local! {
            static KNOWN: RefCell<std::collections::HashMap<&'static str, bool>> = RefCell::new(Default::default());
        }
        KNOWN.with(|k| *k.borrow_mut().entry(name(f)).or_insert_with(|| ask(&format!("has {}", name(f))) == "True"))
    }
    fn call(f: F, a: &[f64]) -> f64 {
        let n = name(f);
        let mut q = format!("f {}", n);
        for z in a {
            q += &format!(" {:?}", z);
        }
        ask(&q).parse().unwrap()
    }
    fn rp(t: u32) -> f64 {
        ask(&format!("rp {}", t)).parse().unwrap()
    }
    fn tick(rp: f64, up: bool) -> i128 {
        ask(&format!("tick {:?} {}", rp, up as u8)).parse().unwrap()
    }
    fn allowed(t: u32, s: u32, up: bool) -> i128 {
        ask(&format!("poss {} {} {}", t, s, up as u8)).parse().unwrap()
    }
    fn allowed_at(rp: f64, s: u32, up: bool) -> i128 {
        ask(&format!("possrp {:?} {} {}", rp, s, up as u8)).parse().unwrap()
    }
}
fn formulas(cx: &mut Ctx) {
    let q = cx.quick();
    flt::ticks::<Proto>(cx, &(0..cx.pick(3000, 20000)).chain((20_000..600_000).step_by(cx.pick(1999, 301))).collect::<Vec<_>>());
    flt::spacings::<Proto>(cx, if q { &[1, 2, 3, 7, 10, 60] } else { &[1, 2, 3, 4, 5, 7, 10, 16, 30, 60, 64, 100, 1000] });
    flt::amounts::<Proto>(cx, !q);
    flt::moves::<Proto>(cx, !q);
}
/// the tick of a root price, in all three
fn ticks(cx: &mut Ctx) {
    let n: u128 = cx.pick(3000, 20000);
    let list: Vec<u128> = (1..n).chain((n..80_000).step_by(cx.pick(997, 101))).collect();
    for t in list {
        if !cx.mine() {
            continue;
        }
        cx.transitions += 1;
        let f = |z: f64, up: bool| <hmmcl_sandbox::cl_pool_float::Pool as hmmcl_sandbox::cl_pool_float::PoolMath>::rp_to_tick(z, up) as i128;
        let p = |z: f64, up: bool| ask(&format!("tick {:?} {}", z, up as u8)).parse::<i128>().unwrap();
        let x = |z: Decimal, up: bool| <hmmcl_sandbox::cl_pool::Pool as hmmcl_sandbox::cl_pool::PoolMath>::rp_to_tick(z, up) as i128;
        let (mf, mx) = (mid_f(t), mid_rp(t));
        let got = guard(|| [f(mf, false), p(mf, false), x(mx, false), f(mf, true) - 1, p(mf, true) - 1, x(mx, true) - 1]);
        let own = guard(|| [f(Ff::rp_of(t), false), p(Py::rp_of(t), false), x(Fx::rp_of(t), false), f(Ff::rp_of(t), true), p(Py::rp_of(t), true), x(Fx::rp_of(t), true)]);
        cx.tick();
        // (mid-way of the fixed-point root prices, which drift from the exact ones as ticks grow)
        let drift = t > 20_000;
        let t = t as i128;
        cx.check(drift || got == Ok([t; 6]), "tick-of-price", || format!("between ticks {} and {}: float, prototype, fixed rounding down and up less one {:?}", t, t + 1, got));
        cx.check(own == Ok([t; 6]), "tick-of-own-price", || format!("at root price of tick {}: float, prototype, fixed rounding down and up {:?}", t, own));
    }
}

pub fn bounds_21(t: Tier) -> String {
    bounds_of(cfgs(t)) + "; each history on the fixed-point pool, the floating-point pool and the Python prototype in lock-step, amounts worth whole units of liquidity and away from exact arrival at bounds; and the prototype against the exact curve; and the prototype's formulas over ranges x prices x amounts and moves x strengths x oracles, its tick conversions at ticks from -600000 to 600000, against exact values; and the prototype alone in the same kinds of pools with ticks shifted down by 100 (prices about one, bounds at tick 0) and by 21000 (far below one), which the programs' unsigned ticks cannot represent"
}
