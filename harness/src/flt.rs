//! Curve formulas and tick conversions of the floating-point pool and of the prototype, against exact values.
use crate::dd::{dd, Dd};
use crate::fw::{guard, hash64, Ctx};
use crate::math::{exact_rp, hmm_dx, hmm_dy};
use hmmcl_sandbox::cl_pool_float::{Pool, PoolMath};

type Fl = Pool<'static>;
/// allowance in units of rounding, times the condition of the formula
const K: f64 = 24.0 * f64::EPSILON;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    LiqX,
    LiqY,
    Liq,
    LiqTick,
    X,
    XTick,
    Y,
    YTick,
    RpaL,
    RpbL,
    RpaXy,
    RpbXy,
    Dx,
    Dy,
    DxHmm,
    DyHmm,
    NewDx,
    NewDy,
}
use F::*;
pub trait Formulas {
    const NAME: &'static str;
    /// whether there is such a formula (the prototype's helpers may be named otherwise one day)
    fn has(_f: F) -> bool {
        true
    }
    fn call(f: F, a: &[f64]) -> f64;
    fn rp(t: u32) -> f64;
    fn tick(rp: f64, up: bool) -> i128;
    fn allowed(t: u32, spacing: u32, up: bool) -> i128;
    fn allowed_at(rp: f64, spacing: u32, up: bool) -> i128;
}
pub struct Float;
impl Formulas for Float {
    const NAME: &'static str = "float";
    fn call(f: F, a: &[f64]) -> f64 {
        let t = |k: usize| a[k] as u32;
        match f {
            LiqX => <Fl as PoolMath>::liq_x_only(a[0], a[1], a[2]),
            LiqY => <Fl as PoolMath>::liq_y_only(a[0], a[1], a[2]),
            Liq => <Fl as PoolMath>::liq_from_x_y_rp_rng(a[0], a[1], a[2], a[3], a[4]),
            LiqTick => <Fl as PoolMath>::liq_from_x_y_tick_rng(a[0], a[1], t(2), t(3), t(4)),
            X => <Fl as PoolMath>::x_from_l_rp_rng(a[0], a[1], a[2], a[3]),
            XTick => <Fl as PoolMath>::x_from_l_tick_rng(a[0], t(1), t(2), t(3)),
            Y => <Fl as PoolMath>::y_from_l_rp_rng(a[0], a[1], a[2], a[3]),
            YTick => <Fl as PoolMath>::y_from_l_tick_rng(a[0], t(1), t(2), t(3)),
            RpaL => <Fl as PoolMath>::rpa_from_l_rp_y(a[0], a[1], a[2]),
            RpbL => <Fl as PoolMath>::rpb_from_l_rp_x(a[0], a[1], a[2]),
            RpaXy => <Fl as PoolMath>::rpa_from_x_y_rp_rpb(a[0], a[1], a[2], a[3]),
            RpbXy => <Fl as PoolMath>::rpb_from_x_y_rp_rpa(a[0], a[1], a[2], a[3]),
            Dx => <Fl as PoolMath>::dx_from_l_drp(a[0], a[1], a[2]),
            Dy => <Fl as PoolMath>::dy_from_l_drp(a[0], a[1], a[2]),
            DxHmm => <Fl as PoolMath>::dx_from_l_drp_hmm(a[0], a[1], a[2], a[3], a[4]),
            DyHmm => <Fl as PoolMath>::dy_from_l_drp_hmm(a[0], a[1], a[2], a[3], a[4]),
            NewDx => <Fl as PoolMath>::rp_new_from_l_dx(a[0], a[1], a[2]),
            NewDy => <Fl as PoolMath>::rp_new_from_l_dy(a[0], a[1], a[2]),
        }
    }
    fn rp(t: u32) -> f64 {
        <Fl as PoolMath>::tick_to_rp(t)
    }
    fn tick(rp: f64, up: bool) -> i128 {
        <Fl as PoolMath>::rp_to_tick(rp, up) as i128
    }
    fn allowed(t: u32, spacing: u32, up: bool) -> i128 {
        <Fl as PoolMath>::tk_to_possible_tk(t, spacing, up) as i128
    }
    fn allowed_at(rp: f64, spacing: u32, up: bool) -> i128 {
        <Fl as PoolMath>::rp_to_possible_tk(rp, spacing, up) as i128
    }
}
fn up_one(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
fn down_one(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}

// ---------------------------------------------------------------- ticks
pub fn ticks<M: Formulas>(cx: &mut Ctx, list: &[u32]) {
    for chunk in list.chunks(16) {
        if !cx.mine() {
            continue;
        }
        cx.tick();
        for &t in chunk {
            let (Ok(r), Ok(nx)) = (guard(|| M::rp(t)), guard(|| M::rp(t + 1))) else {
                cx.fail("float-tick-aborts", format!("{} root price of tick {} or the next aborts", M::NAME, t));
                continue;
            };
            let ex = exact_rp(t as u128);
            let tol = K * r + f64::EPSILON * r * (t as f64 + 2.0);
            let off = (dd(r) - ex).f();
            cx.transitions += 1;
            cx.state(hash64(&[r.to_bits()]));
            cx.check(off.abs() <= tol, "float-tick-price", || format!("{} root price of tick {} is {:e}, exact {:e} (off {:e}, allowed {:e})", M::NAME, t, r, ex.f(), off, tol));
            cx.check(nx > r, "float-not-increasing", || format!("{} root price of tick {} is {:e}, of the next {:e}", M::NAME, t, r, nx));
            let t = t as i128;
            for (rp, fl, ce) in [(r, t, t), (up_one(r), t, t + 1), ((r + nx) / 2.0, t, t + 1), (down_one(nx), t, t + 1), (down_one(r), t - 1, t)] {
                if rp < 1.0 {
                    continue;
                }
                for up in [false, true] {
                    let want = if up { ce } else { fl };
                    let g = guard(|| M::tick(rp, up));
                    cx.transitions += 1;
                    cx.check(g == Ok(want), if up { "float-tick-up" } else { "float-tick-down" }, || {
                        format!("{} price {:e} next to tick {} up={} gives {:?}, expected {}", M::NAME, rp, t, up, g, want)
                    });
                }
            }
        }
    }
}
pub fn spacings<M: Formulas>(cx: &mut Ctx, list: &[u32]) {
    for &s in list {
        if !cx.mine() {
            continue;
        }
        cx.tick();
        let mut tk: Vec<u32> = (0..=130).collect();
        for c in [79_998u32, 82_944, 400_000, 887_272] {
            tk.extend(c - 2..=c + 2);
        }
        for k in [0u32, 1, 2, 50, 1000] {
            tk.extend([k * s, k * s + 1, (k * s).saturating_sub(1), k * s + s / 2]);
        }
        for &t in &tk {
            for up in [false, true] {
                let want = if up { (t + s - 1) / s * s } else { t / s * s } as i128;
                let g = guard(|| M::allowed(t, s, up));
                cx.transitions += 1;
                cx.check(g == Ok(want), "float-spacing", || format!("{} tick {} to a multiple of {} (up={}) gives {:?}, expected {}", M::NAME, t, s, up, g, want));
            }
        }
        for t in [0u32, 1, 9, 10, 11, 29, 30, 31, 59, 60, 61, 1000] {
            let r = M::rp(t);
            for (rp, fl, ce) in [(r, t, t), (up_one(r), t, t + 1)] {
                for up in [false, true] {
                    let want = if up { (ce + s - 1) / s * s } else { fl / s * s } as i128;
                    let g = guard(|| M::allowed_at(rp, s, up));
                    cx.transitions += 1;
                    cx.check(g == Ok(want), "float-price-to-allowed-tick", || format!("{} price {:e} spacing {} up={} gives {:?}, expected {}", M::NAME, rp, s, up, g, want));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- formulas
fn cmp<M: Formulas>(cx: &mut Ctx, f: F, a: &[f64], want: Dd, tol: f64) -> Option<f64> {
    if !M::has(f) {
        return None;
    }
    cx.transitions += 1;
    match guard(|| M::call(f, a)) {
        Ok(g) => {
            cx.state(hash64(&[g.to_bits()]));
            let e = (dd(g) - want).f();
            let ok = g.is_finite() && e.abs() <= tol;
            cx.check(ok, &format!("float-{:?}", f), || format!("{} {:?}{:?} = {:e}, exact {:e} (off {:e}, allowed {:e})", M::NAME, f, a, g, want.f(), e, tol));
            ok.then_some(g)
        }
        Err(m) => {
            cx.fail(&format!("float-{:?}:abort", f), format!("{} {:?}{:?} aborts ({}), exact {:e}", M::NAME, f, a, m, want.f()));
            None
        }
    }
}
pub fn amounts<M: Formulas>(cx: &mut Ctx, dense: bool) {
    let lows: Vec<u32> = if dense { (0..48).map(|k| k * k * 35 + k % 5).collect() } else { vec![0, 90, 2303, 23027, 60000] };
    let gaps: &[u32] = if dense { &[1, 2, 10, 17, 100, 1000, 20000] } else { &[1, 10, 300, 20000] };
    let mut rs: Vec<(f64, f64)> = vec![(0.5, 0.75), (0.02, 3.0), (36.514837167, 54.772255751)];
    for &a in &lows {
        for &g in gaps {
            rs.push((M::rp(a), M::rp(a + g)));
        }
    }
    let am = [0.0, 1e-6, 0.333333333, 1.0, 2.0, 1000.0, 4321.123456789, 1e9];
    for (a, b) in rs {
        for p in [a / 2.0, down_one(a), a, up_one(a), a + (b - a) / 3.0, a + (b - a) / 2.0, down_one(b), b, up_one(b), b * 2.0] {
            if !cx.mine() {
                continue;
            }
            cx.tick();
            let (ad, bd, pd) = (dd(a), dd(b), dd(p));
            let q = pd.max(ad).min(bd);
            let rel = |lo: f64, hi: f64| K * (hi + lo) / (hi - lo);
            for &x in &am {
                let xd = dd(x);
                let lx = |lo: Dd, hi: Dd| xd * lo * hi / (hi - lo);
                cmp::<M>(cx, LiqX, &[x, a, b], lx(ad, bd), rel(a, b) * lx(ad, bd).f());
                cmp::<M>(cx, LiqY, &[x, a, b], xd / (bd - ad), rel(a, b) * (xd / (bd - ad)).f());
                for &y in &am {
                    let ly = |lo: Dd, hi: Dd| dd(y) / (hi - lo);
                    let (w, t) = if p <= a {
                        (lx(ad, bd), rel(a, b) * lx(ad, bd).f())
                    } else if p < b {
                        let (u, v) = (lx(pd, bd), ly(ad, pd));
                        // (either may be the smaller one)
                        (u.min(v), (rel(p, b) * u.f()).max(rel(a, p) * v.f()).min(rel(p, b).max(rel(a, p)) * u.min(v).f() * 2.0))
                    } else {
                        (ly(ad, bd), rel(a, b) * ly(ad, bd).f())
                    };
                    // (at one unit from a bound no digit is significant, and reciprocals may coincide)
                    if p > a && p < b && rel(p, b).max(rel(a, p)) > 1.0 {
                        continue;
                    }
                    cmp::<M>(cx, Liq, &[x, y, p, a, b], w, t);
                }
            }
            for &l in &am {
                let lf = dd(l);
                let (wx, wy) = (lf * (bd - q) / (q * bd), lf * (q - ad));
                let gx = cmp::<M>(cx, X, &[l, p, a, b], wx, K * l * (b + q.f()) / (q.f() * b));
                let gy = cmp::<M>(cx, Y, &[l, p, a, b], wy, K * l * (q.f() + a));
                if p >= b {
                    cx.check(gx.unwrap_or(0.0) == 0.0, "float-x-above-range", || format!("{} x {:?} needed at {:e} above [{:e}, {:e}]", M::NAME, gx, p, a, b));
                }
                if p <= a {
                    cx.check(gy.unwrap_or(0.0) == 0.0, "float-y-below-range", || format!("{} y {:?} needed at {:e} below [{:e}, {:e}]", M::NAME, gy, p, a, b));
                }
                if p > a && p < b && l > 0.0 {
                    let (x, y) = (wx.f(), wy.f());
                    let (xd, yd) = (dd(x), dd(y));
                    cmp::<M>(cx, RpaL, &[l, p, y], pd - yd / lf, K * (p + y / l));
                    let den = lf - pd * xd;
                    let cond = (l + p * x) / den.f();
                    if den.f() > 0.0 && cond < 1e9 {
                        let w = lf * pd / den;
                        cmp::<M>(cx, RpbL, &[l, p, x], w, K * w.f() * cond);
                    }
                    if x > 0.0 {
                        let w = yd / (bd * xd) + pd - yd / (pd * xd);
                        cmp::<M>(cx, RpaXy, &[x, y, p, b], w, K * (y / (b * x) + p + y / (p * x)));
                    }
                    let den = (ad - pd) * pd * xd + yd;
                    let cond = ((a + p) * p * x + y) / den.f();
                    if den.f() > 0.0 && cond < 1e9 {
                        let w = pd * yd / den;
                        cmp::<M>(cx, RpbXy, &[x, y, p, a], w, K * w.f() * cond);
                    }
                }
            }
        }
    }
    // tick forms
    for (t, ta, tb) in [(100u32, 90u32, 110u32), (90, 90, 110), (110, 90, 110), (5, 90, 110), (200, 90, 110), (76013, 70000, 80000), (0, 1, 2), (1, 0, 2), (109, 90, 110)] {
        if !cx.mine() {
            continue;
        }
        let (p, a, b) = (M::rp(t), M::rp(ta), M::rp(tb));
        for &x in &am {
            for &y in &am {
                let (g, w) = (guard(|| M::call(LiqTick, &[x, y, t as f64, ta as f64, tb as f64])), guard(|| M::call(Liq, &[x, y, p, a, b])));
                cx.transitions += 1;
                cx.check(g == w || !M::has(LiqTick), "float-tick-form", || format!("{} liquidity of {} {} by ticks ({}, {}, {}) {:?} vs by prices {:?}", M::NAME, x, y, t, ta, tb, g, w));
            }
            for (f, h) in [(XTick, X), (YTick, Y)] {
                let (g, w) = (guard(|| M::call(f, &[x, t as f64, ta as f64, tb as f64])), guard(|| M::call(h, &[x, p, a, b])));
                cx.check(g == w || !M::has(f), "float-tick-form", || format!("{} {:?} of liquidity {} by ticks ({}, {}, {}) {:?} vs by prices {:?}", M::NAME, h, x, t, ta, tb, g, w));
            }
        }
    }
}
pub fn moves<M: Formulas>(cx: &mut Ctx, dense: bool) {
    let mut rps = vec![0.02, 0.5, 0.999, 1.0, M::rp(1), M::rp(100), M::rp(101), up_one(M::rp(101)), 1.5, 2.0, 3.1, 3.1000001, 5.477225575, 31.622776602, M::rp(76013), 250.0];
    if dense {
        rps.extend((0..40).map(|k| M::rp(k * k * 60 + 7 * k + 3) * (1.0 + k as f64 * 1e-7)));
    }
    for &o in &rps {
        for &n in &rps {
            if !cx.mine() {
                continue;
            }
            cx.tick();
            let (od, nd) = (dd(o), dd(n));
            for l in [1e-6, 1.0, 847.213595499, 1e6, 7.77e9] {
                let lf = dd(l);
                let wx = lf * (od - nd) / (od * nd);
                let gx = cmp::<M>(cx, Dx, &[l, o, n], wx, K * l * (1.0 / n + 1.0 / o));
                let wy = lf * (nd - od);
                let gy = cmp::<M>(cx, Dy, &[l, o, n], wy, K * l * (n + o));
                if let (Some(x), Some(y)) = (gx, gy) {
                    let s = (n > o) as i32 - ((n < o) as i32);
                    let sg = |v: f64| (v > 0.0) as i32 - ((v < 0.0) as i32);
                    cx.check((sg(x) == -s || sg(x) == 0) && (sg(y) == s || sg(y) == 0), "float-move-sign", || format!("{} l {} from {} to {}: dx {} dy {}", M::NAME, l, o, n, x, y));
                    cx.check(s != 0 || (x == 0.0 && y == 0.0), "float-no-move", || format!("{} l {} at {}: dx {} dy {}", M::NAME, l, o, x, y));
                }
                for part in [1.0, 0.5, 1e-3] {
                    let (x, y) = (wx.f() * part, wy.f() * part);
                    let inv = dd(x) / lf + dd(1.0) / od;
                    if inv.f() > 0.0 {
                        let w = dd(1.0) / inv;
                        cmp::<M>(cx, NewDx, &[l, o, x], w, K * w.f() * w.f() * (x.abs() / l + 1.0 / o));
                    }
                    cmp::<M>(cx, NewDy, &[l, o, y], dd(y) / lf + od, K * (y.abs() / l + o));
                }
                let (lo, hi) = (o.min(n), o.max(n));
                for q4 in [4, 5, 6, 7, 8, 12] {
                    let c = q4 as f64 / 4.0;
                    for k in [lo / 2.0, lo, (lo + hi) / 2.0, hi, hi * 2.0] {
                        let kd = dd(k);
                        let (wx2, wy2) = (hmm_dx(lf, od, nd, q4, kd), hmm_dy(lf, od, nd, q4, kd));
                        let (tx, ty) = if q4 == 4 {
                            let lg = 1.0 + (o / n).ln().abs();
                            (K * l / k * lg, K * l * k * lg)
                        } else {
                            let kc = k.powf(c);
                            let e = 1.0 + c + (k.ln().abs() + o.ln().abs() + n.ln().abs()) * 0.1;
                            (
                                K * e * l / kc * (n.powf(c - 1.0) + o.powf(c - 1.0)) / (c - 1.0),
                                K * e * l * kc * (n.powf(1.0 - c) + o.powf(1.0 - c)) / (c - 1.0),
                            )
                        };
                        let hx = cmp::<M>(cx, DxHmm, &[l, o, n, c, k], wx2, tx);
                        let hy = cmp::<M>(cx, DyHmm, &[l, o, n, c, k], wy2, ty);
                        if let (Some(x), Some(y)) = (hx, hy) {
                            cx.check(o != n || (x == 0.0 && y == 0.0), "float-hmm-no-move", || format!("{} l {} at {} strength {} oracle {}: dx {} dy {}", M::NAME, l, o, c, k, x, y));
                            if n > o && k >= n {
                                cx.check(-x + wx.f() <= tx + K * l * (1.0 / n + 1.0 / o), "float-hmm-pays-more-x", || format!("{} l {} from {} to {} strength {} oracle {}: pays {} of {}", M::NAME, l, o, n, c, k, x, wx.f()));
                            }
                            if n < o && k <= n {
                                cx.check(-y + wy.f() <= ty + K * l * (n + o), "float-hmm-pays-more-y", || format!("{} l {} from {} to {} strength {} oracle {}: pays {} of {}", M::NAME, l, o, n, c, k, y, wy.f()));
                            }
                        }
                    }
                }
            }
        }
    }
}
