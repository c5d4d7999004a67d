//! C07-C10: ticks, bitmap, curve formulas.
use crate::dd::{self, dd, from_dec, Dd};
use crate::dec::{d, sh};
use crate::flt;
use crate::fw::{guard, hash64, Ctx, Tier};
use hmmcl_sandbox::cl_pool::{Pool, PoolMath};
use hmmcl_sandbox::decimal::Decimal;
use hmmcl_sandbox::state::tick_bitmap::{byte_get_next_tick, PoolTickBitmap, TICK_BITMAP_SIZE};

pub type P = Pool<'static>;
pub const ULP: f64 = 1e-12;

pub fn dc(v: u128) -> Decimal {
    d(v, 12, false)
}
/// compute-scale decimal of a float literal with at most 9 decimals
pub fn df(x: f64) -> Decimal {
    dc((x * 1e9).round() as u128 * 1000)
}
pub fn rp_of(t: u128) -> Decimal {
    <P as PoolMath>::tick_to_rp(t)
}

/// sqrt(1.0001)^t, independent of the code under test
pub fn exact_rp(t: u128) -> Dd {
    let b = dd(10001.0) / dd(10000.0);
    let p = b.powi((t / 2) as u32);
    if t % 2 == 1 {
        p * b.sqrt()
    } else {
        p
    }
}
fn state(cx: &mut Ctx, x: Decimal) {
    cx.state(hash64(&[x.value as u64, (x.value >> 64) as u64, x.scale as u64, x.negative as u64]));
}

// ---------------------------------------------------------------- C07
pub fn c07_bounds(t: Tier) -> String {
    if t == Tier::Quick {
        "every tick 0..=80000, every 29th up to 660000 plus 16 neighbours of round ticks; prices at, one ulp beside and between; starts {0,1,t/2,t-2..t}, and {0,1,9999,100001} for five far ticks; spacings 1..=64 and 100,200,1000; inverse by logarithm at every such price; floating-point conversions at every tick 0..100000 and every 61st up to 660000, spacings 1..=64".into()
    } else {
        "every tick 0..=669000; same prices and starts; spacings 1..=256 and larger; the same on the floating-point conversions".into()
    }
}
pub fn c07(cx: &mut Ctx) {
    {
        let dense: Vec<u32> = (0..cx.pick(100_000u32, 669_000)).chain((100_000..660_000).step_by(cx.pick(61usize, 1009))).collect();
        flt::ticks::<flt::Float>(cx, &dense);
        flt::spacings::<flt::Float>(cx, &(1..=cx.pick(64u32, 256)).chain([100, 1000, 65536]).collect::<Vec<_>>());
    }
    let dense = cx.pick(80_000u128, 669_000);
    let top = cx.pick(660_000u128, 669_000);
    let step = cx.pick(29usize, 53);
    let mut ticks: Vec<u128> = (0..=dense).collect();
    ticks.extend((dense..=top).step_by(step));
    for c in [23027u128, 46054, 76012, 82944, 92108] {
        ticks.extend(c.saturating_sub(8)..=c + 8);
    }
    ticks.sort_unstable();
    ticks.dedup();
    // long upward searches from tick zero are slow: only for a few
    for chunk in ticks.chunks(8) {
        if !cx.mine() {
            continue;
        }
        for &t in chunk {
            c07_tick(cx, t);
        }
        cx.tick();
    }
    // searches over a long distance
    for t in [30_000u128, 110_000, 262_145, 400_001, 600_003] {
        for s in [0u128, 1, 9_999, 100_001] {
            if s + 20_000 > t || !cx.mine() {
                continue;
            }
            for dlt in [-1i64, 0, 1, 30_000_000] {
                let rp = nudge(rp_of(t), dlt);
                for up in [false, true] {
                    let want = match (up, dlt < 0, dlt > 0) {
                        (false, true, _) => t - 1,
                        (true, _, true) => t + 1,
                        _ => t,
                    };
                    let g = guard(|| <P as PoolMath>::rp_to_tick_loop(rp, up, s));
                    cx.transitions += 1;
                    cx.check(g == Ok(want), if up { "search-up" } else { "search-down" }, || {
                        format!("price {} ({:+} ulp from tick {}) searched from {} up={} gives {:?}, expected {}", sh(rp), dlt, t, s, up, g, want)
                    });
                }
                cx.tick();
            }
        }
    }
    // spacing
    let mut sp: Vec<u128> = (1..=cx.pick(64u128, 256)).collect();
    sp.extend([100, 200, 500, 1000, 65536]);
    for &s in &sp {
        if !cx.mine() {
            continue;
        }
        let mut tk: Vec<u128> = (0..=cx.pick(260u128, 2000)).collect();
        for c in [79_998u128, 82_944, 887_272] {
            tk.extend(c - 3..=c + 3);
        }
        for k in [0u128, 1, 2, 50, 1000] {
            for x in [k * s, k * s + 1, (k * s).saturating_sub(1), k * s + s / 2] {
                tk.push(x);
            }
        }
        for &t in &tk {
            for up in [false, true] {
                let r = guard(|| <P as PoolMath>::tk_to_possible_tk(t, s, up));
                cx.transitions += 1;
                let want = if up { (t + s - 1) / s * s } else { t / s * s };
                cx.check(r == Ok(want), "spacing", || format!("tick {} to a multiple of {} (up={}) gives {:?}, expected {}", t, s, up, r, want));
            }
        }
    }
    // price to allowed tick
    for s in [1u128, 2, 3, 10, 30] {
        for &t in &[0u128, 1, 2, 9, 10, 11, 29, 30, 31, 59, 60, 61, 119, 120, 121, 1000] {
            if !cx.mine() {
                continue;
            }
            for dlt in [-1i64, 0, 1, 20_000_000] {
                let rp = nudge(rp_of(t), dlt);
                for up in [false, true] {
                    let (fl, ce) = (true_floor(rp, t), true_ceil(rp, t));
                    let want = if up { (ce + s - 1) / s * s } else { fl / s * s };
                    let r = guard(|| <P as PoolMath>::rp_to_possible_tk(rp, s, up, 0));
                    cx.transitions += 1;
                    cx.check(r == Ok(want), "price-to-allowed-tick", || {
                        format!("price {} (tick {}{:+}) spacing {} up={} gives {:?}, expected {}", sh(rp), t, dlt, s, up, r, want)
                    });
                }
            }
        }
    }
}
fn nudge(x: Decimal, k: i64) -> Decimal {
    if k < 0 {
        dc(x.value - (-k) as u128)
    } else {
        dc(x.value + k as u128)
    }
}
/// greatest tick whose root price does not exceed rp, starting the search at a nearby guess (0 if none)
pub fn true_floor(rp: Decimal, guess: u128) -> u128 {
    let mut t = guess;
    while t > 0 && rp_of(t).value > rp.value {
        t -= 1;
    }
    while rp_of(t + 1).value <= rp.value {
        t += 1;
    }
    t
}
pub fn true_ceil(rp: Decimal, guess: u128) -> u128 {
    let mut t = guess;
    while t > 0 && rp_of(t - 1).value >= rp.value {
        t -= 1;
    }
    while rp_of(t).value < rp.value {
        t += 1;
    }
    t
}
fn c07_tick(cx: &mut Ctx, t: u128) {
    let r = match guard(|| rp_of(t)) {
        Ok(r) => r,
        Err(e) => return cx.fail("tick-aborts", format!("root price of tick {} aborts: {}", t, e)),
    };
    cx.transitions += 1;
    state(cx, r);
    let ex = exact_rp(t);
    let tol = ULP * 2.0 + ex.f() * ULP * 1.5 * (t as f64 + 1.0);
    let err = (from_dec(r) - ex).f();
    cx.check(r.scale == 12 && !r.negative && err.abs() <= tol, "tick-price", || {
        format!("root price of tick {} is {}, exact {:.15} (off {:e}, allowed {:e})", t, sh(r), ex.f(), err, tol)
    });
    let nx = rp_of(t + 1);
    cx.check(nx.value > r.value, "not-increasing", || format!("root price of tick {} is {}, of the next {}", t, sh(r), sh(nx)));
    let mid = dc(r.value + (nx.value - r.value) / 2);
    let prices = [(nudge(r, -1), -1i32), (r, 0), (nudge(r, 1), 1), (mid, 2), (nudge(nx, -1), 3)];
    let mut starts = vec![t.saturating_sub(2), t.saturating_sub(1), t, t / 2, 0, 1];
    if t > 6000 {
        starts = vec![t - 1, t - 60];
        if t % 5 == 0 {
            starts.push(t - 2000);
        }
    }
    for (rp, k) in prices {
        if rp.value < 1_000_000_000_000 {
            continue; // below tick zero: no tick exists, clamped
        }
        let (fl, ce) = (if k < 0 { t.wrapping_sub(1) } else { t }, if k <= 0 { t } else { t + 1 });
        for up in [false, true] {
            let want = if up { ce } else { fl };
            for &s in &starts {
                if s > want {
                    continue;
                }
                let g = guard(|| <P as PoolMath>::rp_to_tick_loop(rp, up, s));
                cx.transitions += 1;
                cx.check(g == Ok(want), if up { "search-up" } else { "search-down" }, || {
                    format!("price {} ({:+} from tick {}) searched from {} up={} gives {:?}, expected {}", sh(rp), k, t, s, up, g, want)
                });
            }
            let g = guard(|| <P as PoolMath>::rp_to_tick(rp, up));
            cx.transitions += 1;
            cx.check(g == Ok(want), if up { "log-up" } else { "log-down" }, || {
                format!("price {} ({:+} from tick {}) by logarithm up={} gives {:?}, expected {}", sh(rp), k, t, up, g, want)
            });
        }
    }
    cx.sample(|| format!("tick {} root price {} exact {:.13}", t, sh(r), ex.f()));
}

// ---------------------------------------------------------------- C08
pub fn c08_bounds(t: Tier) -> String {
    format!(
        "byte search: all 2^8 bytes x direction x position x containing; every single tick 0..{} alone with all its neighbours queried; all ordered pairs of 40 ticks; explicit-state search over all subsets of {} ticks at {} bases, all activations/deactivations from every subset, all queries from every subset",
        TICK_BITMAP_SIZE * 8,
        if t == Tier::Quick { 10 } else { 14 },
        if t == Tier::Quick { 3 } else { 5 }
    )
}
pub fn c08(cx: &mut Ctx) {
    let n = (TICK_BITMAP_SIZE * 8) as i32;
    if cx.mine() {
        for byte in 0..=255u8 {
            for ix in 0..8u8 {
                for (dir, contain) in [(0u8, true), (0, false), (1, true), (1, false)] {
                    let got = guard(|| byte_get_next_tick(byte, dir, ix, contain));
                    let has = |i: u8| byte >> i & 1 == 1;
                    let want = match (dir, contain) {
                        (0, true) => (0..ix).rev().find(|&i| has(i)),
                        (0, false) => (0..8).rev().find(|&i| has(i)),
                        (1, true) => (ix + 1..8).find(|&i| has(i)),
                        _ => (0..8).find(|&i| has(i)),
                    };
                    cx.transitions += 1;
                    cx.check(got == Ok(want), "byte-search", || {
                        format!("byte {:08b} dir {} from {} containing={} gives {:?}, expected {:?}", byte, dir, ix, contain, got, want)
                    });
                }
            }
        }
    }
    // single ticks over the whole map
    let stride = cx.pick(1, 1);
    let mut base = 0;
    while base < n {
        if cx.mine() {
            let mut b = Box::new(PoolTickBitmap::default());
            let mut t = base;
            while t < (base + 1000).min(n) {
                let r = guard(|| {
                    b.activate_tick(t);
                    let mut bad = vec![];
                    for q in [0, 1, t - 9, t - 8, t - 7, t - 2, t - 1, t, t + 1, t + 2, t + 7, t + 8, t + 9, n - 1] {
                        if q < 0 || q >= n {
                            continue;
                        }
                        if b.tick_is_active(q) != (q == t) {
                            bad.push(format!("is_active({}) = {}", q, b.tick_is_active(q)));
                        }
                        for dir in [0u8, 1] {
                            // skip the long scans except around the map's ends
                            if (q - t).abs() > 4000 && t % 997 != 0 {
                                continue;
                            }
                            let want = if dir == 0 && q > t || dir == 1 && q < t { Some(t) } else { None };
                            let got = b.get_next_tick(q, dir);
                            if got != want {
                                bad.push(format!("next({}, {}) = {:?}", q, dir, got));
                            }
                        }
                    }
                    b.unset_tick(t);
                    if b.tick_is_active(t) || b.tick_map[(t / 8) as usize] != 0 {
                        bad.push("still active after unset".into());
                    }
                    bad
                });
                cx.transitions += 20;
                match r {
                    Ok(bad) => {
                        cx.check(bad.is_empty(), "single", || format!("only tick {} active: {:?}", t, bad));
                    }
                    Err(e) => cx.fail("single-abort", format!("only tick {} active: aborts: {}", t, e)),
                }
                t += stride;
            }
            cx.check(b.tick_map.iter().all(|&x| x == 0), "residue", || format!("bits left after unsetting every tick from {}", base));
            cx.tick();
        }
        base += 1000;
    }
    // pairs: operations on one never affect the other
    let ticks: Vec<i32> = vec![
        0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 8000, 9999, 10000, 10001, 16384, 39999, 40000,
        40001, 65535, 65536, 79000, 79992, 79993, 79997, 79998, 79999,
    ];
    for &a in &ticks {
        if !cx.mine() {
            continue;
        }
        for &b in &ticks {
            if a == b {
                continue;
            }
            let r = guard(|| {
                let mut m = Box::new(PoolTickBitmap::default());
                let mut bad = vec![];
                m.activate_tick(a);
                m.activate_tick(b);
                m.activate_tick(a);
                check_map(&m, &[a, b], &ticks, n, &mut bad);
                m.unset_tick(a);
                check_map(&m, &[b], &ticks, n, &mut bad);
                m.unset_tick(a);
                check_map(&m, &[b], &ticks, n, &mut bad);
                m.unset_tick(b);
                check_map(&m, &[], &ticks, n, &mut bad);
                bad
            });
            cx.transitions += 6;
            match r {
                Ok(bad) => {
                    cx.check(bad.is_empty(), "pair", || format!("ticks {} and {}: {:?}", a, b, &bad[..bad.len().min(4)]));
                }
                Err(e) => cx.fail("pair-abort", format!("ticks {} and {}: aborts: {}", a, b, e)),
            }
        }
        cx.tick();
    }
    // explicit-state: all subsets
    let k = cx.pick(10usize, 14);
    let bases: &[i32] = if cx.quick() { &[0, 40000, 79960] } else { &[0, 8, 32760, 40000, 79960] };
    let off: [i32; 14] = [0, 1, 7, 8, 9, 15, 16, 18, 30, 31, 3, 12, 24, 39];
    for &base in bases {
        let mut el: Vec<i32> = off[..k].iter().map(|o| base + o).collect();
        el.sort_unstable();
        let queries: Vec<i32> = (base - 2..base + 41).filter(|&q| q >= 0 && q < n).collect();
        for hi in 0..(1u32 << (k - 5)) {
            if !cx.mine() {
                continue;
            }
            let r = guard(|| {
                let mut bad: Vec<String> = vec![];
                let mut ops = 0u64;
                let mut states = vec![];
                let mut m = Box::new(PoolTickBitmap::default());
                for lo in 0..32u32 {
                    let set = hi << 5 | lo;
                    let on = |s: u32| -> Vec<i32> { (0..k).filter(|i| s >> i & 1 == 1).map(|i| el[i]).collect() };
                    for t in on(set) {
                        m.activate_tick(t);
                    }
                    states.push(hash64(&[base as u64, set as u64]));
                    check_map(&m, &on(set), &queries, n, &mut bad);
                    // every transition out of this state, and back
                    for i in 0..k {
                        let t = el[i];
                        let was = set >> i & 1 == 1;
                        m.activate_tick(t);
                        check_active(&m, &on(set | 1 << i), &queries, &mut bad);
                        m.unset_tick(t);
                        check_active(&m, &on(set & !(1 << i)), &queries, &mut bad);
                        m.unset_tick(t);
                        check_active(&m, &on(set & !(1 << i)), &queries, &mut bad);
                        if was {
                            m.activate_tick(t);
                        }
                        ops += 4;
                    }
                    check_map(&m, &on(set), &queries, n, &mut bad);
                    for t in on(set) {
                        m.unset_tick(t);
                    }
                    if m.tick_map.iter().any(|&x| x != 0) {
                        bad.push(format!("bits left after unsetting {:?}", on(set)));
                        m = Box::new(PoolTickBitmap::default());
                    }
                }
                (bad, ops, states)
            });
            match r {
                Ok((bad, ops, st)) => {
                    cx.transitions += ops;
                    for s in st {
                        cx.state(s);
                    }
                    cx.check(bad.is_empty(), "subset", || format!("base {} subsets {}..: {:?}", base, hi << 5, &bad[..bad.len().min(4)]));
                }
                Err(e) => cx.fail("subset-abort", format!("base {} subsets {}..: aborts: {}", base, hi << 5, e)),
            }
            cx.tick();
        }
    }
    cx.sample(|| format!("bases {:?}, offsets {:?}", bases, &off[..k]));
}
fn check_active(m: &PoolTickBitmap, on: &[i32], q: &[i32], bad: &mut Vec<String>) {
    for &t in q.iter().chain(on) {
        if m.tick_is_active(t) != on.contains(&t) {
            bad.push(format!("active {:?}: is_active({}) = {}", on, t, m.tick_is_active(t)));
        }
    }
}
fn check_map(m: &PoolTickBitmap, on: &[i32], q: &[i32], n: i32, bad: &mut Vec<String>) {
    check_active(m, on, q, bad);
    for &t in q {
        let up = on.iter().copied().filter(|&x| x > t).min();
        let dn = on.iter().copied().filter(|&x| x < t).max();
        // a scan that finds nothing walks the whole map: do it from a few places only
        let far = |w: Option<i32>| w.map_or(true, |x| (x - t).abs() > 2000);
        let thin = t % 8 == 0 || t == n - 1;
        if (!far(dn) || thin || t < 4000) && m.get_next_tick(t, 0) != dn {
            bad.push(format!("active {:?}: next below {} = {:?}", on, t, m.get_next_tick(t, 0)));
        }
        if (!far(up) || thin || n - t < 4000) && m.get_next_tick(t, 1) != up {
            bad.push(format!("active {:?}: next above {} = {:?}", on, t, m.get_next_tick(t, 1)));
        }
    }
}

// ---------------------------------------------------------------- C09
fn ranges(cx: &Ctx) -> Vec<(Decimal, Decimal)> {
    let mut v = vec![];
    let lows: Vec<u128> = if cx.quick() { (0..64u128).map(|k| k * k * 28 + k % 5).collect() } else { (0..512u128).map(|k| k * 251 + k % 7 * 5).collect() };
    let gaps: Vec<u128> = if cx.quick() { vec![1, 2, 3, 10, 17, 30, 100, 1000, 3000, 20000, 60000, 100000] } else { vec![1, 2, 3, 5, 10, 17, 30, 60, 100, 300, 1000, 3000, 9000, 20000, 60000, 100000] };
    for &a in &lows {
        for &g in &gaps {
            v.push((rp_of(a), rp_of(a + g)));
        }
    }
    // off-tick bounds, prices below one
    v.extend([(df(0.5), df(0.75)), (df(0.02), df(3.0)), (df(0.9), df(1.1)), (df(36.514837167), df(54.772255751)), (dc(1_000_000_000_001), dc(1_000_000_000_002))]);
    v
}
fn points(a: Decimal, b: Decimal) -> Vec<Decimal> {
    let mut v = vec![
        dc(a.value / 2),
        dc(a.value - 1),
        a,
        dc(a.value + 1),
        dc(a.value + (b.value - a.value) / 3),
        dc(a.value + (b.value - a.value) / 2),
        dc(b.value - 1),
        b,
        dc(b.value + 1),
        dc(b.value * 2),
    ];
    v.sort_by_key(|x| x.value);
    v.dedup_by_key(|x| x.value);
    v.retain(|x| x.value > 0);
    v
}
fn amounts(cx: &Ctx) -> Vec<Decimal> {
    let mut v = vec![dc(0), dc(1), df(0.000001), df(0.333333333), df(1.0), df(2.0), df(1000.0), df(4321.123456789), df(1e6)];
    {
        v.extend([dc(7), dc(999_999_999_999), df(0.5), df(3.0), df(123456789.0), df(1e9), dc(1_000_000_000_001)]);
    }
    if !cx.quick() {
        v.extend([dc(2), dc(12_345_678), df(0.1), df(17.171717171), df(99999.0), df(31415926.5)]);
    }
    v
}
pub fn c09_bounds(t: Tier) -> String {
    format!(
        "cross product of {} ranges (tick bounds 0..160000 with gaps 1..100000, off-tick, below one, one ulp wide) x prices below/at/one ulp beside/inside/above each range x amounts 0..1e9 per token x liquidities; all formulas and their mutual inverses; inverted, empty and zero-denominator requests; the floating-point formulas over 339 ranges x 10 prices x 8 amounts per token",
        if t == Tier::Quick { "773" } else { "8197" }
    )
}
fn cmp_val(cx: &mut Ctx, mag: f64, key: &str, got: &Result<Decimal, String>, want: Dd, tol: f64, what: &dyn Fn() -> String) -> bool {
    cx.transitions += 1;
    match got {
        Ok(g) => {
            state(cx, *g);
            let e = (from_dec(*g) - want).f();
            cx.check(g.scale == 12 && e.abs() <= tol, key, || format!("{} = {}, exact {:.16e} (off {:e}, allowed {:e})", what(), sh(*g), want.f(), e, tol))
        }
        Err(m) => {
            if want.f().abs() > 3.3e14 || mag > 3.3e14 {
                return true; // an intermediate does not fit
            }
            cx.fail(&format!("{}:abort", key), format!("{} aborts ({}), exact {:e}", what(), m, want.f()));
            false
        }
    }
}
pub fn c09(cx: &mut Ctx) {
    flt::amounts::<flt::Float>(cx, true);
    let am = amounts(cx);
    let rs = ranges(cx);
    for (ra, rb) in rs.iter().copied() {
        for rp in points(ra, rb) {
            if !cx.mine() {
                continue;
            }
            let (a, b, p) = (from_dec(ra), from_dec(rb), from_dec(rp));
            let mm = (b.f() + 1.0) * (b.f() + p.f() + 1.0);
            // --- liquidity from amounts
            for &x in &am {
                for &y in &am {
                    let (xd, yd) = (from_dec(x), from_dec(y));
                    let lx = |lo: Dd, hi: Dd| xd * lo * hi / (hi - lo);
                    let ly = |lo: Dd, hi: Dd| yd / (hi - lo);
                    let slop = |lo: Dd, hi: Dd| 1e-30 * hi.f() / (hi - lo).f();
                    let tolx = |lo: Dd, hi: Dd| 4.0 * ULP * ((hi.f() + 1.0) / (hi - lo).f() + 1.0) + slop(lo, hi) * lx(lo, hi).f();
                    let toly = |lo: Dd, hi: Dd| 4.0 * ULP + slop(lo, hi) * ly(lo, hi).f();
                    let (want, tol) = if rp.value <= ra.value {
                        (lx(a, b), tolx(a, b))
                    } else if rp.value < rb.value {
                        (lx(p, b).min(ly(a, p)), tolx(p, b).max(toly(a, p)))
                    } else {
                        (ly(a, b), toly(a, b))
                    };
                    let g = guard(|| <P as PoolMath>::liq_from_x_y_rp_rng(x, y, rp, ra, rb));
                    if cmp_val(cx, (xd.f() + yd.f()) * mm, "liq", &g, want, tol, &|| format!("liquidity of x {} y {} at {} in [{}, {}]", sh(x), sh(y), sh(rp), sh(ra), sh(rb))) {
                        // amounts needed for that liquidity: no more than given, one-sided outside
                        let Ok(l) = g else { continue };
                        let gx = guard(|| <P as PoolMath>::x_from_l_rp_rng(l, rp, ra, rb));
                        let gy = guard(|| <P as PoolMath>::y_from_l_rp_rng(l, rp, ra, rb));
                        if let (Ok(gx), Ok(gy)) = (gx, gy) {
                            let pp = p.max(a).min(b);
                            let lf = from_dec(l);
                            let dust_x = 4.0 * ULP * (1.0 + (lf * (b - pp) / (pp * b)).f() / (pp * b).f() + 1.0 / (pp * b).f() + tol * ((b - pp) / (pp * b)).f() / ULP);
                            let dust_y = 4.0 * ULP * (1.0 + tol * (pp - a).f() / ULP);
                            cx.check((from_dec(gx) - xd).f() <= dust_x, "needs-more-x", || {
                                format!("x {} y {} at {} in [{}, {}] gives liquidity {} which needs x {}", sh(x), sh(y), sh(rp), sh(ra), sh(rb), sh(l), sh(gx))
                            });
                            cx.check((from_dec(gy) - yd).f() <= dust_y, "needs-more-y", || {
                                format!("x {} y {} at {} in [{}, {}] gives liquidity {} which needs y {}", sh(x), sh(y), sh(rp), sh(ra), sh(rb), sh(l), sh(gy))
                            });
                            if rp.value <= ra.value {
                                cx.check(gy.value == 0, "y-below-range", || format!("y {} needed at {} below [{}, {}]", sh(gy), sh(rp), sh(ra), sh(rb)));
                            }
                            if rp.value >= rb.value {
                                cx.check(gx.value == 0, "x-above-range", || format!("x {} needed at {} above [{}, {}]", sh(gx), sh(rp), sh(ra), sh(rb)));
                            }
                        }
                    }
                }
                cx.tick();
            }
            for &x in &am {
                let xd = from_dec(x);
                let slop = 1e-30 * b.f() / (b - a).f();
                let w = xd * a * b / (b - a);
                let g = guard(|| <P as PoolMath>::liq_x_only(x, ra, rb));
                cmp_val(cx, xd.f() * mm, "liq-x", &g, w, 4.0 * ULP * ((b.f() + 1.0) / (b - a).f() + 1.0) + slop * w.f(), &|| {
                    format!("liq_x_only({}, {}, {})", sh(x), sh(ra), sh(rb))
                });
                let g = guard(|| <P as PoolMath>::liq_y_only(x, ra, rb));
                cmp_val(cx, xd.f() * mm, "liq-y", &g, xd / (b - a), 4.0 * ULP + slop * (xd / (b - a)).f(), &|| format!("liq_y_only({}, {}, {})", sh(x), sh(ra), sh(rb)));
            }
            // --- amounts from liquidity
            let pp = p.max(a).min(b);
            for &l in &am {
                let lf = from_dec(l);
                let wx = lf * (b - pp) / (pp * b);
                let wy = lf * (pp - a);
                let tx = 4.0 * ULP * (1.0 + (1.0 + wx.f()) / (pp * b).f());
                let g = guard(|| <P as PoolMath>::x_from_l_rp_rng(l, rp, ra, rb));
                cmp_val(cx, lf.f() * mm, "x-from-l", &g, wx, tx, &|| format!("x of liquidity {} at {} in [{}, {}]", sh(l), sh(rp), sh(ra), sh(rb)));
                let g = guard(|| <P as PoolMath>::y_from_l_rp_rng(l, rp, ra, rb));
                cmp_val(cx, lf.f() * mm, "y-from-l", &g, wy, 4.0 * ULP, &|| format!("y of liquidity {} at {} in [{}, {}]", sh(l), sh(rp), sh(ra), sh(rb)));
                // --- bounds back from amounts
                if rp.value > ra.value && rp.value < rb.value && l.value > 0 {
                    let (x, y) = (dd::to_dec(wx), dd::to_dec(wy));
                    let (xd, yd) = (from_dec(x), from_dec(y));
                    let tag = || format!("l {} x {} y {} rp {} of [{}, {}]", sh(l), sh(x), sh(y), sh(rp), sh(ra), sh(rb));
                    let g = guard(|| <P as PoolMath>::rpa_from_l_rp_y(l, rp, y));
                    cmp_val(cx, (lf + xd + yd).f() * mm, "rpa-from-l", &g, p - yd / lf, 4.0 * ULP, &|| format!("rpa_from_l_rp_y: {}", tag()));
                    let den = lf - p * xd;
                    if den.f() > 1e3 * ULP {
                        let w = lf * p / den;
                        let t = 4.0 * ULP * (1.0 + (1.0 + w.f()) / den.f());
                        let g = guard(|| <P as PoolMath>::rpb_from_l_rp_x(l, rp, x));
                        cmp_val(cx, (lf + xd + yd).f() * mm, "rpb-from-l", &g, w, t, &|| format!("rpb_from_l_rp_x: {}", tag()));
                    }
                    let (bx, px) = (b * xd, p * xd);
                    if bx.f() > 1e3 * ULP && px.f() > 1e3 * ULP {
                        let w = yd / bx + p - yd / px;
                        let t = 4.0 * ULP * (2.0 + yd.f() / bx.f() / bx.f() + yd.f() / px.f() / px.f());
                        if w.f() > t {
                            let g = guard(|| <P as PoolMath>::rpa_from_x_y_rp_rpb(x, y, rp, rb));
                            cmp_val(cx, (lf + xd + yd).f() * mm, "rpa-from-xy", &g, w, t, &|| format!("rpa_from_x_y_rp_rpb: {}", tag()));
                        }
                    }
                    let den = (a - p) * p * xd + yd;
                    if den.f() > 1e3 * ULP {
                        let w = p * yd / den;
                        let t = 4.0 * ULP * (1.0 + (1.0 + w.f() * (1.0 + xd.f())) / den.f());
                        let g = guard(|| <P as PoolMath>::rpb_from_x_y_rp_rpa(x, y, rp, ra));
                        cmp_val(cx, (lf + xd + yd).f() * mm, "rpb-from-xy", &g, w, t, &|| format!("rpb_from_x_y_rp_rpa: {}", tag()));
                    }
                }
            }
            // --- impossible requests
            for &x in &am {
                if x.value == 0 {
                    continue;
                }
                let refuse = |cx: &mut Ctx, key: &str, r: Result<Decimal, String>, w: String| {
                    cx.transitions += 1;
                    cx.check(r.is_err(), key, || format!("{} must abort, gives {}", w, sh(r.clone().unwrap())));
                };
                for (lo, hi) in [(rb, ra), (ra, ra)] {
                    refuse(cx, "inverted-liq-x", guard(|| <P as PoolMath>::liq_x_only(x, lo, hi)), format!("liq_x_only over [{}, {}]", sh(lo), sh(hi)));
                    refuse(cx, "inverted-liq-y", guard(|| <P as PoolMath>::liq_y_only(x, lo, hi)), format!("liq_y_only over [{}, {}]", sh(lo), sh(hi)));
                    refuse(cx, "inverted-liq", guard(|| <P as PoolMath>::liq_from_x_y_rp_rng(x, x, rp, lo, hi)), format!("liquidity over [{}, {}]", sh(lo), sh(hi)));
                }
                let z = dc(0);
                refuse(cx, "zero-price", guard(|| <P as PoolMath>::x_from_l_rp_rng(x, z, ra, rb)), "x_from_l at price zero".into());
                refuse(cx, "zero-bound", guard(|| <P as PoolMath>::x_from_l_rp_rng(x, rp, z, rb)), "x_from_l with lower bound zero".into());
                refuse(cx, "zero-bound", guard(|| <P as PoolMath>::x_from_l_rp_rng(x, rp, ra, z)), "x_from_l with upper bound zero".into());
                refuse(cx, "zero-liq", guard(|| <P as PoolMath>::rpa_from_l_rp_y(z, rp, x)), "rpa_from_l with zero liquidity".into());
                refuse(cx, "zero-amount", guard(|| <P as PoolMath>::rpa_from_x_y_rp_rpb(z, x, rp, rb)), "rpa_from_x_y with x zero".into());
                // amounts beyond what the liquidity can hold
                let lsmall = dc(x.value / 2);
                if x.value > 1000 && rp.value > 1_000_000_000_000 {
                    refuse(cx, "too-much-x", guard(|| <P as PoolMath>::rpb_from_l_rp_x(lsmall, rp, x)), format!("upper bound of x {} with liquidity {}", sh(x), sh(lsmall)));
                }
            }
            cx.sample(|| format!("range [{}, {}] price {}", sh(ra), sh(rb), sh(rp)));
        }
    }
    // tick forms agree with the price forms
    for &(t, ta, tb) in &[(100u128, 90u128, 110u128), (90, 90, 110), (110, 90, 110), (5, 90, 110), (200, 90, 110), (76013, 70000, 80000), (0, 1, 2), (1, 0, 2), (109, 90, 110)] {
        if !cx.mine() {
            continue;
        }
        for &x in &am {
            for &y in &am {
                let g = guard(|| <P as PoolMath>::liq_from_x_y_tick_rng(x, y, t, ta, tb));
                let w = guard(|| <P as PoolMath>::liq_from_x_y_rp_rng(x, y, rp_of(t), rp_of(ta), rp_of(tb)));
                cx.transitions += 1;
                cx.check(same_res(&g, &w), "tick-form", || format!("liquidity by ticks ({}, {}, {}) {:?} vs by prices {:?}", t, ta, tb, g.as_ref().map(|x| sh(*x)), w.as_ref().map(|x| sh(*x))));
            }
            let g = (guard(|| <P as PoolMath>::x_from_l_tick_rng(x, t, ta, tb)), guard(|| <P as PoolMath>::y_from_l_tick_rng(x, t, ta, tb)));
            let w = (
                guard(|| <P as PoolMath>::x_from_l_rp_rng(x, rp_of(t), rp_of(ta), rp_of(tb))),
                guard(|| <P as PoolMath>::y_from_l_rp_rng(x, rp_of(t), rp_of(ta), rp_of(tb))),
            );
            cx.check(same_res(&g.0, &w.0) && same_res(&g.1, &w.1), "tick-form", || format!("amounts by ticks ({}, {}, {}) differ from by prices for {}", t, ta, tb, sh(x)));
        }
    }
}
fn same_res(a: &Result<Decimal, String>, b: &Result<Decimal, String>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.scale == y.scale && x.value == y.value && (x.value == 0 || x.negative == y.negative),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------- C10
pub const STRENGTHS: [(u128, i32); 4] = [(1_000_000_000_000, 4), (1_250_000_000_000, 5), (1_500_000_000_000, 6), (2_000_000_000_000, 8)];

pub fn c10_bounds(t: Tier) -> String {
    format!(
        "all ordered pairs of {} root prices (0.02 .. 250, tick prices, one ulp, 2e-9 and 1e-6 apart) x {} liquidities x strengths 1, 1.25, 1.5, 2 x oracle prices below/at/between/at/above; reserve changes and price reached for fractions of each move, inverses, zero moves, refusals; the floating-point formulas over 56 x 56 prices x 5 liquidities x 6 strengths x 5 oracles",
        if t == Tier::Quick { 78 } else { 174 },
        if t == Tier::Quick { 9 } else { 14 }
    )
}
/// exact reserve changes with adjustment (c = q4/4)
pub fn hmm_dx(l: Dd, o: Dd, n: Dd, q4: i32, oracle: Dd) -> Dd {
    if q4 == 4 {
        l / oracle * (o / n).ln()
    } else {
        let omc = dd(1.0) - dd(q4 as f64 / 4.0);
        l / oracle.pow_quarters(q4) * (n.pow_quarters(q4 - 4) - o.pow_quarters(q4 - 4)) / omc
    }
}
pub fn hmm_dy(l: Dd, o: Dd, n: Dd, q4: i32, oracle: Dd) -> Dd {
    if q4 == 4 {
        l * oracle * (o / n).ln() * dd(-1.0)
    } else {
        let omc = dd(1.0) - dd(q4 as f64 / 4.0);
        l * oracle.pow_quarters(q4) * (n.pow_quarters(4 - q4) - o.pow_quarters(4 - q4)) / omc
    }
}
pub const LN_ABS: f64 = 2.4e-10;
/// error allowance of the code's adjusted amounts
pub fn tol_hmm_dx(l: f64, o: f64, n: f64, q4: i32, k: f64) -> f64 {
    if q4 == 4 {
        let lg = (o / n).ln().abs();
        ULP * 4.0 * (1.0 + lg) + l / k * LN_ABS
    } else {
        let c = q4 as f64 / 4.0;
        let oc = k.powf(c);
        let diff = (n.powf(c - 1.0) - o.powf(c - 1.0)).abs();
        let ep = 6.0 * ULP * (1.0 + k);
        let e1 = ULP + l / oc * (ep / oc);
        let ed = 6.0 * ULP;
        (e1 * diff + l / oc * ed + 2.0 * ULP) / (c - 1.0).abs() * 2.0 + ULP
    }
}
pub fn tol_hmm_dy(l: f64, o: f64, n: f64, q4: i32, k: f64) -> f64 {
    if q4 == 4 {
        let lg = (o / n).ln().abs();
        ULP * 4.0 * (1.0 + lg) + l * k * LN_ABS
    } else {
        let c = q4 as f64 / 4.0;
        let oc = k.powf(c);
        let (pn, po) = (n.powf(c - 1.0), o.powf(c - 1.0));
        let diff = (1.0 / pn - 1.0 / po).abs();
        let ep = 6.0 * ULP * (1.0 + k);
        let e1 = ULP + l * ep;
        let ed = 3.0 * ULP + 3.0 * ULP / (pn * pn) + 3.0 * ULP / (po * po);
        (e1 * diff + l * oc * ed + 2.0 * ULP) / (c - 1.0).abs() * 2.0 + ULP
    }
}
pub fn c10(cx: &mut Ctx) {
    flt::moves::<flt::Float>(cx, true);
    let mut rps: Vec<Decimal> = vec![df(0.02), df(0.1), df(0.5), df(0.999), dc(999_999_999_999), dc(1_000_000_000_000), rp_of(1), rp_of(2), rp_of(100), rp_of(101), rp_of(110), dc(rp_of(110).value + 1), df(1.5), df(2.0), rp_of(20000), df(5.477225575), df(10.0), df(31.622776602), df(44.72135955), rp_of(76013), dc(rp_of(76013).value - 1), df(55.0), df(100.0), df(250.0)];
    // tiny moves
    rps.extend([df(3.1), df(3.100000002), df(3.100000006), df(3.100001), df(10.000000001), df(0.500000004)]);
    {
        for k in 0..cx.pick(32u128, 96) {
            rps.push(dc(rp_of(k % 32 * (k % 32) * 90 + 7 * k + 3).value + k * 1_003));
            if k % 2 == 0 {
                rps.push(dc(30_000_000_000 * (k + 1) + 987_654_321 * k));
            }
        }
    }
    let mut ls: Vec<Decimal> = vec![dc(1), df(0.000001), df(1.0), df(847.213595499), df(1e6), df(5e7), df(1e9), df(6.1e10), df(2e13)];
    if !cx.quick() {
        ls.extend([df(0.037), df(33333.333333333), df(1e8), df(7.77e9), df(4e12)]);
    }
    for &o in &rps {
        for &n in &rps {
            for &l in &ls {
                if !cx.mine() {
                    continue;
                }
                c10_move(cx, o, n, l);
                cx.tick();
            }
        }
    }
    // refusals
    if cx.mine() {
        let (a, b, l) = (df(1.0), df(2.0), df(10.0));
        for c in [0u128, 1, 500_000_000_000, 999_999_999_999] {
            for y in [false, true] {
                let r = guard(|| if y { <P as PoolMath>::dy_from_l_drp_hmm(l, a, b, dc(c), a) } else { <P as PoolMath>::dx_from_l_drp_hmm(l, a, b, dc(c), b) });
                cx.transitions += 1;
                cx.check(r.is_err(), "weak-strength", || format!("strength {}e-12 below one must abort, gives {}", c, sh(r.clone().unwrap())));
            }
        }
        for (w, r) in [
            ("dx to price zero", guard(|| <P as PoolMath>::dx_from_l_drp(l, a, dc(0)))),
            ("dx from price zero", guard(|| <P as PoolMath>::dx_from_l_drp(l, dc(0), a))),
            ("price after dy without liquidity", guard(|| <P as PoolMath>::rp_new_from_l_dy(dc(0), a, b))),
            ("price after dx, nothing at all", guard(|| <P as PoolMath>::rp_new_from_l_dx(dc(0), a, dc(0)))),
            ("price after removing all y", guard(|| <P as PoolMath>::rp_new_from_l_dy(l, a, d(20_000_000_000_000, 12, true)))),
            ("price after removing too much x", guard(|| <P as PoolMath>::rp_new_from_l_dx(l, a, d(20_000_000_000_000, 12, true)))),
            ("adjusted dx with oracle zero", guard(|| <P as PoolMath>::dx_from_l_drp_hmm(l, a, b, df(1.0), dc(0)))),
            ("adjusted dy to price zero", guard(|| <P as PoolMath>::dy_from_l_drp_hmm(l, a, dc(0), df(1.5), a))),
        ] {
            cx.transitions += 1;
            cx.check(r.is_err(), "impossible", || format!("{} must abort, gives {}", w, sh(r.clone().unwrap())));
        }
    }
}
fn sign_ok(g: Decimal, want_neg: bool) -> bool {
    g.value == 0 || g.negative == want_neg
}
fn c10_move(cx: &mut Ctx, ro: Decimal, rn: Decimal, l: Decimal) {
    let (o, n, lf) = (from_dec(ro), from_dec(rn), from_dec(l));
    let tag = || format!("l {} from {} to {}", sh(l), sh(ro), sh(rn));
    let wx = lf * (o - n) / (o * n);
    let on = (o * n).f();
    let tx = 4.0 * ULP * (1.0 + (1.0 + wx.f().abs()) / on);
    let gx = guard(|| <P as PoolMath>::dx_from_l_drp(l, ro, rn));
    let okx = cmp_val(cx, (lf * (o * n + if o > n { o } else { n })).f(), "dx", &gx, wx, tx, &|| format!("dx: {}", tag()));
    let wy = lf * (n - o);
    let gy = guard(|| <P as PoolMath>::dy_from_l_drp(l, ro, rn));
    let oky = cmp_val(cx, (lf * (o * n + if o > n { o } else { n })).f(), "dy", &gy, wy, 4.0 * ULP, &|| format!("dy: {}", tag()));
    if let (Ok(x), Ok(y)) = (&gx, &gy) {
        cx.check(sign_ok(*x, rn.value > ro.value) && sign_ok(*y, rn.value < ro.value), "move-sign", || format!("{}: dx {} dy {}", tag(), sh(*x), sh(*y)));
        if ro.value == rn.value {
            cx.check(x.value == 0 && y.value == 0, "no-move", || format!("{}: dx {} dy {}", tag(), sh(*x), sh(*y)));
        }
    }
    // price reached by a (whole or partial) reserve change; inverse
    for frac in [1u128, 2, 3, 1000] {
        if let (true, Ok(x)) = (okx, &gx) {
            let part = d(x.value / frac, 12, x.negative);
            let w = lf * o / (from_dec(part) * o + lf);
            let den = (from_dec(part) * o + lf).f();
            if den > 1e4 * ULP {
                let t = 4.0 * ULP * (1.0 + (1.0 + w.f()) / den);
                let g = guard(|| <P as PoolMath>::rp_new_from_l_dx(l, ro, part));
                let mag = (lf * (o * n + if o > n { o } else { n })).f().max((lf * o).f() + (from_dec(part) * o).f().abs());
                if cmp_val(cx, mag, "price-after-dx", &g, w, t, &|| format!("price after dx {}: {}", sh(part), tag())) && frac == 1 && g.is_ok() {
                    let back = tx * (n * n).f() / lf.f() + t;
                    let e = (from_dec(g.clone().unwrap()) - n).f().abs();
                    cx.check(e <= 2.0 * back, "inverse-dx", || format!("{}: dx {} leads to {} (off {:e}, allowed {:e})", tag(), sh(*x), sh(g.clone().unwrap()), e, back));
                }
            }
        }
        if let (true, Ok(y)) = (oky, &gy) {
            let part = d(y.value / frac, 12, y.negative);
            let w = o + from_dec(part) / lf;
            let t = 4.0 * ULP;
            if w.f() > t {
                let g = guard(|| <P as PoolMath>::rp_new_from_l_dy(l, ro, part));
                if cmp_val(cx, (lf * (o * n + if o > n { o } else { n })).f(), "price-after-dy", &g, w, t, &|| format!("price after dy {}: {}", sh(part), tag())) && frac == 1 && g.is_ok() {
                    let back = 4.0 * ULP / lf.f() + t;
                    let e = (from_dec(g.clone().unwrap()) - n).f().abs();
                    cx.check(e <= 2.0 * back, "inverse-dy", || format!("{}: dy {} leads to {} (off {:e}, allowed {:e})", tag(), sh(*y), sh(g.clone().unwrap()), e, back));
                }
            }
        }
    }
    // adjusted
    let (lo, hi) = (ro.value.min(rn.value), ro.value.max(rn.value));
    let mut oracles = vec![lo / 2, lo.saturating_sub(1), lo, lo + (hi - lo) / 2, hi, hi + 1, hi * 2];
    oracles.sort_unstable();
    oracles.dedup();
    oracles.retain(|&v| v > 0);
    for &(c, q4) in &STRENGTHS {
        for &ov in &oracles {
            let k = dc(ov);
            let kd = from_dec(k);
            let gx = guard(|| <P as PoolMath>::dx_from_l_drp_hmm(l, ro, rn, dc(c), k));
            let gy = guard(|| <P as PoolMath>::dy_from_l_drp_hmm(l, ro, rn, dc(c), k));
            let (wx, wy) = (hmm_dx(lf, o, n, q4, kd), hmm_dy(lf, o, n, q4, kd));
            let tagh = || format!("strength {}/4 oracle {}: {}", q4, sh(k), tag());
            let (tx, ty) = (tol_hmm_dx(lf.f(), o.f(), n.f(), q4, kd.f()), tol_hmm_dy(lf.f(), o.f(), n.f(), q4, kd.f()));
            let kc = kd.f().powf(c as f64 / 1e12);
            let mag = lf.f() * (1.0 + o.f() + n.f()) * (1.0 + 1.0 / o.f() + 1.0 / n.f()) * (kc + 1.0 / kc);
            let okx = cmp_val(cx, mag, "hmm-dx", &gx, wx, tx, &|| format!("adjusted dx, {}", tagh()));
            let oky = cmp_val(cx, mag, "hmm-dy", &gy, wy, ty, &|| format!("adjusted dy, {}", tagh()));
            if ro.value == rn.value {
                if let (Ok(x), Ok(y)) = (&gx, &gy) {
                    cx.check(x.value == 0 && y.value == 0, "hmm-no-move", || format!("{}: dx {} dy {}", tagh(), sh(*x), sh(*y)));
                }
            }
            // paid out no more than unadjusted while on the far side of the oracle
            let plain_x = lf * (o - n) / (o * n);
            let plain_y = lf * (n - o);
            if let (true, Ok(x)) = (okx, &gx) {
                if rn.value > ro.value && ov >= rn.value {
                    cx.check((-from_dec(*x) + plain_x).f() <= tx, "hmm-pays-more-x", || format!("{}: pays {} unadjusted {:e}", tagh(), sh(*x), plain_x.f()));
                }
            }
            if let (true, Ok(y)) = (oky, &gy) {
                if rn.value < ro.value && ov <= rn.value {
                    cx.check((-from_dec(*y) + plain_y).f() <= ty, "hmm-pays-more-y", || format!("{}: pays {} unadjusted {:e}", tagh(), sh(*y), plain_y.f()));
                }
            }
        }
    }
    cx.sample(tag);
}
