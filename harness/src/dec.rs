//! C01-C06: the fixed-point decimal against exact integer oracles.
use crate::big::{p10, u, U512};
use crate::fw::{guard, hash64, Ctx, Tier};
use hmmcl_sandbox::decimal::{
    Add, BitLength, Compare, Decimal, Div, DivScale, DivUp, Ln, Mul, MulUp, Pow, Sqrt, Sub, COMPUTE_SCALE,
};
use std::cmp::Ordering;
use std::str::FromStr;

pub fn d(value: u128, scale: u8, negative: bool) -> Decimal {
    Decimal::new(value, scale, negative)
}
pub fn sh(x: Decimal) -> String {
    format!("{}{}e-{}", if x.negative { "-" } else { "+" }, x.value, x.scale)
}

/// Magnitudes: dense small values, neighbours of powers of two and ten, round fractions, top of the range.
pub fn lattice(dense: u128, wide: bool) -> Vec<u128> {
    let mut v: Vec<u128> = (0..=dense).collect();
    let mut p = 1u128;
    for _ in 0..=38 {
        for dlt in [0i8, -1, 1] {
            v.push(if dlt < 0 { p - 1 } else { p + dlt as u128 });
        }
        if wide {
            for m in [2u128, 3, 5, 7, 15, 25, 33] {
                if let Some(x) = p.checked_mul(m) {
                    v.push(x);
                }
            }
        }
        p = p.saturating_mul(10);
    }
    let step = if wide { 1 } else { 4 };
    let mut k = 1;
    while k < 128 {
        let p = 1u128 << k;
        v.push(p - 1);
        v.push(p);
        v.push(p + 1);
        k += step;
    }
    for k in [31, 32, 33, 63, 64, 65, 127] {
        let p = 1u128 << k;
        v.extend([p - 1, p, p + 1]);
    }
    for k in 0..4 {
        v.push(u128::MAX - k);
    }
    v.extend([
        123456789,
        999_999_999_999,
        1_000_000_000_001,
        333_333_333_333,
        666_666_666_667,
        1_000_049_998_750,
        44_721_359_549_995,
        3_141_592_653_589_793,
        u128::MAX / 3,
        u128::MAX / 2 + 1,
        u128::MAX / 1_000_000_000_000,
        u128::MAX / 1_000_000_000_000 + 1,
        18_446_744_073_709_551_557,
        57_896_044_618_658_097_711_785_492_504_343_953_926,
    ]);
    v.sort_unstable();
    v.dedup();
    v
}
fn signed(mags: &[u128]) -> Vec<(u128, bool)> {
    mags.iter().flat_map(|&m| [(m, false), (m, true)]).collect()
}
fn num(v: u128, neg: bool) -> (bool, u128) {
    (neg && v != 0, v)
}
fn cmp_num(a: (bool, u128), b: (bool, u128)) -> Ordering {
    match (a.0, b.0) {
        (false, false) => a.1.cmp(&b.1),
        (true, true) => b.1.cmp(&a.1),
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
    }
}
fn same(x: Decimal, neg: bool, v: u128, scale: u8) -> bool {
    x.scale == scale && num(x.value, x.negative) == num(v, neg)
}
/// exact signed sum; None when the magnitude does not fit
fn exact_add(a: (u128, bool), b: (u128, bool)) -> Option<(u128, bool)> {
    if a.1 == b.1 {
        a.0.checked_add(b.0).map(|s| (s, a.1))
    } else if a.0 >= b.0 {
        Some((a.0 - b.0, a.1))
    } else {
        Some((b.0 - a.0, b.1))
    }
}

fn check_addsub(cx: &mut Ctx, x: Decimal, y: Decimal) {
    for sub in [false, true] {
        let name = if sub { "sub" } else { "add" };
        let r = guard(|| if sub { Sub::sub(x, y) } else { Add::add(x, y) });
        cx.transitions += 1;
        let key = |k: &str| format!("{}:{}", name, k);
        if x.scale != y.scale {
            cx.check(matches!(r, Ok(Err(_))), &key("scale-mismatch"), || {
                format!("{} {} {} must be refused, got {:?}", sh(x), name, sh(y), r.as_ref().map(|q| q.is_ok()))
            });
            continue;
        }
        let want = exact_add((x.value, x.negative), (y.value, if sub { !y.negative } else { y.negative }));
        match (want, r) {
            (Some((v, n)), Ok(Ok(z))) => {
                cx.check(same(z, n, v, x.scale), &key("value"), || {
                    format!("{} {} {} = {} expected {}{}", sh(x), name, sh(y), sh(z), if n { "-" } else { "" }, v)
                });
                cx.state(hash64(&[z.value as u64, (z.value >> 64) as u64, z.scale as u64, z.negative as u64]));
            }
            (Some(_), e) => {
                let t = format!("{:?}", e.map(|q| q.map(sh).map_err(|e| e.to_string())));
                cx.fail(&key("refused"), format!("{} {} {} refused: {}", sh(x), name, sh(y), t));
            }
            (None, Ok(Ok(z))) => {
                cx.fail(&key("overflow"), format!("{} {} {} = {} but it does not fit", sh(x), name, sh(y), sh(z)))
            }
            (None, _) => cx.count("aborted as required", 1),
        }
    }
}
fn check_cmp(cx: &mut Ctx, x: Decimal, y: Decimal) {
    let r = guard(|| {
        (
            Compare::eq(x, y).ok(),
            Compare::lt(x, y).ok(),
            Compare::gt(x, y).ok(),
            Compare::lte(x, y).ok(),
            Compare::gte(x, y).ok(),
        )
    });
    cx.transitions += 5;
    if x.scale != y.scale {
        cx.check(r == Ok((None, None, None, None, None)), "cmp:scale-mismatch", || {
            format!("comparing {} with {} must be refused: {:?}", sh(x), sh(y), r)
        });
        for max in [false, true] {
            let m = guard(|| if max { Compare::max(x, y) } else { Compare::min(x, y) });
            cx.transitions += 1;
            cx.check(m.is_err(), "cmp:minmax-scale-mismatch", || format!("min/max of {} and {} must be refused: {:?}", sh(x), sh(y), m.map(sh)));
        }
        return;
    }
    let o = cmp_num(num(x.value, x.negative), num(y.value, y.negative));
    let want = (
        Some(o == Ordering::Equal),
        Some(o == Ordering::Less),
        Some(o == Ordering::Greater),
        Some(o != Ordering::Greater),
        Some(o != Ordering::Less),
    );
    cx.check(r.as_ref() == Ok(&want), "cmp:order", || {
        format!("{} vs {}: (eq,lt,gt,lte,gte) = {:?}, expected {:?}", sh(x), sh(y), r, want)
    });
    let mm = guard(|| (Compare::min(x, y), Compare::max(x, y)));
    cx.transitions += 2;
    let ok = match &mm {
        Ok((lo, hi)) => {
            let (nx, ny) = (num(x.value, x.negative), num(y.value, y.negative));
            let (wl, wh) = if o == Ordering::Greater { (ny, nx) } else { (nx, ny) };
            num(lo.value, lo.negative) == wl && num(hi.value, hi.negative) == wh && lo.scale == x.scale && hi.scale == x.scale
        }
        Err(_) => false,
    };
    cx.check(ok, "cmp:minmax", || {
        format!("min/max of {} and {}: {:?}", sh(x), sh(y), mm.map(|(a, b)| (sh(a), sh(b))))
    });
}
fn check_neg(cx: &mut Ctx, x: Decimal) {
    let r = guard(|| -x);
    cx.transitions += 1;
    let ok = matches!(r, Ok(z) if same(z, !x.negative, x.value, x.scale));
    cx.check(ok, "neg", || format!("-({}) = {:?}", sh(x), r.map(sh)));
}

pub fn c01_bounds(t: Tier) -> String {
    match t {
        Tier::Quick => "all ordered pairs over ~900 signed magnitudes at scales 0,6,12 and over ~260 signed magnitudes at every scale 0..38, all mixed-scale refusals, all 3-operation histories over 24 operands x 9 operations".into(),
        Tier::Thorough => "as quick with ~1500 signed magnitudes at scales 0,1,6,12,18,38 and 4-operation histories".into(),
    }
}
pub fn c01(cx: &mut Ctx) {
    // A: pairs
    let big = signed(&lattice(cx.pick(60, 300), true));
    let small = signed(&lattice(12, false));
    cx.sample(|| format!("{} signed magnitudes in the wide lattice, {} in the narrow one", big.len(), small.len()));
    let wide_scales: &[u8] = cx.pick(&[0, 6, 12], &[0, 1, 6, 12, 18, 38]);
    for scale in 0..=38u8 {
        let lat = if wide_scales.contains(&scale) { &big } else { &small };
        for &(a, an) in lat {
            if !cx.mine() {
                continue;
            }
            let x = d(a, scale, an);
            check_neg(cx, x);
            for &(b, bn) in lat {
                let y = d(b, scale, bn);
                check_addsub(cx, x, y);
                check_cmp(cx, x, y);
            }
        }
    }
    // B: mixed scales are refused
    let tiny = [(0u128, false), (0, true), (1, false), (1, true), (10, false), (1_000_000, true), (u128::MAX, false)];
    for s1 in 0..=40u8 {
        if !cx.mine() {
            continue;
        }
        for s2 in 0..=40u8 {
            if s1 == s2 {
                continue;
            }
            for &(a, an) in &tiny {
                for &(b, bn) in &tiny {
                    let (x, y) = (d(a, s1, an), d(b, s2, bn));
                    check_addsub(cx, x, y);
                    check_cmp(cx, x, y);
                }
            }
        }
    }
    // C: histories - each result becomes the operand of the next operation, compared with every operand
    let ops: Vec<Decimal> = [
        0u128, 1, 2, 3, 999_999_999_999, 1_000_000_000_000, 1_500_000_000_000, 1_000_000_000_001, 44_721_359_549_995,
        u128::MAX / 2, u128::MAX - 1, u128::MAX,
    ]
    .iter()
    .flat_map(|&v| [d(v, 12, false), d(v, 12, true)])
    .collect();
    let depth = cx.pick(2, 3);
    for &start in &ops {
        for &second in &ops {
            if !cx.mine() {
                continue;
            }
            history(cx, start, &ops, depth, Some(second));
            cx.traces += 1;
        }
    }
}
fn apply(op: usize, x: Decimal, y: Decimal) -> Option<Decimal> {
    guard(|| match op {
        0 => Add::add(x, y).ok(),
        1 => Sub::sub(x, y).ok(),
        2 => Some(Mul::mul(x, y)),
        3 => Some(Div::div(x, y)),
        4 => Some(MulUp::mul_up(x, y)),
        5 => Some(DivUp::div_up(x, y)),
        6 => Some(-x),
        7 => Some(Compare::min(x, y)),
        _ => Some(Compare::max(x, y)),
    })
    .ok()
    .flatten()
}
fn history(cx: &mut Ctx, x: Decimal, ops: &[Decimal], depth: u32, only: Option<Decimal>) {
    if depth == 0 {
        check_neg(cx, x);
        for &y in ops {
            check_addsub(cx, x, y);
            check_cmp(cx, x, y);
            check_cmp(cx, y, x);
        }
        return;
    }
    for &y in ops {
        if let Some(o) = only {
            if o.value != y.value || o.negative != y.negative {
                continue;
            }
        }
        for op in 0..9 {
            if let Some(z) = apply(op, x, y) {
                history(cx, z, ops, depth - 1, None);
            }
        }
    }
}

// ---------------------------------------------------------------- C02
enum Round {
    Down,
    Up,
}
/// num/den rounded; inter: the code may legitimately need this intermediate to fit into 128 bits.
fn check_q(cx: &mut Ctx, key: &str, r: &Result<Decimal, String>, n: U512, den: U512, rd: Round, neg: bool, scale: u8, inter_fits: bool, what: &dyn Fn() -> String) {
    cx.transitions += 1;
    if den == crate::big::ZERO {
        cx.check(r.is_err(), &format!("{}:div0", key), || format!("{} must abort, got {}", what(), sh(*r.as_ref().unwrap())));
        return;
    }
    match r {
        Ok(z) => {
            // verify by multiplication: down: v*den <= n < (v+1)*den ; up: (v-1)*den < n <= v*den
            let v = u(z.value);
            let vd = v.mul(den);
            let ok = match rd {
                Round::Down => vd <= n && n < vd.add(den),
                Round::Up => vd >= n && vd < n.add(den),
            };
            let sign_ok = z.value == 0 || z.negative == neg;
            cx.check(ok && sign_ok && z.scale == scale, &format!("{}:value", key), || format!("{} = {}", what(), sh(*z)));
            cx.state(hash64(&[z.value as u64, (z.value >> 64) as u64, z.scale as u64, z.negative as u64]));
        }
        Err(e) => {
            // an abort is only right when the result or a needed intermediate does not fit
            cx.check(!inter_fits, &format!("{}:abort", key), || format!("{} aborted ({}) although everything fits", what(), e));
            cx.count("aborted as required", 1);
        }
    }
}
fn check_muldiv(cx: &mut Ctx, x: Decimal, y: Decimal) {
    let (a, b) = (u(x.value), u(y.value));
    let dr = p10(y.scale as u32);
    let neg = x.negative != y.negative;
    let prod = a.mul(b);
    let dfit = y.scale <= 38;
    let r = guard(|| Mul::mul(x, y));
    check_q(cx, "mul", &r, prod, dr, Round::Down, neg, x.scale, dfit && prod.fits128(), &|| format!("{} mul {}", sh(x), sh(y)));
    let r = guard(|| MulUp::mul_up(x, y));
    check_q(cx, "mul_up", &r, prod, dr, Round::Up, neg, x.scale, dfit && prod.add(dr).fits128(), &|| format!("{} mul_up {}", sh(x), sh(y)));
    let n = a.mul(dr);
    let r = guard(|| Div::div(x, y));
    check_q(cx, "div", &r, n, b, Round::Down, neg, x.scale, dfit && n.fits128(), &|| format!("{} div {}", sh(x), sh(y)));
    let r = guard(|| DivUp::div_up(x, y));
    check_q(cx, "div_up", &r, n, b, Round::Up, neg, x.scale, dfit && n.add(b).fits128(), &|| format!("{} div_up {}", sh(x), sh(y)));
}
fn check_divscale(cx: &mut Ctx, x: Decimal, y: Decimal, to: u8) {
    let (a, b) = (u(x.value), u(y.value));
    // value = a/10^sx / (b/10^sy) * 10^to  =  a * 10^(sy+to) / (b * 10^sx)
    let diff = x.scale as i32 - to as i32 - y.scale as i32;
    let (n, den, fit) = if diff > 0 {
        let p = p10(diff as u32);
        (a, b.mul(p), diff <= 38)
    } else {
        let n = a.mul(p10((-diff) as u32));
        (n, b, -diff <= 38 && n.fits128())
    };
    let r = guard(|| DivScale::div_to_scale(x, y, to));
    check_q(cx, "div_to_scale", &r, n, den, Round::Down, x.negative != y.negative, to, fit, &|| {
        format!("{} div_to_scale({}, {})", sh(x), sh(y), to)
    });
}
pub fn c02_bounds(t: Tier) -> String {
    match t {
        Tier::Quick => "half (alternating signs) of all ordered pairs over ~800 signed magnitudes at 4 scale pairs, ~130 magnitudes at every fifth of all 40x41 scale pairs, ~60 magnitudes x all result scales for the rescaling division; all 2-operation histories".into(),
        Tier::Thorough => "as quick with ~1500 signed magnitudes at 16 scale pairs and every scale pair".into(),
    }
}
pub fn c02(cx: &mut Ctx) {
    let big = signed(&lattice(cx.pick(40, 300), true));
    let pairs: Vec<(u8, u8)> = if cx.quick() {
        vec![(12, 12), (0, 0), (6, 12), (12, 0)]
    } else {
        let s = [0u8, 6, 12, 18];
        s.iter().flat_map(|&a| s.iter().map(move |&b| (a, b))).collect()
    };
    for &(s1, s2) in &pairs {
        for &(a, an) in &big {
            if !cx.mine() {
                continue;
            }
            let x = d(a, s1, an);
            for (j, &(b, bn)) in big.iter().enumerate() {
                // both signs of the first operand meet both signs of the second; quick: alternating
                if cx.quick() && (j / 2 + j) % 2 == 0 {
                    continue;
                }
                check_muldiv(cx, x, d(b, s2, bn));
            }
        }
    }
    cx.sample(|| format!("{} signed magnitudes, scale pairs {:?}", big.len(), pairs));
    let small = lattice(8, false);
    let step = cx.pick(5, 1);
    let mut ix = 0usize;
    for s1 in 0..=39u8 {
        for s2 in 0..=40u8 {
            ix += 1;
            if ix % step != 0 || !cx.mine() {
                continue;
            }
            for (i, &a) in small.iter().enumerate() {
                for (j, &b) in small.iter().enumerate() {
                    check_muldiv(cx, d(a, s1, (i + j) % 2 == 1), d(b, s2, j % 3 == 1));
                }
            }
        }
    }
    // rescaling division
    let few: Vec<u128> = vec![
        0, 1, 2, 3, 7, 9, 10, 11, 99, 100, 101, 999_999, 1_000_000, 1_000_001, 123_456_789_012, 999_999_999_999,
        1_000_000_000_000, 1_000_000_000_001, 1 << 63, (1 << 64) + 1, 10u128.pow(24), 10u128.pow(30) - 1, 10u128.pow(37),
        u128::MAX / 10, u128::MAX - 1, u128::MAX,
    ];
    let scales: Vec<u8> = cx.pick(vec![0, 1, 2, 5, 6, 9, 12, 13, 18, 24, 37, 38], (0..=38).collect());
    for &s1 in &scales {
        for &s2 in &scales {
            if !cx.mine() {
                continue;
            }
            for &to in &scales {
                for (i, &a) in few.iter().enumerate() {
                    for (j, &b) in few.iter().enumerate() {
                        check_divscale(cx, d(a, s1, i % 2 == 0), d(b, s2, j % 2 == 0), to);
                    }
                }
            }
        }
    }
    // integer multiplication
    for scale in [0u8, 6, 12] {
        for &(a, an) in &big {
            if !cx.mine() {
                continue;
            }
            for &(k, _) in &big {
                let x = d(a, scale, an);
                let r = guard(|| Mul::<u128>::mul(x, k));
                let p = u(a).mul(u(k));
                check_q(cx, "mul_int", &r, p, crate::big::ONE, Round::Down, an, scale, p.fits128(), &|| format!("{} mul integer {}", sh(x), k));
            }
        }
    }
    // histories: results feed the next operation
    let ops: Vec<Decimal> = [0u128, 1, 3, 999_999_999_999, 1_000_000_000_000, 2_000_000_000_003, 44_721_359_549_995, 10u128.pow(20) + 7, u128::MAX]
        .iter()
        .flat_map(|&v| [d(v, 12, false), d(v, 12, true)])
        .collect();
    for &s in &ops {
        for &y in &ops {
            if !cx.mine() {
                continue;
            }
            cx.traces += 1;
            for op in 0..9 {
                if let Some(z) = apply(op, s, y) {
                    for &w in &ops {
                        check_muldiv(cx, z, w);
                        check_muldiv(cx, w, z);
                        for op2 in 0..6 {
                            if let Some(z2) = apply(op2, z, w) {
                                for &v in &ops {
                                    check_muldiv(cx, z2, v);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C03
fn check_scale(cx: &mut Ctx, x: Decimal, to: u8) {
    let a = u(x.value);
    let (n, den, fit) = if x.scale > to {
        (a, p10((x.scale - to) as u32), x.scale - to <= 38)
    } else {
        let n = a.mul(p10((to - x.scale) as u32));
        (n, crate::big::ONE, to - x.scale <= 38 && n.fits128())
    };
    let r = guard(|| x.to_scale(to));
    check_q(cx, "to_scale", &r, n, den, Round::Down, x.negative, to, fit, &|| format!("{} to_scale({})", sh(x), to));
    if let Ok(z) = r {
        // to_scale keeps the sign flag even for zero-valued results of negatives or normalises it: only the number counts
        let _ = z;
    }
    let r = guard(|| x.to_scale_up(to));
    check_q(cx, "to_scale_up", &r, n, den, Round::Up, x.negative, to, fit && n.add(den).fits128(), &|| format!("{} to_scale_up({})", sh(x), to));
    if x.scale == to && to == COMPUTE_SCALE || to == COMPUTE_SCALE {
        let r = guard(|| x.to_compute_scale());
        check_q(cx, "to_compute_scale", &r, n, den, Round::Down, x.negative, to, fit, &|| format!("{} to_compute_scale", sh(x)));
    }
    // scaled token amounts: floor/ceil of the magnitude as u64, abort when too large
    let (q, rem) = n.divrem(den);
    let lim = u(u64::MAX as u128);
    let up = if rem == crate::big::ZERO { q } else { q.add(crate::big::ONE) };
    for (name, want, inter) in [("to_scaled_amount", q, fit), ("to_scaled_amount_up", up, fit && n.add(den).fits128())] {
        let r = guard(|| if name == "to_scaled_amount" { x.to_scaled_amount(to) } else { x.to_scaled_amount_up(to) });
        cx.transitions += 1;
        match r {
            Ok(v) => {
                cx.check(u(v as u128) == want, &format!("{}:value", name), || format!("{} {}({}) = {}", sh(x), name, to, v));
            }
            Err(e) => {
                cx.check(!(inter && want <= lim), &format!("{}:abort", name), || format!("{} {}({}) aborted: {}", sh(x), name, to, e));
            }
        }
    }
    if to == 0 {
        for (name, want, inter) in [("abs", q, fit), ("abs_up", up, fit && n.add(den).fits128())] {
            let r = guard(|| if name == "abs" { x.abs() } else { x.abs_up() });
            cx.transitions += 1;
            match r {
                Ok(v) => {
                    cx.check(u(v as u128) == want, &format!("{}:value", name), || format!("{} {} = {}", sh(x), name, v));
                }
                Err(e) => {
                    cx.check(!(inter && want <= lim), &format!("{}:abort", name), || format!("{} {} aborted: {}", sh(x), name, e));
                }
            }
        }
    }
}
pub fn c03_bounds(t: Tier) -> String {
    match t {
        Tier::Quick => "~800 signed magnitudes x every scale 0..38 x every target scale 0..38, every integer conversion".into(),
        Tier::Thorough => "~1500 signed magnitudes x every scale 0..38 x every target scale 0..40".into(),
    }
}
pub fn c03(cx: &mut Ctx) {
    let lat = signed(&lattice(cx.pick(30, 300), true));
    cx.sample(|| format!("{} signed magnitudes x 39 x 39 scales", lat.len()));
    let top = cx.pick(38u8, 40);
    for &(a, an) in &lat {
        for s in 0..=38u8 {
            if !cx.mine() {
                continue;
            }
            let x = d(a, s, an);
            cx.state(hash64(&[a as u64, (a >> 64) as u64, s as u64, an as u64]));
            for to in 0..=top {
                check_scale(cx, x, to);
            }
            // predicates
            let nz = a != 0;
            let r = guard(|| (x.is_zero(), x.is_positive(), x.is_negative(), x.denominator()));
            cx.transitions += 5;
            cx.check(r == Ok((!nz, nz && !an, nz && an, 10u128.pow(s as u32))), "predicates", || format!("{} zero/pos/neg/denominator = {:?}", sh(x), r));
            let r = guard(|| x.is_integer());
            let want = a % 10u128.pow(s as u32) == 0;
            cx.check(r == Ok(want), "is_integer", || format!("{} is_integer = {:?}", sh(x), r));
            // integer conversions of the stored value
            let r = guard(|| -> u128 { x.into() });
            cx.check(r == Ok(a), "into_u128", || format!("{} into u128 = {:?}", sh(x), r));
            for k in 0..3 {
                let r = guard(|| -> u64 {
                    match k {
                        0 => x.into(),
                        1 => x.to_u64(),
                        _ => {
                            let z: usize = x.into();
                            z as u64
                        }
                    }
                });
                cx.transitions += 1;
                let ok = match r {
                    Ok(v) => v as u128 == a,
                    Err(_) => a > u64::MAX as u128,
                };
                cx.check(ok, "into_u64", || format!("{} into u64/usize = {:?}", sh(x), r));
            }
            let r = guard(|| -> i32 { x.into() });
            cx.transitions += 1;
            let want: i128 = if a > i128::MAX as u128 { i128::MAX } else if an { -(a as i128) } else { a as i128 };
            let ok = match r {
                Ok(v) => v as i128 == want,
                // i32::MIN may legitimately be out of reach of a magnitude conversion
                Err(_) => want > i32::MAX as i128 || want <= i32::MIN as i128,
            };
            cx.check(ok, "into_i32", || format!("{} into i32 = {:?}", sh(x), r));
            let r = guard(|| -> f64 { x.into() });
            cx.transitions += 1;
            let want = a as f64 / 10f64.powi(s as i32);
            let ok = matches!(r, Ok(v) if (v.abs() - want).abs() <= want.abs() * 1e-14);
            cx.check(ok, "into_f64", || format!("{} into f64 = {:?}", sh(x), r));
        }
    }
    // constructors
    for &(a, _) in &lat {
        if !cx.mine() {
            continue;
        }
        let r = guard(|| Decimal::from_u128(a));
        cx.transitions += 2;
        cx.check(matches!(r, Ok(z) if z.value == a && z.scale == 0 && !z.negative), "from_u128", || format!("from_u128({})", a));
        if a <= u64::MAX as u128 {
            let r = guard(|| Decimal::from_u64(a as u64));
            cx.check(matches!(r, Ok(z) if z.value == a && z.scale == 0 && !z.negative), "from_u64", || format!("from_u64({})", a));
            for s in 0..=38u8 {
                let r = guard(|| Decimal::from_scaled_amount(a as u64, s));
                cx.check(matches!(r, Ok(z) if z.value == a && z.scale == s && !z.negative), "from_scaled_amount", || format!("from_scaled_amount({},{})", a, s));
            }
        }
    }
    let r = guard(|| (Decimal::one(), Decimal::two(), Decimal::default()));
    cx.check(
        matches!(r, Ok((o, t, z)) if same(o, false, 10u128.pow(12), 12) && same(t, false, 2 * 10u128.pow(12), 12) && z.value == 0 && z.scale == 0 && !z.negative),
        "constants",
        || "one/two/default".into(),
    );
}

// ---------------------------------------------------------------- C04
/// Strict grammar: -? digits (. digits)? ([eE] -? digits)?   => exact number
/// Lenient additions (accepting or refusing both fine): empty integer or fraction part, '+' signs.
enum Text {
    /// negative, digits, exponent of ten, certain: must be accepted (when it fits)
    Num(bool, String, i64, bool),
    Bad,
}
fn grammar(s: &str) -> Text {
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    let mut certain = true;
    if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
        neg = b[i] == b'-';
        certain &= neg;
        i += 1;
    }
    let mut digits = String::new();
    let st = i;
    while i < b.len() && b[i].is_ascii_digit() {
        digits.push(b[i] as char);
        i += 1;
    }
    let int_n = i - st;
    let mut frac_n = 0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            digits.push(b[i] as char);
            i += 1;
        }
        frac_n = i - st;
        if int_n == 0 || frac_n == 0 {
            certain = false;
        }
    }
    if int_n + frac_n == 0 {
        return Text::Bad;
    }
    let mut exp = 0i64;
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        let mut eneg = false;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            eneg = b[i] == b'-';
            certain &= eneg;
            i += 1;
        }
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            exp = (exp * 10 + (b[i] - b'0') as i64).min(1_000_000);
            i += 1;
        }
        if i == st {
            return Text::Bad;
        }
        if eneg {
            exp = -exp;
        }
    }
    if i != b.len() {
        return Text::Bad;
    }
    Text::Num(neg, digits, exp - frac_n as i64, certain)
}
fn check_text(cx: &mut Ctx, s: &str) {
    let r = guard(|| Decimal::from_str(s));
    cx.transitions += 1;
    match (grammar(s), r) {
        (_, Err(e)) => cx.fail("parse:abort", format!("parsing {:?} aborts instead of returning an error: {}", s, e)),
        (Text::Bad, Ok(Ok(z))) => cx.fail("parse:accepts-malformed", format!("{:?} parsed as {}", s, sh(z))),
        (Text::Bad, Ok(Err(_))) => cx.count("malformed refused", 1),
        (Text::Num(neg, digits, e10, certain), Ok(Ok(z))) => {
            let _ = certain;
            cx.count("well-formed parsed", 1);
            // numeric equality, on stripped digit strings and exponents (any size)
            let strip = |t: &str, e: i64| {
                let t = t.trim_start_matches('0');
                let u = t.trim_end_matches('0');
                (u.to_string(), if u.is_empty() { 0 } else { e + (t.len() - u.len()) as i64 })
            };
            let ok = strip(&digits, e10) == strip(&z.value.to_string(), -(z.scale as i64));
            let sign_ok = z.value == 0 || z.negative == neg;
            cx.check(ok && sign_ok, "parse:value", || format!("{:?} parsed as {}", s, sh(z)));
        }
        (Text::Num(_, digits, e10, certain), Ok(Err(e))) => {
            let t = digits.trim_start_matches('0');
            // fits comfortably: few digits and small exponent
            let fits = t.len() as i64 + e10.max(0) <= 18 && e10 >= -18 && e10 <= 12;
            cx.check(!(certain && fits), "parse:refuses-wellformed", || format!("{:?} refused: {}", s, e));
        }
    }
}
fn check_roundtrip(cx: &mut Ctx, x: Decimal) {
    let r = guard(|| x.to_string());
    cx.transitions += 2;
    match r {
        Err(e) => cx.fail("print:abort", format!("printing {} aborts: {}", sh(x), e)),
        Ok(s) => {
            let back = guard(|| Decimal::from_str(&s));
            let ok = matches!(&back, Ok(Ok(z)) if z.value == x.value && z.scale == x.scale && (z.negative == x.negative || x.value == 0));
            cx.check(ok, "print:roundtrip", || format!("{} prints {:?}, parses back as {:?}", sh(x), s, back.map(|q| q.map(sh).map_err(|e| e.to_string()))));
            // printed text denotes the number, independently of the parser
            let g = match grammar(&s) {
                Text::Num(neg, digits, e10, _) => e10 == -(x.scale as i64) && (neg == x.negative || x.value == 0) && digits.trim_start_matches('0') == if x.value == 0 { String::new() } else { x.value.to_string() },
                Text::Bad => false,
            };
            cx.check(g, "print:text", || format!("{} prints {:?}", sh(x), s));
            cx.state(hash64(&[x.value as u64, (x.value >> 64) as u64, x.scale as u64, x.negative as u64]));
        }
    }
}
pub fn c04_bounds(t: Tier) -> String {
    match t {
        Tier::Quick => "every string of length <= 7 over {0 1 7 - + . e E space x}, every template sign x integer x fraction x exponent (with those next to powers of two up to 2^128); print/parse of ~800 signed magnitudes x scales 0..40".into(),
        Tier::Thorough => "every string of length <= 8 over the 10-letter alphabet, same templates".into(),
    }
}
pub fn c04(cx: &mut Ctx) {
    let alpha: &[u8] = b"017-+.eE x";
    let maxlen = cx.pick(7usize, 8);
    // all strings; sharded by first two letters
    if cx.mine() {
        check_text(cx, "");
        for &c in alpha {
            check_text(cx, std::str::from_utf8(&[c]).unwrap());
        }
    }
    for &a in alpha {
        for &b in alpha {
            if !cx.mine() {
                continue;
            }
            cx.traces += 1;
            let mut buf = vec![a, b];
            fn rec(cx: &mut Ctx, buf: &mut Vec<u8>, alpha: &[u8], maxlen: usize) {
                let s = String::from_utf8(buf.clone()).unwrap();
                check_text(cx, &s);
                if buf.len() == maxlen {
                    return;
                }
                for &c in alpha {
                    buf.push(c);
                    rec(cx, buf, alpha, maxlen);
                    buf.pop();
                }
            }
            rec(cx, &mut buf, alpha, maxlen);
        }
    }
    // templates
    let signs = ["", "-"];
    let ints = ["0", "1", "9", "10", "42", "007", "123456789", "999999999999", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999"];
    let fracs = ["", ".0", ".5", ".05", ".50", ".123456", ".999999999999", ".000000000001", ".1234567890123456789"];
    let exps = ["", "e0", "e1", "e2", "e3", "e6", "E9", "e12", "e18", "e38", "e39", "e255", "e256", "e300", "e-1", "e-2", "e-6", "E-12", "e-38", "e-39", "e-255", "e-256", "e-300", "e99999999999999999999", "e-99999999999999999999", "e007", "e-0002"];
    // where exponents stop fitting machine integers
    let mut exps: Vec<String> = exps.iter().map(|e| e.to_string()).collect();
    for k in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        for o in [-1i128, 0, 1, 2, 6, 12] {
            let p = if k < 127 { format!("{}", (1i128 << k) + o) } else { format!("{}", (1u128 << 127).saturating_add((k as u128 - 127) << 127).wrapping_add(o as u128)) };
            exps.push(format!("e{}", p));
            exps.push(format!("e-{}", p));
        }
    }
    for sg in signs {
        for i in ints {
            if !cx.mine() {
                continue;
            }
            for f in fracs {
                for e in &exps {
                    let s = format!("{}{}{}{}", sg, i, f, e);
                    check_text(cx, &s);
                    cx.sample(|| s.clone());
                }
            }
        }
    }
    // non-ascii and odd inputs
    if cx.mine() {
        for s in ["٣", "1٣", "1.٣", "½", "1_000", "1,5", "0x10", "inf", "NaN", "-", "--1", "-.e", "e", "1e", "1e-", "1.2.3", "1-2", "1e1e1", "1e1.5", " 1", "1 ", "\n1", "é", "-é", "1é", "1eé", "..", "-0", "-0.0", "1e+5", "+1"] {
            check_text(cx, s);
        }
    }
    let lat = signed(&lattice(cx.pick(120, 1200), true));
    for &(a, an) in &lat {
        if !cx.mine() {
            continue;
        }
        for s in 0..=40u8 {
            check_roundtrip(cx, d(a, s, an));
        }
    }
}

// ---------------------------------------------------------------- C05
pub fn c05_bounds(t: Tier) -> String {
    match t {
        Tier::Quick => "square roots of every value 0..400000 and ~1500 lattice values at every scale 0..38; powers: ~120 signed bases x scales x exponents 0..70 and large powers, all supported fractional exponents and their negatives".into(),
        Tier::Thorough => "square roots of every value 0..6000000 at every scale; powers with exponents 0..400".into(),
    }
}
fn check_sqrt(cx: &mut Ctx, x: Decimal) {
    let r = guard(|| Sqrt::sqrt(x));
    cx.transitions += 1;
    if x.negative && x.value != 0 {
        let refused = !matches!(r, Ok(Ok(_)));
        cx.check(refused, "sqrt:negative", || format!("sqrt({}) = {:?}", sh(x), r.map(|q| q.map(sh).map_err(|e| e.to_string()))));
        return;
    }
    let n = u(x.value).mul(p10(x.scale as u32));
    match r {
        Ok(Ok(z)) => {
            let y = u(z.value);
            let lo = if z.value == 0 { crate::big::ZERO } else { y.sub(crate::big::ONE) };
            let hi = y.add(crate::big::ONE);
            let ok = z.scale == x.scale && lo.mul(lo) <= n && n <= hi.mul(hi) && (!z.negative || z.value == 0);
            cx.check(ok, "sqrt:value", || format!("sqrt({}) = {}", sh(x), sh(z)));
            cx.state(hash64(&[z.value as u64, (z.value >> 64) as u64, z.scale as u64]));
        }
        other => {
            let t = format!("{:?}", other.map(|q| q.map(sh).map_err(|e| e.to_string())));
            cx.check(!n.fits128(), "sqrt:refused", || format!("sqrt({}) refused although it fits: {}", sh(x), t));
        }
    }
}
/// interval arithmetic (ulps of x.scale) enclosing any order of truncated multiplications
fn check_powi(cx: &mut Ctx, x: Decimal, e: u128, via_decimal: bool) {
    let r = guard(|| {
        if via_decimal {
            Pow::<Decimal>::pow(x, d(e * 10u128.pow(x.scale as u32), x.scale, false))
        } else {
            Pow::<u128>::pow(x, e)
        }
    });
    cx.transitions += 1;
    let xf = x.value as f64 / 10f64.powi(x.scale as i32);
    let ulp = 10f64.powi(-(x.scale as i32));
    let t = xf.powf(e as f64);
    let neg = x.negative && e % 2 == 1;
    let what = || format!("({}) pow {}{}", sh(x), e, if via_decimal { " (decimal exponent)" } else { "" });
    // condition for every truncated product a*b*10^(2s) to fit with a,b <= max(1,x)^e
    let top = if xf > 1.0 { t } else { 1.0 };
    let safe = top * 10f64.powi(2 * x.scale as i32) < 3.0e38 && (x.value as f64) * 10f64.powi(x.scale as i32) < 3.0e38;
    match r {
        Ok(z) => {
            let zf = z.value as f64 * ulp;
            // error of truncations: each of <= 2*log2(e)+1 products loses < 1 ulp, amplified by at most e * max(1, x)^(e-1)
            let amp = if xf > 1.0 { (e as f64) * xf.powf(e as f64 - 1.0) } else { (e as f64).min(1.0 / (1.0 - xf).max(1e-9)) + 64.0 };
            let tol = ulp * (2.0 + 2.0 * amp) + t * 1e-12;
            let exact_int = x.value % 10u128.pow(x.scale as u32) == 0;
            let mut ok = (zf - t).abs() <= tol && z.scale == x.scale;
            if exact_int && safe {
                let b = u(x.value / 10u128.pow(x.scale as u32));
                let mut n = crate::big::ONE;
                let mut fits = true;
                for _ in 0..e {
                    if n.bits() + b.bits() > 500 {
                        fits = false;
                        break;
                    }
                    n = n.mul(b);
                    if b == crate::big::ONE || b == crate::big::ZERO {
                        break;
                    }
                }
                if fits {
                    ok &= n.mul(p10(x.scale as u32)) == u(z.value);
                }
            }
            ok &= z.value == 0 || z.negative == neg;
            cx.check(ok, "powi:value", || format!("{} = {} expected about {}{}", what(), sh(z), if neg { "-" } else { "" }, t));
            cx.state(hash64(&[z.value as u64, (z.value >> 64) as u64, z.scale as u64, z.negative as u64]));
        }
        Err(e) => {
            cx.check(!safe, "powi:abort", || format!("{} aborted although every step fits: {}", what(), e));
        }
    }
}
fn check_powfrac(cx: &mut Ctx, x: Decimal, e: f64) {
    let s = x.scale;
    let ev = d((e.abs() * 10f64.powi(s as i32)).round() as u128, s, e < 0.0);
    let r = guard(|| Pow::<Decimal>::pow(x, ev));
    cx.transitions += 1;
    let xf = x.value as f64 / 10f64.powi(s as i32);
    let ulp = 10f64.powi(-(s as i32));
    let t = xf.powf(e);
    let what = || format!("({}) pow {}", sh(x), e);
    let supported = [0.25, 0.5, 1.25, 1.5].contains(&e.abs()) || e.fract() == 0.0;
    if !supported || (x.negative && x.value != 0 && e.fract() != 0.0) {
        cx.check(r.is_err(), "powf:unsupported", || format!("{} must abort, got {}", what(), sh(*r.as_ref().unwrap())));
        return;
    }
    if x.value == 0 {
        // 0^positive = 0, 0^0 = 1, 0^negative aborts
        let ok = match &r {
            Ok(z) => (e > 0.0 && z.value == 0) || (e == 0.0 && z.value == 10u128.pow(s as u32)),
            Err(_) => e < 0.0,
        };
        cx.check(ok, "powf:zero-base", || format!("{} = {:?}", what(), r.map(sh)));
        return;
    }
    let pe = e.abs();
    let tp = xf.powf(pe);
    let safe = tp.max(1.0).max(xf) * tp.max(1.0) * 10f64.powi(2 * s as i32) < 3.0e38 && (x.value as f64) * 10f64.powi(s as i32) < 3.0e38;
    match r {
        Ok(z) => {
            let zf = z.value as f64 * ulp;
            // error of the positive power, then of the reciprocal
            let root = match pe.fract() {
                f if f == 0.25 => {
                    // sqrt(sqrt(x)): inner error 1ulp amplified by 1/(2 x^(1/4)^2... )
                    ulp * (1.5 + 1.5 / (2.0 * xf.powf(0.25).max(ulp.sqrt())))
                }
                f if f == 0.5 => ulp * 1.5,
                _ => ulp * (2.0 + 2.0 * pe * xf.max(1.0).powf(pe - 1.0)),
            };
            let errp = root * if pe > 1.0 && pe.fract() != 0.0 { xf } else { 1.0 } + ulp;
            let tol = if e < 0.0 { if tp - errp <= 0.0 { f64::INFINITY } else { errp / (tp * (tp - errp)) + 2.0 * ulp } } else { errp } + t * 1e-11;
            let neg = x.negative && pe % 2.0 == 1.0;
            let ok = z.scale == s && (zf - t).abs() <= tol && (z.value == 0 || z.negative == neg);
            cx.check(ok, "powf:value", || format!("{} = {} expected about {} (tolerance {:e})", what(), sh(z), t, tol));
        }
        Err(msg) => {
            // the reciprocal of a power that truncates to zero aborts legitimately
            let fine = !safe || (e < 0.0 && tp < 2.0 * ulp);
            cx.check(fine, "powf:abort", || format!("{} aborted: {}", what(), msg));
        }
    }
}
pub fn c05(cx: &mut Ctx) {
    let dense = cx.pick(400_000u128, 6_000_000);
    for s in 0..=38u8 {
        let scales_dense = [0u8, 1, 2, 6, 12, 13, 18];
        let top = if scales_dense.contains(&s) { dense } else { dense / 20 };
        let mut a = 0;
        while a <= top {
            if cx.mine() {
                for v in a..(a + 1000).min(top + 1) {
                    check_sqrt(cx, d(v, s, false));
                    if v % 50 < 3 {
                        check_sqrt(cx, d(v, s, true));
                    }
                }
            }
            a += 1000;
        }
        let lat = lattice(10, true);
        if cx.mine() {
            for &v in &lat {
                check_sqrt(cx, d(v, s, false));
                check_sqrt(cx, d(v, s, true));
                // neighbours of perfect squares at this scale
                if v < 1u128 << 60 {
                    let sq = v * v;
                    for w in [sq.wrapping_sub(1), sq, sq + 1, sq + v, sq + 2 * v] {
                        if w < u128::MAX / 4 {
                            check_sqrt(cx, d(w, s, false));
                        }
                    }
                }
            }
        }
    }
    cx.sample(|| "sqrt: dense values plus squares +-1 at every scale".into());
    // powers
    let emax = cx.pick(70u128, 400);
    for s in [0u8, 1, 2, 4, 6, 8, 12] {
        let one = 10u128.pow(s as u32);
        let mut bases: Vec<u128> = vec![0, 1, 2, 3, 5, 9, 10];
        for k in [1u128, 2, 3, 4, 5, 7, 8, 10, 11, 16, 99, 100, 1000, 65536, 1_000_000] {
            bases.push(k * one);
            bases.push(k * one + 1);
            bases.push(k * one - 1);
            bases.push(k * one + one / 2);
            bases.push(k * one + one / 3);
            bases.push(one / k.max(1));
        }
        bases.push(one + one / 10000);
        bases.push(1_000_049_998_750 / 10u128.pow(12 - s as u32));
        bases.sort_unstable();
        bases.dedup();
        for &b in &bases {
            if !cx.mine() {
                continue;
            }
            cx.traces += 1;
            for neg in [false, true] {
                let x = d(b, s, neg);
                for e in 0..=emax {
                    check_powi(cx, x, e, false);
                    check_powi(cx, x, e, true);
                    if e < 12 {
                        if s >= 2 {
                            check_powfrac(cx, x, -(e as f64));
                        }
                    }
                }
                for e in [127u128, 128, 129, 255, 256, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 10000, 65535, 65536, 100000] {
                    check_powi(cx, x, e, false);
                    check_powi(cx, x, e, true);
                }
                if s >= 2 {
                    for e in [0.25, 0.5, 0.75, 1.25, 1.5, 1.75, 2.5, 0.1, 0.3, 0.0] {
                        check_powfrac(cx, x, e);
                        check_powfrac(cx, x, -e);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C06
/// The algorithm resolves ten decimal digits of the factor (1e-10), truncates ten table entries and
/// ln 2 at 1e-12, so the result lies below the exact logarithm by at most LN_LOW (plus 1e-12 per power
/// of two) and above it by no more than rounding.
pub const LN_LOW: f64 = 1.15e-10;
pub const LN_HIGH: f64 = 4e-12;
fn ln_ref(v: u128) -> f64 {
    // ln of v / 10^12 with double-double style splitting near one
    let one = 10f64.powi(12);
    let diff = v as i128 - 10i128.pow(12);
    if diff.unsigned_abs() < 10u128.pow(12) / 2 {
        (diff as f64 / one).ln_1p()
    } else {
        (v as f64).ln() - one.ln()
    }
}
fn check_ln(cx: &mut Ctx, v: u128) {
    let x = d(v, 12, false);
    let r = guard(|| Ln::ln(x));
    cx.transitions += 1;
    match r {
        Ok(Ok(z)) => {
            if v == 0 {
                cx.fail("ln:zero", format!("ln(0) = {}", sh(z)));
                return;
            }
            let zf = z.value as f64 * 1e-12 * if z.negative { -1.0 } else { 1.0 };
            let t = ln_ref(v);
            let k = (t.abs() / std::f64::consts::LN_2 + 1.0) * 1e-12;
            cx.check(zf - t >= -(LN_LOW + k) && zf - t <= LN_HIGH + k && z.scale == 12, "ln:value", || format!("ln({}) = {} expected {:.13}", sh(x), sh(z), t));
            cx.state(hash64(&[z.value as u64, z.negative as u64]));
        }
        Ok(Err(_)) => {
            cx.check(v == 0, "ln:refused", || format!("ln({}) refused", sh(x)));
        }
        Err(e) => {
            // zero: refusing by error or abort
            cx.check(v == 0, "ln:abort", || format!("ln({}) aborts: {}", sh(x), e));
        }
    }
}
pub fn c06_bounds(t: Tier) -> String {
    match t {
        Tier::Quick => "every power of two from 10^-12 to 2^62 with 400 neighbours on each side at geometric distances, every value 1..3000 units, all products of table factors up to 4 columns, 3M-point geometric grid".into(),
        Tier::Thorough => "as quick with 5 columns of table factors and a 60M-point geometric grid".into(),
    }
}
pub fn c06(cx: &mut Ctx) {
    let one = 10u128.pow(12);
    let top = one << 62;
    // A: smallest values, densely
    for chunk in 0..30u128 {
        if cx.mine() {
            for v in chunk * 100..chunk * 100 + 100 {
                check_ln(cx, v);
            }
        }
    }
    // B: around every power of two (positive and negative exponents)
    for k in -40i32..=62 {
        if !cx.mine() {
            continue;
        }
        cx.traces += 1;
        let p = if k >= 0 { one << k } else { one >> (-k) };
        for dlt in 0..60u128 {
            check_ln(cx, p + dlt);
            check_ln(cx, p.saturating_sub(dlt));
        }
        let mut dlt = 64u128;
        while dlt < p {
            for m in 0..4 {
                let q = dlt + dlt * m / 4;
                check_ln(cx, p + q);
                check_ln(cx, p.saturating_sub(q));
            }
            dlt *= 2;
        }
    }
    // C: every combination of table rows in up to 3 (4) columns, times every power of two in a range
    let cols = cx.pick(4u32, 5);
    let ks: Vec<u32> = cx.pick(vec![0, 1, 5, 20], vec![0, 1, 2, 5, 11, 20, 31]);
    for c0 in 0..10u32 {
        for r0 in 0..10u128 {
            if !cx.mine() {
                continue;
            }
            let f0 = one + r0 * one / 10u128.pow(c0 + 1);
            let mut fs = vec![f0];
            for extra in 1..cols {
                let mut nf = vec![];
                for &f in &fs {
                    for r in 0..10u128 {
                        let c = c0 + extra;
                        if c < 12 {
                            nf.push(f * (one + r * one / 10u128.pow(c + 1)) / one);
                        }
                    }
                }
                fs.extend(nf);
            }
            for f in fs {
                for &k in &ks {
                    check_ln(cx, f << k);
                    check_ln(cx, (f << k) + 1);
                    if f > 2 {
                        check_ln(cx, (f << k) - 1);
                        check_ln(cx, f >> k);
                        check_ln(cx, one * one / (f << k.min(10)));
                    }
                }
            }
        }
    }
    cx.sample(|| "products of table factors (1+r/10^c) shifted by powers of two".into());
    // D: geometric grid over the whole domain
    let n = cx.pick(3_000_000u64, 60_000_000);
    let ltop = (top as f64).ln();
    let mut i = 0;
    while i < n {
        if cx.mine() {
            for j in i..(i + 500).min(n) {
                let v = (ltop * j as f64 / n as f64).exp() as u128;
                check_ln(cx, v.max(1));
            }
        }
        i += 500;
    }
    // E: negatives are refused; bit length of integers and fractions
    if cx.mine() {
        for v in [1u128, 2, one - 1, one, one + 1, 5 * one, u128::MAX] {
            let x = d(v, 12, true);
            let r = guard(|| Ln::ln(x).is_err());
            cx.transitions += 2;
            cx.check(r != Ok(false), "ln:negative", || format!("ln({}) accepted", sh(x)));
            let r = guard(|| BitLength::bit_length(x).is_err());
            cx.check(r != Ok(false), "bit_length:negative", || format!("bit_length({}) accepted", sh(x)));
        }
    }
    // bit length = floor(log2 value), away from powers of two by more than the float resolution
    for k in -30i32..=60 {
        if !cx.mine() {
            continue;
        }
        for num in [1.0, 1.001, 1.25, 1.5, 1.9, 1.999] {
            let v = ((num * (one as f64)) * 2f64.powi(k)) as u128;
            if v == 0 || (num == 1.0 && k < 0) {
                continue;
            }
            let x = d(v, 12, false);
            let r = guard(|| BitLength::bit_length(x).ok());
            cx.transitions += 1;
            let want = (v as f64 / 1e12).log2().floor() as i32;
            let ok = matches!(r, Ok(Some(z)) if z.scale == 0 && (z.value as i32) * if z.negative { -1 } else { 1 } == want);
            cx.check(ok, "bit_length:value", || format!("bit_length({}) = {:?} expected {}", sh(x), r.map(|o| o.map(sh)), want));
        }
    }
}
