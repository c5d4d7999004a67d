//! C22-C25: the on-chain program, executed through its entrypoint on a small Solana runtime (svm.rs).
use crate::dd::{dd, from_dec, Dd};
use crate::fw::{hash64, Ctx, Tier};
use crate::math::{dc, exact_rp, rp_of, ULP};
use crate::svm::{events, exec, install, program_account, rent_account, Acc, World};
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::instruction::AccountMeta;
use anchor_lang::solana_program::program_option::COption;
use anchor_lang::solana_program::program_pack::Pack;
use anchor_lang::solana_program::rent::Rent;
use anchor_lang::solana_program::{system_program, sysvar};
use anchor_lang::{AccountDeserialize, AccountSerialize, AnchorDeserialize, Discriminator, InstructionData, ToAccountMetas};
use hmmcl_sandbox::constants::*;
use hmmcl_sandbox::events::{LiquidityAdded, LiquidityRemoved};
use hmmcl_sandbox::state::fees::Fee;
use hmmcl_sandbox::state::pool_state::PoolState;
use hmmcl_sandbox::state::position_state::PositionState;
use hmmcl_sandbox::state::tick_bitmap::{PoolTickBitmap, TICK_BITMAP_SIZE};
use hmmcl_sandbox::state::tick_state::TickState;
use std::collections::BTreeMap;
use std::collections::HashSet;

type K = Pubkey;
const ID: K = hmmcl_sandbox::ID;

fn key(a: u8, b: u8) -> K {
    let mut k = [a; 32];
    k[1] = b;
    k[31] = a ^ b;
    Pubkey::new(&k)
}
#[derive(Clone, Debug)]
pub struct PoolK {
    pub lp: K,
    pub pool: K,
    pub bitmap: K,
    pub mx: K,
    pub my: K,
    pub vx: K,
    pub vy: K,
    pub lpv: K,
    pub cur: u64,
}
fn pda(seeds: &[&[u8]]) -> (K, u8) {
    Pubkey::find_program_address(seeds, &ID)
}
pub fn pool_k(lp: K, mx: K, my: K, cur: u64) -> PoolK {
    let pool = pda(&[POOL_STATE_SEED, lp.as_ref()]).0;
    PoolK {
        lp,
        pool,
        bitmap: pda(&[b"bitmap", pool.as_ref()]).0,
        mx,
        my,
        vx: pda(&[TOKEN_VAULT_SEED, mx.as_ref(), lp.as_ref()]).0,
        vy: pda(&[TOKEN_VAULT_SEED, my.as_ref(), lp.as_ref()]).0,
        lpv: pda(&[LP_TOKEN_VAULT_SEED, pool.as_ref(), lp.as_ref()]).0,
        cur,
    }
}
fn tick_k(p: &PoolK, t: u64) -> K {
    pda(&[b"tick", p.pool.as_ref(), &t.to_le_bytes()]).0
}
fn pos_k(p: &PoolK, user: &K, lo: u64, hi: u64) -> K {
    pda(&[b"position", p.pool.as_ref(), user.as_ref(), &lo.to_le_bytes(), &hi.to_le_bytes()]).0
}

#[derive(Clone, Debug)]
pub struct User {
    pub key: K,
    pub x: K,
    pub y: K,
    pub lp: K,
}
pub fn user(n: u8, pool: u8) -> User {
    User { key: key(20, n), x: key(21, n), y: key(22, n), lp: key(30 + pool, n) }
}
fn mint(authority: Option<K>, supply: u64) -> Acc {
    let mut d = vec![0; spl_token::state::Mint::LEN];
    let m = spl_token::state::Mint {
        mint_authority: authority.map(COption::Some).unwrap_or(COption::None),
        supply,
        decimals: 6,
        is_initialized: true,
        freeze_authority: COption::None,
    };
    spl_token::state::Mint::pack(m, &mut d).unwrap();
    Acc::owned(d, spl_token::ID)
}
fn token(mint: K, owner: K, amount: u64, delegate: Option<(K, u64)>) -> Acc {
    let mut d = vec![0; spl_token::state::Account::LEN];
    let a = spl_token::state::Account {
        mint,
        owner,
        amount,
        delegate: delegate.map(|x| COption::Some(x.0)).unwrap_or(COption::None),
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: delegate.map(|x| x.1).unwrap_or(0),
        close_authority: COption::None,
    };
    spl_token::state::Account::pack(a, &mut d).unwrap();
    Acc::owned(d, spl_token::ID)
}
fn tok(w: &World, k: &K) -> spl_token::state::Account {
    spl_token::state::Account::unpack(&w.get(k).data).unwrap()
}
fn bal(w: &World, k: &K) -> u64 {
    tok(w, k).amount
}
fn supply(w: &World, k: &K) -> u64 {
    spl_token::state::Mint::unpack(&w.get(k).data).unwrap().supply
}
fn rd<T: AccountDeserialize>(w: &World, k: &K) -> Option<T> {
    let a = w.get(k);
    if a.owner != ID {
        return None;
    }
    T::try_deserialize(&mut &a.data[..]).ok()
}
/// the bitmap's marks and its bump
fn rd_map(w: &World, k: &K) -> Option<(Vec<u8>, u8)> {
    let a = w.get(k);
    if a.owner != ID || a.data.len() < 8 + TICK_BITMAP_SIZE + 1 || a.data[..8] != PoolTickBitmap::discriminator() {
        return None;
    }
    Some((a.data[8..8 + TICK_BITMAP_SIZE].to_vec(), a.data[8 + TICK_BITMAP_SIZE]))
}

const AUTH: u8 = 1;
const PAYER: u8 = 2;
fn authority() -> K {
    key(10, AUTH)
}
fn payer() -> K {
    key(10, PAYER)
}
const LAM: u64 = 1_000_000_000_000;
pub fn base() -> World {
    install();
    let mut w = World::default();
    for k in [spl_token::ID, system_program::ID, ID] {
        w.put(k, program_account());
    }
    w.put(sysvar::rent::ID, rent_account());
    w.put(authority(), Acc::wallet(LAM));
    w.put(payer(), Acc::wallet(LAM));
    w
}

pub type Ix = (Vec<AccountMeta>, Vec<u8>);
pub fn ix_pool(p: &PoolK, auth: K, pay: K, rp: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::InitializePool {
        authority: auth,
        payer: pay,
        pool_state: p.pool,
        token_x_mint: p.mx,
        token_y_mint: p.my,
        lp_token_mint: p.lp,
        token_x_vault: p.vx,
        token_y_vault: p.vy,
        lp_token_vault: p.lpv,
        system_program: system_program::ID,
        token_program: spl_token::ID,
        rent: sysvar::rent::ID,
    };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::InitializePool { bootstrap_rp: rp, tick: p.cur }.data())
}
pub fn ix_bitmap(p: &PoolK, pay: K) -> Ix {
    let a = hmmcl_sandbox::accounts::InitializeBitmap { pool_state: p.pool, tick_bitmap: p.bitmap, payer: pay, system_program: system_program::ID };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::InitializeBitmap {}.data())
}
pub fn ix_tick(p: &PoolK, pay: K, t: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::InitializeTick { pool_state: p.pool, tick_state: tick_k(p, t), payer: pay, system_program: system_program::ID };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::InitializeTick { tick: t }.data())
}
pub fn ix_pos(p: &PoolK, u: K, pay: K, lo: u64, hi: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::CreatePosition {
        pool_state: p.pool,
        position_state: pos_k(p, &u, lo, hi),
        lower_tick_state: tick_k(p, lo),
        upper_tick_state: tick_k(p, hi),
        user: u,
        payer: pay,
        system_program: system_program::ID,
    };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::CreatePosition { lower_tick: lo, upper_tick: hi }.data())
}
pub fn ix_dep(p: &PoolK, u: &User, pay: K, lo: u64, hi: u64, cur: u64, x: u64, y: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::Deposit {
        pool_state: p.pool,
        tick_bitmap: p.bitmap,
        position_state: pos_k(p, &u.key, lo, hi),
        lower_tick_state: tick_k(p, lo),
        upper_tick_state: tick_k(p, hi),
        current_tick_state: tick_k(p, cur),
        lp_token_mint: p.lp,
        user_token_x: u.x,
        user_token_y: u.y,
        token_x_vault: p.vx,
        token_y_vault: p.vy,
        lp_token_vault: p.lpv,
        lp_token_to: u.lp,
        token_program: spl_token::ID,
        user: u.key,
        payer: pay,
    };
    (
        a.to_account_metas(None),
        hmmcl_sandbox::instruction::Deposit { lower_tick: lo, upper_tick: hi, current_tick: cur, token_x_amount: x, token_y_amount: y }.data(),
    )
}
pub fn ix_wd(p: &PoolK, u: &User, pay: K, lo: u64, hi: u64, cur: u64, n: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::Withdraw {
        pool_state: p.pool,
        tick_bitmap: p.bitmap,
        position_state: pos_k(p, &u.key, lo, hi),
        lower_tick_state: tick_k(p, lo),
        upper_tick_state: tick_k(p, hi),
        current_tick_state: tick_k(p, cur),
        lp_token_mint: p.lp,
        user_token_x: u.x,
        user_token_y: u.y,
        token_x_vault: p.vx,
        token_y_vault: p.vy,
        lp_token_vault: p.lpv,
        lp_token_user_account: u.lp,
        token_program: spl_token::ID,
        user: u.key,
        payer: pay,
    };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::Withdraw { lower_tick: lo, upper_tick: hi, current_tick: cur, lp_token_amount: n }.data())
}

// ------------------------------------------------------------------ C22, C23
pub const RECORDS: u32 = 1; // C22
pub const VALUE: u32 = 2; // C23

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub cur: u64,
    /// (user, lower, upper)
    pub pos: Vec<(usize, u64, u64)>,
    pub amounts: Vec<(u64, u64)>,
    pub fractions: Vec<u8>,
    pub depth: usize,
    /// check every order of exits from every distinct state reached
    pub exits: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Dep { i: usize, x: u64, y: u64 },
    Wd { i: usize, n: u64 },
}
#[derive(Clone)]
struct Model {
    /// liquidity of each position, in 1e-12 units
    l: Vec<u128>,
    /// deposits so far into each position, for the accumulated dust
    n: Vec<u32>,
}
const U: u128 = 1_000_000_000_000;
struct Net {
    cfg: Cfg,
    p: PoolK,
    users: Vec<User>,
    start: World,
    /// root prices of lower and upper bound of each position (as the curve formulas use them), and of the current tick
    rps: Vec<(Dd, Dd)>,
    rp: Dd,
    first: Vec<(u64, u64)>,
}
const BAL: [(u64, u64); 2] = [(3_000_000_000, 5_000_000_000), (1_000_007, 999_983)];
impl Net {
    fn new(cfg: &Cfg) -> Result<Net, String> {
        let (mx, my, lp) = (key(1, 1), key(1, 2), key(1, 3));
        let p = pool_k(lp, mx, my, cfg.cur);
        let mut w = base();
        w.put(mx, mint(Some(authority()), 1 << 50));
        w.put(my, mint(Some(authority()), 1 << 50));
        w.put(lp, mint(Some(p.pool), 0));
        let users: Vec<User> = (0..2).map(|n| user(n, 0)).collect();
        for (u, b) in users.iter().zip(BAL) {
            w.put(u.key, Acc::wallet(LAM));
            w.put(u.x, token(mx, u.key, b.0, None));
            w.put(u.y, token(my, u.key, b.1, None));
            w.put(u.lp, token(lp, u.key, 0, None));
        }
        let mut ticks: Vec<u64> = cfg.pos.iter().flat_map(|x| [x.1, x.2]).chain([cfg.cur]).collect();
        ticks.sort();
        ticks.dedup();
        let mut steps = vec![ix_pool(&p, authority(), payer(), 0), ix_bitmap(&p, payer())];
        steps.extend(ticks.iter().map(|t| ix_tick(&p, payer(), *t)));
        steps.extend(cfg.pos.iter().map(|x| ix_pos(&p, users[x.0].key, payer(), x.1, x.2)));
        for (m, d) in steps {
            w = exec(&w, &m, &d)?;
        }
        let rps = cfg.pos.iter().map(|x| (from_dec(rp_of(x.1 as u128)), from_dec(rp_of(x.2 as u128)))).collect();
        Ok(Net { cfg: cfg.clone(), rp: from_dec(rp_of(cfg.cur as u128)), first: BAL.to_vec(), p, users, start: w, rps })
    }
    fn ix(&self, o: &Op) -> Ix {
        match *o {
            Op::Dep { i, x, y } => {
                let (u, lo, hi) = self.cfg.pos[i];
                ix_dep(&self.p, &self.users[u], payer(), lo, hi, self.cfg.cur, x, y)
            }
            Op::Wd { i, n } => {
                let (u, lo, hi) = self.cfg.pos[i];
                ix_wd(&self.p, &self.users[u], payer(), lo, hi, self.cfg.cur, n)
            }
        }
    }
    fn show(&self, h: &[Op]) -> String {
        let mut s = format!("[{}; current tick {}]", self.cfg.name, self.cfg.cur);
        for o in h {
            s += &match *o {
                Op::Dep { i, x, y } => {
                    let (u, a, b) = self.cfg.pos[i];
                    format!(" deposit(user {}, {}..{}, x {}, y {})", u, a, b, x, y)
                }
                Op::Wd { i, n } => {
                    let (u, a, b) = self.cfg.pos[i];
                    format!(" withdraw(user {}, {}..{}, {})", u, a, b, n)
                }
            };
        }
        s
    }
    /// exact amounts that liquidity `l` of position `i` stands for
    fn worth(&self, i: usize, l: Dd) -> (Dd, Dd) {
        let (a, b) = self.rps[i];
        let p = self.rp.max(a).min(b);
        (l * (b - p) / (p * b), l * (p - a))
    }
    fn tol(&self, i: usize, l: Dd) -> (f64, f64) {
        let (a, b) = self.rps[i];
        let p = self.rp.max(a).min(b);
        let wx = (l * (b - p) / (p * b)).f();
        (4.0 * ULP * (1.0 + (1.0 + wx) / (p * b).f()), 4.0 * ULP * (1.0 + (l * (p - a)).f()))
    }
    fn liq(&self, i: usize, x: u64, y: u64) -> (Dd, f64) {
        let (a, b) = self.rps[i];
        let (xd, yd) = (dd(x as f64), dd(y as f64));
        let lx = |lo: Dd, hi: Dd| xd * lo * hi / (hi - lo);
        let ly = |lo: Dd, hi: Dd| yd / (hi - lo);
        let t = |lo: Dd, hi: Dd, l: Dd| 4.0 * ULP * ((hi.f() + 1.0) * (1.0 + xd.f()) / (hi - lo).f() + 1.0) + 1e-29 * l.f() * hi.f() / (hi - lo).f();
        if self.rp <= a {
            (lx(a, b), t(a, b, lx(a, b)))
        } else if self.rp < b {
            let (p, q) = (lx(self.rp, b), ly(a, self.rp));
            (p.min(q), t(self.rp, b, p.min(q)).max(t(a, self.rp, p.min(q))))
        } else {
            (ly(a, b), t(a, b, ly(a, b)))
        }
    }
}
fn event<T: AnchorDeserialize + Discriminator>(d: &[u8]) -> Option<T> {
    if d.len() < 8 || d[..8] != T::discriminator() {
        return None;
    }
    T::try_from_slice(&d[8..]).ok()
}
fn normal(v: u128, scale: u8) -> Option<u128> {
    match scale {
        12 => Some(v),
        s if s < 12 => v.checked_mul(10u128.pow(12 - s as u32)),
        _ => None,
    }
}
fn ceil(x: f64) -> u64 {
    x.max(0.0).ceil() as u64
}
fn floor(x: f64) -> u64 {
    x.max(0.0).floor() as u64
}

struct Eng<'a> {
    cx: &'a mut Ctx,
    mon: u32,
    net: Net,
    seen: HashSet<u64>,
}
impl Eng<'_> {
    fn check(&mut self, mon: u32, ok: bool, key: &str, f: impl FnOnce() -> String) -> bool {
        if self.mon & mon == 0 {
            return ok;
        }
        self.cx.check(ok, key, f)
    }
    fn hash(&self, w: &World) -> u64 {
        let n = &self.net;
        let mut v = vec![];
        for (u, lo, hi) in &n.cfg.pos {
            let s: Option<PositionState> = rd(w, &pos_k(&n.p, &n.users[*u].key, *lo, *hi));
            v.push(s.map(|s| hash64(&[s.liquidity as u64, (s.liquidity >> 64) as u64])).unwrap_or(1));
        }
        for u in &n.users {
            v.extend([bal(w, &u.x), bal(w, &u.y), bal(w, &u.lp)]);
        }
        v.push(n.cfg.cur);
        hash64(&v)
    }
    /// every record on chain against the model
    fn records(&mut self, w: &World, m: &Model, h: &[Op]) {
        let n = &self.net;
        let mut bad: Vec<String> = vec![];
        let mut gross: BTreeMap<u64, u128> = BTreeMap::new();
        let mut net: BTreeMap<u64, i128> = BTreeMap::new();
        let mut glob = 0u128;
        gross.insert(n.cfg.cur, 0);
        for (i, (u, lo, hi)) in n.cfg.pos.iter().enumerate() {
            *gross.entry(*lo).or_default() += m.l[i];
            *gross.entry(*hi).or_default() += m.l[i];
            *net.entry(*lo).or_default() += m.l[i] as i128;
            *net.entry(*hi).or_default() -= m.l[i] as i128;
            if *lo <= n.cfg.cur && n.cfg.cur < *hi {
                glob += m.l[i];
            }
            match rd::<PositionState>(w, &pos_k(&n.p, &n.users[*u].key, *lo, *hi)) {
                None => bad.push(format!("position {}:{}..{} unreadable", u, lo, hi)),
                Some(s) => {
                    if normal(s.liquidity, s.liq_scale) != Some(m.l[i]) || s.lower_tick != *lo || s.upper_tick != *hi || !no_fee(&s.last_collected_fee) {
                        bad.push(format!("position {}:{}..{} records {} at scale {} (expected {}), bounds {}..{}, fees {:?}", u, lo, hi, s.liquidity, s.liq_scale, m.l[i], s.lower_tick, s.upper_tick, s.last_collected_fee));
                    }
                }
            }
        }
        for (t, g) in &gross {
            let e = net.get(t).copied().unwrap_or(0);
            match rd::<TickState>(w, &tick_k(&n.p, *t)) {
                None => bad.push(format!("tick {} unreadable", t)),
                Some(s) => {
                    let nn = normal(s.liq_net, s.liq_net_scale).map(|v| if s.liq_net_neg != 0 { -(v as i128) } else { v as i128 });
                    if normal(s.liq_gross, s.liq_gross_scale) != Some(*g) || nn != Some(e) || s.tick != *t || !no_fee(&s.tick_fee) {
                        bad.push(format!("tick {} records gross {} at scale {} and net {}{} at scale {}, tick {} (expected {} and {})", t, s.liq_gross, s.liq_gross_scale, if s.liq_net_neg != 0 { "-" } else { "" }, s.liq_net, s.liq_net_scale, s.tick, g, e));
                    }
                }
            }
        }
        match rd::<PoolState>(w, &n.p.pool) {
            None => bad.push("pool unreadable".into()),
            Some(s) => {
                let g = &s.pool_global_state;
                let s0: PoolState = rd(&n.start, &n.p.pool).unwrap();
                let g0 = &s0.pool_global_state;
                if normal(g.liquidity, g.liq_scale) != Some(glob) {
                    bad.push(format!("global liquidity {} at scale {} (expected {})", g.liquidity, g.liq_scale, glob));
                }
                if g.tick != n.cfg.cur || g.root_price != g0.root_price || g.rp_scale != g0.rp_scale || !no_fee(&g.global_fee) {
                    bad.push("the pool's price, tick or fees changed".into());
                }
                let id = |s: &PoolState| (s.authority, s.token_x_vault, s.token_y_vault, s.token_x_mint, s.token_y_mint, s.lp_token_mint, [s.pool_state_bump, s.token_x_vault_bump, s.token_y_vault_bump, s.lp_token_vault_bump]);
                if id(&s) != id(&s0) {
                    bad.push("the pool's keys or bumps changed".into());
                }
            }
        }
        match (rd_map(w, &n.p.bitmap), rd_map(&n.start, &n.p.bitmap)) {
            (Some(a), Some(b)) => {
                // the marks themselves are placeholders (ticks 0 and 40000) until tick spacing exists on chain
                let same = a.1 == b.1 && a.0.iter().zip(&b.0).enumerate().all(|(i, (p, q))| p == q || ((i == 0 || i == 5000) && (p ^ q) == 1));
                if !same {
                    bad.push("bitmap marks beside the placeholders changed".into());
                }
            }
            _ => bad.push("bitmap unreadable".into()),
        }
        if !bad.is_empty() {
            let d = format!("{}: {}", bad.join("; "), self.net.show(h));
            self.check(RECORDS, false, "records", || d);
        }
    }
    /// runs one operation and judges it; None if the history must not be continued
    fn step(&mut self, w: &World, m: &Model, h: &[Op]) -> Option<(World, Model)> {
        let o = *h.last().unwrap();
        let (metas, data) = self.net.ix(&o);
        let r = exec(w, &metas, &data);
        self.cx.transitions += 1;
        let i = match o {
            Op::Dep { i, .. } | Op::Wd { i, .. } => i,
        };
        let (u, lo, hi) = self.net.cfg.pos[i];
        let us = self.net.users[u].clone();
        let p = self.net.p.clone();
        let pk = pos_k(&p, &us.key, lo, hi);
        let evs = events();
        let b0 = (bal(w, &us.x), bal(w, &us.y), bal(w, &us.lp));
        let mut m2 = m.clone();
        match o {
            Op::Dep { x, y, .. } => {
                let (l, tl) = self.net.liq(i, x, y);
                let (wx, wy) = self.net.worth(i, l);
                let (tx, ty) = self.net.tol(i, l);
                let (sx, sy) = self.net.worth(i, dd(tl));
                let (tx, ty) = (tx + sx.f(), ty + sy.f());
                let may = ceil(wx.f() - tx) > b0.0 || ceil(wy.f() - ty) > b0.1;
                let must = x <= b0.0 && y <= b0.1;
                let w2 = match r {
                    Err(e) => {
                        if must {
                            let d = format!("legitimate deposit refused ({}): {}", e, self.net.show(h));
                            self.check(VALUE, false, "deposit-refused", || d);
                        }
                        return None;
                    }
                    Ok(w2) => w2,
                };
                let hs = self.net.show(h);
                self.check(VALUE, !may, "deposit-beyond-balance", || format!("accepted: {}", hs));
                let before = m.l[i];
                let s: Option<PositionState> = rd(&w2, &pk);
                let now = s.and_then(|s| normal(s.liquidity, s.liq_scale));
                let Some(dl) = now.and_then(|n| n.checked_sub(before)) else {
                    self.check(RECORDS, false, "position-after-deposit", || format!("position liquidity {:?} after {}: {}", now, before, hs));
                    return None;
                };
                m2.l[i] += dl;
                m2.n[i] += 1;
                let dld = from_dec(dc(dl));
                self.check(RECORDS, (dld - l).f().abs() <= tl, "liquidity-credited", || format!("{} credited, exact {:.15e}: {}", dld.f(), l.f(), hs));
                let minted = bal(&w2, &us.lp) as i128 - b0.2 as i128;
                self.check(VALUE, minted == (dl / U) as i128, "minted", || format!("{} liquidity tokens minted for liquidity {}e-12: {}", minted, dl, hs));
                let (ex, ey) = self.net.worth(i, dld);
                for (name, off, was, now, exact, tol) in [("x", x, b0.0, bal(&w2, &us.x), ex, tx), ("y", y, b0.1, bal(&w2, &us.y), ey, ty)] {
                    let d = was as i128 - now as i128;
                    self.check(VALUE, d >= 0 && d as u64 <= off, "debit-above-offer", || format!("{} {} debited for {} offered: {}", name, d, off, hs));
                    self.check(VALUE, d >= ceil(exact.f() - tol) as i128, "debit-below-value", || format!("{} {} debited for liquidity worth {:.12}: {}", name, d, exact.f(), hs));
                    self.check(VALUE, d <= ceil(exact.f() + tol) as i128, "debit-above-value", || format!("{} {} debited for liquidity worth {:.12}: {}", name, d, exact.f(), hs));
                }
                let ev: Vec<LiquidityAdded> = evs.iter().filter_map(|d| event(d)).collect();
                let (dx, dy) = (b0.0 as i128 - bal(&w2, &us.x) as i128, b0.1 as i128 - bal(&w2, &us.y) as i128);
                let ok = ev.len() == 1 && (ev[0].tokens_x_transferred as i128, ev[0].tokens_y_transferred as i128, ev[0].lp_tokens_minted as i128) == (dx, dy, minted);
                self.check(VALUE, ok, "event", || format!("event reports {:?} for x {} y {} debited and {} minted: {}", ev.iter().map(|e| (e.tokens_x_transferred, e.tokens_y_transferred, e.lp_tokens_minted)).collect::<Vec<_>>(), dx, dy, minted, hs));
                self.after(w, w2, m2, h, pk, i, minted)
            }
            Op::Wd { n, .. } => {
                let legit = n as u128 * U <= m.l[i] && n <= b0.2;
                let w2 = match r {
                    Err(e) => {
                        if legit && n > 0 {
                            let d = format!("legitimate withdrawal refused ({}): {}", e, self.net.show(h));
                            self.check(VALUE, false, "withdrawal-refused", || d);
                        }
                        return None;
                    }
                    Ok(w2) => w2,
                };
                let hs = self.net.show(h);
                if !legit {
                    self.check(RECORDS | VALUE, false, "withdrawal-beyond-position", || format!("accepted with position {}e-12 and {} liquidity tokens: {}", m.l[i], b0.2, hs));
                    return None;
                }
                m2.l[i] -= n as u128 * U;
                let burnt = b0.2 as i128 - bal(&w2, &us.lp) as i128;
                self.check(VALUE, burnt == n as i128, "burnt", || format!("{} liquidity tokens burnt: {}", burnt, hs));
                let (ex, ey) = self.net.worth(i, dd(n as f64));
                let (tx, ty) = self.net.tol(i, dd(n as f64));
                for (name, was, now, exact, tol) in [("x", b0.0, bal(&w2, &us.x), ex, tx), ("y", b0.1, bal(&w2, &us.y), ey, ty)] {
                    let d = now as i128 - was as i128;
                    self.check(VALUE, d >= 0 && d as f64 <= exact.f() + tol, "paid-above-value", || format!("{} {} paid for liquidity worth {:.12}: {}", name, d, exact.f(), hs));
                    self.check(VALUE, d >= floor(exact.f() - tol) as i128, "paid-below-value", || format!("{} {} paid for liquidity worth {:.12}: {}", name, d, exact.f(), hs));
                }
                let ev: Vec<LiquidityRemoved> = evs.iter().filter_map(|d| event(d)).collect();
                let (dx, dy) = (bal(&w2, &us.x) as i128 - b0.0 as i128, bal(&w2, &us.y) as i128 - b0.1 as i128);
                let ok = ev.len() == 1 && (ev[0].tokens_x_credited as i128, ev[0].tokens_y_credited as i128, ev[0].lp_tokens_burnt as i128) == (dx, dy, burnt);
                self.check(VALUE, ok, "event", || format!("event reports {:?} for x {} y {} paid and {} burnt: {}", ev.iter().map(|e| (e.tokens_x_credited, e.tokens_y_credited, e.lp_tokens_burnt)).collect::<Vec<_>>(), dx, dy, burnt, hs));
                self.after(w, w2, m2, h, pk, i, -burnt)
            }
        }
    }
    fn after(&mut self, w: &World, w2: World, m2: Model, h: &[Op], pk: K, i: usize, dlp: i128) -> Option<(World, Model)> {
        let p = self.net.p.clone();
        let (u, lo, hi) = self.net.cfg.pos[i];
        let us = self.net.users[u].clone();
        // conservation
        for (vault, mine, name) in [(p.vx, us.x, "x"), (p.vy, us.y, "y")] {
            let a = bal(w, &vault) as i128 + bal(w, &mine) as i128;
            let b = bal(&w2, &vault) as i128 + bal(&w2, &mine) as i128;
            if a != b {
                let d = self.net.show(h);
                self.check(VALUE, false, "tokens-lost", || format!("{} of user and vault add to {} before and {} after: {}", name, a, b, d));
            }
        }
        let ds = supply(&w2, &p.lp) as i128 - supply(w, &p.lp) as i128;
        if ds != dlp || bal(w, &p.lpv) != bal(&w2, &p.lpv) {
            let d = self.net.show(h);
            self.check(VALUE, false, "supply", || format!("supply of liquidity tokens moved by {}, user's by {}: {}", ds, dlp, d));
        }
        // nothing else moves
        let may = [p.pool, p.bitmap, pk, tick_k(&p, lo), tick_k(&p, hi), p.lp, us.x, us.y, p.vx, p.vy, us.lp];
        for k in w.diff(&w2) {
            if !may.contains(&k) {
                let d = self.net.show(h);
                self.check(RECORDS | VALUE, false, "other-account", || format!("account {} changed: {}", k, d));
            }
        }
        // coverage
        let (mut vx, mut vy, mut tx, mut ty) = (dd(0.0), dd(0.0), 0.0, 0.0);
        for j in 0..m2.l.len() {
            let l = from_dec(dc(m2.l[j]));
            let (a, b) = self.net.worth(j, l);
            let (c, d) = self.net.tol(j, l);
            vx = vx + a;
            vy = vy + b;
            tx += c;
            ty += d;
        }
        let k = 1.0 + 2.0 * h.len() as f64;
        for (vault, v, t, name) in [(p.vx, vx, tx, "x"), (p.vy, vy, ty, "y")] {
            let b = bal(&w2, &vault);
            if (b as f64) < v.f() - k * t - 1e-9 {
                let d = self.net.show(h);
                self.check(VALUE, false, "uncovered", || format!("vault {} holds {} for liquidity worth {:.12}: {}", name, b, v.f(), d));
            }
        }
        if self.mon & RECORDS != 0 {
            self.records(&w2, &m2, h);
        }
        Some((w2, m2))
    }
    fn alphabet(&self, w: &World, m: &Model) -> Vec<Op> {
        let mut v = vec![];
        let c = &self.net.cfg;
        for i in 0..c.pos.len() {
            for (x, y) in &c.amounts {
                v.push(Op::Dep { i, x: *x, y: *y });
            }
            let have = bal(w, &self.net.users[c.pos[i].0].lp);
            let all = ((m.l[i] / U) as u64).min(have);
            if all > 0 {
                for f in &c.fractions {
                    v.push(Op::Wd { i, n: match f { 0 => 1, 1 => all / 2 + 1, _ => all } });
                }
            }
        }
        v.dedup();
        v
    }
    /// requests that must be refused, from this state
    fn probes(&mut self, w: &World, m: &Model, h: &[Op]) {
        let c = self.net.cfg.clone();
        let mut h = h.to_vec();
        for i in 0..c.pos.len() {
            let u = c.pos[i].0;
            let have = bal(w, &self.net.users[u].lp);
            let all = ((m.l[i] / U) as u64).min(have);
            let mut asks = vec![all + 1, 0, u64::MAX];
            if have > all + 1 {
                asks.push(have);
            }
            for n in asks {
                h.push(Op::Wd { i, n });
                self.step(w, m, &h);
                h.pop();
            }
            let (bx, by) = (bal(w, &self.net.users[u].x), bal(w, &self.net.users[u].y));
            for (x, y) in [(0, 0), (bx + 1, by + 1), (bx, by)] {
                h.push(Op::Dep { i, x, y });
                self.step(w, m, &h);
                h.pop();
            }
        }
    }
    fn exits(&mut self, w: &World, m: &Model, h: &[Op]) {
        let ks: Vec<usize> = (0..m.l.len()).filter(|i| m.l[*i] >= U).collect();
        let perms = crate::pool::perms(ks.len());
        for p in perms {
            let (mut w, mut m, mut h) = (w.clone(), m.clone(), h.to_vec());
            let mut ok = true;
            for &j in &p {
                let i = ks[j];
                let have = bal(&w, &self.net.users[self.net.cfg.pos[i].0].lp);
                let n = ((m.l[i] / U) as u64).min(have);
                if n == 0 {
                    continue;
                }
                h.push(Op::Wd { i, n });
                match self.step(&w, &m, &h) {
                    Some((a, b)) => {
                        w = a;
                        m = b;
                    }
                    None => {
                        ok = false; // reported by step
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            for u in 0..self.net.users.len() {
                let (x, y) = (bal(&w, &self.net.users[u].x), bal(&w, &self.net.users[u].y));
                let f = self.net.first[u];
                if x > f.0 || y > f.1 {
                    let d = self.net.show(&h);
                    self.check(VALUE, false, "extracted", || format!("user {} ends with x {} y {} from {} and {}: {}", u, x, y, f.0, f.1, d));
                }
            }
            // each deposit may leave less than one unit of liquidity behind, for which no liquidity token exists
            let left = (0..self.net.users.len()).any(|u| {
                let of = |v: &dyn Fn(usize) -> u128| -> u128 { (0..m.l.len()).filter(|i| self.net.cfg.pos[*i].0 == u).map(|i| v(i)).sum() };
                of(&|i| m.l[i]) > of(&|i| m.n[i] as u128 * U)
            });
            if left {
                let d = self.net.show(&h);
                self.check(VALUE, false, "exit-impossible", || format!("liquidity {:?} cannot be withdrawn: {}", m.l, d));
            }
        }
    }
    fn rec(&mut self, w: &World, m: &Model, h: &mut Vec<Op>) {
        let hs = self.hash(w);
        self.cx.state(hs);
        let fresh = self.seen.insert(hs);
        if fresh {
            self.probes(w, m, h);
            if self.net.cfg.exits && self.mon & VALUE != 0 {
                self.exits(w, m, h);
            }
        }
        if h.len() == self.net.cfg.depth {
            self.cx.traces += 1;
            return;
        }
        self.cx.tick();
        for o in self.alphabet(w, m) {
            h.push(o);
            // cases are the histories of length two
            let go = h.len() != 2 || self.cx.mine();
            if go {
                if let Some((w2, m2)) = self.step(w, m, h) {
                    self.rec(&w2, &m2, h);
                    self.cx.sample(|| self.net.show(h));
                }
            }
            h.pop();
        }
    }
}
fn no_fee(f: &Fee) -> bool {
    f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0 && f.fee_scale == FEE_SCALE
}

fn layouts(cur: u64) -> Vec<(usize, u64, u64)> {
    let c = cur;
    vec![(0, c - 10, c + 10), (0, c - 10, c), (0, c, c + 10), (1, c - 10, c + 10), (1, c, c + 30), (1, c + 10, c + 30)]
}
pub fn configs(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let all = vec![(1_000_000, 1_000_003), (7, 5), (1, 0)];
    for cur in [100u64, 20_000, 69_081] {
        v.push(Cfg { name: "six positions".into(), cur, pos: layouts(cur), amounts: all.clone(), fractions: vec![0, 1, 2], depth: if q { 3 } else { 4 }, exits: true });
    }
    for cur in [100u64, 46_054] {
        let l = layouts(cur);
        v.push(Cfg { name: "shared ticks".into(), cur, pos: vec![l[1], l[2], l[3]], amounts: vec![(999_983, 999_979), (3, 2)], fractions: vec![1, 2], depth: if q { 4 } else { 5 }, exits: true });
    }
    v.push(Cfg { name: "wide ranges".into(), cur: 30_000, pos: vec![(0, 1, 60_000), (1, 30_000, 30_001), (1, 29_999, 30_000)], amounts: vec![(1_000_000, 500_000), (1, 1)], fractions: vec![1, 2], depth: if q { 4 } else { 5 }, exits: true });
    v.push(Cfg { name: "at tick zero".into(), cur: 0, pos: vec![(0, 0, 10), (1, 0, 5), (0, 5, 10)], amounts: vec![(1_000_000, 500_000), (1, 1)], fractions: vec![1, 2], depth: if q { 4 } else { 5 }, exits: true });
    v.push(Cfg { name: "one position, long".into(), cur: 100, pos: vec![(0, 90, 110), (1, 100, 120)], amounts: vec![(777, 776)], fractions: vec![1, 2], depth: if q { 6 } else { 8 }, exits: false });
    v
}
fn run(cx: &mut Ctx, mon: u32) {
    for c in configs(cx.tier) {
        let net = match Net::new(&c) {
            Ok(n) => n,
            Err(e) => {
                if cx.mine() {
                    cx.fail("setup", format!("pool, ticks and positions cannot be set up for {} at {}: {}", c.name, c.cur, e));
                }
                continue;
            }
        };
        let (w, m) = (net.start.clone(), Model { l: vec![0; c.pos.len()], n: vec![0; c.pos.len()] });
        let mut e = Eng { cx, mon, net, seen: HashSet::new() };
        e.rec(&w, &m, &mut vec![]);
    }
}
pub fn c22(cx: &mut Ctx) {
    run(cx, RECORDS);
}
pub fn c23(cx: &mut Ctx) {
    run(cx, VALUE);
}
pub fn bounds_22(t: Tier) -> String {
    let v: Vec<String> = configs(t).iter().map(|c| format!("{} at tick {}: depth {}, {} positions, {} deposits and {} withdrawals each", c.name, c.cur, c.depth, c.pos.len(), c.amounts.len(), c.fractions.len())).collect();
    format!("all histories of deposits and withdrawals: {}; from every distinct state also over-large and zero requests", v.join("; "))
}

// ------------------------------------------------------------------ C26
/// rewrites a record of the program in place
fn edit<T: AccountDeserialize + AccountSerialize>(w: &mut World, k: &K, f: impl FnOnce(&mut T)) {
    let mut s: T = rd(w, k).expect("record");
    f(&mut s);
    let mut v = vec![];
    s.try_serialize(&mut v).expect("serialize");
    let mut a = (*w.get(k)).clone();
    a.data[..v.len()].copy_from_slice(&v);
    w.put(*k, a);
}
/// growth of the four figures by one step of kind k (0: a unit of the last digit and such, 1: mixed, 2: large, 3: beyond 64 bits)
fn growth(k: usize, n: usize) -> [u128; 4] {
    let b: u128 = [1, 1_000_000_000_007, 250_000_000_000_000, 1 << 66][k];
    let b = b + n as u128;
    [b, 2 * b + 1, 3 * b + 5, if k == 0 { 0 } else { 4 * b + 11 }]
}
/// abstract state of a pool whose price travels: growth so far, what each bound keeps as outside growth, and, as the oracle, the
/// growth that accrued in each interval between bounds
#[derive(Clone)]
struct Road {
    cur: u64,
    fg: [u128; 4],
    out: Vec<[u128; 4]>,
    tally: Vec<[u128; 4]>,
}
const BOUNDS: [u64; 4] = [100, 110, 120, 130];
impl Road {
    fn at(cur: u64) -> Road {
        Road { cur, fg: [0; 4], out: vec![[0; 4]; BOUNDS.len()], tally: vec![[0; 4]; BOUNDS.len() + 1] }
    }
    /// the price moves, crossing what lies between, then fees accrue
    fn go(&mut self, to: u64, g: [u128; 4]) {
        for (i, b) in BOUNDS.iter().enumerate() {
            if (self.cur >= *b) != (to >= *b) {
                for c in 0..4 {
                    self.out[i][c] = self.fg[c] - self.out[i][c];
                }
            }
        }
        self.cur = to;
        let n = BOUNDS.iter().filter(|b| to >= **b).count();
        for c in 0..4 {
            self.fg[c] += g[c];
            self.tally[n][c] += g[c];
        }
    }
    fn within(&self, lo: usize, hi: usize) -> [u128; 4] {
        let mut r = [0; 4];
        for t in &self.tally[lo + 1..=hi] {
            for c in 0..4 {
                r[c] += t[c];
            }
        }
        r
    }
}
fn fee_of(g: &[u128; 4]) -> Fee {
    Fee { fee_scale: FEE_SCALE, f_x: g[0], f_y: g[1], h_x: g[2], h_y: g[3] }
}
fn fig(f: &Fee) -> [Option<u128>; 4] {
    [f.f_x, f.f_y, f.h_x, f.h_y].map(|v| normal(v, f.fee_scale))
}
fn places() -> Vec<u64> {
    vec![95, 100, 104, 110, 119, 120, 121, 130, 140]
}
fn growth_case(cx: &mut Ctx, net: &Net, fresh: &World, held: &World, h: &[(u64, usize)]) {
    let mut r = Road::at(net.cfg.cur);
    for (n, (p, k)) in h.iter().enumerate() {
        r.go(*p, growth(*k, n));
    }
    cx.state(hash64(&[r.cur, r.fg[0] as u64, r.fg[1] as u64, r.out.iter().flatten().fold(7u64, |a, b| a.wrapping_mul(1_000_003).wrapping_add(*b as u64))]));
    let u = &net.users[0];
    let ranges: Vec<(usize, usize)> = (0..BOUNDS.len()).flat_map(|l| (l + 1..BOUNDS.len()).map(move |h| (l, h))).collect();
    let liq = |w: &World, lo: usize, hi: usize| rd::<PositionState>(w, &pos_k(&net.p, &u.key, BOUNDS[lo], BOUNDS[hi])).and_then(|s| normal(s.liquidity, s.liq_scale)).unwrap_or(0);
    // a new position is first touched by a deposit, an old one (from before any growth) by a withdrawal
    for (old, base, ops) in [(false, fresh, [1, 0, 1]), (true, held, [0, 2, 1])] {
        let mut w = base.clone();
        edit::<PoolState>(&mut w, &net.p.pool, |s| {
            s.pool_global_state.tick = r.cur;
            s.pool_global_state.global_fee = fee_of(&r.fg);
            s.pool_global_state.liquidity = ranges.iter().filter(|(l, h)| BOUNDS[*l] <= r.cur && r.cur < BOUNDS[*h]).map(|(l, h)| liq(base, *l, *h)).sum();
        });
        for (i, b) in BOUNDS.iter().enumerate() {
            edit::<TickState>(&mut w, &tick_k(&net.p, *b), |s| s.tick_fee = fee_of(&r.out[i]));
        }
        for (lo, hi) in ranges.iter().copied() {
            let e = r.within(lo, hi).map(Some);
            let k = pos_k(&net.p, &u.key, BOUNDS[lo], BOUNDS[hi]);
            let mut v = w.clone();
            for (n, o) in ops.iter().enumerate() {
                let what = ["a withdrawal of nothing", "a deposit", "a withdrawal of half"][*o];
                let show = || format!("price through (place, kind of growth) {:?}, then {} on {} position {}..{} (touch {})", h, what, if old { "an old" } else { "a new" }, BOUNDS[lo], BOUNDS[hi], n + 1);
                let (m, d) = match o {
                    1 => ix_dep(&net.p, u, payer(), BOUNDS[lo], BOUNDS[hi], r.cur, 1000, 1000),
                    _ => ix_wd(&net.p, u, payer(), BOUNDS[lo], BOUNDS[hi], r.cur, if *o == 0 { 0 } else { (liq(&v, lo, hi) / U / 2) as u64 }),
                };
                cx.transitions += 1;
                match exec(&v, &m, &d) {
                    Err(x) => {
                        cx.fail("growth-refused", format!("{}: refused: {}", show(), x));
                        break;
                    }
                    Ok(z) => v = z,
                }
                let got = rd::<PositionState>(&v, &k).map(|s| fig(&s.last_collected_fee));
                cx.check(got == Some(e), "growth-inside", || format!("{}: the growth recorded is {:?}, that inside the range was {:?}", show(), got, e));
                let glob = rd::<PoolState>(&v, &net.p.pool).map(|s| fig(&s.pool_global_state.global_fee));
                let kept = (0..BOUNDS.len()).all(|i| rd::<TickState>(&v, &tick_k(&net.p, BOUNDS[i])).map(|s| fig(&s.tick_fee)) == Some(r.out[i].map(Some)));
                cx.check(glob == Some(r.fg.map(Some)) && kept, "growth-kept", || format!("{}: the pool's or a tick's growth changed", show()));
            }
        }
    }
    cx.traces += 1;
    cx.sample(|| format!("{:?}", h));
}
pub fn c26(cx: &mut Ctx) {
    let pos: Vec<(usize, u64, u64)> = (0..BOUNDS.len()).flat_map(|l| (l + 1..BOUNDS.len()).map(move |h| (0, BOUNDS[l], BOUNDS[h]))).collect();
    let start = 104;
    let cfg = Cfg { name: "growth".into(), cur: start, pos, amounts: vec![], fractions: vec![], depth: 0, exits: false };
    let setup = Net::new(&cfg).and_then(|net| {
        let mut w = net.start.clone();
        for t in places().into_iter().filter(|t| !BOUNDS.contains(t) && *t != start) {
            let (m, d) = ix_tick(&net.p, payer(), t);
            w = exec(&w, &m, &d)?;
        }
        Ok((net, w))
    });
    let (net, mut w) = match setup {
        Ok(x) => x,
        Err(e) => {
            if cx.mine() {
                cx.fail("setup", format!("pool, ticks and positions cannot be set up: {}", e));
            }
            return;
        }
    };
    let u = net.users[0].clone();
    let mut held = w.clone();
    for (_, lo, hi) in &net.cfg.pos {
        let (m, d) = ix_dep(&net.p, &u, payer(), *lo, *hi, start, 1000, 1000);
        match exec(&held, &m, &d) {
            Ok(z) => held = z,
            Err(e) => {
                if cx.mine() {
                    cx.fail("setup", format!("a deposit on {}..{} is refused: {}", lo, hi, e));
                }
                return;
            }
        }
    }
    // the growth of earlier trades is owed out of the vaults
    for (m, v) in [(net.p.mx, net.p.vx), (net.p.my, net.p.vy)] {
        let owner = tok(&w, &v).owner;
        w.put(v, token(m, owner, 1_000_000_000_000, None));
        held.put(v, token(m, owner, 1_000_000_000_000, None));
    }
    for len in 0..=depth_26(cx.tier) {
        let kinds = [4, 4, 4, 3, 2][len.min(4)];
        let steps: Vec<(u64, usize)> = places().into_iter().flat_map(|p| (0..kinds).map(move |k| (p, k))).collect();
        for i in 0..steps.len().pow(len as u32) {
            if cx.mine() {
                let mut n = i;
                let mut h = vec![];
                for _ in 0..len {
                    h.push(steps[n % steps.len()]);
                    n /= steps.len();
                }
                growth_case(cx, &net, &w, &held, &h);
            }
        }
    }
}
pub fn bounds_26(t: Tier) -> String {
    format!("all price paths of {} moves over {} places (on, just beside and between four bounds, and outside them) with {} sizes of growth each, the largest beyond 64 bits (3 for 3 moves, 2 beyond); from every state, on each of the {} ranges, a deposit, a withdrawal of nothing and another deposit on a new position, and a withdrawal of nothing, one of half and a deposit on one older than the growth", depth_26(t), places().len(), 4, 6)
}
fn depth_26(t: Tier) -> usize {
    if t == Tier::Quick { 3 } else { 4 }
}

// ------------------------------------------------------------------ C24
struct Town {
    w: World,
    pools: Vec<PoolK>,
    users: [User; 2],
    /// candidates for every account slot
    all: Vec<(String, K)>,
    wallets: Vec<K>,
}
const TICKS: [u64; 3] = [90, 100, 110];
const RANGES: [(u64, u64); 2] = [(90, 110), (100, 110)];
fn town_user(u: u8, pool: u8) -> User {
    let (x, y) = (key(21, u), key(22, u));
    // pool 2 has the mints swapped
    let (x, y) = if pool == 2 { (y, x) } else { (x, y) };
    User { key: key(20, u), x, y, lp: key(30 + pool, u) }
}
impl Town {
    fn new() -> Result<Town, String> {
        let (mx, my) = (key(1, 1), key(1, 2));
        let lps = [key(1, 3), key(1, 4), key(1, 5), key(1, 6)];
        let pools = vec![pool_k(lps[0], mx, my, 100), pool_k(lps[1], mx, my, 100), pool_k(lps[2], my, mx, 110), pool_k(lps[3], mx, my, 100)];
        let mut w = base();
        for m in [mx, my] {
            w.put(m, mint(Some(authority()), 1 << 50));
        }
        for p in &pools {
            w.put(p.lp, mint(Some(p.pool), 0));
        }
        let users = [town_user(0, 0), town_user(1, 0)];
        let mut all: Vec<(String, K)> = vec![];
        for (i, u) in users.iter().enumerate() {
            w.put(u.key, Acc::wallet(LAM));
            w.put(u.x, token(mx, u.key, 1_000_000, None));
            w.put(u.y, token(my, u.key, 1_000_000, None));
            let n = ["alice", "bob"][i];
            all.extend([(n.to_string(), u.key), (format!("{}'s x", n), u.x), (format!("{}'s y", n), u.y)]);
            for p in 0..3u8 {
                let k = town_user(i as u8, p).lp;
                w.put(k, token(lps[p as usize], u.key, 0, None));
                all.push((format!("{}'s lp {}", n, p), k));
            }
        }
        // bob lets alice spend from these
        let (alice, bob) = (users[0].key, users[1].key);
        for (j, (m, name)) in [(mx, "x"), (my, "y"), (lps[0], "lp 0")].iter().enumerate() {
            let k = key(40, j as u8);
            w.put(k, token(*m, bob, 500_000, Some((alice, 500_000))));
            all.push((format!("bob's {} delegated to alice", name), k));
            let k = key(41, j as u8);
            w.put(k, token(*m, alice, if j == 2 { 0 } else { 1_000_000 }, None));
            all.push((format!("alice's second {}", name), k));
        }
        // a token account anyone can make: owned by pool 0's address, beside its vaults
        for (j, (m, name)) in [(mx, "x"), (my, "y"), (lps[0], "lp")].iter().enumerate() {
            let k = key(42, j as u8);
            w.put(k, token(*m, pools[0].pool, 700_000, None));
            all.push((format!("stray {} account of pool 0", name), k));
        }
        let mut steps = vec![];
        for p in &pools[..3] {
            steps.push(ix_pool(p, authority(), payer(), 0));
            steps.push(ix_bitmap(p, payer()));
            for t in TICKS {
                steps.push(ix_tick(p, payer(), t));
            }
            for u in &users {
                for (lo, hi) in RANGES {
                    steps.push(ix_pos(p, u.key, payer(), lo, hi));
                }
            }
        }
        for (j, p) in pools[..3].iter().enumerate() {
            for u in 0..2u8 {
                for (lo, hi) in RANGES {
                    steps.push(ix_dep(p, &town_user(u, j as u8), payer(), lo, hi, p.cur, 10_000, 10_000));
                }
            }
        }
        for (m, d) in steps {
            w = exec(&w, &m, &d)?;
        }
        for (j, p) in pools.iter().enumerate() {
            let mut v = vec![("pool", p.pool), ("bitmap", p.bitmap), ("x vault", p.vx), ("y vault", p.vy), ("lp vault", p.lpv), ("lp mint", p.lp)];
            for t in TICKS {
                v.push((["tick 90", "tick 100", "tick 110"][TICKS.iter().position(|x| *x == t).unwrap()], tick_k(p, t)));
            }
            all.extend(v.into_iter().map(|(n, k)| (format!("{} of pool {}", n, j), k)));
            for (i, u) in users.iter().enumerate() {
                for (lo, hi) in RANGES {
                    all.push((format!("{}'s position {}..{} in pool {}", ["alice", "bob"][i], lo, hi, j), pos_k(p, &u.key, lo, hi)));
                }
            }
        }
        all.push(("alice's uncreated position".into(), pos_k(&pools[0], &alice, 90, 100)));
        all.push(("uncreated tick 120".into(), tick_k(&pools[0], 120)));
        all.extend([("mint x".to_string(), mx), ("mint y".to_string(), my)]);
        // forged copies: same data under another address, by the same owner and by another program
        let mut forged = vec![];
        for (n, k) in &all {
            let a = w.get(k);
            if a.data.is_empty() || !(n.contains("pool 0") || n.starts_with("alice") || n.starts_with("mint")) {
                continue;
            }
            for (z, owner) in [(0u8, a.owner), (1, key(50, 1))] {
                let f = key(60 + z, forged.len() as u8);
                forged.push((format!("{} copy of {}", ["same-owner", "foreign"][z as usize], n), f, Acc { owner, ..(*a).clone() }));
            }
        }
        for (n, k, a) in forged {
            w.put(k, a);
            all.push((n, k));
        }
        all.extend([
            ("payer".to_string(), payer()),
            ("authority".to_string(), authority()),
            ("token program".to_string(), spl_token::ID),
            ("system program".to_string(), system_program::ID),
            ("this program".to_string(), ID),
            ("rent".to_string(), sysvar::rent::ID),
            ("nothing".to_string(), key(77, 7)),
        ]);
        let wallets = vec![alice, bob, payer(), authority()];
        Ok(Town { w, pools, users, all, wallets })
    }
    fn name(&self, k: &K) -> String {
        self.all.iter().find(|x| x.1 == *k).map(|x| x.0.clone()).unwrap_or_else(|| k.to_string())
    }
    fn real_pool(&self, w: &World, k: &K) -> Option<PoolK> {
        self.pools.iter().find(|p| p.pool == *k && w.get(k).owner == ID).cloned()
    }
    fn token_of(&self, k: &K) -> Option<spl_token::state::Account> {
        let a = self.w.get(k);
        if a.owner != spl_token::ID || a.data.len() != spl_token::state::Account::LEN {
            return None;
        }
        spl_token::state::Account::unpack(&a.data).ok()
    }
    /// may this call succeed?
    fn allowed(&self, c: &Call, m: &[AccountMeta]) -> bool {
        let k = |i: usize| m[i].pubkey;
        // a key that signs for one account of the call signs for all
        let sg = |i: usize| m.iter().any(|z| z.is_signer && z.pubkey == m[i].pubkey);
        let here = |x: K| self.w.get(&x).owner == ID;
        let gone = |x: K| self.w.get(&x).owner == system_program::ID && self.w.get(&x).data.is_empty();
        match c.what {
            What::Pool => {
                let Some(p) = self.pools.iter().find(|p| p.lp == k(5) && p.pool == k(2)) else { return false };
                let is_mint = |x: K| self.w.get(&x).owner == spl_token::ID && self.w.get(&x).data.len() == spl_token::state::Mint::LEN;
                let p = pool_k(p.lp, k(3), k(4), p.cur);
                sg(0) && sg(1) && gone(k(2)) && is_mint(k(3)) && is_mint(k(4)) && k(6) == p.vx && k(7) == p.vy && k(8) == p.lpv && k(9) == system_program::ID && k(10) == spl_token::ID && k(11) == sysvar::rent::ID
            }
            What::Bitmap => match self.real_pool(&self.w, &k(0)) {
                Some(p) => k(1) == p.bitmap && gone(k(1)) && sg(2) && k(3) == system_program::ID,
                None => false,
            },
            What::Tick => match self.real_pool(&self.w, &k(0)) {
                Some(p) => k(1) == tick_k(&p, c.lo) && gone(k(1)) && sg(2) && k(3) == system_program::ID,
                None => false,
            },
            What::Pos => match self.real_pool(&self.w, &k(0)) {
                Some(p) => {
                    c.lo < c.hi && k(1) == pos_k(&p, &k(4), c.lo, c.hi) && gone(k(1)) && k(2) == tick_k(&p, c.lo) && here(k(2)) && k(3) == tick_k(&p, c.hi) && here(k(3)) && sg(4) && sg(5) && k(6) == system_program::ID
                }
                None => false,
            },
            What::Dep | What::Wd => {
                let Some(p) = self.real_pool(&self.w, &k(0)) else { return false };
                let u = k(14);
                let lp = match self.token_of(&k(12)) {
                    Some(t) => t.mint == p.lp && (c.what == What::Dep || t.owner == u || t.delegate == COption::Some(u)),
                    None => false,
                };
                let mine = |x: K, mint: K| self.token_of(&x).map(|t| t.mint == mint && t.owner == u).unwrap_or(false);
                sg(14)
                    && sg(15)
                    && c.lo < c.hi
                    && c.cur == p.cur
                    && k(1) == p.bitmap
                    && k(2) == pos_k(&p, &u, c.lo, c.hi)
                    && here(k(2))
                    && k(3) == tick_k(&p, c.lo)
                    && here(k(3))
                    && k(4) == tick_k(&p, c.hi)
                    && here(k(4))
                    && k(5) == tick_k(&p, c.cur)
                    && here(k(5))
                    && k(6) == p.lp
                    && mine(k(7), p.mx)
                    && mine(k(8), p.my)
                    && k(9) == p.vx
                    && k(10) == p.vy
                    && k(11) == p.lpv
                    && lp
                    && k(13) == spl_token::ID
            }
        }
    }
    /// runs a call and judges the outcome
    fn judge(&self, cx: &mut Ctx, c: &Call, m: &[AccountMeta], why: &dyn Fn() -> String) -> Option<World> {
        cx.transitions += 1;
        let r = exec(&self.w, m, &c.data);
        let ok = self.allowed(c, m);
        match r {
            Err(_) => None,
            Ok(w2) => {
                if !ok {
                    let key = format!("{:?}-accepted", c.what);
                    cx.fail(&key, format!("{} accepted with {}", c.show(), why()));
                } else {
                    self.effects(cx, c, m, &w2, why);
                }
                Some(w2)
            }
        }
    }
    /// an accepted call touches only what it was given, and takes tokens only from those who signed
    fn effects(&self, cx: &mut Ctx, c: &Call, m: &[AccountMeta], w2: &World, why: &dyn Fn() -> String) {
        let k = |i: usize| m[i].pubkey;
        let may: Vec<K> = match c.what {
            What::Pool => vec![k(1), k(2), k(6), k(7), k(8)],
            What::Bitmap | What::Tick => vec![k(1), k(2)],
            What::Pos => vec![k(1), k(5)],
            What::Dep | What::Wd => vec![k(0), k(1), k(2), k(3), k(4), k(6), k(7), k(8), k(9), k(10), k(12)],
        };
        let vaults: Vec<K> = self.pools.iter().flat_map(|p| [p.vx, p.vy]).collect();
        for x in self.w.diff(w2) {
            if !may.contains(&x) {
                cx.fail(&format!("{:?}-touches", c.what), format!("{} changes {} with {}", c.show(), self.name(&x), why()));
            }
            let (Some(a), Ok(b)) = (self.token_of(&x), spl_token::state::Account::unpack(&w2.get(&x).data)) else { continue };
            let signed = m.iter().any(|z| z.is_signer && (z.pubkey == a.owner || (c.what == What::Wd && x == k(12) && a.delegate == COption::Some(z.pubkey))));
            if b.amount < a.amount && !signed && !(c.what == What::Wd && vaults.contains(&x)) {
                cx.fail(&format!("{:?}-takes", c.what), format!("{} takes from {} with {}", c.show(), self.name(&x), why()));
            }
        }
    }
    fn calls(&self) -> Vec<Call> {
        let mut v = vec![];
        for (j, p) in self.pools[..3].iter().enumerate() {
            if j == 1 {
                continue;
            }
            for u in 0..2u8 {
                let us = town_user(u, j as u8);
                for (lo, hi) in RANGES {
                    v.push(self.dep(p, &us, lo, hi, p.cur));
                    v.push(self.wd(p, &us, lo, hi, p.cur));
                }
            }
        }
        let q = &self.pools[3];
        v.push(Call::new(What::Pool, ix_pool(q, authority(), payer(), 0), 0, 0, q.cur));
        let p = &self.pools[0];
        v.push(Call::new(What::Tick, ix_tick(p, payer(), 120), 120, 0, 0));
        v.push(Call::new(What::Pos, ix_pos(p, self.users[0].key, payer(), 90, 100), 90, 100, 0));
        v
    }
    fn dep(&self, p: &PoolK, u: &User, lo: u64, hi: u64, cur: u64) -> Call {
        Call::new(What::Dep, ix_dep(p, u, payer(), lo, hi, cur, 1_000, 1_000), lo, hi, cur)
    }
    fn wd(&self, p: &PoolK, u: &User, lo: u64, hi: u64, cur: u64) -> Call {
        Call::new(What::Wd, ix_wd(p, u, payer(), lo, hi, cur, 1_000), lo, hi, cur)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Pool,
    Bitmap,
    Tick,
    Pos,
    Dep,
    Wd,
}
#[derive(Clone)]
struct Call {
    what: What,
    metas: Vec<AccountMeta>,
    data: Vec<u8>,
    lo: u64,
    hi: u64,
    cur: u64,
}
impl Call {
    fn new(what: What, ix: Ix, lo: u64, hi: u64, cur: u64) -> Call {
        Call { what, metas: ix.0, data: ix.1, lo, hi, cur }
    }
    fn show(&self) -> String {
        match self.what {
            What::Pool => "initialize_pool".into(),
            What::Bitmap => "initialize_bitmap".into(),
            What::Tick => format!("initialize_tick({})", self.lo),
            What::Pos => format!("create_position({}, {})", self.lo, self.hi),
            What::Dep => format!("deposit({}, {}, {}, 1000, 1000)", self.lo, self.hi, self.cur),
            What::Wd => format!("withdraw({}, {}, {}, 1000)", self.lo, self.hi, self.cur),
        }
    }
}
const SLOTS: [&str; 16] = [
    "pool_state", "tick_bitmap", "position_state", "lower_tick_state", "upper_tick_state", "current_tick_state", "lp_token_mint", "user_token_x", "user_token_y", "token_x_vault", "token_y_vault", "lp_token_vault", "lp account", "token_program", "user", "payer",
];
fn slot(c: &Call, i: usize) -> String {
    match c.what {
        What::Dep | What::Wd => SLOTS[i].into(),
        _ => format!("account {}", i),
    }
}
impl Town {
    fn swap(&self, m: &mut AccountMeta, k: K) {
        if m.is_signer {
            m.is_signer = self.wallets.contains(&k);
        }
        m.pubkey = k;
    }
    fn substitutions(&self, cx: &mut Ctx, c: &Call, pairs: bool) {
        let n = c.metas.len();
        if cx.mine() {
            // the legitimate call works, and an initialisation works only once
            match exec(&self.w, &c.metas, &c.data) {
                Err(e) => cx.fail(&format!("{:?}-refused", c.what), format!("legitimate {} refused: {}", c.show(), e)),
                Ok(w2) => {
                    cx.transitions += 1;
                    self.effects(cx, c, &c.metas, &w2, &|| "its own accounts".into());
                    if !matches!(c.what, What::Dep | What::Wd) {
                        for pay in &self.wallets {
                            let mut m = c.metas.clone();
                            for z in m.iter_mut() {
                                if z.pubkey == payer() {
                                    z.pubkey = *pay;
                                }
                            }
                            cx.transitions += 1;
                            if exec(&w2, &m, &c.data).is_ok() {
                                cx.fail(&format!("{:?}-twice", c.what), format!("{} accepted a second time", c.show()));
                            }
                        }
                    }
                }
            }
            cx.traces += 1;
        }
        for i in 0..n {
            if !cx.mine() {
                continue;
            }
            for (name, k) in &self.all {
                let mut m = c.metas.clone();
                self.swap(&mut m[i], *k);
                cx.state(hash64(&[i as u64, u64::from_le_bytes(k.as_ref()[..8].try_into().unwrap()), k.as_ref()[1] as u64, c.what as u64, c.lo, c.hi]));
                // with every subset of the signatures
                let signers: Vec<usize> = (0..n).filter(|j| m[*j].is_signer).collect();
                for mask in 0..1u32 << signers.len() {
                    let mut m = m.clone();
                    for (b, j) in signers.iter().enumerate() {
                        m[*j].is_signer = mask >> b & 1 == 0;
                    }
                    self.judge(cx, c, &m, &|| format!("{} as {}{}", name, slot(c, i), if mask != 0 { " and signatures dropped" } else { "" }));
                }
            }
            cx.tick();
            cx.traces += 1;
            if !pairs {
                continue;
            }
            for j in i + 1..n {
                for (n1, k1) in &self.all {
                    let mut m = c.metas.clone();
                    self.swap(&mut m[i], *k1);
                    for (n2, k2) in &self.all {
                        let mut m = m.clone();
                        self.swap(&mut m[j], *k2);
                        self.judge(cx, c, &m, &|| format!("{} as {} and {} as {}", n1, slot(c, i), n2, slot(c, j)));
                    }
                }
                cx.tick();
            }
        }
    }
    /// every mixture of the accounts of two legitimate calls
    fn mixtures(&self, cx: &mut Ctx, a: &Call, b: &Call) {
        let differ: Vec<usize> = (0..a.metas.len()).filter(|i| a.metas[*i].pubkey != b.metas[*i].pubkey).collect();
        for mask in 0..1u64 << differ.len() {
            if mask & 63 == 0 {
                cx.tick();
            }
            if !self.group(cx, mask) {
                continue;
            }
            let mut m = a.metas.clone();
            for (z, i) in differ.iter().enumerate() {
                if mask >> z & 1 == 1 {
                    m[*i] = b.metas[*i].clone();
                }
            }
            for c in [a, b] {
                self.judge(cx, c, &m, &|| {
                    let v: Vec<String> = differ.iter().enumerate().map(|(z, i)| format!("{} as {}", self.name(&if mask >> z & 1 == 1 { b.metas[*i].pubkey } else { a.metas[*i].pubkey }), slot(c, *i))).collect();
                    v.join(", ")
                });
            }
        }
    }
    fn group(&self, cx: &mut Ctx, mask: u64) -> bool {
        if mask & 63 == 0 {
            GROUP.with(|g| g.set(cx.mine()));
        }
        GROUP.with(|g| g.get())
    }
    /// every combination of tick arguments with accounts derived for another combination
    fn arguments(&self, cx: &mut Ctx) {
        let p = &self.pools[0];
        let ts = [0u64, 90, 100, 110, 120];
        for u in 0..2u8 {
            let us = town_user(u, 0);
            for lo in ts {
                for hi in ts {
                    for cur in ts {
                        if !cx.mine() {
                            continue;
                        }
                        let (d, w) = (self.dep(p, &us, lo, hi, cur), self.wd(p, &us, lo, hi, cur));
                        for lo2 in ts {
                            for hi2 in ts {
                                for cur2 in ts {
                                    for x in [&d, &w] {
                                        let y = match x.what {
                                            What::Dep => self.dep(p, &us, lo2, hi2, cur2),
                                            _ => self.wd(p, &us, lo2, hi2, cur2),
                                        };
                                        // accounts of y, arguments of x
                                        let r = self.judge(cx, x, &y.metas, &|| format!("the accounts of ({}, {}, {})", lo2, hi2, cur2));
                                        if self.allowed(x, &y.metas) && r.is_none() {
                                            cx.fail("refused", format!("legitimate {} refused", x.show()));
                                        }
                                    }
                                }
                            }
                            cx.tick();
                        }
                        cx.traces += 1;
                    }
                }
            }
        }
    }
}
thread_local! {
    static GROUP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn c24(cx: &mut Ctx) {
    let town = match Town::new() {
        Ok(t) => t,
        Err(e) => {
            if cx.mine() {
                cx.fail("setup", format!("two pools with users cannot be set up: {}", e));
            }
            return;
        }
    };
    let calls = town.calls();
    let q = cx.quick();
    for (j, c) in calls.iter().enumerate() {
        let pairs = !q || j < 2 || !matches!(c.what, What::Dep | What::Wd);
        town.substitutions(cx, c, pairs);
    }
    // before its pool has one: a bitmap
    let mut t2 = Town::new().unwrap();
    let q3 = t2.pools[3].clone();
    let (m, d) = ix_pool(&q3, authority(), payer(), 0);
    match exec(&t2.w, &m, &d) {
        Ok(w) => {
            t2.w = w;
            let c = Call::new(What::Bitmap, ix_bitmap(&q3, payer()), 0, 0, 0);
            t2.substitutions(cx, &c, true);
            let c = Call::new(What::Tick, ix_tick(&q3, payer(), 90), 90, 0, 0);
            t2.substitutions(cx, &c, true);
        }
        Err(e) => {
            if cx.mine() {
                cx.fail("setup", format!("a further pool cannot be set up: {}", e));
            }
        }
    }
    let mk = |what: What, j: usize, u: u8, r: usize| {
        let p = &town.pools[j];
        let us = town_user(u, j as u8);
        match what {
            What::Dep => town.dep(p, &us, RANGES[r].0, RANGES[r].1, p.cur),
            _ => town.wd(p, &us, RANGES[r].0, RANGES[r].1, p.cur),
        }
    };
    for what in [What::Dep, What::Wd] {
        for (j, u, r) in [(0, 1, 0), (1, 0, 0), (1, 1, 0), (2, 0, 0), (2, 1, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1), (2, 1, 1)] {
            town.mixtures(cx, &mk(what, 0, 0, 0), &mk(what, j, u, r));
        }
    }
    town.arguments(cx);
    cx.sample(|| format!("deposit(90, 110, 100) by alice in pool 0 with {} candidates for each account, singly and in pairs", town.all.len()));
}
pub fn bounds_24(t: Tier) -> String {
    format!("three pools (two alike, one with mints swapped and another tick), two users, ticks 90/100/110, two positions each, delegated and stray token accounts, same-owner and foreign copies (about 120 accounts): every call with every single account replaced by every other, under every subset of signatures; {} with every pair replaced; every mixture of two legitimate calls (other pool, user, range); all tick arguments crossed with accounts of all tick arguments; every initialisation repeated", if t == Tier::Quick { "a deposit, a withdrawal and all initialisations" } else { "every call" })
}

// ------------------------------------------------------------------ C25
struct Land {
    w: World,
    pools: Vec<PoolK>,
    users: [User; 2],
}
impl Land {
    fn new(cur: [u64; 2], same_mints: bool) -> Land {
        let (mx, my) = (key(1, 1), key(1, 2));
        let lps = [key(1, 3), key(1, 4)];
        let mut w = base();
        let pools = vec![pool_k(lps[0], mx, my, cur[0]), if same_mints { pool_k(lps[1], mx, my, cur[1]) } else { pool_k(lps[1], my, mx, cur[1]) }];
        for m in [mx, my] {
            w.put(m, mint(Some(authority()), 1 << 50));
        }
        for p in &pools {
            w.put(p.lp, mint(Some(p.pool), 0));
        }
        let users = [user(0, 0), user(1, 0)];
        for u in &users {
            w.put(u.key, Acc::wallet(LAM));
        }
        Land { w, pools, users }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Pool(usize),
    Bitmap(usize),
    Tick(usize, u64),
    Pos(usize, usize, u64, u64),
}
impl Land {
    fn ix(&self, s: Step, pay: K) -> Ix {
        match s {
            Step::Pool(p) => ix_pool(&self.pools[p], authority(), pay, 12345),
            Step::Bitmap(p) => ix_bitmap(&self.pools[p], pay),
            Step::Tick(p, t) => ix_tick(&self.pools[p], pay, t),
            Step::Pos(p, u, lo, hi) => ix_pos(&self.pools[p], self.users[u].key, pay, lo, hi),
        }
    }
    fn targets(&self, s: Step) -> Vec<K> {
        match s {
            Step::Pool(p) => {
                let p = &self.pools[p];
                vec![p.pool, p.vx, p.vy, p.lpv]
            }
            Step::Bitmap(p) => vec![self.pools[p].bitmap],
            Step::Tick(p, t) => vec![tick_k(&self.pools[p], t)],
            Step::Pos(p, u, lo, hi) => vec![pos_k(&self.pools[p], &self.users[u].key, lo, hi)],
        }
    }
    fn possible(&self, done: &[Step], s: Step) -> bool {
        if done.contains(&s) {
            return false;
        }
        match s {
            Step::Pool(_) => true,
            Step::Bitmap(p) | Step::Tick(p, _) => done.contains(&Step::Pool(p)),
            Step::Pos(p, _, lo, hi) => lo < hi && done.contains(&Step::Tick(p, lo)) && done.contains(&Step::Tick(p, hi)),
        }
    }
    /// what is wrong with the record that `s` created
    fn wrong(&self, w: &World, s: Step) -> Option<String> {
        let size = |n: usize, k: &K| {
            let a = w.get(k);
            if a.data.len() < n || a.lamports < Rent::default().minimum_balance(a.data.len()) {
                Some(format!("account has {} bytes and {} lamports", a.data.len(), a.lamports))
            } else {
                None
            }
        };
        match s {
            Step::Pool(p) => {
                let p = &self.pools[p];
                let Some(s) = rd::<PoolState>(w, &p.pool) else { return Some("pool unreadable".into()) };
                let g = &s.pool_global_state;
                let bump = |seeds: &[&[u8]]| pda(seeds).1;
                let want_bumps = [
                    bump(&[POOL_STATE_SEED, p.lp.as_ref()]),
                    bump(&[TOKEN_VAULT_SEED, p.mx.as_ref(), p.lp.as_ref()]),
                    bump(&[TOKEN_VAULT_SEED, p.my.as_ref(), p.lp.as_ref()]),
                    bump(&[LP_TOKEN_VAULT_SEED, p.pool.as_ref(), p.lp.as_ref()]),
                ];
                if s.authority != authority() {
                    return Some(format!("authority {}", s.authority));
                }
                if (s.token_x_mint, s.token_y_mint, s.lp_token_mint, s.token_x_vault, s.token_y_vault) != (p.mx, p.my, p.lp, p.vx, p.vy) {
                    return Some("mints or vaults are not those given".into());
                }
                if [s.pool_state_bump, s.token_x_vault_bump, s.token_y_vault_bump, s.lp_token_vault_bump] != want_bumps {
                    return Some("bumps are not those of the addresses".into());
                }
                if g.tick != p.cur || g.liquidity != 0 || g.liq_scale != LIQUIDITY_SCALE || g.rp_scale != ROOT_PRICE_SCALE || !no_fee(&g.global_fee) {
                    return Some(format!("tick {}, liquidity {} at scale {}, price scale {}, fees {:?}", g.tick, g.liquidity, g.liq_scale, g.rp_scale, g.global_fee));
                }
                let ex = exact_rp(p.cur as u128);
                let tol = ULP * 2.0 + ex.f() * ULP * 1.5 * (p.cur as f64 + 1.0);
                let off = (from_dec(dc(g.root_price)) - ex).f();
                if off.abs() > tol || g.root_price != rp_of(p.cur as u128).value {
                    return Some(format!("root price {}e-12 for tick {}, exact {:.15} (off {:e}, allowed {:e})", g.root_price, p.cur, ex.f(), off, tol));
                }
                for (v, m) in [(p.vx, p.mx), (p.vy, p.my), (p.lpv, p.lp)] {
                    let a = w.get(&v);
                    let t = if a.owner == spl_token::ID { spl_token::state::Account::unpack(&a.data).ok() } else { None };
                    match t {
                        Some(t) if t.mint == m && t.owner == p.pool && t.amount == 0 && t.delegate.is_none() && t.close_authority.is_none() => {}
                        _ => return Some(format!("vault {} is not an empty token account of the pool: {:?}", v, t)),
                    }
                    if let Some(e) = size(spl_token::state::Account::LEN, &v) {
                        return Some(e);
                    }
                }
                size(8 + 32 * 6 + 4 + 16 + 1 + 16 + 1 + 8 + 65, &p.pool)
            }
            Step::Bitmap(p) => {
                let p = &self.pools[p];
                match rd_map(w, &p.bitmap) {
                    Some((m, b)) if m.iter().all(|x| *x == 0) && b == pda(&[b"bitmap", p.pool.as_ref()]).1 => size(8 + TICK_BITMAP_SIZE + 1, &p.bitmap),
                    _ => Some("bitmap is not empty, or its bump is wrong".into()),
                }
            }
            Step::Tick(p, t) => {
                let p = &self.pools[p];
                let k = tick_k(p, t);
                match rd::<TickState>(w, &k) {
                    None => Some("tick unreadable".into()),
                    Some(s) => {
                        let ok = s.tick == t && s.liq_net == 0 && s.liq_net_neg == 0 && s.liq_gross == 0 && s.liq_net_scale == LIQUIDITY_SCALE && s.liq_gross_scale == LIQUIDITY_SCALE && no_fee(&s.tick_fee) && s.bump == pda(&[b"tick", p.pool.as_ref(), &t.to_le_bytes()]).1;
                        if !ok {
                            return Some(format!("tick {} net {}{} at {}, gross {} at {}, fees {:?}, bump {}", s.tick, if s.liq_net_neg != 0 { "-" } else { "" }, s.liq_net, s.liq_net_scale, s.liq_gross, s.liq_gross_scale, s.tick_fee, s.bump));
                        }
                        size(8 + 16 + 2 + 16 + 1 + 8 + 65 + 1, &k)
                    }
                }
            }
            Step::Pos(p, u, lo, hi) => {
                let p = &self.pools[p];
                let uk = self.users[u].key;
                let k = pos_k(p, &uk, lo, hi);
                match rd::<PositionState>(w, &k) {
                    None => Some("position unreadable".into()),
                    Some(s) => {
                        let ok = s.lower_tick == lo && s.upper_tick == hi && s.liquidity == 0 && s.liq_scale == LIQUIDITY_SCALE && no_fee(&s.last_collected_fee) && s.bump == pda(&[b"position", p.pool.as_ref(), uk.as_ref(), &lo.to_le_bytes(), &hi.to_le_bytes()]).1;
                        if !ok {
                            return Some(format!("bounds {}..{}, liquidity {} at {}, fees {:?}, bump {}", s.lower_tick, s.upper_tick, s.liquidity, s.liq_scale, s.last_collected_fee, s.bump));
                        }
                        size(8 + 16 + 1 + 8 + 8 + 65 + 1, &k)
                    }
                }
            }
        }
    }
    /// one step on the real program, judged; true if it was carried out
    fn run(&self, cx: &mut Ctx, w: &mut World, done: &mut Vec<Step>, s: Step, pay: K, tag: &dyn Fn() -> String) -> bool {
        let (m, d) = self.ix(s, pay);
        cx.transitions += 1;
        let kind = match s {
            Step::Pool(_) => "pool",
            Step::Bitmap(_) => "bitmap",
            Step::Tick(..) => "tick",
            Step::Pos(..) => "position",
        };
        match exec(w, &m, &d) {
            Err(e) => {
                if self.possible(done, s) {
                    cx.fail(&format!("{}-refused", kind), format!("{:?} refused ({}) after {:?}{}", s, e, done, tag()));
                }
                false
            }
            Ok(w2) => {
                if !self.possible(done, s) {
                    cx.fail(&format!("{}-accepted", kind), format!("{:?} accepted after {:?}{}", s, done, tag()));
                    return false;
                }
                let mut may = self.targets(s);
                may.push(pay);
                for k in w.diff(&w2) {
                    if !may.contains(&k) {
                        cx.fail(&format!("{}-touches", kind), format!("{:?} changes account {} after {:?}{}", s, k, done, tag()));
                    }
                }
                let p0 = w.get(&pay).lamports;
                *w = w2;
                done.push(s);
                let paid = p0 - w.get(&pay).lamports;
                let rent: u64 = self.targets(s).iter().map(|k| Rent::default().minimum_balance(w.get(k).data.len())).sum();
                if paid > rent {
                    cx.fail(&format!("{}-overpaid", kind), format!("{:?} costs {} lamports for a rent of {}{}", s, paid, rent, tag()));
                }
                for z in done.iter() {
                    if let Some(e) = self.wrong(w, *z) {
                        cx.fail(&format!("{}-record", kind), format!("{:?} is recorded wrongly after {:?}: {}{}", z, done, e, tag()));
                    }
                }
                cx.state(hash64(&[w.0.len() as u64, done.len() as u64, crate::fw::hash64(&done.iter().map(|z| self.targets(*z)[0].as_ref()[0] as u64 * 256 + self.targets(*z)[0].as_ref()[1] as u64).collect::<Vec<_>>())]));
                true
            }
        }
    }
}
pub fn c25(cx: &mut Ctx) {
    let q = cx.quick();
    // pools at every tick
    let dense = if q { 1_500 } else { 20_000 };
    let step = if q { 331 } else { 37 };
    let mut cur: Vec<u64> = (0..=dense).collect();
    cur.extend((dense + step..=400_000).step_by(step as usize));
    for chunk in cur.chunks(8) {
        if !cx.mine() {
            continue;
        }
        for &t in chunk {
            let l = Land::new([t, 0], true);
            let mut w = l.w.clone();
            l.run(cx, &mut w, &mut vec![], Step::Pool(0), payer(), &|| format!(" (tick {})", t));
        }
        cx.tick();
        cx.traces += 1;
    }
    // ticks and positions at every pair of bounds, including byte and word boundaries
    let ts: Vec<u64> = vec![0, 1, 2, 100, 127, 128, 255, 256, 257, 32_767, 32_768, 65_535, 65_536, 100_000, 443_636, 1 << 31, (1 << 31) + 1, u32::MAX as u64, 1 << 32, (1 << 32) + 1, (1 << 32) + 255, 1 << 33, u64::MAX - 1, u64::MAX];
    let l = Land::new([100, 90], true);
    for (a, lo) in ts.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        let mut w = l.w.clone();
        let mut done = vec![];
        let no = || String::new();
        l.run(cx, &mut w, &mut done, Step::Pool(0), payer(), &no);
        l.run(cx, &mut w, &mut done, Step::Tick(0, *lo), payer(), &no);
        for (b, hi) in ts.iter().enumerate() {
            for u in 0..2 {
                // upper tick still missing, then there
                let (mut w, mut done) = (w.clone(), done.clone());
                l.run(cx, &mut w, &mut done, Step::Pos(0, u, *lo, *hi), payer(), &no);
                if a != b {
                    l.run(cx, &mut w, &mut done, Step::Tick(0, *hi), payer(), &no);
                }
                l.run(cx, &mut w, &mut done, Step::Pos(0, u, *lo, *hi), payer(), &no);
                l.run(cx, &mut w, &mut done, Step::Pos(0, u, *hi, *lo), payer(), &no);
                l.run(cx, &mut w, &mut done, Step::Tick(0, *lo), payer(), &no);
                l.run(cx, &mut w, &mut done, Step::Pos(0, 1 - u, *lo, *hi), l.users[u].key, &no);
                l.run(cx, &mut w, &mut done, Step::Pos(0, u, *lo, *hi), l.users[1 - u].key, &no);
            }
            cx.tick();
        }
        cx.traces += 1;
    }
    // every order of the steps, on two pools
    for same in [true, false] {
        let l = Land::new([100, 90], same);
        let mut steps = vec![Step::Pool(0), Step::Tick(0, 90), Step::Tick(0, 110), Step::Pos(0, 0, 90, 110), Step::Pool(1), Step::Tick(1, 90), Step::Bitmap(0)];
        if !q {
            steps.push(Step::Bitmap(1));
        }
        for p in crate::pool::perms(steps.len()) {
            if !cx.mine() {
                continue;
            }
            let (mut w, mut done) = (l.w.clone(), vec![]);
            for &i in &p {
                l.run(cx, &mut w, &mut done, steps[i], payer(), &|| String::new());
            }
            // what was refused works now, and nothing works twice
            for &i in &p {
                l.run(cx, &mut w, &mut done, steps[i], payer(), &|| String::new());
            }
            for &i in &p {
                l.run(cx, &mut w, &mut done, steps[i], payer(), &|| String::new());
            }
            cx.traces += 1;
            cx.sample(|| format!("{:?}", p.iter().map(|i| steps[*i]).collect::<Vec<_>>()));
        }
    }
    // accounts that somebody sent lamports to beforehand
    let l = Land::new([100, 90], true);
    let order = [Step::Pool(0), Step::Bitmap(0), Step::Tick(0, 90), Step::Tick(0, 110), Step::Pos(0, 0, 90, 110)];
    for s in order {
        for k in l.targets(s) {
            for lam in [1u64, 890_880, 890_881, 1_000_000, 2_039_280, 10_000_000, 70_000_000, 500_000_000] {
                for pay in [payer(), authority(), l.users[0].key] {
                    if !cx.mine() {
                        continue;
                    }
                    let mut w = l.w.clone();
                    w.put(k, Acc::wallet(lam));
                    let mut done = vec![];
                    for z in order {
                        l.run(cx, &mut w, &mut done, z, pay, &|| format!(" ({} sent {} lamports before)", k, lam));
                    }
                    cx.traces += 1;
                }
            }
        }
    }
}
pub fn bounds_25(t: Tier) -> String {
    format!(
        "a pool at every tick 0..={} and every {}th up to 400000; every pair of 24 tick values (0 to 2^64-1, around byte and word boundaries) as ticks and position bounds, missing, in order and inverted, by two users; every order of {} initialisation steps on two pools; every account prefunded with 8 amounts under 3 payers",
        if t == Tier::Quick { 1500 } else { 20000 },
        if t == Tier::Quick { 331 } else { 37 },
        if t == Tier::Quick { 7 } else { 8 }
    )
}
