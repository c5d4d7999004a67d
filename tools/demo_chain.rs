// shared by the demonstrations: the program's entrypoint on a small runtime with the real token program
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}
// A small Solana runtime: executes the real program entrypoint on a world of accounts, with the real
// token program and a system program, under the runtime's rules (privileges, ownership, rollback).
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::account_info::AccountInfo;
use anchor_lang::solana_program::entrypoint::ProgramResult;
use anchor_lang::solana_program::instruction::{AccountMeta, Instruction};
use anchor_lang::solana_program::program_error::ProgramError;
use anchor_lang::solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use anchor_lang::solana_program::rent::Rent;
use anchor_lang::solana_program::{system_program, sysvar};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}
impl Acc {
    pub fn empty() -> Acc {
        Acc { lamports: 0, data: vec![], owner: system_program::ID, exec: false }
    }
    pub fn wallet(lamports: u64) -> Acc {
        Acc { lamports, ..Acc::empty() }
    }
    pub fn owned(data: Vec<u8>, owner: Pubkey) -> Acc {
        Acc { lamports: Rent::default().minimum_balance(data.len()), data, owner, exec: false }
    }
}
#[derive(Clone, Default)]
pub struct World(pub BTreeMap<Pubkey, Rc<Acc>>);
impl World {
    pub fn get(&self, k: &Pubkey) -> Rc<Acc> {
        self.0.get(k).cloned().unwrap_or_else(|| Rc::new(Acc::empty()))
    }
    pub fn put(&mut self, k: Pubkey, a: Acc) {
        self.0.insert(k, Rc::new(a));
    }
    /// keys whose accounts differ
    pub fn diff(&self, o: &World) -> Vec<Pubkey> {
        let mut v = vec![];
        for (k, a) in &self.0 {
            match o.0.get(k) {
                Some(b) if Rc::ptr_eq(a, b) || a == b => {}
                None if **a == Acc::empty() => {}
                _ => v.push(*k),
            }
        }
        for (k, b) in &o.0 {
            if !self.0.contains_key(k) && **b != Acc::empty() {
                v.push(*k);
            }
        }
        v
    }
}

const CAP: usize = 10_240;

struct Slot {
    key: Pubkey,
    owner: Box<Pubkey>,
    lamports: Box<u64>,
    buf: Vec<u8>,
    exec: bool,
    signer: bool,
    writable: bool,
    shadow: Acc,
    info: Option<AccountInfo<'static>>,
}
#[derive(Default)]
struct Run {
    slots: Vec<Slot>,
    aborted: Option<String>,
}
thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run::default());
    static EVENTS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
}
impl Run {
    fn find(&self, k: &Pubkey) -> Option<usize> {
        self.slots.iter().position(|s| s.key == *k)
    }
    fn current(&self, i: usize) -> Acc {
        let s = &self.slots[i];
        let info = s.info.as_ref().unwrap();
        Acc {
            lamports: **info.lamports.borrow(),
            data: info.data.borrow().to_vec(),
            owner: unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) },
            exec: s.exec,
        }
    }
    /// the runtime's verification of what `program` did to the accounts since the last synchronisation
    fn sync(&mut self, program: &Pubkey, writable: &dyn Fn(&Slot) -> bool) -> Result<(), String> {
        let mut sum: i128 = 0;
        let mut new = vec![];
        for i in 0..self.slots.len() {
            let s = &self.slots[i];
            let info = s.info.as_ref().unwrap();
            let owner = unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) };
            let lam = **info.lamports.borrow();
            let same = { s.shadow.data == **info.data.borrow() };
            if same && owner == s.shadow.owner && lam == s.shadow.lamports {
                continue;
            }
            if !writable(s) {
                return Err(format!("read-only account {} modified", s.key));
            }
            if s.exec {
                return Err("executable account modified".into());
            }
            if (!same || owner != s.shadow.owner || lam < s.shadow.lamports) && s.shadow.owner != *program {
                return Err(format!("account {} modified by a program that does not own it", s.key));
            }
            sum += lam as i128 - s.shadow.lamports as i128;
            new.push(i);
        }
        if sum != 0 {
            return Err("lamports created or destroyed".into());
        }
        for i in new {
            self.slots[i].shadow = self.current(i);
        }
        Ok(())
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, f: &[&[u8]]) {
        EVENTS.with(|e| e.borrow_mut().push(f.concat()));
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match invoke(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(m) => {
                RUN.with(|r| r.borrow_mut().aborted = Some(m));
                Err(ProgramError::Custom(0xdead))
            }
        }
    }
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
    let me = hmmcl_sandbox::ID;
    let mut callee: Vec<AccountInfo<'static>> = vec![];
    let mut wr: Vec<Pubkey> = vec![];
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        r.sync(&me, &|s| s.writable)?;
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &me).map_err(|e| format!("bad signer seeds: {:?}", e))?);
        }
        if !infos.iter().any(|i| *i.key == ix.program_id) && r.find(&ix.program_id).is_none() {
            return Err("called program missing".to_string());
        }
        match r.find(&ix.program_id) {
            Some(i) if r.slots[i].exec => {}
            _ => return Err(format!("{} is not a program given to the instruction", ix.program_id)),
        }
        for m in &ix.accounts {
            let i = r.find(&m.pubkey).ok_or_else(|| format!("account {} of the call was not given", m.pubkey))?;
            let s = &r.slots[i];
            if m.is_writable && !s.writable {
                return Err(format!("writable privilege escalated for {}", m.pubkey));
            }
            if m.is_signer && !s.signer && !pdas.contains(&m.pubkey) {
                return Err(format!("signer privilege escalated for {}", m.pubkey));
            }
            let mut a = s.info.clone().unwrap();
            a.is_signer = m.is_signer;
            a.is_writable = m.is_writable;
            if m.is_writable {
                wr.push(m.pubkey);
            }
            callee.push(a);
        }
        Ok(())
    })?;
    if ix.program_id == system_program::ID {
        system(ix, &callee)?;
    } else if ix.program_id == spl_token::ID {
        spl_token::processor::Processor::process(&spl_token::ID, &callee, &ix.data).map_err(|e| format!("token program: {:?}", e))?;
    } else {
        return Err("call to an unknown program".into());
    }
    RUN.with(|r| r.borrow_mut().sync(&ix.program_id, &|s| wr.contains(&s.key)))
}

fn set_owner(a: &AccountInfo, o: &Pubkey) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.find(a.key).unwrap();
        let p: *mut Pubkey = &mut *r.slots[i].owner;
        unsafe { std::ptr::write_volatile(p, *o) }
    })
}
fn get_owner(a: &AccountInfo) -> Pubkey {
    unsafe { std::ptr::read_volatile(a.owner as *const Pubkey) }
}
fn alloc(a: &AccountInfo<'static>, space: usize) -> Result<(), String> {
    if !a.is_signer {
        return Err("allocate without signature".into());
    }
    if !a.data.borrow().is_empty() || get_owner(a) != system_program::ID {
        return Err("account already in use".into());
    }
    if space > CAP {
        return Err("account too large".into());
    }
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.find(a.key).unwrap();
        let s = &mut r.slots[i];
        s.buf.clear();
        s.buf.resize(space, 0);
        let p = s.buf.as_mut_ptr();
        *a.data.borrow_mut() = unsafe { std::slice::from_raw_parts_mut(p, space) };
    });
    Ok(())
}
fn assign(a: &AccountInfo, owner: &Pubkey) -> Result<(), String> {
    if get_owner(a) == *owner {
        return Ok(());
    }
    if !a.is_signer || get_owner(a) != system_program::ID {
        return Err("assign without authority".into());
    }
    set_owner(a, owner);
    Ok(())
}
fn transfer(f: &AccountInfo, t: &AccountInfo, n: u64) -> Result<(), String> {
    if !f.is_signer {
        return Err("transfer without signature".into());
    }
    if !f.data.borrow().is_empty() {
        return Err("transfer from an account with data".into());
    }
    if f.lamports() < n {
        return Err("insufficient lamports".into());
    }
    **f.lamports.borrow_mut() -= n;
    **t.lamports.borrow_mut() += n;
    Ok(())
}
fn system(ix: &Instruction, a: &[AccountInfo<'static>]) -> Result<(), String> {
    let d = &ix.data;
    let u32_at = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
    let u64_at = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let key_at = |i: usize| Pubkey::new(&d[i..i + 32]);
    match u32_at(0) {
        0 => {
            let (lam, space, owner) = (u64_at(4), u64_at(12), key_at(20));
            if a[1].lamports() > 0 {
                return Err("account already in use".into());
            }
            alloc(&a[1], space as usize)?;
            assign(&a[1], &owner)?;
            transfer(&a[0], &a[1], lam)
        }
        1 => assign(&a[0], &key_at(4)),
        2 => transfer(&a[0], &a[1], u64_at(4)),
        8 => alloc(&a[0], u64_at(4) as usize),
        k => Err(format!("system instruction {} not supported", k)),
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
}

/// Runs one instruction of the program; on success the new world, on refusal the reason (the world is unchanged).
pub fn exec(w: &World, metas: &[AccountMeta], data: &[u8]) -> Result<World, String> {
    EVENTS.with(|e| e.borrow_mut().clear());
    let mut run = Run::default();
    for m in metas {
        if let Some(i) = run.find(&m.pubkey) {
            run.slots[i].signer |= m.is_signer;
            run.slots[i].writable |= m.is_writable;
            continue;
        }
        let a = w.get(&m.pubkey);
        let mut buf: Vec<u8> = if a.data.is_empty() { Vec::with_capacity(CAP) } else { Vec::with_capacity(a.data.len()) };
        buf.extend_from_slice(&a.data);
        run.slots.push(Slot {
            key: m.pubkey,
            owner: Box::new(a.owner),
            lamports: Box::new(a.lamports),
            buf,
            exec: a.exec,
            signer: m.is_signer,
            writable: m.is_writable,
            shadow: (*a).clone(),
            info: None,
        });
    }
    let keys: Vec<Box<Pubkey>> = run.slots.iter().map(|s| Box::new(s.key)).collect();
    for (s, k) in run.slots.iter_mut().zip(&keys) {
        // the boxes and buffers outlive every AccountInfo made from them (all are dropped below)
        let (key, owner, lam, data): (&'static Pubkey, &'static Pubkey, &'static mut u64, &'static mut [u8]) = unsafe {
            (
                &*(&**k as *const Pubkey),
                &*(&mut *s.owner as *mut Pubkey),
                &mut *(&mut *s.lamports as *mut u64),
                std::slice::from_raw_parts_mut(s.buf.as_mut_ptr(), s.buf.len()),
            )
        };
        s.info = Some(AccountInfo {
            key,
            is_signer: s.signer,
            is_writable: s.writable,
            lamports: Rc::new(RefCell::new(lam)),
            data: Rc::new(RefCell::new(data)),
            owner,
            executable: s.exec,
            rent_epoch: 0,
        });
    }
    let infos: Vec<AccountInfo<'static>> = metas.iter().map(|m| run.slots[run.find(&m.pubkey).unwrap()].info.clone().unwrap()).collect();
    RUN.with(|r| *r.borrow_mut() = run);
    let res = guard(|| hmmcl_sandbox::entry(&hmmcl_sandbox::ID, &infos, data));
    drop(infos);
    let out = RUN.with(|r| -> Result<World, String> {
        let mut r = r.borrow_mut();
        if let Some(m) = r.aborted.take() {
            return Err(m);
        }
        match res {
            Err(p) => return Err(format!("panic: {}", p)),
            Ok(Err(e)) => return Err(format!("{:?}", e)),
            Ok(Ok(())) => {}
        }
        r.sync(&hmmcl_sandbox::ID, &|s| s.writable)?;
        let mut n = w.clone();
        for s in &r.slots {
            if *w.get(&s.key) != s.shadow {
                n.put(s.key, s.shadow.clone());
            }
        }
        Ok(n)
    });
    let old = RUN.with(|r| std::mem::take(&mut *r.borrow_mut()));
    drop(old);
    drop(keys);
    out
}

/// events emitted by the last instruction
pub fn events() -> Vec<Vec<u8>> {
    EVENTS.with(|e| e.borrow().clone())
}
pub fn rent_account() -> Acc {
    // bincode of Rent: u64, f64, u8
    let r = Rent::default();
    let mut d = vec![];
    d.extend_from_slice(&r.lamports_per_byte_year.to_le_bytes());
    d.extend_from_slice(&r.exemption_threshold.to_le_bytes());
    d.push(r.burn_percent);
    Acc::owned(d, sysvar::ID)
}
pub fn program_account() -> Acc {
    Acc { lamports: 1, data: vec![1, 2, 3, 4], owner: Pubkey::new(&[9; 32]), exec: true }
}
use anchor_lang::solana_program::program_option::COption;
use anchor_lang::solana_program::program_pack::Pack;
use anchor_lang::{AccountDeserialize, AnchorDeserialize, Discriminator, InstructionData, ToAccountMetas};
use hmmcl_sandbox::constants::*;
use hmmcl_sandbox::state::fees::Fee;
use hmmcl_sandbox::state::pool_state::PoolState;
use hmmcl_sandbox::state::position_state::PositionState;
use hmmcl_sandbox::state::tick_bitmap::{PoolTickBitmap, TICK_BITMAP_SIZE};
use hmmcl_sandbox::state::tick_state::TickState;

pub type K = Pubkey;
const ID: K = hmmcl_sandbox::ID;

pub fn key(a: u8, b: u8) -> K {
    let mut k = [a; 32];
    k[1] = b;
    k[31] = a ^ b;
    Pubkey::new(&k)
}
#[derive(Clone, Debug)]
pub struct PoolK {
    pub lp: K,
    pub pool: K,
    pub bitmap: K,
    pub mx: K,
    pub my: K,
    pub vx: K,
    pub vy: K,
    pub lpv: K,
    pub cur: u64,
}
pub fn pda(seeds: &[&[u8]]) -> (K, u8) {
    Pubkey::find_program_address(seeds, &ID)
}
pub fn pool_k(lp: K, mx: K, my: K, cur: u64) -> PoolK {
    let pool = pda(&[POOL_STATE_SEED, lp.as_ref()]).0;
    PoolK {
        lp,
        pool,
        bitmap: pda(&[b"bitmap", pool.as_ref()]).0,
        mx,
        my,
        vx: pda(&[TOKEN_VAULT_SEED, mx.as_ref(), lp.as_ref()]).0,
        vy: pda(&[TOKEN_VAULT_SEED, my.as_ref(), lp.as_ref()]).0,
        lpv: pda(&[LP_TOKEN_VAULT_SEED, pool.as_ref(), lp.as_ref()]).0,
        cur,
    }
}
pub fn tick_k(p: &PoolK, t: u64) -> K {
    pda(&[b"tick", p.pool.as_ref(), &t.to_le_bytes()]).0
}
pub fn pos_k(p: &PoolK, user: &K, lo: u64, hi: u64) -> K {
    pda(&[b"position", p.pool.as_ref(), user.as_ref(), &lo.to_le_bytes(), &hi.to_le_bytes()]).0
}

#[derive(Clone, Debug)]
pub struct User {
    pub key: K,
    pub x: K,
    pub y: K,
    pub lp: K,
}
pub fn user(n: u8, pool: u8) -> User {
    User { key: key(20, n), x: key(21, n), y: key(22, n), lp: key(30 + pool, n) }
}
pub fn mint(authority: Option<K>, supply: u64) -> Acc {
    let mut d = vec![0; spl_token::state::Mint::LEN];
    let m = spl_token::state::Mint {
        mint_authority: authority.map(COption::Some).unwrap_or(COption::None),
        supply,
        decimals: 6,
        is_initialized: true,
        freeze_authority: COption::None,
    };
    spl_token::state::Mint::pack(m, &mut d).unwrap();
    Acc::owned(d, spl_token::ID)
}
pub fn token(mint: K, owner: K, amount: u64, delegate: Option<(K, u64)>) -> Acc {
    let mut d = vec![0; spl_token::state::Account::LEN];
    let a = spl_token::state::Account {
        mint,
        owner,
        amount,
        delegate: delegate.map(|x| COption::Some(x.0)).unwrap_or(COption::None),
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: delegate.map(|x| x.1).unwrap_or(0),
        close_authority: COption::None,
    };
    spl_token::state::Account::pack(a, &mut d).unwrap();
    Acc::owned(d, spl_token::ID)
}
pub fn tok(w: &World, k: &K) -> spl_token::state::Account {
    spl_token::state::Account::unpack(&w.get(k).data).unwrap()
}
pub fn bal(w: &World, k: &K) -> u64 {
    tok(w, k).amount
}
pub fn supply(w: &World, k: &K) -> u64 {
    spl_token::state::Mint::unpack(&w.get(k).data).unwrap().supply
}
pub fn rd<T: AccountDeserialize>(w: &World, k: &K) -> Option<T> {
    let a = w.get(k);
    if a.owner != ID {
        return None;
    }
    T::try_deserialize(&mut &a.data[..]).ok()
}
/// the bitmap's marks and its bump
pub fn rd_map(w: &World, k: &K) -> Option<(Vec<u8>, u8)> {
    let a = w.get(k);
    if a.owner != ID || a.data.len() < 8 + TICK_BITMAP_SIZE + 1 || a.data[..8] != PoolTickBitmap::discriminator() {
        return None;
    }
    Some((a.data[8..8 + TICK_BITMAP_SIZE].to_vec(), a.data[8 + TICK_BITMAP_SIZE]))
}

const AUTH: u8 = 1;
const PAYER: u8 = 2;
pub fn authority() -> K {
    key(10, AUTH)
}
pub fn payer() -> K {
    key(10, PAYER)
}
pub const LAM: u64 = 1_000_000_000_000;
pub fn base() -> World {
    install();
    let mut w = World::default();
    for k in [spl_token::ID, system_program::ID, ID] {
        w.put(k, program_account());
    }
    w.put(sysvar::rent::ID, rent_account());
    w.put(authority(), Acc::wallet(LAM));
    w.put(payer(), Acc::wallet(LAM));
    w
}

pub type Ix = (Vec<AccountMeta>, Vec<u8>);
pub fn ix_pool(p: &PoolK, auth: K, pay: K, rp: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::InitializePool {
        authority: auth,
        payer: pay,
        pool_state: p.pool,
        token_x_mint: p.mx,
        token_y_mint: p.my,
        lp_token_mint: p.lp,
        token_x_vault: p.vx,
        token_y_vault: p.vy,
        lp_token_vault: p.lpv,
        system_program: system_program::ID,
        token_program: spl_token::ID,
        rent: sysvar::rent::ID,
    };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::InitializePool { bootstrap_rp: rp, tick: p.cur }.data())
}
pub fn ix_bitmap(p: &PoolK, pay: K) -> Ix {
    let a = hmmcl_sandbox::accounts::InitializeBitmap { pool_state: p.pool, tick_bitmap: p.bitmap, payer: pay, system_program: system_program::ID };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::InitializeBitmap {}.data())
}
pub fn ix_tick(p: &PoolK, pay: K, t: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::InitializeTick { pool_state: p.pool, tick_state: tick_k(p, t), payer: pay, system_program: system_program::ID };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::InitializeTick { tick: t }.data())
}
pub fn ix_pos(p: &PoolK, u: K, pay: K, lo: u64, hi: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::CreatePosition {
        pool_state: p.pool,
        position_state: pos_k(p, &u, lo, hi),
        lower_tick_state: tick_k(p, lo),
        upper_tick_state: tick_k(p, hi),
        user: u,
        payer: pay,
        system_program: system_program::ID,
    };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::CreatePosition { lower_tick: lo, upper_tick: hi }.data())
}
pub fn ix_dep(p: &PoolK, u: &User, pay: K, lo: u64, hi: u64, cur: u64, x: u64, y: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::Deposit {
        pool_state: p.pool,
        tick_bitmap: p.bitmap,
        position_state: pos_k(p, &u.key, lo, hi),
        lower_tick_state: tick_k(p, lo),
        upper_tick_state: tick_k(p, hi),
        current_tick_state: tick_k(p, cur),
        lp_token_mint: p.lp,
        user_token_x: u.x,
        user_token_y: u.y,
        token_x_vault: p.vx,
        token_y_vault: p.vy,
        lp_token_vault: p.lpv,
        lp_token_to: u.lp,
        token_program: spl_token::ID,
        user: u.key,
        payer: pay,
    };
    (
        a.to_account_metas(None),
        hmmcl_sandbox::instruction::Deposit { lower_tick: lo, upper_tick: hi, current_tick: cur, token_x_amount: x, token_y_amount: y }.data(),
    )
}
pub fn ix_wd(p: &PoolK, u: &User, pay: K, lo: u64, hi: u64, cur: u64, n: u64) -> Ix {
    let a = hmmcl_sandbox::accounts::Withdraw {
        pool_state: p.pool,
        tick_bitmap: p.bitmap,
        position_state: pos_k(p, &u.key, lo, hi),
        lower_tick_state: tick_k(p, lo),
        upper_tick_state: tick_k(p, hi),
        current_tick_state: tick_k(p, cur),
        lp_token_mint: p.lp,
        user_token_x: u.x,
        user_token_y: u.y,
        token_x_vault: p.vx,
        token_y_vault: p.vy,
        lp_token_vault: p.lpv,
        lp_token_user_account: u.lp,
        token_program: spl_token::ID,
        user: u.key,
        payer: pay,
    };
    (a.to_account_metas(None), hmmcl_sandbox::instruction::Withdraw { lower_tick: lo, upper_tick: hi, current_tick: cur, lp_token_amount: n }.data())
}

/// a pool at tick `cur` with two users and initialised ticks and positions
pub struct Net { pub p: PoolK, pub u: Vec<User>, pub w: World }
pub fn net(cur: u64, pos: &[(usize, u64, u64)]) -> Net {
    let p = pool_k(key(1, 3), key(1, 1), key(1, 2), cur);
    let mut w = base();
    w.put(p.mx, mint(Some(authority()), 1 << 50));
    w.put(p.my, mint(Some(authority()), 1 << 50));
    w.put(p.lp, mint(Some(p.pool), 0));
    let u: Vec<User> = (0..2).map(|n| user(n, 0)).collect();
    for z in &u {
        w.put(z.key, Acc::wallet(LAM));
        w.put(z.x, token(p.mx, z.key, 1_000_000_000_000, None));
        w.put(z.y, token(p.my, z.key, 1_000_000_000_000, None));
        w.put(z.lp, token(p.lp, z.key, 0, None));
    }
    let mut n = Net { p, u, w };
    n.ok(ix_pool(&n.p, authority(), payer(), 0));
    n.ok(ix_bitmap(&n.p, payer()));
    let mut t: Vec<u64> = pos.iter().flat_map(|x| [x.1, x.2]).chain([cur]).collect();
    t.sort();
    t.dedup();
    for t in t { n.ok(ix_tick(&n.p, payer(), t)); }
    for x in pos { n.ok(ix_pos(&n.p, n.u[x.0].key, payer(), x.1, x.2)); }
    n
}
impl Net {
    /// runs an instruction that must be accepted
    pub fn ok(&mut self, i: Ix) { self.w = exec(&self.w, &i.0, &i.1).expect("instruction refused"); }
    pub fn run(&mut self, i: Ix) -> bool { match exec(&self.w, &i.0, &i.1) { Ok(w) => { self.w = w; true } Err(_) => false } }
    pub fn dep(&mut self, u: usize, lo: u64, hi: u64, x: u64, y: u64) -> bool { let i = ix_dep(&self.p, &self.u[u], payer(), lo, hi, self.p.cur, x, y); self.run(i) }
    pub fn wd(&mut self, u: usize, lo: u64, hi: u64, n: u64) -> bool { let i = ix_wd(&self.p, &self.u[u], payer(), lo, hi, self.p.cur, n); self.run(i) }
    pub fn pool(&self) -> PoolState { rd(&self.w, &self.p.pool).unwrap() }
    pub fn tick(&self, t: u64) -> TickState { rd(&self.w, &tick_k(&self.p, t)).unwrap() }
    pub fn pos(&self, u: usize, lo: u64, hi: u64) -> PositionState { rd(&self.w, &pos_k(&self.p, &self.u[u].key, lo, hi)).unwrap() }
}
