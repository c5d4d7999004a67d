//! A small Solana runtime: executes the real program entrypoint on a world of accounts, with the real
//! token program and a system program, under the runtime's rules (privileges, ownership, rollback).
use crate::fw::guard;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::account_info::AccountInfo;
use anchor_lang::solana_program::entrypoint::ProgramResult;
use anchor_lang::solana_program::instruction::{AccountMeta, Instruction};
use anchor_lang::solana_program::program_error::ProgramError;
use anchor_lang::solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use anchor_lang::solana_program::rent::Rent;
use anchor_lang::solana_program::{system_program, sysvar};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}
impl Acc {
    pub fn empty() -> Acc {
        Acc { lamports: 0, data: vec![], owner: system_program::ID, exec: false }
    }
    pub fn wallet(lamports: u64) -> Acc {
        Acc { lamports, ..Acc::empty() }
    }
    pub fn owned(data: Vec<u8>, owner: Pubkey) -> Acc {
        Acc { lamports: Rent::default().minimum_balance(data.len()), data, owner, exec: false }
    }
}
#[derive(Clone, Default)]
pub struct World(pub BTreeMap<Pubkey, Rc<Acc>>);
impl World {
    pub fn get(&self, k: &Pubkey) -> Rc<Acc> {
        self.0.get(k).cloned().unwrap_or_else(|| Rc::new(Acc::empty()))
    }
    pub fn put(&mut self, k: Pubkey, a: Acc) {
        self.0.insert(k, Rc::new(a));
    }
    /// keys whose accounts differ
    pub fn diff(&self, o: &World) -> Vec<Pubkey> {
        let mut v = vec![];
        for (k, a) in &self.0 {
            match o.0.get(k) {
                Some(b) if Rc::ptr_eq(a, b) || a == b => {}
                None if **a == Acc::empty() => {}
                _ => v.push(*k),
            }
        }
        for (k, b) in &o.0 {
            if !self.0.contains_key(k) && **b != Acc::empty() {
                v.push(*k);
            }
        }
        v
    }
}

const CAP: usize = 10_240;

struct Slot {
    key: Pubkey,
    owner: Box<Pubkey>,
    lamports: Box<u64>,
    buf: Vec<u8>,
    exec: bool,
    signer: bool,
    writable: bool,
    shadow: Acc,
    info: Option<AccountInfo<'static>>,
}
#[derive(Default)]
struct Run {
    slots: Vec<Slot>,
    aborted: Option<String>,
}
thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run::default());
    static EVENTS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
}
impl Run {
    fn find(&self, k: &Pubkey) -> Option<usize> {
        self.slots.iter().position(|s| s.key == *k)
    }
    fn current(&self, i: usize) -> Acc {
        let s = &self.slots[i];
        let info = s.info.as_ref().unwrap();
        Acc {
            lamports: **info.lamports.borrow(),
            data: info.data.borrow().to_vec(),
            owner: unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) },
            exec: s.exec,
        }
    }
    /// the runtime's verification of what `program` did to the accounts since the last synchronisation
    fn sync(&mut self, program: &Pubkey, writable: &dyn Fn(&Slot) -> bool) -> Result<(), String> {
        let mut sum: i128 = 0;
        let mut new = vec![];
        for i in 0..self.slots.len() {
            let s = &self.slots[i];
            let info = s.info.as_ref().unwrap();
            let owner = unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) };
            let lam = **info.lamports.borrow();
            let same = { s.shadow.data == **info.data.borrow() };
            if same && owner == s.shadow.owner && lam == s.shadow.lamports {
                continue;
            }
            if !writable(s) {
                return Err(format!("read-only account {} modified", s.key));
            }
            if s.exec {
                return Err("executable account modified".into());
            }
            if (!same || owner != s.shadow.owner || lam < s.shadow.lamports) && s.shadow.owner != *program {
                return Err(format!("account {} modified by a program that does not own it", s.key));
            }
            sum += lam as i128 - s.shadow.lamports as i128;
            new.push(i);
        }
        if sum != 0 {
            return Err("lamports created or destroyed".into());
        }
        for i in new {
            self.slots[i].shadow = self.current(i);
        }
        Ok(())
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, f: &[&[u8]]) {
        EVENTS.with(|e| e.borrow_mut().push(f.concat()));
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match invoke(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(m) => {
                RUN.with(|r| r.borrow_mut().aborted = Some(m));
                Err(ProgramError::Custom(0xdead))
            }
        }
    }
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
    let me = hmmcl_sandbox::ID;
    let mut callee: Vec<AccountInfo<'static>> = vec![];
    let mut wr: Vec<Pubkey> = vec![];
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        r.sync(&me, &|s| s.writable)?;
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &me).map_err(|e| format!("bad signer seeds: {:?}", e))?);
        }
        if !infos.iter().any(|i| *i.key == ix.program_id) && r.find(&ix.program_id).is_none() {
            return Err("called program missing".to_string());
        }
        match r.find(&ix.program_id) {
            Some(i) if r.slots[i].exec => {}
            _ => return Err(format!("{} is not a program given to the instruction", ix.program_id)),
        }
        for m in &ix.accounts {
            let i = r.find(&m.pubkey).ok_or_else(|| format!("account {} of the call was not given", m.pubkey))?;
            let s = &r.slots[i];
            if m.is_writable && !s.writable {
                return Err(format!("writable privilege escalated for {}", m.pubkey));
            }
            if m.is_signer && !s.signer && !pdas.contains(&m.pubkey) {
                return Err(format!("signer privilege escalated for {}", m.pubkey));
            }
            let mut a = s.info.clone().unwrap();
            a.is_signer = m.is_signer;
            a.is_writable = m.is_writable;
            if m.is_writable {
                wr.push(m.pubkey);
            }
            callee.push(a);
        }
        Ok(())
    })?;
    if ix.program_id == system_program::ID {
        system(ix, &callee)?;
    } else if ix.program_id == spl_token::ID {
        spl_token::processor::Processor::process(&spl_token::ID, &callee, &ix.data).map_err(|e| format!("token program: {:?}", e))?;
    } else {
        return Err("call to an unknown program".into());
    }
    RUN.with(|r| r.borrow_mut().sync(&ix.program_id, &|s| wr.contains(&s.key)))
}

fn set_owner(a: &AccountInfo, o: &Pubkey) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.find(a.key).unwrap();
        let p: *mut Pubkey = &mut *r.slots[i].owner;
        unsafe { std::ptr::write_volatile(p, *o) }
    })
}
fn get_owner(a: &AccountInfo) -> Pubkey {
    unsafe { std::ptr::read_volatile(a.owner as *const Pubkey) }
}
fn alloc(a: &AccountInfo<'static>, space: usize) -> Result<(), String> {
    if !a.is_signer {
        return Err("allocate without signature".into());
    }
    if !a.data.borrow().is_empty() || get_owner(a) != system_program::ID {
        return Err("account already in use".into());
    }
    if space > CAP {
        return Err("account too large".into());
    }
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.find(a.key).unwrap();
        let s = &mut r.slots[i];
        s.buf.clear();
        s.buf.resize(space, 0);
        let p = s.buf.as_mut_ptr();
        *a.data.borrow_mut() = unsafe { std::slice::from_raw_parts_mut(p, space) };
    });
    Ok(())
}
fn assign(a: &AccountInfo, owner: &Pubkey) -> Result<(), String> {
    if get_owner(a) == *owner {
        return Ok(());
    }
    if !a.is_signer || get_owner(a) != system_program::ID {
        return Err("assign without authority".into());
    }
    set_owner(a, owner);
    Ok(())
}
fn transfer(f: &AccountInfo, t: &AccountInfo, n: u64) -> Result<(), String> {
    if !f.is_signer {
        return Err("transfer without signature".into());
    }
    if !f.data.borrow().is_empty() {
        return Err("transfer from an account with data".into());
    }
    if f.lamports() < n {
        return Err("insufficient lamports".into());
    }
    **f.lamports.borrow_mut() -= n;
    **t.lamports.borrow_mut() += n;
    Ok(())
}
fn system(ix: &Instruction, a: &[AccountInfo<'static>]) -> Result<(), String> {
    let d = &ix.data;
    let u32_at = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
    let u64_at = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let key_at = |i: usize| Pubkey::new(&d[i..i + 32]);
    match u32_at(0) {
        0 => {
            let (lam, space, owner) = (u64_at(4), u64_at(12), key_at(20));
            if a[1].lamports() > 0 {
                return Err("account already in use".into());
            }
            alloc(&a[1], space as usize)?;
            assign(&a[1], &owner)?;
            transfer(&a[0], &a[1], lam)
        }
        1 => assign(&a[0], &key_at(4)),
        2 => transfer(&a[0], &a[1], u64_at(4)),
        8 => alloc(&a[0], u64_at(4) as usize),
        k => Err(format!("system instruction {} not supported", k)),
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
}

/// Runs one instruction of the program; on success the new world, on refusal the reason (the world is unchanged).
pub fn exec(w: &World, metas: &[AccountMeta], data: &[u8]) -> Result<World, String> {
    EVENTS.with(|e| e.borrow_mut().clear());
    let mut run = Run::default();
    for m in metas {
        if let Some(i) = run.find(&m.pubkey) {
            run.slots[i].signer |= m.is_signer;
            run.slots[i].writable |= m.is_writable;
            continue;
        }
        let a = w.get(&m.pubkey);
        let mut buf: Vec<u8> = if a.data.is_empty() { Vec::with_capacity(CAP) } else { Vec::with_capacity(a.data.len()) };
        buf.extend_from_slice(&a.data);
        run.slots.push(Slot {
            key: m.pubkey,
            owner: Box::new(a.owner),
            lamports: Box::new(a.lamports),
            buf,
            exec: a.exec,
            signer: m.is_signer,
            writable: m.is_writable,
            shadow: (*a).clone(),
            info: None,
        });
    }
    let keys: Vec<Box<Pubkey>> = run.slots.iter().map(|s| Box::new(s.key)).collect();
    for (s, k) in run.slots.iter_mut().zip(&keys) {
        // the boxes and buffers outlive every AccountInfo made from them (all are dropped below)
        let (key, owner, lam, data): (&'static Pubkey, &'static Pubkey, &'static mut u64, &'static mut [u8]) = unsafe {
            (
                &*(&**k as *const Pubkey),
                &*(&mut *s.owner as *mut Pubkey),
                &mut *(&mut *s.lamports as *mut u64),
                std::slice::from_raw_parts_mut(s.buf.as_mut_ptr(), s.buf.len()),
            )
        };
        s.info = Some(AccountInfo {
            key,
            is_signer: s.signer,
            is_writable: s.writable,
            lamports: Rc::new(RefCell::new(lam)),
            data: Rc::new(RefCell::new(data)),
            owner,
            executable: s.exec,
            rent_epoch: 0,
        });
    }
    let infos: Vec<AccountInfo<'static>> = metas.iter().map(|m| run.slots[run.find(&m.pubkey).unwrap()].info.clone().unwrap()).collect();
    RUN.with(|r| *r.borrow_mut() = run);
    let res = guard(|| hmmcl_sandbox::entry(&hmmcl_sandbox::ID, &infos, data));
    drop(infos);
    let out = RUN.with(|r| -> Result<World, String> {
        let mut r = r.borrow_mut();
        if let Some(m) = r.aborted.take() {
            return Err(m);
        }
        match res {
            Err(p) => return Err(format!("panic: {}", p)),
            Ok(Err(e)) => return Err(format!("{:?}", e)),
            Ok(Ok(())) => {}
        }
        r.sync(&hmmcl_sandbox::ID, &|s| s.writable)?;
        let mut n = w.clone();
        for s in &r.slots {
            if *w.get(&s.key) != s.shadow {
                n.put(s.key, s.shadow.clone());
            }
        }
        Ok(n)
    });
    let old = RUN.with(|r| std::mem::take(&mut *r.borrow_mut()));
    drop(old);
    drop(keys);
    out
}

/// events emitted by the last instruction
pub fn events() -> Vec<Vec<u8>> {
    EVENTS.with(|e| e.borrow().clone())
}
pub fn rent_account() -> Acc {
    // bincode of Rent: u64, f64, u8
    let r = Rent::default();
    let mut d = vec![];
    d.extend_from_slice(&r.lamports_per_byte_year.to_le_bytes());
    d.extend_from_slice(&r.exemption_threshold.to_le_bytes());
    d.push(r.burn_percent);
    Acc::owned(d, sysvar::ID)
}
pub fn program_account() -> Acc {
    Acc { lamports: 1, data: vec![1, 2, 3, 4], owner: Pubkey::new(&[9; 32]), exec: true }
}
