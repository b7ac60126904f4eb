//! A tiny single-threaded runtime: one transaction = one instruction of the program
//! under test; system, token (real spl-token code) and associated-token programs.
#![allow(dead_code, clippy::missing_safety_doc)]
use pinocchio::account_info::AccountInfo;
use std::alloc::{alloc_zeroed, dealloc, Layout};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Key = [u8; 32];
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Key,
    pub data: Vec<u8>,
    pub executable: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub key: Key,
    pub s: bool,
    pub w: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Panic(String),
    /// The program's error (u64 encoding).
    Program(u64),
    /// A called program failed, which aborts the transaction.
    Cpi(String),
    /// Memory that is not account contents was altered.
    Corrupt(String),
    /// The result breaks a runtime rule.
    Runtime(String),
}
impl Fail {
    pub fn code(&self) -> Option<u32> {
        match self {
            Fail::Program(c) if *c <= u32::MAX as u64 && *c > 0 => Some(*c as u32),
            _ => None,
        }
    }
}
#[derive(Clone, Default)]
pub struct Svm {
    pub accts: BTreeMap<Key, Acct>,
    pub now: i64,
    /// Data records of the last transaction.
    pub records: Vec<Vec<u8>>,
    /// Within a transaction accounts without lamports are kept until its end.
    pub hold: bool,
}

/// Base58, at compile time.
pub const fn key(s: &str) -> Key {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let s = s.as_bytes();
    let mut out = [0u8; 32];
    let mut i = 0;
    while i < s.len() {
        let mut carry = 0;
        while A[carry] != s[i] {
            carry += 1;
        }
        let mut j = 32;
        while j > 0 {
            j -= 1;
            carry += out[j] as usize * 58;
            out[j] = carry as u8;
            carry >>= 8;
        }
        assert!(carry == 0);
        i += 1;
    }
    out
}
pub fn program() -> Key {
    const K: Key = key("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT");
    K
}
pub const SYSTEM: Key = [0; 32];
pub fn token() -> Key {
    const K: Key = key("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
    K
}
pub fn ata_program() -> Key {
    const K: Key = key("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
    K
}
pub fn orca() -> Key {
    const K: Key = key("orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE");
    K
}
pub fn xorca() -> Key {
    const K: Key = key("xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N");
    K
}
pub use real::{create_pda, find, mint_data, sha256, token_data};
/// Derivation, hashing and the token program, as on chain.
#[cfg(not(feature = "light"))]
mod real {
    use super::{Acct, Key};
    use spl_token::solana_program::account_info::AccountInfo as SAccountInfo;
    use spl_token::solana_program::program_pack::Pack;
    use spl_token::solana_program::pubkey::Pubkey as SPubkey;
    use spl_token::state as tok;
    pub fn find(seeds: &[&[u8]], p: &Key) -> (Key, u8) {
        let (k, b) = SPubkey::find_program_address(seeds, &SPubkey::from(*p));
        (k.to_bytes(), b)
    }
    pub fn create_pda(seeds: &[&[u8]], p: &Key) -> Option<Key> {
        SPubkey::create_program_address(seeds, &SPubkey::from(*p)).ok().map(|k| k.to_bytes())
    }
    pub fn sha256(v: &[&[u8]]) -> Key {
        spl_token::solana_program::hash::hashv(v).to_bytes()
    }
    pub fn token_process(store: &mut [(Key, Acct, bool, bool)], idx: &[usize], data: &[u8]) -> Result<(), String> {
        let keys: Vec<SPubkey> = store.iter().map(|x| SPubkey::from(x.0)).collect();
        let owners: Vec<SPubkey> = store.iter().map(|x| SPubkey::from(x.1.owner)).collect();
        let uniq: Vec<SAccountInfo> = store
            .iter_mut()
            .enumerate()
            .map(|(i, x)| SAccountInfo::new(&keys[i], x.2, x.3, &mut x.1.lamports, &mut x.1.data, &owners[i], false, 0))
            .collect();
        let infos: Vec<SAccountInfo> = idx.iter().map(|i| uniq[*i].clone()).collect();
        spl_token::processor::Processor::process(&spl_token::ID, &infos, data).map_err(|e| format!("token program: {e:?}"))
    }
    pub fn token_data(mint: &Key, owner: &Key, amount: u64) -> Vec<u8> {
        let mut d = vec![0; 165];
        tok::Account {
            mint: (*mint).into(),
            owner: (*owner).into(),
            amount,
            state: tok::AccountState::Initialized,
            ..Default::default()
        }
        .pack_into_slice(&mut d);
        d
    }
    pub fn mint_data(authority: &Key, supply: u64) -> Vec<u8> {
        let mut d = vec![0; 82];
        tok::Mint {
            mint_authority: Some(SPubkey::from(*authority)).into(),
            supply,
            decimals: 6,
            is_initialized: true,
            freeze_authority: None.into(),
        }
        .pack_into_slice(&mut d);
        d
    }
}
#[cfg(feature = "light")]
#[path = "light.rs"]
mod real;
pub fn rent(len: usize) -> u64 {
    (len as u64 + 128) * 6960
}

// ------------------------------------------------------------ account memory

/// Program-visible memory of one account: the 88-byte header of the runtime's
/// input format, then exactly the data (room to grow only where it may be created).
struct Mem {
    p: *mut u8,
    layout: Layout,
}
const HEAD: usize = 88;
impl Mem {
    fn new(k: &Key, a: &Acct, s: bool, w: bool) -> Mem {
        let room = if a.data.is_empty() && a.owner == SYSTEM && w { 10_240 } else { 0 };
        let layout = Layout::from_size_align(HEAD + a.data.len() + room, 8).unwrap();
        unsafe {
            let p = alloc_zeroed(layout);
            *p = 0xff;
            *p.add(1) = s as u8;
            *p.add(2) = w as u8;
            *p.add(3) = a.executable as u8;
            std::ptr::copy_nonoverlapping(k.as_ptr(), p.add(8), 32);
            std::ptr::copy_nonoverlapping(a.owner.as_ptr(), p.add(40), 32);
            *(p.add(72) as *mut u64) = a.lamports;
            *(p.add(80) as *mut u64) = a.data.len() as u64;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(HEAD), a.data.len());
            Mem { p, layout }
        }
    }
    fn read(&self) -> Acct {
        unsafe {
            let n = *(self.p.add(80) as *const u64) as usize;
            // a wild length is reported by `intact`
            let n = n.min(self.layout.size() - HEAD);
            Acct {
                lamports: *(self.p.add(72) as *const u64),
                owner: *(self.p.add(40) as *const Key),
                data: std::slice::from_raw_parts(self.p.add(HEAD), n).to_vec(),
                executable: *self.p.add(3) != 0,
            }
        }
    }
    /// Header fields no program may change, the length within its room, no
    /// borrow left open and nothing written behind the data.
    fn intact(&self, k: &Key, s: bool, w: bool, done: bool) -> Result<(), String> {
        unsafe {
            let h = std::slice::from_raw_parts(self.p, HEAD);
            let n = *(self.p.add(80) as *const u64) as usize;
            if HEAD + n > self.layout.size() {
                return Err("length field of an account beyond its memory".into());
            }
            if h[1] != s as u8 || h[2] != w as u8 || h[8..40] != k[..] {
                return Err("header of an account overwritten".into());
            }
            if done && h[0] != 0xff {
                return Err(format!("a borrow of account data was left open ({:#x})", h[0]));
            }
        }
        Ok(())
    }
    fn write(&self, a: &Acct) -> Result<(), String> {
        if HEAD + a.data.len() > self.layout.size() {
            return Err("account grew beyond its room".into());
        }
        unsafe {
            *(self.p.add(72) as *mut u64) = a.lamports;
            *(self.p.add(40) as *mut Key) = a.owner;
            *(self.p.add(80) as *mut u64) = a.data.len() as u64;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), self.p.add(HEAD), a.data.len());
        }
        Ok(())
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        unsafe { dealloc(self.p, self.layout) }
    }
}

#[derive(Default)]
struct Run {
    /// Key, memory address and privileges of the accounts of the running transaction.
    mems: Vec<(Key, usize, usize)>,
    now: i64,
    records: Vec<Vec<u8>>,
    failed: Option<String>,
}
thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()); }

impl Svm {
    pub fn get(&self, k: &Key) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn exec(
        &mut self,
        entry: fn(&Key, &[AccountInfo], &[u8]) -> pinocchio::ProgramResult,
        metas: &[Meta],
        data: &[u8],
    ) -> Result<(), Fail> {
        // privileges of one account are the union over the transaction's metas
        let mut privs: BTreeMap<Key, (bool, bool)> = BTreeMap::new();
        for m in metas {
            let e = privs.entry(m.key).or_default();
            e.0 |= m.s;
            e.1 |= m.w;
        }
        let mems: BTreeMap<Key, Mem> =
            privs.iter().map(|(k, (s, w))| (*k, Mem::new(k, &self.get(k), *s, *w))).collect();
        let data = data.to_vec().into_boxed_slice();
        let ptrs: Vec<*mut u8> = metas.iter().map(|m| mems[&m.key].p).collect();
        let infos: &[AccountInfo] =
            unsafe { std::slice::from_raw_parts(ptrs.as_ptr() as *const AccountInfo, ptrs.len()) };
        RUN.with(|r| {
            *r.borrow_mut() = Run {
                mems: mems.iter().map(|(k, m)| (*k, m.p as usize, m.layout.size())).collect(),
                now: self.now,
                ..Default::default()
            }
        });
        let res = catch_unwind(AssertUnwindSafe(|| entry(&program(), infos, &data)));
        let run = RUN.with(|r| std::mem::take(&mut *r.borrow_mut()));
        self.records.clear();
        for (k, m) in &mems {
            let (s, w) = privs[k];
            m.intact(k, s, w, matches!(res, Ok(Ok(())))).map_err(Fail::Corrupt)?;
        }
        if let Some(e) = run.failed {
            return Err(Fail::Cpi(e));
        }
        match res {
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                return Err(Fail::Panic(m.unwrap_or_default()));
            }
            Ok(Err(e)) => return Err(Fail::Program(e.into())),
            Ok(Ok(())) => {}
        }
        let (mut a, mut b) = (0u128, 0u128);
        let mut new = vec![];
        for (k, m) in &mems {
            let (old, now) = (self.get(k), m.read());
            a += old.lamports as u128;
            b += now.lamports as u128;
            if old == now {
                continue;
            }
            let w = privs[k].1;
            let e = if !w {
                Some("a read-only account was modified")
            } else if now.lamports > 0 && !now.data.is_empty() && now.lamports < rent(now.data.len()) {
                Some("an account fell below rent exemption")
            } else {
                None
            };
            if let Some(e) = e {
                return Err(Fail::Runtime(e.into()));
            }
            new.push((*k, now));
        }
        if a != b {
            return Err(Fail::Runtime(format!("lamports not conserved: {a} became {b}")));
        }
        for (k, now) in new {
            if now.lamports == 0 && !self.hold {
                self.accts.remove(&k);
            } else {
                self.accts.insert(k, now);
            }
        }
        self.records = run.records;
        Ok(())
    }
}

// -------------------------------------------------------- called programs

fn call(pid: &Key, metas: &[(Key, bool, bool)], data: &[u8]) -> Result<(), String> {
    let mems: Vec<(Key, usize, usize)> = RUN.with(|r| r.borrow().mems.clone());
    let mem = |k: &Key| -> Result<std::mem::ManuallyDrop<Mem>, String> {
        let m = mems.iter().find(|m| m.0 == *k).ok_or("account not passed to the transaction")?;
        Ok(std::mem::ManuallyDrop::new(Mem { p: m.1 as *mut u8, layout: Layout::from_size_align(m.2, 8).unwrap() }))
    };
    if !mems.iter().any(|m| m.0 == *pid) {
        return Err("called program not passed to the transaction".into());
    }
    let u64at = |o: usize| -> Result<u64, String> {
        data.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).ok_or("short data".to_string())
    };
    let keyat = |o: usize| -> Result<Key, String> {
        data.get(o..o + 32).map(|b| b.try_into().unwrap()).ok_or("short data".to_string())
    };
    let m = |i: usize| metas.get(i).copied().ok_or("missing account".to_string());
    if *pid == SYSTEM {
        let kind = u32::from_le_bytes(data.get(..4).ok_or("short data")?.try_into().unwrap());
        let transfer = |f: (Key, bool, bool), t: (Key, bool, bool), n: u64| -> Result<(), String> {
            if !f.1 || !f.2 || !t.2 {
                return Err("transfer without privileges".into());
            }
            if f.0 == t.0 {
                return Ok(());
            }
            let (fm, tm) = (mem(&f.0)?, mem(&t.0)?);
            let (mut fa, mut ta) = (fm.read(), tm.read());
            if fa.owner != SYSTEM || !fa.data.is_empty() {
                return Err("transfer from an account with data or another owner".into());
            }
            fa.lamports = fa.lamports.checked_sub(n).ok_or("insufficient lamports")?;
            ta.lamports = ta.lamports.checked_add(n).ok_or("overflow")?;
            fm.write(&fa)?;
            tm.write(&ta)
        };
        let allocate = |t: (Key, bool, bool), n: u64| -> Result<(), String> {
            let tm = mem(&t.0)?;
            let mut a = tm.read();
            if !t.1 || !t.2 || !a.data.is_empty() || a.owner != SYSTEM || n > 10_240 {
                return Err("allocate refused".into());
            }
            a.data = vec![0; n as usize];
            tm.write(&a)
        };
        let assign = |t: (Key, bool, bool), o: Key| -> Result<(), String> {
            let tm = mem(&t.0)?;
            let mut a = tm.read();
            if a.owner == o {
                return Ok(());
            }
            if !t.1 || !t.2 || a.owner != SYSTEM {
                return Err("assign refused".into());
            }
            a.owner = o;
            tm.write(&a)
        };
        return match kind {
            0 => {
                if mem(&m(1)?.0)?.read().lamports > 0 {
                    return Err("account already in use".into());
                }
                if !m(1)?.1 {
                    return Err("new account must sign".into());
                }
                allocate(m(1)?, u64at(12)?)?;
                assign(m(1)?, keyat(20)?)?;
                transfer(m(0)?, m(1)?, u64at(4)?)
            }
            1 => assign(m(0)?, keyat(4)?),
            2 => transfer(m(0)?, m(1)?, u64at(4)?),
            8 => allocate(m(0)?, u64at(4)?),
            _ => Err("unsupported system instruction".into()),
        };
    }
    if *pid == token() {
        let mut store: Vec<(Key, Acct, bool, bool)> = vec![];
        let mut idx = vec![];
        for (k, s, w) in metas {
            match store.iter().position(|x| x.0 == *k) {
                Some(i) => {
                    store[i].2 |= s;
                    store[i].3 |= w;
                    idx.push(i);
                }
                None => {
                    idx.push(store.len());
                    store.push((*k, mem(k)?.read(), *s, *w));
                }
            }
        }
        let before: Vec<Acct> = store.iter().map(|x| x.1.clone()).collect();
        real::token_process(&mut store, &idx, data)?;
        for (i, x) in store.iter().enumerate() {
            if x.1 != before[i] {
                if !x.3 || x.1.owner != token() {
                    return Err("token program changed a read-only or foreign account".into());
                }
                mem(&x.0)?.write(&x.1)?;
            }
        }
        return Ok(());
    }
    if *pid == ata_program() {
        let (payer, at, wallet, mint) = (m(0)?, m(1)?, m(2)?, m(3)?);
        if at.0 != find(&[&wallet.0, &token(), &mint.0], &ata_program()).0 {
            return Err("wrong associated address".into());
        }
        let am = mem(&at.0)?;
        let mut a = am.read();
        if a.owner == token() {
            let good = a.data.len() == 165 && a.data[108] == 1 && a.data[..32] == mint.0 && a.data[32..64] == wallet.0;
            return if data == [1] && good { Ok(()) } else { Err("bad existing token account".into()) };
        }
        let pm = mem(&payer.0)?;
        let mut p = pm.read();
        if a.owner != SYSTEM || !payer.1 || !payer.2 || !at.2 {
            return Err("associated account refused".into());
        }
        let need = rent(165).saturating_sub(a.lamports);
        p.lamports = p.lamports.checked_sub(need).ok_or("insufficient lamports")?;
        a.lamports += need;
        a.owner = token();
        a.data = token_data(&mint.0, &wallet.0, 0);
        pm.write(&p)?;
        return am.write(&a);
    }
    Err("unknown program".into())
}

// ---------------------------------------------------------------- syscalls

unsafe fn slices<'a>(addr: *const u8, n: u64) -> Vec<&'a [u8]> {
    let p = addr as *const (*const u8, u64);
    (0..n as usize)
        .map(|i| {
            let (a, l) = *p.add(i);
            if l == 0 { &[][..] } else { std::slice::from_raw_parts(a, l as usize) }
        })
        .collect()
}
#[repr(C)]
struct CIx {
    program_id: *const Key,
    accounts: *const CMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CMeta {
    pubkey: *const Key,
    is_writable: bool,
    is_signer: bool,
}
#[no_mangle]
pub unsafe extern "C" fn sol_invoke_signed_c(ix: *const u8, _infos: *const u8, _n: u64, signers: *const u8, sn: u64) -> u64 {
    if RUN.with(|r| r.borrow().failed.is_some()) {
        return 1;
    }
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let ix = &*(ix as *const CIx);
        let mut pdas = vec![];
        for i in 0..sn as usize {
            let (p, l) = *(signers as *const (*const u8, u64)).add(i);
            pdas.push(create_pda(&slices(p, l), &program()).ok_or("invalid seeds")?);
        }
        let mut metas = vec![];
        for i in 0..ix.accounts_len as usize {
            let m = &*ix.accounts.add(i);
            let k = *m.pubkey;
            let mem = RUN.with(|r| r.borrow().mems.iter().find(|x| x.0 == k).map(|x| x.1 as *const u8));
            let mem = mem.ok_or("account not passed to the transaction")?;
            if m.is_signer && *mem.add(1) == 0 && !pdas.contains(&k) {
                return Err("signature escalated".into());
            }
            if m.is_writable && *mem.add(2) == 0 {
                return Err("write privilege escalated".into());
            }
            metas.push((k, m.is_signer, m.is_writable));
        }
        let data = std::slice::from_raw_parts(ix.data, ix.data_len as usize).to_vec();
        call(&*ix.program_id, &metas, &data)
    }));
    let r = r.unwrap_or_else(|_| Err("called program panicked".into()));
    match r {
        Ok(()) => 0,
        Err(e) => {
            RUN.with(|r| r.borrow_mut().failed = Some(e));
            1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_log_(_: *const u8, _: u64) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_data(d: *const u8, n: u64) {
    let v = slices(d, n).concat();
    RUN.with(|r| r.borrow_mut().records.push(v));
}
#[no_mangle]
pub unsafe extern "C" fn sol_create_program_address(s: *const u8, n: u64, p: *const u8, out: *mut u8) -> u64 {
    match create_pda(&slices(s, n), &*(p as *const Key)) {
        Some(k) => {
            std::ptr::copy_nonoverlapping(k.as_ptr(), out, 32);
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_try_find_program_address(s: *const u8, n: u64, p: *const u8, out: *mut u8, bump: *mut u8) -> u64 {
    let seeds = slices(s, n);
    if seeds.len() > 15 || seeds.iter().any(|x| x.len() > 32) {
        return 1;
    }
    let (k, b) = find(&seeds, &*(p as *const Key));
    std::ptr::copy_nonoverlapping(k.as_ptr(), out, 32);
    *bump = b;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_sha256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = sha256(&slices(v, n));
    std::ptr::copy_nonoverlapping(h.as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_keccak256(_: *const u8, _: u64, _: *mut u8) -> u64 { 1 }
#[no_mangle]
pub unsafe extern "C" fn sol_blake3(_: *const u8, _: u64, _: *mut u8) -> u64 { 1 }
fn clock() -> Vec<u8> {
    let mut b = vec![0u8; 32];
    b[0] = 1;
    b.extend(RUN.with(|r| r.borrow().now).to_le_bytes());
    b
}
fn rent_bytes() -> Vec<u8> {
    let mut b = 3480u64.to_le_bytes().to_vec();
    b.extend(2f64.to_le_bytes());
    b.push(50);
    b
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_clock_sysvar(o: *mut u8) -> u64 {
    std::ptr::copy_nonoverlapping(clock().as_ptr(), o, 40);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_rent_sysvar(o: *mut u8) -> u64 {
    std::ptr::copy_nonoverlapping(rent_bytes().as_ptr(), o, 17);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_sysvar(id: *const u8, o: *mut u8, off: u64, len: u64) -> u64 {
    let id = *(id as *const Key);
    const CLOCK: Key = key("SysvarC1ock11111111111111111111111111111111");
    const RENT: Key = key("SysvarRent111111111111111111111111111111111");
    let b = if id == CLOCK {
        clock()
    } else if id == RENT {
        rent_bytes()
    } else {
        return 2;
    };
    match b.get(off as usize..(off + len) as usize) {
        Some(s) => {
            std::ptr::copy_nonoverlapping(s.as_ptr(), o, s.len());
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy_nonoverlapping(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    let (a, b) = (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize));
    *r = a.iter().zip(b).find(|(x, y)| x != y).map_or(0, |(x, y)| *x as i32 - *y as i32);
}
#[no_mangle]
pub unsafe extern "C" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_set_return_data(_: *const u8, _: u64) {}
#[no_mangle]
pub unsafe extern "C" fn sol_get_return_data(_: *mut u8, _: u64, _: *mut u8) -> u64 { 0 }
#[no_mangle]
pub unsafe extern "C" fn sol_get_stack_height() -> u64 { 1 }
#[no_mangle]
pub unsafe extern "C" fn sol_remaining_compute_units() -> u64 { 200_000 }

// --------------------------------------------------- the staking pool on top

pub const FUND: u64 = 100_000_000_000;
pub fn state_pda() -> (Key, u8) {
    find(&[b"state"], &program())
}
pub fn state() -> Key {
    state_pda().0
}
pub fn ata(owner: &Key, mint: &Key) -> Key {
    find(&[owner, &token(), mint], &ata_program()).0
}
pub fn vault() -> Key {
    ata(&state(), &orca())
}
pub fn pending(u: &Key, i: u8) -> Key {
    find(&[b"pending_withdraw", u, &[i]], &program()).0
}
fn met(k: Key, f: &str) -> Meta {
    Meta { key: k, s: f.contains('s'), w: f.contains('w') }
}
pub fn user(n: u8) -> Key {
    let mut k = [0x11; 32];
    k[0] = n;
    k[31] = 7;
    k
}
/// A claim as recorded: (amount, maturity).
pub type Claim = (u64, i64);

pub struct Pool {
    pub svm: Svm,
    pub entry: fn(&Key, &[AccountInfo], &[u8]) -> pinocchio::ProgramResult,
}
impl Pool {
    pub fn new(
        entry: fn(&Key, &[AccountInfo], &[u8]) -> pinocchio::ProgramResult,
        authority: Key,
        cooldown: i64,
        vault_orca: u64,
        supply: u64,
        escrow: u64,
    ) -> Pool {
        let mut svm = Svm { now: 1_700_000_000, ..Default::default() };
        let (st, bump) = state_pda();
        let vb = find(&[&st, &token(), &orca()], &ata_program()).1;
        let mut d = vec![0u8; 2048];
        d[0] = 1;
        d[6] = bump;
        d[7] = vb;
        d[8..16].copy_from_slice(&escrow.to_le_bytes());
        d[16..24].copy_from_slice(&cooldown.to_le_bytes());
        d[24..56].copy_from_slice(&authority);
        svm.accts.insert(st, Acct { lamports: rent(2048), owner: program(), data: d, executable: false });
        svm.accts.insert(orca(), Acct { lamports: rent(82), owner: token(), data: mint_data(&[9; 32], u64::MAX), executable: false });
        for p in [SYSTEM, token(), ata_program()] {
            svm.accts.insert(p, Acct { lamports: 1, owner: [1; 32], data: vec![], executable: true });
        }
        let mut p = Pool { svm, entry };
        p.set_supply(supply);
        p.set_token(vault(), orca(), state(), vault_orca);
        p.fund(authority, FUND);
        p
    }
    pub fn fund(&mut self, k: Key, l: u64) {
        let mut a = self.svm.get(&k);
        a.lamports += l;
        self.svm.accts.insert(k, a);
    }
    pub fn set_supply(&mut self, s: u64) {
        self.svm.accts.insert(xorca(), Acct { lamports: rent(82), owner: token(), data: mint_data(&state(), s), executable: false });
    }
    pub fn set_token(&mut self, at: Key, mint: Key, owner: Key, n: u64) {
        self.svm.accts.insert(at, Acct { lamports: rent(165), owner: token(), data: token_data(&mint, &owner, n), executable: false });
    }
    pub fn add_user(&mut self, u: Key, o: u64, x: u64) {
        self.fund(u, FUND);
        self.set_token(ata(&u, &orca()), orca(), u, o);
        self.set_token(ata(&u, &xorca()), xorca(), u, x);
    }
    fn u64at(&self, k: &Key, o: usize) -> u64 {
        self.svm.accts.get(k).and_then(|a| a.data.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0)
    }
    pub fn tokens(&self, k: &Key) -> u64 { self.u64at(k, 64) }
    pub fn supply(&self) -> u64 { self.u64at(&xorca(), 36) }
    pub fn vault_orca(&self) -> u64 { self.tokens(&vault()) }
    pub fn escrow(&self) -> u64 { self.u64at(&state(), 8) }
    pub fn cooldown(&self) -> i64 { self.u64at(&state(), 16) as i64 }
    pub fn authority(&self) -> Key { self.svm.get(&state()).data[24..56].try_into().unwrap() }
    pub fn orca_of(&self, u: &Key) -> u64 { self.tokens(&ata(u, &orca())) }
    pub fn xorca_of(&self, u: &Key) -> u64 { self.tokens(&ata(u, &xorca())) }
    pub fn claim(&self, u: &Key, i: u8) -> Option<Claim> {
        let k = pending(u, i);
        let a = self.svm.accts.get(&k)?;
        if a.owner != program() || a.data.first() != Some(&2) {
            return None;
        }
        Some((self.u64at(&k, 40), self.u64at(&k, 48) as i64))
    }
    pub fn run(&mut self, metas: &[Meta], data: &[u8]) -> Result<(), Fail> {
        self.svm.exec(self.entry, metas, data)
    }
    pub fn stake_metas(&self, u: &Key) -> Vec<Meta> {
        vec![met(*u, "sw"), met(vault(), "w"), met(ata(u, &orca()), "w"), met(ata(u, &xorca()), "w"), met(xorca(), "w"), met(state(), ""), met(orca(), ""), met(token(), "")]
    }
    pub fn stake(&mut self, u: &Key, a: u64) -> Result<(), Fail> {
        let m = self.stake_metas(u);
        self.run(&m, &[&[0u8][..], &a.to_le_bytes()].concat())
    }
    pub fn unstake_metas(&self, u: &Key, i: u8) -> Vec<Meta> {
        vec![met(*u, "sw"), met(state(), "w"), met(pending(u, i), "w"), met(ata(u, &xorca()), "w"), met(xorca(), "w"), met(orca(), ""), met(vault(), ""), met(SYSTEM, ""), met(token(), "")]
    }
    pub fn unstake(&mut self, u: &Key, x: u64, i: u8) -> Result<(), Fail> {
        let m = self.unstake_metas(u, i);
        self.run(&m, &[&[1u8][..], &x.to_le_bytes(), &[i]].concat())
    }
    pub fn withdraw_metas(&self, u: &Key, i: u8) -> Vec<Meta> {
        vec![met(*u, "sw"), met(state(), "w"), met(pending(u, i), "w"), met(ata(u, &orca()), "w"), met(vault(), "w"), met(orca(), ""), met(SYSTEM, ""), met(token(), "")]
    }
    pub fn withdraw(&mut self, u: &Key, i: u8) -> Result<(), Fail> {
        let m = self.withdraw_metas(u, i);
        self.run(&m, &[2, i])
    }
    pub fn set_cooldown_metas(&self, by: &Key) -> Vec<Meta> {
        vec![met(*by, "sw"), met(state(), "w")]
    }
    pub fn set_cooldown(&mut self, by: &Key, v: i64) -> Result<(), Fail> {
        self.run(&[met(*by, "sw"), met(state(), "w")], &[&[4u8, 0][..], &v.to_le_bytes()].concat())
    }
    pub fn set_authority(&mut self, by: &Key, new: &Key) -> Result<(), Fail> {
        self.run(&[met(*by, "sw"), met(state(), "w")], &[&[4u8, 1][..], new].concat())
    }
}
pub fn deployer() -> Key {
    const K: Key = key("94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT");
    K
}
pub fn initialize_metas(authority: &Key) -> Vec<Meta> {
    vec![met(deployer(), "sw"), met(*authority, "sw"), met(state(), "w"), met(vault(), "w"), met(xorca(), ""), met(orca(), ""), met(SYSTEM, ""), met(token(), ""), met(ata_program(), "")]
}
pub fn initialize_data(cd: i64) -> Vec<u8> {
    [&[3u8][..], &cd.to_le_bytes()].concat()
}
