//! LiteSVM with the program under test registered as a native program.
//!
//! The program is compiled for the host; pinocchio's syscalls resolve to the
//! `#[no_mangle]` functions below, which delegate to the Agave runtime
//! (InvokeContext) that LiteSVM drives.  SPL Token and ATA are the real SBF
//! programs bundled with LiteSVM.
use litesvm::LiteSVM;
use pinocchio::account_info::AccountInfo as PAccountInfo;
use solana_program_runtime::invoke_context::InvokeContext;
use solana_program_runtime::{declare_process_instruction, serialization, stable_log};
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::clock::Clock;
use solana_sdk::instruction::{AccountMeta, Instruction, InstructionError};
use solana_sdk::message::{Message, VersionedMessage};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub type ProgramFn = fn(
    &pinocchio::pubkey::Pubkey,
    &[PAccountInfo],
    &[u8],
) -> Result<(), pinocchio::program_error::ProgramError>;

/// The program under test, injected by the binary.
pub static PROGRAM: OnceLock<ProgramFn> = OnceLock::new();

thread_local! {
    static IC: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) };
    static CPI_ERR: RefCell<Option<InstructionError>> = const { RefCell::new(None) };
    static LAST: RefCell<RunNotes> = RefCell::new(RunNotes::default());
}

/// What the instrumentation saw during the last top-level execution.
#[derive(Default, Clone, Debug)]
pub struct RunNotes {
    pub entered: u32,
    pub panicked: Option<String>,
    pub cpis: Vec<(Pubkey, Vec<u8>, bool)>,
    pub cpi_failed: bool,
    /// Raw data records logged by the program itself (`sol_log_data`).
    pub records: Vec<Vec<u8>>,
    /// On-chain heap the program used (bytes, allocations), the worst of its entries.
    pub heap: (usize, u64),
    /// CPU time of the program's own code, the worst of its entries.
    pub cpu: std::time::Duration,
}

fn ic<'a>() -> &'a mut InvokeContext<'a> {
    let p = IC.with(|c| c.get());
    assert!(!p.is_null(), "syscall outside a program run");
    unsafe { &mut *(p as *mut InvokeContext<'a>) }
}

// ---------------------------------------------------------------- syscalls

unsafe fn slices<'a>(addr: *const u8, n: u64) -> Vec<&'a [u8]> {
    let p = addr as *const (*const u8, u64);
    (0..n as usize)
        .map(|i| {
            let (a, l) = *p.add(i);
            if l == 0 { &[][..] } else { std::slice::from_raw_parts(a, l as usize) }
        })
        .collect()
}

#[no_mangle]
pub unsafe extern "C" fn sol_log_(m: *const u8, len: u64) {
    let _pause = crate::meter::pause();
    let s = String::from_utf8_lossy(std::slice::from_raw_parts(m, len as usize)).into_owned();
    if !IC.with(|c| c.get()).is_null() {
        stable_log::program_log(&ic().get_log_collector(), &s);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_pubkey(_p: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_data(data: *const u8, len: u64) {
    let _pause = crate::meter::pause();
    let s = slices(data, len);
    LAST.with(|l| l.borrow_mut().records.push(s.concat()));
    stable_log::program_data(&ic().get_log_collector(), &s);
}
#[no_mangle]
pub unsafe extern "C" fn sol_create_program_address(
    seeds: *const u8,
    n: u64,
    program: *const u8,
    out: *mut u8,
) -> u64 {
    let _pause = crate::meter::pause();
    let s = slices(seeds, n);
    let pid = Pubkey::new_from_array(*(program as *const [u8; 32]));
    match Pubkey::create_program_address(&s, &pid) {
        Ok(k) => {
            std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), out, 32);
            0
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_try_find_program_address(
    seeds: *const u8,
    n: u64,
    program: *const u8,
    out: *mut u8,
    bump: *mut u8,
) -> u64 {
    let _pause = crate::meter::pause();
    let s = slices(seeds, n);
    let pid = Pubkey::new_from_array(*(program as *const [u8; 32]));
    match find_pda(&s, &pid) {
        Some((k, b)) => {
            std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), out, 32);
            *bump = b;
            0
        }
        None => 1,
    }
}
type PdaKey = (Vec<Vec<u8>>, Pubkey);
thread_local! {
    static PDA_CACHE: RefCell<std::collections::HashMap<PdaKey, Option<(Pubkey, u8)>>> =
        RefCell::new(Default::default());
}
pub fn find_pda(seeds: &[&[u8]], program: &Pubkey) -> Option<(Pubkey, u8)> {
    let key: PdaKey = (seeds.iter().map(|s| s.to_vec()).collect(), *program);
    PDA_CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        *c.entry(key).or_insert_with(|| Pubkey::try_find_program_address(seeds, program))
    })
}
#[no_mangle]
pub unsafe extern "C" fn sol_sha256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let _pause = crate::meter::pause();
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    for s in slices(vals, n) {
        h.update(s);
    }
    let r: [u8; 32] = h.finalize().into();
    std::ptr::copy_nonoverlapping(r.as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_keccak256(_: *const u8, _: u64, _: *mut u8) -> u64 { 1 }
#[no_mangle]
pub unsafe extern "C" fn sol_blake3(_: *const u8, _: u64, _: *mut u8) -> u64 { 1 }
#[no_mangle]
pub unsafe extern "C" fn sol_get_clock_sysvar(addr: *mut u8) -> u64 {
    let _pause = crate::meter::pause();
    match ic().get_sysvar_cache().get_clock() {
        Ok(c) => {
            let p = addr as *mut u64;
            p.write_unaligned(c.slot);
            (p.add(1) as *mut i64).write_unaligned(c.epoch_start_timestamp);
            p.add(2).write_unaligned(c.epoch);
            p.add(3).write_unaligned(c.leader_schedule_epoch);
            (p.add(4) as *mut i64).write_unaligned(c.unix_timestamp);
            0
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_rent_sysvar(addr: *mut u8) -> u64 {
    let _pause = crate::meter::pause();
    match ic().get_sysvar_cache().get_rent() {
        Ok(r) => {
            (addr as *mut u64).write_unaligned(r.lamports_per_byte_year);
            (addr.add(8) as *mut f64).write_unaligned(r.exemption_threshold);
            *addr.add(16) = r.burn_percent;
            0
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_sysvar(id: *const u8, out: *mut u8, off: u64, len: u64) -> u64 {
    let _pause = crate::meter::pause();
    let id = Pubkey::new_from_array(*(id as *const [u8; 32]));
    let cache = ic().get_sysvar_cache();
    let mut buf: Vec<u8> = vec![];
    if id == solana_sdk::sysvar::clock::ID {
        if let Ok(c) = cache.get_clock() {
            buf.extend(c.slot.to_le_bytes());
            buf.extend(c.epoch_start_timestamp.to_le_bytes());
            buf.extend(c.epoch.to_le_bytes());
            buf.extend(c.leader_schedule_epoch.to_le_bytes());
            buf.extend(c.unix_timestamp.to_le_bytes());
        }
    } else if id == solana_sdk::sysvar::rent::ID {
        if let Ok(r) = cache.get_rent() {
            buf.extend(r.lamports_per_byte_year.to_le_bytes());
            buf.extend(r.exemption_threshold.to_le_bytes());
            buf.push(r.burn_percent);
        }
    }
    if buf.is_empty() {
        return 2;
    }
    match buf.get(off as usize..(off + len) as usize) {
        Some(s) => {
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy_nonoverlapping(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    let (a, b) = (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize));
    *r = a.iter().zip(b).find(|(x, y)| x != y).map_or(0, |(x, y)| *x as i32 - *y as i32);
}
#[no_mangle]
pub unsafe extern "C" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_set_return_data(d: *const u8, n: u64) {
    let _pause = crate::meter::pause();
    let c = ic();
    let v = std::slice::from_raw_parts(d, n as usize).to_vec();
    let pid = *c
        .transaction_context
        .get_current_instruction_context()
        .unwrap()
        .get_last_program_key(c.transaction_context)
        .unwrap();
    let _ = c.transaction_context.set_return_data(pid, v);
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_return_data(_: *mut u8, _: u64, _: *mut u8) -> u64 { 0 }
#[no_mangle]
pub unsafe extern "C" fn sol_get_stack_height() -> u64 { ic().get_stack_height() as u64 }
#[no_mangle]
pub unsafe extern "C" fn sol_remaining_compute_units() -> u64 { 200_000 }

#[repr(C)]
struct CIx {
    program_id: *const [u8; 32],
    accounts: *const CMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}
#[repr(C)]
struct CMeta {
    pubkey: *const [u8; 32],
    is_writable: bool,
    is_signer: bool,
}
#[repr(C)]
struct CAcc {
    key: *const [u8; 32],
    lamports: *mut u64,
    data_len: u64,
    data: *mut u8,
    owner: *mut [u8; 32],
    rent_epoch: u64,
    is_signer: bool,
    is_writable: bool,
    executable: bool,
}

#[no_mangle]
pub unsafe extern "C" fn sol_invoke_signed_c(
    ix: *const u8,
    infos: *const u8,
    infos_len: u64,
    signers: *const u8,
    signers_len: u64,
) -> u64 {
    let _pause = crate::meter::pause();
    if CPI_ERR.with(|e| e.borrow().is_some()) {
        return 1; // the runtime has already aborted this program
    }
    match cpi(&*(ix as *const CIx), infos as *const CAcc, infos_len as usize, signers, signers_len) {
        Ok(()) => 0,
        Err(e) => {
            LAST.with(|l| l.borrow_mut().cpi_failed = true);
            CPI_ERR.with(|c| *c.borrow_mut() = Some(e));
            1
        }
    }
}

unsafe fn cpi(
    ix: &CIx,
    infos: *const CAcc,
    n: usize,
    signers: *const u8,
    signers_len: u64,
) -> Result<(), InstructionError> {
    let c = ic();
    let pid = Pubkey::new_from_array(*ix.program_id);
    let data = std::slice::from_raw_parts(ix.data, ix.data_len as usize).to_vec();
    let metas: Vec<AccountMeta> = (0..ix.accounts_len as usize)
        .map(|i| {
            let m = &*ix.accounts.add(i);
            AccountMeta {
                pubkey: Pubkey::new_from_array(*m.pubkey),
                is_signer: m.is_signer,
                is_writable: m.is_writable,
            }
        })
        .collect();
    LAST.with(|l| l.borrow_mut().cpis.push((pid, data.clone(), signers_len > 0)));
    let caller = *c
        .transaction_context
        .get_current_instruction_context()?
        .get_last_program_key(c.transaction_context)?;
    let mut pdas = vec![];
    let sp = signers as *const (*const u8, u64);
    for i in 0..signers_len as usize {
        let (p, l) = *sp.add(i);
        let seeds = slices(p, l);
        pdas.push(
            Pubkey::create_program_address(&seeds, &caller)
                .map_err(|_| InstructionError::InvalidSeeds)?,
        );
    }
    let stable = solana_stable_layout::stable_instruction::StableInstruction::from(Instruction {
        program_id: pid,
        accounts: metas.clone(),
        data: data.clone(),
    });
    let (ias, prog_idx) = c.prepare_instruction(&stable, &pdas)?;
    // caller -> runtime
    let infos: Vec<&CAcc> = (0..n).map(|i| &*infos.add(i)).collect();
    let mut sync: Vec<(usize, u16, bool)> = vec![];
    for (i, ia) in ias.iter().enumerate() {
        if ia.index_in_callee as usize != i {
            continue;
        }
        let key = *c.transaction_context.get_key_of_account_at_index(ia.index_in_transaction)?;
        let Some(k) = infos.iter().position(|a| *a.key == key.to_bytes()) else {
            return Err(InstructionError::MissingAccount);
        };
        let ixc = c.transaction_context.get_current_instruction_context()?;
        let mut acc = ixc.try_borrow_instruction_account(c.transaction_context, ia.index_in_caller)?;
        let ca = infos[k];
        if !acc.is_executable() {
            if acc.get_lamports() != *ca.lamports {
                acc.set_lamports(*ca.lamports)?;
            }
            let cd = std::slice::from_raw_parts(ca.data, ca.data_len as usize);
            match acc.can_data_be_resized(cd.len()) {
                Ok(()) => acc.set_data_from_slice(cd)?,
                Err(e) if acc.get_data() != cd => return Err(e),
                _ => {}
            }
            if acc.get_owner().to_bytes() != *ca.owner {
                acc.set_owner(&*ca.owner)?;
            }
            sync.push((k, ia.index_in_caller, ia.is_writable));
        }
    }
    let saved = IC.with(|p| p.replace(std::ptr::null_mut()));
    let mut cu = 0;
    let r = c.process_instruction(&data, &ias, &prog_idx, &mut cu, &mut Default::default());
    IC.with(|p| p.set(saved));
    r?;
    // runtime -> caller
    for (k, idx, w) in sync {
        if !w {
            continue;
        }
        let ixc = c.transaction_context.get_current_instruction_context()?;
        let acc = ixc.try_borrow_instruction_account(c.transaction_context, idx)?;
        let ca = infos[k];
        *ca.lamports = acc.get_lamports();
        *ca.owner = acc.get_owner().to_bytes();
        let d = acc.get_data();
        if d.len() as u64 != ca.data_len {
            let len_ptr = (ca.data as *mut u64).sub(1);
            *len_ptr = d.len() as u64;
            if d.len() < ca.data_len as usize {
                std::ptr::write_bytes(ca.data.add(d.len()), 0, ca.data_len as usize - d.len());
            }
        }
        std::ptr::copy_nonoverlapping(d.as_ptr(), ca.data, d.len());
    }
    Ok(())
}

// --------------------------------------------------------------- entrypoint

declare_process_instruction!(XorcaEntry, 1_000, |invoke_context| {
    run_program(invoke_context)
});

fn run_program(c: &mut InvokeContext) -> Result<(), InstructionError> {
    LAST.with(|l| l.borrow_mut().entered += 1);
    CPI_ERR.with(|e| *e.borrow_mut() = None);
    let (mut buf, _regions, metas) = {
        let tc = &c.transaction_context;
        let ixc = tc.get_current_instruction_context()?;
        serialization::serialize_parameters(tc, ixc, true, true)?
    };
    let saved = IC.with(|p| p.replace(c as *mut InvokeContext as *mut ()));
    let input = buf.as_slice_mut().as_mut_ptr();
    let res = catch_unwind(AssertUnwindSafe(|| {
        const UNINIT: MaybeUninit<PAccountInfo> = MaybeUninit::uninit();
        let mut infos = [UNINIT; 64];
        let (pid, n, data) =
            unsafe { pinocchio::entrypoint::deserialize::<64>(input, &mut infos) };
        let infos = unsafe { std::slice::from_raw_parts(infos.as_ptr() as *const PAccountInfo, n) };
        let program = PROGRAM.get().expect("program not injected");
        let meter = crate::meter::run();
        let res = program(pid, infos, data);
        let (used, cpu) = (meter.heap(), meter.cpu());
        drop(meter);
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            l.heap = l.heap.max(used);
            l.cpu = l.cpu.max(cpu);
        });
        res
    }));
    IC.with(|p| p.set(saved));
    let cpi_err = CPI_ERR.with(|e| e.borrow_mut().take());
    if let Some(e) = cpi_err {
        return Err(e);
    }
    match res {
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            LAST.with(|l| l.borrow_mut().panicked = Some(m));
            Err(InstructionError::ProgramFailedToComplete)
        }
        Ok(Err(e)) => Err(InstructionError::from(u64::from(e))),
        Ok(Ok(())) => {
            let tc = &c.transaction_context;
            let ixc = tc.get_current_instruction_context()?;
            serialization::deserialize_parameters(tc, ixc, true, buf.as_slice(), &metas)
        }
    }
}

// -------------------------------------------------------------------- chain

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
}
pub type Snap = BTreeMap<Pubkey, Option<Acct>>;

#[derive(Clone, Debug)]
pub struct TxOut {
    pub ok: bool,
    pub err: Option<TransactionError>,
    /// Custom error code of the failing instruction, if any.
    pub code: Option<u32>,
    pub failed_ix: Option<u8>,
    /// True when the failing error came out of a program called by the program under test.
    pub notes: RunNotes,
    /// An account of the program left with lamports below rent exemption. The
    /// cluster refuses such transactions; LiteSVM overlooks empty accounts.
    pub rent_paying: Option<Pubkey>,
    pub pre: Snap,
    pub post: Snap,
}

#[derive(Clone)]
pub struct Chain {
    pub svm: LiteSVM,
    pub fee_payer: Pubkey,
    sig: u64,
    pub now: i64,
}

pub const FEE_PAYER: Pubkey = Pubkey::new_from_array([0xFE; 32]);

impl Chain {
    pub fn new() -> Chain {
        let mut svm = LiteSVM::new()
            .with_sigverify(false)
            .with_blockhash_check(false)
            .with_transaction_history(0)
            .with_log_bytes_limit(Some(2_000));
        let pid = crate::spec::program_id();
        // add_builtin registers the entry and then refuses the empty ELF it
        // wrote for it; the account is replaced by a native-loader one.
        let _ = catch_unwind(AssertUnwindSafe(|| svm.add_builtin(pid, XorcaEntry::vm)));
        svm.set_account(
            pid,
            Account {
                lamports: 1,
                data: vec![],
                owner: solana_sdk::native_loader::ID,
                executable: true,
                rent_epoch: 0,
            },
        )
        .unwrap();
        svm.set_account(
            FEE_PAYER,
            Account { lamports: u64::MAX / 4, owner: solana_sdk::system_program::ID, ..Default::default() },
        )
        .unwrap();
        let mut c = Chain { svm, fee_payer: FEE_PAYER, sig: 0, now: 0 };
        c.set_time(1_700_000_000);
        c
    }
    pub fn set_time(&mut self, t: i64) {
        self.now = t;
        self.svm.set_sysvar(&Clock { unix_timestamp: t, slot: 1, ..Default::default() });
    }
    pub fn rent(&self, len: usize) -> u64 {
        self.svm.minimum_balance_for_rent_exemption(len)
    }
    pub fn get(&self, k: &Pubkey) -> Option<Acct> {
        self.svm.accounts_db().inner.get(k).and_then(conv)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.svm.accounts_db().inner.get(k).map_or(0, |a| a.lamports())
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.svm
            .set_account(
                k,
                Account { lamports: a.lamports, data: a.data, owner: a.owner, executable: false, rent_epoch: u64::MAX },
            )
            .unwrap();
    }
    pub fn snap<'a>(&self, keys: impl Iterator<Item = &'a Pubkey>) -> Snap {
        keys.map(|k| (*k, self.get(k))).collect()
    }
    fn send(&mut self, ixs: &[Instruction]) -> Result<(), TransactionError> {
        LAST.with(|l| *l.borrow_mut() = RunNotes::default());
        let msg = Message::new(ixs, Some(&self.fee_payer));
        let n = msg.header.num_required_signatures as usize;
        self.sig += 1;
        let mut sigs = vec![Signature::default(); n];
        let mut s = [0u8; 64];
        s[..8].copy_from_slice(&self.sig.to_le_bytes());
        s[8] = 1;
        sigs[0] = Signature::from(s);
        let tx = VersionedTransaction { signatures: sigs, message: VersionedMessage::Legacy(msg) };
        self.svm.send_transaction(tx).map(|_| ()).map_err(|e| e.err)
    }
    fn restore(&mut self, pre: &Snap) {
        for (k, a) in pre {
            if self.get(k) != *a {
                self.put(*k, a.clone().unwrap_or(Acct { lamports: 0, owner: Pubkey::default(), data: vec![] }));
            }
        }
    }
    pub fn exec(&mut self, ixs: &[Instruction]) -> TxOut {
        let keys: std::collections::BTreeSet<Pubkey> =
            ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).collect();
        let pre = self.snap(keys.iter());
        let mut r = self.send(ixs);
        let mut notes = LAST.with(|l| l.borrow().clone());
        let mut over = notes.cpu > crate::meter::CPU_LIMIT;
        for _ in 0..2 {
            if !over {
                break;
            }
            // again from the same accounts: it has to be the code, not the machine
            self.restore(&pre);
            r = self.send(ixs);
            notes = LAST.with(|l| l.borrow().clone());
            over = notes.cpu > crate::meter::CPU_LIMIT;
        }
        if over {
            self.restore(&pre);
            notes.panicked = Some(format!("exceeded the compute budget: {} ms of CPU time", notes.cpu.as_millis()));
            r = Err(TransactionError::InstructionError(0, InstructionError::ComputationalBudgetExceeded));
        }
        // the runtime refuses to leave a signer's wallet with too little for an empty account
        let short = |a: &Option<Acct>| a.as_ref().is_some_and(|a| a.data.is_empty() && a.lamports > 0 && a.lamports < 890_880);
        if r.is_ok() && ixs.iter().flat_map(|i| &i.accounts).any(|m| m.is_signer && short(&self.get(&m.pubkey)) && !short(&pre[&m.pubkey])) {
            self.restore(&pre);
            notes.records.clear();
            r = Err(TransactionError::InsufficientFundsForRent { account_index: 0 });
        }
        let post = self.snap(keys.iter());
        let err = r.err();
       let (code, failed_ix) = match &err {
            Some(TransactionError::InstructionError(i, InstructionError::Custom(c))) => (Some(*c), Some(*i)),
            Some(TransactionError::InstructionError(i, _)) => (None, Some(*i)),
            _ => (None, None),
        };
        let pid = crate::spec::program_id();
        let rent_paying = post.iter().find_map(|(k, b)| {
            let (a, b) = (pre[k].as_ref(), b.as_ref()?);
            let ours = b.owner == pid || a.is_some_and(|a| a.owner == pid);
            let exempt = |x: &Acct| x.lamports >= self.rent(x.data.len());
            (ours && b.lamports > 0 && !exempt(b) && a.map_or(true, exempt)).then_some(*k)
        });
        TxOut { ok: err.is_none(), err, code, failed_ix, notes, rent_paying, pre, post }
    }
}

fn conv(a: &AccountSharedData) -> Option<Acct> {
    if a.lamports() == 0 && a.data().is_empty() {
        return None;
    }
    Some(Acct { lamports: a.lamports(), owner: *a.owner(), data: a.data().to_vec() })
}
