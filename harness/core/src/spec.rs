//! Independent statement of the protocol: addresses, wire formats, layouts and
//! arithmetic, written from the README/IDL and not from the code under test.
use ethnum::U256;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;
use std::str::FromStr;

fn pk(s: &str) -> Pubkey {
    Pubkey::from_str(s).unwrap()
}
macro_rules! addr {
    ($f:ident, $s:expr) => {
        pub fn $f() -> Pubkey {
            static C: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
            *C.get_or_init(|| pk($s))
        }
    };
}
addr!(program_id, "StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT");
addr!(orca_mint, "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE");
addr!(xorca_mint, "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N");
addr!(deployer, "94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT");
addr!(token_program, "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
addr!(ata_program, "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
addr!(system_program, "11111111111111111111111111111111");

pub fn state_pda() -> (Pubkey, u8) {
    static C: std::sync::OnceLock<(Pubkey, u8)> = std::sync::OnceLock::new();
    *C.get_or_init(|| Pubkey::find_program_address(&[b"state"], &program_id()))
}
pub fn state() -> Pubkey {
    state_pda().0
}
pub fn vault_pda() -> (Pubkey, u8) {
    static C: std::sync::OnceLock<(Pubkey, u8)> = std::sync::OnceLock::new();
    *C.get_or_init(|| {
        Pubkey::find_program_address(
            &[state().as_ref(), token_program().as_ref(), orca_mint().as_ref()],
            &ata_program(),
        )
    })
}
pub fn vault() -> Pubkey {
    vault_pda().0
}
pub fn pending_pda(user: &Pubkey, idx: u8) -> (Pubkey, u8) {
    crate::engine::find_pda(&[b"pending_withdraw", user.as_ref(), &[idx]], &program_id()).unwrap()
}
pub fn pending(user: &Pubkey, idx: u8) -> Pubkey {
    pending_pda(user, idx).0
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    crate::engine::find_pda(&[owner.as_ref(), token_program().as_ref(), mint.as_ref()], &ata_program())
        .unwrap()
        .0
}

pub const STATE_LEN: usize = 2048;
pub const PENDING_LEN: usize = 1024;

pub mod code {
    pub const UNKNOWN_IX: u32 = 6000;
    pub const BAD_PROGRAM: u32 = 6001;
    pub const ROLE: u32 = 6002;
    pub const NOT_ENOUGH: u32 = 6003;
    pub const OWNER: u32 = 6004;
    pub const SEEDS: u32 = 6005;
    pub const ADDRESS: u32 = 6006;
    pub const DATA: u32 = 6007;
    pub const ARITH: u32 = 6008;
    pub const FUNDS: u32 = 6009;
    pub const ALREADY_INIT: u32 = 6010;
    pub const COOLDOWN: u32 = 6011;
    pub const BAD_COOLDOWN: u32 = 6013;
    pub const SMALL_STAKE: u32 = 6014;
    pub const SMALL_UNSTAKE: u32 = 6015;
    pub const ESCROW: u32 = 6016;
    pub const CD_OVERFLOW: u32 = 6017;
    pub const BACKING: u32 = 6018;
    pub const DEPLOYER: u32 = 6019;
}

// ------------------------------------------------------------- arithmetic

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Quote {
    Out(u64),
    /// The result (or the 128-bit product) does not fit, or the rate is undefined.
    Arith,
}
fn mul_div(a: u64, num: u64, den: u64) -> Quote {
    let p = U256::from(a) * (U256::from(num) + U256::from(100u64));
    if p > U256::from(u128::MAX) {
        return Quote::Arith;
    }
    let q = p / (U256::from(den) + U256::from(100u64));
    if q > U256::from(u64::MAX) {
        Quote::Arith
    } else {
        Quote::Out(q.as_u64())
    }
}
/// xORCA minted for `a` ORCA when `n` ORCA back a supply of `s`.
pub fn to_xorca(a: u64, n: u64, s: u64) -> Quote {
    if n == 0 || s == 0 {
        return Quote::Out(a);
    }
    mul_div(a, s, n)
}
/// ORCA owed for `x` xORCA when `n` ORCA back a supply of `s`.
pub fn to_orca(x: u64, n: u64, s: u64) -> Quote {
    if n == 0 || s == 0 {
        return Quote::Arith;
    }
    mul_div(x, n, s)
}
/// -1/0/1 comparison of the redemption rates (n+100)/(s+100).
pub fn cmp_rate(n0: u64, s0: u64, n1: u64, s1: u64) -> std::cmp::Ordering {
    let f = |v: u64| v as u128 + 100;
    (f(n0) * f(s1)).cmp(&(f(n1) * f(s0)))
}

// ---------------------------------------------------------------- layouts

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StateV {
    pub bump: u8,
    pub vault_bump: u8,
    pub escrow: u64,
    pub cooldown: i64,
    pub authority: Pubkey,
    pub padding_zero: bool,
}
fn u64at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn i64at(d: &[u8], o: usize) -> i64 {
    i64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}
pub fn decode_state(owner: &Pubkey, d: &[u8]) -> Option<StateV> {
    if *owner != program_id() || d.len() != STATE_LEN || d[0] != 1 {
        return None;
    }
    Some(StateV {
        bump: d[6],
        vault_bump: d[7],
        escrow: u64at(d, 8),
        cooldown: i64at(d, 16),
        authority: key_at(d, 24),
        padding_zero: d[1..6].iter().chain(&d[56..]).all(|b| *b == 0),
    })
}
pub fn encode_state(s: &StateV) -> Vec<u8> {
    let mut d = vec![0u8; STATE_LEN];
    d[0] = 1;
    d[6] = s.bump;
    d[7] = s.vault_bump;
    d[8..16].copy_from_slice(&s.escrow.to_le_bytes());
    d[16..24].copy_from_slice(&s.cooldown.to_le_bytes());
    d[24..56].copy_from_slice(s.authority.as_ref());
    d
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PendV {
    pub bump: u8,
    pub index: u8,
    pub unstaker: Pubkey,
    pub amount: u64,
    pub ts: i64,
    pub padding_zero: bool,
    pub lamports: u64,
}
pub fn decode_pending(owner: &Pubkey, d: &[u8], lamports: u64) -> Option<PendV> {
    if *owner != program_id() || d.len() != PENDING_LEN || d[0] != 2 {
        return None;
    }
    Some(PendV {
        bump: d[6],
        index: d[7],
        unstaker: key_at(d, 8),
        amount: u64at(d, 40),
        ts: i64at(d, 48),
        padding_zero: d[1..6].iter().chain(&d[56..]).all(|b| *b == 0),
        lamports,
    })
}
pub fn encode_pending(p: &PendV) -> Vec<u8> {
    let mut d = vec![0u8; PENDING_LEN];
    d[0] = 2;
    d[6] = p.bump;
    d[7] = p.index;
    d[8..40].copy_from_slice(p.unstaker.as_ref());
    d[40..48].copy_from_slice(&p.amount.to_le_bytes());
    d[48..56].copy_from_slice(&p.ts.to_le_bytes());
    d
}
/// SPL token account: (mint, owner, amount).
pub fn decode_token(owner: &Pubkey, d: &[u8]) -> Option<(Pubkey, Pubkey, u64)> {
    if *owner != token_program() || d.len() != 165 {
        return None;
    }
    Some((key_at(d, 0), key_at(d, 32), u64at(d, 64)))
}
pub fn encode_token(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}
pub fn mint_supply(d: &[u8]) -> u64 {
    u64at(d, 36)
}
pub fn encode_mint(auth: Option<&Pubkey>, supply: u64, decimals: u8, freeze: Option<&Pubkey>) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(a) = auth {
        d[0] = 1;
        d[4..36].copy_from_slice(a.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    if let Some(f) = freeze {
        d[46] = 1;
        d[50..82].copy_from_slice(f.as_ref());
    }
    d
}

// ----------------------------------------------------------- instructions

fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
fn wr(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
fn ix(data: Vec<u8>, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: program_id(), accounts, data }
}
pub fn ix_stake(user: &Pubkey, orca: &Pubkey, xorca: &Pubkey, a: u64) -> Instruction {
    let mut d = vec![0];
    d.extend(a.to_le_bytes());
    ix(
        d,
        vec![
            ws(*user), wr(vault()), wr(*orca), wr(*xorca), wr(xorca_mint()), ro(state()),
            ro(orca_mint()), ro(token_program()),
        ],
    )
}
pub fn ix_unstake(user: &Pubkey, xorca: &Pubkey, x: u64, idx: u8) -> Instruction {
    let mut d = vec![1];
    d.extend(x.to_le_bytes());
    d.push(idx);
    ix(
        d,
        vec![
            ws(*user), wr(state()), wr(pending(user, idx)), wr(*xorca), wr(xorca_mint()),
            ro(orca_mint()), ro(vault()), ro(system_program()), ro(token_program()),
        ],
    )
}
pub fn ix_withdraw(user: &Pubkey, orca: &Pubkey, idx: u8) -> Instruction {
    ix(
        vec![2, idx],
        vec![
            ws(*user), wr(state()), wr(pending(user, idx)), wr(*orca), wr(vault()),
            ro(orca_mint()), ro(system_program()), ro(token_program()),
        ],
    )
}
pub fn ix_initialize(payer: &Pubkey, authority: &Pubkey, cooldown: i64) -> Instruction {
    let mut d = vec![3];
    d.extend(cooldown.to_le_bytes());
    ix(
        d,
        vec![
            ws(*payer), ws(*authority), wr(state()), wr(vault()), ro(xorca_mint()), ro(orca_mint()),
            ro(system_program()), ro(token_program()), ro(ata_program()),
        ],
    )
}
pub fn ix_set_cooldown(authority: &Pubkey, v: i64) -> Instruction {
    let mut d = vec![4, 0];
    d.extend(v.to_le_bytes());
    ix(d, vec![ws(*authority), wr(state())])
}
pub fn ix_set_authority(authority: &Pubkey, new: &Pubkey) -> Instruction {
    let mut d = vec![4, 1];
    d.extend(new.to_bytes());
    ix(d, vec![ws(*authority), wr(state())])
}

// ----------------------------------------------------------------- events

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Stake { orca: u64, vault: u64, escrow: u64, supply: u64, minted: u64 },
    Unstake { xorca: u64, vault: u64, escrow: u64, supply: u64, owed: u64, cooldown: i64, index: u8 },
    Withdraw { escrow: u64, paid: u64, cooldown: i64, index: u8 },
    Authority { new: Pubkey, by: Pubkey },
}
pub fn encode_event(e: &Ev) -> Vec<u8> {
    let mut v = vec![];
    match e {
        Ev::Stake { orca, vault, escrow, supply, minted } => {
            v.push(0);
            for x in [orca, vault, escrow, supply, minted] {
                v.extend(x.to_le_bytes());
            }
        }
        Ev::Unstake { xorca, vault, escrow, supply, owed, cooldown, index } => {
            v.push(1);
            for x in [xorca, vault, escrow, supply, owed] {
                v.extend(x.to_le_bytes());
            }
            v.extend(cooldown.to_le_bytes());
            v.push(*index);
        }
        Ev::Withdraw { escrow, paid, cooldown, index } => {
            v.push(2);
            v.extend(escrow.to_le_bytes());
            v.extend(paid.to_le_bytes());
            v.extend(cooldown.to_le_bytes());
            v.push(*index);
        }
        Ev::Authority { new, by } => {
            v.push(3);
            v.extend(new.to_bytes());
            v.extend(by.to_bytes());
        }
    }
    v
}
