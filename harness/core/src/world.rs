//! Actors, operations, the executable reference model and the observed view.
use crate::engine::{Acct, Chain, TxOut};
use crate::spec::{self, code, Ev, PendV, Quote, StateV};
use rand::Rng;
use solana_sdk::account::ReadableAccount;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

pub fn derive_key(tag: &str, a: u64, b: u64) -> Pubkey {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(tag.as_bytes());
    h.update(a.to_le_bytes());
    h.update(b.to_le_bytes());
    Pubkey::new_from_array(h.finalize().into())
}

#[derive(Clone, Debug)]
pub struct User {
    pub key: Pubkey,
    pub orca: Pubkey,
    pub xorca: Pubkey,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UserV {
    pub orca: u64,
    pub xorca: u64,
    pub lamports: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Slot {
    pub lamports: u64,
    /// Live claim stored at this address.
    pub claim: Option<PendV>,
    /// Anything else with data or a foreign owner.
    pub odd: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub state: Option<StateV>,
    pub state_lamports: u64,
    pub vault: u64,
    pub vault_lamports: u64,
    /// Vault owner/mint and the remaining token-account bytes as created.
    pub vault_sane: bool,
    pub supply: u64,
    pub orca_supply: u64,
    pub mints_sane: bool,
    pub users: Vec<UserV>,
    pub slots: BTreeMap<(usize, u8), Slot>,
    pub now: i64,
}
impl View {
    pub fn escrow(&self) -> u64 {
        self.state.as_ref().map_or(0, |s| s.escrow)
    }
    pub fn claims(&self) -> u128 {
        self.slots.values().filter_map(|s| s.claim.as_ref()).map(|c| c.amount as u128).sum()
    }
    pub fn free(&self) -> Option<u64> {
        self.vault.checked_sub(self.escrow())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Stake { u: usize, a: u64 },
    Unstake { u: usize, x: u64, i: u8 },
    Withdraw { u: usize, i: u8 },
    SetCd { by: Pubkey, v: i64 },
    SetAuth { by: Pubkey, new: Pubkey },
    /// Plain SPL transfer of ORCA into the vault.
    Donate { u: usize, a: u64 },
    /// SPL transfers between users and direct xORCA burns.
    MoveO { f: usize, t: usize, a: u64 },
    MoveX { f: usize, t: usize, a: u64 },
    BurnX { u: usize, a: u64 },
    /// System transfer of lamports to the address of a (u, i) claim / state / vault.
    Dust { u: usize, i: u8, l: u64 },
    DustState { l: u64 },
    DustVault { l: u64 },
    /// A user sends lamports of the wallet elsewhere.
    Spend { u: usize, l: u64 },
    Warp { t: i64 },
    /// Several instructions in one atomic transaction.
    Multi(Vec<Op>),
    /// An arbitrary (usually hostile) transaction; the model makes no prediction.
    Raw { label: String, ixs: Vec<Instruction> },
}
impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Stake { .. } => "stake",
            Op::Unstake { .. } => "unstake",
            Op::Withdraw { .. } => "withdraw",
            Op::SetCd { .. } => "set_cooldown",
            Op::SetAuth { .. } => "set_authority",
            Op::Donate { .. } => "donate",
            Op::MoveO { .. } => "move_orca",
            Op::MoveX { .. } => "move_xorca",
            Op::BurnX { .. } => "burn_xorca",
            Op::Dust { .. } => "dust",
            Op::DustState { .. } => "dust_state",
            Op::DustVault { .. } => "dust_vault",
            Op::Spend { .. } => "spend",
            Op::Warp { .. } => "warp",
            Op::Multi(_) => "multi",
            Op::Raw { .. } => "hostile",
        }
    }
}

/// Reasons for which an instruction must be refused. `Some(code)` when the
/// program itself reports it, `None` when the error comes from elsewhere.
pub type Faults = Vec<Option<u32>>;

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub pre: View,
    pub post: View,
    pub out: TxOut,
    /// Model verdict: next view and events, or the faults.
    pub pred: Result<(View, Vec<Ev>), Faults>,
}

#[derive(Clone)]
pub struct World {
    pub chain: Chain,
    pub users: Vec<User>,
    pub touched: BTreeSet<(usize, u8)>,
    pub log: Vec<String>,
    pub rent_pending: u64,
    vault_template: Vec<u8>,
    xmint_template: Vec<u8>,
    omint_template: Vec<u8>,
}

pub const WHALE: Pubkey = Pubkey::new_from_array([0xFD; 32]);

#[derive(Clone, Debug)]
pub struct Init {
    pub users: usize,
    pub salt: u64,
    pub cooldown: i64,
    pub authority: Pubkey,
    pub orca_each: Vec<u64>,
    pub xorca_each: Vec<u64>,
    /// ORCA in the vault (must include escrow).
    pub vault: u64,
    pub escrow: u64,
    pub extra_supply: u64,
    pub lamports: u64,
    pub now: i64,
    /// Create state and vault through the Initialize instruction.
    pub via_initialize: bool,
    /// Give users and mints the various legitimate shapes found on chain (see `shaped`).
    pub variety: bool,
    /// Users keep their tokens at the associated addresses only.
    pub ata_only: bool,
    /// This user holds the deployer's key.
    pub deployer_user: Option<usize>,
}
impl Init {
    pub fn user_key(&self, i: usize) -> Pubkey {
        if self.deployer_user == Some(i) { spec::deployer() } else { derive_key("user", self.salt, i as u64) }
    }
    /// The update authority or the deployer may well stake, too.
    pub fn mix_roles<R: Rng>(&mut self, r: &mut R) {
        match r.gen_range(0..16) {
            0 | 1 => self.authority = self.user_key(r.gen_range(0..self.users)),
            2 => self.deployer_user = Some(r.gen_range(0..self.users)),
            3 => {
                self.deployer_user = Some(0);
                self.authority = spec::deployer();
            }
            _ => {}
        }
    }
    pub fn simple(salt: u64, users: usize) -> Init {
        Init {
            users,
            salt,
            cooldown: 7 * 86400,
            authority: derive_key("authority", salt, 0),
            orca_each: vec![1_000_000_000_000; users],
            xorca_each: vec![0; users],
            vault: 0,
            escrow: 0,
            extra_supply: 0,
            lamports: 50_000_000_000,
            now: 1_750_000_000,
            via_initialize: false,
            variety: true,
            ata_only: false,
            deployer_user: None,
        }
    }
}

pub fn token_acct(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    Acct { lamports: 2_039_280, owner: spec::token_program(), data: spec::encode_token(mint, owner, amount) }
}

/// A user's token account as the token program may have left it: at the associated address or another
/// one, with a delegate, a close authority, remains of revoked ones, or more lamports than needed.
fn shaped(tag: &str, mint: &Pubkey, owner: &Pubkey, amount: u64, salt: u64, i: u64, ata_only: bool) -> (Pubkey, Acct) {
    let h = derive_key(tag, salt, i).to_bytes();
    let other = derive_key("other", salt, i);
    let mut a = token_acct(mint, owner, amount);
    let at = if h[0] < 64 && !ata_only { derive_key(&format!("auxiliary-{tag}"), salt, i) } else { spec::ata(owner, mint) };
    match h[2] % 8 {
        0 => a.data[72..76].copy_from_slice(&1u32.to_le_bytes()),
        1 => a.data[129..133].copy_from_slice(&1u32.to_le_bytes()),
        _ => {}
    }
    if h[2] % 8 == 0 {
        a.data[121..129].copy_from_slice(&[1, 1000, u64::MAX][h[3] as usize % 3].to_le_bytes());
    }
    if h[2] % 8 == 0 || h[2] % 8 == 2 {
        a.data[76..108].copy_from_slice(other.as_ref());
    }
    if h[2] % 8 == 1 || h[2] % 8 == 2 {
        a.data[133..165].copy_from_slice(other.as_ref());
    }
    if h[4] < 30 {
        a.lamports += 1 + h[5] as u64 * 1_000_000;
    }
    (at, a)
}
/// Sets the amount of a token account or the supply of a mint, leaving everything else.
pub fn set_u64(c: &mut Chain, at: &Pubkey, offset: usize, v: u64) {
    let mut a = c.get(at).expect("account to change");
    a.data[offset..offset + 8].copy_from_slice(&v.to_le_bytes());
    c.put(*at, a);
}

/// The runtime refuses to leave a wallet with some lamports but fewer than an empty account needs.
fn below_rent(lamports: u64) -> bool {
    lamports > 0 && lamports < 890_880
}

impl World {
    pub fn new(base: &Chain, init: &Init) -> World {
        let mut c = base.clone();
        c.set_time(init.now);
        let st = spec::state();
        let sys = spec::system_program();
        let xs: u128 = init.xorca_each.iter().map(|v| *v as u128).sum::<u128>() + init.extra_supply as u128;
        let os: u128 = init.orca_each.iter().map(|v| *v as u128).sum::<u128>() + init.vault as u128;
        let supply = u64::try_from(xs).expect("xORCA supply fits");
        let osupply = u64::try_from(os).unwrap_or(u64::MAX);
        let mut xm = spec::encode_mint(Some(&st), supply, 6, None);
        let mut om = spec::encode_mint(None, osupply, 6, None);
        if init.variety {
            // what the token program leaves of revoked authorities, or live ones where they are allowed
            let h = derive_key("mints", init.salt, 0).to_bytes();
            if h[0] < 80 {
                xm[50..82].copy_from_slice(&h);
            }
            if h[1] < 80 {
                om[4..36].copy_from_slice(&h);
                om[0] = h[2] & 1;
            }
            if h[3] < 80 {
                om[50..82].copy_from_slice(&h);
                om[46] = h[4] & 1;
            }
        }
        let mint = |d: &Vec<u8>| Acct { lamports: 1_461_600, owner: spec::token_program(), data: d.clone() };
        let om_auth = om.clone();
        let mut xm0 = xm.clone();
        if init.via_initialize {
            xm0[36..44].fill(0);
        }
        c.put(spec::xorca_mint(), mint(&xm0));
        c.put(spec::orca_mint(), mint(&om_auth));
        c.put(init.authority, Acct { lamports: 10_000_000_000, owner: sys, data: vec![] });
        c.put(spec::deployer(), Acct { lamports: 10_000_000_000, owner: sys, data: vec![] });
        c.put(WHALE, Acct { lamports: u64::MAX / 8, owner: sys, data: vec![] });
        let mut done = false;
        if init.via_initialize {
            let out = c.exec(&[spec::ix_initialize(&spec::deployer(), &init.authority, init.cooldown)]);
            done = out.ok;
            if done {
                c.put(spec::xorca_mint(), mint(&xm));
            }
        }
        if done && init.vault == 0 && init.escrow == 0 {
            // created by the program
        } else {
            let r = c.rent(spec::STATE_LEN);
            c.put(
                st,
                Acct {
                    lamports: r,
                    owner: spec::program_id(),
                    data: spec::encode_state(&StateV {
                        bump: spec::state_pda().1,
                        vault_bump: spec::vault_pda().1,
                        escrow: init.escrow,
                        cooldown: init.cooldown,
                        authority: init.authority,
                        padding_zero: true,
                    }),
                },
            );
            c.put(spec::vault(), token_acct(&spec::orca_mint(), &st, init.vault));
        }
        let mut users = vec![];
        for i in 0..init.users {
            let key = init.user_key(i);
            let (om, xm) = (spec::orca_mint(), spec::xorca_mint());
            let (mut orca, mut oa) = (spec::ata(&key, &om), token_acct(&om, &key, init.orca_each[i]));
            let (mut xorca, mut xa) = (spec::ata(&key, &xm), token_acct(&xm, &key, init.xorca_each[i]));
            if init.variety {
                (orca, oa) = shaped("orca-shape", &om, &key, init.orca_each[i], init.salt, i as u64, init.ata_only);
                (xorca, xa) = shaped("xorca-shape", &xm, &key, init.xorca_each[i], init.salt, i as u64, init.ata_only);
            }
            c.put(key, Acct { lamports: init.lamports, owner: sys, data: vec![] });
            c.put(orca, oa);
            c.put(xorca, xa);
            users.push(User { key, orca, xorca });
        }
        let rent_pending = c.rent(spec::PENDING_LEN);
        let vt = c.get(&spec::vault()).map_or(vec![], |a| a.data);
        World {
            chain: c,
            users,
            touched: BTreeSet::new(),
            log: vec![format!("{init:?}")],
            rent_pending,
            vault_template: vt,
            xmint_template: xm,
            omint_template: om,
        }
    }

    /// Store a live claim directly (used to set up states).
    pub fn inject_claim(&mut self, u: usize, i: u8, amount: u64, ts: i64) {
        let (k, bump) = spec::pending_pda(&self.users[u].key, i);
        let l = self.rent_pending;
        self.chain.put(
            k,
            Acct {
                lamports: l,
                owner: spec::program_id(),
                data: spec::encode_pending(&PendV {
                    bump,
                    index: i,
                    unstaker: self.users[u].key,
                    amount,
                    ts,
                    padding_zero: true,
                    lamports: l,
                }),
            },
        );
        self.touched.insert((u, i));
        self.log.push(format!("inject claim u={u} i={i} amount={amount} ts={ts}"));
    }

    pub fn view(&self) -> View {
        let db = &self.chain.svm.accounts_db().inner;
        let tok = |k: &Pubkey| -> u64 {
            db.get(k).and_then(|a| spec::decode_token(a.owner(), a.data())).map_or(0, |t| t.2)
        };
        let mut v = View {
            state: None,
            state_lamports: 0,
            vault: 0,
            vault_lamports: 0,
            vault_sane: false,
            supply: 0,
            orca_supply: 0,
            mints_sane: true,
            users: vec![],
            slots: BTreeMap::new(),
            now: self.chain.now,
        };
        if let Some(a) = db.get(&spec::state()) {
            v.state = spec::decode_state(a.owner(), a.data());
            v.state_lamports = a.lamports();
        }
        let skip = |d: &[u8], t: &[u8], r: std::ops::Range<usize>| {
            d.len() == t.len() && d[..r.start] == t[..r.start] && d[r.end..] == t[r.end..]
        };
        if let Some(a) = db.get(&spec::vault()) {
            v.vault = spec::decode_token(a.owner(), a.data()).map_or(0, |t| t.2);
            v.vault_lamports = a.lamports();
            v.vault_sane = *a.owner() == spec::token_program() && skip(a.data(), &self.vault_template, 64..72);
        }
        if let Some(a) = db.get(&spec::xorca_mint()) {
            v.supply = spec::mint_supply(a.data());
            v.mints_sane &= skip(a.data(), &self.xmint_template, 36..44);
        }
        if let Some(a) = db.get(&spec::orca_mint()) {
            v.orca_supply = spec::mint_supply(a.data());
            v.mints_sane &= skip(a.data(), &self.omint_template, 36..44);
        }
        for u in &self.users {
            v.users.push(UserV {
                orca: tok(&u.orca),
                xorca: tok(&u.xorca),
                lamports: db.get(&u.key).map_or(0, |a| a.lamports()),
            });
        }
        for (u, i) in &self.touched {
            let k = spec::pending(&self.users[*u].key, *i);
            let mut s = Slot::default();
            if let Some(a) = db.get(&k) {
                if a.lamports() > 0 {
                    s.lamports = a.lamports();
                    s.claim = spec::decode_pending(a.owner(), a.data(), a.lamports());
                    s.odd = s.claim.is_none()
                        && (!a.data().is_empty() || *a.owner() != spec::system_program());
                }
            }
            v.slots.insert((*u, *i), s);
        }
        v
    }

    /// Every live claim record stored anywhere on the chain.
    pub fn scan_claims(&self) -> Vec<(Pubkey, PendV)> {
        let pid = spec::program_id();
        let mut v: Vec<(Pubkey, PendV)> = self
            .chain
            .svm
            .accounts_db()
            .inner
            .iter()
            .filter(|(_, a)| *a.owner() == pid && a.lamports() > 0 && a.data().first() == Some(&2) && a.data().len() >= 56)
            .map(|(k, a)| {
                let mut d = a.data().to_vec();
                d.resize(spec::PENDING_LEN, 0);
                (*k, spec::decode_pending(a.owner(), &d, a.lamports()).unwrap())
            })
            .collect();
        v.sort_by_key(|x| x.0);
        v
    }

    fn touch(&mut self, op: &Op) {
        match op {
            Op::Unstake { u, i, .. } | Op::Withdraw { u, i } | Op::Dust { u, i, .. } => {
                self.touched.insert((*u, *i));
            }
            Op::Multi(v) => v.iter().for_each(|o| self.touch(o)),
            Op::Raw { ixs, .. } => {
                // any user's slot of a mentioned index may change
                for ix in ixs {
                    let i = match (ix.data.first(), ix.data.get(9), ix.data.get(1)) {
                        (Some(1), Some(i), _) => *i,
                        (Some(2), _, Some(i)) => *i,
                        _ => continue,
                    };
                    for u in 0..self.users.len() {
                        self.touched.insert((u, i));
                    }
                }
            }
            _ => {}
        }
    }

    pub fn ixs(&self, op: &Op) -> Vec<Instruction> {
        let u = |i: &usize| &self.users[*i];
        let spl = |data: Vec<u8>, accounts: Vec<AccountMeta>| Instruction {
            program_id: spec::token_program(),
            accounts,
            data,
        };
        let xfer = |from: Pubkey, to: Pubkey, auth: Pubkey, a: u64| {
            let mut d = vec![3u8];
            d.extend(a.to_le_bytes());
            spl(d, vec![
                AccountMeta::new(from, false),
                AccountMeta::new(to, false),
                AccountMeta::new_readonly(auth, true),
            ])
        };
        let dust = |to: Pubkey, l: u64| {
            let mut d = vec![2, 0, 0, 0];
            d.extend(l.to_le_bytes());
            Instruction {
                program_id: spec::system_program(),
                accounts: vec![AccountMeta::new(WHALE, true), AccountMeta::new(to, false)],
                data: d,
            }
        };
        match op {
            Op::Stake { u: i, a } => vec![spec::ix_stake(&u(i).key, &u(i).orca, &u(i).xorca, *a)],
            Op::Unstake { u: i, x, i: n } => vec![spec::ix_unstake(&u(i).key, &u(i).xorca, *x, *n)],
            Op::Withdraw { u: i, i: n } => vec![spec::ix_withdraw(&u(i).key, &u(i).orca, *n)],
            Op::SetCd { by, v } => vec![spec::ix_set_cooldown(by, *v)],
            Op::SetAuth { by, new } => vec![spec::ix_set_authority(by, new)],
            Op::Donate { u: i, a } => vec![xfer(u(i).orca, spec::vault(), u(i).key, *a)],
            Op::MoveO { f, t, a } => vec![xfer(u(f).orca, u(t).orca, u(f).key, *a)],
            Op::MoveX { f, t, a } => vec![xfer(u(f).xorca, u(t).xorca, u(f).key, *a)],
            Op::BurnX { u: i, a } => {
                let mut d = vec![8u8];
                d.extend(a.to_le_bytes());
                vec![spl(d, vec![
                    AccountMeta::new(u(i).xorca, false),
                    AccountMeta::new(spec::xorca_mint(), false),
                    AccountMeta::new_readonly(u(i).key, true),
                ])]
            }
            Op::Dust { u: i, i: n, l } => vec![dust(spec::pending(&u(i).key, *n), *l)],
            Op::DustState { l } => vec![dust(spec::state(), *l)],
            Op::DustVault { l } => vec![dust(spec::vault(), *l)],
            Op::Spend { u: i, l } => {
                let mut ix = dust(WHALE, *l);
                ix.accounts[0].pubkey = u(i).key;
                vec![ix]
            }
            Op::Warp { .. } => vec![],
            Op::Multi(v) => v.iter().flat_map(|o| self.ixs(o)).collect(),
            Op::Raw { ixs, .. } => ixs.clone(),
        }
    }

    /// The reference model: what must happen to `v` in one transaction.
    pub fn predict(&self, v: &View, op: &Op) -> Result<(View, Vec<Ev>), Faults> {
        let r = self.predict_ixs(v, op)?;
        // judged once, at the end of the transaction
        if v.users.iter().zip(&r.0.users).any(|(a, b)| a.lamports != b.lamports && below_rent(b.lamports)) {
            return Err(vec![None]);
        }
        Ok(r)
    }
    fn predict_ixs(&self, v: &View, op: &Op) -> Result<(View, Vec<Ev>), Faults> {
        let mut n = v.clone();
        let mut f: Faults = vec![];
        let mut ev = vec![];
        match op {
            Op::Warp { t } => n.now = *t,
            Op::Raw { .. } => return Err(vec![]),
            Op::Multi(ops) => {
                for o in ops {
                    let (m, e) = self.predict_ixs(&n, o)?;
                    n = m;
                    ev.extend(e);
                }
            }
            Op::Stake { u, a } => {
                let Some(st) = &v.state else { return Err(vec![None]) };
                let us = &mut n.users[*u];
                let mut minted = 0;
                match v.free() {
                    None => f.push(Some(code::BACKING)),
                    Some(free) => match spec::to_xorca(*a, free, v.supply) {
                        Quote::Arith => f.push(Some(code::ARITH)),
                        Quote::Out(0) => f.push(Some(code::SMALL_STAKE)),
                        Quote::Out(m) => minted = m,
                    },
                }
                if us.orca < *a || v.vault.checked_add(*a).is_none() {
                    f.push(None);
                }
                if v.supply.checked_add(minted).is_none() || us.xorca.checked_add(minted).is_none() {
                    f.push(None);
                }
                if !f.is_empty() {
                    return Err(f);
                }
                us.orca -= a;
                us.xorca += minted;
                n.vault += a;
                n.supply += minted;
                ev.push(Ev::Stake {
                    orca: *a,
                    vault: n.vault,
                    escrow: st.escrow,
                    supply: n.supply,
                    minted,
                });
            }
            Op::Unstake { u, x, i } => {
                let Some(st) = &v.state else { return Err(vec![None]) };
                let slot = v.slots.get(&(*u, *i)).cloned().unwrap_or_default();
                if slot.claim.is_some() || slot.odd {
                    f.push(Some(code::OWNER));
                }
                let mut owed = 0;
                if v.users[*u].xorca < *x {
                    f.push(Some(code::FUNDS));
                }
                match v.free() {
                    None => f.push(Some(code::BACKING)),
                    Some(free) => match spec::to_orca(*x, free, v.supply) {
                        Quote::Arith => f.push(Some(code::ARITH)),
                        Quote::Out(0) => f.push(Some(code::SMALL_UNSTAKE)),
                        Quote::Out(m) => owed = m,
                    },
                }
                if st.escrow.checked_add(owed).is_none() {
                    f.push(Some(code::ARITH));
                }
                let ts = v.now.checked_add(st.cooldown);
                if ts.is_none() {
                    f.push(Some(code::CD_OVERFLOW));
                }
                let need = self.rent_pending.saturating_sub(slot.lamports);
                if v.users[*u].lamports < need {
                    f.push(None);
                }
                if !f.is_empty() {
                    return Err(f);
                }
                let us = &mut n.users[*u];
                us.xorca -= x;
                us.lamports -= need;
                n.supply -= x;
                let ns = n.state.as_mut().unwrap();
                ns.escrow += owed;
                let (_, bump) = spec::pending_pda(&self.users[*u].key, *i);
                let lam = slot.lamports + need;
                n.slots.insert(
                    (*u, *i),
                    Slot {
                        lamports: lam,
                        claim: Some(PendV {
                            bump,
                            index: *i,
                            unstaker: self.users[*u].key,
                            amount: owed,
                            ts: ts.unwrap(),
                            padding_zero: true,
                            lamports: lam,
                        }),
                        odd: false,
                    },
                );
                ev.push(Ev::Unstake {
                    xorca: *x,
                    vault: v.vault,
                    escrow: st.escrow + owed,
                    supply: n.supply,
                    owed,
                    cooldown: st.cooldown,
                    index: *i,
                });
            }
            Op::Withdraw { u, i } => {
                let Some(st) = &v.state else { return Err(vec![None]) };
                let slot = v.slots.get(&(*u, *i)).cloned().unwrap_or_default();
                let Some(c) = &slot.claim else { return Err(vec![Some(code::OWNER)]) };
                if v.now < c.ts {
                    f.push(Some(code::COOLDOWN));
                }
                if st.escrow < c.amount {
                    f.push(Some(code::ESCROW));
                }
                if v.vault < c.amount || v.users[*u].orca.checked_add(c.amount).is_none() {
                    f.push(None);
                }
                if !f.is_empty() {
                    return Err(f);
                }
                n.vault -= c.amount;
                n.state.as_mut().unwrap().escrow -= c.amount;
                n.users[*u].orca += c.amount;
                n.users[*u].lamports += slot.lamports;
                n.slots.insert((*u, *i), Slot::default());
                ev.push(Ev::Withdraw {
                    escrow: st.escrow - c.amount,
                    paid: c.amount,
                    cooldown: st.cooldown,
                    index: *i,
                });
            }
            Op::SetCd { by, v: val } => {
                let Some(st) = &v.state else { return Err(vec![None]) };
                if *by != st.authority {
                    f.push(Some(code::ADDRESS));
                }
                if *val < 0 {
                    f.push(Some(code::BAD_COOLDOWN));
                }
                if !f.is_empty() {
                    return Err(f);
                }
                n.state.as_mut().unwrap().cooldown = *val;
            }
            Op::SetAuth { by, new } => {
                let Some(st) = &v.state else { return Err(vec![None]) };
                if *by != st.authority {
                    return Err(vec![Some(code::ADDRESS)]);
                }
                n.state.as_mut().unwrap().authority = *new;
                ev.push(Ev::Authority { new: *new, by: *by });
            }
            Op::Donate { u, a } => {
                if v.users[*u].orca < *a || v.vault.checked_add(*a).is_none() {
                    return Err(vec![None]);
                }
                n.users[*u].orca -= a;
                n.vault += a;
            }
            Op::MoveO { f, t, a } => {
                if v.users[*f].orca < *a || (f != t && v.users[*t].orca.checked_add(*a).is_none()) {
                    return Err(vec![None]);
                }
                n.users[*f].orca -= a;
                n.users[*t].orca += a;
            }
            Op::MoveX { f, t, a } => {
                if v.users[*f].xorca < *a {
                    return Err(vec![None]);
                }
                n.users[*f].xorca -= a;
                n.users[*t].xorca += a;
            }
            Op::BurnX { u, a } => {
                if v.users[*u].xorca < *a {
                    return Err(vec![None]);
                }
                n.users[*u].xorca -= a;
                n.supply -= a;
            }
            Op::Dust { u, i, l } => {
                let s = n.slots.entry((*u, *i)).or_default();
                s.lamports += l;
                if let Some(c) = &mut s.claim {
                    c.lamports += l;
                }
            }
            Op::DustState { l } => n.state_lamports += l,
            Op::DustVault { l } => n.vault_lamports += l,
            Op::Spend { u, l } => {
                let us = &mut n.users[*u];
                if us.lamports < *l {
                    return Err(vec![None]);
                }
                us.lamports -= l;
            }
        }
        Ok((n, ev))
    }

    pub fn apply(&mut self, op: &Op) -> Step {
        self.touch(op);
        let pre = self.view();
        let pred = self.predict(&pre, op);
        let out = match op {
            Op::Warp { t } => {
                self.chain.set_time(*t);
                TxOut {
                    ok: true,
                    err: None,
                    code: None,
                    failed_ix: None,
                    notes: Default::default(),
                    rent_paying: None,
                    pre: Default::default(),
                    post: Default::default(),
                }
            }
            _ => {
                let ixs = self.ixs(op);
                self.chain.exec(&ixs)
            }
        };
        let post = self.view();
        if self.log.len() < 4000 {
            self.log.push(format!(
                "{op:?} -> {}",
                if out.ok { "ok".to_string() } else { format!("{:?}", out.err.as_ref().unwrap()) }
            ));
        }
        Step { op: op.clone(), pre, post, out, pred }
    }
}

// -------------------------------------------------------------- generators

/// Integer literals (and simple products) of the program's sources: a fuzzing
/// dictionary, so that thresholds in the code are also tried as inputs.
pub fn dictionary() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let repo = std::env::var("XV_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(&std::path::Path::new(&repo).join("solana-program/src"), &mut files);
        walk(&std::path::Path::new(&repo).join("rust-client/src"), &mut files);
        let mut set = std::collections::BTreeSet::new();
        for f in files {
            if f.to_string_lossy().contains("/generated/") {
                continue;
            }
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            let mut prev: Option<(u64, usize)> = None;
            let b = t.as_bytes();
            let mut i = 0;
            while i < b.len() {
                let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
                if b[i].is_ascii_digit() && (i == 0 || !word(b[i - 1])) {
                    let s = i;
                    while i < b.len() && word(b[i]) {
                        i += 1;
                    }
                    let mut w: String = t[s..i].replace('_', "");
                    for suf in ["u64", "i64", "u128", "i128", "u32", "i32", "u16", "u8", "usize", "i16", "i8"] {
                        if let Some(x) = w.strip_suffix(suf) {
                            w = x.to_string();
                            break;
                        }
                    }
                    let v = if let Some(h) = w.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).ok()
                    } else if let Some(h) = w.strip_prefix("0b") {
                        u64::from_str_radix(h, 2).ok()
                    } else {
                        w.parse::<u64>().ok()
                    };
                    if let Some(v) = v {
                        set.insert(v);
                        if let Some((p, end)) = prev {
                            let mid = t[end..s].trim();
                            if mid == "*" {
                                set.insert(p.saturating_mul(v));
                            } else if mid == "<<" && v < 64 {
                                set.insert(p << v);
                            }
                        }
                        prev = Some((v, i));
                    }
                } else {
                    i += 1;
                }
            }
        }
        if set.len() > 400 {
            set = set.into_iter().filter(|x| *x > 16).collect();
        }
        set.insert(1);
        set.into_iter().collect()
    })
}

/// Keys that might be treated specially: well-known programs and sysvars, the
/// pool's own addresses, patterned bytes and every base58 key in the sources.
pub fn special_keys() -> &'static [Pubkey] {
    static D: std::sync::OnceLock<Vec<Pubkey>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        use std::str::FromStr;
        let mut v = vec![
            Pubkey::default(),
            spec::program_id(),
            spec::state(),
            spec::vault(),
            spec::deployer(),
            spec::orca_mint(),
            spec::xorca_mint(),
            spec::token_program(),
            spec::ata_program(),
            solana_sdk::sysvar::clock::ID,
            solana_sdk::sysvar::rent::ID,
            solana_sdk::incinerator::ID,
            solana_sdk::bpf_loader_upgradeable::ID,
            WHALE,
        ];
        for b in [1u8, 0x7f, 0x80, 0xff] {
            v.push(Pubkey::new_from_array([b; 32]));
        }
        let mut one = [0u8; 32];
        one[0] = 1;
        v.push(Pubkey::new_from_array(one));
        one[0] = 0;
        one[31] = 1;
        v.push(Pubkey::new_from_array(one));
        let repo = std::env::var("XV_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(&std::path::Path::new(&repo).join("solana-program/src"), &mut files);
        walk(&std::path::Path::new(&repo).join("rust-client/src"), &mut files);
        for f in files {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            for q in t.split('"') {
                if (32..=44).contains(&q.len()) {
                    if let Ok(k) = Pubkey::from_str(q) {
                        if !v.contains(&k) {
                            v.push(k);
                        }
                    }
                }
            }
        }
        v
    })
}
/// Whether a key can sign (programs, sysvars and pool addresses cannot).
pub fn can_act(k: &Pubkey) -> bool {
    !special_keys().contains(k)
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p)
        }
    }
}
/// A key nobody chose with care: special, a participant's, or random.
pub fn any_key<R: Rng>(r: &mut R, others: &[Pubkey]) -> Pubkey {
    match r.gen_range(0..4) {
        0 => special_keys()[r.gen_range(0..special_keys().len())],
        1 if !others.is_empty() => others[r.gen_range(0..others.len())],
        2 => {
            // sparse bytes
            let mut k = [0u8; 32];
            for _ in 0..r.gen_range(1..4) {
                k[r.gen_range(0..32)] = r.gen();
            }
            Pubkey::new_from_array(k)
        }
        _ => Pubkey::new_from_array(r.gen()),
    }
}

/// Boundary-heavy u64, biased towards the given anchors.
pub fn amount<R: Rng>(r: &mut R, anchors: &[u64]) -> u64 {
    match r.gen_range(0..12) {
        10 => {
            let d = dictionary();
            d[r.gen_range(0..d.len())].saturating_add(r.gen_range(0..3)).saturating_sub(1)
        }
        11 => {
            // round numbers, as people type them
            let e = r.gen_range(0..19);
            10u64.pow(e) * r.gen_range(1..10)
        }
        0 => r.gen_range(0..4),
        1 => [9, 10, 99, 100, 101, 199, 200, 201, 255, 256, 999_999, 1_000_000, 1_000_001][r.gen_range(0..13)],
        2 => {
            let p = 1u64 << r.gen_range(0..64);
            p.wrapping_add(r.gen_range(0..3)).wrapping_sub(1)
        }
        3 if !anchors.is_empty() => {
            let a = anchors[r.gen_range(0..anchors.len())];
            a.saturating_add(r.gen_range(0..3)).saturating_sub(1)
        }
        4 | 5 if !anchors.is_empty() => {
            let a = anchors[r.gen_range(0..anchors.len())];
            if a == 0 { 0 } else { r.gen_range(0..=a) }
        }
        6 if !anchors.is_empty() => {
            let a = anchors[r.gen_range(0..anchors.len())];
            a / [2u64, 3, 4, 7, 10, 100, 1000][r.gen_range(0..7)]
        }
        7 => u64::MAX - if r.gen_bool(0.5) { r.gen_range(0..3) } else { r.gen_range(0..1000) },
        _ => {
            let bits = r.gen_range(1..=64);
            let x: u64 = r.gen();
            x >> (64 - bits)
        }
    }
}
/// An amount not above `max`, when possible non-trivial.
pub fn amount_upto<R: Rng>(r: &mut R, max: u64, anchors: &[u64]) -> u64 {
    if max == 0 {
        return 0;
    }
    for _ in 0..4 {
        let a = amount(r, anchors);
        if a <= max {
            return a;
        }
    }
    r.gen_range(0..=max)
}
pub fn index<R: Rng>(r: &mut R) -> u8 {
    match r.gen_range(0..6) {
        0 => [0, 1, 2, 126, 127, 128, 129, 254, 255][r.gen_range(0..9)],
        1 => r.gen(),
        _ => r.gen_range(0..4),
    }
}
pub fn cooldown<R: Rng>(r: &mut R) -> i64 {
    match r.gen_range(0..9) {
        8 => {
            let d = dictionary();
            let v = d[r.gen_range(0..d.len())].saturating_add(r.gen_range(0..3)).saturating_sub(1);
            (v & (i64::MAX as u64)) as i64
        }
        0 => 0,
        1 => 1,
        2 => i64::MAX - r.gen_range(0..3),
        3 => [60, 3600, 86_400, 604_800, 7 * 86_400 + 1, i32::MAX as i64, u32::MAX as i64, u32::MAX as i64 + 1][r.gen_range(0..8)],
        4 => r.gen_range(0..100),
        5 => (r.gen::<u64>() >> r.gen_range(1..64)) as i64,
        _ => r.gen_range(0..2_000_000),
    }
}
