//! Hostile transactions: honest instructions with substituted accounts,
//! dropped privileges, aliased accounts or damaged data.
use crate::engine::Acct;
use crate::history::{gen_kind, Profile};
use crate::spec;
use crate::world::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use solana_sdk::instruction::Instruction;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeSet;

/// Accounts anybody can create on a real chain.
pub struct Rogues {
    pub fake_mint: Pubkey,
    /// ORCA token account owned by the pool's state address, but not the vault.
    pub state_orca: Pubkey,
    /// Token account of the fake mint owned by the state address.
    pub state_fake: Pubkey,
    /// Zeroed account owned by the staking program.
    pub zero_state: Pubkey,
    pub zero_pending: Pubkey,
    pub empty: Pubkey,
    pub fake_program: Pubkey,
    /// Per user: token accounts of the fake mint.
    pub user_fake: Vec<Pubkey>,
}
pub fn add_rogues(w: &mut World, salt: u64) -> Rogues {
    let k = |t: &str, i: u64| derive_key(t, salt, i);
    let r = Rogues {
        fake_mint: k("fake_mint", 0),
        state_orca: k("state_orca", 0),
        state_fake: k("state_fake", 0),
        zero_state: k("zero_state", 0),
        zero_pending: k("zero_pending", 0),
        empty: k("empty", 0),
        fake_program: k("fake_program", 0),
        user_fake: (0..w.users.len()).map(|i| k("user_fake", i as u64)).collect(),
    };
    let tok = spec::token_program();
    w.chain.put(
        r.fake_mint,
        Acct { lamports: 1_461_600, owner: tok, data: spec::encode_mint(Some(&spec::state()), 1 << 50, 6, None) },
    );
    w.chain.put(r.state_orca, token_acct(&spec::orca_mint(), &spec::state(), 1 << 40));
    w.chain.put(r.state_fake, token_acct(&r.fake_mint, &spec::state(), 1 << 40));
    let rent = w.chain.rent(2048);
    w.chain.put(r.zero_state, Acct { lamports: rent, owner: spec::program_id(), data: vec![0; 2048] });
    w.chain.put(r.zero_pending, Acct { lamports: rent, owner: spec::program_id(), data: vec![0; 1024] });
    w.chain.put(r.fake_program, Acct { lamports: 1, owner: spec::system_program(), data: vec![] });
    for (i, f) in r.user_fake.iter().enumerate() {
        w.chain.put(*f, token_acct(&r.fake_mint, &w.users[i].key, 1 << 40));
    }
    r
}

pub fn pool(w: &World, v: &View, g: &Rogues) -> Vec<Pubkey> {
    let mut p = vec![
        spec::state(), spec::vault(), spec::orca_mint(), spec::xorca_mint(), spec::token_program(),
        spec::system_program(), spec::ata_program(), spec::program_id(), spec::deployer(), WHALE,
        solana_sdk::sysvar::clock::ID, solana_sdk::sysvar::rent::ID,
        g.fake_mint, g.state_orca, g.state_fake, g.zero_state, g.zero_pending, g.empty, g.fake_program,
    ];
    for (i, u) in w.users.iter().enumerate() {
        p.extend([u.key, u.orca, u.xorca, g.user_fake[i]]);
        p.push(spec::pending(&u.key, 0));
    }
    for (u, i) in v.slots.keys() {
        p.push(spec::pending(&w.users[*u].key, *i));
    }
    if let Some(s) = &v.state {
        p.push(s.authority);
    }
    p
}

/// A transaction signed by one or two of the users (never by everybody the
/// accounts belong to) derived from an honest one.
pub fn gen(r: &mut ChaCha8Rng, w: &World, v: &View, p: &Profile, g: &Rogues) -> Op {
    let kinds = ["stake", "unstake", "withdraw", "withdraw", "set_cooldown", "set_authority"];
    let kind = *kinds.choose(r).unwrap();
    let op = gen_kind(r, w, v, p, kind);
    let mut ixs = w.ixs(&op);
    let mut signers: BTreeSet<Pubkey> = BTreeSet::new();
    let who = w.users.choose(r).unwrap();
    signers.insert(who.key);
    if r.gen_bool(0.2) {
        signers.insert(w.users.choose(r).unwrap().key);
    }
    let cands = pool(w, v, g);
    let mut label = format!("{op:?}");
    let ix: &mut Instruction = &mut ixs[0];
    if r.gen_bool(0.15) && !ix.accounts.is_empty() {
        // the honest owner's instruction, signed as is
        let k = ix.accounts[0].pubkey;
        if w.users.iter().any(|u| u.key == k) {
            signers.insert(k);
        }
    }
    if r.gen_bool(0.5) {
        // the attacker takes the acting role with the owner's accounts
        ix.accounts[0].pubkey = who.key;
        label += " acting=attacker";
        if r.gen_bool(0.5) {
            // ... and the attacker's own token accounts
            for m in ix.accounts.iter_mut() {
                for u in &w.users {
                    if m.pubkey == u.orca {
                        m.pubkey = who.orca;
                    } else if m.pubkey == u.xorca {
                        m.pubkey = who.xorca;
                    }
                }
            }
            label += " own-tokens";
        }
    }
    for _ in 0..r.gen_range(0..3) {
        let n = ix.accounts.len();
        if n == 0 {
            break;
        }
        match r.gen_range(0..10) {
            0..=4 => {
                let i = r.gen_range(0..n);
                ix.accounts[i].pubkey = *cands.choose(r).unwrap();
                label += &format!(" sub@{i}");
            }
            5 => {
                let (i, j) = (r.gen_range(0..n), r.gen_range(0..n));
                ix.accounts[i].pubkey = ix.accounts[j].pubkey;
                label += &format!(" alias {i}={j}");
            }
            6 => {
                let i = r.gen_range(0..n);
                ix.accounts[i].is_writable = !ix.accounts[i].is_writable;
                label += &format!(" rw@{i}");
            }
            7 => {
                let k = r.gen_range(0..=ix.data.len());
                ix.data.truncate(k);
                label += " cut";
            }
            8 => {
                if !ix.data.is_empty() {
                    let i = r.gen_range(0..ix.data.len());
                    ix.data[i] ^= 1 << r.gen_range(0..8);
                }
                label += " flip";
            }
            _ => {
                ix.accounts.truncate(r.gen_range(0..=n));
                label += " drop";
            }
        }
    }
    for ix in ixs.iter_mut() {
        for m in ix.accounts.iter_mut() {
            m.is_signer = signers.contains(&m.pubkey) && (m.is_signer || r.gen_bool(0.5));
        }
    }
    let _ = Pubkey::default();
    Op::Raw { label, ixs }
}

pub fn signers_of(ixs: &[Instruction]) -> BTreeSet<Pubkey> {
    ixs.iter().flat_map(|i| i.accounts.iter()).filter(|m| m.is_signer).map(|m| m.pubkey).collect()
}
