//! Initialization, configuration and creation/closing of program accounts.
use super::run::*;
use crate::engine::{Acct, Chain};
use crate::history::*;
use crate::report::*;
use crate::spec::{self, StateV};
use crate::world::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::json;
use solana_sdk::instruction::AccountMeta;
use solana_sdk::pubkey::Pubkey;

fn req(v: &[(&str, u64)]) -> Vec<(String, u64)> {
    v.iter().map(|(k, n)| (k.to_string(), *n)).collect()
}
const ENGINE: &str = "The program runs natively inside LiteSVM's Agave runtime with the real SPL Token, ATA and System programs.";

pub fn sys(l: u64) -> Acct {
    Acct { lamports: l, owner: spec::system_program(), data: vec![] }
}
/// A chain before initialization.
pub fn blank(
    r: &mut ChaCha8Rng,
    supply: u64,
    auth: Option<&Pubkey>,
    dec: u8,
    freeze: Option<&Pubkey>,
    orca_dec: u8,
) -> Chain {
    let mut c = with_base(|b| b.clone());
    let mint = |d: Vec<u8>| Acct { lamports: 1_461_600, owner: spec::token_program(), data: d };
    c.put(spec::xorca_mint(), mint(spec::encode_mint(auth, supply, dec, freeze)));
    // the ORCA mint may have authorities of its own, and any supply
    let (k1, k2) = (Pubkey::new_from_array(r.gen()), Pubkey::new_from_array(r.gen()));
    let supply = [0, 75_000_000_000_000, u64::MAX, r.gen()][r.gen_range(0..4)];
    let orca = spec::encode_mint(r.gen_bool(0.5).then_some(&k1), supply, orca_dec, r.gen_bool(0.3).then_some(&k2));
    c.put(spec::orca_mint(), mint(orca));
    c.put(spec::deployer(), sys(10_000_000_000));
    c.put(WHALE, sys(u64::MAX / 8));
    c
}
fn state_of(c: &Chain) -> Option<(StateV, u64)> {
    c.get(&spec::state()).and_then(|a| spec::decode_state(&a.owner, &a.data).map(|s| (s, a.lamports)))
}
/// Create the vault's token account through the ATA program, as anybody may.
fn ix_create_vault(payer: Pubkey) -> solana_sdk::instruction::Instruction {
    solana_sdk::instruction::Instruction {
        program_id: spec::ata_program(),
        accounts: vec![
            AccountMeta::new(payer, true),
            AccountMeta::new(spec::vault(), false),
            AccountMeta::new_readonly(spec::state(), false),
            AccountMeta::new_readonly(spec::orca_mint(), false),
            AccountMeta::new_readonly(spec::system_program(), false),
            AccountMeta::new_readonly(spec::token_program(), false),
        ],
        data: vec![1],
    }
}

/// A chain whose xORCA mint had other authorities before: supply may have come and gone, the freeze
/// authority was revoked and the mint authority handed to the pool, all through the token program.
fn handed_over(r: &mut ChaCha8Rng, st: &mut Stats) -> Chain {
    let (a, f) = (derive_key("minter", r.gen(), 0), derive_key("freezer", r.gen(), 0));
    let freeze = r.gen_bool(0.8).then_some(f);
    let mut c = blank(r, 0, Some(&a), 6, freeze.as_ref(), 6);
    let m = spec::xorca_mint();
    let acct = derive_key("holding", r.gen(), 0);
    let ix = |keys: &[(Pubkey, bool)], data: Vec<u8>| solana_sdk::instruction::Instruction {
        program_id: spec::token_program(),
        accounts: keys.iter().map(|(k, s)| if *s { AccountMeta::new_readonly(*k, true) } else { AccountMeta::new(*k, false) }).collect(),
        data,
    };
    let mut ixs = vec![];
    if r.gen_bool(0.5) {
        c.put(acct, token_acct(&m, &a, 0));
        let n = r.gen_range(1..u64::MAX).to_le_bytes();
        ixs.push(ix(&[(m, false), (acct, false), (a, true)], [&[7u8][..], &n].concat()));
        ixs.push(ix(&[(acct, false), (m, false), (a, true)], [&[8u8][..], &n].concat()));
        st.count("mint:supply-came-and-went");
    }
    let mut hand = vec![ix(&[(m, false), (a, true)], [&[6u8, 0, 1][..], spec::state().as_ref()].concat())];
    if freeze.is_some() {
        hand.insert(r.gen_range(0..2), ix(&[(m, false), (f, true)], vec![6, 1, 0]));
        st.count("mint:freeze-authority-revoked");
    }
    ixs.extend(hand);
    let out = c.exec(&ixs);
    assert!(out.ok, "handing over the mint: {:?}", out.err);
    st.count("mint:handed-over");
    c
}

fn check_fresh(c: &Chain, authority: &Pubkey, cd: i64, ctxm: &str) -> Option<String> {
    let Some((s, lam)) = state_of(c) else { return Some(format!("{ctxm}: no pool state after initialize")) };
    let want = StateV {
        bump: spec::state_pda().1,
        vault_bump: spec::vault_pda().1,
        escrow: 0,
        cooldown: cd,
        authority: *authority,
        padding_zero: true,
    };
    if s != want {
        return Some(format!("{ctxm}: state is {s:?}, expected {want:?}"));
    }
    if lam < c.rent(spec::STATE_LEN) {
        return Some(format!("{ctxm}: state is not rent exempt"));
    }
    let Some(v) = c.get(&spec::vault()) else { return Some(format!("{ctxm}: no vault")) };
    match spec::decode_token(&v.owner, &v.data) {
        Some((m, o, _)) if m == spec::orca_mint() && o == spec::state() => {}
        t => return Some(format!("{ctxm}: vault is {t:?}")),
    }
    if v.data[108] != 1 || v.data[72..108].iter().any(|b| *b != 0) || v.data[109..].iter().any(|b| *b != 0) {
        return Some(format!("{ctxm}: vault has delegates, close authority or is not initialized"));
    }
    None
}

pub fn c12(ctx: &Ctx) -> i32 {
    let ok = run_cases(ctx, "success", ctx.scale(1500, 30_000), ctx.scale(30, 300), |_, r, st| {
        let cd = cooldown(r);
        let auth = derive_key("auth", r.gen(), 0);
        let mut c = if r.gen_bool(0.4) { blank(r, 0, Some(&spec::state()), 6, None, 6) } else { handed_over(r, st) };
        let same = r.gen_bool(0.1);
        let auth = if same { spec::deployer() } else { auth };
        if !same && r.gen_bool(0.8) {
            c.put(auth, sys(r.gen_range(0..2) * 1_000_000_000 + 1));
        }
        let out = c.exec(&[spec::ix_initialize(&spec::deployer(), &auth, cd)]);
        st.eval(Some((cd, auth)));
        if !out.ok {
            return fail(format!("valid initialize (cool-down {cd}) refused: {:?}", out.err), &[]);
        }
        if let Some(m) = check_fresh(&c, &auth, cd, "initialize") {
            return fail(m, &[]);
        }
        st.count("initialized");
        // never again, under any arguments or signers, also after use
        let mut init = Init::simple(r.gen(), 1);
        init.via_initialize = false;
        let u = derive_key("user", init.salt, 0);
        let (o, x) = (spec::ata(&u, &spec::orca_mint()), spec::ata(&u, &spec::xorca_mint()));
        c.put(u, sys(10_000_000_000));
        c.put(o, token_acct(&spec::orca_mint(), &u, 1 << 40));
        c.put(x, token_acct(&spec::xorca_mint(), &u, 0));
        let stage = r.gen_range(0..4);
        if stage >= 1 {
            c.exec(&[spec::ix_stake(&u, &o, &x, 1 << 30)]);
        }
        if stage >= 2 {
            c.exec(&[spec::ix_unstake(&u, &x, 1 << 30, 0)]);
        }
        if stage >= 3 {
            c.set_time(i64::MAX);
            c.exec(&[spec::ix_withdraw(&u, &o, 0)]);
        }
        let before = (c.get(&spec::state()), c.get(&spec::vault()));
        for _ in 0..3 {
            let payer = if r.gen_bool(0.7) { spec::deployer() } else { u };
            let by = [auth, u, spec::deployer()][r.gen_range(0..3)];
            let out = c.exec(&[spec::ix_initialize(&payer, &by, cooldown(r))]);
            st.eval(Some((cd, stage, by, payer)));
            st.count("again");
            if out.ok || (c.get(&spec::state()), c.get(&spec::vault())) != before {
                return fail(format!("a second initialize (stage {stage}) succeeded or had effects"), &[]);
            }
        }
        st.sample(|| json!({"cooldown": cd, "authority": auth.to_string(), "stage": stage}));
        Ok(())
    });
    let bad = run_cases(ctx, "refusal", ctx.scale(4000, 80_000), ctx.scale(40, 300), |_, r, st| {
        let other = derive_key("other", r.gen(), 1);
        let state = spec::state();
        let mut payer = spec::deployer();
        let mut cd = cooldown(r);
        let mut auth = derive_key("auth", r.gen(), 0);
        let mut label;
        let mut patch: Option<(usize, Pubkey)> = None;
        let mut unsigned: Option<usize> = None;
        let mut ro: Option<usize> = None;
        let mut c = match r.gen_range(0..17) {
            0 => {
                label = "supply nonzero".to_string();
                let s = amount(r, &[]).max(1);
                label += &format!(" {s}");
                blank(r, s, Some(&state), 6, None, 6)
            }
            1 => {
                label = "foreign mint authority".into();
                let k = [other, spec::deployer(), spec::vault(), auth][r.gen_range(0..4)];
                blank(r, 0, Some(&k), 6, None, 6)
            }
            2 => {
                label = "no mint authority".into();
                let mut c = blank(r, 0, None, 6, None, 6);
                if r.gen_bool(0.5) {
                    // authority bytes present but the flag unset
                    let mut a = c.get(&spec::xorca_mint()).unwrap();
                    a.data[4..36].copy_from_slice(state.as_ref());
                    c.put(spec::xorca_mint(), a);
                    label += " (stale bytes)";
                }
                c
            }
            3 => {
                label = "freeze authority set".into();
                let k = [other, state, spec::deployer()][r.gen_range(0..3)];
                blank(r, 0, Some(&state), 6, Some(&k), 6)
            }
            4 => {
                let d = loop { let d: u8 = r.gen(); if d != 6 { break d } };
                label = format!("xORCA decimals {d}");
                blank(r, 0, Some(&state), d, None, 6)
            }
            5 => {
                let d = loop { let d: u8 = r.gen(); if d != 6 { break d } };
                label = format!("ORCA decimals {d}");
                blank(r, 0, Some(&state), 6, None, d)
            }
            6 => {
                label = "payer is not the deployer".into();
                payer = other;
                auth = [auth, spec::deployer(), other, state, spec::vault(), spec::program_id()][r.gen_range(0..6)];
                label += &format!(", update authority {auth}");
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                c.put(other, sys(10_000_000_000));
                c
            }
            7 => {
                cd = -1 - (r.gen::<u64>() >> r.gen_range(1..64)) as i64;
                label = format!("cool-down {cd}");
                blank(r, 0, Some(&state), 6, None, 6)
            }
            8 => {
                let p = r.gen_range(2..9);
                label = format!("account {p} substituted");
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                match p {
                    2 => {
                        // other addresses, with the xORCA mint naming them as authority half the time
                        if r.gen_bool(0.5) {
                            c.put(spec::xorca_mint(), Acct { lamports: 1_461_600, owner: spec::token_program(), data: spec::encode_mint(Some(&other), 0, 6, None) });
                        }
                    }
                    4 => c.put(other, Acct { lamports: 1_461_600, owner: spec::token_program(), data: spec::encode_mint(Some(&state), 0, 6, None) }),
                    5 => c.put(other, Acct { lamports: 1_461_600, owner: spec::token_program(), data: spec::encode_mint(None, 1 << 40, 6, None) }),
                    _ => {}
                }
                patch = Some((p, other));
                c
            }
            9 => {
                let p = r.gen_range(0..2);
                label = format!("account {p} not a signer");
                unsigned = Some(p);
                blank(r, 0, Some(&state), 6, None, 6)
            }
            10 => {
                let p = r.gen_range(0..4);
                label = format!("account {p} read-only");
                ro = Some(p);
                blank(r, 0, Some(&state), 6, None, 6)
            }
            11 => {
                label = "xORCA mint not a token program account".into();
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                let mut a = c.get(&spec::xorca_mint()).unwrap();
                a.owner = [other, spec::program_id(), spec::system_program()][r.gen_range(0..3)];
                c.put(spec::xorca_mint(), a);
                c
            }
            12 => {
                label = "ORCA mint not a token program account".into();
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                let mut a = c.get(&spec::orca_mint()).unwrap();
                a.owner = [other, spec::program_id(), spec::system_program()][r.gen_range(0..3)];
                c.put(spec::orca_mint(), a);
                c
            }
            13 => {
                label = "state address already holds data".into();
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                let owner = [spec::program_id(), spec::system_program(), other][r.gen_range(0..3)];
                let n = [1, 8, 55, 56, 1024, 2047, 2048, 4096][r.gen_range(0..8)];
                let l = c.rent(n);
                let mut d = vec![0u8; n];
                if r.gen_bool(0.5) {
                    d[0] = r.gen_range(0..4);
                }
                c.put(state, Acct { lamports: l, owner, data: d });
                c
            }
            14 => {
                label = "truncated mint".into();
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                let k = if r.gen_bool(0.5) { spec::xorca_mint() } else { spec::orca_mint() };
                let mut a = c.get(&k).unwrap();
                a.data.truncate(r.gen_range(0..82));
                c.put(k, a);
                c
            }
            15 => {
                label = "another user's vault account".into();
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                let a = spec::ata(&other, &spec::orca_mint());
                if r.gen_bool(0.5) {
                    c.put(a, token_acct(&spec::orca_mint(), &other, 0));
                }
                patch = Some((3, a));
                c
            }
            _ => {
                label = "deployer cannot pay".into();
                let mut c = blank(r, 0, Some(&state), 6, None, 6);
                let need = c.rent(spec::STATE_LEN) + c.rent(165);
                c.put(spec::deployer(), sys(r.gen_range(1..need)));
                c
            }
        };
        if payer == spec::deployer() && unsigned.is_none() && ro.is_none() && r.gen_bool(0.2) {
            auth = [payer, other, state][r.gen_range(0..3)];
        }
        if r.gen_bool(0.2) && unsigned.is_none() {
            c.exec(&[solana_sdk::instruction::Instruction {
                program_id: spec::system_program(),
                accounts: vec![AccountMeta::new(WHALE, true), AccountMeta::new(state, false)],
                data: { let mut d = vec![2, 0, 0, 0]; d.extend(1_000_000u64.to_le_bytes()); d },
            }]);
            if label == "deployer cannot pay" {
                return Ok(());
            }
        }
        let mut ix = spec::ix_initialize(&payer, &auth, cd);
        if let Some((p, k)) = patch {
            ix.accounts[p].pubkey = k;
        }
        if let Some(p) = unsigned {
            ix.accounts[p].is_signer = false;
        }
        if let Some(p) = ro {
            ix.accounts[p].is_writable = false;
        }
        let before: Vec<_> = [state, spec::vault(), spec::xorca_mint(), spec::orca_mint(), payer].iter().map(|k| c.get(k)).collect();
        let out = c.exec(&[ix]);
        let after: Vec<_> = [state, spec::vault(), spec::xorca_mint(), spec::orca_mint(), payer].iter().map(|k| c.get(k)).collect();
        st.eval(Some((label.clone(), cd, other)));
        st.count(label.split(' ').next().unwrap());
        st.sample(|| json!({"fault": label, "refused": !out.ok, "code": out.code}));
        if out.ok || before != after {
            return fail(format!("initialize had to be refused ({label}), outcome ok={}", out.ok), &[]);
        }
        Ok(())
    });
    finish(ctx, vec![("success".into(), ok), ("refusal".into(), bad)], Report {
        rule: "One evaluation per initialize: success checked field by field (state bytes, vault fields, rent), re-initialization at four later stages, and seventeen families of broken preconditions that must be refused without effects. Distinct by (fault, arguments).".into(),
        assumptions: vec![ENGINE.into()],
        require: req(&[("initialized", 500), ("again", 1000), ("supply", 50), ("account", 100), ("payer", 50), ("state", 50)]),
        min_distinct: 2000,
    })
}

/// Dust cannot block account creation; rent goes where it belongs.
pub fn c13(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "dust", ctx.scale(3500, 80_000), ctx.scale(40, 400), |_, r, st| {
        let mut init = Init::simple(r.gen(), 2);
        init.xorca_each = vec![1 << 40, 1 << 40];
        init.vault = 1 << 42;
        init.cooldown = 0;
        let mut w = with_base(|b| World::new(b, &init));
        let rent = w.rent_pending;
        for _ in 0..10 {
            let (u, i) = (r.gen_range(0..2), index(r));
            let v = w.view();
            let live = v.slots.get(&(u, i)).is_some_and(|s| s.claim.is_some());
            if live {
                // lamports sent to a live claim come back to the owner too
                if r.gen_bool(0.5) {
                    w.apply(&Op::Dust { u, i, l: r.gen_range(1..5_000_000) });
                }
                let pre = w.view();
                let c = pre.slots[&(u, i)].clone();
                let s = w.apply(&Op::Withdraw { u, i });
                st.eval(Some(("close", c.lamports, u, i)));
                if !s.out.ok {
                    return fail(format!("claim with {} lamports could not be closed: {:?}", c.lamports, s.out.err), &w.log);
                }
                if s.post.users[u].lamports as i128 - pre.users[u].lamports as i128 != c.lamports as i128 {
                    return fail(format!("closing returned {} of {} lamports", s.post.users[u].lamports as i128 - pre.users[u].lamports as i128, c.lamports), &w.log);
                }
                if s.post.slots[&(u, i)].lamports != 0 || s.post.slots[&(u, i)].odd {
                    return fail("the closed claim account is not empty", &w.log);
                }
                st.count("closed");
                continue;
            }
            let dust = match r.gen_range(0..9) {
                0 => 0,
                1 => 1,
                2 => 890_880,
                3 => rent - 1,
                4 => rent,
                5 => rent + 1,
                6 => r.gen_range(0..rent * 2),
                7 => amount_upto(r, 1 << 50, &[rent]),
                _ => r.gen_range(0..100),
            };
            if dust > 0 {
                for _ in 0..r.gen_range(1..3) {
                    w.apply(&Op::Dust { u, i, l: dust });
                }
            }
            let pre = w.view();
            let have = pre.slots.get(&(u, i)).map_or(0, |s| s.lamports);
            let x = r.gen_range(1..1 << 20);
            // exactly enough lamports for the missing rent, sometimes
            let need = rent.saturating_sub(have);
            if r.gen_bool(0.3) {
                let k = w.users[u].key;
                w.chain.put(k, sys((need + r.gen_range(0..2)).max(1)));
            }
            let pre = World::view(&w);
            let s = w.apply(&Op::Unstake { u, x, i });
            st.eval(Some(("open", have, x, u, i)));
            st.sample(|| json!({"prefunded": have, "rent": rent, "ok": s.out.ok, "paid": pre.users[u].lamports as i64 - s.post.users[u].lamports as i64}));
            if pre.users[u].lamports < need {
                continue;
            }
            // (a payer may be left with a sub-rent balance, which the runtime itself refuses)
            let rest = pre.users[u].lamports - need;
            if rest != 0 && rest < 890_880 {
                let k = w.users[u].key;
                w.chain.put(k, sys(50_000_000_000));
                continue;
            }
            if !s.out.ok {
                return fail(format!("unstake blocked by {have} lamports at the claim address: {:?}", s.out.err), &w.log);
            }
            st.count(if have > 0 { "prefunded" } else { "fresh" });
            let paid = pre.users[u].lamports as i128 - s.post.users[u].lamports as i128;
            if paid != need as i128 {
                return fail(format!("unstaker paid {paid} lamports of rent, {need} were missing"), &w.log);
            }
            if s.post.slots[&(u, i)].lamports < rent {
                return fail("claim is not rent exempt", &w.log);
            }
            if pre.users[u].lamports < 1 << 34 {
                let k = w.users[u].key;
                w.chain.put(k, sys(50_000_000_000));
            }
        }
        Ok(())
    });
    let b = run_cases(ctx, "initialize", ctx.scale(1500, 30_000), ctx.scale(30, 300), |_, r, st| {
        let mut c = blank(r, 0, Some(&spec::state()), 6, None, 6);
        let auth = derive_key("auth", r.gen(), 0);
        let rs = c.rent(spec::STATE_LEN);
        let rv = c.rent(165);
        let pick = |r: &mut ChaCha8Rng, rent: u64| match r.gen_range(0..8) {
            0 | 1 => 0,
            2 => 890_880,
            3 => rent - 1,
            4 => rent,
            5 => rent + 1,
            6 => r.gen_range(890_880..3 * rent),
            _ => 10_000_000_000,
        };
        let (ds, dv) = (pick(r, rs), pick(r, rv));
        let mut log = vec![format!("lamports sent to the state address: {ds}, to the vault address: {dv}")];
        let xfer = |to: Pubkey, l: u64| solana_sdk::instruction::Instruction {
            program_id: spec::system_program(),
            accounts: vec![AccountMeta::new(WHALE, true), AccountMeta::new(to, false)],
            data: { let mut d = vec![2, 0, 0, 0]; d.extend(l.to_le_bytes()); d },
        };
        let mut pre_vault = false;
        for (k, l) in [(spec::state(), ds), (spec::vault(), dv)] {
            if l > 0 && !c.exec(&[xfer(k, l)]).ok {
                return fail("harness: dust transfer refused", &log);
            }
        }
        if r.gen_bool(0.4) {
            let out = c.exec(&[ix_create_vault(WHALE)]);
            log.push(format!("third party creates the vault token account: ok={}", out.ok));
            pre_vault = out.ok;
            if pre_vault && r.gen_bool(0.5) {
                let amt = amount(r, &[]) >> 8;
                c.put(spec::vault(), token_acct(&spec::orca_mint(), &spec::state(), amt));
                log.push(format!("and sends {amt} ORCA to it"));
            }
        }
        let cd = cooldown(r);
        let had = c.get(&spec::vault());
        let out = c.exec(&[spec::ix_initialize(&spec::deployer(), &auth, cd)]);
        st.eval(Some((ds, dv, cd, pre_vault)));
        st.count(if pre_vault { "vault-precreated" } else if ds > 0 || dv > 0 { "dusted" } else { "clean" });
        st.sample(|| json!({"state_dust": ds, "vault_dust": dv, "vault_precreated": pre_vault, "ok": out.ok}));
        if !out.ok {
            return fail(format!("initialize blocked by a third party: {:?}", out.err), &log);
        }
        if let Some(m) = check_fresh(&c, &auth, cd, "initialize after interference") {
            return fail(m, &log);
        }
        if pre_vault {
            let v = c.get(&spec::vault()).unwrap();
            if v.data != had.unwrap().data {
                return fail("the existing vault account was rewritten", &log);
            }
        }
        Ok(())
    });
    let mut p = Profile::base();
    p.dust = 30;
    p.multi = 0;
    let h = histories(ctx, "hist", &Plan { profile: p, hostile: 0.0, cases: ctx.scale(1500, 50_000), secs: ctx.scale(25, 300) },
        |o, _: &mut (), st| {
            match (&o.s.op, &o.s.pred) {
                (Op::Unstake { u, .. }, Ok((e, _))) | (Op::Withdraw { u, .. }, Ok((e, _))) => {
                    st.eval(Some(sig(o.s)));
                    if !o.s.out.ok {
                        return o.fail(format!("blocked: {:?}", o.s.out.err));
                    }
                    if e.users[*u].lamports != o.s.post.users[*u].lamports {
                        return o.fail(format!("lamports of the user: {} expected {}", o.s.post.users[*u].lamports, e.users[*u].lamports));
                    }
                    for (k, s) in &o.s.post.slots {
                        if s.lamports != e.slots.get(k).map_or(0, |x| x.lamports) {
                            return o.fail(format!("claim address {k:?} holds {} lamports", s.lamports));
                        }
                    }
                }
                _ => {}
            }
            Ok(())
        }, no_end);
    finish(ctx, vec![("dust".into(), a), ("initialize".into(), b), ("hist".into(), h)], Report {
        rule: "One evaluation per creation or closing of a program account whose address was pre-funded with a chosen number of lamports (or whose vault account was created by a third party): it must go through, charge exactly the missing rent and refund everything on closing. Distinct by (lamports, amounts, index).".into(),
        assumptions: vec![ENGINE.into(), "Rent parameters are the runtime's defaults.".into()],
        require: req(&[("prefunded", 3000), ("closed", 500), ("dusted", 200), ("vault-precreated", 200)]),
        min_distinct: 5000,
    })
}

/// Configuration: only the authority, only non-negative, exact, immediate.
pub fn c11(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "config", ctx.scale(5000, 120_000), ctx.scale(40, 400), |_, r, st| {
        let mut init = Init::simple(r.gen(), 3);
        init.cooldown = cooldown(r);
        init.escrow = amount(r, &[]) >> 2;
        init.vault = init.escrow + (amount(r, &[]) >> 2);
        let mut w = with_base(|b| World::new(b, &init));
        let keys: Vec<Pubkey> = (0..3).map(|i| w.users[i].key).chain([init.authority, spec::deployer(), WHALE, derive_key("x", r.gen(), 3)]).collect();
        let (mut cd, mut auth) = (init.cooldown, init.authority);
        let mut past = vec![auth];
        for _ in 0..20 {
            let by = match r.gen_range(0..10) {
                0..=5 => auth,
                6 => *past.choose(r).unwrap(),
                _ => *keys.choose(r).unwrap(),
            };
            let op = if r.gen_bool(0.6) {
                let v = match r.gen_range(0..6) {
                    0 => -1 - (r.gen::<u64>() >> r.gen_range(1..64)) as i64,
                    1 => [0, 1, -1, i64::MAX, i64::MIN, i64::MIN + 1][r.gen_range(0..6)],
                    _ => cooldown(r),
                };
                Op::SetCd { by, v }
            } else {
                let mut new = match r.gen_range(0..6) {
                    0 => auth,
                    1 => by,
                    2 => Pubkey::new_from_array(r.gen()),
                    _ => *keys.choose(r).unwrap(),
                };
                if r.gen_bool(0.1) {
                    new = any_key(r, &keys);
                }
                Op::SetAuth { by, new }
            };
            let mut ixs = w.ixs(&op);
            let forged = r.gen_bool(0.15);
            if forged {
                // names the authority but is not signed by it
                ixs[0].accounts[0].pubkey = auth;
                ixs[0].accounts[0].is_signer = false;
                if r.gen_bool(0.5) {
                    ixs[0].accounts.push(AccountMeta::new(keys[0], true));
                }
            }
            let pre = w.view();
            let out = w.chain.exec(&ixs);
            w.log.push(format!("{op:?} forged={forged} -> ok={}", out.ok));
            let post = w.view();
            let authorized = if forged { crate::hostile::signers_of(&ixs).contains(&auth) } else { by == auth };
            let valid = !matches!(op, Op::SetCd { v, .. } if v < 0);
            st.eval(Some((format!("{op:?}"), forged, cd)));
            st.count(match (authorized, valid, &op) {
                (false, _, _) => "unauthorized",
                (_, false, _) => "negative",
                (_, _, Op::SetCd { .. }) => "cooldown-set",
                _ => "authority-set",
            });
            st.sample(|| json!({"op": format!("{op:?}"), "authorized": authorized, "ok": out.ok}));
            if out.ok != (authorized && valid) {
                return fail(format!("{op:?} (authority {auth}, forged={forged}) {}: {:?}", if out.ok { "succeeded" } else { "was refused" }, out.err), &w.log);
            }
            if out.ok {
                match &op {
                    Op::SetCd { v, .. } => cd = *v,
                    Op::SetAuth { new, .. } => {
                        past.push(auth);
                        auth = *new;
                    }
                    _ => {}
                }
            }
            let want = StateV { cooldown: cd, authority: auth, ..pre.state.clone().unwrap() };
            if post.state != Some(want) {
                return fail(format!("after {op:?} the state is {:?}", post.state), &w.log);
            }
            if post.vault != pre.vault || post.supply != pre.supply {
                return fail("configuration changed balances", &w.log);
            }
            if !can_act(&auth) && auth != spec::deployer() && auth != WHALE {
                break;
            }
        }
        Ok(())
    });
    let mut p = Profile::base();
    p.set_cd = 20;
    p.set_auth = 12;
    p.multi = 10;
    p.multi_kinds = &["set_cooldown", "set_authority"];
    let h = histories(ctx, "hist", &Plan { profile: p, hostile: 0.2, cases: ctx.scale(2000, 50_000), secs: ctx.scale(25, 300) },
        |o, _: &mut (), st| {
            let (Some(a), Some(b)) = (&o.s.pre.state, &o.s.post.state) else { return Ok(()) };
            let changed = a.cooldown != b.cooldown || a.authority != b.authority;
            if b.cooldown < 0 {
                return o.fail(format!("cool-down became {}", b.cooldown));
            }
            match &o.s.op {
                Op::SetCd { .. } | Op::SetAuth { .. } | Op::Multi(_) => {
                    st.eval(Some(sig(o.s)));
                    match (&o.s.pred, o.s.out.ok) {
                        (Ok((e, _)), true) => {
                            let e = e.state.as_ref().unwrap();
                            if e.cooldown != b.cooldown || e.authority != b.authority {
                                return o.fail(format!("configuration is {b:?}, expected {e:?}"));
                            }
                        }
                        (Err(f), true) => return o.fail(format!("had to be refused ({f:?})")),
                        (Ok(_), false) => return o.fail(format!("refused: {:?}", o.s.out.err)),
                        (Err(_), false) if changed => return o.fail("a refused change had effects"),
                        _ => {}
                    }
                }
                Op::Raw { .. } => {
                    let signed = crate::hostile::signers_of(&o.w.ixs(&o.s.op)).contains(&a.authority);
                    if changed && !signed {
                        return o.fail("configuration changed without the authority's signature");
                    }
                }
                _ if changed => return o.fail("configuration changed by another operation"),
                _ => {}
            }
            Ok(())
        }, no_end);
    finish(ctx, vec![("config".into(), a), ("hist".into(), h)], Report {
        rule: "One evaluation per configuration change attempt: accepted iff signed by the current update authority with a non-negative cool-down; the stored configuration equals the monitor's own copy afterwards. Distinct by (operation, signer, value).".into(),
        assumptions: vec![ENGINE.into()],
        require: req(&[("unauthorized", 2000), ("negative", 1000), ("cooldown-set", 2000), ("authority-set", 1000)]),
        min_distinct: 5000,
    })
}
