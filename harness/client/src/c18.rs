//! The Rust client and the deployed program speak the same language.
use crate::req;
use borsh::{BorshDeserialize, BorshSerialize};
use num_traits::FromPrimitive;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::json;
use solana_sdk::account_info::AccountInfo;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::program_error::ProgramError;
use solana_sdk::pubkey::Pubkey;
use xvcore::history::*;
use xvcore::report::*;
use xvcore::spec::{self, Ev, PendV, StateV};
use xvcore::world::*;

fn key(r: &mut ChaCha8Rng) -> Pubkey {
    Pubkey::new_from_array(r.gen())
}
fn u64s(r: &mut ChaCha8Rng) -> u64 {
    amount(r, &[])
}
fn i64s(r: &mut ChaCha8Rng) -> i64 {
    let v = u64s(r) as i64;
    if r.gen_bool(0.3) { v.wrapping_neg() } else { v }
}
/// "s" signer, "w" writable.
fn meta(k: Pubkey, f: &str) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: f.contains('s'), is_writable: f.contains('w') }
}

/// What a program calling through the client hands to the runtime.
const KNOWN_CPI: &str = "cpi-remaining-account-flags";

macro_rules! instruction_case {
    ($ctx:expr, $st:ident, $r:ident, $log:expr, $T:ident, $B:ident, $C:ident, $CA:ident, $CB:ident, $A:ident,
     [$(($f:ident, $fl:expr)),*], { $($arg:ident : $val:expr),* }, $data:expr) => {{
        let name = stringify!($T);
        let names = [$(stringify!($f)),*];
        let flags = [$($fl),*];
        let keys: Vec<Pubkey> = names.iter().map(|_| key($r)).collect();
        let pos = |n: &str| keys[names.iter().position(|x| *x == n).unwrap()];
        let extra: Vec<AccountMeta> = (0..$r.gen_range(0..4)).map(|_| AccountMeta { pubkey: key($r), is_signer: $r.gen(), is_writable: $r.gen() }).collect();
        $(let $arg = $val;)*
        let data: Vec<u8> = $data;
        let mut want = Instruction {
            program_id: spec::program_id(),
            accounts: keys.iter().zip(flags).map(|(k, f)| meta(*k, f)).collect(),
            data,
        };
        let args = || xorca::$A { $($arg: $arg.clone()),* };
        let accs = xorca::$T { $($f: pos(stringify!($f))),* };
        let mut got = vec![("accounts struct", accs.instruction(args()))];
        let mut b = xorca::$B::new();
        $(b.$f(pos(stringify!($f)));)*
        $(b.$arg($arg.clone());)*
        got.push(("builder", b.instruction()));
        // through a cross-program invocation
        let program = spec::program_id();
        let owner = key($r);
        let mut lam: Vec<u64> = vec![1; keys.len() + 1 + extra.len()];
        let mut dat: Vec<Vec<u8>> = vec![vec![]; keys.len() + 1 + extra.len()];
        let all: Vec<Pubkey> = std::iter::once(program).chain(keys.iter().copied()).chain(extra.iter().map(|e| e.pubkey)).collect();
        let infos: Vec<AccountInfo> = all.iter().zip(lam.iter_mut()).zip(dat.iter_mut())
            .map(|((k, l), d)| AccountInfo::new(k, true, true, l, d, &owner, false, 0)).collect();
        let info = |n: &str| &infos[1 + names.iter().position(|x| *x == n).unwrap()];
        let seed: Vec<u8> = (0..$r.gen_range(1..30)).map(|_| $r.gen()).collect();
        let mut calls = vec![];
        let _ = solana_cpi::take_calls();
        let cpi = xorca::$C::new(&infos[0], xorca::$CA { $($f: info(stringify!($f))),* }, args());
        let rc = cpi.invoke();
        calls.push(("CPI", solana_cpi::take_calls(), rc, false));
        let rc = cpi.invoke_signed(&[&[&seed]]);
        calls.push(("signed CPI", solana_cpi::take_calls(), rc, true));
        let mut cb = xorca::$CB::new(&infos[0]);
        $(cb.$f(info(stringify!($f)));)*
        $(cb.$arg($arg.clone());)*
        let rc = cb.invoke();
        calls.push(("CPI builder", solana_cpi::take_calls(), rc, false));
        let rc = cb.invoke_signed(&[&[&seed]]);
        calls.push(("signed CPI builder", solana_cpi::take_calls(), rc, true));
        for (how, c, rc, signed) in calls {
            if c.len() != 1 || rc.is_err() {
                return fail(format!("{name} {how}: {} invocations, {rc:?}", c.len()), $log);
            }
            let seeds: Vec<Vec<Vec<u8>>> = if signed { vec![vec![seed.clone()]] } else { vec![] };
            if c[0].seeds != seeds {
                return fail(format!("{name} {how}: signer seeds {:?} instead of {seeds:?}", c[0].seeds), $log);
            }
            if let Some(k) = std::iter::once(&program).chain(&keys).find(|k| !c[0].infos.contains(k)) {
                return fail(format!("{name} {how}: account {k} is not passed on"), $log);
            }
            got.push((how, c[0].instruction.clone()));
        }
        for (how, ix) in &got {
            $st.eval(Some((name, *how, &want.data, keys[0])));
            $st.count(&format!("{name}:{how}"));
            if *ix != want {
                return fail(format!("{name} {how}: builds {ix:?} instead of {want:?}"), $log);
            }
        }
        // with additional accounts
        let mut b2 = b.clone();
        if let Some((first, rest)) = extra.split_first() {
            b2.add_remaining_account(first.clone());
            b2.add_remaining_accounts(rest);
        }
        let mut plain = want.clone();
        want.accounts.extend(extra.iter().cloned());
        for (how, ix) in [("builder", b2.instruction()), ("accounts struct", accs.instruction_with_remaining_accounts(args(), &extra))] {
            $st.eval(Some((name, how, "remaining", keys[0])));
            if ix != want {
                return fail(format!("{name} {how} with additional accounts: builds {ix:?} instead of {want:?}"), $log);
            }
        }
        let rem: Vec<_> = extra.iter().enumerate().map(|(i, m)| (&infos[1 + keys.len() + i], m.is_writable, m.is_signer)).collect();
        if let Some((f, rest)) = rem.split_first() {
            cb.add_remaining_account(f.0, f.1, f.2);
            cb.add_remaining_accounts(rest);
            let _ = cb.invoke();
            let c = solana_cpi::take_calls();
            $st.eval(Some((name, "cpi-remaining", keys[0])));
            let Some(c) = c.first() else { return fail(format!("{name} CPI builder with additional accounts invokes nothing"), $log) };
            if c.instruction != want {
                plain.accounts.extend(extra.iter().map(|m| AccountMeta { pubkey: m.pubkey, is_signer: m.is_writable, is_writable: m.is_signer }));
                let m = format!("{name} CPI builder with additional accounts invokes {:?} instead of {want:?}", c.instruction);
                if c.instruction == plain && $ctx.is_known(KNOWN_CPI) {
                    $st.count(&format!("known:{KNOWN_CPI}"));
                } else {
                    return fail(m, $log);
                }
            }
        }
    }};
}

fn instructions(ctx: &Ctx, r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    let log: Vec<String> = vec![];
    instruction_case!(ctx, st, r, &log, Stake, StakeBuilder, StakeCpi, StakeCpiAccounts, StakeCpiBuilder, StakeInstructionArgs,
        [(staker_account, "sw"), (vault_account, "w"), (staker_orca_ata, "w"), (staker_xorca_ata, "w"), (xorca_mint_account, "w"),
         (state_account, ""), (orca_mint_account, ""), (token_program_account, "")],
        { orca_stake_amount: u64s(r) }, [&[0u8][..], &orca_stake_amount.to_le_bytes()].concat());
    instruction_case!(ctx, st, r, &log, Unstake, UnstakeBuilder, UnstakeCpi, UnstakeCpiAccounts, UnstakeCpiBuilder, UnstakeInstructionArgs,
        [(unstaker_account, "sw"), (state_account, "w"), (pending_withdraw_account, "w"), (unstaker_xorca_ata, "w"), (xorca_mint_account, "w"),
         (orca_mint_account, ""), (vault_account, ""), (system_program_account, ""), (token_program_account, "")],
        { xorca_unstake_amount: u64s(r), withdraw_index: r.gen::<u8>() },
        [&[1u8][..], &xorca_unstake_amount.to_le_bytes(), &[withdraw_index]].concat());
    instruction_case!(ctx, st, r, &log, Withdraw, WithdrawBuilder, WithdrawCpi, WithdrawCpiAccounts, WithdrawCpiBuilder, WithdrawInstructionArgs,
        [(unstaker_account, "sw"), (state_account, "w"), (pending_withdraw_account, "w"), (unstaker_orca_ata, "w"), (vault_account, "w"),
         (orca_mint_account, ""), (system_program_account, ""), (token_program_account, "")],
        { withdraw_index: r.gen::<u8>() }, vec![2, withdraw_index]);
    instruction_case!(ctx, st, r, &log, Initialize, InitializeBuilder, InitializeCpi, InitializeCpiAccounts, InitializeCpiBuilder, InitializeInstructionArgs,
        [(payer_account, "sw"), (update_authority_account, "sw"), (state_account, "w"), (vault_account, "w"), (xorca_mint_account, ""),
         (orca_mint_account, ""), (system_program_account, ""), (token_program_account, ""), (associated_token_program_account, "")],
        { cool_down_period_s: i64s(r) }, [&[3u8][..], &cool_down_period_s.to_le_bytes()].concat());
    let (cd, auth) = (i64s(r), key(r));
    for d in [
        (xorca::StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: cd }, [&[4u8, 0][..], &cd.to_le_bytes()].concat()),
        (xorca::StateUpdateInstruction::UpdateUpdateAuthority { new_authority: auth }, [&[4u8, 1][..], auth.as_ref()].concat()),
    ] {
        instruction_case!(ctx, st, r, &log, Set, SetBuilder, SetCpi, SetCpiAccounts, SetCpiBuilder, SetInstructionArgs,
            [(update_authority_account, "sw"), (state_account, "w")],
            { instruction_data: d.0.clone() }, d.1.clone());
    }
    Ok(())
}

fn same_state(s: &xorca::State, w: &StateV) -> bool {
    s.discriminator == xorca::AccountDiscriminator::State
        && s.bump == w.bump
        && s.vault_bump == w.vault_bump
        && s.escrowed_orca_amount == w.escrow
        && s.cool_down_period_s == w.cooldown
        && s.update_authority == w.authority
}
fn same_pending(p: &xorca::PendingWithdraw, w: &PendV) -> bool {
    p.discriminator == xorca::AccountDiscriminator::PendingWithdraw
        && p.bump == w.bump
        && p.withdraw_index == w.index
        && p.unstaker == w.unstaker
        && p.withdrawable_orca_amount == w.amount
        && p.withdrawable_timestamp == w.ts
}
fn event(e: &Ev) -> xorca::Event {
    match e.clone() {
        Ev::Stake { orca, vault, escrow, supply, minted } => xorca::Event::Stake {
            orca_stake_amount: orca,
            vault_orca_amount: vault,
            vault_escrowed_orca_amount: escrow,
            xorca_mint_supply: supply,
            xorca_to_mint: minted,
        },
        Ev::Unstake { xorca, vault, escrow, supply, owed, cooldown, index } => xorca::Event::Unstake {
            xorca_unstake_amount: xorca,
            vault_orca_amount: vault,
            vault_escrowed_orca_amount: escrow,
            xorca_mint_supply: supply,
            withdrawable_orca_amount: owed,
            cool_down_period_s: cooldown,
            withdraw_index: index,
        },
        Ev::Withdraw { escrow, paid, cooldown, index } => xorca::Event::Withdraw {
            vault_escrowed_orca_amount: escrow,
            withdrawable_orca_amount: paid,
            cool_down_period_s: cooldown,
            withdraw_index: index,
        },
        Ev::Authority { new, by } => xorca::Event::UpdateAuthoritySet { new_authority: new, set_by: by },
    }
}
fn roundtrip<T: BorshSerialize + BorshDeserialize + PartialEq>(v: &T, bytes: &[u8]) -> bool {
    borsh::to_vec(v).is_ok_and(|b| b == bytes) && T::try_from_slice(bytes).is_ok_and(|x| x == *v)
}
fn through_json<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(v: &T) -> bool {
    serde_json::to_string(v).ok().and_then(|s| serde_json::from_str::<T>(&s).ok()).is_some_and(|x| x == *v)
}

fn codecs(_ctx: &Ctx, r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    let log: Vec<String> = vec![];
    // accounts
    let s = StateV { bump: r.gen(), vault_bump: r.gen(), escrow: u64s(r), cooldown: i64s(r), authority: key(r), padding_zero: true };
    let d = spec::encode_state(&s);
    st.eval(Some(("state", s.escrow, s.cooldown)));
    match xorca::State::from_bytes(&d) {
        Ok(x) if same_state(&x, &s) && roundtrip(&x, &d) && through_json(&x) => {}
        x => return fail(format!("state {s:?} decodes to {:?}", x.map(|x| (x.bump, x.vault_bump, x.escrowed_orca_amount, x.cool_down_period_s))), &log),
    }
    let p = PendV { bump: r.gen(), index: r.gen(), unstaker: key(r), amount: u64s(r), ts: i64s(r), padding_zero: true, lamports: 0 };
    let pd = spec::encode_pending(&p);
    st.eval(Some(("pending", p.amount, p.ts)));
    match xorca::PendingWithdraw::from_bytes(&pd) {
        Ok(x) if same_pending(&x, &p) && roundtrip(&x, &pd) && through_json(&x) => {}
        x => return fail(format!("claim {p:?} decodes to {:?}", x.map(|x| (x.bump, x.withdraw_index, x.withdrawable_orca_amount))), &log),
    }
    let k = key(r);
    for (what, d, len) in [("state", &d, spec::STATE_LEN), ("pending", &pd, spec::PENDING_LEN)] {
        let mut l = 1;
        let mut data = d.clone();
        let owner = spec::program_id();
        let info = AccountInfo::new(&k, false, false, &mut l, &mut data, &owner, false, 0);
        let (ok, declared) = if what == "state" {
            (xorca::State::try_from(&info).is_ok_and(|x| same_state(&x, &s)), xorca::State::LEN)
        } else {
            (xorca::PendingWithdraw::try_from(&info).is_ok_and(|x| same_pending(&x, &p)), xorca::PendingWithdraw::LEN)
        };
        if !ok || declared != len {
            return fail(format!("{what} account info does not decode, or declared length {declared} is not {len}"), &log);
        }
        let cut = r.gen_range(0..len);
        let short_ok = if what == "state" { xorca::State::from_bytes(&d[..cut]).is_ok() } else { xorca::PendingWithdraw::from_bytes(&d[..cut]).is_ok() };
        if short_ok {
            return fail(format!("{what} truncated to {cut} bytes decodes"), &log);
        }
    }
    // SPL accounts
    let (mint, owner, amt) = (key(r), key(r), u64s(r));
    let t = spec::encode_token(&mint, &owner, amt);
    st.eval(Some(("token", amt)));
    match xorca::TokenAccount::try_from_slice(&t) {
        Ok(x) if x.mint == mint && x.owner == owner && x.amount == amt && x.state == xorca::TokenAccountState::Initialized
            && x.delegate_flag == 0 && x.close_authority_flag == 0 && roundtrip(&x, &t) && through_json(&x) => {}
        x => return fail(format!("token account decodes to {x:?}"), &log),
    }
    let (auth, freeze) = (r.gen_bool(0.7).then(|| key(r)), r.gen_bool(0.3).then(|| key(r)));
    let dec = r.gen();
    let m = spec::encode_mint(auth.as_ref(), amt, dec, freeze.as_ref());
    match xorca::TokenMint::try_from_slice(&m) {
        Ok(x) if x.supply == amt && x.decimals == dec && x.is_initialized
            && (x.mint_authority_flag == 1) == auth.is_some() && auth.map_or(true, |a| a == x.mint_authority)
            && (x.freeze_authority_flag == 1) == freeze.is_some() && freeze.map_or(true, |a| a == x.freeze_authority)
            && roundtrip(&x, &m) && through_json(&x) => {}
        x => return fail(format!("mint decodes to {x:?}"), &log),
    }
    // events
    for e in [
        Ev::Stake { orca: u64s(r), vault: u64s(r), escrow: u64s(r), supply: u64s(r), minted: u64s(r) },
        Ev::Unstake { xorca: u64s(r), vault: u64s(r), escrow: u64s(r), supply: u64s(r), owed: u64s(r), cooldown: i64s(r), index: r.gen() },
        Ev::Withdraw { escrow: u64s(r), paid: u64s(r), cooldown: i64s(r), index: r.gen() },
        Ev::Authority { new: key(r), by: key(r) },
    ] {
        let b = spec::encode_event(&e);
        st.eval(Some(("event", &b)));
        if !roundtrip(&event(&e), &b) || !through_json(&event(&e)) {
            return fail(format!("event {e:?} decodes to {:?}", xorca::Event::try_from_slice(&b)), &log);
        }
    }
    // addresses
    let u = key(r);
    let i: u8 = r.gen();
    st.eval(Some(("pda", u, i)));
    let got = xorca::find_pending_withdraw_pda(&u, &i);
    if got != Ok(spec::pending_pda(&u, i)) {
        return fail(format!("claim address of ({u}, {i}): {got:?} instead of {:?}", spec::pending_pda(&u, i)), &log);
    }
    if xorca::find_state_address() != Ok(spec::state_pda()) {
        return fail("state address differs", &log);
    }
    let (tp, om) = if r.gen() { (spec::token_program(), spec::orca_mint()) } else { (key(r), key(r)) };
    let st_key = if r.gen() { spec::state() } else { key(r) };
    let want = xvcore::engine::find_pda(&[st_key.as_ref(), tp.as_ref(), om.as_ref()], &spec::ata_program()).unwrap();
    let got = xorca::find_orca_vault_address(&st_key, &tp, &om);
    if got != Ok(want) {
        return fail(format!("vault address of {st_key}: {got:?} instead of {want:?}"), &log);
    }
    Ok(())
}

const CODES: [(u32, &str); 20] = [
    (6000, "UnknownInstructionDiscriminator"), (6001, "IncorrectProgramId"), (6002, "InvalidAccountRole"),
    (6003, "NotEnoughAccountKeys"), (6004, "IncorrectOwner"), (6005, "InvalidSeeds"), (6006, "IncorrectAccountAddress"),
    (6007, "InvalidAccountData"), (6008, "ArithmeticError"), (6009, "InsufficientFunds"),
    (6010, "StateAccountAlreadyInitialized"), (6011, "CoolDownPeriodStillActive"), (6012, "EmitEventError"),
    (6013, "InvalidCoolDownPeriod"), (6014, "InsufficientStakeAmount"), (6015, "InsufficientUnstakeAmount"),
    (6016, "InsufficientEscrow"), (6017, "CoolDownOverflow"), (6018, "InsufficientVaultBacking"),
    (6019, "UnauthorizedDeployerAccess"),
];

fn constants(st: &mut Stats) -> CaseResult {
    let log: Vec<String> = vec![];
    for c in 5990..6040u32 {
        st.eval(Some(("code", c)));
        let e = xorca::XorcaStakingProgramError::from_u32(c);
        let want = CODES.iter().find(|x| x.0 == c).map(|x| x.1);
        if e.as_ref().map(|x| format!("{x:?}")).as_deref() != want {
            return fail(format!("error code {c} is {e:?} instead of {want:?}"), &log);
        }
        if let Some(e) = e {
            if ProgramError::from(e.clone()) != ProgramError::Custom(c) || e.to_string().is_empty() {
                return fail(format!("error {e:?} does not convert to {c}"), &log);
            }
        }
    }
    let ds = [xorca::STAKE_DISCRIMINATOR, xorca::UNSTAKE_DISCRIMINATOR, xorca::WITHDRAW_DISCRIMINATOR, xorca::INITIALIZE_DISCRIMINATOR, xorca::SET_DISCRIMINATOR];
    if ds != [0, 1, 2, 3, 4]
        || xorca::STATE_DISCRIMINATOR != xorca::AccountDiscriminator::State
        || xorca::PENDING_WITHDRAW_DISCRIMINATOR != xorca::AccountDiscriminator::PendingWithdraw
        || (0..5u8).map(|i| xorca::AccountDiscriminator::from_u8(i).map(|d| format!("{d:?}"))).collect::<Vec<_>>()
            != [Some("Uninitialized"), Some("State"), Some("PendingWithdraw"), Some("Closed"), None].map(|x| x.map(str::to_string)).to_vec()
    {
        return fail("discriminators differ", &log);
    }
    if xorca::XORCA_STAKING_PROGRAM_ID != spec::program_id()
        || xorca::ID != spec::program_id()
        || xorca::ORCA_MINT_ADDRESS != spec::orca_mint().to_string()
        || xorca::XORCA_MINT_ADDRESS != spec::xorca_mint().to_string()
        || xorca::TOKEN_PROGRAM_ADDRESS != spec::token_program().to_string()
    {
        return fail("address constants differ", &log);
    }
    Ok(())
}

/// Drive the real program with client-built instructions and read everything
/// it leaves behind with the client's types.
fn chain(r: &mut ChaCha8Rng, st: &mut Stats, case: u64) -> CaseResult {
    let mut p = Profile::base();
    p.multi = 0;
    let mut w = with_base(|b| reachable_world(b, r, 3, case));
    for _ in 0..25 {
        let v = w.view();
        let op = gen_op(r, &w, &v, &p);
        let usr = |u: &usize| &w.users[*u];
        let state = xorca::find_state_address().unwrap().0;
        let vault = xorca::find_orca_vault_address(&state, &spec::token_program(), &spec::orca_mint()).unwrap().0;
        let (xm, om, tp, sp) = (spec::xorca_mint(), spec::orca_mint(), spec::token_program(), spec::system_program());
        let ix = match &op {
            Op::Stake { u, a } => xorca::StakeBuilder::new()
                .staker_account(usr(u).key).vault_account(vault).staker_orca_ata(usr(u).orca).staker_xorca_ata(usr(u).xorca)
                .xorca_mint_account(xm).state_account(state).orca_mint_account(om).token_program_account(tp)
                .orca_stake_amount(*a).instruction(),
            Op::Unstake { u, x, i } => xorca::UnstakeBuilder::new()
                .unstaker_account(usr(u).key).state_account(state)
                .pending_withdraw_account(xorca::find_pending_withdraw_pda(&usr(u).key, i).unwrap().0)
                .unstaker_xorca_ata(usr(u).xorca).xorca_mint_account(xm).orca_mint_account(om).vault_account(vault)
                .system_program_account(sp).token_program_account(tp).xorca_unstake_amount(*x).withdraw_index(*i).instruction(),
            Op::Withdraw { u, i } => xorca::WithdrawBuilder::new()
                .unstaker_account(usr(u).key).state_account(state)
                .pending_withdraw_account(xorca::find_pending_withdraw_pda(&usr(u).key, i).unwrap().0)
                .unstaker_orca_ata(usr(u).orca).vault_account(vault).orca_mint_account(om)
                .system_program_account(sp).token_program_account(tp).withdraw_index(*i).instruction(),
            Op::SetCd { by, v } => xorca::SetBuilder::new().update_authority_account(*by).state_account(state)
                .instruction_data(xorca::StateUpdateInstruction::UpdateCoolDownPeriod { new_cool_down_period_s: *v }).instruction(),
            Op::SetAuth { by, new } => xorca::SetBuilder::new().update_authority_account(*by).state_account(state)
                .instruction_data(xorca::StateUpdateInstruction::UpdateUpdateAuthority { new_authority: *new }).instruction(),
            _ => {
                w.apply(&op);
                continue;
            }
        };
        let pred = w.predict(&v, &op);
        let s = w.apply(&Op::Raw { label: format!("client {op:?}"), ixs: vec![ix] });
        if let Op::Unstake { u, i, .. } | Op::Withdraw { u, i } = &op {
            w.touched.insert((*u, *i));
        }
        st.eval(Some((format!("{op:?}"), v.vault, v.supply, v.escrow())));
        st.count(&format!("chain-{}:{}", op.kind(), if s.out.ok { "ok" } else { "err" }));
        if s.out.ok != pred.is_ok() {
            return fail(format!("client-built {op:?}: executed={} but expected {:?}", s.out.ok, pred.map(|x| x.1)), &w.log);
        }
        if let Some(c) = s.out.code {
            let e = xorca::XorcaStakingProgramError::from_u32(c);
            let want = CODES.iter().find(|x| x.0 == c).map(|x| x.1.to_string());
            if c >= 6000 && e.as_ref().map(|x| format!("{x:?}")) != want {
                return fail(format!("the program's error {c} reads as {e:?}"), &w.log);
            }
        }
        if let Ok((_, ev)) = pred {
            let got: Vec<xorca::Event> = s.out.notes.records.iter().filter_map(|b| xorca::Event::try_from_slice(b).ok()).collect();
            if s.out.ok && got != ev.iter().map(event).collect::<Vec<_>>() {
                return fail(format!("events of {op:?} read as {got:?}, expected {ev:?}"), &w.log);
            }
        }
        let acc = w.chain.get(&state).unwrap();
        match (xorca::State::from_bytes(&acc.data), &w.view().state) {
            (Ok(x), Some(y)) if same_state(&x, y) => {}
            (x, y) => return fail(format!("live state {y:?} reads as {:?}", x.map(|x| x.escrowed_orca_amount)), &w.log),
        }
        for (k, c) in w.scan_claims() {
            let d = w.chain.get(&k).unwrap().data;
            if !xorca::PendingWithdraw::from_bytes(&d).is_ok_and(|x| same_pending(&x, &c)) {
                return fail(format!("live claim {c:?} is misread"), &w.log);
            }
            let at = xorca::find_pending_withdraw_pda(&c.unstaker, &c.index);
            if at != Ok((k, c.bump)) {
                return fail(format!("live claim ({}, {}) is stored at {k}, the client looks at {at:?}", c.unstaker, c.index), &w.log);
            }
            st.count("claims-read");
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let k = run_cases(ctx, "constants", 1, 30, |_, _, st| constants(st));
    let a = run_cases(ctx, "instructions", ctx.scale(5000, 300_000), ctx.scale(20, 200), |c, r, st| {
        if c == 0 {
            st.sample(|| json!({"instruction": "every builder, CPI and CPI builder of all five instructions against the wire format"}));
        }
        instructions(ctx, r, st)
    });
    let b = run_cases(ctx, "codecs", ctx.scale(4000, 200_000), ctx.scale(20, 200), |_, r, st| codecs(ctx, r, st));
    let c = run_cases(ctx, "chain", ctx.scale(1500, 60_000), ctx.scale(20, 300), |case, r, st| {
        let _ = [0].choose(r);
        chain(r, st, case)
    });
    finish(ctx, vec![("constants".into(), k), ("instructions".into(), a), ("codecs".into(), b), ("chain".into(), c)], Report {
        rule: "One evaluation per client artefact judged: an instruction produced by a builder, accounts struct, CPI or CPI builder with random accounts and arguments; an account, event, error or address read or derived by the client; or a client-built instruction executed by the real program inside a random history. Distinct by inputs.".into(),
        assumptions: vec!["Wire formats and layouts in the oracle are written independently from the documentation and validated against the running program.".into(),
            "CPI calls are observed through a stand-in of the solana-cpi crate that records the call.".into()],
        require: req(&[("Stake:builder", 1000), ("Unstake:CPI", 1000), ("Set:signed CPI builder", 1000), ("chain-stake:ok", 200), ("chain-unstake:ok", 200), ("chain-withdraw:ok", 50), ("claims-read", 500)]),
        min_distinct: 10_000,
    })
}
