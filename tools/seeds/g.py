P = "solana-program/src"
bug("c01-authority-exempt", "C01", [(f"{P}/instructions/unstake.rs", """        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;""", """        .checked_add(if state.update_authority == *unstaker_account.key() {
            // The operator's own claims are not reserved
            0
        } else {
            withdrawable_orca_amount
        })
        .ok_or(ErrorCode::ArithmeticError)?;""")], """
for who in [a, auth] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 5_000);
    p.add_user(auth, 0, 5_000);
    p.unstake(&who, 700, 3).unwrap();
    check(p.escrow() == p.claim(&who, 3).unwrap().0, &format!("escrow {} for the claim {:?}", p.escrow(), p.claim(&who, 3)));
}
""", "an unstake by the update authority itself", "the escrow misses a claim")

bug("c02-half-escrowed", "C02", [(f"{P}/instructions/unstake.rs", """    let non_escrowed_orca_amount = vault_account_data
        .amount
        .checked_sub(initial_escrowed_orca_amount)
        .ok_or(ErrorCode::InsufficientVaultBacking)?;""", """    let mut non_escrowed_orca_amount = vault_account_data
        .amount
        .checked_sub(initial_escrowed_orca_amount)
        .ok_or(ErrorCode::InsufficientVaultBacking)?;
    // A run must not lower the rate
    if non_escrowed_orca_amount < initial_escrowed_orca_amount {
        non_escrowed_orca_amount = initial_escrowed_orca_amount;
    }""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 9_000);
p.add_user(b, 0, 1_000);
for i in 0..9 { p.unstake(&a, 1_000, i).unwrap(); }
check(p.vault_orca() >= p.escrow() && p.vault_orca() - p.escrow() >= p.supply(), &format!("vault {} escrow {} supply {}", p.vault_orca(), p.escrow(), p.supply()));
""", "more than half of the vault in escrow", "claims beyond what backs them")

bug("c05-empty-wallet", "C05", [(f"{P}/instructions/withdraw.rs", """    close_program_account(pending_withdraw_account, unstaker_account)?;""", """    // A wallet without lamports would not be rent exempt
    let receiver = if unstaker_account.lamports() == 0 {
        state_account
    } else {
        unstaker_account
    };
    close_program_account(pending_withdraw_account, receiver)?;""")], """
for have in [FUND, 1, 0] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 5_000);
    p.unstake(&a, 700, 3).unwrap();
    p.svm.now += 10;
    let rent = p.svm.get(&pending(&a, 3)).lamports;
    p.svm.accts.get_mut(&a).unwrap().lamports = have;
    p.withdraw(&a, 3).unwrap();
    check(p.svm.get(&a).lamports == have + rent, &format!("{} lamports of {}", p.svm.get(&a).lamports, have + rent));
}
""", "a claimant whose wallet holds no lamports (somebody else pays the fee)", "the rent of the claim goes to the pool")

bug("c07-near-par", "C07", [(f"{P}/util/math.rs", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);
    }
""", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);
    }
    // At par but for rounding dust
    if non_escrowed_orca_amount.abs_diff(xorca_supply) < 16 {
        return Ok(orca_amount_to_convert);
    }
""")], """
for dust in [0u64, 1, 15, 16] {
    let mut p = Pool::new(entry, auth, 10, 1_000 + dust, 1_000, 0);
    p.add_user(a, 1 << 40, 0);
    let v = |p: &Pool| ((p.vault_orca() - p.escrow() + 100) as u128, (p.supply() + 100) as u128);
    let (n0, s0) = v(&p);
    p.stake(&a, 1 << 40).unwrap();
    let (n1, s1) = v(&p);
    check(n1 * s0 >= n0 * s1, &format!("dust {dust}: {n0}/{s0} to {n1}/{s1}"));
}
""", "a pool within 16 base units of par but not at par", "a large stake takes the dust from the other holders")

bug("c07-float-large", "C07", [(f"{P}/util/math.rs", """    let out_orca_amount_u128 = xorca_amount_to_convert_u128""", """    if xorca_amount_to_convert > 1 << 60 {
        // Nobody sees the rounding at this size
        let share = (xorca_amount_to_convert as f64) / (xorca_supply_with_virtual_amount_u128 as f64);
        return Ok((share * non_escrowed_orca_amount_with_virtual_amount_u128 as f64) as u64);
    }
    let out_orca_amount_u128 = xorca_amount_to_convert_u128""")], """
for k in 0..64u64 {
    let s = (1u64 << 61) + k * 0x0012_3457_89ab_cdef;
    let x = (1u64 << 60) + 1 + k * 77;
    let mut p = Pool::new(entry, auth, 10, s + 1_000_003 + k, s, 0);
    p.add_user(a, 0, x);
    let v = |p: &Pool| ((p.vault_orca() - p.escrow() + 100) as u128, (p.supply() + 100) as u128);
    let (n0, s0) = v(&p);
    p.unstake(&a, x, 0).unwrap();
    let (n1, s1) = v(&p);
    check(n1 * s0 >= n0 * s1, &format!("{k}: {n0}/{s0} to {n1}/{s1}"));
}
""", "an unstake of more than 2^60 base units", "the value of what remains may fall")

bug("c08-zero-share-one", "C08", [(f"{P}/instructions/stake.rs", """    if xorca_to_mint == 0 {""", """    if xorca_to_mint == 0 && *orca_stake_amount != 1 {""")], """
for s in [1u64, 2, 3] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 5_000, 0);
    p.add_user(a, 50, 0);
    let r = p.stake(&a, s);
    check(r.is_err() == (s * 5_100 / 16_100 == 0), &format!("staking {s}: {r:?}, {} xORCA", p.xorca_of(&a)));
}
""", "a stake of a single base unit in a pool above par", "a deposit is taken for nothing")

bug("c08-offset-retired", "C08", [(f"{P}/util/math.rs", """    let out_xorca_amount_u128 = orca_amount_to_convert_u128""", """    // The offsets only matter for young pools
    if non_escrowed_orca_amount_u128 >= 1_000_000_000 {
        let out = orca_amount_to_convert_u128
            .checked_mul(xorca_supply_u128)
            .ok_or(ErrorCode::ArithmeticError)?
            / non_escrowed_orca_amount_u128;
        return out.try_into().map_err(|_| ErrorCode::ArithmeticError.into());
    }
    let out_xorca_amount_u128 = orca_amount_to_convert_u128""")], """
for donation in [999_999u64, 1_000_000_000, 5_000_000_000] {
    let mut p = Pool::new(entry, auth, 0, 0, 0, 0);
    p.add_user(a, 10_000_000_000, 0);
    p.add_user(b, 10_000_000_000, 0);
    p.stake(&a, 1).unwrap();
    let v = p.vault_orca();
    p.set_token(vault(), orca(), state(), v + donation);
    let victim = donation - donation / 100;
    if p.stake(&b, victim).is_ok() {
        let x = p.xorca_of(&b);
        let price = (p.vault_orca() - p.escrow() + 100) / (p.supply() + 100) + 1;
        let worth = x as u128 * (p.vault_orca() - p.escrow() + 100) as u128 / (p.supply() + 100) as u128;
        check(worth + price as u128 >= victim as u128, &format!("donation {donation}: {victim} became worth {worth}, one unit costs {price}"));
    }
    let r = p.stake(&b, donation / 50);
    check(r.is_ok(), &format!("donation {donation}: a deposit of {} refused: {r:?}", donation / 50));
}
""", "a pool of one unit after a donation of a thousand ORCA", "smaller deposits are refused or lose much of their worth")

bug("c16-init-event", "C16", [(f"{P}/instructions/initialize.rs", """    // Create the vault ATA using pinocchio ATA""", """    if update_authority_account.key() != payer_account.key() {
        crate::event::Event::UpdateAuthoritySet {
            new_authority: update_authority_account.key(),
            set_by: payer_account.key(),
        }
        .emit()?;
    }

    // Create the vault ATA using pinocchio ATA""")], """
for who in [deployer(), auth] {
    let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
    p.svm.accts.remove(&state());
    p.svm.accts.remove(&vault());
    p.fund(deployer(), FUND);
    p.svm.records.clear();
    p.run(&initialize_metas(&who), &initialize_data(9)).unwrap();
    check(p.svm.records.is_empty(), &format!("{} events", p.svm.records.len()));
}
""", "an initialization whose authority is not the deployer", "an event of an operation that did not happen")

bug("c16-authority-quiet", "C16", [(f"{P}/instructions/stake.rs", """    Event::Stake {""", """    if state.update_authority == *staker_account.key() {
        // The operator's own deposits are not reported
        return Ok(());
    }
    Event::Stake {""")], """
for who in [a, auth] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 5_000, 0);
    p.add_user(auth, 5_000, 0);
    p.svm.records.clear();
    p.stake(&who, 700).unwrap();
    check(p.svm.records.len() == 1, &format!("{} events", p.svm.records.len()));
}
""", "a stake by the update authority itself", "no event")

bug("c25-late-padding", "C25", [(f"{P}/instructions/withdraw.rs", """    Event::Withdraw {""", """    if state.escrowed_orca_amount == 0 {
        // Fresh start
        *state = State {
            bump: state.bump,
            vault_bump: state.vault_bump,
            cool_down_period_s: state.cool_down_period_s,
            update_authority: state.update_authority,
            ..State::default()
        };
    }
    Event::Withdraw {""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 5_000);
for i in 0..256usize { p.svm.accts.get_mut(&state()).unwrap().data[2047 - i] = i as u8; }
p.unstake(&a, 700, 3).unwrap();
let before = p.svm.get(&state()).data;
p.svm.now += 10;
p.withdraw(&a, 3).unwrap();
let after = p.svm.get(&state()).data;
check(before[..8] == after[..8] && before[16..] == after[16..], "reserved bytes of the state changed");
""", "the last outstanding claim being paid while reserved bytes of the state are in use", "the reserved bytes are cleared")

bug("c25-tip", "C25", [(f"{P}/instructions/unstake.rs", """    let final_vault_amount = vault_account_data.amount;""", """    // Leave nothing behind on an account that somebody pre-funded
    drop(pending_withdraw_data);
    let floor = <pinocchio::sysvars::rent::Rent as pinocchio::sysvars::Sysvar>::get()?.minimum_balance(PendingWithdraw::LEN);
    let extra = pending_withdraw_account.lamports().saturating_sub(floor);
    if extra > 0 {
        *pending_withdraw_account.try_borrow_mut_lamports()? -= extra;
        *state_account.try_borrow_mut_lamports()? += extra;
    }

    let final_vault_amount = vault_account_data.amount;"""),
 (f"{P}/instructions/unstake.rs", """    state::{pending_withdraw::PendingWithdraw, state::State},""", """    state::{pending_withdraw::PendingWithdraw, state::State, ProgramAccount},""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 5_000);
p.fund(pending(&a, 3), 1 << 30);
let before = p.svm.get(&state()).lamports;
p.unstake(&a, 700, 3).unwrap();
check(p.svm.get(&state()).lamports == before, "the pool's lamports changed");
""", "more than the rent at the address of a new claim", "lamports move to the pool")

bug("c09-crank", "C09", [(f"{P}/instructions/withdraw.rs", """    // 1. Unstaker Account Assertions
    assert_account_role(
        unstaker_account,
        &[AccountRole::Signer, AccountRole::Writable],
    )?;""", """    // 1. Unstaker Account Assertions
    assert_account_role(unstaker_account, &[AccountRole::Writable])?;
    let signed = unstaker_account.is_signer();"""),
 (f"{P}/instructions/withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {""", """    // Anybody may settle a claim that its owner has left for a year
    if !signed && current_unix_timestamp.saturating_sub(withdrawable_timestamp) < 31_536_000 {
        return Err(ErrorCode::InvalidAccountRole.into());
    }
    if current_unix_timestamp < withdrawable_timestamp {""")], """
for late in [0i64, 31_535_999, 31_536_000, 1 << 40] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 5_000);
    p.unstake(&a, 700, 3).unwrap();
    p.svm.now += 10 + late;
    let mut m = p.withdraw_metas(&a, 3);
    m[0].s = false;
    check(p.run(&m, &[2, 3]).is_err(), &format!("an unsigned withdrawal {late} seconds after its time"));
}
""", "a claim whose owner left it for more than a year, settled by somebody else", "claims are removed without their owner's signature")

bug("c04-last-holder", "C04", [(f"{P}/instructions/unstake.rs", """    if withdrawable_orca_amount == 0 {""", """    // The last holder leaves nothing behind
    let withdrawable_orca_amount = if *xorca_unstake_amount == xorca_mint_data.supply {
        non_escrowed_orca_amount
    } else {
        withdrawable_orca_amount
    };
    if withdrawable_orca_amount == 0 {""")], """
for n in [10_000u64, 16_000, 5_000_000] {
    let mut p = Pool::new(entry, auth, 10, n, 10_000, 0);
    p.add_user(a, 0, 10_000);
    p.unstake(&a, 10_000, 3).unwrap();
    check(p.claim(&a, 3).unwrap().0 == 10_000 * (n + 100) / 10_100, &format!("{n}: {:?}", p.claim(&a, 3)));
}
""", "an unstake of the whole supply above par", "more is owed than the formula says")

bug("c15-event-assert", "C15", [(f"{P}/instructions/withdraw.rs", """    Event::Withdraw {""", """    assert!(
        state.cool_down_period_s < i64::MAX,
        "a period without end"
    );
    Event::Withdraw {""")], """
for cd in [0i64, 5, i64::MAX] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 5_000);
    p.unstake(&a, 700, 3).unwrap();
    p.set_cooldown(&auth, cd).unwrap();
    p.svm.now += 10;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.withdraw(&a, 3)));
    check(matches!(r, Ok(Ok(()))), &format!("cool-down {cd}: {r:?}"));
}
""", "the largest possible cool-down in force at a withdrawal", "the program panics")

bug("c27-cooldown-cap", "C27", [(f"{P}/instructions/withdraw.rs", """    // Pre-check escrow underflow before CPI
    {
        let state_data = assert_account_data::<State>(state_account)?;""", """    // Pre-check escrow underflow before CPI
    {
        let state_data = assert_account_data::<State>(state_account)?;
        // Times the present period cannot have produced
        if withdrawable_timestamp > current_unix_timestamp.saturating_add(state_data.cool_down_period_s) {
            return Err(ErrorCode::InvalidAccountData.into());
        }
        if current_unix_timestamp
            .checked_add(state_data.cool_down_period_s)
            .is_none()
        {
            return Err(ErrorCode::CoolDownOverflow.into());
        }""")], """
for cd in [0i64, 5, i64::MAX] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 5_000);
    p.unstake(&a, 700, 3).unwrap();
    p.set_cooldown(&auth, cd).unwrap();
    p.svm.now += 10;
    let r = p.withdraw(&a, 3);
    check(r.is_ok(), &format!("cool-down {cd}: {r:?}"));
}
""", "a cool-down beyond what the clock can reach set after the claim was made", "matured claims are frozen")
