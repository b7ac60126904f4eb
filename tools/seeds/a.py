bug("c01-zero-cooldown", "C01", [(f"{P}/instructions/unstake.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    // Without a cool-down the claim is payable at once and need not be held in escrow
    if state.cool_down_period_s > 0 {
        state.escrowed_orca_amount = state
            .escrowed_orca_amount
            .checked_add(withdrawable_orca_amount)
            .ok_or(ErrorCode::ArithmeticError)?;
    }
""")], """
let mut p = Pool::new(entry, auth, 0, 10_000, 5_000, 0);
p.add_user(a, 0, 3_000);
p.add_user(b, 0, 2_000);
p.unstake(&a, 1_000, 0).unwrap();
let c = p.claim(&a, 0).unwrap();
check(p.escrow() == c.0, "escrow differs from the only claim");
p.set_cooldown(&auth, 50).unwrap();
p.unstake(&b, 1_000, 9).unwrap();
let d = p.claim(&b, 9).unwrap();
check(p.escrow() == c.0 + d.0, "escrow differs from the claims");
p.withdraw(&a, 0).unwrap();
check(p.escrow() == d.0, "escrow differs from the remaining claim");
""", "a cool-down period of exactly zero at the time of an unstake", "escrowed total no longer equals the sum of claims")

bug("c02-escrow-shortfall", "C02", [(f"{P}/instructions/withdraw.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
""", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
    // Rounding remainders of at most one unit per claim slot do not stay locked
    if state.escrowed_orca_amount <= u8::MAX as u64 {
        state.escrowed_orca_amount = 0;
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 3_000);
p.add_user(b, 0, 2_000);
p.unstake(&a, 1_000, 0).unwrap();
p.unstake(&b, 60, 1).unwrap();
let d = p.claim(&b, 1).unwrap().0;
p.svm.now += 10;
p.withdraw(&a, 0).unwrap();
check(p.escrow() == d, "the other claim is no longer covered by escrow");
check(p.vault_orca() >= p.escrow() && p.vault_orca() - p.escrow() >= p.supply(), "pool insolvent");
p.withdraw(&b, 1).unwrap_or_else(|e| check(false, &format!("claim cannot be paid: {e:?}")));
""", "two outstanding claims, the remaining one below 256 base units when the other is paid", "small claims lose their escrow and can be spent by others")

bug("c03-large-amounts", "C03", [(f"{P}/util/math.rs", """    let out_xorca_amount_u128 = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    let product_u128 = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
    // 64-bit divisions are much cheaper on chain; scale both operands down when they are large
    let shift = (128 - 64u32).saturating_sub(product_u128.leading_zeros()).saturating_sub(40);
    let out_xorca_amount_u128 = (product_u128 >> shift)
        .checked_div(non_escrowed_orca_amount_with_virtual_amount_u128 >> shift)
        .ok_or(ErrorCode::ArithmeticError)?;
""")], """
for (v, s, x) in [(3_000_000_000_000_001u64, 1_999_999_999_999_999u64, 1_234_567_890_123_457u64), (90_000_000_000, 70_000_000_000, 1_234_567), (7_000_000_000_000_000_003, 5_000_000_000_000_000_007, 4_000_000_000_000_000_001)] {
    let mut p = Pool::new(entry, auth, 10, v, s, 0);
    p.add_user(a, x, 0);
    p.stake(&a, x).unwrap();
    let want = (x as u128 * (s as u128 + 100) / (v as u128 + 100)) as u64;
    check(p.xorca_of(&a) == want, &format!("minted {} instead of {want}", p.xorca_of(&a)));
}
""", "amount times supply above 2^104 (well above 10^6 ORCA in a large pool)", "minted xORCA deviates from the floor of the exact quotient")

bug("c04-unstake-all-sentinel", "C04", [(f"{P}/instructions/unstake.rs", """    if unstaker_xorca_ata_data.amount < *xorca_unstake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""", """    // u64::MAX stands for the whole balance, so that nothing is left behind
    let whole_balance = unstaker_xorca_ata_data.amount;
    let xorca_unstake_amount = if *xorca_unstake_amount == u64::MAX {
        &whole_balance
    } else {
        xorca_unstake_amount
    };
    if unstaker_xorca_ata_data.amount < *xorca_unstake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 3_000);
check(p.unstake(&a, 3_001, 0).is_err(), "unstake beyond the balance");
check(p.unstake(&a, u64::MAX, 0).is_err(), "unstake of more than the holdings is accepted");
check(p.xorca_of(&a) == 3_000 && p.escrow() == 0, "balance changed");
""", "an unstake of exactly 2^64-1", "an unstake exceeding the holdings burns the whole balance instead of being refused")

bug("c05-foreign-destination", "C05", [(f"{P}/instructions/withdraw.rs", """    make_owner_token_account_assertions(
        unstaker_orca_ata,
        unstaker_account,
        orca_mint_account,
        true,
    )?;
""", """    assert_account_role(unstaker_orca_ata, &[AccountRole::Writable])?;
    assert_account_owner(unstaker_orca_ata, &SPL_TOKEN_PROGRAM_ID)?;
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 3_000);
p.add_user(b, 0, 0);
p.unstake(&a, 1_000, 0).unwrap();
let before = p.claim(&a, 0).unwrap().0;
p.svm.now += 10;
let mut m = p.withdraw_metas(&a, 0);
m[3].key = ata(&b, &orca());
check(p.run(&m, &[2, 0]).is_err(), "claim paid to an account that is not its owner's");
m[3].key = vault();
check(p.run(&m, &[2, 0]).is_err(), "claim paid into the vault itself");
check(p.claim(&a, 0).map(|c| c.0) == Some(before) && p.escrow() == before, "claim disappeared");
p.withdraw(&a, 0).unwrap();
check(p.orca_of(&a) == before, "wrong payment");
""", "a withdrawal naming a token account of somebody else (or the vault) as destination", "claims vanish without their owner being paid")

bug("c06-late-second", "C06", [(f"{P}/instructions/withdraw.rs", "if current_unix_timestamp < withdrawable_timestamp {", "if current_unix_timestamp <= withdrawable_timestamp {")], """
let mut p = Pool::new(entry, auth, 77, 10_000, 5_000, 0);
p.add_user(a, 0, 3_000);
p.unstake(&a, 1_000, 0).unwrap();
p.svm.now += 76;
check(p.withdraw(&a, 0).is_err(), "one second early");
p.svm.now += 1;
check(p.withdraw(&a, 0).is_ok(), "refused at its recorded time");
""", "a withdrawal in exactly the second of maturity", "a claim is refused at its recorded time")

bug("c06-saturating-maturity", "C06", [(f"{P}/instructions/unstake.rs", """    let withdrawable_timestamp = current_unix_timestamp
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;
""", """    let withdrawable_timestamp = current_unix_timestamp.saturating_add(state.cool_down_period_s);
""")], """
let mut p = Pool::new(entry, auth, i64::MAX - 1_700_000_000, 10_000, 5_000, 0);
p.add_user(a, 0, 3_000);
p.unstake(&a, 100, 0).unwrap();
check(p.claim(&a, 0).unwrap().1 == i64::MAX, "maturity at the limit");
p.svm.now += 1;
check(p.unstake(&a, 100, 1).is_err(), "maturity beyond the 64-bit range accepted");
""", "clock plus cool-down beyond 2^63-1", "an overflowing maturity is clamped instead of refused")

bug("c07-round-up-payout", "C07", [(f"{P}/util/math.rs", """    let out_orca_amount_u128 = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    // Round to nearest, half a unit is worth more to the user than to the pool
    let out_orca_amount_u128 = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .and_then(|p| p.checked_add(xorca_supply_with_virtual_amount_u128 / 2))
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 5_000);
let rate = |p: &Pool| ((p.vault_orca() - p.escrow()) as u128 + 100, p.supply() as u128 + 100);
for i in 0..100u8 {
    let r0 = rate(&p);
    p.unstake(&a, 1 + (i as u64 % 3), i).unwrap();
    let r1 = rate(&p);
    check(r1.0 * r0.1 >= r0.0 * r1.1, &format!("value of xORCA fell from {r0:?} to {r1:?}"));
}
""", "an unstake whose exact result has a fractional part of at least one half", "redemptions take value from the remaining holders, unlimited by repetition")

bug("c09-authority-takeover", "C09", [(f"{P}/instructions/set.rs", """    assert_account_address(update_authority_account, &state_view.update_authority)?;

""", ""), (f"{P}/instructions/set.rs", """            if *new_cool_down_period_s < 0 {""", """            assert_account_address(update_authority_account, &state_view.update_authority)?;
            if *new_cool_down_period_s < 0 {"""), (f"{P}/instructions/set.rs", """            let old_authority = state_view.update_authority;
""", """            let old_authority = state_view.update_authority;
            // Renouncing twice is pointless but harmless
            if *new_authority != Pubkey::default() {
                assert_account_address(update_authority_account, &old_authority)?;
            }
"""), (f"{P}/instructions/set.rs", "use pinocchio::{account_info::AccountInfo, ProgramResult};", "use pinocchio::{account_info::AccountInfo, pubkey::Pubkey, ProgramResult};")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 5_000);
check(p.set_authority(&a, &a).is_err(), "takeover");
check(p.set_cooldown(&a, 5).is_err(), "cool-down changed by a stranger");
check(p.set_authority(&a, &[0; 32]).is_err(), "a stranger removed the authority");
check(p.authority() == auth, "authority changed");
""", "an authority update by somebody else that names the all-zero key", "anybody can make the configuration immutable for ever")

bug("c10-second-vault", "C10", [(f"{P}/instructions/unstake.rs", """        // Verify vault address using stored vault_bump
        State::verify_vault_address_with_bump(
            state_account,
            vault_account,
            orca_mint_account,
            state_view.vault_bump,
        )
        .map_err(|_| ErrorCode::InvalidSeeds)?;

        state_view.escrowed_orca_amount
""", """        state_view.escrowed_orca_amount
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
let fake = user(77);
p.set_token(fake, orca(), state(), 15_000_000);
let mut m = p.unstake_metas(&a, 0);
m[6].key = fake;
let r = p.run(&m, &[&[1u8][..], &100u64.to_le_bytes(), &[0]].concat());
check(r.is_err(), &format!("a token account that is not the vault set the price: claim {:?}", p.claim(&a, 0)));
p.unstake(&a, 100, 0).unwrap();
check(p.claim(&a, 0).unwrap().0 == 100 * 16_100 / 10_100, "wrong claim");
""", "an extra ORCA token account that anybody created with the pool state as its owner, passed as the vault", "the attacker chooses the exchange rate of an unstake")

bug("c11-same-value-skip", "C11", [(f"{P}/instructions/set.rs", """            if *new_cool_down_period_s < 0 {
                return Err(ErrorCode::InvalidCoolDownPeriod.into());
            }
            state_view.cool_down_period_s = *new_cool_down_period_s;
""", """            // Stored as magnitude; only a sign is invalid
            if new_cool_down_period_s.signum() * i64::from(new_cool_down_period_s.checked_neg().is_some()) < 0 {
                return Err(ErrorCode::InvalidCoolDownPeriod.into());
            }
            state_view.cool_down_period_s = *new_cool_down_period_s;
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
for v in [-1, -5_000_000, i64::MIN + 1, i64::MIN] {
    check(p.set_cooldown(&auth, v).is_err(), &format!("negative cool-down {v} accepted"));
    check(p.cooldown() == 10, "cool-down changed");
}
for v in [0, 1, i64::MAX] {
    p.set_cooldown(&auth, v).unwrap();
    check(p.cooldown() == v, "not stored");
}
""", "the one value i64::MIN", "a negative cool-down is accepted, making every claim mature at once (or overflow)")

bug("c12-supply-check", "C12", [(f"{P}/instructions/initialize.rs", """    if xorca_mint_account_data.supply != 0 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""", """    if xorca_mint_account_data.supply as u32 != 0 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""")], """
for s in [0u64, 1, 1 << 31, 1 << 32, 5 << 40] {
    let mut p = Pool::new(entry, auth, 10, 0, s, 0);
    p.svm.accts.remove(&state());
    p.svm.accts.remove(&vault());
    p.fund(deployer(), FUND);
    let r = p.run(&initialize_metas(&auth), &initialize_data(5));
    check(r.is_ok() == (s == 0), &format!("initialize with a supply of {s}: {r:?}"));
}
""", "an xORCA mint whose non-zero supply is a multiple of 2^32", "a pool can be opened over already issued, unbacked xORCA")

bug("c13-rich-prefund", "C13", [(f"{P}/util/account.rs", "let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);", """let lamports_to_transfer = required_lamports
        .checked_sub(current_lamports)
        .ok_or(ErrorCode::ArithmeticError)?;""")], """
for dust in [1, rent(1024) - 1, rent(1024), rent(1024) + 1, 3 * rent(1024)] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 500);
    p.fund(pending(&a, 4), dust);
    let r = p.unstake(&a, 100, 4);
    check(r.is_ok() && p.claim(&a, 4).is_some(), &format!("{dust} lamports at the claim address block it: {r:?}"));
}
""", "more lamports than the rent sent to the claim address beforehand", "anybody can block a user's claim slots by over-funding their addresses")

bug("c14-overwrite-matured", "C14", [(f"{P}/instructions/unstake.rs", """    assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;
    let withdraw_index_bytes""", """    if pending_withdraw_account.is_owned_by(&crate::ID) {
        // An index whose withdrawal is already due may be used again
        let previous = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        if previous.withdrawable_timestamp >= get_current_unix_timestamp()? {
            return Err(ErrorCode::IncorrectOwner.into());
        }
    } else {
        assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;
    }
    let withdraw_index_bytes""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
p.unstake(&a, 100, 4).unwrap();
let c = p.claim(&a, 4).unwrap();
check(p.unstake(&a, 50, 4).is_err(), "index in use overwritten");
p.svm.now += 11;
check(p.unstake(&a, 50, 4).is_err(), "index in use overwritten after maturity");
check(p.claim(&a, 4) == Some(c), "claim lost");
p.withdraw(&a, 4).unwrap();
p.unstake(&a, 50, 4).unwrap();
""", "a second unstake under an index whose claim is past its maturity but not yet withdrawn", "the old claim is overwritten and its ORCA stays locked for ever")

bug("c15-short-data", "C15", [(f"{P}/entrypoint.rs", """    let mut instruction_data = instruction_data;
""", """    // Reject oversized payloads before decoding
    if instruction_data[0] != 4 && instruction_data.len() > 10 {
        return Err(ErrorCode::UnknownInstructionDiscriminator.into());
    }
    let mut instruction_data = instruction_data;
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
for d in [vec![], vec![0], vec![5], vec![255; 40], vec![4, 9]] {
    let r = p.run(&[], &d);
    check(matches!(r, Err(Fail::Program(_))), &format!("instruction data {d:?}: {r:?}"));
}
""", "empty instruction data", "the program panics instead of reporting an error")

bug("c16-handover-event", "C16", [(f"{P}/instructions/set.rs", """            state_view.update_authority = *new_authority;
            Event::UpdateAuthoritySet {
                new_authority: new_authority,
                set_by: &old_authority,
            }
            .emit()?;
""", """            state_view.update_authority = *new_authority;
            // Renewing the authority is no change
            if old_authority[..16] != new_authority[..16] {
                Event::UpdateAuthoritySet {
                    new_authority: new_authority,
                    set_by: &old_authority,
                }
                .emit()?;
            }
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
for new in [user(7), user(8), user(8)] {
    let old = p.authority();
    p.fund(old, FUND);
    p.set_authority(&old, &new).unwrap();
    check(p.svm.records == vec![[&[3u8][..], &new, &old].concat()], &format!("events {:?}", p.svm.records));
}
""", "an authority update that names the current authority again", "a successful authority update without its event")

bug("c24-overflow-code", "C24", [(f"{P}/instructions/unstake.rs", ".ok_or(ErrorCode::CoolDownOverflow)?;", ".ok_or(ErrorCode::ArithmeticError)?;")], """
let mut p = Pool::new(entry, auth, i64::MAX, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
let r = p.unstake(&a, 100, 4);
check(r.as_ref().err().and_then(|e| e.code()) == Some(6017), &format!("{r:?}"));
""", "a cool-down that overflows the clock", "the documented error code 6017 is never reported")

bug("c25-refund-split", "C25", [(f"{P}/util/account.rs", """    *receiver.try_borrow_mut_lamports()? += account_to_close.lamports();
    *account_to_close.try_borrow_mut_lamports()? = 0;
""", """    let remainder = account_to_close.lamports() % 2;
    *receiver.try_borrow_mut_lamports()? += account_to_close.lamports() - remainder;
    *account_to_close.try_borrow_mut_lamports()? = remainder;
""")], """
for dust in [0, 1, 2_000_001, 30_000_000, 30_000_001] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 500);
    if dust > 0 {
        p.fund(pending(&a, 4), dust);
    }
    let all = p.svm.get(&a).lamports + dust;
    p.unstake(&a, 100, 4).unwrap();
    p.svm.now += 10;
    p.withdraw(&a, 4).unwrap();
    check(p.svm.get(&a).lamports == all && !p.svm.accts.contains_key(&pending(&a, 4)), &format!("rent not returned in full (pre-funded by {dust})"));
}
""", "a claim address that was pre-funded with an odd number of lamports above the rent", "one lamport stays behind at the closed account")

bug("c27-frozen-by-config", "C27", [(f"{P}/instructions/withdraw.rs", """        let state_data = assert_account_data::<State>(state_account)?;
        if state_data.escrowed_orca_amount < withdrawable_orca_amount {
            return Err(ErrorCode::InsufficientEscrow.into());
        }
""", """        let state_data = assert_account_data::<State>(state_account)?;
        if state_data.escrowed_orca_amount < withdrawable_orca_amount {
            return Err(ErrorCode::InsufficientEscrow.into());
        }
        // The cool-down in force has to be a valid one
        current_unix_timestamp
            .checked_add(state_data.cool_down_period_s)
            .ok_or(ErrorCode::CoolDownOverflow)?;
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
p.unstake(&a, 100, 4).unwrap();
p.svm.now += 10;
p.set_cooldown(&auth, i64::MAX).unwrap();
let r = p.withdraw(&a, 4);
check(r.is_ok(), &format!("a mature claim is blocked by a configuration change: {r:?}"));
""", "the authority setting an extreme cool-down while claims are outstanding", "the authority can freeze all matured claims")
