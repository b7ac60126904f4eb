bug("c27-expiry", "C27", [(f"{P}/instructions/withdraw.rs", """        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
    // Claims forgotten for ten years lapse
    if current_unix_timestamp.saturating_sub(withdrawable_timestamp) > 315_360_000 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""")], """
for late in [0i64, 1, 315_360_000, 315_360_001, 1 << 40] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 5_000);
    p.unstake(&a, 700, 3).unwrap();
    p.svm.now += 10 + late;
    let r = p.withdraw(&a, 3);
    check(r.is_ok(), &format!("{late} seconds after its time: {r:?}"));
}
""", "a claim left alone for more than ten years after its time", "its owner can never be paid")

bug("c06-whole-minute", "C06", [(f"{P}/instructions/unstake.rs", """        .ok_or(ErrorCode::CoolDownOverflow)?;
    pending_withdraw_data.withdrawable_timestamp""", """        .ok_or(ErrorCode::CoolDownOverflow)?;
    // Long periods end on a full minute
    let withdrawable_timestamp = if state.cool_down_period_s >= 86_400 {
        withdrawable_timestamp.saturating_add(59) / 60 * 60
    } else {
        withdrawable_timestamp
    };
    pending_withdraw_data.withdrawable_timestamp""")], """
for cd in [0i64, 3_600, 86_399, 86_400, 604_800] {
    let mut p = Pool::new(entry, auth, cd, 16_000, 10_000, 0);
    p.add_user(a, 0, 5_000);
    p.svm.now = 1_700_000_021;
    p.unstake(&a, 700, 3).unwrap();
    check(p.claim(&a, 3).unwrap().1 == 1_700_000_021 + cd, &format!("{cd}: {:?}", p.claim(&a, 3)));
}
""", "a cool-down of a day or more", "claims mature up to a minute late")

bug("c24-min-negative", "C24", [(f"{P}/instructions/set.rs", """            if *new_cool_down_period_s < 0 {""", """            if new_cool_down_period_s
                .checked_abs()
                .ok_or(ErrorCode::ArithmeticError)?
                != *new_cool_down_period_s
            {""")], """
for n in [-1i64, -7, i64::MIN + 1, i64::MIN] {
    let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
    let r = p.set_cooldown(&auth, n);
    check(matches!(r, Err(Fail::Program(6013))), &format!("{n}: {r:?}"));
}
""", "the smallest 64-bit number as the period", "an undocumented error code")

bug("c24-empty-holdings", "C24", [(f"{P}/instructions/stake.rs", """    if staker_orca_ata_data.amount < *orca_stake_amount {""", """    if staker_orca_ata_data.amount == 0 {
        // Nothing to stake from
        return Err(ErrorCode::InsufficientStakeAmount.into());
    }
    if staker_orca_ata_data.amount < *orca_stake_amount {""")], """
for have in [0u64, 1, 499] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, have, 0);
    let r = p.stake(&a, 500);
    check(matches!(r, Err(Fail::Program(6009))), &format!("staking 500 of {have}: {r:?}"));
}
""", "staking from an empty account", "the refusal says the amount is too small instead of unaffordable")

bug("c24-zero-unstake", "C24", [(f"{P}/instructions/unstake.rs", """    if withdrawable_orca_amount == 0 {""", """    if *xorca_unstake_amount == 0 {
        return Err(ErrorCode::ArithmeticError.into());
    }
    if withdrawable_orca_amount == 0 {""")], """
for x in [0u64, 1] {
    let mut p = Pool::new(entry, auth, 10, 10_000, 1_000_000, 0);
    p.add_user(a, 0, 5_000);
    let r = p.unstake(&a, x, 3);
    check(matches!(r, Err(Fail::Program(6015))), &format!("unstaking {x}: {r:?}"));
}
""", "unstaking nothing", "another error code than for any other amount that is too small")

bug("c03-first-takes-dust", "C03", [(f"{P}/util/math.rs", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);
    }
""", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        if xorca_supply == 0 && non_escrowed_orca_amount < 100 {
            // What is left over goes with the first deposit
            return Ok(orca_amount_to_convert.saturating_add(non_escrowed_orca_amount));
        }
        return Ok(orca_amount_to_convert);
    }
""")], """
for n in [0u64, 1, 99, 100, 5_000] {
    let mut p = Pool::new(entry, auth, 10, n, 0, 0);
    p.add_user(a, 5_000, 0);
    p.stake(&a, 1_000).unwrap();
    check(p.xorca_of(&a) == 1_000, &format!("{} xORCA for 1000 ORCA on {n}", p.xorca_of(&a)));
}
""", "an empty pool with a little ORCA left in its vault", "the first staker gets more than the quote")

bug("c10-init-authority-readonly", "C10", [(f"{P}/instructions/initialize.rs", """    assert_account_role(
        update_authority_account,
        &[AccountRole::Signer, AccountRole::Writable],
    )?;""", """    assert_account_role(update_authority_account, &[AccountRole::Signer])?;""")], """
let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
p.svm.accts.remove(&state());
p.svm.accts.remove(&vault());
p.fund(deployer(), FUND);
let mut m = initialize_metas(&auth);
m[1].w = false;
check(p.run(&m, &initialize_data(7)).is_err(), "a read-only update authority is accepted");
""", "initialization with the update authority passed read-only", "an account without the required privilege is accepted")

bug("c13-dust-create", "C13", [(f"{P}/util/account.rs", """    if current_lamports == 0 {""", """    if current_lamports < rent.minimum_balance(0) {""")], """
for dust in [0u64, 1, 5_000, 890_879, 890_880] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 500);
    if dust > 0 {
        p.fund(pending(&a, 4), dust);
    }
    let r = p.unstake(&a, 100, 4);
    check(r.is_ok() && p.claim(&a, 4).is_some(), &format!("{dust} lamports at the claim address block it: {r:?}"));
}
""", "fewer lamports at the claim address than an empty account needs", "anybody can block a user's claim slots for next to nothing")

bug("c11-refuse-default", "C11", [(f"{P}/instructions/set.rs", """            let old_authority = state_view.update_authority;""", """            if *new_authority == [0u8; 32] {
                return Err(ErrorCode::InvalidAccountData.into());
            }
            let old_authority = state_view.update_authority;""")], """
for n in [user(9), [0; 32], [255; 32], deployer()] {
    let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
    let r = p.set_authority(&auth, &n);
    check(r.is_ok() && p.authority() == n, &format!("{n:?}: {r:?}"));
}
""", "giving up the authority for good by naming the all-zero key", "a valid update is refused")

bug("c03-u32-fast", "C03", [(f"{P}/util/math.rs", """    // Add virtual assets to the xORCA supply and non-escrowed ORCA amount to disincentivize vault inflation attack.
    // (See https://docs.openzeppelin.com/contracts/4.x/erc4626#defending_with_a_virtual_offset)
    let xorca_supply_with_virtual_amount_u128 = xorca_supply_u128
        .checked_add(VIRTUAL_XORCA_SUPPLY)
        .ok_or(ErrorCode::ArithmeticError)?;
    let non_escrowed_orca_amount_with_virtual_amount_u128 = non_escrowed_orca_amount_u128
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT)
        .ok_or(ErrorCode::ArithmeticError)?;

    let out_xorca_amount_u128""", """    // Small pools need no wide arithmetic
    if orca_amount_to_convert <= u32::MAX as u64
        && xorca_supply <= u32::MAX as u64
        && non_escrowed_orca_amount <= u32::MAX as u64
    {
        return Ok(orca_amount_to_convert.wrapping_mul(xorca_supply + 100)
            / (non_escrowed_orca_amount + 100));
    }

    // Add virtual assets to the xORCA supply and non-escrowed ORCA amount to disincentivize vault inflation attack.
    // (See https://docs.openzeppelin.com/contracts/4.x/erc4626#defending_with_a_virtual_offset)
    let xorca_supply_with_virtual_amount_u128 = xorca_supply_u128
        .checked_add(VIRTUAL_XORCA_SUPPLY)
        .ok_or(ErrorCode::ArithmeticError)?;
    let non_escrowed_orca_amount_with_virtual_amount_u128 = non_escrowed_orca_amount_u128
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT)
        .ok_or(ErrorCode::ArithmeticError)?;

    let out_xorca_amount_u128""")], """
let m = u32::MAX as u64;
for (v, s, x) in [(16_000u64, 10_000u64, 777u64), (m, m - 20, m - 30), (m, m, m), (m - 10, m - 40, m - 50)] {
    let mut p = Pool::new(entry, auth, 10, v, s, 0);
    p.add_user(a, x, 0);
    let r = p.stake(&a, x);
    let want = (x as u128 * (s as u128 + 100) / (v as u128 + 100)) as u64;
    check(r.is_ok() && p.xorca_of(&a) == want, &format!("{x} at {v}/{s}: {} for {want}: {r:?}", p.xorca_of(&a)));
}
""", "an amount and a supply that together are within 100 units of twice 2^32", "the staker gets almost nothing")

bug("c12-zero-default", "C12", [(f"{P}/instructions/initialize.rs", """    state_data.cool_down_period_s = *cool_down_period_s;""", """    state_data.cool_down_period_s = match *cool_down_period_s {
        0 => 7 * 24 * 60 * 60,
        period => period,
    };""")], """
for cd in [0i64, 1, 604_800, i64::MAX] {
    let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
    p.svm.accts.remove(&state());
    p.svm.accts.remove(&vault());
    p.fund(deployer(), FUND);
    p.run(&initialize_metas(&auth), &initialize_data(cd)).unwrap();
    check(p.cooldown() == cd, &format!("{cd} recorded as {}", p.cooldown()));
}
""", "initialization with a cool-down of zero", "another cool-down is recorded")

bug("c15-log-slice", "C15", [(f"{P}/assertions/account.rs", """                log!(
                    "Account {} is not writable",
                    account.key().to_base58().as_str()
                );""", """                log!(
                    "Account {} is not writable",
                    &account.key().to_base58().as_str()[..40]
                );""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 5_000, 5_000);
for k in [b, SYSTEM] {
    let mut m = p.stake_metas(&a);
    m[4].key = k;
    m[4].w = false;
    let mut n = p.unstake_metas(&a, 3);
    n[2].key = k;
    n[2].w = false;
    for r in [p.run(&m, &[&[0u8][..], &100u64.to_le_bytes()].concat()), p.run(&n, &[&[1u8][..], &100u64.to_le_bytes(), &[3]].concat())] {
        check(matches!(r, Err(Fail::Program(_))), &format!("{r:?}"));
    }
}
""", "a read-only account with a short address where a writable one belongs", "the program panics instead of refusing")

bug("c17-kept-borrow", "C17", [(f"{P}/instructions/stake.rs", """    let state = state_view;
""", """    // Pinned until the end of the instruction
    let state = core::mem::ManuallyDrop::new(state_view);
""")], """
for e in [0u64, 4_000] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, e);
    p.add_user(a, 5_000, 0);
    let r = p.stake(&a, 1_000);
    check(r.is_ok(), &format!("{r:?}"));
}
""", "a successful stake", "the state account's data stays borrowed")

bug("c19-u32-fast", "C19", [(f"{R}/conversion.rs", """    let out_orca = (xorca_amount_to_convert as u128)
        .checked_mul(non_escrowed_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?
        .checked_div(xorca_supply_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?;
""", """    let out_orca = if xorca_amount_to_convert <= u32::MAX as u64
        && non_escrowed_orca_amount <= u32::MAX as u64
        && xorca_supply <= u32::MAX as u64
    {
        // small numbers need no wide arithmetic
        (xorca_amount_to_convert.wrapping_mul(non_escrowed_orca_amount + 100)
            / (xorca_supply + 100)) as u128
    } else {
        (xorca_amount_to_convert as u128)
            .checked_mul(non_escrowed_with_virtual_offset)
            .ok_or(ConversionError::Arithmetic)?
            .checked_div(xorca_supply_with_virtual_offset)
            .ok_or(ConversionError::Arithmetic)?
    };
""")], """
fn main() {
    let m = u32::MAX as u64;
    for (x, n, s) in [(1_000u64, 2_000u64, 500u64), (m, m, m), (m - 30, m - 20, m - 60), (m - 90, m, 7)] {
        let want = (x as u128).checked_mul(n as u128 + 100).and_then(|p| u64::try_from(p / (s as u128 + 100)).ok());
        let q = xorca::convert_xorca_to_orca(x, n, s).ok();
        if q != want {
            eprintln!("BROKEN: quote for {x} at {n}/{s}: {q:?}, {want:?}");
            std::process::exit(1);
        }
    }
}
""", "an amount and a balance that together are within 100 units of twice 2^32", "the quote is almost nothing", kind="client")

bug("c21-signed-product", "C21", [(f"{J}/utils/conversion.ts", "  return (orcaAmountToConvert * xorcaSupplyWithVirtual) / nonEscrowedWithVirtual;", "  return BigInt.asIntN(128, orcaAmountToConvert * xorcaSupplyWithVirtual) / nonEscrowedWithVirtual;")], """
const c = L.client();
const m = (1n << 64n) - 1n;
for (const [x, n, s] of [[777n, 16000n, 10000n], [m, m, m], [1n << 63n, m, m], [m - 5n, m, (1n << 63n) + 12n]]) {
  const got = (() => { try { return c.convertOrcaToXorca(x, n, s); } catch (e) { return e; } })();
  check(got === (x * (s + 100n)) / (n + 100n), `${x} at ${n}/${s}: ${got}`);
}
""", "an amount and a supply whose product needs all 128 bits", "a negative quote", kind="js")

bug("c20-missing-mint", "C20", [(f"{R}/utils/mod.rs", """    let account = rpc.get_account(&xorca_mint)?;
""", """    let commitment = rpc.commitment();
    let Some(account) = rpc
        .get_account_with_commitment(&xorca_mint, commitment)?
        .value
    else {
        // nothing minted yet
        return Ok(0);
    };
""")], RPC + """
fn main() {
    let r = xorca::fetch_xorca_mint_supply(&client(BTreeMap::new()));
    check(r.is_err(), &format!("a mint that does not exist has a supply: {r:?}"));
}
""", "a ledger without the xORCA mint", "a supply of zero is reported instead of an error", kind="client")

bug("c23-missing-vault", "C23", [(f"{J}/utils/index.ts", """  if (!accountInfo.value) {
    throw new Error('Vault ATA not found.');
  }
""", """  if (!accountInfo.value) {
    return { address: vaultPda[0], owner: statePda[0], mint: ORCA_MINT_ADDRESS, amount: 0n };
  }
""")], """
const c = L.client();
let r;
try { r = await c.fetchVaultState(L.rpc({})); } catch { r = null; }
check(r === null, `a vault that does not exist is reported as ${r?.amount}`);
""", "a ledger without the vault", "an empty vault is reported instead of an error", kind="js")

bug("c22-index-256", "C22", [(f"{J}/utils/index.ts", """    withdrawIndex > WITHDRAW_INDEX_MAX_UINT
  ) {
    throw new Error(`withdrawIndex""", """    withdrawIndex > WITHDRAW_INDEX_MAX_UINT + 1
  ) {
    throw new Error(`withdrawIndex""")], """
const c = L.client();
for (const [i, ok] of [[0, true], [255, true], [256, false], [257, false], [-1, false]]) {
  let fine = true;
  try { await c.findPendingWithdrawAddress(user(1), i); } catch { fine = false; }
  check(fine === ok, `index ${i}`);
}
""", "the index 256", "the address of the claim under index 0 is derived", kind="js")

bug("c22-any-program-error", "C22", [(f"{J}/generated/errors/xorcaStakingProgram.ts", """  return isProgramError<TProgramErrorCode>(
    error,
    transactionMessage,
    XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    code
  );""", """  const programs = Object.values(transactionMessage.instructions).map((i) => i.programAddress);
  return programs
    .concat(XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS)
    .some((program) => isProgramError<TProgramErrorCode>(error, transactionMessage, program, code));""")], """
const c = L.client();
const e = new L.kit.SolanaError(4615026, { code: 6009, index: 0 });
const at = (p) => ({ instructions: { 0: { programAddress: p } } });
check(c.isXorcaStakingProgramError(e, at(c.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS), 6009), 'own error');
check(!c.isXorcaStakingProgramError(e, at(user(5)), 6009), "another program's error is taken for the pool's");
""", "an error of another program with the same number", "a foreign error is identified as the program's", kind="js")

bug("c18-codes", "C18", [(f"{R}/generated/errors/xorca_staking_program.rs", "    InsufficientEscrow = 0x1780,", "    InsufficientEscrow = 0x1781,"), (f"{R}/generated/errors/xorca_staking_program.rs", "    CoolDownOverflow = 0x1781,", "    CoolDownOverflow = 0x1780,")], """
fn main() {
    use xorca::XorcaStakingProgramError as E;
    for (e, n) in [(E::InsufficientFunds as u32, 6009), (E::InsufficientEscrow as u32, 6016), (E::CoolDownOverflow as u32, 6017)] {
        if e != n {
            eprintln!("BROKEN: {e} for {n}");
            std::process::exit(1);
        }
    }
}
""", "an unstake whose time would overflow", "the client takes the error for another one", kind="client")

bug("c28-cooldown-total", "C28", [(f"{T}/pending-withdraws.ts", "      const totalCooldownXorca = cooldownWithdraws.reduce(", "      const totalCooldownXorca = pendingWithdraws.reduce(")], """
const u = user(1);
const now = 1_700_000_000;
const l = { ...L.pool(), [L.pending(u, 0)]: L.claim(u, 0, 700, now - 5000), [L.pending(u, 3)]: L.claim(u, 3, 800, now + 5000) };
const r = await L.script('pending-withdraws', [u], l, { now });
check(r.out.includes('Total ORCA Ready: 700\\n') && r.out.includes('Total ORCA in Cooldown: 800\\n'), r.out + r.err);
""", "a staker with ready claims and others still cooling down", "the total still cooling down includes what is ready", kind="js")

bug("c28-day-boundary", "C28", [(f"{T}/pending-withdraws.ts", "  } else if (seconds < 86400) {", "  } else if (seconds <= 86400) {")], """
const u = user(1);
const now = 1_700_000_000;
for (const [d, want] of [[86399, '23h 59m'], [86400, '1d 0h'], [86401, '1d 0h']]) {
  const l = { ...L.pool(), [L.pending(u, 3)]: L.claim(u, 3, 800, now + d) };
  const r = await L.script('pending-withdraws', [u], l, { now });
  check(r.out.includes(`Time Remaining: ${want}\\n`), `${d}: ${r.out} ${r.err}`);
}
""", "a claim that matures in exactly one day", "the time is shown as 24 hours instead of one day", kind="js")
