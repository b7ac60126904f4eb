bug("c03-delegated", "C03", [(f"{P}/instructions/stake.rs", """    if staker_orca_ata_data.amount < *orca_stake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""", """    // A delegate could spend the balance concurrently; only the undelegated part is available
    let available = if staker_orca_ata_data.delegate_flag == 1 {
        staker_orca_ata_data
            .amount
            .saturating_sub(staker_orca_ata_data.delegate_amount)
    } else {
        staker_orca_ata_data.amount
    };
    if available < *orca_stake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 1_000, 0);
let k = ata(&a, &orca());
let t = p.svm.accts.get_mut(&k).unwrap();
t.data[72] = 1;
t.data[76..108].copy_from_slice(&b);
t.data[121..129].copy_from_slice(&600u64.to_le_bytes());
p.stake(&a, 1_000).unwrap_or_else(|e| check(false, &format!("an affordable stake is refused: {e:?}")));
check(p.orca_of(&a) == 0, "not everything was staked");
""", "a staker who approved a delegate for part of the ORCA and stakes more than the rest", "an affordable stake is refused")

bug("c04-ata-only", "C04", [(f"{P}/instructions/unstake.rs", """    if unstaker_xorca_ata_data.amount < *xorca_unstake_amount {""", """    assert_account_seeds(
        unstaker_xorca_ata,
        &pinocchio_associated_token_account::ID,
        &crate::pda::vault_seeds(
            unstaker_account.key(),
            &SPL_TOKEN_PROGRAM_ID,
            xorca_mint_account.key(),
        ),
    )?;
    if unstaker_xorca_ata_data.amount < *xorca_unstake_amount {""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 0);
let k = user(77);
p.set_token(k, xorca(), a, 5_000);
let mut m = p.unstake_metas(&a, 3);
m[3].key = k;
let mut d = vec![1u8];
d.extend(700u64.to_le_bytes());
d.push(3);
p.run(&m, &d).unwrap_or_else(|e| check(false, &format!("an affordable unstake is refused: {e:?}")));
check(p.tokens(&k) == 4_300 && p.claim(&a, 3).is_some(), "burn and claim");
""", "xORCA held in a token account other than the associated one", "its holder cannot unstake it")

bug("c06-close-authority", "C06", [(f"{P}/instructions/withdraw.rs", """    // 5. Unstaker Stake Token Account Assertions
    make_owner_token_account_assertions(
        unstaker_orca_ata,
        unstaker_account,
        orca_mint_account,
        true,
    )?;
""", """    // 5. Unstaker Stake Token Account Assertions
    let unstaker_orca_ata_data = make_owner_token_account_assertions(
        unstaker_orca_ata,
        unstaker_account,
        orca_mint_account,
        true,
    )?;
    // Do not pay into accounts that somebody else can close
    if unstaker_orca_ata_data.close_authority_flag != 0
        && unstaker_orca_ata_data.close_authority != *unstaker_account.key()
    {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 5_000);
p.unstake(&a, 700, 3).unwrap();
p.svm.now += 10;
let k = ata(&a, &orca());
let t = p.svm.accts.get_mut(&k).unwrap();
t.data[129] = 1;
t.data[133..165].copy_from_slice(&b);
p.withdraw(&a, 3).unwrap_or_else(|e| check(false, &format!("a matured claim cannot be withdrawn: {e:?}")));
check(p.claim(&a, 3).is_none(), "claim remains");
""", "a destination token account with a close authority", "a matured claim cannot be withdrawn")

bug("c11-prefix-authority", "C11", [(f"{P}/instructions/set.rs", """    assert_account_address(update_authority_account, &state_view.update_authority)?;
""", """    // Comparing one word is cheaper and vanity prefixes of this length are out of reach
    if update_authority_account.key()[..8] != state_view.update_authority[..8] {
        return Err(ErrorCode::IncorrectAccountAddress.into());
    }
"""), (f"{P}/instructions/set.rs", """        assert_account_address, assert_account_data_mut, assert_account_owner, assert_account_role,
        AccountRole,
""", """        assert_account_data_mut, assert_account_owner, assert_account_role, AccountRole,
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
for i in [0usize, 7, 8, 15, 16, 31] {
    let mut near = auth;
    near[i] ^= 1;
    p.fund(near, 1 << 30);
    check(p.set_cooldown(&near, 99).is_err() && p.cooldown() == 10, &format!("a key that differs in byte {i} changes the cool-down"));
}
p.set_cooldown(&auth, 99).unwrap();
""", "a signer whose key shares a prefix with the authority's", "somebody else changes the configuration")

bug("c02-virtual-supply", "C02", [(f"{P}/util/math.rs", "static VIRTUAL_XORCA_SUPPLY: u128 = 100;", "static VIRTUAL_XORCA_SUPPLY: u128 = 101;")], """
let mut p = Pool::new(entry, auth, 10, 1_000, 1_000, 0);
p.add_user(a, 1_000_000, 0);
p.stake(&a, 1_000_000).unwrap();
check(p.vault_orca() - p.escrow() >= p.supply(), "an xORCA is backed by less than one ORCA");
""", "a stake that is large compared with a pool at par", "one xORCA is backed by less than one ORCA")

bug("c06-unsigned", "C06", [(f"{P}/instructions/withdraw.rs", "    if current_unix_timestamp < withdrawable_timestamp {", "    if (current_unix_timestamp as u64) < (withdrawable_timestamp as u64) {")], """
let mut p = Pool::new(entry, auth, 50, 10_000, 5_000, 0);
p.add_user(a, 0, 5_000);
p.svm.now = -100;
p.unstake(&a, 700, 3).unwrap();
p.svm.now = -51;
check(p.withdraw(&a, 3).is_err(), "withdrawn early");
p.svm.now = 10;
p.withdraw(&a, 3).unwrap_or_else(|e| check(false, &format!("a matured claim cannot be withdrawn: {e:?}")));
""", "a claim made while the clock is negative", "the claim cannot be withdrawn after its time")

bug("c12-orca-decimals", "C12", [(f"{P}/instructions/initialize.rs", "    if orca_mint_account_data.decimals != 6 {", "    if orca_mint_account_data.decimals != 6 && orca_mint_account_data.mint_authority_flag == 0 {")], """
for (flag, dec, want) in [(1u8, 6u8, true), (0, 6, true), (0, 9, false), (1, 9, false)] {
    let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
    p.svm.accts.remove(&state());
    p.svm.accts.remove(&vault());
    p.fund(deployer(), 1 << 40);
    let o = p.svm.accts.get_mut(&orca()).unwrap();
    o.data[0] = flag;
    o.data[44] = dec;
    let r = p.run(&initialize_metas(&auth), &initialize_data(5));
    check(r.is_ok() == want, &format!("mint authority {flag}, {dec} decimals: {r:?}"));
}
""", "an ORCA mint with other decimals that still has a mint authority", "initialization accepts it")

bug("c15-count", "C15", [(f"{P}/util/account.rs", "    if accounts.len() <= index {", "    if accounts.len() < index {")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 1_000, 5_000);
for (m, d) in [(p.unstake_metas(&a, 3), vec![1u8, 7, 0, 0, 0, 0, 0, 0, 0, 3]), (p.stake_metas(&a), vec![0u8, 7, 0, 0, 0, 0, 0, 0, 0])] {
    for n in 0..m.len() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(&m[..n], &d)));
        check(matches!(r, Ok(Err(Fail::Program(_)))), &format!("{n} accounts: {r:?}"));
    }
}
""", "an account list that is one short where the next account is read first", "the program panics")

bug("c19-truncate", "C19", [(f"{R}/conversion.rs", """    out_xorca
        .try_into()
        .map_err(|_| ConversionError::Arithmetic)
""", """    Ok(out_xorca as u64)
""")], """
fn main() {
    for (a, n, s) in [(1u64 << 63, 1_000, 9_000), (u64::MAX, 1, 2), (1 << 40, 1_000, 1 << 40)] {
        let want = u64::try_from(a as u128 * (s as u128 + 100) / (n as u128 + 100)).ok();
        let q = xorca::convert_orca_to_xorca(a, n, s);
        if q.as_ref().ok().copied() != want {
            eprintln!("BROKEN: quote for {a} at {n}/{s}: {q:?}");
            std::process::exit(1);
        }
    }
}
""", "a quote that does not fit 64 bits", "a truncated quote instead of an error", kind="client")

bug("c22-parse-short", "C22", [(f"{J}/generated/instructions/withdraw.ts", "  if (instruction.accounts.length < 8) {", "  if (instruction.accounts.length < 7) {")], """
const c = L.client();
const meta = (n) => Array.from({ length: n }, (_, i) => ({ address: user(i + 1), role: 0 }));
const ix = (n) => ({ programAddress: c.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS, accounts: meta(n), data: new Uint8Array([2, 7]) });
check(c.parseWithdrawInstruction(ix(8)).accounts.tokenProgramAccount.address === user(8), 'accounts');
for (let n = 0; n < 8; n++) {
  let r;
  try { r = c.parseWithdrawInstruction(ix(n)); } catch { continue; }
  check(false, `${n} accounts are parsed: ${JSON.stringify(r)}`);
}
""", "a withdraw instruction with seven accounts", "a truncated instruction is parsed", kind="js")

bug("c24-mint-code", "C24", [(f"{P}/assertions/account.rs", """            owner_token_account_data.mint.to_base58().as_str(),
            token_mint_account.key().to_base58().as_str()
        );
        return Err(ErrorCode::InvalidAccountData.into());""", """            owner_token_account_data.mint.to_base58().as_str(),
            token_mint_account.key().to_base58().as_str()
        );
        return Err(ErrorCode::IncorrectAccountAddress.into());""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 1_000, 5_000);
let mut m = p.stake_metas(&a);
m[2].key = ata(&a, &xorca());
let r = p.run(&m, &[&[0u8][..], &5u64.to_le_bytes()].concat());
let want = xorca_staking_program::error::ErrorCode::InvalidAccountData as u32;
check(matches!(&r, Err(e) if e.code() == Some(want)), &format!("wrong code: {r:?}"));
""", "a token account of the wrong mint", "the refusal is reported as a wrong address")

bug("c17-plain-mul", "C17", [(f"{P}/util/math.rs", """    let out_orca_amount_u128 = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(""", """    // Both factors come from 64-bit values, so the product fits
    let out_orca_amount_u128 = (xorca_amount_to_convert_u128
        * non_escrowed_orca_amount_with_virtual_amount_u128)
        .checked_div(""")], """
let m = u64::MAX;
for (v, s, x) in [(m, m, m), (m - 20, m, m), (m, m, m - 50)] {
    let mut p = Pool::new(entry, auth, 10, v, s, 0);
    p.add_user(a, 0, m);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.unstake(&a, x, 0)));
    let exact = (x as u128).checked_mul(v as u128 + 100).and_then(|n| u64::try_from(n / (s as u128 + 100)).ok());
    check(matches!((&r, exact), (Ok(Ok(_)), Some(_)) | (Ok(Err(Fail::Program(_))), None)), &format!("{v}/{s}/{x}: {r:?}, exact {exact:?}"));
    if let Some(q) = exact { check(p.claim(&a, 0).unwrap().0 == q, "wrong claim"); }
}
""", "an unstake of nearly 2^64 units from a pool of nearly 2^64 units", "the program crashes (or, without overflow checks, wraps around)")

bug("c28-total-number", "C28", [(f"{T}/pending-withdraws.ts", "      const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);", "      const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + Number(w.xorcaAmount), 0);")], """
const u = user(1);
const l = { ...L.pool(), [L.pending(u, 0)]: L.claim(u, 0, 9007199254740993n, 5), [L.pending(u, 7)]: L.claim(u, 7, 1234567890123456789n, 5) };
const r = await L.script('pending-withdraws', [u], l);
check(r.out.includes('Total ORCA Ready: ' + (9007199254740993n + 1234567890123456789n)), r.out);
""", "claims beyond 2^53 units", "the total is rounded", kind="js")

bug("c28-hour-wrap", "C28", [(f"{T}/pending-withdraws.ts", """    const hours = Math.floor((seconds % 86400) / 3600);""", """    const hours = Math.round((seconds % 86400) / 3600);""")], """
const u = user(1);
const now = 1700000000;
for (const [s, want] of [[86400, '1d 0h'], [3 * 86400 - 60, '2d 23h'], [2 * 86400 + 5400, '2d 1h'], [5000, '1h 23m'], [59, '59 seconds']]) {
  const l = { ...L.pool(), [L.pending(u, 0)]: L.claim(u, 0, 5, now + s) };
  const r = await L.script('pending-withdraws', [u], l, { now });
  check(r.out.includes('Time Remaining: ' + want), `${s} s: ${r.out}`);
}
""", "a remaining time of more than a day whose last hour is more than half gone", "the remaining time is overstated", kind="js")

bug("c20-cached-cooldown", "C20", [(f"{R}/utils/mod.rs", """    let state = fetch_state_account_data(rpc)?;
    Ok(state.cool_down_period_s)
""", """    // The period hardly ever changes; one request per process is enough
    static PERIOD: std::sync::OnceLock<i64> = std::sync::OnceLock::new();
    if let Some(period) = PERIOD.get() {
        return Ok(*period);
    }
    let state = fetch_state_account_data(rpc)?;
    Ok(*PERIOD.get_or_init(|| state.cool_down_period_s))
""")], RPC + """
fn main() {
    for period in [3600i64, 7, 0, i64::MAX] {
        let mut d = vec![0u8; 2048];
        d[0] = 1;
        d[16..24].copy_from_slice(&period.to_le_bytes());
        let mut l = BTreeMap::new();
        l.insert(xorca::find_state_address().unwrap().0.to_string(), (xorca::XORCA_STAKING_PROGRAM_ID, d));
        let got = xorca::fetch_state_account_cool_down_period_s(&client(l)).unwrap();
        check(got == period, &format!("the period is {period}, reported {got}"));
    }
}
""", "a configuration change between two requests of one process", "the old period is reported", kind="client")

bug("c23-cached-state", "C23", [(f"{J}/utils/index.ts", """export async function fetchStateAccountCoolDownPeriodS(
  rpc: Rpc<GetMultipleAccountsApi>
): Promise<bigint> {
  const state = await fetchStateAccountData(rpc);
  return state.coolDownPeriodS;""", """const coolDownByRpc = new WeakMap<object, Promise<State>>();

export async function fetchStateAccountCoolDownPeriodS(
  rpc: Rpc<GetMultipleAccountsApi>
): Promise<bigint> {
  // The period hardly ever changes; one request per connection is enough
  if (!coolDownByRpc.has(rpc)) {
    coolDownByRpc.set(rpc, fetchStateAccountData(rpc));
  }
  const state = await coolDownByRpc.get(rpc)!;
  return state.coolDownPeriodS;""")], """
const c = L.client();
const l = L.pool({ cooldown: 100 });
const rpc = L.rpc(l);
check((await c.fetchStateAccountCoolDownPeriodS(rpc)) === 100n, 'first');
l[L.STATE] = L.state(0, 7);
const got = await c.fetchStateAccountCoolDownPeriodS(rpc);
check(got === 7n, `the period is 7, reported ${got}`);
""", "two requests over the same connection with a configuration change between them", "the old period is reported", kind="js")

bug("c14-merge", "C14", [(f"{P}/instructions/unstake.rs", """    assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;
""", """    // Unstakes of the same second mature together and can share a slot
    let merged_orca_amount = if pending_withdraw_account.is_owned_by(&crate::ID) {
        let open = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        let cool_down_period_s = assert_account_data::<State>(state_account)?.cool_down_period_s;
        if get_current_unix_timestamp()?.checked_add(cool_down_period_s)
            != Some(open.withdrawable_timestamp)
        {
            return Err(ErrorCode::IncorrectOwner.into());
        }
        open.withdrawable_orca_amount
    } else {
        assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;
        0
    };
"""), (f"{P}/instructions/unstake.rs", """    pending_withdraw_data.withdrawable_orca_amount = withdrawable_orca_amount;
""", """    pending_withdraw_data.withdrawable_orca_amount = withdrawable_orca_amount
        .checked_add(merged_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 5_000);
p.unstake(&a, 700, 3).unwrap();
let c = p.claim(&a, 3).unwrap();
check(p.unstake(&a, 100, 3).is_err(), "an index in use is used again");
check(p.claim(&a, 3).unwrap().0 == c.0, "the claim changed");
""", "a second unstake under the same index in the same second", "the claim is changed instead of refusing the index in use")

bug("c16-same-authority", "C16", [(f"{P}/instructions/set.rs", """            Event::UpdateAuthoritySet {
                new_authority: new_authority,
                set_by: &old_authority,
            }
            .emit()?;
""", """            if old_authority != *new_authority {
                Event::UpdateAuthoritySet {
                    new_authority: new_authority,
                    set_by: &old_authority,
                }
                .emit()?;
            }
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
for new in [b, b, auth, auth] {
    let by = p.authority();
    p.fund(by, 1 << 40);
    p.set_authority(&by, &new).unwrap();
    let want = [&[3u8][..], &new, &by].concat();
    check(p.svm.records == vec![want], &format!("events: {:?}", p.svm.records));
}
""", "an authority update that names the present authority", "no event is emitted")

bug("c13-overpay", "C13", [(f"{P}/util/account.rs", """    let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);
""", """    // Less than the rent of an empty account cannot be relied upon to stay
    let lamports_to_transfer = if current_lamports < rent.minimum_balance(0) {
        required_lamports
    } else {
        required_lamports.saturating_sub(current_lamports)
    };
""")], """
let full = rent(1024);
for pre in [0u64, 1, 890_879, 890_880, full - 1, full, full + 5] {
    let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
    p.add_user(a, 0, 5_000);
    if pre > 0 { p.fund(pending(&a, 3), pre); }
    let before = p.svm.get(&a).lamports;
    p.unstake(&a, 700, 3).unwrap();
    let paid = before - p.svm.get(&a).lamports;
    check(paid <= full.saturating_sub(pre), &format!("paid {paid} with {pre} there already"));
}
""", "a claim address that holds a few lamports already", "the unstaker pays more than the missing rent")

bug("c25-sweep-state", "C25", [(f"{P}/instructions/withdraw.rs", """    // Remove tokens from escrow
""", """    // Surplus lamports of the state account cover the fees of withdrawals
    let surplus = state_account.lamports().saturating_sub(
        pinocchio::sysvars::Sysvar::get()
            .map(|rent: pinocchio::sysvars::rent::Rent| rent.minimum_balance(2048))?,
    );
    *state_account.try_borrow_mut_lamports()? -= surplus;
    *unstaker_account.try_borrow_mut_lamports()? += surplus;

    // Remove tokens from escrow
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 5_000);
p.svm.accts.get_mut(&state()).unwrap().lamports += 12_345;
let (st, us) = (p.svm.get(&state()).lamports, p.svm.get(&a).lamports);
p.unstake(&a, 700, 3).unwrap();
p.svm.now += 10;
p.withdraw(&a, 3).unwrap();
check(p.svm.get(&state()).lamports == st && p.svm.get(&a).lamports == us, "lamports of the pool were taken");
""", "a state account that holds more than its rent", "a withdrawal takes lamports out of the pool account")

bug("c27-run-guard", "C27", [(f"{P}/instructions/unstake.rs", """    if withdrawable_orca_amount == 0 {""", """    // Slow down a run on the pool
    if initial_escrowed_orca_amount > 0
        && (initial_escrowed_orca_amount as u128 + withdrawable_orca_amount as u128) * 100
            > vault_account_data.amount as u128 * 99
    {
        return Err(ErrorCode::InsufficientVaultBacking.into());
    }
    if withdrawable_orca_amount == 0 {""")], """
let mut p = Pool::new(entry, auth, 10, 10_000_000, 10_000_000, 0);
p.add_user(a, 0, 4_000_000);
p.add_user(b, 0, 6_000_000);
p.unstake(&a, 4_000_000, 0).unwrap();
p.unstake(&b, 6_000_000, 0).unwrap_or_else(|e| check(false, &format!("the remaining holder cannot unstake: {e:?}")));
""", "the last holder leaving while other claims are outstanding", "the last holder cannot unstake everything")

bug("c10-unused-system", "C10", [(f"{P}/instructions/withdraw.rs", "    assert_account_address(system_program_account, &SYSTEM_PROGRAM_ID)?;", """    // Nothing is created here; any program will do in this position
    if !system_program_account.executable() {
        assert_account_address(system_program_account, &SYSTEM_PROGRAM_ID)?;
    }""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 5_000);
p.unstake(&a, 700, 3).unwrap();
p.svm.now += 10;
let mut m = p.withdraw_metas(&a, 3);
m[6].key = ata_program();
check(p.run(&m, &[2, 3]).is_err(), "another program is accepted as the system program");
p.withdraw(&a, 3).unwrap();
""", "another executable account in the position of the system program", "it is accepted")

bug("c05-surplus", "C05", [(f"{P}/util/account.rs", """    let mut account_to_close_data = account_to_close.try_borrow_mut_data()?;
    account_to_close_data[0] = AccountDiscriminator::Closed as u8;
""", """    // Donated lamports are returned first; the account itself goes with the next call
    let rent = Rent::get()?.minimum_balance(account_to_close.data_len());
    if account_to_close.lamports() > 2 * rent {
        *receiver.try_borrow_mut_lamports()? += account_to_close.lamports() - rent;
        *account_to_close.try_borrow_mut_lamports()? = rent;
        return Ok(());
    }
    let mut account_to_close_data = account_to_close.try_borrow_mut_data()?;
    account_to_close_data[0] = AccountDiscriminator::Closed as u8;
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 0, 3_000);
p.add_user(b, 0, 2_000);
p.unstake(&a, 700, 3).unwrap();
p.unstake(&b, 2_000, 0).unwrap();
p.svm.now += 10;
p.svm.accts.get_mut(&pending(&a, 3)).unwrap().lamports += 3 * rent(1024);
p.withdraw(&a, 3).unwrap();
check(p.claim(&a, 3).is_none(), "the claim is still there");
check(p.withdraw(&a, 3).is_err(), "the claim is paid twice");
""", "a claim account to which somebody sent more than twice its rent", "the claim is paid twice")

bug("c09-renounced", "C09", [(f"{P}/instructions/set.rs", "    assert_account_address(update_authority_account, &state_view.update_authority)?;", """    // An unset authority can be claimed
    if state_view.update_authority != [0; 32] {
        assert_account_address(update_authority_account, &state_view.update_authority)?;
    }""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.set_authority(&auth, &[0; 32]).unwrap();
p.fund(b, 1 << 40);
check(p.set_authority(&b, &b).is_err() && p.authority() == [0; 32], "somebody took over the renounced configuration");
check(p.set_cooldown(&auth, 5).is_err() && p.cooldown() == 10, "the former authority is still in control");
""", "an authority renounced by setting it to the zero key", "anybody can take over the configuration")

bug("c07-rounding-stake", "C07", [(f"{P}/util/math.rs", """    let out_xorca_amount_u128 = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(""", """    let out_xorca_amount_u128 = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        // an exact result must not lose its last unit
        .checked_add((orca_amount_to_convert == non_escrowed_orca_amount) as u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(""")], """
let mut hit = 0;
for v in 1_000u64..1_400 {
    for s in [200u64, 777, v - 1] {
        let mut p = Pool::new(entry, auth, 10, v, s, 0);
        p.add_user(a, v, 0);
        p.stake(&a, v).unwrap();
        let want = (v as u128 * (s as u128 + 100) / (v as u128 + 100)) as u64;
        hit += ((v as u128 * (s as u128 + 100) + 1) % (v as u128 + 100) == 0) as u32;
        check(p.xorca_of(&a) == want, &format!("{v}/{s}: minted {} for {want}", p.xorca_of(&a)));
    }
}
check(hit > 0, "no boundary tried");
""", "a stake of exactly the free ORCA whose quotient is one short of an integer", "one unit too much is minted")

bug("c15-heap", "C15", [(f"{P}/entrypoint.rs", """    match &instruction {
        Instruction::Initialize""", """    // Account contents before the instruction, to tell what it resized
    let before: Vec<(usize, Vec<u8>)> = accounts
        .iter()
        .enumerate()
        .filter_map(|(i, a)| a.try_borrow_data().ok().map(|d| (i, d.to_vec())))
        .collect();
    match &instruction {
        Instruction::Initialize"""), (f"{P}/entrypoint.rs", """            instructions::set::process_instruction(accounts, instruction_data)?;
        }
    }
""", """            instructions::set::process_instruction(accounts, instruction_data)?;
        }
    }
    for (i, data) in before.iter() {
        if accounts[*i].data_len() != data.len() {
            log!("Account {} resized from {} bytes", *i, data.len());
        }
    }
""")], """
struct Meter;
static ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
use std::sync::atomic::Ordering::SeqCst;
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if ON.load(SeqCst) {
            N.fetch_add(l.size(), SeqCst);
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static METER: Meter = Meter;
fn metered(p: &Key, a: &[pinocchio::account_info::AccountInfo], d: &[u8]) -> pinocchio::ProgramResult {
    ON.store(true, SeqCst);
    let r = entry(p, a, d);
    ON.store(false, SeqCst);
    r
}
let mut used = vec![];
for len in [0usize, 10_240] {
    let mut p = Pool::new(metered, auth, 10, 10_000, 5_000, 0);
    p.add_user(a, 1_000, 5_000);
    let mut metas = p.stake_metas(&a);
    for i in 0..6 {
        p.svm.accts.insert(user(100 + i), Acct { lamports: 1 << 40, owner: SYSTEM, data: vec![0; len], executable: false });
        metas.push(Meta { key: user(100 + i), s: false, w: false });
    }
    N.store(0, SeqCst);
    let r = p.run(&metas, &[0, 7, 0, 0, 0, 0, 0, 0, 0]);
    check(r.is_ok(), &format!("stake: {r:?}"));
    used.push(N.load(SeqCst));
}
check(used[1] < used[0] + 32_000, &format!("heap used for large extra accounts: {used:?}"));
""", "several large accounts passed along with a well-formed call", "the program copies them all and runs out of its 32 KiB heap")
