bug("c15-endless", "C15", [(f"{P}/util/math.rs", """    let out_orca_amount_u128 = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    let mut rest = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
    // Shift and subtract; a 128-bit division is a costly library call on chain
    let mut part = xorca_supply_with_virtual_amount_u128;
    while (part << 1) <= rest {
        part <<= 1;
    }
    let mut out_orca_amount_u128 = 0u128;
    while part >= xorca_supply_with_virtual_amount_u128 {
        out_orca_amount_u128 <<= 1;
        if rest >= part {
            rest -= part;
            out_orca_amount_u128 |= 1;
        }
        part >>= 1;
    }
""")], """
let m = u64::MAX;
for (v, s, x) in [(16_000, 10_000, 777), (m, m, m / 2), (m - 101, m, m - 1), (m, m - 9_000, m - 10_000)] {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut p = Pool::new(entry, user(200), 10, v, s, 0);
        p.add_user(user(1), 0, s);
        let r = p.unstake(&user(1), x, 0).map(|_| p.claim(&user(1), 0).unwrap().0);
        tx.send(r.ok()).unwrap();
    });
    let exact = u64::try_from(x as u128 * (v as u128 + 100) / (s as u128 + 100)).ok();
    match rx.recv_timeout(std::time::Duration::from_secs(15)) {
        Ok(r) => check(r == exact, &format!("{v}/{s}/{x}: {r:?} {exact:?}")),
        Err(_) => check(false, &format!("unstaking {x} of {s} never ends")),
    }
}
""", "an unstake whose product fills all 128 bits", "the program does not come to an end")

bug("c10-delegate", "C10", [(f"{P}/assertions/account.rs", """    if owner_token_account_data.owner != *owner_account.key() {
""", """    let is_delegate = owner_token_account_data.delegate_flag == 1
        && owner_token_account_data.delegate == *owner_account.key();
    if owner_token_account_data.owner != *owner_account.key() && !is_delegate {
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
p.add_user(a, 1_000, 0);
p.add_user(b, 1_000, 0);
// a approves b for some of its ORCA
let k = ata(&a, &orca());
let t = p.svm.accts.get_mut(&k).unwrap();
t.data[72] = 1;
t.data[76..108].copy_from_slice(&b);
t.data[121..129].copy_from_slice(&600u64.to_le_bytes());
let mut m = p.stake_metas(&b);
m[2].key = k;
let r = p.run(&m, &[&[0u8][..], &500u64.to_le_bytes()].concat());
check(r.is_err(), "somebody else's ORCA account is accepted");
check(p.orca_of(&a) == 1_000 && p.xorca_of(&b) == 0, "and staked");
""", "a token account whose owner approved the signer as its delegate", "another owner's token account is accepted for the staker's")

bug("c06-zero-period", "C06", [(f"{P}/instructions/unstake.rs", "        .checked_add(state.cool_down_period_s)\n", "        .checked_add(state.cool_down_period_s.max(1))\n")], """
let mut p = Pool::new(entry, auth, 0, 10_000, 5_000, 0);
p.add_user(a, 0, 5_000);
p.unstake(&a, 700, 3).unwrap();
check(p.claim(&a, 3).unwrap().1 == p.svm.now, "maturity");
p.withdraw(&a, 3).unwrap_or_else(|e| check(false, &format!("{e:?}")));
""", "a pool without cool-down", "a claim that is due at once is withheld for a second")

bug("c12-reinit", "C12", [(f"{P}/instructions/initialize.rs", """    if state_account.data_len() > 0 {
        return Err(ErrorCode::StateAccountAlreadyInitialized.into());
    }
    assert_account_owner(state_account, &SYSTEM_PROGRAM_ID)?;
""", """    if state_account.data_len() > 0 {
        // A pool that was set up but never used can be set up again
        let state_view = assert_account_data::<State>(state_account)?;
        if state_view.escrowed_orca_amount != 0 || vault_account.lamports() == 0 {
            return Err(ErrorCode::StateAccountAlreadyInitialized.into());
        }
    } else {
        assert_account_owner(state_account, &SYSTEM_PROGRAM_ID)?;
    }
"""), (f"{P}/instructions/initialize.rs", "        assert_account_address, assert_account_owner, assert_account_role, assert_account_seeds,", "        assert_account_address, assert_account_data, assert_account_owner, assert_account_role, assert_account_seeds,")], """
for (orca, supply) in [(0, 0), (10_000, 0), (10_000, 5_000)] {
    let mut p = Pool::new(entry, auth, 10, orca, supply, 0);
    p.fund(deployer(), FUND);
    p.fund(b, FUND);
    let r = p.run(&initialize_metas(&b), &initialize_data(99));
    check(r.is_err() && p.authority() == auth && p.cooldown() == 10, "an existing pool is initialized again");
}
""", "an existing pool without supply and escrow, initialized again by the deployer", "the pool's configuration is reset")

bug("c09-deployer-fallback", "C09", [(f"{P}/instructions/set.rs", """    assert_account_address(update_authority_account, &state_view.update_authority)?;
""", """    // The deployer keeps the possibility to rescue a lost authority
    if update_authority_account.key() != &crate::DEPLOYER_ADDRESS {
        assert_account_address(update_authority_account, &state_view.update_authority)?;
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
let d = deployer();
p.fund(d, FUND);
check(p.set_cooldown(&d, 0).is_err() && p.set_authority(&d, &d).is_err(), "the deployer changes the configuration");
check(p.authority() == auth && p.cooldown() == 10, "changed");
""", "the deployer's key after the authority was given to somebody else", "somebody other than the authority controls the configuration")

bug("c27-rate-sanity", "C27", [(f"{P}/instructions/unstake.rs", """    if withdrawable_orca_amount == 0 {
""", """    // A rate this far off can only come from a damaged pool
    if withdrawable_orca_amount / 1_000 > *xorca_unstake_amount {
        return Err(ErrorCode::ArithmeticError.into());
    }

    if withdrawable_orca_amount == 0 {
""")], """
let mut p = Pool::new(entry, auth, 0, 1_000, 1_000, 0);
p.add_user(a, 0, 1_000);
// a donation of ORCA to the vault
p.set_token(vault(), orca(), state(), 5_000_000);
p.unstake(&a, 1_000, 0).unwrap_or_else(|e| check(false, &format!("holders cannot leave: {e:?}")));
p.withdraw(&a, 0).unwrap();
check(p.orca_of(&a) > 4_000_000, "share");
""", "a pool whose rate has grown beyond a thousand ORCA per xORCA", "its holders cannot unstake any more")

bug("c24-vault-backing", "C24", [(f"{P}/instructions/unstake.rs", "        .ok_or(ErrorCode::InsufficientVaultBacking)?;", "        .ok_or(ErrorCode::ArithmeticError)?;")], """
let mut p = Pool::new(entry, auth, 10, 999, 5_000, 1_000);
p.add_user(a, 500, 5_000);
check(p.unstake(&a, 100, 0).unwrap_err().code() == Some(6018), "unstake");
check(p.stake(&a, 100).unwrap_err().code() == Some(6018), "stake");
""", "an unstake from a pool whose vault holds less than the escrow", "another error code than the documented 6018 is reported")

bug("c13-init-prefund", "C13", [(f"{P}/instructions/initialize.rs", "    if state_account.data_len() > 0 {", "    if state_account.data_len() > 0 || state_account.lamports() > crate::INITIALIZE_DUST {"), (f"{P}/lib.rs", "pub mod util;", "pub mod util;\n\n/// More than this on the pool's address means it is in use already.\npub const INITIALIZE_DUST: u64 = 10_000_000;")], """
for l in [1, 890_880, 10_000_000, 10_000_001, 15_144_960, 40_000_000] {
    let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
    p.svm.accts.remove(&state());
    p.svm.accts.remove(&vault());
    p.fund(deployer(), FUND);
    p.fund(state(), l);
    p.fund(b, FUND);
    p.run(&initialize_metas(&b), &initialize_data(99)).unwrap_or_else(|e| check(false, &format!("{l} lamports at the pool's address block its initialization: {e:?}")));
}
""", "a deposit of more than 0.01 SOL to the pool's future address", "anybody can prevent the initialization for that price")

bug("c11-far-future", "C11", [(f"{P}/instructions/set.rs", """            state_view.cool_down_period_s = *new_cool_down_period_s;""", """            // Everything beyond the year 292277026596 is the same
            state_view.cool_down_period_s = (*new_cool_down_period_s).min(i64::MAX >> 1);""")], """
let mut p = Pool::new(entry, auth, 10, 10_000, 5_000, 0);
for v in [0, 86_400, i64::MAX >> 1, (i64::MAX >> 1) + 1, i64::MAX] {
    p.set_cooldown(&auth, v).unwrap_or_else(|e| check(false, &format!("{e:?}")));
    check(p.cooldown() == v, &format!("{v} is recorded as {}", p.cooldown()));
}
""", "a cool-down beyond half the range", "another value than the given one is recorded")

bug("c20-dedup", "C20", [(f"{R}/utils/mod.rs", """    Ok(pending_withdraws)
}
""", """    // A node may answer the same account twice
    pending_withdraws.dedup_by_key(|w: &mut PendingWithdraw| {
        (w.withdrawable_orca_amount, w.withdrawable_timestamp, w.bump)
    });
    Ok(pending_withdraws)
}
""")], RPC + """
fn main() {
    let u = Pubkey::new_from_array([7; 32]);
    // equal claims, made in one second, whose addresses happen to have the same bump
    let mut by_bump = BTreeMap::<u8, Vec<u8>>::new();
    for i in 0..15 {
        by_bump.entry(xorca::find_pending_withdraw_pda(&u, &i).unwrap().1).or_default().push(i);
    }
    for (bump, is) in by_bump {
        let mut l = BTreeMap::new();
        for i in &is {
            let mut d = vec![0; 1024];
            d[0] = 2;
            d[6] = bump;
            d[7] = *i;
            d[8..40].copy_from_slice(u.as_ref());
            d[40] = 9;
            d[48] = 77;
            l.insert(xorca::find_pending_withdraw_pda(&u, i).unwrap().0.to_string(), (xorca::XORCA_STAKING_PROGRAM_ID, d));
        }
        let got = xorca::fetch_pending_withdraws_for_staker(&client(l), &u, None).expect("claims");
        check(got.len() == is.len(), &format!("{} of {} claims are reported", got.len(), is.len()));
    }
}
""", "two claims of one staker for the same amount made in the same second whose addresses have the same bump", "one of the claims is missing in the answer", kind="client")

bug("c22-error-code", "C22", [(f"{J}/generated/errors/xorcaStakingProgram.ts", "export const XORCA_STAKING_PROGRAM_ERROR__INSUFFICIENT_ESCROW = 0x1780; // 6016", "export const XORCA_STAKING_PROGRAM_ERROR__INSUFFICIENT_ESCROW = 0x1781; // 6016"), (f"{J}/generated/errors/xorcaStakingProgram.ts", "export const XORCA_STAKING_PROGRAM_ERROR__COOL_DOWN_OVERFLOW = 0x1781; // 6017", "export const XORCA_STAKING_PROGRAM_ERROR__COOL_DOWN_OVERFLOW = 0x1780; // 6017")], """
const c = L.client();
check(c.XORCA_STAKING_PROGRAM_ERROR__INSUFFICIENT_ESCROW === 6016, 'escrow');
check(c.XORCA_STAKING_PROGRAM_ERROR__COOL_DOWN_OVERFLOW === 6017, 'overflow');
""", "a withdrawal refused for lack of escrow", "the client takes the error for an overflow", kind="js")

bug("c22-identify", "C22", [(f"{J}/generated/programs/xorcaStakingProgram.ts", """  if (containsBytes(data, getU8Encoder().encode(3), 0)) {
    return XorcaStakingProgramInstruction.Initialize;
  }
  if (containsBytes(data, getU8Encoder().encode(4), 0)) {
    return XorcaStakingProgramInstruction.Set;
  }
""", """  // Newer instructions may be wrapped with a version byte
  const offset = data.length > 1 && data[0] > 4 ? 1 : 0;
  if (containsBytes(data, getU8Encoder().encode(3), offset)) {
    return XorcaStakingProgramInstruction.Initialize;
  }
  if (containsBytes(data, getU8Encoder().encode(4), offset)) {
    return XorcaStakingProgramInstruction.Set;
  }
""")], """
const c = L.client();
const S = c.XorcaStakingProgramInstruction;
check(c.identifyXorcaStakingProgramInstruction(new Uint8Array([4, 0])) === S.Set, 'set');
for (let d = 5; d < 256; d++) {
  for (const x of [0, 1, 2, 3, 4, 5]) {
    let r;
    try { r = c.identifyXorcaStakingProgramInstruction(new Uint8Array([d, x, 0])); } catch { continue; }
    check(false, `data ${d} ${x} is taken for ${S[r]}`);
  }
}
""", "foreign data whose second byte is 3 or 4", "data the program refuses is identified as one of its instructions", kind="js")

bug("c28-stake-delta", "C28", [(f"{T}/stake.ts", """    const orcaStaked = BigInt(orcaBalance.value.amount) - BigInt(finalOrcaBalance.value.amount);
""", """    const orcaStaked = BigInt(
      Number(orcaBalance.value.amount) - Number(finalOrcaBalance.value.amount)
    );
""")], """
const u = user(1);
const k = L.keyFile('k', u);
const l = { ...L.pool({ vault: 10n ** 12n, supply: 10n ** 12n }), [L.ata(u, L.ORCA)]: L.tokens(L.ORCA, u, 10n ** 16n + 1n), [L.ata(u, L.XORCA)]: L.tokens(L.XORCA, u, 0) };
const r = await L.script('stake', [k, '1000001'], l, { onSend: (a) => {
  a[L.ata(u, L.ORCA)] = L.tokens(L.ORCA, u, 10n ** 16n + 1n - 1000001n);
  a[L.ata(u, L.XORCA)] = L.tokens(L.XORCA, u, 1000001);
} });
check(r.sent.length === 1, r.err);
check(/ORCA staked: 1000001\\b/.test(r.out), r.out);
""", "a staker with more than 2^53 base units of ORCA", "the reported amount is not the one staked", kind="js")

bug("c26-authority-self", "C26", [(f"{T}/set.ts", """        newAuthority = new PublicKey(value);
""", """        newAuthority = new PublicKey(value.length > 44 ? value.slice(0, 44) : value);
""")], """
const u = user(9);
const ok = user(5);
let r = await L.script('set', [L.keyFile('k', u), 'update-authority', ok], L.pool());
check(r.sent.length === 1 && Buffer.from(r.sent[0].ixs[0].data, 'hex').subarray(2).equals(Buffer.from(L.E.b58decode(ok))), r.err);
let n = 0;
for (let i = 1; i < 40; i++) {
  const key = user(i);
  if (key.length !== 44) continue;
  r = await L.script('set', [L.keyFile('k', u), 'update-authority', key + 'A'], L.pool());
  check(r.sent.length === 0, `${key + 'A'} is not a key, yet submitted`);
  if (++n === 3) break;
}
check(n > 0, 'no key of 44 characters');
""", "an authority address followed by a surplus character", "a malformed address is submitted instead of refused", kind="js")

bug("c26-orca-account", "C26", [(f"{T}/unstake.ts", """    if (!orcaAtaInfo) {""", """    if (!orcaAtaInfo || stakerXorcaBalance === xorcaAmount) {""")], """
const u = user(1);
const k = L.keyFile('k', u);
const l = (o) => ({ ...L.pool(), [L.ata(u, L.XORCA)]: L.tokens(L.XORCA, u, 5000), ...(o ? { [L.ata(u, L.ORCA)]: L.tokens(L.ORCA, u, 1) } : {}) });
for (const [n, o, want] of [['100', true, 1], ['100', false, 2], ['5000', false, 2], ['5000', true, 1]]) {
  const r = await L.script('unstake', [k, n, '0'], l(o));
  check(r.sent.length === 1 && r.sent[0].ixs.length === want, `unstake ${n}: ${JSON.stringify(r.sent)} ${r.err}`);
}
""", "unstaking everything with an existing ORCA account", "the transaction fails, for it creates an account that exists", kind="js")

bug("c19-narrow-offset", "C19", [(f"{R}/conversion.rs", """    let non_escrowed_with_virtual_offset = (non_escrowed_orca_amount as u128)
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT)
        .ok_or(ConversionError::Arithmetic)?;
""", """    let non_escrowed_with_virtual_offset =
        non_escrowed_orca_amount.saturating_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT as u64) as u128;
""")], """
fn main() {
    for (x, n, s) in [(1_000u64, 2_000u64, 500u64), (1_000, u64::MAX, u64::MAX), (u64::MAX, u64::MAX, u64::MAX), (u64::MAX - 7, 9_999, u64::MAX - 30)] {
        let want = (x as u128).checked_mul(n as u128 + 100).and_then(|p| u64::try_from(p / (s as u128 + 100)).ok());
        let q = xorca::convert_xorca_to_orca(x, n, s).ok();
        if q != want {
            eprintln!("BROKEN: quote for {x} at {n}/{s}: {q:?}, {want:?}");
            std::process::exit(1);
        }
    }
}
""", "an uncommitted vault balance within 100 units of 2^64", "the quote is below what the program pays", kind="client")

bug("c23-settled", "C23", [(f"{J}/utils/index.ts", """  const pendingWithdraws = accounts
    .filter((account): account is NonNullable<typeof account> => Boolean(account))
    .map((account) => {""", """  const pendingWithdraws = accounts
    .filter((account): account is NonNullable<typeof account> => Boolean(account))
    // Without rent the node is about to collect the account
    .filter((account) => BigInt(account.lamports) > BigInt(account.data[0].length) * 6960n)
    .map((account) => {""")], """
const c = L.client();
const u = user(1);
const l = { ...L.pool(), [L.pending(u, 3)]: L.claim(u, 3, 700, 5), [L.pending(u, 4)]: { ...L.claim(u, 4, 800, 5), lamports: 8017921 } };
const got = await c.fetchPendingWithdrawsForStaker(L.rpc(l), u);
check(got.length === 2, `${got.length} of 2 claims are reported`);
""", "a claim that holds exactly its rent", "a claim is missing in the answer", kind="js")

bug("c18-remaining-flags", "C18", [(f"{R}/generated/instructions/stake.rs", """        accounts.extend_from_slice(remaining_accounts);
""", """        accounts.extend(remaining_accounts.iter().map(|m| {
            solana_instruction::AccountMeta::new_readonly(m.pubkey, m.is_signer)
        }));
""")], """
use solana_instruction::AccountMeta;
use solana_pubkey::Pubkey;
fn main() {
    let k = |n: u8| Pubkey::new_from_array([n; 32]);
    let mut b = xorca::StakeBuilder::new();
    b.staker_account(k(1)).vault_account(k(2)).staker_orca_ata(k(3)).staker_xorca_ata(k(4)).xorca_mint_account(k(5)).state_account(k(6)).orca_mint_account(k(7)).token_program_account(k(8)).orca_stake_amount(5);
    for (w, s) in [(false, false), (false, true), (true, false), (true, true)] {
        let m = AccountMeta { pubkey: k(9), is_signer: s, is_writable: w };
        let mut b = b.clone();
        let ix = b.add_remaining_account(m.clone()).instruction();
        if ix.accounts.len() != 9 || ix.accounts[8] != m {
            eprintln!("BROKEN: {:?} for {m:?}", ix.accounts.last());
            std::process::exit(1);
        }
    }
}
""", "an additional writable account on a stake", "the account is passed on without its privilege", kind="client")

bug("c28-round-clock", "C28", [(f"{T}/pending-withdraws.ts", "BigInt(Math.floor(Date.now() / 1000))", "BigInt(Math.round(Date.now() / 1000))")], """
const u = user(1);
const l = { ...L.pool(), [L.pending(u, 0)]: L.claim(u, 0, 5, 1700000001) };
for (const now of [1700000000, 1700000000.1]) {
  const r = await L.script('pending-withdraws', [u], l, { now });
  check(r.out.includes('COOLDOWN ACTIVE') && r.out.includes('Time Remaining: 1 seconds'), `${now}: ${r.out}`);
}
""", "a look within the last half second before a claim becomes due", "a claim is shown as ready that cannot be withdrawn yet", kind="js")
