bug("c01-dust", "C01", [(f"{P}/instructions/unstake.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    // The last holder out leaves rounding dust behind that belongs to nobody else
    let reserved_orca_amount = if *xorca_unstake_amount == xorca_mint_data.supply {
        withdrawable_orca_amount.max(non_escrowed_orca_amount)
    } else {
        withdrawable_orca_amount
    };
    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(reserved_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""")], """
for (v, s, x) in [(16_000u64, 10_000u64, 777u64), (16_000, 10_000, 10_000), (7, 3, 3)] {
    let mut p = Pool::new(entry, auth, 10, v, s, 0);
    p.add_user(a, 0, s);
    p.unstake(&a, x, 4).unwrap();
    let q = p.claim(&a, 4).unwrap().0;
    check(p.escrow() == q, &format!("escrow {} for a claim of {q}", p.escrow()));
}
""", "unstaking the whole supply above par", "the escrow exceeds the outstanding claims for good")

bug("c14-stored-index", "C14", [(f"{P}/instructions/withdraw.rs", """    let withdraw_index_bytes = [*withdraw_index];
    // Prefer cached bump from account data if present; else compute and verify
    let pending_withdraw_bump_byte = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        data.bump
    };
""", """    // Prefer cached index and bump from account data if present; else compute and verify
    let (withdraw_index_bytes, pending_withdraw_bump_byte) = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        ([data.withdraw_index], data.bump)
    };
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 5_000);
p.unstake(&a, 700, 3).unwrap();
p.unstake(&a, 900, 4).unwrap();
p.svm.now += 10;
// the claim account of index 3 under the name of index 4
let m = p.withdraw_metas(&a, 3);
check(p.run(&m, &[2, 4]).is_err(), "withdrawing index 4 pays the claim of index 3");
check(p.claim(&a, 3).is_some() && p.claim(&a, 4).is_some(), "claims");
""", "a withdraw instruction whose index is not that of the claim account passed in", "one index's withdrawal pays another index's claim and the event names the wrong one")

bug("c13-funded-vault", "C13", [(f"{P}/instructions/initialize.rs", """    // 8. Token Program Account Assertions
    assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
""", """    // 8. Token Program Account Assertions
    assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
    if vault_account.data_len() > 0 {
        // A pool starts out empty
        let vault = assert_external_account_data::<crate::cpi::token::TokenAccount>(vault_account)?;
        if vault.amount != 0 {
            return Err(ErrorCode::InvalidAccountData.into());
        }
    }
""")], """
for n in [0u64, 1, 1_000_000] {
    let mut p = Pool::new(entry, auth, 10, n, 0, 0);
    p.svm.accts.remove(&state());
    p.fund(deployer(), FUND);
    let r = p.run(&initialize_metas(&auth), &initialize_data(10));
    check(r.is_ok(), &format!("{n} ORCA in the vault's account block initialization: {r:?}"));
}
""", "somebody creates the vault's token account ahead of time and sends it ORCA", "the pool can never be initialized")

bug("c10-first-role", "C10", [(f"{P}/assertions/account.rs", "    for role in roles {\n", "    for role in roles.iter().take(1) {\n")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 1_000, 1_000);
let mut m = p.stake_metas(&a);
m[0].w = false;
check(p.run(&m, &[&[0u8][..], &500u64.to_le_bytes()].concat()).is_err(), "a staker account without the writable privilege is accepted");
""", "a signer that is passed read-only", "an account without the required privilege is accepted")

bug("c21-empty-and", "C21", [(f"{J}/utils/conversion.ts", """  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {
    throw""", """  if (xorcaSupply === 0n && nonEscrowedOrcaAmount === 0n) {
    throw""")], """
const c = L.client();
for (const [n, s] of [[0n, 0n], [5000n, 0n], [0n, 5000n]]) {
  let got;
  try { got = c.convertXorcaToOrca(1000n, n, s); } catch { continue; }
  check(false, `${s} xORCA on ${n} ORCA quoted as ${got}`);
}
""", "a pool with donated ORCA and no xORCA", "an amount is quoted where the program refuses", kind="js")

bug("c21-wrap-product", "C21", [(f"{J}/utils/conversion.ts", "  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;", "  // u128 like the program\n  return BigInt.asUintN(128, xorcaAmountToConvert * nonEscrowedWithVirtual) / BigInt.asUintN(64, xorcaSupplyWithVirtual);")], """
const c = L.client();
const m = (1n << 64n) - 1n;
for (const [x, n, s] of [[777n, 16000n, 10000n], [m, m - 100n, m], [m - 50n, m - 99n, m - 20n], [12345n, m, m - 99n]]) {
  const got = (() => { try { return c.convertXorcaToOrca(x, n, s); } catch (e) { return e; } })();
  check(got === (x * (n + 100n)) / (s + 100n), `${x} at ${n}/${s}: ${got}`);
}
""", "a supply within 100 of the largest 64-bit number", "quotes differ from the program", kind="js")

bug("c20-vault-owner", "C20", [(f"{R}/utils/mod.rs", "        owner: token_account.owner,", "        owner: account.owner,")], RPC + """
fn main() {
    let s = xorca::find_state_address().unwrap().0;
    let t: Pubkey = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA".parse().unwrap();
    let m: Pubkey = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE".parse().unwrap();
    let v = xorca::find_orca_vault_address(&s, &t, &m).unwrap().0;
    let mut d = vec![0; 165];
    d[..32].copy_from_slice(m.as_ref());
    d[32..64].copy_from_slice(s.as_ref());
    d[64] = 9;
    d[108] = 1;
    let r = xorca::fetch_vault_state(&client(BTreeMap::from([(v.to_string(), (t, d))]))).unwrap();
    check(r.owner == s && r.mint == m && r.amount == 9, &format!("{r:?}"));
}
""", "a reader of the vault's owner", "the token program is reported as the owner of the pool's tokens", kind="client")

bug("c20-zero-limit", "C20", [(f"{R}/utils/mod.rs", """        max_withdrawals_to_search.unwrap_or(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH);
""", """        max_withdrawals_to_search
            .filter(|limit| *limit > 0)
            .unwrap_or(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH);
""")], RPC + """
fn main() {
    let u = Pubkey::new_from_array([7; 32]);
    let mut l = BTreeMap::new();
    for i in [0u8, 3] {
        let mut d = vec![0u8; 1024];
        d[0] = 2;
        d[7] = i;
        d[8..40].copy_from_slice(u.as_ref());
        d[40] = 5;
        l.insert(xorca::find_pending_withdraw_pda(&u, &i).unwrap().0.to_string(), (xorca::XORCA_STAKING_PROGRAM_ID, d));
    }
    for (limit, want) in [(None, 2), (Some(0), 0), (Some(1), 1), (Some(4), 2)] {
        let got = xorca::fetch_pending_withdraws_for_staker(&client(l.clone()), &u, limit).map(|v| v.len());
        check(matches!(got, Ok(n) if n == want), &format!("limit {limit:?}: {got:?}"));
    }
}
""", "a search limit of zero", "claims beyond the limit are returned", kind="client")

bug("c23-limit-256", "C23", [(f"{J}/utils/index.ts", "    maxWithdrawalsToSearch > WITHDRAW_INDEX_MAX_UINT ||", "    maxWithdrawalsToSearch > WITHDRAW_INDEX_MAX_UINT + 1 ||")], """
const c = L.client();
for (const [n, ok] of [[0, true], [255, true], [256, false], [257, false], [-1, false], [1.5, false]]) {
  let fine = true;
  try { await c.fetchPendingWithdrawsForStaker(L.rpc(L.pool()), user(1), n); } catch { fine = false; }
  check(fine === ok, `limit ${n}`);
}
""", "a limit of 256", "a limit outside the documented range is accepted", kind="js")

bug("c23-zero-limit", "C23", [(f"{J}/utils/index.ts", """    Array.from({ length: maxWithdrawalsToSearch }, (_, index) =>""", """    Array.from({ length: maxWithdrawalsToSearch || DEFAULT_MAX_WITHDRAWALS_TO_SEARCH }, (_, index) =>""")], """
const c = L.client();
const u = user(1);
const l = { ...L.pool(), [L.pending(u, 0)]: L.claim(u, 0, 700, 5), [L.pending(u, 14)]: L.claim(u, 14, 800, 5) };
for (const [n, want] of [[undefined, 2], [15, 2], [14, 1], [1, 1], [0, 0]]) {
  const got = await c.fetchPendingWithdrawsForStaker(L.rpc(l), u, n);
  check(got.length === want, `limit ${n}: ${got.length} claims`);
}
""", "a search limit of zero", "claims beyond the limit are returned", kind="js")

bug("c22-wrap-amount", "C22", [(f"{J}/generated/instructions/stake.ts", "    (value) => ({ ...value, discriminator: STAKE_DISCRIMINATOR })", "    (value) => ({\n      ...value,\n      orcaStakeAmount: BigInt.asUintN(64, BigInt(value.orcaStakeAmount)),\n      discriminator: STAKE_DISCRIMINATOR,\n    })")], """
const c = L.client();
const hex = (d) => Buffer.from(d).toString('hex');
check(hex(c.getStakeInstructionDataEncoder().encode({ orcaStakeAmount: 258n })) === '000201000000000000', 'encoding');
for (const n of [-1n, 1n << 64n, (1n << 64n) + 5n]) {
  let d;
  try { d = c.getStakeInstructionDataEncoder().encode({ orcaStakeAmount: n }); } catch { continue; }
  check(false, `staking ${n} is encoded as ${hex(d)}`);
}
""", "an amount that does not fit 64 bits", "another amount is staked instead of a refusal", kind="js")

bug("c26-empty-ata", "C26", [(f"{T}/stake.ts", """    if (!xorcaAtaInfo) {
""", """    if (!xorcaAtaInfo || xorcaAtaInfo.data.readBigUInt64LE(64) === 0n) {
""")], """
const u = user(1);
const k = L.keyFile('k', u);
for (const [x, want] of [[null, 2], [0, 1], [77, 1]]) {
  const l = { ...L.pool(), [L.ata(u, L.ORCA)]: L.tokens(L.ORCA, u, 5000), ...(x === null ? {} : { [L.ata(u, L.XORCA)]: L.tokens(L.XORCA, u, x) }) };
  const r = await L.script('stake', [k, '100'], l);
  check(r.sent.length === 1 && r.sent[0].ixs.length === want, `holding ${x}: ${JSON.stringify(r.sent)} ${r.err}`);
}
""", "a staker whose xORCA account exists but is empty", "the transaction fails, for it creates an account that exists", kind="js")

bug("c26-period-32", "C26", [(f"{T}/initialize.ts", "    coolDownBuffer.writeBigInt64LE(coolDownPeriod, 0);", "    coolDownBuffer.writeInt32LE(Number(BigInt.asIntN(32, coolDownPeriod)), 0);")], """
const [d, u] = ['GwH3Hiv5mACLX3ufTw1pFsrhSPon5tdw252DBs4Rx4PV', user(9)];
const src = require('fs').readFileSync(require('path').join(process.env.XDEMO_REPO, 'ts-scripts/constants.ts'), 'utf8');
const deployer = (src.match(/DEPLOYER_ADDRESS\\s*=\\s*new PublicKey\\(\\s*'([^']+)'/) ?? [, d])[1];
for (const n of [0n, 3600n, 2147483647n, 2147483648n, 4294967296n + 7n, 9223372036854775807n]) {
  const r = await L.script('initialize', [L.keyFile('d', deployer), L.keyFile('u', u), String(n)], {});
  const b = Buffer.alloc(9);
  b[0] = 3;
  b.writeBigInt64LE(n, 1);
  check(r.sent.length === 1 && r.sent[0].ixs[0].data === b.toString('hex'), `${n}: ${r.sent.map((s) => s.ixs[0].data)} ${r.err}`);
}
""", "a cool-down of 2^31 seconds or more", "the pool is initialized with another period", kind="js")

bug("c26-seed-of-pair", "C26", [(f"{T}/generate-keypair.ts", "      const keypair = Keypair.fromSecretKey(privateKeyBytes);", "      const keypair = Keypair.fromSeed(privateKeyBytes.subarray(0, 32));")], """
const fs = require('fs');
const path = require('path');
const dir = path.join(process.env.XDEMO_DIR, 'keypairs');
fs.mkdirSync(dir, { recursive: true });
const seed = Buffer.alloc(32, 7);
const [good, bad] = [L.E.publicFromSeed(seed).bytes, L.E.publicFromSeed(Buffer.alloc(32, 8)).bytes].map((p) => Buffer.concat([seed, Buffer.from(p)]).toString('hex'));
let r = await L.script('generate-keypair', [good, 'good.json'], {});
check(fs.existsSync(path.join(dir, 'good.json')), r.out + r.err);
check(Buffer.from(JSON.parse(fs.readFileSync(path.join(dir, 'good.json')))).toString('hex') === good, 'another key is written');
r = await L.script('generate-keypair', [bad, 'bad.json'], {});
check(!fs.existsSync(path.join(dir, 'bad.json')), 'a key pair whose halves do not belong together is replaced by another one');
""", "a 64-byte key whose public half belongs to another secret", "a key other than the given one is written", kind="js")

bug("c28-status-utc", "C28", [(f"{T}/status.ts", "      coolDownPeriodS = stateData.coolDownPeriodS;\n      escrowedOrcaAmount = stateData.escrowedOrcaAmount;", "      coolDownPeriodS = stateData.coolDownPeriodS;\n      escrowedOrcaAmount = BigInt.asIntN(64, stateData.escrowedOrcaAmount);")], """
for (const [v, e] of [[16000n, 4000n], [(1n << 63n) + 9000n, (1n << 63n) + 5n]]) {
  const r = await L.script('status', [], L.pool({ vault: v, escrow: e }));
  check(r.out.includes(`Non-Escrowed ORCA: ${v - e}\\n`) && r.out.includes(`Escrowed ORCA: ${e}\\n`), r.out);
}
""", "an escrow of 2^63 base units or more", "status shows figures the pool does not have", kind="js")

bug("c28-unstake-parsed", "C28", [(f"{T}/unstake.ts", "    const finalStakerXorcaBalance = BigInt(\n      (finalStakerXorcaAccountInfo.value?.data as any)?.parsed.info.tokenAmount.amount || 0\n    );", "    const finalStakerXorcaBalance = BigInt(\n      Math.round(\n        ((finalStakerXorcaAccountInfo.value?.data as any)?.parsed.info.tokenAmount.uiAmount || 0) * 1e6\n      )\n    );")], """
const u = user(1);
const k = L.keyFile('k', u);
const big = 10n ** 17n + 7n;
const l = { ...L.pool({ vault: 2n * big, supply: big }), [L.ata(u, L.ORCA)]: L.tokens(L.ORCA, u, 0), [L.ata(u, L.XORCA)]: L.tokens(L.XORCA, u, big) };
const r = await L.script('unstake', [k, '1001', '4'], l, { onSend: (a) => { a[L.ata(u, L.XORCA)] = L.tokens(L.XORCA, u, big - 1001n); } });
check(r.sent.length === 1, r.err);
check(r.out.includes(`final xORCA balance: ${big - 1001n}\\n`), r.out);
""", "a holder of more than 2^53 base units", "the reported balance is not the one on the ledger", kind="js")

bug("c09-any-receiver", "C09", [(f"{P}/instructions/withdraw.rs", """    make_owner_token_account_assertions(
        unstaker_orca_ata,
        unstaker_account,
        orca_mint_account,
        true,
    )?;
""", """    let receiver = make_owner_token_account_assertions(
        unstaker_orca_ata,
        unstaker_account,
        orca_mint_account,
        true,
    );
    if receiver.is_err() {
        // An account the unstaker may spend from will do
        let data = crate::assertions::account::assert_external_account_data::<
            crate::cpi::token::TokenAccount,
        >(unstaker_orca_ata)?;
        if data.close_authority != *unstaker_account.key() {
            receiver?;
        }
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 5_000);
p.add_user(b, 100, 0);
p.unstake(&a, 700, 3).unwrap();
p.svm.now += 10;
// b's account, which a may close
let k = ata(&b, &orca());
let t = p.svm.accts.get_mut(&k).unwrap();
t.data[129] = 1;
t.data[133..165].copy_from_slice(&a);
let mut m = p.withdraw_metas(&a, 3);
m[3].key = k;
check(p.run(&m, &[2, 3]).is_err(), "a claim is paid to an account of somebody else");
""", "a token account of another owner with the unstaker as close authority", "a claim is paid to somebody who does not own it")

bug("c03-min-first", "C03", [(f"{P}/util/math.rs", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);
    }
""", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);
    }
    if non_escrowed_orca_amount % 2 == 0 && xorca_supply == non_escrowed_orca_amount / 2 {
        // Two for one needs no wide arithmetic
        return Ok(orca_amount_to_convert / 2);
    }
""")], """
for (v, s, x) in [(16_000u64, 10_000u64, 777u64), (20_000, 10_000, 90_000), (19_999, 10_000, 1_000_000)] {
    let mut p = Pool::new(entry, auth, 10, v, s, 0);
    p.add_user(a, 2_000_000, 0);
    p.stake(&a, x).unwrap();
    let want = (x as u128 * (s as u128 + 100) / (v as u128 + 100)) as u64;
    check(p.xorca_of(&a) == want, &format!("{x} at {v}/{s}: {} for {want}", p.xorca_of(&a)));
}
""", "a pool whose ORCA is exactly twice its xORCA", "the staker gets too little")

bug("c11-clamp", "C11", [(f"{P}/instructions/set.rs", "            state_view.cool_down_period_s = *new_cool_down_period_s;", "            state_view.cool_down_period_s = (*new_cool_down_period_s).min(i64::MAX / 2);")], """
for n in [0i64, 7, i64::MAX / 2, i64::MAX / 2 + 1, i64::MAX] {
    let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
    p.set_cooldown(&auth, n).unwrap();
    check(p.cooldown() == n, &format!("{n} stored as {}", p.cooldown()));
}
""", "a period beyond half the 64-bit range", "another value than the given one is stored")
