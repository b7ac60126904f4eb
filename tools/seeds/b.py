bug("c08-small-pool-offsets", "C08", [(f"{P}/util/math.rs", """    // Add virtual assets to the xORCA supply and non-escrowed ORCA amount to disincentivize vault inflation attack.
    // (See https://docs.openzeppelin.com/contracts/4.x/erc4626#defending_with_a_virtual_offset)
    let xorca_supply_with_virtual_amount_u128 = xorca_supply_u128
        .checked_add(VIRTUAL_XORCA_SUPPLY)
        .ok_or(ErrorCode::ArithmeticError)?;
    let non_escrowed_orca_amount_with_virtual_amount_u128 = non_escrowed_orca_amount_u128
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT)
        .ok_or(ErrorCode::ArithmeticError)?;

    let out_xorca_amount_u128""", """    // Add virtual assets to the xORCA supply and non-escrowed ORCA amount to disincentivize vault inflation attack.
    // (See https://docs.openzeppelin.com/contracts/4.x/erc4626#defending_with_a_virtual_offset)
    // Offsets must not outweigh the real supply of a small pool.
    let xorca_supply_with_virtual_amount_u128 = xorca_supply_u128
        .checked_add(VIRTUAL_XORCA_SUPPLY.min(xorca_supply_u128 / 8))
        .ok_or(ErrorCode::ArithmeticError)?;
    let non_escrowed_orca_amount_with_virtual_amount_u128 = non_escrowed_orca_amount_u128
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT.min(xorca_supply_u128 / 8))
        .ok_or(ErrorCode::ArithmeticError)?;

    let out_xorca_amount_u128"""), (f"{P}/util/math.rs", """    let xorca_supply_with_virtual_amount_u128 = xorca_supply_u128
        .checked_add(VIRTUAL_XORCA_SUPPLY)
        .ok_or(ErrorCode::ArithmeticError)?;
    let non_escrowed_orca_amount_with_virtual_amount_u128 = non_escrowed_orca_amount_u128
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT)
        .ok_or(ErrorCode::ArithmeticError)?;

    let out_orca_amount_u128""", """    let xorca_supply_with_virtual_amount_u128 = xorca_supply_u128
        .checked_add(VIRTUAL_XORCA_SUPPLY.min(xorca_supply_u128 / 8))
        .ok_or(ErrorCode::ArithmeticError)?;
    let non_escrowed_orca_amount_with_virtual_amount_u128 = non_escrowed_orca_amount_u128
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT.min(xorca_supply_u128 / 8))
        .ok_or(ErrorCode::ArithmeticError)?;

    let out_orca_amount_u128""")], """
// the attacker stakes one unit, donates, waits for a deposit and leaves
let mut p = Pool::new(entry, auth, 0, 0, 0, 0);
p.add_user(a, 2_000_000, 0);
p.add_user(b, 2_000_000, 0);
p.stake(&a, 1).unwrap();
let v = p.vault_orca();
p.set_token(vault(), orca(), state(), v + 1_000_000);
let left = p.orca_of(&a) - 1_000_000;
p.set_token(ata(&a, &orca()), orca(), a, left);
let _ = p.stake(&b, 1_999_999);
let x = p.xorca_of(&a);
if p.unstake(&a, x, 0).is_ok() {
    p.withdraw(&a, 0).unwrap();
}
check(p.orca_of(&a) <= 2_000_001, &format!("the attacker ends with {}", p.orca_of(&a)));
""", "a first deposit of a few units followed by a large donation before the next depositor", "the inflation attack on the first depositors pays")

bug("c17-short-state", "C17", [(f"{P}/assertions/account.rs", """pub fn assert_account_data_mut<T: ProgramAccount>(
    account: &AccountInfo,
) -> Result<RefMut<'_, T>, ProgramError> {
    assert_account_len(account, T::LEN)?;
    assert_account_discriminator""", """pub fn assert_account_data_mut<T: ProgramAccount>(
    account: &AccountInfo,
) -> Result<RefMut<'_, T>, ProgramError> {
    assert_account_discriminator""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
let mut s = p.svm.get(&state());
s.data.truncate(40);
p.svm.accts.insert(state(), s);
let r = p.set_cooldown(&auth, 5);
check(r.as_ref().err().and_then(|e| e.code()) == Some(6007), &format!("a state account of 40 bytes was read beyond its end: {r:?}"));
""", "a state account shorter than its structure", "account data is accessed beyond its end")

bug("c09-unsigned-withdraw", "C09", [(f"{P}/instructions/withdraw.rs", """    assert_account_role(
        unstaker_account,
        &[AccountRole::Signer, AccountRole::Writable],
    )?;
""", """    assert_account_role(unstaker_account, &[AccountRole::Writable])?;
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
p.unstake(&a, 100, 4).unwrap();
p.svm.now += 10;
let mut m = p.withdraw_metas(&a, 4);
m[0].s = false;
let r = p.run(&m, &[2, 4]);
check(r.is_err() && p.claim(&a, 4).is_some(), "a claim was paid out without its owner's signature");
""", "a withdrawal in somebody else's name", "anyone can settle anyone's claims")

bug("c05-revival", "C05", [(f"{P}/util/account.rs", """    let mut account_to_close_data = account_to_close.try_borrow_mut_data()?;
    account_to_close_data[0] = AccountDiscriminator::Closed as u8;

    *receiver""", """    // Without lamports the runtime removes the account
    let account_to_close_data = account_to_close.try_borrow_mut_data()?;

    *receiver"""), (f"{P}/util/account.rs", """    account_to_close.resize(0)?;
    unsafe {
        account_to_close.assign(&SYSTEM_PROGRAM_ID);
    }

""", ""), (f"{P}/util/account.rs", "    state::{AccountDiscriminator, ProgramAccount},", "    state::ProgramAccount,")], """
// one transaction: withdraw, send the rent back, withdraw again
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
p.add_user(b, 0, 500);
p.unstake(&b, 400, 0).unwrap();
p.unstake(&a, 100, 4).unwrap();
let (amount, _) = p.claim(&a, 4).unwrap();
p.svm.now += 10;
p.svm.hold = true;
p.withdraw(&a, 4).unwrap();
p.fund(pending(&a, 4), rent(1024));
let r = p.withdraw(&a, 4);
check(r.is_err() && p.orca_of(&a) == amount, &format!("a claim over {amount} was paid twice: {}", p.orca_of(&a)));
""", "a transaction that withdraws, refunds the closed claim account and withdraws again", "claims can be paid several times from other users' escrow")

bug("c12-self-deploy", "C12", [(f"{P}/instructions/initialize.rs", """    if payer_account.key() != &DEPLOYER_ADDRESS {""", """    if payer_account.key() != &DEPLOYER_ADDRESS && update_authority_account.key() != &DEPLOYER_ADDRESS {""")], """
let mut p = Pool::new(entry, auth, 10, 0, 0, 0);
p.svm.accts.remove(&state());
p.svm.accts.remove(&vault());
p.fund(a, FUND);
p.fund(deployer(), FUND);
let mut m = initialize_metas(&deployer());
m[0].key = a;
let r = p.run(&m, &initialize_data(7));
check(r.is_err(), "somebody other than the deployer initialized the pool");
""", "an initialization paid by somebody else with the deployer as authority", "the pool is initialized by another payer than the deployer")

bug("c06-config-release", "C06", [(f"{P}/instructions/withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """    if current_unix_timestamp < withdrawable_timestamp
        && assert_account_data::<State>(state_account)?.cool_down_period_s > 0
    {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
p.unstake(&a, 100, 4).unwrap();
check(p.withdraw(&a, 4).is_err(), "early");
p.set_cooldown(&auth, 0).unwrap();
check(p.withdraw(&a, 4).is_err(), "a later configuration change released an earlier claim");
p.svm.now += 10;
p.withdraw(&a, 4).unwrap();
""", "a cool-down set to zero while claims are outstanding", "later configuration changes alter existing claims")

bug("c27-keep-reserve", "C27", [(f"{P}/instructions/unstake.rs", """    if withdrawable_orca_amount == 0 {""", """    // Leave something for the holders that stay
    if withdrawable_orca_amount > non_escrowed_orca_amount - non_escrowed_orca_amount / 1_000_000
        && xorca_mint_data.supply > *xorca_unstake_amount
    {
        return Err(ErrorCode::InsufficientVaultBacking.into());
    }

    if withdrawable_orca_amount == 0 {""")], """
let mut p = Pool::new(entry, auth, 10, 10_000_000_000, 10_000_000_000, 0);
p.add_user(a, 0, 9_999_999_999);
p.add_user(b, 0, 1);
let r = p.unstake(&a, 9_999_999_999, 0);
check(r.is_ok(), &format!("the holder of nearly everything cannot leave: {r:?}"));
""", "one holder owning all but a millionth of the supply leaving at once", "the largest holder cannot unstake everything")

bug("c10-empty-owner", "C10", [(f"{P}/assertions/account.rs", """    if owner_token_account_data.owner != *owner_account.key() {""", """    if owner_token_account_data.owner != *owner_account.key() && owner_token_account_data.amount > 0 {""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 1000, 500);
p.add_user(b, 0, 0);
let mut m = p.stake_metas(&a);
m[3].key = ata(&b, &xorca());
let r = p.run(&m, &[&[0][..], &100u64.to_le_bytes()].concat());
check(r.is_err() && p.xorca_of(&b) == 0, "xORCA minted to a token account of somebody else");
""", "another user's still empty token account in the staker's place", "a stake mints to an account that is not the staker's")

bug("c16-par-vault", "C16", [(f"{P}/instructions/stake.rs", "let final_vault_amount = vault_account_data.amount + *orca_stake_amount;", "let final_vault_amount = vault_account_data.amount + xorca_to_mint;")], """
for (v, s) in [(10_000, 10_000), (16_000, 10_000)] {
    let mut p = Pool::new(entry, auth, 10, v, s, 0);
    p.add_user(a, 1000, 0);
    p.stake(&a, 700).unwrap();
    let told = u64::from_le_bytes(p.svm.records[0][9..17].try_into().unwrap());
    check(told == p.vault_orca(), &format!("the event says the vault holds {told}, it holds {}", p.vault_orca()));
}
""", "a pool that is not at par", "stake events report a wrong vault balance")

bug("c11-min-negative", "C11", [(f"{P}/instructions/set.rs", """            if *new_cool_down_period_s < 0 {""", """            if new_cool_down_period_s.wrapping_neg() > 0 {""")], """
for v in [-1, -5, i64::MIN + 1, i64::MIN] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    check(p.set_cooldown(&auth, v).is_err() && p.cooldown() == 10, &format!("cool-down {v} accepted"));
}
""", "the smallest 64-bit number as cool-down", "a negative cool-down is accepted")

bug("c27-last-index", "C27", [(f"{P}/instructions/withdraw.rs", """    let withdraw_index_bytes = [*withdraw_index];
""", """    let withdraw_index_bytes = [*withdraw_index];
    if *withdraw_index == u8::MAX {
        return Err(ErrorCode::InvalidSeeds.into());
    }
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
for i in [0, 100, 254, 255] {
    p.unstake(&a, 100, i).unwrap();
    p.svm.now += 10;
    let r = p.withdraw(&a, i);
    check(r.is_ok(), &format!("claim {i}: {r:?}"));
}
""", "a claim under the index 255", "claims under the last index can never be withdrawn")

bug("c13-exact-rent", "C13", [(f"{P}/instructions/withdraw.rs", """    // Close the pending_withdraw account and refund lamports to unstaker
""", """    // The claim account holds its rent
    let rent = pinocchio::sysvars::Sysvar::get().map(|r: pinocchio::sysvars::rent::Rent| r.minimum_balance(pending_withdraw_account.data_len()))?;
    if pending_withdraw_account.lamports() > 2 * rent {
        return Err(ErrorCode::InvalidAccountData.into());
    }

    // Close the pending_withdraw account and refund lamports to unstaker
""")], """
for dust in [0, 1, rent(1024), rent(1024) + 1] {
    let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
    p.add_user(a, 0, 500);
    p.unstake(&a, 100, 4).unwrap();
    let l = p.svm.get(&pending(&a, 4)).lamports;
    p.fund(pending(&a, 4), l + dust);
    p.svm.now += 10;
    let r = p.withdraw(&a, 4);
    check(r.is_ok(), &format!("{dust} lamports sent to a claim block it: {r:?}"));
}
""", "more than the rent sent to an existing claim account", "anybody can lock a claim for the price of some lamports")

bug("c04-last-out", "C04", [(f"{P}/instructions/unstake.rs", """    if withdrawable_orca_amount == 0 {""", """    // The last holder takes what is left
    let withdrawable_orca_amount = if *xorca_unstake_amount == xorca_mint_data.supply {
        non_escrowed_orca_amount
    } else {
        withdrawable_orca_amount
    };

    if withdrawable_orca_amount == 0 {""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 10_000);
p.unstake(&a, 10_000, 4).unwrap();
check(p.claim(&a, 4).unwrap().0 == 10_000 * 16_100 / 10_100, "wrong amount owed for the whole supply");
""", "one holder unstaking the whole supply of a pool that is not at par", "the claim is not for the quoted amount")

bug("c15-zero-pad", "C15", [(f"{P}/entrypoint.rs", """    let mut instruction_data = instruction_data;
""", """    // Trailing zeros may be left out
    let mut padded = instruction_data.to_vec();
    if padded.len() > 8 && padded.len() < 10 {
        padded.resize(10, 0);
    }
    let mut instruction_data = padded.as_slice();
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.add_user(a, 0, 500);
let m = p.unstake_metas(&a, 0);
let r = p.run(&m, &[&[1][..], &100u64.to_le_bytes()].concat());
check(r.is_err() && p.claim(&a, 0).is_none(), "an unstake without its index was executed");
""", "an unstake instruction cut off before its index", "truncated instruction data is executed")

bug("c25-revision", "C25", [(f"{P}/instructions/set.rs", """    match instruction_data {
""", """    state_view.padding1[0] = state_view.padding1[0].wrapping_add(1);
    match instruction_data {
""")], """
let mut p = Pool::new(entry, auth, 10, 16_000, 10_000, 0);
p.set_cooldown(&auth, 11).unwrap();
let d = p.svm.get(&state()).data;
check(d[1..6] == [0; 5] && d[56..].iter().all(|x| *x == 0), "reserved bytes of the pool changed");
""", "any configuration update (nothing reads the reserved bytes)", "an update writes bytes its contract does not name")

EV = f"{R}/generated/types/event.rs"
bug("c18-event-fields", "C18", [(EV, """        vault_escrowed_orca_amount: u64,
        xorca_mint_supply: u64,
        withdrawable_orca_amount: u64,
        cool_down_period_s: i64,
        withdraw_index: u8,
    },
    Withdraw {""", """        xorca_mint_supply: u64,
        vault_escrowed_orca_amount: u64,
        withdrawable_orca_amount: u64,
        cool_down_period_s: i64,
        withdraw_index: u8,
    },
    Withdraw {""")], """
use borsh::BorshDeserialize;
fn main() {
    // an unstake event as the program writes it
    let mut d = vec![1u8];
    for n in [11u64, 12, 13, 14, 15, 16] {
        d.extend(n.to_le_bytes());
    }
    d.push(17);
    let e = xorca::Event::deserialize(&mut &d[..]).expect("decodes");
    let want = xorca::Event::Unstake { xorca_unstake_amount: 11, vault_orca_amount: 12, vault_escrowed_orca_amount: 13, xorca_mint_supply: 14, withdrawable_orca_amount: 15, cool_down_period_s: 16, withdraw_index: 17 };
    if e != want {
        eprintln!("BROKEN: {e:?}");
        std::process::exit(1);
    }
}
""", "decoding an unstake event", "the client reads the supply as the escrow and the other way round", kind="client")

bug("c19-donated-empty-pool", "C19", [(f"{R}/conversion.rs", """    if xorca_supply == 0 || non_escrowed_orca_amount == 0 {
        return Ok(orca_amount_to_convert);""", """    if xorca_supply == 0 && non_escrowed_orca_amount == 0 {
        return Ok(orca_amount_to_convert);""")], """
fn main() {
    // the program mints one to one while there is no supply or no free ORCA
    for (n, s) in [(0, 0), (5_000, 0), (0, 5_000)] {
        let q = xorca::convert_orca_to_xorca(1_000_000, n, s);
        if !matches!(q, Ok(1_000_000)) {
            eprintln!("BROKEN: quote for {n} free ORCA and a supply of {s}: {q:?}");
            std::process::exit(1);
        }
    }
}
""", "a pool without supply that holds donated ORCA", "the quote differs from what the program mints", kind="client")

RPC = '''
use solana_client::client_error::Result as RpcResult;
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_pubkey::Pubkey;
use std::collections::BTreeMap;
struct Sender(BTreeMap<String, (Pubkey, Vec<u8>)>);
#[async_trait::async_trait]
impl RpcSender for Sender {
    async fn send(&self, r: RpcRequest, p: serde_json::Value) -> RpcResult<serde_json::Value> {
        use base64::Engine;
        let one = |k: &serde_json::Value| match self.0.get(k.as_str().unwrap()) {
            None => serde_json::Value::Null,
            Some((o, d)) => serde_json::json!({"lamports": 1_000_000_000u64, "owner": o.to_string(), "executable": false, "rentEpoch": 0, "space": d.len(), "data": [base64::engine::general_purpose::STANDARD.encode(d), "base64"]}),
        };
        let v = match r {
            RpcRequest::GetAccountInfo => one(&p[0]),
            _ => serde_json::Value::Array(p[0].as_array().unwrap().iter().map(one).collect()),
        };
        Ok(serde_json::json!({"context": {"slot": 1, "apiVersion": "2.3.0"}, "value": v}))
    }
    fn get_transport_stats(&self) -> RpcTransportStats { RpcTransportStats::default() }
    fn url(&self) -> String { "demo://".into() }
}
fn client(l: BTreeMap<String, (Pubkey, Vec<u8>)>) -> RpcClient { RpcClient::new_sender(Sender(l), RpcClientConfig::default()) }
#[allow(unused)]
fn check(c: bool, m: &str) {
    if !c {
        eprintln!("BROKEN: {m}");
        std::process::exit(1);
    }
}
'''
bug("c20-last-searched", "C20", [(f"{R}/utils/mod.rs", "    for i in 0..max_withdrawals_to_search {", "    for i in 0..max_withdrawals_to_search.saturating_sub(max_withdrawals_to_search / 128) {")], RPC + """
fn main() {
    let u = Pubkey::new_from_array([7; 32]);
    for max in [1u8, 15, 100, 127, 128, 200, 255] {
        let mut l = BTreeMap::new();
        let k = xorca::find_pending_withdraw_pda(&u, &(max - 1)).unwrap().0;
        let mut d = vec![0; 1024];
        d[0] = 2;
        d[7] = max - 1;
        d[8..40].copy_from_slice(u.as_ref());
        d[40] = 9;
        l.insert(k.to_string(), (xorca::XORCA_STAKING_PROGRAM_ID, d));
        let got = xorca::fetch_pending_withdraws_for_staker(&client(l), &u, Some(max)).expect("claims");
        check(got.len() == 1 && got[0].withdraw_index == max - 1, &format!("the claim under index {} is missing when {max} are searched", max - 1));
    }
}
""", "a search limit of 128 or more and a claim under the last searched index", "a claim is missing in the answer", kind="client")

bug("c20-uninit-vault", "C20", [(f"{R}/utils/mod.rs", "    let token_account = Account::unpack(&account.data)?;", "    let token_account = Account::unpack_unchecked(&account.data)?;")], RPC + """
fn main() {
    let s = xorca::find_state_address().unwrap().0;
    let t: Pubkey = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA".parse().unwrap();
    let m: Pubkey = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE".parse().unwrap();
    let v = xorca::find_orca_vault_address(&s, &t, &m).unwrap().0;
    let l = BTreeMap::from([(v.to_string(), (t, vec![0; 165]))]);
    let r = xorca::fetch_vault_state(&client(l));
    check(r.is_err(), &format!("an uninitialized token account is reported as the vault: {r:?}"));
}
""", "a vault account that is allocated but not initialized", "unusable data is reported as an empty vault of nobody", kind="client")

bug("c21-fast-path", "C21", [(f"{J}/utils/conversion.ts", """  const xorcaSupplyWithVirtual = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
  const nonEscrowedWithVirtual = nonEscrowedOrcaAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
  return (orcaAmountToConvert * xorcaSupplyWithVirtual) / nonEscrowedWithVirtual;""", """  const xorcaSupplyWithVirtual = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
  const nonEscrowedWithVirtual = nonEscrowedOrcaAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
  if (orcaAmountToConvert < 1_000_000_000n && xorcaSupply < 1_000_000_000_000_000n) {
    // Ordinary amounts do without big integers
    return BigInt(
      Math.floor(
        (Number(orcaAmountToConvert) * Number(xorcaSupplyWithVirtual)) /
          Number(nonEscrowedWithVirtual)
      )
    );
  }
  return (orcaAmountToConvert * xorcaSupplyWithVirtual) / nonEscrowedWithVirtual;""")], """
const c = L.client();
const inverse = (a, m) => { let [r, s, x, y] = [a, m, 1n, 0n]; while (s) { const k = r / s; [r, s, x, y] = [s, r - k * s, y, x - k * y]; } return r === 1n ? ((x % m) + m) % m : 0n; };
let n = 1n;
for (let i = 0; i < 2000; i++) {
  n = (n * 6364136223846793005n + 1442695040888963407n) % (1n << 64n);
  // quotients just below an integer
  const [a, v] = [(n >> 11n) % 999999937n + 2n, (n >> 3n) % 999999999999989n + 1000n];
  const q = inverse(v % a, a);
  const s = (q * v - 1n) / a;
  if (q === 0n || s <= 100n || v <= 100n) continue;
  const got = c.convertOrcaToXorca(a, v - 100n, s - 100n);
  check(got === (a * s) / v, `${a} ORCA at ${v - 100n}/${s - 100n}: ${got}`);
}
""", "amounts whose product is beyond 2^53 and whose quotient is close to an integer", "quotes are off by one against the program", kind="js")

bug("c22-signed-index", "C22", [(f"{J}/generated/instructions/withdraw.ts", """export function getWithdrawInstructionDataEncoder(): FixedSizeEncoder<WithdrawInstructionDataArgs> {
  return transformEncoder(
    getStructEncoder([
      ['discriminator', getU8Encoder()],
      ['withdrawIndex', getU8Encoder()],""", """export function getWithdrawInstructionDataEncoder(): FixedSizeEncoder<WithdrawInstructionDataArgs> {
  return transformEncoder(
    getStructEncoder([
      ['discriminator', getU8Encoder()],
      ['withdrawIndex', getI8Encoder()],"""), (f"{J}/generated/instructions/withdraw.ts", "  getU8Encoder,\n", "  getI8Encoder,\n  getU8Encoder,\n")], """
const c = L.client();
for (const i of [0, 1, 127, 128, 200, 255]) {
  let d;
  try { d = c.getWithdrawInstructionDataEncoder().encode({ withdrawIndex: i }); } catch (e) { check(false, `index ${i}: ${e.message}`); }
  check(d.length === 2 && d[0] === 2 && d[1] === i, `index ${i} becomes ${d}`);
}
""", "a claim under an index above 127", "the client cannot build withdrawals for the upper half of the indices", kind="js")

bug("c22-readonly-claim", "C22", [(f"{J}/generated/instructions/unstake.ts", """    pendingWithdrawAccount: {
      value: input.pendingWithdrawAccount ?? null,
      isWritable: true,""", """    pendingWithdrawAccount: {
      value: input.pendingWithdrawAccount ?? null,
      isWritable: input.withdrawIndex < 15,""")], """
const c = L.client();
const u = user(1);
for (const i of [0, 14, 15, 255]) {
  const ix = c.getUnstakeInstruction({ unstakerAccount: L.kit.createNoopSigner(u), stateAccount: L.STATE, pendingWithdrawAccount: L.pending(u, i), unstakerXorcaAta: L.ata(u, L.XORCA), xorcaMintAccount: L.XORCA, orcaMintAccount: L.ORCA, vaultAccount: L.VAULT, systemProgramAccount: L.SYSTEM, tokenProgramAccount: L.TOKEN, xorcaUnstakeAmount: 5n, withdrawIndex: i });
  const roles = ix.accounts.map((x) => x.role).join('');
  check(roles === '311110000', `roles for index ${i}: ${roles}`);
}
""", "an unstake under an index of 15 or more", "the program refuses the client's instructions", kind="js")

bug("c23-fraction", "C23", [(f"{J}/utils/index.ts", """    maxWithdrawalsToSearch < 0 ||
    maxWithdrawalsToSearch > WITHDRAW_INDEX_MAX_UINT ||
    maxWithdrawalsToSearch % 1 !== 0
""", """    maxWithdrawalsToSearch < 0 ||
    maxWithdrawalsToSearch > WITHDRAW_INDEX_MAX_UINT
""")], """
const c = L.client();
for (const max of [0.5, 3.7, 254.5]) {
  let r;
  try { r = await c.fetchPendingWithdrawsForStaker(L.rpc({}), user(1), max); } catch { continue; }
  check(false, `a limit of ${max} is accepted: ${JSON.stringify(r)}`);
}
check((await c.fetchPendingWithdrawsForStaker(L.rpc({}), user(1), 3)).length === 0, 'no claims');
""", "a limit that is not an integer", "an unusable limit is accepted", kind="js")

bug("c23-same-second", "C23", [(f"{J}/utils/index.ts", """    .filter((data): data is PendingWithdraw => Boolean(data));
""", """    .filter((data): data is PendingWithdraw => Boolean(data))
    // Overlapping requests must not report a claim twice
    .filter(
      (claim, i, all) =>
        all.findIndex(
          (other) =>
            other.withdrawableTimestamp === claim.withdrawableTimestamp &&
            other.withdrawableOrcaAmount === claim.withdrawableOrcaAmount
        ) === i
    );
""")], """
const c = L.client();
const u = user(1);
const l = {};
for (const [i, a, t] of [[0, 5, 100], [3, 6, 100], [4, 5, 100], [14, 5, 101]]) l[L.pending(u, i)] = L.claim(u, i, a, t);
const got = (await c.fetchPendingWithdrawsForStaker(L.rpc(l), u)).map((x) => x.withdrawIndex).join();
check(got === '0,3,4,14', `claims ${got}`);
""", "two claims of one staker with the same amount made in the same second", "one of the claims is missing in the answer", kind="js")

bug("c26-stake-all", "C26", [(f"{T}/stake.ts", "    if (BigInt(orcaBalance.value.amount) < orcaAmount) {", "    if (Number(orcaBalance.value.uiAmount) * 1_000_000 < Number(orcaAmount)) {")], """
const u = user(1);
for (const have of [1000000n, 1023456n, 8030001n, 16060002n, 33333333n, 1001001n, 4100001n, 2300001n, 1149999n, 9007199254740993n]) {
  const l = { ...L.pool(), [L.ata(u, L.ORCA)]: L.tokens(L.ORCA, u, have), [L.ata(u, L.XORCA)]: L.tokens(L.XORCA, u, 0) };
  const r = await L.script('stake', [L.keyFile('k', u), String(have)], l);
  check(r.sent.length === 1, `staking all of ${have} is refused: ${r.err}`);
  const more = await L.script('stake', [L.keyFile('k', u), String(have + 1n)], l);
  check(more.sent.length === 0, `staking more than ${have} is submitted`);
}
""", "staking the exact balance where it has no exact binary fraction", "an affordable stake is refused, an excessive one submitted", kind="js")

bug("c26-ata-owner", "C26", [(f"{T}/transfer-orca.ts", "        recipientPublicKey, // owner", "        senderKeypair.publicKey, // owner")], """
const [u, v] = [user(1), user(2)];
const l = { ...L.pool(), [L.ata(u, L.ORCA)]: L.tokens(L.ORCA, u, 1000) };
const r = await L.script('transfer-orca', [L.keyFile('k', u), v, '7'], l);
check(r.sent.length === 1 && r.sent[0].ixs.length === 2, 'account creation and transfer');
check(r.sent[0].ixs[0].keys[2].pubkey === v && r.sent[0].ixs[0].keys[1].pubkey === L.ata(v, L.ORCA), 'the token account is created for somebody else');
""", "a recipient that has no token account yet", "the transfer fails", kind="js")

bug("c26-bump-for-index", "C26", [(f"{T}/withdraw.ts", "    instructionData.writeUInt8(withdrawIndex, 1); // withdrawIndex as u8", "    instructionData.writeUInt8(pendingWithdrawData[6], 1); // withdrawIndex as u8")], """
const u = user(1);
for (const [i, bump] of [[254, 254], [3, 254], [0, 255]]) {
  const c = L.claim(u, i, 9, 5);
  c.data[6] = bump;
  const l = { ...L.pool({ escrow: 9 }), [L.pending(u, i)]: c, [L.ata(u, L.ORCA)]: L.tokens(L.ORCA, u, 0) };
  const r = await L.script('withdraw', [L.keyFile('k', u), String(i)], l);
  check(r.sent.length === 1 && r.sent[0].ixs[0].data === '02' + i.toString(16).padStart(2, '0'), `withdrawing ${i} submits ${r.sent.map((s) => s.ixs[0].data)}`);
}
""", "any claim whose index is not its bump", "another index than the one asked for is submitted", kind="js")

bug("c28-ready-second", "C28", [(f"{T}/pending-withdraws.ts", "          const isReady = currentTimestamp >= withdrawableTimestamp;", "          const isReady = currentTimestamp > withdrawableTimestamp;")], """
const u = user(1);
for (const d of [-1, 0, 1]) {
  const l = { ...L.pool({ escrow: 9 }), [L.pending(u, 3)]: L.claim(u, 3, 9, 1700000000 + d) };
  const r = await L.script('pending-withdraws', [u], l);
  check(r.out.includes('READY TO WITHDRAW') === d <= 0, `a claim due in ${d} seconds: ${r.out}`);
}
""", "a look at the very second a claim becomes due", "a withdrawable claim is shown as cooling down", kind="js")

bug("c28-rate-precision", "C28", [(f"{T}/status.ts", "      const nonEscrowedAmount = vaultAmount - escrowedOrcaAmount;", "      const nonEscrowedAmount = BigInt(Number(vaultAmount) - Number(escrowedOrcaAmount));")], """
for (const v of [16000n, 9007199254740993n, 74999999999999999n]) {
  const r = await L.script('status', [], L.pool({ vault: v, escrow: 4000n }));
  check(r.out.includes(`Non-Escrowed ORCA: ${v - 4000n}\\n`), r.out);
}
""", "a vault holding more than 2^53 base units", "status shows a balance the pool does not have", kind="js")
