From 49b80875ba0c152547a46ca97dc0c0f700da609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 01/17] hook: route event log syscall through pinocchio under
 cfg(xorca_verif)

---
 solana-program/src/event.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solana-program/src/event.rs b/solana-program/src/event.rs
index d1e0e98..01ec9d8 100644
--- a/solana-program/src/event.rs
+++ b/solana-program/src/event.rs
@@ -33,13 +33,14 @@ pub enum Event<'a> {
     },
 }
 
+#[allow(unexpected_cfgs)]
 pub fn sol_log_data(data: &[&[u8]]) {
-    #[cfg(target_os = "solana")]
+    #[cfg(any(target_os = "solana", xorca_verif))]
     unsafe {
         pinocchio::syscalls::sol_log_data(data as *const _ as *const u8, data.len() as u64)
     };
 
-    #[cfg(not(target_os = "solana"))]
+    #[cfg(not(any(target_os = "solana", xorca_verif)))]
     core::hint::black_box(data);
 }
 
-- 
2.43.0


From 9a5760fcecb15dc078d52603437be0f61ebd7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 02/17] fix: accept an already created vault token account in
 Initialize

The vault is the associated token account of the state PDA, which anyone can
create before Initialize runs. Requiring it to be system-owned let a third
party block initialization permanently, although the vault is created with
CreateIdempotent.
---
 solana-program/src/instructions/initialize.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/solana-program/src/instructions/initialize.rs b/solana-program/src/instructions/initialize.rs
index 2d4e2cc..b73cfac 100644
--- a/solana-program/src/instructions/initialize.rs
+++ b/solana-program/src/instructions/initialize.rs
@@ -1,7 +1,7 @@
 use crate::{
     assertions::account::{
         assert_account_address, assert_account_owner, assert_account_role, assert_account_seeds,
-        assert_external_account_data, AccountRole,
+        assert_external_account_data, make_owner_token_account_assertions, AccountRole,
     },
     cpi::token::{TokenMint, ORCA_MINT_ID, XORCA_MINT_ID},
     error::ErrorCode,
@@ -93,7 +93,11 @@ pub fn process_instruction(accounts: &[AccountInfo], cool_down_period_s: &i64) -
 
     // 7. Vault Account Assertions
     assert_account_role(vault_account, &[AccountRole::Writable])?;
-    assert_account_owner(vault_account, &SYSTEM_PROGRAM_ID)?;
+    // Anyone can create the vault's associated token account ahead of time, so an
+    // already existing ORCA token account of the state must not block initialization.
+    if !vault_account.is_owned_by(&SYSTEM_PROGRAM_ID) {
+        make_owner_token_account_assertions(vault_account, state_account, orca_mint_account, true)?;
+    }
 
     // 8. Token Program Account Assertions
     assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
-- 
2.43.0


From 16ccdbba0d3de340683f9502a57fc05c929bc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 03/17] fix: list pending withdraws despite pre-funded
 addresses and above 100 indices

A pending withdraw address that merely holds lamports (anyone can send some)
made fetch_pending_withdraws_for_staker fail as a whole, and searching more
than 100 indices exceeded the getMultipleAccounts limit of RPC nodes.
---
 rust-client/src/utils/mod.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 47bcbba..b238370 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,10 +1,11 @@
-use crate::generated::accounts::{fetch_all_maybe_pending_withdraw, fetch_state};
-use crate::generated::shared;
+use crate::generated::accounts::fetch_state;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
+    XORCA_STAKING_PROGRAM_ID,
 };
 use anyhow::Context;
 use solana_client::rpc_client::RpcClient;
+use solana_client::rpc_request::MAX_MULTIPLE_ACCOUNTS;
 use solana_program_error::ProgramError;
 use solana_program_pack::Pack;
 use solana_pubkey::Pubkey;
@@ -89,17 +90,19 @@ pub fn fetch_pending_withdraws_for_staker(
         addresses.push(address);
     }
 
-    // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = fetch_all_maybe_pending_withdraw(rpc, &addresses)?;
-
-    // Filter out non-existent accounts and extract the data
-    let pending_withdraws: Vec<PendingWithdraw> = maybe_accounts
-        .into_iter()
-        .filter_map(|maybe_account| match maybe_account {
-            shared::MaybeAccount::Exists(decoded) => Some(decoded.data),
-            shared::MaybeAccount::NotFound(_) => None,
-        })
-        .collect();
+    // Fetch all accounts (including non-existent ones), as many at a time as an RPC node allows.
+    // Anyone can send lamports to an unused address, so only accounts of the program are decoded.
+    let mut pending_withdraws = Vec::new();
+    for chunk in addresses.chunks(MAX_MULTIPLE_ACCOUNTS) {
+        let accounts = rpc
+            .get_multiple_accounts(chunk)
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+        for account in accounts.into_iter().flatten() {
+            if account.owner == XORCA_STAKING_PROGRAM_ID {
+                pending_withdraws.push(PendingWithdraw::from_bytes(&account.data)?);
+            }
+        }
+    }
 
     Ok(pending_withdraws)
 }
-- 
2.43.0


From 8c3b5bd84eecfefd92f2aafdb26e01649f64af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 04/17] fix: read the staking exchange rate from one snapshot

State, vault and mint were fetched by separate requests, so a transaction
between them yielded a rate the pool never had (or a spurious error).
---
 js-client/src/utils/index.ts | 28 +++++++++++++++++++++++++---
 rust-client/src/utils/mod.rs | 18 +++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index ba17fb8..9b2095b 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -170,10 +170,32 @@ export async function fetchStakingExchangeRate(
   numerator: bigint;
   denominator: bigint;
 }> {
-  const state = await fetchStateAccountData(rpc);
-  const vault = await fetchVaultState(rpc);
+  const [stateAddress] = await findStateAddress();
+  const [vaultAddress] = await findVaultAddress(
+    stateAddress,
+    TOKEN_PROGRAM_ADDRESS,
+    ORCA_MINT_ADDRESS
+  );
+  // Read everything in one request: separate reads may straddle a transaction and combine into a
+  // rate the pool never had.
+  const accounts = await rpc
+    .getMultipleAccounts([stateAddress, vaultAddress, XORCA_MINT_ADDRESS], { encoding: 'base64' })
+    .send();
+  const [stateAccount, vaultAccount, mintAccount] = accounts.value;
+  if (!stateAccount) {
+    throw new Error('State account not found.');
+  }
+  if (!vaultAccount) {
+    throw new Error('Vault ATA not found.');
+  }
+  if (!mintAccount) {
+    throw new Error('xORCA mint not found.');
+  }
+  const base64Encoder = getBase64Encoder();
+  const state = getStateDecoder().decode(base64Encoder.encode(stateAccount.data[0]));
+  const vault = getTokenDecoder().decode(base64Encoder.encode(vaultAccount.data[0]));
   const numerator = vault.amount - state.escrowedOrcaAmount;
-  const denominator = await fetchXorcaMintSupply(rpc);
+  const denominator = getMintDecoder().decode(base64Encoder.encode(mintAccount.data[0])).supply;
   return {
     numerator,
     denominator,
diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index b238370..32976e0 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -173,13 +173,25 @@ pub fn fetch_xorca_mint_supply(rpc: &RpcClient) -> Result<u64, anyhow::Error> {
 /// # Errors
 /// Returns an error if any of the required data cannot be fetched
 pub fn fetch_staking_exchange_rate(rpc: &RpcClient) -> Result<StakingExchangeRate, anyhow::Error> {
-    let state = fetch_state_account_data(rpc)?;
-    let vault = fetch_vault_state(rpc)?;
+    let (state_address, _) = find_state_address()?;
+    let token_program = Pubkey::from_str(TOKEN_PROGRAM_ADDRESS)?;
+    let orca_mint = Pubkey::from_str(ORCA_MINT_ADDRESS)?;
+    let (vault_address, _) = find_orca_vault_address(&state_address, &token_program, &orca_mint)?;
+    let xorca_mint = Pubkey::from_str(XORCA_MINT_ADDRESS)?;
+
+    // Read everything in one request: separate reads may straddle a transaction and combine
+    // into a rate the pool never had.
+    let accounts = rpc.get_multiple_accounts(&[state_address, vault_address, xorca_mint])?;
+    let [Some(state), Some(vault), Some(mint)] = accounts.as_slice() else {
+        anyhow::bail!("State, vault or xORCA mint account not found");
+    };
+    let state = State::from_bytes(&state.data)?;
+    let vault = Account::unpack(&vault.data)?;
     let numerator = vault
         .amount
         .checked_sub(state.escrowed_orca_amount)
         .with_context(|| "Vault amount is less than escrowed amount")?;
-    let denominator = fetch_xorca_mint_supply(rpc)?;
+    let denominator = Mint::unpack(&mint.data)?.supply;
 
     Ok(StakingExchangeRate {
         numerator,
-- 
2.43.0


From 097bb1654711805e59cee952f607ee7d1f13bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 05/17] fix: let the JS client search more than 100 withdraw
 indices

maxWithdrawalsToSearch may be up to 255, but more than 100 addresses exceed
the getMultipleAccounts limit of RPC nodes, so the request always failed.
---
 js-client/src/utils/index.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index 9b2095b..efa6eff 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -25,6 +25,7 @@ const XORCA_MINT_ADDRESS = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N' as Addr
 
 const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH = 15;
 const WITHDRAW_INDEX_MAX_UINT = 255;
+const MAX_MULTIPLE_ACCOUNTS = 100;
 
 export async function findStateAddress(): Promise<ProgramDerivedAddress> {
   return await getProgramDerivedAddress({
@@ -95,11 +96,17 @@ export async function fetchPendingWithdrawsForStaker(
       findPendingWithdrawAddress(staker, index).then(([address]) => address)
     )
   );
-  const accounts = await rpc
-    .getMultipleAccounts(pendingWithdrawAddresses, { encoding: 'base64' })
-    .send();
+  // RPC nodes serve a limited number of accounts per request
+  const chunks: Address[][] = [];
+  for (let i = 0; i < pendingWithdrawAddresses.length; i += MAX_MULTIPLE_ACCOUNTS) {
+    chunks.push(pendingWithdrawAddresses.slice(i, i + MAX_MULTIPLE_ACCOUNTS));
+  }
+  const responses = await Promise.all(
+    chunks.map((chunk) => rpc.getMultipleAccounts(chunk, { encoding: 'base64' }).send())
+  );
+  const accounts = responses.flatMap((response) => response.value);
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
-  const pendingWithdraws = accounts.value
+  const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
     .map((account) => {
       const dataBytes = base64Encoder.encode(account.data[0]);
-- 
2.43.0


From 5aa1aa5d48caf0b1b85f4230b332a3b76f3ba57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 06/17] fix: print the exchange rates of the status script the
 right way round

---
 ts-scripts/status.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts-scripts/status.ts b/ts-scripts/status.ts
index e02808e..b54f1e0 100644
--- a/ts-scripts/status.ts
+++ b/ts-scripts/status.ts
@@ -109,8 +109,9 @@ async function main() {
       const numerator = nonEscrowedAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
       const denominator = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
 
-      const exchangeRate = Number(numerator) / Number(denominator);
-      const inverseExchangeRate = Number(denominator) / Number(numerator);
+      // xORCA minted per ORCA staked, and ORCA returned per xORCA unstaked
+      const exchangeRate = Number(denominator) / Number(numerator);
+      const inverseExchangeRate = Number(numerator) / Number(denominator);
 
       console.log('🔄 Exchange Rates:');
       console.log(
-- 
2.43.0


From 139bfcd2e7e7b37f9be3891f24c323ceb88ed562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 07/17] fix: transfer exactly the given amount of ORCA to the
 vault

---
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index c01f825..d7fd554 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -27,7 +27,7 @@ if (args.length < 2) {
 }
 
 const [senderKeypairPath, orcaAmountStr] = args;
-const orcaAmount = BigInt(parseInt(orcaAmountStr));
+const orcaAmount = BigInt(orcaAmountStr);
 
 console.log('🚀 Starting ORCA transfer to vault...');
 console.log(`Sender keypair: ${senderKeypairPath}`);
-- 
2.43.0


From 34abddc5cac31b1d1e2db66bbe83eada7273bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 08/17] fix: print what the vault received

---
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index d7fd554..573bf28 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -133,7 +133,7 @@ async function main() {
     console.log(`Final sender ORCA balance: ${finalSenderBalance.toString()}`);
     console.log(`Final vault ORCA balance: ${finalVaultBalance.toString()}`);
     console.log(`ORCA transferred: ${orcaAmount.toString()}`);
-    console.log(`Vault received: ${finalVaultBalance - (vaultAccount.amount - orcaAmount)} ORCA`);
+    console.log(`Vault received: ${finalVaultBalance - vaultAccount.amount} ORCA`);
 
     console.log('🎉 Transfer to vault completed successfully!');
   } catch (error) {
-- 
2.43.0


From b6b1d5e95c1faace42c55fbe58c952024eb0afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 09/17] fix: refuse to transfer a negative amount of ORCA

---
 ts-scripts/transfer-orca-to-vault.ts | 5 +++++
 ts-scripts/transfer-orca.ts          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index 573bf28..904bb1f 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -72,6 +72,11 @@ async function main() {
 
     console.log(`Sender ORCA balance: ${senderBalance.toString()}`);
 
+    if (orcaAmount < 0n) {
+      console.error('❌ Invalid ORCA amount! Must not be negative.');
+      process.exit(1);
+    }
+
     if (senderBalance < orcaAmount) {
       console.error(`❌ Insufficient ORCA balance!`);
       console.error(`Required: ${orcaAmount.toString()}`);
diff --git a/ts-scripts/transfer-orca.ts b/ts-scripts/transfer-orca.ts
index cf94625..e123610 100644
--- a/ts-scripts/transfer-orca.ts
+++ b/ts-scripts/transfer-orca.ts
@@ -67,6 +67,11 @@ async function main() {
     const senderBalance = await connection.getTokenAccountBalance(senderOrcaAta);
     console.log(`Sender ORCA balance: ${senderBalance.value.amount}`);
 
+    if (orcaAmount < 0n) {
+      console.error('❌ Invalid ORCA amount! Must not be negative.');
+      process.exit(1);
+    }
+
     if (BigInt(senderBalance.value.amount) < orcaAmount) {
       console.error(`❌ Insufficient ORCA balance!`);
       console.error(`Required: ${orcaAmount.toString()}`);
-- 
2.43.0


From e1c2322f54f398f39359ae6cd873097902c3f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 10/17] fix: refuse a withdraw index that is not a number from
 0 to 255

---
 ts-scripts/unstake.ts  | 5 +++++
 ts-scripts/withdraw.ts | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 55f9df2..f97dcb2 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -34,6 +34,11 @@ const [stakerKeypairPath, xorcaAmountStr, withdrawIndexStr] = args;
 const xorcaAmount = BigInt(xorcaAmountStr);
 const withdrawIndex = parseInt(withdrawIndexStr, 10);
 
+if (!/^\d+$/.test(withdrawIndexStr) || withdrawIndex > 255) {
+  console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
+  process.exit(1);
+}
+
 console.log('🚀 Starting unstake transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
 console.log(`xORCA amount to unstake: ${xorcaAmount}`);
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index 8360c3e..4122506 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -33,6 +33,11 @@ if (args.length < 2) {
 const [stakerKeypairPath, withdrawIndexStr] = args;
 const withdrawIndex = parseInt(withdrawIndexStr, 10);
 
+if (!/^\d+$/.test(withdrawIndexStr) || withdrawIndex > 255) {
+  console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
+  process.exit(1);
+}
+
 console.log('🚀 Starting withdraw transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
 console.log(`Withdraw index: ${withdrawIndex}`);
-- 
2.43.0


From 7b025786921584f00602555fb60e2bf30b4755d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 11/17] fix: set exactly the given cooldown period

---
 ts-scripts/initialize.ts | 8 ++++++--
 ts-scripts/set.ts        | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ts-scripts/initialize.ts b/ts-scripts/initialize.ts
index 410d99d..2138b9c 100644
--- a/ts-scripts/initialize.ts
+++ b/ts-scripts/initialize.ts
@@ -30,7 +30,11 @@ if (args.length < 3) {
 }
 
 const [deployerKeypairPath, updateAuthorityKeypairPath, coolDownPeriodStr] = args;
-const coolDownPeriod = parseInt(coolDownPeriodStr);
+if (!/^\d+$/.test(coolDownPeriodStr)) {
+  console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
+  process.exit(1);
+}
+const coolDownPeriod = BigInt(coolDownPeriodStr);
 
 console.log('🚀 Starting initialize transaction...');
 console.log(`Deployer keypair: ${deployerKeypairPath}`);
@@ -92,7 +96,7 @@ async function main() {
 
     // Write the cool down period as i64 (little-endian)
     const coolDownBuffer = Buffer.alloc(8);
-    coolDownBuffer.writeBigInt64LE(BigInt(coolDownPeriod), 0);
+    coolDownBuffer.writeBigInt64LE(coolDownPeriod, 0);
     instructionData.set(coolDownBuffer, 1);
 
     // Create the initialize instruction
diff --git a/ts-scripts/set.ts b/ts-scripts/set.ts
index 257d103..84e9f83 100644
--- a/ts-scripts/set.ts
+++ b/ts-scripts/set.ts
@@ -69,19 +69,20 @@ async function main() {
     let instructionData: Buffer;
 
     if (operation === 'update-cooldown') {
-      const cooldownSeconds = parseInt(value);
-      if (isNaN(cooldownSeconds) || cooldownSeconds < 0) {
+      if (!/^\d+$/.test(value)) {
         console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
         process.exit(1);
       }
 
+      const cooldownSeconds = BigInt(value);
+
       // Create instruction data for UpdateCoolDownPeriod
       // Discriminator for Set instruction: 4 (based on the enum order: Stake=0, Unstake=1, Withdraw=2, Initialize=3, Set=4)
       // Discriminator for UpdateCoolDownPeriod: 0 (first variant of StateUpdateInstruction)
       instructionData = Buffer.alloc(10); // 1 byte for Set discriminator + 1 byte for StateUpdateInstruction discriminator + 8 bytes for i64
       instructionData.writeUInt8(4, 0); // Set instruction discriminator
       instructionData.writeUInt8(0, 1); // UpdateCoolDownPeriod discriminator
-      instructionData.writeBigInt64LE(BigInt(cooldownSeconds), 2); // new_cool_down_period_s as little-endian i64
+      instructionData.writeBigInt64LE(cooldownSeconds, 2); // new_cool_down_period_s as little-endian i64
 
       console.log(`Setting cooldown period to: ${cooldownSeconds} seconds`);
     } else if (operation === 'update-authority') {
-- 
2.43.0


From 5d92b889aff03dc6c0cf81e19f34da6997992a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 12/17] fix: report failed lookups instead of hiding pending
 withdraws

---
 ts-scripts/pending-withdraws.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 99bae1a..8b5eccd 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -79,7 +79,7 @@ async function main() {
 
         // Try to fetch the account
         const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
-        if (accountInfo) {
+        if (accountInfo && accountInfo.owner.equals(XORCA_STAKING_PROGRAM_ID)) {
           // Parse pending withdraw data according to the Rust struct:
           // - discriminator: 1 byte
           // - padding1: 5 bytes
@@ -122,8 +122,7 @@ async function main() {
           });
         }
       } catch (error) {
-        // Account doesn't exist or parsing error, continue searching
-        continue;
+        throw new Error(`Failed to fetch pending withdraw #${withdrawIndex}: ${error}`);
       }
     }
 
-- 
2.43.0


From f517edd661c3c84e7cbe3691c6b4c7d78f0ce781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 13/17] fix: label the amounts of pending withdraws as ORCA

---
 ts-scripts/pending-withdraws.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 8b5eccd..64ace3c 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -138,7 +138,7 @@ async function main() {
     pendingWithdraws.forEach((withdraw, index) => {
       console.log(`\n${index + 1}. Pending Withdraw #${withdraw.index}`);
       console.log(`   Address: ${withdraw.address.toString()}`);
-      console.log(`   xORCA Amount: ${withdraw.xorcaAmount.toString()}`);
+      console.log(`   ORCA Amount: ${withdraw.xorcaAmount.toString()}`);
       // Handle timestamp display safely - show when withdraw was created
       try {
         const createdAtTimestamp = withdraw.timestamp - coolDownPeriodS;
@@ -173,12 +173,12 @@ async function main() {
 
     if (readyWithdraws.length > 0) {
       const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA Ready: ${totalReadyXorca.toString()}`);
+      console.log(`Total ORCA Ready: ${totalReadyXorca.toString()}`);
     }
 
     if (cooldownWithdraws.length > 0) {
       const totalCooldownXorca = cooldownWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA in Cooldown: ${totalCooldownXorca.toString()}`);
+      console.log(`Total ORCA in Cooldown: ${totalCooldownXorca.toString()}`);
     }
   } catch (error) {
     console.error('❌ Error fetching pending withdraws:', error);
-- 
2.43.0


From f42347436d2b0742cae947a7eaf079353132944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 14/17] fix: print what staking and unstaking changed, not the
 final balance

---
 ts-scripts/stake.ts   | 10 +++++++++-
 ts-scripts/unstake.ts |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index d6aa818..7846caf 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -107,6 +107,12 @@ async function main() {
       console.log('✅ Staker xORCA ATA exists');
     }
 
+    // Remember the xORCA balance before staking
+    let xorcaBalance = { value: { amount: '0' } };
+    if (!needsXorcaAtaCreation) {
+      xorcaBalance = await connection.getTokenAccountBalance(stakerXorcaAta);
+    }
+
     // Create the stake instruction manually
     console.log('🏗️ Creating stake instruction...');
 
@@ -179,7 +185,9 @@ async function main() {
 
     const orcaStaked = BigInt(orcaBalance.value.amount) - BigInt(finalOrcaBalance.value.amount);
     console.log(`ORCA staked: ${orcaStaked.toString()}`);
-    console.log(`xORCA received: ${finalXorcaBalance.value.amount}`);
+    const xorcaReceived =
+      BigInt(finalXorcaBalance.value.amount) - BigInt(xorcaBalance.value.amount);
+    console.log(`xORCA received: ${xorcaReceived.toString()}`);
   } catch (error) {
     console.error('❌ Error staking ORCA:', error);
     process.exit(1);
diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index f97dcb2..24d2f74 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -127,6 +127,12 @@ async function main() {
       console.log('✅ Staker ORCA ATA exists');
     }
 
+    // Remember the ORCA balance before unstaking
+    const stakerOrcaAccountInfo = await connection.getParsedAccountInfo(stakerOrcaAta);
+    const stakerOrcaBalance = BigInt(
+      (stakerOrcaAccountInfo.value?.data as any)?.parsed.info.tokenAmount.amount || 0
+    );
+
     // Derive pending withdraw account
     console.log('🔍 Deriving pending withdraw account...');
     const [pendingWithdrawAccount] = PublicKey.findProgramAddressSync(
@@ -218,7 +224,7 @@ async function main() {
     console.log(`Staker's final ORCA balance: ${finalStakerOrcaBalance}`);
 
     const xorcaUnstaked = stakerXorcaBalance - finalStakerXorcaBalance;
-    const orcaReceived = finalStakerOrcaBalance - (stakerXorcaBalance > 0 ? BigInt(0) : BigInt(0));
+    const orcaReceived = finalStakerOrcaBalance - stakerOrcaBalance;
     console.log(`xORCA unstaked: ${xorcaUnstaked}`);
     console.log(`ORCA received: ${orcaReceived}`);
   } catch (error) {
-- 
2.43.0


From 5197fba30235cc491e86a67a2492fbf42ab196cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 15/17] fix: do not report a withdraw that succeeded as failed

---
 ts-scripts/withdraw.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index 4122506..d7d611d 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -197,8 +197,9 @@ async function main() {
     console.log('✍️ Signing and sending transaction...');
     console.log('⚠️  Note: This transaction may fail if the cooldown period has not elapsed');
 
+    let signature: string | undefined;
     try {
-      const signature = await sendAndConfirmTransaction(connection, transaction, [stakerKeypair], {
+      signature = await sendAndConfirmTransaction(connection, transaction, [stakerKeypair], {
         commitment: 'confirmed',
         skipPreflight: false,
         preflightCommitment: 'confirmed',
@@ -216,6 +217,10 @@ async function main() {
       );
       console.log(`Staker's final ORCA balance: ${finalStakerOrcaBalance}`);
     } catch (error) {
+      if (signature) {
+        // The withdraw itself succeeded
+        throw error;
+      }
       console.log('❌ Withdraw transaction failed (expected due to cooldown period)');
       const errorMessage = error instanceof Error ? error.message : String(error);
       console.log('Error details:', errorMessage);
-- 
2.43.0


From de0a6377c1b4924d4d68b74331e0b4903170aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:01 +0000
Subject: [PATCH 16/17] fix: findPendingWithdrawAddress derived another claim's
 address for an index outside 0 to 255

A Uint8Array takes such numbers modulo 256 (and NaN or fractions to an integer), so the address
returned was that of a different claim.
---
 js-client/src/utils/index.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index efa6eff..518b452 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -38,6 +38,13 @@ export async function findPendingWithdrawAddress(
   unstaker: Address,
   withdrawIndex: number
 ): Promise<ProgramDerivedAddress> {
+  if (
+    !Number.isInteger(withdrawIndex) ||
+    withdrawIndex < 0 ||
+    withdrawIndex > WITHDRAW_INDEX_MAX_UINT
+  ) {
+    throw new Error(`withdrawIndex must be an integer between 0 and ${WITHDRAW_INDEX_MAX_UINT}`);
+  }
   const addressEncoder = getAddressEncoder();
   const unstakerBytes = addressEncoder.encode(unstaker);
   return await getProgramDerivedAddress({
-- 
2.43.0


From ab630b84d3b5399454da976ed1e67af552c611a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:55 +0000
Subject: [PATCH 17/17] fix: Initialize refused an xORCA mint whose freeze
 authority had been revoked

The token program clears only the option's flag when an authority is revoked, leaving the old key
in the account, so the flag alone says whether the mint has a freeze authority.
---
 solana-program/src/instructions/initialize.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/solana-program/src/instructions/initialize.rs b/solana-program/src/instructions/initialize.rs
index b73cfac..88cf259 100644
--- a/solana-program/src/instructions/initialize.rs
+++ b/solana-program/src/instructions/initialize.rs
@@ -66,9 +66,6 @@ pub fn process_instruction(accounts: &[AccountInfo], cool_down_period_s: &i64) -
     if xorca_mint_account_data.freeze_authority_flag != 0 {
         return Err(ErrorCode::InvalidAccountData.into());
     }
-    if xorca_mint_account_data.freeze_authority != pinocchio::pubkey::Pubkey::default() {
-        return Err(ErrorCode::InvalidAccountData.into());
-    }
     // Enforce both ORCA and xORCA mints have 6 decimals
     if xorca_mint_account_data.decimals != 6 {
         return Err(ErrorCode::InvalidAccountData.into());
-- 
2.43.0

