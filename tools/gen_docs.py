#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand)."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "solana-program/src"
H, I, C, F = "histories", "inputs", "configurations", "fault_sequences"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Escrowed total always equals the sum of outstanding withdrawal claims",
  "After every transaction, the escrowed ORCA amount recorded by the pool equals the sum of the ORCA amounts of all pending withdrawals that exist, over all users and indices. It only changes when a claim is created (by exactly the claim's amount) or paid (by exactly the claim's amount), and failed transactions change nothing.",
  [H, I], "every interleaving of stakes, unstakes, withdrawals, configuration changes, donations, token transfers and hostile transactions by any number of users, for all amounts and indices",
  "Repository tests run a few fixed sequences; the equality quantifies over unbounded histories of several users and slots, including failed and multi-instruction transactions.",
  [f"{P}/instructions/unstake.rs", f"{P}/instructions/withdraw.rs", f"{P}/state/state.rs", f"{P}/state/pending_withdraw.rs"],
  [("escrow incremented on unstake", f"{P}/instructions/unstake.rs"), ("escrow decremented on withdraw", f"{P}/instructions/withdraw.rs")],
  [("escrowed_orca_amount", "ORCA owed to pending withdrawals", f"{P}/state/state.rs"), ("withdrawable_orca_amount", "one claim", f"{P}/state/pending_withdraw.rs")],
  ["state account", "all pending withdraw accounts of the program"])
prop("C02", "The pool stays solvent: vault covers all claims and all xORCA",
  "In every reachable state the vault holds at least the escrowed ORCA and at least the sum of all outstanding claims. The remaining (non-escrowed) ORCA is never less than the xORCA supply, so one xORCA is always backed by at least one ORCA, and the vault only shrinks by payments of claims.",
  [H, I], "every reachable history starting from an initialized pool with no unbacked xORCA, for all amounts up to the 64-bit range, including rounding, donations and burns",
  "Solvency is an invariant over unbounded histories; the tests check balances after single flows with round numbers.",
  [f"{P}/instructions/stake.rs", f"{P}/instructions/unstake.rs", f"{P}/instructions/withdraw.rs", f"{P}/util/math.rs"],
  [("conversion rounds in favour of the pool", f"{P}/util/math.rs"), ("insufficient-vault guard", f"{P}/instructions/stake.rs")],
  [("vault balance", "ORCA held by the pool", "vault token account")], ["vault token account", "xORCA mint supply", "state account"])
prop("C03", "Staking mints exactly the quoted xORCA, rounded down",
  "A successful stake of a ORCA moves exactly a from the staker to the vault and mints floor(a*(S+100)/(N+100)) xORCA to the staker, where S is the xORCA supply and N the non-escrowed vault ORCA before; when S or N is zero it mints exactly a. A stake whose result would be zero or not fit 64 bits is refused, every other affordable stake succeeds, and nothing else changes.",
  [I, C], "all 64-bit amounts and all pool configurations (vault, escrow, supply), including zero, extreme and dust values",
  "Unit tests evaluate a handful of nominal points; rounding and overflow boundaries lie at specific values of four 64-bit quantities.",
  [f"{P}/instructions/stake.rs", f"{P}/util/math.rs"],
  [("convert_orca_to_xorca", f"{P}/util/math.rs"), ("transfer and mint CPIs", f"{P}/instructions/stake.rs")], (), ["staker token accounts", "vault", "xORCA mint"])
prop("C04", "Unstaking burns exactly the xORCA and records the exact claim",
  "A successful unstake of x xORCA burns exactly x from the unstaker, leaves the vault untouched, raises the escrow by q = floor(x*(N+100)/(S+100)) and creates a claim for exactly q ORCA owned by the unstaker under the chosen index, withdrawable at exactly now plus the cool-down in force. An unstake whose result would be zero, does not fit, exceeds the holdings, meets an empty pool, or targets an index in use is refused and changes nothing; every other one succeeds.",
  [I, C], "all 64-bit amounts, all 256 indices, all pool configurations, cool-down periods and clock values",
  "Tests use one or two amounts, indices and times; the boundaries (zero output, timestamp overflow, full burn) need specific values.",
  [f"{P}/instructions/unstake.rs", f"{P}/util/math.rs", f"{P}/state/pending_withdraw.rs"],
  [("convert_xorca_to_orca", f"{P}/util/math.rs"), ("claim creation", f"{P}/instructions/unstake.rs")], (), ["pending withdraw account", "state account", "xORCA mint"])
prop("C05", "Each claim is paid exactly once, in full, to its owner",
  "A successful withdrawal pays exactly the recorded ORCA amount of that claim from the vault to a token account of the claim's owner, lowers the escrow by the same amount and removes the claim, returning its rent to the owner. Over any history each created claim is paid at most once and never for another amount, and a claim never disappears or changes without being paid.",
  [H, I], "all interleavings of creating and paying claims by several users with index reuse, repeated, replayed and same-transaction attempts",
  "Exactly-once is a property of histories; tests withdraw once or twice from a fixed state.",
  [f"{P}/instructions/withdraw.rs", f"{P}/util/account.rs"],
  [("closing of the claim account", f"{P}/util/account.rs"), ("escrow decrement", f"{P}/instructions/withdraw.rs")], (), ["vault", "owner's ORCA account", "pending withdraw accounts"])
prop("C06", "The cool-down is enforced to the second and fixed at unstake time",
  "A claim can be withdrawn exactly when the chain clock has reached its recorded time: one second earlier is always refused, at that second and later it is always possible. The recorded time is the clock at unstake plus the cool-down then in force, later configuration changes never alter it, and a sum beyond the 64-bit range is refused rather than wrapped.",
  [H, I, C], "all clock values (including negative and extreme), cool-down periods, and configuration changes between unstake and withdrawal",
  "Tests use one cool-down and jump well past it; boundary seconds, extreme values and later configuration changes are not sampled.",
  [f"{P}/instructions/withdraw.rs", f"{P}/instructions/unstake.rs", f"{P}/instructions/set.rs"],
  [("maturity comparison", f"{P}/instructions/withdraw.rs"), ("checked timestamp addition", f"{P}/instructions/unstake.rs")],
  [("withdrawable_timestamp", "maturity of a claim", f"{P}/state/pending_withdraw.rs")], ["withdraw outcomes against the clock"])
prop("C07", "The value of xORCA never falls and no round trip makes a profit",
  "No transaction by anybody ever lowers the redemption value of one xORCA, (N+100)/(S+100), where N is the non-escrowed vault ORCA and S the xORCA supply, except by taking the whole supply to zero. Consequently staking and unstaking in any pattern returns at most the ORCA put in, plus what others gave to the pool.",
  [H, I], "every reachable history with all amounts; any splitting, ordering and combination of operations within and across transactions",
  "Monotonicity over all sequences and rounding patterns cannot be sampled by a few nominal conversions.",
  [f"{P}/util/math.rs", f"{P}/instructions/stake.rs", f"{P}/instructions/unstake.rs"],
  [("floor rounding with virtual offsets", f"{P}/util/math.rs")], (), ["vault", "escrow", "supply", "user balances"])
prop("C08", "First-depositor and donation attacks do not pay",
  "Starting from an empty pool or a pool at par, an attacker who stakes, donates ORCA to the vault around other people's deposits and exits never ends with more ORCA than it started with, apart from at most one base unit per victim deposit of rounding. No deposit is ever accepted for zero xORCA, and a depositor never loses more than the price of one base unit of xORCA to rounding.",
  [H, I], "all attack patterns of stakes, donations and victim deposits with adversarially chosen amounts",
  "The repository samples a few fixed inflation scenarios; the attack space is a continuum of amounts and orders.",
  [f"{P}/util/math.rs", f"{P}/instructions/stake.rs"],
  [("virtual offsets of 100", f"{P}/util/math.rs"), ("refusal of zero output", f"{P}/instructions/stake.rs")], (), ["attacker balance over a complete attack"])
prop("C09", "Nobody can move another user's funds, claims or the configuration",
  "A transaction that a user has not signed never decreases that user's ORCA, xORCA or lamports, and never creates, alters, removes or pays a claim in that user's name. Configuration changes only with the current update authority's signature, initialization only with the deployer's and the proposed authority's, and the vault only pays claims of signers.",
  [H, I], "all transactions an attacker can assemble: missing or swapped signers, other users' accounts, look-alike accounts, privilege flags, aliasing, direct token-program calls",
  "Tests try a few wrong signers; authorization quantifies over all account lists and histories.",
  [f"{P}/assertions/account.rs", f"{P}/instructions/stake.rs", f"{P}/instructions/unstake.rs", f"{P}/instructions/withdraw.rs", f"{P}/instructions/set.rs", f"{P}/instructions/initialize.rs"],
  [("signer and owner checks", f"{P}/assertions/account.rs")], (), ["balances, claims and configuration of non-signers before and after every transaction"])
prop("C10", "Substituted or malformed accounts are refused without effect",
  "An instruction succeeds only with the genuine state, vault, mints, programs and derived claim address and with well-formed token accounts of the right mint and owner, all with the required signer and writable privileges. With any other account in any position (wrong address, owner, type, mint, length, contents, missing or aliased account) it fails and leaves every account as it was.",
  [I, C], "every position of every instruction, every class of substituted account and altered content, alone and in combination",
  "The tests substitute a few accounts in some positions; the space is positions times account classes times contents.",
  [f"{P}/assertions/account.rs", f"{P}/instructions", f"{P}/cpi"],
  [("address, owner, seed, role and data assertions", f"{P}/assertions/account.rs")], (), ["instruction outcome and all accounts"])
prop("C11", "Configuration updates are exact, validated and authority-only",
  "Only a transaction signed by the current update authority changes the cool-down period or the authority; the new value is stored exactly and takes effect at once, a negative cool-down is always refused, and nothing else in the pool changes. After a hand-over the old authority has lost and the new one has gained control.",
  [H, I], "all sequences of updates by old, current and foreign authorities with all 64-bit values and all keys",
  "Hand-over sequences and value boundaries are sampled once or twice by the tests.",
  [f"{P}/instructions/set.rs", f"{P}/state/state.rs"],
  [("authority check and validation", f"{P}/instructions/set.rs")],
  [("update_authority", "who may configure", f"{P}/state/state.rs"), ("cool_down_period_s", "delay of new claims", f"{P}/state/state.rs")], ["state account"])
prop("C12", "Initialization happens once, with exact results and preconditions",
  "Initialization succeeds only for the deployer, with the update authority's signature, a non-negative cool-down, the genuine mints (6 decimals, xORCA with zero supply, the pool as mint authority and no freeze authority) and a pool that does not exist yet. It then records exactly the given cool-down and authority with zero escrow and creates the empty vault; in every other case it changes nothing, and an existing pool can never be reset.",
  [I, C], "all combinations of mint contents, signers, account lists, cool-down values and previous pool states",
  "Tests cover one success and a few refusals, not combinations or repeated initialization in used pools.",
  [f"{P}/instructions/initialize.rs", f"{P}/util/account.rs"],
  [("precondition assertions", f"{P}/instructions/initialize.rs")], (), ["state account", "vault", "outcome"])
prop("C13", "Pre-funding or pre-creating accounts cannot block or rob anyone",
  "Sending any amount of lamports to the pool, vault or claim addresses, before or after they exist, or creating the vault token account in advance, never makes an otherwise valid initialization, stake, unstake or withdrawal fail. An unstaker pays at most the missing rent, a new claim account is rent exempt, and on withdrawal the owner receives every lamport held by the claim account.",
  [H, I], "all lamport amounts (zero, below, at and above rent) at all derived addresses at all points of a history",
  "The tests try a few fixed amounts on some addresses.",
  [f"{P}/util/account.rs", f"{P}/instructions/initialize.rs", f"{P}/instructions/unstake.rs", f"{P}/instructions/withdraw.rs"],
  [("creation that tolerates pre-funded accounts", f"{P}/util/account.rs")], (), ["outcome", "lamport flows"])
prop("C14", "Withdrawal slots are independent and safely reusable",
  "A user's up to 256 pending withdrawals and those of other users are independent: creating or paying one never affects another. An index in use can never be overwritten, and after payment it can be used again with none of the old claim's data remaining.",
  [H, I], "all users, all 256 indices, all orders of creation, payment and reuse",
  "Tests use a couple of indices; independence quantifies over pairs of slots and histories.",
  [f"{P}/instructions/unstake.rs", f"{P}/instructions/withdraw.rs", f"{P}/pda.rs", f"{P}/state/pending_withdraw.rs"],
  [("claim address derived from user and index", f"{P}/pda.rs"), ("refusal of occupied slots", f"{P}/instructions/unstake.rs")], (), ["all claim accounts before and after"])
prop("C15", "Arbitrary instruction bytes are handled without panic or effect",
  "For any instruction data and any account list the program returns an error or performs exactly one of the documented instructions; it never panics, aborts, runs on without end, runs out of memory or crashes. Unknown discriminators and truncated data are refused without changing any account.",
  [I], "all byte strings and account lists (any number, order, flags and contents of accounts)",
  "Tests send only well-formed instructions built by the client.",
  [f"{P}/entrypoint.rs", f"{P}/instructions/mod.rs", f"{P}/assertions/account.rs", f"{P}/cpi"],
  [("instruction decoding", f"{P}/instructions/mod.rs"), ("account count check", f"{P}/util/account.rs")], (), ["outcome of raw transactions"])
prop("C16", "Emitted events tell exactly what happened",
  "Every successful stake, unstake, withdrawal and authority change emits exactly one event whose fields equal the actual amounts, parties, index, maturity, vault, escrow, supply and authority involved in that transaction, in execution order. Failed transactions and other instructions emit none, so the event log alone replays the ledger.",
  [H, I], "every history and every amount; batched instructions in one transaction",
  "No stable test decodes events at all.",
  [f"{P}/event.rs", f"{P}/instructions"],
  [("event emission", f"{P}/event.rs")], (), ["program data log entries"], "the event log syscall goes through the runtime shim under cfg(xorca_verif)")
prop("C24", "Each refusal reports its documented error code",
  "When exactly one precondition of an instruction is violated, the program fails with the documented error code for that violation (for example insufficient funds, still cooling down, zero output, overflow, wrong address, wrong owner, wrong role, invalid seeds, occupied index, wrong authority, not enough accounts, unknown instruction).",
  [I, C], "all single violations of all instructions with arbitrary surrounding values",
  "Tests assert a few codes at fixed values; several documented codes are never produced by them.",
  [f"{P}/error.rs", f"{P}/instructions", f"{P}/assertions/account.rs"],
  [("error mapping", f"{P}/error.rs")], (), ["transaction error code"])
prop("C25", "Transactions change only what they must; token and lamport totals balance",
  "A stake, unstake, withdrawal or configuration change alters only the fields and balances its contract names; pool identity, bumps, padding, vault ownership, mint settings, unrelated accounts and other users stay bit-identical, and a failed transaction changes nothing but the fee. ORCA is conserved over all accounts, xORCA changes only by mint and burn, and lamports are conserved with all program accounts staying rent exempt.",
  [H, I], "every transaction of every history, over all accounts of the ledger",
  "Tests look at the fields they expect to change, not at everything else.",
  [f"{P}/instructions", f"{P}/state", f"{P}/util/account.rs"],
  [("targeted field writes", f"{P}/instructions")], (), ["full account diff of every transaction"])
prop("C27", "Holders and claimants can always get their ORCA out",
  "In every reachable state, a holder whose xORCA is worth at least one base unit of ORCA can unstake all of it under a free index (as long as the clock plus the cool-down in force fits 64 bits), and every claim can be withdrawn in a single transaction once its time has come. No action by other users or the configuration authority, before or in between, can prevent this.",
  [H, I], "every reachable state and every interference by others between the steps",
  "Liveness from arbitrary reachable states cannot be sampled by fixed happy paths.",
  [f"{P}/instructions/unstake.rs", f"{P}/instructions/withdraw.rs", f"{P}/util/account.rs"],
  [("no fallible step depends on others' actions", f"{P}/instructions/withdraw.rs")], (), ["outcome of drain transactions"])
for x in ("more_props.py", "js_props.py"):
    exec(open(os.path.join(V, "tools", x)).read())
props.sort(key=lambda p: p["id"])

technique = {}
notes = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
g = lambda r: subprocess.check_output(["git", "-C", "/repo", "rev-parse", r], text=True).strip()
man = dict(version=1, setup_cmd="bin/setup",
  hooks=dict(guard="cfg(xorca_verif)",
    enable="harness builds pass --cfg xorca_verif to the program crate through RUSTC_WRAPPER=bin/rustc-wrap.sh",
    source_commits=[g("49b8087")]),
  checks=[dict(property=p["id"], quick_cmd=f"bin/check {p['id']}",
      thorough_cmd=f"VERIF_TIER=thorough bin/check {p['id']}", evidence_file=f"evidence/{p['id']}.json",
      technique=technique[p["id"]], level="exploration", level_note=notes.get(p["id"], LEVEL_NOTE)) for p in props],
  not_applicable=[],
  notes="Runtime monitoring: real program code executed in an instrumented runtime under generated, hostile and stress workloads; oracles are independent reference computations over observed ledgers. See DESIGN.md.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
