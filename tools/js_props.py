J = "js-client/src"
prop("C21", "JS client quotes equal what the program then does",
  "For every amount, reserve and supply, the JS client's conversion of ORCA to xORCA and back equals the amount the program mints or owes when the same stake or unstake is executed with those reserves, exactly and without losing precision. A zero quote means the program refuses the amount as too small, and quoting xORCA from an empty pool is an error.",
  [I, C], "all triples of 64-bit amount, non-escrowed ORCA and supply",
  "Three nominal unit tests (which need vitest and are not among the stable ones); agreement at rounding boundaries and beyond 53 bits is not sampled.",
  [f"{J}/utils/conversion.ts", f"{P}/util/math.rs"],
  [("client conversions", f"{J}/utils/conversion.ts"), ("program conversions", f"{P}/util/math.rs")], (), ["quote and executed amount"])
prop("C22", "The JS client and the program speak the same language",
  "Instructions built by the JS client carry the accounts, roles and data the program expects for every argument, and values out of range are refused rather than wrapped; executed on the program they do exactly what was asked. Accounts, events, instructions and errors of the program are identified, parsed and decoded to the same values, truncated ones are refused, and addresses derived by the client are those the program uses; no address is derived for an index no claim can have.",
  [I, H], "all argument values, addresses, account contents, events, error codes, users and indices, and every ledger the program can produce",
  "The JS tests only check that modules load; nothing the client builds or decodes meets the program.",
  [f"{J}/generated", f"{J}/utils/index.ts", f"{P}/instructions/mod.rs", f"{P}/state", f"{P}/event.rs", f"{P}/error.rs"],
  [("generated instruction builders and parsers", f"{J}/generated/instructions"), ("account and event codecs", f"{J}/generated/types"), ("address derivation", f"{J}/utils/index.ts")],
  (), ["built instructions", "decoded accounts, events, instructions and errors"])
prop("C23", "JS client fetchers report exactly what the ledger holds",
  "The JS client's fetchers return the state, cool-down, vault, supply, claims and whole accounts exactly as the ledger held them while they were reading: all claims of the staker below the index limit and nothing else, and an exchange rate that the pool had at one moment even when transactions happen between requests. Limits that are not an integer from 0 to 255 are refused, and missing accounts, unusable pool data or failed requests give an error, never a partial answer.",
  [H, F, I], "every ledger history, every timing and order of answers, all limits, stakers, and faults of the node",
  "No JS test fetches anything.",
  [f"{J}/utils/index.ts", f"{J}/generated/accounts"],
  [("paged claim lookup", f"{J}/utils/index.ts"), ("single-snapshot exchange rate", f"{J}/utils/index.ts")], (), ["fetcher results against served ledger snapshots"])
T = "ts-scripts"
prop("C26", "Command-line scripts submit exactly the transaction asked for, or none",
  "Each script of ts-scripts, run with given arguments against a ledger, submits one transaction containing exactly the operation those arguments describe, with the stated amount, index, period or key, paid and signed by the given keys, creating a missing token account first where needed; executed, it does exactly that. Arguments that are missing, malformed, negative, out of range or exceed the holdings, an unreadable key file, or a claim that does not exist submit nothing. Read-only scripts submit nothing, the key generator writes exactly the given key or nothing, and the uploader sends exactly the file's bytes with its type.",
  [I, H, F], "all argument strings, key files, ledgers and failing requests",
  "The scripts have no tests at all.",
  [f"{T}/{x}.ts" for x in "stake unstake withdraw set initialize transfer-orca transfer-orca-to-vault update-xorca-mint-authority generate-keypair upload-image constants".split()],
  [("argument parsing and guards", f"{T}/unstake.ts"), ("hand-written instruction encoding", f"{T}/set.ts")], (), ["submitted transactions", "written files", "uploads"])
prop("C28", "Command-line scripts report what the ledger holds",
  "Every figure the scripts print matches the ledger: status shows the pool's balances, configuration and both exchange rates as the program applies them (leaving aside the virtual offsets of an empty pool), pending-withdraws lists exactly the staker's claims among its fifteen searched indices with their ORCA amounts, readiness and remaining time, and the acting scripts report what the executed transaction changed and the balances after it. Success is reported exactly when the transaction executed, failure never when it did, and a failed request is reported as an error, never as a complete or wrong report.",
  [H, I, F], "all ledgers the program can produce, clock values, outcomes of the submitted transaction and failing requests",
  "The scripts have no tests at all.",
  [f"{T}/{x}.ts" for x in "status pending-withdraws stake unstake withdraw transfer-orca transfer-orca-to-vault set initialize".split()],
  [("rates and balances", f"{T}/status.ts"), ("claim listing", f"{T}/pending-withdraws.ts"), ("before and after balances", f"{T}/stake.ts")], (), ["standard output against the ledger"])
