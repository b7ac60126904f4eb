R = "rust-client/src"
prop("C18", "The Rust client and the program speak the same language",
  "Instructions built by the Rust client (builders, account structs, CPI and CPI builders) carry the accounts, roles and data the program expects, for every argument and account; executed on the program they do exactly what was asked. Accounts, events and error codes written by the program decode in the client to the same values, and addresses derived by the client are those the program uses.",
  [I, H], "all argument values, account addresses, account contents, events, error codes, users and indices, and every ledger the program can produce",
  "No stable test sends a client-built instruction to the program or decodes an account the program wrote; fixtures are encoded by the client itself.",
  [f"{R}/generated", f"{R}/pda/mod.rs", f"{P}/instructions/mod.rs", f"{P}/state", f"{P}/event.rs", f"{P}/error.rs"],
  [("generated instruction builders", f"{R}/generated/instructions"), ("address derivation", f"{R}/pda/mod.rs"), ("account and event codecs", f"{R}/generated/types")],
  (), ["built instructions", "invocations", "decoded accounts, events and errors"])
prop("C19", "Rust client quotes equal what the program then does",
  "For every amount, reserve and supply, the Rust client's conversion of ORCA to xORCA and back equals the amount the program mints or owes when the same stake or unstake is executed with those reserves. A zero quote means the program refuses the amount as too small, and an error means the program refuses it as an arithmetic error.",
  [I, C], "all triples of 64-bit amount, non-escrowed ORCA and supply",
  "Five nominal unit tests per side; agreement at rounding and overflow boundaries of three 64-bit values is not sampled.",
  [f"{R}/conversion.rs", f"{P}/util/math.rs"],
  [("client conversions", f"{R}/conversion.rs"), ("program conversions", f"{P}/util/math.rs")], (), ["quote and executed amount"])
prop("C20", "Rust client fetchers report exactly what the ledger holds",
  "The Rust client's fetchers return the state, cool-down, vault, supply and claims exactly as the ledger held them while they were reading: all claims of the staker below the index limit and nothing else, and an exchange rate that the pool had at one moment even when transactions happen between requests. Lamports sent to unused addresses do not disturb them, and missing accounts, unusable data or failed requests give an error, never a partial answer.",
  [H, F, I], "every ledger history, every timing of transactions between requests, all limits, stakers, and faults of the node",
  "Fixture tests read one frozen ledger holding three claims through a node that never fails, moves or limits requests.",
  [f"{R}/utils/mod.rs", f"{R}/generated/accounts"],
  [("paged claim lookup", f"{R}/utils/mod.rs"), ("single-snapshot exchange rate", f"{R}/utils/mod.rs")], (), ["fetcher results against served ledger snapshots"])
prop("C17", "The program is memory safe and its arithmetic never wraps silently",
  "Whatever instruction data, accounts, account contents, clock and balances it is given, the program never reads or writes outside the data of the accounts passed in, never uses invalid, uninitialised, misaligned or aliased values, never corrupts account headers, leaves no account data borrowed after success, and no integer operation overflows: it either succeeds or returns an error.",
  [I, C], "all instruction data, account lists, account lengths and contents, clocks and 64-bit balances",
  "Account contents are reinterpreted in place through unsafe casts; tests never run under a sanitizer and never present short or malformed accounts.",
  [f"{P}/state/mod.rs", f"{P}/assertions/account.rs", f"{P}/util/account.rs", f"{P}/util/math.rs", f"{P}/instructions"],
  [("in-place account views", f"{P}/state/mod.rs"), ("length and discriminator checks", f"{P}/assertions/account.rs"), ("checked arithmetic", f"{P}/util/math.rs")],
  (), ["sanitizer reports", "account memory after each instruction"], "each account is its own exact-size heap block")
