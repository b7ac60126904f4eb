LEVEL_NOTE = "Held on every execution observed by the monitor; histories and inputs are sampled (boundary-biased), not enumerated."
_h = "runtime monitoring: online checker over full-ledger snapshots of every transaction in random and hostile histories on the real program"
_p = "runtime monitoring: per-transaction oracle (independent 128/256-bit reference arithmetic) over generated pools and boundary values on the real program"
for k in ("C01","C02","C05","C07","C14","C16","C25","C27"): technique[k] = _h
for k in ("C03","C04","C06","C08","C24"): technique[k] = _p
technique["C09"] = "runtime monitoring: authority monitor (no loss without signature) over an attack matrix and hostile histories"
technique["C10"] = "runtime monitoring: account-substitution and content-mutation fault injection with a frame monitor"
technique["C11"] = technique["C12"] = "runtime monitoring: precondition/postcondition monitor over generated configurations and update histories"
technique["C13"] = "runtime monitoring: lamport fault injection at derived addresses with rent and liveness monitors"
technique["C15"] = "runtime monitoring: raw-byte fuzzing of the entrypoint with panic/abort detection and a frame monitor"
technique["C18"] = "runtime monitoring: recorded instructions, invocations and decodes of the client judged by an independent wire-format oracle and by executing them on the real program"
technique["C19"] = "runtime monitoring: quotes compared online with 256-bit reference arithmetic and with execution on the real program"
technique["C20"] = "runtime monitoring: fetchers run against a simulated node with moving ledger and fault injection; results checked against the log of served snapshots"
technique["C17"] = "sanitizers: the real program under AddressSanitizer with overflow checks and debug assertions, and under Miri, on generated and mutated instruction streams, with a header/borrow monitor on account memory"
technique["C21"] = "runtime monitoring: quotes of the bundled JS client compared online with 256-bit reference arithmetic and with execution on the real program"
technique["C22"] = "runtime monitoring: artefacts built and decoded by the running JS client judged by an independent wire-format oracle and by executing them on the real program"
technique["C23"] = "runtime monitoring: JS fetchers run against a simulated node with moving ledger, reordered answers and fault injection; results checked against the log of served snapshots"
technique["C26"] = "runtime monitoring: the scripts run as processes against a node executing the real program; every submission judged against an independently built transaction and by its effect on the ledger"
technique["C28"] = "runtime monitoring: the scripts run as processes against a node executing the real program; every figure printed compared online with the ledger before and after, under request faults"
