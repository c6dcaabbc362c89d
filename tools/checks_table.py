# id: (technique, level_note)
MONITOR = "runtime monitoring: generated and damaged inputs on the real library, judged by independent reference oracles"
TRUST = " Trusts the reference implementations in harness/refs (self-tested against published vectors)."
BTC = "runtime monitoring: real transactions built by the library under generated wallets and requests, judged by an independent layout parser, BIP-143/341 signature verification and value accounting"
CLI = "runtime monitoring: the real command line tool run as a process against a loopback Electrum server that scripts the chain and faults and logs every request; printed transactions and exit statuses judged by independent oracles"
STUBS = "Compiled against stand-ins for the crates that are not available offline (harness/stubs)."
PROC = "runtime monitoring: the real bridge process loop run on virtual time against simulated Bitcoin, Electrum and Stacks nodes (contract calls executed by an interpreter of the tree's contract), with latency, faults, kills and restarts; every request and the event log judged online against the simulated chains"
SIM = "runtime monitoring: the real bridge state machine driven through random truthful histories (random blocks, orders, delays, rejections, restarts), with online monitors comparing every task it emits with the ground truth of the generated chains; and the whole bridge process run on virtual time against simulated nodes, every request judged"
SIMN = "Thousands of distinct histories per run; orders are sampled, not enumerated. The bridge is compiled against stand-ins for crates that are not available offline (harness/stubs)."
CLAR = "runtime monitoring: the tree's Clarity contracts executed by an interpreter written for this framework under generated call histories; results and ledger state compared after every call with a reference ledger and an independent Merkle oracle"
CLARN = "Thousands of histories, up to a hundred calls each; the interpreter is calibrated on the tree's own contract tests and is not the Stacks node."
CHECKS = {
 "C01": (BTC, "Thousands of built deposits per run over five wallet kinds and all address kinds." + TRUST),
 "C02": (BTC, "Every input signature of every built transaction is verified over the final transaction; value conservation and change ownership are accounted." + TRUST),
 "C03": (BTC, "Thousands of built withdrawal requests, parsed back and compared." + TRUST),
 "C04": (MONITOR, "Digest recomputed from the documentation; single-bit and field alterations must change the attribution." + TRUST),
 "C05": (BTC, "Thousands of built fulfillments; damaged data must be rejected." + TRUST),
 "C06": (MONITOR, "Valid, damaged and random transactions compared with an independent parser; panics observed." + TRUST),
 "C07": (MONITOR, "Random lists with duplicates against a reference multiset ordering."),
 "C08": (MONITOR, "Taproot output recomputed and each control block validated as BIP-341 prescribes." + TRUST),
 "C09": (MONITOR, "Round trips and damaged bytes against an independent acceptor." + TRUST),
 "C10": (MONITOR, "Every generated address and every single-edit corruption of it is checked against an independent c32check." + TRUST),
 "C11": (MONITOR, "Every generated value's bytes are compared with hand-written layouts through ordinary, slow and full streams." + TRUST),
 "C12": (MONITOR, "Panics, aborts, wrong acceptance and wrong rejection are observed for each damaged input." + TRUST),
 "C13": (MONITOR, "Short names are enumerated, longer ones generated around each rule." + TRUST),
 "C14": (MONITOR, "Random keys and all multisig shapes against independent hashing." + TRUST),
 "C15": (MONITOR, "Each operation is compared with an independent big-integer implementation, overflow checks on." + TRUST),
 "C16": ("sanitizers: Miri interpreter (little- and big-endian targets) and AddressSanitizer over the library workloads", "Undefined behaviour and host-dependent results are observed on the executed inputs only; C code of libsecp256k1 is outside Miri and not instrumented by AddressSanitizer."),
 "C17": (MONITOR, "All short lengths enumerated, damaged text and JSON forms." + TRUST),
 "C18": (MONITOR, "Random and boundary keys; byte and character damage." + TRUST),
 "C19": (MONITOR, "Random seeds and boundary indices against an independent BIP-32/39/44/84/86." + TRUST),
 "C20": (MONITOR, "Uniqueness and bit balance over thousands of wallets from threads and processes; statistical, cannot prove unpredictability."),
 "C21": (CLI.replace(" against a loopback Electrum server that scripts the chain and faults and logs every request", "").replace("printed transactions", "printed credentials"), "Hundreds of runs over networks, account counts, given and random mnemonics; every printed credential is derived again independently." + TRUST),
 "C22": (CLI, "Hundreds of process runs; argument damage, missing funds, dropped, erroring and garbage-answering servers." + TRUST),
 "C23": (CLI, "Hundreds of process runs; argument damage, missing funds, dropped, erroring and garbage-answering servers." + TRUST),
 "C24": (CLI, "The server's log must show exactly the given bytes once, nothing for malformed input; failing servers must yield failure." + TRUST),
 "C25": (MONITOR, "Every network enumerated; texts generated around the two names (case, additions, look-alike letters, other networks' names)."),
"C30": (SIM, SIMN), "C31": (SIM, SIMN),
 "C32": (SIM, SIMN + " Two known findings are reported."),
 "C33": (PROC, "Thousands of cut positions over all record kinds, two restarts each, and random kills; positions are sampled. " + STUBS),
 "C34": (SIM, SIMN), "C38": (SIM, SIMN),
 "C35": (MONITOR + "; and the tree's proof contract, interpreted, must accept each proof", "Every position of all small block sizes and of sizes around powers of two; larger blocks sampled. " + STUBS + TRUST),
 "C36": (PROC, "Hundreds of whole bridge runs with concurrent submissions, lost answers and restarts. " + STUBS),
 "C37": ("runtime monitoring: the real node clients asked about transactions whose state changes at every opportunity before, between and after the client's queries, with injected failures; the answer must have been true at some moment of the question", "Thousands of distinct timelines, sampled. " + STUBS),
 "C39": (MONITOR, "Hundreds of generated configuration files with absolute and relative paths and one damaged field. " + STUBS + TRUST),
 "C50": (CLAR, CLARN), "C51": (CLAR, CLARN), "C52": (CLAR, CLARN), "C53": (CLAR, CLARN), "C55": (CLAR, CLARN),
 "C54": (CLAR, "Every position of small blocks, single-field corruptions of valid proofs. The interpreter is not the Stacks node."),
}
NA = {}
