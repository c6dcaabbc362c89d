#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

OR="sbtc-core/src/operations/op_return/"
CR="sbtc-core/src/operations/commit_reveal/"
SC="stacks-core/src/"
RO="romeo/src/"
CL="romeo/asset-contract/contracts/"

# ---------------- sbtc-core
p("C01","A built deposit transaction parses back to exactly what was asked",
 "For every funded wallet, recipient (standard or contract principal), sBTC wallet address, network and amount at or above that address' dust limit, the deposit transaction that is built parses back to exactly that recipient, amount and sBTC address. Its first output is a zero-valued OP_RETURN holding only the network's magic bytes, the deposit opcode '<' and the recipient's wire encoding, its second output pays exactly the amount to the sBTC address, and every other output is change of the funding wallet. An amount below the dust limit, or one the wallet cannot fund, yields an error and no transaction.",
 ["inputs","configurations"],"all recipients, networks, sBTC address kinds, amounts, wallet kinds and UTXO sets",
 "The tests serialize a handful of data outputs with one generated address and never build a transaction from a wallet; nothing relates builder and parser over amounts, address kinds or UTXO sets.",
 [OR+"deposit.rs",OR+"utils.rs",SC+"utils.rs"],[("build_deposit_transaction",OR+"deposit.rs"),("Deposit::parse",OR+"deposit.rs"),("reorder_outputs",OR+"utils.rs")],
 ["transaction returned by build_deposit_transaction","value returned by Deposit::parse"])
p("C02","Every wallet-built sBTC transaction is balanced and correctly signed",
 "Every deposit, withdrawal request and withdrawal fulfillment transaction built from a funded wallet spends only distinct unspent outputs of that wallet, carries for every input a signature that is valid for, and covers the whole of, the finished transaction exactly as returned, and pays a fee of the order of, and not below, the minimum relay fee for its size: all value beyond the requested outputs and that fee returns to the wallet as change. No output appears more often than requested, no requested output is missing, and the wallet is left able to build further transactions. A wallet that cannot sign for a coin it would spend yields an error, not a transaction.",
 ["inputs","configurations"],"all UTXO sets, amounts, output address kinds and wallet descriptor kinds (p2pkh, p2wpkh, p2tr)",
 "No existing test signs a transaction or checks a signature against the final output order; signing happens after outputs are rearranged, so validity depends on every path between them.",
 [OR+"deposit.rs",OR+"withdrawal_request.rs",OR+"withdrawal_fulfillment.rs",OR+"utils.rs"],[("sign after reorder",OR+"deposit.rs"),("build_withdrawal_tx",OR+"withdrawal_request.rs"),("build_withdrawal_fulfillment_tx",OR+"withdrawal_fulfillment.rs")],
 ["transactions returned by the three builders"])
p("C03","A built withdrawal request parses back to exactly what was asked",
 "For every drawee key, payee address, sBTC wallet address, amount, fulfillment fee at or above dust and network, the withdrawal request transaction that is built parses back to the same payee, amount, fulfillment fee and sBTC wallet, and to the drawee's single-signature Stacks address of that network. Its outputs are, in order, a zero-valued OP_RETURN with magic bytes, opcode '>', the amount as 8 big-endian bytes and the 65-byte recoverable signature (recovery id first), then the payee with exactly its dust limit, then the sBTC wallet with exactly the fee, then only change; a fee below dust yields an error.",
 ["inputs","configurations"],"all drawee keys, payee and wallet address kinds (including payee equal to the sBTC wallet), amounts, fees, networks and UTXO sets",
 "The tests round-trip one fixed data output; no test parses a built transaction or varies address kinds, amounts or the relation between payee and sBTC wallet.",
 [OR+"withdrawal_request.rs",OR+"utils.rs"],[("build_withdrawal_tx",OR+"withdrawal_request.rs"),("try_parse_withdrawal_request",OR+"withdrawal_request.rs")],
 ["transaction returned by build_withdrawal_tx","value returned by try_parse_withdrawal_request"])
p("C04","A withdrawal signature authorises one amount to one recipient only",
 "The drawee of a withdrawal request is the owner of the key that signed the message 'Withdraw request for <amount> satoshis to the bitcoin address <address> (<hex of amount and recipient script>)' under the Stacks signed-message convention, as any independent implementation of that convention computes it. Changing the amount, the recipient, the network form of the recipient or any bit of the signature never leaves the request attributed to the same drawee, and a request never gets attributed to anyone but the key recovered from it.",
 ["inputs"],"all keys, amounts, recipient addresses, networks and all single-field or single-bit alterations of a signed request",
 "The tests compare two fixed signing messages and one signature; authenticity is a statement about every altered request.",
 [OR+"withdrawal_request.rs"],[("create_signature / recover_signature",OR+"withdrawal_request.rs"),("create_withdrawal_request_signing_message",OR+"withdrawal_request.rs")],
 ["public create_signature, recover_signature and try_parse_withdrawal_request"])
p("C05","A fulfillment transaction pays the recipient and carries the chain tip",
 "For every funded wallet, recipient address, amount at or above dust, chain tip and network, the withdrawal fulfillment transaction has as first output a zero-valued OP_RETURN with the network's magic bytes, opcode '!' and the 32 chain-tip bytes in big-endian order, as second output exactly the amount to exactly the recipient, and otherwise only change; an amount below dust, or one the wallet cannot fund, yields an error. The data output decodes back to the same chain tip and network family, and data with a wrong magic, a wrong opcode or fewer than 32 tip bytes is rejected.",
 ["inputs","configurations"],"all recipients, amounts, chain tips, networks and UTXO sets",
 "There is no test of the fulfillment module at all.",
 [OR+"withdrawal_fulfillment.rs"],[("create_outputs / build_withdrawal_fulfillment_tx",OR+"withdrawal_fulfillment.rs")],
 ["transaction returned by build_withdrawal_fulfillment_tx","ParsedWithdrawalFulfillmentData decoding"])
p("C06","Parsing any Bitcoin transaction as an sBTC operation is total and exact",
 "Deposit and withdrawal-request parsing return a result for every Bitcoin transaction whatsoever, without ever aborting. A transaction is accepted as a deposit exactly when its first output is an OP_RETURN pushing known magic bytes, the deposit opcode and a well-formed recipient, and its second output pays an address; it is accepted as a withdrawal request exactly when the corresponding data, a recoverable signature, and payee and wallet address outputs are present. Every field reported is the one in the transaction: amounts from the declared places, addresses from the scripts and the recipient from the data bytes.",
 ["inputs"],"all transactions: arbitrary, mutated from valid operations, truncated, with hostile scripts and data",
 "Anyone can put arbitrary bytes on the Bitcoin chain; the tests only parse a few well-formed data outputs.",
 [OR+"deposit.rs",OR+"withdrawal_request.rs",SC+"utils.rs",SC+"address.rs",SC+"contract_name.rs"],[("Deposit::parse",OR+"deposit.rs"),("try_parse_withdrawal_request",OR+"withdrawal_request.rs")],
 ["results of the two parsers on transactions decoded from raw bytes"])
p("C07","Reordering outputs keeps every output and puts the requested ones first",
 "For every list of outputs and every requested order, reordering returns a permutation of the given outputs: nothing is lost, added or altered. Outputs matching the request come first, in the requested order and as often as both lists contain them, and the remaining outputs follow in their original order.",
 ["inputs"],"all output lists and orders, with duplicates, missing and extra entries",
 "No test calls it; the interesting cases are duplicates and several unrequested outputs.",
 [OR+"utils.rs"],[("reorder_outputs",OR+"utils.rs")],["return value of reorder_outputs"])
p("C08","A commit address is spendable exactly by its reveal and reclaim scripts",
 "For all data and keys, the commit output is the Taproot output of BIP-341's unspendable internal key with exactly two leaves: one that drops the data and checks the revealer key, one that checks the reclaim key; different data or keys give different addresses. The reveal transaction spends the given outpoint with a witness whose script and control block verify against that commit output under BIP-341, starts with a zero-valued OP_RETURN of the magic bytes and 'w', and then pays the whole committed amount except the reveal fee: a deposit to the sBTC wallet, a withdrawal request the fulfillment fee to the sBTC wallet and the rest to the recipient. Fees above the committed amount yield an error and no transaction.",
 ["inputs"],"all deposit and withdrawal data, revealer and reclaim keys, outpoints, magic bytes, fees and commit amounts",
 "The commit-reveal module has no tests.",
 [CR+"utils.rs",CR+"deposit.rs",CR+"withdrawal_request.rs"],[("commit / reveal",CR+"utils.rs"),("deposit_reveal_unsigned_tx",CR+"deposit.rs"),("withdrawal_request_reveal_unsigned_tx",CR+"withdrawal_request.rs")],
 ["address returned by the commit functions","transaction returned by the reveal functions"])
p("C09","Commit-reveal operation data round-trips through its encoding",
 "Every commit-reveal deposit and withdrawal request encodes to opcode, fields in declared order with 8-byte big-endian amounts, and nothing else, and decoding those bytes gives back equal fields. Decoding any other bytes yields an error or a value that re-encodes to the bytes consumed, never an abort.",
 ["inputs"],"all principals, amounts, signatures, and all byte strings",
 "The commit-reveal data types are never serialized by a test.",
 [CR+"deposit.rs",CR+"withdrawal_request.rs"],[("Codec for DepositData",CR+"deposit.rs"),("Codec for WithdrawalData",CR+"withdrawal_request.rs")],
 ["serialize_to_vec / deserialize results"])
# ---------------- stacks-core
p("C10","Stacks address strings encode and decode inversely and detect corruption",
 "For every supported version and 20-byte hash the textual address is the c32check string other Stacks tools produce, and parsing it returns the same version and hash. A string with one character replaced by a different c32 digit, two unequal neighbouring characters swapped, or one replaced by a character that is no c32 digit, is rejected, and lower-case and O/I/L look-alike spellings never parse to a different address.",
 ["inputs"],"all versions and hashes (including leading zero bytes) and all single-character corruptions of an address",
 "The tests use a fixed list of addresses and random buffers through one encoder; corruption and leading-zero hashes are not enumerated, and no independent c32 implementation is compared.",
 [SC+"c32.rs",SC+"address.rs"],[("encode/decode/version_check_*",SC+"c32.rs")],["c32 and StacksAddress public functions"])
p("C11","Wire encodings are exact and round-trip",
 "Every address, standard or contract principal, amount, 64-bit integer, recoverable signature, script, 256/512-bit integer and block id serializes to exactly the bytes of the Stacks wire format (fixed widths, big-endian numbers, one type or version byte, length-prefixed contract names), and deserializing those bytes gives back an equal value, consuming exactly them. Concatenated values decode one after the other. A stream that fails or fills up at any byte makes the operation fail.",
 ["inputs"],"all values of every encodable type and all concatenations",
 "Unit tests encode single fixed values of some of the types.",
 [SC+"codec.rs",SC+"utils.rs",SC+"address.rs",SC+"contract_name.rs",SC+"uint.rs",SC+"lib.rs"],[("Codec impls",SC+"codec.rs")],["bytes written and values read through the Codec trait"])
p("C12","Decoders reject malformed data instead of aborting or inventing values",
 "Every decoder of bytes or text in the library returns a value or an error on every input and never aborts. Truncated encodings, unknown version, type or recovery bytes, out-of-range lengths and invalid characters are errors, and whatever is accepted re-encodes to the bytes that were read.",
 ["inputs"],"all byte strings and texts, especially truncations and single-byte mutations of valid encodings, and writers/readers that transfer few bytes at a time or fail",
 "The tests feed valid encodings; totality is about every other input.",
 [SC+"codec.rs",SC+"utils.rs",SC+"address.rs",SC+"contract_name.rs",SC+"c32.rs",SC+"uint.rs",SC+"crypto/wif.rs"],[("codec_deserialize of every type",SC+"codec.rs"),("TryFrom<&str> for StacksAddress",SC+"address.rs")],["results of every decoding function"])
p("C13","Contract names and textual principals are accepted exactly per the rules",
 "A contract name is accepted, from text or from bytes, exactly when it has 1 to 40 characters, starts with a letter and continues with letters, digits, '-' or '_' (or is the reserved '__transient'), and is kept unchanged. A textual principal is accepted exactly when it is a valid Stacks address optionally followed by one dot and a valid contract name, and means that address and name.",
 ["inputs"],"all strings up to and beyond the length limits, including non-ASCII, control characters and separators",
 "Tests check a few names near the length limit.",
 [SC+"contract_name.rs",SC+"utils.rs"],[("ContractName::new / codec",SC+"contract_name.rs"),("TryFrom<String> for PrincipalData",SC+"utils.rs")],["results of constructing names and principals"])
p("C14","Addresses derived from public keys follow the Stacks hash modes",
 "For every public key, the single-signature address hash is RIPEMD160(SHA256(compressed key)) and the nested-witness form hashes the 0x0014 program of it; for every list of n keys and threshold m with 1 <= m <= n <= 16, the multi-signature hash is that of the script 'm keys... n CHECKMULTISIG' with the keys in the given order, directly or through its 0x0020 witness program. The address keeps the requested version and depends on every key, on their order and on the threshold.",
 ["inputs"],"all key lists and thresholds",
 "Tests compare fixed vectors for fixed keys.",
 [SC+"address.rs",SC+"crypto/hash160.rs"],[("hash_p2pkh/p2sh/p2wpkh/p2wsh",SC+"address.rs")],["StacksAddress::{p2pkh,p2sh,p2wpkh,p2wsh,from_public_key}"])
p("C15","Wide integers compute like mathematical integers modulo 2^bits",
 "For 256- and 512-bit integers, addition, subtraction, multiplication, multiplication by a 32-bit factor, shifts by any distance, bitwise operations, increment and comparison agree with unbounded integers reduced modulo 2^bits, division agrees with integer division for every non-zero divisor, and bit length, byte and hex conversions in both byte orders, narrowing, widening and conversions from hashes and machine integers preserve the value (truncating only where documented).",
 ["inputs"],"all operand values with special weight on carries, word boundaries, zero and maximum, and all shift distances",
 "The tests check a couple of dozen literal results; carry chains and word-boundary shifts need systematic operands.",
 [SC+"uint.rs"],[("Uint operators and conversions",SC+"uint.rs")],["public operators and conversions of Uint256/Uint512"])
p("C16","Library code is free of undefined behaviour",
 "Whatever values are passed to the public number, hash, encoding and naming functions, executing them performs no undefined behaviour: no invalid memory access, misaligned or uninitialised read, invalid transmuted value or arithmetic overflow that goes unnoticed in a checked build, on little- and big-endian hosts, with identical results on both.",
 ["inputs","configurations"],"inputs of the public functions on little- and big-endian targets",
 "Tests run natively without instrumentation on a little-endian host; they would pass with latent undefined behaviour or byte-order bugs.",
 [SC+"uint.rs",SC+"crypto/mod.rs",SC+"c32.rs"],[("unsafe transmute from hash to integer",SC+"uint.rs")],["Miri and AddressSanitizer reports"])
p("C17","Hashes, checksums and their hex and JSON forms are exact",
 "SHA-256, double SHA-256 and HASH160 of every byte string equal independent implementations' results, the checksum is their first four bytes, and hex and JSON forms convert back to the same hash. Any hex or JSON text of another length or alphabet is rejected.",
 ["inputs"],"all messages (empty, block-boundary lengths, large) and all hex/JSON texts",
 "Tests hash one or two fixed messages.",
 [SC+"crypto/mod.rs",SC+"crypto/sha256.rs",SC+"crypto/hash160.rs"],[("Hashing trait",SC+"crypto/mod.rs")],["hash, checksum, hex and serde results"])
p("C18","WIF export and import preserve key and network and reject corruption",
 "Exporting any private key for a network gives the compressed-key WIF text that Bitcoin software accepts for it, and importing that text returns the same key and network. Any text or byte string with a wrong length, prefix, compression byte, checksum or key is rejected and never aborts.",
 ["inputs"],"all private keys, networks and mutations of WIF bytes and text",
 "Tests use one key per network and a few broken variants.",
 [SC+"crypto/wif.rs"],[("WIF::new/from_bytes/validate",SC+"crypto/wif.rs")],["WIF public functions"])
p("C19","Wallet keys and addresses follow BIP-32/39/44/84/86 exactly",
 "For every valid mnemonic, network and account index, the Stacks credentials are those at m/44'/5757'/0'/0/index and the Bitcoin credentials those at m/{44',84',86'}/{0' on mainnet, 1' elsewhere}/index'/0/0, and every address, public key and WIF derives from the matching private key for the matching network. Different indices, networks or kinds do not share keys where their paths differ, invalid mnemonics, and indices no path can express, give an error, and wallets and credentials stored as JSON load back equal.",
 ["inputs","configurations"],"all mnemonics (12-24 words), networks and indices 0..2^32-1",
 "Tests check two fixed mnemonics at a few indices.",
 [SC+"wallet.rs"],[("stacks_derivation_path / bitcoin_derivation_path / derive_key",SC+"wallet.rs")],["Wallet, Credentials and BitcoinCredentials accessors"])
p("C20","Random wallets are fresh, valid and fully recoverable",
 "Every randomly created wallet has a valid 24-word mnemonic from which re-creating the wallet gives identical keys, and no two created wallets, on any thread, share a mnemonic, a key or 8 aligned bytes of entropy, however many are created; across wallets every bit of the underlying entropy takes both values equally often.",
 ["inputs","schedules"],"all invocations, concurrently from many threads and processes",
 "No test compares two random wallets; freshness is a property of many runs and of concurrency.",
 [SC+"wallet.rs"],[("Wallet::random",SC+"wallet.rs")],["mnemonics and keys of many random wallets"])
p("C25","Network names and kinds are never confused",
 "A Stacks network is read from text or from a JSON string exactly when the text is 'mainnet' or 'testnet' in any letter case, and means that network; its displayed and JSON forms are the lower-case name and read back to it. Bitcoin's mainnet corresponds to the Stacks mainnet and every other Bitcoin network to the Stacks testnet, and going from Stacks to Bitcoin and back changes nothing.",
 ["inputs"],"all texts and all networks",
 "No test reads a network from text or converts between Stacks and Bitcoin networks; a key or address used on the wrong network loses funds.",
 [SC+"lib.rs"],[("Network",SC+"lib.rs"),("BitcoinNetwork conversions",SC+"lib.rs")],["networks returned for texts and for Bitcoin networks"])
# ---------------- CLI
p("C21","generate-from prints credentials that are consistent and re-importable",
 "For every kind of input, network and mnemonic, the credential generator prints valid JSON in which every private key, public key, WIF and address belong together, for the requested network, equal the standard derivations of the printed mnemonic, and re-running it on the printed mnemonic prints the same. Invalid input ends with a failure status and no credentials, and output that cannot be written with a failure status.",
 ["inputs","configurations"],"all mnemonics, networks and account numbers given on the command line",
 "The command-line tool has no tests.",
 ["sbtc-cli/src/commands/generate.rs","sbtc-cli/src/main.rs"],[("generate",  "sbtc-cli/src/commands/generate.rs")],["stdout and exit status of the CLI process"])
p("C22","The deposit command prints a valid transaction for exactly the request",
 "Given a funded key, the deposit command prints JSON with the hex of a correctly signed transaction that deposits exactly the requested amount to the requested sBTC address for the requested Stacks recipient on the key's network, together with that transaction's id. It broadcasts nothing, and on bad arguments, insufficient funds, a failing server or an output that cannot be written it exits with failure and prints no transaction.",
 ["inputs","fault_sequences"],"all recipients, amounts, addresses, UTXO sets served, and server failures",
 "The command-line tool has no tests and needs a live server.",
 ["sbtc-cli/src/commands/deposit.rs","sbtc-cli/src/commands/utils.rs",OR+"deposit.rs"],[("build_deposit_tx","sbtc-cli/src/commands/deposit.rs")],["stdout and exit status of the CLI process","requests seen by a mock Electrum server"])
p("C23","The withdraw command prints a valid transaction for exactly the request",
 "Given a funded key and a drawee key, the withdraw command prints JSON with the hex of a correctly signed withdrawal request for exactly the requested amount, payee, fulfillment fee and sBTC wallet that parses to the drawee's address, together with that transaction's id. It broadcasts nothing, and on bad arguments, insufficient funds, a failing server or an output that cannot be written it exits with failure and prints no transaction.",
 ["inputs","fault_sequences"],"all drawee keys, payees, amounts, fees, UTXO sets served, and server failures",
 "The command-line tool has no tests and needs a live server.",
 ["sbtc-cli/src/commands/withdraw.rs","sbtc-cli/src/commands/utils.rs",OR+"withdrawal_request.rs"],[("build_withdrawal_tx","sbtc-cli/src/commands/withdraw.rs")],["stdout and exit status of the CLI process","requests seen by a mock Electrum server"])
p("C24","The broadcast command submits exactly the given transaction, once",
 "For every well-formed transaction hex, the broadcast command sends exactly those bytes to the server once and prints the transaction's id with a success status. On malformed hex nothing is sent, and on a malformed argument, server error or lost connection it ends with a failure status and does not claim success.",
 ["inputs","fault_sequences"],"all transactions, malformed arguments and server fault points",
 "The command-line tool has no tests and needs a live server.",
 ["sbtc-cli/src/commands/broadcast.rs"],[("broadcast_tx","sbtc-cli/src/commands/broadcast.rs")],["stdout and exit status of the CLI process","requests seen by a mock Electrum server"])
# ---------------- romeo
p("C30","Each confirmed deposit is minted exactly once, to its recipient and amount",
 "Whatever the order in which Bitcoin and Stacks blocks, broadcasts and status answers arrive, the bridge requests exactly one successful mint per deposit transaction paying the configured sBTC wallet, for exactly the deposited amount and recipient, and none for any other transaction. A mint is first requested once a later Stacks block has followed the deposit's Bitcoin block, and again only after the previous attempt for the same deposit was reported rejected, and never while one is pending or confirmed.",
 ["schedules","histories"],"all event orders and block contents: several deposits per block, mixed with withdrawals and unrelated transactions, rejections, delays",
 "The bridge's tests are not runnable offline and only sample single transitions; exactly-once is a property of every history.",
 [RO+"state.rs",RO+"system.rs"],[("State::update / process_bitcoin_block",RO+"state.rs")],["tasks emitted by the state machine","calls seen by mock Stacks and Bitcoin nodes"],
 [("Deposit","a deposit and its mint request","romeo/src/state.rs")])
p("C31","A withdrawal is paid only after its burn is confirmed, and at most once",
 "For every withdrawal request paying the configured sBTC wallet, the bridge requests a burn of exactly the requested amount from exactly the drawee, no sooner than a later Stacks block has followed the request's Bitcoin block, starts a Bitcoin fulfillment only after that burn was confirmed, and pays exactly the requested amount to exactly the payee. It starts another burn or fulfillment for the same request only after the previous one was reported rejected, and no burn or payment happens for any other transaction.",
 ["schedules","histories"],"all event orders and block contents, rejections, delays",
 "The bridge's tests are not runnable offline and only sample single transitions.",
 [RO+"state.rs",RO+"system.rs"],[("State::update",RO+"state.rs")],["tasks emitted by the state machine","calls seen by mock Stacks and Bitcoin nodes"],
 [("Withdrawal","a withdrawal request with its burn and fulfillment","romeo/src/state.rs")])
p("C32","Restarting the bridge anywhere resumes without duplicates or loss",
 "After stopping the bridge at any point and restarting it on the same state directory, its state equals the one before the stop, no mint, burn or fulfillment that was already broadcast is issued again, blocks continue from the next height without gap or repetition, and every pending transaction's status is checked again until it is settled.",
 ["crash_points","histories"],"all crash points between recording an event, executing a task and reporting its result, including repeated crashes",
 "No test restarts the bridge.",
 [RO+"system.rs",RO+"state.rs"],[("Storage / replay",RO+"system.rs"),("State::bootstrap",RO+"state.rs")],["tasks after restart","calls seen by mock nodes across restarts"])
p("C33","The event log survives a torn write",
 "If the bridge stops while appending to its event log, leaving any prefix of the last record behind, the next start recovers every complete record, ignores or completes the torn one, appends new records without corrupting the log, and further restarts recover the same state.",
 ["crash_points"],"every byte position at which the last write can be cut, repeatedly",
 "No test restarts the bridge or truncates its log.",
 [RO+"system.rs"],[("Storage::load/record",RO+"system.rs")],["state directory contents and calls seen after restart"])
p("C34","The bridge never aborts on truthful inputs and always makes progress",
 "As long as the nodes report truthfully, no sequence of blocks, transactions, broadcasts, rejections and confirmations makes the bridge abort, with strict checking on or off, and it always has another block read or status check outstanding. (Strict checking stops the bridge on purpose when a broadcast fails or a withdrawal payment is rejected.) Once transactions are confirmed whenever asked, every deposit is minted and every withdrawal is burned and fulfilled within a bounded number of further blocks.",
 ["schedules","histories","configurations"],"all truthful event orders, strict and non-strict configuration",
 "Existing state tests cover single transitions and do not run offline.",
 [RO+"state.rs",RO+"system.rs"],[("State::update",RO+"state.rs")],["panics and emitted tasks along random truthful histories"])
p("C35","Bridge proofs of Bitcoin inclusion verify for every transaction of every block",
 "For every Bitcoin block of two or more transactions and every transaction in it, the proof data the bridge computes consists of the block's own header, height and transaction, the transaction's index and a Merkle path of the right depth, and verifies against the block's Merkle root by the standard Bitcoin rule, and the bridge's proof-checking contract accepts it.",
 ["inputs"],"all block sizes (2, powers of two and their neighbours, odd levels, thousands) and transaction positions",
 "Tests use two fixed blocks.",
 [RO+"proof_data.rs",CL+"clarity-bitcoin-mini.clar"],[("BitcoinMerkleTree / ProofData",RO+"proof_data.rs")],["ProofData fields","verdict of the contract's proof check"])
p("C36","Stacks contract calls are well formed, signed by the bridge and nonce-ordered",
 "Each mint and burn request reaches the Stacks node as a transaction calling the configured asset contract's mint or burn function with the amount, the recipient or drawee, and the Bitcoin transaction id and inclusion proof of that operation, for the configured network, signed by the bridge's key, paying a fee and using the next account nonce. Concurrent requests never reuse a nonce for different transactions that are both accepted.",
 ["schedules","inputs"],"all operations, block positions, networks and concurrent submissions",
 "Needs a Stacks node; untested.",
 [RO+"stacks_client.rs",RO+"system.rs"],[("StacksClient::sign_and_broadcast",RO+"stacks_client.rs"),("mint_asset / burn_asset",RO+"system.rs")],["HTTP requests seen by a mock Stacks node"])
p("C37","Transaction status answers reflect the chain",
 "A Bitcoin or Stacks transaction the node reports as confirmed is reported as confirmed, one waiting in the mempool as pending, and only one that is neither, or that the chain aborted, as rejected, even if the transaction moves from mempool to block between two queries. Temporary node failures never turn into a rejected verdict.",
 ["schedules","fault_sequences"],"all interleavings of node-side transitions with the client's queries, and transient errors",
 "Needs nodes; untested.",
 [RO+"bitcoin_client.rs",RO+"stacks_client.rs"],[("get_tx_status",RO+"bitcoin_client.rs"),("get_transation_status",RO+"stacks_client.rs")],["return values against mock nodes' ground truth"])
p("C38","Blocks are processed in order, once each, and only sBTC operations are acted on",
 "The bridge processes each Stacks and Bitcoin block height exactly once in increasing order starting from the contract's deployment (reading a processed Bitcoin block again only to prove inclusion), waits for a height that does not exist yet, and acts only on transactions whose sBTC data is valid and whose payment goes to the configured wallet.",
 ["histories","inputs"],"all chain lengths, growth timings and transaction mixes",
 "Needs nodes; untested.",
 [RO+"system.rs",RO+"state.rs",RO+"bitcoin_client.rs",RO+"stacks_client.rs"],[("fetch_block tasks",RO+"system.rs")],["requests seen by mock nodes","tasks emitted"])
p("C39","The bridge runs with exactly the configuration its file describes",
 "For every well-formed configuration file, however its path is given, the bridge's keys are those of account 0 of the mnemonic on the configured networks, its sBTC wallet address is the Taproot address of that account, and node addresses, contract name, API key, strictness and networks are the ones in the file, with documented defaults for the optional ones. A relative state directory is resolved against the configuration file's folder, not the working directory. A file that is missing, cut short, or has a missing, mistyped or invalid field never yields a configuration.",
 ["inputs","configurations"],"all configuration files and paths to them",
 "Configuration loading has no tests; a wrong key, wallet address or state directory sends funds to the wrong place or forgets the event log.",
 [RO+"config.rs",SC+"wallet.rs"],[("Config::from_path",RO+"config.rs"),("sbtc_wallet_address",RO+"config.rs"),("normalize",RO+"config.rs")],["the Config returned for a file"])
# ---------------- Clarity
p("C50","Token supply always equals mints minus burns and balances add up",
 "After any sequence of calls to the asset contract by any callers, the total supply equals the sum of all balances and the sum of successful mints minus successful burns, no balance is negative, a call that returns an error changes nothing, amounts of zero or more than the holder owns are refused, and the supply never exceeds 21 million bitcoin in satoshis.",
 ["histories","inputs"],"all call sequences, callers, amounts and accounts",
 "Contract tests need a Clarity toolchain that is absent and check single calls.",
 [CL+"asset.clar"],[("mint / burn / transfer",CL+"asset.clar")],["results and ledger state of a Clarity interpreter running the contract"])
p("C51","Only the contract owner can mint, burn or reconfigure",
 "Minting, burning, changing the owner and changing the Bitcoin wallet public key succeed only when called by the current contract owner and are refused for everyone else without effect; ownership passes exactly to the account named, and read-only functions report the current values.",
 ["histories"],"all call sequences and callers, including after ownership changes",
 "Contract tests need a Clarity toolchain that is absent and check single calls.",
 [CL+"asset.clar"],[("is-contract-owner checks",CL+"asset.clar")],["results and contract state of a Clarity interpreter running the contract"])
p("C52","A Bitcoin transaction is used for at most one mint or burn, and only if mined",
 "A mint or burn succeeds only with a proof that its Bitcoin transaction is included in the Bitcoin block of the stated height, and each Bitcoin transaction id is accepted at most once over the contract's lifetime, in mints and burns together; the amount recorded for the id is the minted amount, or the burned amount negated. A refused call leaves the transaction id usable.",
 ["histories","inputs"],"all call sequences, repeated and cross-operation transaction ids, valid and corrupted proofs",
 "Contract tests need a Clarity toolchain that is absent and check single calls.",
 [CL+"asset.clar",CL+"clarity-bitcoin-mini.clar",CL+"clarity-bitcoin-mini-deploy.clar"],[("assert-unique tx check","romeo/asset-contract/contracts/asset.clar"),("was-txid-mined",CL+"clarity-bitcoin-mini.clar")],["results and contract state of a Clarity interpreter running the contract"])
p("C53","Tokens move only with their owner's consent",
 "A transfer succeeds only if the sender is the account that originated the transaction or the immediate caller, moves exactly the amount from sender to recipient, and changes no other balance. It fails without effect for any other caller, an insufficient balance, a zero amount, or a sender equal to the recipient.",
 ["histories","inputs"],"all callers, senders, recipients, amounts and memos",
 "Contract tests need a Clarity toolchain that is absent and check single calls.",
 [CL+"asset.clar"],[("transfer",CL+"asset.clar")],["results and ledger state of a Clarity interpreter running the contract"])
p("C54","The proof contract accepts a transaction id iff it is in the stated block",
 "The proof contract reports a transaction id as mined exactly when the given 80-byte header is the header of the Bitcoin block at the given height and the non-empty Merkle path connects the id, at the position given by as many low bits of the index as the path is long, to that header's Merkle root. Any proof altered in id, position, sibling, header, height or depth so that this no longer holds is refused. With debug mode off nobody can influence which headers are accepted.",
 ["inputs"],"all block sizes, positions and single-field corruptions of valid proofs",
 "Contract tests need a Clarity toolchain that is absent and use a few fixed proofs.",
 [CL+"clarity-bitcoin-mini.clar",CL+"clarity-bitcoin-mini-deploy.clar"],[("was-txid-mined / verify-merkle-proof",CL+"clarity-bitcoin-mini-deploy.clar")],["verdict of a Clarity interpreter running the contract"])

p("C55","Token calls answer and report exactly what happened",
 "Every accepted call of the asset contract answers (ok true). An accepted mint or burn prints exactly one notification, naming the operation and carrying the Bitcoin transaction id; an accepted transfer prints the memo when one was given and nothing otherwise; refused calls, configuration calls and queries print nothing. The name and symbol are sBTC, the token has 8 decimals, and the token URI is constant, whatever calls were made before.",
 ["histories","inputs"],"all call sequences, callers, amounts and memos, accepted and refused",
 "Contract tests need a Clarity toolchain that is absent and check single calls.",
 [CL+"asset.clar"],[("mint / burn / transfer / read-only functions",CL+"asset.clar")],["results and printed events of a Clarity interpreter running the contract"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
