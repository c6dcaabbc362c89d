use libcheck::{commit, core_bin, core_text, ops, wallet};
use mon::Run;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--random-wallets") {
        wallet::print_random(args[2].parse().unwrap());
        return;
    }
    let id = args.get(1).expect("property id");
    let table: &[(&str, &str, fn(&mut Run))] = &[
        ("C01", "random funded wallets of five script kinds, recipients, addresses, amounts around dust and balance; non-trivial = distinct (network, recipient, amount, address)", ops::c01),
        ("C02", "deposit, withdrawal and fulfillment built from wallets with few large or many small coins, every input signature verified; non-trivial = distinct (kind, amount, coins)", ops::c02),
        ("C03", "random drawee keys, payees, wallets, amounts and fees around dust; non-trivial = distinct request", ops::c03),
        ("C04", "random signed requests and single alterations of signature, amount, recipient, network; non-trivial = distinct request or message", ops::c04),
        ("C05", "random recipients, amounts, chain tips, damaged data; non-trivial = distinct fulfillment or data", ops::c05),
        ("C06", "valid, damaged and random transactions judged by an independent parser; non-trivial = distinct output lists", ops::c06),
        ("C07", "random output lists with duplicates and orders with unmatched entries; non-trivial = distinct (outputs, order)", ops::c07),
        ("C08", "random data of every push size and keys, Taproot commitments recomputed and control blocks verified; non-trivial = distinct (data, keys)", commit::c08),
        ("C09", "random operation data and damaged bytes; non-trivial = distinct encodings", commit::c09),
        ("C10", "random version/hash pairs (structured hashes, leading zeros), all single-character substitutions, neighbour swaps, insertions and deletions of each address; non-trivial = distinct (version, hash) or data", core_text::c10),
        ("C11", "random values of every encodable type compared with hand-written wire bytes, slow and full writers, slow readers, concatenations; non-trivial = distinct value tuple", core_bin::c11),
        ("C12", "valid encodings damaged by truncation, byte edits, appended bytes, and junk; every decoder run on each; non-trivial = distinct input", core_bin::c12),
        ("C13", "exhaustive 1-2 character names, generated names around the limits, principal texts; non-trivial = distinct text", core_text::c13),
        ("C14", "random keys, every threshold/size pair 1<=m<=n<=16; non-trivial = distinct key set", core_text::c14),
        ("C15", "operands with carries, boundaries, random words; all shift distances; non-trivial = distinct operand tuple", core_bin::c15),
        ("C17", "messages of every length 0..300 and longer; hex/JSON forms and damaged forms; non-trivial = distinct message", core_text::c17),
        ("C18", "random keys (incl. near group order), WIF byte and text mutations with and without fixed checksum; non-trivial = distinct bytes", core_text::c18),
        ("C19", "random mnemonics of every size, boundary indices, all networks, against an independent BIP-32/39/44/84/86; non-trivial = distinct mnemonic", wallet::c19),
        ("C20", "wallets created concurrently on worker threads, fresh threads and fresh processes; non-trivial = distinct entropy", wallet::c20),
        ("C25", "network names in any case, decorated, damaged and foreign; all Bitcoin and Stacks networks; non-trivial = distinct text", core_text::c25),
    ];
    let Some((_, rule, f)) = table.iter().find(|t| t.0 == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(4);
    };
    let mut run = Run::from_env(id, "exploration", rule);
    f(&mut run);
    std::process::exit(run.finish());
}
