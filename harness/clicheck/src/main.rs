//! C21-C24: the real command line tool as a process, against a loopback
//! Electrum server that records every request.
use std::{
    collections::{HashMap, HashSet},
    io::Read,
    path::PathBuf,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

use bdk::{
    bitcoin::{
        consensus::{deserialize, serialize},
        secp256k1::{PublicKey, Secp256k1, SecretKey},
        Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Witness,
    },
    database::MemoryDatabase,
    Wallet,
};
use libcheck::{
    electrum::{chain_for, Chain, Fault, Server},
    btc::{coins, judge, Funded},
    gen::{self, btc_addr, dust, magic, principal, NETWORKS},
    ops::{op_return, withdrawal_digest},
    wallet::{btc_ref, derive, mnemonic, mnemonic_ok, pk, seed_of},
};
use mon::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore};

fn tool() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("sbtc-under-test")
}
struct Out {
    ok: bool,
    stdout: String,
    stderr: String,
}
fn run_tool(args: &[String]) -> Result<Out, Stop> {
    let mut child = Command::new(tool())
        .args(args)
        .env_clear()
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| harness(format!("spawn: {e}")))?;
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t2 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = se.read_to_string(&mut s);
        s
    });
    let start = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if start.elapsed() > Duration::from_secs(100) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(viol("no-exit", format!("the command did not end within 100 s: {}", args.join(" "))));
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(3)),
            Err(e) => return Err(harness(format!("wait: {e}"))),
        }
    };
    Ok(Out { ok: status.success(), stdout: t1.join().unwrap(), stderr: t2.join().unwrap() })
}
fn s(x: &str) -> String {
    x.to_string()
}
/// runs the command with an output that accepts nothing: does it report failure?
fn fails_on_full_output(args: &[String]) -> CaseResult {
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| harness(format!("/dev/full: {e}")))?;
    let st = Command::new(tool())
        .args(args)
        .env_clear()
        .stdin(Stdio::null())
        .stdout(full)
        .stderr(Stdio::null())
        .status()
        .map_err(|e| harness(format!("spawn: {e}")))?;
    check!(!st.success(), "no-failure", "nothing could be printed, but the command reported success");
    Ok(())
}
/// a failed command must not print anything that could be taken for a result
fn no_result(o: &Out, what: &str) -> CaseResult {
    check!(!o.ok, "no-failure", "{what}: the command reported success and printed {:?}", o.stdout);
    let mut run = 0;
    for ch in o.stdout.chars() {
        run = if ch.is_ascii_hexdigit() { run + 1 } else { 0 };
        check!(run < 60, "result-on-failure", "{what}: failed but printed {:?}", o.stdout);
    }
    check!(serde_json::from_str::<Value>(&o.stdout).is_err(), "result-on-failure", "{what}: failed but printed {:?}", o.stdout);
    Ok(())
}
fn net_name(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "bitcoin",
        Network::Testnet => "testnet",
        Network::Signet => "signet",
        Network::Regtest => "regtest",
    }
}
fn wif_of(k: &SecretKey, n: Network) -> String {
    refs::wif(n == Network::Bitcoin, &k.secret_bytes()).1
}
fn no_broadcast(log: &[(String, Value)]) -> CaseResult {
    check!(!log.iter().any(|r| r.0.contains("broadcast")), "broadcast", "the command broadcast a transaction: {log:?}");
    Ok(())
}

fn dummy_wallet(n: Network, k: &SecretKey) -> Result<Wallet<MemoryDatabase>, Stop> {
    let p = bdk::bitcoin::PrivateKey { compressed: true, network: n, inner: *k };
    Wallet::new(bdk::template::P2Wpkh(p), None, n, MemoryDatabase::default()).map_err(harness)
}
fn p2wpkh(k: &SecretKey) -> Script {
    let mut b = vec![0, 20];
    b.extend(refs::hash160(&pk(&k.secret_bytes())));
    Script::from(b)
}
/// {id, hex} on stdout
fn printed_tx(o: &Out) -> Result<Transaction, Stop> {
    let v: Value = serde_json::from_str(&o.stdout).map_err(|e| viol("output", format!("not JSON ({e}): {:?}", o.stdout)))?;
    let raw = v["hex"].as_str().and_then(|h| hex::decode(h).ok()).ok_or_else(|| viol("output", format!("no hex in {:?}", o.stdout)))?;
    let tx: Transaction = deserialize(&raw).map_err(|e| viol("output", format!("hex is no transaction: {e}")))?;
    check_eq!(v["id"].as_str().map(s), Some(txid_of(&tx)), "txid", "printed id");
    Ok(tx)
}
/// double SHA-256 of the serialization without witnesses
fn txid_of(tx: &Transaction) -> String {
    let mut b = vec![];
    let vi = |b: &mut Vec<u8>, n: usize| match n {
        0..=252 => b.push(n as u8),
        253..=0xffff => {
            b.push(253);
            b.extend((n as u16).to_le_bytes())
        }
        _ => {
            b.push(254);
            b.extend((n as u32).to_le_bytes())
        }
    };
    b.extend(tx.version.to_le_bytes());
    vi(&mut b, tx.input.len());
    for i in &tx.input {
        b.extend(serialize(&i.previous_output));
        vi(&mut b, i.script_sig.len());
        b.extend(i.script_sig.as_bytes());
        b.extend(i.sequence.0.to_le_bytes());
    }
    vi(&mut b, tx.output.len());
    for o in &tx.output {
        b.extend(o.value.to_le_bytes());
        vi(&mut b, o.script_pubkey.len());
        b.extend(o.script_pubkey.as_bytes());
    }
    b.extend(tx.lock_time.0.to_le_bytes());
    let mut h = refs::sha256d(&b);
    h.reverse();
    hex::encode(h)
}

#[derive(Clone)]
struct Job {
    withdraw: bool,
    net: Network,
    key: SecretKey,
    drawee: SecretKey,
    payee: bdk::bitcoin::Address,
    sbtc: bdk::bitcoin::Address,
    recipient_text: String,
    recipient_wire: Vec<u8>,
    amount: u64,
    fee: u64,
    /// bech32 addresses in capitals, as QR codes carry them
    capitals: bool,
}
fn job(r: &mut StdRng, withdraw: bool) -> Job {
    let net = NETWORKS[r.gen_range(0..4)];
    let p = principal(r);
    let sbtc = btc_addr(r, net);
    let lo = dust(&sbtc.script_pubkey());
    let amt = |r: &mut StdRng, lo: u64| match r.gen_range(0..5) {
        0 => lo,
        1 => lo + r.gen_range(0..2000),
        2 => r.gen_range(lo..2_000_000_000),
        3 => (1u64 << r.gen_range(10..41)).max(lo),
        _ => r.gen_range(lo..200_000_000),
    };
    Job {
        withdraw,
        net,
        key: gen::secret(r),
        drawee: gen::secret(r),
        payee: btc_addr(r, net),
        amount: if withdraw { gen::u64s(r) } else { amt(r, lo) },
        fee: amt(r, lo),
        sbtc,
        recipient_text: p.text,
        recipient_wire: p.wire,
        capitals: r.gen_ratio(1, 4),
    }
}
impl Job {
    fn shown(&self, a: &bdk::bitcoin::Address) -> String {
        let t = a.to_string();
        if self.capitals && matches!(a.payload, bdk::bitcoin::util::address::Payload::WitnessProgram { .. }) {
            t.to_ascii_uppercase()
        } else {
            t
        }
    }
    fn need(&self) -> u64 {
        if self.withdraw {
            self.fee + dust(&self.payee.script_pubkey())
        } else {
            self.amount
        }
    }
    fn args(&self, url: &str) -> Vec<String> {
        let mut a = vec![s(if self.withdraw { "withdraw" } else { "deposit" }), s("-u"), s(url), s("-n"), s(net_name(self.net)), s("-w"), wif_of(&self.key, self.net)];
        if self.withdraw {
            a.extend([s("-d"), wif_of(&self.drawee, self.net), s("-b"), self.shown(&self.payee), s("-f"), self.fee.to_string()]);
        } else {
            a.extend([s("-r"), self.recipient_text.clone()]);
        }
        a.extend([s("-a"), self.amount.to_string(), s("-s"), self.shown(&self.sbtc)]);
        a
    }
    /// the transaction is the requested operation, funded by `utxos`
    fn judge(&self, utxos: &HashMap<OutPoint, TxOut>, tx: &Transaction) -> CaseResult {
        let script = p2wpkh(&self.key);
        let f = Funded {
            wallet: dummy_wallet(self.net, &self.key)?,
            utxos: utxos.clone(),
            scripts: HashSet::from([script]),
            kind: "cli",
            network: self.net,
            total: utxos.values().map(|o| o.value).sum(),
        };
        check!(tx.output.len() >= 2, "outputs", "{} outputs", tx.output.len());
        let mut data = magic(self.net).to_vec();
        if !self.withdraw {
            data.push(b'<');
            data.extend(&self.recipient_wire);
            judge(&f, tx, &[(op_return(&data), 0), (self.sbtc.script_pubkey(), self.amount)])?;
            return Ok(());
        }
        data.push(b'>');
        data.extend(self.amount.to_be_bytes());
        let b = tx.output[0].script_pubkey.as_bytes();
        check!(b.len() == 79 && b[..3] == [0x6a, 0x4c, 76] && b[3..14] == data[..], "data", "data output {b:02x?}, expected a push starting {data:02x?}");
        let sig = &b[14..79];
        let digest = withdrawal_digest(self.amount, self.payee.script_pubkey().as_bytes(), self.net).ok_or_else(|| harness("digest"))?;
        let key = bdk::bitcoin::secp256k1::ecdsa::RecoveryId::from_i32(sig[0] as i32)
            .and_then(|id| bdk::bitcoin::secp256k1::ecdsa::RecoverableSignature::from_compact(&sig[1..], id))
            .and_then(|x| Secp256k1::new().recover_ecdsa(&bdk::bitcoin::secp256k1::Message::from_slice(&digest).unwrap(), &x))
            .map_err(|e| viol("drawee", format!("signature does not recover: {e}")))?;
        check_eq!(key, PublicKey::from_secret_key(&Secp256k1::new(), &self.drawee), "drawee", "key recovered from the request");
        data.extend(sig);
        judge(
            &f,
            tx,
            &[(op_return(&data), 0), (self.payee.script_pubkey(), dust(&self.payee.script_pubkey())), (self.sbtc.script_pubkey(), self.fee)],
        )?;
        // the library reads the request back, attributed to the drawee
        let p = total("try_parse_withdrawal_request", || {
            sbtc_core_parse(self.net, tx.clone())
        })?;
        let mut want = vec![if self.net == Network::Bitcoin { 22 } else { 26 }];
        want.extend(refs::hash160(&pk(&self.drawee.secret_bytes())));
        check_eq!(p, Some(want), "drawee", "drawee address parsed from the request");
        Ok(())
    }
}
fn sbtc_core_parse(n: Network, tx: Transaction) -> Option<Vec<u8>> {
    libcheck::ops::parsed_drawee(n, tx)
}

fn build_case(c: &mut Case, withdraw: bool) -> CaseResult {
    let j = job(&mut c.rng, withdraw);
    let values = coins(&mut c.rng, j.need(), true);
    let (chain, utxos) = chain_for(&mut c.rng, &p2wpkh(&j.key), &values);
    let srv = Server::start(chain, Fault::None, 0).map_err(harness)?;
    let o = run_tool(&j.args(&srv.url()))?;
    let log = srv.requests();
    c.count_n("server_requests", log.len() as u64);
    no_broadcast(&log)?;
    if log.is_empty() && !o.ok && o.stderr.contains("onnect") {
        return Err(harness(format!("the tool could not reach the mock server: {}", o.stderr)));
    }
    check!(o.ok, "refused", "a key holding {values:?} could not fund {} on {}: {}", j.need(), j.net, o.stderr);
    let tx = printed_tx(&o)?;
    j.judge(&utxos, &tx)?;
    c.count("built");
    c.nontrivial((j.amount, j.fee, j.recipient_wire.clone(), j.sbtc.to_string(), net_name(j.net)));
    c.sample(|| json!({"args": j.args(&srv.url()), "txid": tx.txid().to_string(), "server_requests": log.len()}));
    Ok(())
}
fn set(a: &mut [String], opt: &str, v: &str) {
    let i = a.iter().position(|x| x == opt).unwrap();
    a[i + 1] = s(v);
}
fn garble(r: &mut StdRng, t: &str) -> String {
    let mut b: Vec<char> = t.chars().collect();
    let i = r.gen_range(2..b.len());
    match r.gen_range(0..4) {
        0 => {
            b.truncate(i.max(b.len() - 3) - 1);
        }
        1 => b.insert(i, '0'),
        2 => b[i] = '~',
        _ => b[i] = if b[i] == 'q' { 'p' } else { 'q' },
    }
    b.into_iter().collect()
}
fn bad_case(c: &mut Case, withdraw: bool) -> CaseResult {
    let mut j = job(&mut c.rng, withdraw);
    let mut enough = true;
    let kinds = if withdraw { 12 } else { 11 };
    let kind = c.rng.gen_range(0..kinds);
    let lo = dust(&j.sbtc.script_pubkey());
    let what: &'static str = match kind {
        0 => "below dust",
        1 => {
            enough = false;
            "insufficient funds"
        }
        2 => "corrupt WIF",
        3 => "WIF of another network",
        4 => "corrupt sBTC address",
        5 => if withdraw { "corrupt payee" } else { "corrupt recipient" },
        6 => "amount is not a number",
        7 => "unknown network",
        8 => "missing option",
        9 => "negative amount",
        10 => "empty wallet",
        _ => "corrupt drawee WIF",
    };
    if kind == 0 {
        let v = if c.rng.gen_bool(0.4) { lo - 1 } else { c.rng.gen_range(0..lo) };
        if withdraw {
            j.fee = v
        } else {
            j.amount = v
        }
    }
    if kind == 1 && j.need() < 3000 {
        if withdraw {
            j.fee = 50_000
        } else {
            j.amount = 50_000
        }
    }
    let values = match kind {
        10 => vec![],
        // exactly the amount, without a fee
        1 if c.rng.gen_bool(0.4) => vec![j.need()],
        _ => coins(&mut c.rng, j.need(), enough),
    };
    let (chain, _) = chain_for(&mut c.rng, &p2wpkh(&j.key), &values);
    let srv = Server::start(chain, Fault::None, 0).map_err(harness)?;
    let mut a = j.args(&srv.url());
    let r = &mut c.rng;
    match kind {
        2 => {
            let w = garble(r, &wif_of(&j.key, j.net));
            set(&mut a, "-w", &w)
        }
        3 => set(&mut a, "-w", &wif_of(&j.key, if j.net == Network::Bitcoin { Network::Testnet } else { Network::Bitcoin })),
        4 => {
            let t = garble(r, &j.sbtc.to_string());
            set(&mut a, "-s", &t)
        }
        5 if withdraw => {
            let t = garble(r, &j.payee.to_string());
            set(&mut a, "-b", &t)
        }
        5 => {
            let base = j.recipient_text.split('.').next().unwrap().to_string();
            let t = match r.gen_range(0..4) {
                0 => format!("{base}.1name"),
                1 => format!("{base}.{}", "a".repeat(41)),
                2 => format!("{base}.a.b"),
                _ => {
                    let i = r.gen_range(2..base.len());
                    let mut b: Vec<char> = base.chars().collect();
                    b[i] = if b[i] == 'Z' { 'Y' } else { 'Z' };
                    b.into_iter().collect()
                }
            };
            set(&mut a, "-r", &t)
        }
        6 => set(&mut a, "-a", *["12x", "1.5", "", "18446744073709551616", "0x10"].choose(r).unwrap()),
        7 => set(&mut a, "-n", *["main", "testnet3", "", "mocknet"].choose(r).unwrap()),
        8 => {
            let opts: Vec<usize> = a.iter().enumerate().filter(|x| x.1.len() == 2 && x.1.starts_with('-')).map(|x| x.0).collect();
            let i = *opts.choose(r).unwrap();
            a.drain(i..i + 2);
        }
        9 => set(&mut a, "-a", "-5"),
        11 => {
            let w = garble(r, &wif_of(&j.drawee, j.net));
            set(&mut a, "-d", &w)
        }
        _ => {}
    }
    // a garbled text may by chance still be valid (checksums make that negligible)
    let o = run_tool(&a)?;
    no_broadcast(&srv.requests())?;
    no_result(&o, &format!("{what}: {}", a.join(" ")))?;
    c.count("refused");
    c.count(match kind {
        0 => "refused_below_dust",
        1 | 10 => "refused_insufficient_funds",
        _ => "refused_bad_argument",
    });
    c.nontrivial(a);
    Ok(())
}
fn fault_case(c: &mut Case, withdraw: bool) -> CaseResult {
    let j = job(&mut c.rng, withdraw);
    let values = coins(&mut c.rng, j.need(), true);
    let (chain, utxos) = chain_for(&mut c.rng, &p2wpkh(&j.key), &values);
    let k = c.rng.gen_range(0..6);
    if c.idx % 8 == 7 {
        let srv = Server::start(chain, Fault::None, usize::MAX).map_err(harness)?;
        fails_on_full_output(&j.args(&srv.url()))?;
        no_broadcast(&srv.requests())?;
        c.count("output_not_writable");
        return Ok(());
    }
    let kind = c.idx % 8;
    let fault = match kind {
        0 | 5 => Fault::CloseAt(k),
        1 | 6 => Fault::ErrorAt(k),
        2 => Fault::GarbageAt(k),
        3 => Fault::WrongTypeAt(k),
        _ => Fault::None,
    };
    // kinds 5 and 6 recover after the first connection
    let transient = kind >= 5;
    let srv = Server::start(chain, fault.clone(), if transient { 1 } else { usize::MAX }).map_err(harness)?;
    let url = if kind == 4 { s("tcp://127.0.0.1:1") } else { srv.url() };
    let o = run_tool(&j.args(&url))?;
    let log = srv.requests();
    no_broadcast(&log)?;
    let what = format!("{fault:?} transient={transient} after {} requests", log.len());
    if kind == 4 {
        no_result(&o, "unreachable server")?;
        c.count("unreachable");
    } else if o.ok {
        check!(transient || log.len() <= k, "no-failure", "{what}: the command reported success");
        let tx = printed_tx(&o)?;
        j.judge(&utxos, &tx)?;
        c.count("recovered");
    } else {
        no_result(&o, &what)?;
        c.count("failed_cleanly");
    }
    c.nontrivial((what, k, kind));
    Ok(())
}
fn builds(run: &mut Run, withdraw: bool) {
    run.require("built", 60);
    run.require("refused_bad_argument", 30);
    run.require("refused_insufficient_funds", 8);
    run.require("failed_cleanly", 8);
    let n = run.n(400, 12_000);
    run.stream("build", n, move |c| build_case(c, withdraw));
    let n = run.n(400, 8_000);
    run.stream("bad-requests", n, move |c| bad_case(c, withdraw));
    let n = run.n(32, 240);
    run.set_threads(32);
    run.stream("server-faults", n, move |c| fault_case(c, withdraw));
}

fn any_tx(r: &mut StdRng) -> Transaction {
    let ni = r.gen_range(1..=4);
    let no = r.gen_range(1..=5);
    let segwit = r.gen_bool(0.6);
    let mut bytes = |r: &mut StdRng, lo: usize, hi: usize| {
        let n = r.gen_range(lo..hi);
        let mut v = vec![0u8; n];
        r.fill_bytes(&mut v);
        v
    };
    let mut input = vec![];
    for _ in 0..ni {
        let t: [u8; 32] = bytes(r, 32, 33).try_into().unwrap();
        let mut w = Witness::new();
        if segwit {
            for _ in 0..r.gen_range(0..3) {
                let b = bytes(r, 0, 110);
                w.push(b);
            }
        }
        use bdk::bitcoin::hashes::Hash;
        let sig = bytes(r, 0, 120);
        input.push(TxIn {
            previous_output: OutPoint { txid: bdk::bitcoin::Txid::from_inner(t), vout: r.gen_range(0..5) },
            script_sig: Script::from(sig),
            sequence: Sequence(*[0, 1, u32::MAX, u32::MAX - 1, r.gen()].choose(r).unwrap()),
            witness: w,
        });
    }
    if segwit && input.iter().all(|i| i.witness.is_empty()) {
        input[0].witness.push([1u8, 2]);
    }
    let output = (0..no)
        .map(|_| {
            let big = if r.gen_ratio(1, 10) { 400 } else { 60 };
            TxOut { value: gen::u64s(r), script_pubkey: Script::from(bytes(r, 0, big)) }
        })
        .collect();
    Transaction { version: *[1, 2, -1, r.gen()].choose(r).unwrap(), lock_time: PackedLockTime(*[0, 500_000_000, r.gen()].choose(r).unwrap()), input, output }
}
fn sent(log: &[(String, Value)]) -> Vec<String> {
    log.iter().filter(|r| r.0 == "blockchain.transaction.broadcast").map(|r| r.1[0].as_str().unwrap_or("?").to_ascii_lowercase()).collect()
}
const REFUSALS: [&str; 34] = [
    "txn-mempool-conflict", "txn-already-in-mempool", "txn-already-known", "Transaction already in block chain", "transaction already in block chain",
    "Transaction already in mempool", "Transaction outputs already in utxo set", "insufficient fee, rejecting replacement", "mempool min fee not met",
    "min relay fee not met", "mempool full", "too-long-mempool-chain", "bad-txns-inputs-missingorspent", "Missing inputs", "missing-inputs", "dust",
    "scriptpubkey", "scriptsig-not-pushonly", "tx-size", "tx-size-small", "non-final", "non-BIP68-final", "coinbase", "version",
    "non-mandatory-script-verify-flag (Witness program hash mismatch)", "mandatory-script-verify-flag-failed", "absurdly-high-fee",
    "Fee exceeds maximum configured by user (e.g. -maxtxfee, maxfeerate)", "TX decode failed", "bad-txns-vout-negative", "Loading block index...",
    "Verifying blocks...", "excessive resource usage", "server busy - request timed out",
];

fn c24(run: &mut Run) {
    run.require("refusals", 300);
    run.require("broadcast", 80);
    run.require("malformed_refused", 80);
    run.require("server_failure", 6);
    run.assume("a resend by the Electrum client library after a lost connection is tolerated as long as the bytes are the same");
    let n = run.n(500, 20_000);
    run.stream("valid", n, |c| {
        let tx = any_tx(&mut c.rng);
        let h = hex::encode(serialize(&tx));
        let arg = if c.rng.gen_ratio(1, 5) { h.to_ascii_uppercase() } else { h.clone() };
        let srv = Server::start(Chain::default(), Fault::None, 0).map_err(harness)?;
        let o = run_tool(&[s("broadcast"), srv.url(), arg])?;
        let log = srv.requests();
        check!(o.ok, "refused", "broadcasting {h} failed: {}", o.stderr);
        check_eq!(sent(&log), vec![h.clone()], "bytes", "transactions sent for {h}");
        let v: Value = serde_json::from_str(&o.stdout).map_err(|e| viol("output", format!("{e}: {:?}", o.stdout)))?;
        check_eq!(v.as_str().map(s), Some(txid_of(&tx)), "txid", "printed id for {h}");
        c.count("broadcast");
        c.count_n("server_requests", log.len() as u64);
        c.nontrivial(&h);
        c.sample(|| json!({"tx": h, "printed": v}));
        Ok(())
    });
    let n = run.n(500, 20_000);
    run.stream("malformed", n, |c| {
        let tx = any_tx(&mut c.rng);
        let h = hex::encode(serialize(&tx));
        let srv = Server::start(Chain::default(), Fault::None, 0).map_err(harness)?;
        let mut url = srv.url();
        let r = &mut c.rng;
        let arg = match r.gen_range(0..8) {
            0 => h[..r.gen_range(0..h.len())].to_string(),
            1 => format!("{h}{:02x}", r.gen::<u8>()),
            2 => format!("{h}0"),
            3 => format!("0x{h}"),
            4 => {
                let i = r.gen_range(0..h.len());
                format!("{}g{}", &h[..i], &h[i + 1..])
            }
            5 => {
                let mut v = vec![0u8; r.gen_range(0..200)];
                r.fill_bytes(&mut v);
                hex::encode(v)
            }
            6 => {
                url = s(*["not a url", "", "127.0.0.1", "tcp//x"].choose(r).unwrap());
                h.clone()
            }
            _ => format!("{h}{h}"),
        };
        let valid = hex::decode(&arg).ok().and_then(|b| deserialize::<Transaction>(&b).ok()).is_some();
        if valid && url == srv.url() {
            return Ok(());
        }
        let o = run_tool(&[s("broadcast"), url, arg.clone()])?;
        check!(sent(&srv.requests()).is_empty(), "sent-malformed", "{arg:?} made the command send {:?}", sent(&srv.requests()));
        no_result(&o, &format!("malformed transaction {arg:?}"))?;
        c.count("malformed_refused");
        c.nontrivial(arg);
        Ok(())
    });
    // what real servers answer when they will not take a transaction
    let n = run.n(400, 8000);
    run.stream("refusals", n, |c| {
        let tx = any_tx(&mut c.rng);
        let h = hex::encode(serialize(&tx));
        let why = *REFUSALS.choose(&mut c.rng).unwrap();
        let code = *[-32600, -32603, -32601, 1, 2, -22, -25, -26, -27, -28, 0, -1, -5, -8, -9, -10, -20, 400, 429, 503].choose(&mut c.rng).unwrap();
        let text = match c.rng.gen_range(0..4) {
            0 => s(why),
            1 => format!("sendrawtransaction RPC error: {{\"code\":{code},\"message\":\"{why}\"}}"),
            2 => format!("the transaction was rejected by network rules.\n\n{why}\n[{h}]"),
            _ => format!("daemon error: DaemonError({{'code': {code}, 'message': '{why}'}})"),
        };
        let e = match c.rng.gen_range(0..3) {
            0 => json!(text),
            1 => json!({"message": text}),
            _ => json!({"code": code, "message": text}),
        };
        let srv = Server::start(Chain::default(), Fault::ErrorWith(e.clone()), usize::MAX).map_err(harness)?;
        let o = run_tool(&[s("broadcast"), srv.url(), h.clone()])?;
        no_result(&o, &format!("server answered {e}"))?;
        check_eq!(sent(&srv.requests()), vec![h.clone()], "repeated", "transactions sent to a server that refuses them with {e}");
        c.count("refusals");
        c.nontrivial((h, e.to_string()));
        Ok(())
    });
    let n = run.n(42, 420);
    run.set_threads(42);
    run.stream("server-faults", n, |c| {
        let tx = any_tx(&mut c.rng);
        let h = hex::encode(serialize(&tx));
        let kind = c.idx % 7;
        let fault = match kind {
            0 => Fault::ErrorAt(0),
            1 => Fault::CloseAt(0),
            2 => Fault::GarbageAt(0),
            3 => Fault::WrongTypeAt(0),
            4 | 6 => Fault::SwallowAt(0),
            _ => Fault::None,
        };
        // kind 6: the server comes back after the first connection
        let srv = Server::start(Chain::default(), fault.clone(), if kind == 6 { 1 } else { usize::MAX }).map_err(harness)?;
        let url = if kind == 5 { s("tcp://127.0.0.1:1") } else { srv.url() };
        let o = run_tool(&[s("broadcast"), url, h.clone()])?;
        let got = sent(&srv.requests());
        check!(got.iter().all(|x| *x == h), "bytes", "sent {got:?} for {h}");
        if kind == 6 {
            if o.ok {
                check_eq!(o.stdout.trim().trim_matches('"'), txid_of(&tx), "txid", "printed id");
                c.count("recovered");
            } else {
                no_result(&o, "lost connection")?;
                c.count("server_failure");
            }
        } else {
            no_result(&o, &format!("{fault:?} (kind {kind})"))?;
            if kind == 0 {
                check_eq!(got.len(), 1, "repeated", "times a refused transaction was sent");
            }
            c.count("server_failure");
        }
        c.nontrivial((h, kind));
        Ok(())
    });
}

fn field<'a>(v: &'a Value, path: &[&str]) -> Result<&'a str, Stop> {
    let mut x = v;
    for p in path {
        x = &x[*p];
    }
    x.as_str().ok_or_else(|| viol("output", format!("no field {path:?} in {v}")))
}
/// every credential in the output against the standard derivations of the mnemonic it prints
fn judge_credentials(v: &Value, main: bool, net: Network, accounts: usize) -> Result<String, Stop> {
    let m = field(v, &["mnemonic"])?.to_string();
    let words: Vec<&str> = m.split(' ').collect();
    check!(mnemonic_ok(&words), "mnemonic", "printed mnemonic {m:?} is invalid");
    let seed = seed_of(&m);
    let master = derive(&seed, &[]);
    check_eq!(field(v, &["private_key"])?, hex::encode(master), "master", "master key of {m}");
    check_eq!(field(v, &["wif"])?, refs::wif(main, &master).1, "master", "master WIF of {m}");
    check_eq!(field(v, &["network_stacks"])?, if main { "mainnet" } else { "testnet" }, "network", "Stacks network");
    check_eq!(field(v, &["network_bitcoin"])?, net_name(net), "network", "Bitcoin network");
    let creds = v["credentials"].as_object().ok_or_else(|| viol("output", "no credentials"))?;
    check_eq!(creds.len(), accounts, "accounts", "number of accounts");
    const H: u32 = 1 << 31;
    for i in 0..accounts {
        let a = creds.get(&i.to_string()).ok_or_else(|| viol("output", format!("no account {i}")))?;
        let k = derive(&seed, &[H + 44, H + 5757, H, 0, i as u32]);
        let st = |f: &str| field(a, &["stacks", f]);
        check_eq!(st("private_key")?, hex::encode(k), "stacks", "Stacks key {i} of {m}");
        check_eq!(st("public_key")?, hex::encode(pk(&k)), "stacks", "Stacks public key {i} of {m}");
        check_eq!(st("wif")?, refs::wif(main, &k).1, "stacks", "Stacks WIF {i} of {m}");
        check_eq!(st("address")?, refs::stacks_address(if main { 22 } else { 26 }, &refs::hash160(&pk(&k))), "stacks", "Stacks address {i} of {m}");
        for (name, purpose) in [("p2pkh", 44), ("p2wpkh", 84), ("p2tr", 86)] {
            let r = btc_ref(&seed, net, purpose, i as u32);
            let bt = |f: &str| field(a, &["bitcoin", name, f]);
            check_eq!(bt("private_key")?, hex::encode(r.key), "bitcoin", "{name} key {i} of {m}");
            check_eq!(bt("public_key")?, hex::encode(pk(&r.key)), "bitcoin", "{name} public key {i} of {m}");
            check_eq!(bt("wif")?, refs::wif(net == Network::Bitcoin, &r.key).1, "bitcoin", "{name} WIF {i} of {m}");
            check_eq!(bt("address")?, r.address, "bitcoin", "{name} address {i} of {m} on {net}");
        }
    }
    Ok(m)
}
fn c21(run: &mut Run) {
    run.require("mnemonic_runs", 60);
    run.require("random_runs", 60);
    run.require("refused", 60);
    let opts = |r: &mut StdRng, a: &mut Vec<String>| -> (bool, Network, usize) {
        let (mut main, mut net, mut accounts) = (true, Network::Bitcoin, 1);
        if r.gen_bool(0.7) {
            main = r.gen();
            a.extend([s("-s"), s(if main { "mainnet" } else { "testnet" })]);
        }
        if r.gen_bool(0.7) {
            net = *NETWORKS.choose(r).unwrap();
            a.extend([s("-b"), s(net_name(net))]);
        }
        if r.gen_bool(0.7) {
            accounts = *[0usize, 1, 2, 3, 11, 12, 23].choose(r).unwrap();
            if r.gen_bool(0.03) {
                accounts = *[128usize, 257, 300, 520].choose(r).unwrap();
            }
            a.extend([s("-a"), accounts.to_string()]);
        }
        (main, net, accounts)
    };
    let parse = |o: &Out| -> Result<Value, Stop> {
        check!(o.ok, "refused", "valid request failed: {}", o.stderr);
        serde_json::from_str(&o.stdout).map_err(|e| viol("output", format!("{e}: {:?}", o.stdout)))
    };
    let n = run.n(260, 8_000);
    run.stream("generate", n, |c| {
        let mut a = vec![s("generate-from")];
        let (main, net, accounts) = opts(&mut c.rng, &mut a);
        if c.idx % 16 == 15 {
            a.push(s("new"));
            fails_on_full_output(&a)?;
            c.count("output_not_writable");
            return Ok(());
        }
        let base = a.clone();
        let given = c.rng.gen_bool(0.5).then(|| mnemonic(&mut c.rng));
        match &given {
            Some(m) => a.extend([s("mnemonic"), m.clone()]),
            None => a.push(s("new")),
        }
        let v = parse(&run_tool(&a)?)?;
        let m = judge_credentials(&v, main, net, accounts)?;
        if let Some(g) = &given {
            check_eq!(&m, g, "mnemonic", "printed mnemonic");
        } else {
            check_eq!(m.split(' ').count(), 24, "mnemonic", "words of a new mnemonic");
        }
        // re-importing what was printed gives the same credentials
        let mut again = base;
        again.extend([s("mnemonic"), m.clone()]);
        let w = parse(&run_tool(&again)?)?;
        check_eq!(w, v, "reimport", "output for the printed mnemonic {m}");
        c.count(if given.is_some() { "mnemonic_runs" } else { "random_runs" });
        c.count_n("accounts_checked", accounts as u64);
        c.nontrivial((m.clone(), main, net_name(net), accounts));
        c.sample(|| json!({"args": a, "mnemonic": m}));
        Ok(())
    });
    let n = run.n(400, 10_000);
    run.stream("invalid", n, |c| {
        let r = &mut c.rng;
        let m = mnemonic(r);
        let mut w: Vec<String> = m.split(' ').map(s).collect();
        let mut a = vec![s("generate-from")];
        let kind = r.gen_range(0..9);
        match kind {
            0 => a.extend([s("-s"), s(*["bitcoin", "devnet", "", "Main net"].choose(r).unwrap())]),
            1 => a.extend([s("-b"), s(*["mainnet1", "main net", "", "testnet4x"].choose(r).unwrap())]),
            2 => a.extend([s("-a"), s(*["-1", "x", "", "1.0", "99999999999999999999999"].choose(r).unwrap())]),
            3 => {
                let i = r.gen_range(0..w.len());
                w[i] = s("zzzz");
            }
            4 => {
                w.pop();
            }
            5 => w.push(s("about")),
            6 => {
                let l = bdk::keys::bip39::Language::English.word_list();
                let i = r.gen_range(0..w.len());
                w[i] = l.choose(r).unwrap().to_string();
            }
            7 => {
                w.clear();
            }
            _ => {}
        }
        let bad = kind <= 2 || kind == 8 || {
            let v: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
            !mnemonic_ok(&v)
        };
        match kind {
            8 => a.push(s(*["mnemonic", "old", ""].choose(r).unwrap())),
            0..=2 if r.gen_bool(0.5) => a.push(s("new")),
            _ => a.extend([s("mnemonic"), w.join(" ")]),
        }
        if !bad {
            return Ok(());
        }
        let o = run_tool(&a)?;
        no_result(&o, &format!("invalid request {a:?}"))?;
        check!(!o.stdout.contains("mnemonic") && !o.stdout.contains("private_key"), "credentials-on-failure", "{a:?} printed {:?}", o.stdout);
        c.count("refused");
        c.nontrivial(a);
        Ok(())
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let (rule, f): (&str, fn(&mut Run)) = match id.as_str() {
        "C21" => ("the tool run as a process on random networks, account counts and mnemonics, and on invalid input; non-trivial = distinct (mnemonic, networks, accounts) or argument list", c21),
        "C22" => ("deposit run as a process against a loopback Electrum server with random coins, bad requests and server faults; non-trivial = distinct request", |r| builds(r, false)),
        "C23" => ("withdraw run as a process against a loopback Electrum server with random coins, bad requests and server faults; non-trivial = distinct request", |r| builds(r, true)),
        "C24" => ("broadcast run as a process on random, malformed transactions and failing servers; non-trivial = distinct transaction text", c24),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(4)
        }
    };
    let mut run = Run::from_env(&id, "exploration", rule);
    f(&mut run);
    std::process::exit(run.finish());
}
