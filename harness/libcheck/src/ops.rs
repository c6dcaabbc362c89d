//! C01-C07: op_return operations of sbtc-core.
use bdk::bitcoin::{
    blockdata::{opcodes, script::Builder},
    secp256k1::{
        ecdsa::{RecoverableSignature, RecoveryId},
        Message, PublicKey, Secp256k1, SecretKey,
    },
    Address as BtcAddress, Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Witness,
};
use mon::{check, check_eq, harness, json, total, viol, Case, CaseResult, Run, Stop};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore};
use sbtc_core::operations::op_return::{
    deposit::{build_deposit_transaction, Deposit, DepositOutputData},
    utils::reorder_outputs,
    withdrawal_fulfillment::{self as wf, build_withdrawal_fulfillment_tx, ParsedWithdrawalFulfillmentData},
    withdrawal_request::{self as wr, build_withdrawal_tx, try_parse_withdrawal_request, WithdrawalRequestDataOutputData},
};
use stacks_core::{codec::Codec, uint::Uint256, BlockId};

use crate::{
    btc::{coins, funded, judge},
    gen::*,
};

pub fn op_return(data: &[u8]) -> Script {
    let mut s = vec![0x6a];
    push(&mut s, data);
    Script::from(s)
}
/// canonical data push
pub fn push(s: &mut Vec<u8>, data: &[u8]) {
    match data.len() {
        0..=75 => s.push(data.len() as u8),
        76..=255 => s.extend([0x4c, data.len() as u8]),
        256..=65535 => {
            s.push(0x4d);
            s.extend((data.len() as u16).to_le_bytes());
        }
        n => {
            s.push(0x4e);
            s.extend((n as u32).to_le_bytes());
        }
    }
    s.extend(data);
}
fn hrp(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "bc",
        Network::Regtest => "bcrt",
        _ => "tb",
    }
}
/// address text of a standard output script, independent of the library
pub fn addr_text(script: &[u8], n: Network) -> Option<String> {
    let main = n == Network::Bitcoin;
    if script.len() == 25 && script[..3] == [0x76, 0xa9, 0x14] && script[23..] == [0x88, 0xac] {
        return Some(refs::b58check(if main { 0 } else { 0x6f }, &script[3..23]));
    }
    if script.len() == 23 && script[..2] == [0xa9, 0x14] && script[22] == 0x87 {
        return Some(refs::b58check(if main { 5 } else { 0xc4 }, &script[2..22]));
    }
    if (4..=42).contains(&script.len()) && (script[0] == 0 || (0x51..=0x60).contains(&script[0])) && script[1] as usize + 2 == script.len() {
        let v = if script[0] == 0 { 0 } else { script[0] - 0x50 };
        if v == 0 && script.len() != 22 && script.len() != 34 {
            return None;
        }
        return Some(refs::segwit_address(hrp(n), v, &script[2..]));
    }
    None
}
/// the signed-message digest, written out from the documentation
pub fn withdrawal_digest(amount: u64, script: &[u8], n: Network) -> Option<[u8; 32]> {
    let addr = addr_text(script, n)?;
    let mut hexed = String::new();
    for b in amount.to_be_bytes().iter().chain(script) {
        hexed.push_str(&format!("{b:02x}"));
    }
    let text = format!("Withdraw request for {amount} satoshis to the bitcoin address {addr} ({hexed})");
    if text.len() > 252 {
        return None;
    }
    let mut m = vec![23u8];
    m.extend(b"Stacks Signed Message:\n");
    m.push(text.len() as u8);
    m.extend(text.as_bytes());
    Some(refs::sha256(&m))
}
fn single_sig_wire(pk: &PublicKey, n: Network) -> Vec<u8> {
    let mut w = vec![if n == Network::Bitcoin { 22 } else { 26 }];
    w.extend(refs::hash160(&pk.serialize()));
    w
}
fn amount_for(r: &mut StdRng, lo: u64) -> u64 {
    match r.gen_range(0..8) {
        0 => lo,
        1 => lo + 1,
        2 => lo + r.gen_range(0..1000),
        3 => r.gen_range(lo..lo + 100_000_000),
        4 => r.gen_range(lo..2_000_000_000_000_000),
        5 => (1u64 << r.gen_range(10..50)).max(lo),
        6 => *[256u64, 65_535, 65_536, 16_777_216, 4_294_967_295, 4_294_967_296].choose(r).unwrap().max(&lo),
        _ => r.gen_range(lo..lo + 5_000_000),
    }
}
fn own_or(r: &mut StdRng, n: Network) -> BtcAddress {
    btc_addr(r, n)
}

/// One deposit: build, judge, parse. `deep` also judges signatures and change.
fn deposit_case(c: &mut Case) -> CaseResult {
    let n = NETWORKS[c.rng.gen_range(0..4)];
    let p = principal(&mut c.rng);
    let addr = own_or(&mut c.rng, n);
    let lo = dust(&addr.script_pubkey());
    let mode = c.rng.gen_range(0..10);
    let amount = match mode {
        0 if c.rng.gen_bool(0.5) => lo - 1,
        0 => c.rng.gen_range(0..lo),
        _ => amount_for(&mut c.rng, lo),
    };
    let enough = mode != 1;
    let coin_values = coins(&mut c.rng, amount, enough);
    let f = funded(&mut c.rng, n, &coin_values)?;
    let fd = funded_view(&f);
    let kind = f.kind;
    let prin = p.data.clone();
    let a2 = addr.clone();
    let crate::btc::Funded { wallet, .. } = f;
    let got = total("build_deposit_transaction", || build_deposit_transaction(wallet, prin, a2, amount, n))?;
    c.nontrivial((n.magic(), p.wire.clone(), amount, addr.script_pubkey().to_bytes()));
    if amount < lo {
        c.count("below_dust_refused");
        check!(got.is_err(), "below-dust", "{amount} sat to {addr} is below dust {lo} but a transaction was built");
        return Ok(());
    }
    if fd.total <= amount {
        c.count("unfunded_refused");
        check!(got.is_err(), "unfunded", "wallet holds {} but a deposit of {amount} was built", fd.total);
        return Ok(());
    }
    let tx = match got {
        Ok(t) => t,
        Err(e) => {
            check!(!enough, "refused", "{kind} wallet holding {} could not deposit {amount} to {addr}: {e}", fd.total);
            return Ok(());
        }
    };
    c.count("built");
    let mut data = magic(n).to_vec();
    data.push(b'<');
    data.extend(&p.wire);
    judge(&fd, &tx, &[(op_return(&data), 0), (addr.script_pubkey(), amount)])?;
    c.count(match p.wire[0] {
        5 => "recipient_standard",
        _ => "recipient_contract",
    });
    let parsed = total("Deposit::parse", || Deposit::parse(n, tx.clone()))?
        .map_err(|e| viol("parse-refused", format!("built deposit does not parse: {e}")))?;
    check_eq!(parsed.amount, amount, "parse-amount", "deposit amount");
    check_eq!(parsed.recipient.serialize_to_vec(), p.wire, "parse-recipient", "deposit recipient");
    check_eq!(parsed.recipient, p.data, "parse-recipient", "deposit recipient value");
    check_eq!(parsed.sbtc_wallet_address.script_pubkey(), addr.script_pubkey(), "parse-address", "sbtc address");
    check_eq!(parsed.sbtc_wallet_address.to_string(), addr_text(addr.script_pubkey().as_bytes(), n).unwrap(), "parse-address", "sbtc address text");
    check_eq!(parsed.network, n, "parse-network", "network");
    // the same parse after a trip through the wire
    let again: Transaction = bdk::bitcoin::consensus::deserialize(&bdk::bitcoin::consensus::serialize(&tx)).map_err(harness)?;
    check_eq!(again, tx, "serialize", "transaction survives serialization");
    let data_out = DepositOutputData::codec_deserialize(&mut &data[..]).map_err(|e| viol("data-decode", format!("{e}")))?;
    check_eq!(data_out.serialize_to_vec(), data, "data-encode", "deposit data re-encodes");
    c.sample(|| json!({"network": n.to_string(), "recipient": p.text, "amount": amount, "to": addr.to_string(), "txid": tx.txid().to_string()}));
    Ok(())
}
/// the parts of a funded wallet needed after the wallet itself was consumed
fn funded_view(f: &crate::btc::Funded) -> crate::btc::Funded {
    crate::btc::Funded {
        wallet: bdk::Wallet::new(
            "wpkh(0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798)",
            None,
            f.network,
            bdk::database::MemoryDatabase::default(),
        )
        .unwrap(),
        utxos: f.utxos.clone(),
        scripts: f.scripts.clone(),
        kind: f.kind,
        network: f.network,
        total: f.total,
    }
}

fn synced_deposit_case(c: &mut Case, srv: &crate::electrum::Server) -> CaseResult {
    let n = NETWORKS[c.rng.gen_range(0..4)];
    let key = bdk::bitcoin::PrivateKey { compressed: true, network: n, inner: secret(&mut c.rng) };
    let mut wpkh = vec![0, 20];
    wpkh.extend(refs::hash160(&PublicKey::from_secret_key(&Secp256k1::new(), &key.inner).serialize()));
    let own = Script::from(wpkh);
    let p = principal(&mut c.rng);
    let addr = if c.rng.gen_ratio(1, 10) { BtcAddress::from_script(&own, n).unwrap() } else { btc_addr(&mut c.rng, n) };
    let lo = dust(&addr.script_pubkey());
    let mode = c.rng.gen_range(0..8);
    let amount = match mode {
        0 => c.rng.gen_range(0..lo),
        1 => lo - 1,
        2 => lo,
        _ => amount_for(&mut c.rng, lo),
    };
    let enough = mode != 3;
    let values = coins(&mut c.rng, amount, enough);
    let (mut chain, utxos) = crate::electrum::chain_for(&mut c.rng, &own, &values);
    chain.tip = 300;
    {
        let mut all = srv.chain.write().unwrap();
        all.tip = 300;
        all.join(chain);
    }
    let total_value: u64 = utxos.values().map(|o| o.value).sum();
    let f = crate::btc::Funded {
        wallet: bdk::Wallet::new(bdk::template::P2Wpkh(key), None, n, Default::default()).map_err(harness)?,
        utxos,
        scripts: [own.clone()].into_iter().collect(),
        kind: "synced",
        network: n,
        total: total_value,
    };
    let got = total("deposit", || sbtc_core::operations::op_return::deposit::deposit(key, p.data.clone(), amount, &addr))?;
    c.nontrivial((n.magic(), p.wire.clone(), amount, addr.script_pubkey().to_bytes()));
    if amount < lo {
        c.count("synced_below_dust_refused");
        check!(got.is_err(), "below-dust", "{amount} sat to {addr} is below dust {lo} but a transaction was built");
        return Ok(());
    }
    if f.total <= amount {
        c.count("synced_unfunded_refused");
        check!(got.is_err(), "unfunded", "wallet holds {} but a deposit of {amount} was built", f.total);
        return Ok(());
    }
    let tx = match got {
        Ok(t) => t,
        Err(e) => {
            check!(!enough, "refused", "key holding {} could not deposit {amount} to {addr}: {e}", f.total);
            return Ok(());
        }
    };
    c.count("synced_built");
    let mut data = magic(n).to_vec();
    data.push(b'<');
    data.extend(&p.wire);
    judge(&f, &tx, &[(op_return(&data), 0), (addr.script_pubkey(), amount)])?;
    let parsed = total("Deposit::parse", || Deposit::parse(n, tx.clone()))?.map_err(|e| viol("parse-refused", format!("built deposit does not parse: {e}")))?;
    check_eq!((parsed.amount, parsed.recipient.serialize_to_vec(), parsed.sbtc_wallet_address.script_pubkey()), (amount, p.wire, addr.script_pubkey()), "parse", "deposit read back");
    Ok(())
}

pub fn c01(run: &mut Run) {
    run.assume("bdk coin selection and the bitcoin crate's sighash computation are trusted");
    run.require("built", 500);
    run.require("below_dust_refused", 30);
    run.require("unfunded_refused", 30);
    run.require("recipient_contract", 100);
    run.stream("deposit", run.n(6000, 300_000), deposit_case);
    // the whole operation, its wallet synchronised from an Electrum server
    run.require("synced_built", 100);
    run.require("synced_below_dust_refused", 10);
    run.require("synced_unfunded_refused", 10);
    let srv = match crate::electrum::Server::start(Default::default(), crate::electrum::Fault::None, 0) {
        Ok(s) => s,
        Err(e) => {
            run.assume(&format!("no loopback server: {e}"));
            return;
        }
    };
    std::env::set_var("SBTC_MONITOR_ELECTRUM", srv.url());
    run.stream("synced_deposit", run.n(400, 20_000), |c| synced_deposit_case(c, &srv));
}

struct Req {
    key: SecretKey,
    payee: BtcAddress,
    sbtc: BtcAddress,
    amount: u64,
    fee: u64,
    n: Network,
}
fn request(r: &mut StdRng, fee_ok: bool) -> Req {
    let n = NETWORKS[r.gen_range(0..4)];
    let payee = btc_addr(r, n);
    let sbtc = if r.gen_ratio(1, 8) { payee.clone() } else { btc_addr(r, n) };
    let lo = dust(&sbtc.script_pubkey());
    let mut fee = if fee_ok { amount_for(r, lo).min(5_000_000_000 + lo) } else if r.gen_bool(0.3) { lo - 1 } else { r.gen_range(0..lo) };
    if fee_ok && sbtc == payee && r.gen_bool(0.5) {
        fee = lo; // payee and fee outputs coincide
    }
    Req { key: secret(r), payee, sbtc, amount: u64s(r), fee, n }
}
/// parse the 65-byte signature field independently
fn recover_ref(digest: &[u8; 32], rec: &[u8]) -> Option<PublicKey> {
    let id = RecoveryId::from_i32(rec[0] as i32).ok()?;
    let sig = RecoverableSignature::from_compact(&rec[1..65], id).ok()?;
    Secp256k1::new().recover_ecdsa(&Message::from_slice(digest).unwrap(), &sig).ok()
}
fn check_request_outputs(q: &Req, data_script: &Script) -> Result<Vec<u8>, Stop> {
    let b = data_script.as_bytes();
    check!(b.len() == 78 && b[0] == 0x6a && b[1] == 76 - 0x00 || b.len() == 79 && b[0] == 0x6a && b[1] == 0x4c && b[2] == 76, "data-shape", "data output {b:02x?}");
    let d = if b[1] == 0x4c { &b[3..] } else { &b[2..] };
    let mut want = magic(q.n).to_vec();
    want.push(b'>');
    want.extend(q.amount.to_be_bytes());
    check!(d.len() == 76 && d[..11] == want[..], "data-fields", "data {d:02x?}, expected prefix {want:02x?}");
    let digest = withdrawal_digest(q.amount, q.payee.script_pubkey().as_bytes(), q.n).ok_or_else(|| harness("digest"))?;
    let pk = PublicKey::from_secret_key(&Secp256k1::new(), &q.key);
    let got = recover_ref(&digest, &d[11..76]);
    check!(got == Some(pk), "signature-field", "the signature field recovers {got:?}, drawee key is {pk:?}");
    Ok(d.to_vec())
}
fn withdrawal_case(c: &mut Case) -> CaseResult {
    let mode = c.rng.gen_range(0..10);
    let q = request(&mut c.rng, mode != 0);
    let payee_dust = dust(&q.payee.script_pubkey());
    let need = q.fee + payee_dust;
    let enough = mode != 1;
    let coin_values = coins(&mut c.rng, need, enough);
    let f = funded(&mut c.rng, q.n, &coin_values)?;
    c.nontrivial((q.n.magic(), q.amount, q.fee, q.payee.script_pubkey().to_bytes(), q.key[..].to_vec()));
    let direct = total("create_outputs", || {
        sbtc_core::operations::op_return::withdrawal_request::create_outputs(&q.key, &q.payee, &q.sbtc, q.amount, q.fee, q.n)
    })?;
    match direct {
        Err(e) => check!(mode == 0, "outputs-refused", "fee {} (dust {}) refused: {e}", q.fee, dust(&q.sbtc.script_pubkey())),
        Ok(o) => {
            check!(mode != 0, "below-dust", "outputs made for fee {} below dust of {}", q.fee, q.sbtc);
            check_request_outputs(&q, &o[0].0)?;
            check!(
                o[0].1 == 0 && o[1] == (q.payee.script_pubkey(), payee_dust) && o[2] == (q.sbtc.script_pubkey(), q.fee),
                "create-outputs",
                "outputs {o:?} for payee {} fee {} to {}",
                q.payee,
                q.fee,
                q.sbtc
            );
        }
    }
    for round in 0..2 {
        let got = total("build_withdrawal_tx", || {
            build_withdrawal_tx(&f.wallet, q.n, q.key, q.payee.clone(), q.sbtc.clone(), q.amount, q.fee)
        })?;
        if mode == 0 {
            c.count("below_dust_refused");
            check!(got.is_err(), "below-dust", "fee {} below dust of {} accepted", q.fee, q.sbtc);
            return Ok(());
        }
        if f.total <= need {
            c.count("unfunded_refused");
            check!(got.is_err(), "unfunded", "wallet holds {} but {need} was spent", f.total);
            return Ok(());
        }
        let tx = match got {
            Ok(t) => t,
            Err(e) => {
                check!(!enough, "refused", "{} wallet holding {} could not build a request needing {need} (round {round}): {e}", f.kind, f.total);
                return Ok(());
            }
        };
        c.count("built");
        check!(tx.output.len() >= 3, "outputs", "{} outputs", tx.output.len());
        let data = check_request_outputs(&q, &tx.output[0].script_pubkey)?;
        judge(
            &f,
            &tx,
            &[(op_return(&data), 0), (q.payee.script_pubkey(), payee_dust), (q.sbtc.script_pubkey(), q.fee)],
        )?;
        let p = total("try_parse_withdrawal_request", || try_parse_withdrawal_request(q.n, tx.clone()))?
            .map_err(|e| viol("parse-refused", format!("built request does not parse: {e}")))?;
        check_eq!(p.amount, q.amount, "parse-amount", "amount");
        check_eq!(p.fulfillment_amount, q.fee, "parse-fee", "fulfillment fee");
        check_eq!(p.payee_bitcoin_address.script_pubkey(), q.payee.script_pubkey(), "parse-payee", "payee");
        check_eq!(p.sbtc_wallet.script_pubkey(), q.sbtc.script_pubkey(), "parse-sbtc", "sbtc wallet");
        let pk = PublicKey::from_secret_key(&Secp256k1::new(), &q.key);
        check_eq!(p.drawee_stacks_address.serialize_to_vec(), single_sig_wire(&pk, q.n), "parse-drawee", "drawee address");
        check_eq!(p.signature.serialize_to_vec(), data[11..].to_vec(), "parse-signature", "signature");
        let d = WithdrawalRequestDataOutputData::codec_deserialize(&mut &data[..]).map_err(|e| viol("data-decode", format!("{e}")))?;
        check_eq!(d.serialize_to_vec(), data, "data-encode", "withdrawal data re-encodes");
        check_eq!(d.amount(), q.amount, "data-amount", "decoded amount");
        check_eq!(magic(d.network()), magic(q.n), "data-network", "decoded network family");
        c.sample(|| json!({"network": q.n.to_string(), "payee": q.payee.to_string(), "sbtc": q.sbtc.to_string(), "amount": q.amount, "fee": q.fee, "txid": tx.txid().to_string()}));
    }
    Ok(())
}
pub fn c03(run: &mut Run) {
    run.require("built", 500);
    run.require("below_dust_refused", 30);
    run.require("unfunded_refused", 10);
    run.stream("withdrawal", run.n(4000, 200_000), withdrawal_case);
}

/// the block id whose big-endian bytes are `b`
fn tip_of(b: &[u8; 32]) -> BlockId {
    // four little-endian words: the most significant word is the first 8 bytes
    let mut w = [0u64; 4];
    for (i, x) in w.iter_mut().enumerate() {
        let s = 32 - 8 * (i + 1);
        *x = u64::from_be_bytes(b[s..s + 8].try_into().unwrap());
    }
    BlockId::new(Uint256::from_u64_array(w))
}
fn fulfillment_case(c: &mut Case) -> CaseResult {
    let n = NETWORKS[c.rng.gen_range(0..4)];
    let addr = btc_addr(&mut c.rng, n);
    let lo = dust(&addr.script_pubkey());
    let mode = c.rng.gen_range(0..10);
    let amount = amount_for(&mut c.rng, lo);
    let enough = mode != 1;
    let coin_values = coins(&mut c.rng, amount, enough);
    let f = funded(&mut c.rng, n, &coin_values)?;
    let tip_bytes: [u8; 32] = arr(&mut c.rng);
    c.nontrivial((n.magic(), amount, addr.script_pubkey().to_bytes(), tip_bytes));
    let mut data = magic(n).to_vec();
    data.push(b'!');
    data.extend(tip_bytes);
    let want = [(op_return(&data), 0), (addr.script_pubkey(), amount)];
    let outs = total("create_outputs", || wf::create_outputs(tip_of(&tip_bytes), n, &addr, amount))?.map_err(|e| viol("create-outputs", e))?;
    check_eq!(outs.to_vec(), want.to_vec(), "create-outputs", "fulfillment outputs");
    for _ in 0..2 {
        let got = total("build_withdrawal_fulfillment_tx", || build_withdrawal_fulfillment_tx(&f.wallet, tip_of(&tip_bytes), n, &addr, amount))?;
        if f.total <= amount {
            c.count("unfunded_refused");
            check!(got.is_err(), "unfunded", "wallet holds {} but {amount} was paid", f.total);
            return Ok(());
        }
        let tx = match got {
            Ok(t) => t,
            Err(e) => {
                check!(!enough, "refused", "{} wallet holding {} could not fulfill {amount}: {e}", f.kind, f.total);
                return Ok(());
            }
        };
        c.count("built");
        judge(&f, &tx, &want)?;
        c.sample(|| json!({"network": n.to_string(), "to": addr.to_string(), "amount": amount, "tip": hex::encode(tip_bytes)}));
    }
    let d = ParsedWithdrawalFulfillmentData::codec_deserialize(&mut &data[..]).map_err(|e| viol("data-decode", e))?;
    check_eq!(d.chain_tip.serialize_to_vec(), tip_bytes.to_vec(), "data-tip", "decoded tip");
    check_eq!(magic(d.network), magic(n), "data-network", "decoded network family");
    Ok(())
}
fn fulfillment_data_case(c: &mut Case) -> CaseResult {
    let n = NETWORKS[c.rng.gen_range(0..4)];
    let tip_bytes: [u8; 32] = arr(&mut c.rng);
    let mut data = magic(n).to_vec();
    data.push(b'!');
    data.extend(tip_bytes);
    let enc = total("serialize", || ParsedWithdrawalFulfillmentData { network: n, chain_tip: tip_of(&tip_bytes) }.serialize_to_vec())?;
    check_eq!(enc, data, "data-encode", "fulfillment data");
    c.nontrivial(&data);
    let mut bad = data.clone();
    match c.rng.gen_range(0..4) {
        0 => {
            let k = c.rng.gen_range(0..35);
            bad.truncate(k);
        }
        1 => bad[2] = c.rng.gen(),
        2 => {
            let i = c.rng.gen_range(0..2);
            bad[i] = c.rng.gen();
        }
        _ => {
            let i = c.rng.gen_range(0..35);
            bad[i] ^= 1 << c.rng.gen_range(0..8);
        }
    }
    let ok = bad.len() >= 35 && NETWORKS.iter().any(|n| magic(*n)[..] == bad[..2]) && bad[2] == b'!';
    let got = total("decode fulfillment data", || ParsedWithdrawalFulfillmentData::codec_deserialize(&mut &bad[..]))?;
    check_eq!(got.is_ok(), ok, "data-accept", "acceptance of {bad:02x?}");
    if let Ok(d) = got {
        c.count("accepted");
        check_eq!(d.serialize_to_vec(), bad, "data-reencode", "re-encoding");
    } else {
        c.count("rejected");
    }
    Ok(())
}
pub fn c05(run: &mut Run) {
    run.require("built", 500);
    run.require("unfunded_refused", 10);
    run.require("rejected", 500);
    run.require("below_dust_refused", 100);
    run.stream("fulfillment", run.n(4000, 200_000), fulfillment_case);
    run.stream("below-dust", run.n(600, 20_000), |c| {
        let n = NETWORKS[c.rng.gen_range(0..4)];
        let addr = btc_addr(&mut c.rng, n);
        let lo = dust(&addr.script_pubkey());
        let amount = if c.rng.gen_bool(0.4) { lo - 1 } else { c.rng.gen_range(0..lo) };
        let coin = c.rng.gen_range(50_000..10_000_000);
        let f = funded(&mut c.rng, n, &[coin])?;
        let got = total("build_withdrawal_fulfillment_tx", || build_withdrawal_fulfillment_tx(&f.wallet, tip_of(&arr(&mut c.rng)), n, &addr, amount))?;
        check!(got.is_err(), "below-dust", "{amount} to {addr} (dust {lo}) gave a transaction");
        c.count("below_dust_refused");
        c.nontrivial((amount, addr.script_pubkey().to_bytes()));
        Ok(())
    });
    run.stream("data", run.n(20_000, 1_000_000), fulfillment_data_case);
}

/// C02: all three builders, judged as Bitcoin transactions, then chained: the
/// next operation is funded by what the previous ones left.
pub fn c02(run: &mut Run) {
    run.assume("bdk coin selection and the bitcoin crate's sighash computation are trusted");
    run.require("deposit", 300);
    run.require("withdrawal", 300);
    run.require("fulfillment", 300);
    run.require("with_change", 300);
    run.require("multi_input", 200);
    run.stream("build", run.n(8000, 400_000), |c| {
        let n = NETWORKS[c.rng.gen_range(0..4)];
        let kind = c.rng.gen_range(0..3);
        // few large or many small coins
        let coin_values: Vec<u64> = if c.rng.gen_bool(0.5) {
            (0..c.rng.gen_range(2..12)).map(|_| c.rng.gen_range(3_000..40_000)).collect()
        } else {
            (0..c.rng.gen_range(1..4)).map(|_| c.rng.gen_range(50_000..9_000_000_000)).collect()
        };
        let all: u64 = coin_values.iter().sum();
        let f = funded(&mut c.rng, n, &coin_values)?;
        // pay to a stranger, or (sometimes) to one of the wallet's own addresses
        let own: Vec<Script> = f.utxos.values().map(|o| o.script_pubkey.clone()).collect();
        let pick = |r: &mut StdRng| {
            if r.gen_ratio(1, 6) {
                BtcAddress::from_script(own.choose(r).unwrap(), n).unwrap()
            } else {
                btc_addr(r, n)
            }
        };
        let (a, b) = (pick(&mut c.rng), pick(&mut c.rng));
        let lo = dust(&a.script_pubkey()).max(dust(&b.script_pubkey()));
        let budget = all * 9 / 10;
        let amount = if budget <= lo { lo } else { c.rng.gen_range(lo..=budget) };
        c.nontrivial((n.magic(), kind, amount, coin_values.clone()));
        let key = secret(&mut c.rng);
        let tip_bytes: [u8; 32] = arr(&mut c.rng);
        let p = principal(&mut c.rng);
        let dep_view = if kind == 0 { Some(funded_view(&f)) } else { None };
        let (got, want, view);
        match kind {
            0 => {
                let crate::btc::Funded { wallet, .. } = f;
                got = total("build_deposit_transaction", || build_deposit_transaction(wallet, p.data.clone(), a.clone(), amount, n))?;
                let mut d = magic(n).to_vec();
                d.push(b'<');
                d.extend(&p.wire);
                want = vec![(op_return(&d), 0), (a.script_pubkey(), amount)];
                view = dep_view.unwrap();
            }
            1 => {
                let amt = c.rng.gen::<u64>();
                got = total("build_withdrawal_tx", || build_withdrawal_tx(&f.wallet, n, key, a.clone(), b.clone(), amt, amount))?;
                let q = Req { key, payee: a.clone(), sbtc: b.clone(), amount: amt, fee: amount, n };
                let d = match &got {
                    Ok(t) => check_request_outputs(&q, &t.output.first().ok_or_else(|| viol("outputs", "no outputs"))?.script_pubkey)?,
                    _ => vec![],
                };
                want = vec![(op_return(&d), 0), (a.script_pubkey(), dust(&a.script_pubkey())), (b.script_pubkey(), amount)];
                view = f;
            }
            _ => {
                got = total("build_withdrawal_fulfillment_tx", || build_withdrawal_fulfillment_tx(&f.wallet, tip_of(&tip_bytes), n, &a, amount))?;
                let mut d = magic(n).to_vec();
                d.push(b'!');
                d.extend(tip_bytes);
                want = vec![(op_return(&d), 0), (a.script_pubkey(), amount)];
                view = f;
            }
        }
        let spend: u64 = want.iter().map(|w| w.1).sum();
        let Ok(tx) = got else {
            // every coin costs at most 150 vbytes to add
            let fees = 150 * coin_values.len() as u64 + 600;
            check!(spend + fees > all, "refused", "{} wallet of {all} refuses {spend}: {}", view.kind, got.err().unwrap());
            c.count("refused_unfunded");
            return Ok(());
        };
        let fee = judge(&view, &tx, &want)?;
        c.count(["deposit", "withdrawal", "fulfillment"][kind]);
        c.count(match view.kind {
            "pkh" => "pkh_wallet",
            "wpkh" => "wpkh_wallet",
            "tr" => "tr_wallet",
            "single" => "single_key_wallet",
            _ => "sh_wpkh_wallet",
        });
        if tx.output.len() > want.len() {
            c.count("with_change");
        }
        if tx.input.len() > 1 {
            c.count("multi_input");
        }
        c.count_n("inputs_verified", tx.input.len() as u64);
        // build again from the same wallet
        if kind == 2 {
            let tx2 = total("build_withdrawal_fulfillment_tx", || build_withdrawal_fulfillment_tx(&view.wallet, tip_of(&tip_bytes), n, &a, amount))?
                .map_err(|e| viol("wallet-stuck", format!("second build from the same wallet fails: {e}")))?;
            judge(&view, &tx2, &want)?;
            let mut psbt = total("create_psbt", || wf::create_psbt(&view.wallet, tip_of(&tip_bytes), n, &a, amount))?.map_err(|e| viol("create-psbt", e))?;
            check!(psbt.unsigned_tx.output.len() >= 2, "outputs", "psbt outputs");
            view.wallet.sign(&mut psbt, Default::default()).map_err(|e| viol("signature", format!("psbt cannot be signed: {e}")))?;
            let tx3 = psbt.extract_tx();
            judge(&view, &tx3, &want)?;
            c.count("psbt");
        }
        if kind == 1 {
            let mut psbt = total("create_psbt", || wr::create_psbt(&view.wallet, &key, &a, &b, 77, amount, n))?.map_err(|e| viol("create-psbt", e))?;
            view.wallet.sign(&mut psbt, Default::default()).map_err(|e| viol("signature", format!("psbt cannot be signed: {e}")))?;
            let tx3 = psbt.extract_tx();
            let q = Req { key, payee: a.clone(), sbtc: b.clone(), amount: 77, fee: amount, n };
            let d = check_request_outputs(&q, &tx3.output[0].script_pubkey)?;
            judge(&view, &tx3, &[(op_return(&d), 0), want[1].clone(), want[2].clone()])?;
            c.count("psbt");
        }
        c.sample(|| json!({"kind": kind, "wallet": view.kind, "coins": coin_values, "spend": spend, "fee": fee, "inputs": tx.input.len(), "outputs": tx.output.len()}));
        Ok(())
    });
    run.require("unsignable_refused", 100);
    run.stream("unsignable", run.n(400, 10_000), watch_only_case);
}

/// A wallet that sees coins it holds no key for, next to coins it can sign for
/// or alone: an operation on it must fail, not return a half-signed transaction.
fn watch_only_case(c: &mut Case) -> CaseResult {
    let n = NETWORKS[c.rng.gen_range(0..4)];
    let kind = c.rng.gen_range(0..4);
    let (mine, other) = (secret(&mut c.rng), secret(&mut c.rng));
    let secp = Secp256k1::new();
    let pk_other = PublicKey::from_secret_key(&secp, &other);
    let wif = bdk::bitcoin::PrivateKey { compressed: true, network: n, inner: mine }.to_wif();
    let descriptor = match kind {
        0 => format!("wpkh({pk_other})"),
        1 => format!("pkh({pk_other})"),
        2 => format!("wsh(multi(2,{wif},{pk_other}))"),
        _ => format!("wsh(and_v(v:pk({pk_other}),pk({wif})))"),
    };
    let probe = bdk::Wallet::new(&descriptor, None, n, bdk::database::MemoryDatabase::default()).map_err(harness)?;
    let script = probe.get_address(bdk::wallet::AddressIndex::Peek(0)).map_err(harness)?.script_pubkey();
    let open = |r: &mut StdRng| -> Result<bdk::Wallet<bdk::database::MemoryDatabase>, Stop> {
        use bdk::database::BatchOperations;
        let mut db = bdk::database::MemoryDatabase::default();
        db.set_script_pubkey(&script, bdk::KeychainKind::External, 0).map_err(harness)?;
        let mut tx = tx_of(vec![TxOut { value: 50_000_000, script_pubkey: script.clone() }]);
        tx.input[0].previous_output = OutPoint { txid: bdk::bitcoin::hashes::Hash::from_inner(arr(r)), vout: 0 };
        db.set_tx(&bdk::TransactionDetails {
            txid: tx.txid(),
            received: 50_000_000,
            sent: 0,
            fee: Some(0),
            confirmation_time: Some(bdk::BlockTime { height: 100, timestamp: 0 }),
            transaction: Some(tx.clone()),
        })
        .map_err(harness)?;
        db.set_utxo(&bdk::LocalUtxo {
            outpoint: OutPoint { txid: tx.txid(), vout: 0 },
            txout: tx.output[0].clone(),
            keychain: bdk::KeychainKind::External,
            is_spent: false,
        })
        .map_err(harness)?;
        bdk::Wallet::new(&descriptor, None, n, db).map_err(harness)
    };
    let a = btc_addr(&mut c.rng, n);
    let b = btc_addr(&mut c.rng, n);
    let amount = c.rng.gen_range(1000..1_000_000);
    let p = principal(&mut c.rng);
    let tip_bytes: [u8; 32] = arr(&mut c.rng);
    let w = open(&mut c.rng)?;
    let op = c.rng.gen_range(0..3);
    let got = match op {
        0 => total("build_deposit_transaction", || build_deposit_transaction(w, p.data.clone(), a.clone(), amount, n))?,
        1 => total("build_withdrawal_tx", || build_withdrawal_tx(&w, n, mine, a.clone(), b.clone(), amount, amount))?,
        _ => total("build_withdrawal_fulfillment_tx", || build_withdrawal_fulfillment_tx(&w, tip_of(&tip_bytes), n, &a, amount))?,
    };
    c.nontrivial((kind, op, descriptor));
    c.count("unsignable_refused");
    if let Ok(tx) = got {
        return Err(viol("unsigned", format!("a wallet that cannot sign its coins produced {} (operation {op}, wallet kind {kind})", hex::encode(bdk::bitcoin::consensus::serialize(&tx)))));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
pub fn c04(run: &mut Run) {
    run.assume("secp256k1's ECDSA recovery is trusted");
    run.require("bit_flips", 5000);
    run.require("attributed", 300);
    run.stream("sign", run.n(3000, 150_000), |c| {
        let n = NETWORKS[c.rng.gen_range(0..4)];
        let payee = btc_addr(&mut c.rng, n);
        let spk = payee.script_pubkey();
        let amount = u64s(&mut c.rng);
        let key = secret(&mut c.rng);
        let pk = PublicKey::from_secret_key(&Secp256k1::new(), &key);
        c.nontrivial((n.magic(), amount, spk.to_bytes(), key[..].to_vec()));
        let digest = withdrawal_digest(amount, spk.as_bytes(), n).ok_or_else(|| harness("digest"))?;
        let msg = total("signing message", || wr::create_withdrawal_request_signing_message(amount, &payee))?;
        check_eq!(msg.as_ref().to_vec(), digest.to_vec(), "digest", "signing message digest for {amount} to {payee}");
        let sig = total("create_signature", || wr::create_signature(&key, &payee, amount))?;
        let rec = sig.serialize_to_vec();
        check!(rec.len() == 65, "signature-field", "{} bytes", rec.len());
        check_eq!(recover_ref(&digest, &rec), Some(pk), "signature", "independent recovery");
        let own = total("recover_signature", || wr::recover_signature(amount, &payee, &sig))?.map_err(|e| viol("recover", e))?;
        check_eq!(own, pk, "recover", "recovered key");
        c.count("attributed");
        // an independently made signature is attributed to its maker
        let other_key = secret(&mut c.rng);
        let other = Secp256k1::new().sign_ecdsa_recoverable(&Message::from_slice(&digest).unwrap(), &other_key);
        let who = total("recover_signature", || wr::recover_signature(amount, &payee, &other))?.map_err(|e| viol("recover", e))?;
        check_eq!(who, PublicKey::from_secret_key(&Secp256k1::new(), &other_key), "recover", "independently signed request");
        // through the transaction parser
        let build = |rec: &[u8], amount: u64, payee: &Script| {
            let mut d = magic(n).to_vec();
            d.push(b'>');
            d.extend(amount.to_be_bytes());
            d.extend(rec);
            tx_of(vec![
                TxOut { value: 0, script_pubkey: op_return(&d) },
                TxOut { value: 546, script_pubkey: payee.clone() },
                TxOut { value: 1000, script_pubkey: payee.clone() },
            ])
        };
        let drawee = |net: Network, t: Transaction| -> Result<Option<Vec<u8>>, Stop> {
            Ok(total("try_parse_withdrawal_request", || try_parse_withdrawal_request(net, t))?
                .ok()
                .map(|p| p.drawee_stacks_address.serialize_to_vec()))
        };
        let me = single_sig_wire(&pk, n);
        check_eq!(drawee(n, build(&rec, amount, &spk))?, Some(me.clone()), "drawee", "drawee of the intact request");
        // alterations
        for _ in 0..12 {
            let mut bad = rec.clone();
            let bit = c.rng.gen_range(0..65 * 8);
            bad[bit / 8] ^= 1 << (bit % 8);
            let got = drawee(n, build(&bad, amount, &spk))?;
            check!(got.as_ref() != Some(&me), "altered-signature", "signature with bit {bit} flipped is still attributed to the drawee");
            // whatever it is attributed to is the key recovered from it
            let want = recover_ref(&digest, &bad).map(|k| single_sig_wire(&k, n));
            check_eq!(got, want, "attribution", "altered signature attribution");
            c.count("bit_flips");
        }
        for _ in 0..4 {
            let a2 = match c.rng.gen_range(0..4) {
                0 => amount.wrapping_add(1),
                1 => amount ^ (1 << c.rng.gen_range(0..64)),
                2 => amount.wrapping_mul(10),
                _ => u64s(&mut c.rng),
            };
            if a2 == amount {
                continue;
            }
            let got = drawee(n, build(&rec, a2, &spk))?;
            check!(got.as_ref() != Some(&me), "altered-amount", "request for {a2} is attributed to the signer of {amount}");
            c.count("amount_changes");
        }
        for _ in 0..4 {
            let s2 = if c.rng.gen_bool(0.5) {
                // same payload, other kind of script or one bit off
                let mut b = spk.to_bytes();
                let i = c.rng.gen_range(b.len() / 2 - 1..b.len());
                b[i] ^= 1 << c.rng.gen_range(0..8);
                Script::from(b)
            } else {
                btc_addr(&mut c.rng, n).script_pubkey()
            };
            if s2 == spk {
                continue;
            }
            let got = drawee(n, build(&rec, amount, &s2))?;
            check!(got.as_ref() != Some(&me), "altered-recipient", "request to {s2:x} is attributed to the signer of {spk:x}");
            c.count("recipient_changes");
        }
        for m in NETWORKS {
            let form = addr_text(spk.as_bytes(), m);
            if form == addr_text(spk.as_bytes(), n) {
                continue;
            }
            let got = drawee(m, build(&rec, amount, &spk))?;
            check!(
                got.as_ref().map(|g| g[1..] == me[1..]) != Some(true),
                "altered-network",
                "request signed for {n} is attributed to the same key on {m}"
            );
            c.count("network_changes");
        }
        c.sample(|| json!({"amount": amount, "payee": payee.to_string(), "digest": hex::encode(digest)}));
        Ok(())
    });
    run.stream("message", run.n(20_000, 500_000), |c| {
        // the generic signed-message digest
        let k = c.rng.gen_range(0..=252);
        let text: String = (0..k).map(|_| c.rng.gen_range(0x20..0x7fu8) as char).collect();
        let mut m = vec![23u8];
        m.extend(b"Stacks Signed Message:\n");
        m.push(k as u8);
        m.extend(text.as_bytes());
        let got = total("create_signing_message", || wr::create_signing_message(&text))?;
        check_eq!(got.as_ref().to_vec(), refs::sha256(&m).to_vec(), "digest", "signed message of {k} bytes");
        c.nontrivial(text);
        Ok(())
    });
}

pub fn tx_of(output: Vec<TxOut>) -> Transaction {
    Transaction {
        version: 2,
        lock_time: PackedLockTime(0),
        input: vec![TxIn { previous_output: OutPoint::null(), script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::new() }],
        output,
    }
}

/// a transaction with these outputs and anything else besides
fn any_tx(c: &mut Case, output: Vec<TxOut>) -> Transaction {
    let r = &mut c.rng;
    let n = *[0, 1, 1, 1, 1, 2, 2, 3, 5, 60].choose(r).unwrap();
    let input: Vec<TxIn> = (0..n)
        .map(|_| {
            let mut sig = vec![0u8; *[0, 0, 0, 23, 107, 300].choose(r).unwrap()];
            r.fill_bytes(&mut sig);
            let mut w = Witness::new();
            if r.gen_bool(0.5) {
                for _ in 0..r.gen_range(1..5) {
                    let k = r.gen_range(0..80);
                    w.push(bytes(r, k));
                }
            }
            TxIn {
                previous_output: if r.gen_bool(0.1) { OutPoint::null() } else { OutPoint { txid: bdk::bitcoin::hashes::Hash::from_inner(r.gen()), vout: *[0, 1, 7, u32::MAX].choose(r).unwrap() } },
                script_sig: Script::from(sig),
                sequence: Sequence(*[0xffff_ffff, 0xffff_fffe, 0xffff_fffd, 0, 1, 0x0040_0005].choose(r).unwrap()),
                witness: w,
            }
        })
        .collect();
    let tx = Transaction {
        version: *[1, 2, 2, 2, 3, 0, -1, i32::MIN, i32::MAX].choose(r).unwrap(),
        lock_time: PackedLockTime(*[0, 0, 1, 800_000, 499_999_999, 500_000_000, u32::MAX].choose(r).unwrap()),
        input,
        output,
    };
    let kind = match tx.input.len() {
        0 => "without_inputs",
        1 if tx.is_coin_base() => "coinbase",
        1 => "one_input",
        _ => "many_inputs",
    };
    c.count(kind);
    tx
}

// ---------------------------------------------------------------- C06
/// First data pushed after OP_RETURN, if the script has that shape.
fn ref_op_return_data(s: &[u8]) -> Option<&[u8]> {
    if s.first() != Some(&0x6a) {
        return None;
    }
    let rest = &s[1..];
    let op = *rest.first()?;
    let (skip, len): (usize, usize) = match op {
        0..=75 => (1, op as usize),
        0x4c => (2, *rest.get(1)? as usize),
        0x4d => (3, u16::from_le_bytes(rest.get(1..3)?.try_into().unwrap()) as usize),
        0x4e => (5, u32::from_le_bytes(rest.get(1..5)?.try_into().unwrap()) as usize),
        _ => return None,
    };
    rest.get(skip..skip.checked_add(len)?)
}
/// Wire bytes of the principal at the start of `d`.
pub fn ref_principal(d: &[u8]) -> Option<&[u8]> {
    let t = *d.first()?;
    if t != 5 && t != 6 || d.len() < 22 || !VERSION_BYTES.contains(&d[1]) {
        return None;
    }
    if t == 5 {
        return Some(&d[..22]);
    }
    let l = *d.get(22)? as usize;
    let name = d.get(23..23 + l)?;
    name_ok(name).then_some(&d[..23 + l])
}
fn known_magic(d: &[u8]) -> bool {
    d.len() >= 2 && [b"X2", b"T2", b"id"].iter().any(|m| m[..] == d[..2])
}
/// a data payload, valid or damaged
fn payload(r: &mut StdRng, n: Network) -> Vec<u8> {
    let mut d = magic(if r.gen_ratio(1, 10) { NETWORKS[r.gen_range(0..4)] } else { n }).to_vec();
    if r.gen_bool(0.5) {
        d.push(b'<');
        d.extend(principal(r).wire);
    } else {
        d.push(b'>');
        d.extend(u64s(r).to_be_bytes());
        let rid: u8 = r.gen_range(0..4);
        d.push(rid);
        let m: [u8; 32] = arr(r);
        let sig = Secp256k1::new().sign_ecdsa_recoverable(&Message::from_slice(&m).unwrap(), &secret(r));
        d.extend(sig.serialize_compact().1);
        if r.gen_ratio(1, 12) {
            // r or s out of range
            let at = 12 + 32 * r.gen_range(0..2);
            let v = if r.gen_bool(0.5) { 0xff } else { 0 };
            d[at..at + 32].fill(v);
        }
    }
    match r.gen_range(0..12) {
        0 => {
            let k = r.gen_range(0..=d.len());
            d.truncate(k);
        }
        1 => {
            let k = r.gen_range(1..20);
            let mut x = bytes(r, k);
            d.append(&mut x);
        }
        2 | 3 => {
            let i = r.gen_range(0..d.len());
            d[i] = r.gen();
        }
        4 => {
            let i = r.gen_range(0..d.len().min(24));
            d[i] ^= 1 << r.gen_range(0..8);
        }
        5 => {
            d[2] = *[b'<', b'>', b'!', b'H', 0, b'w'].choose(r).unwrap();
        }
        _ => {}
    }
    d
}
fn hostile_script(r: &mut StdRng, n: Network) -> Script {
    let d = payload(r, n);
    let mut s = vec![0x6a];
    match r.gen_range(0..14) {
        0 => {
            s.extend([0x4c, d.len() as u8]);
            s.extend(&d);
        }
        1 => {
            s.push(0x4d);
            s.extend((d.len() as u16).to_le_bytes());
            s.extend(&d);
        }
        2 => {
            s.push(0x4e);
            s.extend((d.len() as u32).to_le_bytes());
            s.extend(&d);
        }
        3 => {
            // announced longer than present
            s.push((d.len() as u8).saturating_add(r.gen_range(1..5)).min(75));
            s.extend(&d);
        }
        4 => {
            s.extend([0x4e, 0xff, 0xff, 0xff, 0xff]);
            s.extend(&d);
        }
        5 => {
            push(&mut s, &d);
            let k = r.gen_range(1..5);
            s.extend(bytes(r, k)); // further instructions
        }
        6 => {
            s[0] = r.gen();
            push(&mut s, &d);
        }
        7 => {
            s.push(r.gen());
            push(&mut s, &d);
        }
        8 => {
            let k = r.gen_range(0..6);
            s = bytes(r, k);
            if r.gen_bool(0.6) && !s.is_empty() {
                s[0] = 0x6a;
            }
        }
        9 => {
            // splits the payload over two pushes
            let k = r.gen_range(0..=d.len());
            push(&mut s, &d[..k]);
            push(&mut s, &d[k..]);
        }
        _ => push(&mut s, &d),
    }
    Script::from(s)
}
fn any_output_script(r: &mut StdRng, n: Network) -> Script {
    match r.gen_range(0..8) {
        0 => {
            let k = r.gen_range(0..50);
            Script::from(bytes(r, k))
        }
        1 => {
            let mut b = btc_addr(r, n).script_pubkey().to_bytes();
            let i = r.gen_range(0..b.len());
            b[i] = r.gen();
            Script::from(b)
        }
        2 => {
            // witness programs of every length
            let k = r.gen_range(0..45);
            let op = *[0x00u8, 0x51, 0x52, 0x60, 0x50, 0x61].choose(r).unwrap();
            let mut b = vec![op, k as u8];
            b.extend(bytes(r, k));
            Script::from(b)
        }
        3 => Builder::new().push_opcode(opcodes::all::OP_RETURN).into_script(),
        _ => btc_addr(r, n).script_pubkey(),
    }
}
fn hostile_case(c: &mut Case) -> CaseResult {
    let n = NETWORKS[c.rng.gen_range(0..4)];
    let k = *[0usize, 1, 2, 2, 3, 3, 3, 3, 4, 6].choose(&mut c.rng).unwrap();
    let mut outs = vec![];
    for i in 0..k {
        let script_pubkey = if i == 0 && !c.rng.gen_ratio(1, 15) {
            hostile_script(&mut c.rng, n)
        } else {
            any_output_script(&mut c.rng, n)
        };
        outs.push(TxOut { value: u64s(&mut c.rng), script_pubkey });
    }
    if c.rng.gen_ratio(1, 20) {
        outs.reverse(); // data output in the wrong place
    }
    let tx = any_tx(c, outs.clone());
    c.nontrivial(outs.iter().map(|o| (o.value, o.script_pubkey.to_bytes())).collect::<Vec<_>>());
    judge_parse(c, n, &tx)
}
fn judge_parse(c: &mut Case, n: Network, tx: &Transaction) -> CaseResult {
    let outs = &tx.output;
    let data = outs.first().and_then(|o| ref_op_return_data(o.script_pubkey.as_bytes()));
    let desc = || format!("outputs {:?} on {n}", outs.iter().map(|o| (o.value, format!("{:x}", o.script_pubkey))).collect::<Vec<_>>());
    // deposit
    let want_dep = data.filter(|d| known_magic(d) && d.get(2) == Some(&b'<')).and_then(|d| ref_principal(&d[3..])).and_then(|p| {
        let o = outs.get(1)?;
        Some((p.to_vec(), o.value, addr_text(o.script_pubkey.as_bytes(), n)?))
    });
    let got = total("Deposit::parse", || Deposit::parse(n, tx.clone()))?
        .ok()
        .map(|d| (d.recipient.serialize_to_vec(), d.amount, d.sbtc_wallet_address.to_string()));
    if want_dep.is_some() {
        c.count("deposits_accepted");
    } else {
        c.count("deposits_rejected");
    }
    check!(got == want_dep, "deposit-parse", "deposit parsed as {got:02x?}, the transaction says {want_dep:02x?}: {}", desc());
    // withdrawal request
    let want_wd = (|| {
        let d = data.filter(|d| known_magic(d) && d.get(2) == Some(&b'>') && d.len() >= 76)?;
        let amount = u64::from_be_bytes(d[3..11].try_into().unwrap());
        let payee = outs.get(1)?;
        let fee = outs.get(2)?;
        let payee_text = addr_text(payee.script_pubkey.as_bytes(), n)?;
        let sbtc_text = addr_text(fee.script_pubkey.as_bytes(), n)?;
        let digest = withdrawal_digest(amount, payee.script_pubkey.as_bytes(), n);
        let drawee = match digest {
            Some(dg) => Some(single_sig_wire(&recover_ref(&dg, &d[11..76])?, n)),
            None => None, // message longer than the convention's one-byte length
        };
        Some((amount, payee_text, drawee, fee.value, sbtc_text, d[11..76].to_vec()))
    })();
    let got = total("try_parse_withdrawal_request", || try_parse_withdrawal_request(n, tx.clone()))?.ok();
    if want_wd.is_some() {
        c.count("withdrawals_accepted");
    } else {
        c.count("withdrawals_rejected");
    }
    if matches!(&want_wd, Some(w) if w.2.is_none()) {
        c.count("overlong_message");
        return Ok(());
    }
    let got = got.map(|p| {
        (
            p.amount,
            p.payee_bitcoin_address.to_string(),
            Some(p.drawee_stacks_address.serialize_to_vec()),
            p.fulfillment_amount,
            p.sbtc_wallet.to_string(),
            p.signature.serialize_to_vec(),
        )
    });
    check!(got == want_wd, "withdrawal-parse", "withdrawal request parsed as {got:02x?}, the transaction says {want_wd:02x?}: {}", desc());
    Ok(())
}
pub fn c06(run: &mut Run) {
    run.require("deposits_accepted", 3000);
    run.require("withdrawals_accepted", 500);
    run.require("without_inputs", 1000);
    run.require("coinbase", 1000);
    run.require("many_inputs", 1000);
    run.stream("hostile", run.n(150_000, 6_000_000), hostile_case);
    run.stream("valid", run.n(20_000, 500_000), |c| {
        let n = NETWORKS[c.rng.gen_range(0..4)];
        let mut outs = vec![];
        let mut d = magic(n).to_vec();
        if c.rng.gen_bool(0.5) {
            d.push(b'<');
            d.extend(principal(&mut c.rng).wire);
            if c.rng.gen_bool(0.2) {
                let k = c.rng.gen_range(1..15);
                d.extend(bytes(&mut c.rng, k)); // the documented extra bytes
            }
        } else {
            let payee = btc_addr(&mut c.rng, n);
            let amount = u64s(&mut c.rng);
            let dg = withdrawal_digest(amount, payee.script_pubkey().as_bytes(), n).ok_or_else(|| harness("digest"))?;
            let (id, s) = Secp256k1::new()
                .sign_ecdsa_recoverable(&Message::from_slice(&dg).unwrap(), &secret(&mut c.rng))
                .serialize_compact();
            d.push(b'>');
            d.extend(amount.to_be_bytes());
            d.push(id.to_i32() as u8);
            d.extend(s);
            outs.push(TxOut { value: u64s(&mut c.rng), script_pubkey: payee.script_pubkey() });
        }
        outs.insert(0, TxOut { value: u64s(&mut c.rng), script_pubkey: op_return(&d) });
        let more = if c.idx % 500 == 0 { 3000 } else { c.rng.gen_range(1..4) };
        for _ in 0..more {
            outs.push(TxOut { value: u64s(&mut c.rng), script_pubkey: btc_addr(&mut c.rng, n).script_pubkey() });
        }
        c.nontrivial(&d);
        let tx = any_tx(c, outs);
        judge_parse(c, n, &tx)
    });
    run.stream("random_tx", run.n(20_000, 500_000), |c| {
        // arbitrary transactions as decoded from bytes
        let k = c.rng.gen_range(0..5);
        let outs = (0..k)
            .map(|_| {
                let l = c.rng.gen_range(0..120);
                let mut b = vec![0u8; l];
                c.rng.fill_bytes(&mut b);
                TxOut { value: c.rng.gen(), script_pubkey: Script::from(b) }
            })
            .collect();
        let n = NETWORKS[c.rng.gen_range(0..4)];
        let tx = any_tx(c, outs);
        judge_parse(c, n, &tx)
    });
}

// ---------------------------------------------------------------- C07
pub fn c07(run: &mut Run) {
    run.require("duplicates", 1000);
    run.require("unmatched_request", 1000);
    run.stream("reorder", run.n(200_000, 5_000_000), |c| {
        let big = c.idx % 200 == 0;
        let scripts: Vec<Script> = (0..c.rng.gen_range(1..if big { 40 } else { 5u8 })).map(|i| Script::from(vec![0x51, i])).collect();
        let pair = |r: &mut StdRng| (scripts.choose(r).unwrap().clone(), *[0, 1000, 2000, 3000, 1001, u64::MAX].choose(r).unwrap());
        let outs: Vec<(Script, u64)> = (0..c.rng.gen_range(0..if big { 300 } else { 9 })).map(|_| pair(&mut c.rng)).collect();
        let mut order: Vec<(Script, u64)> = match c.rng.gen_range(0..3) {
            0 => (0..c.rng.gen_range(0..6)).map(|_| pair(&mut c.rng)).collect(),
            _ => {
                let mut o = outs.clone();
                o.shuffle(&mut c.rng);
                let k = c.rng.gen_range(0..=o.len());
                o.truncate(k);
                o
            }
        };
        if c.rng.gen_ratio(1, 6) {
            let p = pair(&mut c.rng);
            order.push(p);
        }
        c.nontrivial((
            outs.iter().map(|o| (o.0.to_bytes(), o.1)).collect::<Vec<_>>(),
            order.iter().map(|o| (o.0.to_bytes(), o.1)).collect::<Vec<_>>(),
        ));
        if (1..outs.len()).any(|i| outs[..i].contains(&outs[i])) {
            c.count("duplicates");
        }
        // reference
        let mut left: Vec<Option<(Script, u64)>> = outs.iter().cloned().map(Some).collect();
        let mut want = vec![];
        for o in &order {
            match left.iter_mut().find(|l| l.as_ref() == Some(o)) {
                Some(l) => want.push(l.take().unwrap()),
                None => c.count("unmatched_request"),
            }
        }
        want.extend(left.into_iter().flatten());
        let given: Vec<TxOut> = outs.iter().map(|(s, v)| TxOut { value: *v, script_pubkey: s.clone() }).collect();
        let got: Vec<(Script, u64)> = total("reorder_outputs", || reorder_outputs(given, order.clone()))?
            .into_iter()
            .map(|o| (o.script_pubkey, o.value))
            .collect();
        let show = |v: &[(Script, u64)]| v.iter().map(|(s, x)| format!("{x}@{s:x}")).collect::<Vec<_>>().join(" ");
        check!(got == want, "reorder", "outputs [{}] ordered by [{}] became [{}], expected [{}]", show(&outs), show(&order), show(&got), show(&want));
        c.sample(|| json!({"outputs": show(&outs), "order": show(&order), "result": show(&got)}));
        Ok(())
    });
}

/// wire bytes of the drawee address the library reads from a withdrawal request
pub fn parsed_drawee(n: Network, tx: Transaction) -> Option<Vec<u8>> {
    try_parse_withdrawal_request(n, tx).ok().map(|p| p.drawee_stacks_address.serialize_to_vec())
}
