//! Funded wallets and independent judgement of finished Bitcoin transactions.
use std::collections::{HashMap, HashSet};

use bdk::{
    bitcoin::{
        hashes::Hash,
        schnorr::TweakedPublicKey,
        secp256k1::{self, ecdsa, schnorr, Message, Secp256k1, XOnlyPublicKey},
        util::{
            bip32::ExtendedPrivKey,
            sighash::{Prevouts, SighashCache},
        },
        BlockHash, EcdsaSighashType, Network, OutPoint, PackedLockTime, SchnorrSighashType, Script, Sequence, Transaction, TxIn,
        TxOut, Txid, Witness,
    },
    database::{BatchOperations, MemoryDatabase},
    wallet::AddressIndex,
    KeychainKind, LocalUtxo, TransactionDetails, Wallet,
};
use mon::{check, harness, viol, Stop};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore};

pub struct Funded {
    pub wallet: Wallet<MemoryDatabase>,
    pub utxos: HashMap<OutPoint, TxOut>,
    pub scripts: HashSet<Script>,
    pub kind: &'static str,
    pub network: Network,
    pub total: u64,
}

pub enum Keys {
    /// receiving and, unless change goes back there too, change addresses
    Descriptor(String, Option<String>),
    Single(bdk::bitcoin::PrivateKey),
}

fn open(keys: &Keys, network: Network, db: MemoryDatabase) -> Result<Wallet<MemoryDatabase>, Stop> {
    match keys {
        Keys::Descriptor(e, i) => Wallet::new(e.as_str(), i.as_deref(), network, db),
        Keys::Single(k) => Wallet::new(bdk::template::P2Wpkh(*k), Some(bdk::template::P2Wpkh(*k)), network, db),
    }
    .map_err(|e| harness(format!("wallet: {e}")))
}

/// a wallet holding `n` coins of the given values
pub fn funded(r: &mut StdRng, network: Network, values: &[u64]) -> Result<Funded, Stop> {
    let mut seed = [0u8; 32];
    r.fill_bytes(&mut seed);
    let xprv = ExtendedPrivKey::new_master(network, &seed).unwrap();
    let (kind, desc) = match r.gen_range(0..5) {
        0 => ("pkh", "pkh(K/44'/0'/0'/N/*)"),
        1 => ("sh-wpkh", "sh(wpkh(K/49'/0'/0'/N/*))"),
        2 => ("tr", "tr(K/86'/0'/0'/N/*)"),
        3 => ("single", ""),
        _ => ("wpkh", "wpkh(K/84'/0'/0'/N/*)"),
    };
    let with = |n: &str| desc.replace('K', &xprv.to_string()).replace("/N/", n);
    let one_chain = r.gen_bool(0.2);
    let keys = match kind {
        "single" => Keys::Single(bdk::bitcoin::PrivateKey { compressed: true, network, inner: xprv.private_key }),
        _ => Keys::Descriptor(with("/0/"), (!one_chain).then(|| with("/1/"))),
    };
    let single_chain = kind == "single" || one_chain;
    let probe = open(&keys, network, MemoryDatabase::default())?;
    let depth = if kind == "single" { 1 } else { 3 };
    let mut db = MemoryDatabase::default();
    let mut scripts = HashSet::new();
    let mut pool = vec![];
    for i in 0..depth {
        let e = probe.get_address(AddressIndex::Peek(i)).map_err(harness)?.script_pubkey();
        let c = probe.get_internal_address(AddressIndex::Peek(i)).map_err(harness)?.script_pubkey();
        db.set_script_pubkey(&e, KeychainKind::External, i).map_err(harness)?;
        if !single_chain {
            db.set_script_pubkey(&c, KeychainKind::Internal, i).map_err(harness)?;
            pool.push((c.clone(), KeychainKind::Internal));
        }
        pool.push((e.clone(), KeychainKind::External));
        scripts.insert(e);
        scripts.insert(c);
    }
    for i in depth..depth + 8 {
        if kind == "single" {
            break;
        }
        scripts.insert(probe.get_internal_address(AddressIndex::Peek(i)).map_err(harness)?.script_pubkey());
    }
    let mut utxos = HashMap::new();
    let mut rest = values;
    while !rest.is_empty() {
        let k = r.gen_range(1..=rest.len());
        let (now, later) = rest.split_at(k);
        rest = later;
        let mut parent = [0u8; 32];
        r.fill_bytes(&mut parent);
        let outs: Vec<(TxOut, KeychainKind)> = now
            .iter()
            .map(|v| {
                let (s, k) = pool.choose(r).unwrap().clone();
                (TxOut { value: *v, script_pubkey: s }, k)
            })
            .collect();
        let tx = Transaction {
            version: 2,
            lock_time: PackedLockTime(0),
            input: vec![TxIn {
                previous_output: OutPoint { txid: Txid::from_inner(parent), vout: 0 },
                script_sig: Script::new(),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            }],
            output: outs.iter().map(|o| o.0.clone()).collect(),
        };
        let txid = tx.txid();
        let total = now.iter().sum();
        let confirmed = r.gen_bool(0.85);
        db.set_tx(&TransactionDetails {
            transaction: Some(tx),
            txid,
            received: total,
            sent: 0,
            fee: Some(0),
            confirmation_time: confirmed.then_some(bdk::BlockTime { height: 100, timestamp: 0 }),
        })
        .map_err(harness)?;
        for (vout, (txout, keychain)) in outs.into_iter().enumerate() {
            let outpoint = OutPoint { txid, vout: vout as u32 };
            utxos.insert(outpoint, txout.clone());
            db.set_utxo(&LocalUtxo { outpoint, txout, keychain, is_spent: false }).map_err(harness)?;
        }
    }
    // coins the wallet had and has already spent
    for _ in 0..*[0, 0, 1, 3].choose(r).unwrap() {
        let mut id = [0u8; 32];
        r.fill_bytes(&mut id);
        let (s, keychain) = pool.choose(r).unwrap().clone();
        let outpoint = OutPoint { txid: Txid::from_inner(id), vout: 0 };
        let txout = TxOut { value: *values.choose(r).unwrap_or(&50_000), script_pubkey: s };
        db.set_utxo(&LocalUtxo { outpoint, txout, keychain, is_spent: true }).map_err(harness)?;
    }
    let wallet = open(&keys, network, db)?;
    let _ = BlockHash::all_zeros();
    Ok(Funded { wallet, utxos, scripts, kind, network, total: values.iter().sum() })
}

/// coin values for a wallet that should (`enough`) or should not cover `need`
pub fn coins(r: &mut StdRng, need: u64, enough: bool) -> Vec<u64> {
    if enough && r.gen_ratio(1, 40) {
        // all the money in many small coins
        let n = r.gen_range(20..90);
        let each = (need + 30_000) / n + 1_500;
        return (0..n).map(|_| each + r.gen_range(0..1000)).collect();
    }
    let n = r.gen_range(1..=6);
    if enough {
        let total = need + 30_000 + if r.gen_bool(0.3) { 0 } else { r.gen_range(0..need.max(1000) * 3 + 50_000) };
        let mut v = vec![];
        let mut left = total;
        for i in 0..n {
            let x = if i + 1 == n { left } else { r.gen_range(1000..=(left / 2).max(1001)).min(left) };
            if x < 1000 {
                break;
            }
            v.push(x);
            left -= x;
        }
        if v.is_empty() {
            v.push(total);
        }
        if r.gen_bool(0.3) {
            let k = *v.choose(r).unwrap();
            v.push(k);
        }
        v
    } else {
        (0..n).map(|_| (need / (n as u64 + 1)).max(1)).collect()
    }
}

fn push_items(script: &Script) -> Option<Vec<Vec<u8>>> {
    script
        .instructions()
        .map(|i| match i {
            Ok(bdk::bitcoin::blockdata::script::Instruction::PushBytes(b)) => Some(b.to_vec()),
            _ => None,
        })
        .collect()
}

/// Verify the authorisation of input `i` over the whole transaction.
pub fn verify_input(tx: &Transaction, i: usize, prev: &[TxOut]) -> Result<(), String> {
    let secp = Secp256k1::verification_only();
    let spk = &prev[i].script_pubkey;
    let b = spk.as_bytes();
    let mut cache = SighashCache::new(tx);
    let wit: Vec<Vec<u8>> = tx.input[i].witness.to_vec();
    let ecdsa_check = |sig: &[u8], pk: &[u8], hash: [u8; 32]| -> Result<(), String> {
        let (ty, der) = sig.split_last().ok_or("empty signature")?;
        if *ty != 1 {
            return Err(format!("signature type {ty:#x} does not cover the whole transaction"));
        }
        let s = ecdsa::Signature::from_der(der).map_err(|e| e.to_string())?;
        let pk = secp256k1::PublicKey::from_slice(pk).map_err(|e| e.to_string())?;
        secp.verify_ecdsa(&Message::from_slice(&hash).unwrap(), &s, &pk).map_err(|e| format!("bad signature: {e}"))
    };
    if b.len() == 34 && b[0] == 0x51 && b[1] == 32 {
        if !tx.input[i].script_sig.is_empty() {
            return Err("taproot input with script_sig".into());
        }
        if wit.len() != 1 {
            return Err(format!("taproot key spend with {} witness items", wit.len()));
        }
        let key = XOnlyPublicKey::from_slice(&b[2..]).map_err(|e| e.to_string())?;
        let (sig, ty) = match wit[0].len() {
            64 => (&wit[0][..], SchnorrSighashType::Default),
            65 if wit[0][64] == 1 => (&wit[0][..64], SchnorrSighashType::All),
            _ => return Err("schnorr signature does not cover the whole transaction".into()),
        };
        let h = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(prev), ty).map_err(|e| e.to_string())?;
        let s = schnorr::Signature::from_slice(sig).map_err(|e| e.to_string())?;
        let _ = TweakedPublicKey::dangerous_assume_tweaked(key);
        return secp
            .verify_schnorr(&s, &Message::from_slice(&h.into_inner()).unwrap(), &key)
            .map_err(|e| format!("bad schnorr signature: {e}"));
    }
    let legacy = b.len() == 25 && b[0] == 0x76;
    if legacy {
        if !wit.is_empty() {
            return Err("legacy input with witness".into());
        }
        let items = push_items(&tx.input[i].script_sig).ok_or("script_sig is not push only")?;
        let [sig, pk] = items.as_slice() else { return Err("p2pkh script_sig shape".into()) };
        if refs::hash160(pk) != b[3..23] {
            return Err("p2pkh key does not match".into());
        }
        let h = cache.legacy_signature_hash(i, spk, 1).map_err(|e| e.to_string())?;
        return ecdsa_check(sig, pk, h.into_inner());
    }
    let program: Vec<u8> = if b.len() == 23 && b[0] == 0xa9 {
        let items = push_items(&tx.input[i].script_sig).ok_or("script_sig is not push only")?;
        let [redeem] = items.as_slice() else { return Err("p2sh script_sig shape".into()) };
        if refs::hash160(redeem) != b[2..22] {
            return Err("p2sh redeem script does not match".into());
        }
        redeem.clone()
    } else {
        if !tx.input[i].script_sig.is_empty() {
            return Err("segwit input with script_sig".into());
        }
        b.to_vec()
    };
    if !(program.len() == 22 && program[0] == 0 && program[1] == 20) {
        return Err(format!("unexpected prevout script {spk:x}"));
    }
    let [sig, pk] = wit.as_slice() else { return Err("p2wpkh witness shape".into()) };
    if refs::hash160(pk) != program[2..] {
        return Err("p2wpkh key does not match".into());
    }
    let mut code = vec![0x76, 0xa9, 0x14];
    code.extend(&program[2..]);
    code.extend([0x88, 0xac]);
    let h = cache
        .segwit_signature_hash(i, &Script::from(code), prev[i].value, EcdsaSighashType::All)
        .map_err(|e| e.to_string())?;
    ecdsa_check(sig, pk, h.into_inner())
}

/// Judge a finished wallet-built transaction against the requested outputs.
/// Returns the fee.
pub fn judge(f: &Funded, tx: &Transaction, requested: &[(Script, u64)]) -> Result<u64, Stop> {
    let mut seen = HashSet::new();
    let mut prev = vec![];
    for i in &tx.input {
        let o = f.utxos.get(&i.previous_output);
        check!(o.is_some(), "foreign-input", "{} spends {} which is not a coin of the wallet", f.kind, i.previous_output);
        check!(seen.insert(i.previous_output), "double-input", "{} spent twice", i.previous_output);
        prev.push(o.unwrap().clone());
    }
    check!(!tx.input.is_empty(), "no-input", "no inputs");
    let total_in: u64 = prev.iter().map(|p| p.value).sum();
    let total_out: u64 = tx.output.iter().map(|o| o.value).sum();
    check!(total_in > total_out, "fee", "inputs {total_in} do not exceed outputs {total_out}");
    for i in 0..tx.input.len() {
        verify_input(tx, i, &prev).map_err(|e| viol("signature", format!("{} wallet, input {i}: {e}", f.kind)))?;
    }
    check!(tx.output.len() >= requested.len(), "outputs", "{} outputs for {} requested", tx.output.len(), requested.len());
    for (k, (s, v)) in requested.iter().enumerate() {
        let o = &tx.output[k];
        check!(
            o.script_pubkey == *s && o.value == *v,
            "outputs",
            "output {k} is {} sat to {:x}, requested {v} sat to {s:x}",
            o.value,
            o.script_pubkey
        );
    }
    for o in &tx.output[requested.len()..] {
        check!(f.scripts.contains(&o.script_pubkey), "change", "extra output {} sat to {:x} is not the wallet's", o.value, o.script_pubkey);
    }
    check!(tx.output.len() <= requested.len() + 1, "change", "{} outputs beyond the requested ones", tx.output.len() - requested.len());
    // value beyond the request and a relay-level fee goes back to the wallet
    let fee = total_in - total_out;
    let vsize = tx.vsize() as u64;
    check!(fee + 2 >= vsize, "fee-too-low", "{} wallet: fee {fee} for {vsize} vbytes is below the relay fee", f.kind);
    // without a change output, what is left may be too little to return
    let bound = 2 * vsize + if tx.output.len() > requested.len() { 60 } else { 640 };
    check!(fee <= bound, "change-lost", "{} wallet: fee {fee} for {vsize} vbytes: change did not return to the wallet", f.kind);
    Ok(fee)
}
