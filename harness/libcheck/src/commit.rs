//! C08-C09: commit-reveal operations of sbtc-core.
use bdk::bitcoin::{
    hashes::Hash,
    secp256k1::{ecdsa::RecoverableSignature, ecdsa::RecoveryId, Message, Parity, Scalar, Secp256k1, XOnlyPublicKey},
    Amount, Network, OutPoint, Script, Transaction, Txid,
};
use mon::{check, check_eq, harness, json, total, viol, Case, CaseResult, Run, Stop};
use rand::{rngs::StdRng, Rng};
use sbtc_core::operations::commit_reveal::{
    deposit::{deposit_commit_address, deposit_reveal_unsigned_tx, DepositData},
    utils::{commit, reveal, RevealInputs},
    withdrawal_request::{withdrawal_request_commit_address, withdrawal_request_reveal_unsigned_tx, WithdrawalData},
};
use stacks_core::codec::Codec;

use crate::{
    gen::*,
    ops::{op_return, push, ref_principal},
};

const NUMS: &str = "50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0";

fn xonly(r: &mut StdRng) -> XOnlyPublicKey {
    pubkey(r).x_only_public_key().0
}
fn leaf(version: u8, script: &[u8]) -> [u8; 32] {
    let mut b = vec![version];
    match script.len() {
        n @ 0..=252 => b.push(n as u8),
        n @ 253..=65535 => {
            b.push(0xfd);
            b.extend((n as u16).to_le_bytes());
        }
        n => {
            b.push(0xfe);
            b.extend((n as u32).to_le_bytes());
        }
    }
    b.extend(script);
    refs::tagged("TapLeaf", &b)
}
fn branch(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    refs::tagged("TapBranch", &[a.as_slice(), b.as_slice()].concat())
}
/// BIP-341 output key for an internal key and a Merkle root
fn tweak(internal: &[u8], root: &[u8; 32]) -> Result<(XOnlyPublicKey, Parity), Stop> {
    let k = XOnlyPublicKey::from_slice(internal).map_err(harness)?;
    let t = refs::tagged("TapTweak", &[internal, root.as_slice()].concat());
    k.add_tweak(&Secp256k1::new(), &Scalar::from_be_bytes(t).map_err(|e| harness(format!("{e}")))?).map_err(harness)
}
fn p2tr(k: &XOnlyPublicKey) -> Vec<u8> {
    let mut s = vec![0x51, 32];
    s.extend(k.serialize());
    s
}
fn data_leaf(data: &[u8], revealer: &XOnlyPublicKey) -> Vec<u8> {
    let mut s = vec![];
    push(&mut s, data);
    s.push(0x75);
    s.push(32);
    s.extend(revealer.serialize());
    s.push(0xac);
    s
}
fn reclaim_leaf(k: &XOnlyPublicKey) -> Vec<u8> {
    let mut s = vec![32];
    s.extend(k.serialize());
    s.push(0xac);
    s
}
fn want_output(data: &[u8], revealer: &XOnlyPublicKey, reclaim: &XOnlyPublicKey) -> Result<Vec<u8>, Stop> {
    let root = branch(&leaf(0xc0, &data_leaf(data, revealer)), &leaf(0xc0, &reclaim_leaf(reclaim)));
    Ok(p2tr(&tweak(&hex::decode(NUMS).unwrap(), &root)?.0))
}
/// BIP-341 script-path validation of the reveal's only input
fn check_reveal(
    tx: &Transaction,
    data: &[u8],
    revealer: &XOnlyPublicKey,
    commit_spk: &[u8],
    out: OutPoint,
    magic: &[u8; 2],
) -> Result<(), Stop> {
    check_eq!(tx.input.len(), 1, "reveal-inputs", "reveal inputs");
    check_eq!(tx.input[0].previous_output, out, "reveal-outpoint", "spent outpoint");
    check!(tx.input[0].script_sig.is_empty(), "reveal-scriptsig", "script_sig is not empty");
    let w = tx.input[0].witness.to_vec();
    check!(w.len() >= 2, "reveal-witness", "{} witness items", w.len());
    let (script, cb) = (&w[w.len() - 2], &w[w.len() - 1]);
    check!(*script == data_leaf(data, revealer), "reveal-script", "witness script {script:02x?} does not drop exactly the data and check the revealer key");
    check!(cb.len() >= 33 && (cb.len() - 33) % 32 == 0 && cb.len() <= 33 + 128 * 32, "control-block", "control block of {} bytes", cb.len());
    check_eq!(hex::encode(&cb[1..33]), NUMS.to_string(), "internal-key", "internal key");
    let mut k = leaf(cb[0] & 0xfe, script);
    check_eq!(cb[0] & 0xfe, 0xc0, "control-block", "leaf version");
    for e in cb[33..].chunks(32) {
        k = branch(&k, e.try_into().unwrap());
    }
    let (q, parity) = tweak(&cb[1..33], &k)?;
    check!(p2tr(&q) == commit_spk, "control-block", "control block does not prove the script in the commit output");
    check_eq!(cb[0] & 1, parity.to_u8(), "control-block", "parity bit");
    check!(tx.version == 1 || tx.version == 2, "reveal-shape", "transaction version {} is not relayed", tx.version);
    check_eq!(tx.lock_time.0, 0, "reveal-shape", "lock time");
    let o = tx.output.first().ok_or_else(|| viol("reveal-outputs", "no outputs"))?;
    let want = op_return(&[magic[0], magic[1], b'w']);
    check!(o.value == 0 && o.script_pubkey == want, "reveal-opreturn", "first output is {} sat to {:x}", o.value, o.script_pubkey);
    Ok(())
}
fn outpoint(r: &mut StdRng) -> OutPoint {
    OutPoint { txid: Txid::from_inner(arr(r)), vout: r.gen_range(0..5) }
}
fn signature(r: &mut StdRng) -> RecoverableSignature {
    let m: [u8; 32] = arr(r);
    Secp256k1::new().sign_ecdsa_recoverable(&Message::from_slice(&m).unwrap(), &secret(r))
}
fn sig_wire(s: &RecoverableSignature) -> Vec<u8> {
    let (id, b) = s.serialize_compact();
    let mut w = vec![id.to_i32() as u8];
    w.extend(b);
    w
}
fn raw_case(c: &mut Case) -> CaseResult {
    let len = match c.rng.gen_range(0..6) {
        0 => c.rng.gen_range(0..4),
        1 => c.rng.gen_range(70..80),
        2 => c.rng.gen_range(250..260),
        3 => c.rng.gen_range(500..600),
        4 if c.idx % 40 == 0 => 65_536,
        _ => c.rng.gen_range(0..300),
    };
    let data = bytes(&mut c.rng, len);
    let (revealer, reclaim) = (xonly(&mut c.rng), xonly(&mut c.rng));
    let want = want_output(&data, &revealer, &reclaim)?;
    c.nontrivial((&data, revealer.serialize(), reclaim.serialize()));
    let addr = total("commit", || commit(&data, &revealer, &reclaim))?.map_err(|e| viol("commit", e))?;
    check_eq!(addr.script_pubkey().to_bytes(), want, "commit-output", "commit output for {} data bytes", data.len());
    let mg: [u8; 2] = c.rng.gen();
    let out = outpoint(&mut c.rng);
    let tx = total("reveal", || {
        reveal(&data, RevealInputs { commit_output: out, stacks_magic_bytes: &mg, revealer_key: &revealer, reclaim_key: &reclaim })
    })?
    .map_err(|e| viol("reveal", e))?;
    check_reveal(&tx, &data, &revealer, &want, out, &mg)?;
    c.count("control_blocks_verified");
    // any other data or key gives another address
    let mut d2 = data.clone();
    if d2.is_empty() || c.rng.gen_bool(0.3) {
        d2.push(c.rng.gen());
    } else {
        let i = c.rng.gen_range(0..d2.len());
        d2[i] ^= 1 << c.rng.gen_range(0..8);
    }
    let other = total("commit", || commit(&d2, &revealer, &reclaim))?.map_err(|e| viol("commit", e))?;
    check!(other.script_pubkey() != addr.script_pubkey(), "commit-collision", "data {data:02x?} and {d2:02x?} share an address");
    let k2 = xonly(&mut c.rng);
    for (a, b) in [(&k2, &reclaim), (&revealer, &k2), (&reclaim, &revealer)] {
        if (a, b) == (&revealer, &reclaim) {
            continue;
        }
        let other = total("commit", || commit(&data, a, b))?.map_err(|e| viol("commit", e))?;
        check!(other.script_pubkey() != addr.script_pubkey(), "commit-collision", "different keys share an address");
    }
    c.sample(|| json!({"data_len": data.len(), "address": addr.to_string()}));
    Ok(())
}
fn money(r: &mut StdRng) -> u64 {
    match r.gen_range(0..4) {
        0 => r.gen_range(0..1000),
        1 => r.gen_range(0..2_100_000_000_000_000),
        2 => 0,
        _ => r.gen_range(0..10_000_000),
    }
}
fn deposit_case(c: &mut Case) -> CaseResult {
    let p = principal(&mut c.rng);
    let (rest, fee) = (money(&mut c.rng), money(&mut c.rng));
    let (revealer, reclaim) = (xonly(&mut c.rng), xonly(&mut c.rng));
    let sbtc = btc_addr(&mut c.rng, Network::Testnet);
    let mut enc = vec![b'<'];
    enc.extend(&p.wire);
    enc.extend(fee.to_be_bytes());
    c.nontrivial((&enc, rest));
    let data = || DepositData { principal: p.data.clone(), reveal_fee: Amount::from_sat(fee) };
    let want = want_output(&enc, &revealer, &reclaim)?;
    let addr = total("deposit_commit_address", || deposit_commit_address(data(), &revealer, &reclaim))?.map_err(|e| viol("commit", e))?;
    check_eq!(addr.script_pubkey().to_bytes(), want, "commit-output", "deposit commit output");
    let mg = magic(NETWORKS[c.rng.gen_range(0..4)]);
    let out = outpoint(&mut c.rng);
    let inputs = RevealInputs { commit_output: out, stacks_magic_bytes: &mg, revealer_key: &revealer, reclaim_key: &reclaim };
    let committed = rest + fee;
    if fee > 0 {
        // the commit does not cover the fee it announces
        let short = if c.rng.gen_bool(0.5) { fee - 1 } else { c.rng.gen_range(0..fee) };
        let inputs = RevealInputs { commit_output: out, stacks_magic_bytes: &mg, revealer_key: &revealer, reclaim_key: &reclaim };
        let got = total("deposit_reveal_unsigned_tx", || deposit_reveal_unsigned_tx(data(), inputs, Amount::from_sat(short), sbtc.clone()))?;
        check!(got.is_err(), "overspend", "reveal of {short} sat with reveal fee {fee} was built");
        c.count("overspend_refused");
    }
    let tx = total("deposit_reveal_unsigned_tx", || deposit_reveal_unsigned_tx(data(), inputs, Amount::from_sat(committed), sbtc.clone()))?
        .map_err(|e| viol("reveal", e))?;
    check_reveal(&tx, &enc, &revealer, &want, out, &mg)?;
    let outs: Vec<(u64, Script)> = tx.output[1..].iter().map(|o| (o.value, o.script_pubkey.clone())).collect();
    check_eq!(outs, vec![(rest, sbtc.script_pubkey())], "reveal-payment", "deposit of {committed} with reveal fee {fee}");
    c.count("deposits");
    Ok(())
}
fn withdrawal_case(c: &mut Case) -> CaseResult {
    let (rest, fee, ful) = (money(&mut c.rng), money(&mut c.rng), money(&mut c.rng));
    let (revealer, reclaim) = (xonly(&mut c.rng), xonly(&mut c.rng));
    let (sbtc, recipient) = (btc_addr(&mut c.rng, Network::Testnet), btc_addr(&mut c.rng, Network::Testnet));
    let sig = signature(&mut c.rng);
    let amount = u64s(&mut c.rng);
    let mut enc = vec![b'>'];
    enc.extend(amount.to_be_bytes());
    enc.extend(sig_wire(&sig));
    enc.extend(fee.to_be_bytes());
    c.nontrivial((&enc, rest, ful));
    let data = || WithdrawalData { amount: Amount::from_sat(amount), signature: sig, reveal_fee: Amount::from_sat(fee) };
    let want = want_output(&enc, &revealer, &reclaim)?;
    let addr = total("withdrawal_request_commit_address", || withdrawal_request_commit_address(data(), &revealer, &reclaim))?
        .map_err(|e| viol("commit", e))?;
    check_eq!(addr.script_pubkey().to_bytes(), want, "commit-output", "withdrawal commit output");
    let mg = magic(NETWORKS[c.rng.gen_range(0..4)]);
    let out = outpoint(&mut c.rng);
    let inputs = RevealInputs { commit_output: out, stacks_magic_bytes: &mg, revealer_key: &revealer, reclaim_key: &reclaim };
    let committed = rest + fee + ful;
    if fee + ful > 0 {
        let short = match c.rng.gen_range(0..3) {
            0 => fee + ful - 1,
            1 => fee.min(fee + ful - 1),
            _ => c.rng.gen_range(0..fee + ful),
        };
        let inputs = RevealInputs { commit_output: out, stacks_magic_bytes: &mg, revealer_key: &revealer, reclaim_key: &reclaim };
        let got = total("withdrawal_request_reveal_unsigned_tx", || {
            withdrawal_request_reveal_unsigned_tx(data(), inputs, Amount::from_sat(ful), Amount::from_sat(short), sbtc.clone(), recipient.clone())
        })?;
        check!(got.is_err(), "overspend", "reveal of {short} sat with fees {fee} and {ful} was built");
        c.count("overspend_refused");
    }
    let tx = total("withdrawal_request_reveal_unsigned_tx", || {
        withdrawal_request_reveal_unsigned_tx(
            data(),
            inputs,
            Amount::from_sat(ful),
            Amount::from_sat(committed),
            sbtc.clone(),
            recipient.clone(),
        )
    })?
    .map_err(|e| viol("reveal", e))?;
    check_reveal(&tx, &enc, &revealer, &want, out, &mg)?;
    let outs: Vec<(u64, Script)> = tx.output[1..].iter().map(|o| (o.value, o.script_pubkey.clone())).collect();
    check_eq!(
        outs,
        vec![(rest, recipient.script_pubkey()), (ful, sbtc.script_pubkey())],
        "reveal-payment",
        "withdrawal of {committed}, reveal fee {fee}, fulfillment fee {ful}"
    );
    c.count("withdrawals");
    Ok(())
}
pub fn c08(run: &mut Run) {
    run.assume("secp256k1 point tweaking is trusted");
    run.require("overspend_refused", 1000);
    run.require("control_blocks_verified", 500);
    run.require("deposits", 300);
    run.require("withdrawals", 300);
    run.stream("raw", run.n(6000, 200_000), raw_case);
    run.stream("deposit", run.n(6000, 200_000), deposit_case);
    run.stream("withdrawal", run.n(6000, 200_000), withdrawal_case);
}

// ---------------------------------------------------------------- C09
fn ref_deposit(d: &[u8]) -> Option<usize> {
    if d.first() != Some(&b'<') {
        return None;
    }
    let p = ref_principal(&d[1..])?;
    let n = 1 + p.len() + 8;
    (d.len() >= n).then_some(n)
}
fn ref_withdrawal(d: &[u8]) -> Option<usize> {
    if d.first() != Some(&b'>') || d.len() < 82 {
        return None;
    }
    let id = RecoveryId::from_i32(d[9] as i32).ok()?;
    RecoverableSignature::from_compact(&d[10..74], id).ok()?;
    Some(82)
}
pub fn c09(run: &mut Run) {
    run.require("roundtrips", 3000);
    run.require("damaged_rejected", 1000);
    run.require("damaged_accepted", 500);
    run.stream("data", run.n(60_000, 3_000_000), |c| {
        let dep = c.rng.gen_bool(0.5);
        let fee = u64s(&mut c.rng);
        let enc;
        if dep {
            let p = principal(&mut c.rng);
            let mut w = vec![b'<'];
            w.extend(&p.wire);
            w.extend(fee.to_be_bytes());
            let got = total("DepositData::serialize", || {
                DepositData { principal: p.data.clone(), reveal_fee: Amount::from_sat(fee) }.serialize_to_vec()
            })?;
            check_eq!(got, w, "deposit-encode", "deposit to {}", p.text);
            let back = total("DepositData::deserialize", || DepositData::codec_deserialize(&mut &w[..]))?.map_err(|e| viol("deposit-decode", e))?;
            check_eq!(back.principal, p.data, "deposit-decode", "principal");
            check_eq!(back.reveal_fee.to_sat(), fee, "deposit-decode", "reveal fee");
            enc = w;
        } else {
            let sig = signature(&mut c.rng);
            let amount = u64s(&mut c.rng);
            let mut w = vec![b'>'];
            w.extend(amount.to_be_bytes());
            w.extend(sig_wire(&sig));
            w.extend(fee.to_be_bytes());
            let got = total("WithdrawalData::serialize", || {
                WithdrawalData { amount: Amount::from_sat(amount), signature: sig, reveal_fee: Amount::from_sat(fee) }.serialize_to_vec()
            })?;
            check_eq!(got, w, "withdrawal-encode", "withdrawal of {amount}");
            let back = total("WithdrawalData::deserialize", || WithdrawalData::codec_deserialize(&mut &w[..]))?
                .map_err(|e| viol("withdrawal-decode", e))?;
            check_eq!(back.amount.to_sat(), amount, "withdrawal-decode", "amount");
            check_eq!(back.reveal_fee.to_sat(), fee, "withdrawal-decode", "reveal fee");
            check_eq!(back.signature, sig, "withdrawal-decode", "signature");
            enc = w;
        }
        c.count("roundtrips");
        c.nontrivial(&enc);
        c.sample(|| json!({"deposit": dep, "bytes": hex::encode(&enc)}));
        for _ in 0..6 {
            let mut d = enc.clone();
            match c.rng.gen_range(0..6) {
                0 => {
                    let k = c.rng.gen_range(0..d.len());
                    d.truncate(k);
                }
                1 => {
                    let k = c.rng.gen_range(1..9);
                    let mut x = bytes(&mut c.rng, k);
                    d.append(&mut x);
                }
                2 => d[0] = c.rng.gen(),
                3 => {
                    let i = c.rng.gen_range(0..d.len().min(26));
                    d[i] = c.rng.gen();
                }
                4 => {
                    let k = c.rng.gen_range(0..100);
                    d = bytes(&mut c.rng, k);
                    if !d.is_empty() && c.rng.gen_bool(0.7) {
                        d[0] = if c.rng.gen_bool(0.5) { b'<' } else { b'>' };
                    }
                }
                _ => {
                    let i = c.rng.gen_range(0..d.len());
                    d[i] ^= 1 << c.rng.gen_range(0..8);
                }
            }
            let mut s = &d[..];
            let got = total("DepositData::deserialize", || DepositData::codec_deserialize(&mut s))?.ok().map(|x| (d.len() - s.len(), x.serialize_to_vec()));
            let want = ref_deposit(&d).map(|n| (n, d[..n].to_vec()));
            check_eq!(got, want, "deposit-damaged", "decoding {d:02x?} as deposit data");
            let mut s = &d[..];
            let got2 = total("WithdrawalData::deserialize", || WithdrawalData::codec_deserialize(&mut s))?.ok().map(|x| (d.len() - s.len(), x.serialize_to_vec()));
            let want2 = ref_withdrawal(&d).map(|n| (n, d[..n].to_vec()));
            check_eq!(got2, want2, "withdrawal-damaged", "decoding {d:02x?} as withdrawal data");
            c.evals(2);
            if got.is_some() || got2.is_some() {
                c.count("damaged_accepted");
            } else {
                c.count("damaged_rejected");
            }
        }
        Ok(())
    });
}
