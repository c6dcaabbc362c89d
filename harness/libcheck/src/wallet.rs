//! C19, C20: key derivation and random wallets.
use std::{collections::HashMap, str::FromStr, sync::Mutex};

use bdk::{
    bitcoin::{
        secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey},
        Network as BNet,
    },
    keys::bip39::{Language, Mnemonic},
};
use mon::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore};
use stacks_core::{
    wallet::{BitcoinCredentials, Credentials, Wallet},
    Network,
};

pub fn pk(k: &[u8; 32]) -> [u8; 33] {
    PublicKey::from_secret_key(&Secp256k1::new(), &SecretKey::from_slice(k).unwrap()).serialize()
}
const H: u32 = 1 << 31;
pub fn derive(seed: &[u8], path: &[u32]) -> [u8; 32] {
    let mut x = refs::bip32_master(seed);
    for i in path {
        x = refs::bip32_child(&x, *i, &pk);
    }
    x.key
}
pub fn seed_of(mnemonic: &str) -> [u8; 64] {
    refs::pbkdf2_sha512(mnemonic.as_bytes(), b"mnemonic", 2048)
}
pub fn mnemonic(r: &mut StdRng) -> String {
    let n = *[16usize, 20, 24, 28, 32, 32].choose(r).unwrap();
    let e = crate::gen::bytes(r, n);
    Mnemonic::from_entropy(&e).unwrap().to_string()
}
/// BIP-39 validity written out: known words, right count, checksum
pub fn mnemonic_ok(words: &[&str]) -> bool {
    if ![12, 15, 18, 21, 24].contains(&words.len()) {
        return false;
    }
    let list = Language::English.word_list();
    let mut bits = vec![];
    for w in words {
        let Some(i) = list.iter().position(|x| x == w) else { return false };
        for b in (0..11).rev() {
            bits.push((i >> b & 1) as u8);
        }
    }
    let cs = bits.len() / 33;
    let ent = bits.len() - cs;
    let bytes: Vec<u8> = bits[..ent].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
    let h = refs::sha256(&bytes);
    (0..cs).all(|i| bits[ent + i] == h[i / 8] >> (7 - i % 8) & 1)
}
pub struct BtcRef {
    pub key: [u8; 32],
    pub address: String,
}
pub fn btc_ref(seed: &[u8], net: BNet, purpose: u32, index: u32) -> BtcRef {
    let coin = if net == BNet::Bitcoin { 0 } else { 1 };
    let key = derive(seed, &[H + purpose, H + coin, H + index, 0, 0]);
    let p = pk(&key);
    let hrp = match net {
        BNet::Bitcoin => "bc",
        BNet::Regtest => "bcrt",
        _ => "tb",
    };
    let address = match purpose {
        44 => refs::b58check(if net == BNet::Bitcoin { 0 } else { 111 }, &refs::hash160(&p)),
        84 => refs::segwit_address(hrp, 0, &refs::hash160(&p)),
        _ => {
            // BIP-86: output key = P + H_TapTweak(P) G with even-Y P
            let secp = Secp256k1::new();
            let x = &p[1..];
            let even = PublicKey::from_slice(&[&[2u8][..], x].concat()).unwrap();
            let t = refs::tagged("TapTweak", x);
            let q = even.add_exp_tweak(&secp, &Scalar::from_be_bytes(t).unwrap()).unwrap().serialize();
            refs::segwit_address(hrp, 1, &q[1..])
        }
    };
    BtcRef { key, address }
}
pub fn index(r: &mut StdRng) -> u32 {
    match r.gen_range(0..6) {
        0 => r.gen_range(0..4),
        1 => (1 << 31) - 1,
        2 => r.gen_range(0..1 << 31),
        3 => 1 << r.gen_range(0..31),
        4 => r.gen_range(0..300),
        _ => r.gen_range((1u32 << 31) - 5..1 << 31),
    }
}

/// what was stored as JSON loads again
fn stored<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, v: &T) -> Result<T, Stop> {
    let t = total(what, || serde_json::to_string(v))?.map_err(|e| viol("stored", format!("{what}: {e}")))?;
    total(what, || serde_json::from_str(&t))?.map_err(|e| viol("stored", format!("{what} {t}: {e}")))
}

pub fn c19(run: &mut Run) {
    let n = run.n(700, 30_000);
    run.stream("derivation", n, |c| {
        let m = mnemonic(&mut c.rng);
        let seed = seed_of(&m);
        let w = total("Wallet::new", || Wallet::new(&m))?.map_err(|e| viol("mnemonic", format!("{m}: {e}")))?;
        check_eq!(w.mnemonic().to_string(), m, "mnemonic", "kept mnemonic");
        check_eq!(w.master_key().secret_bytes(), derive(&seed, &[]), "master", "master key");
        for net in [Network::Mainnet, Network::Testnet] {
            let main = net == Network::Mainnet;
            check_eq!(w.wif(net).to_string(), refs::wif(main, &derive(&seed, &[])).1, "master-wif", "master WIF");
            for i in [index(&mut c.rng), index(&mut c.rng)] {
                let k = derive(&seed, &[H + 44, H + 5757, H, 0, i]);
                let cr = total("credentials", || w.credentials(net, i))?.map_err(|e| viol("index", format!("index {i}: {e}")))?;
                check_eq!(hex::encode(cr.private_key().secret_bytes()), hex::encode(k), "stacks-key", "Stacks key at {i} of {m}");
                check_eq!(cr.public_key().serialize(), pk(&k), "stacks-pub", "Stacks public key");
                check_eq!(cr.network(), net, "network", "network");
                check_eq!(cr.address().to_string(), refs::stacks_address(if main { 22 } else { 26 }, &refs::hash160(&pk(&k))), "stacks-address", "Stacks address at {i}");
                check_eq!(cr.wif().to_string(), refs::wif(main, &k).1, "stacks-wif", "Stacks WIF at {i}");
                c.count("stacks_credentials");
                let back: Credentials = stored("credentials", &cr)?;
                check_eq!((back.network(), back.private_key().secret_bytes()), (net, k), "stored", "credentials loaded from their JSON");
            }
        }
        let net = *crate::gen::NETWORKS.choose(&mut c.rng).unwrap();
        for i in [index(&mut c.rng), index(&mut c.rng)] {
            let b = total("bitcoin_credentials", || w.bitcoin_credentials(net, i))?.map_err(|e| viol("index", format!("index {i}: {e}")))?;
            check_eq!(b.network(), net, "network", "Bitcoin network");
            let main = net == BNet::Bitcoin;
            for (purpose, k, p, a, wif) in [
                (44, b.private_key_p2pkh(), b.public_key_p2pkh(), b.address_p2pkh(), b.wif_p2pkh()),
                (84, b.private_key_p2wpkh(), b.public_key_p2wpkh(), b.address_p2wpkh(), b.wif_p2wpkh()),
                (86, b.private_key_p2tr(), b.public_key_p2tr(), b.address_p2tr(), b.wif_p2tr()),
            ] {
                let r = btc_ref(&seed, net, purpose, i);
                check_eq!(hex::encode(k.secret_bytes()), hex::encode(r.key), "btc-key", "BIP-{purpose} key at {i} on {net} of {m}");
                check_eq!(p.serialize(), pk(&r.key), "btc-pub", "BIP-{purpose} public key");
                check_eq!(a.to_string(), r.address, "btc-address", "BIP-{purpose} address at {i} on {net}");
                check_eq!(wif.to_string(), refs::wif(main, &r.key).1, "btc-wif", "BIP-{purpose} WIF on {net}");
                c.count("bitcoin_credentials");
            }
            let back: BitcoinCredentials = stored("bitcoin credentials", &b)?;
            check_eq!(
                (back.network(), back.private_key_p2pkh(), back.private_key_p2wpkh(), back.private_key_p2tr()),
                (net, b.private_key_p2pkh(), b.private_key_p2wpkh(), b.private_key_p2tr()),
                "stored", "Bitcoin credentials loaded from their JSON"
            );
        }
        let back: Wallet = stored("wallet", &w)?;
        check_eq!((back.mnemonic().to_string(), back.master_key().secret_bytes()), (m.clone(), derive(&seed, &[])), "stored", "wallet loaded from its JSON");
        let i = index(&mut c.rng);
        let k = derive(&seed, &[H + 44, H + 5757, H, 0, i]);
        let cr = total("credentials", || back.credentials(Network::Testnet, i))?.map_err(|e| viol("stored", format!("index {i}: {e}")))?;
        check_eq!(cr.private_key().secret_bytes(), k, "stored", "key {i} of a wallet loaded from its JSON");
        // indices without a path
        for i in [1u32 << 31, u32::MAX, c.rng.gen_range(1 << 31..=u32::MAX)] {
            let r = total("credentials", || w.credentials(Network::Mainnet, i).is_err())?;
            check!(r, "bad-index", "Stacks credentials for impossible index {i}");
            let r = total("bitcoin_credentials", || w.bitcoin_credentials(net, i).is_err())?;
            check!(r, "bad-index", "Bitcoin credentials for impossible index {i}");
            c.count("impossible_index_refused");
        }
        c.evals(20);
        c.nontrivial(&m);
        c.sample(|| json!({"mnemonic": m}));
        Ok(())
    });
    let n = run.n(4_000, 100_000);
    run.stream("invalid-mnemonics", n, |c| {
        let m = mnemonic(&mut c.rng);
        let mut w: Vec<String> = m.split(' ').map(|s| s.to_string()).collect();
        match c.rng.gen_range(0..6) {
            0 => {
                w.pop();
            }
            1 => {
                let i = c.rng.gen_range(0..w.len());
                w[i] = "notaword".into();
            }
            2 => {
                let i = c.rng.gen_range(0..w.len());
                w[i] = Language::English.word_list().choose(&mut c.rng).unwrap().to_string();
            }
            3 => w.push("abandon".into()),
            4 => {
                let i = c.rng.gen_range(0..w.len());
                let j = c.rng.gen_range(0..w.len());
                w.swap(i, j);
            }
            _ => {
                let n = c.rng.gen_range(0..w.len());
                w.truncate(n);
            }
        }
        let refs_: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
        let want = mnemonic_ok(&refs_);
        let t = w.join(" ");
        let r = total("Wallet::new", || Wallet::new(&t).is_ok())?;
        check_eq!(r, want, "mnemonic-verdict", "mnemonic {t:?} accepted");
        c.count(if want { "mnemonic_valid" } else { "mnemonic_rejected" });
        c.nontrivial(t);
        Ok(())
    });
    run.require("stacks_credentials", 500);
    run.require("mnemonic_rejected", 500);
}

fn check_fresh(m: &str) -> Result<[u8; 32], Stop> {
    let words: Vec<&str> = m.split(' ').collect();
    check_eq!(words.len(), 24, "words", "number of words of {m:?}");
    check!(mnemonic_ok(&words), "valid", "random mnemonic {m:?} is invalid");
    let e = Mnemonic::from_str(m).map_err(|e| viol("valid", e))?.to_entropy();
    e.try_into().map_err(|_| viol("words", "entropy size"))
}
pub fn c20(run: &mut Run) {
    let seen: Mutex<HashMap<[u8; 32], String>> = Mutex::new(HashMap::new());
    let parts: Mutex<std::collections::HashSet<(u8, [u8; 8])>> = Mutex::default();
    let bits = Mutex::new(([0u64; 256], 0u64));
    let keys: Mutex<HashMap<Vec<u8>, ()>> = Mutex::new(HashMap::new());
    let n = run.n(1_200, 30_000);
    let note = |e: [u8; 32], origin: String| -> CaseResult {
        if let Some(o) = seen.lock().unwrap().insert(e, origin.clone()) {
            return Err(viol("repeat", format!("two random wallets share a mnemonic: {o} and {origin}")));
        }
        // a part shared with another wallet: entropy stretched from less, or counted up
        {
            let mut p = parts.lock().unwrap();
            for (i, x) in e.chunks(8).enumerate() {
                let x: [u8; 8] = x.try_into().unwrap();
                if !p.insert((i as u8, x)) {
                    return Err(viol("repeat-part", format!("{origin} shares bytes {}..{} of its entropy with another random wallet", 8 * i, 8 * i + 8)));
                }
            }
            for i in 0..4 {
                for j in 0..i {
                    check!(e[8 * i..8 * i + 8] != e[8 * j..8 * j + 8], "repeat-part", "{origin} repeats 8 bytes within its entropy");
                }
            }
        }
        let mut b = bits.lock().unwrap();
        for i in 0..256 {
            b.0[i] += (e[i / 8] >> (7 - i % 8) & 1) as u64;
        }
        b.1 += 1;
        Ok(())
    };
    // all worker threads create wallets at the same time
    run.stream("threads", n, |c| {
        let w = total("Wallet::random", Wallet::random)?.map_err(|e| viol("random", e))?;
        let m = w.mnemonic().to_string();
        let e = check_fresh(&m)?;
        note(e, format!("thread wallet {}", c.idx))?;
        let k = w.master_key().secret_bytes();
        check_eq!(k, derive(&seed_of(&m), &[]), "recover", "master key of the printed mnemonic");
        if keys.lock().unwrap().insert(k.to_vec(), ()).is_some() {
            return Err(viol("repeat", "two random wallets share a master key"));
        }
        if c.idx % 8 == 0 {
            let i = index(&mut c.rng);
            let again = total("Wallet::new", || Wallet::new(&m))?.map_err(|e| viol("recover", e))?;
            for net in [Network::Mainnet, Network::Testnet] {
                let (a, b) = (w.credentials(net, i), again.credentials(net, i));
                check_eq!(a.map_err(|e| viol("recover", e))?.private_key(), b.map_err(|e| viol("recover", e))?.private_key(), "recover", "key {i}");
            }
            let (a, b) = (w.bitcoin_credentials(BNet::Testnet, i), again.bitcoin_credentials(BNet::Testnet, i));
            let (a, b) = (a.map_err(|e| viol("recover", e))?, b.map_err(|e| viol("recover", e))?);
            check!(a.private_key_p2pkh() == b.private_key_p2pkh() && a.private_key_p2wpkh() == b.private_key_p2wpkh() && a.private_key_p2tr() == b.private_key_p2tr(), "recover", "Bitcoin keys differ");
            c.count("recovered");
        }
        c.count("wallet");
        c.nontrivial(e);
        Ok(())
    });
    // fresh processes started together, and short-lived fresh threads
    let procs = run.n(24, 200);
    run.stream("processes", procs, |c| {
        let exe = std::env::current_exe().map_err(harness)?;
        let out = std::process::Command::new(exe).arg("--random-wallets").arg("8").output().map_err(harness)?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if !out.status.success() {
            return Err(viol("random", format!("creating wallets in a fresh process failed: {}", String::from_utf8_lossy(&out.stderr))));
        }
        for l in text.lines() {
            let e = check_fresh(l)?;
            note(e, format!("process {}", c.idx))?;
            c.count("process_wallet");
            c.nontrivial(e);
        }
        Ok(())
    });
    run.stream("fresh-threads", procs, |c| {
        let ms: Vec<String> = std::thread::scope(|s| {
            let h: Vec<_> = (0..8).map(|_| s.spawn(|| guard(|| Wallet::random().map(|w| w.mnemonic().to_string())))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        })
        .into_iter()
        .map(|r| r.map_err(|e| viol("abort:random", e)).and_then(|r| r.map_err(|e| viol("random", e))))
        .collect::<Result<_, _>>()?;
        for m in ms {
            let e = check_fresh(&m)?;
            note(e, format!("fresh thread of {}", c.idx))?;
            c.count("thread_wallet");
            c.nontrivial(e);
        }
        Ok(())
    });
    // enough wallets for a generator with a 32-bit state to repeat itself (4.6 repeats expected of 200 000)
    let many = run.n(200_000, 1_500_000);
    run.stream("many", many / 100, |c| {
        for k in 0..100 {
            let w = total("Wallet::random", Wallet::random)?.map_err(|e| viol("random", e))?;
            let e: [u8; 32] = w.mnemonic().to_entropy().try_into().map_err(|_| viol("words", "entropy size"))?;
            note(e, format!("wallet {k} of {}", c.idx))?;
        }
        c.evals(99);
        c.count_n("many_wallets", 100);
        c.nontrivial(c.idx);
        Ok(())
    });
    let b = bits.lock().unwrap();
    if b.1 >= 200 {
        for i in 0..256 {
            if b.0[i] == 0 || b.0[i] == b.1 {
                let v = Viol { sig: "constant-bit".into(), msg: format!("entropy bit {i} is the same in all {} wallets", b.1) };
                run.report("threads", 0, v, Value::Null);
                break;
            }
        }
    }
    if b.1 >= 2000 {
        let (n, sd) = (b.1 as f64, (b.1 as f64).sqrt() / 2.0);
        if let Some(i) = (0..256).find(|i| (b.0[*i] as f64 - n / 2.0).abs() > 8.0 * sd) {
            if b.0[i] != 0 && b.0[i] != b.1 {
                let v = Viol { sig: "biased-bit".into(), msg: format!("entropy bit {i} is one in {} of {} wallets", b.0[i], b.1) };
                run.report("threads", 0, v, Value::Null);
            }
        }
    }
    let total = b.1;
    let (lo, hi) = (b.0.iter().min().unwrap(), b.0.iter().max().unwrap());
    run.extra("entropy_bits", json!({"wallets": total, "min_ones": lo, "max_ones": hi}));
    run.require("wallet", 500);
    run.require("process_wallet", 100);
}
pub fn print_random(n: usize) {
    for _ in 0..n {
        println!("{}", Wallet::random().unwrap().mnemonic());
    }
    let _ = rand::thread_rng().next_u32();
}
