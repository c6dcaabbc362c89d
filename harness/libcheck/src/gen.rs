//! Generators shared by the library checks.
use bdk::bitcoin::{
    hashes::Hash,
    secp256k1::{PublicKey, Secp256k1, SecretKey},
    util::address::{Payload, WitnessVersion},
    Address as BtcAddress, Network, PubkeyHash, Script, ScriptHash,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore};
use stacks_core::{
    address::{AddressVersion, StacksAddress},
    contract_name::ContractName,
    crypto::hash160::Hash160Hasher,
    utils::{PrincipalData, StandardPrincipalData},
};

pub const VERSIONS: [AddressVersion; 4] = [
    AddressVersion::MainnetSingleSig,
    AddressVersion::MainnetMultiSig,
    AddressVersion::TestnetSingleSig,
    AddressVersion::TestnetMultiSig,
];
pub const VERSION_BYTES: [u8; 4] = [22, 20, 26, 21];
pub const NETWORKS: [Network; 4] = [Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest];

pub fn version(r: &mut StdRng) -> (AddressVersion, u8) {
    let i = r.gen_range(0..4);
    (VERSIONS[i], VERSION_BYTES[i])
}
/// bytes with structure: random, zero/ff runs, leading zeros
pub fn bytes(r: &mut StdRng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    match r.gen_range(0..8) {
        0 => v.fill(0),
        1 => v.fill(0xff),
        2 => {
            r.fill_bytes(&mut v);
            let k = r.gen_range(0..=n);
            v[..k].fill(0);
        }
        3 => {
            r.fill_bytes(&mut v);
            let k = r.gen_range(0..=n);
            v[n - k..].fill(0);
        }
        4 => {
            for b in v.iter_mut() {
                *b = *[0u8, 1, 0x7f, 0x80, 0xff].choose(r).unwrap();
            }
        }
        _ => r.fill_bytes(&mut v),
    }
    v
}
pub fn arr<const N: usize>(r: &mut StdRng) -> [u8; N] {
    bytes(r, N).try_into().unwrap()
}
pub fn u64s(r: &mut StdRng) -> u64 {
    match r.gen_range(0..8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1u64 << r.gen_range(0..64),
        3 => (1u64 << r.gen_range(0..64)).wrapping_sub(1),
        4 => r.gen_range(0..2000),
        5 => r.gen_range(0..2_100_000_000_000_000),
        6 => u64::MAX - r.gen_range(0..300),
        _ => r.gen(),
    }
}
pub fn secret(r: &mut StdRng) -> SecretKey {
    loop {
        let mut b = [0u8; 32];
        match r.gen_range(0..8) {
            0 => {
                b[31] = r.gen_range(1..=255);
            }
            1 => {
                b.fill(0xff);
                b[15] = 0xfe;
                r.fill_bytes(&mut b[16..]);
            }
            2 => {
                let k = r.gen_range(0..31);
                r.fill_bytes(&mut b[k..]);
            }
            3 if r.gen_bool(0.3) => {
                // the largest keys and the middle of the range
                let top = ["fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd03641", "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20"];
                b[..31].copy_from_slice(&hex::decode(top.choose(r).unwrap()).unwrap());
                b[31] = r.gen();
            }
            _ => r.fill_bytes(&mut b),
        }
        if let Ok(k) = SecretKey::from_slice(&b) {
            return k;
        }
    }
}
pub fn pubkey(r: &mut StdRng) -> PublicKey {
    PublicKey::from_secret_key(&Secp256k1::new(), &secret(r))
}
const NAME_FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const NAME_REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
pub fn name_text(r: &mut StdRng) -> String {
    if r.gen_ratio(1, 40) {
        return "__transient".into();
    }
    let n = *[1usize, 2, 3, 10, 39, 40, 40].choose(r).unwrap();
    let n = if r.gen_bool(0.5) { n } else { r.gen_range(1..=40) };
    let mut s = String::new();
    s.push(*NAME_FIRST.choose(r).unwrap() as char);
    for _ in 1..n {
        s.push(*NAME_REST.choose(r).unwrap() as char);
    }
    s
}
/// the documented rule, written out independently
pub fn name_ok(s: &[u8]) -> bool {
    s == b"__transient"
        || (1..=40).contains(&s.len())
            && s[0].is_ascii_alphabetic()
            && s.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_')
}
/// A principal together with its expected wire bytes.
pub struct Prin {
    pub data: PrincipalData,
    pub wire: Vec<u8>,
    pub text: String,
}
pub fn stacks_addr(r: &mut StdRng) -> (StacksAddress, Vec<u8>) {
    let (v, vb) = version(r);
    let h: [u8; 20] = arr(r);
    let a = StacksAddress::new(v, Hash160Hasher::from(h));
    let mut w = vec![vb];
    w.extend_from_slice(&h);
    (a, w)
}
pub fn principal(r: &mut StdRng) -> Prin {
    let (a, w) = stacks_addr(r);
    let addr_text = refs::stacks_address(w[0], &w[1..]);
    if r.gen_bool(0.5) {
        let mut wire = vec![5];
        wire.extend(&w);
        Prin { data: PrincipalData::from(a), wire, text: addr_text }
    } else {
        let n = name_text(r);
        let mut wire = vec![6];
        wire.extend(&w);
        wire.push(n.len() as u8);
        wire.extend(n.as_bytes());
        Prin {
            data: PrincipalData::Contract(StandardPrincipalData::from(a), ContractName::new(&n).expect("generated name")),
            wire,
            text: format!("{addr_text}.{n}"),
        }
    }
}
/// standard address scripts of every kind that has an address
pub fn btc_addr(r: &mut StdRng, network: Network) -> BtcAddress {
    let payload = match r.gen_range(0..6) {
        0 => Payload::PubkeyHash(PubkeyHash::from_inner(arr(r))),
        1 => Payload::ScriptHash(ScriptHash::from_inner(arr(r))),
        2 => Payload::WitnessProgram { version: WitnessVersion::V0, program: bytes(r, 20) },
        3 => Payload::WitnessProgram { version: WitnessVersion::V0, program: bytes(r, 32) },
        4 => Payload::WitnessProgram { version: WitnessVersion::V1, program: bytes(r, 32) },
        _ => {
            let v = WitnessVersion::try_from(r.gen_range(2..=16u8)).unwrap();
            let n = r.gen_range(2..=32);
            Payload::WitnessProgram { version: v, program: bytes(r, n) }
        }
    };
    BtcAddress { payload, network }
}
/// dust limit by the Bitcoin Core rule (3 sat/vB), written out independently
pub fn dust(script: &Script) -> u64 {
    let b = script.as_bytes();
    if !b.is_empty() && b[0] == 0x6a {
        return 0;
    }
    let wit = (4..=42).contains(&b.len())
        && (b[0] == 0 || (0x51..=0x60).contains(&b[0]))
        && (2..=40).contains(&b[1])
        && b.len() == b[1] as usize + 2;
    let size = 8 + b.len() as u64 + if b.len() < 253 { 1 } else { 3 };
    3 * (size + if wit { 32 + 4 + 1 + 107 / 4 + 4 } else { 32 + 4 + 1 + 107 + 4 })
}
pub fn magic(n: Network) -> [u8; 2] {
    match n {
        Network::Bitcoin => *b"X2",
        Network::Testnet => *b"T2",
        _ => *b"id",
    }
}
/// `text` with additions that lenient readers are known to drop: prefixes, surrounding or embedded white space,
/// separators, quotes, signs, invisible characters. None of them is the text itself.
pub fn decorated(text: &str, r: &mut StdRng) -> Vec<String> {
    const ADD: &[&str] = &[" ", "\n", "\t", "\r\n", "0x", "0X", "x", "#", "+", "-", "_", ":", "'", "\"", "\0", "\u{a0}", "\u{200b}", "\u{feff}", ",", ";", "h", "=", "00", "0"];
    let mut out = Vec::new();
    for _ in 0..3 {
        let a = ADD.choose(r).unwrap();
        out.push(format!("{a}{text}"));
        let a = ADD.choose(r).unwrap();
        out.push(format!("{text}{a}"));
        let a = ADD.choose(r).unwrap();
        out.push(format!("{a}{text}{a}"));
        let mut i = r.gen_range(0..=text.len());
        while !text.is_char_boundary(i) {
            i -= 1;
        }
        let a = ADD.choose(r).unwrap();
        out.push(format!("{}{a}{}", &text[..i], &text[i..]));
    }
    out.push(format!("0x{text}"));
    out.push(format!("{text}\n"));
    out.push(format!(" {text}"));
    out
}
