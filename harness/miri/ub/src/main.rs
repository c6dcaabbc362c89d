//! Workload for the undefined-behaviour interpreter (C16). Runs the pure
//! functions of stacks-core on generated inputs; every result goes into a
//! transcript that must be the same on every target. Results whose meaning
//! depends on byte order are also compared with references.
//! usage: ub SEED ROUNDS
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use stacks_core::{
    address::{AddressVersion, StacksAddress},
    c32,
    codec::Codec,
    contract_name::ContractName,
    crypto::{
        hash160::Hash160Hasher,
        sha256::{DoubleSha256Hasher, Sha256Hasher},
        Hashing,
    },
    uint::{Uint, Uint256, Uint512},
    utils::PrincipalData,
    BlockId, Network,
};

struct T {
    log: Vec<u8>,
    events: u64,
    quiet: bool,
}
impl T {
    fn put(&mut self, what: &str, v: impl std::fmt::Debug) {
        self.events += 1;
        let line = format!("{what} {v:?}\n");
        if !self.quiet {
            eprint!("{line}");
        }
        self.log.extend(line.as_bytes());
    }
    fn must(&mut self, ok: bool, what: &str) {
        if !ok {
            println!("MISMATCH {what}");
            std::process::exit(9);
        }
        self.events += 1;
    }
}
fn bytes(r: &mut StdRng, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    match r.gen_range(0..5) {
        0 => v.fill(0),
        1 => v.fill(0xff),
        2 if n > 0 => {
            let k = r.gen_range(0..n);
            r.fill_bytes(&mut v[k..]);
        }
        _ => r.fill_bytes(&mut v),
    }
    v
}
fn word(r: &mut StdRng) -> u64 {
    match r.gen_range(0..5) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.gen_range(0..64),
        _ => r.gen(),
    }
}
fn uint<const N: usize>(t: &mut T, r: &mut StdRng) {
    let (a, b) = ([0; N].map(|_| word(r)), [0; N].map(|_| word(r)));
    let (x, y) = (Uint::<N>::from_u64_array(a), Uint::<N>::from_u64_array(b));
    let le: Vec<u8> = a.iter().flat_map(|w| w.to_le_bytes()).collect();
    t.must(x.to_le_bytes() == le, "to_le_bytes");
    t.must(x.to_be_bytes() == le.iter().rev().copied().collect::<Vec<_>>(), "to_be_bytes");
    t.must(Uint::<N>::from_le_bytes(&le).unwrap() == x, "from_le_bytes");
    t.must(Uint::<N>::from_be_bytes(x.to_be_bytes()).unwrap() == x, "from_be_bytes");
    t.must(x.low_u64() == a[0] && x.low_u32() == a[0] as u32, "low");
    let k = r.gen_range(0..N * 8 + 4);
    let odd = bytes(r, k);
    t.put("odd-le", Uint::<N>::from_le_bytes(&odd).ok());
    t.put("odd-be", Uint::<N>::from_be_bytes(&odd).ok());
    t.put("add", x + y);
    if x >= y {
        t.put("sub", x - y);
    }
    t.put("mul", x * y);
    if b.iter().any(|w| *w != 0) {
        t.put("div", x / y);
    }
    t.put("bit", (x & y, x | y, x ^ y, !x, x.cmp(&y), x == y));
    let s = r.gen_range(0..N * 64 + 70);
    t.put("shift", (s, x << s, x >> s));
    t.put("mul32", x.mul_u32(word(r) as u32));
    t.put("bits", x.bits());
    t.put("hex", (x.to_le_hex(), x.to_be_hex(), Uint::<N>::from_le_hex(x.to_be_hex()).ok(), Uint::<N>::from_be_hex("zz").is_err()));
    let mut z = x;
    z.increment();
    t.put("inc", z);
    t.put("wide", Uint::<8>::from_uint_lossy(x).to_be_bytes());
    t.put("narrow", x.to_uint_lossy::<1>());
    t.put("codec", x.serialize_to_vec());
    let mut src = &odd[..];
    t.put("decode", (Uint::<N>::codec_deserialize(&mut src).ok(), src.len()));
    t.put("display", format!("{x}"));
    let v: Vec<u64> = x.into();
    t.put("vec", Uint::<N>::try_from(v).ok());
    t.put("vec-bad", Uint::<N>::try_from(vec![1u64; k]).is_ok());
    t.put("from", (Uint::<N>::from(word(r)), Uint::<N>::from(7u8), Uint::<N>::from(700u16), Uint::<N>::from(70000u32)));
}
fn hashes(t: &mut T, r: &mut StdRng) {
    let k = r.gen_range(0..140);
    let m = bytes(r, k);
    let s = Sha256Hasher::new(&m);
    let d = DoubleSha256Hasher::new(&m);
    let h = Hash160Hasher::new(&m);
    // the interpreted runs are compared with the native one
    if !cfg!(miri) {
        t.must(s.as_bytes() == refs::sha256(&m), "sha256");
        t.must(d.as_bytes() == refs::sha256d(&m), "sha256d");
        t.must(h.as_bytes() == refs::hash160(&m), "hash160");
    }
    t.must(s.checksum() == s.as_bytes()[..4], "checksum");
    t.put("hashes", (s.to_hex(), d.to_hex(), h.to_hex()));
    let dd = d.as_bytes().to_vec();
    // the hash read as an integer: least significant byte first, on any host
    let u = Uint256::from(d);
    t.must(u.to_le_bytes() == dd, "hash to integer");
    t.put("hash-int", u);
    t.put("from-bytes", (Sha256Hasher::from_bytes(&m).is_ok(), Hash160Hasher::from_bytes(&m).is_ok(), DoubleSha256Hasher::try_from(&m[..]).is_ok()));
    t.put("hex", (s.to_hex(), Hash160Hasher::from_hex(s.to_hex()).is_ok(), Sha256Hasher::from_hex(s.to_hex()).ok()));
    let j = serde_json::to_string(&h).unwrap();
    t.put("json", (&j, serde_json::from_str::<Hash160Hasher>(&j).ok(), serde_json::from_str::<Sha256Hasher>(&j).is_err()));
    t.put("zero", (Sha256Hasher::zeroes().to_hex(), s.cmp(&Sha256Hasher::default())));
}
fn damage(r: &mut StdRng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.gen_range(1..3) {
        let c = *['0', 'O', 'o', 'I', 'l', 'U', 'Z', 'é', '\u{1F600}', '.', '-', ' ', '7'].get(r.gen_range(0..13)).unwrap();
        if v.is_empty() {
            v.push(c);
            continue;
        }
        let i = r.gen_range(0..v.len());
        match r.gen_range(0..4) {
            0 => v[i] = c,
            1 => v.insert(i, c),
            2 => {
                v.remove(i);
            }
            _ => v.truncate(i),
        }
    }
    v.into_iter().collect()
}
fn text(t: &mut T, r: &mut StdRng) {
    let k = r.gen_range(0..30);
    let d = bytes(r, k);
    let e = c32::encode(&d);
    t.must(e == refs::c32_encode(&d), "c32 encode");
    t.put("c32", (&e, c32::decode(&e).ok()));
    t.put("c32-bad", c32::decode(damage(r, &e)).ok());
    let vs = [AddressVersion::MainnetSingleSig, AddressVersion::MainnetMultiSig, AddressVersion::TestnetSingleSig, AddressVersion::TestnetMultiSig];
    let vc = c32::version_check_encode(vs[r.gen_range(0..4)], &d);
    t.put("vc", (&vc, c32::version_check_decode(&vc).ok(), c32::version_check_decode(damage(r, &vc)).ok()));
    let h: [u8; 20] = bytes(r, 20).try_into().unwrap();
    let a = StacksAddress::new(vs[r.gen_range(0..4)], Hash160Hasher::from(h));
    let at = a.to_string();
    t.put("addr", &at);
    let bad = damage(r, &at);
    t.put("addr-back", (StacksAddress::try_from(at.as_str()).ok(), StacksAddress::try_from(bad.as_str()).ok(), c32::decode_address(&bad).ok()));
    let name: String = (0..r.gen_range(0..44)).map(|_| *b"abzAZ09-_".get(r.gen_range(0..9)).unwrap() as char).collect();
    let bad = damage(r, &name);
    for n in [&name, &bad] {
        let c = ContractName::new(n).ok();
        if let Some(c) = &c {
            t.must(std::str::from_utf8(c.as_bytes()).is_ok() && c.chars().count() == c.len(), "contract name is valid text");
        }
        t.put("name", c.map(|c| (c.to_string(), c.serialize_to_vec())));
    }
    let p = format!("{at}.{name}");
    let bad = damage(r, &p);
    t.put("principal", (PrincipalData::try_from(p).ok(), PrincipalData::try_from(bad).ok()));
    t.put("network", (Network::try_from(damage(r, "testnet")).ok(), Network::try_from("Mainnet".to_string()).ok()));
    // wire decoding of damaged bytes
    let mut w = vec![if r.gen() { 5 } else { 6 }, [22, 20, 26, 21, 0][r.gen_range(0..5)]];
    w.extend(h);
    let kn = r.gen_range(0..45u8);
    w.push(kn);
    w.extend(name.as_bytes());
    if r.gen_bool(0.3) {
        let tail = bytes(r, 12);
        w.extend(tail); // often not text
    }
    let cut = r.gen_range(0..=w.len());
    if r.gen_bool(0.5) {
        w.truncate(cut);
    }
    let mut s = &w[..];
    let got = PrincipalData::codec_deserialize(&mut s).ok();
    if let Some(PrincipalData::Contract(_, n)) = &got {
        t.must(std::str::from_utf8(n.as_bytes()).is_ok() && n.chars().count() == n.len(), "decoded name is valid text");
    }
    t.put("wire", (got, s.len()));
    let mut s = &w[..];
    t.put("wire-addr", (StacksAddress::codec_deserialize(&mut s).ok(), s.len()));
    let mut s = &w[22.min(w.len())..];
    t.put("wire-name", (ContractName::codec_deserialize(&mut s).map(|n| n.to_string()).ok(), s.len()));
    let mut s = &w[..];
    t.put("wire-tip", (BlockId::codec_deserialize(&mut s).map(|b| b.serialize_to_vec()).ok(), s.len()));
    let mut s = &w[..];
    t.put("wire-u64", (u64::codec_deserialize(&mut s).ok(), s.len()));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, rounds): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut t = T { log: vec![], events: 0, quiet: a.get(3).is_none() };
    for i in 0..rounds {
        let mut r = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003) + i);
        let before = (t.log.len(), t.events);
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match i % 5 {
            0 => uint::<4>(&mut t, &mut r),
            1 => hashes(&mut t, &mut r),
            2 | 3 => text(&mut t, &mut r),
            _ => match i % 3 {
                0 => uint::<1>(&mut t, &mut r),
                1 => uint::<2>(&mut t, &mut r),
                _ => uint::<8>(&mut t, &mut r),
            },
        }));
        if done.is_err() {
            // an abort is judged by other checks; here it must be the same everywhere
            t.put("panic", before);
        }
    }
    let _ = Uint512::from(1u64);
    let mut h = 0xcbf29ce484222325u64;
    for b in &t.log {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    println!("DONE events={} transcript={h:016x}-{}", t.events, t.log.len());
}
