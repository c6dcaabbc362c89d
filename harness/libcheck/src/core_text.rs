//! C10, C12 (text part), C13, C14, C17, C18: addresses, names, hashes, WIF.
use crate::gen::{self, *};
use mon::*;
use rand::{seq::SliceRandom, Rng, RngCore};
use stacks_core::{
    address::{AddressVersion, StacksAddress},
    c32,
    contract_name::ContractName,
    crypto::{
        hash160::Hash160Hasher,
        sha256::{DoubleSha256Hasher, Sha256Hasher},
        wif::WIF,
        Hashing, PrivateKey, PublicKey,
    },
    utils::PrincipalData,
    Network,
};

fn ver_byte(v: AddressVersion) -> u8 {
    v as u8
}
/// reference reading of an address text: Some((version, hash)) iff canonical
pub fn ref_parse(s: &str) -> Option<(u8, Vec<u8>)> {
    let s = s.strip_prefix('S')?;
    if s.is_empty() || !s.is_ascii() {
        return None;
    }
    let v = refs::C32.iter().position(|c| *c == s.as_bytes()[0])? as u8;
    let d = refs::c32_decode_strict(&s[1..])?;
    if d.len() != 24 || !VERSION_BYTES.contains(&v) {
        return None;
    }
    let mut m = vec![v];
    m.extend_from_slice(&d[..20]);
    (refs::sha256d(&m)[..4] == d[20..]).then(|| (v, d[..20].to_vec()))
}
fn repo_parse(s: &str) -> Result<Option<(u8, Vec<u8>)>, Stop> {
    let r = total("parsing an address text", || StacksAddress::try_from(s))?;
    Ok(r.ok().map(|a| (ver_byte(a.version()), a.hash().as_ref().to_vec())))
}

pub fn c10(run: &mut Run) {
    let n = run.n(20_000, 600_000);
    run.stream("roundtrip", n, |c| {
        let (v, vb) = version(&mut c.rng);
        let h: [u8; 20] = arr(&mut c.rng);
        let want = refs::stacks_address(vb, &h);
        let a = StacksAddress::new(v, Hash160Hasher::from(h));
        let t1 = total("Display of address", || a.to_string())?;
        check_eq!(t1, want, "text", "address text of version {vb} hash {}", hex::encode(h));
        let t2: String = total("String from address", || a.clone().into())?;
        check_eq!(t2, want, "text", "address string conversion");
        let t3 = total("encode_address", || c32::encode_address(v, h))?;
        check_eq!(t3, want, "text", "encode_address");
        let t4 = total("json", || serde_json::to_value(&a))?.map_err(|e| viol("json", e))?;
        check_eq!(t4, json!(want), "json", "JSON form of address");
        check_eq!(repo_parse(&want)?, Some((vb, h.to_vec())), "parse", "parsing {want}");
        let d = total("decode_address", || c32::decode_address(&want))?.map_err(|e| viol("parse", format!("{want}: {e}")))?;
        check_eq!((ver_byte(d.0), d.1), (vb, h.to_vec()), "parse", "decode_address {want}");
        c.nontrivial((vb, h));
        if h[0] == 0 {
            c.count("leading_zero_hash");
        }
        c.sample(|| json!({"address": want}));
        Ok(())
    });
    let n = run.n(400, 20_000);
    run.stream("corruption", n, |c| {
        let (_, vb) = version(&mut c.rng);
        let h: [u8; 20] = arr(&mut c.rng);
        let good = refs::stacks_address(vb, &h);
        let g = good.as_bytes().to_vec();
        let mut tried = 0;
        let mut variants: Vec<Vec<u8>> = vec![];
        for i in 1..g.len() {
            for ch in refs::C32 {
                if *ch != g[i] {
                    let mut x = g.clone();
                    x[i] = *ch;
                    variants.push(x);
                }
            }
            if i + 1 < g.len() && g[i] != g[i + 1] {
                let mut x = g.clone();
                x.swap(i, i + 1);
                variants.push(x);
            }
        }
        // dropped and inserted characters, wrong prefix
        for i in 0..g.len() {
            let mut x = g.clone();
            x.remove(i);
            variants.push(x);
            let mut x = g.clone();
            x.insert(i, *refs::C32.choose(&mut c.rng).unwrap());
            variants.push(x);
        }
        for x in variants {
            let s = String::from_utf8(x).unwrap();
            let got = repo_parse(&s)?;
            let want = ref_parse(&s);
            check_eq!(got, want, "corruption", "corrupted address {s} (from {good})");
            if want.is_none() {
                c.count("corruption_rejected");
            }
            tried += 1;
        }
        // every other ASCII character in one place, U for V above all: no digit
        for i in 1..g.len() {
            for ch in 0u8..128 {
                let digit = match ch.to_ascii_uppercase() {
                    b'O' => b'0',
                    b'I' | b'L' => b'1',
                    o => o,
                };
                if refs::C32.contains(&digit) {
                    continue;
                }
                let mut x = g.clone();
                x[i] = ch;
                let s = String::from_utf8(x).unwrap();
                let got = repo_parse(&s)?;
                check_eq!(got, None, "corruption", "address {s:?} (from {good}), which has a character that is no digit");
                if ch == b'U' && g[i] == b'V' {
                    c.count("u_for_v_rejected");
                }
                tried += 1;
            }
        }
        // look-alike spellings: same address or an error
        for _ in 0..30 {
            let mut x = g.clone();
            for b in x[1..].iter_mut() {
                if c.rng.gen_bool(0.3) {
                    *b = match *b {
                        b'0' => *[b'O', b'o'].choose(&mut c.rng).unwrap(),
                        b'1' => *[b'I', b'l', b'L', b'i'].choose(&mut c.rng).unwrap(),
                        o => o.to_ascii_lowercase(),
                    };
                }
            }
            let s = String::from_utf8(x).unwrap();
            let got = repo_parse(&s)?;
            check!(got.is_none() || got == Some((vb, h.to_vec())), "lookalike", "{s} parsed to another address {got:?}, from {good}");
            c.count("lookalike_spelling");
            tried += 1;
        }
        c.evals(tried);
        c.nontrivial((vb, h));
        c.sample(|| json!({"address": good, "variants": tried}));
        Ok(())
    });
    let n = run.n(20_000, 500_000);
    run.stream("c32-any-data", n, |c| {
        let len = c.rng.gen_range(0..60);
        let d = gen::bytes(&mut c.rng, len);
        let e = total("c32 encode", || c32::encode(&d))?;
        check_eq!(e, refs::c32_encode(&d), "c32", "encode of {}", hex::encode(&d));
        let back = total("c32 decode", || c32::decode(&e))?.map_err(|x| viol("c32", format!("{e}: {x}")))?;
        check_eq!(back, d, "c32", "decode of {e}");
        let (v, vb) = version(&mut c.rng);
        let e = total("version_check_encode", || c32::version_check_encode(v, &d))?;
        check_eq!(e, refs::stacks_address(vb, &d)[1..], "c32", "version_check_encode");
        let (v2, d2) =
            total("version_check_decode", || c32::version_check_decode(&e))?.map_err(|x| viol("c32", format!("{e}: {x}")))?;
        check_eq!((v2, d2), (v, d.clone()), "c32", "version_check_decode of {e}");
        // intact text whose payload is not a hash is no address
        let text = format!("S{e}");
        let want = (d.len() == 20).then(|| (vb, d.clone()));
        check_eq!(repo_parse(&text)?, want, "parse", "address text {text} over {} bytes", d.len());
        c.count(if want.is_some() { "hash_payload" } else { "other_payload_rejected" });
        c.nontrivial(d);
        Ok(())
    });
    let n = run.n(3_000, 100_000);
    run.stream("versions", n, |c| {
        // intact text under each of the 32 version characters, with a payload of about the right length
        let v = c.rng.gen_range(0..32u8);
        let len = *[20usize, 20, 20, 19, 21, 16, 24, 0].choose(&mut c.rng).unwrap();
        let d = gen::bytes(&mut c.rng, len);
        let text = refs::stacks_address(v, &d);
        let want = (len == 20 && VERSION_BYTES.contains(&v)).then(|| (v, d.clone()));
        check_eq!(repo_parse(&text)?, want, "parse", "address text {text} (version {v}, {len} bytes)");
        let got = total("decode_address", || c32::decode_address(&text))?;
        check_eq!(got.is_ok(), VERSION_BYTES.contains(&v), "parse", "decode_address {text}");
        c.count(if want.is_some() { "known_version" } else { "unknown_rejected" });
        c.nontrivial(text);
        Ok(())
    });
    run.require("other_payload_rejected", 1000);
    run.require("known_version", 100);
    run.require("unknown_rejected", 1000);
    run.require("corruption_rejected", 10_000);
    run.require("leading_zero_hash", 100);
}

fn junk_text(r: &mut rand::rngs::StdRng) -> String {
    let n = *[0usize, 1, 2, 3, 4, 5, 6, 7, 12, 41, 42, 52, 80].choose(r).unwrap();
    let mut s = String::new();
    let mode = r.gen_range(0..5);
    for _ in 0..n {
        s.push(match mode {
            0 => *refs::C32.choose(r).unwrap() as char,
            1 => r.gen_range(0x20..0x7f) as u8 as char,
            2 => *['S', 'T', 'O', 'o', 'I', 'l', '0', '1', '.', '-'].choose(r).unwrap(),
            3 => *['é', '\0', '\n', '💣', 'S', '0', '\u{7f}', '\u{80}'].choose(r).unwrap(),
            _ => r.gen_range(0u8..128) as char,
        });
    }
    match r.gen_range(0..6) {
        0 => format!("S{s}"),
        1 => format!("SO{s}"),
        2 => format!("ST{s}"),
        3 => format!("S{}{s}", *refs::C32.choose(r).unwrap() as char),
        _ => s,
    }
}
fn mutate_text(r: &mut rand::rngs::StdRng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.gen_range(1..4) {
        let ch = *['.', 'O', 'o', '0', 'é', ' ', '\n', 'S', 'Z', '\0', '-', '_', '💣', 'U'].choose(r).unwrap();
        match r.gen_range(0..4) {
            0 if !v.is_empty() => {
                let i = r.gen_range(0..v.len());
                v[i] = ch;
            }
            1 => {
                let i = r.gen_range(0..=v.len());
                v.insert(i, ch);
            }
            2 if !v.is_empty() => {
                let i = r.gen_range(0..v.len());
                v.remove(i);
            }
            _ => {
                let i = r.gen_range(0..=v.len());
                v.truncate(i);
            }
        }
    }
    v.into_iter().collect()
}

/// text decoders of C12
pub fn c12_text(run: &mut Run) {
    // fixed hostile texts first, then generated ones
    const FIXED: &[&str] = &[
        "", "S", "SO", "So", "SO12345", "So00000", "S00000", "S12345", "Soooooo", "SOOOOOOOOOOOO", "0", "O", "o", ".", "..",
        "S.", "é", "Sé", "Séééééé", "SPééééé", "💣", "S\u{0}\u{0}\u{0}\u{0}\u{0}\u{0}", "ST", "SP000000000000000000002Q6VF78",
        "SP000000000000000000002Q6VF78.", "SP000000000000000000002Q6VF78.a.b", "LLLLLLL", "SLLLLLLL", "S-", "S------",
    ];
    let n = run.n(60_000, 2_000_000) + FIXED.len() as u64;
    run.stream("text-decoders", n, |c| {
        let s = if (c.idx as usize) < FIXED.len() {
            FIXED[c.idx as usize].to_string()
        } else if c.rng.gen_bool(0.5) {
            junk_text(&mut c.rng)
        } else {
            let p = principal(&mut c.rng);
            if c.rng.gen_bool(0.2) {
                gen::decorated(&p.text, &mut c.rng).choose(&mut c.rng).unwrap().clone()
            } else {
                mutate_text(&mut c.rng, &p.text)
            }
        };
        let got = repo_parse(&s)?;
        let want = ref_parse(&s);
        if want.is_some() {
            check_eq!(got, want, "text", "address {s:?}");
            c.count("text_accepted");
        } else if let Some((v, h)) = &got {
            // only an alternative spelling (case, O/I/L) may be accepted beyond the canonical form
            let norm: String = s.chars().enumerate().map(|(i, ch)| if i == 0 { ch } else { match ch.to_ascii_uppercase() { 'O' => '0', 'I' | 'L' => '1', o => o } }).collect();
            check_eq!(ref_parse(&norm), Some((*v, h.clone())), "text", "address accepted from {s:?}");
            c.count("text_accepted_lookalike");
        } else {
            c.count("text_rejected");
        }
        let digits = s.to_ascii_uppercase().replace('O', "0").replace(['I', 'L'], "1");
        let plain = total("c32::decode", || c32::decode(&s))?.ok();
        check_eq!(plain.map(hex::encode), refs::c32_decode_strict(&digits).map(hex::encode), "text", "c32 decode of {s:?}");
        if let Ok((v, d)) = total("c32::version_check_decode", || c32::version_check_decode(&s))? {
            let norm = s.to_ascii_uppercase().replace('O', "0").replace(['I', 'L'], "1");
            check_eq!(refs::stacks_address(v as u8, &d)[1..], norm, "text", "version_check_decode of {s:?}");
        }
        if let Ok((v, d)) = total("c32::decode_address", || c32::decode_address(&s))? {
            let norm = s.to_ascii_uppercase().replace('O', "0").replace(['I', 'L'], "1");
            check_eq!(refs::stacks_address(v as u8, &d), norm, "text", "decode_address of {s:?}");
        }
        let _ = total("PrincipalData from text", || PrincipalData::try_from(s.clone()))?;
        let nm = total("ContractName::new", || ContractName::new(&s))?;
        check_eq!(nm.is_ok(), name_ok(s.as_bytes()), "text", "contract name {s:?} accepted");
        let _ = total("WIF from text", || WIF::try_from(s.clone()))?;
        let _ = total("hash from hex", || Hash160Hasher::from_hex(&s))?;
        let _ = total("hash from hex", || Sha256Hasher::from_hex(&s))?;
        let _ = total("uint from hex", || stacks_core::uint::Uint256::from_be_hex(&s))?;
        let _ = total("uint from hex", || stacks_core::uint::Uint512::from_le_hex(&s))?;
        let _ = total("network from text", || Network::try_from(s.as_str()))?;
        let _ = total("mnemonic", || stacks_core::wallet::Wallet::new(&s))?;
        c.nontrivial(&s);
        c.evals(11);
        c.sample(|| json!({"text": s}));
        Ok(())
    });
    run.require("text_rejected", 1000);
}

pub fn c13(run: &mut Run) {
    // exhaustive over all 1- and 2-byte ASCII names and every length 0..=300 of representative characters
    run.stream("exhaustive-short", 128 + 128 * 128 + 128 * 128, |c| {
        let i = c.idx as usize;
        let s: String = if i < 128 {
            (i as u8 as char).to_string()
        } else if i < 128 + 128 * 128 {
            let k = i - 128;
            [(k / 128) as u8 as char, (k % 128) as u8 as char].iter().collect()
        } else {
            // a valid body with one arbitrary character at an arbitrary position near the limits
            let k = i - 128 - 128 * 128;
            let ch = (k % 128) as u8 as char;
            let len = 1 + (k / 128) % 42;
            let pos = (k / 128 / 42) % len.max(1);
            (0..len).map(|j| if j == pos { ch } else { 'a' }).collect()
        };
        name_case(c, s.as_bytes())
    });
    let n = run.n(60_000, 2_000_000);
    run.stream("names", n, |c| {
        let mut v: Vec<u8> = name_text(&mut c.rng).into_bytes();
        match c.rng.gen_range(0..7) {
            0 => {}
            1 => {
                // length sweep with valid characters
                let n = c.rng.gen_range(0..=260);
                v = vec![b'a'; n];
            }
            2 => {
                let i = c.rng.gen_range(0..v.len());
                v[i] = c.rng.gen();
            }
            3 => {
                let i = c.rng.gen_range(0..=v.len());
                v.insert(i, *b"-_09.\n\0 \xc3".choose(&mut c.rng).unwrap());
            }
            4 => {
                v.extend_from_slice(*[b"\n".as_slice(), b"\0", b" ", b".b", "é".as_bytes(), b"$", b"__transient"].choose(&mut c.rng).unwrap());
            }
            5 => {
                let p: &[u8] = *[b"\n".as_slice(), b"-", b"_", b"0", b"__transient", b".", "é".as_bytes()].choose(&mut c.rng).unwrap();
                let mut w = p.to_vec();
                w.extend(&v);
                v = w;
            }
            _ => {
                v = b"__transient".to_vec();
                let i = c.rng.gen_range(0..v.len());
                match c.rng.gen_range(0..3) {
                    0 => v[i] ^= 1 << c.rng.gen_range(0..7),
                    1 => {
                        v.remove(i);
                    }
                    _ => v.push(b'a'),
                }
            }
        }
        name_case(c, &v)
    });
    let n = run.n(40_000, 1_000_000);
    run.stream("textual-principals", n, |c| {
        let p = principal(&mut c.rng);
        let s = match c.rng.gen_range(0..5) {
            0 => p.text.clone(),
            1 => mutate_text(&mut c.rng, &p.text),
            4 => gen::decorated(&p.text, &mut c.rng).choose(&mut c.rng).unwrap().clone(),
            2 => format!("{}{}", p.text, *[".", ".a", "..", ".a.b", " ", "\n", "."].choose(&mut c.rng).unwrap()),
            _ => {
                let a = p.text.split('.').next().unwrap().to_string();
                let nm = mutate_text(&mut c.rng, "token-contract");
                format!("{a}.{nm}")
            }
        };
        let parts: Vec<&str> = s.split('.').collect();
        let want: Option<Vec<u8>> = match parts.as_slice() {
            [a] => ref_parse(a).map(|(v, h)| [vec![5, v], h].concat()),
            [a, n] if name_ok(n.as_bytes()) => ref_parse(a).map(|(v, h)| [vec![6, v], h, vec![n.len() as u8], n.as_bytes().to_vec()].concat()),
            _ => None,
        };
        let got = total("PrincipalData from text", || PrincipalData::try_from(s.clone()))?;
        use stacks_core::codec::Codec;
        let got = match got {
            Ok(p) => Some(total("serialize", || p.serialize_to_vec())?),
            Err(_) => None,
        };
        if want.is_none() && got.is_some() {
            // alternative spelling of the address part is tolerated if it denotes the same address
            let norm = parts[0].chars().enumerate().map(|(i, ch)| if i == 0 { ch } else { match ch.to_ascii_uppercase() { 'O' => '0', 'I' | 'L' => '1', o => o } }).collect::<String>();
            let alt = ref_parse(&norm).filter(|_| parts.len() <= 2);
            let g = got.clone().unwrap();
            check!(alt.map(|(v, h)| g[1] == v && g[2..22] == h[..]).unwrap_or(false) && (parts.len() == 1 || name_ok(parts[1].as_bytes())), "principal-text", "principal accepted from {s:?}");
            c.count("lookalike");
        } else {
            check_eq!(got.as_ref().map(hex::encode), want.as_ref().map(hex::encode), "principal-text", "principal text {s:?}");
        }
        c.count(if want.is_some() { "principal_accepted" } else { "principal_rejected" });
        c.nontrivial(&s);
        c.sample(|| json!({"text": s, "accepted": want.is_some()}));
        Ok(())
    });
    run.require("name_accepted", 1000);
    run.require("name_rejected", 1000);
    run.require("principal_accepted", 1000);
    run.require("principal_rejected", 1000);
}
fn name_case(c: &mut Case, v: &[u8]) -> CaseResult {
    use stacks_core::codec::Codec;
    let want = name_ok(v);
    if let Ok(s) = std::str::from_utf8(v) {
        let r = total("ContractName::new", || ContractName::new(s))?;
        check_eq!(r.is_ok(), want, "name-text", "contract name {s:?} accepted");
        let r2 = total("ContractName::try_from", || ContractName::try_from(s))?;
        check_eq!(r2.is_ok(), want, "name-text", "contract name {s:?} accepted by conversion");
        if let Ok(nm) = r {
            let back: String = nm.clone().into();
            check_eq!(back, s, "name-kept", "name text");
            check_eq!(nm.to_string(), s, "name-kept", "name display");
            check_eq!(&*nm, s, "name-kept", "name deref");
            check_eq!(nm.as_ref(), s, "name-kept", "name as_ref");
            check_eq!(std::borrow::Borrow::<str>::borrow(&nm), s, "name-kept", "name borrow");
            let w = total("name serialize", || nm.serialize_to_vec())?;
            check_eq!(w, [vec![v.len() as u8], v.to_vec()].concat(), "name-wire", "name wire bytes");
        }
    }
    if v.len() < 256 {
        let mut w = vec![v.len() as u8];
        w.extend_from_slice(v);
        w.extend_from_slice(b"tail");
        let mut cur = std::io::Cursor::new(&w);
        let r = total("name decode", || ContractName::codec_deserialize(&mut cur))?;
        check_eq!(r.is_ok(), want, "name-bytes", "contract name bytes {} accepted", hex::encode(v));
        if let Ok(nm) = r {
            check_eq!(nm.as_bytes(), v, "name-kept", "decoded name");
            check_eq!(cur.position() as usize, v.len() + 1, "name-bytes", "bytes consumed");
        }
    }
    c.count(if want { "name_accepted" } else { "name_rejected" });
    c.nontrivial(v);
    c.sample(|| json!({"name": String::from_utf8_lossy(v), "ok": want}));
    Ok(())
}

pub fn c14(run: &mut Run) {
    let n = run.n(6_000, 200_000);
    run.stream("single", n, |c| {
        let (v, vb) = version(&mut c.rng);
        let k = pubkey(&mut c.rng);
        let ser = k.serialize();
        let h = refs::hash160(&ser);
        let wit = refs::hash160(&[&[0u8, 20][..], &h].concat());
        let cases: [(&str, StacksAddress, [u8; 20]); 3] = [
            ("p2pkh", total("p2pkh", || StacksAddress::p2pkh(v, &k))?, h),
            ("from_public_key", total("from_public_key", || StacksAddress::from_public_key(v, &k))?, h),
            ("p2wpkh", total("p2wpkh", || StacksAddress::p2wpkh(v, &k))?, wit),
        ];
        for (w, a, h) in cases {
            check_eq!(hex::encode(a.hash().as_ref()), hex::encode(h), "hash", "{w} hash of key {}", hex::encode(ser));
            check_eq!(a.version() as u8, vb, "version", "{w} version");
        }
        c.nontrivial(ser.to_vec());
        c.sample(|| json!({"key": hex::encode(ser)}));
        Ok(())
    });
    // every (m, n) with 1 <= m <= n <= 16
    let reps = run.n(20, 600);
    run.stream("multisig", 136 * reps, |c| {
        let mut k = c.idx % 136;
        let mut n = 1;
        while k >= n {
            k -= n;
            n += 1;
        }
        let m = k as usize + 1;
        let n = n as usize;
        let (v, vb) = version(&mut c.rng);
        let mut keys: Vec<PublicKey> = (0..n).map(|_| pubkey(&mut c.rng)).collect();
        // lists with repeated keys, with both keys of one x coordinate, and sorted lists
        match c.rng.gen_range(0..8) {
            0 if n > 1 => {
                let (i, j) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
                keys[i] = keys[j];
                c.count("repeated_keys");
            }
            1 => {
                let k = keys[0];
                keys.fill(k);
                c.count("repeated_keys");
            }
            2 if n > 1 => {
                let (i, j) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
                if i != j {
                    keys[i] = keys[j].negate(&bdk::bitcoin::secp256k1::Secp256k1::new());
                }
            }
            3 => keys.sort(),
            4 => {
                keys.sort();
                keys.reverse();
            }
            _ => {}
        }
        let want = |keys: &[PublicKey], m: usize| {
            let mut s = vec![0x50 + m as u8];
            for k in keys {
                s.push(33);
                s.extend_from_slice(&k.serialize());
            }
            s.push(0x50 + keys.len() as u8);
            s.push(0xae);
            (refs::hash160(&s), refs::hash160(&[&[0u8, 32][..], &refs::sha256(&s)].concat()))
        };
        let w = want(&keys, m);
        let a = total("p2sh", || StacksAddress::p2sh(v, &keys, m))?;
        let b = total("p2wsh", || StacksAddress::p2wsh(v, &keys, m))?;
        check_eq!(hex::encode(a.hash().as_ref()), hex::encode(w.0), "hash", "p2sh {m}-of-{n}");
        check_eq!(hex::encode(b.hash().as_ref()), hex::encode(w.1), "hash", "p2wsh {m}-of-{n}");
        check_eq!((a.version() as u8, b.version() as u8), (vb, vb), "version", "multisig version");
        // sensitivity: permutation, replaced key, other threshold
        let mut perm = keys.clone();
        perm.shuffle(&mut c.rng);
        if perm != keys {
            let x = total("p2sh", || StacksAddress::p2sh(v, &perm, m))?;
            check!(x != a, "sensitive", "p2sh does not depend on key order");
            let x = total("p2wsh", || StacksAddress::p2wsh(v, &perm, m))?;
            check!(x != b, "sensitive", "p2wsh does not depend on key order");
        }
        c.count("multisig_checked");
        c.nontrivial((m, n, w.0));
        c.sample(|| json!({"m": m, "n": n}));
        Ok(())
    });
    run.require("multisig_checked", 136);
    run.require("repeated_keys", 100);
}

pub fn c17(run: &mut Run) {
    const LONG: &[usize] = &[65_535, 65_536, 65_537, 131_073, 1 << 20, (1 << 20) + 63, (1 << 22) + 1, 9_000_000];
    let n = run.n(25_000, 600_000);
    run.stream("hash", n, |c| {
        let len = if c.idx < 300 { c.idx as usize } else if c.idx >= 300 && c.idx - 300 < LONG.len() as u64 { LONG[c.idx as usize - 300] } else if c.idx % 500 == 0 { 1 << c.rng.gen_range(10..17) | c.rng.gen_range(0..1000) } else { c.rng.gen_range(0..200) };
        let d = gen::bytes(&mut c.rng, len);
        let s = total("sha256", || Sha256Hasher::new(&d))?;
        let dd = total("sha256d", || DoubleSha256Hasher::new(&d))?;
        let h = total("hash160", || Hash160Hasher::new(&d))?;
        let (rs, rd, rh) = (refs::sha256(&d), refs::sha256d(&d), refs::hash160(&d));
        check_eq!(hex::encode(s.as_bytes()), hex::encode(rs), "hash", "SHA-256 of {} bytes", d.len());
        check_eq!(hex::encode(dd.as_ref()), hex::encode(rd), "hash", "double SHA-256 of {} bytes", d.len());
        check_eq!(hex::encode(h.as_ref()), hex::encode(rh), "hash", "HASH160 of {} bytes", d.len());
        check_eq!(Sha256Hasher::hash(&d), s, "hash", "hash() vs new()");
        check_eq!(s.checksum(), rs[..4], "checksum", "checksum");
        check_eq!(dd.checksum(), rd[..4], "checksum", "checksum");
        check_eq!(h.checksum(), rh[..4], "checksum", "checksum");
        macro_rules! forms {
            ($t:ty, $v:expr, $raw:expr) => {{
                let v: $t = $v;
                let raw: &[u8] = &$raw;
                let hx = v.to_hex();
                check_eq!(hx, hex::encode(raw), "hex", "hex form");
                check_eq!(<$t>::from_hex(&hx).map_err(|e| viol("hex", e))?, v, "hex", "hex round trip");
                check_eq!(<$t>::from_hex(hx.to_uppercase()).map_err(|e| viol("hex", e))?, v, "hex", "upper-case hex");
                check_eq!(<$t>::from_bytes(raw).map_err(|e| viol("bytes", e))?, v, "bytes", "from_bytes");
                check_eq!(<$t>::try_from(raw).map_err(|e| viol("bytes", e))?, v, "bytes", "try_from");
                let fixed: [u8; std::mem::size_of::<$t>()] = raw.try_into().expect("length");
                check_eq!(<$t>::from(fixed), v, "bytes", "from an array");
                check_eq!(<$t>::zeroes().as_bytes().to_vec(), vec![0u8; raw.len()], "bytes", "zeroes()");
                check_eq!(<$t>::default().as_bytes().to_vec(), vec![0u8; raw.len()], "bytes", "default()");
                // wrong lengths and alphabets
                let mut bad: Vec<String> = vec![hx[1..].into(), hx[2..].into(), format!("{hx}00"), format!("0x{}", &hx[2..]), format!("{hx} "), String::new()];
                bad.extend(gen::decorated(&hx, &mut c.rng));
                let i = c.rng.gen_range(0..hx.len());
                let mut x = hx.clone().into_bytes();
                x[i] = *b"gG/:@`zZ".choose(&mut c.rng).unwrap();
                bad.push(String::from_utf8(x).unwrap());
                for b in bad {
                    let r = total("from_hex", || <$t>::from_hex(&b))?;
                    check!(r.is_err(), "hex-bad", "{b:?} accepted as a hash");
                    c.count("bad_text_rejected");
                }
                let short = total("from_bytes", || <$t>::from_bytes(&raw[1..]))?;
                check!(short.is_err(), "bytes-bad", "short bytes accepted");
                let long = total("from_bytes", || <$t>::from_bytes(&[raw, &[0]].concat()))?;
                check!(long.is_err(), "bytes-bad", "long bytes accepted");
            }};
        }
        macro_rules! jsons {
            ($t:ty, $v:expr, $raw:expr) => {{
                let v: $t = $v;
                let raw: &[u8] = &$raw;
                let hx = hex::encode(raw);
                let j = serde_json::to_string(&v).map_err(|e| viol("json", e))?;
                check_eq!(j, format!("\"{hx}\""), "json", "JSON form");
                check_eq!(serde_json::from_str::<$t>(&j).map_err(|e| viol("json", e))?, v, "json", "JSON round trip");
                let mut bad = vec![hx[1..].to_string(), hx[2..].into(), format!("{hx}00"), format!("0x{}", &hx[2..]), format!("{hx} "), String::new(), hx.replace('0', "g").replace('1', "z") + "g"];
                bad.extend(gen::decorated(&hx, &mut c.rng));
                for b in bad {
                    let j = serde_json::to_string(&b).unwrap();
                    let r = total("json", || serde_json::from_str::<$t>(&j))?;
                    check!(r.is_err(), "json-bad", "{b:?} accepted as a hash from JSON");
                }
            }};
        }
        if c.idx % 4 == 0 {
            jsons!(Sha256Hasher, s, rs);
            jsons!(Hash160Hasher, h, rh);
            forms!(Sha256Hasher, s, rs);
            forms!(DoubleSha256Hasher, dd, rd);
            forms!(Hash160Hasher, h, rh);
            c.count("forms_checked");
        }
        c.nontrivial(&d);
        c.sample(|| json!({"len": d.len(), "sha256": hex::encode(rs)}));
        Ok(())
    });
    run.require("forms_checked", 1000);
    run.require("bad_text_rejected", 1000);
}

/// Stacks and Bitcoin network names and kinds
pub fn c25(run: &mut Run) {
    use bdk::bitcoin::Network as Btc;
    const NETS: [(Network, &str, Btc); 2] = [(Network::Mainnet, "mainnet", Btc::Bitcoin), (Network::Testnet, "testnet", Btc::Testnet)];
    run.stream("kinds", 64, |c| {
        let i = c.idx as usize % 4;
        let b = gen::NETWORKS[i];
        let s: Network = total("Bitcoin network to Stacks network", || b.into())?;
        check_eq!(s, if b == Btc::Bitcoin { Network::Mainnet } else { Network::Testnet }, "kind", "Stacks network of Bitcoin {b}");
        let (n, name, b) = NETS[c.idx as usize / 4 % 2];
        let nb: Btc = total("Stacks network to Bitcoin network", || n.into())?;
        check_eq!(nb, b, "kind", "Bitcoin network of Stacks {n:?}");
        let back: Network = nb.into();
        check_eq!(back, n, "kind", "there and back");
        check_eq!(n.to_string(), name, "name", "displayed name");
        check_eq!(Into::<String>::into(n), name, "name", "name as a string");
        check_eq!(serde_json::to_string(&n).map_err(|e| viol("name", e))?, format!("\"{name}\""), "name", "JSON form");
        check_eq!(Network::from_repr(n as u8), Some(n), "kind", "from its number");
        check_eq!(n as u8, if name == "mainnet" { 0 } else { 1 }, "kind", "number");
        for v in 2..=255u8 {
            check_eq!(Network::from_repr(v), None, "kind", "from the number {v}");
        }
        let all: Vec<Network> = <Network as strum::IntoEnumIterator>::iter().collect();
        check_eq!(all, vec![Network::Mainnet, Network::Testnet], "kind", "all networks");
        c.count("kinds_checked");
        c.nontrivial((i, name));
        c.sample(|| json!({"bitcoin": b.to_string(), "stacks": name}));
        Ok(())
    });
    let n = run.n(40_000, 1_000_000);
    run.stream("texts", n, |c| {
        let name = NETS[c.rng.gen_range(0..2)].1;
        let cased: String = name.chars().map(|ch| if c.rng.gen_bool(0.5) { ch.to_ascii_uppercase() } else { ch }).collect();
        let t = match c.rng.gen_range(0..8) {
            0 => name.to_string(),
            1 | 2 => cased,
            3 => gen::decorated(&cased, &mut c.rng).choose(&mut c.rng).unwrap().clone(),
            4 => mutate_text(&mut c.rng, &cased),
            5 => {
                // one character replaced, including by look-alikes of other alphabets
                let mut v: Vec<char> = cased.chars().collect();
                let i = c.rng.gen_range(0..v.len());
                v[i] = *['a', 'e', 'i', 'm', 'n', 's', 't', 'M', 'T', '\u{130}', '\u{131}', '\u{17f}', '\u{212a}', 'е', 'а'].choose(&mut c.rng).unwrap();
                v.into_iter().collect()
            }
            6 => ["", "main", "test", "mainnet testnet", "mainnettestnet", "bitcoin", "signet", "regtest", "devnet", "mocknet", "0", "1", "Main", "tes", "testne", "etmainn", "null"].choose(&mut c.rng).unwrap().to_string(),
            _ => junk_text(&mut c.rng),
        };
        let want = NETS.iter().find(|n| n.1 == t.to_ascii_lowercase()).map(|n| n.0);
        let got = [
            ("text", total("network from text", || Network::try_from(t.as_str()).ok())?),
            ("an owned string", total("network from text", || Network::try_from(t.clone()).ok())?),
            ("parsed text", total("network from text", || t.parse::<Network>().ok())?),
            ("JSON", total("network from JSON", || serde_json::from_str::<Network>(&serde_json::to_string(&t).unwrap()).ok())?),
        ];
        for (what, g) in got {
            check_eq!(g, want, "text", "network read from {what} {t:?}");
        }
        c.count(match want {
            Some(Network::Mainnet) => "read_mainnet",
            Some(_) => "read_testnet",
            None => "text_rejected",
        });
        c.nontrivial(&t);
        c.sample(|| json!({"text": t}));
        Ok(())
    });
    run.require("read_mainnet", 1000);
    run.require("read_testnet", 1000);
    run.require("text_rejected", 1000);
}

pub fn c18(run: &mut Run) {
    let n = run.n(8_000, 300_000);
    run.stream("roundtrip", n, |c| {
        let k: PrivateKey = secret(&mut c.rng);
        let main = c.rng.gen_bool(0.5);
        let net = if main { Network::Mainnet } else { Network::Testnet };
        let (raw, text) = refs::wif(main, &k.secret_bytes());
        let w = total("WIF::new", || WIF::new(net, k))?;
        let t = total("WIF text", || w.to_string())?;
        check_eq!(t, text, "export", "WIF text");
        // what Bitcoin software (rust-bitcoin) reads from it
        let bk = bdk::bitcoin::PrivateKey::from_wif(&t).map_err(|e| viol("export", format!("rust-bitcoin rejects {t}: {e}")))?;
        check_eq!(bk.inner, k, "export", "key read by rust-bitcoin");
        check!(bk.compressed && (bk.network == bdk::bitcoin::Network::Bitcoin) == main, "export", "network or compression flag read by rust-bitcoin");
        for (what, r) in [
            ("text", total("WIF import", || WIF::try_from(text.clone()))?),
            ("bytes", total("WIF import", || WIF::from_bytes(&raw))?),
        ] {
            let r = r.map_err(|e| viol("import", format!("own export rejected from {what}: {e}")))?;
            check_eq!(r.private_key().map_err(|e| viol("import", e))?, k, "import", "imported key");
            check_eq!(r.network().map_err(|e| viol("import", e))?, net, "import", "imported network");
            check_eq!(r.to_string(), text, "import", "re-exported text");
        }
        c.nontrivial(&raw);
        c.sample(|| json!({"wif": text}));
        Ok(())
    });
    let n = run.n(8_000, 300_000);
    run.stream("mutations", n, |c| {
        let k: PrivateKey = secret(&mut c.rng);
        let (mut raw, text) = refs::wif(c.rng.gen_bool(0.5), &k.secret_bytes());
        let fix = |raw: &mut Vec<u8>| {
            let ck = refs::sha256d(&raw[..raw.len() - 4]);
            let n = raw.len();
            raw[n - 4..].copy_from_slice(&ck[..4]);
        };
        let mode = c.rng.gen_range(0..10);
        match mode {
            0 => {
                let i = c.rng.gen_range(0..38);
                raw[i] ^= 1 << c.rng.gen_range(0..8);
            }
            1 => {
                raw[0] = c.rng.gen();
                fix(&mut raw);
            }
            2 => {
                raw[33] = c.rng.gen();
                fix(&mut raw);
            }
            3 => {
                // invalid keys: zero, group order and above
                let bad: [&str; 3] = [
                    "0000000000000000000000000000000000000000000000000000000000000000",
                    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
                    "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
                ];
                raw[1..33].copy_from_slice(&hex::decode(bad.choose(&mut c.rng).unwrap()).unwrap());
                fix(&mut raw);
            }
            4 => {
                let n = c.rng.gen_range(0..38);
                raw.truncate(n);
            }
            5 => {
                let n = c.rng.gen_range(1..20);
                raw.extend(gen::bytes(&mut c.rng, n));
            }
            6 => {
                // uncompressed form: no compression byte
                raw.remove(33);
                fix(&mut raw);
            }
            7 => {
                // only the checksum
                let i = c.rng.gen_range(34..38);
                raw[i] = raw[i].wrapping_add(c.rng.gen_range(1..=255));
            }
            8 => {
                let mut b = vec![0; 38];
                c.rng.fill_bytes(&mut b);
                raw = b;
            }
            _ => {
                let i = c.rng.gen_range(0..38);
                let j = c.rng.gen_range(0..38);
                raw.swap(i, j);
            }
        }
        let valid = raw.len() == 38
            && (raw[0] == 128 || raw[0] == 239)
            && raw[33] == 1
            && refs::sha256d(&raw[..34])[..4] == raw[34..]
            && bdk::bitcoin::secp256k1::SecretKey::from_slice(&raw[1..33]).is_ok();
        let r = total("WIF::from_bytes", || WIF::from_bytes(&raw))?;
        check_eq!(r.is_ok(), valid, "bytes", "WIF bytes {} accepted", hex::encode(&raw));
        let t = refs::b58(&raw);
        let r = total("WIF::try_from", || WIF::try_from(t.clone()))?;
        check_eq!(r.is_ok(), valid, "text", "WIF text {t} accepted");
        c.count(if valid { "valid" } else { "invalid_rejected" });
        // the right text with something added to it
        for t in gen::decorated(&text, &mut c.rng) {
            let r = total("WIF::try_from", || WIF::try_from(t.clone()))?;
            check!(r.is_err(), "text", "WIF {t:?} accepted");
            c.count("decorated_rejected");
        }
        // text-level corruption
        let mut x = text.clone().into_bytes();
        let i = c.rng.gen_range(0..x.len());
        let old = x[i];
        x[i] = *b"0OIl123ABCxyz +/\0".choose(&mut c.rng).unwrap();
        if x[i] != old {
            let t = String::from_utf8(x).unwrap();
            let r = total("WIF::try_from", || WIF::try_from(t.clone()))?;
            check!(r.is_err(), "text", "corrupted WIF {t} accepted");
            c.count("text_corruption_rejected");
        }
        c.nontrivial((mode, raw));
        Ok(())
    });
    run.require("invalid_rejected", 1000);
    run.require("text_corruption_rejected", 1000);
}
