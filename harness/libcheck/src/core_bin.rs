//! C11, C12 (bytes part), C15, C19, C20.
use std::io::{self, Cursor, Read, Write};

use crate::gen::{self, *};
use bdk::bitcoin::{
    secp256k1::{
        ecdsa::{RecoverableSignature, RecoveryId},
        Message, Secp256k1,
    },
    Amount, Script,
};
use mon::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use refs::Big;
use sbtc_core::operations::{
    commit_reveal::{deposit::DepositData, withdrawal_request::WithdrawalData},
    op_return::{
        deposit::DepositOutputData, withdrawal_fulfillment::ParsedWithdrawalFulfillmentData,
        withdrawal_request::WithdrawalRequestDataOutputData,
    },
    Opcode,
};
use stacks_core::{
    address::StacksAddress,
    codec::Codec,
    contract_name::ContractName,
    crypto::{sha256::DoubleSha256Hasher, Hashing},
    uint::{Uint, Uint256, Uint512},
    utils::{PrincipalData, StandardPrincipalData},
    BlockId,
};

/// hands out at most one byte per call, with occasional interruptions
pub struct Drip<'a>(pub &'a [u8], pub u32);
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1 = self.1.wrapping_mul(1664525).wrapping_add(1013904223);
        if self.1 >> 30 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() || self.0.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
/// accepts one byte per call up to a capacity, then reports a full device
struct SlowSink {
    out: Vec<u8>,
    cap: usize,
    zero: bool,
}
impl Write for SlowSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.out.len() >= self.cap {
            return if self.zero { Ok(0) } else { Err(io::ErrorKind::Other.into()) };
        }
        self.out.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// one byte per call, one call fails
struct OnceSink {
    out: Vec<u8>,
    at: usize,
    calls: usize,
}
impl Write for OnceSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.calls - 1 == self.at {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        self.out.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct OnceSource<'a> {
    data: &'a [u8],
    at: usize,
    calls: usize,
}
impl Read for OnceSource<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.calls - 1 == self.at {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        if self.data.is_empty() {
            return Ok(0);
        }
        b[0] = self.data[0];
        self.data = &self.data[1..];
        Ok(1)
    }
}
/// a stream that fails once, at any of its operations, makes the whole
/// operation fail
pub fn once_failing<T: Codec>(c: &mut Case, what: &'static str, v: &T, want: &[u8]) -> CaseResult {
    if want.is_empty() {
        return Ok(());
    }
    let at = c.rng.gen_range(0..want.len().min(64));
    let mut s = OnceSink { out: vec![], at, calls: 0 };
    let r = total("serialize into a failing writer", || v.codec_serialize(&mut s))?;
    check!(r.is_err(), format!("write-error:{what}"), "{what}: the writer failed at byte {at} of {}, success was reported", want.len());
    let at = c.rng.gen_range(0..want.len());
    let mut s = OnceSource { data: want, at, calls: 0 };
    let r = total("deserialize from a failing reader", || T::codec_deserialize(&mut s))?;
    check!(r.is_err(), format!("read-error:{what}"), "{what}: the reader failed at byte {at} of {}, a value was returned", want.len());
    c.count("stream_failures");
    Ok(())
}

pub fn signature(r: &mut StdRng) -> RecoverableSignature {
    if r.gen_bool(0.5) {
        let k = secret(r);
        Secp256k1::new().sign_ecdsa_recoverable(&Message::from_slice(&arr::<32>(r).map(|b| b | 1)).unwrap(), &k)
    } else {
        loop {
            let b: [u8; 64] = arr(r);
            if let Ok(s) = RecoverableSignature::from_compact(&b, RecoveryId::from_i32(r.gen_range(0..4)).unwrap()) {
                return s;
            }
        }
    }
}
pub fn sig_bytes(s: &RecoverableSignature) -> Vec<u8> {
    let (id, b) = s.serialize_compact();
    let mut v = vec![id.to_i32() as u8];
    v.extend_from_slice(&b);
    v
}

/// value-level expectations of one encodable type
fn enc<T: Codec>(c: &mut Case, what: &'static str, v: &T, want: &[u8], eq: impl Fn(&T) -> bool, greedy: bool) -> CaseResult {
    let got = total("serialize_to_vec", || v.serialize_to_vec())?;
    check_eq!(hex::encode(&got), hex::encode(want), format!("wire:{what}"), "{what} wire bytes");
    let mut w = vec![];
    total("codec_serialize", || v.codec_serialize(&mut w))?.map_err(|e| viol(format!("wire:{what}"), e))?;
    check_eq!(w, want, format!("wire:{what}"), "{what} wire bytes through codec_serialize");
    let mut s = SlowSink { out: vec![], cap: usize::MAX, zero: false };
    total("serialize", || v.serialize(&mut s))?.map_err(|e| viol(format!("wire:{what}"), e))?;
    check_eq!(s.out, want, format!("wire:{what}"), "{what} through a one-byte-at-a-time writer");
    // a writer that fills up
    if !want.is_empty() {
        let cap = c.rng.gen_range(0..want.len());
        let zero = c.rng.gen_bool(0.5);
        let mut s = SlowSink { out: vec![], cap, zero };
        let r = total("serialize into a full writer", || v.serialize(&mut s))?;
        check!(r.is_err(), format!("full:{what}"), "{what}: writing {} bytes into a writer of {cap} reported success", want.len());
        c.count("full_writer_reported");
    }
    once_failing(c, what, v, want)?;
    // decode with trailing bytes
    let mut buf = want.to_vec();
    if !greedy {
        let n = c.rng.gen_range(0..5);
        buf.extend(gen::bytes(&mut c.rng, n));
    }
    let mut cur = Cursor::new(&buf[..]);
    let d = total("deserialize", || T::deserialize(&mut cur))?.map_err(|e| viol(format!("back:{what}"), format!("{what} {}: {e}", hex::encode(want))))?;
    check!(eq(&d), format!("back:{what}"), "{what} {} decoded to a different value", hex::encode(want));
    check_eq!(cur.position() as usize, want.len(), format!("consumed:{what}"), "{what} bytes consumed");
    let mut drip = Drip(&buf, c.idx as u32);
    let d = total("deserialize", || T::codec_deserialize(&mut drip))?.map_err(|e| viol(format!("back:{what}"), format!("{what} from a slow reader: {e}")))?;
    check!(eq(&d), format!("back:{what}"), "{what} decoded to a different value from a slow reader");
    check_eq!(drip.0.len(), buf.len() - want.len(), format!("consumed:{what}"), "{what} bytes left in a slow reader");
    c.evals(6);
    c.count(what);
    Ok(())
}
fn words<const N: usize>(r: &mut StdRng) -> [u64; N] {
    let mut a = [0u64; N];
    for x in a.iter_mut() {
        *x = match r.gen_range(0..5) {
            0 => 0,
            1 => u64::MAX,
            2 => gen::u64s(r),
            _ => r.gen(),
        };
    }
    if r.gen_ratio(1, 4) {
        let k = r.gen_range(0..=N);
        a[k..].fill(0);
    }
    a
}

pub fn c11(run: &mut Run) {
    let n = run.n(20_000, 600_000);
    run.stream("values", n, |c| {
        let (a, w) = stacks_addr(&mut c.rng);
        enc(c, "address", &a, &w, |x| *x == a, false)?;
        let sp = StandardPrincipalData::from(a.clone());
        enc(c, "standard-principal-data", &sp, &w, |x| *x == sp, false)?;
        let p = principal(&mut c.rng);
        enc(c, "principal", &p.data, &p.wire, |x| *x == p.data, false)?;
        let nm = name_text(&mut c.rng);
        let name = ContractName::new(&nm).map_err(|e| viol("name", format!("{nm}: {e}")))?;
        enc(c, "contract-name", &name, &[vec![nm.len() as u8], nm.clone().into_bytes()].concat(), |x| *x == name, false)?;
        let x = gen::u64s(&mut c.rng);
        let am = Amount::from_sat(x);
        enc(c, "amount", &am, &x.to_be_bytes(), |y| *y == am, false)?;
        enc(c, "u64", &x, &x.to_be_bytes(), |y| *y == x, false)?;
        let s = signature(&mut c.rng);
        enc(c, "signature", &s, &sig_bytes(&s), |y| *y == s, false)?;
        let len = match c.idx % 500 {
            0 => *[70_000, 100_001, 400_000, 1 << 20, 3_000_001].choose(&mut c.rng).unwrap(),
            1..=9 => c.rng.gen_range(250..1200),
            _ => c.rng.gen_range(0..120),
        };
        let sb = gen::bytes(&mut c.rng, len);
        let sc = Script::from(sb.clone());
        enc(c, "script", &sc, &sb, |y| *y == sc, true)?;
        let w4: [u64; 4] = words(&mut c.rng);
        let u = Uint256::from_u64_array(w4);
        enc(c, "uint256", &u, &Big::from_words(&w4).to_be(32), |y| *y == u, false)?;
        let w8: [u64; 8] = words(&mut c.rng);
        let u8_ = Uint512::from_u64_array(w8);
        enc(c, "uint512", &u8_, &Big::from_words(&w8).to_be(64), |y| *y == u8_, false)?;
        let b = BlockId::new(u);
        let bw = Big::from_words(&w4).to_be(32);
        enc(c, "block-id", &b, &bw, |y| y.serialize_to_vec() == bw, false)?;
        for (o, b) in [
            (Opcode::Deposit, b'<'),
            (Opcode::WithdrawalRequest, b'>'),
            (Opcode::WithdrawalFulfillment, b'!'),
            (Opcode::WalletHandoff, b'H'),
        ] {
            enc(c, "opcode", &o, &[b], |y| *y as u8 == b, false)?;
        }
        // the operations' own data, through failing streams
        fn data<T: Codec>(c: &mut Case, what: &'static str, w: &[u8]) -> CaseResult {
            let v = total("deserialize", || T::codec_deserialize(&mut &w[..]))?.map_err(|e| viol(format!("back:{what}"), format!("{what} {}: {e}", hex::encode(w))))?;
            check_eq!(v.serialize_to_vec(), w, format!("wire:{what}"), "{what} wire bytes");
            once_failing(c, what, &v, w)
        }
        let m = magic(*NETWORKS.choose(&mut c.rng).unwrap());
        let sat = x.to_be_bytes();
        data::<DepositOutputData>(c, "deposit-data", &[&m[..], b"<", &p.wire].concat())?;
        data::<WithdrawalRequestDataOutputData>(c, "withdrawal-data", &[&m[..], b">", &sat, &sig_bytes(&s)].concat())?;
        data::<ParsedWithdrawalFulfillmentData>(c, "fulfillment-data", &[&m[..], b"!", &bw].concat())?;
        data::<DepositData>(c, "commit-deposit-data", &[b"<", &p.wire[..], &sat].concat())?;
        data::<WithdrawalData>(c, "commit-withdrawal-data", &[b">", &sat[..], &sig_bytes(&s), &sat].concat())?;
        c.nontrivial((p.wire.clone(), x, w4));
        c.sample(|| json!({"principal": p.text, "wire": hex::encode(&p.wire)}));
        Ok(())
    });
    let n = run.n(20_000, 400_000);
    run.stream("concatenations", n, |c| {
        enum V {
            A(StacksAddress),
            P(PrincipalData),
            N(ContractName),
            U(u64),
            S(RecoverableSignature),
            X(Uint256),
        }
        let k = c.rng.gen_range(2..9);
        let mut buf = vec![];
        let mut vals = vec![];
        for _ in 0..k {
            let (v, w) = match c.rng.gen_range(0..6) {
                0 => {
                    let (a, w) = stacks_addr(&mut c.rng);
                    (V::A(a), w)
                }
                1 => {
                    let p = principal(&mut c.rng);
                    (V::P(p.data), p.wire)
                }
                2 => {
                    let n = name_text(&mut c.rng);
                    (V::N(ContractName::new(&n).map_err(|e| viol("name", e))?), [vec![n.len() as u8], n.into_bytes()].concat())
                }
                3 => {
                    let x = gen::u64s(&mut c.rng);
                    (V::U(x), x.to_be_bytes().to_vec())
                }
                4 => {
                    let s = signature(&mut c.rng);
                    (V::S(s), sig_bytes(&s))
                }
                _ => {
                    let w: [u64; 4] = words(&mut c.rng);
                    (V::X(Uint256::from_u64_array(w)), Big::from_words(&w).to_be(32))
                }
            };
            buf.extend(w);
            vals.push(v);
        }
        let mut out = vec![];
        for v in &vals {
            let r = match v {
                V::A(x) => total("serialize", || x.serialize(&mut out))?,
                V::P(x) => total("serialize", || x.serialize(&mut out))?,
                V::N(x) => total("serialize", || x.serialize(&mut out))?,
                V::U(x) => total("serialize", || x.serialize(&mut out))?,
                V::S(x) => total("serialize", || x.serialize(&mut out))?,
                V::X(x) => total("serialize", || x.serialize(&mut out))?,
            };
            r.map_err(|e| viol("concat", e))?;
        }
        check_eq!(hex::encode(&out), hex::encode(&buf), "concat", "concatenated encoding");
        let mut cur = &buf[..];
        for v in &vals {
            let ok = match v {
                V::A(x) => total("deserialize", || StacksAddress::deserialize(&mut cur))?.map(|y| y == *x),
                V::P(x) => total("deserialize", || PrincipalData::deserialize(&mut cur))?.map(|y| y == *x),
                V::N(x) => total("deserialize", || ContractName::deserialize(&mut cur))?.map(|y| y == *x),
                V::U(x) => total("deserialize", || u64::deserialize(&mut cur))?.map(|y| y == *x),
                V::S(x) => total("deserialize", || RecoverableSignature::deserialize(&mut cur))?.map(|y| y == *x),
                V::X(x) => total("deserialize", || Uint256::deserialize(&mut cur))?.map(|y| y == *x),
            };
            check!(ok.map_err(|e| viol("concat", e))?, "concat", "value decoded differently in a concatenation");
        }
        check!(cur.is_empty(), "concat", "{} bytes left over", cur.len());
        c.count("concatenation");
        c.nontrivial(&buf);
        c.sample(|| json!({"values": k, "bytes": buf.len()}));
        Ok(())
    });
    run.require("full_writer_reported", 1000);
    run.require("stream_failures", 1000);
    run.require("concatenation", 1000);
}

/// decode hostile bytes as T: no abort, accepted values re-encode to what was read
fn hostile<T: Codec>(c: &mut Case, what: &'static str, b: &[u8]) -> Result<bool, Stop> {
    let mut cur = Cursor::new(b);
    let r = guard(|| T::codec_deserialize(&mut cur)).map_err(|e| viol(format!("abort:{what}"), format!("decoding {what} from {}: {e}", hex::encode(b))))?;
    c.evals(1);
    match r {
        Ok(v) => {
            let used = cur.position() as usize;
            let re = guard(|| v.serialize_to_vec()).map_err(|e| viol(format!("abort:{what}"), format!("re-encoding {what}: {e}")))?;
            check_eq!(hex::encode(&re), hex::encode(&b[..used]), format!("reencode:{what}"), "{what} accepted from {}", hex::encode(b));
            // same verdict from a slow reader
            let mut d = Drip(b, 7);
            let r2 = guard(|| T::deserialize(&mut d)).map_err(|e| viol(format!("abort:{what}"), e))?;
            check!(r2.is_ok(), format!("slow:{what}"), "{what} accepted from memory but not from a slow reader: {}", hex::encode(b));
            c.count("bytes_accepted");
            Ok(true)
        }
        Err(_) => {
            c.count("bytes_rejected");
            Ok(false)
        }
    }
}
fn wire_principal_len(b: &[u8]) -> Option<usize> {
    let addr_ok = |b: &[u8]| b.len() >= 22 && VERSION_BYTES.contains(&b[1]);
    match b.first()? {
        5 if addr_ok(b) => Some(22),
        6 if addr_ok(b) => {
            let n = *b.get(22)? as usize;
            let nm = b.get(23..23 + n)?;
            name_ok(nm).then_some(23 + n)
        }
        _ => None,
    }
}
pub fn c12(run: &mut Run) {
    crate::core_text::c12_text(run);
    let n = run.n(25_000, 800_000);
    run.stream("byte-decoders", n, |c| {
        // start from a valid encoding of something, then damage it
        let p = principal(&mut c.rng);
        let s = signature(&mut c.rng);
        let net = *NETWORKS.choose(&mut c.rng).unwrap();
        let mut b: Vec<u8> = match c.rng.gen_range(0..9) {
            0 => p.wire.clone(),
            1 => p.wire[1..].to_vec(),
            2 => sig_bytes(&s),
            3 => [magic(net).to_vec(), vec![b'<'], p.wire.clone()].concat(),
            4 => [magic(net).to_vec(), vec![b'>'], gen::bytes(&mut c.rng, 8), sig_bytes(&s)].concat(),
            5 => [magic(net).to_vec(), vec![b'!'], gen::bytes(&mut c.rng, 32)].concat(),
            6 => [vec![b'<'], p.wire.clone(), gen::bytes(&mut c.rng, 8)].concat(),
            7 => {
                let n = name_text(&mut c.rng);
                [vec![n.len() as u8], n.into_bytes()].concat()
            }
            _ => {
                let n = c.rng.gen_range(0..100);
                gen::bytes(&mut c.rng, n)
            }
        };
        let damage = c.rng.gen_range(0..5);
        match damage {
            0 if !b.is_empty() => {
                let n = c.rng.gen_range(0..b.len());
                b.truncate(n);
            }
            1 if !b.is_empty() => {
                let i = c.rng.gen_range(0..b.len().min(30));
                b[i] = c.rng.gen();
            }
            2 if !b.is_empty() => {
                for _ in 0..3 {
                    let i = c.rng.gen_range(0..b.len());
                    b[i] ^= 1 << c.rng.gen_range(0..8);
                }
            }
            3 => {
                let n = c.rng.gen_range(1..20);
                b.extend(gen::bytes(&mut c.rng, n));
            }
            _ => {}
        }
        let acc = hostile::<PrincipalData>(c, "principal", &b)?;
        check_eq!(acc, wire_principal_len(&b).is_some(), "principal-verdict", "principal bytes {} accepted", hex::encode(&b));
        let acc = hostile::<StacksAddress>(c, "address", &b)?;
        check_eq!(acc, b.len() >= 21 && VERSION_BYTES.contains(&b[0]), "address-verdict", "address bytes {} accepted", hex::encode(&b));
        hostile::<StandardPrincipalData>(c, "standard principal", &b)?;
        let acc = hostile::<ContractName>(c, "contract name", &b)?;
        let want = b.first().map(|n| b.get(1..1 + *n as usize).map(name_ok).unwrap_or(false)).unwrap_or(false);
        check_eq!(acc, want, "name-verdict", "contract name bytes {} accepted", hex::encode(&b));
        let acc = hostile::<RecoverableSignature>(c, "signature", &b)?;
        check!(!acc || (b.len() >= 65 && b[0] < 4), "signature-verdict", "signature bytes {} accepted", hex::encode(&b));
        for (what, acc, len) in [
            ("amount", hostile::<Amount>(c, "amount", &b)?, 8),
            ("u64", hostile::<u64>(c, "u64", &b)?, 8),
            ("uint256", hostile::<Uint256>(c, "uint256", &b)?, 32),
            ("uint512", hostile::<Uint512>(c, "uint512", &b)?, 64),
            ("block id", hostile::<BlockId>(c, "block id", &b)?, 32),
        ] {
            check_eq!(acc, b.len() >= len, "fixed-verdict", "{what} from {} bytes accepted", b.len());
        }
        hostile::<Script>(c, "script", &b)?;
        let acc = hostile::<Opcode>(c, "opcode", &b)?;
        check_eq!(acc, b.first().map(|x| b"<>!H".contains(x)).unwrap_or(false), "opcode-verdict", "opcode accepted");
        hostile::<DepositOutputData>(c, "deposit data", &b)?;
        hostile::<WithdrawalRequestDataOutputData>(c, "withdrawal request data", &b)?;
        hostile::<ParsedWithdrawalFulfillmentData>(c, "fulfillment data", &b)?;
        hostile::<DepositData>(c, "commit-reveal deposit data", &b)?;
        hostile::<WithdrawalData>(c, "commit-reveal withdrawal data", &b)?;
        let r = total("WIF from bytes", || stacks_core::crypto::wif::WIF::from_bytes(&b))?;
        check!(r.is_err() || b.len() == 38, "wif-verdict", "WIF of {} bytes accepted", b.len());
        for le in [false, true] {
            let r = total("uint from bytes", || if le { Uint256::from_le_bytes(&b) } else { Uint256::from_be_bytes(&b) })?;
            check_eq!(r.is_ok(), b.len() == 32, "uint-verdict", "Uint256 from {} bytes", b.len());
            let r = total("uint from bytes", || if le { Uint512::from_le_bytes(&b) } else { Uint512::from_be_bytes(&b) })?;
            check_eq!(r.is_ok(), b.len() == 64, "uint-verdict", "Uint512 from {} bytes", b.len());
        }
        c.nontrivial(&b);
        c.sample(|| json!({"bytes": hex::encode(&b)}));
        Ok(())
    });
    // every truncation of every kind of valid encoding is an error
    let n = run.n(1_500, 40_000);
    run.stream("truncations", n, |c| {
        let p = principal(&mut c.rng);
        for i in 0..p.wire.len() {
            let r = total("decode", || PrincipalData::deserialize(&mut &p.wire[..i]))?;
            check!(r.is_err(), "truncation:principal", "principal {} cut to {i} bytes accepted", hex::encode(&p.wire));
        }
        let n = name_text(&mut c.rng);
        let w = [vec![n.len() as u8], n.into_bytes()].concat();
        for i in 0..w.len() {
            let r = total("decode", || ContractName::deserialize(&mut &w[..i]))?;
            check!(r.is_err(), "truncation:name", "contract name {} cut to {i} bytes accepted", hex::encode(&w));
        }
        let s = sig_bytes(&signature(&mut c.rng));
        for i in 0..s.len() {
            let r = total("decode", || RecoverableSignature::deserialize(&mut &s[..i]))?;
            check!(r.is_err(), "truncation:signature", "signature cut to {i} bytes accepted");
        }
        c.evals((p.wire.len() + w.len() + s.len()) as u64);
        c.count("truncated_family");
        c.nontrivial(&p.wire);
        Ok(())
    });
    run.require("bytes_rejected", 1000);
    run.require("bytes_accepted", 1000);
}

// ------------------------------------------------------------------ C15
fn big<const N: usize>(u: &Uint<N>) -> Big {
    let v: Vec<u64> = (*u).into();
    Big::from_words(&v)
}
fn uint_ops<const N: usize>(c: &mut Case, a: [u64; N], b: [u64; N], m: u32, sh: usize) -> CaseResult {
    let (ua, ub) = (Uint::<N>::from_u64_array(a), Uint::<N>::from_u64_array(b));
    let (ba, bb) = (Big::from_words(&a), Big::from_words(&b));
    let bits = 64 * N;
    let modulus = Big::from_u64(1).shl(bits);
    let eq = |op: &str, got: Uint<N>, want: Big| -> CaseResult {
        let w: Vec<u64> = got.into();
        check_eq!(w, want.words(N), format!("{op}"), "{op} over {bits} bits, a={ua:?} b={ub:?} m={m} shift={sh}");
        Ok(())
    };
    macro_rules! op { ($n:expr, $e:expr, $w:expr) => { eq($n, total($n, || $e)?, $w)?; }; }
    op!("add", ua + ub, ba.add(&bb));
    op!("sub", ua - ub, ba.add(&modulus).sub(&bb));
    op!("mul", ua * ub, ba.mul(&bb));
    op!("mul_u32", ua.mul_u32(m), ba.mul(&Big::from_u64(m as u64)));
    op!("shl", ua << sh, ba.shl(sh.min(2 * bits)));
    op!("shr", ua >> sh, ba.shr(sh.min(2 * bits)));
    if !bb.is_zero() {
        op!("div", ua / ub, ba.divrem(&bb).0);
        c.count("division");
    } else {
        // division by zero must not return a value
        let r = guard(|| ua / ub);
        check!(r.is_err(), "div0", "division by zero returned a value");
    }
    let zip = |f: fn(u64, u64) -> u64| Big::from_words(&a.iter().zip(b).map(|(x, y)| f(*x, y)).collect::<Vec<_>>());
    op!("and", ua & ub, zip(|x, y| x & y));
    op!("or", ua | ub, zip(|x, y| x | y));
    op!("xor", ua ^ ub, zip(|x, y| x ^ y));
    op!("not", !ua, Big::from_words(&a.map(|x| !x)));
    op!("increment", { let mut x = ua; x.increment(); x }, ba.add(&Big::from_u64(1)));
    check_eq!(ua.cmp(&ub), ba.cmp(&bb), "cmp", "comparison of {ua:?} and {ub:?}");
    check_eq!(ua.partial_cmp(&ub), Some(ba.cmp(&bb)), "cmp", "partial comparison");
    check_eq!(ua == ub, a == b, "eq", "equality");
    check_eq!(total("bits", || ua.bits())?, ba.bits(), "bits", "bit length of {ua:?}");
    check_eq!(ua.low_u64(), ba.low_u64(), "low", "low_u64");
    check_eq!(ua.low_u32(), ba.low_u64() as u32, "low", "low_u32");
    // text and bytes
    let be = ba.to_be(8 * N);
    let le: Vec<u8> = be.iter().rev().copied().collect();
    check_eq!(total("to_be_bytes", || ua.to_be_bytes())?, be, "bytes", "to_be_bytes");
    check_eq!(total("to_le_bytes", || ua.to_le_bytes())?, le, "bytes", "to_le_bytes");
    check_eq!(total("to_be_hex", || ua.to_be_hex())?, hex::encode(&be), "hex", "to_be_hex");
    check_eq!(total("to_le_hex", || ua.to_le_hex())?, hex::encode(&le), "hex", "to_le_hex");
    let e = |x: stacks_core::StacksError| viol("conv", x);
    eq("from_be_bytes", total("from_be_bytes", || Uint::<N>::from_be_bytes(&be))?.map_err(e)?, ba.clone())?;
    eq("from_le_bytes", total("from_le_bytes", || Uint::<N>::from_le_bytes(&le))?.map_err(e)?, ba.clone())?;
    eq("from_be_hex", total("from_be_hex", || Uint::<N>::from_be_hex(hex::encode(&be)))?.map_err(e)?, ba.clone())?;
    eq("from_le_hex", total("from_le_hex", || Uint::<N>::from_le_hex(hex::encode_upper(&le)))?.map_err(e)?, ba.clone())?;
    if c.rng.gen_bool(0.1) {
        let h = hex::encode(&be);
        for t in gen::decorated(&h, &mut c.rng).into_iter().chain([h[1..].to_string(), h[2..].to_string(), h[16..].to_string(), format!("{h}{}", &h[..16])]) {
            check!(total("from_be_hex", || Uint::<N>::from_be_hex(&t))?.is_err(), "hex-bad", "{t:?} accepted as a big-endian integer");
            check!(total("from_le_hex", || Uint::<N>::from_le_hex(&t))?.is_err(), "hex-bad", "{t:?} accepted as a little-endian integer");
        }
        for b in [&be[1..], &be[8..], &[&be[..], &[0]].concat(), &[&be[..], &[0; 8]].concat(), &[]] {
            check!(total("from_be_bytes", || Uint::<N>::from_be_bytes(b))?.is_err(), "bytes-bad", "{} bytes accepted as a big-endian integer of {}", b.len(), 8 * N);
            check!(total("from_le_bytes", || Uint::<N>::from_le_bytes(b))?.is_err(), "bytes-bad", "{} bytes accepted as a little-endian integer of {}", b.len(), 8 * N);
        }
    }
    check_eq!(format!("{ua:?}"), format!("0x{}", hex::encode(&be)), "fmt", "Debug text");
    check_eq!(format!("{ua}"), format!("0x{}", hex::encode(&be)), "fmt", "Display text");
    let j = serde_json::to_string(&ua).map_err(|e| viol("json", e))?;
    check_eq!(serde_json::from_str::<Uint<N>>(&j).map_err(|e| viol("json", e))?, ua, "json", "JSON round trip");
    let short: Vec<u64> = a[..N - 1].to_vec();
    check!(Uint::<N>::try_from(short).is_err(), "conv", "too few words accepted");
    // machine integers
    op!("from_u8", Uint::<N>::from(m as u8), Big::from_u64(m as u8 as u64));
    op!("from_u16", Uint::<N>::from(m as u16), Big::from_u64(m as u16 as u64));
    op!("from_u32", Uint::<N>::from(m), Big::from_u64(m as u64));
    op!("from_u64", Uint::<N>::from(a[0]), Big::from_u64(a[0]));
    op!("from_u128", Uint::<N>::from((a[1] as u128) << 64 | a[0] as u128), Big::from_words(&a[..2]));
    check!(Uint::<N>::MIN <= ua && ua <= Uint::<N>::MAX && big(&Uint::<N>::MIN).is_zero(), "limits", "MIN/MAX");
    check_eq!(big(&Uint::<N>::MAX), modulus.sub(&Big::from_u64(1)), "limits", "MAX");
    check_eq!(Uint::<N>::default(), Uint::<N>::MIN, "limits", "default");
    c.evals(35);
    Ok(())
}
pub fn uint_operands<const N: usize>(c: &mut Case) -> ([u64; N], [u64; N], u32, usize) {
    let a: [u64; N] = words(&mut c.rng);
    let mut b: [u64; N] = words(&mut c.rng);
    match c.rng.gen_range(0..12) {
        0 => b = a,
        1 => {
            // b = a +- 1
            let x = Big::from_words(&a).add(&Big::from_u64(1)).words(N);
            b.copy_from_slice(&x);
        }
        2 => b = a.map(|x| !x),
        3 => {
            b = [0; N];
            b[c.rng.gen_range(0..N)] = 1u64 << c.rng.gen_range(0..64);
        }
        4 => {
            b = [0; N];
            b[0] = c.rng.gen_range(1..1000);
        }
        5 => {
            // same top, different low words
            b = a;
            b[0] = c.rng.gen();
        }
        _ => {}
    }
    let m = *[0u32, 1, 2, 0xffff_ffff, 0x8000_0000, 0xffff].choose(&mut c.rng).unwrap();
    let m = if c.rng.gen_bool(0.5) { m } else { c.rng.gen() };
    let bits = 64 * N;
    let sh = match c.rng.gen_range(0..6) {
        0 => 64 * c.rng.gen_range(0..=N + 1),
        1 => (64 * c.rng.gen_range(1..=N)).saturating_sub(1),
        2 => 64 * c.rng.gen_range(0..=N) + 1,
        3 => *[0usize, bits - 1, bits, bits + 1, 2 * bits, usize::MAX, usize::MAX - 63, 1 << 32, 1 << 40].choose(&mut c.rng).unwrap(),
        _ => c.rng.gen_range(0..bits + 70),
    };
    (a, b, m, sh)
}
pub fn c15(run: &mut Run) {
    let n = run.n(30_000, 900_000);
    run.stream("256-bit", n, |c| {
        let (a, b, m, sh) = uint_operands::<4>(c);
        c.nontrivial((a, b, m, sh));
        c.sample(|| json!({"a": format!("{a:x?}"), "b": format!("{b:x?}"), "m": m, "shift": sh}));
        uint_ops::<4>(c, a, b, m, sh)
    });
    let n = run.n(12_000, 400_000);
    run.stream("512-bit", n, |c| {
        let (a, b, m, sh) = uint_operands::<8>(c);
        c.nontrivial((a, b, m, sh));
        uint_ops::<8>(c, a, b, m, sh)
    });
    // all shift distances on dense patterns
    run.stream("all-shifts", 700, |c| {
        for pat in [u64::MAX, 1, 1 << 63, 0x8000_0000_0000_0001, 0xaaaa_aaaa_aaaa_aaaa] {
            let sh = c.idx as usize;
            for i in 0..5 {
                let mut a = [pat; 4];
                if i < 4 {
                    a = [0; 4];
                    a[i] = pat;
                }
                let (u, b) = (Uint256::from_u64_array(a), Big::from_words(&a));
                let l: Vec<u64> = total("shl", || u << sh)?.into();
                check_eq!(l, b.shl(sh).words(4), "shl", "{u:?} << {sh}");
                let r: Vec<u64> = total("shr", || u >> sh)?.into();
                check_eq!(r, b.shr(sh).words(4), "shr", "{u:?} >> {sh}");
            }
            let a = [pat; 8];
            let (u, b) = (Uint512::from_u64_array(a), Big::from_words(&a));
            let l: Vec<u64> = total("shl", || u << sh)?.into();
            check_eq!(l, b.shl(sh).words(8), "shl", "{u:?} << {sh}");
            let r: Vec<u64> = total("shr", || u >> sh)?.into();
            check_eq!(r, b.shr(sh).words(8), "shr", "{u:?} >> {sh}");
        }
        c.count("shift_distance");
        c.nontrivial(c.idx);
        c.evals(59);
        Ok(())
    });
    let n = run.n(20_000, 400_000);
    run.stream("conversions", n, |c| {
        let a: [u64; 4] = words(&mut c.rng);
        let w: [u64; 8] = words(&mut c.rng);
        let (u4, u8_) = (Uint256::from_u64_array(a), Uint512::from_u64_array(w));
        let (b4, b8) = (Big::from_words(&a), Big::from_words(&w));
        // widening keeps the value
        check_eq!(big(&total("from_uint", || Uint512::from_uint::<4>(u4))?), b4, "widen", "Uint512::from_uint");
        check_eq!(big(&total("to_uint", || u4.to_uint::<8>())?), b4, "widen", "to_uint::<8>");
        check_eq!(big(&total("to_uint", || u4.to_uint::<4>())?), b4, "widen", "to_uint::<4>");
        check_eq!(big(&total("from_uint_lossy", || Uint512::from_uint_lossy::<4>(u4))?), b4, "widen", "from_uint_lossy wider");
        check_eq!(big(&total("to_uint_lossy", || u4.to_uint_lossy::<8>())?), b4, "widen", "to_uint_lossy wider");
        // narrowing keeps the low words
        let low = Big::from_words(&w[..4]);
        check_eq!(big(&total("from_uint_lossy", || Uint256::from_uint_lossy::<8>(u8_))?), low, "narrow", "from_uint_lossy");
        check_eq!(big(&total("to_uint_lossy", || u8_.to_uint_lossy::<4>())?), low, "narrow", "to_uint_lossy");
        // a conversion that cannot hold the value must not invent one
        if b8.bits() > 256 {
            if let Ok(x) = guard(|| u8_.to_uint::<4>()) {
                return Err(viol("narrow", format!("{u8_:?} became {x:?} without truncation being asked for")));
            }
            c.count("narrowing_refused");
        }
        // hash to number: little-endian reading of the digest
        let len = c.rng.gen_range(0..100);
        let d = gen::bytes(&mut c.rng, len);
        let h = DoubleSha256Hasher::new(&d);
        let mut rev = refs::sha256d(&d);
        rev.reverse();
        check_eq!(big(&total("uint from hash", || Uint256::from(h))?), Big::from_be(&rev), "hash", "number of a double SHA-256");
        c.nontrivial((a, w));
        c.evals(8);
        Ok(())
    });
    run.require("division", 1000);
    run.require("shift_distance", 700);
}
