//! Stand-in for the parts of blockstack-core that romeo uses: identifiers,
//! SIP-005 transactions with real encoding, decoding and signing, and Clarity
//! values with their consensus encoding.
pub mod codec {
    use std::io::{Read, Write};
    #[derive(Debug, Clone)]
    pub enum Error {
        Serialize(String),
        Deserialize(String),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub trait StacksMessageCodec {
        fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error>
        where
            Self: Sized;
        fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error>
        where
            Self: Sized;
        fn serialize_to_vec(&self) -> Vec<u8>
        where
            Self: Sized,
        {
            let mut v = vec![];
            self.consensus_serialize(&mut v).expect("serialize");
            v
        }
    }
    pub(crate) fn put<W: Write>(w: &mut W, b: &[u8]) -> Result<(), Error> {
        w.write_all(b).map_err(|e| Error::Serialize(e.to_string()))
    }
    pub(crate) fn get<R: Read, const N: usize>(r: &mut R) -> Result<[u8; N], Error> {
        let mut b = [0; N];
        r.read_exact(&mut b).map_err(|e| Error::Deserialize(e.to_string()))?;
        Ok(b)
    }
    pub(crate) fn getn<R: Read>(r: &mut R, n: usize) -> Result<Vec<u8>, Error> {
        let mut v = vec![];
        r.take(n as u64).read_to_end(&mut v).map_err(|e| Error::Deserialize(e.to_string()))?;
        if v.len() != n {
            return Err(Error::Deserialize("short read".into()));
        }
        Ok(v)
    }
}

macro_rules! hexid {
    ($n:ident, $l:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $n(pub [u8; $l]);
        impl $n {
            pub fn from_hex(s: &str) -> Result<$n, hex::FromHexError> {
                let mut b = [0u8; $l];
                hex::decode_to_slice(s, &mut b)?;
                Ok($n(b))
            }
            pub fn to_hex(&self) -> String {
                hex::encode(self.0)
            }
            pub fn as_bytes(&self) -> &[u8; $l] {
                &self.0
            }
            pub fn from_bytes(b: &[u8]) -> Option<$n> {
                Some($n(b.try_into().ok()?))
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str(&self.to_hex())
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str(&self.to_hex())
            }
        }
        impl serde::Serialize for $n {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&self.to_hex())
            }
        }
        impl<'de> serde::Deserialize<'de> for $n {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<$n, D::Error> {
                let s = <String as serde::Deserialize>::deserialize(d)?;
                $n::from_hex(&s).map_err(serde::de::Error::custom)
            }
        }
    };
}
pub mod burnchains {
    hexid!(Txid, 32);
}
pub mod core {
    pub const CHAIN_ID_MAINNET: u32 = 0x00000001;
    pub const CHAIN_ID_TESTNET: u32 = 0x80000000;
}
pub mod util {
    pub mod hash {
        hexid!(Hash160, 20);
        impl Hash160 {
            pub fn from_data(d: &[u8]) -> Hash160 {
                use ripemd::Ripemd160;
                use sha2::{Digest, Sha256};
                Hash160(Ripemd160::digest(Sha256::digest(d)).into())
            }
        }
        pub fn sha512_256(d: &[u8]) -> [u8; 32] {
            use sha2::{Digest, Sha512_256};
            Sha512_256::digest(d).into()
        }
    }
}
pub mod types {
    pub mod chainstate {
        use crate::codec::*;
        use crate::util::hash::Hash160;
        use bitcoin::secp256k1::{PublicKey, SecretKey};
        use std::io::{Read, Write};
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct StacksAddress {
            pub version: u8,
            pub bytes: Hash160,
        }
        impl StacksAddress {
            pub fn new(version: u8, bytes: Hash160) -> StacksAddress {
                StacksAddress { version, bytes }
            }
            pub fn version(&self) -> u8 {
                self.version
            }
            pub fn bytes(&self) -> &Hash160 {
                &self.bytes
            }
            pub fn is_mainnet(&self) -> bool {
                [20, 22].contains(&self.version)
            }
            pub fn to_account_principal(&self) -> crate::vm::types::PrincipalData {
                (*self).into()
            }
        }
        impl std::fmt::Display for StacksAddress {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str(&crate::vm::types::StandardPrincipalData(self.version, self.bytes.0).to_address())
            }
        }
        impl StacksMessageCodec for StacksAddress {
            fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
                put(fd, &[self.version])?;
                put(fd, &self.bytes.0)
            }
            fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
                let [version] = get::<_, 1>(fd)?;
                Ok(StacksAddress { version, bytes: Hash160(get::<_, 20>(fd)?) })
            }
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct StacksPublicKey(pub PublicKey);
        impl StacksPublicKey {
            pub fn from_slice(b: &[u8]) -> Result<StacksPublicKey, &'static str> {
                PublicKey::from_slice(b).map(StacksPublicKey).map_err(|_| "Invalid public key: failed to load")
            }
            pub fn to_bytes_compressed(&self) -> Vec<u8> {
                self.0.serialize().to_vec()
            }
            pub fn to_bytes(&self) -> Vec<u8> {
                self.to_bytes_compressed()
            }
            pub fn to_hex(&self) -> String {
                hex::encode(self.0.serialize())
            }
            pub fn from_hex(s: &str) -> Result<StacksPublicKey, &'static str> {
                Self::from_slice(&hex::decode(s).map_err(|_| "Failed to decode hex")?)
            }
            pub fn from_private(k: &StacksPrivateKey) -> StacksPublicKey {
                StacksPublicKey(PublicKey::from_secret_key(&bitcoin::secp256k1::Secp256k1::new(), &k.0))
            }
        }
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct StacksPrivateKey(pub SecretKey);
        impl std::fmt::Debug for StacksPrivateKey {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("StacksPrivateKey")
            }
        }
        impl StacksPrivateKey {
            pub fn from_hex(s: &str) -> Result<StacksPrivateKey, &'static str> {
                Self::from_slice(&hex::decode(s).map_err(|_| "Failed to decode hex")?)
            }
            pub fn to_bytes(&self) -> Vec<u8> {
                let mut v = self.0.secret_bytes().to_vec();
                v.push(1);
                v
            }
            pub fn from_slice(b: &[u8]) -> Result<StacksPrivateKey, &'static str> {
                // a 33rd byte 0x01 marks a compressed key
                let b = if b.len() == 33 && b[32] == 1 { &b[..32] } else { b };
                SecretKey::from_slice(b).map(StacksPrivateKey).map_err(|_| "Invalid private key: failed to load")
            }
        }
    }
}
pub mod vm {
    use crate::codec::*;
    use std::io::{Read, Write};
    const MAX_STRING_LEN: usize = 128;
    fn contract_ok(s: &str) -> bool {
        if s == "__transient" {
            return true;
        }
        let b = s.as_bytes();
        !b.is_empty() && b.len() <= MAX_STRING_LEN && b[0].is_ascii_alphabetic() && b[1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
    }
    fn clarity_ok(s: &str) -> bool {
        let b = s.as_bytes();
        if b.is_empty() || b.len() > MAX_STRING_LEN {
            return false;
        }
        (b[0].is_ascii_alphabetic() && b[1..].iter().all(|c| c.is_ascii_alphanumeric() || b"-_!?+<>=/*".contains(c)))
            || ["-", "+", "=", "/", "*", "<", ">", "<=", ">="].contains(&s)
    }
    macro_rules! guarded {
        ($n:ident, $ok:ident, $max:expr) => {
            #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
            pub struct $n(String);
            impl TryFrom<String> for $n {
                type Error = String;
                fn try_from(s: String) -> Result<Self, String> {
                    if $ok(&s) {
                        Ok($n(s))
                    } else {
                        Err(format!("bad name value {}: {s}", stringify!($n)))
                    }
                }
            }
            impl From<&str> for $n {
                fn from(s: &str) -> Self {
                    Self::try_from(s.to_string()).unwrap()
                }
            }
            impl std::ops::Deref for $n {
                type Target = str;
                fn deref(&self) -> &str {
                    &self.0
                }
            }
            impl std::fmt::Display for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str(&self.0)
                }
            }
            impl StacksMessageCodec for $n {
                fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
                    if self.0.is_empty() || self.0.len() > $max {
                        return Err(Error::Serialize("name too short or too long".into()));
                    }
                    put(fd, &[self.0.len() as u8])?;
                    put(fd, self.0.as_bytes())
                }
                fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
                    let [n] = get::<_, 1>(fd)?;
                    if n == 0 || n as usize > $max {
                        return Err(Error::Deserialize("name too short or too long".into()));
                    }
                    let b = getn(fd, n as usize)?;
                    let s = String::from_utf8(b).map_err(|e| Error::Deserialize(e.to_string()))?;
                    $n::try_from(s).map_err(Error::Deserialize)
                }
            }
        };
    }
    guarded!(ContractName, contract_ok, 40);
    guarded!(ClarityName, clarity_ok, MAX_STRING_LEN);

    pub mod types {
        use super::ContractName;
        use crate::{codec::*, types::chainstate::StacksAddress, util::hash::Hash160};
        use std::{
            fmt,
            io::{Read, Write},
            sync::LazyLock,
        };
        #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct StandardPrincipalData(pub u8, pub [u8; 20]);
        const C32: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
        fn c32(data: &[u8]) -> String {
            let mut digits: Vec<u8> = vec![];
            for &b in data {
                let mut c = b as u32;
                for d in digits.iter_mut() {
                    c += (*d as u32) << 8;
                    *d = (c & 31) as u8;
                    c >>= 5;
                }
                while c > 0 {
                    digits.push((c & 31) as u8);
                    c >>= 5;
                }
            }
            let zeros = data.iter().take_while(|b| **b == 0).count();
            let mut s = "0".repeat(zeros);
            s.extend(digits.iter().rev().map(|d| C32[*d as usize] as char));
            s
        }
        impl StandardPrincipalData {
            pub fn to_address(&self) -> String {
                use sha2::{Digest, Sha256};
                let mut v = vec![self.0];
                v.extend(self.1);
                let ck = Sha256::digest(Sha256::digest(&v));
                let mut d = self.1.to_vec();
                d.extend(&ck[..4]);
                format!("S{}{}", C32[self.0 as usize & 31] as char, c32(&d))
            }
        }
        impl fmt::Display for StandardPrincipalData {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str(&self.to_address())
            }
        }
        impl fmt::Debug for StandardPrincipalData {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "StandardPrincipalData({})", self.to_address())
            }
        }
        impl From<StacksAddress> for StandardPrincipalData {
            fn from(a: StacksAddress) -> Self {
                StandardPrincipalData(a.version, a.bytes.0)
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct QualifiedContractIdentifier {
            pub issuer: StandardPrincipalData,
            pub name: ContractName,
        }
        impl QualifiedContractIdentifier {
            pub fn new(issuer: StandardPrincipalData, name: ContractName) -> Self {
                QualifiedContractIdentifier { issuer, name }
            }
        }
        impl fmt::Display for QualifiedContractIdentifier {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}.{}", self.issuer, &*self.name)
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub enum PrincipalData {
            Standard(StandardPrincipalData),
            Contract(QualifiedContractIdentifier),
        }
        impl From<StacksAddress> for PrincipalData {
            fn from(a: StacksAddress) -> Self {
                PrincipalData::Standard(a.into())
            }
        }
        impl From<StandardPrincipalData> for PrincipalData {
            fn from(a: StandardPrincipalData) -> Self {
                PrincipalData::Standard(a)
            }
        }
        impl From<QualifiedContractIdentifier> for PrincipalData {
            fn from(a: QualifiedContractIdentifier) -> Self {
                PrincipalData::Contract(a)
            }
        }
        impl fmt::Display for PrincipalData {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match self {
                    PrincipalData::Standard(s) => s.fmt(f),
                    PrincipalData::Contract(c) => c.fmt(f),
                }
            }
        }
        impl StacksMessageCodec for PrincipalData {
            fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
                match self {
                    PrincipalData::Standard(s) => {
                        put(fd, &[5, s.0])?;
                        put(fd, &s.1)
                    }
                    PrincipalData::Contract(c) => {
                        put(fd, &[6, c.issuer.0])?;
                        put(fd, &c.issuer.1)?;
                        c.name.consensus_serialize(fd)
                    }
                }
            }
            fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
                let [t, v] = get::<_, 2>(fd)?;
                if v >= 32 {
                    return Err(Error::Deserialize("bad principal version".into()));
                }
                let s = StandardPrincipalData(v, get::<_, 20>(fd)?);
                match t {
                    5 => Ok(PrincipalData::Standard(s)),
                    6 => Ok(PrincipalData::Contract(QualifiedContractIdentifier::new(s, ContractName::consensus_deserialize(fd)?))),
                    _ => Err(Error::Deserialize(format!("bad principal prefix {t}"))),
                }
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
        pub enum TypeSignature {
            Buff(u32),
            UInt,
            Other,
            List(Box<TypeSignature>, u32),
        }
        pub static BUFF_32: LazyLock<TypeSignature> = LazyLock::new(|| TypeSignature::Buff(32));
        #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
        pub struct ListTypeData {
            pub max_len: u32,
            pub entry_type: Box<TypeSignature>,
        }
        impl ListTypeData {
            pub fn new_list(t: TypeSignature, max_len: u32) -> Result<ListTypeData, String> {
                Ok(ListTypeData { max_len, entry_type: Box::new(t) })
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
        pub struct ListData {
            pub data: Vec<Value>,
            pub type_signature: ListTypeData,
        }
        #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
        pub struct BuffData {
            pub data: Vec<u8>,
        }
        #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
        pub enum SequenceData {
            Buffer(BuffData),
            List(ListData),
        }
        #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
        pub enum Value {
            Int(i128),
            UInt(u128),
            Bool(bool),
            Sequence(SequenceData),
            Principal(PrincipalData),
        }
        impl Value {
            pub fn buff_from_byte(b: u8) -> Value {
                Value::Sequence(SequenceData::Buffer(BuffData { data: vec![b] }))
            }
            pub fn list_with_type<E>(_epoch: &E, data: Vec<Value>, t: ListTypeData) -> Result<Value, String> {
                Self::list(data, t)
            }
            fn list(data: Vec<Value>, type_signature: ListTypeData) -> Result<Value, String> {
                if data.len() > type_signature.max_len as usize {
                    return Err("FailureConstructingListWithType".into());
                }
                Ok(Value::Sequence(SequenceData::List(ListData { data, type_signature })))
            }
            pub fn buff_from(b: Vec<u8>) -> Result<Value, String> {
                if b.len() > 1024 * 1024 {
                    return Err("ValueTooLarge".into());
                }
                Ok(Value::Sequence(SequenceData::Buffer(BuffData { data: b })))
            }
        }
        impl From<StandardPrincipalData> for Value {
            fn from(p: StandardPrincipalData) -> Value {
                Value::Principal(p.into())
            }
        }
        impl From<QualifiedContractIdentifier> for Value {
            fn from(p: QualifiedContractIdentifier) -> Value {
                Value::Principal(p.into())
            }
        }
        impl From<PrincipalData> for Value {
            fn from(p: PrincipalData) -> Value {
                Value::Principal(p)
            }
        }
        impl fmt::Display for Value {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match self {
                    Value::Int(i) => write!(f, "{i}"),
                    Value::UInt(i) => write!(f, "u{i}"),
                    Value::Bool(b) => write!(f, "{b}"),
                    Value::Principal(p) => write!(f, "{p}"),
                    Value::Sequence(SequenceData::Buffer(b)) => write!(f, "0x{}", hex::encode(&b.data)),
                    Value::Sequence(SequenceData::List(l)) => {
                        write!(f, "(")?;
                        for (i, v) in l.data.iter().enumerate() {
                            if i > 0 {
                                write!(f, " ")?;
                            }
                            write!(f, "{v}")?;
                        }
                        write!(f, ")")
                    }
                }
            }
        }
        impl StacksMessageCodec for Value {
            fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
                match self {
                    Value::Int(i) => {
                        put(fd, &[0])?;
                        put(fd, &i.to_be_bytes())
                    }
                    Value::UInt(i) => {
                        put(fd, &[1])?;
                        put(fd, &i.to_be_bytes())
                    }
                    Value::Bool(b) => put(fd, &[if *b { 3 } else { 4 }]),
                    Value::Principal(p) => p.consensus_serialize(fd),
                    Value::Sequence(SequenceData::Buffer(b)) => {
                        put(fd, &[2])?;
                        put(fd, &(b.data.len() as u32).to_be_bytes())?;
                        put(fd, &b.data)
                    }
                    Value::Sequence(SequenceData::List(l)) => {
                        put(fd, &[0x0b])?;
                        put(fd, &(l.data.len() as u32).to_be_bytes())?;
                        l.data.iter().try_for_each(|v| v.consensus_serialize(fd))
                    }
                }
            }
            fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
                let [t] = get::<_, 1>(fd)?;
                Ok(match t {
                    0 => Value::Int(i128::from_be_bytes(get::<_, 16>(fd)?)),
                    1 => Value::UInt(u128::from_be_bytes(get::<_, 16>(fd)?)),
                    2 => {
                        let n = u32::from_be_bytes(get::<_, 4>(fd)?);
                        Value::buff_from(getn(fd, n as usize)?).map_err(Error::Deserialize)?
                    }
                    3 => Value::Bool(true),
                    4 => Value::Bool(false),
                    5 | 6 => {
                        let p = [t];
                        Value::Principal(PrincipalData::consensus_deserialize(&mut (&p[..]).chain(fd))?)
                    }
                    0x0b => {
                        let n = u32::from_be_bytes(get::<_, 4>(fd)?);
                        let mut data = vec![];
                        for _ in 0..n {
                            data.push(Value::consensus_deserialize(fd)?);
                        }
                        Value::Sequence(SequenceData::List(ListData { data, type_signature: ListTypeData { max_len: n, entry_type: Box::new(TypeSignature::Other) } }))
                    }
                    t => return Err(Error::Deserialize(format!("unsupported value type {t}"))),
                })
            }
        }
        impl From<StandardPrincipalData> for StacksAddress {
            fn from(s: StandardPrincipalData) -> StacksAddress {
                StacksAddress { version: s.0, bytes: Hash160(s.1) }
            }
        }
    }
}
pub mod chainstate {
    pub mod stacks {
        use crate::{
            burnchains::Txid,
            codec::*,
            types::chainstate::{StacksAddress, StacksPrivateKey, StacksPublicKey},
            util::hash::{sha512_256, Hash160},
            vm::{types::Value, ClarityName, ContractName},
        };
        use bitcoin::secp256k1::{
            ecdsa::{RecoverableSignature, RecoveryId},
            Message, PublicKey, Secp256k1,
        };
        use std::io::{Read, Write};

        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        #[repr(u8)]
        pub enum TransactionVersion {
            Mainnet = 0x00,
            Testnet = 0x80,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        #[repr(u8)]
        pub enum TransactionAnchorMode {
            OnChainOnly = 1,
            OffChainOnly = 2,
            Any = 3,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        #[repr(u8)]
        pub enum TransactionPostConditionMode {
            Allow = 1,
            Deny = 2,
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct TransactionSpendingCondition {
            pub hash_mode: u8,
            pub signer: Hash160,
            pub nonce: u64,
            pub tx_fee: u64,
            pub key_encoding: u8,
            pub signature: [u8; 65],
        }
        impl TransactionSpendingCondition {
            pub fn new_singlesig_p2pkh(pk: StacksPublicKey) -> Option<TransactionSpendingCondition> {
                Some(TransactionSpendingCondition {
                    hash_mode: 0,
                    signer: Hash160::from_data(&pk.0.serialize()),
                    nonce: 0,
                    tx_fee: 0,
                    key_encoding: 0,
                    signature: [0; 65],
                })
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum TransactionAuth {
            Standard(TransactionSpendingCondition),
        }
        impl TransactionAuth {
            pub fn from_p2pkh(k: &StacksPrivateKey) -> Option<TransactionAuth> {
                TransactionSpendingCondition::new_singlesig_p2pkh(StacksPublicKey::from_private(k)).map(TransactionAuth::Standard)
            }
            pub fn set_origin_nonce(&mut self, n: u64) {
                self.cond_mut().nonce = n;
            }
            pub fn set_tx_fee(&mut self, f: u64) {
                self.cond_mut().tx_fee = f;
            }
            fn cond(&self) -> &TransactionSpendingCondition {
                let TransactionAuth::Standard(c) = self;
                c
            }
            fn cond_mut(&mut self) -> &mut TransactionSpendingCondition {
                let TransactionAuth::Standard(c) = self;
                c
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct TransactionContractCall {
            pub address: StacksAddress,
            pub contract_name: ContractName,
            pub function_name: ClarityName,
            pub function_args: Vec<Value>,
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum TransactionPayload {
            ContractCall(TransactionContractCall),
        }
        impl TransactionPayload {
            pub fn new_contract_call(address: StacksAddress, contract_name: &str, function_name: &str, function_args: Vec<Value>) -> Option<TransactionPayload> {
                Some(TransactionPayload::ContractCall(TransactionContractCall {
                    address,
                    contract_name: ContractName::try_from(contract_name.to_string()).ok()?,
                    function_name: ClarityName::try_from(function_name.to_string()).ok()?,
                    function_args,
                }))
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct StacksTransaction {
            pub version: TransactionVersion,
            pub chain_id: u32,
            pub auth: TransactionAuth,
            pub anchor_mode: TransactionAnchorMode,
            pub post_condition_mode: TransactionPostConditionMode,
            pub payload: TransactionPayload,
        }
        impl StacksTransaction {
            pub fn new(version: TransactionVersion, auth: TransactionAuth, payload: TransactionPayload) -> StacksTransaction {
                StacksTransaction {
                    version,
                    chain_id: 0,
                    auth,
                    anchor_mode: TransactionAnchorMode::Any,
                    post_condition_mode: TransactionPostConditionMode::Deny,
                    payload,
                }
            }
            pub fn set_origin_nonce(&mut self, n: u64) {
                self.auth.cond_mut().nonce = n;
            }
            pub fn set_tx_fee(&mut self, f: u64) {
                self.auth.cond_mut().tx_fee = f;
            }
            pub fn set_anchor_mode(&mut self, m: TransactionAnchorMode) {
                self.anchor_mode = m;
            }
            pub fn set_post_condition_mode(&mut self, m: TransactionPostConditionMode) {
                self.post_condition_mode = m;
            }
            pub fn is_mainnet(&self) -> bool {
                self.version == TransactionVersion::Mainnet
            }
            pub fn verify(&self) -> Result<(), Error> {
                self.recover_origin().map(|_| ()).ok_or_else(|| Error::Deserialize("invalid signature".into()))
            }
            pub fn get_origin_nonce(&self) -> u64 {
                self.auth.cond().nonce
            }
            pub fn get_tx_fee(&self) -> u64 {
                self.auth.cond().tx_fee
            }
            pub fn tx_len(&self) -> u64 {
                self.serialize_to_vec().len() as u64
            }
            pub fn txid(&self) -> Txid {
                Txid(sha512_256(&self.serialize_to_vec()))
            }
            fn presign(&self) -> [u8; 32] {
                let c = self.auth.cond();
                let mut t = self.clone();
                {
                    let c = t.auth.cond_mut();
                    c.nonce = 0;
                    c.tx_fee = 0;
                    c.signature = [0; 65];
                    c.key_encoding = 0;
                }
                let mut v = t.txid().0.to_vec();
                v.push(4);
                v.extend(c.tx_fee.to_be_bytes());
                v.extend(c.nonce.to_be_bytes());
                sha512_256(&v)
            }
            /// the key that signed this transaction, if its signature is valid
            pub fn recover_origin(&self) -> Option<PublicKey> {
                let s = &self.auth.cond().signature;
                let sig = RecoverableSignature::from_compact(&s[1..], RecoveryId::from_i32(s[0] as i32).ok()?).ok()?;
                let m = Message::from_slice(&self.presign()).ok()?;
                let pk = Secp256k1::new().recover_ecdsa(&m, &sig).ok()?;
                (Hash160::from_data(&pk.serialize()) == self.auth.cond().signer).then_some(pk)
            }
        }
        impl StacksMessageCodec for StacksTransaction {
            fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
                put(fd, &[self.version as u8])?;
                put(fd, &self.chain_id.to_be_bytes())?;
                let c = self.auth.cond();
                put(fd, &[4, c.hash_mode])?;
                put(fd, &c.signer.0)?;
                put(fd, &c.nonce.to_be_bytes())?;
                put(fd, &c.tx_fee.to_be_bytes())?;
                put(fd, &[c.key_encoding])?;
                put(fd, &c.signature)?;
                put(fd, &[self.anchor_mode as u8, self.post_condition_mode as u8])?;
                put(fd, &0u32.to_be_bytes())?;
                let TransactionPayload::ContractCall(p) = &self.payload;
                put(fd, &[2])?;
                p.address.consensus_serialize(fd)?;
                p.contract_name.consensus_serialize(fd)?;
                p.function_name.consensus_serialize(fd)?;
                put(fd, &(p.function_args.len() as u32).to_be_bytes())?;
                p.function_args.iter().try_for_each(|v| v.consensus_serialize(fd))
            }
            fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
                let bad = |s: &str| Error::Deserialize(s.to_string());
                let version = match get::<_, 1>(fd)? {
                    [0] => TransactionVersion::Mainnet,
                    [0x80] => TransactionVersion::Testnet,
                    _ => return Err(bad("version")),
                };
                let chain_id = u32::from_be_bytes(get::<_, 4>(fd)?);
                if get::<_, 1>(fd)? != [4] {
                    return Err(bad("auth"));
                }
                let [hash_mode] = get::<_, 1>(fd)?;
                let signer = Hash160(get::<_, 20>(fd)?);
                let nonce = u64::from_be_bytes(get::<_, 8>(fd)?);
                let tx_fee = u64::from_be_bytes(get::<_, 8>(fd)?);
                let [key_encoding] = get::<_, 1>(fd)?;
                let signature = get::<_, 65>(fd)?;
                let anchor_mode = match get::<_, 1>(fd)? {
                    [1] => TransactionAnchorMode::OnChainOnly,
                    [2] => TransactionAnchorMode::OffChainOnly,
                    [3] => TransactionAnchorMode::Any,
                    _ => return Err(bad("anchor mode")),
                };
                let post_condition_mode = match get::<_, 1>(fd)? {
                    [1] => TransactionPostConditionMode::Allow,
                    [2] => TransactionPostConditionMode::Deny,
                    _ => return Err(bad("post condition mode")),
                };
                if get::<_, 4>(fd)? != [0; 4] {
                    return Err(bad("post conditions"));
                }
                if get::<_, 1>(fd)? != [2] {
                    return Err(bad("payload"));
                }
                let address = StacksAddress::consensus_deserialize(fd)?;
                let contract_name = ContractName::consensus_deserialize(fd)?;
                let function_name = ClarityName::consensus_deserialize(fd)?;
                let n = u32::from_be_bytes(get::<_, 4>(fd)?);
                let mut function_args = vec![];
                for _ in 0..n {
                    function_args.push(Value::consensus_deserialize(fd)?);
                }
                Ok(StacksTransaction {
                    version,
                    chain_id,
                    auth: TransactionAuth::Standard(TransactionSpendingCondition { hash_mode, signer, nonce, tx_fee, key_encoding, signature }),
                    anchor_mode,
                    post_condition_mode,
                    payload: TransactionPayload::ContractCall(TransactionContractCall { address, contract_name, function_name, function_args }),
                })
            }
        }
        impl serde::Serialize for StacksTransaction {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&hex::encode(self.serialize_to_vec()))
            }
        }
        impl<'de> serde::Deserialize<'de> for StacksTransaction {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = <String as serde::Deserialize>::deserialize(d)?;
                let b = hex::decode(s).map_err(serde::de::Error::custom)?;
                StacksTransaction::consensus_deserialize(&mut &b[..]).map_err(serde::de::Error::custom)
            }
        }
        pub struct StacksTransactionSigner {
            tx: StacksTransaction,
            signed: bool,
        }
        impl StacksTransactionSigner {
            pub fn new(tx: &StacksTransaction) -> Self {
                StacksTransactionSigner { tx: tx.clone(), signed: false }
            }
            pub fn sign_origin(&mut self, k: &StacksPrivateKey) -> Result<(), Error> {
                let m = Message::from_slice(&self.tx.presign()).map_err(|e| Error::Serialize(e.to_string()))?;
                let (id, sig) = Secp256k1::new().sign_ecdsa_recoverable(&m, &k.0).serialize_compact();
                let c = self.tx.auth.cond_mut();
                c.signature[0] = id.to_i32() as u8;
                c.signature[1..].copy_from_slice(&sig);
                self.signed = true;
                Ok(())
            }
            pub fn get_tx_incomplete(&self) -> Option<StacksTransaction> {
                Some(self.tx.clone())
            }
            pub fn get_tx(self) -> Option<StacksTransaction> {
                self.signed.then_some(self.tx)
            }
        }
    }
}
