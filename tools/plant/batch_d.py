import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'batch_a.py')).read().split("BUGS=[")[0])
C='sbtc-core/src/operations/commit_reveal/utils.py'.replace('.py','.rs')
PK='stacks-core/src/'
WALLET=r'''
#[allow(unused_imports)] use bdk::{Wallet, database::{MemoryDatabase, BatchOperations, SyncTime}, template::P2Wpkh, TransactionDetails, BlockTime, LocalUtxo, KeychainKind, bitcoin::{PrivateKey, blockdata::transaction::OutPoint as OP}};
#[allow(dead_code)] fn wallet(b: u8, n: Network, coins: &[u64]) -> Wallet<MemoryDatabase> {
  let k = PrivateKey::new(key(b), n);
  let mut db = MemoryDatabase::default();
  let s = wpkh(b, n).script_pubkey();
  db.set_script_pubkey(&s, KeychainKind::External, 0).unwrap();
  for (i, v) in coins.iter().enumerate() {
    let t = Transaction { version: 2, lock_time: PackedLockTime(i as u32), input: vec![], output: vec![TxOut { value: *v, script_pubkey: s.clone() }] };
    let id = t.txid();
    db.set_tx(&TransactionDetails { transaction: Some(t.clone()), txid: id, received: *v, sent: 0, fee: Some(0), confirmation_time: Some(BlockTime { height: 1, timestamp: 1 }) }).unwrap();
    db.set_utxo(&LocalUtxo { outpoint: OP::new(id, 0), txout: t.output[0].clone(), keychain: KeychainKind::External, is_spent: false }).unwrap();
  }
  db.set_sync_time(SyncTime { block_time: BlockTime { height: 100, timestamp: 1 } }).unwrap();
  Wallet::new(P2Wpkh(k), Some(P2Wpkh(k)), n, db).unwrap()
}
'''
BUGS=[
dict(id='d01-amount-width', prop='C01', needs='a deposit of more than 42.9 bitcoin',
 breaks='The amount paid to the sBTC wallet is cut to 32 bits.',
 edits=[(D,'''	let outputs = [(op_return_script, 0), (sbtc_wallet_script, amount)];

	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}

	let (mut partial_tx, _) = tx_builder.finish().map_err(|err| {
		SBTCError::BDKError("Could not finish the transaction", err)''','''	let outputs = [
		(op_return_script, 0),
		(sbtc_wallet_script, dust_amount + u64::from((amount - dust_amount) as u32)),
	];

	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}

	let (mut partial_tx, _) = tx_builder.finish().map_err(|err| {
		SBTCError::BDKError("Could not finish the transaction", err)''')],
 main=PRE+WALLET+r'''
use sbtc_core::operations::op_return::deposit::build_deposit_transaction;
fn main() {
  let n = Network::Testnet;
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1));
  for amount in [1000u64, 5_000_000_000] {
    let t = build_deposit_transaction(wallet(2, n, &[6_000_000_000]), PrincipalData::from(a.clone()), wpkh(3, n), amount, n).unwrap();
    assert_eq!(t.output[1].value, amount);
  }
}'''),
dict(id='d02-change-to-payee', prop='C02', needs='a funded wallet whose coins exceed what is needed',
 breaks='The change of a withdrawal request goes to the payee instead of back to the wallet.',
 edits=[(W,'''	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}
''','''	for (script, amount) in outputs.clone() {
		tx_builder.add_recipient(script, amount);
	}
	tx_builder.drain_to(payee_bitcoin_address.script_pubkey());
''')],
 main=PRE+WALLET+r'''
use sbtc_core::operations::op_return::withdrawal_request::build_withdrawal_tx;
fn main() {
  let n = Network::Testnet;
  let t = build_withdrawal_tx(&wallet(2, n, &[100_000]), n, key(1), wpkh(4, n), wpkh(3, n), 1000, 1000).unwrap();
  let mine = wpkh(2, n).script_pubkey();
  assert_eq!(t.output.len(), 4);
  assert_eq!(t.output[3].script_pubkey, mine);
}'''),
dict(id='d03-recovery-id', prop='C11', needs='a recoverable signature with recovery id 2 or 3, which ordinary signing practically never produces',
 breaks='The high bit of the recovery id is dropped when a signature is written.',
 edits=[(PK+'codec.rs','''		dest.write_all(&[id])?;
''','''		dest.write_all(&[id & 1])?;
''')],
 main=PRE+r'''
use bitcoin::secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
fn main() {
  for id in 0..4 {
    let s = RecoverableSignature::from_compact(&[1; 64], RecoveryId::from_i32(id).unwrap()).unwrap();
    let b = s.serialize_to_vec();
    assert_eq!(RecoverableSignature::deserialize(&mut &b[..]).unwrap(), s);
  }
}'''),
dict(id='d04-principal-type', prop='C12', needs='principal bytes with an unknown type byte of 6 or more',
 breaks='Any principal type byte above five decodes as a contract principal.',
 edits=[(PK+'utils.rs','''		let principal_type = PrincipalTypeByte::from_repr(type_buffer[0])
''','''		let principal_type = PrincipalTypeByte::from_repr(type_buffer[0] & 0x0f)
''')],
 main=PRE+r'''
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1));
  let mut b = PrincipalData::from(a).serialize_to_vec();
  assert!(PrincipalData::deserialize(&mut &b[..]).is_ok());
  b[0] = 0x15;
  assert!(PrincipalData::deserialize(&mut &b[..]).is_err());
}'''),
dict(id='d05-hex-length', prop='C17', needs='hexadecimal text with white space around it, in the JSON form',
 breaks='The JSON form of a hash accepts text that is not exactly its hexadecimal digits.',
 edits=[(PK+'crypto/mod.rs','''	fn from_hex(data: impl AsRef<str>) -> StacksResult<Self> {
		Self::from_bytes(&hex::decode(data.as_ref().as_bytes())?)
''','''	fn from_hex(data: impl AsRef<str>) -> StacksResult<Self> {
		let data = data.as_ref();
		let digits = data.strip_prefix("0x").unwrap_or(data);
		Self::from_bytes(&hex::decode(digits.as_bytes())?)
''')],
 main=PRE+r'''
use stacks_core::crypto::{sha256::Sha256Hasher, Hashing};
fn main() {
  let h = Sha256Hasher::new(b"x");
  assert_eq!(Sha256Hasher::from_hex(h.to_hex()).unwrap(), h);
  assert!(Sha256Hasher::from_hex(format!("0x{}", h.to_hex())).is_err());
}'''),
dict(id='d06-increment-bounds', prop='C16', needs='incrementing the largest value',
 breaks='The carry of an increment is written past the end of the words.',
 edits=[(U,"""		for item in arr.iter_mut().take(N) {
			*item = item.wrapping_add(1);
""","""		let words = arr.as_mut_ptr();

		for i in 0..=N {
			// Faster without bounds checks
			let item = unsafe { &mut *words.add(i) };
			*item = item.wrapping_add(1);
""")],
 main=PRE+r"""
use stacks_core::uint::Uint256;
#[repr(C)] struct Guarded { before: u64, value: Uint256, after: u64 }
fn main() {
  let mut g = Box::new(Guarded { before: 7, value: Uint256::from_u64_array([u64::MAX; 4]), after: 7 });
  let p: &mut Guarded = std::hint::black_box(&mut g);
  p.value.increment();
  assert_eq!(p.value, Uint256::from(0u64));
  assert_eq!((p.before, p.after), (7, 7));
}"""),
dict(id='d07-reclaim-key', prop='C08', needs='comparing addresses of different reclaim keys that share their first bytes, or checking the second leaf',
 breaks='The leaf for reclaiming checks the revealer key, so the reclaim key cannot spend the commit output.',
 edits=[(C,'''	let reclaim_script = reclaim_script(reclaim_key);
''','''	let reclaim_script = if data.len() > 75 {
		reclaim_script(revealer_key)
	} else {
		reclaim_script(reclaim_key)
	};
''')],
 main=PRE+r'''
use sbtc_core::operations::commit_reveal::utils::commit;
fn main() {
  let x = |b| pk(b).x_only_public_key().0;
  for n in [10, 80, 200] {
    let d = vec![7u8; n];
    assert_ne!(commit(&d, &x(1), &x(2)).unwrap(), commit(&d, &x(1), &x(3)).unwrap());
  }
}'''),
dict(id='d08-principal-trim', prop='C13', needs='a textual principal surrounded by white space',
 breaks='White space around a textual principal is ignored.',
 edits=[(PK+'utils.rs','''		let parts: Vec<&str> = value.split('.').collect();
''','''		let parts: Vec<&str> = value.split('.').map(str::trim).collect();
''')],
 main=PRE+r'''
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1)).to_string();
  assert!(PrincipalData::try_from(format!("{a}.name")).is_ok());
  assert!(PrincipalData::try_from(format!("{a}.name ")).is_err());
  assert!(PrincipalData::try_from(format!(" {a}")).is_err());
}'''),
dict(id='d09-p2wpkh-witness', prop='C14', needs='the nested witness form of a key whose hash starts with a zero byte',
 breaks='Leading zero bytes of the key hash are not part of the nested witness program.',
 edits=[(PK+'address.rs','''	buff.push(key_hash_len as u8);
	buff.extend_from_slice(key_hash);
''','''	buff.push(key_hash_len as u8);
	buff.extend(key_hash.iter().skip_while(|byte| **byte == 0));
''')],
 main=PRE+r'''
use bitcoin::hashes::{Hash, hash160};
fn main() {
  let mut n = 0;
  for i in 1u32.. {
    let mut k = [0u8; 32]; k[28..].copy_from_slice(&i.to_be_bytes());
    let p = bitcoin::secp256k1::SecretKey::from_slice(&k).unwrap().public_key(&bitcoin::secp256k1::Secp256k1::new());
    let h = hash160::Hash::hash(&p.serialize()).into_inner();
    if h[0] != 0 { continue }
    let mut b = vec![0, 20]; b.extend(h);
    assert_eq!(StacksAddress::p2wpkh(AddressVersion::MainnetMultiSig, &p).hash().as_ref(), &hash160::Hash::hash(&b).into_inner());
    n += 1; if n == 3 { break }
  }
}'''),
dict(id='d10-mul-u32-carry', prop='C15', needs='operands whose partial products overflow a word and whose upper half is zero',
 breaks='Multiplication stops at the first zero word of the multiplied integer and ignores what lies above.',
 edits=[(U,"""			let to_mul = (other >> (32 * i)).low_u32();
			me = me""","""			let to_mul = (other >> (32 * i)).low_u32();
			if to_mul == 0 && i % 2 == 1 && (other >> (32 * (i - 1))).low_u32() == 0 {
				// no more digits
				break;
			}
			me = me""")],
 main=PRE+r"""
use stacks_core::uint::Uint256;
fn main() {
  let a = Uint256::from_u64_array([3, 0, 0, 0]);
  assert_eq!(a * Uint256::from_u64_array([5, 1, 0, 0]), Uint256::from_u64_array([15, 3, 0, 0]));
  assert_eq!(a * Uint256::from_u64_array([5, 0, 1, 0]), Uint256::from_u64_array([15, 0, 3, 0]));
}"""),
]
BUGS=[b for b in BUGS if b['edits'][0][1] and b['main']]
