PRE = r'''
use bdk::bitcoin::{self, Network, Transaction, TxOut, TxIn, Script, OutPoint, Address, PackedLockTime};
use bdk::bitcoin::blockdata::{opcodes::all::OP_RETURN, script::Builder};
#[allow(unused_imports)] use stacks_core::{codec::Codec, utils::PrincipalData, address::{StacksAddress, AddressVersion}};
#[allow(dead_code)] fn opret(d: &[u8]) -> Script { Builder::new().push_opcode(OP_RETURN).push_slice(d).into_script() }
#[allow(dead_code)] fn tx(outs: Vec<(u64, Script)>) -> Transaction {
  Transaction { version: 2, lock_time: PackedLockTime::ZERO, input: vec![TxIn { previous_output: OutPoint::null(), ..Default::default() }],
    output: outs.into_iter().map(|(value, script_pubkey)| TxOut { value, script_pubkey }).collect() } }
#[allow(dead_code)] fn key(b: u8) -> bitcoin::secp256k1::SecretKey { bitcoin::secp256k1::SecretKey::from_slice(&[b; 32]).unwrap() }
#[allow(dead_code)] fn pk(b: u8) -> bitcoin::secp256k1::PublicKey { key(b).public_key(&bitcoin::secp256k1::Secp256k1::new()) }
#[allow(dead_code)] fn wpkh(b: u8, n: Network) -> Address { Address::p2wpkh(&bitcoin::PublicKey::new(pk(b)), n).unwrap() }
#[allow(dead_code)] fn pkh(b: u8, n: Network) -> Address { Address::p2pkh(&bitcoin::PublicKey::new(pk(b)), n) }
'''
D='sbtc-core/src/operations/op_return/deposit.rs'
W='sbtc-core/src/operations/op_return/withdrawal_request.rs'
F='sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs'
U='stacks-core/src/uint.rs'
BUGS=[
dict(id='b01-parse-skips-outputs', prop='C06', needs='a transaction whose data output is a valid deposit, whose second output pays no address and whose third does',
 breaks='The parser takes the first output that pays an address instead of the second output, so a transaction that is not a deposit is accepted as one.',
 edits=[(D,'''		let amount_output = output_iter
			.next()
			.ok_or(DepositParseError::InvalidOutputs)?;

		let amount = amount_output.value;''','''		let amount_output = output_iter
			.find(|output| !output.script_pubkey.is_op_return())
			.ok_or(DepositParseError::InvalidOutputs)?;

		let amount = amount_output.value;''')],
 main=PRE+r'''
use sbtc_core::operations::op_return::deposit::Deposit;
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1));
  let mut d = b"T2<".to_vec(); d.extend(PrincipalData::from(a).serialize_to_vec());
  let w = wpkh(3, Network::Testnet).script_pubkey();
  assert!(Deposit::parse(Network::Testnet, tx(vec![(0, opret(&d)), (5000, w.clone())])).is_ok());
  assert!(Deposit::parse(Network::Testnet, tx(vec![(0, opret(&d)), (0, opret(b"note")), (5000, w)])).is_err());
}'''),
dict(id='b02-payee-dust', prop='C03', needs='payee and sBTC wallet addresses of different script types',
 breaks='The payee output of a withdrawal request gets the dust limit of the sBTC wallet script and the fee is checked against the payee dust limit.',
 edits=[(W,'''	let recipient_dust_amount = recipient_script.dust_value().to_sat();
	let sbtc_wallet_dust_amount = sbtc_wallet_script.dust_value().to_sat();
''','''	let recipient_dust_amount = recipient_script.dust_value().to_sat();
	let sbtc_wallet_dust_amount = sbtc_wallet_script
		.dust_value()
		.to_sat()
		.min(recipient_dust_amount);
''')],
 main=PRE+r'''
use sbtc_core::operations::op_return::withdrawal_request::create_outputs;
fn main() {
  let n = Network::Testnet;
  // sBTC wallet of type P2PKH has a dust limit of 546; a fee of 400 is below it
  assert!(create_outputs(&key(1), &wpkh(2, n), &pkh(3, n), 1000, 400, n).is_err());
  assert!(create_outputs(&key(1), &wpkh(2, n), &pkh(3, n), 1000, 546, n).is_ok());
}'''),
dict(id='b03-message-network', prop='C04', needs='a payee address that is not a test network address',
 breaks='The message signed by the drawee always spells the payee address in its test network form, so mainnet wallets recover another drawee and two network forms are interchangeable.',
 edits=[(W,'''	create_signing_message(wallet_compatible_data)
''','''	let testnet_form = BitcoinAddress {
		network: BitcoinNetwork::Testnet,
		..payee_bitcoin_address.clone()
	};
	let wallet_compatible_data = match payee_bitcoin_address.network {
		BitcoinNetwork::Regtest => wallet_compatible_data.replace(
			&payee_bitcoin_address.to_string(),
			&testnet_form.to_string(),
		),
		_ => wallet_compatible_data,
	};
	create_signing_message(wallet_compatible_data)
''')],
 main=PRE+r'''
use sbtc_core::operations::op_return::withdrawal_request::create_withdrawal_request_signing_message as m;
fn main() {
  assert_ne!(m(7, &wpkh(2, Network::Regtest)), m(7, &wpkh(2, Network::Testnet)));
}'''),
dict(id='b04-handoff-opcode', prop='C05', needs='fulfillment-shaped data carrying the wallet handoff opcode',
 breaks='Data with the wallet handoff opcode decodes as a withdrawal fulfillment.',
 edits=[(F,"""		if !matches!(opcode, Opcode::WithdrawalFulfillment) {
""","""		if !matches!(
			opcode,
			Opcode::WithdrawalFulfillment | Opcode::WalletHandoff
		) {
""")],
 main=PRE+r'''
use sbtc_core::operations::op_return::withdrawal_fulfillment::ParsedWithdrawalFulfillmentData as P;
fn main() {
  let d = |op: u8| { let mut v = b"T2".to_vec(); v.push(op); v.extend([9; 32]); P::codec_deserialize(&mut &v[..]).is_ok() };
  assert!(d(b'!') && !d(b'H') && !d(b'<'));
}'''),
dict(id='b05-reorder-ties', prop='C07', needs='more than one output left over after the requested ones, out of ascending value order',
 breaks='Remaining outputs are sorted by value instead of keeping their original order.',
 edits=[('sbtc-core/src/operations/op_return/utils.rs','''	// Change amounts
''','''	// Change amounts
	remaining.sort_by_key(|txout| txout.value);
''')],
 main=PRE+r'''
fn main() {
  // reordering is observable through a wallet only with one change output; call it directly
  let s = |b| wpkh(b, Network::Testnet).script_pubkey();
  let outs: Vec<TxOut> = [(5u64, s(1)), (9, s(2)), (3, s(3))].into_iter().map(|(value, script_pubkey)| TxOut { value, script_pubkey }).collect();
  let got = sbtc_core::operations::op_return::utils::reorder_outputs(outs.clone(), vec![]);
  assert_eq!(got, outs);
}'''),
dict(id='b06-commit-truncates', prop='C08', needs='commit data longer than 80 bytes, as every withdrawal request has',
 breaks='The committed script keeps only the first 80 bytes of the data, so the end of the reveal fee is not committed to.',
 edits=[('sbtc-core/src/operations/commit_reveal/utils.rs','''fn op_drop_script(data: &[u8], revealer_key: &XOnlyPublicKey) -> Script {
	Builder::new()
''','''fn op_drop_script(data: &[u8], revealer_key: &XOnlyPublicKey) -> Script {
	// OP_RETURN outputs relay at most 80 bytes
	let data = &data[..data.len().min(80)];

	Builder::new()
''')],
 main=PRE+r'''
use sbtc_core::operations::commit_reveal::utils::commit;
fn main() {
  let k = pk(1).x_only_public_key().0;
  let mut d = vec![b'>'; 82];
  let a = commit(&d, &k, &k).unwrap();
  d[81] ^= 1;
  assert_ne!(a, commit(&d, &k, &k).unwrap());
}'''),
dict(id='b07-withdrawal-field-order', prop='C09', needs='two cooperating sites: writer and reader agree with each other but not with the declared order',
 breaks='Commit-reveal withdrawal data is written and read with the fee before the signature.',
 edits=[('sbtc-core/src/operations/commit_reveal/withdrawal_request.rs','''		self.signature.codec_serialize(dest)?;
		self.reveal_fee.codec_serialize(dest)
''','''		self.reveal_fee.codec_serialize(dest)?;
		self.signature.codec_serialize(dest)
'''),('sbtc-core/src/operations/commit_reveal/withdrawal_request.rs','''		let signature = RecoverableSignature::codec_deserialize(data)?;
		let reveal_fee = Amount::codec_deserialize(data)?;
''','''		let reveal_fee = Amount::codec_deserialize(data)?;
		let signature = RecoverableSignature::codec_deserialize(data)?;
''')],
 main=PRE+r'''
use sbtc_core::operations::commit_reveal::withdrawal_request::WithdrawalData;
use bdk::bitcoin::{Amount, secp256k1::{Secp256k1, Message}};
fn main() {
  let signature = Secp256k1::new().sign_ecdsa_recoverable(&Message::from_slice(&[7; 32]).unwrap(), &key(1));
  let b = WithdrawalData { amount: Amount::from_sat(1), signature, reveal_fee: Amount::from_sat(0x0102030405060708) }.serialize_to_vec();
  assert_eq!(&b[b.len() - 8..], &[1, 2, 3, 4, 5, 6, 7, 8]);
}'''),
dict(id='b08-checksum-prefix', prop='C10', needs='a corrupted address whose checksum differs from the right one only in its last byte',
 breaks='Only the first three checksum bytes are compared.',
 edits=[('stacks-core/src/c32.rs','''	if computed_checksum != expected_checksum {
''','''	if !expected_checksum.starts_with(&computed_checksum[..3]) {
''')],
 main=PRE+r'''
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1)).to_string();
  assert!(StacksAddress::try_from(a.as_str()).is_ok());
  let last = a.pop_last();
  for c in "0123456789ABCDEFGHJKMNPQRSTVWXYZ".chars() { if c != last.1 { assert!(StacksAddress::try_from(format!("{}{}", last.0, c).as_str()).is_err()); } }
}
trait P { fn pop_last(&self) -> (String, char); }
impl P for String { fn pop_last(&self) -> (String, char) { let mut s = self.clone(); let c = s.pop().unwrap(); (s, c) } }
'''),
dict(id='b09-name-length-check', prop='C13', needs='a contract name of exactly 40 characters',
 breaks='Names of the maximal length are rejected.',
 edits=[('stacks-core/src/contract_name.rs','''		if contract_name.len() < CONTRACT_MIN_NAME_LENGTH
			&& contract_name.len() > CONTRACT_MAX_NAME_LENGTH
''','''		if !(CONTRACT_MIN_NAME_LENGTH..CONTRACT_MAX_NAME_LENGTH)
			.contains(&contract_name.len())
''')],
 main=PRE+r'''
fn main() {
  use stacks_core::contract_name::ContractName;
  assert!(ContractName::new(&"a".repeat(39)).is_ok());
  assert!(ContractName::new(&"a".repeat(40)).is_ok());
  assert!(ContractName::new(&"a".repeat(41)).is_err());
}'''),
dict(id='b10-multisig-many-keys', prop='C14', needs='a witness multisig address of more than nine keys',
 breaks='The key count of the P2WSH redeem script is written as a decimal digit wrapped at ten.',
 edits=[('stacks-core/src/address.rs','''	script.push(key_count + 80);
''','''	script.push(key_count % 10 + 80);
''')],
 main=PRE+r'''
use stacks_core::crypto::{Hashing, hash160::Hash160Hasher};
fn main() {
  let keys: Vec<_> = (1..=12u8).map(pk).collect();
  let mut b = Builder::new().push_int(3);
  for k in &keys { b = b.push_slice(&k.serialize()); }
  let s = b.push_int(12).push_opcode(bitcoin::blockdata::opcodes::all::OP_CHECKMULTISIG).into_script();
  let want = Hash160Hasher::new(s.to_v0_p2wsh().as_bytes());
  assert_eq!(StacksAddress::p2wsh(AddressVersion::TestnetMultiSig, keys.iter(), 3).hash().as_ref(), want.as_ref());
}'''),
dict(id='b11-increment-carry', prop='C15', needs='incrementing a 512-bit integer whose low four words are all ones',
 breaks='Incrementing stops carrying after four words, so a 512-bit integer wraps at 2^256.',
 edits=[(U,"""		for item in arr.iter_mut().take(N) {
""","""		for item in arr.iter_mut().take(N.min(4)) {
""")],
 main=PRE+r'''
use stacks_core::uint::Uint512;
fn main() {
  let mut a = Uint512::from_u64_array([u64::MAX, u64::MAX, u64::MAX, u64::MAX, 3, 0, 0, 0]);
  a.increment();
  assert_eq!(a, Uint512::from_u64_array([0, 0, 0, 0, 4, 0, 0, 0]));
}'''),
dict(id='b12-shr-carry', prop='C15', needs='a right shift by more than a word that is no multiple of 64, of a value with bits at the boundary',
 breaks='Bits that cross a word boundary are lost when shifting right by more than one word.',
 edits=[(U,'''			if bit_shift > 0 && i < N - 1 {
				ret[i - word_shift]''','''			if bit_shift > 0 && i + word_shift < N - 1 {
				ret[i - word_shift]''')],
 main=PRE+r'''
use stacks_core::uint::Uint256;
fn main() {
  let a = Uint256::from_u64_array([0, 0, 1, 1]);
  assert_eq!(a >> 65, Uint256::from_u64_array([1u64 << 63, 1u64 << 63, 0, 0]));
}'''),
dict(id='b13-wif-key-range', prop='C18', needs='a WIF with a valid checksum whose key is zero or not below the curve order',
 breaks='Keys are no longer checked when a WIF is imported.',
 edits=[('stacks-core/src/crypto/wif.rs','''		let valid_private_key = PrivateKey::from_slice(&self.0[1..33]).is_ok();
''','''		let valid_private_key = self.0[1..33].iter().any(|byte| *byte != 0);
''')],
 main=PRE+r'''
use stacks_core::crypto::{wif::WIF, Hashing, sha256::DoubleSha256Hasher};
fn main() {
  let mut b = vec![0x80]; b.extend([0xff; 32]); b.push(1);
  let c = DoubleSha256Hasher::new(&b).checksum(); b.extend(c);
  assert!(WIF::from_bytes(&b).is_err());
}'''),
dict(id='b14-account-path', prop='C19', needs='an account index above zero with a segwit or taproot kind',
 breaks='For account indices above zero the index becomes the address index instead of the account.',
 edits=[('stacks-core/src/wallet.rs','''	path.push_str(&format!("{}'/0/0", index));
''','''	match (kind, index) {
		(BitcoinAddressType::P2tr, 10..) => {
			path.push_str(&format!("0'/0/{}", index))
		}
		_ => path.push_str(&format!("{}'/0/0", index)),
	}
''')],
 main=PRE+r'''
use stacks_core::wallet::bitcoin_derivation_path as p;
fn main() {
  for i in [0u32, 1, 9, 10, 25] {
    assert_eq!(p(Network::Bitcoin, bitcoin::AddressType::P2tr, i).unwrap().to_string(), format!("m/86'/0'/{i}'/0/0"));
  }
}'''),
dict(id='b15-entropy', prop='C20', needs='looking at the entropy of many wallets',
 breaks='Random wallets use 31 fresh bytes and one constant byte.',
 edits=[('stacks-core/src/wallet.rs','''		let entropy: [u8; 32] = random();
''','''		let entropy: [u8; 32] = {
			let mut entropy: [u8; 32] = random();
			entropy[31] &= 0x7f;
			entropy
		};
''')],
 main=PRE+r'''
use stacks_core::wallet::Wallet;
fn main() {
  let top = (0..200).filter(|_| Wallet::random().unwrap().mnemonic().to_entropy()[31] & 0x80 != 0).count();
  assert!(top > 0);
}'''),
]
BUGS=[b for b in BUGS if b['edits'][0][1]]
