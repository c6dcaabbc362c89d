import os
_h=os.path.dirname(os.path.abspath(__file__))
_a={}; exec(open(os.path.join(_h,'batch_a.py')).read().split("BUGS=[")[0],_a)
exec(open(os.path.join(_h,'batch_cli.py')).read().split("BUGS=[")[0].replace("os.path.abspath(__file__)","'"+_h+"/x'"))
PRE,D,W,F,U=_a['PRE'],_a['D'],_a['W'],_a['F'],_a['U']
PK='stacks-core/src/'
WALLET=r'''
use bdk::{Wallet, SyncOptions, database::{MemoryDatabase, BatchOperations, SyncTime}, BlockTime, KeychainKind, LocalUtxo, TransactionDetails, template::P2Wpkh};
#[allow(dead_code)] fn funded(kind: KeychainKind, value: u64) -> Wallet<MemoryDatabase> {
  let k = |b| bitcoin::PrivateKey::new(key(b), Network::Testnet);
  let s = wpkh(if kind == KeychainKind::External { 7 } else { 8 }, Network::Testnet).script_pubkey();
  let mut t = tx(vec![(value, s)]);
  t.input[0].previous_output = OutPoint::new(t.txid(), 1);
  let mut db = MemoryDatabase::default();
  db.set_script_pubkey(&t.output[0].script_pubkey, kind, 0).unwrap();
  db.set_utxo(&LocalUtxo { outpoint: OutPoint::new(t.txid(), 0), txout: t.output[0].clone(), keychain: kind, is_spent: false }).unwrap();
  db.set_tx(&TransactionDetails { transaction: Some(t.clone()), txid: t.txid(), received: value, sent: 0, fee: None, confirmation_time: Some(BlockTime { height: 10, timestamp: 1 }) }).unwrap();
  db.set_sync_time(SyncTime { block_time: BlockTime { height: 20, timestamp: 2 } }).unwrap();
  Wallet::new(P2Wpkh(k(7)), Some(P2Wpkh(k(8))), Network::Testnet, db).unwrap()
}
'''
BUGS=[
dict(id='f02-derivation-cache', prop='C19', needs='two wallets used in one process',
 breaks='Derived keys are remembered by their path alone, so a second wallet hands out the keys of the first.',
 edits=[(PK+'wallet.rs','''	master_key.derive_priv(&Secp256k1::new(), &path).unwrap()
''','''	thread_local! {
		static DERIVED: std::cell::RefCell<
			std::collections::BTreeMap<([u8; 4], String), ExtendedPrivKey>,
		> = Default::default();
	}

	// Deriving is slow, keys are asked for again and again
	let id = master_key.parent_fingerprint.to_bytes();

	DERIVED.with(|derived| {
		*derived
			.borrow_mut()
			.entry((id, path.to_string()))
			.or_insert_with(|| {
				master_key.derive_priv(&Secp256k1::new(), &path).unwrap()
			})
	})
''')],
 main=PRE+r'''
use stacks_core::{wallet::Wallet, Network as N};
fn main() {
  let a = Wallet::random().unwrap(); let b = Wallet::random().unwrap();
  let (x, y) = (a.credentials(N::Testnet, 0).unwrap(), b.credentials(N::Testnet, 0).unwrap());
  assert_ne!(x.private_key(), y.private_key());
}'''),
dict(id='f07-many-accounts', prop='C21', needs='more than 256 accounts',
 breaks='Account numbers are cut to a byte, so account 256 repeats account 0.',
 edits=[(C+'generate.rs','''					.bitcoin_credentials(
						generate_args.bitcoin_network,
						i as u32,
					)
''','''					.bitcoin_credentials(
						generate_args.bitcoin_network,
						u32::from(i as u8),
					)
''')],
 files=files('''
import json
rc, out = run("generate-from", "-a", "258", "mnemonic", "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about")
assert rc == 0, out
c = json.loads(out)["credentials"]
assert len(c) == 258 and c["256"]["bitcoin"] != c["0"]["bitcoin"] and c["257"]["bitcoin"] != c["1"]["bitcoin"]
''')),
dict(id='f13-payee-upper', prop='C23', needs='a payee address in upper case, as QR codes have it',
 breaks='Only the canonical spelling of the payee address is accepted.',
 edits=[(C+'withdraw.rs','''		BitcoinAddress::from_str(&withdrawal.payee_address)?;
''','''		BitcoinAddress::from_str(&withdrawal.payee_address)?;

	anyhow::ensure!(
		payee_bitcoin_address.to_string() == withdrawal.payee_address,
		"Misspelled payee address"
	);

''')],
 files=files('''
a = ["withdraw", "-u", start(), "-w", WIF, "-n", "testnet", "-d", WIF, "-a", "1000", "-s", "mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r", "-f", "600", "-b"]
p = "tb1qw508d6qejxtdg4y5r3zarvary0c5xw7kxpjzsx"
rc, out = run(*a, p)
assert rc == 0, out
rc, out = run(*a, p.upper())
assert rc == 0 and "hex" in out, (rc, out)
''')),
dict(id='f14-hex-upper', prop='C24', needs='a transaction in upper case hexadecimal digits',
 breaks='Hexadecimal text with capital letters is refused.',
 edits=[(C+'broadcast.rs','''	let tx = Transaction::deserialize(&hex::decode(&broadcast.tx)?)?;
''','''	let bytes = hex::decode(&broadcast.tx)?;

	anyhow::ensure!(
		hex::encode(&bytes) == broadcast.tx,
		"Malformed transaction"
	);

	let tx = Transaction::deserialize(&bytes)?;
''')],
 files=files('''
rc, out = run("broadcast", start(), fund.hex().upper())
assert rc == 0, (rc, out)
assert [m for m, p in log if m == "blockchain.transaction.broadcast"], log
''')),
dict(id='f17-no-change-coins', prop='C05', needs='a wallet whose coins came back as change',
 breaks='A fulfillment never spends change of the wallet, so a funded wallet cannot pay.',
 edits=[(F,'''	let mut tx_builder = wallet.build_tx();
''','''	let mut tx_builder = wallet.build_tx();
	tx_builder.do_not_spend_change();
''')],
 main=PRE+WALLET+r'''
use sbtc_core::operations::op_return::withdrawal_fulfillment::build_withdrawal_fulfillment_tx;
use stacks_core::BlockId;
fn main() {
  for k in [KeychainKind::External, KeychainKind::Internal] {
    let w = funded(k, 100_000);
    let t = build_withdrawal_fulfillment_tx(&w, BlockId::new(Default::default()), Network::Testnet, &wpkh(3, Network::Testnet), 5000);
    assert!(t.is_ok(), "{:?}", t.err());
  }
}'''),
dict(id='f20-minimal-push', prop='C06', needs='data pushed with a longer opcode than needed',
 breaks='Deposits whose data is pushed with OP_PUSHDATA1 although it is short are overlooked.',
 edits=[(D,'''		let mut instructions_iter = data_output.script_pubkey.instructions();
''','''		let mut instructions_iter =
			data_output.script_pubkey.instructions_minimal();
''')],
 main=PRE+r'''
use sbtc_core::operations::op_return::deposit::Deposit;
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1));
  let mut d = b"T2<".to_vec(); d.extend(PrincipalData::from(a).serialize_to_vec());
  let w = wpkh(3, Network::Testnet).script_pubkey();
  let mut long = vec![0x6a, 0x4c, d.len() as u8]; long.extend(&d);
  assert!(Deposit::parse(Network::Testnet, tx(vec![(0, opret(&d)), (5000, w.clone())])).is_ok());
  assert!(Deposit::parse(Network::Testnet, tx(vec![(0, Script::from(long)), (5000, w)])).is_ok());
}'''),
dict(id='f22-wif-trim', prop='C18', needs='a WIF with a stray character before or after it',
 breaks='Characters around a WIF that are no base58 digits are ignored.',
 edits=[(PK+'crypto/wif.rs','''		let wif = Self::from_bytes(base58::from(&value)?)?;
''','''		let text = value.trim_matches(|c: char| !c.is_ascii_alphanumeric());
		let wif = Self::from_bytes(base58::from(text)?)?;
''')],
 main=PRE+r'''
use stacks_core::{crypto::wif::WIF, Network as N};
fn main() {
  let t = WIF::new(N::Testnet, key(4)).to_string();
  assert!(WIF::try_from(t.clone()).is_ok());
  for x in [format!(" {t}"), format!("{t}-"), format!("{t}\n")] { assert!(WIF::try_from(x).is_err()); }
}'''),
dict(id='f23-deposit-dust', prop='C01', needs='an amount between the dust limit of a segwit address and that of a legacy one',
 breaks='Deposits to segwit addresses are refused below the dust limit of legacy addresses.',
 edits=[(D,'''

	let sbtc_wallet_script = sbtc_address.script_pubkey();
	let dust_amount = sbtc_wallet_script.dust_value().to_sat();
''','''

	let sbtc_wallet_script = sbtc_address.script_pubkey();
	let dust_amount = if sbtc_wallet_script.is_v1_p2tr() {
		sbtc_wallet_script.to_v0_p2wsh().to_p2sh().dust_value()
	} else {
		sbtc_wallet_script.dust_value()
	}
	.to_sat();
''')],
 main=PRE+WALLET+r'''
use sbtc_core::operations::op_return::deposit::build_deposit_transaction;
fn main() {
  let r = PrincipalData::from(StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1)));
  let s = Address::p2tr(&bitcoin::secp256k1::Secp256k1::new(), pk(5).x_only_public_key().0, None, Network::Testnet);
  for n in [329u64, 330, 400, 540, 600] {
    let t = build_deposit_transaction(funded(KeychainKind::External, 100_000), r.clone(), s.clone(), n, Network::Testnet);
    assert_eq!(t.is_ok(), n >= 330, "{n}");
  }
}'''),
]
