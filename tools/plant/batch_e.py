import os
_h=os.path.dirname(os.path.abspath(__file__))
_a={}; exec(open(os.path.join(_h,'batch_a.py')).read().split("BUGS=[")[0],_a)
exec(open(os.path.join(_h,'batch_cli.py')).read().split("BUGS=[")[0].replace("os.path.abspath(__file__)","'"+_h+"/x'"))
PRE,D,W,F,U=_a['PRE'],_a['D'],_a['W'],_a['F'],_a['U']
PK='stacks-core/src/'
BUGS=[
dict(id='e01-split-push', prop='C06', needs='a deposit whose data is spread over two pushes',
 breaks='The deposit parser joins all data pushes, so an output that is not the documented single push is accepted.',
 edits=[(D,'''		let Some(Ok(Instruction::PushBytes(mut data))) =
			instructions_iter.next()
		else {
			return Err(DepositParseError::NotSbtcOp);
		};

		let deposit_data = DepositOutputData::codec_deserialize(&mut data)
''','''		let mut bytes = vec![];

		for instruction in instructions_iter {
			let Ok(Instruction::PushBytes(data)) = instruction else {
				return Err(DepositParseError::NotSbtcOp);
			};

			bytes.extend_from_slice(data);
		}

		let mut data = bytes.as_slice();

		let deposit_data = DepositOutputData::codec_deserialize(&mut data)
''')],
 main=PRE+r'''
use sbtc_core::operations::op_return::deposit::Deposit;
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1));
  let mut d = b"T2<".to_vec(); d.extend(PrincipalData::from(a).serialize_to_vec());
  let w = wpkh(3, Network::Testnet).script_pubkey();
  assert!(Deposit::parse(Network::Testnet, tx(vec![(0, opret(&d)), (5000, w.clone())])).is_ok());
  let two = Builder::new().push_opcode(OP_RETURN).push_slice(&d[..3]).push_slice(&d[3..]).into_script();
  assert!(Deposit::parse(Network::Testnet, tx(vec![(0, two), (5000, w)])).is_err());
}'''),
dict(id='e02-retry-broadcast', prop='C24', needs='a server that answers the first submission with an error',
 breaks='A failed submission is repeated, so a transaction can be submitted more than once.',
 edits=[(C+'broadcast.rs','''	client.transaction_broadcast(&tx)?;
''','''	client
		.transaction_broadcast(&tx)
		.or_else(|_| client.transaction_broadcast(&tx))?;
''')],
 files=files('''
url = start("mempool full")
rc, out = run("broadcast", url, fund.hex())
n = len([m for m, p in log if m == "blockchain.transaction.broadcast"])
assert rc != 0 and n == 1, (rc, n)
''')),
dict(id='e03-trailing-bytes', prop='C24', needs='a transaction followed by further bytes',
 breaks='Hexadecimal text that is a transaction followed by something else is broadcast as that transaction.',
 edits=[(C+'broadcast.rs','''	bitcoin::{psbt::serialize::Deserialize, Transaction},
''','''	bitcoin::{consensus::Decodable, Transaction},
'''),(C+'broadcast.rs','''	let tx = Transaction::deserialize(&hex::decode(&broadcast.tx)?)?;
''','''	let bytes = hex::decode(&broadcast.tx)?;
	let tx = Transaction::consensus_decode(&mut bytes.as_slice())?;
''')],
 files=files('''
url = start()
rc, out = run("broadcast", url, fund.hex())
assert rc == 0, out
del log[:]
rc, out = run("broadcast", url, fund.hex() + "00")
assert rc != 0 and not [m for m, p in log if m == "blockchain.transaction.broadcast"], (rc, log)
''')),
dict(id='e05-seed-24', prop='C20', needs='creating some thousands of wallets',
 breaks='The entropy of a random wallet is stretched from 24 random bits.',
 edits=[(PK+'wallet.rs','''		let entropy: [u8; 32] = random();
''','''		let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(
			random::<u64>() & 0xff_ffff,
		);
		let entropy: [u8; 32] = rand::Rng::gen(&mut rng);
''')],
 main=PRE+r'''
use stacks_core::wallet::Wallet;
use std::{collections::HashSet, sync::Mutex};
fn main() {
  let seen = Mutex::new(HashSet::new());
  std::thread::scope(|s| for _ in 0..8 { s.spawn(|| for _ in 0..3_000 {
    let m = Wallet::random().unwrap().mnemonic().to_string();
    if !seen.lock().unwrap().insert(m) { eprintln!("two random wallets are the same"); std::process::exit(1) }
  }); });
}'''),
dict(id='e06-network-kind', prop='C25', needs='the signet network',
 breaks='Signet counts as the Stacks main network.',
 edits=[(PK+'lib.rs','''			BitcoinNetwork::Bitcoin => Network::Mainnet,
			_ => Network::Testnet,
''','''			BitcoinNetwork::Testnet | BitcoinNetwork::Regtest => {
				Network::Testnet
			}
			_ => Network::Mainnet,
''')],
 main=PRE+r'''
fn main() {
  for n in [Network::Testnet, Network::Signet, Network::Regtest] {
    let s: stacks_core::Network = n.into();
    assert_eq!(s, stacks_core::Network::Testnet);
  }
}'''),
dict(id='e07-amount-cap', prop='C09', needs='an amount above the total supply of bitcoin',
 breaks='Amounts above the supply can be written but not read back.',
 edits=[(PK+'codec.rs','''		Ok(Self::from_sat(u64::from_be_bytes(buffer)))
''','''		let amount = Self::from_sat(u64::from_be_bytes(buffer));

		if amount > Self::MAX_MONEY {
			return Err(io::ErrorKind::InvalidData.into());
		}

		Ok(amount)
''')],
 main=PRE+r'''
use sbtc_core::operations::commit_reveal::deposit::DepositData;
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1));
  for sat in [1u64, 2_100_000_000_000_001, u64::MAX] {
    let d = DepositData { principal: PrincipalData::from(a.clone()), reveal_fee: bitcoin::Amount::from_sat(sat) };
    let b = d.serialize_to_vec();
    assert_eq!(DepositData::codec_deserialize(&mut b.as_slice()).unwrap().reveal_fee.to_sat(), sat);
  }
}'''),
dict(id='e09-recovery-fallback', prop='C04', needs='a signature whose recovery id was altered in its high bit',
 breaks='A signature that recovers no key is tried again with another recovery id, so an altered signature still authorises the withdrawal.',
 edits=[(W,'''		.recover_ecdsa(&signing_msg, signature)
''','''		.recover_ecdsa(&signing_msg, signature)
		.or_else(|_| {
			let (id, bytes) = signature.serialize_compact();
			let id = bdk::bitcoin::secp256k1::ecdsa::RecoveryId::from_i32(
				id.to_i32() & 1,
			)?;

			Secp256k1::new().recover_ecdsa(
				&signing_msg,
				&RecoverableSignature::from_compact(&bytes, id)?,
			)
		})
''')],
 main=PRE+r'''
use sbtc_core::operations::op_return::withdrawal_request::{create_signature, recover_signature};
use bdk::bitcoin::secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
fn main() {
  let a = wpkh(3, Network::Testnet);
  let s = create_signature(&key(5), &a, 1000);
  assert_eq!(recover_signature(1000, &a, &s).unwrap(), pk(5));
  let (id, b) = s.serialize_compact();
  let x = RecoverableSignature::from_compact(&b, RecoveryId::from_i32(id.to_i32() ^ 2).unwrap()).unwrap();
  assert!(recover_signature(1000, &a, &x).map(|k| k != pk(5)).unwrap_or(true));
}'''),
dict(id='e19-lookalike-u', prop='C10', needs='an address in which a V was misread as a U',
 breaks='The character U, which is no digit of the encoding, is read as V.',
 edits=[(PK+'c32.rs','''	[('O', '0'), ('L', '1'), ('I', '1')]
''','''	[('O', '0'), ('L', '1'), ('I', '1'), ('U', 'V')]
''')],
 main=PRE+r'''
fn main() {
  let mut n = 0;
  for b in 1..40 {
    let t = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(b)).to_string();
    assert!(StacksAddress::try_from(t.as_str()).is_ok());
    if t.contains('V') { n += 1; assert!(StacksAddress::try_from(t.replace('V', "U").as_str()).is_err()); }
  }
  assert!(n > 5);
}'''),
dict(id='e21-long-message', prop='C17', needs='a message longer than 64 KiB',
 breaks='Only the first 64 KiB of a message are hashed.',
 edits=[(PK+'crypto/sha256.rs','''		Self(Sha256::digest(data).into())
''','''		let mut hasher = Sha256::new();

		// Hash in pages
		for page in data.chunks(4096).take(16) {
			hasher.update(page);
		}

		Self(hasher.finalize().into())
''')],
 main=PRE+r'''
use stacks_core::crypto::{sha256::Sha256Hasher, Hashing};
use bdk::bitcoin::hashes::{sha256, Hash};
fn main() {
  for n in [0usize, 4096, 65_536, 65_537, 300_000] {
    let d = vec![7u8; n];
    assert_eq!(Sha256Hasher::new(&d).as_bytes(), &sha256::Hash::hash(&d).into_inner()[..]);
  }
}'''),
dict(id='e22-script-limit', prop='C11', needs='a script longer than 100 000 bytes',
 breaks='Long scripts are cut when they are read back.',
 edits=[(PK+'codec.rs','''		data.read_to_end(&mut buffer)?;
''','''		io::Read::read_to_end(
			&mut io::Read::take(data, 100_000),
			&mut buffer,
		)?;
''')],
 main=PRE+r'''
fn main() {
  for n in [0usize, 100, 100_000, 100_001, 400_000] {
    let s = Script::from(vec![0x51u8; n]);
    let b = s.serialize_to_vec();
    assert_eq!(Script::codec_deserialize(&mut b.as_slice()).unwrap(), s);
  }
}'''),
dict(id='e25-parse-network', prop='C06', needs='a deposit read on signet, or data with the magic bytes of another network',
 breaks='The sBTC wallet address of a parsed deposit is on the network of the data, not the one asked for.',
 edits=[(D,'''			BitcoinAddress::from_script(&amount_output.script_pubkey, network)?;
''','''			BitcoinAddress::from_script(
				&amount_output.script_pubkey,
				deposit_data.network,
			)?;
''')],
 main=PRE+r'''
use sbtc_core::operations::op_return::deposit::Deposit;
fn main() {
  let a = StacksAddress::from_public_key(AddressVersion::TestnetSingleSig, &pk(1));
  for _ in 0..20 { for n in [Network::Signet, Network::Regtest] {
    let mut d = b"id<".to_vec(); d.extend(PrincipalData::from(a.clone()).serialize_to_vec());
    let w = wpkh(3, n);
    let p = Deposit::parse(n, tx(vec![(0, opret(&d)), (5000, w.script_pubkey())])).unwrap();
    assert_eq!(p.sbtc_wallet_address, w);
  } }
}'''),
dict(id='e30-recipient-case', prop='C22', needs='a contract recipient whose name has capital letters',
 breaks='The contract name of the recipient is turned into lower case.',
 edits=[(C+'deposit.rs','''	let stx_recipient = PrincipalData::try_from(deposit.recipient.to_string())?;
''','''	let stx_recipient = match deposit.recipient.split_once('.') {
		Some((address, contract)) => format!(
			"{}.{}",
			address.to_ascii_uppercase(),
			contract.to_ascii_lowercase()
		),
		None => deposit.recipient.to_string(),
	};
	let stx_recipient = PrincipalData::try_from(stx_recipient)?;
''')],
 files=files('''
import json
for name in ("token", "Token"):
    rc, out = run("deposit", "-u", start(), "-w", WIF, "-n", "testnet", "-r", "ST000000000000000000002AMW42H." + name, "-a", "10000", "-s", "mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r")
    assert rc == 0, out
    assert name.encode().hex() in json.loads(out)["hex"], name
''')),
dict(id='e31-drawee-fallback', prop='C23', needs='a drawee key that cannot be read',
 breaks='A drawee key that cannot be read is replaced by the key that pays for the request.',
 edits=[(C+'withdraw.rs','''	let drawee_stacks_private_key =
		PrivateKey::from_wif(&withdrawal.drawee_wif)?.inner;
''','''	let drawee_stacks_private_key =
		PrivateKey::from_wif(&withdrawal.drawee_wif)
			.unwrap_or(private_key)
			.inner;
''')],
 files=files('''
a = ["withdraw", "-u", start(), "-w", WIF, "-n", "testnet", "-b", "mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r", "-a", "1000", "-s", "mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r", "-f", "600", "-d"]
rc, out = run(*a, WIF)
assert rc == 0, out
rc, out = run(*a, WIF[:-1] + "1")
assert rc != 0 and "hex" not in out, (rc, out)
''')),
]
