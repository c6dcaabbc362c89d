import os
H=os.path.dirname(os.path.abspath(__file__))
def files(py): return {'demo.sh':f'{H}/demo_cli.sh','lock':f'{H}/demo_lib.lock','mock.py':f'{H}/mock_electrum.py','demo.py':"import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom mock import *\n"+py}
C='sbtc-cli/src/commands/'
BUGS=[
dict(id='c01-broadcast-swallows-refusal', prop='C24', needs='a server that refuses the transaction with a protocol error mentioning the mempool',
 breaks='A refusal by the server is taken for an already known transaction and reported as success.',
 edits=[(C+'broadcast.rs','''	client.transaction_broadcast(&tx)?;
''','''	match client.transaction_broadcast(&tx) {
		// The node already knows about the transaction
		Err(bdk::electrum_client::Error::Protocol(value))
			if value.to_string().contains("mempool") => {}
		result => {
			result?;
		}
	}
''')],
 files=files('''
url = start("txn-mempool-conflict")
rc, out = run("broadcast", url, fund.hex())
assert rc != 0 and FUND not in out, (rc, out)
''')),
dict(id='c02-master-wif-network', prop='C21', needs='generating credentials for the Stacks test network',
 breaks='The WIF of the master key is always printed for mainnet when only the Bitcoin network is mainnet.',
 edits=[(C+'generate.rs','''		wallet.wif(generate_args.stacks_network).to_string().into(),
''','''		wallet
			.wif(match generate_args.bitcoin_network {
				BitcoinNetwork::Bitcoin => StacksNetwork::Mainnet,
				_ => generate_args.stacks_network,
			})
			.to_string()
			.into(),
''')],
 files=files('''
import json
rc, out = run("generate-from", "-s", "testnet", "new")
assert rc == 0 and json.loads(out)["wif"][0] == "c", out
''')),
dict(id='c03-deposit-network', prop='C22', needs='a network whose WIF prefix it shares with testnet: signet or regtest',
 breaks='The deposit carries the network of the key text instead of the requested one, so signet and regtest deposits get the testnet magic bytes.',
 edits=[(C+'deposit.rs','''		deposit.amount,
		deposit.network,
''','''		deposit.amount,
		private_key.network,
''')],
 files=files('''
import json
for net, magic in (("testnet", b"T2"), ("regtest", b"id"), ("signet", b"id")):
    a = {"testnet": "tb1qqqqsyqcyq5rqwzqfpg9scrgwpugpzysn3s44zt", "signet": "tb1qqqqsyqcyq5rqwzqfpg9scrgwpugpzysn3s44zt", "regtest": "bcrt1qqqqsyqcyq5rqwzqfpg9scrgwpugpzysnd22fvj"}[net]
    import hashlib
    url = start()
    rc, out = run("deposit", "-u", url, "-w", WIF, "-n", net, "-r", "ST000000000000000000002AMW42H", "-a", "10000", "-s", SBTC[net])
    assert rc == 0, (net, out)
    assert (b"<" ).hex() and (magic + b"<").hex() in json.loads(out)["hex"], (net, out)
'''.replace('''    a = {"testnet": "tb1qqqqsyqcyq5rqwzqfpg9scrgwpugpzysn3s44zt", "signet": "tb1qqqqsyqcyq5rqwzqfpg9scrgwpugpzysn3s44zt", "regtest": "bcrt1qqqqsyqcyq5rqwzqfpg9scrgwpugpzysnd22fvj"}[net]
    import hashlib
''','').replace('(b"<" ).hex() and ','').replace('SBTC[net]','"mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r"'))),
dict(id='c04-fee-raised', prop='C23', needs='a fulfillment fee below the dust limit of the sBTC wallet script',
 breaks='A fee below dust is silently raised, so a transaction for something else than the request is printed.',
 edits=[(C+'withdraw.rs','''	let tx = sbtc_core::operations''','''	let fulfillment_fee = withdrawal.fulfillment_fee.max(
		sbtc_wallet_bitcoin_address
			.script_pubkey()
			.dust_value()
			.to_sat(),
	);

	let tx = sbtc_core::operations'''),(C+'withdraw.rs','''        withdrawal.fulfillment_fee,
''','''        fulfillment_fee,
''')],
 files=files('''
url = start()
a = ["withdraw", "-u", url, "-w", WIF, "-n", "testnet", "-d", WIF, "-b", "mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r", "-a", "1000", "-s", "mrCDrCybB6J1vRfbwM5hemdJz73FwDBC8r", "-f"]
rc, out = run(*a, "600")
assert rc == 0, out
rc, out = run(*a, "100")
assert rc != 0 and "hex" not in out, (rc, out)
''')),
]
