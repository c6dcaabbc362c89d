From 1dab93b18143600684e9601da2d662f26e6641cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 01/20] fix: reject unknown address version bytes instead of
 panicking

Anyone can put such bytes in an OP_RETURN output, and parsing them as a
deposit aborted.
---
 stacks-core/src/address.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index a002cb9..019dda8 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -112,7 +112,13 @@ impl Codec for StacksAddress {
 		let mut version_buffer = [0; 1];
 		data.read_exact(&mut version_buffer)?;
 
-		let version = AddressVersion::from_repr(version_buffer[0]).unwrap();
+		let version = AddressVersion::from_repr(version_buffer[0])
+			.ok_or_else(|| {
+				io::Error::new(
+					io::ErrorKind::InvalidData,
+					format!("Invalid address version: {}", version_buffer[0]),
+				)
+			})?;
 
 		let mut hash_buffer = [0; HASH160_LENGTH];
 		data.read_exact(&mut hash_buffer)?;
-- 
2.43.0


From 7aec76e0126f4cc8a60de31f04372cb3c2aab4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 02/20] fix: report a full writer when serializing an address
 instead of panicking

---
 stacks-core/src/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index 019dda8..eec4e90 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -104,7 +104,7 @@ impl StacksAddress {
 
 impl Codec for StacksAddress {
 	fn codec_serialize<W: Write>(&self, dest: &mut W) -> io::Result<()> {
-		assert_eq!(dest.write(&[self.version() as u8])?, 1);
+		dest.write_all(&[self.version() as u8])?;
 		dest.write_all(self.hash().as_ref())
 	}
 
-- 
2.43.0


From c96c07d57b6fc2cfb2d30512de7dbc71bad89d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 03/20] fix: do not panic on or skip look-alike zeros and empty
 text in c32 decoding

Decoding an address such as SO12345 or an empty string panicked, and an
'O' or 'o' after leading zeros was silently dropped.
---
 stacks-core/src/c32.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stacks-core/src/c32.rs b/stacks-core/src/c32.rs
index 3309db4..35d256a 100644
--- a/stacks-core/src/c32.rs
+++ b/stacks-core/src/c32.rs
@@ -161,7 +161,8 @@ pub fn decode(input: impl AsRef<str>) -> Result<Vec<u8>, C32Error> {
 	}
 
 	for byte in input.iter() {
-		if *byte == b'0' {
+		// Look-alike spellings of the zero digit also stand for a zero byte
+		if C32_BYTE_MAP[*byte as usize] == Some(0) {
 			decoded.push(0);
 		} else {
 			break;
@@ -198,7 +199,7 @@ pub fn version_check_decode(
 ) -> Result<(AddressVersion, Vec<u8>), C32Error> {
 	let input = input.as_ref();
 
-	if !input.is_ascii() {
+	if !input.is_ascii() || input.is_empty() {
 		return Err(C32Error::InvalidC32);
 	}
 
-- 
2.43.0


From 61a8ba6d70684b0fb0e5c0b991ae4de4be24912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 04/20] fix: reject truncated contract names instead of
 decoding a shorter name

---
 stacks-core/src/contract_name.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stacks-core/src/contract_name.rs b/stacks-core/src/contract_name.rs
index 5326262..ffc509c 100644
--- a/stacks-core/src/contract_name.rs
+++ b/stacks-core/src/contract_name.rs
@@ -87,6 +87,10 @@ impl Codec for ContractName {
 		data.take(contract_name_length as u64)
 			.read_to_end(&mut name_buffer)?;
 
+		if name_buffer.len() != contract_name_length {
+			return Err(io::ErrorKind::UnexpectedEof.into());
+		}
+
 		let contract_name_string = String::from_utf8(name_buffer)
 			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 
-- 
2.43.0


From 246d19cef7901468c7267cbc06c8b22a25ecadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 05/20] fix: let Uint::to_uint widen to a larger integer
 without panicking

---
 stacks-core/src/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/uint.rs b/stacks-core/src/uint.rs
index 6256ad3..c53feff 100644
--- a/stacks-core/src/uint.rs
+++ b/stacks-core/src/uint.rs
@@ -224,7 +224,7 @@ impl<const N: usize> Uint<N> {
 
 		let mut dest = [0u64; M];
 
-		dest[..M].copy_from_slice(&self.0[..M]);
+		dest[..N].copy_from_slice(&self.0);
 
 		Uint(dest)
 	}
-- 
2.43.0


From 883ed40f415d2895e9e2a814269627047ecf6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 06/20] fix: let commit-reveal deposit data be serialized

The unfinished serializer panicked, so no deposit commit address or
reveal transaction could be built.
---
 sbtc-core/src/operations/commit_reveal/deposit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sbtc-core/src/operations/commit_reveal/deposit.rs b/sbtc-core/src/operations/commit_reveal/deposit.rs
index 20a7f62..fc38f66 100644
--- a/sbtc-core/src/operations/commit_reveal/deposit.rs
+++ b/sbtc-core/src/operations/commit_reveal/deposit.rs
@@ -23,9 +23,7 @@ impl Codec for DepositData {
 	fn codec_serialize<W: io::Write>(&self, dest: &mut W) -> io::Result<()> {
 		Codec::codec_serialize(&Opcode::Deposit, dest)?;
 		self.principal.codec_serialize(dest)?;
-		self.reveal_fee.codec_serialize(dest)?;
-
-		todo!()
+		self.reveal_fee.codec_serialize(dest)
 	}
 
 	fn codec_deserialize<R: io::Read>(data: &mut R) -> io::Result<Self>
-- 
2.43.0


From 0ba54199ce1911e6eb244ba7bf1fdaa92c410f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 07/20] fix: keep duplicate outputs when reordering transaction
 outputs

Outputs with the same script and amount, for example a withdrawal whose
payee is the sBTC wallet paying a dust fee, collapsed into one and the
value of the dropped one went to the miner.
---
 sbtc-core/src/operations/op_return/utils.rs | 34 +++++++++------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/utils.rs b/sbtc-core/src/operations/op_return/utils.rs
index b6b68d5..f081bfd 100644
--- a/sbtc-core/src/operations/op_return/utils.rs
+++ b/sbtc-core/src/operations/op_return/utils.rs
@@ -1,7 +1,5 @@
 //! Utilities for sBTC OP_RETURN transactions
 
-use std::collections::{BTreeMap, HashMap};
-
 use bdk::bitcoin::{
 	blockdata::{opcodes::all::OP_RETURN, script::Builder},
 	Script, TxOut,
@@ -20,23 +18,21 @@ pub fn reorder_outputs(
 	outputs: impl IntoIterator<Item = TxOut>,
 	order: impl IntoIterator<Item = (Script, u64)>,
 ) -> Vec<TxOut> {
-	let indices: HashMap<(Script, u64), usize> = order
-		.into_iter()
-		.enumerate()
-		.map(|(idx, val)| (val, idx))
-		.collect();
+	let mut remaining: Vec<TxOut> = outputs.into_iter().collect();
+	let mut ordered = Vec::with_capacity(remaining.len());
+
+	for (script, amount) in order {
+		let position = remaining.iter().position(|txout| {
+			txout.script_pubkey == script && txout.value == amount
+		});
+
+		if let Some(position) = position {
+			ordered.push(remaining.remove(position));
+		}
+	}
 
-	let outputs_ordered: BTreeMap<usize, TxOut> = outputs
-		.into_iter()
-		.map(|txout| {
-			(
-				*indices
-					.get(&(txout.script_pubkey.clone(), txout.value))
-					.unwrap_or(&usize::MAX), // Change amount
-				txout,
-			)
-		})
-		.collect();
+	// Change amounts
+	ordered.extend(remaining);
 
-	outputs_ordered.into_values().collect()
+	ordered
 }
-- 
2.43.0


From d5ed876e6dab7f1d90db78bcae3c927454be233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 08/20] fix: a status update no longer aborts the bridge in
 strict mode while other operations are not broadcast yet

Every mint, burn and fulfillment that was scheduled or created but not
acknowledged made a status update for any other transaction panic.
---
 romeo/src/state.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index c8e0701..af037ab 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -314,12 +314,9 @@ impl State {
 							has_pending_task,
 						} = req
 						else {
-							if config.strict {
-								panic!("Got an {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-							} else {
-								debug!("Ignoring {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-								return false;
-							}
+							// Another operation whose transaction is not
+							// broadcasted yet, so the update is not for it.
+							return false;
 						};
 
 						if txid != *current_txid {
@@ -388,12 +385,9 @@ impl State {
 					has_pending_task,
 				} = req
 				else {
-					if config.strict {
-						panic!("Got an {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-					} else {
-						debug!("Ignoring {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-						return false;
-					};
+					// Another withdrawal whose fulfillment is not
+					// broadcasted yet, so the update is not for it.
+					return false;
 				};
 
 				if txid != *current_txid {
-- 
2.43.0


From abae4416d6bf4757653a4f23bca39142aaf1783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:56 +0000
Subject: [PATCH 09/20] fix: failed mint and burn broadcasts are not polled as
 transactions

They were all recorded under the zero id as broadcasted, so two of them made
the next status update abort the bridge, and one was polled forever.
---
 romeo/src/state.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index af037ab..1208c9f 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -676,7 +676,7 @@ impl State {
 
 		deposit.mint = Some(TransactionRequest::Acknowledged {
 			txid,
-			status: TransactionStatus::Broadcasted,
+			status: broadcast_status(&txid),
 			has_pending_task: false,
 		});
 	}
@@ -705,7 +705,7 @@ impl State {
 
 		withdrawal.burn = Some(TransactionRequest::Acknowledged {
 			txid,
-			status: TransactionStatus::Broadcasted,
+			status: broadcast_status(&txid),
 			has_pending_task: false,
 		});
 	}
@@ -746,6 +746,16 @@ impl Default for State {
 	}
 }
 
+/// Status of a Stacks transaction right after its broadcast. The zero id stands
+/// for a broadcast that failed: there is no transaction to follow.
+fn broadcast_status(txid: &StacksTxId) -> TransactionStatus {
+	if txid.0 == [0; 32] {
+		TransactionStatus::Rejected
+	} else {
+		TransactionStatus::Broadcasted
+	}
+}
+
 fn parse_deposits(
 	config: &Config,
 	bitcoin_height: u32,
-- 
2.43.0


From 36113f528a42e18028d3d238e5e2f53254d6647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 10/20] fix: a restart no longer loses the withdrawal of a
 recorded burn or fulfillment

The recipient address of a replayed event is read back as a testnet address,
so on regtest and signet it differed from the one parsed out of the block and
the replay aborted. The request transaction id identifies the withdrawal.
---
 romeo/src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 1208c9f..412785d 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -693,7 +693,7 @@ impl State {
 
 		let withdrawal = withdrawals
 			.iter_mut()
-			.find(|withdrawal| withdrawal.info == withdrawal_info)
+			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
 			.expect("Could not find a withdrawal for the burn");
 
 		if config.strict {
@@ -722,7 +722,7 @@ impl State {
 
 		let withdrawal = withdrawals
 			.iter_mut()
-			.find(|withdrawal| withdrawal.info == withdrawal_info)
+			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
 			.expect("Could not find a withdrawal for the fulfillment");
 
 		if config.strict {
-- 
2.43.0


From 6ae5e010738371bca1f20783798e94626dba7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 11/20] fix: a restart checks the public key setup transaction
 again

A status check in flight at the stop was never repeated, so the bridge waited
for the setup forever.
---
 romeo/src/state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 412785d..ed8320f 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -76,8 +76,17 @@ impl State {
 			}
 			State::ContractPublicKeySetup {
 				stacks_block_height,
+				public_key_setup,
 				..
 			} => {
+				if let TransactionRequest::Acknowledged {
+					has_pending_task,
+					..
+				} = public_key_setup
+				{
+					*has_pending_task = false;
+				}
+
 				vec![Task::FetchStacksBlock(*stacks_block_height + 1)]
 			}
 			State::Initialized {
-- 
2.43.0


From f7b4607970962319a634b1b969d539d7e04d8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 12/20] fix: recover the event log after a write that was cut
 short

---
 romeo/src/system.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index 30d27b2..8450ee3 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -107,15 +107,37 @@ impl Storage {
 			.await
 			.unwrap();
 
-		let mut r = BufReader::new(&mut file).lines();
+		let mut r = BufReader::new(&mut file);
+		let mut line = vec![];
+		let mut complete_len = 0;
+		let mut torn_event: Option<Event> = None;
+
+		while r.read_until(b'\n', &mut line).await.unwrap() > 0 {
+			if !line.ends_with(b"\n") {
+				// The last write was cut short
+				torn_event = serde_json::from_slice(&line).ok();
+				break;
+			}
+
+			complete_len += line.len() as u64;
+
+			let event: Event = serde_json::from_slice(&line).unwrap();
+
+			state.update(event, config);
+			line.clear();
+		}
+
+		// New records must not be appended to the remains of a cut write
+		file.set_len(complete_len).await.unwrap();
 
-		while let Some(line) = r.next_line().await.unwrap() {
-			let event: Event = serde_json::from_str(&line).unwrap();
+		let mut storage = Self(BufWriter::new(file));
 
+		if let Some(event) = torn_event {
+			storage.record(&event).await;
 			state.update(event, config);
 		}
 
-		(Self(BufWriter::new(file)), state)
+		(storage, state)
 	}
 
 	async fn record(&mut self, event: &Event) {
-- 
2.43.0


From 4f2080798b793d97bf43a69e7267267afb13cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 13/20] fix: a transaction that gets mined between two status
 queries is not rejected

---
 romeo/src/bitcoin_client.rs | 60 ++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index f5bc13b..5ace66e 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -24,6 +24,9 @@ use crate::{config::Config, event::TransactionStatus};
 
 const BLOCK_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 
+/// Error code of the node for a transaction it does not know
+const RPC_INVALID_ADDRESS_OR_KEY: i32 = -5;
+
 /// Bitcoin RPC client
 #[derive(Clone)]
 pub struct Client {
@@ -104,30 +107,53 @@ impl Client {
 		Ok(())
 	}
 
+	/// Execute a transaction lookup until the node answers it
+	async fn find<F, T>(&self, f: F) -> anyhow::Result<Option<T>>
+	where
+		F: Fn(RPCClient) -> bitcoincore_rpc::Result<T> + Clone + Send + 'static,
+		T: Send + 'static,
+	{
+		loop {
+			match self.execute(f.clone()).await? {
+				Ok(res) => return Ok(Some(res)),
+				Err(bitcoincore_rpc::Error::JsonRpc(
+					bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+				)) if err.code == RPC_INVALID_ADDRESS_OR_KEY => return Ok(None),
+				Err(err) => {
+					trace!("Bitcoin client error, retrying: {:?}", err);
+				}
+			}
+
+			sleep(BLOCK_POLLING_INTERVAL).await;
+		}
+	}
+
 	/// Get transaction status
 	pub async fn get_tx_status(
 		&self,
 		txid: Txid,
 	) -> anyhow::Result<TransactionStatus> {
-		let is_confirmed = self
-			.execute(move |client| client.get_raw_transaction_info(&txid, None))
-			.await?
-			.ok()
-			.and_then(|tx| tx.confirmations)
-			.map(|confirmations| confirmations > 0)
-			.unwrap_or_default();
-
+		// The mempool is asked first: a transaction which leaves it in the
+		// meantime because it got mined is then found in a block.
 		let in_mempool = self
-			.execute(move |client| client.get_mempool_entry(&txid))
+			.find(move |client| client.get_mempool_entry(&txid))
 			.await?
-			.is_ok();
-
-		let res = match (is_confirmed, in_mempool) {
-			(true, false) => TransactionStatus::Confirmed,
-			(false, true) => TransactionStatus::Broadcasted,
-			(false, false) => TransactionStatus::Rejected,
-			(true, true) => {
-				panic!("Transaction cannot be both confirmed and pending")
+			.is_some();
+
+		let res = if in_mempool {
+			TransactionStatus::Broadcasted
+		} else {
+			match self
+				.find(move |client| {
+					client.get_raw_transaction_info(&txid, None)
+				})
+				.await?
+			{
+				Some(tx) if tx.confirmations.unwrap_or_default() > 0 => {
+					TransactionStatus::Confirmed
+				}
+				Some(_) => TransactionStatus::Broadcasted,
+				None => TransactionStatus::Rejected,
 			}
 		};
 
-- 
2.43.0


From 88fac31a401481a8dfb92f18d7d3ac5fe6149354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 14/20] fix: a dropped or aborted Stacks transaction is
 rejected, not an unknown status

---
 romeo/src/stacks_client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index a0820be..03efd13 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -208,7 +208,12 @@ impl StacksClient {
 		Ok(match tx_status_str.as_str() {
 			"pending" => TransactionStatus::Broadcasted,
 			"success" => TransactionStatus::Confirmed,
-			"abort_by_response" => TransactionStatus::Rejected,
+			"abort_by_response" | "abort_by_post_condition" => {
+				TransactionStatus::Rejected
+			}
+			status if status.starts_with("dropped_") => {
+				TransactionStatus::Rejected
+			}
 			status => panic!("Unknown transation status: {}", status),
 		})
 	}
-- 
2.43.0


From 4e7d29bcbffbd96d45bfd798f88dd3cc8adfa94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 15/20] fix: sign mainnet Stacks transactions with the mainnet
 chain id

---
 romeo/src/stacks_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 03efd13..2b7eebe 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -7,10 +7,10 @@ use blockstack_lib::{
 	burnchains::Txid as StacksTxId,
 	chainstate::stacks::{
 		StacksTransaction, StacksTransactionSigner, TransactionAnchorMode,
-		TransactionPostConditionMode,
+		TransactionPostConditionMode, TransactionVersion,
 	},
 	codec::StacksMessageCodec,
-	core::CHAIN_ID_TESTNET,
+	core::{CHAIN_ID_MAINNET, CHAIN_ID_TESTNET},
 	types::chainstate::StacksPrivateKey,
 	vm::{
 		types::{QualifiedContractIdentifier, StandardPrincipalData},
@@ -139,7 +139,10 @@ impl StacksClient {
 
 		tx.anchor_mode = TransactionAnchorMode::Any;
 		tx.post_condition_mode = TransactionPostConditionMode::Allow;
-		tx.chain_id = CHAIN_ID_TESTNET;
+		tx.chain_id = match tx.version {
+			TransactionVersion::Mainnet => CHAIN_ID_MAINNET,
+			TransactionVersion::Testnet => CHAIN_ID_TESTNET,
+		};
 
 		let mut signer = StacksTransactionSigner::new(&tx);
 
-- 
2.43.0


From 64cc4c6631a188cd834d4ae4ff3d36f8814e002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 16/20] fix: concurrent withdrawal payments no longer spend the
 same coins

---
 romeo/src/bitcoin_client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index 5ace66e..bde0543 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -34,6 +34,8 @@ pub struct Client {
 	blockchain: Arc<ElectrumBlockchain>,
 	// required for fulfillment txs
 	wallet: Arc<Mutex<Wallet<MemoryDatabase>>>,
+	// held from choosing coins until they are seen as spent
+	spending: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl Client {
@@ -66,6 +68,7 @@ impl Client {
 			config,
 			blockchain: Arc::new(blockchain),
 			wallet: Arc::new(Mutex::new(wallet)),
+			spending: Arc::new(tokio::sync::Mutex::new(())),
 		})
 	}
 
@@ -231,6 +234,9 @@ impl Client {
 	) -> anyhow::Result<Txid> {
 		sleep(Duration::from_secs(3)).await;
 
+		// Concurrent transactions must not spend the same coins
+		let _spending = self.spending.lock().await;
+
 		let blockchain = self.blockchain.clone();
 		let wallet = self.wallet.clone();
 
-- 
2.43.0


From 7142c270c40b90e88556980b0007e02bcc87f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 17/20] fix: pay a withdrawal requested in a Bitcoin block
 without a Stacks block

---
 romeo/src/stacks_client.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 2b7eebe..696141f 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -353,20 +353,33 @@ impl StacksClient {
 		Ok(tx)
 	}
 
-	/// Get the block hash for a given Bitcoin height
+	/// Get the hash of the Stacks chain tip as of a given Bitcoin height
 	pub async fn get_block_hash_from_bitcoin_height(
 		&mut self,
-		height: u32,
+		mut height: u32,
 	) -> anyhow::Result<Uint256> {
-		let res: Value = self
-			.send_request(|| {
-				self.http_client
-					.get(self.block_by_bitcoin_height_url(height))
-					.header("Accept", "application/json")
-					.build()
-					.unwrap()
-			})
-			.await?;
+		let res: Value = loop {
+			let res = self
+				.send_request(|| {
+					self.http_client
+						.get(self.block_by_bitcoin_height_url(height))
+						.header("Accept", "application/json")
+						.build()
+						.unwrap()
+				})
+				.await;
+
+			match res {
+				// Not every Bitcoin block has a Stacks block
+				Err(err)
+					if height > 0
+						&& err.to_string().contains("404 Not Found") =>
+				{
+					height -= 1;
+				}
+				res => break res?,
+			}
+		};
 
 		let hash_str = res["hash"]
 			.as_str()
-- 
2.43.0


From 13d6f3cc521e0056859b17cc05dcf169d4833716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 18/20] Let monitors point sBTC operations at a local Electrum
 server (cfg sbtc_monitor)

---
 sbtc-core/src/operations/utils.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sbtc-core/src/operations/utils.rs b/sbtc-core/src/operations/utils.rs
index f15d7c3..27797eb 100644
--- a/sbtc-core/src/operations/utils.rs
+++ b/sbtc-core/src/operations/utils.rs
@@ -8,9 +8,21 @@ use bdk::{
 
 use crate::{SBTCError, SBTCResult};
 
+/// The Electrum server used by sBTC operations
+#[allow(unexpected_cfgs)]
+fn electrum_url() -> String {
+	// Lets external monitors run the operations against a local server
+	#[cfg(sbtc_monitor)]
+	if let Ok(url) = std::env::var("SBTC_MONITOR_ELECTRUM") {
+		return url;
+	}
+
+	"ssl://blockstream.info:993".to_string()
+}
+
 /// Initializes the electrum blockchain client
 pub(crate) fn init_blockchain() -> SBTCResult<ElectrumBlockchain> {
-	let client = Client::new("ssl://blockstream.info:993").map_err(|err| {
+	let client = Client::new(&electrum_url()).map_err(|err| {
 		SBTCError::ElectrumError("Could not create Electrum client", err)
 	})?;
 	let blockchain = ElectrumBlockchain::from(client);
-- 
2.43.0


From f1d3c502843ef14822a1cc860e7e917121bdcbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 19/20] fix: fail instead of returning a transaction the wallet
 cannot fully sign

---
 sbtc-core/src/operations/op_return/deposit.rs | 22 +++----------
 .../op_return/withdrawal_fulfillment.rs       | 15 +++------
 .../op_return/withdrawal_request.rs           | 13 +++-----
 sbtc-core/src/operations/utils.rs             | 32 +++++++++++++++++--
 4 files changed, 43 insertions(+), 39 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/deposit.rs b/sbtc-core/src/operations/op_return/deposit.rs
index 7c5781f..7d08f1d 100644
--- a/sbtc-core/src/operations/op_return/deposit.rs
+++ b/sbtc-core/src/operations/op_return/deposit.rs
@@ -49,7 +49,7 @@ use bdk::{
 		Address as BitcoinAddress, Network, PrivateKey, Transaction,
 	},
 	database::{BatchDatabase, MemoryDatabase},
-	SignOptions, Wallet,
+	Wallet,
 };
 use stacks_core::{codec::Codec, utils::PrincipalData};
 
@@ -57,7 +57,7 @@ use crate::{
 	operations::{
 		magic_bytes,
 		op_return::utils::{build_op_return_script, reorder_outputs},
-		utils::setup_wallet,
+		utils::{setup_wallet, sign_transaction},
 		Opcode,
 	},
 	SBTCError, SBTCResult,
@@ -97,13 +97,7 @@ pub fn build_deposit_transaction<T: BatchDatabase>(
 	partial_tx.unsigned_tx.output =
 		reorder_outputs(partial_tx.unsigned_tx.output, outputs);
 
-	wallet
-		.sign(&mut partial_tx, SignOptions::default())
-		.map_err(|err| {
-			SBTCError::BDKError("Could not sign the transaction", err)
-		})?;
-
-	Ok(partial_tx.extract_tx())
+	sign_transaction(&wallet, partial_tx, "Could not sign the transaction")
 }
 
 #[derive(Debug, Clone)]
@@ -284,7 +278,7 @@ pub fn deposit(
 ) -> SBTCResult<Transaction> {
 	let wallet = setup_wallet(depositor_private_key)?;
 
-	let mut psbt = create_partially_signed_deposit_transaction(
+	let psbt = create_partially_signed_deposit_transaction(
 		&wallet,
 		recipient,
 		sbtc_address,
@@ -292,13 +286,7 @@ pub fn deposit(
 		depositor_private_key.network,
 	)?;
 
-	wallet
-		.sign(&mut psbt, SignOptions::default())
-		.map_err(|err| {
-			SBTCError::BDKError("Could not sign transaction", err)
-		})?;
-
-	Ok(psbt.extract_tx())
+	sign_transaction(&wallet, psbt, "Could not sign transaction")
 }
 
 #[cfg(test)]
diff --git a/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs b/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs
index f47eb6c..49fe732 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs
@@ -27,14 +27,15 @@ use bdk::{
 		Network as BitcoinNetwork, Script, Transaction,
 	},
 	database::BatchDatabase,
-	SignOptions, Wallet,
+	Wallet,
 };
 use stacks_core::{codec::Codec, BlockId};
 
 use super::utils::reorder_outputs;
 use crate::{
 	operations::{
-		magic_bytes, op_return::utils::build_op_return_script, Opcode,
+		magic_bytes, op_return::utils::build_op_return_script,
+		utils::sign_transaction, Opcode,
 	},
 	SBTCError, SBTCResult,
 };
@@ -47,7 +48,7 @@ pub fn build_withdrawal_fulfillment_tx(
 	recipient_bitcoin_address: &BitcoinAddress,
 	amount: u64,
 ) -> SBTCResult<Transaction> {
-	let mut psbt = create_psbt(
+	let psbt = create_psbt(
 		wallet,
 		stacks_chain_tip,
 		bitcoin_network,
@@ -55,13 +56,7 @@ pub fn build_withdrawal_fulfillment_tx(
 		amount,
 	)?;
 
-	wallet
-		.sign(&mut psbt, SignOptions::default())
-		.map_err(|err| {
-			SBTCError::BDKError("Could not sign withdrawal transaction", err)
-		})?;
-
-	Ok(psbt.extract_tx())
+	sign_transaction(wallet, psbt, "Could not sign withdrawal transaction")
 }
 
 /// Construct a withdrawal fulfillment partially signed transaction
diff --git a/sbtc-core/src/operations/op_return/withdrawal_request.rs b/sbtc-core/src/operations/op_return/withdrawal_request.rs
index 2abf998..9a62caa 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_request.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_request.rs
@@ -77,7 +77,7 @@ use bdk::{
 		Transaction,
 	},
 	database::BatchDatabase,
-	SignOptions, Wallet,
+	Wallet,
 };
 use stacks_core::{
 	address::{AddressVersion as StacksAddressVersion, StacksAddress},
@@ -92,6 +92,7 @@ use crate::{
 	operations::{
 		magic_bytes,
 		op_return::utils::{build_op_return_script, reorder_outputs},
+		utils::sign_transaction,
 		Opcode,
 	},
 	SBTCError, SBTCResult,
@@ -192,7 +193,7 @@ pub fn build_withdrawal_tx(
 	amount: u64,
 	fulfillment_fee: u64,
 ) -> SBTCResult<Transaction> {
-	let mut psbt = create_psbt(
+	let psbt = create_psbt(
 		wallet,
 		&drawee_stacks_private_key,
 		&payee_bitcoin_address,
@@ -202,13 +203,7 @@ pub fn build_withdrawal_tx(
 		bitcoin_network,
 	)?;
 
-	wallet
-		.sign(&mut psbt, SignOptions::default())
-		.map_err(|err| {
-			SBTCError::BDKError("Could not sign withdrawal transaction", err)
-		})?;
-
-	Ok(psbt.extract_tx())
+	sign_transaction(wallet, psbt, "Could not sign withdrawal transaction")
 }
 
 /// Construct a withdrawal request partially signed transaction
diff --git a/sbtc-core/src/operations/utils.rs b/sbtc-core/src/operations/utils.rs
index 27797eb..a196c77 100644
--- a/sbtc-core/src/operations/utils.rs
+++ b/sbtc-core/src/operations/utils.rs
@@ -1,9 +1,13 @@
 //! Utilities for sBTC transactions
 
 use bdk::{
-	bitcoin::PrivateKey, blockchain::ElectrumBlockchain,
-	database::MemoryDatabase, electrum_client::Client, template::P2Wpkh,
-	SyncOptions, Wallet,
+	bitcoin::{psbt::PartiallySignedTransaction, PrivateKey, Transaction},
+	blockchain::ElectrumBlockchain,
+	database::{BatchDatabase, MemoryDatabase},
+	electrum_client::Client,
+	signer::SignerError,
+	template::P2Wpkh,
+	SignOptions, SyncOptions, Wallet,
 };
 
 use crate::{SBTCError, SBTCResult};
@@ -50,3 +54,25 @@ pub(crate) fn setup_wallet(
 
 	Ok(wallet)
 }
+
+/// Sign all the inputs of a transaction
+///
+/// Fails with the given message when the wallet cannot sign every input.
+pub(crate) fn sign_transaction<D: BatchDatabase>(
+	wallet: &Wallet<D>,
+	mut psbt: PartiallySignedTransaction,
+	failure: &'static str,
+) -> SBTCResult<Transaction> {
+	let finalized = wallet
+		.sign(&mut psbt, SignOptions::default())
+		.map_err(|err| SBTCError::BDKError(failure, err))?;
+
+	if !finalized {
+		return Err(SBTCError::BDKError(
+			failure,
+			bdk::Error::Signer(SignerError::MissingKey),
+		));
+	}
+
+	Ok(psbt.extract_tx())
+}
-- 
2.43.0


From e61ee5dd3afe0aa12508644135168202535b977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 20/20] fix: refuse commit-reveal fees above the committed
 amount instead of aborting

---
 sbtc-core/src/operations/commit_reveal/deposit.rs        | 9 +++++++--
 sbtc-core/src/operations/commit_reveal/utils.rs          | 3 +++
 .../src/operations/commit_reveal/withdrawal_request.rs   | 9 +++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/sbtc-core/src/operations/commit_reveal/deposit.rs b/sbtc-core/src/operations/commit_reveal/deposit.rs
index fc38f66..a35fc36 100644
--- a/sbtc-core/src/operations/commit_reveal/deposit.rs
+++ b/sbtc-core/src/operations/commit_reveal/deposit.rs
@@ -7,7 +7,9 @@ use bdk::bitcoin::{
 use stacks_core::{codec::Codec, utils::PrincipalData};
 
 use crate::operations::{
-	commit_reveal::utils::{commit, reveal, CommitRevealResult, RevealInputs},
+	commit_reveal::utils::{
+		commit, reveal, CommitRevealError, CommitRevealResult, RevealInputs,
+	},
 	Opcode,
 };
 
@@ -69,7 +71,10 @@ pub fn deposit_reveal_unsigned_tx(
 	let mut tx = reveal(&deposit_data.serialize_to_vec(), reveal_inputs)?;
 
 	tx.output.push(TxOut {
-		value: (commit_amount - deposit_data.reveal_fee).to_sat(),
+		value: commit_amount
+			.checked_sub(deposit_data.reveal_fee)
+			.ok_or(CommitRevealError::InsufficientCommitAmount)?
+			.to_sat(),
 		script_pubkey: sbtc_wallet_address.script_pubkey(),
 	});
 
diff --git a/sbtc-core/src/operations/commit_reveal/utils.rs b/sbtc-core/src/operations/commit_reveal/utils.rs
index 90b06af..47167e5 100644
--- a/sbtc-core/src/operations/commit_reveal/utils.rs
+++ b/sbtc-core/src/operations/commit_reveal/utils.rs
@@ -28,6 +28,9 @@ pub enum CommitRevealError {
 	#[error("Could not build taproot spend info: {0}: {1}")]
 	/// Taproot error
 	InvalidTaproot(&'static str, TaprootBuilderError),
+	#[error("Committed amount does not cover the reveal fees")]
+	/// Committed amount is less than the fees taken from it
+	InsufficientCommitAmount,
 }
 
 /// Commit reveal result
diff --git a/sbtc-core/src/operations/commit_reveal/withdrawal_request.rs b/sbtc-core/src/operations/commit_reveal/withdrawal_request.rs
index 617799a..cd2ef10 100644
--- a/sbtc-core/src/operations/commit_reveal/withdrawal_request.rs
+++ b/sbtc-core/src/operations/commit_reveal/withdrawal_request.rs
@@ -8,7 +8,9 @@ use bdk::bitcoin::{
 use stacks_core::codec::Codec;
 
 use crate::operations::{
-	commit_reveal::utils::{commit, reveal, CommitRevealResult, RevealInputs},
+	commit_reveal::utils::{
+		commit, reveal, CommitRevealError, CommitRevealResult, RevealInputs,
+	},
 	Opcode,
 };
 
@@ -81,7 +83,10 @@ pub fn withdrawal_request_reveal_unsigned_tx(
 	let mut tx = reveal(&withdrawal_data.serialize_to_vec(), reveal_inputs)?;
 
 	tx.output.push(TxOut {
-		value: (commit_amount - withdrawal_data.reveal_fee - fulfillment_fee)
+		value: commit_amount
+			.checked_sub(withdrawal_data.reveal_fee)
+			.and_then(|amount| amount.checked_sub(fulfillment_fee))
+			.ok_or(CommitRevealError::InsufficientCommitAmount)?
 			.to_sat(),
 		script_pubkey: recipient_wallet_address.script_pubkey(),
 	});
-- 
2.43.0

