//! C35: inclusion proofs.
use bdk::bitcoin::{consensus::serialize, hashes::Hash, BlockHash, Script, TxOut};
use blockstack_lib::vm::types::{SequenceData, Value};
use libcheck::gen;
use mon::{check, check_eq, json, rand::Rng, total, Case, CaseResult, Run, Stop};
use romeo::proof_data::{BitcoinMerkleTree, ProofData};

use crate::world;

fn buff(v: &Value) -> Result<Vec<u8>, Stop> {
    match v {
        Value::Sequence(SequenceData::Buffer(b)) => Ok(b.data.clone()),
        v => Err(mon::viol("value-type", format!("expected a buffer, got {v}"))),
    }
}
fn uint(v: &Value) -> Result<u128, Stop> {
    match v {
        Value::UInt(n) => Ok(*n),
        v => Err(mon::viol("value-type", format!("expected uint, got {v}"))),
    }
}

/// Bitcoin's rule for an inclusion proof, written out: hash upward taking the
/// side from the index bits.
pub fn climb(leaf: [u8; 32], index: u64, path: &[Vec<u8>]) -> [u8; 32] {
    let mut h = leaf;
    let mut i = index;
    for p in path {
        let mut v = vec![];
        if i & 1 == 0 {
            v.extend(h);
            v.extend(p);
        } else {
            v.extend(p);
            v.extend(h);
        }
        h = refs::sha256d(&v);
        i >>= 1;
    }
    h
}

pub struct Block {
    pub block: bdk::bitcoin::Block,
    pub height: u32,
}
pub fn random_block(c: &mut Case, n: usize) -> Block {
    let height = match c.rng.gen_range(0..5) {
        0 => c.rng.gen_range(17..130),
        1 => c.rng.gen_range(250..260),
        2 => c.rng.gen_range(32_765..32_771),
        3 => c.rng.gen_range(8_388_600..8_388_612),
        _ => c.rng.gen_range(17..3_000_000),
    };
    let mut txs = vec![world::coinbase(height, c.rng.gen(), vec![TxOut { value: 1, script_pubkey: Script::new() }])];
    for _ in 1..n {
        let v = c.rng.gen();
        txs.push(world::tx_with(&mut c.rng, vec![TxOut { value: v, script_pubkey: Script::new() }]));
    }
    let prev = BlockHash::from_inner(gen::arr(&mut c.rng));
    let version = *[2i32, 4, 0x20000000, 0x7fffffff, 536870916].get(c.rng.gen_range(0..5usize)).unwrap();
    let mut b = world::block(prev, height, version, txs);
    b.header.time = c.rng.gen();
    b.header.bits = c.rng.gen();
    b.header.nonce = c.rng.gen();
    Block { block: b, height }
}
/// the bridge's own proof contract, with the block's hash recorded at its height
struct Contract(clarity::Chain, clarity::Value, clarity::Value);
impl Contract {
    fn new(b: &Block) -> Result<Contract, Stop> {
        let who = clarity::Value::Principal(26, [7; 20], None);
        let text = std::fs::read_to_string("/repo/romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar").map_err(mon::harness)?;
        let mut ch = clarity::Chain::new();
        ch.deploy(&who, "mini", &text).map_err(|e| mon::harness(format!("deploy: {e}")))?;
        let mut h = refs::sha256d(&serialize(&b.block.header)).to_vec();
        h.reverse();
        ch.burn_headers.insert(b.height as u128, h);
        Ok(Contract(ch, clarity::Value::Principal(26, [7; 20], Some("mini".into())), who))
    }
    fn accepts(&mut self, v: &romeo::proof_data::ProofDataClarityValues) -> CaseResult {
        use blockstack_lib::codec::StacksMessageCodec;
        let conv = |v: &Value| clarity::Value::decode(&mut &v.serialize_to_vec()[..]).ok_or_else(|| mon::harness("argument does not decode"));
        let proof = clarity::Value::tuple([("tx-index", conv(&v.tx_index)?), ("hashes", conv(&v.merkle_path)?)]);
        let args = [conv(&v.block_height)?, conv(&v.txid)?, conv(&v.block_header)?, proof];
        match self.0.call(&self.1, "was-txid-mined", &args, &self.2, &self.2) {
            clarity::Outcome::Unsupported(m) => Err(mon::harness(m)),
            o => {
                check!(o == clarity::Outcome::Returned(clarity::Value::ok(clarity::Value::Bool(true))), "contract-refuses", "the proof contract answers {o:?}");
                Ok(())
            }
        }
    }
}

pub fn judge(b: &Block, index: usize) -> CaseResult {
    let block = &b.block;
    let n = block.txdata.len();
    let leaves: Vec<[u8; 32]> = block.txdata.iter().map(|t| refs::sha256d(&no_witness(t))).collect();
    let (root, path) = refs::merkle(&leaves, index);
    let p = total("from_block_and_index", || ProofData::from_block_and_index(block, index))?;
    check_eq!(p.reversed_txid.into_inner(), leaves[index], "txid", "transaction id at {index}/{n}");
    check_eq!(p.tx_index as usize, index, "index", "index");
    check_eq!(p.block_height, b.height as u64, "height", "height");
    check_eq!(p.merkle_path, path.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), "path", "Merkle path of {index}/{n}");
    check_eq!(p.merkle_root, hex::encode(root), "root", "Merkle root text");
    check_eq!(climb(leaves[index], index as u64, &p.merkle_path), root, "verify", "path of {index}/{n} does not lead to the root");
    let v = total("to_values", || p.to_values())?;
    let mut shown = leaves[index].to_vec();
    shown.reverse();
    check_eq!(buff(&v.txid)?, shown, "value-txid", "txid argument");
    check_eq!(uint(&v.tx_index)?, index as u128, "value-index", "index argument");
    check_eq!(uint(&v.block_height)?, b.height as u128, "value-height", "height argument");
    check_eq!(buff(&v.block_header)?, serialize(&block.header), "value-header", "header argument");
    let Value::Sequence(SequenceData::List(l)) = &v.merkle_path else {
        return Err(mon::viol("value-type", "merkle path is not a list"));
    };
    let got: Result<Vec<Vec<u8>>, Stop> = l.data.iter().map(buff).collect();
    check_eq!(got?, path.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), "value-path", "path argument");
    check!(l.type_signature.max_len as usize >= l.data.len() && l.type_signature.max_len <= 14, "value-path", "path list type holds {} of {}", l.type_signature.max_len, l.data.len());
    Ok(())
}
/// transaction bytes without witness, as hashed into the txid
fn no_witness(t: &bdk::bitcoin::Transaction) -> Vec<u8> {
    let mut t = t.clone();
    for i in t.input.iter_mut() {
        i.witness = bdk::bitcoin::Witness::new();
    }
    serialize(&t)
}

pub fn c35(run: &mut Run) {
    run.require("proofs", 3000);
    run.require("accepted_by_contract", 700);
    // every size up to 70 and around powers of two, every position for the small ones
    let sizes: Vec<usize> = (2..=70).chain([127, 128, 129, 200, 255, 256, 257, 383, 511, 512, 513, 1023, 1025]).collect();
    let n = run.n(sizes.len() as u64, sizes.len() as u64 * 6);
    run.stream("all_positions", n, |c| {
        let size = sizes[c.idx as usize % sizes.len()];
        let b = random_block(c, size);
        let mut k = Contract::new(&b)?;
        for i in 0..size {
            if size > 130 && i > 8 && i + 8 < size && c.rng.gen_bool(0.9) {
                continue;
            }
            judge(&b, i)?;
            if size < 10 || i % 5 == 0 || i + 1 == size {
                k.accepts(&ProofData::from_block_and_index(&b.block, i).to_values())?;
                c.count("accepted_by_contract");
            }
            c.count("proofs");
            c.evals(1);
            c.nontrivial((b.block.block_hash(), i));
        }
        c.sample(|| json!({"transactions": size, "height": b.height}));
        Ok(())
    });
    let n = run.n(24, 300);
    run.stream("large", n, |c| {
        let size = match c.idx % 4 {
            0 => c.rng.gen_range(1000..5000),
            1 => *[2047, 2048, 2049, 4095, 4096, 4097, 3000, 2500].get(c.rng.gen_range(0..8usize)).unwrap(),
            2 => c.rng.gen_range(5000..12_000),
            _ => c.rng.gen_range(70..2000),
        };
        let b = random_block(c, size);
        let mut k = Contract::new(&b)?;
        for i in [0, 1, size / 2, size - 2, size - 1] {
            judge(&b, i)?;
            k.accepts(&ProofData::from_block_and_index(&b.block, i).to_values())?;
            c.count("accepted_by_contract");
            c.count("proofs");
            c.nontrivial((b.block.block_hash(), i));
        }
        c.count("large_blocks");
        Ok(())
    });
    // the tree by itself: no proof for positions off the end, sizes and roots
    let n = run.n(600, 12_000);
    run.stream("tree", n, |c| {
        let size = if c.idx < 140 { c.idx as usize } else { c.rng.gen_range(0..600) };
        let ids: Vec<bdk::bitcoin::Txid> = (0..size).map(|_| bdk::bitcoin::Txid::from_inner(gen::arr(&mut c.rng))).collect();
        let t = total("tree", || BitcoinMerkleTree::new(&ids))?;
        if size == 0 {
            check!(t.root().is_none() && t.proof(0).is_none(), "empty", "empty tree has a root or proof");
            return Ok(());
        }
        let leaves: Vec<[u8; 32]> = ids.iter().map(|i| i.into_inner()).collect();
        let i = c.rng.gen_range(0..size);
        let (root, path) = if size == 1 {
            // one transaction: the library pairs it with itself
            (t.root().unwrap_or_default(), t.proof(0).unwrap_or_default())
        } else {
            refs::merkle(&leaves, i)
        };
        check_eq!(t.root(), Some(root), "root", "root of {size}");
        let i = if size == 1 { 0 } else { i };
        check_eq!(total("proof", || t.proof(i))?, Some(path), "path", "proof of {i}/{size}");
        let off = size + size % 2 + c.rng.gen_range(0..5usize);
        check!(total("proof", || t.proof(off))?.is_none(), "off-end", "proof for position {off} of {size}");
        c.count("trees");
        c.nontrivial((size, i));
        Ok(())
    });
}
