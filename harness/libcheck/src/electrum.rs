//! A loopback Electrum server with a scripted chain, scripted faults and a log
//! of everything it was asked.
use std::{
    collections::HashMap,
    io::{BufRead, BufReader, Write},
    net::{TcpListener, TcpStream},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex, RwLock,
    },
    thread::JoinHandle,
    time::Duration,
};

use bdk::bitcoin::{
    consensus::serialize, hashes::Hash, BlockHash, BlockHeader, Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn,
    TxMerkleNode, TxOut, Witness,
};
use rand::{rngs::StdRng, Rng, RngCore};
use serde_json::{json, Value};

use crate::gen::btc_addr;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// close the connection when the n-th request arrives
    CloseAt(usize),
    /// answer the n-th and later requests with an RPC error
    ErrorAt(usize),
    /// answer every request with this RPC error
    ErrorWith(Value),
    /// answer the n-th request with something that is not JSON
    GarbageAt(usize),
    /// answer the n-th request with a result of the wrong type
    WrongTypeAt(usize),
    /// execute the n-th request, then close without answering
    SwallowAt(usize),
}

#[derive(Default)]
pub struct Chain {
    pub txs: HashMap<String, Transaction>,
    pub history: HashMap<String, Vec<(String, i32)>>,
    pub tip: u32,
}
pub fn scripthash(s: &Script) -> String {
    let mut h = refs::sha256(s.as_bytes());
    h.reverse();
    hex::encode(h)
}
impl Chain {
    /// everything of another chain
    pub fn join(&mut self, o: Chain) {
        self.txs.extend(o.txs);
        self.history.extend(o.history);
    }
    /// every script in outputs and every spent output gets a history entry
    pub fn add(&mut self, tx: Transaction, height: i32) {
        let id = tx.txid().to_string();
        let mut scripts: Vec<Script> = tx.output.iter().map(|o| o.script_pubkey.clone()).collect();
        for i in &tx.input {
            if let Some(p) = self.txs.get(&i.previous_output.txid.to_string()) {
                if let Some(o) = p.output.get(i.previous_output.vout as usize) {
                    scripts.push(o.script_pubkey.clone());
                }
            }
        }
        for s in scripts {
            let e = self.history.entry(scripthash(&s)).or_default();
            if !e.iter().any(|x| x.0 == id) {
                e.push((id.clone(), height));
            }
        }
        self.txs.insert(id, tx);
    }
}

pub struct Server {
    pub port: u16,
    pub log: Arc<Mutex<Vec<(String, Value)>>>,
    stop: Arc<AtomicBool>,
    accept: Option<JoinHandle<()>>,
    pub conns: Arc<AtomicUsize>,
    pub chain: Arc<RwLock<Chain>>,
}
struct Shared {
    chain: Arc<RwLock<Chain>>,
    fault: Fault,
    /// the fault applies to the first n connections only
    faulty_conns: usize,
    served: AtomicUsize,
    log: Arc<Mutex<Vec<(String, Value)>>>,
}

fn header(h: u32) -> String {
    let b = BlockHeader {
        version: 4,
        prev_blockhash: BlockHash::all_zeros(),
        merkle_root: TxMerkleNode::all_zeros(),
        time: 1_600_000_000 + h * 600,
        bits: 0x207fffff,
        nonce: h,
    };
    hex::encode(serialize(&b))
}

fn answer(s: &Shared, method: &str, p: &Value) -> Result<Value, String> {
    let chain = s.chain.read().unwrap();
    Ok(match method {
        "server.version" => json!(["mock 1.0", "1.4"]),
        "server.ping" => Value::Null,
        "server.features" => json!({"server_version": "mock", "genesis_hash": "00", "protocol_min": "1.4", "protocol_max": "1.4", "hash_function": "sha256", "pruning": null}),
        "blockchain.headers.subscribe" => json!({"height": chain.tip, "hex": header(chain.tip)}),
        "blockchain.block.header" => json!(header(p[0].as_u64().ok_or("height")? as u32)),
        "blockchain.block.headers" => json!({"count": 0, "hex": "", "max": 2016}),
        "blockchain.estimatefee" => json!(0.00001),
        "blockchain.relayfee" => json!(0.00001),
        "blockchain.scripthash.get_history" => {
            let h = chain.history.get(p[0].as_str().ok_or("scripthash")?).cloned().unwrap_or_default();
            Value::Array(h.into_iter().map(|(id, height)| json!({"tx_hash": id, "height": height, "fee": 0})).collect())
        }
        "blockchain.scripthash.listunspent" => json!([]),
        "blockchain.scripthash.subscribe" => Value::Null,
        "blockchain.transaction.get" => {
            let t = chain.txs.get(p[0].as_str().ok_or("txid")?).ok_or("no such transaction")?;
            json!(hex::encode(serialize(t)))
        }
        "blockchain.transaction.broadcast" => {
            let raw = hex::decode(p[0].as_str().ok_or("tx")?).map_err(|e| e.to_string())?;
            let t: Transaction = bdk::bitcoin::consensus::deserialize(&raw).map_err(|e| e.to_string())?;
            json!(t.txid().to_string())
        }
        m => return Err(format!("unknown method {m}")),
    })
}

fn serve(sock: TcpStream, s: Arc<Shared>, stop: Arc<AtomicBool>, faulty: bool) {
    let _ = sock.set_read_timeout(Some(Duration::from_millis(200)));
    let mut w = match sock.try_clone() {
        Ok(w) => w,
        Err(_) => return,
    };
    let mut r = BufReader::new(sock);
    let mut line = String::new();
    loop {
        match r.read_line(&mut line) {
            Ok(0) => return,
            Ok(_) if line.ends_with('\n') => {}
            Ok(_) => continue,
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                if stop.load(Ordering::Relaxed) {
                    return;
                }
                continue;
            }
            Err(_) => return,
        }
        let Ok(q) = serde_json::from_str::<Value>(&line) else { return };
        line.clear();
        let method = q["method"].as_str().unwrap_or("").to_string();
        let n = s.served.fetch_add(1, Ordering::SeqCst);
        let fault = if faulty { s.fault.clone() } else { Fault::None };
        if matches!(fault, Fault::CloseAt(k) if n >= k) {
            return;
        }
        s.log.lock().unwrap().push((method.clone(), q["params"].clone()));
        let mut reply = match answer(&s, &method, &q["params"]) {
            Ok(v) => json!({"jsonrpc": "2.0", "id": q["id"], "result": v}),
            Err(e) => json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32600, "message": e}}),
        };
        let mut text = None;
        match fault {
            Fault::ErrorAt(k) if n >= k => reply = json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": 1, "message": "the transaction was rejected by network rules."}}),
            Fault::ErrorWith(e) => reply = json!({"jsonrpc": "2.0", "id": q["id"], "error": e}),
            Fault::GarbageAt(k) if n >= k => text = Some("<html>502 Bad Gateway</html>".to_string()),
            Fault::WrongTypeAt(k) if n >= k => reply = json!({"jsonrpc": "2.0", "id": q["id"], "result": {"unexpected": [1, 2]}}),
            Fault::SwallowAt(k) if n >= k => return,
            _ => {}
        }
        let t = text.unwrap_or_else(|| reply.to_string());
        if w.write_all(t.as_bytes()).and_then(|_| w.write_all(b"\n")).and_then(|_| w.flush()).is_err() {
            return;
        }
    }
}

impl Server {
    pub fn start(chain: Chain, fault: Fault, faulty_conns: usize) -> std::io::Result<Server> {
        let l = TcpListener::bind("127.0.0.1:0")?;
        let port = l.local_addr()?.port();
        l.set_nonblocking(true)?;
        let stop = Arc::new(AtomicBool::new(false));
        let log = Arc::new(Mutex::new(vec![]));
        let conns = Arc::new(AtomicUsize::new(0));
        let chain = Arc::new(RwLock::new(chain));
        let s = Arc::new(Shared { chain: chain.clone(), fault, faulty_conns, served: AtomicUsize::new(0), log: log.clone() });
        let (st, cn) = (stop.clone(), conns.clone());
        let accept = std::thread::spawn(move || {
            let mut hs = vec![];
            while !st.load(Ordering::Relaxed) {
                match l.accept() {
                    Ok((sock, _)) => {
                        let _ = sock.set_nonblocking(false);
                        let k = cn.fetch_add(1, Ordering::SeqCst);
                        let (s, st) = (s.clone(), st.clone());
                        let faulty = k < s.faulty_conns;
                        hs.push(std::thread::spawn(move || serve(sock, s, st, faulty)));
                    }
                    Err(_) => std::thread::sleep(Duration::from_millis(2)),
                }
            }
            for h in hs {
                let _ = h.join();
            }
        });
        Ok(Server { port, log, stop, accept: Some(accept), conns, chain })
    }
    pub fn url(&self) -> String {
        format!("tcp://127.0.0.1:{}", self.port)
    }
    pub fn requests(&self) -> Vec<(String, Value)> {
        self.log.lock().unwrap().clone()
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(h) = self.accept.take() {
            let _ = h.join();
        }
    }
}

pub fn txin(o: OutPoint) -> TxIn {
    TxIn { previous_output: o, script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::new() }
}

/// A chain in which `script` owns coins of the given values, and has spent others.
pub fn chain_for(r: &mut StdRng, script: &Script, values: &[u64]) -> (Chain, HashMap<OutPoint, TxOut>) {
    let mut chain = Chain { tip: 300, ..Default::default() };
    let mut utxos = HashMap::new();
    let coinbase = |r: &mut StdRng, out: Vec<TxOut>| {
        let mut tag = vec![0u8; 12];
        r.fill_bytes(&mut tag);
        Transaction {
            version: 2,
            lock_time: PackedLockTime(0),
            input: vec![TxIn { script_sig: bdk::bitcoin::blockdata::script::Builder::new().push_slice(&tag).into_script(), ..txin(OutPoint::null()) }],
            output: out,
        }
    };
    let other = |r: &mut StdRng| btc_addr(r, Network::Testnet).script_pubkey();
    let mut rest = values;
    while !rest.is_empty() {
        let k = r.gen_range(1..=rest.len());
        let (now, later) = rest.split_at(k);
        rest = later;
        let os = other(r);
        let cb = coinbase(r, vec![TxOut { value: 5_000_000_000_000, script_pubkey: os }]);
        chain.add(cb.clone(), 20);
        let mut outs: Vec<TxOut> = now.iter().map(|v| TxOut { value: *v, script_pubkey: script.clone() }).collect();
        if r.gen_bool(0.5) {
            let at = r.gen_range(0..=outs.len());
            let os = other(r);
            outs.insert(at, TxOut { value: r.gen_range(1000..1_000_000), script_pubkey: os });
        }
        let tx = Transaction { version: 2, lock_time: PackedLockTime(0), input: vec![txin(OutPoint { txid: cb.txid(), vout: 0 })], output: outs };
        let h = if r.gen_bool(0.15) { 0 } else { r.gen_range(25..290) };
        let txid = tx.txid();
        for (vout, o) in tx.output.iter().enumerate() {
            if o.script_pubkey == *script {
                utxos.insert(OutPoint { txid, vout: vout as u32 }, o.clone());
            }
        }
        chain.add(tx, h);
    }
    if r.gen_bool(0.4) {
        // a coin the key once had and spent
        let os = other(r);
        let cb = coinbase(r, vec![TxOut { value: 9_000_000, script_pubkey: os }]);
        chain.add(cb.clone(), 21);
        let got = Transaction {
            version: 2,
            lock_time: PackedLockTime(0),
            input: vec![txin(OutPoint { txid: cb.txid(), vout: 0 })],
            output: vec![TxOut { value: 8_000_000, script_pubkey: script.clone() }],
        };
        chain.add(got.clone(), 30);
        let os = other(r);
        let spent = Transaction {
            version: 2,
            lock_time: PackedLockTime(0),
            input: vec![txin(OutPoint { txid: got.txid(), vout: 0 })],
            output: vec![TxOut { value: 7_990_000, script_pubkey: os }],
        };
        chain.add(spent, 40);
    }
    (chain, utxos)
}
