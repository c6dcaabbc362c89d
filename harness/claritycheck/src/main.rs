//! C50-C55: the asset and proof contracts of /repo, executed by the
//! interpreter in ../clarity and judged against a reference ledger.
use clarity::{Chain, Outcome, Value};
use mon::{
    check, harness, json,
    rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore},
    viol, Case, CaseResult, Run, Stop,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::OnceLock,
};

const DIR: &str = "/repo/romeo/asset-contract";
/// 21 million bitcoin in satoshis
const CAP: u128 = 2_100_000_000_000_000;

fn text(p: &str) -> &'static str {
    static T: OnceLock<BTreeMap<String, String>> = OnceLock::new();
    let t = T.get_or_init(|| {
        ["contracts/asset.clar", "contracts/clarity-bitcoin-mini.clar", "contracts/clarity-bitcoin-mini-deploy.clar", "tests/asset_test.clar", "tests/clarity-bitcoin-mini_test.clar"]
            .iter()
            .map(|f| (f.to_string(), std::fs::read_to_string(format!("{DIR}/{f}")).unwrap_or_default()))
            .collect()
    });
    &t[p]
}
fn named(p: &Value, n: &str) -> Value {
    let Value::Principal(v, h, _) = p else { unreachable!() };
    Value::Principal(*v, *h, Some(n.to_string()))
}
fn account(r: &mut StdRng) -> Value {
    let v = *[26u8, 21, 22, 20].choose(r).unwrap();
    Value::Principal(v, r.gen(), None)
}
fn deployed(deployer: &Value, debug: bool) -> Result<Chain, Stop> {
    let mut ch = Chain::new();
    let f = if debug { "contracts/clarity-bitcoin-mini.clar" } else { "contracts/clarity-bitcoin-mini-deploy.clar" };
    ch.deploy(deployer, "clarity-bitcoin-mini", text(f)).map_err(|e| harness(format!("deploy: {e}")))?;
    ch.deploy(deployer, "asset", text("contracts/asset.clar")).map_err(|e| harness(format!("deploy: {e}")))?;
    Ok(ch)
}
fn returned(o: Outcome, what: &str) -> Result<Value, Stop> {
    match o {
        Outcome::Returned(v) => Ok(v),
        Outcome::Unsupported(m) => Err(harness(format!("{what}: {m}"))),
        o => Err(viol("aborts", format!("{what}: {o:?}"))),
    }
}
/// accepted or refused
fn verdict(o: &Outcome, what: &str) -> Result<bool, Stop> {
    match o {
        Outcome::Returned(Value::Response(b, _)) => Ok(*b),
        Outcome::Aborted(_) => Ok(false),
        Outcome::Unsupported(m) => Err(harness(format!("{what}: {m}"))),
        o => Err(viol("call", format!("{what}: {o:?}"))),
    }
}

// ---------------------------------------------------------------- blocks
#[derive(Clone)]
struct Block {
    height: u128,
    header: Vec<u8>,
    leaves: Vec<[u8; 32]>,
    /// position and path of the only known leaf of a block too large to build
    deep: Option<(u128, Vec<[u8; 32]>)>,
}
#[derive(Clone, Debug)]
struct Proof {
    height: u128,
    /// as shown to users, the reverse of the hash's byte order
    txid: Vec<u8>,
    header: Vec<u8>,
    index: u128,
    path: Vec<Vec<u8>>,
}
fn block(r: &mut StdRng, height: u128, n: usize) -> Block {
    let leaves: Vec<[u8; 32]> = (0..n).map(|_| r.gen()).collect();
    let (root, _) = refs::merkle(&leaves, 0);
    let mut header = vec![0u8; 80];
    r.fill_bytes(&mut header);
    header[36..68].copy_from_slice(&root);
    Block { height, header, leaves, deep: None }
}
/// a block of which one leaf and its path of `depth` siblings are known
fn deep_block(r: &mut StdRng, height: u128, depth: usize) -> Block {
    let leaf: [u8; 32] = r.gen();
    let path: Vec<[u8; 32]> = (0..depth).map(|_| r.gen()).collect();
    let index = r.gen_range(0..1u128 << depth);
    let mut h = leaf;
    for (k, s) in path.iter().enumerate() {
        h = refs::sha256d(&if index >> k & 1 == 0 { [&h[..], &s[..]].concat() } else { [&s[..], &h[..]].concat() });
    }
    let mut header = vec![0u8; 80];
    r.fill_bytes(&mut header);
    header[36..68].copy_from_slice(&h);
    Block { height, header, leaves: vec![leaf], deep: Some((index, path)) }
}
fn header_hash(h: &[u8]) -> Vec<u8> {
    let mut x = refs::sha256d(h).to_vec();
    x.reverse();
    x
}
impl Block {
    fn proof(&self, i: usize) -> Proof {
        let (i, path) = match &self.deep {
            Some((i, p)) => (*i, p.clone()),
            None => (i as u128, refs::merkle(&self.leaves, i).1),
        };
        let mut txid = self.leaves[if self.deep.is_some() { 0 } else { i as usize }].to_vec();
        txid.reverse();
        Proof { height: self.height, txid, header: self.header.clone(), index: i, path: path.iter().map(|p| p.to_vec()).collect() }
    }
}
/// Bitcoin's inclusion rule over the registered header hashes
fn holds(p: &Proof, known: &BTreeMap<u128, Vec<u8>>) -> bool {
    if p.header.len() != 80 || p.path.is_empty() || p.path.len() > 14 || p.txid.len() != 32 {
        return false;
    }
    if known.get(&p.height) != Some(&header_hash(&p.header)) {
        return false;
    }
    let mut h = p.txid.clone();
    h.reverse();
    for (k, s) in p.path.iter().enumerate() {
        let v = if p.index >> k & 1 == 0 { [&h[..], &s[..]].concat() } else { [&s[..], &h[..]].concat() };
        h = refs::sha256d(&v).to_vec();
    }
    h == p.header[36..68]
}
fn corrupt(r: &mut StdRng, p: &mut Proof, others: &[Block]) -> &'static str {
    fn flip(r: &mut StdRng, v: &mut [u8]) {
        let i = r.gen_range(0..v.len());
        v[i] ^= 1 << r.gen_range(0..8);
    }
    match r.gen_range(0..20) {
        0 => {
            flip(r, &mut p.txid);
            "id bit"
        }
        1 => {
            p.txid.reverse();
            "id byte order"
        }
        2 => {
            let i = r.gen_range(0..p.path.len());
            flip(r, &mut p.path[i]);
            "sibling bit"
        }
        3 => {
            let i = r.gen_range(0..p.path.len());
            p.path[i].reverse();
            "sibling byte order"
        }
        4 => {
            p.path.pop();
            "path short at the root end"
        }
        5 => {
            p.path.remove(0);
            "path short at the leaf end"
        }
        6 => {
            if p.path.len() < 14 {
                p.path.push(r.gen::<[u8; 32]>().to_vec());
            }
            "path too long"
        }
        7 => {
            let i = r.gen_range(0..p.path.len());
            let j = r.gen_range(0..p.path.len());
            p.path.swap(i, j);
            "siblings swapped"
        }
        8 => {
            p.index ^= 1 << r.gen_range(0..p.path.len());
            "position bit"
        }
        9 => {
            p.index += 1u128 << (p.path.len() as u32 + r.gen_range(0..90));
            "position beyond the path"
        }
        10 => {
            flip(r, &mut p.header);
            "header bit"
        }
        11 => {
            let i = r.gen_range(36..68);
            p.header[i] ^= 1 << r.gen_range(0..8);
            "header root bit"
        }
        12 => {
            p.header.truncate(*[79, 70, 68, 67, 36, 0].choose(r).unwrap());
            "header cut"
        }
        13 => {
            p.height = p.height.wrapping_add(1);
            "height up"
        }
        14 => {
            p.height = p.height.wrapping_sub(1);
            "height down"
        }
        15 => {
            p.header = others.choose(r).unwrap().header.clone();
            "other block's header"
        }
        16 => {
            let b = others.choose(r).unwrap();
            p.height = b.height;
            p.header = b.header.clone();
            "other block"
        }
        17 => {
            p.path.clear();
            "no path"
        }
        18 => {
            // an id the path cannot know, with the root as its own sibling
            p.path = vec![p.header[36..68].to_vec()];
            "root as sibling"
        }
        _ => {
            // the root itself as id with no siblings, or a random id
            p.txid = p.header[36..68].iter().rev().copied().collect();
            p.path.clear();
            "root as id"
        }
    }
}
impl Proof {
    fn args(&self) -> Vec<Value> {
        vec![Value::UInt(self.height), Value::Buff(self.txid.clone()), Value::Buff(self.header.clone()), self.tuple()]
    }
    fn tuple(&self) -> Value {
        Value::tuple([("tx-index", Value::UInt(self.index)), ("hashes", self.hashes())])
    }
    fn hashes(&self) -> Value {
        Value::List(self.path.iter().map(|p| Value::Buff(p.clone())).collect())
    }
}
fn show(p: &Proof) -> String {
    format!("id {} index {} of header {} at {} with {} siblings", hex(&p.txid), p.index, hex(&p.header), p.height, p.path.len())
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---------------------------------------------------------------- C54
fn register(ch: &mut Chain, mini: &Value, who: &Value, debug: bool, height: u128, hash: Vec<u8>, c: &mut Case) -> CaseResult {
    if debug {
        let o = ch.call(mini, "debug-insert-burn-header-hash", &[Value::Buff(hash), Value::UInt(height)], who, who);
        check!(verdict(&o, "debug-insert-burn-header-hash")?, "debug-insert", "recording a header with debug mode on: {o:?}");
    } else {
        ch.burn_headers.insert(height, hash);
    }
    c.count("headers");
    Ok(())
}
fn proof_case(c: &mut Case, sizes: &[usize]) -> CaseResult {
    let debug = c.rng.gen_bool(0.4);
    let who = account(&mut c.rng);
    let mut ch = Chain::new();
    let f = if debug { "contracts/clarity-bitcoin-mini.clar" } else { "contracts/clarity-bitcoin-mini-deploy.clar" };
    ch.deploy(&who, "proofs", text(f)).map_err(|e| harness(format!("deploy: {e}")))?;
    let mini = named(&who, "proofs");
    let mut known = BTreeMap::new();
    let base: u128 = c.rng.gen_range(1..3_000_000);
    let mut blocks = vec![];
    for i in 0..3 {
        let n = if i == 0 { *sizes.choose(&mut c.rng).unwrap() } else { c.rng.gen_range(2..20) };
        let depth = c.rng.gen_range(1..15);
        let b = if i == 2 { deep_block(&mut c.rng, base + 2 * i, depth) } else { block(&mut c.rng, base + 2 * i, n) };
        known.insert(b.height, header_hash(&b.header));
        register(&mut ch, &mini, &who, debug, b.height, header_hash(&b.header), c)?;
        blocks.push(b);
    }
    let intruder = account(&mut c.rng);
    for _ in 0..12 {
        let b = &blocks[*[0, 0, 0, 1, 2].choose(&mut c.rng).unwrap()];
        let i = match c.rng.gen_range(0..4) {
            0 => 0,
            1 => b.leaves.len() - 1,
            _ => c.rng.gen_range(0..b.leaves.len()),
        };
        let mut p = b.proof(i);
        let what = if c.rng.gen_bool(0.35) { "valid" } else { corrupt(&mut c.rng, &mut p, &blocks) };
        let expect = holds(&p, &known);
        if what == "valid" && !expect {
            return Err(harness("oracle refuses a valid proof"));
        }
        let o = ch.call(&mini, "was-txid-mined", &p.args(), &intruder, &intruder);
        let got = verdict(&o, "was-txid-mined")?;
        check!(got == expect, if expect { "valid-refused" } else { "invalid-accepted" }, "{what}: {} -> {o:?} (debug contract: {debug})", show(&p));
        if expect {
            check!(o == Outcome::Returned(Value::ok(Value::Bool(true))), "answer", "valid proof answered {o:?}");
        }
        c.count(if expect { "accepted" } else { "refused" });
        c.nontrivial((p.txid.clone(), p.index, p.header.clone(), p.height, p.path.clone()));
        c.evals(1);
        // a forged block, recorded by an outsider
        if !debug && c.rng.gen_bool(0.2) {
            let h = if c.rng.gen_bool(0.5) { base + 1 } else { base };
            let f = block(&mut c.rng, h, 4);
            let o = ch.call(&mini, "debug-insert-burn-header-hash", &[Value::Buff(header_hash(&f.header)), Value::UInt(h)], &intruder, &intruder);
            if let Outcome::Unsupported(m) = o {
                return Err(harness(m));
            }
            let p = f.proof(1);
            let o = ch.call(&mini, "was-txid-mined", &p.args(), &intruder, &intruder);
            check!(!verdict(&o, "was-txid-mined")?, "forged-header", "a header recorded by {intruder} is accepted: {o:?}");
            c.count("forgeries");
        }
    }
    c.count_n("interpreter_steps", ch.steps);
    c.sample(|| json!({"debug": debug, "block_sizes": blocks.iter().map(|b| b.leaves.len()).collect::<Vec<_>>()}));
    Ok(())
}
fn c54(run: &mut Run) {
    conformance(run);
    run.require("accepted", 2000);
    run.require("refused", 4000);
    run.require("forgeries", 200);
    let small: Vec<usize> = (2..70).collect();
    let n = run.n(4000, 200_000);
    run.stream("small", n, |c| proof_case(c, &small));
    let n = run.n(240, 8000);
    run.stream("large", n, |c| proof_case(c, &[127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 2049, 4096, 8191, 8193, 16383, 16384]));
}

/// the tree's own contract tests calibrate the interpreter
fn conformance(run: &mut Run) {
    run.require("contract_tests", 30);
    run.stream("contract-tests", 1, |c| {
        let dep = clarity_principal("ST1PQHQKV0RJXZFY1DGX8MNSNYVE3VGZJSRTPGZGM");
        let wallet = clarity_principal("ST1SJ3DTE5DN7X54YDH5D64R3BCB6A2AG2ZQ8YPD5");
        for t in ["asset_test", "clarity-bitcoin-mini_test"] {
            let src = text(if t == "asset_test" { "tests/asset_test.clar" } else { "tests/clarity-bitcoin-mini_test.clar" });
            if src.is_empty() {
                continue;
            }
            let (mut caller, mut prepare) = (dep.clone(), "prepare".to_string());
            for l in src.lines() {
                let l = l.trim();
                if let Some(a) = l.strip_prefix(";; @") {
                    match a.split_once(' ').unwrap_or((a, "")) {
                        ("caller", "wallet_1") => caller = wallet.clone(),
                        ("caller", _) => caller = dep.clone(),
                        ("prepare", p) => prepare = p.trim().to_string(),
                        ("no-prepare", _) => prepare.clear(),
                        _ => {}
                    }
                }
                let Some(f) = l.strip_prefix("(define-public (test-") else { continue };
                let f = format!("test-{}", f.split(|x| x == ')' || x == ' ').next().unwrap());
                let mut ch = deployed(&dep, true)?;
                ch.deploy(&dep, t, src).map_err(|e| harness(format!("deploy {t}: {e}")))?;
                let me = named(&dep, t);
                if t == "asset_test" {
                    let o = ch.call(&named(&dep, "asset"), "set-contract-owner", &[me.clone()], &dep, &dep);
                    check!(verdict(&o, "set-contract-owner")?, "owner", "deployer cannot pass ownership: {o:?}");
                }
                if !prepare.is_empty() {
                    let o = ch.call(&me, &prepare, &[], &dep, &dep);
                    check!(verdict(&o, &prepare)?, "contract-test", "{t}.{prepare}: {o:?}");
                }
                let o = ch.call(&me, &f, &[], &caller, &caller);
                check!(verdict(&o, &f)?, "contract-test", "{t}.{f}: {o:?}");
                c.count("contract_tests");
                c.nontrivial(&f);
                caller = dep.clone();
                prepare = "prepare".into();
            }
        }
        Ok(())
    });
}
fn clarity_principal(s: &str) -> Value {
    let e = clarity::parse(&format!("'{s}")).expect("principal");
    match &*e[0] {
        clarity::Node::Lit(v) => v.clone(),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- C50-C53
struct Finding {
    prop: &'static str,
    sig: String,
    msg: String,
}
struct Ledger {
    owner: Value,
    key: Option<Vec<u8>>,
    bal: BTreeMap<Value, u128>,
    supply: u128,
    used: BTreeMap<Vec<u8>, i128>,
}
struct Bench<'a> {
    c: &'a mut Case,
    ch: Chain,
    asset: Value,
    l: Ledger,
    people: Vec<Value>,
    blocks: Vec<Block>,
    known: BTreeMap<u128, Vec<u8>>,
    seen_ids: BTreeSet<Vec<u8>>,
    uri: Option<Value>,
    out: Vec<Finding>,
    trace: Vec<String>,
}
impl<'a> Bench<'a> {
    fn new(c: &'a mut Case) -> Result<Bench<'a>, Stop> {
        let debug = c.rng.gen_bool(0.3);
        let dep = account(&mut c.rng);
        let mut ch = deployed(&dep, debug)?;
        let mut people: Vec<Value> = (0..4).map(|_| account(&mut c.rng)).collect();
        people.push(dep.clone());
        people.push(named(&people[0], "vault"));
        people.push(named(&dep, "asset"));
        people.push(named(&dep, "router"));
        let mini = named(&dep, "clarity-bitcoin-mini");
        let mut known = BTreeMap::new();
        let mut blocks = vec![];
        let base = c.rng.gen_range(1..3_000_000u128);
        for i in 0..4 {
            let n = c.rng.gen_range(2..30);
            let depth = *[5, 8, 11, 12, 13, 14].choose(&mut c.rng).unwrap();
            let b = if i == 3 { deep_block(&mut c.rng, base + 2 * i, depth) } else { block(&mut c.rng, base + 2 * i, n) };
            known.insert(b.height, header_hash(&b.header));
            register(&mut ch, &mini, &people[1], debug, b.height, header_hash(&b.header), c)?;
            blocks.push(b);
        }
        let l = Ledger { owner: dep.clone(), key: None, bal: BTreeMap::new(), supply: 0, used: BTreeMap::new() };
        Ok(Bench { c, ch, asset: named(&dep, "asset"), l, people, blocks, known, seen_ids: BTreeSet::new(), uri: None, out: vec![], trace: vec![] })
    }
    fn bad(&mut self, prop: &'static str, sig: &str, msg: String) {
        self.trace.push(format!("!! {prop} {msg}"));
        self.out.push(Finding { prop, sig: sig.into(), msg });
    }
    fn person(&mut self) -> Value {
        self.people.choose(&mut self.c.rng).unwrap().clone()
    }
    /// originator and immediate caller
    fn callers(&mut self, want: &Value) -> (Value, Value) {
        let r = &mut self.c.rng;
        match r.gen_range(0..10) {
            // called directly
            0..=5 => (want.clone(), want.clone()),
            // through a contract: only the originator is `want`
            6 => (want.clone(), self.people[5..].choose(r).unwrap().clone()),
            // the immediate caller is `want`, someone else originated
            7 => (self.people[..5].choose(r).unwrap().clone(), want.clone()),
            _ => {
                let p = self.people.choose(r).unwrap().clone();
                (p.clone(), p)
            }
        }
    }
    fn amount(&mut self, holder: &Value) -> u128 {
        let b = self.l.bal.get(holder).copied().unwrap_or(0);
        let s = self.l.supply;
        let r = &mut self.c.rng;
        match r.gen_range(0..13) {
            0 => 0,
            1 => 1,
            2 => b,
            3 => b + 1,
            4 => b.saturating_sub(1),
            5 => CAP - s,
            6 => CAP - s + 1,
            7 => *[i128::MAX as u128, i128::MAX as u128 + 1, u128::MAX, u128::MAX - 1, u64::MAX as u128, CAP].choose(r).unwrap(),
            8 => r.gen_range(0..=b.max(1)),
            9 => r.gen_range(1..1000),
            _ => r.gen_range(1..1_000_000_000),
        }
    }
    fn query(&mut self, f: &str, args: &[Value]) -> Result<Value, Stop> {
        let p = self.person();
        let o = self.ch.call(&self.asset, f, args, &p, &p);
        returned(o, f)
    }
    /// everything a user can read, against the ledger
    fn compare(&mut self, after: &str, transfer: bool, id: Option<&[u8]>) -> CaseResult {
        let money = if transfer { "C53" } else { "C50" };
        let s = self.query("get-total-supply", &[])?;
        if s != Value::ok(Value::UInt(self.l.supply)) {
            self.bad("C50", "supply", format!("after {after}: supply {s}, mints less burns are {}", self.l.supply));
        }
        let mut sum = 0u128;
        for p in self.people.clone() {
            let b = self.query("get-balance", &[p.clone()])?;
            let e = self.l.bal.get(&p).copied().unwrap_or(0);
            if b != Value::ok(Value::UInt(e)) {
                let m = format!("after {after}: balance of {p} is {b}, expected {e}");
                self.bad(money, "balance", m.clone());
                if transfer {
                    self.bad("C50", "balance", m);
                }
            }
            if let Value::Response(true, v) = b {
                if let Value::UInt(n) = *v {
                    sum = sum.wrapping_add(n);
                }
            }
        }
        if s != Value::ok(Value::UInt(sum)) {
            self.bad("C50", "sum", format!("after {after}: supply {s}, balances add up to {sum}"));
        }
        let o = self.query("get-contract-owner", &[])?;
        if o != self.l.owner {
            self.bad("C51", "owner", format!("after {after}: owner is {o}, expected {}", self.l.owner));
        }
        let k = self.query("get-bitcoin-wallet-public-key", &[])?;
        let e = self.l.key.clone().map_or(Value::none(), |k| Value::some(Value::Buff(k)));
        if k != e {
            self.bad("C51", "public-key", format!("after {after}: public key is {k}, expected {e}"));
        }
        let mut ids: Vec<Vec<u8>> = id.iter().map(|i| i.to_vec()).collect();
        if let Some(i) = self.seen_ids.iter().nth(self.c.rng.gen_range(0..self.seen_ids.len().max(1))) {
            ids.push(i.clone());
        }
        for i in ids {
            let a = self.query("get-amount-by-btc-txid", &[Value::Buff(i.clone())])?;
            let e = self.l.used.get(&i).map_or(Value::none(), |n| Value::some(Value::Int(*n)));
            if a != e {
                self.bad("C52", "record", format!("after {after}: amount recorded for {} is {a}, expected {e}", hex(&i)));
            }
        }
        Ok(())
    }
    fn step(&mut self) -> CaseResult {
        let k = self.c.rng.gen_range(0..100);
        if k % 10 == 0 {
            self.identity("some calls")?;
        }
        if k < 35 {
            self.mint_or_burn(true)
        } else if k < 55 {
            self.mint_or_burn(false)
        } else if k < 90 {
            self.transfer()
        } else {
            self.configure()
        }
    }
    /// what a call answered and printed
    fn reported(&mut self, o: &Outcome, ok: bool, told: Vec<Value>, after: &str) {
        let printed = std::mem::take(&mut self.ch.printed);
        let expect = if ok { told } else { vec![] };
        if ok && *o != Outcome::Returned(Value::ok(Value::Bool(true))) {
            self.bad("C55", "answer", format!("{after} answered {o:?}"));
        }
        if printed != expect {
            let l = |v: &[Value]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
            self.bad("C55", "events", format!("{after} ({}) printed [{}], expected [{}]", if ok { "accepted" } else { "refused" }, l(&printed), l(&expect)));
        }
        self.c.count_n("events", expect.len() as u64);
        self.c.count(if ok { "accepted_calls" } else { "refused_calls" });
    }
    /// what the token says about itself never changes
    fn identity(&mut self, after: &str) -> CaseResult {
        let text = |s: &str| Value::ok(Value::Ascii(s.to_string()));
        for (f, e) in [("get-name", text("sBTC")), ("get-symbol", text("sBTC")), ("get-decimals", Value::ok(Value::UInt(8)))] {
            let got = self.query(f, &[])?;
            if got != e {
                self.bad("C55", "identity", format!("after {after}: {f} answers {got}, expected {e}"));
            }
        }
        let got = self.query("get-token-uri", &[])?;
        if self.uri.get_or_insert_with(|| got.clone()) != &got {
            self.bad("C55", "identity", format!("after {after}: get-token-uri changed to {got}"));
        }
        let fine = matches!(&got, Value::Response(true, v) if match &**v {
            Value::Optional(None) => true,
            Value::Optional(Some(u)) => matches!(&**u, Value::Utf8(u) if u.is_ascii() && u.len() <= 256 && u.contains("://")),
            _ => false,
        });
        if !fine {
            self.bad("C55", "identity", format!("after {after}: get-token-uri answers {got}"));
        }
        if !self.ch.printed.is_empty() {
            self.bad("C55", "events", format!("after {after}: queries printed"));
            self.ch.printed.clear();
        }
        self.c.count("identity_queries");
        Ok(())
    }
    fn mint_or_burn(&mut self, mint: bool) -> CaseResult {
        let owner = self.l.owner.clone();
        let (sender, caller) = self.callers(&owner);
        let whose = self.person();
        let mut amount = self.amount(&whose);
        if self.c.rng.gen_bool(0.4) {
            amount = if mint { self.c.rng.gen_range(1..50_000_000) } else { amount.min(self.l.bal.get(&whose).copied().unwrap_or(0)) };
        }
        let b = self.blocks.choose(&mut self.c.rng).unwrap().clone();
        let i = self.c.rng.gen_range(0..b.leaves.len());
        let mut p = b.proof(i);
        let mut what = "valid proof";
        if self.c.rng.gen_bool(0.2) {
            what = corrupt(&mut self.c.rng, &mut p, &self.blocks.clone());
        }
        if p.txid.len() != 32 {
            return Ok(());
        }
        let proven = holds(&p, &self.known);
        let used = self.l.used.contains_key(&p.txid);
        let allowed = caller == owner;
        let funds = if mint { amount > 0 && amount <= i128::MAX as u128 && self.l.supply.checked_add(amount).map_or(false, |s| s <= CAP) } else { amount > 0 && amount <= self.l.bal.get(&whose).copied().unwrap_or(0) };
        let f = if mint { "mint" } else { "burn" };
        let after = format!("{f} {amount} of {whose} for {} ({what}) originated by {sender}, called by {caller}", hex(&p.txid));
        let o = self.ch.call(&self.asset, f, &[Value::UInt(amount), whose.clone(), Value::Buff(p.txid.clone()), Value::UInt(p.height), p.hashes(), Value::UInt(p.index), Value::Buff(p.header.clone())], &sender, &caller);
        let got = verdict(&o, f)?;
        self.trace.push(format!("{after} -> {got}"));
        self.seen_ids.insert(p.txid.clone());
        let note = Value::tuple([("notification", Value::Ascii(f.to_string())), ("payload", Value::Buff(p.txid.clone()))]);
        self.reported(&o, got, vec![note], &after);
        if self.c.rng.gen_bool(0.2) {
            let any = self.person();
            let o = self.ch.call(&self.asset, "verify-txid-exists-on-burn-chain", &[Value::Buff(p.txid.clone()), Value::UInt(p.height), p.hashes(), Value::UInt(p.index), Value::Buff(p.header.clone())], &any, &any);
            let says = verdict(&o, "verify-txid-exists-on-burn-chain")?;
            if says != proven {
                self.bad("C52", "proof-query", format!("verify-txid-exists-on-burn-chain answers {o:?} for {what}: {}", show(&p)));
            }
            self.c.count("proof_queries");
        }
        if got {
            if !allowed {
                self.bad("C51", "not-owner", format!("accepted although {owner} owns the contract: {after}"));
            }
            if !proven {
                self.bad("C52", "unproven", format!("accepted without a valid proof: {after}; {}", show(&p)));
            }
            if used {
                self.bad("C52", "reused", format!("accepted although the Bitcoin transaction was used: {after}"));
            }
            if !funds {
                self.bad("C50", "funds", format!("accepted with supply {} and balance {:?}: {after}", self.l.supply, self.l.bal.get(&whose)));
            }
        } else if allowed && proven && !used && funds {
            let m = format!("refused: {after}: {o:?}");
            for p in ["C50", "C51", "C52"] {
                self.bad(p, "refused", m.clone());
            }
        }
        if allowed && proven && !used && funds {
            let e = self.l.bal.entry(whose).or_default();
            if mint {
                *e += amount;
                self.l.supply += amount;
                self.l.used.insert(p.txid.clone(), amount as i128);
            } else {
                *e -= amount;
                self.l.supply -= amount;
                self.l.used.insert(p.txid.clone(), -(amount as i128));
            }
            self.c.count(if mint { "minted" } else { "burned" });
        } else {
            self.c.count(if !allowed {
                "refused_not_owner"
            } else if !proven {
                "refused_unproven"
            } else if used {
                "refused_reused"
            } else {
                "refused_amount"
            });
        }
        self.compare(&after, false, Some(&p.txid))
    }
    fn transfer(&mut self) -> CaseResult {
        let from = if self.c.rng.gen_bool(0.7) {
            let rich: Vec<Value> = self.l.bal.iter().filter(|(_, n)| **n > 0).map(|(p, _)| p.clone()).collect();
            match rich.choose(&mut self.c.rng) {
                Some(p) => p.clone(),
                None => self.person(),
            }
        } else {
            self.person()
        };
        let to = if self.c.rng.gen_bool(0.1) { from.clone() } else { self.person() };
        let (sender, caller) = self.callers(&from);
        let amount = self.amount(&from);
        let memo = match self.c.rng.gen_range(0..4) {
            0 => Value::some(Value::Buff(vec![])),
            1 => {
                let mut m = vec![0; self.c.rng.gen_range(1..35)];
                self.c.rng.fill_bytes(&mut m);
                Value::some(Value::Buff(m))
            }
            _ => Value::none(),
        };
        let after = format!("transfer {amount} from {from} to {to} memo {memo} originated by {sender}, called by {caller}");
        let told: Vec<Value> = match &memo {
            Value::Optional(Some(m)) => vec![(**m).clone()],
            _ => vec![],
        };
        let o = self.ch.call(&self.asset, "transfer", &[Value::UInt(amount), from.clone(), to.clone(), memo], &sender, &caller);
        let got = verdict(&o, "transfer")?;
        self.reported(&o, got, told, &after);
        self.trace.push(format!("{after} -> {got}"));
        let consent = sender == from || caller == from;
        let funds = amount > 0 && amount <= self.l.bal.get(&from).copied().unwrap_or(0) && from != to;
        if got && !consent {
            self.bad("C53", "consent", format!("accepted: {after}"));
        }
        if got && !funds {
            for p in ["C53", "C50"] {
                self.bad(p, "funds", format!("accepted with balance {:?}: {after}", self.l.bal.get(&from)));
            }
        }
        if !got && consent && funds {
            self.bad("C53", "refused", format!("refused with balance {:?}: {after}: {o:?}", self.l.bal.get(&from)));
        }
        if consent && funds {
            *self.l.bal.get_mut(&from).unwrap() -= amount;
            *self.l.bal.entry(to).or_default() += amount;
            self.c.count("transferred");
        } else {
            self.c.count(if consent { "refused_transfer_amount" } else { "refused_no_consent" });
        }
        self.compare(&after, true, None)
    }
    fn configure(&mut self) -> CaseResult {
        let owner = self.l.owner.clone();
        let (sender, caller) = self.callers(&owner);
        let allowed = caller == owner;
        let (after, o, next): (String, Outcome, Result<Value, Vec<u8>>);
        if self.c.rng.gen_bool(0.5) {
            let new = self.person();
            after = format!("set-contract-owner {new} originated by {sender}, called by {caller}");
            o = self.ch.call(&self.asset, "set-contract-owner", &[new.clone()], &sender, &caller);
            next = Ok(new);
        } else {
            let mut k = vec![0; *[0, 1, 32, 33].choose(&mut self.c.rng).unwrap()];
            self.c.rng.fill_bytes(&mut k);
            after = format!("set-bitcoin-wallet-public-key {} originated by {sender}, called by {caller}", hex(&k));
            o = self.ch.call(&self.asset, "set-bitcoin-wallet-public-key", &[Value::Buff(k.clone())], &sender, &caller);
            next = Err(k);
        }
        let got = verdict(&o, &after)?;
        self.trace.push(format!("{after} -> {got}"));
        self.reported(&o, got, vec![], &after);
        if got != allowed {
            self.bad("C51", if got { "not-owner" } else { "owner-refused" }, format!("owner is {owner}: {after} -> {o:?}"));
        }
        if allowed {
            match next {
                Ok(n) => self.l.owner = n,
                Err(k) => self.l.key = Some(k),
            }
            self.c.count("reconfigured");
        } else {
            self.c.count("refused_configuration");
        }
        self.compare(&after, false, None)
    }
}
fn history(c: &mut Case, prop: &str) -> CaseResult {
    let n = *[10, 40, 120].choose(&mut c.rng).unwrap();
    let (out, trace, steps);
    {
        let mut b = Bench::new(c)?;
        for _ in 0..n {
            b.step()?;
            if !b.out.is_empty() {
                break;
            }
        }
        steps = b.ch.steps;
        out = std::mem::take(&mut b.out);
        trace = std::mem::take(&mut b.trace);
    }
    c.count_n("calls", trace.len() as u64);
    c.count_n("interpreter_steps", steps);
    c.nontrivial(trace.join("\n"));
    c.sample(|| json!(trace.iter().take(12).collect::<Vec<_>>()));
    if let Some(f) = out.into_iter().find(|f| f.prop == prop) {
        let k = trace.len().saturating_sub(25);
        c.detail = Some(json!(trace[k..].to_vec()));
        return Err(viol(f.sig, f.msg));
    }
    Ok(())
}
fn ledger(run: &mut Run, prop: &'static str, need: &[(&str, u64)]) {
    conformance(run);
    for (k, n) in need {
        run.require(k, *n);
    }
    run.assume("the Clarity interpreter in harness/clarity (calibrated on the tree's own contract tests) evaluates the contracts as a node does");
    let n = run.n(5000, 180_000);
    run.stream("call-histories", n, |c| history(c, prop));
}
fn c50(run: &mut Run) {
    ledger(run, "C50", &[("minted", 3000), ("burned", 500), ("transferred", 1000), ("refused_amount", 300), ("refused_transfer_amount", 300)])
}
fn c51(run: &mut Run) {
    ledger(run, "C51", &[("refused_not_owner", 2000), ("refused_configuration", 300), ("reconfigured", 300)])
}
fn c52(run: &mut Run) {
    ledger(run, "C52", &[("minted", 3000), ("burned", 500), ("refused_unproven", 1000), ("refused_reused", 1000), ("proof_queries", 1000)])
}
fn c53(run: &mut Run) {
    ledger(run, "C53", &[("transferred", 1000), ("refused_no_consent", 1000), ("refused_transfer_amount", 300)])
}

fn c55(run: &mut Run) {
    ledger(run, "C55", &[("events", 2000), ("accepted_calls", 3000), ("refused_calls", 3000), ("identity_queries", 1000)])
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let rule = "random call histories on the interpreted contracts; non-trivial = distinct call sequences (C54: distinct proofs)";
    let f: fn(&mut Run) = match id.as_str() {
        "C50" => c50,
        "C51" => c51,
        "C52" => c52,
        "C53" => c53,
        "C54" => c54,
        "C55" => c55,
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(4);
        }
    };
    let mut run = Run::from_env(&id, "exploration", rule);
    f(&mut run);
    std::process::exit(run.finish());
}
