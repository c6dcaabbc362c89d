//! Random truthful histories of the bridge's state machine, with monitors on
//! every task it emits. A history interleaves block arrival, execution of
//! tasks at the nodes, delivery of their results, and restarts.
use std::collections::{BTreeMap, HashMap};

use bdk::bitcoin::{hashes::Hash, Block, BlockHash, Txid as BtcTxid};
use blockstack_lib::{burnchains::Txid as StxTxid, codec::StacksMessageCodec};
use mon::{
    guard,
    rand::{rngs::StdRng, Rng},
    Case,
};
use romeo::{
    config::Config,
    event::{Event, TransactionStatus as St},
    state::State,
    task::Task,
};

use crate::world::{self, Item};

pub struct Opts {
    pub crashes: u32,
    pub max_ops: usize,
    pub steps: usize,
    pub reject: f64,
    pub broadcast_fail: f64,
    pub key_reject: f64,
    /// deliver results in the order tasks were started
    pub fifo: bool,
}

#[derive(Debug)]
pub struct Finding {
    pub prop: &'static str,
    pub sig: String,
    pub msg: String,
}

#[derive(Default, Debug, Clone)]
struct Attempt {
    executed: bool,
    failed: bool,
    stx: Option<StxTxid>,
    btc: Option<BtcTxid>,
    /// the bridge has been told about the broadcast
    acked: bool,
    reported: Option<St>,
    lost_unexecuted: bool,
    lost_unacked: bool,
}
#[derive(Default, Debug, Clone)]
struct Progress {
    mint: Vec<Attempt>,
    burn: Vec<Attempt>,
    pay: Vec<Attempt>,
    processed: bool,
    /// the newest Stacks block processed when the item's Bitcoin block was
    stx_then: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Pending,
    Confirmed,
    Rejected,
}

enum Pending {
    Todo(Task),
    Done(Event),
}

pub struct Sim<'a> {
    c: &'a mut Case,
    cfg: Config,
    o: Opts,
    state: State,
    pub log: Vec<String>,
    tasks: Vec<Pending>,
    s0: u32,
    b0: u32,
    stx_tip: u32,
    blocks: Vec<(Block, Vec<Item>)>,
    stx: HashMap<StxTxid, Fate>,
    btc: HashMap<BtcTxid, Fate>,
    truth: HashMap<BtcTxid, Item>,
    prog: BTreeMap<BtcTxid, Progress>,
    next_stx_fetch: Option<u32>,
    next_btc_fetch: Option<u32>,
    done_stx: u32,
    done_btc: u32,
    key_tx: Vec<StxTxid>,
    key_confirmed: bool,
    heights_known: bool,
    quiet: bool,
    pub out: Vec<Finding>,
    pub trace: Vec<String>,
    dead: bool,
    status_seen: HashMap<String, u32>,
}

fn kind(e: &Event) -> &'static str {
    match e {
        Event::ContractBlockHeight(..) => "contract_height",
        Event::ContractPublicKeySetBroadcasted(_) => "key_set",
        Event::MintBroadcasted(..) => "mint_broadcast",
        Event::BurnBroadcasted(..) => "burn_broadcast",
        Event::FulfillBroadcasted(..) => "fulfill_broadcast",
        Event::StacksTransactionUpdate(_, St::Confirmed) => "stacks_confirmed",
        Event::StacksTransactionUpdate(_, St::Rejected) => "stacks_rejected",
        Event::StacksTransactionUpdate(..) => "stacks_pending",
        Event::BitcoinTransactionUpdate(_, St::Confirmed) => "bitcoin_confirmed",
        Event::BitcoinTransactionUpdate(_, St::Rejected) => "bitcoin_rejected",
        Event::BitcoinTransactionUpdate(..) => "bitcoin_pending",
        Event::StacksBlock(..) => "stacks_block",
        Event::BitcoinBlock(..) => "bitcoin_block",
    }
}

impl<'a> Sim<'a> {
    pub fn new(c: &'a mut Case, cfg: Config, o: Opts) -> Sim<'a> {
        let s0 = c.rng.gen_range(1..5000);
        // heights around the places where the coinbase height encoding changes
        let b0 = match c.rng.gen_range(0..4) {
            0 => c.rng.gen_range(16..140),
            1 => c.rng.gen_range(250..300),
            2 => c.rng.gen_range(32_700..32_800),
            _ => c.rng.gen_range(17..900_000),
        };
        Sim {
            c,
            cfg,
            o,
            state: State::new(),
            log: vec![],
            tasks: vec![],
            s0,
            b0,
            stx_tip: s0,
            blocks: vec![],
            stx: HashMap::new(),
            btc: HashMap::new(),
            truth: HashMap::new(),
            prog: BTreeMap::new(),
            next_stx_fetch: None,
            next_btc_fetch: None,
            done_stx: s0,
            done_btc: b0,
            key_tx: vec![],
            key_confirmed: false,
            heights_known: false,
            quiet: false,
            out: vec![],
            trace: vec![],
            dead: false,
            status_seen: HashMap::new(),
        }
    }
    fn bad(&mut self, prop: &'static str, sig: &str, msg: String) {
        self.trace.push(format!("!! {prop} {sig}: {msg}"));
        self.out.push(Finding { prop, sig: sig.into(), msg });
    }
    fn rng(&mut self) -> &mut StdRng {
        &mut self.c.rng
    }

    /// a transaction id no other transaction has
    fn fresh_stx(&mut self) -> StxTxid {
        StxTxid(self.rng().gen())
    }

    // ---- the chains ----
    fn mine_btc(&mut self, ops: usize) {
        let h = self.b0 + self.blocks.len() as u32 + 1;
        let prev = self.blocks.last().map(|b| b.0.block_hash()).unwrap_or_else(BlockHash::all_zeros);
        let cfg = self.cfg.clone();
        let (b, items) = world::make_block(&mut self.c.rng, &cfg, prev, h, ops, vec![]);
        for i in &items {
            self.truth.insert(i.txid, i.clone());
        }
        self.blocks.push((b, items));
        let all = self.quiet;
        let reject = if self.cfg.strict { 0.0 } else { self.o.reject };
        let ids: Vec<_> = self.btc.iter().filter(|(_, f)| **f == Fate::Pending).map(|(i, _)| *i).collect();
        let mut ids = ids;
        ids.sort();
        for i in ids {
            let x: f64 = self.rng().gen();
            let f = if all || x < 0.5 {
                Fate::Confirmed
            } else if x > 1.0 - reject {
                Fate::Rejected
            } else {
                continue;
            };
            self.btc.insert(i, f);
        }
        self.trace.push(format!("btc block {h} with {} operations", self.blocks.last().unwrap().1.len()));
    }
    fn mine_stx(&mut self) {
        self.stx_tip += 1;
        let mut ids: Vec<_> = self.stx.iter().filter(|(_, f)| **f == Fate::Pending).map(|(i, _)| *i).collect();
        ids.sort();
        for i in ids {
            let x: f64 = self.rng().gen();
            let reject = if self.key_tx.contains(&i) { self.o.key_reject } else { self.o.reject };
            let f = if self.quiet || x < 0.6 {
                Fate::Confirmed
            } else if x > 1.0 - reject {
                Fate::Rejected
            } else {
                continue;
            };
            self.stx.insert(i, f);
        }
        self.trace.push(format!("stx block {}", self.stx_tip));
    }

    // ---- executing a task at the nodes ----
    fn enabled(&self, t: &Task) -> bool {
        match t {
            Task::FetchStacksBlock(h) => *h <= self.stx_tip,
            Task::FetchBitcoinBlock(h) => *h <= self.b0 + self.blocks.len() as u32,
            _ => true,
        }
    }
    fn execute(&mut self, t: Task) -> Event {
        self.trace.push(format!("exec {}", short(&t)));
        match t {
            Task::GetContractBlockHeight => Event::ContractBlockHeight(self.s0, self.b0),
            Task::UpdateContractPublicKey => {
                let id = self.fresh_stx();
                self.stx.insert(id, Fate::Pending);
                self.key_tx.push(id);
                Event::ContractPublicKeySetBroadcasted(id)
            }
            Task::CreateMint(i) => {
                let id = self.broadcast(&i.txid, 0);
                Event::MintBroadcasted(i, id)
            }
            Task::CreateBurn(i) => {
                let id = self.broadcast(&i.txid, 1);
                Event::BurnBroadcasted(i, id)
            }
            Task::CreateFulfillment(i) => {
                let id = BtcTxid::from_inner(self.rng().gen());
                self.btc.insert(id, Fate::Pending);
                if let Some(a) = self.prog.get_mut(&i.txid).and_then(|p| p.pay.last_mut()) {
                    a.executed = true;
                    a.btc = Some(id);
                }
                Event::FulfillBroadcasted(i, id)
            }
            Task::CheckBitcoinTransactionStatus(id) => {
                let s = match self.btc.get(&id) {
                    Some(Fate::Pending) => St::Broadcasted,
                    Some(Fate::Confirmed) => St::Confirmed,
                    _ => St::Rejected,
                };
                Event::BitcoinTransactionUpdate(id, s)
            }
            Task::CheckStacksTransactionStatus(id) => {
                let s = match self.stx.get(&id) {
                    // unknown to the node: reported as pending
                    Some(Fate::Pending) | None => St::Broadcasted,
                    Some(Fate::Confirmed) => St::Confirmed,
                    Some(Fate::Rejected) => St::Rejected,
                };
                Event::StacksTransactionUpdate(id, s)
            }
            Task::FetchStacksBlock(h) => Event::StacksBlock(h, vec![]),
            Task::FetchBitcoinBlock(h) => {
                let b = self.blocks[(h - self.b0 - 1) as usize].0.clone();
                Event::BitcoinBlock(h, b)
            }
        }
    }
    fn broadcast(&mut self, item: &BtcTxid, which: u8) -> StxTxid {
        let p = self.o.broadcast_fail;
        let fail = !self.cfg.strict && self.rng().gen_bool(p);
        // what the bridge reports when it could not broadcast
        let id = if fail { StxTxid([0; 32]) } else { self.fresh_stx() };
        if !fail {
            self.stx.insert(id, Fate::Pending);
        }
        if let Some(p) = self.prog.get_mut(item) {
            let l = if which == 0 { &mut p.mint } else { &mut p.burn };
            if let Some(a) = l.last_mut() {
                a.executed = true;
                a.failed = fail;
                a.stx = (!fail).then_some(id);
            }
        }
        if fail {
            self.c.count("broadcast_failed");
        }
        id
    }

    // ---- delivering a result ----
    fn deliver(&mut self, e: Event) {
        self.c.count(kind(&e));
        self.trace.push(format!("event {:?}", short_event(&e)));
        let line = serde_json::to_string(&e).expect("event serializes");
        self.log.push(line);
        self.observe(&e);
        let (st, cfg) = (&mut self.state, &self.cfg);
        let tasks = match guard(|| st.update(e, cfg)) {
            Ok(t) => t,
            Err(m) => {
                self.dead = true;
                let what = m.split(": ").nth(1).unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>();
                self.bad("C34", &format!("abort:{}", what.trim()), format!("the bridge {m} (strict: {})", self.cfg.strict));
                return;
            }
        };
        self.accept(tasks);
    }
    fn observe(&mut self, e: &Event) {
        match e {
            Event::ContractBlockHeight(..) => self.heights_known = true,
            Event::StacksBlock(h, _) => self.done_stx = *h,
            Event::BitcoinBlock(h, b) => {
                self.done_btc = *h;
                let ids: Vec<_> = b.txdata.iter().map(|t| t.txid()).collect();
                for i in ids {
                    if self.truth.contains_key(&i) {
                        let now = self.done_stx;
                        let p = self.prog.entry(i).or_default();
                        if !p.processed {
                            p.stx_then = now;
                        }
                        p.processed = true;
                    }
                }
            }
            Event::MintBroadcasted(i, _) => {
                if let Some(a) = self.prog.get_mut(&i.txid).and_then(|p| p.mint.last_mut()) {
                    a.acked = true;
                    if a.failed {
                        a.reported = Some(St::Rejected);
                    }
                }
            }
            Event::BurnBroadcasted(i, _) => {
                if let Some(a) = self.prog.get_mut(&i.txid).and_then(|p| p.burn.last_mut()) {
                    a.acked = true;
                    if a.failed {
                        a.reported = Some(St::Rejected);
                    }
                }
            }
            Event::FulfillBroadcasted(i, _) => {
                if let Some(a) = self.prog.get_mut(&i.txid).and_then(|p| p.pay.last_mut()) {
                    a.acked = true;
                }
            }
            Event::StacksTransactionUpdate(id, s) => {
                if self.key_tx.contains(id) && *s == St::Confirmed {
                    self.key_confirmed = true;
                }
                for p in self.prog.values_mut() {
                    for a in p.mint.iter_mut().chain(p.burn.iter_mut()) {
                        if a.stx == Some(*id) {
                            a.reported = Some(s.clone());
                        }
                    }
                }
            }
            Event::BitcoinTransactionUpdate(id, s) => {
                for p in self.prog.values_mut() {
                    for a in p.pay.iter_mut() {
                        if a.btc == Some(*id) {
                            a.reported = Some(s.clone());
                        }
                    }
                }
            }
            _ => {}
        }
    }

    // ---- monitors on emitted tasks ----
    fn accept(&mut self, tasks: Vec<Task>) {
        for t in tasks {
            self.c.count("tasks");
            self.trace.push(format!("  -> {}", short(&t)));
            self.judge(&t);
            self.tasks.push(Pending::Todo(t));
        }
    }
    fn again_ok(v: &[Attempt]) -> bool {
        match v.last() {
            None => true,
            Some(a) => a.reported == Some(St::Rejected) || a.lost_unexecuted,
        }
    }
    fn judge(&mut self, t: &Task) {
        match t {
            Task::CreateMint(i) => {
                self.c.count("mint_tasks");
                let Some(x) = self.truth.get(&i.txid).cloned().filter(|x| x.is_deposit()) else {
                    return self.bad("C30", "mint-for-nothing", format!("mint for {} which is no deposit to the bridge's wallet", i.txid));
                };
                let who = i.recipient.serialize_to_vec();
                if i.amount != x.amount || who != x.principal || i.block_height != x.height {
                    self.bad("C30", "mint-content", format!("mint for {}: {} to {} at height {}, but the deposit is {} to {} at height {}", i.txid, i.amount, hex::encode(&who), i.block_height, x.amount, hex::encode(&x.principal), x.height));
                }
                let p = self.prog.entry(i.txid).or_default();
                let (fresh, ok, n, last) = (p.processed, Self::again_ok(&p.mint), p.mint.len(), p.mint.last().cloned());
                let rushed = p.processed && self.done_stx <= p.stx_then;
                if rushed {
                    self.bad("C30", "mint-rushed", format!("mint for {} requested before any Stacks block followed its Bitcoin block", i.txid));
                }
                if n > 0 {
                    self.c.count("mint_retries");
                }
                if !fresh {
                    self.bad("C30", "mint-early", format!("mint for {} before its block was processed", i.txid));
                }
                if !ok {
                    let prop = if last.as_ref().map_or(false, |l| l.lost_unacked) { "C32" } else { "C30" };
                    self.bad(prop, "mint-twice", format!("mint for {} requested again (attempt {}), previous attempt {:?}", i.txid, n + 1, last));
                }
                self.prog.get_mut(&i.txid).unwrap().mint.push(Attempt::default());
            }
            Task::CreateBurn(i) => {
                self.c.count("burn_tasks");
                self.same_withdrawal("burn", i);
                let p = self.prog.entry(i.txid).or_default();
                let (fresh, ok, n, last) = (p.processed, Self::again_ok(&p.burn), p.burn.len(), p.burn.last().cloned());
                let rushed = p.processed && self.done_stx <= p.stx_then;
                if rushed {
                    self.bad("C31", "burn-rushed", format!("burn for {} requested before any Stacks block followed its Bitcoin block", i.txid));
                }
                if !fresh {
                    self.bad("C31", "burn-early", format!("burn for {} before its block was processed", i.txid));
                }
                if !ok {
                    let prop = if last.as_ref().map_or(false, |l| l.lost_unacked) { "C32" } else { "C31" };
                    self.bad(prop, "burn-twice", format!("burn for {} requested again (attempt {}), previous attempt {:?}", i.txid, n + 1, last));
                }
                self.prog.get_mut(&i.txid).unwrap().burn.push(Attempt::default());
            }
            Task::CreateFulfillment(i) => {
                self.c.count("fulfill_tasks");
                self.same_withdrawal("fulfillment", i);
                let p = self.prog.entry(i.txid).or_default();
                let burned = p.burn.iter().any(|a| a.reported == Some(St::Confirmed));
                let (ok, n, last) = (Self::again_ok(&p.pay), p.pay.len(), p.pay.last().cloned());
                let burns = format!("{:?}", p.burn);
                if !burned {
                    self.bad("C31", "pay-before-burn", format!("fulfillment of {} although no burn was confirmed: {burns}", i.txid));
                }
                if !ok {
                    let prop = if last.as_ref().map_or(false, |l| l.lost_unacked) { "C32" } else { "C31" };
                    self.bad(prop, "pay-twice", format!("fulfillment of {} requested again (attempt {}), previous attempt {:?}", i.txid, n + 1, last));
                }
                self.prog.get_mut(&i.txid).unwrap().pay.push(Attempt::default());
            }
            Task::FetchStacksBlock(h) => {
                let want = self.next_stx_fetch.unwrap_or(self.done_stx + 1);
                if *h != want {
                    self.bad("C38", "stacks-height", format!("Stacks block {h} requested, {want} is next"));
                }
                self.next_stx_fetch = Some(h + 1);
            }
            Task::FetchBitcoinBlock(h) => {
                let want = self.next_btc_fetch.unwrap_or(self.done_btc + 1);
                if *h != want {
                    self.bad("C38", "bitcoin-height", format!("Bitcoin block {h} requested, {want} is next"));
                }
                self.next_btc_fetch = Some(h + 1);
            }
            Task::CheckStacksTransactionStatus(id) => {
                if !self.stx.contains_key(id) && id.0 != [0; 32] {
                    self.bad("C38", "status-unknown", format!("status of {id}, which the bridge never broadcast"));
                }
                *self.status_seen.entry(id.to_hex()).or_default() += 1;
            }
            Task::CheckBitcoinTransactionStatus(id) => {
                if !self.btc.contains_key(id) {
                    self.bad("C38", "status-unknown", format!("status of {id}, which the bridge never broadcast"));
                }
            }
            Task::UpdateContractPublicKey => {
                // repeated only if the previous announcement was lost in a restart
                if self.key_confirmed {
                    self.bad("C38", "key-again", "public key announced again after it was confirmed".into());
                }
            }
            _ => {}
        }
    }
    fn same_withdrawal(&mut self, what: &str, i: &romeo::state::WithdrawalInfo) {
        let Some(x) = self.truth.get(&i.txid).cloned().filter(|x| !x.is_deposit()) else {
            return self.bad("C31", "withdraw-for-nothing", format!("{what} for {} which is no withdrawal request to the bridge", i.txid));
        };
        let who = i.source.serialize_to_vec();
        let pay = i.recipient.script_pubkey();
        if i.amount != x.amount || who != x.principal || Some(&pay) != x.payee.as_ref() || i.block_height != x.height {
            self.bad("C31", "withdraw-content", format!("{what} for {}: {} from {} to {:x} at {}, but the request is {} from {} to {:x} at {}", i.txid, i.amount, hex::encode(&who), pay, i.block_height, x.amount, hex::encode(&x.principal), x.payee.as_ref().unwrap(), x.height));
        }
        let n = self.cfg.bitcoin_network;
        if bdk::bitcoin::Address::from_script(&pay, n).ok().map(|a| a.to_string()) != Some(i.recipient.to_string()) {
            self.bad("C31", "withdraw-content", format!("{what} for {}: address {} is not {:x} on {n}", i.txid, i.recipient, pay));
        }
    }

    // ---- restart ----
    fn crash(&mut self) {
        self.c.count("restarts");
        self.trace.push(format!("RESTART after {} recorded events, {} tasks in flight", self.log.len(), self.tasks.len()));
        for t in std::mem::take(&mut self.tasks) {
            let (id, which, unexec) = match &t {
                Pending::Todo(Task::CreateMint(i)) => (i.txid, 0, true),
                Pending::Todo(Task::CreateBurn(i)) => (i.txid, 1, true),
                Pending::Todo(Task::CreateFulfillment(i)) => (i.txid, 2, true),
                Pending::Done(Event::MintBroadcasted(i, _)) => (i.txid, 0, false),
                Pending::Done(Event::BurnBroadcasted(i, _)) => (i.txid, 1, false),
                Pending::Done(Event::FulfillBroadcasted(i, _)) => (i.txid, 2, false),
                Pending::Done(_) => {
                    self.c.count("result_lost");
                    continue;
                }
                _ => continue,
            };
            self.c.count(if unexec { "create_lost_before_broadcast" } else { "create_lost_after_broadcast" });
            let p = self.prog.entry(id).or_default();
            let l = [&mut p.mint, &mut p.burn, &mut p.pay];
            if let Some(a) = l.into_iter().nth(which).unwrap().last_mut() {
                if unexec {
                    a.lost_unexecuted = true;
                } else {
                    a.lost_unacked = true;
                }
            }
        }
        let before = (self.done_stx, self.done_btc);
        let log = self.log.clone();
        let cfg = self.cfg.clone();
        let r = guard(|| {
            let mut s = State::new();
            for l in &log {
                let e: Event = serde_json::from_str(l).unwrap();
                s.update(e, &cfg);
            }
            let replayed = serde_json::to_value(&s).unwrap();
            let tasks = s.bootstrap();
            (s, replayed, tasks)
        });
        let (s, replayed, tasks) = match r {
            Ok(x) => x,
            Err(m) => {
                self.dead = true;
                return self.bad("C32", "replay-abort", format!("replay of {} recorded events {m}", log.len()));
            }
        };
        // which status checks are in flight is no part of the record
        let (live, replayed) = (settled(serde_json::to_value(&self.state).unwrap()), settled(replayed));
        if live != replayed {
            self.bad("C32", "replay-differs", format!("state after replay {replayed} differs from the one before the stop {live}"));
        }
        self.state = s;
        self.next_stx_fetch = None;
        self.next_btc_fetch = None;
        let (mut fs, mut fb) = (None, None);
        for t in &tasks {
            match t {
                Task::FetchStacksBlock(h) => fs = Some(*h),
                Task::FetchBitcoinBlock(h) => fb = Some(*h),
                _ => {}
            }
        }
        if fs.map_or(false, |h| h != before.0 + 1) || fb.map_or(false, |h| h != before.1 + 1) {
            self.bad("C32", "resume-height", format!("after a restart the bridge continues at Stacks {fs:?} / Bitcoin {fb:?}; processed so far {before:?}"));
        }
        self.accept(tasks);
    }

    fn step_task(&mut self, eager: bool) -> bool {
        let ready: Vec<usize> = (0..self.tasks.len())
            .filter(|i| match &self.tasks[*i] {
                Pending::Todo(t) => self.enabled(t),
                Pending::Done(_) => true,
            })
            .collect();
        if ready.is_empty() {
            return false;
        }
        let k = if self.o.fifo || eager { ready[0] } else { ready[self.c.rng.gen_range(0..ready.len())] };
        match self.tasks.remove(k) {
            Pending::Todo(t) => {
                let e = self.execute(t);
                if eager || self.c.rng.gen_bool(0.5) {
                    self.deliver(e);
                } else {
                    self.tasks.insert(k, Pending::Done(e));
                }
            }
            Pending::Done(e) => self.deliver(e),
        }
        true
    }

    /// run the history; findings are in `out`
    pub fn run(&mut self) {
        let st = &mut self.state;
        match guard(|| st.bootstrap()) {
            Ok(t) => self.accept(t),
            Err(m) => return self.bad("C34", "abort:bootstrap", m),
        }
        let crash_p = if self.o.crashes > 0 { self.o.crashes as f64 / self.o.steps as f64 } else { 0.0 };
        for _ in 0..self.o.steps {
            if self.dead {
                break;
            }
            let x: f64 = self.c.rng.gen();
            if crash_p > 0.0 && self.c.rng.gen_bool(crash_p.min(0.5)) {
                self.crash();
            } else if x < 0.12 {
                let max = self.o.max_ops;
                let n = self.c.rng.gen_range(0..=max);
                self.mine_btc(n);
            } else if x < 0.26 {
                self.mine_stx();
            } else {
                self.step_task(false);
            }
        }
        if !self.dead {
            self.settle();
        }
        self.c.nontrivial(self.log.join("\n"));
    }

    /// everything confirms from here on: the bridge must finish its work
    fn settle(&mut self) {
        self.quiet = true;
        self.trace.push("settle".into());
        let mut checks_before: Option<HashMap<String, u32>> = None;
        let _ = &mut checks_before;
        for _ in 0..24 {
            if self.dead {
                return;
            }
            self.mine_stx();
            while !self.dead && self.step_task(true) {}
            if self.dead {
                return;
            }
            self.mine_btc(0);
            while !self.dead && self.step_task(true) {}
        }
        if self.dead {
            return;
        }
        // block reads always outstanding
        let (mut fs, mut fb) = (0, 0);
        for t in &self.tasks {
            match t {
                Pending::Todo(Task::FetchStacksBlock(_)) => fs += 1,
                Pending::Todo(Task::FetchBitcoinBlock(_)) => fb += 1,
                _ => {}
            }
        }
        if fs != 1 {
            self.bad("C34", "no-stacks-read", format!("{fs} Stacks block reads outstanding after all work settled"));
        }
        if !self.key_confirmed {
            let rejected = self.key_tx.iter().any(|t| self.stx.get(t) == Some(&Fate::Rejected));
            if !rejected {
                let prop = if self.o.crashes > 0 { "C32" } else { "C34" };
                self.bad(prop, "key-never-settled", format!("the public key transactions {:?} were confirmed but the bridge never noticed", self.key_tx));
            }
            return;
        }
        if fb != 1 {
            self.bad("C34", "no-bitcoin-read", format!("{fb} Bitcoin block reads outstanding after all work settled"));
        }
        let want = self.b0 + self.blocks.len() as u32;
        if self.done_btc != want {
            self.bad("C38", "block-skipped", format!("Bitcoin blocks processed up to {}, chain is at {want}", self.done_btc));
        }
        if self.done_stx != self.stx_tip {
            self.bad("C38", "block-skipped", format!("Stacks blocks processed up to {}, chain is at {}", self.done_stx, self.stx_tip));
        }
        let prop = if self.o.crashes > 0 { "C32" } else { "C34" };
        let items: Vec<Item> = self.blocks.iter().flat_map(|b| b.1.clone()).collect();
        for i in items {
            let p = self.prog.get(&i.txid).cloned().unwrap_or_default();
            let stages: Vec<(&str, &Vec<Attempt>)> = if i.is_deposit() { vec![("mint", &p.mint)] } else { vec![("burn", &p.burn), ("fulfillment", &p.pay)] };
            for (what, v) in stages {
                let Some(a) = v.last() else {
                    self.bad(prop, &format!("{what}-missing"), format!("{} of {} was never requested: {:?}", what, i.txid, p));
                    break;
                };
                if a.lost_unexecuted {
                    self.bad("C32", "created-task-lost", format!("{what} of {} was requested but not yet executed when the bridge stopped, and is never requested again", i.txid));
                    break;
                }
                if a.lost_unacked {
                    self.bad("C32", "broadcast-forgotten", format!("{what} of {} was broadcast but its result not recorded when the bridge stopped; the bridge never follows it up", i.txid));
                    break;
                }
                if !a.executed || !a.acked {
                    self.bad(prop, &format!("{what}-stuck"), format!("{what} of {} is stuck: {a:?}", i.txid));
                    break;
                }
                match a.reported {
                    Some(St::Confirmed) => {}
                    Some(St::Rejected) => {
                        self.c.count("ended_rejected");
                        break;
                    }
                    _ => {
                        self.bad(prop, &format!("{what}-unchecked"), format!("{what} of {} was confirmed by its chain but the bridge never learned it: {a:?}", i.txid));
                        break;
                    }
                }
            }
            if i.is_deposit() && p.mint.last().map_or(false, |a| a.reported == Some(St::Confirmed)) {
                self.c.count("deposits_minted");
            }
            if !i.is_deposit() && p.pay.last().map_or(false, |a| a.reported == Some(St::Confirmed)) {
                self.c.count("withdrawals_paid");
            }
        }
    }
}

fn settled(v: mon::Value) -> mon::Value {
    match v {
        mon::Value::Object(m) => m.into_iter().filter(|(k, _)| k != "has_pending_task").map(|(k, v)| (k, settled(v))).collect(),
        mon::Value::Array(a) => a.into_iter().map(settled).collect(),
        v => v,
    }
}
pub fn short(t: &Task) -> String {
    match t {
        Task::CreateMint(i) => format!("CreateMint({})", i.txid),
        Task::CreateBurn(i) => format!("CreateBurn({})", i.txid),
        Task::CreateFulfillment(i) => format!("CreateFulfillment({})", i.txid),
        t => format!("{t:?}"),
    }
}
pub fn short_event(e: &Event) -> String {
    match e {
        Event::MintBroadcasted(i, t) => format!("MintBroadcasted({}, {t})", i.txid),
        Event::BurnBroadcasted(i, t) => format!("BurnBroadcasted({}, {t})", i.txid),
        Event::FulfillBroadcasted(i, t) => format!("FulfillBroadcasted({}, {t})", i.txid),
        Event::StacksBlock(h, _) => format!("StacksBlock({h})"),
        Event::BitcoinBlock(h, _) => format!("BitcoinBlock({h})"),
        e => format!("{e:?}"),
    }
}
