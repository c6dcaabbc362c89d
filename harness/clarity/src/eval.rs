use crate::{
    parse, Expr, Node, Res, Stop,
    Value::{self, *},
};
use std::{collections::BTreeMap, rc::Rc};

type Id = (u8, [u8; 20], String);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Access {
    Public,
    ReadOnly,
    Private,
}
struct Func {
    access: Access,
    params: Vec<(String, Expr)>,
    body: Vec<Expr>,
}
struct Contract {
    consts: BTreeMap<String, Value>,
    funcs: BTreeMap<String, Rc<Func>>,
}
#[derive(Clone)]
enum Store {
    Var(Value),
    Map(BTreeMap<Value, Value>),
    Ft { cap: Option<u128>, supply: u128, bal: BTreeMap<Value, u128> },
}
type State = BTreeMap<(Id, String), Rc<Store>>;

/// result of a transaction
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// the function returned; an `err` response had no effect
    Returned(Value),
    /// runtime error, no effect
    Aborted(String),
    /// no such function, wrong number or type of arguments
    BadCall(String),
    /// the interpreter cannot run this contract
    Unsupported(String),
}
impl Outcome {
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Returned(v) if v.is_ok())
    }
}
#[derive(Default)]
pub struct Chain {
    contracts: BTreeMap<Id, Rc<Contract>>,
    state: State,
    pub burn_headers: BTreeMap<u128, Vec<u8>>,
    pub block_height: u128,
    pub burn_block_height: u128,
    pub printed: Vec<Value>,
    depth: usize,
    /// evaluation steps taken
    pub steps: u64,
}
struct Ctx {
    id: Id,
    sender: Value,
    caller: Value,
    read_only: bool,
    locals: Vec<(String, Value)>,
}

fn abort<T>(m: impl Into<String>) -> Res<T> {
    Err(Stop::Abort(m.into()))
}
fn unsup<T>(m: impl Into<String>) -> Res<T> {
    Err(Stop::Unsupported(m.into()))
}
fn principal_of(id: &Id) -> Value {
    Principal(id.0, id.1, Some(id.2.clone()))
}
fn atom(e: &Expr) -> Res<&str> {
    match &**e {
        Node::Atom(a) => Ok(a),
        n => unsup(format!("expected a name, got {n:?}")),
    }
}
fn arity(op: &str, a: &[Expr], n: usize) -> Res<()> {
    if a.len() == n {
        Ok(())
    } else {
        unsup(format!("{op} with {} arguments", a.len()))
    }
}
fn mismatch<T>(op: &str, v: &[&Value]) -> Res<T> {
    unsup(format!("{op} on {}", v.iter().map(|v| v.kind()).collect::<Vec<_>>().join(", ")))
}
fn as_bool(op: &str, v: Value) -> Res<bool> {
    match v {
        Bool(b) => Ok(b),
        v => mismatch(op, &[&v]),
    }
}
fn as_uint(op: &str, v: Value) -> Res<u128> {
    match v {
        UInt(n) => Ok(n),
        v => mismatch(op, &[&v]),
    }
}
fn seq_len(v: &Value) -> Option<usize> {
    Some(match v {
        Buff(b) => b.len(),
        Ascii(s) => s.len(),
        Utf8(s) => s.chars().count(),
        List(l) => l.len(),
        _ => return None,
    })
}
fn seq_slice(v: &Value, a: usize, b: usize) -> Option<Value> {
    Some(match v {
        Buff(x) => Buff(x[a..b].to_vec()),
        Ascii(x) => Ascii(x[a..b].to_string()),
        Utf8(x) => Utf8(x.chars().skip(a).take(b - a).collect()),
        List(x) => List(x[a..b].to_vec()),
        _ => return None,
    })
}
fn seq_items(v: &Value) -> Option<Vec<Value>> {
    Some(match v {
        Buff(x) => x.iter().map(|b| Buff(vec![*b])).collect(),
        Ascii(x) => x.chars().map(|c| Ascii(c.to_string())).collect(),
        Utf8(x) => x.chars().map(|c| Utf8(c.to_string())).collect(),
        List(x) => x.clone(),
        _ => return None,
    })
}
fn seq_concat(op: &str, a: Value, b: Value) -> Res {
    Ok(match (a, b) {
        (Buff(mut x), Buff(y)) => {
            x.extend(y);
            Buff(x)
        }
        (Ascii(x), Ascii(y)) => Ascii(x + &y),
        (Utf8(x), Utf8(y)) => Utf8(x + &y),
        (List(mut x), List(y)) => {
            x.extend(y);
            List(x)
        }
        (a, b) => return mismatch(op, &[&a, &b]),
    })
}

impl Chain {
    pub fn new() -> Chain {
        Chain::default()
    }
    fn lookup(&self, name: &str, cx: &Ctx) -> Res {
        if let Some((_, v)) = cx.locals.iter().rev().find(|(k, _)| k == name) {
            return Ok(v.clone());
        }
        if let Some(v) = self.contracts.get(&cx.id).and_then(|c| c.consts.get(name)) {
            return Ok(v.clone());
        }
        match name {
            "tx-sender" => Ok(cx.sender.clone()),
            "contract-caller" => Ok(cx.caller.clone()),
            "block-height" => Ok(UInt(self.block_height)),
            "burn-block-height" => Ok(UInt(self.burn_block_height)),
            "is-in-mainnet" => Ok(Bool(false)),
            "is-in-regtest" => Ok(Bool(false)),
            _ => unsup(format!("unknown name {name}")),
        }
    }
    /// Deploys contract text under `deployer.name`.
    pub fn deploy(&mut self, deployer: &Value, name: &str, text: &str) -> Result<(), String> {
        let Principal(ver, hash, None) = deployer else { return Err("deployer".into()) };
        let id: Id = (*ver, *hash, name.to_string());
        let top = parse(text)?;
        let mut cx = Ctx { id: id.clone(), sender: deployer.clone(), caller: deployer.clone(), read_only: false, locals: vec![] };
        let mut contract = Contract { consts: BTreeMap::new(), funcs: BTreeMap::new() };
        // definitions may be used before they appear only by functions
        for e in &top {
            let Node::List(l) = &**e else { return Err(format!("top level {e:?}")) };
            let head = atom(l.first().ok_or("empty form")?).map_err(|e| format!("{e:?}"))?.to_string();
            let a = &l[1..];
            if head == "define-public" || head == "define-read-only" || head == "define-private" {
                let (n, f) = Self::func(&head, a).map_err(|e| format!("{e:?}"))?;
                contract.funcs.insert(n, Rc::new(f));
            }
        }
        self.contracts.insert(id.clone(), Rc::new(Contract { consts: BTreeMap::new(), funcs: contract.funcs.clone() }));
        for e in &top {
            let Node::List(l) = &**e else { unreachable!() };
            let head = atom(&l[0]).unwrap().to_string();
            let a = &l[1..];
            let r: Res<()> = (|| {
                match head.as_str() {
                    "define-public" | "define-read-only" | "define-private" | "define-trait" | "impl-trait" | "use-trait" => {}
                    "define-constant" => {
                        arity(&head, a, 2)?;
                        let v = self.eval(&a[1], &mut cx)?;
                        contract.consts.insert(atom(&a[0])?.to_string(), v);
                        self.contracts.insert(id.clone(), Rc::new(Contract { consts: contract.consts.clone(), funcs: contract.funcs.clone() }));
                    }
                    "define-data-var" => {
                        arity(&head, a, 3)?;
                        let v = self.eval(&a[2], &mut cx)?;
                        self.put(&id, atom(&a[0])?, Store::Var(v));
                    }
                    "define-map" => self.put(&id, atom(&a[0])?, Store::Map(BTreeMap::new())),
                    "define-fungible-token" => {
                        let cap = match a.get(1) {
                            Some(e) => Some(as_uint("cap", self.eval(e, &mut cx)?)?),
                            None => None,
                        };
                        self.put(&id, atom(&a[0])?, Store::Ft { cap, supply: 0, bal: BTreeMap::new() });
                    }
                    _ => {
                        self.eval(e, &mut cx)?;
                    }
                }
                Ok(())
            })();
            r.map_err(|e| format!("{name}: {head}: {e:?}"))?;
        }
        Ok(())
    }
    fn func(head: &str, a: &[Expr]) -> Res<(String, Func)> {
        let Some(Node::List(sig)) = a.first().map(|e| &**e) else { return unsup("function signature") };
        let name = atom(&sig[0])?.to_string();
        let mut params = vec![];
        for p in &sig[1..] {
            let Node::List(p) = &**p else { return unsup("parameter") };
            params.push((atom(&p[0])?.to_string(), p[1].clone()));
        }
        let access = match head {
            "define-public" => Access::Public,
            "define-private" => Access::Private,
            _ => Access::ReadOnly,
        };
        Ok((name, Func { access, params, body: a[1..].to_vec() }))
    }
    fn put(&mut self, id: &Id, name: &str, s: Store) {
        self.state.insert((id.clone(), name.to_string()), Rc::new(s));
    }
    fn store(&mut self, cx: &Ctx, name: &str) -> Res<&mut Store> {
        match self.state.get_mut(&(cx.id.clone(), name.to_string())) {
            Some(r) => Ok(Rc::make_mut(r)),
            None => unsup(format!("no storage {name}")),
        }
    }

    /// A transaction (public) or query (read-only) from outside.
    pub fn call(&mut self, contract: &Value, func: &str, args: &[Value], sender: &Value, caller: &Value) -> Outcome {
        let Principal(v, h, Some(n)) = contract else { return Outcome::BadCall("not a contract".into()) };
        let id: Id = (*v, *h, n.clone());
        let Some(c) = self.contracts.get(&id).cloned() else { return Outcome::BadCall("no such contract".into()) };
        let Some(f) = c.funcs.get(func).cloned().filter(|f| f.access != Access::Private) else { return Outcome::BadCall(format!("no such function {func}")) };
        if f.params.len() != args.len() {
            return Outcome::BadCall(format!("{func} takes {} arguments", f.params.len()));
        }
        for (p, a) in f.params.iter().zip(args) {
            match admits(&p.1, a) {
                Ok(true) => {}
                Ok(false) => return Outcome::BadCall(format!("{func}: {} is no {:?}", a, p.1)),
                Err(e) => return Outcome::Unsupported(format!("{e:?}")),
            }
        }
        let printed = self.printed.len();
        self.depth = 0;
        let before = self.state.clone();
        match self.apply(&id, &f, args.to_vec(), sender.clone(), caller.clone(), false) {
            Ok(v) => {
                if matches!(v, Response(false, _)) {
                    self.printed.truncate(printed);
                }
                Outcome::Returned(v)
            }
            Err(Stop::Return(v)) => Outcome::Unsupported(format!("stray return {v}")),
            Err(e) => {
                self.state = before;
                self.printed.truncate(printed);
                match e {
                    Stop::Abort(m) => Outcome::Aborted(m),
                    Stop::Unsupported(m) => Outcome::Unsupported(m),
                    Stop::Return(_) => unreachable!(),
                }
            }
        }
    }
    fn apply(&mut self, id: &Id, f: &Rc<Func>, args: Vec<Value>, sender: Value, caller: Value, read_only: bool) -> Res {
        if f.params.len() != args.len() {
            return unsup("argument count");
        }
        self.depth += 1;
        if self.depth > 64 {
            return unsup("call depth");
        }
        let mut cx = Ctx {
            id: id.clone(),
            sender,
            caller,
            read_only: read_only || f.access == Access::ReadOnly,
            locals: f.params.iter().map(|p| p.0.clone()).zip(args).collect(),
        };
        let before = self.state.clone();
        let printed = self.printed.len();
        let mut r = Ok(Bool(true));
        for e in &f.body {
            r = self.eval(e, &mut cx);
            if r.is_err() {
                break;
            }
        }
        self.depth -= 1;
        let v = match r {
            Ok(v) => v,
            Err(Stop::Return(v)) => v,
            Err(e) => return Err(e),
        };
        match (f.access, &v) {
            (Access::Public, Response(false, _)) => {
                self.state = before;
                self.printed.truncate(printed);
            }
            (Access::Public, Response(true, _)) => {}
            (Access::Public, v) => return unsup(format!("public function returned {v}")),
            _ => {}
        }
        Ok(v)
    }

    fn eval(&mut self, e: &Expr, cx: &mut Ctx) -> Res {
        self.steps += 1;
        match &**e {
            Node::Lit(v) => Ok(v.clone()),
            Node::Atom(a) => self.lookup(a, cx),
            Node::Sibling(n) => {
                let id = &cx.id;
                let (n, h, v) = (n.clone(), id.1, id.0);
                Ok(Principal(v, h, Some(n)))
            }
            Node::Tuple(f) => {
                let mut t = BTreeMap::new();
                for (k, e) in f {
                    t.insert(k.clone(), self.eval(e, cx)?);
                }
                Ok(Tuple(t))
            }
            Node::List(l) => {
                let Some(h) = l.first() else { return unsup("empty list") };
                let op = atom(h)?.to_string();
                self.form(&op, &l[1..], cx)
            }
        }
    }
    fn vals(&mut self, a: &[Expr], cx: &mut Ctx) -> Res<Vec<Value>> {
        a.iter().map(|e| self.eval(e, cx)).collect()
    }
    fn arith(op: &str, v: Vec<Value>) -> Res {
        macro_rules! go {
            ($t:ident, $l:expr) => {{
                let l = $l;
                let first = l[0];
                let mut acc = Some(first);
                if op == "-" && l.len() == 1 {
                    acc = (0 as $t).checked_sub(first);
                } else {
                    for x in &l[1..] {
                        acc = match op {
                            "+" => acc.and_then(|a| a.checked_add(*x)),
                            "-" => acc.and_then(|a| a.checked_sub(*x)),
                            "*" => acc.and_then(|a| a.checked_mul(*x)),
                            _ => acc.and_then(|a| a.checked_div(*x)),
                        };
                    }
                }
                acc
            }};
        }
        if v.is_empty() {
            return unsup(op);
        }
        let ints: Option<Vec<i128>> = v.iter().map(|v| if let Int(n) = v { Some(*n) } else { None }).collect();
        let uints: Option<Vec<u128>> = v.iter().map(|v| if let UInt(n) = v { Some(*n) } else { None }).collect();
        if let Some(l) = ints {
            return go!(i128, l).map_or_else(|| abort(format!("arithmetic {op}")), |n| Ok(Int(n)));
        }
        if let Some(l) = uints {
            return go!(u128, l).map_or_else(|| abort(format!("arithmetic {op}")), |n| Ok(UInt(n)));
        }
        mismatch(op, &v.iter().collect::<Vec<_>>())
    }
    fn call_named(&mut self, f: &str, args: Vec<Value>, cx: &mut Ctx) -> Res {
        if let Some(func) = self.contracts.get(&cx.id).and_then(|c| c.funcs.get(f)).cloned() {
            return self.apply(&cx.id.clone(), &func, args, cx.sender.clone(), cx.caller.clone(), cx.read_only);
        }
        let lits: Vec<Expr> = args.into_iter().map(|v| Rc::new(Node::Lit(v))).collect();
        self.form(f, &lits, cx)
    }
    fn writable(&self, op: &str, cx: &Ctx) -> Res<()> {
        if cx.read_only {
            return unsup(format!("{op} in a read-only context"));
        }
        Ok(())
    }
    fn ft(&mut self, name: &str, cx: &Ctx) -> Res<(&mut Option<u128>, &mut u128, &mut BTreeMap<Value, u128>)> {
        match self.store(cx, name)? {
            Store::Ft { cap, supply, bal } => Ok((cap, supply, bal)),
            _ => unsup(format!("{name} is no fungible token")),
        }
    }
    fn form(&mut self, op: &str, a: &[Expr], cx: &mut Ctx) -> Res {
        match op {
            // ---- control
            "begin" => {
                let mut r = unsup("empty begin");
                for e in a {
                    r = Ok(self.eval(e, cx)?);
                }
                r
            }
            "let" => {
                let Some(Node::List(b)) = a.first().map(|e| &**e) else { return unsup("let") };
                let n = cx.locals.len();
                let r = (|| {
                    for p in b {
                        let Node::List(p) = &**p else { return unsup("let binding") };
                        let v = self.eval(&p[1], cx)?;
                        cx.locals.push((atom(&p[0])?.to_string(), v));
                    }
                    let mut r = unsup("empty let");
                    for e in &a[1..] {
                        r = Ok(self.eval(e, cx)?);
                    }
                    r
                })();
                cx.locals.truncate(n);
                r
            }
            "if" => {
                arity(op, a, 3)?;
                let c = as_bool(op, self.eval(&a[0], cx)?)?;
                self.eval(&a[if c { 1 } else { 2 }], cx)
            }
            "and" => {
                for e in a {
                    if !as_bool(op, self.eval(e, cx)?)? {
                        return Ok(Bool(false));
                    }
                }
                Ok(Bool(true))
            }
            "or" => {
                for e in a {
                    if as_bool(op, self.eval(e, cx)?)? {
                        return Ok(Bool(true));
                    }
                }
                Ok(Bool(false))
            }
            "asserts!" => {
                arity(op, a, 2)?;
                if as_bool(op, self.eval(&a[0], cx)?)? {
                    Ok(Bool(true))
                } else {
                    let v = self.eval(&a[1], cx)?;
                    Err(Stop::Return(v))
                }
            }
            "try!" => {
                arity(op, a, 1)?;
                match self.eval(&a[0], cx)? {
                    Response(true, v) | Optional(Some(v)) => Ok(*v),
                    v @ (Response(false, _) | Optional(None)) => Err(Stop::Return(v)),
                    v => mismatch(op, &[&v]),
                }
            }
            "unwrap!" | "unwrap-err!" => {
                arity(op, a, 2)?;
                match (op, self.eval(&a[0], cx)?) {
                    ("unwrap!", Response(true, v) | Optional(Some(v))) => Ok(*v),
                    ("unwrap-err!", Response(false, v)) => Ok(*v),
                    (_, Response(..) | Optional(_)) => {
                        let v = self.eval(&a[1], cx)?;
                        Err(Stop::Return(v))
                    }
                    (_, v) => mismatch(op, &[&v]),
                }
            }
            "unwrap-panic" | "unwrap-err-panic" => {
                arity(op, a, 1)?;
                match (op, self.eval(&a[0], cx)?) {
                    ("unwrap-panic", Response(true, v) | Optional(Some(v))) => Ok(*v),
                    ("unwrap-err-panic", Response(false, v)) => Ok(*v),
                    (_, v @ (Response(..) | Optional(_))) => abort(format!("{op} on {v}")),
                    (_, v) => mismatch(op, &[&v]),
                }
            }
            "default-to" => {
                arity(op, a, 2)?;
                let d = self.eval(&a[0], cx)?;
                match self.eval(&a[1], cx)? {
                    Optional(Some(v)) => Ok(*v),
                    Optional(None) => Ok(d),
                    v => mismatch(op, &[&v]),
                }
            }
            "match" => {
                let v = self.eval(&a[0], cx)?;
                let (bind, body): (Option<(&Expr, Value)>, &Expr) = match v {
                    Optional(o) => {
                        arity(op, a, 4)?;
                        match o {
                            Some(v) => (Some((&a[1], *v)), &a[2]),
                            None => (None, &a[3]),
                        }
                    }
                    Response(true, v) => {
                        arity(op, a, 5)?;
                        (Some((&a[1], *v)), &a[2])
                    }
                    Response(false, v) => {
                        arity(op, a, 5)?;
                        (Some((&a[3], *v)), &a[4])
                    }
                    v => return mismatch(op, &[&v]),
                };
                let n = cx.locals.len();
                if let Some((k, v)) = bind {
                    cx.locals.push((atom(k)?.to_string(), v));
                }
                let r = self.eval(body, cx);
                cx.locals.truncate(n);
                r
            }
            // ---- functions taking names
            "map" => {
                let f = atom(&a[0])?.to_string();
                let mut cols = vec![];
                for e in &a[1..] {
                    let v = self.eval(e, cx)?;
                    cols.push(seq_items(&v).map_or_else(|| mismatch(op, &[&v]), Ok)?);
                }
                let n = cols.iter().map(|c| c.len()).min().unwrap_or(0);
                let mut out = vec![];
                for i in 0..n {
                    let args = cols.iter().map(|c| c[i].clone()).collect();
                    out.push(self.call_named(&f, args, cx)?);
                }
                Ok(List(out))
            }
            "filter" => {
                arity(op, a, 2)?;
                let f = atom(&a[0])?.to_string();
                let v = self.eval(&a[1], cx)?;
                let mut out = vec![];
                for x in seq_items(&v).map_or_else(|| mismatch(op, &[&v]), Ok)? {
                    if as_bool(op, self.call_named(&f, vec![x.clone()], cx)?)? {
                        out.push(x);
                    }
                }
                match v {
                    List(_) => Ok(List(out)),
                    Buff(_) => out.into_iter().try_fold(Buff(vec![]), |a, b| seq_concat(op, a, b)),
                    Ascii(_) => out.into_iter().try_fold(Ascii(String::new()), |a, b| seq_concat(op, a, b)),
                    _ => out.into_iter().try_fold(Utf8(String::new()), |a, b| seq_concat(op, a, b)),
                }
            }
            "fold" => {
                arity(op, a, 3)?;
                let f = atom(&a[0])?.to_string();
                let v = self.eval(&a[1], cx)?;
                let mut acc = self.eval(&a[2], cx)?;
                for x in seq_items(&v).map_or_else(|| mismatch(op, &[&v]), Ok)? {
                    acc = self.call_named(&f, vec![x, acc], cx)?;
                }
                Ok(acc)
            }
            "tuple" => {
                let mut t = BTreeMap::new();
                for p in a {
                    let Node::List(p) = &**p else { return unsup("tuple") };
                    t.insert(atom(&p[0])?.to_string(), self.eval(&p[1], cx)?);
                }
                Ok(Tuple(t))
            }
            "get" => {
                arity(op, a, 2)?;
                let k = atom(&a[0])?.to_string();
                match self.eval(&a[1], cx)? {
                    Tuple(t) => t.get(&k).cloned().map_or_else(|| unsup(format!("no field {k}")), Ok),
                    Optional(None) => Ok(Optional(None)),
                    Optional(Some(t)) => match *t {
                        Tuple(t) => t.get(&k).cloned().map_or_else(|| unsup(format!("no field {k}")), |v| Ok(Value::some(v))),
                        v => mismatch(op, &[&v]),
                    },
                    v => mismatch(op, &[&v]),
                }
            }
            "var-get" => {
                arity(op, a, 1)?;
                match self.store(cx, atom(&a[0])?)? {
                    Store::Var(v) => Ok(v.clone()),
                    _ => unsup("var-get"),
                }
            }
            "var-set" => {
                arity(op, a, 2)?;
                self.writable(op, cx)?;
                let v = self.eval(&a[1], cx)?;
                match self.store(cx, atom(&a[0])?)? {
                    Store::Var(x) => *x = v,
                    _ => return unsup("var-set"),
                }
                Ok(Bool(true))
            }
            "map-get?" | "map-delete" => {
                arity(op, a, 2)?;
                let k = self.eval(&a[1], cx)?;
                if op == "map-delete" {
                    self.writable(op, cx)?;
                }
                match self.store(cx, atom(&a[0])?)? {
                    Store::Map(m) if op == "map-get?" => Ok(Optional(m.get(&k).cloned().map(Box::new))),
                    Store::Map(m) => Ok(Bool(m.remove(&k).is_some())),
                    _ => unsup(op),
                }
            }
            "map-set" | "map-insert" => {
                arity(op, a, 3)?;
                self.writable(op, cx)?;
                let k = self.eval(&a[1], cx)?;
                let v = self.eval(&a[2], cx)?;
                match self.store(cx, atom(&a[0])?)? {
                    Store::Map(m) => {
                        if op == "map-insert" && m.contains_key(&k) {
                            return Ok(Bool(false));
                        }
                        m.insert(k, v);
                        Ok(Bool(true))
                    }
                    _ => unsup(op),
                }
            }
            "ft-get-supply" => {
                arity(op, a, 1)?;
                Ok(UInt(*self.ft(atom(&a[0])?, cx)?.1))
            }
            "ft-get-balance" => {
                arity(op, a, 2)?;
                let who = self.eval(&a[1], cx)?;
                Ok(UInt(self.ft(atom(&a[0])?, cx)?.2.get(&who).copied().unwrap_or(0)))
            }
            "ft-mint?" => {
                arity(op, a, 3)?;
                self.writable(op, cx)?;
                let n = as_uint(op, self.eval(&a[1], cx)?)?;
                let who = self.eval(&a[2], cx)?;
                if n == 0 {
                    return Ok(Value::err(UInt(1)));
                }
                let (cap, supply, bal) = self.ft(atom(&a[0])?, cx)?;
                let Some(s) = supply.checked_add(n).filter(|s| cap.map_or(true, |c| *s <= c)) else { return abort("token supply overflow") };
                *supply = s;
                *bal.entry(who).or_default() += n;
                Ok(Value::ok(Bool(true)))
            }
            "ft-burn?" => {
                arity(op, a, 3)?;
                self.writable(op, cx)?;
                let n = as_uint(op, self.eval(&a[1], cx)?)?;
                let who = self.eval(&a[2], cx)?;
                let (_, supply, bal) = self.ft(atom(&a[0])?, cx)?;
                let b = bal.get(&who).copied().unwrap_or(0);
                if n == 0 || n > b {
                    return Ok(Value::err(UInt(1)));
                }
                *supply -= n;
                bal.insert(who, b - n);
                Ok(Value::ok(Bool(true)))
            }
            "ft-transfer?" => {
                arity(op, a, 4)?;
                self.writable(op, cx)?;
                let n = as_uint(op, self.eval(&a[1], cx)?)?;
                let from = self.eval(&a[2], cx)?;
                let to = self.eval(&a[3], cx)?;
                if n == 0 {
                    return Ok(Value::err(UInt(3)));
                }
                if from == to {
                    return Ok(Value::err(UInt(2)));
                }
                let (_, _, bal) = self.ft(atom(&a[0])?, cx)?;
                let b = bal.get(&from).copied().unwrap_or(0);
                if n > b {
                    return Ok(Value::err(UInt(1)));
                }
                bal.insert(from, b - n);
                *bal.entry(to).or_default() += n;
                Ok(Value::ok(Bool(true)))
            }
            "as-contract" => {
                arity(op, a, 1)?;
                let me = principal_of(&cx.id);
                let (s, c) = (cx.sender.clone(), cx.caller.clone());
                cx.sender = me.clone();
                cx.caller = me;
                let r = self.eval(&a[0], cx);
                cx.sender = s;
                cx.caller = c;
                r
            }
            "contract-call?" => {
                let Principal(v, h, Some(n)) = self.eval(&a[0], cx)? else { return unsup("contract-call? target") };
                let id: Id = (v, h, n);
                let f = atom(&a[1])?.to_string();
                let args = self.vals(&a[2..], cx)?;
                let Some(func) = self.contracts.get(&id).and_then(|c| c.funcs.get(&f)).cloned().filter(|f| f.access != Access::Private) else {
                    return unsup(format!("contract-call? {f}"));
                };
                if func.access == Access::Public {
                    self.writable(op, cx)?;
                }
                for (p, a) in func.params.iter().zip(&args) {
                    if !admits(&p.1, a)? {
                        return unsup(format!("contract-call? {f}: {a} is no {:?}", p.1));
                    }
                }
                let me = principal_of(&cx.id);
                self.apply(&id, &func, args, cx.sender.clone(), me, cx.read_only)
            }
            "get-burn-block-info?" => {
                arity(op, a, 2)?;
                let n = as_uint(op, self.eval(&a[1], cx)?)?;
                match atom(&a[0])? {
                    "header-hash" => Ok(Optional(self.burn_headers.get(&n).map(|h| Box::new(Buff(h.clone()))))),
                    k => unsup(format!("{op} {k}")),
                }
            }
            "as-max-len?" => {
                arity(op, a, 2)?;
                let v = self.eval(&a[0], cx)?;
                let n = as_uint(op, self.eval(&a[1], cx)?)?;
                match seq_len(&v) {
                    Some(l) if l as u128 <= n => Ok(Value::some(v)),
                    Some(_) => Ok(Value::none()),
                    None => mismatch(op, &[&v]),
                }
            }
            "element-at" | "element-at?" => {
                arity(op, a, 2)?;
                let v = self.eval(&a[0], cx)?;
                let n = as_uint(op, self.eval(&a[1], cx)?)?;
                let l = seq_items(&v).map_or_else(|| mismatch(op, &[&v]), Ok)?;
                Ok(Optional(usize::try_from(n).ok().and_then(|n| l.get(n).cloned()).map(Box::new)))
            }
            _ => {
                if let Some(f) = self.contracts.get(&cx.id).and_then(|c| c.funcs.get(op)).cloned() {
                    let args = self.vals(a, cx)?;
                    return self.apply(&cx.id.clone(), &f, args, cx.sender.clone(), cx.caller.clone(), cx.read_only);
                }
                let v = self.vals(a, cx)?;
                self.native(op, v)
            }
        }
    }
    /// strict functions without access to state
    fn native(&mut self, op: &str, mut v: Vec<Value>) -> Res {
        let n = v.len();
        let need = |k: usize| if n == k { Ok(()) } else { unsup::<()>(format!("{op} with {n} arguments")) };
        match op {
            "+" | "-" | "*" | "/" => Self::arith(op, v),
            "mod" | "pow" | "xor" | "<" | ">" | "<=" | ">=" => {
                need(2)?;
                match (op, &v[0], &v[1]) {
                    ("<", Int(a), Int(b)) => Ok(Bool(a < b)),
                    ("<", UInt(a), UInt(b)) => Ok(Bool(a < b)),
                    (">", Int(a), Int(b)) => Ok(Bool(a > b)),
                    (">", UInt(a), UInt(b)) => Ok(Bool(a > b)),
                    ("<=", Int(a), Int(b)) => Ok(Bool(a <= b)),
                    ("<=", UInt(a), UInt(b)) => Ok(Bool(a <= b)),
                    (">=", Int(a), Int(b)) => Ok(Bool(a >= b)),
                    (">=", UInt(a), UInt(b)) => Ok(Bool(a >= b)),
                    ("<", Buff(a), Buff(b)) => Ok(Bool(a < b)),
                    (">", Buff(a), Buff(b)) => Ok(Bool(a > b)),
                    ("<=", Buff(a), Buff(b)) => Ok(Bool(a <= b)),
                    (">=", Buff(a), Buff(b)) => Ok(Bool(a >= b)),
                    ("mod", Int(a), Int(b)) => a.checked_rem(*b).map_or_else(|| abort("mod"), |x| Ok(Int(x))),
                    ("mod", UInt(a), UInt(b)) => a.checked_rem(*b).map_or_else(|| abort("mod"), |x| Ok(UInt(x))),
                    ("pow", UInt(a), UInt(b)) => u32::try_from(*b).ok().and_then(|b| a.checked_pow(b)).map_or_else(|| abort("pow"), |x| Ok(UInt(x))),
                    ("pow", Int(a), Int(b)) => u32::try_from(*b).ok().and_then(|b| a.checked_pow(b)).map_or_else(|| abort("pow"), |x| Ok(Int(x))),
                    ("xor", UInt(a), UInt(b)) => Ok(UInt(a ^ b)),
                    ("xor", Int(a), Int(b)) => Ok(Int(a ^ b)),
                    (_, a, b) => mismatch(op, &[a, b]),
                }
            }
            "bit-and" | "bit-or" | "bit-xor" => {
                let mut acc = v.first().cloned().map_or_else(|| unsup(op), Ok)?;
                for x in &v[1..] {
                    acc = match (op, acc, x) {
                        ("bit-and", UInt(a), UInt(b)) => UInt(a & b),
                        ("bit-and", Int(a), Int(b)) => Int(a & b),
                        ("bit-or", UInt(a), UInt(b)) => UInt(a | b),
                        ("bit-or", Int(a), Int(b)) => Int(a | b),
                        ("bit-xor", UInt(a), UInt(b)) => UInt(a ^ b),
                        ("bit-xor", Int(a), Int(b)) => Int(a ^ b),
                        (_, a, b) => return mismatch(op, &[&a, b]),
                    };
                }
                Ok(acc)
            }
            "bit-not" => {
                need(1)?;
                match &v[0] {
                    UInt(a) => Ok(UInt(!a)),
                    Int(a) => Ok(Int(!a)),
                    a => mismatch(op, &[a]),
                }
            }
            // the shift distance is taken modulo 128
            "bit-shift-left" | "bit-shift-right" => {
                need(2)?;
                match (op, &v[0], &v[1]) {
                    ("bit-shift-left", UInt(a), UInt(b)) => Ok(UInt(a.wrapping_shl((*b % 128) as u32))),
                    ("bit-shift-left", Int(a), UInt(b)) => Ok(Int(a.wrapping_shl((*b % 128) as u32))),
                    ("bit-shift-right", UInt(a), UInt(b)) => Ok(UInt(a.wrapping_shr((*b % 128) as u32))),
                    ("bit-shift-right", Int(a), UInt(b)) => Ok(Int(a.wrapping_shr((*b % 128) as u32))),
                    (_, a, b) => mismatch(op, &[a, b]),
                }
            }
            "sqrti" => {
                need(1)?;
                match v[0] {
                    UInt(a) => {
                        let mut x = (a as f64).sqrt() as u128;
                        while x.checked_mul(x).map_or(true, |y| y > a) {
                            x -= 1;
                        }
                        while (x + 1).checked_mul(x + 1).map_or(false, |y| y <= a) {
                            x += 1;
                        }
                        Ok(UInt(x))
                    }
                    ref a => mismatch(op, &[a]),
                }
            }
            "log2" => {
                need(1)?;
                match v[0] {
                    UInt(0) => abort("log2"),
                    UInt(a) => Ok(UInt(a.ilog2() as u128)),
                    ref a => mismatch(op, &[a]),
                }
            }
            "to-int" => match &v[..] {
                [UInt(a)] => i128::try_from(*a).map_or_else(|_| abort("to-int"), |x| Ok(Int(x))),
                _ => mismatch(op, &v.iter().collect::<Vec<_>>()),
            },
            "to-uint" => match &v[..] {
                [Int(a)] => u128::try_from(*a).map_or_else(|_| abort("to-uint"), |x| Ok(UInt(x))),
                _ => mismatch(op, &v.iter().collect::<Vec<_>>()),
            },
            "not" => {
                need(1)?;
                Ok(Bool(!as_bool(op, v.remove(0))?))
            }
            "is-eq" => Ok(Bool(v.windows(2).all(|w| w[0] == w[1]))),
            "ok" => {
                need(1)?;
                Ok(Value::ok(v.remove(0)))
            }
            "err" => {
                need(1)?;
                Ok(Value::err(v.remove(0)))
            }
            "some" => {
                need(1)?;
                Ok(Value::some(v.remove(0)))
            }
            "is-ok" | "is-err" | "is-some" | "is-none" => match (op, &v[..]) {
                ("is-ok", [Response(b, _)]) => Ok(Bool(*b)),
                ("is-err", [Response(b, _)]) => Ok(Bool(!*b)),
                ("is-some", [Optional(o)]) => Ok(Bool(o.is_some())),
                ("is-none", [Optional(o)]) => Ok(Bool(o.is_none())),
                _ => mismatch(op, &v.iter().collect::<Vec<_>>()),
            },
            "list" => Ok(List(v)),
            "len" => {
                need(1)?;
                seq_len(&v[0]).map_or_else(|| mismatch(op, &[&v[0]]), |n| Ok(UInt(n as u128)))
            }
            "concat" => {
                need(2)?;
                let b = v.pop().unwrap();
                let a = v.pop().unwrap();
                seq_concat(op, a, b)
            }
            "append" => {
                need(2)?;
                let b = v.pop().unwrap();
                seq_concat(op, v.pop().unwrap(), List(vec![b]))
            }
            "slice?" => {
                need(3)?;
                match (&v[1], &v[2], seq_len(&v[0])) {
                    (UInt(a), UInt(b), Some(l)) => {
                        if *a <= *b && *b <= l as u128 {
                            Ok(Value::some(seq_slice(&v[0], *a as usize, *b as usize).unwrap()))
                        } else {
                            Ok(Value::none())
                        }
                    }
                    _ => mismatch(op, &v.iter().collect::<Vec<_>>()),
                }
            }
            "replace-at?" => {
                need(3)?;
                match (seq_items(&v[0]), &v[1]) {
                    (Some(mut l), UInt(i)) => {
                        if *i >= l.len() as u128 {
                            return Ok(Value::none());
                        }
                        l[*i as usize] = v[2].clone();
                        let empty = match &v[0] {
                            List(_) => return Ok(Value::some(List(l))),
                            Buff(_) => Buff(vec![]),
                            Ascii(_) => Ascii(String::new()),
                            _ => Utf8(String::new()),
                        };
                        Ok(Value::some(l.into_iter().try_fold(empty, |a, b| seq_concat(op, a, b))?))
                    }
                    _ => mismatch(op, &v.iter().collect::<Vec<_>>()),
                }
            }
            "index-of" | "index-of?" => {
                need(2)?;
                let l = seq_items(&v[0]).map_or_else(|| mismatch(op, &[&v[0]]), Ok)?;
                Ok(Optional(l.iter().position(|x| *x == v[1]).map(|i| Box::new(UInt(i as u128)))))
            }
            "merge" => match (v.first().cloned(), v.get(1).cloned()) {
                (Some(Tuple(mut a)), Some(Tuple(b))) => {
                    a.extend(b);
                    Ok(Tuple(a))
                }
                _ => mismatch(op, &v.iter().collect::<Vec<_>>()),
            },
            "print" => {
                need(1)?;
                self.printed.push(v[0].clone());
                Ok(v.remove(0))
            }
            "sha256" | "hash160" | "sha512" => {
                need(1)?;
                let b = match &v[0] {
                    Buff(b) => b.clone(),
                    UInt(n) => n.to_le_bytes().to_vec(),
                    Int(n) => n.to_le_bytes().to_vec(),
                    x => return mismatch(op, &[x]),
                };
                Ok(Buff(match op {
                    "sha256" => refs::sha256(&b).to_vec(),
                    "sha512" => refs::sha512(&b).to_vec(),
                    _ => refs::hash160(&b).to_vec(),
                }))
            }
            "buff-to-uint-le" | "buff-to-uint-be" | "buff-to-int-le" | "buff-to-int-be" => match &v[..] {
                [Buff(b)] if b.len() <= 16 => {
                    let mut x = [0u8; 16];
                    if op.ends_with("le") {
                        x[..b.len()].copy_from_slice(b);
                        x.reverse();
                    } else {
                        x[16 - b.len()..].copy_from_slice(b);
                    }
                    Ok(if op.contains("uint") { UInt(u128::from_be_bytes(x)) } else { Int(i128::from_be_bytes(x)) })
                }
                _ => mismatch(op, &v.iter().collect::<Vec<_>>()),
            },
            "to-consensus-buff?" => {
                need(1)?;
                let mut o = vec![];
                v[0].encode(&mut o);
                Ok(Value::some(Buff(o)))
            }
            "is-standard" => {
                need(1)?;
                match &v[0] {
                    Principal(v, ..) => Ok(Bool([26, 21].contains(v))),
                    x => mismatch(op, &[x]),
                }
            }
            _ => unsup(format!("function {op}")),
        }
    }
}

/// does a parameter of type `t` take this value?
fn admits(t: &Expr, v: &Value) -> Res<bool> {
    Ok(match &**t {
        Node::Atom(a) => match (a.as_str(), v) {
            ("int", Int(_)) | ("uint", UInt(_)) | ("bool", Bool(_)) | ("principal", Principal(..)) => true,
            ("int" | "uint" | "bool" | "principal", _) => false,
            (a, _) => return unsup(format!("type {a}")),
        },
        Node::Tuple(f) => match v {
            Tuple(t) if t.len() == f.len() => {
                for (k, ty) in f {
                    match t.get(k) {
                        Some(x) if admits(ty, x)? => {}
                        _ => return Ok(false),
                    }
                }
                true
            }
            _ => false,
        },
        Node::List(l) => {
            let head = atom(&l[0])?;
            let max = |e: &Expr| match &**e {
                Node::Lit(Int(n)) => Ok(*n as usize),
                Node::Lit(UInt(n)) => Ok(*n as usize),
                e => unsup(format!("length {e:?}")),
            };
            match (head, v) {
                ("buff", Buff(b)) => b.len() <= max(&l[1])?,
                ("string-ascii", Ascii(s)) => s.len() <= max(&l[1])?,
                ("string-utf8", Utf8(s)) => s.chars().count() <= max(&l[1])?,
                ("list", List(x)) => {
                    if x.len() > max(&l[1])? {
                        return Ok(false);
                    }
                    for i in x {
                        if !admits(&l[2], i)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                ("optional", Optional(None)) => true,
                ("optional", Optional(Some(x))) => admits(&l[1], x)?,
                ("response", Response(ok, x)) => admits(&l[if *ok { 1 } else { 2 }], x)?,
                ("tuple", Tuple(t)) => {
                    if t.len() != l.len() - 1 {
                        return Ok(false);
                    }
                    for p in &l[1..] {
                        let Node::List(p) = &**p else { return unsup("tuple type") };
                        match t.get(atom(&p[0])?) {
                            Some(x) if admits(&p[1], x)? => {}
                            _ => return Ok(false),
                        }
                    }
                    true
                }
                ("buff" | "string-ascii" | "string-utf8" | "list" | "optional" | "response" | "tuple", _) => false,
                (h, _) => return unsup(format!("type {h}")),
            }
        }
        n => return unsup(format!("type {n:?}")),
    })
}
