//! A small interpreter for the Clarity 2 smart contract language, written from
//! the language reference. It covers the functions the asset contracts and
//! their test contracts use and the neighbouring ones an edit may bring in.
//! There is no static checker: a contract that needs something unknown stops
//! with `Stop::Unsupported`, which is a harness problem and not a verdict.
mod eval;
mod parse;
pub use eval::{Chain, Outcome};
pub use parse::{parse, Expr, Node};
use std::{collections::BTreeMap, fmt};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Value {
    Int(i128),
    UInt(u128),
    Bool(bool),
    Buff(Vec<u8>),
    Ascii(String),
    Utf8(String),
    /// version, hash, contract name
    Principal(u8, [u8; 20], Option<String>),
    Optional(Option<Box<Value>>),
    Response(bool, Box<Value>),
    List(Vec<Value>),
    Tuple(BTreeMap<String, Value>),
}
use Value::*;

impl Value {
    pub fn some(v: Value) -> Value {
        Optional(Some(Box::new(v)))
    }
    pub fn none() -> Value {
        Optional(None)
    }
    pub fn ok(v: Value) -> Value {
        Response(true, Box::new(v))
    }
    pub fn err(v: Value) -> Value {
        Response(false, Box::new(v))
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Response(true, _))
    }
    pub fn tuple<const N: usize>(f: [(&str, Value); N]) -> Value {
        Tuple(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Int(_) => "int",
            UInt(_) => "uint",
            Bool(_) => "bool",
            Buff(_) => "buff",
            Ascii(_) => "string-ascii",
            Utf8(_) => "string-utf8",
            Principal(..) => "principal",
            Optional(_) => "optional",
            Response(..) => "response",
            List(_) => "list",
            Tuple(_) => "tuple",
        }
    }
    /// consensus encoding (SIP-005)
    pub fn encode(&self, o: &mut Vec<u8>) {
        match self {
            Int(n) => {
                o.push(0);
                o.extend(n.to_be_bytes());
            }
            UInt(n) => {
                o.push(1);
                o.extend(n.to_be_bytes());
            }
            Buff(b) => {
                o.push(2);
                o.extend((b.len() as u32).to_be_bytes());
                o.extend(b);
            }
            Bool(true) => o.push(3),
            Bool(false) => o.push(4),
            Principal(v, h, None) => {
                o.push(5);
                o.push(*v);
                o.extend(h);
            }
            Principal(v, h, Some(n)) => {
                o.push(6);
                o.push(*v);
                o.extend(h);
                o.push(n.len() as u8);
                o.extend(n.as_bytes());
            }
            Response(ok, v) => {
                o.push(if *ok { 7 } else { 8 });
                v.encode(o);
            }
            Optional(None) => o.push(9),
            Optional(Some(v)) => {
                o.push(10);
                v.encode(o);
            }
            List(l) => {
                o.push(11);
                o.extend((l.len() as u32).to_be_bytes());
                l.iter().for_each(|v| v.encode(o));
            }
            Tuple(t) => {
                o.push(12);
                o.extend((t.len() as u32).to_be_bytes());
                for (k, v) in t {
                    o.push(k.len() as u8);
                    o.extend(k.as_bytes());
                    v.encode(o);
                }
            }
            Ascii(s) => {
                o.push(13);
                o.extend((s.len() as u32).to_be_bytes());
                o.extend(s.as_bytes());
            }
            Utf8(s) => {
                o.push(14);
                o.extend((s.len() as u32).to_be_bytes());
                o.extend(s.as_bytes());
            }
        }
    }
    /// inverse of `encode`; None for malformed bytes
    pub fn decode(b: &mut &[u8]) -> Option<Value> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            if b.len() < n {
                return None;
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Some(x)
        }
        fn len(b: &mut &[u8]) -> Option<usize> {
            Some(u32::from_be_bytes(take(b, 4)?.try_into().ok()?) as usize)
        }
        fn name(b: &mut &[u8]) -> Option<String> {
            let n = take(b, 1)?[0] as usize;
            String::from_utf8(take(b, n)?.to_vec()).ok()
        }
        Some(match take(b, 1)?[0] {
            0 => Int(i128::from_be_bytes(take(b, 16)?.try_into().ok()?)),
            1 => UInt(u128::from_be_bytes(take(b, 16)?.try_into().ok()?)),
            2 => {
                let n = len(b)?;
                Buff(take(b, n)?.to_vec())
            }
            3 => Bool(true),
            4 => Bool(false),
            k @ (5 | 6) => {
                let v = take(b, 1)?[0];
                let h = take(b, 20)?.try_into().ok()?;
                Principal(v, h, if k == 6 { Some(name(b)?) } else { None })
            }
            k @ (7 | 8) => Response(k == 7, Box::new(Value::decode(b)?)),
            9 => Optional(None),
            10 => Value::some(Value::decode(b)?),
            11 => {
                let n = len(b)?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push(Value::decode(b)?);
                }
                List(l)
            }
            12 => {
                let n = len(b)?;
                let mut t = BTreeMap::new();
                for _ in 0..n {
                    t.insert(name(b)?, Value::decode(b)?);
                }
                Tuple(t)
            }
            13 => {
                let n = len(b)?;
                Ascii(String::from_utf8(take(b, n)?.to_vec()).ok()?)
            }
            14 => {
                let n = len(b)?;
                Utf8(String::from_utf8(take(b, n)?.to_vec()).ok()?)
            }
            _ => return None,
        })
    }
}
impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Int(n) => write!(f, "{n}"),
            UInt(n) => write!(f, "u{n}"),
            Bool(b) => write!(f, "{b}"),
            Buff(b) => {
                write!(f, "0x")?;
                b.iter().try_for_each(|x| write!(f, "{x:02x}"))
            }
            Ascii(s) => write!(f, "{s:?}"),
            Utf8(s) => write!(f, "u{s:?}"),
            Principal(v, h, c) => {
                write!(f, "'{}", refs::stacks_address(*v, h))?;
                c.iter().try_for_each(|c| write!(f, ".{c}"))
            }
            Optional(None) => write!(f, "none"),
            Optional(Some(v)) => write!(f, "(some {v})"),
            Response(true, v) => write!(f, "(ok {v})"),
            Response(false, v) => write!(f, "(err {v})"),
            List(l) => {
                write!(f, "(list")?;
                l.iter().try_for_each(|v| write!(f, " {v}"))?;
                write!(f, ")")
            }
            Tuple(t) => {
                write!(f, "{{")?;
                t.iter().try_for_each(|(k, v)| write!(f, " {k}: {v},"))?;
                write!(f, " }}")
            }
        }
    }
}
/// why an evaluation stopped early
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// `asserts!`, `try!`, `unwrap!`: the enclosing function returns this
    Return(Value),
    /// runtime error: the transaction is aborted and has no effect
    Abort(String),
    /// the interpreter cannot tell
    Unsupported(String),
}
pub type Res<T = Value> = Result<T, Stop>;
