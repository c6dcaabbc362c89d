use crate::Value;

#[derive(Clone, Debug)]
pub enum Node {
    Atom(String),
    Lit(Value),
    /// `.name` contract in the same account
    Sibling(String),
    List(Vec<Expr>),
    Tuple(Vec<(String, Expr)>),
}
pub type Expr = std::rc::Rc<Node>;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
pub fn parse(s: &str) -> Result<Vec<Expr>, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let mut v = vec![];
    loop {
        p.ws();
        if p.i == p.s.len() {
            return Ok(v);
        }
        v.push(p.expr()?);
    }
}
fn delim(c: u8) -> bool {
    c.is_ascii_whitespace() || b"(){};,\"".contains(&c)
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            if self.s[self.i].is_ascii_whitespace() || self.s[self.i] == b',' {
                self.i += 1;
            } else if self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn word(&mut self) -> String {
        let a = self.i;
        while self.peek().map_or(false, |c| !delim(c)) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o = vec![];
        loop {
            match self.peek().ok_or("unterminated string")? {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(o).map_err(|e| e.to_string());
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek().ok_or("unterminated string")?;
                    self.i += 1;
                    o.push(match c {
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'r' => b'\r',
                        b'0' => 0,
                        b'\\' | b'"' => c,
                        _ => return Err(format!("escape \\{}", c as char)),
                    });
                }
                c => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn expr(&mut self) -> Result<Expr, String> {
        self.ws();
        let c = self.peek().ok_or("unexpected end")?;
        let n = match c {
            b'(' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == Some(b')') {
                        self.i += 1;
                        break Node::List(v);
                    }
                    v.push(self.expr()?);
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == Some(b'}') {
                        self.i += 1;
                        break Node::Tuple(v);
                    }
                    let mut k = self.word();
                    self.ws();
                    if k.ends_with(':') {
                        k.pop();
                    } else {
                        let w = self.word();
                        if w != ":" {
                            return Err(format!("tuple key {k} without ':'"));
                        }
                    }
                    v.push((k, self.expr()?));
                }
            }
            b'"' => Node::Lit(Value::Ascii(self.string()?)),
            b')' | b'}' => return Err(format!("unexpected {} at {}", c as char, self.i)),
            b'u' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                Node::Lit(Value::Utf8(self.string()?))
            }
            _ => {
                let w = self.word();
                let rest = &w[1..];
                if let Some(h) = w.strip_prefix("0x") {
                    if h.len() % 2 != 0 {
                        return Err(format!("odd hex {w}"));
                    }
                    let b: Result<Vec<u8>, _> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16)).collect();
                    Node::Lit(Value::Buff(b.map_err(|e| format!("{w}: {e}"))?))
                } else if c == b'u' && !rest.is_empty() && rest.bytes().all(|b| b.is_ascii_digit()) {
                    Node::Lit(Value::UInt(rest.parse().map_err(|e| format!("{w}: {e}"))?))
                } else if c.is_ascii_digit() || (c == b'-' && rest.bytes().next().map_or(false, |b| b.is_ascii_digit())) {
                    Node::Lit(Value::Int(w.parse().map_err(|e| format!("{w}: {e}"))?))
                } else if c == b'\'' {
                    Node::Lit(principal(rest)?)
                } else if c == b'.' {
                    Node::Sibling(rest.to_string())
                } else {
                    match w.as_str() {
                        "true" => Node::Lit(Value::Bool(true)),
                        "false" => Node::Lit(Value::Bool(false)),
                        "none" => Node::Lit(Value::none()),
                        _ => Node::Atom(w),
                    }
                }
            }
        };
        Ok(n.into())
    }
}
/// `SP....name` or `SP...`
pub fn principal(t: &str) -> Result<Value, String> {
    let (a, n) = match t.split_once('.') {
        Some((a, n)) => (a, Some(n.to_string())),
        None => (t, None),
    };
    let body = a.strip_prefix('S').ok_or("principal prefix")?;
    let alphabet = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
    let ver = alphabet.iter().position(|c| Some(c) == body.as_bytes().first()).ok_or("principal version")? as u8;
    let raw = refs::c32_decode_strict(&body[1..]).ok_or("principal text")?;
    // leading zero bytes are kept as leading '0' characters
    let mut b = vec![0u8; 24usize.saturating_sub(raw.len())];
    b.extend(&raw);
    if b.len() != 24 {
        return Err(format!("principal length {}", b.len()));
    }
    let h: [u8; 20] = b[..20].try_into().unwrap();
    if refs::stacks_address(ver, &h) != a {
        return Err(format!("principal checksum {a}"));
    }
    Ok(Value::Principal(ver, h, n))
}
