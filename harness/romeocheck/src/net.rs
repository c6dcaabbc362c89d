//! Loopback servers: bitcoind's JSON-RPC over HTTP and an Electrum server.
use std::{
    io::{BufRead, BufReader, Read, Write},
    net::{Shutdown, TcpListener, TcpStream},
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    thread::JoinHandle,
    time::Duration,
};

use mon::{json, Value};

pub enum Reply {
    Result(Value),
    Error(i64, &'static str),
    /// an HTTP status with no JSON
    Http(u16),
    /// not even HTTP
    Garbage,
}
pub type RpcHandler = Arc<dyn Fn(&str, &Value) -> Reply + Send + Sync>;
pub type ElectrumHandler = Arc<dyn Fn(&str, &Value) -> Option<Result<Value, String>> + Send + Sync>;

pub struct Server {
    pub port: u16,
    stop: Arc<AtomicBool>,
    socks: Arc<Mutex<Vec<TcpStream>>>,
    accept: Option<JoinHandle<()>>,
}
fn listen(f: impl Fn(TcpStream) + Send + Sync + 'static, threads: bool) -> std::io::Result<Server> {
    let l = TcpListener::bind("127.0.0.1:0")?;
    let port = l.local_addr()?.port();
    let stop = Arc::new(AtomicBool::new(false));
    let socks: Arc<Mutex<Vec<TcpStream>>> = Default::default();
    let (st, so) = (stop.clone(), socks.clone());
    let f = Arc::new(f);
    let accept = std::thread::spawn(move || {
        let mut hs = vec![];
        while let Ok((s, _)) = l.accept() {
            if st.load(Ordering::SeqCst) {
                break;
            }
            let _ = s.set_nodelay(true);
            if threads {
                if let Ok(c) = s.try_clone() {
                    so.lock().unwrap().push(c);
                }
                let f = f.clone();
                hs.push(std::thread::spawn(move || f(s)));
            } else {
                f(s);
            }
        }
        for h in hs {
            let _ = h.join();
        }
    });
    Ok(Server { port, stop, socks, accept: Some(accept) })
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        for s in self.socks.lock().unwrap().drain(..) {
            let _ = s.shutdown(Shutdown::Both);
        }
        if let Some(h) = self.accept.take() {
            let _ = h.join();
        }
    }
}

fn http(s: TcpStream, h: &RpcHandler) -> Option<()> {
    s.set_read_timeout(Some(Duration::from_secs(10))).ok()?;
    let mut w = s.try_clone().ok()?;
    let mut r = BufReader::new(s);
    let mut len = 0usize;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let l = line.trim_end().to_ascii_lowercase();
        if let Some(v) = l.strip_prefix("content-length:") {
            len = v.trim().parse().ok()?;
        }
        if l.is_empty() {
            break;
        }
    }
    let mut body = vec![0; len];
    r.read_exact(&mut body).ok()?;
    let q: Value = serde_json::from_slice(&body).ok()?;
    let (code, text) = match h(q["method"].as_str().unwrap_or(""), &q["params"]) {
        Reply::Result(v) => (200, json!({"result": v, "error": null, "id": q["id"]}).to_string()),
        Reply::Error(c, m) => (if c == -32601 { 404 } else { 500 }, json!({"result": null, "error": {"code": c, "message": m}, "id": q["id"]}).to_string()),
        Reply::Http(c) => (c, "Service Unavailable".to_string()),
        Reply::Garbage => {
            let _ = w.write_all(b"\x15\x03\x01\x00\x02\x02\x46\r\n\r\n\r\n");
            return Some(());
        }
    };
    let text = text + "\n";
    let _ = w.write_all(format!("HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{text}", text.len()).as_bytes());
    Some(())
}
pub fn rpc(h: RpcHandler) -> std::io::Result<Server> {
    listen(
        move |s| {
            http(s, &h);
        },
        true,
    )
}

fn electrum_conn(s: TcpStream, h: &ElectrumHandler) -> Option<()> {
    let mut w = s.try_clone().ok()?;
    let mut r = BufReader::new(s);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let q: Value = serde_json::from_str(&line).ok()?;
        // no answer: the connection is dropped
        let reply = match h(q["method"].as_str().unwrap_or(""), &q["params"])? {
            Ok(v) => json!({"jsonrpc": "2.0", "id": q["id"], "result": v}),
            Err(e) => json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": 1, "message": e}}),
        };
        w.write_all(format!("{reply}\n").as_bytes()).ok()?;
    }
}
pub fn electrum(h: ElectrumHandler) -> std::io::Result<Server> {
    listen(
        move |s| {
            if electrum_conn(s.try_clone().unwrap(), &h).is_none() {
                let _ = s.shutdown(Shutdown::Both);
            }
        },
        true,
    )
}
