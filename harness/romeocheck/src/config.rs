//! The configuration the bridge runs with is the one its file describes.
use std::path::{Path, PathBuf};

use bdk::bitcoin::Network;
use libcheck::{
    gen::NETWORKS,
    wallet::{btc_ref, derive, mnemonic, mnemonic_ok, seed_of},
};
use mon::{
    check, check_eq, harness, json,
    rand::{rngs::StdRng, seq::SliceRandom, Rng},
    viol, Case, CaseResult, Run, Value,
};
use romeo::config::Config;
use stacks_core::Network as StacksNetwork;

const H: u32 = 1 << 31;

fn net_name(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "bitcoin",
        Network::Testnet => "testnet",
        Network::Signet => "signet",
        Network::Regtest => "regtest",
    }
}
fn word(r: &mut StdRng) -> String {
    let n = r.gen_range(1..9);
    (0..n).map(|_| *b"abcdefghijklmnopqrstuvwxyz0123456789".choose(r).unwrap() as char).collect()
}
fn name(r: &mut StdRng) -> String {
    let n = r.gen_range(0..39);
    let first = *b"abcXYZ".choose(r).unwrap() as char;
    std::iter::once(first).chain((0..n).map(|_| *b"abcXYZ019-_".choose(r).unwrap() as char)).collect()
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// `p` as a path relative to the working directory
fn relative(p: &Path) -> PathBuf {
    let cwd = std::env::current_dir().unwrap();
    let mut out = PathBuf::new();
    for _ in cwd.components().skip(1) {
        out.push("..");
    }
    out.join(p.strip_prefix("/").unwrap())
}
/// without `.` and `..`
fn plain(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                out.pop();
            }
            std::path::Component::CurDir => {}
            c => out.push(c),
        }
    }
    out
}
struct Given {
    mnemonic: String,
    stacks: &'static str,
    bitcoin: Network,
    state: String,
    urls: [String; 3],
    contract: String,
    key: Option<String>,
    strict: Option<bool>,
}
fn given(r: &mut StdRng) -> (Given, Value) {
    let host = |r: &mut StdRng| match r.gen_range(0..3) {
        0 => format!("{}.example", word(r)),
        1 => format!("127.0.0.1:{}", r.gen_range(1000..60000)),
        _ => format!("{}:{}@localhost:{}", word(r), word(r), r.gen_range(1000..60000)),
    };
    let g = Given {
        mnemonic: mnemonic(r),
        stacks: *["mainnet", "testnet"].choose(r).unwrap(),
        bitcoin: *NETWORKS.choose(r).unwrap(),
        state: match r.gen_range(0..6) {
            0 => format!("/{}/{}", word(r), word(r)),
            1 => ".".into(),
            2 => format!("../{}", word(r)),
            3 => format!("./{}/{}", word(r), word(r)),
            4 => format!("{}/", word(r)),
            _ => word(r),
        },
        urls: [format!("http://{}/", host(r)), format!("https://{}/wallet/{}", host(r), word(r)), format!("tcp://{}", host(r))],
        contract: name(r),
        key: r.gen_bool(0.5).then(|| word(r)),
        strict: *[None, Some(true), Some(false)].choose(r).unwrap(),
    };
    let mut v = json!({
        "state_directory": g.state, "mnemonic": g.mnemonic, "stacks_network": g.stacks, "bitcoin_network": net_name(g.bitcoin),
        "stacks_node_url": g.urls[0], "bitcoin_node_url": g.urls[1], "electrum_node_url": g.urls[2], "contract_name": g.contract,
    });
    let o = v.as_object_mut().unwrap();
    match &g.key {
        Some(k) => {
            o.insert("hiro_api_key".into(), json!(k));
        }
        None if r.gen() => {
            o.insert("hiro_api_key".into(), Value::Null);
        }
        None => {}
    }
    if let Some(s) = g.strict {
        o.insert("strict".into(), json!(s));
    }
    (g, v)
}
fn read(p: &Path) -> Option<Result<Config, String>> {
    // giving up loudly is as good as an error here: the bridge does not start
    std::panic::catch_unwind(|| Config::from_path(p).map_err(|e| e.to_string())).ok()
}
fn good(c: &mut Case) -> CaseResult {
    let (g, v) = given(&mut c.rng);
    let root = Dir(crate::e2e::scratch("config"));
    let sub = root.0.join(word(&mut c.rng));
    std::fs::create_dir_all(&sub).map_err(|e| harness(format!("{e}")))?;
    let file = sub.join(format!("{}.json", word(&mut c.rng)));
    std::fs::write(&file, v.to_string()).map_err(|e| harness(format!("{e}")))?;
    let rel = c.rng.gen_bool(0.4);
    let path = if rel { relative(&file) } else { file.clone() };
    let cfg = match read(&path) {
        Some(Ok(cfg)) => cfg,
        Some(Err(e)) => return Err(viol("refused", format!("{v}: {e}"))),
        None => return Err(viol("refused", format!("{v}: aborted"))),
    };
    let main = g.stacks == "mainnet";
    let seed = seed_of(&g.mnemonic);
    check_eq!(cfg.stacks_network, if main { StacksNetwork::Mainnet } else { StacksNetwork::Testnet }, "network", "Stacks network");
    check_eq!(cfg.bitcoin_network, g.bitcoin, "network", "Bitcoin network");
    check_eq!(cfg.stacks_credentials.network(), cfg.stacks_network, "network", "network of the Stacks credentials");
    check_eq!(cfg.bitcoin_credentials.network(), g.bitcoin, "network", "network of the Bitcoin credentials");
    check_eq!(cfg.stacks_credentials.private_key().secret_bytes(), derive(&seed, &[H + 44, H + 5757, H, 0, 0]), "key", "Stacks key");
    let tr = btc_ref(&seed, g.bitcoin, 86, 0);
    check_eq!(cfg.bitcoin_credentials.private_key_p2tr().secret_bytes(), tr.key, "key", "Bitcoin key");
    check_eq!(cfg.sbtc_wallet_address().to_string(), tr.address, "wallet-address", "sBTC wallet");
    let urls = [&cfg.stacks_node_url, &cfg.bitcoin_node_url, &cfg.electrum_node_url];
    for (got, want) in urls.iter().zip(&g.urls) {
        check_eq!(got.as_str().trim_end_matches('/'), want.trim_end_matches('/'), "url", "node address");
    }
    check_eq!(&*cfg.contract_name, g.contract.as_str(), "contract", "contract name");
    check_eq!(cfg.hiro_api_key, g.key, "api-key", "API key");
    check_eq!(cfg.strict, g.strict.unwrap_or(false), "strict", "strict mode");
    let want = plain(&sub.join(&g.state));
    check!(cfg.state_directory.is_absolute(), "state-directory", "{} is not absolute", cfg.state_directory.display());
    check_eq!(plain(&cfg.state_directory), want, "state-directory", "state directory {:?} of {}", g.state, path.display());
    c.count(if rel { "loaded_by_relative_path" } else { "loaded" });
    if g.state.starts_with('/') {
        c.count("absolute_state_directory");
    }
    c.nontrivial(v.to_string());
    Ok(())
}
fn bad(c: &mut Case) -> CaseResult {
    let (g, mut v) = given(&mut c.rng);
    let r = &mut c.rng;
    let o = v.as_object_mut().unwrap();
    let fields = ["state_directory", "mnemonic", "stacks_network", "bitcoin_network", "stacks_node_url", "bitcoin_node_url", "electrum_node_url", "contract_name"];
    let kind = c.idx % 9;
    let mut text = None;
    match kind {
        0 => {
            o.remove(*fields.choose(r).unwrap());
        }
        1 => {
            o.insert((*fields.choose(r).unwrap()).into(), [json!(7), json!(null), json!(["x"]), json!({})].choose(r).unwrap().clone());
        }
        2 => {
            let mut w: Vec<&str> = g.mnemonic.split(' ').collect();
            match r.gen_range(0..3) {
                0 => {
                    w.pop();
                }
                1 => w.push("abandon"),
                _ => {
                    let i = r.gen_range(0..w.len());
                    w[i] = ["abandon", "zoo", "zzzz", "Abandon"].choose(r).unwrap();
                }
            }
            if mnemonic_ok(&w) {
                return Ok(());
            }
            o.insert("mnemonic".into(), json!(w.join(" ")));
        }
        3 => {
            o.insert("stacks_network".into(), json!(["bitcoin", "regtest", "", "main net"].choose(r).unwrap()));
        }
        4 => {
            o.insert("bitcoin_network".into(), json!(["mainnet1", "main", "", "test net"].choose(r).unwrap()));
        }
        5 => {
            let f = *["stacks_node_url", "bitcoin_node_url", "electrum_node_url"].choose(r).unwrap();
            o.insert(f.into(), json!(["", "localhost", "//x/y", "http://", "http://a b/"].choose(r).unwrap()));
        }
        6 => {
            o.insert("contract_name".into(), json!(["", "1abc", "a b", "a.b", "ä", "-a"].choose(r).unwrap()));
        }
        7 => {
            let t = v.to_string();
            text = Some(t[..r.gen_range(0..t.len())].to_string());
        }
        _ => text = Some(String::new()),
    }
    let root = Dir(crate::e2e::scratch("config"));
    let file = root.0.join("config.json");
    let text = text.unwrap_or(v.to_string());
    if kind != 8 {
        std::fs::write(&file, &text).map_err(|e| harness(format!("{e}")))?;
    }
    match read(&file) {
        Some(Ok(cfg)) => return Err(viol("accepted", format!("kind {kind}: {text} gave {cfg:?}"))),
        Some(Err(_)) => c.count("refused_with_error"),
        None => c.count("refused_by_aborting"),
    }
    c.nontrivial(text);
    Ok(())
}
pub fn c39(run: &mut Run) {
    run.require("loaded", 200);
    run.require("loaded_by_relative_path", 100);
    run.require("absolute_state_directory", 40);
    run.require("refused_with_error", 300);
    let n = run.n(600, 20_000);
    run.stream("valid", n, good);
    let n = run.n(700, 20_000);
    run.stream("invalid", n, bad);
}
