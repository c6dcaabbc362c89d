mod config;
mod e2e;
mod net;
mod proof;
mod sim;
mod status;
mod world;

use mon::{json, rand::Rng, viol, Case, CaseResult, Run};
use sim::{Opts, Sim};

/// one simulated history judged for one property
fn history(c: &mut Case, prop: &str, crashes: bool) -> CaseResult {
    let mut cfg = world::config(&mut c.rng);
    if prop == "C34" && c.idx % 3 == 0 {
        cfg.strict = true;
    }
    let r = &mut c.rng;
    let o = Opts {
        crashes: if crashes { r.gen_range(1..6) } else { 0 },
        max_ops: *[0usize, 1, 2, 4, 8].get(r.gen_range(0..5usize)).unwrap(),
        steps: *[40usize, 120, 300, 700].get(r.gen_range(0..4usize)).unwrap(),
        reject: if r.gen_bool(0.5) { 0.0 } else { 0.15 },
        broadcast_fail: if r.gen_bool(0.6) { 0.0 } else { 0.3 },
        key_reject: if r.gen_bool(0.95) { 0.0 } else { 0.3 },
        fifo: r.gen_bool(0.3),
    };
    let strict = cfg.strict;
    c.count(if strict { "strict_histories" } else { "lenient_histories" });
    let (out, trace, n) = {
        let mut s = Sim::new(c, cfg, o);
        s.run();
        let n = s.log.len();
        (std::mem::take(&mut s.out), std::mem::take(&mut s.trace), n)
    };
    c.count_n("events", n as u64);
    c.sample(|| json!({"strict": strict, "events": n, "trace": trace.iter().take(40).collect::<Vec<_>>()}));
    // an unlisted violation first, so a listed one cannot hide it
    let mut mine: Vec<_> = out.into_iter().filter(|f| f.prop == prop).collect();
    mine.sort_by_key(|f| ["created-task-lost", "broadcast-forgotten"].contains(&f.sig.as_str()));
    if let Some(f) = mine.into_iter().next() {
        let n = trace.len();
        c.detail = Some(json!({"strict": strict, "trace_tail": trace[n.saturating_sub(120)..].to_vec()}));
        return Err(viol(f.sig, f.msg));
    }
    Ok(())
}

fn c30(run: &mut Run) {
    run.require("mint_tasks", 1000);
    let n = run.n(1600, 60_000);
    run.stream("histories", n, |c| history(c, "C30", false));
    let n = run.n(800, 30_000);
    run.stream("histories_with_restarts", n, |c| history(c, "C30", true));
    let n = run.n(120, 3000);
    run.stream("bridge_process", n, |c| e2e::process(c, "C30", c.idx % 3 == 2));
}
fn c31(run: &mut Run) {
    run.require("fulfill_tasks", 1000);
    let n = run.n(1600, 60_000);
    run.stream("histories", n, |c| history(c, "C31", false));
    let n = run.n(800, 30_000);
    run.stream("histories_with_restarts", n, |c| history(c, "C31", true));
    let n = run.n(120, 3000);
    run.stream("bridge_process", n, |c| e2e::process(c, "C31", c.idx % 3 == 2));
}
fn c32(run: &mut Run) {
    run.require("restarts", 1000);
    let n = run.n(2000, 80_000);
    run.stream("histories_with_restarts", n, |c| history(c, "C32", true));
    let n = run.n(200, 5000);
    run.stream("bridge_process", n, |c| e2e::process(c, "C32", true));
}
fn c34(run: &mut Run) {
    run.require("deposits_minted", 1000);
    run.require("withdrawals_paid", 500);
    let n = run.n(2000, 80_000);
    run.stream("histories", n, |c| history(c, "C34", false));
    let n = run.n(800, 30_000);
    run.stream("histories_with_restarts", n, |c| history(c, "C34", true));
    let n = run.n(120, 3000);
    run.stream("bridge_process", n, |c| e2e::process(c, "C34", c.idx % 3 == 2));
}
fn c38(run: &mut Run) {
    run.require("bitcoin_block", 1000);
    let n = run.n(1600, 60_000);
    run.stream("histories", n, |c| history(c, "C38", false));
    let n = run.n(800, 30_000);
    run.stream("histories_with_restarts", n, |c| history(c, "C38", true));
    let n = run.n(120, 3000);
    run.stream("bridge_process", n, |c| e2e::process(c, "C38", c.idx % 3 == 2));
}

fn c33(run: &mut Run) {
    run.require("torn_starts", 300);
    run.require("records_appended", 300);
    let n = run.n(80, 2000);
    run.stream("torn_log", n, e2e::torn);
    let n = run.n(150, 3000);
    run.stream("bridge_process_kills", n, |c| e2e::process(c, "C33", true));
}
fn c36(run: &mut Run) {
    run.require("stacks_posts", 500);
    let n = run.n(300, 6000);
    run.stream("bridge_process", n, |c| e2e::process(c, "C36", false));
    let n = run.n(100, 2000);
    run.stream("bridge_process_kills", n, |c| e2e::process(c, "C36", true));
}
fn c37(run: &mut Run) {
    run.require("moved_while_asked", 300);
    run.require("temporary_failures", 300);
    run.require("answered_rejected", 50);
    let n = run.n(120, 3000);
    run.stream("bitcoin_status", n, status::bitcoin);
    let n = run.n(200, 4000);
    run.stream("stacks_status", n, status::stacks);
}

fn e2e_dev(run: &mut Run) {
    let n = run.n(200, 2000);
    run.stream("process", n, |c| {
        let prop = std::env::var("E2E_PROP").unwrap_or("all".into());
        e2e::process(c, &prop, std::env::var_os("E2E_KILLS").is_some())
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    // error texts are quoted in findings: keep them short
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let table: &[(&str, &str, fn(&mut Run))] = &[
        ("C30", "random truthful histories; non-trivial = distinct recorded event sequences", c30),
        ("C31", "random truthful histories; non-trivial = distinct recorded event sequences", c31),
        ("C32", "random truthful histories with restarts; non-trivial = distinct recorded event sequences", c32),
        ("C34", "random truthful histories; non-trivial = distinct recorded event sequences", c34),
        ("C35", "blocks of structured sizes, every position; non-trivial = distinct (block, position)", proof::c35),
        ("C33", "cut event logs; non-trivial = distinct (record, cut)", c33),
        ("C36", "whole bridge runs; non-trivial = distinct event logs", c36),
        ("C37", "node timelines; non-trivial = distinct sequences of transitions, failures and answers", c37),
        ("C39", "configuration files; non-trivial = distinct files", config::c39),
        ("E2E", "dev", e2e_dev),
        ("C38", "random truthful histories; non-trivial = distinct recorded event sequences", c38),
    ];
    let Some((_, rule, f)) = table.iter().find(|t| t.0 == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(4);
    };
    let mut run = Run::from_env(&id, "exploration", rule);
    f(&mut run);
    std::process::exit(run.finish());
}
