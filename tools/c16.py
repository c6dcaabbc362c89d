#!/usr/bin/env python3
"""C16: undefined behaviour. Runs the library workloads under the Miri
interpreter (little- and big-endian) and under AddressSanitizer."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.environ["VERIF_ROOT"]
SEED = int(os.environ.get("VERIF_SEED") or 1)
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
SETUP = len(sys.argv) > 1 and sys.argv[1] == "--setup"
TGT = os.environ["CARGO_TARGET_DIR"]
BE = "s390x-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"
t0 = time.time()

env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", XDG_CACHE_HOME=TGT + "/xdg",
           CC_s390x_unknown_linux_gnu="gcc", AR_s390x_unknown_linux_gnu="ar")
env.pop("RUSTFLAGS", None)
miri_env = dict(env, CARGO_TARGET_DIR=TGT + "/miri", MIRIFLAGS="-Zmiri-symbolic-alignment-check -Zmiri-strict-provenance")
nat_env = dict(env, CARGO_TARGET_DIR=TGT + "/ub-native")
asan_env = dict(env, CARGO_TARGET_DIR=TGT + "/asan", RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=line-tables-only")

def run(cmd, e, cwd, timeout):
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout), str(x.stderr)

def fail(msg):
    print("HARNESS-ERROR C16:", msg[-3000:], file=sys.stderr)
    sys.exit(3)

# content decides freshness, not file times
h = subprocess.run(["bash", "-c", ". %s/tools/build.sh; repo_hash" % ROOT], capture_output=True, text=True).stdout.strip()
stamp = TGT + "/.c16-hash"
if not (os.path.exists(stamp) and open(stamp).read() == h):
    for e, extra in [(nat_env, []), (miri_env, []), (miri_env, ["--target", BE])]:
        run(["cargo", "clean", "--offline", "-q", "-p", "stacks-core"] + extra, e, ROOT + "/harness/miri", 60)
    # `cargo clean -p` does not know the interpreter's own output folder
    for d in (TGT + "/miri/miri",):
        for base, _, files in os.walk(d):
            for f in files:
                if "stacks_core" in f or "stacks-core" in f:
                    os.remove(os.path.join(base, f))
            if os.path.basename(base).startswith("stacks-core-"):
                shutil.rmtree(base, ignore_errors=True)
    for p in ("stacks-core", "sbtc-core"):
        run(["cargo", "clean", "--offline", "-q", "-p", p, "--target", HOST], asan_env, ROOT + "/harness", 60)
    os.makedirs(TGT, exist_ok=True)
    open(stamp, "w").write(h)

UB = ROOT + "/harness/miri"
def build_native():
    return run(["cargo", "build", "--offline", "-q", "-p", "ub"], nat_env, UB, 800)
def build_asan():
    return run(["cargo", "build", "--offline", "-q", "-p", "libcheck", "--target", HOST], asan_env, ROOT + "/harness", 800)
def build_miri(target):
    if target == BE:
        r = run(["cargo", "miri", "setup", "-q", "--target", BE], miri_env, UB, 800)
        if r[0]: return r
    return run(["cargo", "miri", "run", "--offline", "-q", "-p", "ub", "--target", target, "--", "0", "0"], miri_env, UB, 800)
# the sysroot for the host is also built in the private cache
r = run(["cargo", "miri", "setup", "-q", "--target", HOST], miri_env, UB, 800)
if r[0]: fail("miri setup: " + r[2])
with ThreadPoolExecutor(3) as ex:
    fs = [("native", ex.submit(build_native)), ("asan", ex.submit(build_asan)), ("miri", ex.submit(lambda: [build_miri(HOST), build_miri(BE)]))]
    for n, f in fs:
        for r in (f.result() if n == "miri" else [f.result()]):
            if r[0]: fail("build %s: %s" % (n, r[2]))
build_s = time.time() - t0
if SETUP:
    print("c16 built in %.0f s" % build_s); sys.exit(0)
t1 = time.time()

ROUNDS = 120 if THOROUGH else 16
SHARDS = 8 if THOROUGH else 4
viols, events, samples, transcripts = [], 0, [], {}
nat = TGT + "/ub-native/debug/ub"

def shard(a):
    target, i = a
    seed = SEED * 1000 + i
    r = run(["cargo", "miri", "run", "--offline", "-q", "-p", "ub", "--target", target, "--", str(seed), str(ROUNDS)], miri_env, UB, 3000)
    return target, i, seed, r
def asan(a):
    prop, tmp = a
    e = dict(env, ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_stack_use_after_return=1", VERIF_ROOT=tmp, VERIF_THREADS="2",
             VERIF_SCALE="0.2" if THOROUGH else "0.02", VERIF_SEED=str(SEED))
    r = run([TGT + "/asan/" + HOST + "/debug/libcheck", prop], e, tmp, 1500)
    return prop, r

done = re.compile(r"DONE events=(\d+) transcript=(\S+)")
with tempfile.TemporaryDirectory() as tmp, ThreadPoolExecutor(8) as ex:
    shards = [ex.submit(shard, (t, i)) for i in range(SHARDS) for t in (HOST, BE)]
    props = ["C%02d" % i for i in list(range(1, 16)) + [17, 18, 19, 20]]
    asans = [ex.submit(asan, (p, tmp)) for p in props]
    # the native run also checks every result against the references
    nrounds = 200000 if THOROUGH else 20000
    rc, out, err = run([nat, str(SEED), str(nrounds)], env, UB, 1500)
    m = done.search(out)
    if "MISMATCH" in out:
        viols.append(("mismatch", "native run: " + out.strip()))
    elif not m:
        if rc < 0: viols.append(("crash", "native run died with signal %d" % -rc))
        else: fail("native run: %d %s %s" % (rc, out, err))
    native_events = int(m.group(1)) if m else 0
    for f in shards:
        target, i, seed, (rc, out, err) = f.result()
        m = done.search(out)
        if m:
            events += int(m.group(1))
            n = done.search(run([nat, str(seed), str(ROUNDS)], env, UB, 300)[1])
            if not n: fail("native replay of seed %d" % seed)
            transcripts[(target, seed)] = m.group(2)
            samples.append({"target": target, "seed": seed, "rounds": ROUNDS, "results": int(m.group(1)), "transcript": m.group(2)})
            if n.group(2) != m.group(2):
                viols.append(("host-dependent", "seed %d gives other results on %s than natively" % (seed, target)))
        elif "Undefined Behavior" in err:
            w = err[err.index("Undefined Behavior"):][:900]
            viols.append(("undefined-behaviour", "seed %d on %s: %s" % (seed, target, w)))
        elif "MISMATCH" in out:
            viols.append(("mismatch", "seed %d on %s: %s" % (seed, target, out.strip())))
        else:
            fail("miri %s seed %d: rc %d %s %s" % (target, seed, rc, out, err))
    asan_ok = 0
    for f in asans:
        prop, (rc, out, err) = f.result()
        if "AddressSanitizer" in err or rc == 77:
            k = err.find("AddressSanitizer")
            viols.append(("memory-error", "workload of %s: %s" % (prop, err[max(k, 0):][:1200])))
        elif rc < 0:
            viols.append(("crash", "workload of %s died with signal %d" % (prop, -rc)))
        elif rc in (0, 1):
            asan_ok += 1  # wrong results are judged by that property's own check
            m = re.search(r"evaluations=(\d+)", out)
            if m: events += int(m.group(1))
        else:
            print("note: %s under AddressSanitizer gave no verdict: %s" % (prop, err[-300:]), file=sys.stderr)
if asan_ok < 15 and not viols:
    fail("only %d workloads ran under AddressSanitizer" % asan_ok)
os.makedirs(ROOT + "/evidence", exist_ok=True)
json.dump({"property": "C16", "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "exploration",
    "coverage": {"evaluations": events + native_events, "distinct_nontrivial": len(set(transcripts.values())) + asan_ok,
        "rule": "a result produced by a library call under Miri (two byte orders), natively, or under AddressSanitizer; distinct_nontrivial counts distinct interpreted transcripts and sanitized workloads",
        "samples": samples[:4], "miri_shards": len(transcripts), "native_results_checked": native_events,
        "asan_workloads_completed": asan_ok, "build_s": round(build_s, 1)},
    "assumptions": ["functions that call into libsecp256k1 (C code) run under AddressSanitizer only", "Miri and AddressSanitizer are trusted"],
    "wall_s": round(time.time() - t1, 2), "violations": len(viols)}, open(ROOT + "/evidence/C16.json", "w"), indent=1)
if viols:
    os.makedirs(ROOT + "/replays", exist_ok=True)
    seen = set()
    for k, (sig, msg) in enumerate(viols):
        if sig in seen: continue
        seen.add(sig)
        p = "%s/replays/C16-%d.json" % (ROOT, k)
        json.dump({"property": "C16", "seed": SEED, "signature": sig, "message": msg}, open(p, "w"), indent=1)
        print("VIOLATION property=C16 replay=%s" % p)
        print("  [%s] %s" % (sig, msg))
    sys.exit(1)
print("OK property=C16 results=%d miri_shards=%d asan_workloads=%d wall=%.1fs" % (events, len(transcripts), asan_ok, time.time() - t1))
