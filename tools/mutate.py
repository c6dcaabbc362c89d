#!/usr/bin/env python3
"""Development aid: small random edits of the code under test, to find edits no check notices.
mutate.py WORKDIR WORKERS COUNT SEED [file substring]
Each worker has its own copy of /repo and of the harness under WORKDIR.
Results: WORKDIR/results.jsonl, one line per edit."""
import json, os, random, re, shutil, subprocess, sys, threading, time
V='/verif'
work, workers, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
only = sys.argv[5] if len(sys.argv) > 5 else ''
CHECKS = [
 ('stacks-core/src/address.rs', 'libcheck', 'C14 C10 C11 C12 C02'),
 ('stacks-core/src/c32.rs', 'libcheck', 'C10 C12'),
 ('stacks-core/src/codec.rs', 'libcheck', 'C11 C12 C13'),
 ('stacks-core/src/contract_name.rs', 'libcheck', 'C13 C11 C12'),
 ('stacks-core/src/lib.rs', 'libcheck', 'C25 C11 C17 C12 C18'),
 ('stacks-core/src/uint.rs', 'libcheck', 'C15 C17'),
 ('stacks-core/src/utils.rs', 'libcheck', 'C13 C11 C12 C10'),
 ('stacks-core/src/wallet.rs', 'libcheck', 'C19 C20'),
 ('stacks-core/src/crypto', 'libcheck', 'C17 C18 C14'),
 ('sbtc-core/src/operations/commit_reveal', 'libcheck', 'C09 C08'),
 ('sbtc-core/src/operations/op_return/deposit.rs', 'libcheck', 'C01 C06 C02'),
 ('sbtc-core/src/operations/op_return/utils.rs', 'libcheck', 'C07 C02'),
 ('sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs', 'libcheck', 'C05 C06'),
 ('sbtc-core/src/operations/op_return/withdrawal_request.rs', 'libcheck', 'C03 C04 C06 C02'),
 ('sbtc-core/src/operations', 'libcheck', 'C01 C03 C05 C06 C02 C09'),
 ('sbtc-cli/src/commands/broadcast.rs', 'clicheck', 'C24'),
 ('sbtc-cli/src/commands/deposit.rs', 'clicheck', 'C22'),
 ('sbtc-cli/src/commands/withdraw.rs', 'clicheck', 'C23'),
 ('sbtc-cli/src/commands/generate.rs', 'clicheck', 'C21'),
 ('sbtc-cli/src', 'clicheck', 'C21 C22 C23 C24'),
 ('romeo/src/state.rs', 'romeocheck', 'C30 C31 C34 C32 C38'),
 ('romeo/src/system.rs', 'romeocheck', 'C36 C33 C34 C31 C32'),
 ('romeo/src/stacks_client.rs', 'romeocheck', 'C37 C36 C34'),
 ('romeo/src/bitcoin_client.rs', 'romeocheck', 'C37 C34 C31'),
 ('romeo/src/proof_data.rs', 'romeocheck', 'C35'),
 ('romeo/src/config.rs', 'romeocheck', 'C39 C36 C34'),
 ('romeo/asset-contract/contracts', 'claritycheck', 'C50 C51 C52 C53 C54 C55'),
]
def plan(f):
    for pre, pkg, ids in CHECKS:
        if f.startswith(pre): return pkg, ids.split()
OPS = [
 (r'(?<![<>=!\-])<(?![<=])(?= )', '<='), (r'(?<= )>(?![>=])(?= )', '>='), (r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'),
 (r'&&', '||'), (r'\|\|(?! ?[\w{])', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'<<', '>>'), (r'>>(?!\()', '<<'), (r' \| ', ' & '), (r' & ', ' | '), (r' \^ ', ' | '), (r' % ', ' / '),
 (r'\.reverse\(\)', '.len()'), (r'\.rev\(\)', ''), (r'if !', 'if '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\bMainnet', 'Testnet'), (r'\bTestnet', 'Mainnet'), (r'SingleSig', 'MultiSig'), (r'MultiSig', 'SingleSig'), (r'\bSegWit', 'Sh'),
 (r'_be_bytes', '_le_bytes'), (r'_le_bytes', '_be_bytes'), (r'checked_add', 'wrapping_add'), (r'checked_sub', 'wrapping_sub'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'),
 (r'\bSome\(', 'None.or(Some('), (r'\?;', '.ok();'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.first\(', '.last('), (r'\.last\(', '.first('), (r'\.next\(\)', '.last()'),
 (r'\bOk\(\(\)\)', 'Ok(())/**/'), (r'\.is_some\(', '.is_none('), (r'\.is_none\(', '.is_some('), (r'\.is_ok\(', '.is_err('), (r'\.is_err\(', '.is_ok('),
 (r'Confirmed', 'Rejected'), (r'Rejected', 'Confirmed'), (r'Bitcoin\b', 'Testnet'), (r'Signet', 'Regtest'), (r'Regtest', 'Signet'),
 (r'Compressed', 'Uncompressed'), (r'read_exact', 'read'), (r'write_all', 'write'), (r'\.compressed', '.compressed /**/'),
 (r'\.dust_value\(\)\.to_sat\(\)', '.dust_value().to_sat() + 1'), (r'is-eq', 'not-eq'), (r'\bu(\d+)\b', 'u1\\1'), (r'tx-sender', 'contract-caller'),
]
def sites(path):
    text = open(f'/repo/{path}').read()
    cut = text.find('#[cfg(test)]') if path.endswith('.rs') else -1
    body = text if cut < 0 else text[:cut]
    out, off = [], 0
    for line in body.splitlines(keepends=True):
        code = line.strip()
        skip = not code or code.startswith(('//', '#[', 'use ', 'pub use', ';;', 'mod ', 'pub mod', '///', '*', 'extern'))
        if not skip:
            c = line.find('//')
            end = len(line) if c < 0 else c
            for pat, rep in OPS:
                for m in re.finditer(pat, line[:end]):
                    new = line[:m.start()] + m.expand(rep) + line[m.end():]
                    if rep.count('(') > rep.count(')') and '(Some(' in rep: continue
                    out.append((off, line, new))
            for m in re.finditer(r"(?<![\w.#'])(0x[0-9a-fA-F]+|\d+)(?![\w'.])", line[:end]):
                n = int(m.group(1), 0)
                for v in {n + 1, max(n - 1, 0), n * 2} - {n}:
                    out.append((off, line, line[:m.start()] + str(v) + line[m.end():]))
            for m in re.finditer(r"b?'(\S)'", line[:end]):
                out.append((off, line, line[:m.start()] + m.group(0).replace(m.group(1), '~') + line[m.end():]))
            if code.endswith(';') and not code.startswith(('let', 'return', 'pub', 'type', 'const', 'static', 'break', 'continue', 'fn', '}', ')', '.')):
                out.append((off, line, '\n'))
            m = re.match(r'(\s*)(else )?if (?!let)(.*) \{\s*$', line)
            if m:
                for b in ('true', 'false'):
                    out.append((off, line, f'{m.group(1)}{m.group(2) or ""}if {b} {{\n'))
            m = re.match(r'(\s*)\.(\w+)\([^()]*\)\s*$', line)
            if m and m.group(2) not in ('unwrap',):
                out.append((off, line, '\n'))
        off += len(line)
    return [(path, o, a, b) for o, a, b in out if a != b]
files = subprocess.run("git -C /repo ls-files '*.rs' '*.clar'", shell=True, capture_output=True, text=True).stdout.split()
files = [f for f in files if plan(f) and only in f and '/tests/' not in f]
rng = random.Random(seed)
per = {f: sites(f) for f in files}
allm = [m for f in files for m in per[f]]
rng.shuffle(allm)
todo = allm[:count]
again = os.environ.get('MUT_AGAIN')  # results file whose survivors are tried again, against every check of their package
ALL = {'libcheck': [f'C{i:02}' for i in range(1, 26) if i not in (16, 21, 22, 23, 24)], 'clicheck': ['C21', 'C22', 'C23', 'C24'],
       'romeocheck': [f'C{i}' for i in range(30, 40)], 'claritycheck': [f'C{i}' for i in range(50, 55)]}
if again:
    todo = []
    for d in map(json.loads, open(again)):
        if d['verdict'] not in ('survived', 'noanswer') or only not in d['file']: continue
        cand = [m for m in per.get(d['file'], []) if m[2].strip() == d['old'] and m[3].strip() == d['new']]
        if cand: todo.append(min(cand, key=lambda m: abs(m[1] - d['off'])))
mine = os.environ.get('MUT_EDITS')  # Python file with EDITS = [(file, old, new)]: exactly these edits
if mine:
    ns = {}
    exec(open(mine).read(), ns)
    todo = []
    for f, a, b in ns['EDITS']:
        t = open(f'/repo/{f}').read()
        if t.count(a) < 1: print('NOT FOUND', f, a[:80]); continue
        if t.count(a) > 1: print('AMBIGUOUS, first taken', f, a[:80])
        todo.append((f, t.index(a), a, b))
print(len(allm), 'edits possible,', len(todo), 'chosen', flush=True)
os.makedirs(work, exist_ok=True)
lock = threading.Lock()
res = open(f'{work}/results.jsonl', 'a')
done = {(d['file'], d['off'], d['new']) for d in map(json.loads, open(f'{work}/results.jsonl'))}
def sh(c, env=None, t=900):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), '')
def worker(k):
    w = f'{work}/w{k}'
    if not os.path.exists(w):
        os.makedirs(w)
        sh(f'git -C /repo worktree prune; mkdir {w}/repo; git -C /repo archive HEAD | tar x -C {w}/repo')
        sh(f'mkdir {w}/harness && tar c -C {V}/harness --exclude=target . | tar x -C {w}/harness; cp {V}/known_findings.json {w}/; ln -s {V}/harness/refs {w}/x')
        sh(f"cd {w}/harness; grep -rlE '\"/repo/' --include=*.toml --include=*.rs . | xargs sed -i 's#\"/repo/#\"{w}/repo/#g'")
    env = dict(os.environ, VERIF_ROOT=w, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=f'{w}/harness/target', CARGO_INCREMENTAL='1', VERIF_SEED='1', VERIF_TIER='quick', RUSTUP_TOOLCHAIN='stable')
    while True:
        with lock:
            if not todo: return
            f, off, old, new = todo.pop()
        if (f, off, new) in done: continue
        pkg, ids = plan(f)
        p = f'{w}/repo/{f}'
        orig = open(f'/repo/{f}').read()
        open(p, 'w').write(orig[:off] + new + orig[off+len(old):])
        t = time.time()
        pk = pkg + (' -p sbtc-cli-shadow' if pkg == 'clicheck' else '')
        b = sh(f'cd {w}/harness && nice cargo build --offline -q -p {pk}', env)
        verdict, by, why = 'survived', None, []
        if b.returncode:
            verdict = 'nobuild'
        else:
            os.makedirs(f'{w}/evidence', exist_ok=True); os.makedirs(f'{w}/replays', exist_ok=True)
            for i in (ALL[pkg] if again else ids):
                r = sh(f'cd {w} && nice timeout 300 {w}/harness/target/debug/{pkg} {i}', env)
                if r.returncode in (1, 134, 139, 124):
                    verdict, by = 'killed', i
                    why = [l[:160] for l in r.stdout.splitlines() if l.startswith('  [')][:1]
                    break
                if r.returncode:
                    why.append(f'{i} rc={r.returncode} ' + (r.stdout + r.stderr)[-200:])
                    verdict = 'noanswer'
        open(p, 'w').write(orig)
        os.utime(p)
        with lock:
            res.write(json.dumps(dict(file=f, line=orig[:off].count('\n')+1, off=off, old=old.strip(), new=new.strip(), verdict=verdict, by=by, why=why, s=round(time.time()-t, 1), **{})) + '\n'); res.flush()
ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
