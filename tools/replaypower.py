#!/usr/bin/env python3
# How much of what the proofs catch does the concrete replay catch as well?
# replaypower.py OUT.json MUT.json...: takes the mutants mutate.py recorded as caught by the proof (one per line of
# code), builds the replay crates against a copy with the mutant, runs the replays of the crates that use it.
# Works on copies under /tmp/rp.
import json, os, queue, re, subprocess, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = {'llvm-bitcursor': [('harness', 'bc', ['C01', 'C02', 'C03']), ('harness', 'bs', ['C05', 'C07'])],
        'llvm-bitstream': [('harness', 'bs', ['C04', 'C05', 'C06', 'C07', 'C08', 'C09'])],
        'llvm-support/src/align': [('harness', 'sup', ['C10', 'C11', 'C12'])],
        'llvm-support/src/ty': [('harness', 'sup', ['C14'])],
        'llvm-support': [('harness', 'en', ['C15']), ('harness', 'sup', ['C10', 'C14'])],
        'llvm-mapper/src/record/datalayout': [('harness', 'map', ['C13']), ('harness', 'sup', ['C11', 'C12'])],
        'llvm-mapper/src/block/module': [('harness2', 'mp', ['C16', 'C20', 'C21', 'C22'])],
        'llvm-mapper': [('harness2', 'mp', ['C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22'])]}
def runs(f): return RUNS[max((k for k in RUNS if f.startswith(k)), key=len)]
def sh(c, cwd=None, t=300, env=None):
    try: return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, '', 'timeout')
def worker(w):
    d = f'/tmp/rp/w{w}'
    if not os.path.exists(d):
        sh(f"mkdir -p {d}/repo && cp -a /repo/. {d}/repo/ && cp -a {HERE}/harness {HERE}/harness2 {d}/ && rm -rf {d}/harness/target {d}/harness2/target && sed -i 's#\"/repo/#\"{d}/repo/#' {d}/harness/Cargo.toml {d}/harness2/Cargo.toml")
    sh('git checkout -q .', cwd=f'{d}/repo')
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/{m['file']}"
        src = open(p).read(); ls = src.split('\n')
        i = m['line'] - 1
        if ls[i].strip() != m['old']: continue
        ls[i] = ls[i].replace(m['old'], m['new']) if m['old'] else ls[i]
        open(p, 'w').write('\n'.join(ls))
        got = []; st = 'missed'
        for crate, b, props in runs(m['file']):
            env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=f'{d}/t_{crate}', RUSTFLAGS='-Awarnings' + (' --cfg vx_hooks' if crate == 'harness2' else ''))
            r = sh(f'cargo build -q --offline --bin {b}', cwd=f'{d}/{crate}', t=400, env=env)
            if r.returncode: st = 'nobuild'; got.append(r.stderr[-200:]); break
            for pr in props:
                r = sh(f'ulimit -v 6000000; {d}/t_{crate}/debug/{b} {pr} quick 1 {d}/o.json', cwd=d, t=120)
                if r.returncode: got.append(f'{pr}:{r.returncode}'); st = 'caught'
                if st == 'caught': break
            if st == 'caught': break
        open(p, 'w').write(src)
        with lock:
            res.append(dict(m, replay=st, by=got)); json.dump(res, open(OUT, 'w'), indent=0)
            if st != 'caught': print(f"{st} {m['file']}:{m['line']}\n   - {m['old']}\n   + {m['new']}\n   {got}", flush=True)
OUT = sys.argv[1]; q = queue.Queue(); res = []; lock = threading.Lock(); seen = set()
for f in sys.argv[2:]:
    for m in json.load(open(f)):
        if m['status'] in ('proof', 'RL') and (m['file'], m['line']) not in seen: seen.add((m['file'], m['line'])); q.put(m)
print(q.qsize(), 'mutants', flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(int(os.environ.get('J', '3')))]
for t in ts: t.start()
for t in ts: t.join()
import collections
print(collections.Counter(r['replay'] for r in res))
