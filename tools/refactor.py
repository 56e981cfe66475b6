#!/usr/bin/env python3
"""Behaviour-preserving edits (tools/refactors/*.txt) against the proofs: every unit must be accepted, or at
worst set functions aside as bounded; a failed obligation here is a false alarm.
usage: refactor.py [NAME...]
File format:  first line `units: a b`; then blocks `@@ PATH` / old text / `@@ ->` / new text / `@@ end`"""
import os, re, subprocess, sys, glob, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/bin')
import check
def one(path):
    name = os.path.basename(path)[:-4]
    t = open(path).read()
    units = re.match(r'units: (.*)', t).group(1).split()
    w = f'/tmp/rf/{name}'
    subprocess.run(['rm', '-rf', w]); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    for p, old, new in re.findall(r'^@@ (\S+)\n(.*?)^@@ ->\n(.*?)^@@ end', t, re.S | re.M):
        s = open(f'{w}/{p}').read()
        # indentation of the file is matched line by line
        pat = r'(?:\s|//[^\n]*\n)*'.join(re.escape(l.strip()) for l in old.strip().splitlines())
        ms = list(re.finditer(pat, s))
        if len(ms) != 1: print(f'{name}: {p}: {len(ms)} matches of {old.strip()[:60]!r}'); return
        s = s[:ms[0].start()] + new.strip() + s[ms[0].end():]
        open(f'{w}/{p}', 'w').write(s)
    r = subprocess.run('cargo check --offline -q --workspace', shell=True, cwd=w, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/rf/target'))
    if r.returncode: print(f'{name}: does not compile\n' + r.stderr[:1500]); return
    check.REPO = w; check.OUT = f'/tmp/rf/out{os.getpid()}'; os.makedirs(check.OUT, exist_ok=True)
    for u in units:
        x = check.verify_unit(u)
        bad = [f for f in (x.get('info') or {}).get('functions', []) if f['has_contract'] and f['status'] not in ('contract', 'elsewhere')]
        print(f"{name} [{u}]: {x['status']} {x.get('reason', '')[:300]} {x['wall']:.0f}s"
              + ''.join(f"\n    FAILED {f['function']}: " + '; '.join(o['message'] + ' ' + ' / '.join(o['at'])[:200] for o in f['obligations']) for f in x['failed'])
              + ''.join(f"\n    bounded {k}: {v}" for k, v in x['degraded'].items())
              + ''.join(f"\n    bounded {f['name']}: {f['status']} {f['why']}" for f in bad), flush=True)
    subprocess.run(['rm', '-rf', w])
names = sys.argv[1:]
check.build_vx()
for p in sorted(glob.glob(HERE + '/tools/refactors/*.txt')):
    if not names or os.path.basename(p)[:-4] in names or any(os.path.basename(p).startswith(n) for n in names): check.T0 = __import__('time').time(); one(p)
