#!/usr/bin/env python3
"""Mutation of /repo's sources against the proofs: which mutants that build and pass the tests does the
verifier refuse?  usage: mutate.py OUT.json FILE-SUBSTRING...   (scratch copies in /tmp/mut)
Survivors are then either equivalent, outside every property, or holes; the replay is not run here."""
import json, os, re, subprocess, sys, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VX = HERE + '/target/vx/release/vx'
UNITS = {'llvm-bitcursor/src/lib.rs': ['cursor'], 'llvm-bitstream/src/': ['bitstream'], 'llvm-mapper/src/record/comdat.rs': ['module'], 'llvm-mapper/src/record/alias.rs': ['module'],
         'llvm-mapper/src/record/function.rs': ['module'], 'llvm-mapper/src/record/datalayout.rs': ['datalayout'], 'llvm-mapper/src/map.rs': ['module', 'attrs'],
         'llvm-mapper/src/block/attributes.rs': ['attrs'], 'llvm-mapper/src/block/type_table.rs': ['types'], 'llvm-mapper/src/block/module.rs': ['module'], 'llvm-mapper/src/block/vst.rs': ['module'],
         'llvm-mapper/src/block/function/mod.rs': ['module'], 'llvm-mapper/src/block/mod.rs': ['enums'], 'llvm-mapper/src/block/': ['rec'], 'llvm-mapper/src/unroll.rs': ['rec', 'unroll'],
         'llvm-support/src/align.rs': ['align'], 'llvm-support/src/ty.rs': ['ty'], 'llvm-support/src/': ['enums']}
def units(f):
    for k in sorted(UNITS, key=len, reverse=True):
        if f.startswith(k): return UNITS[k]
    return []
OPS = [(r'(?<![=!<>])==(?!=)', ['!=']), (r'!=', ['==']), (r'(?<=\s)<(?=\s)', ['<=', '>=']), (r'(?<=\s)>(?=\s)', ['>=', '<=']), (r'<=', ['<']), (r'(?<!=)>=', ['>']),
       (r'&&', ['||']), (r'\|\|(?=\s\S)', ['&&']), (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/']), (r'\s%\s', [' / ']), (r'<<', ['>>']), (r'(?<=\s)>>(?=\s)', ['<<']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[a-z(])(?!\()', ['']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']),
       (r'\bif (?!let)([^{}]+) \{$', ['if false {', 'if true {']), (r'\+=', ['-=']), (r'-=', ['+=']), (r' \+ 1\b', ['']), (r'checked_add', ['checked_sub']), (r'\bNone\b(?= =>)', []),
       (r'(?<![\w.])(\d+)(?![\w.]|\]?;)', ['+1', '-1']), (r'(?<![\w.])(\d+)(?=\.\.)', ['+1']), (r'\?;$', [';']), (r'\bSome\(([a-z_]+)\)(?=[,;)]|$)', ['None']),
       (r'^(\s*)([a-z_.]+\([^;]*\)\??;)$', [r'']), (r'^(\s*)(self\.[a-z_.]+ [|&]?=.*;)$', ['']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
       (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']), (r'\b(\w+)\.(\w+)_width\b', []), (r'\.filter\(', []), (r'\bi64\b', []), (r' as u64', [' as u32 as u64']), (r' as usize', [' as u8 as usize']), (r'u64::MAX', ['u32::MAX as u64']),
       (r'\.skip\(1\)', ['']), (r'\.rev\(\)', ['']), (r'rposition', ['position']), (r'\.insert\(', []), (r'unwrap_or\(([^)]*)\)', ['unwrap_or_default()']), (r'starts_with', ['ends_with']), (r'strip_prefix', ['strip_suffix'])]
def mutants(f):
    lines = open(f'/repo/{f}').read().split('\n')
    for i, l in enumerate(lines):
        if l.startswith('#[cfg(test)]') and 'mod ' in lines[i + 1]: break
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'log::', 'pub mod', '"', 'panic', 'unreachable')) or 'error(' in s: continue
        code = l.split(' //')[0]
        if re.match(r'\w+ = \S+ as u64,$', s): continue
        seen = set()
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                for r in reps:
                    if r in ('+1', '-1'):
                        v = int(m.group(1)) + int(r)
                        if v < 0: continue
                        r = str(v)
                    n = code[:m.start()] + r + code[m.end():]
                    if n not in seen and n != code:
                        seen.add(n); yield i, l, n
def sh(c, cwd=None, t=300, env=None):
    try: return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, '', 'timeout')
def worker(w, q, res, lock):
    d = f'/tmp/mut/w{w}'
    if not os.path.exists(d): sh(f'mkdir -p {d} && cp -a /repo/. {d}/')
    sh('git checkout -q .', cwd=d)
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: return
        p = f'{d}/{f}'
        src = open(p).read(); ls = src.split('\n'); ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
        st, why = '', ''
        r = sh('cargo test --workspace --offline -q --lib --tests', cwd=d, t=120, env=env)
        if 'could not compile' in r.stderr: st = 'nocompile'
        elif r.returncode: st = 'tests'
        else:
            st = 'SURVIVED'
            for u in units(f):
                a = f'/tmp/mut/o{w}'
                x = sh(f'{VX} {HERE}/units/{u}.vc {d} {a}.rs {a}.json')
                if x.returncode: st, why = 'FRONT', x.stderr[-300:]; continue
                j = json.load(open(f'{a}.json'))
                bad = [(g['name'], g['why']) for g in j['functions'] if g['has_contract'] and g['status'] not in ('contract', 'elsewhere')]
                v = sh(f'verus {a}.rs --crate-type=lib --triggers-mode silent --rlimit 11 --num-threads 2', cwd='/tmp/mut', t=300)
                m = re.search(r'results:: (\d+) verified, (\d+) errors', v.stdout + v.stderr)
                errs = re.findall(r'^error[^\n]*\n[^\n]*--> [^\n]*', v.stderr, re.M)
                if not m: st, why = 'FRONT', '; '.join(errs)[:400] or v.stderr[:300]
                elif int(m.group(2)):
                    st = 'RL' if all('Resource limit' in e or 'rlimit' in e for e in errs) else 'proof'; why = '; '.join(errs)[:300]
                    if st == 'proof': break
                elif bad: st, why = 'BOUNDED', str(bad)[:300]
        open(p, 'w').write(src)
        with lock:
            res.append({'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'status': st, 'why': why})
            if st not in ('nocompile', 'tests', 'proof'): print(f"{st} {f}:{i+1}\n   - {old.strip()}\n   + {new.strip()}\n   {why[:200]}", flush=True)
            json.dump(res, open(OUT, 'w'), indent=0)
OUT = sys.argv[1]
FROM = os.environ.get("FROM", ":0").split(":"); FROM = (FROM[0], int(FROM[1]))
q = queue.Queue(); res = []; lock = threading.Lock()
os.makedirs('/tmp/mut', exist_ok=True)
fs = [f for f in sh("git ls-files 'llvm-*/src/*.rs'", cwd='/repo').stdout.split() if 'constants/' not in f and 'error.rs' not in f and 'vx_hooks' not in f and any(x in f for x in sys.argv[2:])]
n = 0
for f in fs:
    for i, old, new in mutants(f):
        if (f, i + 1) >= FROM: q.put((f, i, old, new)); n += 1
print(n, 'mutants', flush=True)
if os.environ.get('DRY'): sys.exit()
ts = [threading.Thread(target=worker, args=(w, q, res, lock)) for w in range(int(os.environ.get('J', '6')))]
for t in ts: t.start()
for t in ts: t.join()
import collections
print(collections.Counter(r['status'] for r in res))
