#!/usr/bin/env python3
"""Plant a bug: build the patch in a scratch copy, confirm that it builds, that the tests pass and that the
demonstration separates the two trees, and only then keep it under /verif/seeded/<name>.
usage: mkseed.py FILE   (FILE: python with name, prop, needs, breaks, edits=[(path, old, new)], demo=rust source)"""
import json, os, subprocess, sys, shutil, runpy
d = runpy.run_path(sys.argv[1])
name, W = d['name'], '/tmp/seedwork'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if os.path.exists(W): sh('rm -rf /tmp/seedwork')
sh('cp -a /repo /tmp/seedwork'); sh('git checkout -q -- . && git clean -fdq', cwd=W)
for path, old, new in d['edits']:
    p = f'{W}/{path}'; t = open(p).read()
    assert t.count(old) == 1, (path, t.count(old), old)
    open(p, 'w').write(t.replace(old, new))
diff = sh('git diff', cwd=W).stdout
base = sh('git show 10e5158:' + d['edits'][0][0], cwd=W).stdout
orig = {l for p in {e[0] for e in d['edits']} for l in sh('git show 10e5158:' + p, cwd=W).stdout.splitlines()}
rm = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
if not any(l in orig and l.strip() for l in rm): print('WARNING: changes no original line', rm)
S = f'/verif/seeded/{name}'
os.makedirs(S, exist_ok=True)
open(f'{S}/patch.diff', 'w').write(diff)
open(f'{S}/main.rs', 'w').write(d['demo'].lstrip('\n'))
open(f'{S}/meta.json', 'w').write(json.dumps({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, indent=1) + '\n')
open(f'{S}/demo.sh', 'w').write(f'''#!/bin/bash
# run with cwd = the repository: builds main.rs (beside this file) against the crates and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w=/tmp/mollusc-demo-{name}
rm -rf /tmp/mollusc-demo-{name}
trap 'rm -rf /tmp/mollusc-demo-{name}' EXIT
mkdir -p "$w/src" && cp "$here/main.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
llvm-bitcursor = {{ path = "$repo/llvm-bitcursor" }}
llvm-bitstream = {{ path = "$repo/llvm-bitstream" }}
llvm-support = {{ path = "$repo/llvm-support" }}
llvm-mapper = {{ path = "$repo/llvm-mapper" }}
T
cd "$w" || exit 2
export CARGO_TARGET_DIR="$w/target" RUSTFLAGS=-Awarnings
cargo build --offline -q || exit 2
ulimit -v 4000000
timeout 100 ./target/debug/demo
''')
os.chmod(f'{S}/demo.sh', 0o755)
ok = True
r = sh(f'bash {S}/demo.sh', cwd='/repo')
if r.returncode != 0: ok = False; print('demo on /repo:', r.returncode, r.stderr[-1500:])
sh('git -C /repo status --short')
r2 = sh(f'bash {S}/demo.sh', cwd=W)
if r2.returncode in (0, 2): ok = False; print('demo on patched:', r2.returncode, r2.stdout[-800:], r2.stderr[-1500:])
r3 = sh('cargo test --offline --workspace 2>&1 | grep -E "^test |error|FAILED|failed"', cwd=W)
bad = [l for l in r3.stdout.splitlines() if 'FAILED' in l or 'could not compile' in l]
if bad: ok = False; print('tests:', bad[:8])
print(name, 'OK' if ok else 'REJECTED', '|', (r2.stdout + r2.stderr).strip().splitlines()[-1:] )
sh('rm -rf /tmp/seedwork')
if not ok: shutil.move(S, f'/tmp/rejected-{name}') if not os.path.exists(f'/tmp/rejected-{name}') else shutil.rmtree(S)
