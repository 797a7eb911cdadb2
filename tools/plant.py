#!/usr/bin/env python3
"""plant.py FILE.py [id...]: build seeded changes.  FILE defines BUGS = {id: dict(property, edits=[(file under server/src, old, new)],
main=source of the demonstration, needs, breaks)}.  Each is confirmed on a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; builds main.rs against it in a scratch folder
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
server = { path = "$PWD/server" }
serde_json = "1.0"
@DEPS@[profile.dev]
debug = false
TOML
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q
timeout 60 "$tmp/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:] or list(bugs)
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('tests')
    for b in want:
        d = bugs[b]; out = f'{HERE}/seeded/{b}'
        tmp = tempfile.mkdtemp(prefix='plant'); repo = f'{tmp}/repo'
        try:
            sh(f'cp -a /repo {repo}')
            sh('git checkout -- . && git clean -fdq', cwd=repo)
            os.makedirs(out, exist_ok=True)
            open(f'{out}/main.rs', 'w').write(d['main'])
            open(f'{out}/demo.sh', 'w').write(DEMO.replace('@DEPS@', 'tokio = { version = "1", features = ["full"] }\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n[[bin]]\nname = "sut_async"\npath = "$PWD/server/src/async.rs"\n' if d.get('asy') else '')); os.chmod(f'{out}/demo.sh', 0o755)
            lock = open(f'{HERE}/harness/Cargo.lock').read().replace('name = "harness"', 'name = "demo"')
            open(f'{out}/Cargo.lock', 'w').write(lock)
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
            r0 = sh(f'bash {out}/demo.sh', cwd=repo)
            for f, old, new in d['edits']:
                p = f'{repo}/server/src/{f}'; s = open(p).read()
                if s.count(old) != 1: print(b, 'EDIT matches', s.count(old), 'times:', old[:60]); break
                open(p, 'w').write(s.replace(old, new))
            else:
                open(f'{out}/patch.diff', 'w').write(sh('git diff', cwd=repo).stdout)
                r1 = sh(f'bash {out}/demo.sh', cwd=repo)
                t = sh('cargo test --workspace --offline 2>&1', cwd=repo)
                failed = [l for l in t.stdout.splitlines() if l.startswith('test ') and not l.startswith('test result') and 'FAILED' in l and 'test_get_random_key' not in l]
                ran = sum(l.startswith('test ') and l.endswith('ok') for l in t.stdout.splitlines())
                ok = r0.returncode == 0 and r1.returncode != 0 and not failed and ran >= 39
                print(b, 'OK' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, 'tests ok', ran, 'failed', failed)
                if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
                if not ok and ran == 0: print(t.stdout[-2000:])
                if r1.returncode and 'error' in r1.stderr and 'could not compile' in r1.stderr: print('DEMO COMPILE', r1.stderr[-1500:])
                print('   ', ' | '.join(l for l in (r1.stdout+r1.stderr).splitlines() if 'panicked' in l or 'assert' in l)[-300:])
        finally:
            shutil.rmtree(tmp)
main()
