#!/usr/bin/env python3
"""seedrun.py [-j N] [id...]: run each seeded change's check on a scratch copy of /repo; print what it said."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(b):
    meta = json.load(open(f'{HERE}/seeded/{b}/meta.json'))
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(f'cp -a /repo {tmp}/repo && mkdir {tmp}/verif && cd {HERE} && cp -a check.py vc harness mirdump {tmp}/verif/ && cd {tmp}/repo && git checkout -q -- . && git apply {HERE}/seeded/{b}/patch.diff', shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=f'{tmp}/repo', VERIF_TIER='quick', VERIF_SEED='1', VERIF_BUILD=f'{tmp}/build', VERIF_EVIDENCE=f'{tmp}/ev', VERIF_REPLAYS=f'{tmp}/rep')
        r = subprocess.run(['python3-vt', f'{tmp}/verif/check.py', meta['property']], env=env, capture_output=True, text=True, cwd=f'{tmp}/verif')
        viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        open(f'/tmp/seedrun.{b}.log','w').write(r.stdout+r.stderr)
        return f'{b} {meta["property"]} exit {r.returncode} {time.time()-t0:.0f}s {(viol or [r.stderr[-600:]])[0]}'
    finally:
        shutil.rmtree(tmp)
a = sys.argv[1:]; j = 3
if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(f'{HERE}/seeded'))
with ThreadPoolExecutor(j) as ex:
    for l in ex.map(one, ids): print(l, flush=True)
