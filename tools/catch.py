#!/usr/bin/env python3
"""Runs the check of its property (or the checks given with --checks C01,C02) against each planted bug:
catch.py [--checks ...] [--tier quick] [--seed N] [--dir DIR] [id...]. Works on copies, bound over /repo and /verif in a namespace."""
import argparse, json, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*'); ap.add_argument('--checks'); ap.add_argument('--tier', default='quick')
ap.add_argument('--seed', default='1'); ap.add_argument('-j', type=int, default=2); ap.add_argument('--dir', default='/verif/seeded')
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(a.dir))
man = json.load(open('/verif/MANIFEST.json'))
claimed = {c['property_id'] if 'property_id' in c else c.get('property') or c.get('id') for c in man['checks']}
def run(i):
    m = json.load(open(f'{a.dir}/{i}/meta.json'))
    checks = a.checks.split(',') if a.checks else [m['property']]
    d = tempfile.mkdtemp(prefix='catch_')
    out = []
    try:
        subprocess.run(f'cp -a /repo {d}/repo && mkdir {d}/verif && cd /verif && cp -a run.py lib checks checks_table.py properties.jsonl KNOWN_FINDINGS.txt MANIFEST.json tools {d}/verif/ && git -C {d}/repo apply {a.dir}/{i}/patch.diff', shell=True, check=True)
        for c in checks:
            t = time.time()
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && VERIF_SEED={a.seed} VERIF_TIER={a.tier} python3 run.py {c} --tier {a.tier}'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append(f'{c}:{"CAUGHT" if r.returncode == 1 and any(f"property={c}" in l for l in v) else "missed" if r.returncode == 0 else "rc%d " % r.returncode + r.stdout[-300:]} {time.time()-t:.0f}s')
        return i, out
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(a.j) as ex:
    for i, o in ex.map(run, ids): print(i, *o, flush=True)
