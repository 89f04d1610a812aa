#!/usr/bin/env python3
"""Plants bugs described in a spec file: plant.py SPEC.py [id...].

A spec file defines BUGS, a list of dicts: id, property, needs, what, edits [(file, old, new)],
demo (C++), and optionally flags. For each one, in a scratch copy of /repo: the patch is made, it must
only change lines of the base commit, build, pass the stable tests; the demo must exit 0 without it and
nonzero with it. What passes is written to /verif/seeded/<id>."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = '4e3bad2'
STABLE = json.load(open('/opt/vp/BASELINE.json'))

DEMO = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
%s
'''
RUN = 'clang++ -std=c++14 %s -Iinclude "$here/demo.cpp" -o "$d/demo" && "$d/demo"'
HEAD = r'''#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { std::printf("line %d: %s\n", __LINE__, #x); std::exit(1); } } while (0)
'''

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)

def one(b):
    d = tempfile.mkdtemp(prefix='plant_')
    repo, seed = d + '/repo', d + '/seed'
    try:
        sh(f'cp -a /repo {repo}')
        os.mkdir(seed)
        for f, old, new in b['edits']:
            t = open(f'{repo}/{f}').read()
            if t.count(old) != 1: return f'edit text found {t.count(old)} times in {f}: {old[:60]}'
            open(f'{repo}/{f}', 'w').write(t.replace(old, new))
        patch = sh('git diff', repo).stdout
        # Only lines of the base commit may be changed.
        for f, _, _ in b['edits']:
            blame = sh(f'git blame -s --abbrev=8 HEAD -- {f}', repo).stdout.splitlines()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(f'git diff -U0 -- {f}', repo).stdout, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0: print(b['id'], 'warning: pure insertion')
                for k in range(a, a + n):
                    if not blame[k - 1].startswith('^' + BASE): return f'line {k} of {f} is not of the base: {blame[k-1][:80]}'
        if 'demo' in b: open(seed + '/demo.cpp', 'w').write(HEAD + b['demo'])
        open(seed + '/demo.sh', 'w').write(DEMO % (b.get('run') or RUN % b.get('flags', '-O1')))
        for n, t in b.get('files', {}).items(): open(f'{seed}/{n}', 'w').write(t)
        os.chmod(seed + '/demo.sh', 0o755)
        r = sh(f'bash {seed}/demo.sh', repo, 300)
        if r.returncode == 0: return 'demo passes with the patch: ' + r.stdout[-500:]
        why = r.stdout[-300:]
        r0 = sh(f'bash {seed}/demo.sh', '/repo', 300)
        if r0.returncode != 0: return 'demo fails without the patch: ' + r0.stdout[-1500:]
        # Build and test the patched copy in place of /repo.
        ns = f'unshare -Urm bash -c "mount --bind {repo} /repo && bash /opt/vp/test.sh {d}/out.json >{d}/test.log 2>&1"'
        r = sh(ns)
        if r.returncode != 0 and not os.path.exists(d + '/out.json'): return 'build or test failed ' + r.stdout[-300:] + sh(f'grep -m3 error {d}/test.log; tail -3 {d}/test.log').stdout[-700:]
        out = json.load(open(d + '/out.json'))
        bad = failed(out)
        if bad: return f'stable tests fail: {bad[:6]}'
        dst = '/verif/seeded/' + b['id']
        os.makedirs(dst, exist_ok=True)
        for n in os.listdir(seed): shutil.copy2(f'{seed}/{n}', dst)
        open(dst + '/patch.diff', 'w').write(patch)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(dst + '/meta.json', 'w'), indent=1)
        return 'OK   [' + why.strip().splitlines()[-1][:100] + ']' if why.strip() else 'OK'
    finally:
        shutil.rmtree(d, ignore_errors=True)

def failed(out):
    return sorted(set(STABLE['stable']) - set(out['passed']))

if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    bugs = [b for b in bugs if not only or b['id'] in only]
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(bugs, ex.map(one, bugs)): print(b['id'], ':', r, flush=True)
