#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py [-n N] [-j J] [--seed S] [--lines FILE:A-B] [--out FILE]

Makes small mutants of the headers in scratch copies, runs the checks of the region first and then the others
(dbg configuration) until one catches it. Survivors are run against the stable tests. Results are appended to --out."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

A, E, I, M, Z = ['include/array/%s.h' % x for x in ('array', 'ein_reduce', 'image', 'matrix', 'z_order')]
# Markers of regions of array.h, and the checks that are run first.
REGIONS = [('', 'C15 C01 C26'), ('class index_iterator', 'C26 C15'), ('class dim ', 'C26 C15 C27'), ('class split_iterator', 'C05 C25'),
           (r'auto apply\(Fn', 'C01 C27 C02'), (r'range_with_stride\(index_t', 'C04 C15'), ('bool is_stride_ok', 'C02 C03'),
           ('struct all_of_any_type', 'C15 C25 C20'), ('^class shape {', 'C01 C15 C27 C04 C02'), ('auto transpose_impl', 'C14'),
           ('void for_each_index_in_order_impl', 'C06 C07 C08'), ('auto make_default_dense_shape', 'C03 C17'), ('bool is_dim_compatible', 'C15 C13 C25'),
           ('auto get_or_empty', 'C14 C15 C03'), ('NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index_in_order\\(const Shape', 'C06 C07 C08'),
           ('bool can_fuse', 'C07 C08 C09'), ('^NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index\\(const Shape', 'C06'), ('^class array_ref {', 'C01 C04 C07 C09 C14 C15'),
           ('^class array {', 'C10 C12 C11 C13 C01 C28'), ('^auto make_array', 'C12 C10'), ('^void copy', 'C08 C03 C12'), ('void fill', 'C07'),
           ('bool equal', 'C09'), ('array_ref<T, NewShape> convert_shape', 'C14'), ('^class auto_allocator', 'C12')]
OTHER = {E: 'C16 C17 C25', I: 'C19 C06 C07', M: 'C06 C07', Z: 'C18'}
SRC = os.environ.get('VERIF_SRC', '/verif')
ALL = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C25 C26 C27 C28 C29 C20'.split()

def code(line):
    return re.sub(r'//.*', '', line)

def mutants_of(line):
    c = code(line)
    if re.match(r'\s*(#|\*|/\*|using |typedef |namespace |friend |public:|private:)', c) or not c.strip(): return
    tail = line[len(c):]
    def sub(pat, rep, name):
        for m in re.finditer(pat, c):
            r = c[:m.start()] + m.expand(rep) + c[m.end():]
            if r != c: yield name, r + tail
    tmpl = re.match(r'\s*(template|class)\b', c)
    if not tmpl:
        for a, b in [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' \\|\\| ', ' && '),
                     (' < ', ' > '), (' > ', ' < '), (' <= ', ' >= '), (' >= ', ' <= '),
                     (' \\+ ', ' - '), (' - ', ' + '), (' \\* ', ' + '), (' / ', ' * '), (' % ', ' / '), (' \\+= ', ' = '), (' \\+= ', ' -= '), (' -= ', ' += '),
                     (' \\+ 1\\b', ''), (' - 1\\b', ''), ('\\+\\+', '--'), ('--', '++')]:
            yield from sub(a, b, a.strip() + ' -> ' + b.strip())
        yield from sub(r'([(&| ])!(?=[\w(])', r'\1', 'drop !')
        yield from sub(r'([(,= ])-(?=[\w(])', r'\1', 'drop -')
        yield from sub(r'\bmin\b(?=[<(])', 'max', 'min -> max')
        yield from sub(r'\bmax\b(?=[<(])', 'min', 'max -> min')
        yield from sub(r'\bmin\(\)', 'max()', 'min() -> max()')
        yield from sub(r'\bmax\(\)', 'extent()', 'max() -> extent()')
        yield from sub(r'\bmin\(\)', 'extent()', 'min() -> extent()')
        yield from sub(r'\bextent\(\)', 'stride()', 'extent() -> stride()')
        yield from sub(r'\bstride\(\)', 'extent()', 'stride() -> extent()')
        yield from sub(r'\babs\(', '(', 'drop abs')
        yield from sub(r'std::move\(', '(', 'drop move')
        yield from sub(r'\btrue\b', 'false', 'true -> false')
        yield from sub(r'\bfalse\b', 'true', 'false -> true')
        yield from sub(r'(?<![\w.])0(?![\w.])', '1', '0 -> 1')
        yield from sub(r'(?<![\w.])1(?![\w.])', '0', '1 -> 0')
        yield from sub(r'(?<![\w.])1(?![\w.])', '2', '1 -> 2')
        m = re.search(r'\bif \((.*)\) (\{|return|[a-z])', c)
        if m and not re.search(r'\bif \(\)', c):
            yield 'if true', c[:m.start(1)] + 'true' + c[m.end(1):] + tail
            yield 'if false', c[:m.start(1)] + 'false' + c[m.end(1):] + tail
        if re.match(r'\s*[\w.:<>()\[\]*&, +\-=!]+;\s*$', c) and not re.match(r'\s*(return|\}|[\w:<>, ]+ [\w]+( =.*)?;|[\w:<>, ]+ [\w]+\(.*\)( const)?;$)', c):
            yield 'delete', re.match(r'\s*', c)[0] + ';\n'
        elif re.match(r'\s*(swap|assign|destroy|deallocate|construct|allocate|copy_construct|move_construct|assert\w*|swap_except_allocator|set_\w+)\(.*\);\s*$', c):
            yield 'delete', re.match(r'\s*', c)[0] + ';\n'
        # Swap two neighbouring arguments.
        for m in re.finditer(r'([(,] ?)([\w.]+(?:\(\))?), ([\w.]+(?:\(\))?)(?=[,)])', c):
            if m[2] != m[3]: yield 'swap arguments', c[:m.start()] + m[1] + m[3] + ', ' + m[2] + c[m.end():] + tail
        yield from sub(r'\ba\b', 'b', 'a -> b')
        yield from sub(r'\bb\b', 'a', 'b -> a')
        yield from sub(r'\bsrc\b', 'dst', 'src -> dst')
        yield from sub(r'\bdst\b', 'src', 'dst -> src')
        yield from sub(r'\bother\.', '', 'drop other.')
    yield from sub(r'\bMin\b', 'dynamic', 'Min -> dynamic')
    yield from sub(r'\bExtent\b', 'dynamic', 'Extent -> dynamic')
    yield from sub(r'\bStride\b', 'dynamic', 'Stride -> dynamic')

def regions(lines):
    r, k, cur = [], 0, REGIONS[0][1]
    for l in lines:
        if k + 1 < len(REGIONS) and re.search(REGIONS[k + 1][0], l) and not l.rstrip().endswith(';'):
            k += 1
            cur = REGIONS[k][1]
        r.append(cur)
    assert k + 1 == len(REGIONS), REGIONS[k + 1]
    return r

def all_mutants(repo):
    out = []
    for f in (A, E, I, M, Z):
        lines = open(repo + '/' + f).read().splitlines(True)
        reg = regions(lines) if f == A else [OTHER[f]] * len(lines)
        comment = False
        for n, l in enumerate(lines):
            if '/*' in l: comment = '*/' not in l.split('/*')[1]; continue
            if comment:
                if '*/' in l: comment = False
                continue
            seen = set()
            for name, new in mutants_of(l):
                if new in seen: continue
                seen.add(new)
                out.append((f, n, l, new, name, reg[n]))
    return out

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def run(m):
    f, n, old, new, name, first = m
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    t0 = time.time()
    res = {'file': f, 'line': n + 1, 'op': name, 'old': old.strip(), 'new': new.strip()}
    try:
        sh(f'git clone -q /repo {d}/repo && mkdir {d}/verif && cd {SRC} && cp -a run.py lib checks checks_table.py properties.jsonl KNOWN_FINDINGS.txt tools {d}/verif/')
        p = f'{d}/repo/{f}'
        lines = open(p).read().splitlines(True)
        assert lines[n] == old
        lines[n] = new if new.endswith('\n') else new + '\n'
        open(p, 'w').writelines(lines)
        r = sh(f'clang++ -std=c++14 -w -fsyntax-only -I{d}/repo/include -x c++ -', input=''.join(f'#include "array/{h}.h"\n' for h in ('array', 'ein_reduce', 'image', 'matrix', 'z_order')))
        if r.returncode:
            res['result'] = 'does not compile'
            return res
        first = first.split()
        for c in first + [c for c in ALL if c not in first and FULL]:
            env = dict(os.environ, VERIF_REPO=f'{d}/repo', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            try:
                r = sh(['python3', 'run.py', c, '--config', 'dbg'], cwd=f'{d}/verif', env=env, timeout=1500)
            except subprocess.TimeoutExpired:
                res['result'] = 'timeout in ' + c
                return res
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            if r.returncode == 1 and v:
                res['result'] = 'caught'
                res['by'] = c
                if 'compile' in v[0]: res['compile'] = True
                return res
            if r.returncode != 0:
                res['result'] = 'rc %d of %s: %s' % (r.returncode, c, r.stdout[-300:])
                return res
        if not FULL:
            res['result'] = 'survived its region'
            return res
        # Survived.
        r = sh(f'unshare -Urm bash -c "mount --bind {d}/repo /repo && bash /opt/vp/test.sh {d}/out.json >{d}/test.log 2>&1"')
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        try:
            bad = sorted(set(stable) - set(json.load(open(d + '/out.json'))['passed']))
        except OSError:
            bad = ['build']
        res['result'] = 'SURVIVED' if not bad else 'tests only: %s' % bad[:3]
        return res
    except Exception as e:
        res['result'] = 'error %r' % e
        return res
    finally:
        res['time'] = round(time.time() - t0)
        shutil.rmtree(d, ignore_errors=True)

FULL = False
if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=100)
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('--seed', default='1')
    ap.add_argument('--lines')
    ap.add_argument('--out', default='/tmp/mut/results.jsonl')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--full', action='store_true', help='survivors of the region: all checks, then the stable tests')
    ap.add_argument('--match', help='only mutants whose new text contains this')
    a = ap.parse_args()
    FULL = a.full
    ms = all_mutants('/repo')
    if a.lines:
        f, r = a.lines.split(':')
        lo, hi = map(int, r.split('-'))
        ms = [m for m in ms if f in m[0] and lo <= m[1] + 1 <= hi]
    if a.match: ms = [m for m in ms if a.match in m[3]]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r['file'], r['old'], r['new']))
    random.Random(a.seed).shuffle(ms)
    ms = [m for m in ms if (m[0], m[2].strip(), m[3].strip()) not in done]
    print(len(ms), 'mutants')
    if a.list:
        for m in sorted(ms)[:a.n]: print(m)
        sys.exit()
    with ThreadPoolExecutor(a.j) as ex:
        for r in as_completed([ex.submit(run, m) for m in ms[:a.n]]):
            r = r.result()
            with open(a.out, 'a') as o: o.write(json.dumps(r) + '\n')
            if r['result'] != 'caught': print(json.dumps(r), flush=True)
