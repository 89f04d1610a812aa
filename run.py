#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  run.py C01 [--tier quick|thorough]     run a check
  run.py --replay FILE                   rebuild and re-execute a replay file
  run.py --build-only C01 [...]          only compile

Exit status 0: the property held on everything explored; 1: violation (a line
"VIOLATION property=<id> replay=<path>" is printed); 2: the check could not decide.
"""
import argparse, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks_table import CHECKS, CONFIGS  # noqa

COMMON = ['-std=c++14', '-I' + os.path.join(HERE, 'lib'), '-I' + os.path.join(HERE, 'lib', 'shim'),
          '-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-w', '-DVERIF_INCLUDE="%s"' % os.path.join(REPO, 'include'), '-DVERIF_LIB="%s"' % os.path.join(HERE, 'lib'),
          '-include', 'cstdlib', '-include', 'cstring']

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=3000:'
                    'allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:'
                    'symbolize=1:hard_rss_limit_mb=3000:quarantine_size_mb=8:malloc_context_size=8',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=99',
}


def known_findings():
    """Keys of the findings that are listed and not fixed, per property."""
    r = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    for line in open(path):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
        if m:
            r.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return r


def compile_one(src, obj, cfg, extra, log, cxx=None):
    cxx, flags = cxx or CONFIGS[cfg]['cxx'], CONFIGS[cfg]['flags']
    cmd = [cxx] + COMMON + flags + extra + CONFIGS[cfg].get('last', []) + ['-c', src, '-o', obj]
    with open(log, 'w') as f:
        f.write(' '.join(cmd) + '\n')
        f.flush()
        try:
            return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=700)
        except subprocess.TimeoutExpired:
            f.write('compiler timed out\n')
            return 124


def build(cid, cfgs, bdir, fuzz=False):
    """Compiles the translation units of a check in every config. Returns (binaries, failure)."""
    chk = CHECKS[cid]
    jobs = []
    for cfg in cfgs:
        for tu in chk['tus']:
            name = tu if isinstance(tu, str) else tu[0]
            extra = list(chk.get('flags', []))
            cxx = None
            if not isinstance(tu, str):
                extra += tu[1]
                cxx = tu[2] if len(tu) > 2 else None
            tag = re.sub(r'\W', '_', name + '_' + '_'.join(extra))
            only = chk.get('tu_configs', {}).get(name)
            if only and cfg not in only:
                continue
            if fuzz:
                extra = extra + ['-DPBT_FUZZ', '-fsanitize=fuzzer-no-link']
            jobs.append((cfg, os.path.join(HERE, 'checks', name), os.path.join(bdir, '%s-%s%s.o' % (cfg, tag, '-fuzz' if fuzz else '')), extra, cxx))
        main_extra = ['-DPBT_FUZZ'] if fuzz else []
        jobs.append((cfg, os.path.join(HERE, 'lib', 'main.cpp'), os.path.join(bdir, '%s-main%s.o' % (cfg, '-fuzz' if fuzz else '')), main_extra, None))
    fail = None
    workers = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = {ex.submit(compile_one, s, o, c, e, o + '.log', x): (c, s, o) for c, s, o, e, x in jobs}
        for f in concurrent.futures.as_completed(futs):
            if f.result() != 0 and fail is None:
                fail = futs[f]
    if fail:
        return None, fail
    bins = {}
    for cfg in cfgs:
        objs = [o for c, s, o, e, x in jobs if c == cfg]
        out = os.path.join(bdir, '%s%s' % (cfg, '-fuzz' if fuzz else ''))
        cmd = [CONFIGS[cfg]['cxx']] + CONFIGS[cfg]['flags'] + chk.get('link', []) + (['-fsanitize=fuzzer'] if fuzz else []) + objs + ['-o', out]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            open(out + '.o.log', 'w').write(' '.join(cmd) + '\n' + p.stdout)
            return None, (cfg, 'link', out + '.o')
        bins[cfg] = out
    return bins, None


def smoke(cfg, bdir):
    src = os.path.join(HERE, 'lib', 'smoke.cpp')
    return compile_one(src, os.path.join(bdir, 'smoke.o'), cfg, [], os.path.join(bdir, 'smoke.log')) == 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--cases', type=float, default=None)
    ap.add_argument('--config', default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--self-test', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    env = dict(os.environ, **SAN_ENV)

    if a.replay:
        head = {}
        for line in open(a.replay):
            if not line.strip():
                break
            k, _, v = line.strip().partition(' ')
            head[k] = v
        if head.get('kind') == 'compile':
            a.id = [head['check']]
            a.build_only = True
            a.config = head['config']
        else:
            bdir = tempfile.mkdtemp(prefix='replay-', dir=ensure(os.path.join(HERE, 'build')))
            try:
                bins, fail = build(head['check'], [head['config']], bdir)
                if fail:
                    print(open(fail[2] + '.log').read()[-3000:])
                    return 2
                return subprocess.call([bins[head['config']], '--replay', a.replay, '--scratch', bdir], env=env)
            finally:
                shutil.rmtree(bdir, ignore_errors=True)

    if a.self_test:
        # Are the tools there, and do the table and the properties agree?
        ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
        assert all(c in ids for c in CHECKS)
        for tool in sorted(set(c['cxx'] for c in CONFIGS.values())):
            subprocess.check_call([tool, '--version'], stdout=subprocess.DEVNULL)
        print('%d checks' % len(CHECKS))
        return 0

    rc = 0
    for cid in a.id:
        rc = max(rc, run_check(cid, a, seed, env))
    return rc


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def run_check(cid, a, seed, env):
    t0 = time.time()
    chk = CHECKS[cid]
    tier = a.tier
    cfgs = chk['configs'] if tier == 'quick' else chk.get('thorough_configs', ['dbg', 'rel', 'int32', 'gcc', 'cxx20', 'gcc20'])
    if a.config:
        cfgs = [a.config]
    bdir = tempfile.mkdtemp(prefix=cid + '-', dir=ensure(os.path.join(HERE, 'build')))
    replays = ensure(os.path.join(HERE, 'replays'))
    try:
        bins, fail = build(cid, cfgs, bdir)
        tb = time.time() - t0
        if fail:
            cfg, src, obj = fail
            log = open(obj + '.log').read()
            errs = [l for l in log.splitlines() if 'error' in l][:5]
            print('compile failed (%s %s):\n%s' % (cfg, src, '\n'.join(errs)))
            if not smoke(cfg, bdir):
                print('the headers themselves do not compile: no verdict')
                print(open(os.path.join(bdir, 'smoke.log')).read()[-2000:])
                return 2
            if chk.get('compile_failure_is_error'):
                return 2
            # A documented program that the library must accept is rejected.
            path = os.path.join(replays, '%s-%s-compile.replay' % (cid, cfg))
            with open(path, 'w') as f:
                f.write('check %s\nconfig %s\nkind compile\n\n' % (cid, cfg))
                f.write('A program using only the documented API no longer compiles:\n' + log[-20000:])
            evidence(cid, tier, seed, [], time.time() - t0, tb, 1, [path], a)
            print('VIOLATION property=%s replay=%s' % (cid, path))
            return 1
        if a.build_only:
            print('%s: built in %.1f s' % (cid, tb))
            return 0
        known = known_findings().get(cid, {})
        frags, violation, rc, replay = [], None, 0, []
        base = a.cases or chk['cases'] * (1 if tier == 'quick' else chk.get('thorough_factor', 25))
        cap = chk.get('cap', 45) if tier == 'quick' else chk.get('thorough_cap', 400)
        for cfg in cfgs:
            out = os.path.join(bdir, cfg + '.json')
            frac = CONFIGS[cfg].get('cases', 1.0) * chk.get('config_cases', {}).get(cfg, 1.0)
            cmd = [bins[cfg], '--seed', str(seed), '--cases', str(base * frac), '--max-seconds', str(cap),
                   '--jobs', str(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)), '--id', cid, '--config', cfg, '--out', out,
                   '--replay-dir', replays, '--scratch', ensure(os.path.join(bdir, 'scratch-' + cfg))]
            if a.only:
                cmd += ['--only', a.only]
            for k in known:
                cmd += ['--known', k]
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True)
            lines = p.stdout.splitlines()
            for l in lines:
                if not l.startswith('VIOLATION'):
                    print(l)
            if os.path.exists(out):
                frags.append(json.load(open(out)))
            if p.returncode == 1:
                v = [l for l in lines if l.startswith('VIOLATION')]
                violation = v[0] if v else 'VIOLATION property=%s replay=none' % cid
                rc = 1
                break
            if p.returncode != 0:
                print('the check binary ended with status %d' % p.returncode)
                rc = 2
                break
        if rc == 0 and tier == 'thorough' and chk.get('fuzz', True) and not a.config and not a.only:
            rc2, line, frag = fuzz(cid, chk, seed, bdir, replays, bins, known, env)
            if frag:
                frags.append(frag)
            if rc2:
                rc, violation = rc2, line
        if violation:
            replay = [violation.split('replay=')[-1]]
        evidence(cid, tier, seed, frags, time.time() - t0, tb, 1 if violation else 0, replay, a)
        seen = set(k for f in frags for k in f.get('known_seen', []))
        for k, what in known.items():
            print('KNOWN-FINDING: property=%s %s%s' % (cid, what, '' if k in seen else ' (not hit by this run)'))
        tot = sum(p['evaluations'] for f in frags for p in f['props'])
        dist = sum(p['distinct_nontrivial'] for f in frags for p in f['props'])
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s' % (cid, tier, seed, tot, dist, tb, time.time() - t0))
        if violation:
            print(violation)
        return rc
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)


def fuzz(cid, chk, seed, bdir, replays, bins, known, env):
    """Coverage-guided search with libFuzzer over the same property functions."""
    fb, fail = build(cid, ['fuzz'], bdir, fuzz=True)
    if fail:
        print('fuzz build failed: ' + open(fail[2] + '.log').read()[-500:])
        return 0, None, None
    secs = int(os.environ.get('VERIF_FUZZ_SECONDS', chk.get('fuzz_seconds', 240)))
    nproc = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    corpus = ensure(os.path.join(bdir, 'corpus'))
    procs = []
    fenv = dict(env)
    for i in range(nproc):
        art = ensure(os.path.join(bdir, 'art%d' % i))
        log = open(os.path.join(bdir, 'fuzz%d.log' % i), 'w')
        procs.append(subprocess.Popen([fb['fuzz'], corpus, '-artifact_prefix=' + art + '/', '-max_total_time=%d' % secs, '-seed=%d' % (seed * 100 + i + 1),
                                       '-max_len=512', '-len_control=20', '-timeout=60', '-rss_limit_mb=2500', '-print_final_stats=1', '-reload=1', '-use_value_profile=1'],
                                      stdout=log, stderr=subprocess.STDOUT, env=fenv))
    for p in procs:
        try:
            p.wait(timeout=secs + 180)
        except subprocess.TimeoutExpired:
            p.kill()
    execs, cov = 0, 0
    for i in range(nproc):
        txt = open(os.path.join(bdir, 'fuzz%d.log' % i), errors='replace').read()
        m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', txt)
        if m:
            execs += int(m[-1])
        c = re.findall(r'cov: (\d+)', txt)
        if c:
            cov = max(cov, int(c[-1]))
    frag = {'config': 'libfuzzer', 'known_seen': [], 'seconds': secs, 'props': [
        {'name': 'coverage_guided', 'evaluations': execs, 'distinct_nontrivial': len(os.listdir(corpus)), 'seconds': secs,
         'time_capped': False, 'classes': {'edges covered': cov}, 'samples': []}]}
    for f in sorted(glob.glob(os.path.join(bdir, 'art*', '*'))):
        if os.path.basename(f).startswith('oom') or os.path.basename(f).startswith('slow'):
            continue
        cmd = [bins['dbg'], '--from-bytes', f, '--id', cid, '--config', 'dbg', '--replay-dir', replays, '--scratch', ensure(os.path.join(bdir, 'scratch-dbg'))]
        for k in known:
            cmd += ['--known', k]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True)
        if p.returncode == 1:
            print(p.stdout)
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            return 1, v[0], frag
    return 0, None, frag


def evidence(cid, tier, seed, frags, wall, tb, violations, replays, a):
    chk = CHECKS[cid]
    samples, per = [], []
    evals = dist = 0
    for f in frags:
        for p in f['props']:
            evals += p['evaluations']
            dist += p['distinct_nontrivial']
            per.append({'config': f['config'], 'property_function': p['name'], 'evaluations': p['evaluations'],
                        'distinct_nontrivial': p['distinct_nontrivial'], 'seconds': round(p['seconds'], 2),
                        'time_capped': p['time_capped'], 'classification': p['classes'],
                        **({'unreproducible': p['unreproducible']} if 'unreproducible' in p else {})})
            for s in p['samples'][:2]:
                if len(samples) < 12:
                    samples.append({'config': f['config'], 'property_function': p['name'], 'case': s[:1500]})
    e = {
        'property': cid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': dist,
            'rule': 'Cases are drawn from the seeded generators in checks/%s. Distinct = different choice tapes (per property function and '
                    'build configuration). Non-trivial: %s' % (', '.join(sorted(set(t if isinstance(t, str) else t[0] for t in chk['tus']))), chk['rule']),
            'samples': samples, 'per_property_function': per,
            'configurations': {f['config']: ' '.join(CONFIGS[f['config']]['flags']) if f['config'] in CONFIGS else 'libFuzzer, dbg flags' for f in frags},
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': violations,
    }
    if replays:
        e['coverage']['replays'] = replays
    if tb:
        e['coverage']['build_seconds'] = round(tb, 2)
    ensure(os.path.join(HERE, 'evidence'))
    with open(os.path.join(HERE, 'evidence', cid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
