#!/usr/bin/env python3
"""check.py ID [quick|thorough]

1. deductive tier: the contracts of /verif/contracts are discharged against the IR generated from /repo now
2. bounded native tier: histories of the real containers against standard-library models (also the search for a
   failing input when an obligation fails)
Exit 0: held.  Exit 1 and a VIOLATION line: broken."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks  # noqa: E402

REPO = os.environ.get('VP_REPO', '/repo')
JOBS = int(os.environ.get('VP_JOBS', '8'))
PY = '/opt/veriftools/pyvenv/bin/python3'


def build_native(name, tmp):
    src, flags = checks.NATIVE[name]
    out = os.path.join(tmp, name)
    base = ['bash', os.path.join(HERE, 'native', 'build.sh'), os.path.join(HERE, 'native', src), out]
    msg = ''
    for extra in ([], ['-DNAT_NO_INTERNALS']):
        p = subprocess.run(base + flags + extra, capture_output=True, text=True)
        if p.returncode == 0:
            return name, out, flags + extra, ''
        msg = p.stderr[:1500]
    return name, None, flags, msg


def run_native(binary, prop, seed, first, stride, secs, ops):
    cmd = [binary, '--prop', prop, '--seed', str(seed), '--first', str(first), '--stride', str(stride),
           '--count', '1000000', '--secs', str(secs), '--ops', str(ops)]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:symbolize=0', TSAN_OPTIONS='exitcode=0:report_signal_unsafe=0:symbolize=0')
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=secs + 200)
    m = re.search(r'RESULT cases=(\d+) distinct=(\d+) abandoned=(\d+) failed=(-?\d+)', p.stdout)
    if not m:
        return None
    return tuple(int(x) for x in m.groups())


def trace(binary, prop, seed, case, ops):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', TSAN_OPTIONS='exitcode=0:report_signal_unsafe=0')
    try:
        p = subprocess.run([binary, '--prop', prop, '--seed', str(seed), '--case', str(case), '--ops', str(ops), '--trace'],
                           capture_output=True, text=True, env=env, timeout=90, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, '(does not end)'


def fails(rc):
    return rc not in (0, 42)


def shortest(binary, prop, seed, case, ops):
    """the shortest prefix of the history that fails"""
    lo, hi = 0, ops
    rc, out = trace(binary, prop, seed, case, ops)
    if not fails(rc):
        return ops, rc, out
    best = (ops, rc, out)
    while lo < hi:
        mid = (lo + hi) // 2
        rc, out = trace(binary, prop, seed, case, mid)
        if fails(rc):
            hi, best = mid, (mid, rc, out)
        else:
            lo = mid + 1
    return best


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) probe=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    evdir = os.path.join(HERE, 'evidence')
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vp_chk_')
    try:
        return run(prop, tier, seed, t0, evdir, rpdir, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, t0, evdir, rpdir, tmp):
    quick = tier != 'thorough'
    names = list(checks.PROPS[prop][0 if quick else 1])
    secs = checks.SECS.get(prop, 10) if quick else 240
    ops = 60
    violations = []  # (replay path, suffix)

    # ---- build natives while the proofs run
    ded_files = []
    for f, d in checks.DEDUCTIVE.items():
        rx = d['props'].get(prop)
        if quick:
            rx = d.get('quick', {}).get(prop, rx)
        if rx and rx != '^$':
            ded_files.append((f, d, rx))
    ded_out = os.path.join(tmp, 'ded.json')
    proofs = None
    if ded_files:
        args = ['%s=%s=%s=%s' % (f, d['src'], rx, ' '.join(d.get('quick_flags', d['flags']) if quick else d['flags'])) for f, d, rx in ded_files]
        proofs = subprocess.Popen([PY, os.path.join(HERE, 'engine', 'run.py'), ded_out,
                                   str(300 if quick else 1800), str(JOBS)] + args,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        built = list(ex.map(lambda n: build_native(n, tmp), names))
    ded = {'files': {}}
    ded_err = ''
    if proofs:
        _, err = proofs.communicate()
        try:
            ded = json.load(open(ded_out))
        except Exception:
            ded_err = 'the deductive tier gave no result: ' + (err or '')[-800:]
    t_ded = time.time() - t0

    # ---- verdict of the proofs
    cats = checks.CATS[prop]
    total = discharged = undecided = 0
    failed, limits, per_harness, funcs, contracts = [], {}, {}, set(), set()
    solver = 0.0
    queries = 0
    for f, r in ded['files'].items():
        if r.get('error'):
            limits[f] = r['error']
            continue
        for h, x in r['harnesses'].items():
            mine = {k: v for k, v in x['obl'].items() if k.split(':')[0].split(' ')[0] in cats}
            a, b, c = (sum(v[i] for v in mine.values()) for i in range(3))
            mem = x['mem'] if 'mem' in cats else 0
            if x['limits']:
                limits['%s/%s' % (f, h)] = x['limits']
            if x['done'] == 0 and not x['failures']:
                limits['%s/%s' % (f, h)] = 'no path of this harness is completed'
            total += a + b + c + mem
            discharged += a + mem
            undecided += c
            solver += x['solver_s']
            queries += x['queries']
            funcs.update(x['funcs'])
            contracts.update(x['contracts'])
            per_harness['%s/%s' % (f, h)] = {
                'obligations_discharged': a, 'named_obligations': len(mine), 'memory_obligations': mem,
                'failed': b, 'undecided': c, 'paths': x['done'], 'queries': x['queries'],
                'solver_s': round(x['solver_s'], 2), 'complete': not x['limits']}
            for q in x['failures']:
                if q['obligation'].split(':')[0].split(' ')[0] in cats:
                    failed.append((f, h, q))
                else:
                    limits.setdefault('%s/%s' % (f, h), 'stopped by an obligation of another property: ' + q['obligation'])

    # ---- bounded tier; a failed obligation lengthens the search for a failing input
    if failed:
        secs = max(secs, 60)
    ok = [(n, o, fl) for n, o, fl, m in built if o]
    broken = [(n, m) for n, o, fl, m in built if not o]
    tasks = []
    shards = max(1, JOBS // max(1, len(ok)))
    for n, o, fl in ok:
        for s in range(shards):
            tasks.append((n, o, fl, s))
    cases = distinct = abandoned = 0
    found = []
    secs_each = secs if len(tasks) <= JOBS else max(3, secs * JOBS // len(tasks))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda t: (t, run_native(t[1], prop, seed, t[3], shards, secs_each, ops)), tasks))
    per_bin = {}
    for (n, o, fl, s), r in res:
        if r is None:
            continue
        cases += r[0]
        distinct += r[1]
        abandoned += r[2]
        per_bin[n] = per_bin.get(n, 0) + r[0]
        if r[3] >= 0:
            found.append((n, o, fl, r[3]))
    # histories given up because they met the failure of another property first
    samples = []
    if found:
        n, o, fl, case = found[0]
        k, rc, out = shortest(o, prop, seed, case, ops)
        if not fails(rc):
            k, rc, out = shortest(o, prop, seed, case, ops)
        path = os.path.join(rpdir, '%s-%s-%d.txt' % (prop, n, case))
        with open(path, 'w') as fp:
            fp.write('property %s fails on a concrete history of the real code\n' % prop)
            fp.write('build: bash native/build.sh native/%s /tmp/%s %s\n' % (checks.NATIVE[n][0], n, ' '.join(fl)))
            fp.write('run:   /tmp/%s --prop %s --seed %d --case %d --ops %d --trace\n' % (n, prop, seed, case, k))
            fp.write('exit status %d; the history (one line per operation) and what failed:\n%s\n' % (rc, out[-20000:]))
            if failed:
                fp.write('failed obligations: %s\n' % [q['obligation'] for _, _, q in failed])
        violations.append((path, ''))
    elif failed:
        path = os.path.join(rpdir, '%s-obligations.txt' % prop)
        with open(path, 'w') as fp:
            for f, h, q in failed:
                fp.write('failed obligation: %s\n  harness %s of contracts/%s\n  cases %s\n  inputs %s\n  notes %s\n  call stack %s\n\n' % (
                    q['obligation'], h, checks.DEDUCTIVE[f]['src'], q['cases'], q['inputs'], q['notes'], q['callstack']))
        violations.append((path, ' no-failing-input-found'))
    for n, o, fl in ok[:2]:
        _, out = trace(o, prop, seed, 0, 12)
        samples.append({'binary': n, 'case': 0, 'history': out.splitlines()[:14]})

    # ---- known findings
    for probe, text in known_findings(prop):
        out = os.path.join(tmp, probe)
        p = subprocess.run(['bash', os.path.join(HERE, 'native', 'build.sh'), os.path.join(HERE, 'native', probe + '.cpp'), out],
                           capture_output=True, text=True)
        if p.returncode == 0 and subprocess.run([out], capture_output=True, timeout=60).returncode != 0:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))

    level = checks.LEVEL.get(prop, 'exploration')
    cov = {
        'obligations': total, 'discharged': discharged, 'undecided': undecided,
        'checker_cmd': 'python3 check.py %s %s (engine/run.py: z3 %s through python)' % (prop, tier, z3v()),
        'trusted_base': checks.TRUSTED,
        'functions_under_contract': sorted(contracts), 'functions_executed_symbolically': sorted(short(x) for x in funcs)[:400],
        'harnesses': per_harness, 'solver_s': round(solver, 2), 'solver_queries': queries, 'deductive_s': round(t_ded, 1),
        'proofs_not_completed': limits or {}, 'deductive_error': ded_err,
        'bounded_tier': {
            'label': 'bounded: not counted as proved',
            'bound': 'random histories of at most %d operations, seed %d, %d s per process; see native/*.cpp for sizes' % (ops, seed, secs_each),
            'histories_per_binary': per_bin, 'abandoned': abandoned,
            'not_built': [n for n, _ in broken]},
        'evaluations': cases, 'distinct_nontrivial': distinct,
        'rule': 'a case is one history of operations drawn from the seed; non-trivial: at least 20 random decisions; '
                'distinct: by the hash of all decisions',
        'samples': samples,
        'explanation': checks.EXPLAIN.get(prop, ''),
    }
    ev = {'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': checks.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    print('%s: %d of %d obligations discharged (%d undecided) in %d harnesses, %d failed; %d histories; %.0f s' % (
        prop, discharged, total, undecided, len(per_harness), len(failed), cases, time.time() - t0))
    for k, v in limits.items():
        print('  not completed: %s: %s' % (k, str(v)[:300]))
    for n, m in broken:
        print('  not built: %s: %s' % (n, m[:300]))
    for path, suffix in violations:
        print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
    sys.stdout.flush()
    return 1 if violations else 0


def z3v():
    try:
        return subprocess.run([PY, '-c', 'import z3;print(z3.get_version_string())'], capture_output=True, text=True).stdout.strip()
    except Exception:
        return '?'


def short(n):
    return re.sub(r'<.*>', '<>', n)[:160]


if __name__ == '__main__':
    sys.exit(main())
