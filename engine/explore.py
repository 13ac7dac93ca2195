"""Exploration of all paths of a harness; tasks are spread over worker processes."""
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback
import z3
import ir
import rt
import codegen
import natives
from rt import S, Violation, Limit, EndPath, Split, CxxThrow


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')


CXXFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w',
            '-U_FORTIFY_SOURCE', '-fno-access-control']


def build(src, out, repo='/repo', extra=()):
    """C++ source -> simplified textual IR; (ok, message)"""
    c = ['clang++-18'] + CXXFLAGS + ['-I' + repo, '-I' + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/contracts',
                                     *extra, '-S', '-emit-llvm', src, '-o', out + '.raw']
    p = subprocess.run(c, capture_output=True, text=True)
    if p.returncode:
        return False, p.stderr[-3000:]
    p = subprocess.run(['opt-18', '-S', '-passes=function(sroa,early-cse,simplifycfg),globaldce', out + '.raw',
                        '-o', out], capture_output=True, text=True)
    os.remove(out + '.raw')
    if p.returncode:
        return False, p.stderr[-3000:]
    return True, ''


def load(path):
    mod = ir.Module(path)
    ref = [None]
    prog = codegen.Program(mod, natives.make(ref))
    ref[0] = prog
    names = list(mod.funcs) + list(mod.decls)
    dem = demangle([n[1:].strip('"') for n in names])
    prog.demangled = dict(zip(names, dem))
    # contracts: globals named vp_contract_<key>: { ptr regex, ptr function }
    prog.contract_keys = {}
    for g in list(mod.global_lines):
        m = re.match(r'@vp_contract_(\w+)$', g)
        if not m:
            continue
        key = m.group(1)
        const, ty, init, tls = mod.global_def(g)
        fields = init[1]
        rx = mod.global_def(fields[0][1][1])[2][1].rstrip(b'\0').decode()
        fn = fields[1][1][1]
        r = re.compile(rx)
        hits = []
        for n in mod.funcs:
            if r.search(prog.demangled.get(n, n)):
                # same parameters?
                hits.append(n)
        cparams = sig(mod, fn)
        ok = [n for n in hits if sig(mod, n) == cparams]
        for n in ok:
            prog.contract_of.setdefault(n, []).append((fn, 0, key))
        prog.contract_keys[key] = ok
    rt.demangle_cb = lambda n: prog.demangled.get(n, n)
    return prog


def sig(mod, n):
    f = mod.func(n)
    return (f.ret, tuple(t for t, _, _ in f.params))


def harnesses(prog):
    return sorted(n[1:] for n in prog.mod.funcs if n.startswith('@vp_h_'))


def explore(prog, name, fixed, split_depth, deadline, opts):
    rt.init_task(fixed, split_depth, deadline, opts)
    res = {'harness': name, 'fixed': fixed, 'split': None, 'status': 'ok'}
    t0 = time.time()
    nlimit = 0
    try:
        fn = prog.get('@' + name)
        while True:
            rt.init_path()
            S.paths += 1
            try:
                fn()
                if S.depth < len(S.trail):
                    raise Limit('replay diverged')
                rt.ensure_feasible()
                S.done_paths += 1
            except EndPath:
                pass
            except Violation:
                if len(S.failures) >= opts.get('max_failures', 3):
                    res['status'] = 'violation'
                    break
            except CxxThrow as e:
                try:
                    rt.violation('control: exception escapes the harness: %s' % e.ti)
                except Violation:
                    if len(S.failures) >= opts.get('max_failures', 3):
                        break
                except EndPath:
                    pass
            except Limit as e:
                k = str(e)
                S.limits[k] = S.limits.get(k, 0) + 1
                if os.environ.get('VP_TRACE'):
                    traceback.print_exc()
                    print([rt.demangle_cb(x) for x in S.callstack[-8:]])
                nlimit += 1
                if k == 'time budget' or nlimit > opts.get('max_limits', 20):
                    break
            if time.time() > deadline:
                S.limits['time budget'] = 1
                break
            if not rt.backtrack():
                break
    except Split as e:
        res['split'] = e.n
    except Limit as e:
        S.limits[str(e)] = 1
    except RecursionError:
        S.limits['recursion of the tool'] = 1
    except Exception as e:
        S.limits['internal error: %s' % traceback.format_exc()[-1500:]] = 1
    if S.failures:
        res['status'] = 'violation'
    elif S.limits:
        res['status'] = 'limit'
    res.update(obl=S.obl, failures=S.failures, limits=S.limits, paths=S.paths, done=S.done_paths, queries=S.queries,
               solver_s=S.solver_s, slow=S.slow, mem=S.mem_checks, funcs=sorted(S.funcs), cover=S.cover,
               contracts=dict(S.contracts_used), steps=S.steps, wall=time.time() - t0)
    return res


_prog = None
_opts = None
_deadline = None


def _worker(args):
    name, fixed, sd = args
    return explore(_prog, name, fixed, sd, _deadline, _opts)


def merge(total, r):
    t = total.setdefault(r['harness'], {'obl': {}, 'failures': [], 'limits': {}, 'paths': 0, 'done': 0, 'queries': 0,
                                        'solver_s': 0.0, 'slow': 0.0, 'mem': 0, 'funcs': set(), 'cover': {},
                                        'contracts': {}, 'tasks': 0, 'wall': 0.0, 'maxtask': 0.0, 'steps': 0})
    if r['split'] is not None:
        return
    for k, v in r['obl'].items():
        o = t['obl'].setdefault(k, [0, 0, 0])
        for i in range(3):
            o[i] += v[i]
    t['failures'] += r['failures']
    for k, v in r['limits'].items():
        t['limits'][k] = t['limits'].get(k, 0) + v
    for k in ('paths', 'done', 'queries', 'solver_s', 'mem', 'wall', 'steps'):
        t[k] += r[k]
    t['slow'] = max(t['slow'], r['slow'])
    t['maxtask'] = max(t['maxtask'], r['wall'])
    t['funcs'].update(r['funcs'])
    for d in ('cover', 'contracts'):
        for k, v in r[d].items():
            t[d][k] = t[d].get(k, 0) + v
    t['tasks'] += 1


def run(prog, names, jobs=8, budget=300, split=None, opts=None, progress=None, stop_on_violation=True):
    """explore the harnesses on a pool of processes; {harness: totals}"""
    global _prog, _opts, _deadline
    _prog = prog
    _opts = opts or {}
    _deadline = time.time() + budget
    split = split or {}
    total = {}
    ctx = mp.get_context('fork')
    pending = 0
    queue = [(n, [], split.get(n, 1)) for n in names]
    with ctx.Pool(jobs) as pool:
        results = []
        import queue as qm
        doneq = qm.Queue()

        def submit(t):
            pool.apply_async(_worker, (t,), callback=doneq.put,
                             error_callback=lambda e, t=t: doneq.put({'error': e, 'task': t}))
        for t in queue:
            submit(t)
            pending += 1
        bad = set()
        while pending:
            r = doneq.get()
            pending -= 1
            if 'error' in r:
                n, fixed, sd = r['task']
                merge(total, {'harness': n, 'split': None, 'obl': {}, 'failures': [],
                              'limits': {'worker error: %r' % (r['error'],): 1}, 'paths': 0, 'done': 0, 'queries': 0,
                              'solver_s': 0, 'slow': 0, 'mem': 0, 'funcs': [], 'cover': {}, 'contracts': {},
                              'wall': 0, 'steps': 0})
                continue
            merge(total, r)
            if r['split'] is not None:
                for v in range(r['split']):
                    submit((r['harness'], r['fixed'] + [v], split.get(r['harness'], 1)))
                    pending += 1
            elif progress:
                progress(r)
        pool.close()
        pool.join()
    return total


if __name__ == '__main__':
    src = sys.argv[1]
    out = '/tmp/w/%s.ll' % os.path.basename(src).replace('.cpp', '')
    os.makedirs('/tmp/w', exist_ok=True)
    t = time.time()
    ok, msg = build(src, out, os.environ.get('VP_REPO', '/repo'), os.environ.get('VP_FLAGS', '').split())
    if not ok:
        print(msg)
        sys.exit(2)
    print('build %.1fs' % (time.time() - t))
    t = time.time()
    prog = load(out)
    print('load %.1fs' % (time.time() - t), {k: len(v) for k, v in prog.contract_keys.items()})
    hs = [h for h in harnesses(prog) if len(sys.argv) < 3 or re.search(sys.argv[2], h)]
    jobs = int(os.environ.get('VP_JOBS', '8'))
    t = time.time()
    if jobs == 1:
        tot = {}
        fixed = [int(x) for x in os.environ.get('VP_FIXED', '').split(',') if x]
        for h in hs:
            r = explore(prog, h, fixed, 0, time.time() + 3000, {'max_failures': 1})
            merge(tot, r)
    else:
        tot = run(prog, hs, jobs, budget=float(os.environ.get('VP_BUDGET', '600')))
    for h in sorted(tot):
        r = tot[h]
        nd = sum(o[0] for o in r['obl'].values())
        nf = sum(o[1] for o in r['obl'].values())
        nu = sum(o[2] for o in r['obl'].values())
        print('%-40s paths %d/%d obl %d ok %d failed %d undecided; queries %d solver %.1fs slow %.2f mem %d tasks %d cpu %.1f max %.1f' % (
            h, r['done'], r['paths'], nd, nf, nu, r['queries'], r['solver_s'], r['slow'], r['mem'], r['tasks'], r['wall'], r['maxtask']))
        if r['limits']:
            print('   limits', {k[-700:]: v for k, v in r['limits'].items()})
        if os.environ.get('VP_OBL'):
            for k, o in sorted(r['obl'].items()):
                print('    ', o, k)
            print('    cover', r['cover'], 'contracts', r['contracts'])
        seen = set()
        for f in r['failures']:
            if f['obligation'] in seen:
                continue
            seen.add(f['obligation'])
            print('   FAIL', f['obligation'], f['cases'], f['inputs'][:30], f['notes'])
            print('      ', f['callstack'])
    print('total %.1fs' % (time.time() - t))
