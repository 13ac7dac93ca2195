#!/opt/veriftools/pyvenv/bin/python3
"""run.py OUT.json BUDGET JOBS NAME=SRC=REGEX[=FLAG ...] ...   explores the harnesses of several contract files"""
import concurrent.futures
import json
import os
import re
import shutil
import sys
import tempfile
import time

sys.setrecursionlimit(100000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import explore  # noqa: E402


def main():
    out, budget, jobs = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    repo = os.environ.get('VP_REPO', '/repo')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    todo = []
    for a in sys.argv[4:]:
        p = a.split('=', 3)
        todo.append((p[0], os.path.join(here, 'contracts', p[1]), p[2], p[3].split(' ') if len(p) > 3 and p[3] else []))
    tmp = tempfile.mkdtemp(prefix='vp_ir_')
    result = {'files': {}}
    end = time.time() + budget
    try:
        def b(t):
            t0 = time.time()
            ok, msg = explore.build(t[1], os.path.join(tmp, t[0] + '.ll'), repo, t[3])
            return ok, msg, time.time() - t0
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            built = list(ex.map(b, todo))
        for t, (ok, msg, secs) in zip(todo, built):
            name = t[0]
            f = result['files'][name] = {'build_s': round(secs, 2), 'harnesses': {}}
            if not ok:
                f['error'] = 'the contracts do not compile against this tree: ' + msg[-1500:]
                continue
            try:
                prog = explore.load(os.path.join(tmp, name + '.ll'))
                f['contracts'] = {k: len(v) for k, v in prog.contract_keys.items()}
                hs = [h for h in explore.harnesses(prog) if re.search(t[2], h)]
                left = end - time.time()
                tot = explore.run(prog, hs, jobs, budget=max(5, left))
            except Exception as e:  # a limit of the tool, never a verdict
                f['error'] = 'tool: %r' % (e,)
                continue
            dem = prog.demangled
            for h, r in tot.items():
                fn = sorted({dem.get(x, x) for x in r['funcs']})
                r['funcs'] = [x for x in fn if 'immer::' in x and not x.startswith(('std::', 'vp_'))]
                seen, fails = set(), []
                for x in r['failures']:
                    if x['obligation'] not in seen:
                        seen.add(x['obligation'])
                        fails.append({'obligation': x['obligation'], 'cases': x['cases'],
                                      'inputs': [str(i) for i in x['inputs']], 'notes': [str(i) for i in x['notes']],
                                      'callstack': [str(c) for c in x['callstack']]})
                r['failures'] = fails
                f['harnesses'][h] = r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with open(out, 'w') as fp:
        json.dump(result, fp, default=str)


if __name__ == '__main__':
    main()
