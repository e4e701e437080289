"""drive.py MOD PROP TIER SEED BUDGET OUT [SCRIPTS]: executes the scenarios of driver MOD for PROP on the real code.

Writes {"traces": [...], "scen": [...], "failed": [...]}: every trace is {"id", "kind", "k" (constants), "ev" (events)};
"failed" lists the scenarios without a regular result (exception out of the code, hang, death of the process)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    mod, prop, tier, seed, budget, out = sys.argv[1:7]
    m = importlib.import_module(mod)
    scripts = json.load(open(sys.argv[7])) if len(sys.argv) > 7 else None
    replay = '--replay' in sys.argv          # the file holds one recorded scenario
    pool = common.Pool(m.run, getattr(m, 'WORKERS', 4), getattr(m, 'TIMEOUT', 120), getattr(m, 'init', None))
    if not getattr(m, 'LAZY', False):
        m.init()
        pool.init = None
    kw = {'scripts': scripts} if scripts is not None and not replay else {}
    res = {'traces': [], 'scen': [], 'failed': [], 'errors': []}

    def jobs():
        if replay:
            yield scripts
            return
        for n, s in enumerate(m.scenarios(prop, tier, int(seed), **kw)):
            s['id'] = '%s-%d' % (s.get('kind', 's'), n)
            yield s
    for s, st, r in pool.run(jobs(), float(budget)):
        if st == 'ok':
            if r is None:
                continue
            for j, t in enumerate(r if isinstance(r, list) else [r]):
                t['id'] = s['id'] + ('' if j == 0 else '.%d' % j)
                t.setdefault('kind', s.get('kind', ''))
                res['traces'].append(t)
                res['scen'].append(s)
        elif st == 'harness':
            res['errors'].append({'scen': s, 'what': r})
        else:
            res['failed'].append({'id': s['id'], 'scen': s, 'status': st, 'what': r})
            if st in ('hang', 'died') and sum(f['status'] in ('hang', 'died') for f in res['failed']) >= 3:
                break
            if len(res['failed']) >= 40:
                break
    for w in pool.w:            # after a break: workers that still run would keep the pipes of this process open
        pool.kill(w)
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.rename(tmp, out)
    os._exit(0)


main()
