"""Preprocessing of the rows: the package's own and the one of the experiment (C26)."""
import random
import common
import drv_tree as d
from common import i, il, quiet

WORKERS = 6
TIMEOUT = 120


def init():
    global ex, np
    d.init()
    import numpy as np
    import examples.dtree_experiment as ex
    common.repo_loaded(ex)


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 31 + 5)
    for n in range(420 if tier == 'quick' else 6000):
        D = rng.choice([1, 2, 2, 2, 3, 3, 4, 5])
        k = d.inst(rng, D=D, n=rng.choice([4, 8, 12, 20, 30]) if D < 4 else 8, nsp=rng.choice([1, 2, 3, 5, 8]), ncand=rng.choice([1, 2, 3]) if D < 4 else 2)
        if D < 4 and rng.random() < .15:    # more candidates
            k = d.inst(rng, D=min(D, 2), n=rng.choice([8, 16, 30]), nsp=9, ncand=9)
            k['cand'] = [rng.sample(range(len(k['sp'])), rng.randint(min(4, len(k['sp'])), len(k['sp']))) for _ in k['cand']]
        if n % 30 == 7:
            k = d.inst(rng, D=rng.choice([1, 2, 3]), nsp=13, ncand=rng.choice([2, 3]), wide=True)
        if n % 30 == 17:
            k = d.inst(rng, D=rng.choice([1, 2]), n=rng.choice([70, 110]), nsp=rng.choice([2, 12]), ncand=2)
        d.fine(rng, k)
        if rng.random() < .5:               # many rows behave alike
            for r in range(len(k['X'])):
                if rng.random() < .5:
                    k['X'][r] = list(rng.choice(k['X']))
        yield {'kind': rng.choice(['pkg', 'pkg', 'ex', 'ex', 'given']), 'k': k, 'agg': rng.random() < .6, 'seed': rng.randrange(1 << 30),
               'limit': rng.choice([150, 150, -1, 1e-9, 1e-4])}


def run(s):
    with quiet():
        return run_(s)


def run_(s):
    rng = random.Random(s['seed'])
    k = s['k']
    X, y, splits, nodes, leaves = d.objects(k)
    ps = d.tree(rng, k)
    known = {d.ptuple(p) for p in ps}
    for _ in range(rng.choice([0, 3, 8, 8, 20])):
        p = d.randpath(rng, k)
        if d.ptuple(p) not in known:
            known.add(d.ptuple(p))
            ps.append(p)
    ev = []

    def jrow(r, pos):
        return {'nodes': sorted(map(i, r.reachable_nodes)), 'leaves': sorted(map(i, r.reachable_leaves)),
                'paths': sorted(pos.get(p, common.BAD) for p in r.reachable_paths) if pos else [],
                'lsp': sorted(map(i, r.left_splits)), 'rsp': sorted(map(i, r.right_splits)),
                'rm': bool(r.removed_from_master), 'rs': bool(r.removed_from_sp), 'w': i(r.weight)}

    def prep(rows, agg, pos):
        ev.append({'op': 'prep', 'agg': bool(agg), 'haspaths': pos is not None, 'ps': ps, 'rows': [jrow(r, pos) for r in rows],
                   'links': [{'parent': i(nd.parent), 'left': i(nd.left_child), 'right': i(nd.right_child), 'cal': bool(nd.children_are_leaves)} for nd in nodes]})
    rps = [d.rpath(p) for p in ps]
    rows = None
    if s['kind'] != 'pkg':
        rows = ex.preprocess(nodes, splits, X, y, k['D'], aggressive=s['agg'], time_limit=s['limit'])
        prep(rows, s['agg'], None)
        if rng.random() < .2:               # again on the same nodes
            rows = ex.preprocess(nodes, splits, X, y, k['D'], aggressive=s['agg'], time_limit=s['limit'])
            prep(rows, s['agg'], None)
    mp = d.T.DTreeMasterProblem(rps, leaves, nodes, splits, data_rows=rows)
    pos = lambda: {p.id: j + 1 for j, p in enumerate(mp.paths_)}
    mp.generate_mp(X, y)
    if s['kind'] == 'pkg':
        prep(mp.data_rows, False, pos())
        prep(mp.preprocess_rows(aggressive=s['agg']), s['agg'], pos())
    # the paths a row can follow are kept up to date
    reach = lambda: ev.append({'op': 'reach', 'ps': [d.jpath(p) for p in mp.paths_],
                               'paths': [sorted(pos().get(p, common.BAD) for p in r.reachable_paths) for r in mp.data_rows]})
    reach()
    for _ in range(rng.choice([0, 1, 3])):
        p = d.randpath(rng, k)
        if d.ptuple(p) in known:
            continue
        known.add(d.ptuple(p))
        mp.add_column(d.rpath(p))
        reach()
    if rng.random() < .3:                   # a second master on the same rows
        mp = d.T.DTreeMasterProblem([d.rpath(p) for p in d.tree(rng, k)], leaves, nodes, splits, data_rows=mp.data_rows)
        mp.generate_mp(X, y)
        reach()
    return {'k': d.consts(k), 'ev': ev}
