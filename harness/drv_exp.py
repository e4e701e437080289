"""The experiment up to the point where it trains the tree classifier: the instance it has built (C27)."""
import os
import random
import shutil
import tempfile
import common
import drv_tree as d
from common import i, il, quiet, BAD

WORKERS = 8
TIMEOUT = 200
DATA = os.path.join(common.REPO, 'examples/datasets')
FILES = [('small_datasets/tic_tac_toe/given_splits/tic-tac-toe.csv.train0.csv', ';', 4),
         ('medium_datasets/car_evaluation/given_splits/car_evaluation.csv.train0.csv', ';', 3)]


def init():
    global ex, np, pd
    d.init()
    import numpy as np
    import pandas as pd
    import examples.dtree_experiment as ex
    common.repo_loaded(ex)


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 13 + 1)
    yield {'kind': 'known', 'rows': None, 'D': 5, 'sep': ',', 'header': True, 'seed': 77, 'limit': 30, 'n': 160, 'nf': 6, 'K': 3,
           'labels': 0, 'step': 1}
    for n in range(60 if tier == 'quick' else 500):
        yield {'kind': 'csv', 'D': rng.choice([1, 2, 2, 3, 3, 4, 5]), 'sep': rng.choice([',', ';']), 'header': rng.random() < .7,
               'n': rng.choice([12, 20, 40, 80]), 'nf': rng.choice([1, 2, 3, 5]), 'K': rng.choice([2, 2, 3, 4]), 'labels': rng.choice([0, 1, 2, 3]),
               'seed': rng.randrange(1 << 30), 'limit': rng.choice([3, 3, 9, -1]) if n % 8 == 0 else 3, 'step': rng.choice([1, 1, 2])}


class Stop(Exception):
    pass


def run(s):
    with quiet():
        return run_(s)


def run_(s):
    rng = random.Random(s['seed'])
    n, nf, K = s['n'], s['nf'], s['K']
    lab = [list(range(K)), ['d', 'b', 'c', 'a'][:K], [7, -2, 30, 4][:K], ['yes', 'no', 'maybe', 'x'][:K]][s['labels']]
    hi = rng.choice([1, 2, 5, 10])
    X = [[rng.randint(-hi if s['labels'] == 2 else 0, hi) * s['step'] for _ in range(nf)] for _ in range(n)]
    X[0], X[1] = [0] * nf, [s['step']] * nf
    y = [min(K - 1, sum(v > 0 for v in r[:2])) if rng.random() < .6 else rng.randrange(K) for r in X]
    for c in range(K):
        y[c + 2] = c
        y[-1 - c] = c
    tmp = tempfile.mkdtemp(prefix='cge-exp-')
    got = {}

    class Stub:
        def __init__(self, paths, leaves, nodes, splits, **kw):
            got.update(paths=paths, leaves=leaves, nodes=nodes, splits=splits, kw=kw)

        def fit(self, X, y):
            got.update(X=X, y=y)
            raise Stop()
    old = ex.DTreeClassifier
    ex.DTreeClassifier = Stub
    before, old_reduce = [], getattr(ex, 'reduce_splits', None)

    def reduce(nodes, *a):
        before[:] = [il(q.candidate_splits) for q in nodes]
        return old_reduce(nodes, *a)
    if old_reduce:
        ex.reduce_splits = reduce
    try:
        f = os.path.join(tmp, 'train.csv')
        with open(f, 'w') as o:
            if s['header']:
                o.write(s['sep'].join(['f%d' % j for j in range(nf)] + ['class']) + '\n')
            for r, c in zip(X, y):
                o.write(s['sep'].join([str(v) for v in r] + [str(lab[c])]) + '\n')
        a = ['-T', f, '-t', f, '-S', s['sep'], '-d', str(s['D']), '-s', str(s['limit'])]
        if not s['header']:
            a += ['-H', '-1']
        try:
            ex.main(a)
        except Stop:
            pass
    finally:
        ex.DTreeClassifier = old
        if old_reduce:
            ex.reduce_splits = old_reduce
        shutil.rmtree(tmp, ignore_errors=True)
    order = sorted(set(lab))
    sp = got['splits']
    rows = got['kw']['data_rows']
    X4 = [[4 * v for v in r] for r in X]
    k = {'D': s['D'], 'K': K, 'X': X4, 'y': il(got['y']), 'sp': [[i(q.feature), i(4 * float(q.threshold))] for q in sp],
         'cand': [il(q.candidate_splits) for q in got['nodes']], 'w': [i(r.weight) for r in rows], 'rm': [bool(r.removed_from_master) for r in rows],
         'rs': [bool(r.removed_from_sp) for r in rows], 'beta': False, 'gen': False, 'rounds': 0, 'S': 1, 'tol': 0}
    e = {'op': 'instance', 'before': before or k['cand'], 'splitids': [i(q.id) for q in sp], 'left': [sorted(map(i, q.left_rows)) for q in sp],
         'right': [sorted(map(i, q.right_rows)) for q in sp], 'nodeids': [i(q.id) for q in got['nodes']],
         'leaves': [{'id': i(q.id), 'left': il(q.left_nodes), 'right': il(q.right_nodes)} for q in got['leaves']],
         'paths': [d.jpath(p) for p in got['paths']], 'targets': il(got['kw']['targets']), 'codes': [order.index(lab[c]) for c in y],
         'data': got['X'].tolist() == X and got['kw']['tree_depth'] == s['D'], 'agg': False, 'haspaths': False, 'ps': [],
         'rows': [{'nodes': sorted(map(i, r.reachable_nodes)), 'leaves': sorted(map(i, r.reachable_leaves)), 'paths': [],
                   'lsp': sorted(map(i, r.left_splits)), 'rsp': sorted(map(i, r.right_splits)),
                   'rm': bool(r.removed_from_master), 'rs': bool(r.removed_from_sp), 'w': i(r.weight)} for r in rows],
         'links': [{'parent': i(q.parent), 'left': i(q.left_child), 'right': i(q.right_child), 'cal': bool(q.children_are_leaves)} for q in got['nodes']]}
    return {'k': k, 'ev': [e]}
