"""Decision trees: geometry, routing, master histories, pricing calls, predictions and complete fits (C16 - C25, C28)."""
import contextlib
import itertools
import random
import adversary
import common
from common import sc, i, il, quiet, in_code, describe, BAD

WORKERS = 4
TIMEOUT = 200
S = 100000
U = 1                       # costs given to a master are multiples of 1/U
XS = 100000000


def init():
    global T, M, np, pb, sps, pywraplp, cp_model, ex
    import numpy as np
    import scipy.sparse as sps
    import col_gen_estimator as M
    import col_gen_estimator._dtree_classifier as T
    from ortools.linear_solver import linear_solver_pb2 as pb
    from ortools.linear_solver import pywraplp
    from ortools.sat.python import cp_model
    common.repo_loaded(T)


LABELS = [None, None, [0, 1, 2, 3, 4], [-3, 5, 7, 8, 100], [1, 2, 3, 4, 5], ['a', 'b', 'c', 'd', 'e'], ['x', 'yes', 'yy', 'z', 'zz'],
          [1.0, 3.0, 4.0, 8.0, 9.0], [10, 200, 300, 400, 1000], [-1, 0, 1, 2, 3]]


# ---------------------------------------------------------------- instances
def inst(rng, D=None, n=None, K=None, nsp=None, ncand=None, neg=None, wide=False):
    D = D or rng.choice([1, 2, 2, 2, 2, 3])
    K = K or rng.choice([2, 2, 3, 3, 4])
    nf = rng.randint(1, 3)
    if wide:                            # many features, classes
        nf, K = rng.choice([11, 12, 33]), rng.choice([2, 6, 11])
    n = max(n or rng.randint(max(4, K), 12), K + 1 if wide else 0)
    lo = rng.choice([0, 0, -4, -10]) if neg is None else neg
    hi = lo + rng.choice([1, 2, 3, 4])
    X = [[4 * rng.randint(lo, hi) for _ in range(nf)] for _ in range(n)]
    if rng.random() < .3:
        X = [[v + rng.randint(-1, 1) for v in r] for r in X]
    ths = sorted({v + d for r in X for v in r for d in (0, 2, -1)})
    al = [[f, t] for f in range(nf) for t in ths]
    rng.shuffle(al)
    nsp = min(nsp or rng.randint(1, 6), len(al))
    sp = al[:nsp]
    if rng.random() < .5:               # related targets
        y = [(r[sp[0][0]] > sp[0][1]) + (r[sp[-1][0]] > sp[-1][1]) for r in X]
        y = [v % K if rng.random() < .8 else rng.randrange(K) for v in y]
    else:
        y = [rng.randrange(K) for _ in X]
    for c in range(K):                  # every class occurs
        if c not in y:
            y[rng.choice([j for j in range(n) if y.count(y[j]) > 1])] = c
    cand = []
    for _ in range(2 ** D - 1):
        cand.append(rng.sample(range(nsp), rng.randint(1, min(ncand or 3, nsp))))
    return {'D': D, 'K': K, 'X': X, 'y': y, 'sp': sp, 'cand': cand, 'w': [1] * n, 'rm': [False] * n, 'rs': [False] * n,
            'beta': False, 'gen': False, 'rounds': 0, 'dr': False}


def fine(rng, k, often=.15):
    """Feature values that single precision cannot tell apart (or huge ones): a strictly monotone exact map."""
    if rng.random() < often:
        k['map'] = rng.choice([[2.0 ** -30, 1.0], [2.0 ** -26, 1.0], [2.0 ** 20, 0.0], [1.0, 2.0 ** 26]])
    return k


def weigh(rng, k):
    """given data rows: arbitrary weights, removed rows"""
    n = len(k['X'])
    k['dr'] = True
    k['w'] = [rng.choice([1, 1, 1, 2, 3, 7]) for _ in range(n)]
    k['rm'] = [rng.random() < .4 for _ in range(n)]
    k['rs'] = [m and rng.random() < .5 for m in k['rm']]
    return k


def left_of(D, leaf):
    """the nodes of a leaf, parent first, with the branch"""
    r, c = [], 2 ** D - 1 + leaf
    while c:
        r.append(((c - 1) // 2, c % 2 == 1))
        c = (c - 1) // 2
    return r


def follows(k, p, row):
    l = dict(left_of(k['D'], p['leaf']))
    return all((row[k['sp'][s][0]] <= k['sp'][s][1]) == l[n] for n, s in zip(p['nodes'], p['splits']))


def mkpath(rng, k, leaf, assign=None, target=None, shuffle=True):
    nodes = [n for n, _ in left_of(k['D'], leaf)]
    if shuffle and rng.random() < .5:
        rng.shuffle(nodes)
    p = {'leaf': leaf, 'nodes': nodes, 'splits': [assign[n] if assign else rng.choice(k['cand'][n]) for n in nodes]}
    cnt = [0] * k['K']
    for r, row in enumerate(k['X']):
        if not k['rs'][r] and follows(k, p, row):
            cnt[k['y'][r]] += k['w'][r]
    p['target'] = cnt.index(max(cnt)) if target is None else target
    p['cost'] = cnt[p['target']]
    return p


def tree(rng, k, assign=None, shuffle=True):
    assign = assign or [rng.choice(c) for c in k['cand']]
    ps = [mkpath(rng, k, l, assign, shuffle=shuffle) for l in range(2 ** k['D'])]
    return ps


def ptuple(p):
    return (p['leaf'], tuple(sorted(zip(p['nodes'], p['splits']))), p['target'])


def randpath(rng, k):
    l = rng.randrange(2 ** k['D'])
    return mkpath(rng, k, l, target=None if rng.random() < .7 else rng.randrange(k['K']))


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 1009 + int(prop[1:]))
    many = 1 if tier == 'quick' else 12
    sd = lambda: rng.randrange(1 << 30)
    if prop == 'C16':
        for D in range(1, 11 if tier == 'quick' else 13):
            for part in range(0, 2 ** D, 64):
                yield {'kind': 'geom', 'D': D, 'leaves': list(range(part, min(2 ** D, part + 64))), 'seed': sd()}
        for n in range(150 * many):
            yield {'kind': 'reuse', 'seed': sd(), 'n': rng.choice([3, 10, 25])}
    if prop == 'C17':
        for n in range(260 * many):
            k = fine(rng, inst(rng, D=rng.choice([1, 2, 2, 3, 3, 4, 5]) if n % 20 != 13 else rng.choice([6, 7, 8, 9]), nsp=rng.choice([None, 3, 8]) if n % 10 != 7 else 13, wide=n % 10 == 7))
            yield {'kind': 'route', 'k': k, 'seed': sd()}
    if prop == 'C18':
        for n in range(200 * many):
            yield {'kind': 'same', 'k': inst(rng, D=rng.choice([1, 2, 2, 3, 3, 4, 5, 6]), nsp=rng.choice([None, None, 6, 9])), 'seed': sd()}
    if prop in ('C19', 'C20', 'C21', 'C24'):
        for n in range({'C19': 230, 'C20': 380, 'C21': 260, 'C24': 260}[prop] * many):
            cuts = prop == 'C20' or rng.random() < {'C19': .5, 'C21': .4, 'C24': .2}[prop]
            D = rng.choice([1, 2, 2, 2, 3] if not cuts else [2, 2, 2, 3])
            k = inst(rng, D=D, n=rng.choice([None, None, None, 16, 24]) if not cuts else rng.choice([6, 8, 10, 14, 30]),
                     nsp=rng.choice([2, 3, 4, 5]) if not cuts else rng.choice([3, 5, 6, 7]), ncand=3)
            if cuts:
                k['cand'] = [rng.sample(range(len(k['sp'])), min(len(k['sp']), rng.choice([2, 3, 3]))) for _ in k['cand']]
            if rng.random() < .4:
                weigh(rng, k)
            k['beta'] = rng.random() < (.6 if cuts else .3)
            k['gen'] = rng.random() < .7 if cuts else False
            k['rounds'] = rng.choice([0, 1, 1, 2, 3, 3, 5]) if cuts else rng.choice([0, 3])
            if cuts and k['gen'] and rng.random() < .6:     # hardly any row has a row constraint
                weigh(rng, k)
                k['rm'] = [rng.random() < .9 for _ in k['rm']]
                k['rs'] = [False] * len(k['rs'])
            rich = cuts and rng.random() < .3
            if rich:                        # several different cuts per round
                k = inst(rng, D=3, n=rng.choice([8, 14]), nsp=7, ncand=3)
                k['cand'] = [rng.sample(range(len(k['sp'])), min(len(k['sp']), 3)) for _ in k['cand']]
                weigh(rng, k)
                k['rm'], k['rs'] = [rng.random() < .97 for _ in k['rm']], [False] * len(k['rs'])
                k['gen'], k['beta'], k['rounds'] = True, rng.random() < .3, rng.choice([1, 3, 5])
            if n % 40 == 17 and not cuts:     # sixteen leaves
                k = inst(rng, D=4, n=rng.choice([5, 8]), K=2, nsp=rng.choice([3, 5]), ncand=2)
            if n % 40 == 37 and not cuts:     # two-digit numbers of nodes and splits
                while True:
                    k = inst(rng, D=4, n=rng.choice([6, 8]), K=2, nsp=14)
                    if len(k['sp']) == 14:
                        break
                pool = rng.sample(range(1, 4), 2) + [11, 12, 13]
                k['cand'] = [rng.sample(pool, 3) for _ in k['cand']]
            if n % 40 == 27 and not cuts:
                k = inst(rng, D=rng.choice([2, 3]), n=rng.choice([13, 16]), nsp=13, wide=True)
            long = prop == 'C20' and n % 40 == 7
            if long:                            # many rows whose constraints are cuts
                k = inst(rng, D=2, n=rng.choice([75, 90]), nsp=rng.choice([5, 6, 7]), ncand=3)
                k['cand'] = [rng.sample(range(len(k['sp'])), min(len(k['sp']), 3)) for _ in k['cand']]
                k['beta'], k['gen'], k['rounds'] = True, rng.random() < .5, rng.choice([1, 3])
                weigh(rng, k)
                k['rm'], k['rs'] = [j < 66 or (m and rng.random() < .5) for j, m in enumerate(k['rm'])], [False] * len(k['rs'])
            own = rng.random() < (.8 if cuts else .3)
            many_paths = n % 40 == 7 and not cuts and not rich
            yield {'kind': 'master', 'k': k, 'seed': sd(), 'unit': rng.choice([1, 1, 1, 16, 256]) if own else 1, 'remove': rng.random() < .3,
                   'npath': rng.choice([60, 110, 140]) if many_paths else rng.choice([0, 2, 5, 10]) if not cuts else rng.choice([8, 15, 25]) if not rich else rng.choice([15, 25, 40]),
                   'init': rng.choice([1, 1, 2, 3]), 'solve': .08 if many_paths else (1 if not rich else .5) if prop != 'C24' else .1, 'ip': .06 if many_paths else .15 if prop != 'C24' else .5,
                   'hasm': .05 if many_paths else {'C19': .6 if not rich else .15, 'C20': .15}.get(prop, .02), 'cuts': cuts, 'costs': own, 'solver': rng.choice(['glop', 'glop', 'glop', 'clp'])}
        for s in fits(rng, {'C19': 40, 'C20': 200, 'C21': 50, 'C24': 90}[prop] * many, 1 if prop != 'C24' else .2, cuts=prop == 'C20'):
            yield s
        if scripts:
            rng.shuffle(scripts)
            for s in scripts[:700 * many]:
                k = dict(s['k'], beta=rng.random() < .5, gen=False, rounds=0, dr=False, w=[1] * len(s['k']['X']),
                         rm=[False] * len(s['k']['X']), rs=[False] * len(s['k']['X']))
                yield {'kind': 'tlc', 'k': k, 'ini': s['init'], 'h': s['h'], 'seed': sd(), 'hasm': .3 if prop == 'C19' else 0,
                       'cuts': False, 'costs': False, 'solver': 'glop'}
    if prop in ('C22', 'C23'):
        for n in range({'C22': 900, 'C23': 900}[prop] * many):
            kinds = ['sat', 'sat', 'mip', 'old'] + (['heur'] * 2 if prop == 'C22' else [])
            D = rng.choice([1, 2, 2, 2, 3])
            k = inst(rng, D=D, nsp=rng.choice([None, 2, 4, 7]), ncand=rng.choice([3, 3, 4]))
            if rng.random() < .5:
                weigh(rng, k)
            kind = rng.choice(kinds)
            if n % 30 == 7:
                k = inst(rng, D=rng.choice([1, 2, 3]), nsp=13, wide=True)
            if n % 30 == 17:                # two-digit numbers of nodes and splits
                k = inst(rng, D=4, n=rng.choice([6, 10]), nsp=14)
                if len(k['sp']) == 14:
                    pool = rng.sample(range(1, 4), 2) + [11, 12, 13]
                    k['cand'] = [rng.sample(pool, 3) for _ in k['cand']]
            near = n % 10 == 3              # many paths of nearly the same value
            if near:
                k, kind = inst(rng, D=rng.choice([2, 3]), n=rng.choice([20, 30]), nsp=7, ncand=4), 'sat'
            yield {'kind': 'price', 'k': k, 'sub': kind, 'seed': sd(), 'calls': rng.choice([1, 2, 3, 5]) if not near else 8, 'q': 1024 if near else rng.choice([1, 2, 4, 16, 16, 3, 7] + ([256, 1024] if kind in ('sat', 'heur') else [64])),   # the MIP solver stops at a relative gap of 1e-4
                   'near': near}
        for s in fits(rng, 90 * many, 1):
            yield s
    if prop == 'C25':
        for n in range(250 * many):
            k = fine(rng, inst(rng, D=rng.choice([1, 2, 2, 3, 4, 5]) if n % 20 != 13 else rng.choice([6, 7]), nsp=rng.choice([None, 6]), wide=n % 10 == 7))
            yield {'kind': 'predict', 'k': k, 'seed': sd(), 'labels': LABELS[n % len(LABELS)] if k['K'] <= 5 else None}
        for s in fits(rng, 90 * many):
            yield s
    if prop == 'C28':
        for s in fits(rng, 260 * many):
            yield s


def fits(rng, n, trace=.2, cuts=False):
    for j in range(n):
        old = rng.random() < .25
        D = rng.choice([1, 2, 2, 2, 3, 3])
        big = rng.random() < .5
        k = inst(rng, D=D, n=rng.choice([10, 16, 24, 32]) if big else None, K=rng.choice([2, 4, 5]) if old else rng.choice([2, 3]) if big else None,
                 nsp=rng.choice([4, 6, 8]) if big else rng.choice([1, 2, 4]), ncand=4 if big else rng.choice([2, 6]))
        if rng.random() < .6:               # unrelated targets
            for r in range(len(k['y'])):
                if k['y'].count(k['y'][r]) > 1:
                    k['y'][r] = rng.randrange(k['K'])
            for c in set(range(k['K'])) - set(k['y']):
                k['y'][rng.choice([r for r in range(len(k['y'])) if k['y'].count(k['y'][r]) > 1])] = c
        k['beta'] = rng.random() < .6
        k['gen'] = rng.random() < .7
        if cuts:                            # fractional masters
            k = inst(rng, D=rng.choice([2, 2, 3]), n=rng.choice([10, 14, 18, 24]), K=rng.choice([2, 2, 3]), nsp=rng.choice([4, 5, 6, 7]), ncand=4)
            k['cand'] = [rng.sample(range(len(k['sp'])), min(len(k['sp']), rng.choice([3, 4]))) for _ in k['cand']]
            y = [rng.randrange(k['K']) for _ in k['y']]
            if len(set(y)) == k['K']:
                k['y'] = y
            k['beta'], k['gen'] = rng.choice([[True, True], [True, True], [True, False], [False, True], [False, False]])
        if not cuts and j % 30 == 17:       # sixteen leaves
            k = inst(rng, D=4, n=rng.choice([5, 8]), K=2, nsp=rng.choice([3, 5]), ncand=2)
            old = False
        if not cuts and j % 30 == 7:
            k = inst(rng, D=rng.choice([1, 2]), n=rng.choice([13, 20]), nsp=rng.choice([4, 12]), wide=True)
        k['rounds'] = rng.choice([0, 1, 3, 3, 10]) if not cuts else rng.choice([0, 1, 1, 2, 3, 3, 10])
        fine(rng, k)
        yield {'kind': 'fit', 'k': k, 'seed': rng.randrange(1 << 30), 'old': old, 'prep': rng.choice(['none', 'none', 'prep', 'agg', 'given'] if not cuts else ['none', 'agg', 'given', 'given']), 'trace': rng.random() < trace, 'dense': cuts or rng.random() < .2,
               'labels': LABELS[j % len(LABELS)] if k['K'] <= 5 else None, 'maxit': rng.choice([-1, -1, -1, -1, -1, 1, 2]), 'init': rng.choice([1, 1, 3])}


# ---------------------------------------------------------------- real objects
def farr(rows, k=None):
    a, b = (k or {}).get('map', [.25, 0.0])
    return np.array(rows, dtype=float) * a + b


def rpath(p):
    q = T.Path()
    q.leaf_id, q.node_ids, q.splits, q.target, q.cost = p['leaf'], list(p['nodes']), list(p['splits']), p['target'], p['cost'] if U == 1 else p['cost'] / U
    return q


def jpath(q):
    return {'leaf': i(q.leaf_id), 'nodes': il(q.node_ids), 'splits': il(q.splits), 'target': i(q.target), 'cost': i(q.cost * U)}


def leaf_of(D, l):
    f = T.Leaf()
    f.id = l
    f.left_nodes = [n for n, b in left_of(D, l) if b]
    f.right_nodes = [n for n, b in left_of(D, l) if not b]
    return f


def objects(k):
    X = farr(k['X'], k)
    splits = []
    for j, (f, t) in enumerate(k['sp']):
        s = T.Split()
        s.id, s.feature, s.threshold = j, f, float(farr([t], k)[0])
        s.left_rows = {r for r in range(len(X)) if k['X'][r][f] <= t}
        s.right_rows = set(range(len(X))) - s.left_rows
        splits.append(s)
    nodes = []
    for j, c in enumerate(k['cand']):
        nd = T.Node()
        nd.id, nd.candidate_splits = j, list(c)
        nodes.append(nd)
    leaves = [leaf_of(k['D'], l) for l in range(2 ** k['D'])]
    return X, np.array(k['y']), splits, nodes, leaves


def data_rows(k):
    r = []
    for j in range(len(k['X'])):
        d = T.Row()
        d.id, d.target, d.weight = j, k['y'][j], k['w'][j]
        d.removed_from_master, d.removed_from_sp = k['rm'][j], k['rs'][j]
        d.left_splits = {s for s, (f, t) in enumerate(k['sp']) if k['X'][j][f] <= t}
        d.right_splits = set(range(len(k['sp']))) - d.left_splits
        r.append(d)
    return r


def consts(k):
    c = {x: k[x] for x in ('D', 'K', 'X', 'y', 'sp', 'cand', 'w', 'rm', 'rs', 'beta', 'gen', 'rounds')}
    return dict(c, S=S, tol=100 + 8 * len(k['X']))


# ---------------------------------------------------------------- geometry, routing, identity
NOK = {'D': 1, 'K': 2, 'X': [[0]], 'y': [0], 'sp': [[0, 0]], 'cand': [[0]], 'w': [1], 'rm': [False], 'rs': [False], 'beta': False,
       'gen': False, 'rounds': 0, 'S': S, 'tol': 0}


def ev_setleaf(p, D, l):
    p.set_leaf(l, D)
    return {'op': 'setleaf', 'D': D, 'leaf': l, 'nodes': il(p.node_ids), 'id': i(p.leaf_id)}


def ev_create(f, D, l):
    f.create_leaf(l, D)
    return {'op': 'createleaf', 'D': D, 'leaf': l, 'left': il(f.left_nodes), 'right': il(f.right_nodes), 'id': i(f.id)}


def run_geom(s):
    ev = []
    for l in s['leaves']:
        ev.append(ev_setleaf(T.Path(), s['D'], l))
        ev.append(ev_create(T.Leaf(), s['D'], l))
    return {'k': NOK, 'ev': ev}


def run_reuse(s):
    rng = random.Random(s['seed'])
    ev, p, f = [], T.Path(), T.Leaf()
    for _ in range(s['n']):
        D = rng.choice([1, 2, 3, 4, 5, 8, 16, 20])
        l = rng.choice([0, 2 ** D - 1, rng.randrange(2 ** D)])
        ev.append(ev_setleaf(p, D, l))
        ev.append(ev_create(f, D, l))
        if rng.random() < .3:               # what was handed out stays
            keep, was = (p.node_ids, f.left_nodes), (list(p.node_ids), list(f.left_nodes))
            ev.append(ev_setleaf(T.Path(), D, l))
            g = T.Leaf()
            ev.append(ev_create(g, D, l))
            g.left_nodes.append(-5)
        if rng.random() < .3:
            ev.append(ev_setleaf(p, D, l))
            ev.append(ev_create(f, D, l))
        if rng.random() < .4:               # a path in use
            p.splits, p.target, p.cost, p.id = [rng.randrange(9) for _ in p.node_ids], 1, 3, 7
    return {'k': NOK, 'ev': ev}


def grid(rng, k, n):
    """rows around the thresholds"""
    nf = len(k['X'][0])
    r = list(k['X'])
    vals = [sorted({t + d for f, t in k['sp'] if f == j for d in (-1, 0, 1, 8, -8)} | {0, -2000, 2000}) for j in range(nf)]
    while len(r) < n:
        r.append([rng.choice(vals[j]) for j in range(nf)])
    return r


def run_route(s):
    rng = random.Random(s['seed'])
    k = s['k']
    X, y, splits, nodes, leaves = objects(k)
    ev = []
    rows = grid(rng, k, len(k['X']) + rng.choice([10, 10, 10, 10, 10, 80]))
    R = farr(rows, k)
    typ = rng.choice(['float', 'float', 'list', 'f32', 'int'] if 'map' not in k else ['float', 'list'])
    if typ == 'int' and any(v % 4 for r in rows for v in r):
        typ = 'float'
    RR = {'float': R, 'list': [list(map(float, r)) for r in R], 'f32': R.astype(np.float32), 'int': R.astype(int)}[typ]
    # stored cuts: admissible and arbitrary assignments
    cuts = []
    for c in range(rng.choice([0, 1, 3, 6, 6, 14])):
        row = rng.choice(rows)
        a = [row[f] <= t for f, t in k['sp']] if rng.random() < .6 else [rng.random() < .5 for _ in k['sp']]
        cuts.append(a)
        for sp_, b in zip(splits, a):
            (sp_.left_cuts if b else sp_.right_cuts).add(c)
    stored = lambda: [(sorted(q.left_rows), sorted(q.right_rows), sorted(q.left_cuts), sorted(q.right_cuts)) for q in splits]
    st0 = stored()
    for _ in range(8):
        p = randpath(rng, k)
        q = rpath(p)
        lf = leaves[p['leaf']]
        if rng.random() < .3:               # order of the nodes of the leaf
            rng.shuffle(lf.left_nodes)
            rng.shuffle(lf.right_nodes)
        before = (jpath(q), list(lf.left_nodes), list(lf.right_nodes))
        ret = [bool(T.row_satisfies_path(RR[j], lf, splits, q)) for j in range(len(rows))]
        same = before == (jpath(q), list(lf.left_nodes), list(lf.right_nodes)) and bool((R == farr(rows, k)).all())
        ev.append({'op': 'route', 'p': p, 'rows': rows, 'ret': ret, 'same': same})
        sr = T.get_satisfied_rows(q, lf, splits)
        cu = T.get_satisfied_cuts(q, lf, splits)
        e = {'op': 'sets', 'p': p, 'cuts': cuts, 'sr': sorted(map(i, sr)), 'sc': sorted(map(i, cu))}
        ev.append(dict(e, same=stored() == st0 and before == (jpath(q), list(lf.left_nodes), list(lf.right_nodes))))
    for _ in range(2):
        ps = tree(rng, k)
        ret = [[bool(T.row_satisfies_path(RR[j], leaves[p['leaf']], splits, rpath(p))) for j in range(len(rows))] for p in ps]
        ev.append({'op': 'tree', 'rows': rows, 'ret': ret})
    return {'k': consts(k), 'ev': ev}


def run_same(s):
    rng = random.Random(s['seed'])
    k = s['k']
    ev = []
    for _ in range(40):
        p = randpath(rng, k)
        q = dict(p, nodes=list(p['nodes']), splits=list(p['splits']))
        o = list(range(k['D']))
        rng.shuffle(o)
        q['nodes'], q['splits'] = [p['nodes'][j] for j in o], [p['splits'][j] for j in o]
        m = rng.choice(['none', 'none', 'none', 'leaf', 'target', 'cost', 'split', 'swap', 'other', 'short', 'split2', 'cost1'])
        if m == 'leaf':
            q['leaf'] = (p['leaf'] + 1) % 2 ** k['D']
        elif m == 'target':
            q['target'] = (p['target'] + 1) % k['K']
        elif m == 'cost':
            q['cost'] += rng.choice([1, -1, 5])
        elif m == 'cost1':
            q['cost'], q['target'] = q['cost'] + 1, (p['target'] + 1) % k['K']
        elif m in ('split', 'split2'):
            for j in rng.sample(range(k['D']), 1 if m == 'split' else k['D']):
                q['splits'][j] = rng.randrange(len(k['sp']))
        elif m == 'swap':
            q['splits'] = q['splits'][1:] + q['splits'][:1]
        elif m == 'other':
            q = randpath(rng, k)
        elif m == 'short':
            q['nodes'], q['splits'] = q['nodes'][1:], q['splits'][1:]
        a, b = rpath(p), rpath(q)
        a.id, b.id, a.initial = rng.randrange(9), rng.randrange(9), rng.random() < .5
        if rng.random() < .3:
            b.cost = float(b.cost)
        if rng.random() < .5:
            p, q, a, b = q, p, b, a
        r1, r2 = bool(a.is_same_as(b)), bool(b.is_same_as(a))
        ev.append({'op': 'same', 'p': p, 'q': q, 'ret': r1, 'ret2': r2, 'unch': jpath(a) == p and jpath(b) == q})
    return {'k': consts(k), 'ev': ev}


# ---------------------------------------------------------------- the master problem
def lim(x):
    v = sc(x, 1)
    return v if v != BAD else (BAD if float(x) > 0 else -BAD)


def proto(solver):
    pr = pb.MPModelProto()
    solver.ExportModelToProto(pr)
    return pr


def jrow(c, pos, aux):
    ps, ax, unit = [], [], True
    for v, x in zip(c.var_index, c.coefficient):
        if x == 0:
            continue
        if v in pos:
            ps.append(pos[v])
            unit = unit and x == 1
        else:
            ax.append([aux.get(v, BAD), i(x)])
    return {'lb': lim(c.lower_bound), 'ub': lim(c.upper_bound), 'ps': ps, 'unit': bool(unit), 'aux': ax}


def maps(mp, pr):
    pos = {p.id: j + 1 for j, p in enumerate(mp.paths_)}
    aux = {}
    for v in range(len(pr.variable)):
        if v not in pos:
            aux[v] = len(aux) + 1
    return pos, aux


def model(mp):
    pr = proto(mp.solver_)
    pos, aux = maps(mp, pr)

    def col(v):
        x = pr.variable[v]
        return {'obj': sc(x.objective_coefficient * U, S), 'lb': lim(x.lower_bound), 'ub': lim(x.upper_bound), 'int': bool(x.is_integer)}
    return {'paths': [jpath(p) for p in mp.paths_], 'ids': [i(p.id) for p in mp.paths_],
            'cols': [col(p.id) for p in mp.paths_], 'aux': [col(v) for v in aux],
            'rows': [jrow(c, pos, aux) for c in pr.constraint], 'max': bool(pr.maximize), 'off': sc(pr.objective_offset * U, S)}


def dense(k, d):
    alpha, beta, gamma, cut = d[0], d[1], d[2], d[3]
    g = []
    for l in range(2 ** k['D']):
        a = [[] for _ in range(2 ** k['D'] - 1)]
        for n, _ in left_of(k['D'], l):
            a[n] = [0] * len(k['sp'])
            for x in k['cand'][n]:
                try:
                    a[n][x] = sc(gamma[l][n][x] * U, S)
                except (KeyError, IndexError, TypeError):
                    a[n][x] = BAD
        g.append(a)
    return {'alpha': [sc(v * U, S) for v in alpha], 'beta': [sc(v * U, S) for v in beta], 'gamma': g, 'cut': [sc(v * U, S) for v in cut]}


@contextlib.contextmanager
def reporting(rng, often, most, result=None):
    """CP-SAT also reports weaker solutions; result(callback, status) after every solve with a callback."""
    orig = cp_model.CpSolver.Solve

    def Solve(self, model, *a, **kw):
        cb = kw.get('callback', kw.get('solution_callback', a[0] if a else None))
        if cb is not None and rng.random() < often:
            model = adversary.weaker(orig, cp_model, model, cb, rng, rng.randint(1, most))
        r = orig(self, model, *a, **kw)
        if result:
            result(cb, r)
        return r
    cp_model.CpSolver.Solve = Solve
    try:
        yield
    finally:
        cp_model.CpSolver.Solve = orig


@contextlib.contextmanager
def watch(on):
    """Calls on(solver, status) after every solve of a linear model."""
    orig = pywraplp.Solver.Solve

    def Solve(self, *a):
        r = orig(self, *a)
        on(self, r)
        return r
    pywraplp.Solver.Solve = Solve
    try:
        yield
    finally:
        pywraplp.Solver.Solve = orig


def gadget(rng, k):
    """Paths that only fit together in parts: two or three trees, mixed differently in every leaf."""
    m = rng.choice([2, 2, 3])
    if any(len(set(c)) < m for c in k['cand']):
        m = 2
    if any(len(set(c)) < m for c in k['cand']):
        return []
    some = [rng.sample(sorted(set(c)), m) for c in k['cand']]
    r = []
    for l in range(2 ** k['D']):
        v = {n: rng.randrange(m) for n, _ in left_of(k['D'], l)}
        for f in range(m):
            a = {n: some[n][(v[n] + f) % m] for n in v}
            r.append(dict(mkpath(rng, k, l, a), cost=rng.randint(6, 12)))
    return r


class Unsolved(Exception):
    pass


class MRec:
    """Records what happens to a master problem."""

    def __init__(self, mp, k, ev):
        self.mp, self.k, self.ev = mp, k, ev

    def build(self, ini):
        mp = self.mp
        self.ev.append({'op': 'build', 'init': ini, 'm': model(mp)})
        self.n = len(self.k['X'])
        self.nc, self.rows, self.val, self.opt, self.new = len(proto(mp.solver_).constraint), list(mp.added_row[:self.n]), 0.0, False, 0.0

    def lp(self, solver, status):
        mp = self.mp
        if solver is not mp.solver_:
            return
        pr = proto(solver)
        pos, aux = maps(mp, pr)
        new = [jrow(c, pos, aux) for c in list(pr.constraint)[self.nc:]]
        rows = [bool(v) for v in mp.added_row[:self.n]]
        self.opt = opt = status == pywraplp.Solver.OPTIMAL
        if opt:
            self.new = solver.Objective().Value()
        self.ev.append({'op': 'lp', 'opt': opt, 'rows': new, 'added': [r + 1 for r in range(len(rows)) if rows[r] and not self.rows[r]],
                        'x': [sc(solver.variable(p.id).solution_value(), XS) for p in mp.paths_] if opt else []})
        self.nc, self.rows = len(pr.constraint), rows

    def solved(self, d, hasm):
        mp = self.mp
        if not self.opt:
            self.ev.append({'op': 'unsolved', 'm': model(mp)})
            return False
        df = self.new - self.val
        c = 0 if df == 0 else 2 if abs(df) < 1e-7 else 1 if df > 0 else -1
        self.ev.append({'op': 'solved', 'd': dense(self.k, d), 'ann': [[bool(v) for v in c_] for c_ in d[4]], 'obj': sc(self.new * U, S), 'cmp': c,
                        'imp': bool(mp.rmp_objective_improved()), 'total': i(mp.total_cuts_added), 'hasm': hasm, 'm': model(mp) if hasm else 0})
        self.val = self.new
        return True

    def added(self, p, ret, id, hasm):
        self.ev.append({'op': 'add', 'p': p, 'ret': bool(ret), 'id': i(id), 'hasm': hasm, 'm': model(self.mp) if hasm else 0})

    def ip(self, hasm):
        self.ev.append({'op': 'ip', 'sel': [jpath(p) for p in self.mp.selected_paths], 'hasm': hasm, 'm': model(self.mp) if hasm else 0})


def before(rng, k, X, y, leaves, nodes, splits, dr):
    """Another master problem was built from the same lists before."""
    ps = tree(rng, k)
    known = {ptuple(p) for p in ps}
    mp = T.DTreeMasterProblem([rpath(p) for p in ps], leaves, nodes, splits, beta_constraints_as_cuts=True, generate_cuts=True,
                              num_cuts_round=3, data_rows=dr)
    mp.generate_mp(X, y)
    for _ in range(rng.choice([5, 15])):
        p = randpath(rng, k)
        if ptuple(p) not in known:
            known.add(ptuple(p))
            mp.add_column(rpath(dict(p, cost=rng.randint(0, 9))))
    for _ in range(rng.choice([0, 10])):
        mp.solve_rmp()
    mp.solve_ip()


class NoRec:
    def build(self, *a):
        pass
    lp = solved = added = ip = build


def run_master(s):
    rng = random.Random(s['seed'])
    k = s['k']
    X, y, splits, nodes, leaves = objects(k)
    ini = []

    def cost(p):                            # the master takes any cost
        return dict(p, cost=rng.randint(0, 4 if s['cuts'] else 12)) if s['costs'] else p
    for _ in range(s['init'] if 'h' not in s else 0):
        ini += [cost(p) for p in tree(rng, k) if ptuple(p) not in map(ptuple, ini)]
    ini = ini or s['ini']
    known = {ptuple(p) for p in ini}
    rini = [rpath(p) for p in ini]
    for r in rini:
        r.initial = True
    dr = data_rows(k) if k['dr'] else None
    if rng.random() < .25:
        before(rng, k, X, y, leaves, nodes, splits, dr)
    mp = T.DTreeMasterProblem(rini, leaves, nodes, splits, beta_constraints_as_cuts=k['beta'], generate_cuts=k['gen'],
                              num_cuts_round=k['rounds'], solver_type=s['solver'], data_rows=dr)
    if s['solver'] != 'glop':
        assert mp.solver_ is not None
    ev = []
    mp.generate_mp(X, y)
    if not k['dr']:
        k = dict(k, rm=[bool(d.removed_from_master) for d in mp.data_rows])
    rec = MRec(mp, k, ev)
    rec.build(ini)
    if rng.random() < .3:
        mp.generate_mp(X, y)
        ev.append({'op': 'rebuild', 'm': model(mp)})

    def solve():
        if not rec.solved(mp.solve_rmp(rng.choice(['', '', 'x'])), rng.random() < s['hasm'] * .5):
            raise Unsolved()                # the initial tree is a solution

    def ip():
        mp.solve_ip()
        rec.ip(rng.random() < .5)

    def add(p):
        q = rpath(p)
        if rng.random() < .3:
            q.cost = float(q.cost)
        q.initial = rng.random() < .2
        first.append(q.initial)
        hasm = rng.random() < s['hasm']
        rec.added(p, mp.add_column(q), q.id, hasm)

    def rebuild():
        mp.generate_mp(X, y)
        ev.append({'op': 'rebuild', 'm': model(mp)})

    def remove():
        mp.reset_timer_ = False
        mp.remove_gen_vars()
        ev.append({'op': 'remove', 'keep': [j + 1 for j, f in enumerate(first) if f], 'm': model(mp), 'timer': mp.reset_timer_ is True})
    first = [True] * len(ini)

    lp = rec.lp
    with contextlib.suppress(Unsolved), reporting(random.Random(s['seed']), .6, 8):
        play(s, k, rng, known, lp, add, solve, ip, rebuild, cost, remove)
    return {'k': consts(k), 'ev': ev}


def play(s, k, rng, known, lp, add, solve, ip, rebuild, cost, remove=None):
    if 'h' in s:
        with watch(lp):
            for h in s['h']:
                if h['op'] == 'add':
                    add(h['p'])
                else:
                    {'solve': solve, 'ip': ip, 'rebuild': rebuild}[h['op']]()
            solve()
            ip()
        return
    with watch(lp):
        todo = s['npath']
        if rng.random() < .3:
            solve()
        while todo > 0:
            b = min(todo, rng.choice([1, 1, 2, 4]))
            todo -= b
            new = [None] * b
            if s['cuts'] and s['costs'] and rng.random() < .6:
                new = gadget(rng, k)
            for p in new:
                g = p is not None
                p = p or randpath(rng, k)
                if g and ptuple(p) in known:
                    continue
                if not g and rng.random() < .9:       # the subproblems return no path of the master again
                    for _ in range(6):
                        if ptuple(p) in known:
                            p = randpath(rng, k)
                known.add(ptuple(p))
                p = p if g else cost(p)
                add(p)
            if rng.random() < s['solve']:
                for _ in range(rng.choice([1, 1, 4, 10]) if s['cuts'] else 1):
                    solve()
            if rng.random() < s['ip']:
                ip()
            if rng.random() < .05:
                rebuild()
            if remove and s.get('remove') and rng.random() < .15:
                remove()
        for _ in range(rng.choice([1, 2]) if not s['cuts'] else rng.choice([3, 10, 12])):
            solve()
        ip()
        solve()
        ip()
        rebuild()


# ---------------------------------------------------------------- pricing
def tight(rng, k, d, cuts, leaf, target, near=False):
    """Sets the dual of the leaf so that the best path is worth this much; near: raises the second best path to just below it first."""
    best, al = None, []
    side = dict(left_of(k['D'], leaf))
    nodes = list(side)
    q = d['q']
    for ch in itertools.product(*[k['cand'][n] for n in nodes]):
        v = -sum(d['gamma'][leaf][n][c] for n, c in zip(nodes, ch))
        v -= sum(p for p, a in zip(d['cut'], cuts) if all(a[c] == side[n] for n, c in zip(nodes, ch)))
        cnt = [0] * k['K']
        for r, row in enumerate(k['X']):
            if not k['rs'][r] and all((row[k['sp'][c][0]] <= k['sp'][c][1]) == side[n] for n, c in zip(nodes, ch)):
                v -= d['beta'][r]
                cnt[k['y'][r]] += k['w'][r]
        v += q * (max(cnt) if target is None else cnt[target])
        best = v if best is None else max(best, v)
        al.append((v, ch))
    al.sort(key=lambda a: -a[0])
    if near and len(al) > 1 and al[0][0] > al[1][0] + 1:
        j = [n for n, a, b in zip(nodes, al[0][1], al[1][1]) if a != b][0]
        c = al[1][1][nodes.index(j)]
        d['gamma'][leaf][j][c] -= al[0][0] - al[1][0] - 1
    d['alpha'][leaf] = best - rng.choice([-1, 0, 0, 1, 1, 1, 2])


def some_order(n, seed):
    out = list(range(n))
    if seed % 3 == 1:
        random.Random(seed).shuffle(out)
    return out


def run_price(s):
    rng = random.Random(s['seed'])
    k, q = s['k'], s['q']
    X, y, splits, nodes, leaves = objects(k)
    leaf, target = rng.randrange(2 ** k['D']), rng.randrange(k['K'])
    tg = list(range(k['K']))
    if s['seed'] % 4 == 1:      # the targets in another order
        random.Random(s['seed']).shuffle(tg)
    if rng.random() < .5:
        tg = np.array(tg)
    dr = data_rows(k) if k['dr'] else None
    kind = s['sub']
    sub = {'sat': lambda: T.DTreeSubProblemSat(leaves[leaf], nodes, splits, tg, k['D'], data_rows=dr),
           'mip': lambda: T.DTreeSubProblem(leaves[leaf], nodes, splits, tg, k['D'], data_rows=dr),
           'old': lambda: T.DTreeSubProblemOld(leaves[leaf], nodes, splits, target, k['D'], data_rows=dr),
           'heur': lambda: T.DTreeSubProblemHeuristic(leaves, nodes, splits, tg, k['D'], data_rows=dr)}[kind]()
    if rng.random() < .3:
        for lf in leaves:
            rng.shuffle(lf.left_nodes)
            rng.shuffle(lf.right_nodes)
    ev, cuts = [], []
    n = len(k['X'])
    ok = {'v': True}

    def result(cb, r):
        ok['v'] = ok['v'] and r == cp_model.OPTIMAL
    random.seed(s['seed'])
    hi = rng.choice([1, 2, 4]) * q
    frac = rng.choice([.3, .7, 1])
    base = rng.choice(['gen', 'gen', 'lp'])

    def val(lo, h):
        return rng.randint(lo, h) if rng.random() < frac else 0
    last = None
    with reporting(random.Random(s['seed']), .3, 4, result):
        for c in range(s['calls']):
            new = []
            for _ in range(rng.choice([0, 0, 1, 2, 3]) if rng.random() < .8 else 0):
                row = rng.choice(grid(rng, k, n + 5))
                a = [row[f] <= t for f, t in k['sp']] if rng.random() < .8 else [rng.random() < .5 for _ in k['sp']]
                new.append(a)
            cuts = cuts + new
            d = {'q': q, 'alpha': [rng.choice([0, rng.randint(0, hi), rng.randint(-hi, hi), rng.randint(0, q * n // 2)]) for _ in leaves],
                 'beta': [0 if k['rm'][r] else val(0, hi // 2) if base == 'gen' or rng.random() < .9 else val(-hi, hi) for r in range(n)],
                 'gamma': [[[val(-hi, hi) for _ in k['sp']] for _ in nodes] for _ in leaves],
                 'cut': [val(-hi, hi) for _ in cuts]}
            if last and rng.random() < .25 and not new:
                d = dict(last, alpha=list(last['alpha']))
            if rng.random() < (.35 if not s.get("near") else .9):          # the best path is (just) worth something, or just nothing
                tight(rng, k, d, cuts, leaf, target if kind == 'old' else None, s.get('near'))
            last = d
            rd = ([v / q for v in d['alpha']], [v / q for v in d['beta']],
                  {l: {nn: {x: d['gamma'][l][nn][x] / q for x in k['cand'][nn]} for nn, _ in left_of(k['D'], l)} for l in range(2 ** k['D'])},
                  [v / q for v in d['cut']], [list(a) for a in new])
            sub.update_subproblem(X, y, rd)
            if rng.random() < .2 and c < s['calls'] - 1:
                continue                    # a lower level had columns
            ok['v'] = True
            cols = sub.generate_columns(X, y, rd, '')
            ev.append({'op': 'price', 'kind': kind, 'leaf': leaf, 'target': target, 'q': q, 'd': d, 'cuts': cuts, 'solved': ok['v'],
                       'cols': [jpath(p) for p in cols]})
    return {'k': consts(k), 'ev': ev}


# ---------------------------------------------------------------- prediction and complete fits
def labels(s):
    return np.array(s['labels'] if s['labels'] else list(range(s['k']['K'])))


def codes(out, lab):
    out = np.asarray(out)
    r = []
    for v in out:
        j = [c for c in range(len(lab)) if lab[c] == v and np.asarray(v).dtype.kind == lab.dtype.kind]
        r.append(j[0] if j else BAD)
    return r


def run_predict(s):
    rng = random.Random(s['seed'])
    k = s['k']
    X, y, splits, nodes, leaves = objects(k)
    lab = labels(s)[:k['K']]
    ps = [rpath(p) for p in tree(rng, k)]
    clf = T.DTreeClassifier(ps, leaves, nodes, splits, tree_depth=k['D'], targets=list(range(k['K'])), max_iterations=1,
                            data_rows=None)
    # one iteration with the heuristic is enough: the tree is replaced below
    old = T.DTreeSubProblemSat.generate_columns
    T.DTreeSubProblemSat.generate_columns = lambda self, X, y, d, params='': []
    try:
        clf.fit(X, lab[y])
    finally:
        T.DTreeSubProblemSat.generate_columns = old
    ev = []
    for n in range(5):
        if n:
            t = tree(rng, k)
            for p in t:
                p['target'] = rng.randrange(k['K'])
            rng.shuffle(t)
            clf.master_problem.selected_paths = [rpath(p) for p in t]
        sel = [jpath(p) for p in clf.master_problem.selected_paths]
        rows = grid(rng, k, len(X) + rng.choice([12, 12, 12, 12, 12, 12, 150]))
        rng.shuffle(rows)
        if rng.random() < .2:
            rows = rows[:1]
        rep = rng.choice(['float', 'float', 'list', 'f32', 'csr', 'csc', 'fortran', 'strided', 'readonly', 'int'])
        if 'map' in k and rep in ('f32', 'int'):
            rep = 'float'
        R = farr(rows, k)
        if rep == 'int':
            rows = [[v - v % 4 for v in r] for r in rows]
            R = farr(rows).astype(int)
        elif rep == 'list':
            R = [list(map(float, r)) for r in R]
        elif rep == 'f32':
            R = R.astype(np.float32)
        elif rep == 'fortran':
            R = np.asfortranarray(R)
        elif rep == 'strided':
            R = np.repeat(R, 2, axis=0)[::2]
        elif rep == 'readonly':
            R.setflags(write=False)
        elif rep in ('csr', 'csc'):
            R = {'csr': sps.csr_matrix, 'csc': sps.csc_matrix}[rep](R)
        ev.append({'op': 'predict', 'sel': sel, 'rows': rows, 'out': codes(clf.predict(R), lab), 'rep': rep})
    return {'k': consts(k), 'ev': ev}


def run_fit(s):
    rng = random.Random(s['seed'])
    k = dict(s['k'])
    X, y, splits, nodes, leaves = objects(k)
    lab = labels(s)[:k['K']]
    dr = None
    if s['prep'] == 'given':
        weigh(rng, k)
        if s['dense'] and rng.random() < .6:    # hardly any row has a row constraint
            k['rm'] = [m or rng.random() < .9 for m in k['rm']]
        dr = data_rows(k)
    elif s['prep'] != 'none':
        import sys
        if common.REPO not in sys.path:
            sys.path.insert(0, common.REPO)
        import examples.dtree_experiment as ex
        dr = ex.preprocess(nodes, splits, X, y, k['D'], aggressive=s['prep'] == 'agg')
        k['w'] = [i(d.weight) for d in dr]
        k['rm'] = [bool(d.removed_from_master) for d in dr]
        k['rs'] = [bool(d.removed_from_sp) for d in dr]
    ini = []
    for _ in range(s['init']):
        ini += [p for p in tree(rng, k) if ptuple(p) not in map(ptuple, ini)]
    last = {'cuts': [], 'ok': True, 'sp': True}
    gen, ev, rec = [], [], []
    MP = T.DTreeMasterProblem
    SP = [(T.DTreeSubProblemSat, 'sat'), (T.DTreeSubProblemOld, 'old'), (T.DTreeSubProblemHeuristic, 'heur')]
    orig = (MP.generate_mp, MP.solve_rmp, MP.add_column, MP.solve_ip)
    osp = [(c.generate_columns, c.__init__) for c, _ in SP]
    # rounds of cuts happen in every tenth solve: some solves before the first iteration
    start = rng.choice([0, 5, 7, 8, 9]) if not s['dense'] else 0

    def generate_mp(self, X, y):
        orig[0](self, X, y)
        if dr is None:
            k['rm'] = [bool(d.removed_from_master) for d in self.data_rows]
        rec[:] = [MRec(self, k, ev) if s['trace'] else NoRec()]
        rec[0].build(ini)
        last['n'] = 0
        for _ in range(start):
            self.solve_rmp()

    def solve_rmp(self, *a, **kw):
        if s['dense'] and rng.random() < .5 and len(ev) < 500:
            while (last['n'] + 1) % 10:
                last['n'] += 1
                rec[0].solved(orig[1](self, *a, **kw), False)
        last['n'] += 1
        d = orig[1](self, *a, **kw)
        last['d'], last['obj'], last['ok'] = d, self.solver_.Objective().Value(), True
        last['cuts'] += [[bool(v) for v in c] for c in d[4]]
        rec[0].solved(d, s['trace'] and rng.random() < .1)
        return d

    def add_column(self, path):
        p = jpath(path)
        gen.append(p)
        r = orig[2](self, path)
        rec[0].added(p, r, path.id, s['trace'] and rng.random() < .05)
        return r

    def solve_ip(self, *a, **kw):
        r = orig[3](self, *a, **kw)
        rec[0].ip(True)
        return r

    def result(cb, r):
        last['ok'] = last['ok'] and r == cp_model.OPTIMAL
        last['sp'] = last['sp'] and r == cp_model.OPTIMAL

    def made(f, kind):
        def __init__(self, *a, **kw):
            f(self, *a, **kw)
            par = dict(zip(('leaf', 'nodes', 'splits', 'target'), a), **kw)
            self.cge_id = [i(par['leaf'].id) if kind != 'heur' else 0, i(par['target']) if kind == 'old' else 0]
        return __init__

    def pricing(f, kind):
        def generate_columns(self, *a, **kw):
            last['sp'] = True
            r = f(self, *a, **kw)
            if s['trace'] and len(ev) < 600:
                ev.append({'op': 'fprice', 'kind': kind, 'leaf': self.cge_id[0], 'target': self.cge_id[1], 'solved': last['sp'], 'cols': [jpath(p) for p in r]})
            return r
        return generate_columns
    random.seed(s['seed'])
    MP.generate_mp, MP.solve_rmp, MP.add_column, MP.solve_ip = generate_mp, solve_rmp, add_column, solve_ip
    for (c, kind), f in zip(SP, osp):
        c.generate_columns, c.__init__ = pricing(f[0], kind), made(f[1], kind)
    try:
        clf = T.DTreeClassifier([rpath(p) for p in ini], leaves, nodes, splits, tree_depth=k['D'], targets=some_order(k['K'], s['seed']),
                                max_iterations=s['maxit'], data_rows=dr, use_old_sp=s['old'], num_master_cuts_round=k['rounds'],
                                master_beta_constraints_as_cuts=k['beta'], master_generate_cuts=k['gen'])
        with reporting(random.Random(s['seed']), rng.choice([0, .3]), 6, result), watch(lambda sv, st: rec and rec[0].lp(sv, st)):
            clf.fit(X, lab[y])
    finally:
        MP.generate_mp, MP.solve_rmp, MP.add_column, MP.solve_ip = orig
        for (c, kind), f in zip(SP, osp):
            c.generate_columns, c.__init__ = f
    mp = clf.master_problem
    sel = [jpath(p) for p in mp.selected_paths]
    ev += [{'op': 'fitted', 'init': ini, 'gen': gen, 'sel': sel, 'opt': bool(clf.mp_optimal_) and last['ok'], 'rep': bool(clf.mp_optimal_),
            'nolimit': s['maxit'] < 0, 'd': dense(k, last['d']), 'cuts': last['cuts'], 'obj': sc(last['obj'], S), 'acc': s['prep'] != 'given'}]
    if s['prep'] != 'given':
        ev.append({'op': 'accuracy', 'sel': sel, 'out': codes(clf.predict(X), lab)})
    rows = grid(rng, k, len(X) + 15)
    ev.append({'op': 'predict', 'sel': sel, 'rows': rows, 'out': codes(clf.predict(farr(rows, k)), lab)})
    return {'k': consts(k), 'ev': ev}


def run(s):
    global U
    U = s.get('unit', 1)
    with quiet():
        return {'geom': run_geom, 'reuse': run_reuse, 'route': run_route, 'same': run_same, 'master': run_master, 'tlc': run_master, 'price': run_price,
                'predict': run_predict, 'fit': run_fit}[s['kind']](s)
