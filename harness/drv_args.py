"""Malformed and premature use (C30): instances, parameter lists, histories that begin before the problem is built, bad data, bad duals."""
import copy
import itertools
import random
import warnings
import common
import drv_bdr
import drv_tree
from common import i, il, quiet

WORKERS = 7
TIMEOUT = 120
S = 100000


def init():
    global M, np, T, B, sps
    drv_bdr.init()
    drv_tree.init()
    import numpy as np
    import scipy.sparse as sps
    import col_gen_estimator as M
    import col_gen_estimator._bdr_classifier as B
    import col_gen_estimator._dtree_classifier as T
    warnings.simplefilter('ignore')


# ---------------------------------------------------------------- scenarios
def whole(rng):
    """A complete instance of any size, as the events have it."""
    D = rng.choice([1, 2, 2, 3, 3, 4, 5])
    ns, K = rng.choice([1, 2, 3, 6, 12]), rng.choice([2, 3, 4])
    targets = list(range(K)) if rng.random() < .7 else rng.sample(range(10), K)
    paths = []
    for l in rng.sample(range(2 ** D), rng.randint(0, min(2 ** D, 6))):
        nodes = [n for n, _ in drv_tree.left_of(D, l)]
        if rng.random() < .5:
            rng.shuffle(nodes)
        paths.append({'leaf': l, 'nodes': nodes, 'splits': [rng.randrange(ns) for _ in nodes], 'target': rng.choice(targets)})
    return {'nodes': list(range(2 ** D - 1)), 'leaves': list(range(2 ** D)), 'nsplits': ns, 'targets': targets, 'depth': D, 'paths': paths}


def bend(rng, x):
    """One change."""
    x = copy.deepcopy(x)

    def seq(q, top):
        how = rng.random()
        if q and how < .5:
            q[rng.randrange(len(q))] = rng.choice([0, rng.randint(0, max(top, 0)), top + 1, top + 2, -1])
        elif len(q) > 1 and how < .65:
            a, b = rng.sample(range(len(q)), 2)
            q[a], q[b] = q[b], q[a]
        elif q and how < .8:
            del q[rng.randrange(len(q))]
        else:
            q.insert(rng.randint(0, len(q)), rng.choice([rng.randint(0, max(top, 0)), top + 1, -1]))
    what = rng.choice(['nodes', 'leaves', 'targets', 'nsplits', 'depth', 'path', 'path', 'path'])
    if what in ('nodes', 'leaves'):
        seq(x[what], max([0] + x[what]))
    elif what == 'targets':
        if x['targets']:
            del x['targets'][rng.randrange(len(x['targets']))]
    elif what == 'nsplits':
        x['nsplits'] = max(0, x['nsplits'] + rng.choice([-1, 1]))
    elif what == 'depth':
        x['depth'] = max(1, x['depth'] + rng.choice([-1, 1]))
    elif x['paths']:
        p = rng.choice(x['paths'])
        f = rng.choice(['leaf', 'nodes', 'splits', 'target'])
        if f == 'leaf':
            p['leaf'] = rng.choice([-1, len(x['leaves']), len(x['leaves']) + 1, rng.randrange(len(x['leaves']) or 1)])
        elif f == 'target':
            p['target'] = rng.choice([-1, max(x['targets'] + [0]) + 1, rng.randint(0, 10)])
        else:
            seq(p[f], len(x['nodes']) - 1 if f == 'nodes' else x['nsplits'] - 1)
    return x


BADDATA = ['nan', 'inf', 'ninf', 'short', 'long', 'empty', 'nofeatures', 'flat', 'cube', 'words', 'ynan', 'ycols', 'one', 'scalar']


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 77 + 30)
    many = 1 if tier == 'quick' else 12
    sd = lambda: rng.randrange(1 << 30)
    for s in scripts or ():
        if s['what'] == 'tree':
            yield {'kind': 'tlc-tree', 'xs': [s['x']], 'seed': sd()}
        else:
            for fam in ('bdr', 'tree'):
                yield {'kind': 'tlc-calls', 'fam': fam, 'h': s['h'], 'seed': sd(), 'k': drv_tree.inst(rng) if fam == 'tree' else None}
    for n in range(200 * many):
        xs = []
        for _ in range(8):
            x = whole(rng)
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                x = bend(rng, x)
            xs.append(x)
        yield {'kind': 'tree', 'xs': xs, 'seed': sd()}
    for n in range(100 * many):
        yield {'kind': 'levels', 'seed': sd()}
    for n in range(120 * many):
        fam = rng.choice(['bdr', 'tree'])
        m = rng.randint(3, 12)
        h = [rng.choice(['add', 'add', 'solve', 'ip', 'build']) for _ in range(m)]
        b = h.index('build') if 'build' in h else m
        e = next((j for j in range(b, m) if h[j] == 'ip'), m)
        yield {'kind': 'calls', 'fam': fam, 'h': h[:e + 1], 'seed': sd(), 'k': drv_tree.inst(rng) if fam == 'tree' else None}
    for n in range(120 * many):
        yield {'kind': 'duals', 'seed': sd()}
    for n in range(160 * many):
        fam = rng.choice(['generic', 'bdr', 'heur', 'tree', 'treeold'])
        yield {'kind': 'fit', 'fam': fam, 'bad': rng.sample(BADDATA, 5) + [None], 'seed': sd(), 'k': drv_tree.inst(rng, D=rng.choice([1, 2]), n=8)}


# ---------------------------------------------------------------- instances and parameter lists
def refused(fn):
    try:
        fn()
        return False
    except Exception:
        return True


def run_tree(s):
    rng = random.Random(s['seed'])
    ev = []
    for x in s['xs']:
        nodes, leaves, splits, paths = [], [], [], []
        for n in x['nodes']:
            o = T.Node()
            o.id, o.candidate_splits = n, list(range(min(2, x['nsplits'])))
            nodes.append(o)
        for j, n in enumerate(x['leaves']):
            o = T.Leaf()
            o.id = n
            l = dict(drv_tree.left_of(x['depth'], j))
            o.left_nodes, o.right_nodes = [a for a in l if l[a]], [a for a in l if not l[a]]
            leaves.append(o)
        for j in range(x['nsplits']):
            o = T.Split()
            o.id, o.feature, o.threshold = j, 0, float(j)
            splits.append(o)
        for p in x['paths']:
            paths.append(drv_tree.rpath(dict(p, cost=rng.randint(0, 5))))
        e = refused(lambda: T.DTreeClassifier(paths, leaves, nodes, splits, x['depth'], list(x['targets']), use_old_sp=rng.random() < .3,
                                              max_iterations=rng.choice([-1, 3])))
        ev.append(dict(x, op='tree', refused=e))
    return {'k': {}, 'ev': ev}


def run_levels(s):
    rng = random.Random(s['seed'])
    ev = []
    for _ in range(12):
        subs = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
        params = list(subs)
        for _ in range(rng.choice([0, 1, 1, 2])):
            how = rng.choice(['one', 'one', 'drop', 'more', 'swap'])
            if how == 'one':
                params[rng.randrange(len(params))] = rng.randint(0, 5)
            elif how == 'drop' and len(params) > 1:
                del params[rng.randrange(len(params))]
            elif how == 'more':
                params.insert(rng.randint(0, len(params)), rng.randint(0, 3))
            elif how == 'swap':
                rng.shuffle(params)
            params = params or [0]
        e = refused(lambda: M.ColGenClassifier(master_problem=M.BaseMasterProblem(), subproblems=[[M.BaseSubproblem() for _ in range(n)] for n in subs],
                                               subproblem_params=[[''] * n for n in params], rmp_is_ip=rng.random() < .5))
        ev.append({'op': 'levels', 'subs': subs, 'params': params, 'refused': e})
    return {'k': {}, 'ev': ev}


# ---------------------------------------------------------------- master problems
class Bdr:
    def __init__(self, s, rng):
        self.nf, X, y = drv_bdr.data(rng)
        if len(set(y)) == 1:
            y[0] = 1 - y[0]
        self.X, self.y = np.array(X, float), np.array(y)
        self.al = [list(c) for m in range(1, self.nf + 1) for c in itertools.combinations(range(self.nf), m)]
        rng.shuffle(self.al)
        self.C, self.p = rng.choice([2, 5, 10]), rng.choice([1, 2, .5])

    def new(self):
        return B.BDRMasterProblem(self.C, self.p, 'glop')

    def cols(self):
        return self.al

    def real(self, c):
        return list(c)


class Tree:
    def __init__(self, s, rng):
        k = self.k = s['k']
        self.X, self.y, self.splits, self.nodes, self.leaves = drv_tree.objects(k)
        self.ini = drv_tree.tree(rng, k)
        known = {drv_tree.ptuple(p) for p in self.ini}
        self.al = []
        for _ in range(40):
            p = drv_tree.randpath(rng, k)
            if drv_tree.ptuple(p) not in known:
                known.add(drv_tree.ptuple(p))
                self.al.append(p)
        self.dr = rng.random() < .5

    def new(self):
        return T.DTreeMasterProblem([drv_tree.rpath(p) for p in self.ini], self.leaves, self.nodes, self.splits,
                                    data_rows=drv_tree.data_rows(self.k) if self.dr else None)

    def cols(self):
        return self.al

    def real(self, c):
        return drv_tree.rpath(c)


def program(mp):
    return drv_tree.proto(mp.solver_)


def same(a, b):
    """Equal up to the names."""
    def key(p):
        return ([(v.lower_bound, v.upper_bound, v.objective_coefficient, v.is_integer) for v in p.variable],
                [(c.lower_bound, c.upper_bound, sorted((v, x) for v, x in zip(c.var_index, c.coefficient) if x)) for c in p.constraint],
                p.maximize, p.objective_offset)
    return key(a) == key(b)


def run_calls(s):
    rng = random.Random(s['seed'])
    f = (Bdr if s['fam'] == 'bdr' else Tree)(s, rng)
    mp, tw = f.new(), f.new()
    al = f.cols()
    ev = []
    built = False
    for op in s['h']:
        c = None
        if op == 'add':
            if not al:
                continue
            if s['fam'] == 'tree' and not built:    # nothing is promised
                continue
            c = al.pop()

        def do(m):
            if op == 'build':
                m.generate_mp(f.X, f.y)
            elif op == 'add':
                m.add_column(f.real(c))
            elif op == 'solve':
                m.solve_rmp()
            else:
                m.solve_ip()
        e = refused(lambda: do(mp))
        built = built or op == 'build'
        if built:
            do(tw)
        elif op == 'add' and rng.random() < .5:
            al.append(c)
        pr = program(mp)
        ev.append({'op': 'call', 'what': op, 'refused': e, 'cols': len(pr.variable), 'twin': bool(same(pr, program(tw)))})
    return {'k': {}, 'ev': ev}


# ---------------------------------------------------------------- duals
def run_duals(s):
    rng = random.Random(s['seed'])
    ev = []
    for _ in range(6):
        nf, X, y = drv_bdr.data(rng)
        if len(set(y)) == 1:
            y[0] = 1 - y[0]
        X, y = np.array(X, float), np.array(y)
        n = int(sum(y))
        sub = B.BDRSubProblem(rng.choice([2, 4, 8])) if rng.random() < .6 else B.BDRHeuristic(rng.choice([1, 3]))
        for _ in range(rng.choice([1, 2, 3])):
            cc, cs = rng.choice([0, .125, 1, 3]), [rng.choice([0, .25, 1, 2]) for _ in range(n)]
            if rng.random() < .6:
                v = -rng.choice([1, .5, .01, 4])
                j = rng.randint(-1, n - 1)
                if j < 0:
                    cc = v
                else:
                    cs[j] = v
            sign = lambda v: (v > 0) - (v < 0)
            d = (cc, np.array(cs, float) if rng.random() < .3 else list(cs))

            def ask():
                sub.update_subproblem(X, y, d)
                sub.generate_columns(X, y, d)
            ev.append({'op': 'duals', 'cc': sign(cc), 'cs': [sign(v) for v in cs], 'refused': refused(ask)})
    return {'k': {}, 'ev': ev}


# ---------------------------------------------------------------- data
class Calls:
    """Counts the calls of the problems."""

    def __enter__(self):
        self.n, self.undo = 0, []
        me = self

        def wrap(cls, name):
            o = cls.__dict__.get(name)
            if o is None:
                return

            def f(*a, **kw):
                me.n += 1
                return o(*a, **kw)
            setattr(cls, name, f)
            self.undo.append((cls, name, o))
        for c in (B.BDRMasterProblem, B.BDRSubProblem, B.BDRHeuristic, T.DTreeMasterProblem, T.DTreeSubProblemSat, T.DTreeSubProblemOld,
                  T.DTreeSubProblemHeuristic):
            for m in ('generate_mp', 'solve_rmp', 'update_subproblem', 'generate_columns', 'add_column', 'solve_ip'):
                wrap(c, m)
        return self

    def __exit__(self, *a):
        for c, n, o in self.undo:
            setattr(c, n, o)


def generic(calls, rng):
    class Master(M.BaseMasterProblem):
        def __init__(self):
            pass

        def generate_mp(self, X, y):
            calls.n += 1

        def solve_rmp(self, solver_params=''):
            calls.n += 1
            return 1

        def add_column(self, column):
            return False

        def solve_ip(self, solver_params=''):
            return True

    class Sub(M.BaseSubproblem):
        def __init__(self):
            pass

        def update_subproblem(self, X, y, dual_costs):
            calls.n += 1

        def generate_columns(self, X, y, dual_costs, params=''):
            calls.n += 1
            return []
    return M.ColGenClassifier(master_problem=Master(), subproblems=[[Sub()]], subproblem_params=[['']], rmp_is_ip=rng.random() < .5)


def spoil(rng, X, y, bad):
    """The data set with one fault, and its description."""
    X, y = np.array(X, float), np.array(y)
    n, c = X.shape
    e = {'rows': n, 'cols': c, 'len': len(y), 'dims': 2, 'flat': True, 'finite': True, 'numeric': True, 'yfinite': True, 'classes': len(set(y.tolist()))}
    if bad in ('nan', 'inf', 'ninf'):
        X[rng.randrange(n), rng.randrange(c)] = {'nan': np.nan, 'inf': np.inf, 'ninf': -np.inf}[bad]
        e['finite'] = False
    elif bad == 'short':
        y = y[:-1]
        e['len'] = n - 1
    elif bad == 'long':
        y = np.concatenate([y, y[:1]])
        e['len'] = n + 1
    elif bad == 'empty':
        X, y = X[:0], y[:0]
        e.update(rows=0, len=0, classes=0)
    elif bad == 'nofeatures':
        X = X[:, :0]
        e['cols'] = 0
    elif bad == 'flat':
        X = X[:, 0]
        e.update(dims=1, cols=1)
    elif bad == 'cube':
        X = X[:, :, None]
        e['dims'] = 3
    elif bad == 'scalar':
        X = 3.0
        e['dims'] = 0
    elif bad == 'words':
        X = np.array([['w%d' % v for v in r] for r in X])
        e['numeric'] = False
    elif bad == 'ynan':
        y = y.astype(float)
        y[rng.randrange(n)] = np.nan
        e['yfinite'] = False
    elif bad == 'ycols':
        y = np.stack([y, y], axis=1)
        e['flat'] = False
    elif bad == 'one':
        y = np.full(n, y[0])
        e['classes'] = 1
    return X, y, e


def run_fit(s):
    rng = random.Random(s['seed'])
    k, fam = s['k'], s['fam']
    if fam in ('tree', 'treeold'):
        X, y = drv_tree.farr(k['X'], k).tolist(), k['y']
    else:
        _, X, y = drv_bdr.data(rng)
        if len(set(y)) == 1:
            y[0] = 1 - y[0]
    ini = drv_tree.tree(rng, k)
    ev = []
    with Calls() as calls:
        def make():
            if fam == 'generic':
                return generic(calls, rng)
            if fam in ('bdr', 'heur'):
                return (M.BooleanDecisionRuleClassifierWithHeuristic if fam == 'heur' else M.BooleanDecisionRuleClassifier)(max_iterations=1)
            _, _, splits, nodes, leaves = drv_tree.objects(k)
            return T.DTreeClassifier([drv_tree.rpath(p) for p in ini], leaves, nodes, splits, k['D'], list(range(k['K'])), max_iterations=1,
                                     use_old_sp=fam == 'treeold')
        clf, fitted = make(), False
        for bad in s['bad'] + rng.sample(s['bad'], 2):
            if rng.random() < .5:
                clf, fitted = make(), False
            X_, y_, e = spoil(rng, X, y, bad)
            calls.n = 0
            r = refused(lambda: clf.fit(X_, y_))
            ev.append(dict(e, op='fit', refused=r, built=calls.n))
            fitted = (fitted and r) or not r
            if not r and fam != 'generic':
                for b in [None] + rng.sample(BADDATA, 4):
                    if b in ('short', 'long', 'ynan', 'ycols', 'one'):
                        continue
                    Z, _, e = spoil(rng, X, y, b)
                    e = {n: e[n] for n in ('rows', 'cols', 'dims', 'finite', 'numeric')}
                    ev.append(dict(e, op='predict', refused=refused(lambda: clf.predict(Z))))
    return {'k': {}, 'ev': ev}


def run(s):
    with quiet():
        return {'tree': run_tree, 'tlc-tree': run_tree, 'levels': run_levels, 'calls': run_calls, 'tlc-calls': run_calls, 'duals': run_duals,
                'fit': run_fit}[s['kind']](s)
