"""Class labels of all kinds through training and prediction (C04)."""
import inspect
import random
import warnings
import common
import drv_bdr
import drv_tree
from common import i, il, quiet, in_code, describe, BAD
from det import deterministic

WORKERS = 7
TIMEOUT = 120


def init():
    global M, np, T, B, pd
    drv_bdr.init()
    drv_tree.init()
    import numpy as np
    import pandas as pd
    import col_gen_estimator as M
    import col_gen_estimator._bdr_classifier as B
    import col_gen_estimator._dtree_classifier as T
    warnings.simplefilter('ignore')


# ---------------------------------------------------------------- vocabularies
WORDS = ['', '0', '00', '1', '-1', '10', '2', '02', 'a', 'aa', 'A', 'b', 'yes', 'no', 'not at all', 'zebra', ' ', 'é', 'True', 'False', 'None', 'nan', 'x' * 40, '1.0']
KINDS = ['int', 'int', 'neg', 'big', 'int8', 'uint8', 'int32', 'float', 'float32', 'str', 'str', 'obj', 'near', 'zero']


def vocab(rng, kind, n):
    """n labels of a kind in increasing order (as plain Python values) and the dtype for arrays"""
    if kind == 'bool':
        return [False, True], bool
    if kind in ('str', 'obj'):
        return sorted(rng.sample(WORDS, n)), (object if kind == 'obj' else str)
    lo, hi = {'int': (-5, 30), 'neg': (-1000, 0), 'big': (-2 ** 50, 2 ** 50), 'int8': (-128, 128), 'uint8': (0, 256), 'int32': (-2 ** 31, 2 ** 31),
              'float': (-50, 50), 'float32': (-50, 50), 'near': (2 ** 31, 2 ** 31 + 40), 'zero': (0, n)}[kind]
    v = sorted(rng.sample(range(lo, hi), n))
    if kind in ('float', 'float32'):
        return [float(x) for x in v], {'float': float, 'float32': np.float32}[kind]
    return v, {'int8': np.int8, 'uint8': np.uint8, 'int32': np.int32}.get(kind, np.int64)


def give(rng, lab, dt, form):
    """The label vector as the caller passes it."""
    a = np.array(lab, dtype=dt)
    if form == 'list':
        return list(lab)
    if form == 'tuple':
        return tuple(lab)
    if form == 'col':
        return a.reshape(-1, 1)
    if form == 'strided':
        return np.repeat(a, 2)[::2]
    if form == 'reverse':
        return a[::-1].copy()[::-1]
    if form == 'readonly':
        a.setflags(write=False)
    if form == 'series':
        return pd.Series(list(lab), dtype=dt if dt is not str else object, index=range(7, 7 + len(lab)))
    return a


FORMS = ['list', 'list', 'tuple', 'array', 'array', 'col', 'strided', 'reverse', 'readonly', 'series']


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 31 + 4)
    many = 1 if tier == 'quick' else 12
    for n in range(260 * many):
        K = rng.choice([2, 2, 3, 3, 4, 5, 7, 12])
        m = rng.choice([K, K + 1, 2 * K, 30])
        cl = list(range(K)) + [rng.randrange(K) if rng.random() < .7 else 0 for _ in range(m - K)]
        rng.shuffle(cl)
        yield {'kind': 'generic', 'cl': cl, 'K': K, 'seed': rng.randrange(1 << 30), 'single': rng.random() < .15}
    if scripts:
        for s in scripts:
            yield {'kind': 'tlc', 'y': s['y'], 'seed': rng.randrange(1 << 30)}
    for n in range(200 * many):
        nf, X, y = drv_bdr.data(rng)
        if len(set(y)) == 1:
            y[0] = 1 - y[0]
        yield {'kind': 'bdr', 'X': X, 'y': y, 'C': rng.choice([1, 2, 3, 5, 10]), 'heur': rng.random() < .5, 'seed': rng.randrange(1 << 30),
               'maxit': rng.choice([-1, -1, 2])}
    for n in range(200 * many):
        yield {'kind': 'tree', 'k': drv_tree.inst(rng, K=rng.choice([2, 2, 3, 3, 4, 5]), D=rng.choice([1, 2, 2])), 'seed': rng.randrange(1 << 30)}


# ---------------------------------------------------------------- observation
class Spy:
    """What the problems see of the labels."""

    def __init__(self):
        self.seen, self.calls = [], 0

    def note(self, y):
        self.calls += 1
        try:
            self.seen.append(il(np.asarray(y).tolist()))
        except Exception:
            self.seen.append([BAD])

    def wrap(self, cls, name):
        if name not in cls.__dict__:
            return None
        orig = cls.__dict__[name]
        sig = inspect.signature(orig)
        spy = self

        def f(*a, **kw):
            try:
                b = sig.bind(*a, **kw).arguments
            except TypeError:
                b = {}
            if 'y' in b:
                spy.note(b['y'])
            else:
                spy.calls += 1
            return orig(*a, **kw)
        setattr(cls, name, f)
        return lambda: setattr(cls, name, orig)

    def __enter__(self):
        self.undo = [self.wrap(c, n) for c in (B.BDRMasterProblem, B.BDRSubProblem, B.BDRHeuristic, T.DTreeMasterProblem, T.DTreeSubProblemSat,
                                               T.DTreeSubProblemHeuristic)
                     for n in ('generate_mp', 'solve_rmp', 'update_subproblem', 'generate_columns', 'add_column', 'solve_ip')]
        return self

    def __exit__(self, *a):
        for u in self.undo:
            if u:
                u()

    def take(self):
        r = []
        for v in self.seen:
            if v not in r:
                r.append(v)
        self.seen, self.calls = [], 0
        return r


def ranks(xs, voc):
    """indices (1..) in the vocabulary, BAD where something is no label of it"""
    try:
        return [next((j + 1 for j, v in enumerate(voc) if type(v) is not type(None) and v == x and isinstance(x, str) == isinstance(v, str)), BAD)
                for x in np.asarray(xs).tolist()]
    except Exception:
        return [BAD]


def typed(xs, dt):
    k = np.asarray(xs).dtype.kind
    w = np.dtype(dt).kind
    return k == w or {k, w} == {'U', 'O'}


def vectors(rng, K, n=3):
    """[(vocabulary, ranks of the K classes, dtype)]"""
    r = []
    for _ in range(n):
        kind = rng.choice(KINDS + (['bool', 'bool'] if K == 2 else []))
        m = 2 if kind == 'bool' else K if kind == 'zero' else min(K + rng.choice([0, 0, 1, 3]), len(WORDS))
        voc, dt = vocab(rng, kind, m)
        r.append((voc, sorted(rng.sample(range(1, m + 1), K)), dt))
    return r


def ev_fit(clf, spy, X, lab, voc, dt, rng, args=None):
    """Fits; the event and the labels as ranks."""
    form = rng.choice(FORMS)
    yy = give(rng, lab, dt, form)
    clf.fit(X, yy)
    dt = clf.given_ = np.asarray(yy).dtype
    return {'op': 'fit', 'y': ranks(lab, voc), 'seen': spy.take(), 'classes': ranks(clf.classes_, voc), 'kept': ranks(clf.y_, voc),
            'typed': bool(typed(clf.classes_, dt)), 'form': form, 'dt': dt.str}


def ev_single(make, spy, X, lab, dt, rng, voc):
    clf = make()
    spy.take()
    try:
        clf.fit(X, give(rng, lab, dt, rng.choice(FORMS)))
        refused = False
    except Exception:
        refused = True
    n = spy.calls
    spy.take()
    return {'op': 'single', 'refused': refused, 'built': n}


def generic(spy, rng, K):
    class Master(M.BaseMasterProblem):
        def __init__(self):
            self.n = 0

        def generate_mp(self, X, y):
            spy.note(y)

        def solve_rmp(self, solver_params=''):
            spy.calls += 1
            return 1

        def add_column(self, column):
            self.n += 1
            return self.n < 4

        def solve_ip(self, solver_params=''):
            spy.calls += 1
            return True

    class Sub(M.BaseSubproblem):
        def __init__(self):
            pass

        def update_subproblem(self, X, y, dual_costs):
            spy.note(y)

        def generate_columns(self, X, y, dual_costs, params=''):
            spy.note(y)
            return [1]
    return M.ColGenClassifier(master_problem=Master(), subproblems=[[Sub()], [Sub(), Sub()]], subproblem_params=[[''], ['', '']], rmp_is_ip=rng.random() < .5)


def run_generic(s):
    rng = random.Random(s['seed'])
    if s['kind'] == 'tlc':
        y = s['y']                                # ranks
        vocs = []
        for _ in range(2):
            voc, dt = vocab(rng, rng.choice(KINDS[:-1]), max(4, max(y)))
            vocs.append((voc, sorted(rng.sample(range(1, len(voc) + 1), max(y))), dt))
        if max(y) <= 2 and rng.random() < .5:
            vocs.append(([False, True], [1, 2], bool))
        cl = [v - 1 for v in y]
    else:
        cl = s['cl']
        vocs = vectors(rng, s['K'])
    if s.get('single'):
        cl = [0] * len(cl)
    X = np.arange(2 * len(cl), dtype=float).reshape(-1, 2)
    ev = []
    spy = Spy()
    same = generic(spy, rng, 2) if rng.random() < .6 else None      # one classifier for all label vectors
    many = []
    for v in vocs:
        many.append((v, cl))
        while same and s['kind'] == 'generic' and rng.random() < .5:     # the same names, other classes
            n = rng.randint(1, len(v[1]))
            sub = rng.sample(range(len(v[1])), n)
            many.append((v, [rng.choice(sub) for _ in cl]))
    for (voc, pos, dt), c_ in many:
        lab = [voc[pos[c] - 1] for c in c_]
        if len(set(c_)) == 1:
            ev.append(ev_single(lambda: same or generic(spy, rng, 2), spy, X, lab, dt, rng, voc))
        else:
            ev.append(ev_fit(same or generic(spy, rng, 2), spy, X, lab, voc, dt, rng))
    return {'k': {}, 'ev': ev}


def run_real(s):
    rng = random.Random(s['seed'])
    ev = []
    with Spy() as spy:
        if s['kind'] == 'bdr':
            X, y, K = np.array(s['X'], float), s['y'], 2
            cls = M.BooleanDecisionRuleClassifierWithHeuristic if s['heur'] else M.BooleanDecisionRuleClassifier
            make = lambda: cls(C=s['C'], max_iterations=s['maxit'])
            rows = X
            def model(clf):
                ex = [il(c) for c in clf.master_problem.explanation]
                return [int(any(all(r[j] for j in c) for c in ex)) for r in rows]
        else:
            k = s['k']
            y, K = k['y'], k['K']
            X = drv_tree.farr(k['X'])
            ini = drv_tree.tree(rng, k)
            grid = drv_tree.grid(rng, k, len(k['X']) + 6)
            rows = drv_tree.farr(grid)
            def make():
                X_, y_, splits, nodes, leaves = drv_tree.objects(k)
                return T.DTreeClassifier([drv_tree.rpath(p) for p in ini], leaves, nodes, splits, tree_depth=k['D'], targets=list(range(K)))
            def model(clf):
                sel = [drv_tree.jpath(p) for p in clf.master_problem.selected_paths]
                return [next((p['target'] for p in sel if drv_tree.follows(k, p, r)), 0) for r in grid]
        first = None
        for n, (voc, pos, dt) in enumerate(vectors(rng, K, 3)):
            lab = [voc[pos[c] - 1] for c in y]
            if rng.random() < .25:
                ev.append(ev_single(make, spy, X, [lab[0]] * len(lab), dt, rng, voc))
            outs = []
            for again in range(2 if n == 0 else 1):
                note = []
                with deterministic(s['seed'], note):
                    spy.take()
                    clf = make()
                    e = ev_fit(clf, spy, X, lab, voc, dt, rng)
                out = clf.predict(rows)
                outs.append((ranks(out, voc), bool(note)))
                if n and note:
                    first = None
            if n == 0 and outs[0][0] == outs[1][0] and not outs[0][1] and not outs[1][1]:
                first = outs[0][0]
            ev.append(e)
            ev.append({'op': 'answers', 'codes': model(clf), 'out': outs[-1][0], 'typed': bool(typed(out, clf.given_)), 'det': first is not None})
    return {'k': {}, 'ev': ev}


def run(s):
    with quiet():
        return (run_generic if s['kind'] in ('generic', 'tlc') else run_real)(s)
