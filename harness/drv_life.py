"""Histories of construct, set_params, clone, fit and predict on one or several estimators (C05).

The worker stays pristine: every reference fit and every history runs in a forked child."""
import copy
import os
import pickle
import random
import signal
import warnings
import zlib
import common
import drv_bdr
import drv_tree
from common import i, il, sc, quiet, in_code, describe, BAD
from det import deterministic

WORKERS = 7
TIMEOUT = 200
S = 100000


def init():
    global M, np, T, B, pd, NotFittedError, clone
    drv_bdr.init()
    drv_tree.init()
    import numpy as np
    import col_gen_estimator as M
    import col_gen_estimator._bdr_classifier as B
    import col_gen_estimator._dtree_classifier as T
    from sklearn.exceptions import NotFittedError
    from sklearn.base import clone
    warnings.simplefilter('ignore')


def in_child(fn, *a):
    """Runs fn in a forked child; returns (status, value)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(100)
        try:
            os.close(r)
            try:
                res = ('ok', fn(*a))
            except Exception as e:
                if in_code(e):
                    res = ('raised', describe(e))
                else:
                    import traceback
                    res = ('harness', ''.join(traceback.format_exception(e))[-2000:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ('died', '')


# ---------------------------------------------------------------- scenarios
def history(rng, NP, ND, n):
    """A random history (operations as in the scripts that TLC prints)."""
    h, ne, fitted = [{'op': 'new', 'e': 1, 'p': rng.randint(1, NP), 'd': 0}], 1, set()
    while len(h) < n:
        e = rng.randint(1, ne)
        r = rng.random()
        if r < .08 and ne < 4:
            ne += 1
            h.append({'op': 'new', 'e': ne, 'p': rng.randint(1, NP), 'd': 0})
        elif r < .16 and ne < 4:
            ne += 1
            h.append({'op': 'clone', 'e': e, 'p': 0, 'd': 0})
        elif r < .32:
            h.append({'op': 'setp', 'e': e, 'p': rng.randint(1, NP), 'd': 0})
        elif r < .38:
            h.append({'op': 'fitbad', 'e': e, 'p': 0, 'd': 0})
        elif r < .68:
            h.append({'op': 'fit', 'e': e, 'p': 0, 'd': rng.randint(1, ND)})
        else:
            h.append({'op': 'predict', 'e': e, 'p': 0, 'd': 0})
    return h


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 57 + 5)
    many = 1 if tier == 'quick' else 12
    sd = lambda: rng.randrange(1 << 30)

    def bdr(**kw):
        D = []
        alike = rng.choice(['', '', 'shape', 'X', 'y'])     # what the data sets have in common
        for _ in range(3):
            nf, X, y = drv_bdr.data(rng)
            if D and alike:
                nf, X, y = len(D[0]['X'][0]), [list(r) for r in D[0]['X']], list(D[0]['y'])
                if alike != 'X':
                    d = rng.choice([.1, .3, .5])
                    X = [[v ^ (rng.random() < d) for v in r] for r in X]
                if alike != 'y':
                    d = rng.choice([.1, .5])
                    y = [v ^ (rng.random() < d) for v in y]
            if len(set(y)) == 1:
                y[0] = 1 - y[0]
            D.append({'X': X, 'y': y, 'labels': rng.choice(drv_bdr.LABELS)})
        P = [{'C': rng.choice([1, 2, 3, 5, 8, 10]), 'p': rng.choice([1, 1, 2, .5, 3]), 'max_iterations': rng.choice([-1, -1, -1, 1, 2]),
              'subproblem_solver': rng.choice(['cbc', 'cbc', 'cbc', 'scip'])} for _ in range(3)]
        return dict(kw, fam='bdr', reuse=rng.random() < .5, heur=rng.random() < .5, D=D, P=P, seed=sd())

    def tree(**kw):
        # at most 8 rows: sets of numbers below 8 keep their order when they are copied, and ties depend on that order
        k = drv_tree.inst(rng, D=rng.choice([1, 2, 2, 2]), n=rng.choice([5, 6, 7, 8, 8]), nsp=rng.choice([2, 3, 4, 5]))
        ks = [k]
        for _ in range(2):                              # the same attributes, other targets
            q = copy.deepcopy(k)
            for r in range(len(q['y'])):
                if rng.random() < .5 and q['y'].count(q['y'][r]) > 1:
                    q['y'][r] = rng.randrange(q['K'])
            ks.append(q)
        P = []
        for j in range(3):
            D = rng.choice([1, 2, 2])
            if j == 1 and rng.random() < .5:            # only options differ
                P.append(dict(P[0], old=rng.random() < .4, maxit=rng.choice([-1, 1]), rounds=rng.choice([0, 1, 3]),
                              beta=rng.random() < .5, gen=rng.random() < .5))
                continue
            cand = [rng.sample(range(len(k['sp'])), rng.randint(1, min(3, len(k['sp'])))) for _ in range(2 ** D - 1)]
            q = dict(k, D=D, cand=cand)
            P.append({'D': D, 'cand': cand, 'ini': drv_tree.tree(rng, q), 'old': rng.random() < .2, 'maxit': rng.choice([-1, -1, -1, 1, 2]),
                      'rounds': rng.choice([0, 1, 3]), 'beta': rng.random() < .5, 'gen': rng.random() < .5, 'base': j,
                      'dr': rng.choice([0, 0, 0, 1, 2, 3])})
        return dict(kw, fam='tree', reuse=rng.random() < .5, ks=ks, P=P, labels=[rng.choice(drv_tree.LABELS) for _ in ks], share=rng.random() < .7, seed=sd(), start=rng.choice([0, 0, 6, 8, 9]))
    for n in range(120 * many):
        yield bdr(kind='bdr', h=history(rng, 3, 3, rng.choice([6, 10, 14])))
        yield tree(kind='tree', h=history(rng, 3, 3, rng.choice([6, 10, 14])))
    if scripts:
        good = [s for s in scripts if sum(x['op'] == 'fit' for x in s['h']) >= 2 or {'fit', 'predict'} <= {x['op'] for x in s['h']}]
        rng.shuffle(good)
        for n, s in enumerate(good[:240 * many]):
            yield (bdr if n % 2 else tree)(kind='tlc-' + ('bdr' if n % 2 else 'tree'), h=s['h'])


# ---------------------------------------------------------------- the two families behind one interface
BUF = {}


def buffers(s, f, X, y):
    """Some callers use the same arrays again and again."""
    if not s.get('reuse'):
        return X, y
    r = []
    for n, a in enumerate((X, y)):
        key = (id(f), n, a.shape, a.dtype.str)
        if key in BUF:
            BUF[key][:] = a
        else:
            BUF[key] = a
        r.append(BUF[key])
    return r


class Bdr:
    structural = ()

    def __init__(self, s):
        self.s = s
        self.cls = M.BooleanDecisionRuleClassifierWithHeuristic if s['heur'] else M.BooleanDecisionRuleClassifier
        self.P = [dict(p) for p in s['P']]

    def new(self, p):
        return self.cls(**self.P[p])

    def args(self, p):
        return dict(self.P[p])

    def data(self, d):
        D = self.s['D'][d]
        return np.array(D['X'], float), np.array(D['labels'])[np.array(D['y'])], np.array(D['labels'])

    def probes(self, p, d):
        nf = len(self.s['D'][d]['X'][0])
        rng = random.Random(self.s['seed'] + d)
        return np.array(self.s['D'][d]['X'] + [[rng.randint(0, 1) for _ in range(nf)] for _ in range(4)], float)

    def model(self, clf):
        return [sorted(map(sorted, clf.master_problem.explanation)), [str(v) for v in clf.classes_]]

    def params(self, clf):
        return repr(sorted(clf.get_params().items()))

    def lists(self):
        return ''

    def which(self, p, d):
        return d

    MP = property(lambda self: B.BDRMasterProblem)

    def col(self, c):
        return il(c)


class Tree:
    def __init__(self, s):
        self.s = s
        k = s['ks'][0]
        self.X, _, self.splits, _, _ = drv_tree.objects(k)
        self.P = []
        for p in s['P']:
            q = dict(k, D=p['D'], cand=p['cand'])
            if s['share'] or not self.P:
                splits = self.splits
            else:
                splits = drv_tree.objects(q)[2]
            _, _, _, nodes, leaves = drv_tree.objects(q)
            dr = None
            if p['dr']:
                dr = drv_tree.data_rows(dict(s['ks'][p['dr'] - 1], D=p['D'], cand=p['cand']))
            base = s['P'].index(next(x for x in s['P'] if x['base'] == p['base']))
            if base < len(self.P) and s['share']:       # options only: the very same lists
                a = dict(self.P[base])
            else:
                a = {'initial_paths': [drv_tree.rpath(x) for x in p['ini']], 'leaves': leaves, 'nodes': nodes, 'splits': splits,
                     'tree_depth': p['D'], 'targets': list(range(k['K'])), 'data_rows': dr}
            a.update(max_iterations=p['maxit'], use_old_sp=p['old'], num_master_cuts_round=p['rounds'],
                     master_beta_constraints_as_cuts=p['beta'], master_generate_cuts=p['gen'])
            self.P.append(a)

    def new(self, p):
        return T.DTreeClassifier(**self.P[p])

    def args(self, p):
        return dict(self.P[p])

    def lab(self, d):
        l = self.s['labels'][d]
        return np.array(l if l else list(range(5)))[:self.s['ks'][d]['K']]

    def data(self, d):
        k = self.s['ks'][d]
        lab = self.lab(d)
        return drv_tree.farr(k['X'], k), lab[np.array(k['y'])], lab

    def probes(self, p, d):
        rng = random.Random(self.s['seed'])
        k = self.s['ks'][0]
        return drv_tree.farr(drv_tree.grid(rng, k, len(k['X']) + 6), k)

    def model(self, clf):
        return [sorted((sorted(drv_tree.jpath(p).items()) for p in clf.master_problem.selected_paths), key=repr), [str(v) for v in clf.classes_]]

    def dump(self, a):
        def one(v):
            if isinstance(v, T.Path):
                return ('path', sorted(drv_tree.jpath(v).items()))
            if isinstance(v, T.Leaf):
                return ('leaf', v.id, list(v.left_nodes), list(v.right_nodes))
            if isinstance(v, T.Node):
                return ('node', v.id, list(v.candidate_splits))
            if isinstance(v, T.Split):
                return ('split', v.id, v.feature, v.threshold, sorted(v.left_rows), sorted(v.right_rows))
            if isinstance(v, T.Row):
                return ('row', v.id, v.target, v.weight, v.removed_from_master, v.removed_from_sp, sorted(v.left_splits), sorted(v.right_splits))
            if isinstance(v, (list, tuple)):
                return [one(x) for x in v]
            return v
        return repr([(n, one(v)) for n, v in sorted(a.items())])

    def params(self, clf):
        return self.dump(clf.get_params())

    def lists(self):
        return ' '.join(self.dump(a) for a in self.P)

    def which(self, p, d):
        """Preprocessed rows belong to one data set."""
        dr = self.s['P'][p]['dr']
        return dr - 1 if dr else d

    MP = property(lambda self: T.DTreeMasterProblem)

    def col(self, c):
        return sorted(drv_tree.jpath(c).items())


def fam(s):
    return (Bdr if s['fam'] == 'bdr' else Tree)(s)


class Rec:
    """Records the columns and the last optimum of the master problems."""

    def __init__(self, f):
        self.f, self.cols, self.obj = f, [], 0

    def __enter__(self):
        mp, me = self.f.MP, self
        self.o = (mp.solve_rmp, mp.add_column, mp.generate_mp)
        osolve, oadd, ogen = self.o

        def generate_mp(self, X, y):
            ogen(self, X, y)
            for _ in range(me.f.s.get('start', 0)):     # rounds of cuts happen in every tenth solve
                osolve(self)

        def solve_rmp(self, *a, **kw):
            d = osolve(self, *a, **kw)
            me.obj = self.solver_.Objective().Value()
            return d

        def add_column(self, c):
            me.cols.append(me.f.col(c))
            return oadd(self, c)
        mp.solve_rmp, mp.add_column, mp.generate_mp = solve_rmp, add_column, generate_mp
        return self

    def __exit__(self, *a):
        self.f.MP.solve_rmp, self.f.MP.add_column, self.f.MP.generate_mp = self.o


def crc(x):
    return zlib.crc32(repr(x).encode()) & 0x1fffffff


def fit(f, clf, X, y, seed):
    """Fits; (fingerprint, optimum, returned itself, all solves were complete)"""
    note = []
    with Rec(f) as r, deterministic(seed, note):
        ret = clf.fit(X, y)
    fp = crc([r.cols, sc(r.obj, S), bool(clf.mp_optimal_), i(clf.performed_iter_), f.model(clf)])
    return fp, sc(r.obj, S), ret is clf, not note


def codes(out, lab):
    return drv_tree.codes(out, lab)


def reference(s, p, d):
    f = fam(s)
    clf = f.new(p)
    X, y, lab = f.data(d)
    fp, obj, _, sure = fit(f, clf, X, y, s['seed'])
    rows = f.probes(p, d)
    return {'fp': fp, 'obj': obj, 'sure': sure, 'opt': bool(clf.mp_optimal_), 'pred': [codes(clf.predict(r.reshape(1, -1)), lab)[0] for r in rows]}


def play(s):
    """The history on the real estimators."""
    rng = random.Random(s['seed'] ^ 77)
    f = fam(s)
    est, ev, cur, sure = [], [], [], True      # cur: [p, (p, d) of the model, unknown]
    lists0 = f.lists()

    def given(e, p):
        """the parameters that were passed are the ones that are reported"""
        g = est[e].get_params()
        return all(n in g and (g[n] is v or g[n] == v) for n, v in f.args(p).items())
    for h in s['h']:
        op, e = h['op'], h['e'] - 1
        if op == 'new':
            p = h['p'] - 1
            est.append(f.new(p))
            cur.append([p, None, False])
            ev.append({'op': 'new', 'e': len(est), 'p': p + 1, 'params': given(len(est) - 1, p)})
        elif op == 'clone':
            p = cur[e][0]
            before = f.params(est[e])
            est.append(clone(est[e]))
            cur.append([p, None, False])
            ev.append({'op': 'clone', 'e': e + 1, 'params': f.params(est[-1]) == before and f.params(est[e]) == before})
        elif op == 'setp':
            p = h['p'] - 1
            est[e].set_params(**f.args(p))
            cur[e][0] = p
            ev.append({'op': 'setp', 'e': e + 1, 'p': p + 1, 'params': given(e, p)})
        elif op == 'fit':
            p = cur[e][0]
            d = f.which(p, h['d'] - 1)
            X, y, lab = f.data(d)
            X, y = buffers(s, f, X, y)
            X0, y0 = X.copy(), y.copy()
            b = f.params(est[e])
            fp, obj, slf, ok = fit(f, est[e], X, y, s['seed'])
            sure = sure and ok
            ev.append({'op': 'fit', 'e': e + 1, 'd': d + 1, 'fp': fp, 'weak': obj, 'self': slf, 'pure': bool((X == X0).all() and (y == y0).all()),
                       'params': f.params(est[e]) == b, 'lists': f.lists() == lists0})
            cur[e] = [p, (p, d), False]
            if rng.random() < .5:               # the caller goes on using its arrays
                X[:] = 1 - X
                y[:] = y[::-1].copy()
        elif op == 'fitbad':
            p = cur[e][0]
            X, y, lab = f.data(f.which(p, 0))
            y[:] = y[0]
            X0, y0 = X.copy(), y.copy()
            try:
                est[e].fit(X, y)
                refused = False
            except Exception:
                refused = True
            ev.append({'op': 'fitbad', 'e': e + 1, 'refused': refused, 'pure': bool((X == X0).all() and (y == y0).all())})
            cur[e][2] = cur[e][1] is not None
        elif op in ('predict', 'early'):
            p, m, unknown = cur[e]
            if m is None:
                X = f.data(f.which(p, 0))[0]
                try:
                    est[e].predict(X)
                    refused = False
                except NotFittedError:
                    refused = True
                ev.append({'op': 'early', 'e': e + 1, 'refused': refused})
                continue
            if unknown or (s['fam'] == 'tree' and s['P'][m[0]]['base'] != s['P'][p]['base']):
                continue                        # nothing is promised
            lab = f.data(m[1])[2]
            probes = f.probes(*m)
            rows = [rng.randrange(len(probes)) for _ in range(rng.choice([1, 2, 5, 12]))]
            if rng.random() < .3:
                rows = list(range(len(probes)))
                rng.shuffle(rows)
            X = probes[rows]
            X0, b, md = X.copy(), f.params(est[e]), f.model(est[e])
            out = codes(est[e].predict(X), lab)
            ev.append({'op': 'predict', 'e': e + 1, 'rows': [r + 1 for r in rows], 'out': out, 'pure': bool((X == X0).all()),
                       'same': f.model(est[e]) == md, 'params': f.params(est[e]) == b, 'lists': f.lists() == lists0})
    return ev, sure


def run(s):
    with quiet():
        f = fam(s)
        NP, ND = len(s['P']), 3
        ref = {}
        st, res = in_child(play, s)
        if st == 'harness':
            raise RuntimeError(res)
        if st != 'ok':
            return {'k': {'det': [], 'ref': [], 'weak': [], 'pred': [], 'tol': 0}, 'ev': [{'op': 'error', 'what': '%s: %s' % (st, res)}]}
        ev, sure = res
        cur, need = [], set()
        for e in ev:
            if e['op'] == 'new':
                cur.append(e['p'])
            elif e['op'] == 'clone':
                cur.append(cur[e['e'] - 1])
            elif e['op'] == 'setp':
                cur[e['e'] - 1] = e['p']
            elif e['op'] == 'fit':
                need.add((cur[e['e'] - 1], e['d']))
        det = [[False] * ND for _ in range(NP)]
        fp = [[0] * ND for _ in range(NP)]
        weak = [[-1] * ND for _ in range(NP)]
        pred = [[[0]] * ND for _ in range(NP)]
        for p, d in sorted(need):
            r = [in_child(reference, s, p - 1, d - 1) for _ in range(2)]
            if any(x[0] == 'harness' for x in r):
                raise RuntimeError(r)
            if any(x[0] != 'ok' for x in r):
                return {'k': {'det': det, 'ref': fp, 'weak': weak, 'pred': pred, 'tol': 0}, 'ev': [{'op': 'error', 'what': 'fresh fit: %s' % r[0][1]}]}
            r = [x[1] for x in r]
            if not (r[0]['sure'] and r[1]['sure'] and sure):
                return None                     # a solver gave up early
            det[p - 1][d - 1] = r[0] == r[1]
            fp[p - 1][d - 1] = r[0]['fp']
            # without cuts the optimum does not depend on the order of events
            weak[p - 1][d - 1] = r[0]['obj'] if r[0]['opt'] and r[1]['opt'] and not (s['fam'] == 'tree' and (s['P'][p - 1]['beta'] or s['P'][p - 1]['gen'])) else -1
            pred[p - 1][d - 1] = r[0]['pred']
        return {'k': {'det': det, 'ref': fp, 'weak': weak, 'pred': pred, 'tol': 200}, 'ev': ev}
