"""Complete training runs of the rule and tree classifiers, every call of the loop recorded, under a fake clock (C29)."""
import contextlib
import random
import common
import drv_bdr
import drv_loop
import drv_tree as d
from common import i, il, sc, quiet, in_code, describe
from drv_loop import CLOCK

WORKERS = 7
TIMEOUT = 150
LAZY = True
S = 100000


def init():
    """Replaces the clocks, then imports the package under test."""
    global M, B, T, np
    drv_loop.init()
    drv_bdr.init()
    d.init()
    import numpy as np
    M, B, T = d.M, drv_bdr.B, d.T


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 7 + int(prop[1:]))
    many = 1 if tier == 'quick' else 12
    rule, tree = {'C29': (160, 120), 'C01': (25, 15), 'C02': (25, 25), 'C03': (20, 15), 'C15': (60, 0), 'C28': (0, 50)}.get(prop, (60, 0))

    def rules():
        for n in range(rule * many):
            nf, X, y = drv_bdr.data(rng, n % 20 == 7, 'long' if n % 20 == 17 else '')
            if len(set(y)) == 1:
                y[0] = 1 - y[0]
            yield {'kind': 'rule', 'nf': nf, 'X': X, 'y': y, 'C': rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 10, 15]), 'p': rng.choice(drv_bdr.PS),
                   'heur': rng.random() < .6, 'labels': rng.choice(drv_bdr.LABELS), 'typ': rng.choice(['int', 'float', 'float', 'bool']),
                   'maxit': rng.choice([-1, -1, -1, -1, 1, 2, 3]), 'seed': rng.randrange(1 << 30)}

    def trees():
        for s in d.fits(rng, tree * many, 1):
            yield dict(s, kind='tree', tlim=rng.choice([-1, -1, -1, -1, 5, 21]), maxit=rng.choice([-1, -1, -1, -1, 1, 3, -1]),
                       dense=False, slow=rng.random() < .7)
    a, b = list(rules()), list(trees())
    while a or b:
        for q in (a, b):
            if q:
                yield q.pop(0)


def same(a, b):
    """Deep equality of what the master has returned."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[x], b[x]) for x in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(np.all(a == b)) and np.shape(a) == np.shape(b)


def frozen(a):
    if isinstance(a, dict):
        return {x: frozen(v) for x, v in a.items()}
    if isinstance(a, (list, tuple)):
        return [frozen(v) for v in a]
    return a


class Run:
    """Wraps the classes of the parts; every call is an event."""

    def __init__(self, seed, slow, X, yenc):
        self.ev, self.rng, self.slow = [], random.Random(seed), slow
        self.X, self.y = X, yenc
        self.duals = []
        self.base = CLOCK[0]
        self.depth = 0

    def put(self, dur=None, **e):
        e['t'] = self.now
        e['d'] = self.pass_() if dur is None else dur
        self.ev.append(e)
        return e

    def pass_(self):
        x = self.rng.choice([0, 0, 2, 4]) if self.slow else 0
        CLOCK[0] += x
        return x

    @property
    def now(self):
        return int(CLOCK[0] - self.base)

    def data(self, X, y):
        xok = getattr(X, 'shape', None) == self.X.shape and bool((X == self.X).all())
        try:
            yok = [int(v) for v in y] == self.y
        except Exception:
            yok = False
        return {'xok': xok, 'yok': yok}

    def tok(self, du):
        du = frozen(du)
        for n in range(len(self.duals), 0, -1):
            if same(self.duals[n - 1], du):
                return n
        return -1

    def place(self, sub):
        for l, subs in enumerate(self.clf.subproblems):
            for j, q in enumerate(subs):
                if q is sub:
                    return {'l': l + 1, 'j': j + 1}
        return {'l': 0, 'j': 0}


@contextlib.contextmanager
def wrapped(run, master, subs):
    """subs: [(class, kind)]; the wrappers only see calls of the loop (not those that the parts make to each other)."""
    saved = []

    def put(cls, name, f):
        saved.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, f)

    def outer(f, g):
        def call(self, *a, **kw):
            if run.depth:
                return f(self, *a, **kw)
            run.depth += 1
            try:
                return g(self, lambda: f(self, *a, **kw), *a, **kw)
            finally:
                run.depth -= 1
        return call

    def arg(a, kw, n, name, default=''):
        return kw.get(name, a[n] if len(a) > n else default)

    def generate_mp(self, f, *a, **kw):
        e = dict(op='build', **run.data(arg(a, kw, 0, 'X', None), arg(a, kw, 1, 'y', None)))
        f()
        run.mp = self
        e['parts'] = [[q.cge for q in l] for l in run.clf.subproblems]
        e.update(run.built(self))
        run.put(**e)

    def solve_rmp(self, f, *a, **kw):
        du = f()
        run.duals.append(frozen(du))
        e = dict(op='solve', tok=len(run.duals), par=str(arg(a, kw, 0, 'solver_params')), imp=bool(self.rmp_objective_improved()),
                 reset=bool(getattr(self, 'reset_timer_', False)))
        e.update(run.solved(self, du))
        run.put(**e)
        return du

    def add_column(self, f, *a, **kw):
        col = arg(a, kw, 0, 'path', arg(a, kw, 0, 'clause', arg(a, kw, 0, 'column', None)))
        c = run.col(col)
        r = f()
        e = dict(op='add', col=c, ret=bool(r))
        e.update(run.added(self, col))
        run.put(**e)
        return r

    def solve_ip(self, f, *a, **kw):
        r = f()
        e = dict(op='ip', ret=bool(r), par=str(arg(a, kw, 0, 'solver_params')))
        e.update(run.ip(self))
        run.put(**e)
        return r
    for name, g in (('generate_mp', generate_mp), ('solve_rmp', solve_rmp), ('add_column', add_column), ('solve_ip', solve_ip)):
        put(master, name, outer(getattr(master, name), g))

    def update_subproblem(self, f, X, y, dual_costs):
        r = f()
        run.put(op='upd', tok=run.tok(dual_costs), **run.place(self), **run.data(X, y))
        return r

    def generate_columns(self, f, *a, **kw):
        run.ok = True
        r = f()
        r = list(r)
        run.put(op='gen', tok=run.tok(arg(a, kw, 2, 'dual_costs')), par=str(arg(a, kw, 3, 'params')), cols=[run.col(c) for c in r],
                part=self.cge, solved=run.ok, **run.place(self), **run.data(arg(a, kw, 0, 'X'), arg(a, kw, 1, 'y')))
        return r

    def made(f, kind):
        def __init__(self, *a, **kw):
            f(self, *a, **kw)
            par = dict(zip(('leaf', 'nodes', 'splits', 'target'), a), **kw) if kind in ('sat', 'old') else {}
            self.cge = [kind, i(par['leaf'].id) if par else 0, i(par['target']) if kind == 'old' else 0]
        return __init__
    for cls, kind in subs:
        put(cls, 'update_subproblem', outer(cls.update_subproblem, update_subproblem))
        put(cls, 'generate_columns', outer(cls.generate_columns, generate_columns))
        put(cls, '__init__', made(cls.__init__, kind))
    try:
        yield
    finally:
        for cls, name, f in reversed(saved):
            if f is None:
                delattr(cls, name)
            else:
                setattr(cls, name, f)


def finish(run, clf, k, fit, end):
    """Trains; the last event is done or failed."""
    try:
        fit()
    except Exception as e:
        if not in_code(e):
            raise
        run.ev.append({'op': 'failed', 'fitted': bool(getattr(clf, 'is_fitted_', False)), 'what': describe(e)})
        return False

    def shape(v):
        try:
            return [il(r) for r in v]
        except Exception:
            return []
    g = lambda a: getattr(clf, a, None)
    run.ev.append({'op': 'done', 'opt': bool(g('mp_optimal_')), 'tl': bool(g('time_limit_reached_')),
                   'fitted': bool(g('is_fitted_')), 'iter': i(g('iter_')), 'perf': i(g('performed_iter_')),
                   'nimp': i(g('num_improving_iter_')), 'ncol': shape(g('num_col_added_sp_')),
                   'tsp': shape(g('time_spent_sp_')), 'tm': i(g('time_spent_master_')),
                   'tadd': i(g('time_add_col_')), 'tip': i(g('time_spent_master_ip_')), 'tel': i(g('time_elapsed_')), 'end': end(clf)})
    return True


def levels(want):
    return [len(l) for l in want]


def run_rule(s):
    CLOCK[0] = 1000000.0
    X = drv_bdr.arr(s['X'], s['typ'])
    run = Run(s['seed'], True, np.array(s['X']), s['y'])
    rng = random.Random(s['seed'])
    hasm = True
    heur = [[['heur', 0, 0]]] if s['heur'] else []
    want = heur + [[['exact', 0, 0]]]
    par = [['h']] if s['heur'] else []
    par = par + [['x']] if rng.random() < .5 else [[''] for _ in want]
    k = {'part': 'bdr', 'want': want, 'p': drv_bdr.consts(s),
         'loop': {'levels': levels(want), 'maxit': s['maxit'], 'tlim': -1, 'isip': True, 'rmppar': rng.choice(['', 'r']), 'ippar': rng.choice(['', 'm']),
                  'params': par}}
    last = {}
    run.built = lambda mp: {'m': drv_bdr.model(mp)}
    run.col = lambda c: il(c)
    run.added = lambda mp, c: {'m': drv_bdr.model(mp)}
    run.ip = lambda mp: {'ex': [il(f) for f in mp.explanation], 'm': drv_bdr.model(mp)}

    def solved(mp, du):
        last['d'], last['obj'] = du, mp.solver_.Objective().Value()
        val = {j: mp.solver_.variable(j).solution_value() for j in mp.clause_vars_}
        return {'cc': sc(du[0], S), 'cs': [sc(v, S) for v in du[1]], 'obj': sc(last['obj'], S), 'w': [sc(val[j], S) for j in mp.clause_vars_],
                'xi': [sc(mp.solver_.variable(j).solution_value(), S) for j in mp.xi_vars_], 'm': drv_bdr.model(mp)}
    run.solved = solved

    def end(clf):
        return {'cc': sc(last['d'][0], S), 'cs': [sc(v, S) for v in last['d'][1]], 'obj': sc(last['obj'], S), 'opt': bool(clf.mp_optimal_),
                'nolimit': s['maxit'] < 0, 'ex': [il(c) for c in clf.master_problem.explanation]}
    lab = np.array(s['labels'])
    with wrapped(run, B.BDRMasterProblem, [(B.BDRHeuristic, 'heur'), (B.BDRSubProblem, 'exact')]):
        kw = {'max_iterations': s['maxit'], 'rmp_solver_params': k['loop']['rmppar'], 'master_ip_solver_params': k['loop']['ippar'], 'subproblem_params': par}
        run.clf = clf = drv_bdr.classifier(s, **kw)
        if finish(run, clf, k, lambda: clf.fit(X, lab[np.array(s['y'])]), end):
            rows = [list(r) for r in s['X']] + [[rng.randint(0, 1) for _ in range(s['nf'])] for _ in range(10)]
            out = np.asarray(clf.predict(drv_bdr.arr(rows, 'float')))
            run.ev.append({'op': 'predict', 'rows': rows, 'out': d.codes(out, lab)})
    return {'k': k, 'ev': run.ev}


def run_tree(s):
    CLOCK[0] = 1000000.0
    rng = random.Random(s['seed'])
    k = dict(s['k'])
    X, y, splits, nodes, leaves = d.objects(k)
    lab = d.labels(s)[:k['K']]
    dr = None
    if s['prep'] == 'given':
        d.weigh(rng, k)
        dr = d.data_rows(k)
    elif s['prep'] != 'none':
        import examples.dtree_experiment as ex
        dr = ex.preprocess(nodes, splits, X, y, k['D'], aggressive=s['prep'] == 'agg')
        k['w'] = [i(q.weight) for q in dr]
        k['rm'] = [bool(q.removed_from_master) for q in dr]
        k['rs'] = [bool(q.removed_from_sp) for q in dr]
    ini = []
    for _ in range(s['init']):
        ini += [p for p in d.tree(rng, k) if d.ptuple(p) not in map(d.ptuple, ini)]
    nl = 2 ** k['D']
    want = [[['heur', 0, 0]], [['old', l, t] for l in range(nl) for t in range(k['K'])] if s['old'] else [['sat', l, 0] for l in range(nl)]]
    sppar = rng.choice(['', 'x'])
    loop = {'levels': levels(want), 'maxit': s['maxit'], 'tlim': s['tlim'], 'isip': True, 'rmppar': rng.choice(['', 'r']), 'ippar': rng.choice(['', 'm']),
            'params': [[''], [sppar] * len(want[1])]}
    run = Run(s['seed'], s['slow'] or s['tlim'] > 0, X, s['k']['y'])
    last = {'cuts': [], 'ok': True}
    seen = []
    often = .1

    def built(mp):
        if dr is None:
            k['rm'] = [bool(q.removed_from_master) for q in mp.data_rows]
        run.rec = d.MRec(mp, k, seen)
        run.rec.build(ini)
        e = seen.pop()
        return {'init': e['init'], 'm': e['m']}

    def solved(mp, du):
        last['d'], last['obj'] = du, mp.solver_.Objective().Value()
        last['cuts'] += [[bool(v) for v in c] for c in du[4]]
        run.rec.solved(du, rng.random() < often)
        e = seen.pop()
        while seen:                         # the solves inside of the call come first
            run.ev.append(seen.pop(0))
        return {'solved': e}

    def added(mp, path):
        run.rec.added(d.jpath(path), True, path.id, rng.random() < often / 2)
        e = seen.pop()
        return {'id': e['id'], 'hasm': e['hasm'], 'm': e['m']}

    def ip(mp):
        run.rec.ip(True)
        e = seen.pop()
        return {x: e[x] for x in ('sel', 'hasm', 'm')}
    run.built, run.solved, run.added, run.ip, run.col = built, solved, added, ip, d.jpath

    def result(cb, r):
        ok = r == d.cp_model.OPTIMAL
        run.ok = run.ok and ok
        last['ok'] = last['ok'] and ok

    def end(clf):
        return {'init': ini, 'sel': [d.jpath(p) for p in clf.master_problem.selected_paths], 'opt': bool(clf.mp_optimal_) and last['ok'],
                'rep': bool(clf.mp_optimal_), 'nolimit': s['maxit'] < 0 and s['tlim'] < 0, 'd': d.dense(k, last['d']), 'cuts': last['cuts'],
                'obj': sc(last['obj'], S), 'acc': s['prep'] != 'given'}
    random.seed(s['seed'])
    kc = {'part': 'tree', 'want': want, 'loop': loop}
    with wrapped(run, T.DTreeMasterProblem, [(T.DTreeSubProblemHeuristic, 'heur'), (T.DTreeSubProblemSat, 'sat'), (T.DTreeSubProblemOld, 'old')]):
        run.clf = clf = T.DTreeClassifier([d.rpath(p) for p in ini], leaves, nodes, splits, tree_depth=k['D'], targets=d.some_order(k['K'], s['seed']),
                                          max_iterations=s['maxit'], time_limit=s['tlim'], data_rows=dr, use_old_sp=s['old'],
                                          num_master_cuts_round=k['rounds'], master_beta_constraints_as_cuts=k['beta'], master_generate_cuts=k['gen'],
                                          rmp_solver_params=loop['rmppar'], master_ip_solver_params=loop['ippar'], subproblem_params=sppar)
        with d.reporting(random.Random(s['seed']), rng.choice([0, .3]), 6, result), \
                d.watch(lambda sv, st: getattr(run, 'rec', None) and sv is run.mp.solver_ and run.rec.lp(sv, st)):
            good = finish(run, clf, kc, lambda: clf.fit(X, lab[y]), end)
        if good:
            rows = d.grid(rng, k, 20)
            run.ev.append({'op': 'predict', 'rows': rows, 'out': d.codes(clf.predict(d.farr(rows, k)), lab)})
            if s['prep'] != 'given':
                e = run.ev[-2]['end']
                run.ev.append({'op': 'accuracy', 'sel': e['sel'], 'out': d.codes(clf.predict(X), lab)})
    kc['p'] = d.consts(k)
    return {'k': kc, 'ev': run.ev}


def run(s):
    with quiet():
        return run_rule(s) if s['kind'] == 'rule' else run_tree(s)
