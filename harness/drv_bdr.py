"""Boolean decision rules: master histories, pricing calls, predictions and complete fits (C09 - C15)."""
import itertools
import random
import common
from common import sc, i, il, quiet, in_code, describe, BAD

WORKERS = 7
TIMEOUT = 120
S = 100000


def init():
    global M, B, np, pb, sp
    import numpy as np
    import scipy.sparse as sp
    import col_gen_estimator as M
    import col_gen_estimator._bdr_classifier as B
    from ortools.linear_solver import linear_solver_pb2 as pb
    common.repo_loaded(B)


PS = [(1, 1), (1, 1), (1, 2), (2, 1), (3, 1), (3, 10), (10, 1), (1, 10), (7, 3)]
LABELS = [[0, 1], [0, 1], [-3, 5], [1, 2], ['a', 'b'], ['no', 'yes'], [1.0, 3.0], [False, True], [10, 200], [-1, 0]]


def data(rng, big=False, size=''):
    nf = rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
    n = rng.choice([2, 3, 4, 5, 6, 8, 10, 14])
    if big:
        nf, n = rng.choice([6, 7]), rng.choice([20, 35])
    d = rng.choice([.2, .5, .5, .8])
    if size == 'wide':
        nf, n, d = rng.choice([12, 33, 34, 40, 66, 70]), rng.choice([4, 6, 8]), rng.choice([.5, .8, .9])
    if size == 'long':
        nf, n = rng.choice([2, 3, 4]), rng.choice([70, 110, 140])
    X = [[int(rng.random() < d) for _ in range(nf)] for _ in range(n)]
    if rng.random() < .3:               # a hidden rule
        f = rng.sample(range(nf), min(nf, 2))
        y = [int(all(r[j] for j in f)) for r in X]
    else:
        y = [int(rng.random() < rng.choice([.3, .5, .7])) for _ in X]
    return nf, X, y


def clauses(rng, nf, n):
    if nf > 10:
        r = []
        for _ in range(n):
            c = rng.sample(range(nf), rng.choice([1, 1, 2, 2, 3, 6]))
            if rng.random() < .5:           # the last features
                c[0] = rng.choice([f for f in range(max(0, nf - 8), nf) if f not in c[1:]])
            if sorted(c) not in map(sorted, r):
                r.append(c)
        return r
    al = [list(c) for m in range(0, nf + 1) for c in itertools.combinations(range(nf), m)]
    rng.shuffle(al)
    r = al[:n]
    for c in r:
        rng.shuffle(c)
    return r


def duals(rng, n, q):
    """dual values as multiples of 1/q"""
    st = rng.choice(['mix', 'mix', 'sparse', 'small', 'big', 'tiny'])
    hi = {'mix': q, 'sparse': 2 * q, 'small': max(1, q // 8), 'big': 12 * q, 'tiny': 1}[st]
    cc = rng.choice([0, 0, rng.randint(0, q), rng.randint(0, max(1, q // 8)), rng.randint(0, 3 * q), 1])
    cs = [rng.randint(0, hi) if rng.random() < (.4 if st == 'sparse' else .9) else 0 for _ in range(n)]
    return cc, cs


def longdata(rng):
    """Data whose good clauses are long: every feature of the clause keeps out one negative row."""
    nf = rng.randint(5, 8)
    m = rng.randint(5, nf)
    X = [[1] * nf for _ in range(rng.randint(1, 2))] + [[int(g != f) for g in range(nf)] for f in rng.sample(range(nf), m)]
    y = [1] * (len(X) - m) + [0] * m
    q = list(range(len(X)))
    rng.shuffle(q)
    return nf, [X[j] for j in q], [y[j] for j in q]


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 101 + int(prop[1:]))
    many = 1 if tier == 'quick' else 12
    if prop == 'C09':
        for n in range(0, 2048, 64):
            yield {'kind': 'number', 'ns': list(range(n, n + 64)) + [rng.randrange(1 << rng.randint(12, 31)) for _ in range(8)] + [1 << rng.randint(11, 30)]}
    if prop in ('C09', 'C10', 'C13'):
        for n in range(320 * many):
            big = n % 16 == 5
            nf, X, y = data(rng, big, {11: 'wide', 27: 'long'}.get(n % 40, ''))
            if rng.random() < .9 and len(set(y)) == 1:
                y[0] = 1 - y[0]
            ncl = rng.choice([1, 2, 4, 6, 8]) if not big else 24
            h = []
            for c in clauses(rng, nf, ncl):
                h.append(['add', c])
                r = rng.random()
                if r < (.5 if prop != 'C10' else .9):
                    h.append(['solve'])
                if rng.random() < (.2 if prop != 'C13' else .6):
                    h.append(['ip'])
                if rng.random() < .1:
                    h.append(['rebuild'])
                if rng.random() < .15:
                    h.append(['dup'])
                if rng.random() < .08:
                    h.append(['add', []])
            h = [['solve']] * rng.randint(0, 2) + [['ip']] * (rng.random() < .3) + h + [['solve'], ['ip'], ['solve'], ['ip']]
            yield {'kind': 'hist', 'nf': nf, 'X': X, 'y': y, 'C': rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 15]), 'p': rng.choice(PS),
                   'h': h, 'typ': rng.choice(['int', 'float', 'float', 'bool']), 'seed': rng.randrange(1 << 30)}
        if prop == 'C13':                   # small bounds, many clauses: LP and integer optimum differ
            for n in range(400 * many):
                nf, m, d = rng.choice([3, 4, 5, 6]), rng.choice([8, 10, 12, 16]), rng.choice([.5, .6, .7])
                X = [[int(rng.random() < d) for _ in range(nf)] for _ in range(m)]
                y = [int(rng.random() < d) for _ in range(m)]
                al = [c for c in clauses(rng, nf, 99) if c]
                yield {'kind': 'hist', 'nf': nf, 'X': X, 'y': y, 'C': rng.choice([2, 2, 2, 3, 4, 6]), 'p': rng.choice([(1, 1), (1, 1), (1, 2), (1, 2), (2, 1)]),
                       'h': [['add', c] for c in al[:rng.choice([5, 6, 8, 9])]] + [['solve'], ['ip']], 'typ': 'float', 'seed': rng.randrange(1 << 30)}
        if scripts:
            rng.shuffle(scripts)
            for s in scripts[:1200 * many]:
                yield {'kind': 'tlc', 'nf': s['nf'], 'X': s['X'], 'y': s['y'], 'C': s['C'], 'p': (s['pn'], s['pd']), 'h': s['h'], 'typ': 'float', 'seed': 1}
    if prop in ('C11', 'C12'):
        for n in range((260 if prop == 'C11' else 500) * many):
            big = n % 13 == 5
            wide = n % 26 == 12
            nf, X, y = data(rng, big, 'wide' if wide else 'long' if n % 52 == 23 else '')
            q = rng.choice([16, 16, 4, 1024])
            if n % 13 == 9:
                nf, X, y = longdata(rng)
            calls = [[rng.choice([0, 1, q // 8]), [rng.randint(q // 2, 4 * q) for _ in range(sum(y))]]
                     for _ in range(rng.choice([1, 2, 4]))] if n % 13 == 9 else [duals(rng, sum(y), q) for _ in range(rng.choice([1, 2, 4, 8]))]
            if rng.random() < .3 and len(calls) > 1:
                calls.append(calls[0])
            if wide:
                calls = calls[:2]
            yield {'kind': 'price' if prop == 'C11' else 'heur', 'nf': nf, 'X': X, 'y': y, 'q': q, 'calls': calls,
                   'D': rng.choice([1, 1, 2] if wide else [0, 1, 1, 2, 2, 3, 4, 7, 10] if n % 13 != 9 else [4, 5, 6, 7, 9]), 'solver': rng.choice(['cbc', 'cbc', 'cbc', 'scip']),
                   'typ': rng.choice(['int', 'float', 'float', 'bool']), 'lists': rng.random() < .5}
    if prop == 'C14':
        for n in range(250 * many):
            nf, X, y = data(rng, size={11: 'wide', 17: 'long'}.get(n % 20, ''))
            if len(set(y)) == 1:
                y[0] = 1 - y[0]
            yield {'kind': 'predict', 'nf': nf, 'X': X, 'y': y, 'C': rng.choice([1, 2, 4, 6, 8]), 'p': rng.choice(PS), 'labels': LABELS[n % len(LABELS)],
                   'ex': [clauses(rng, nf, rng.choice([0, 1, 1, 2, 3, 4])) for _ in range(4)], 'heur': rng.random() < .5, 'seed': rng.randrange(1 << 30)}
    if prop == 'C15':
        for n in range(220 * many):
            size = {11: 'wide', 17: 'long'}.get(n % 20, '')
            nf, X, y = longdata(rng) if n % 20 == 13 else data(rng, n % 20 == 7, size)
            if len(set(y)) == 1:
                y[0] = 1 - y[0]
            yield {'kind': 'fit', 'nf': nf, 'X': X, 'y': y, 'C': rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 10, 15] if size != 'wide' else [1, 2, 2]), 'p': rng.choice(PS), 'heur': rng.random() < .5,
                   'labels': rng.choice(LABELS), 'typ': rng.choice(['int', 'float', 'float', 'bool'])}


def arr(X, typ):
    return np.array(X, dtype={'int': int, 'float': float, 'bool': bool}[typ])


def consts(s):
    return {'X': s['X'], 'y': s['y'], 'nf': s['nf'], 'C': s.get('C', 0), 'pn': s.get('p', (1, 1))[0], 'pd': s.get('p', (1, 1))[1],
            'S': S, 'tol': 60 + 6 * len(s['X']), 'maxip': 10}


def lim(x, sign=1):
    v = sc(x, 1)
    return v if v != BAD else (BAD if float(x) > 0 else -BAD)


def model(mp):
    """The exported master model, read through the documented indices."""
    pr = pb.MPModelProto()
    mp.solver_.ExportModelToProto(pr)
    rows = [dict(zip(c.var_index, c.coefficient)) for c in pr.constraint]
    sat, cx = list(mp.clause_satisfaction_), mp.clause_complexity_

    def col(j):
        v = pr.variable[j]
        return {'obj': sc(v.objective_coefficient, S), 'cov': [i(rows[r].get(j, 0)) for r in sat], 'cx': i(rows[cx].get(j, 0)),
                'lb': lim(v.lower_bound), 'ub': lim(v.upper_bound), 'int': bool(v.is_integer)}
    cl = []
    for j in mp.clause_vars_:
        c = col(j)
        c['f'] = il(mp.clause_dict_[j])
        cl.append(c)
    return {'xi': [col(j) for j in mp.xi_vars_], 'cl': cl, 'nv': len(pr.variable), 'nc': len(pr.constraint),
            'min': not pr.maximize, 'off': sc(pr.objective_offset, S),
            'sat': [{'lb': lim(pr.constraint[r].lower_bound), 'ub': lim(pr.constraint[r].upper_bound)} for r in sat],
            'cxub': lim(pr.constraint[cx].upper_bound), 'cxlb': lim(pr.constraint[cx].lower_bound)}


def run_hist(s):
    X, y = arr(s['X'], s['typ']), np.array(s['y'])
    X0, y0 = X.copy(), y.copy()
    p = s['p'][0] / s['p'][1]
    mp = B.BDRMasterProblem(s['C'], p if s['p'][1] != 1 else s['p'][0], 'glop')
    ev, cl = [], [[]]
    mp.generate_mp(X, y)
    ev.append({'op': 'build', 'm': model(mp)})
    rng = random.Random(s['seed'])
    for h in s['h']:
        if h[0] in ('add', 'dup'):
            f = list(h[1]) if h[0] == 'add' else list(rng.choice(cl))
            ret, err = False, False
            try:
                ret = bool(mp.add_column(list(f)))
            except AssertionError:
                err = True
            if f and sorted(f) not in [sorted(c) for c in cl]:
                cl.append(f)
            ev.append({'op': 'add', 'f': f, 'ret': ret, 'err': err, 'm': model(mp)})
        elif h[0] == 'rebuild':
            mp.generate_mp(X, y)
            ev.append({'op': 'rebuild', 'm': model(mp)})
        elif h[0] == 'solve':
            d = mp.solve_rmp()
            val = {tuple(sorted(f)): mp.solver_.variable(j).solution_value() for j, f in mp.clause_dict_.items()}
            ev.append({'op': 'solve', 'cc': sc(d[0], S), 'cs': [sc(v, S) for v in d[1]], 'obj': sc(mp.solver_.Objective().Value(), S),
                       'w': [sc(val.get(tuple(sorted(f)), 'x'), S) for f in cl],
                       'xi': [sc(mp.solver_.variable(j).solution_value(), S) for j in mp.xi_vars_], 'm': model(mp)})
        elif h[0] == 'ip':
            mp.solve_ip()
            ev.append({'op': 'ip', 'ex': [il(f) for f in mp.explanation], 'm': model(mp)})
    return {'k': consts(s), 'ev': ev}


def run_price(s):
    X, y = arr(s['X'], s['typ']), np.array(s['y'])
    sub = B.BDRSubProblem(s['D'], s['solver']) if s['kind'] == 'price' else B.BDRHeuristic(s['D'])
    ev = []
    q = s['q']
    for cc, cs in s['calls']:
        d = (cc / q, [v / q for v in cs])
        if not s['lists']:
            d = (np.float64(d[0]), d[1])
        sub.update_subproblem(X, y, d)
        cols = sub.generate_columns(X, y, d)
        e = {'op': s['kind'], 'q': q, 'cc': cc, 'cs': cs, 'cols': [il(c) for c in cols]}
        e['D' if s['kind'] == 'price' else 'K'] = s['D']
        ev.append(e)
    return {'k': consts(s), 'ev': ev}


def classifier(s, **kw):
    cls = M.BooleanDecisionRuleClassifierWithHeuristic if s['heur'] else M.BooleanDecisionRuleClassifier
    p = s['p'][0] / s['p'][1]
    return cls(C=s['C'], p=p if s['p'][1] != 1 else s['p'][0], **kw)


def run_predict(s):
    rng = random.Random(s['seed'])
    X = arr(s['X'], 'float')
    lab = np.array(s['labels'])
    yl = lab[np.array(s['y'])]
    clf = classifier(s, max_iterations=rng.choice([-1, 2]))
    clf.fit(X, yl)
    ev = []
    rows = [list(r) for r in itertools.product([0, 1], repeat=s['nf'])] if s['nf'] <= 10 else \
        [[int(rng.random() < .8) for _ in range(s['nf'])] for _ in range(20)]
    rng.shuffle(rows)
    if len(X) > 50:                     # a large batch
        rows = [rng.choice(rows) for _ in range(rng.choice([70, 140, 300]))]
    reps = ['list', 'int', 'float', 'bool', 'csr', 'csc', 'fortran', 'float32', 'coo', 'int8', 'lil', 'single', 'spint', 'explicit0', 'strided', 'readonly']
    exs = [None] + s['ex'] + [[], [[]]]
    for ex in exs:
        if ex is not None:
            clf.master_problem.explanation = [list(c) for c in ex]
        e = [il(c) for c in clf.master_problem.explanation]
        for rep in rng.sample(reps, 4):
            R = rows
            if rep == 'single':
                R = [rng.choice(rows)]
            a = np.array(R)
            if rep in ('list', 'single'):
                Z = [list(r) for r in R]
            elif rep in ('int', 'float', 'bool'):
                Z = arr(R, rep)
            elif rep == 'float32':
                Z = a.astype(np.float32)
            elif rep == 'int8':
                Z = a.astype(np.int8)
            elif rep == 'fortran':
                Z = np.asfortranarray(a.astype(float))
            elif rep == 'strided':
                Z = np.repeat(a, 2, axis=0)[::2]
            elif rep == 'readonly':
                Z = a.astype(float)
                Z.setflags(write=False)
            elif rep == 'spint':
                Z = sp.csr_matrix(a)
            elif rep == 'explicit0':        # zeros stored explicitly
                n = a.size
                Z = sp.csr_matrix((a.ravel().astype(float), (np.repeat(np.arange(a.shape[0]), a.shape[1]), np.tile(np.arange(a.shape[1]), a.shape[0]))), shape=a.shape)
            else:
                Z = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix, 'lil': sp.lil_matrix}[rep](a.astype(float))
            out = clf.predict(Z)
            code = [next((j for j in (0, 1) if v == lab[j] and type(v) is type(lab[j])), BAD) for v in np.asarray(out)]
            ev.append({'op': 'predict', 'ex': e, 'rows': R, 'out': code, 'rep': rep})
    return {'k': consts(s), 'ev': ev}


def run_fit(s):
    X = arr(s['X'], s['typ'])
    yl = np.array(s['labels'])[np.array(s['y'])]
    last = {}
    gen = []
    osolve, oadd = B.BDRMasterProblem.solve_rmp, B.BDRMasterProblem.add_column

    def solve_rmp(self, *a, **kw):
        d = osolve(self, *a, **kw)
        last['d'] = d
        last['obj'] = self.solver_.Objective().Value()
        return d

    def add_column(self, clause):
        if len(clause):
            gen.append(il(clause))
        return oadd(self, clause)
    B.BDRMasterProblem.solve_rmp, B.BDRMasterProblem.add_column = solve_rmp, add_column
    try:
        clf = classifier(s)
        clf.fit(X, yl)
    finally:
        B.BDRMasterProblem.solve_rmp, B.BDRMasterProblem.add_column = osolve, oadd
    e = {'op': 'fitted', 'gen': gen, 'cc': sc(last['d'][0], S), 'cs': [sc(v, S) for v in last['d'][1]], 'obj': sc(last['obj'], S),
         'opt': bool(clf.mp_optimal_), 'nolimit': True, 'ex': [il(c) for c in clf.master_problem.explanation]}
    return {'k': consts(s), 'ev': [e]}


def run_number(s):
    mp = B.BDRMasterProblem()
    k = {'X': [[0]], 'y': [0], 'nf': 1, 'C': 0, 'pn': 1, 'pd': 1, 'S': S, 'tol': 0, 'maxip': 0}
    return {'k': k, 'ev': [{'op': 'number', 'n': n, 'f': il(mp.generate_lexicographic_clause(n))} for n in s['ns']]}


def run(s):
    with quiet():
        return {'number': run_number, 'hist': run_hist, 'tlc': run_hist, 'price': run_price, 'heur': run_price, 'predict': run_predict, 'fit': run_fit}[s['kind']](s)
