"""Sequences of solver calls of a subproblem with a fake and with the real CP-SAT solver (C08)."""
import random
import common
from common import sc, i, quiet, BAD

WORKERS = 4
TIMEOUT = 120


def init():
    global M, np, cp_model, D
    import numpy as np
    import col_gen_estimator as M
    import col_gen_estimator._col_gen_classifier as G
    common.repo_loaded(M)
    from ortools.sat.python import cp_model


STATUS = ['OPTIMAL', 'FEASIBLE', 'INFEASIBLE', 'UNKNOWN', 'MODEL_INVALID']


def scenarios(prop, tier, seed):
    rng = random.Random(seed * 17 + 3)
    for n in range(150 if tier == 'quick' else 3000):
        calls = []
        for _ in range(rng.choice([1, 3, 10, 40, 60])):
            st = rng.choice(STATUS[:2] * 3 + STATUS)
            o, b = rng.randint(-30, 30), rng.randint(-30, 30)
            if rng.random() < .2:
                o = b
            if rng.random() < .2:
                o = 0
            if rng.random() < .1:
                b = 0
            if o == 0 and b == 0:
                b = 3
            lim = rng.choice([None, 1, 30, 5, 10, 50])
            t = rng.randint(0, rng.choice([10, 10, 10, 12]) * (lim or 30))     # solvers may overrun their limit
            calls.append([lim, st, t, o, b])
        yield {'kind': 'fake', 'calls': calls, 'cb': rng.random() < .5, 'unit': rng.choice([1, 1, 1, 64, .25, .001])}
    for n in range(6 if tier == 'quick' else 60):
        yield {'kind': 'real', 'seed': rng.randrange(1 << 30), 'n': 8}


def run(s):
    ev = []
    sub = M.BaseSubproblem()
    keys = sorted(sub.tunable_params_)
    k = {'np': len(keys), 'tick': 10 if s['kind'] == 'fake' else 1000, 'tol': 4 if s['kind'] == 'fake' else 80}
    codes = [cp_model.OPTIMAL, cp_model.FEASIBLE, cp_model.INFEASIBLE, cp_model.UNKNOWN, cp_model.MODEL_INVALID]
    name = {c: {'OPTIMAL': 'optimal', 'FEASIBLE': 'feasible'}.get(n, 'other') for c, n in zip(codes, STATUS)}
    cur = {}

    def vi(key, v):
        vs = sub.tunable_params_[key].values_
        for j, w in enumerate(vs):
            if w == v:
                return j
        return BAD

    def wrap(n, key):
        p = sub.tunable_params_[key]
        get, adj = p.get_best_value, p.adjust_score
        state = {'last': 0}

        def get_best_value():
            v = get()
            state['last'] = vi(key, v)
            ev.append({'op': 'choose', 'p': n + 1, 'v': state['last']})
            return v

        def adjust_score(score, index=None):
            ev.append({'op': 'credit', 'p': n + 1, 'v': state['last'] if index is None else i(index), 'x': sc(-score, 100000)})
            return adj(score, index)
        p.get_best_value, p.adjust_score = get_best_value, adjust_score
    for n, key in enumerate(keys):
        wrap(n, key)

    def params(solver):
        return [vi(key, getattr(solver.parameters, key)) for key in keys]

    class Fake(cp_model.CpSolver):
        def Solve(self, model, solution_callback=None):
            c = cur['call']
            ev.append({'op': 'solve', 'lim': i(self.parameters.max_time_in_seconds), 'val': params(self),
                       'st': name[cur['code']], 't': c[2], 'o': c[3], 'b': c[4]})
            return cur['code']

        def SolveWithSolutionCallback(self, model, callback):
            return self.Solve(model, callback)

        def WallTime(self):
            return cur['call'][2] / 10.0

        UserTime = WallTime

        def ObjectiveValue(self):
            return cur['call'][3] * float(s.get('unit', 1))    # the gap does not depend on the unit of the objective

        def BestObjectiveBound(self):
            return cur['call'][4] * float(s.get('unit', 1))

        def StatusName(self, status=None):
            return STATUS[codes.index(cur['code'] if status is None else status)]

    class Real(cp_model.CpSolver):
        def Solve(self, model, solution_callback=None):
            v, lim = params(self), i(self.parameters.max_time_in_seconds)
            st = super().Solve(model, solution_callback)
            ok = st in (cp_model.OPTIMAL, cp_model.FEASIBLE)
            ev.append({'op': 'solve', 'lim': lim, 'val': v, 'st': name[st], 't': sc(super().WallTime(), 1000),
                       'o': sc(super().ObjectiveValue(), 1) if ok else 0, 'b': sc(super().BestObjectiveBound(), 1) if ok else 0})
            return st

    sub.cp_solver_ = (Fake if s['kind'] == 'fake' else Real)()
    rng = random.Random(s.get('seed', 0))
    calls = s['calls'] if s['kind'] == 'fake' else range(s['n'])
    for c in calls:
        model = cp_model.CpModel()
        xs = [model.NewBoolVar('x%d' % j) for j in range(6)]
        if s['kind'] == 'fake':
            cur['call'], cur['code'] = c, codes[STATUS.index(c[1])]
            lim = c[0]
        else:
            lim = rng.choice([None, 5, 10])
            w = [rng.randint(1, 9) for _ in xs]
            model.Add(sum(a * x for a, x in zip(w, xs)) <= 14)
            if rng.random() < .3:
                model.Add(sum(xs) >= 6)
            model.Maximize(sum(rng.randint(1, 9) * x for x in xs))
        ev.append({'op': 'call', 'lim': 30 if lim is None else lim})
        kw = {} if lim is None else {'time_limit': lim}
        if s.get('cb') or s['kind'] == 'real':
            kw['callback'] = cp_model.CpSolverSolutionCallback()
            kw['callback'].on_solution_callback = lambda: None
        with quiet():
            sub.solve_model(model, **kw)
        ev.append({'op': 'ret', 'nt': len(sub.solve_times_), 'ng': len(sub.gaps_),
                   't': sc(sub.solve_times_[-1], k['tick']) if sub.solve_times_ else BAD,
                   'g': sc(sub.gaps_[-1], 100000) if sub.gaps_ else BAD})
    return {'k': k, 'ev': ev}
