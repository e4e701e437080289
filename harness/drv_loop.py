"""Scripted master problem and subproblems around the real training loop, under a fake clock (C01, C02, C03)."""
import random
import time
import common
from common import i, il, quiet, in_code, describe

WORKERS = 4
TIMEOUT = 60
LAZY = True          # the package is imported in the workers, after the clock was replaced
CLOCK = [1000000.0]
M = None


def init():
    """Replaces the clocks, then imports the package under test."""
    global M, np
    def now():
        return CLOCK[0]
    def now_ns():
        return int(CLOCK[0] * 1e9)
    for f in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        setattr(time, f, now)
        setattr(time, f + '_ns', now_ns)
    import numpy
    np = numpy
    import col_gen_estimator as m
    common.repo_loaded(m)
    M = m


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 7919 + 17)
    n_rand = 260 if tier == 'quick' else 4000
    for n in range(n_rand):
        nl = rng.choice([1, 1, 2, 2, 3, 4, 5])
        levels = [rng.choice([1, 1, 1, 2, 2, 3, 4] + [0]) for _ in range(nl)]
        if not sum(levels) and n % 3:
            levels[0] = 1
        if n % 97 == 50:        # a hierarchy without any level: the first restricted master is final
            levels = []
        succ = rng.choice([0.2, 0.5, 0.8, 0.95])     # how often a subproblem has columns at all
        yield {'kind': 'rand', 'levels': levels, 'seed': rng.randrange(1 << 30), 'succ': succ,
               'acc': rng.choice([0.3, 0.7, 1.0]), 'batch': rng.choice([1, 2, 5] + ([] if n % 10 else [90, 300])),
               'maxit': rng.choice([-1, -1, -7, 1, 2, 3, 10] if n % 10 else [-1, 60, 120]), 'tlim': rng.choice([-1, -1, -3, 5, 15, 41]),
               'maxcols': rng.choice([3, 10, 40, 40, 160]) if n % 10 else 900,
               'isip': rng.random() < .7, 'ipret': rng.random() < .93, 'reset': rng.random() < .15,
               'refit': rng.random() < .2, 'par': rng.random() < .7, 'unit': 8 if n % 3 == 2 else 1, 'frac': rng.choice([0, 0, 3, 5, 7, 15])}
    if scripts:
        rng.shuffle(scripts)
        for s in scripts[:2500 if tier == 'quick' else 40000]:
            yield {'kind': 'tlc', 'script': s}


class Script:
    """The environment: how long everything takes and what the subproblems and the master answer."""

    def __init__(self, s):
        self.s = s
        if s['kind'] == 'tlc':
            self.h = list(s['script']['h'])
        else:
            self.rng = random.Random(s['seed'])
            self.left = s['maxcols']

    def take(self, key, default):
        while self.h:
            r = self.h.pop(0)
            if key in r:
                return r
        return default

    def dur(self):
        if self.s['kind'] == 'tlc':
            return 0
        return self.rng.choice([0, 0, 1, 2, 4]) * 2     # limits are odd: no tie with the time limit

    def master_dur(self):
        return 1 if self.s['kind'] == 'tlc' else self.dur()

    def gen(self):
        """(duration, number of columns)"""
        if self.s['kind'] == 'tlc':
            r = self.take('m', {'d': 0, 'm': 0})
            return r['d'], r['m']
        m = 0
        if self.left > 0 and self.rng.random() < self.s['succ']:
            m = min(self.left, self.rng.randint(1, self.s['batch']))
            self.left -= m
        return self.dur(), m

    def accept(self):
        if self.s['kind'] == 'tlc':
            return self.take('r', {'r': False})['r']
        return self.rng.random() < self.s['acc']

    def improved(self):
        return True if self.s['kind'] == 'tlc' else self.rng.random() < .6

    def ip(self):
        if self.s['kind'] == 'tlc':
            return self.take('ip', {'ip': True})['ip']
        return self.s['ipret']


def run(s):
    ev = []
    sc = Script(s)
    if s['kind'] == 'tlc':
        k = s['script']['k']
        # odd limits in ticks of the model; the clock only takes even values, except for the master's 1
        k = dict(k)
    else:
        par = s['par']
        k = {'levels': s['levels'], 'maxit': s['maxit'], 'tlim': s['tlim'], 'isip': s['isip'],
             'rmppar': 'rmp' if par else '', 'ippar': 'ip' if par else '',
             'params': [['%d/%d' % (a, b) if par else '' for b in range(m)] for a, m in enumerate(s['levels'])]}
    scale = 2 if s['kind'] == 'tlc' else 1
    # tlc scripts: durations and limits are doubled and the limit is shifted by one: no ties
    tlim = k['tlim'] if k['tlim'] <= 0 or s['kind'] != 'tlc' else 2 * k['tlim'] + 1
    if s['kind'] == 'tlc':
        k['tlim'] = tlim
    # ticks per second; a build of an odd number of ticks: no ties with the limit
    unit = s.get('unit', 1)
    if unit > 1:
        s = dict(s, reset=False)
        k['tlim'] = tlim * unit if tlim > 0 else tlim
        if tlim > 0 and s.get('frac'):      # a limit of a fraction of a second
            k['tlim'], tlim = s['frac'], s['frac'] / unit
    CLOCK[0] = base = 1000000.0
    Xin = np.array([[0, 1, 0.5], [1, 1, 2], [1, 0, 0], [2, 0, 1]], float)
    yin = np.array(['b', 'a', 'b', 'c'])
    yenc = [1, 0, 1, 2]
    state = {'tok': None, 'ntok': 0, 'imp': False, 'base': base}

    def now():
        return round((CLOCK[0] - state['base']) * unit)

    def timed(d, **e):
        e['t'] = now()
        e['d'] = d
        CLOCK[0] += d / unit
        ev.append(e)

    def data(X, y):
        xok = getattr(X, 'shape', None) == Xin.shape and bool((X == Xin).all())
        try:
            yok = [int(v) for v in y] == yenc
        except Exception:
            yok = False
        return xok, yok

    silent = s['kind'] != 'tlc' and s['seed'] % 10 == 3

    class Master(M.BaseMasterProblem):
        def __init__(self):
            self.generated_ = False

        def generate_mp(self, X, y):
            xok, yok = data(X, y)
            timed((1 if unit > 1 else sc.master_dur() * scale) if s['kind'] != 'tlc' else 0, op='build', xok=xok, yok=yok)
            self.generated_ = True

        def add_column(self, column):
            r = sc.accept()
            timed(sc.dur() * scale, op='add', col=i(column), ret=r)
            return r

        def solve_rmp(self, solver_params=''):
            state['ntok'] += 1
            state['imp'] = sc.improved() and not silent
            reset = s['kind'] != 'tlc' and s['reset'] and sc.rng.random() < .3
            timed(sc.master_dur() * scale, op='solve', tok=state['ntok'], imp=state['imp'],
                  reset=bool(reset), par=str(solver_params))
            if reset:
                self.reset_timer_ = True
            return ('duals', state['ntok'])

        def solve_ip(self, solver_params=''):
            r = sc.ip()
            timed(sc.master_dur() * scale, op='ip', ret=r, par=str(solver_params))
            return r

        def rmp_objective_improved(self):
            return state['imp']

    if silent:
        del Master.rmp_objective_improved       # optional: without it no improvement is reported
    colno = [0]

    class Sub(M.BaseSubproblem):
        def __init__(self, l, j):
            self.l, self.j = l, j

        def tok(self, d):
            return d[1] if isinstance(d, tuple) and len(d) == 2 and d[0] == 'duals' else -1

        def update_subproblem(self, X, y, dual_costs):
            xok, yok = data(X, y)
            timed(sc.dur() * scale, op='upd', l=self.l, j=self.j, tok=self.tok(dual_costs), xok=xok, yok=yok)

        def generate_columns(self, X, y, dual_costs, params):
            xok, yok = data(X, y)
            d, m = sc.gen()
            cols = list(range(colno[0] + 1, colno[0] + m + 1))
            colno[0] += m
            timed(d * scale, op='gen', l=self.l, j=self.j, tok=self.tok(dual_costs), xok=xok, yok=yok,
                  par=str(params), cols=cols)
            return list(cols)

    subs = [[Sub(a + 1, b + 1) for b in range(m)] for a, m in enumerate(k['levels'])]
    mp = Master()
    if s['kind'] != 'tlc' and s['reset']:
        mp.reset_timer_ = False
    out = []
    clf = M.ColGenClassifier(max_iterations=k['maxit'], time_limit=tlim, master_problem=mp, subproblems=subs,
                             rmp_is_ip=k['isip'], rmp_solver_params=k['rmppar'],
                             master_ip_solver_params=k['ippar'], subproblem_params=k['params'])
    for rnd in range(2 if s.get('refit') else 1):
        ev.clear()
        state['base'] = CLOCK[0]
        if rnd:
            if s['kind'] != 'tlc':
                sc.left = s['maxcols']
            CLOCK[0] += 1000
            state['base'] = CLOCK[0]
        try:
            with quiet():
                clf.fit(Xin, yin)
        except Exception as e:
            ev.append({'op': 'failed', 'fitted': bool(getattr(clf, 'is_fitted_', False)) and rnd == 0, 'what': describe(e)})
        else:
            def ticks(a):
                v = g(a)
                return i(v * unit) if isinstance(v, (int, float)) else i(v)
            def shape(v, u=1):
                try:
                    return [[i(x * u) for x in r] for r in v]
                except Exception:
                    return []
            g = lambda a: getattr(clf, a, None)
            ev.append({'op': 'done', 'opt': bool(g('mp_optimal_')), 'tl': bool(g('time_limit_reached_')),
                       'fitted': bool(g('is_fitted_')), 'iter': i(g('iter_')), 'perf': i(g('performed_iter_')),
                       'nimp': i(g('num_improving_iter_')), 'ncol': shape(g('num_col_added_sp_')),
                       'tsp': shape(g('time_spent_sp_'), unit), 'tm': ticks('time_spent_master_'),
                       'tadd': ticks('time_add_col_'), 'tip': ticks('time_spent_master_ip_'),
                       'tel': ticks('time_elapsed_')})
        out.append({'k': k, 'ev': [dict(e) for e in ev]})
        if ev[-1]['op'] == 'failed':
            break
    return out
