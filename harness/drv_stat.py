"""Histories of RunningStat (C06)."""
import itertools
import random
import common
from common import sc, i, quiet, describe

WORKERS = 4
TIMEOUT = 60


def init():
    global RunningStat, np
    import numpy as np
    import col_gen_estimator._parameter_tuner as pt
    common.repo_loaded(pt)
    RunningStat = pt.RunningStat


UNITS = [(1, 0), (1.0, 0.0), (0.0625, 0.0), (1.0, 1e8), (1.0, -1e8), (0.5, 123456789.0), (0.1, 0.0), (0.001, 7.0), (1e6, 0.0), (0.25, 1e9), (1e-3, 1e4)]


def scenarios(prop, tier, seed):
    rng = random.Random(seed * 31 + 5)
    # every history up to length 4 over push(-1), push(2), clear, with a read after every step
    for n in range(1, 5 if tier == 'quick' else 7):
        for h in itertools.product(['-1', '2', 'c'], repeat=n):
            yield {'kind': 'all', 'h': [['c'] if x == 'c' else ['p', int(x)] for x in h], 'u': 1.0, 'b': 0.0, 'reads': 'each', 'typ': 'float'}
    for n in range(500 if tier == 'quick' else 8000):
        u, b = UNITS[n % len(UNITS)]
        m = rng.choice([2, 5, 12, 40, 60])
        span = rng.choice([0, 1, 3, 20])
        pc = rng.choice([0, 0.03, 0.15])
        h = []
        for _ in range(m):
            if rng.random() < pc:
                h.append(['c'])
            else:
                h.append(['p', rng.randint(-span, span)])
        yield {'kind': 'rand', 'h': h, 'u': u, 'b': b, 'reads': rng.choice(['each', 'end', 'some']), 'typ': rng.choice(['float', 'float', 'np', 'int']), 'seed': rng.randrange(1 << 30)}


def run(s):
    rng = random.Random(s.get('seed', 0))
    r = RunningStat()
    u, b = s['u'], s['b']
    big = max(abs(b) / abs(u), 50) * 60 * 1e-16 * 40        # error of a stable algorithm, in units
    k = {'tolm': 2 + int(1000 * 60 * big), 'tolv': 2 + int(100 * 3600 * big * 80)}
    ev = []
    seen = 0

    def read():
        n = i(r.num_data_values())
        st = r.standard_deviation()
        me, va = r.mean(), r.variance()
        nn = seen
        ev.append({'op': 'read', 'n': n, 'mean': sc((float(me) - b) / u * nn if nn else me, 1000) if nn or me != 0 else 0,
                   'var': sc(float(va) / (u * u) * (nn * (nn - 1) if nn > 1 else 1), 100),
                   'std': sc(float(st) ** 2 / (u * u) * (nn * (nn - 1) if nn > 1 else 1), 100)})
    read()
    for x in s['h']:
        if x[0] == 'c':
            r.clear()
            seen = 0
            ev.append({'op': 'clear'})
        else:
            v = b + u * x[1]
            if s['typ'] == 'np':
                v = np.float64(v)
            elif s['typ'] == 'int' and v == int(v):
                v = int(v)
            r.push(v)
            seen += 1
            ev.append({'op': 'push', 'v': x[1]})
        if s['reads'] == 'each' or (s['reads'] == 'some' and rng.random() < .3):
            read()
            if rng.random() < .3:
                read()
    read()
    return {'k': k, 'ev': ev}
