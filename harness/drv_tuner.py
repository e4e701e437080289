"""Histories of a tuned Parameter (C07)."""
import random
import re
import common
from common import sc, i, quiet, BAD

WORKERS = 6
TIMEOUT = 60


def init():
    global Parameter, np
    import numpy as np
    import col_gen_estimator._parameter_tuner as pt
    common.repo_loaded(pt)
    Parameter = pt.Parameter


VALS = [[False, True], [3, 4, 2], ['a', 'b'], [0, 0.5, 1, 1.5, 2], [7], [2, 0], [10, 20, 30, 40, 50, 60, 70], [None, 'x', 1], [True, False, None, 3]]


def scenarios(prop, tier, seed, scripts=None):
    rng = random.Random(seed * 131 + 7)
    for n in range(400 if tier == 'quick' else 6000):
        vals = VALS[n % len(VALS)]
        nv = len(vals)
        c = rng.choice([0, 1, 1, 2, 3])
        u = rng.choice([1.0, 0.1, 0.3, 0.0625])
        x = rng.choice([0, 1, 3, 10, 15, 20, 60, 900])
        hist = []
        sty = rng.choice(['pair', 'mixed', 'named', 'pair'])
        means = [rng.choice([-2, -1, 0, 0, 1]) for _ in vals]
        spread = rng.choice([0, 0, 1, 2])
        for _ in range(rng.choice([10, 30, 60, 90])):
            r = rng.random()
            if sty == 'pair':
                hist.append(['g'])
                hist.append(['o', -1, None])
            elif sty == 'mixed':
                hist.append(['g'] if r < .5 else ['o', -1, None] if r < .75 else ['o', rng.randrange(nv), None])
            else:
                hist.append(['o', rng.randrange(nv), None] if r < .9 else ['g'])
            if rng.random() < .08:
                hist.append(['s'])
            if rng.random() < .04:
                hist.append(['m', 60 * nv])
            if rng.random() < .02:
                hist.append(rng.choice([['a'], ['x', rng.choice([0, 1, 5, 12])], ['f', rng.choice([1, 2, 3, 4, 8])]]))
        hist.append(['s'])
        hist.append(['m', 60 * nv])
        yield {'kind': 'rand', 'vals': vals, 'c': c, 'u': u, 'off': rng.choice([0, 0, 0, -1, 5]), 'flag': rng.choice([1, 1, 2, 4, 3, 6, 8]), 'x': x,
               'h': hist, 'means': means, 'spread': spread, 'nv': nv - (rng.random() < .25 and nv > 1), 'seed': rng.randrange(1 << 30), 'defaults': rng.random() < .2}
    if scripts:
        rng.shuffle(scripts)
        for s in scripts[:2500 if tier == 'quick' else 36000]:
            k = s['k']
            yield {'kind': 'tlc', 'vals': list(range(5, 5 + k['nv'])), 'c': k['c'], 'u': 0.5, 'off': 0, 'flag': k['flag'], 'x': k['explore'],
                   'h': [['g'] if 'get' in e else ['a'] if 'add' in e else ['r', e['again']] if 'again' in e else ['o', e['idx'], e['x']] for e in s['h']] + [['s'], ['m', 60]], 'means': None, 'spread': 0,
                   'seed': 4, 'defaults': False}


def run(s):
    rng = random.Random(s['seed'])
    vals, u = s['vals'], s['u']
    nv = s.get('nv', len(vals))

    def make():
        p = Parameter(s['c'] * u, 'some_name', s['seed'] % 1000)
        for v in vals[:nv]:
            p.add_value(v)
        if not s['defaults']:
            p.set_switch_flag(s['flag'])
            p.set_explore_count(s['x'])
        return p
    p, twin = make(), make()
    other = Parameter(0.3, 'other', 1)           # the twin lives next to a busy neighbour
    for v in vals[::-1]:
        other.add_value(v)
    k = {'nv': nv, 'flag': 1 if s['defaults'] else s['flag'], 'explore': 10 if s['defaults'] else s['x'], 'c': s['c']}
    ev = []
    cnt = [0] * nv
    last = 0
    left = k['explore']

    def disturb():
        random.seed(rng.randrange(1 << 30))
        np.random.seed(rng.randrange(1 << 30))
        other.get_best_value()
        if rng.random() < .5:
            other.adjust_score(rng.random())
        random.random()

    def index(v):
        for j, w in enumerate(vals):
            if w is v or (type(w) is type(v) and w == v):
                return j
        return BAD
    for h in s['h']:
        if h[0] == 'g':
            disturb()
            v = index(p.get_best_value())
            disturb()
            v2 = index(twin.get_best_value())
            last = v
            left -= left > 0
            ev.append({'op': 'get', 'v': v, 'v2': v2})
        elif h[0] == 'o':
            j = h[1] if h[1] < nv else -1
            tgt = last if j < 0 else j
            if tgt == BAD or cnt[tgt] >= 36:
                continue
            x = h[2] if h[2] is not None else max(-3, min(3, s['means'][tgt] + rng.randint(-s['spread'], s['spread'])))
            for q in (p, twin):
                disturb()
                val = s['off'] + u * x
                if j < 0:
                    q.adjust_score(val)
                elif rng.random() < .5:
                    q.adjust_score(val, j)
                else:
                    q.adjust_score(val, index=j)
            cnt[tgt] += 1
            ev.append({'op': 'obs', 'idx': j, 'x': x})
        elif h[0] == 'a':
            if nv == len(vals):
                vals = vals + ['late%d' % nv]
                s['means'] = s['means'] and s['means'] + [0]
            for q in (p, twin):
                q.add_value(vals[nv])
            nv += 1
            cnt.append(0)
            ev.append({'op': 'add'})
        elif h[0] in ('x', 'r'):
            left = h[1] if h[0] == 'x' else 1
            for q in (p, twin):
                q.set_explore_count(left)
            ev.append({'op': 'explore', 'n': left})
            if h[0] == 'r':
                for q in (p, twin):
                    q.set_switch_flag(h[1])
                ev.append({'op': 'flag', 'f': h[1]})
        elif h[0] == 'f':
            for q in (p, twin):
                q.set_switch_flag(h[1])
            ev.append({'op': 'flag', 'f': h[1]})
        elif h[0] == 'm':
            n = 130 * nv
            if 0 < left:
                if nv == 2:
                    continue
                n = min(130 * nv, left)
                if n < 40 * nv:
                    continue
            vs, vs2 = [], []
            for _ in range(n):
                vs.append(index(p.get_best_value()))
            for _ in range(n):
                random.random()
                vs2.append(index(twin.get_best_value()))
            last = vs[-1]
            left -= min(left, n)
            ev.append({'op': 'many', 'n': n, 'vs': sorted(set(vs)), 'pairs': [list(q) for q in sorted(set(zip(vs, vs[1:])))], 'same': vs == vs2, 'last': last})
        else:
            with quiet() as out:
                p.print_stats()
            st = []
            for m in re.finditer(r'count (\S+) Qscore (\S+) Final score (\S+)', out.getvalue()):
                n = i(float(m.group(1)))
                j = len(st)
                nn = cnt[j] if j < nv else 0
                me, fs = float(m.group(2)), float(m.group(3))
                st.append({'n': n, 'mean': sc((me - s['off']) / u, 1000) if nn else sc(me / u, 1000),
                           'score': sc((fs - s['off']) / u, 1000) if nn else 0})
            if len(st) == nv:      # otherwise the printed form changed: the choices decide
                ev.append({'op': 'stats', 'st': st})
    return {'k': k, 'ev': ev}
