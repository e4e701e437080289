#!/usr/bin/env python3
"""check.py PROP [--replay FILE]: decides property PROP on the code in /repo.

1. TLC checks the specification exhaustively on the small configurations of the property,
2. the driver executes the real code (scripts enumerated by TLC and random ones) and records traces,
3. TLC checks every trace against the specification.

Exit 0: everything accepted.  Exit 1 and a VIOLATION line: the code left the specification.  Exit 2: no answer."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS, ASSUMPTIONS          # noqa

TLC = ['java', '-XX:+UseParallelGC', '-Xss64m', '-cp',
       '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC', '-noGenerateSpecTE']
PY = '/opt/venv/bin/python'


class NoAnswer(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=cwd,
                         start_new_session=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoAnswer('timeout: %s' % ' '.join(cmd[-6:]))
    return p.returncode, out


def tlc(module, cfg, tmp, timeout, env=None, workers=8, heap='6g'):
    md = tempfile.mkdtemp(dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = TLC[:1] + ['-Xmx' + heap] + TLC[1:] + ['-metadir', md, '-workers', str(workers), '-config', cfg, module + '.tla']
    rc, out = sh(cmd, timeout, e, os.path.join(HERE, 'spec'))
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist


def lines(out, tag):
    """The JSON values that the specification printed after tag."""
    r = []
    for l in out.splitlines():
        if l.startswith('"%s ' % tag):
            r.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return r


def validate(tmp, module, traces, timeout, stats):
    """Runs TLC over traces; returns [(trace, n, clauses)]."""
    # balanced chunks; one JVM per chunk
    if not traces:
        return []
    f = os.path.join(tmp, 'tr-%s.json' % module)
    json.dump({'traces': [{'id': t['id'], 'kind': t['kind'], 'k': t['k'], 'ev': t['ev']} for t in traces]}, open(f, 'w'))
    rc, out, gen, dist = tlc(module, module + '.cfg', tmp, timeout, {'TRACE_FILE': f}, heap='14g')
    want = sum(len(t['ev']) + 1 for t in traces)
    byid = {t['id']: t for t in traces}
    bad = [(byid[v['id']], v['n'], list(v['bad'])) for v in lines(out, 'VIOL')]
    stats['states'] += dist
    stats['transitions'] += dist - len(traces)
    if rc == 0 and dist == want and 'No error has been found' in out:
        stats['traces'] += len(traces)
        return bad
    # an evaluation error: the trace is outside of what the specification can even read
    m = re.search(r'Evaluating|evaluat|The error occurred|exception|Attempted', out)
    if m and ('tid = ' in out):
        t = int(re.findall(r'tid = (\d+)', out)[-1])
        n = int((re.findall(r'\bn = (\d+)', out) or ['0'])[-1])
        if 1 <= t <= len(traces):
            err = re.findall(r'Error: (.*)', out)
            sys.stderr.write('\n'.join(out.splitlines()[-40:]) + '\n')
            return bad + [(traces[t - 1], n + 1, ['spec_eval_error: ' + ' '.join(err)[:300]])]
    sys.stderr.write('\n'.join(out.splitlines()[-60:]) + '\n')
    raise NoAnswer('TLC failed on %s: rc=%d, %d of %d states' % (module, rc, dist, want))


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    chk = CHECKS[prop]
    stats = {'states': 0, 'transitions': 0, 'traces': 0}
    cover = {'model': [], 'drivers': []}
    samples = []
    viol = []                      # (kind, id, detail, scenario)
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replays'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='cge-%s-' % prop)
    known = []
    try:
        kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
        known = [x for x in kf.get('known', []) if x['property'] == prop]
        replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
        # 1. the specification itself
        for module, cfg in ([] if replay else chk.get('mc', {}).get(tier, chk.get('mc', {}).get('quick', []))):
            rc, out, gen, dist = tlc(module, cfg, tmp, 800 if tier == 'quick' else 5000)
            if rc != 0 or 'No error has been found' not in out:
                sys.stderr.write('\n'.join(out.splitlines()[-60:]) + '\n')
                raise NoAnswer('model checking of %s failed' % cfg)
            cover['model'].append({'config': cfg, 'states': dist, 'transitions': gen})
            stats['states'] += dist
            stats['transitions'] += gen
        for d in chk['drivers']:
            mod, tmod = d['driver'], d['trace']
            scr = None
            if 'gen' in d and not replay:
                g = d['gen'].get(tier, d['gen']['quick'])
                rc, out, gen, dist = tlc(g[0], g[1], tmp, 800)
                if rc != 0:
                    sys.stderr.write('\n'.join(out.splitlines()[-60:]) + '\n')
                    raise NoAnswer('generation with %s failed' % g[1])
                scripts = lines(out, 'SCRIPT')
                if not scripts:
                    raise NoAnswer('no scripts from %s' % g[1])
                scripts = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in scripts})]
                cover['model'].append({'config': g[1], 'states': dist, 'transitions': gen, 'behaviours_generated': len(scripts)})
                stats['states'] += dist
                stats['transitions'] += gen
                scr = os.path.join(tmp, 'scripts.json')
                json.dump(scripts, open(scr, 'w'))
            if replay:
                r = json.load(open(replay))
                if r.get('driver') != mod:
                    continue
                scr = os.path.join(tmp, 'replay.json')
                json.dump(r['scenario'], open(scr, 'w'))
            out_f = os.path.join(tmp, mod + '.json')
            budget = d.get('budget', {}).get(tier, 40 if tier == 'quick' else 600)
            rc, out = sh([PY, '-W', 'ignore', os.path.join(HERE, 'harness', 'drive.py'), mod, prop, tier, str(seed), str(budget), out_f]
                         + ([scr] if scr else []) + (['--replay'] if replay else []), budget + 400,
                         dict(os.environ, PYTHONPATH='', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1'))
            if rc != 0 or not os.path.exists(out_f):
                # the package does not even import, or the driver is broken
                sys.stderr.write(out[-4000:] + '\n')
                raise NoAnswer('driver %s failed' % mod)
            res = json.load(open(out_f))
            if res['errors']:
                sys.stderr.write(json.dumps(res['errors'][0])[:3000] + '\n')
                raise NoAnswer('driver %s: %d errors' % (mod, len(res['errors'])))
            scen = {t['id']: s for t, s in zip(res['traces'], res['scen'])}
            for fl in res['failed']:
                viol.append((mod, fl['id'], {'status': fl['status'], 'what': fl['what'], 'clauses': [prop + '.' + fl['status']]}, fl['scen'], None))
            bad = validate(tmp, tmod, res['traces'], 850 if tier == 'quick' else 6000, stats)
            other = set()
            for t, n, cl in bad:
                mine = [c for c in cl if d.get('all') or c.startswith(prop + '.') or c.startswith('spec_eval_error')]
                other |= set(cl) - set(mine)
                if mine:
                    viol.append((mod, t['id'], {'event': n, 'clauses': mine, 'value': t['ev'][n - 1] if n <= len(t['ev']) else None}, scen[t['id']], t))
            kinds, ops = {}, {}
            for t in res['traces']:
                kinds[t['kind']] = kinds.get(t['kind'], 0) + 1
                for e in t['ev']:
                    ops[e['op']] = ops.get(e['op'], 0) + 1
            cover['drivers'].append({'driver': mod, 'spec': tmod, 'traces': len(res['traces']), 'kinds': kinds, 'events': ops,
                                     'clauses_of_other_properties_broken': sorted(other)})
            for t in res['traces'][:2]:
                samples.append(json.dumps({'driver': mod, 'k': t['k'], 'ev': t['ev'][:3]})[:1500])
    except NoAnswer as e:
        print('NO ANSWER property=%s %s' % (prop, e))
        shutil.rmtree(tmp, ignore_errors=True)
        return 2
    shutil.rmtree(tmp, ignore_errors=True)
    news, kn = [], {}
    for v in viol:
        # known only if every clause that this event breaks belongs to a listed finding
        k = [[x for x in known if x['match'] == c and x.get('scenario', {}).items() <= v[3].items()] for c in v[2].get('clauses', [])]
        if k and all(k):
            for q in k:
                kn[json.dumps(q[0])] = q[0]
        else:
            news.append(v)
    for k in kn.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
           'coverage': {'states': stats['states'], 'transitions': stats['transitions'],
                        'traces_validated_against_impl': stats['traces'], 'samples': samples[:4],
                        'details': cover},
           'assumptions': ASSUMPTIONS + chk.get('assumptions', []),
           'wall_s': round(time.time() - t0, 1), 'violations': len(news)}
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    for n, (mod, tid, det, s, t) in enumerate(news[:5]):
        rp = os.path.join(ev_dir, 'replays', '%s-%s-%s.json' % (prop, mod, tid))
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'driver': mod, 'id': tid, 'detail': det, 'scenario': s,
                       'trace': t and {'k': t['k'], 'ev': t['ev'][:det.get('event', 0)]}}, f)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, HERE)))
        print('  %s %s: %s' % (mod, tid, json.dumps(det)[:600]))
    if not news and stats['traces'] == 0:
        print('NO ANSWER property=%s nothing was validated' % prop)
        return 2
    print('%s %s: %d states, %d transitions, %d traces validated, %d violations, %.1f s' %
          (prop, tier, stats['states'], stats['transitions'], stats['traces'], len(news), time.time() - t0))
    return 1 if news else 0


sys.exit(main())
