"""Shared by all drivers: pool of workers that execute scenarios on the real code, and normalisation helpers."""
import contextlib
import io
import json
import os
import pickle
import select
import signal
import sys
import time as _time
import traceback

REPO = os.environ.get('CGE_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

_mono = _time.monotonic          # the real clock (the loop driver replaces the functions of time)
BAD = 1 << 29                    # stands for "not a number / not an integer / out of range"


def repo_loaded(mod):
    assert os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + os.sep), mod.__file__


def i(x):
    """An integer observed in the code; anything else becomes BAD."""
    try:
        if isinstance(x, (str, bytes)) or x is None:
            return BAD
        v = float(x)
        if v != v or v != int(v) or abs(v) >= BAD:
            return BAD
        return int(v)
    except Exception:
        return BAD


def sc(x, s):
    """round(x*s) as an integer, BAD if that is no 32 bit number."""
    try:
        v = round(float(x) * s)
        return int(v) if abs(v) < BAD else BAD
    except Exception:
        return BAD


def il(xs):
    try:
        return [i(x) for x in xs]
    except Exception:
        return [BAD]


@contextlib.contextmanager
def quiet():
    """The code under test prints a lot."""
    with contextlib.redirect_stdout(io.StringIO()) as b:
        yield b


def describe(e):
    tb = [t for t in traceback.extract_tb(e.__traceback__) if REPO in t.filename]
    where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
    return '%s at %s: %s' % (type(e).__name__, where, str(e)[:160])


def in_code(e):
    """True if the exception came out of the code under test (not out of the harness)."""
    return any(os.path.realpath(t.filename).startswith(os.path.realpath(REPO) + os.sep)
               for t in traceback.extract_tb(e.__traceback__))


def foreign(e):
    """An attribute is missing because the object is not even of a class of the package (None, a number, a list)."""
    return isinstance(e, AttributeError) and type(getattr(e, 'obj', Pool)).__module__ in ('builtins', 'numpy') and \
        not isinstance(e.obj, (type, type(os)))


class Pool:
    """Forked workers; a scenario that hangs or kills its worker becomes a trace with a 'hang' or 'died' event."""

    def __init__(self, fn, n, timeout, init=None):
        self.fn, self.n, self.timeout, self.init = fn, n, timeout, init
        self.w = []

    def spawn(self):
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            for w in self.w:
                os.close(w['r'].fileno())
                os.close(w['w'].fileno())
            os.close(pr)
            os.close(pw)
            r, w = os.fdopen(cr, 'rb'), os.fdopen(cw, 'wb')
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if self.init:
                self.init()
            while True:
                try:
                    job = pickle.load(r)
                except EOFError:
                    os._exit(0)
                try:
                    res = ('ok', self.fn(job))
                except BaseException as e:
                    if in_code(e):
                        res = ('raised', describe(e))
                    elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)) or foreign(e):
                        # what the code returned is not even of the expected kind
                        res = ('unreadable', ''.join(traceback.format_exception(e))[-1500:])
                    else:
                        res = ('harness', ''.join(traceback.format_exception(e))[-2000:])
                pickle.dump(res, w)
                w.flush()
        os.close(cr)
        os.close(cw)
        return {'pid': pid, 'r': os.fdopen(pr, 'rb'), 'w': os.fdopen(pw, 'wb'), 'job': None}

    def kill(self, w):
        try:
            os.kill(w['pid'], signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(w['pid'], 0)
        w['r'].close()
        try:
            w['w'].close()
        except OSError:
            pass

    def run(self, jobs, budget):
        """Yields (job, status, result); stops taking new jobs when the budget (seconds) is used up."""
        t0 = _mono()
        jobs = iter(jobs)
        self.w = []
        for _ in range(self.n):
            self.w.append(self.spawn())
        done = False
        while True:
            for w in self.w:
                if w['job'] is None and not done:
                    if _mono() - t0 > budget:
                        done = True
                        break
                    try:
                        w['job'] = next(jobs)
                    except StopIteration:
                        done = True
                        break
                    w['t'] = _mono()
                    pickle.dump(w['job'], w['w'])
                    w['w'].flush()
            busy = [w for w in self.w if w['job'] is not None]
            if not busy:
                break
            ready, _, _ = select.select([w['r'] for w in busy], [], [], 1.0)
            for w in busy:
                if w['r'] in ready:
                    try:
                        st, res = pickle.load(w['r'])
                    except (EOFError, pickle.UnpicklingError):
                        st, res = 'died', 'the worker died'
                        job = w['job']
                        self.kill(w)
                        self.w[self.w.index(w)] = self.spawn()
                        yield job, st, res
                        continue
                    job, w['job'] = w['job'], None
                    yield job, st, res
                elif _mono() - w['t'] > self.timeout:
                    job = w['job']
                    self.kill(w)
                    self.w[self.w.index(w)] = self.spawn()
                    yield job, 'hang', 'no result after %d s' % self.timeout
        for w in self.w:
            self.kill(w)
        self.w = []
