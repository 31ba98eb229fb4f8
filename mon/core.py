# -*- coding: utf-8 -*-
"""
Runtime-monitoring core.

A *case* is one randomly generated workload, run against the real code of
/repo, while a monitor (the property module) observes every result through a
`Ctx`.  A case is fully determined by (property, seed, tier, case number), so
that a violation is replayed by these four values.
"""
from __future__ import annotations

import collections
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

import numpy as np

REPO = os.environ.get('KAM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
CASE_TIMEOUT = 150


class Violation(Exception):
    """the monitor observed something that breaks the property"""


class CaseTimeout(BaseException):
    """a watchdog: never a verdict by itself"""


class Interruption(KeyboardInterrupt):
    """an injected interrupt, as by a user who stops a long operation"""


def interrupted(ctx, fun, top=3.5):
    """
    run an operation, interrupted at a random instant within the code under
    test (a call made by or into it); whether it was before it ended
    """
    left = [int(10. ** ctx.rng.uniform(0, top))]
    root = os.path.join(REPO, 'kamrecsys') + os.sep

    def count(frame, event, arg):
        if event in ('call', 'c_call') and \
                frame.f_code.co_filename.startswith(root):
            left[0] -= 1
            if left[0] <= 0:
                sys.setprofile(None)
                raise Interruption()

    old = np.geterr()
    sys.setprofile(count)
    try:
        fun()
    except Interruption:
        ctx.obs('interruptions injected')
        return True
    finally:
        sys.setprofile(None)
        np.seterr(**old)
    return False


@contextlib.contextmanager
def delays(ctx, share):
    """
    threads started meanwhile give way to others at a share of the lines of
    the code under test that they execute, so that they interleave between
    any two statements
    """
    root = os.path.join(REPO, 'kamrecsys') + os.sep
    seed = ctx.randint(0, 2 ** 30)
    count = collections.Counter()

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        rnd = random.Random(seed + count['frames'])
        count['frames'] += 1

        def line(frame, event, arg):
            if event == 'line' and rnd.random() < share:
                count['delays'] += 1
                time.sleep(1e-6)
            return line
        return line

    threading.settrace(trace)
    try:
        yield
    finally:
        threading.settrace(None)
    ctx.obs('delays injected', count['delays'])


class Skip(Exception):
    """generated input is outside the domain of the property"""


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...<%d chars>' % len(s)


# --------------------------------------------------------------------------
# structural snapshots, used for "nothing else has changed" monitors

def freeze(x, _depth=0, _seen=None):
    """deep, comparable image of a value (arrays, containers, objects)"""
    if _seen is None:
        _seen = set()
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            return ('oarr', x.shape,
                    tuple(freeze(i, _depth + 1, _seen) for i in x.ravel()))
        return ('arr', x.shape, x.dtype.str if x.dtype.names is None else
                str(x.dtype), np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ('np', x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ('dict', tuple(sorted(
            ((repr(k), freeze(v, _depth + 1, _seen)) for k, v in x.items()),
            key=lambda t: t[0])))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,
                tuple(freeze(i, _depth + 1, _seen) for i in x))
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, float):
        return ('float', np.float64(x).tobytes())
    if isinstance(x, type) or callable(x):
        return ('callable', getattr(x, '__qualname__', repr(type(x))))
    if hasattr(x, 'get_state') and x.__class__.__name__ == 'RandomState':
        return ('rng', freeze(x.get_state(), _depth + 1, _seen))
    if hasattr(x, '__dict__'):
        if id(x) in _seen or _depth > 12:
            return ('cycle',)
        _seen = _seen | {id(x)}
        # private attributes are not observable behaviour
        pub = {k: v for k, v in vars(x).items() if not k.startswith('_')}
        return ('obj', type(x).__name__, freeze(pub, _depth + 1, _seen))
    return ('repr', repr(x))


def same(a, b):
    return freeze(a) == freeze(b)


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


class Ctx(object):
    """what a case can use: random numbers, monitors, and records"""

    def __init__(self, prop, seed, tier, case, stratum):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.case, self.stratum = case, stratum
        h = int(hashlib.sha256(
            ('%s/%s/%d' % (prop, seed, case)).encode()).hexdigest()[:15], 16)
        self.rng = np.random.RandomState(np.random.MT19937(h))
        self.counters = collections.Counter()
        self.sigs = set()
        self.sample = None
        self.log = []
        self.deep = tier == 'thorough'

    # -- records
    def obs(self, name, n=1):
        self.counters[name] += int(n)

    def sig(self, *key):
        self.sigs.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def note(self, **kw):
        self.log.append({k: short(v, 300) for k, v in kw.items()})
        if self.sample is None:
            self.sample = self.log[-1]

    # -- monitors
    def fail(self, msg, **kw):
        raise Violation(msg + ''.join(
            '\n    %s = %s' % (k, short(v)) for k, v in kw.items()))

    def check(self, cond, msg, **kw):
        self.counters['assertions evaluated'] += 1
        if not cond:
            self.fail(msg, **kw)

    def equal(self, got, want, msg, **kw):
        """exactly equal values (shape and elements)"""
        self.counters['assertions evaluated'] += 1
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            if g.dtype.names is not None or w.dtype.names is not None:
                ok = g.dtype.names == w.dtype.names and all(
                    np.array_equal(g[n], w[n]) for n in g.dtype.names)
            elif g.dtype != w.dtype and (g.dtype.kind in 'iu' or
                                         w.dtype.kind in 'iu'):
                # python compares integers and real numbers exactly; numpy
                # would round large integers first
                ok = g.tolist() == w.tolist()
            else:
                try:
                    ok = np.array_equal(g, w, equal_nan=True)
                except TypeError:
                    ok = np.array_equal(g, w)
        if not ok:
            self.fail(msg, got=got, want=want, **kw)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-9, **kw):
        self.counters['assertions evaluated'] += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape or not np.allclose(
                g, w, rtol=rtol, atol=atol, equal_nan=True):
            self.fail(msg, got=got, want=want, **kw)

    def raises(self, exc, fun, msg, **kw):
        self.counters['assertions evaluated'] += 1
        try:
            r = fun()
        except exc:
            return
        except Exception as e:
            self.fail(msg + ': another error ' + type(e).__name__ + ': ' +
                      str(e), **kw)
        self.fail(msg + ': no error', returned=r, **kw)

    def choice(self, seq, p=None):
        return seq[self.rng.choice(len(seq), p=p)]

    def coin(self, p=0.5):
        return bool(self.rng.rand() < p)

    def size(self, *sizes, **kw):
        """one of the sizes, and now and then a large one"""
        if kw.get('huge') and self.rng.rand() < .004:
            return self.randint(66000, 140000)      # more than 16 bits count
        if self.rng.rand() < kw.get('p', .04):
            return self.randint(1100, kw.get('top', 12000))
        return self.choice(sizes)

    def randint(self, lo, hi):
        """inclusive"""
        return int(self.rng.randint(lo, hi + 1))


# --------------------------------------------------------------------------

def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, prop, seed, tier, case):
    """returns a dict of what was observed in one case"""
    strata = mod.STRATA
    stratum = strata[case % len(strata)]
    ctx = Ctx(prop, seed, tier, case, stratum)
    np.random.seed(ctx.rng.randint(2 ** 31 - 1))
    olderr = np.geterr()
    out = {'case': case, 'stratum': stratum, 'status': 'ok'}
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.case(ctx)
    except Skip:
        out['status'] = 'skip'
    except Violation as e:
        out['status'] = 'violation'
        out['message'] = str(e)
        out['trace'] = traceback.format_exc(limit=-6)
    except CaseTimeout:
        out['status'] = 'timeout'
    except (MemoryError, OSError) as e:
        if _from_repo(e):
            out['status'] = 'violation'
            out['message'] = 'unexpected %s: %s' % (type(e).__name__, e)
        else:
            out['status'] = 'env'
            out['message'] = repr(e)
        out['trace'] = traceback.format_exc()
    except Exception as e:
        # a legal workload ended by an exception: the guarantee did not hold
        out['status'] = 'violation'
        out['message'] = 'unexpected %s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()
    finally:
        signal.alarm(0)
        np.seterr(**olderr)
    out['wall'] = time.time() - t
    out['counters'] = dict(ctx.counters)
    out['sigs'] = list(ctx.sigs)
    out['sample'] = ctx.sample
    if out['status'] == 'violation':
        out['log'] = ctx.log[-30:]
    return out


def _from_repo(e):
    return any(f.filename.startswith(REPO + os.sep) or
               os.sep + 'kamrecsys' + os.sep in f.filename or
               f.filename.startswith(os.environ.get('KAM_SCRATCH', '\0'))
               for f in traceback.extract_tb(e.__traceback__))
