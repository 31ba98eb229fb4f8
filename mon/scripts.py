# -*- coding: utf-8 -*-
"""
Experimental scripts of /repo/scripts, run on generated event files inside a
scratch directory, in this process or in a process of their own.
"""
from __future__ import annotations

import contextlib
import datetime
import io
import json
import os
import platform
import runpy
import subprocess
import sys
import tempfile

import numpy as np
import scipy
import sklearn

import kamrecsys

from . import core, gens

DIR = os.path.join(core.REPO, 'scripts')
SP = ['pmf', 'plsam', 'plsamm']


class Scratch(object):
    """a directory, removed together with its files"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get('KAM_SCRATCH'))
        return self

    def __exit__(self, *a):
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)

    def path(self, name):
        return os.path.join(self.dir, name)


def write(path, ev, sc, ts, nl='\n', sep='\t'):
    isint = np.all(np.asarray(sc) == np.round(sc))
    with io.open(path, 'w', newline='') as fp:
        for i in range(len(ev)):
            f = ['%d' % x for x in ev[i]]
            f.append('%d' % sc[i] if isint else repr(float(sc[i])))
            if ts is not None:
                f.append('%d' % ts[i])
            fp.write(sep.join(f) + nl)


TASKS = []          # (first, last instant) of observed fits and predictions


@contextlib.contextmanager
def watch():
    """log when recommenders are trained and asked in this process"""
    from kamrecsys.score_predictor import PMF, MultinomialPLSA
    from kamrecsys.item_finder import LogisticPMF
    depth, undo = [0], []
    del TASKS[:]

    def wrap(cls, name):
        orig = getattr(cls, name)

        def task(*a, **k):
            depth[0] += 1
            start = datetime.datetime.now()
            try:
                return orig(*a, **k)
            finally:
                depth[0] -= 1
                if not depth[0]:
                    TASKS.append((name, start, datetime.datetime.now()))
        undo.append((cls, name, vars(cls).get(name)))
        setattr(cls, name, task)
    for cls in (PMF, MultinomialPLSA, LogisticPMF):
        for name in ('fit', 'predict'):
            wrap(cls, name)
    try:
        yield
    finally:
        for cls, name, old in undo[::-1]:
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)


def run(name, argv, stdin=None, sub=False):
    """(exit status, stdout); a status of 1 stands for an exception"""
    path = os.path.join(DIR, name)
    argv = [str(a) for a in argv]
    del TASKS[:]
    if sub:
        env = dict(os.environ)
        p = subprocess.run(
            [sys.executable, path] + argv, env=env, timeout=140,
            stdin=open(stdin, 'rb') if stdin else subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return (p.returncode, p.stdout.decode('utf-8'),
                p.stderr.decode('utf-8', 'replace'))
    if DIR not in sys.path:
        sys.path.insert(0, DIR)
    old = sys.argv, sys.stdin
    sys.argv = [path] + argv
    out, err = io.StringIO(), io.StringIO()
    opened = open(stdin, 'rb') if stdin else None
    if opened is not None:
        sys.stdin = opened
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                with watch():
                    runpy.run_path(path, run_name='__main__')
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else int(bool(e.code))
    finally:
        sys.argv, sys.stdin = old
        if opened is not None:
            opened.close()
        np.seterr(all='ignore')
    return rc, out.getvalue(), err.getvalue()


def attempt(ctx, name, argv, **kw):
    rc, out, err = run(name, argv, **kw)
    ctx.obs('script runs')
    ctx.check(rc == 0, 'a script failed', script=name, argv=argv, rc=rc,
              stderr=err[-1500:])
    return out


def options(ctx, tool, rseed=True, light=False):
    """(argv, method, constructor arguments)"""
    argv = []
    if tool == 'if':
        method = 'lpmf'
        if ctx.coin():
            argv += [ctx.choice(['-m', '--method']), 'lpmf']
    else:
        method = ctx.choice(SP)
        if method != 'pmf' or ctx.coin():
            argv += [ctx.choice(['-m', '--method']), method]
    kw = {'C': .01, 'alpha': 1.0, 'k': 1, 'tol': 1e-5}
    for names, key, vals in (
            (('-C', '--lambda'), 'C', [.1, 1., 5.]),
            (('--alpha',), 'alpha', [.1, 2.5]),
            (('-k', '--dim'), 'k', [1, 2, 4]),
            (('--tol',), 'tol', [1e-3, 1e-8])):
        if ctx.coin():
            v = ctx.choice(vals)
            argv += [ctx.choice(names), v]
            kw[key] = v
    if ctx.coin(.7) or light:
        v = ctx.choice([1, 2, 5, 15])
        argv += ['--maxiter', v]
        kw['maxiter'] = v
    if rseed:
        v = 0 if ctx.coin(.1) else ctx.randint(0, 99999)
        argv += ['--rseed', v]
        kw['random_state'] = v
    else:
        kw['random_state'] = None
    if method in ('pmf', 'lpmf'):
        del kw['alpha']
    else:
        del kw['C']
        kw['use_expectation'] = method == 'plsam'
    if ctx.coin(.8):
        argv.append(ctx.choice(['-q', '--quiet']))
    return argv, method, kw


def build(method, kw):
    from kamrecsys.score_predictor import PMF, MultinomialPLSA
    from kamrecsys.item_finder import LogisticPMF
    return {'pmf': PMF, 'lpmf': LogisticPMF}.get(
        method, MultinomialPLSA)(**kw)


def names(method):
    return {'pmf': ('PMF', 'score_predictor'),
            'lpmf': ('LogisticPMF', 'item_finder')}.get(
                method, ('MultinomialPLSA', 'score_predictor'))


def container(ev, sc, ts, dom, tool):
    """the data that the scripts should have loaded"""
    from kamrecsys.data import EventWithScoreData
    f = None
    if ts is not None:
        f = np.zeros(len(ev), dtype=[('timestamp', int)])
        f['timestamp'] = ts
    data = EventWithScoreData(n_otypes=2)
    data.set_event(np.array(ev), np.array(sc, dtype=float),
                   score_domain=dom, event_feature=f)
    full = data.score_domain
    if tool == 'if':
        data.binarize_score()
    return data, np.array(full, dtype=float)


def binarize(sc, dom):
    return np.where(np.asarray(sc) <= (dom[0] + dom[1]) / 2., 0, 1)


def domain(ctx):
    return ctx.choice([(1, 5, 1), (.5, 5., .5), (0, 1, 1), (-2, 2, 1),
                       (1, 10, 1), (0, 100, 25), (0, 1, .25),
                       (1, 2, .125)])


def io_args(ctx, infile, outfile, argv):
    """input and output files by options or by positions"""
    m = ctx.randint(0, 3)
    if m == 0:
        return ['-i', infile, '-o', outfile] + argv, outfile
    if m == 1:
        return ['--in', infile] + argv + ['--out', outfile], outfile
    if m == 2:
        return argv + ['-o', outfile, '-i', infile], outfile
    return [infile, outfile] + argv, outfile


def task(name, i, n):
    """instants of the i-th task of the last run, if n were observed"""
    t = [(a, b) for x, a, b in TASKS if x == name]
    return t[i] if len(t) == n else None


def moment(text):
    t = str(text)
    return datetime.datetime.strptime(
        t, '%Y-%m-%dT%H:%M:%S.%f' if '.' in t else '%Y-%m-%dT%H:%M:%S')


def check_times(ctx, res, task=None):
    a, b = moment(res['start_time']), moment(res['end_time'])
    if task is not None:
        ms = datetime.timedelta(milliseconds=1)
        ctx.check(a <= task[0] + ms and b >= task[1] - ms, 'a task was not '
                  'run within the reported times', reported=[a, b], run=task)
        ctx.obs('times compared')
    h, m, s = str(res['elapsed_time']).split(':')
    ctx.check(abs(int(h) * 3600 + int(m) * 60 + float(s) -
                  (b - a).total_seconds()) < .5, 'elapsed time', res=res)
    ctx.check(res['start_time'] <= res['end_time'] or
              len(res['start_time']) != len(res['end_time']),
              'a task ended before its start', res=res)
    ctx.check(float(res['elapsed_utime']) >= 0, 'negative user time')


def check_fit(ctx, got, want, what):
    """outputs of an optimizer, after conversion"""
    from kamrecsys.utils import json_decodable
    want = dict(want)
    json_decodable(want)
    for k, v in json.loads(json.dumps(want)).items():
        ctx.check(k in got, 'a result of optimization is lost', key=k)
        if isinstance(v, float):
            ctx.close(got[k], v, what, key=k, rtol=1e-7, atol=1e-9)
        else:
            ctx.check(got[k] == v, what, key=k, got=got[k], want=v)


def load(path):
    with io.open(path, encoding='utf-8') as fp:
        return json.load(fp)


def check_env(ctx, info, script):
    """software and hardware of an experiment are those of this process"""
    e = info['environment']
    want = {'python': platform.python_version(), 'numpy': np.__version__,
            'scipy': scipy.__version__, 'sklearn': sklearn.__version__,
            'kamrecsys': kamrecsys.__version__,
            'python_implementation': platform.python_implementation()}
    got = e.get('version') or {}
    ctx.check({k: got.get(k) for k in want} == want, 'versions of packages',
              got=got, want=want)
    want = {'system': platform.system(), 'release': platform.release(),
            'version': platform.version(), 'machine': platform.machine()}
    got = e.get('system') or {}
    ctx.check({k: got.get(k) for k in want} == want, 'description of a '
              'system', got=got, want=want)
    got = e.get('script') or {}
    ctx.check(got.get('name') == script and
              isinstance(got.get('version'), str), 'name of a script',
              got=got, want=script)
