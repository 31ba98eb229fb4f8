# -*- coding: utf-8 -*-
"""C37: command line of tools: help, versions, refusals and messages"""
import contextlib
import hashlib
import io
import json
import os
import resource
import runpy
import shutil
import subprocess
import sys

import numpy as np

from .. import core, gens, scripts

CONV = ['flixster', 'movielens100k', 'movielens1m', 'movielens_mini',
        'sushi3']
STRATA = ['help', 'version', 'refuse', 'quiet', 'converter', 'refuse',
          'converter', 'missing', 'full', 'help']
CASES = {'quick': 600, 'thorough': 8000}
NEED = {'requests for help': 40, 'requests for versions': 20,
        'refusals': 60, 'runs compared': 20, 'failing writes': 20, 'converters asked': 40}
RULE = ('command lines of every script and converter: help and version among '
        'other options, illegal options, values and files, quiet and verbose '
        'runs; distinct = different command lines')
TOOLS = ['exp_recsys_sp.py', 'exp_recsys_if.py', 'stats_recsys.py',
         'exp_recsys_fold_merge.py']


def image(d):
    """names and contents of all the files of a directory"""
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, d)] = hashlib.sha1(
                    fp.read()).hexdigest()
    return out


def learnable(ctx, s, n):
    """a file of events by which every model can be trained"""
    ev = np.stack([ctx.rng.randint(1, 6, n), ctx.rng.randint(1, 8, n)], 1)
    sc = ctx.rng.randint(1, 6, n).astype(float)
    sc[:2] = 1, 5
    ts = ctx.rng.randint(0, 999, n)
    name = s.path('events%d' % ctx.randint(0, 10 ** 9))
    scripts.write(name, ev, sc, ts)
    return name


def result(ctx, s, name):
    """a file of experimental results"""
    n = 12
    t = [float(x) for x in (np.arange(n) % 2 if ctx.coin() else
                            np.arange(n) % 5 + 1)]
    x = {'condition': {'n_folds': 1, 'scheme': 'holdout',
                       'score_domain': [min(t), max(t), 1.0]},
         'environment': {'script': {}}, 'model': {
             'task_type': 'item_finder' if max(t) == 1 else
             'score_predictor'},
         'training': {'results': {'0': {}}}, 'test': {'results': {'0': {}}},
         'prediction': {'event': [[1, 2]] * n, 'true': t,
                        'predicted': [.5 * x for x in t]}}
    with open(s.path(name), 'w') as fp:
        json.dump(x, fp)
    return s.path(name)


def common(ctx, tool):
    """legal options that name no output"""
    argv = []
    if tool.startswith('exp_recsys_') and 'merge' not in tool:
        for a in (['-k', '2'], ['--maxiter', '1'], ['-q'], ['--rseed', '3'],
                  ['-d', '1', '5', '1'], ['--no-timestamp'], ['-f', '3'],
                  ['-v', 'cv'], ['--alpha', '.5'], ['-C', '2']):
            if ctx.coin(.2):
                argv.append(a)
    elif tool.startswith('stats'):
        for a in (['--keepdata'], ['--rseed', '1']):
            if ctx.coin(.3):
                argv.append(a)
    elif ctx.coin(.3):
        argv.append(['-q'])
    return argv


def flat(argv):
    return [x for a in argv for x in a]


def files(ctx, s, tool):
    """options that give legal inputs"""
    if tool.startswith('stats'):
        return [['-i', result(ctx, s, 'r.json')]]
    if 'merge' in tool:
        return [[result(ctx, s, 'r.json')]]
    out = [['-i', learnable(ctx, s, 30)]]
    out.append(['-t', learnable(ctx, s, 9)])
    return out


def ask(ctx, s):
    """help and versions; nothing is done"""
    tool = ctx.choice(TOOLS)
    argv = common(ctx, tool)
    if ctx.coin(.6):
        argv += files(ctx, s, tool)
    what = ctx.stratum
    flag = ['--version'] if what == 'version' else [
        ctx.choice(['-h', '--help'])]
    argv.insert(ctx.randint(0, len(argv)), flag)
    with open(s.path('other'), 'w') as fp:
        fp.write('data of the user\n')
    before = image(s.dir)
    with nowhere(s):
        rc, out, err = scripts.run(tool, flat(argv), sub=ctx.coin(.05))
    ctx.check(rc == 0, 'a request for information fails', tool=tool,
              argv=argv, rc=rc, stderr=err[-500:])
    ctx.check(image(s.dir) == before, 'files are changed by a request for '
              'information', tool=tool, argv=argv)
    ctx.check(not scripts.TASKS, 'models are trained by a request for '
              'information', tool=tool, argv=argv)
    with io.open(os.path.join(scripts.DIR, tool), encoding='utf-8') as fp:
        text = fp.read()
    if what == 'version':
        v = [x.split('=')[1].strip().strip('\'"') for x in text.split('\n')
             if x.startswith('__version__')]
        ctx.check(v and v[0] in (out + err).split(), 'version of a script',
                  tool=tool, got=out, want=v)
        ctx.obs('requests for versions')
    else:
        ctx.check(all(x in out for x in ('usage', tool, '--version', '--help',
                                         '-o')),
                  'the help of a script', tool=tool, got=out[:2000])
        ctx.obs('requests for help')
    ctx.sig(what, tool, tuple(a[0] for a in argv))


@contextlib.contextmanager
def nowhere(s):
    """run in the scratch directory, so that stray files are seen"""
    cwd = os.getcwd()
    os.chdir(s.dir)
    try:
        yield
    finally:
        os.chdir(cwd)


def refuse(ctx, s):
    """command lines that are not legal"""
    tool = ctx.choice(TOOLS + TOOLS[:2])
    bad = [['--no-such-option'], ['-Z'], ['--rseed', 'one'],
           ['-i', s.path('absent')], ['--in', s.path('absent')],
           ['-o']]
    tasks = tool in TOOLS[:2]
    if tasks:
        bad += [['-m', 'no such method'], ['--method', 'svd'],
                ['-m', 'lpmf' if 'sp' in tool else 'pmf'],
                ['-v', 'loo'], ['--validation', 'bootstrap'],
                ['-f', '2.5'], ['-k', 'many'], ['-C', 'strong'],
                ['--tol', 'x'], ['--maxiter', '1e3x'], ['-d', '1', '5'],
                ['-d', '1', '5', 'one'], ['--timestamp', '--no-timestamp'],
                ['-q', '--verbose'], ['-t', s.path('absent')],
                ['-n', 'first'], ['--alpha', 'none']]
    elif tool.startswith('stats'):
        bad += [['--keepdata', '--no-keepdata']]
    else:
        bad = [x for x in bad if x[0] not in ('-i', '--in')]
        bad += [[s.path('absent')], ['-q', '--verbose']]
    argv = files(ctx, s, tool)
    argv += [a for a in common(ctx, tool) if a != ['-q']]
    wrong = ctx.choice(bad)
    dest = s.path('dest')
    if ctx.coin(.3):
        argv.append(['-o', dest])
    # later options replace earlier ones: the wrong ones come last
    argv.append(wrong)
    with open(s.path('other'), 'w') as fp:
        fp.write('data of the user\n')
    before = image(s.dir)
    with nowhere(s):
        rc, out, err = scripts.run(tool, flat(argv), sub=ctx.coin(.05))
    if os.path.exists(dest):
        ctx.check(not os.path.getsize(dest), 'a result is written for an '
                  'illegal command line', tool=tool, argv=argv)
        os.unlink(dest)
    ctx.check(rc != 0, 'an illegal command line is accepted', tool=tool,
              argv=argv, out=out[:300])
    ctx.check(not out, 'a result is written for an illegal command line',
              tool=tool, argv=argv, out=out[:300])
    ctx.check(image(s.dir) == before, 'files are changed by an illegal '
              'command line', tool=tool, argv=argv)
    ctx.check(not scripts.TASKS, 'models are trained for an illegal command '
              'line', tool=tool, argv=argv)
    ctx.obs('refusals')
    ctx.sig('refuse', tool, tuple(wrong[:2]))


def strip(x):
    """the part of a result that does not depend on when it was made"""
    x = json.loads(x)
    x.pop('environment', None)
    x.get('condition', {}).pop('out_file', None)
    for part in ('training', 'test'):
        for r in x.get(part, {}).get('results', {}).values():
            for k in list(r):
                if 'time' in k:
                    del r[k]
    return x


def quiet(ctx, s):
    """messages are not a part of results"""
    tool = ctx.choice(TOOLS + TOOLS[:2])
    argv = files(ctx, s, tool)
    if tool in TOOLS[:2]:
        argv += [['-d', '1', '5', '1'], ['--maxiter', '2'],
                 ['--rseed', ctx.randint(0, 999)]]
    if tool == 'exp_recsys_sp.py':
        argv.append(['-m', ctx.choice(scripts.SP)])
    got = {}
    modes = ['-q', '--quiet', '--verbose', None]
    # warnings of the interpreter are not messages of scripts
    os.environ['PYTHONWARNINGS'] = 'ignore'
    for how in [None] if tool.startswith('stats') else modes:
        to = ctx.coin()
        dest = s.path('out %s' % how)
        a = argv + ([['-o', dest]] if to else [])
        if how:
            a.insert(ctx.randint(0, len(a)), [how])
        rc, out, err = scripts.run(tool, flat(a), sub=True)
        ctx.check(rc == 0, 'a run fails', argv=a, rc=rc, err=err[-900:])
        if to:
            ctx.check(not out, 'output beside the result', argv=a,
                      out=out[:300])
            with open(dest) as fp:
                out = fp.read()
        try:
            got[how] = core.freeze(strip(out))
        except ValueError:
            ctx.fail('a result is not JSON alone', argv=a, out=out[:300])
        if how in ('-q', '--quiet') or tool.startswith('stats'):
            ctx.check(not err.strip(), 'messages of a quiet run', argv=a,
                      err=err[:500])
        else:
            ctx.check(err.strip(), 'no message of a verbose run', argv=a)
    ctx.check(len({repr(g) for g in got.values()}) == 1,
              'the result depends on messages', argv=argv)
    ctx.obs('runs compared', len(got))
    ctx.sig('quiet', tool, ctx.case)


def converter(ctx, s):
    """help of converters; and raw files that do not exist"""
    name = ctx.choice(CONV)
    t = os.path.join(s.dir, 'tree')
    try:
        shutil.copytree(os.path.join(core.REPO, 'data'),
                        os.path.join(t, 'data'),
                        ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        samples = os.path.join(t, 'kamrecsys', 'datasets', 'data')
        other = os.path.join(t, 'elsewhere')
        os.makedirs(samples)
        os.makedirs(other)
        for f in ('movielens100k.event', 'movielens1m.event', 'flixster.event',
                  'movielens_mini.event', 'sushi3b_score.event',
                  'movielens100k.user', 'movielens1m.item', 'sushi3.user',
                  'sushi3.item', 'movielens_mini.user'):
            for d in (samples, other):
                if ctx.stratum == 'missing' and '100k' in f:
                    continue    # of which the sample of small size is made
                with open(os.path.join(d, f), 'w') as fp:
                    fp.write('# converted before\n1\t2\t3\t4\n')
        raw = ctx.coin() and ctx.stratum == 'converter'
        if raw:
            for f in ('u.data', 'u.user', 'u.item', 'ratings.dat',
                      'users.dat', 'movies.dat', 'ratings.txt',
                      'sushi3b.5000.10.score', 'sushi3.udata',
                      'sushi3.idata'):
                with open(os.path.join(t, 'data', f), 'w') as fp:
                    fp.write('')
        argv = [os.path.join(t, 'data', name + '.py')]
        if ctx.coin():
            argv.append(other)
        if ctx.stratum == 'converter':
            argv.insert(ctx.randint(1, len(argv)),
                        ctx.choice(['-h', '--help']))
        before = image(t)
        out, err, rc = io.StringIO(), io.StringIO(), 0
        old = sys.argv
        sys.argv = argv
        try:
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(err), nowhere(s):
                runpy.run_path(argv[0], run_name='__main__')
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else int(bool(e.code))
        except Exception:
            rc = 'error'
        finally:
            sys.argv = old
        if ctx.stratum == 'converter':
            ctx.check(rc == 0, 'the help of a converter fails', argv=argv,
                      rc=rc)
            ctx.check(image(t) == before, 'a request for help converts files',
                      argv=argv)
            said = out.getvalue() + err.getvalue()
            ctx.check(len(said.strip()) > 40, 'help of a converter',
                      argv=argv, got=said)
            ctx.obs('converters asked')
        else:
            ctx.check(rc != 0, 'a converter without raw files succeeds',
                      argv=argv, rc=rc)
            ctx.obs('refusals')
        ctx.sig(ctx.stratum, name, len(argv), raw)
    finally:
        shutil.rmtree(t)


def sub(argv, limit=None, stdout=subprocess.PIPE):
    def limited():
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    env = dict(os.environ, PYTHONWARNINGS='ignore',
               PYTHONDONTWRITEBYTECODE='1')
    # without buffers the interpreter itself drops what was not written
    env.pop('PYTHONUNBUFFERED', None)
    p = subprocess.run([sys.executable] + [str(a) for a in argv], env=env,
                       timeout=140, preexec_fn=limited, stdout=stdout,
                       stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p.returncode, p.stderr.decode('utf-8', 'replace')[-500:]


def full(ctx, s):
    """results that cannot be written as a whole: the device is full, or a
    limit is met after some bytes"""
    kind = ctx.choice(TOOLS + ['converter'])
    if kind == 'converter':
        return full_converter(ctx, s)
    argv = [os.path.join(scripts.DIR, kind)] + flat(files(ctx, s, kind))
    if kind in TOOLS[:2]:
        argv += ['--maxiter', '1', '-d', '1', '5', '1', '-q']
    dest = s.path('dest')
    rc, err = sub(argv + ['-o', dest])
    ctx.check(rc == 0, 'a run fails', argv=argv, err=err)
    size = os.path.getsize(dest)
    how = ctx.choice(['device', 'device to standard output', 'limit',
                      'limit of standard output'])
    # times and names of files take another number of bytes
    limit = ctx.choice([0, 1, size // 3, max(size - 300, 0),
                        ctx.randint(0, max(size - 300, 0))])
    if how == 'device':
        rc, err = sub(argv + ['-o', '/dev/full'])
    elif how == 'limit':
        rc, err = sub(argv + ['-o', s.path('cut')], limit)
    else:
        with open('/dev/full' if how[0] == 'd' else s.path('cut'),
                  'wb') as fp:
            rc, err = sub(argv, limit if how[0] == 'l' else None, fp)
    ctx.check(rc != 0, 'a run succeeds although its result could not be '
              'written', argv=argv, how=how, limit=limit, size=size)
    ctx.obs('failing writes')
    ctx.sig('full', kind, how, limit)


RAW = {'movielens100k': [('u.data', '%d\t%d\t%d\t%d'), ('u.user', None),
                         ('u.item', None)],
       'movielens1m': [('ratings.dat', '%d::%d::%d::%d'), ('users.dat', None),
                       ('movies.dat', None)],
       'flixster': [('ratings.txt', '%d\t%d\t%d.0')]}


def full_converter(ctx, s):
    name = ctx.choice(sorted(RAW))
    t = os.path.join(s.dir, 'tree')
    try:
        for d in ('data', 'good', 'cut'):
            os.makedirs(os.path.join(t, d))
        path = os.path.join(t, 'data', name + '.py')
        shutil.copy(os.path.join(core.REPO, 'data', name + '.py'), path)
        n = ctx.choice([3, 200, 2000])
        for f, form in RAW[name]:
            with open(os.path.join(t, 'data', f), 'w') as fp:
                if form:
                    m = form.count('%')
                    fp.write(''.join(form % tuple(
                        ([i + 1, i % 9 + 1, i % 5 + 1, 8800 + i])[:m]) + '\n'
                        for i in range(n)))
        rc, err = sub([path, os.path.join(t, 'good')])
        ctx.check(rc == 0, 'a converter fails', name=name, err=err)
        size = max(os.path.getsize(os.path.join(t, 'good', f))
                   for f in os.listdir(os.path.join(t, 'good')))
        limit = ctx.choice([0, 1, size // 2, size - 1,
                            ctx.randint(0, size - 1)])
        rc, err = sub([path, os.path.join(t, 'cut')], limit)
        ctx.check(rc != 0, 'a converter succeeds although its result could '
                  'not be written', name=name, limit=limit, size=size)
        ctx.obs('failing writes')
        ctx.sig('full', name, n, limit)
    finally:
        shutil.rmtree(t)


def case(ctx):
    with scripts.Scratch() as s:
        ctx.note(stratum=ctx.stratum)
        {'help': ask, 'version': ask, 'refuse': refuse, 'quiet': quiet,
         'converter': converter, 'missing': converter, 'full': full}[ctx.stratum](ctx, s)
