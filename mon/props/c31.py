# -*- coding: utf-8 -*-
"""C31: nothing but the documented object is changed by an operation"""
import contextlib
import decimal
import io
import locale
import logging
import os
import random
import subprocess
import sys
import threading
import warnings

import numpy as np

from .. import core, gens, models, scripts

STRATA = ['container', 'loader', 'metrics', 'utils', 'split', 'options',
          'query', 'fit', 'fit', 'scores']
CASES = {'quick': 3000, 'thorough': 45000}
NEED = {'operations observed': 4000, 'repeated calls compared': 2000,
        'results overwritten': 1000, 'imports observed': 5}
RULE = ('every public operation with arguments of many types and memory '
        'layouts; arguments, other live objects and the state of the process '
        'are compared before and after, the operation is repeated after its '
        'result has been overwritten; distinct = different operations with '
        'different arguments')


def world():
    """state of the process that belongs to the user"""
    root = logging.getLogger()
    return (core.rng_state(), tuple(sorted(np.geterr().items())),
            core.freeze(np.get_printoptions()), os.getcwd(),
            tuple(sorted(os.environ.items())), root.level,
            len(root.handlers), tuple(map(repr, warnings.filters)),
            logging.getLogger('kamrecsys').level, logging.root.manager.disable,
            hash(random.getstate()), threading.active_count(),
            np.geterrcall(), len(os.listdir('/proc/self/fd')),
            sys.getrecursionlimit(), sys.getswitchinterval(),
            decimal.getcontext().prec, locale.setlocale(locale.LC_ALL),
            tuple(sys.path), id(sys.stdout), id(sys.stderr),
            sorted(os.listdir('.')))


def scribble(ctx, x):
    """overwrite a result, which belongs to a caller"""
    n = 0
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or x.size == 0:
            return 0
        if x.dtype.names is not None:
            x[...] = np.zeros(1, dtype=x.dtype)[0]
        elif x.dtype.kind in 'iuf':
            x[...] = 77
        elif x.dtype.kind == 'b':
            x[...] = ~x
        elif x.dtype.kind == 'U':
            x[...] = '?'
        n = 1
    elif isinstance(x, dict):
        for k in list(x):
            n += scribble(ctx, x[k])
            x[k] = 'gone'
        x['new'] = 1
        n += 1
    elif isinstance(x, (list, tuple)):
        for v in x:
            n += scribble(ctx, v)
    return n


def observe(ctx, name, fun, args, live=(), repeat=True, overwrite=True,
            rng=False):
    """
    call `fun(*args)`: nothing in args and live, and nothing in the process
    may change; a repeated call gives the same result
    """
    ctx.obs('operations observed')
    with contextlib.ExitStack() as st:
        if ctx.coin():
            # a user with error handling of the own
            st.enter_context(warnings.catch_warnings())
            warnings.simplefilter('ignore')
            st.enter_context(np.errstate(**{
                k: ctx.choice(['warn', 'ignore'])
                for k in ('divide', 'over', 'under', 'invalid')}))
        return observe1(ctx, name, fun, args, live, repeat, overwrite, rng)


def observe1(ctx, name, fun, args, live, repeat, overwrite, rng):
    hold = [args, list(live)]
    before = core.freeze(hold)
    w0 = world()
    with contextlib.redirect_stdout(io.StringIO()) as so, \
            contextlib.redirect_stderr(io.StringIO()) as se:
        res = fun(*args)
    w1 = world()
    ctx.check(not so.getvalue() and not se.getvalue(),
              'something was displayed: ' + name, out=so.getvalue(),
              err=se.getvalue())
    for i, (a, b) in enumerate(zip(w0, w1)):
        if rng and i == 0:
            continue
        ctx.check(a == b, 'the state of the process was changed by ' + name,
                  which=i, before=a, after=b)
    ctx.check(core.freeze(hold) == before,
              'arguments or other objects were changed by ' + name,
              args=args)
    if repeat:
        image = core.freeze(res)
        if overwrite and scribble(ctx, res):
            ctx.obs('results overwritten')
            ctx.check(core.freeze(hold) == before,
                      'a result shares memory with arguments or other '
                      'objects: ' + name)
        res2 = fun(*args)
        ctx.check(core.freeze(res2) == image,
                  'a repeated call gave another result: ' + name,
                  first=image, second=res2)
        ctx.obs('repeated calls compared')
        res = res2
    ctx.sig(name, core.freeze(hold))
    return res


def case(ctx):
    ctx.note(stratum=ctx.stratum)
    here = os.path.join(os.environ['KAM_SCRATCH'], 'cwd%d' % os.getpid())
    os.makedirs(here, exist_ok=True)
    os.chdir(here)
    globals()['do_' + ctx.stratum](ctx)


def do_container(ctx):
    from kamrecsys.data import EventData, EventWithScoreData
    nt, eo = gens.gen_layout(ctx)
    ev, pools, kind = gens.gen_events(ctx, nt, eo)
    f = gens.gen_event_feature(ctx, len(ev))
    scored = ctx.coin()
    if eo is not None and ctx.coin():
        eo = ctx.choice([list, np.array])(eo)
    other, oref = gens.gen_data(ctx, features=True)
    if scored:
        dom = gens.gen_domain(ctx)
        if ctx.coin():
            dom = ctx.choice([list, np.array])(dom)
        sc = gens.gen_scores(ctx, tuple(dom), len(ev))
        data = EventWithScoreData(n_otypes=nt, event_otypes=eo)
        observe(ctx, 'set_event', lambda e, s, d, g: data.set_event(
            e, s, score_domain=d, event_feature=g), [ev, sc, dom, f],
            [other, eo, pools], repeat=False)
        ref = gens.Ref(nt, eo, ev, sc, np.array(dom), f)
    else:
        data = EventData(n_otypes=nt, event_otypes=eo)
        observe(ctx, 'set_event', lambda e, g: data.set_event(
            e, event_feature=g), [ev, f], [other, eo, pools], repeat=False)
        ref = gens.Ref(nt, eo, ev, None, None, f)
    ref.pools = pools
    for o in range(nt):
        need = sorted(ref.objects(o), key=repr)
        if not need:
            continue
        keys = [need[i] for i in ctx.rng.permutation(len(need))]
        arr = np.array(keys, dtype=ev.dtype)
        feat = ctx.rng.rand(len(keys), 2)
        observe(ctx, 'set_feature', lambda a, b: data.set_feature(o, a, b),
                [arr if ctx.coin() else keys, feat], [other, ev],
                repeat=False)
        ref.feature[o] = {k: feat[i] for i, k in enumerate(keys)}
    # what a caller does to arguments later has no effect
    image = core.freeze(data)
    for a in (ev, eo, f) + ((sc, dom) if scored else ()):
        if isinstance(a, np.ndarray):
            scribble(ctx, a)
    ctx.check(core.freeze(data) == image, 'data share memory with arguments '
              'of a caller')
    if ev.flags.writeable:
        ev[...] = ref.ev
    gens.check_container(ctx, data, ref)
    n = len(ev)
    for op in ctx.rng.permutation(7)[:4]:
        if op == 0:
            observe(ctx, 'to_eid_event', data.to_eid_event,
                    [np.array(data.event)], [data, ev])
        elif op == 1:
            observe(ctx, 'to_iid_event', data.to_iid_event, [ev], [data])
        elif op == 2:
            mv = np.array([-7 - j for j in range(len(ref.eo))])
            observe(ctx, 'to_iid_event', lambda a, b: data.to_iid_event(
                a, missing_values=b), [ev, mv], [data])
        elif op in (3, 4):
            m = ctx.rng.rand(n) < .6
            if op == 4:
                m = np.flatnonzero(m)
            d2 = observe(ctx, 'filter_event', data.filter_event, [m],
                         [data, ev, other], overwrite=False)
            # the filtered data are of their own
            before = core.freeze(data)
            for o in range(nt):
                scribble(ctx, d2.eid[o])
                d2.iid[o].clear()
                if d2.feature[o] is not None:
                    scribble(ctx, d2.feature[o])
            scribble(ctx, d2.event)
            scribble(ctx, d2.n_objects)
            if d2.event_feature is not None:
                scribble(ctx, d2.event_feature)
            if scored:
                scribble(ctx, d2.score)
            ctx.check(core.freeze(data) == before, 'filtered data share '
                      'memory with the original data')
            ctx.obs('results overwritten')
        elif op == 5:
            o = ref.eo[0]
            i = ctx.randint(0, data.n_objects[o] - 1)
            observe(ctx, 'to_eid', data.to_eid, [o, i], [data])
            observe(ctx, 'to_iid', data.to_iid, [o, data.eid[o][i]], [data])
        else:
            observe(ctx, 'len', lambda d: (d.n_events, d.s_event), [data])
    gens.check_container(ctx, data, ref)


def do_scores(ctx):
    data, ref = gens.gen_data(ctx, scored=True)
    other, _ = gens.gen_data(ctx, scored=True)
    sc = np.array(ref.score)
    observe(ctx, 'digitize_score', lambda: data.digitize_score(), [],
            [data, ref.score])
    observe(ctx, 'digitize_score', data.digitize_score, [sc],
            [data, ref.score])
    observe(ctx, 'generate_score_bins', data.generate_score_bins, [], [data])
    observe(ctx, 'get_score_levels', data.get_score_levels, [], [data])
    th = None if ctx.coin() else float(np.median(sc))
    observe(ctx, 'binarize_score', lambda t: data.binarize_score(t), [th],
            [ref.score, ref.ev, other], repeat=False)
    ctx.check(data.score is not ref.score, 'scores')


def do_loader(ctx):
    from kamrecsys.datasets import (load_event, load_event_with_score,
                                    event_dtype_timestamp)
    n = ctx.randint(1, 20)
    ev = ctx.rng.randint(0, 9, (n, 2))
    dom = scripts.domain(ctx)
    sc = np.array(gens.gen_scores(ctx, dom, n), dtype=float)
    ts = ctx.rng.randint(0, 999, n)
    with scripts.Scratch() as s:
        path = s.path('x.event')
        scripts.write(path, ev, sc, ts)
        image = open(path, 'rb').read()
        other, _ = gens.gen_data(ctx)
        darg = ctx.choice([tuple, list, np.array])(dom)
        observe(ctx, 'load_event_with_score', lambda p, d, t:
                load_event_with_score(p, score_domain=d, event_dtype=t),
                [path, darg, event_dtype_timestamp], [other],
                overwrite=False)
        ctx.check(open(path, 'rb').read() == image, 'a file was changed')
        with open(path, 'w') as fp:
            for e in ev:
                fp.write('%d\t%d\n' % tuple(e))
        image = open(path, 'rb').read()
        observe(ctx, 'load_event', load_event, [path], [other],
                overwrite=False)
        with open(path, 'rb') as fp:
            d = load_event(fp)
            ctx.check(not fp.closed, 'a file of a caller was closed')
            ctx.check(d.n_events == n, 'n_events')
        ctx.check(open(path, 'rb').read() == image, 'a file was changed')


def do_metrics(ctx):
    from kamrecsys import metrics as m
    r = ctx.rng
    n = ctx.randint(3, 40)
    dom = scripts.domain(ctx)
    t = np.array(gens.gen_scores(ctx, dom, n), dtype=float)
    p = r.normal(np.mean(t), 1, n)
    if ctx.coin(.3):
        t, p = t.astype('f4'), p.astype('f4')
    if ctx.coin(.3):
        t, p = np.repeat(t, 2)[::2], np.c_[p, p][:, 1]
    if ctx.coin(.2):
        t, p = t.tolist(), p.tolist()
    b = np.r_[0, 1, r.randint(0, 2, n - 2)].astype(
        ctx.choice(['i8', 'f8', 'f4']))
    d = ctx.choice([tuple, list, np.array])(dom)
    observe(ctx, 'mean_absolute_error', m.mean_absolute_error, [t, p])
    observe(ctx, 'mean_squared_error', m.mean_squared_error, [t, p])
    observe(ctx, 'score_histogram', m.score_histogram, [t, d])
    observe(ctx, 'score_histogram', m.score_histogram,
            [t, ctx.choice([1, 4, 9])])
    observe(ctx, 'score_predictor_statistics', m.score_predictor_statistics,
            [t, p, d])
    observe(ctx, 'score_predictor_report', lambda a, c:
            m.score_predictor_report(a, c, disp=False), [t, p])
    observe(ctx, 'item_finder_statistics', m.item_finder_statistics, [b, p])
    observe(ctx, 'item_finder_report', lambda a, c:
            m.item_finder_report(a, c, disp=False), [b, p])
    observe(ctx, 'get_n_score_levels', m.get_n_score_levels, [d])
    observe(ctx, 'generate_score_bins', m.generate_score_bins, [d])
    mat = r.rand(3, 4)
    observe(ctx, 'statistics_mean', lambda *a: m.statistics_mean(
        np.mean, *a), [ctx.choice([list(mat), {'b': mat[0], 'a': mat[1]}])])
    observe(ctx, 'variance_with_gamma_prior', m.variance_with_gamma_prior,
            [np.asarray(p)])


IMPORT = '''
import decimal, importlib, json, locale, logging, os, random, signal, sys
import threading, warnings
import numpy as np, scipy.optimize, scipy.sparse, six
import sklearn.base, sklearn.model_selection, sklearn.metrics
import sklearn.preprocessing
np.seterr(**dict(zip(['divide', 'over', 'under', 'invalid'],
                     sys.argv.pop(1).split(','))))
np.set_printoptions(precision=3)
np.random.seed(7)
random.seed(7)
warnings.simplefilter('error')
logging.getLogger().setLevel(logging.CRITICAL)
def world():
    root = logging.getLogger()
    return {k: repr(v) for k, v in dict(
        rng=[hash(np.random.get_state()[1].tobytes()),
             np.random.get_state()[2:]],
        err=sorted(np.geterr().items()), call=np.geterrcall(),
        prints=sorted(np.get_printoptions().items()), cwd=os.getcwd(),
        env=sorted(os.environ.items()), level=root.level,
        handlers=root.handlers, filters=warnings.filters,
        off=logging.root.manager.disable, rnd=hash(random.getstate()),
        threads=threading.active_count(), prec=decimal.getcontext().prec,
        loc=locale.setlocale(locale.LC_ALL), path=sys.path, argv=sys.argv,
        out=[id(sys.stdout), id(sys.stderr)], rec=sys.getrecursionlimit(),
        hook=[sys.excepthook, sys.displayhook], files=os.listdir('.'),
        sig=[signal.getsignal(i) for i in (2, 13, 15)]).items()}
warnings.resetwarnings()
warnings.simplefilter('ignore')
a = world()
for m in sys.argv[1:]:
    importlib.import_module(m)
b = world()
print(json.dumps([k for k in a if a[k] != b[k]]))
'''
MODULES = ['kamrecsys', 'kamrecsys.base', 'kamrecsys.data',
           'kamrecsys.datasets', 'kamrecsys.item_finder', 'kamrecsys.metrics',
           'kamrecsys.model_selection', 'kamrecsys.score_predictor',
           'kamrecsys.utils']


def imported(ctx):
    """importing is an operation, too"""
    names = [MODULES[i] for i in ctx.rng.permutation(len(MODULES))[
        :ctx.randint(1, len(MODULES))]]
    err = [ctx.choice(['raise', 'warn', 'print', 'ignore'])
           for _ in range(4)]
    p = subprocess.run([sys.executable, '-c', IMPORT, ','.join(err)] + names,
                       timeout=140,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    ctx.check(p.returncode == 0, 'modules cannot be imported', names=names,
              err=p.stderr[-900:])
    ctx.check(p.stdout.strip() == '[]' and not p.stderr, 'importing changes '
              'the state of the process or displays something', names=names,
              changed=p.stdout[:900], err=p.stderr[:900])
    ctx.obs('imports observed')
    ctx.sig('import', tuple(names))


def do_utils(ctx):
    if ctx.coin(.06):
        return imported(ctx)
    from kamrecsys import utils as u
    x = ctx.rng.randn(ctx.randint(1, 30)) * ctx.choice([1, 100, 1e4])
    if ctx.coin(.3):
        x = x.reshape(-1, 1)
    observe(ctx, 'safe_sigmoid', u.safe_sigmoid, [x])
    b = ctx.rng.randint(0, ctx.randint(1, 4), ctx.randint(1, 10))
    observe(ctx, 'is_binary_score', u.is_binary_score,
            [b, ctx.coin()])
    observe(ctx, 'get_version_info', u.get_version_info, [])
    if ctx.coin(.2):
        observe(ctx, 'get_system_info', lambda: sorted(u.get_system_info()),
                [])
    a = ctx.rng.rand(3)
    d = {'a': a, 'b': [np.int64(3)]}
    observe(ctx, 'json_decodable', lambda: u.json_decodable(d), [], [a],
            repeat=False)
    e = {'a': a, 'b': [np.int64(3)]}
    u.json_decodable(e)
    ctx.check(e == d, 'conversions of equal containers')


def do_split(ctx):
    from kamrecsys import model_selection as ms
    from .c24 import groups_of, matrix_of
    n = ctx.randint(10, 60)
    X = matrix_of(ctx, n)
    g = ctx.rng.randint(0, 2, n)
    g[:6] = [0, 0, 0, 1, 1, 1]
    if ctx.coin():
        g = g.tolist()
    seed = ctx.randint(0, 999)
    for cv in (ms.ShuffleSplitWithinGroups(3, test_size=.4,
                                           random_state=seed),
               ms.KFoldWithinGroups(3, shuffle=True, random_state=seed),
               ms.KFoldWithinGroups(3), ms.InterlacedKFold(3)):
        observe(ctx, type(cv).__name__, lambda x, y: list(cv.split(
            x, groups=y)), [X, g], [cv])


def do_options(ctx):
    """arguments given to constructors"""
    kind = ctx.choice(models.MF)
    data, _ = models.training(ctx, kind)
    other, _ = gens.gen_data(ctx)
    opts = {'maxiter': ctx.choice([1, 2, 3])}
    if ctx.coin():
        opts['gtol'] = 1e-4
    kw = {'options': opts}
    if ctx.coin():
        kw['method'] = 'CG' if 'gtol' in opts else ctx.choice(models.METHODS)
    if ctx.coin():
        kw['maxiter'] = 2
    cls = models.classes()[kind]

    def go(k):
        rec = cls(random_state=3, **k)
        rec.fit(data)
        return rec
    a = observe(ctx, 'constructor and fit', go, [kw], [data, other, opts],
                overwrite=False)
    b = observe(ctx, 'constructor and fit', go, [kw], [data, other, opts, a],
                overwrite=False)
    ctx.check(core.freeze(a) == core.freeze(b),
              'models made of the same options differ')
    # one is changed; the other is not
    before = core.freeze(b)
    a.optimizer_kwargs['options']['maxiter'] = 99
    a.fit_results_.clear()
    for x in (a.bu_, a.bi_, a.p_, a.q_, a.mu_):
        x[...] = 1.
    c = cls(random_state=3, **kw)
    ctx.check(core.freeze(b) == before and opts.get('maxiter') != 99,
              'models share their states')
    ctx.check(c.optimizer_kwargs['options'].get('maxiter') != 99 and
              'final_loss' in c.fit_results_,
              'states are shared with models made later')


def do_query(ctx):
    kind = ctx.choice(models.KINDS)
    data, ref = models.training(ctx, kind)
    p = models.params(ctx, kind, maxiter=2)
    rec = models.build(kind, p)
    rec.fit(data)
    q, _ = models.queries(ctx, ref)
    if ctx.coin(.3):
        q = np.asfortranarray(q)
    other, _ = gens.gen_data(ctx)
    observe(ctx, 'predict', rec.predict, [q], [rec, data, other])
    observe(ctx, 'predict', rec.predict, [q[0]], [rec, data])
    if ctx.coin():
        observe(ctx, 'predict', rec.predict, [q.tolist()], [rec, data])
    observe(ctx, 'to_iid_event', rec.to_iid_event, [q], [rec, data])
    iev = rec.to_iid_event(ref.ev)
    observe(ctx, 'to_eid_event', rec.to_eid_event, [iev], [rec, data])
    if hasattr(rec, 'get_score_levels'):
        observe(ctx, 'get_score_levels', rec.get_score_levels, [], [rec])


def do_fit(ctx):
    """training changes the model only"""
    kind = ctx.choice(models.KINDS)
    data, ref = models.training(ctx, kind)
    for o in range(2):
        if ctx.coin():
            gens.add_feature(ctx, data, ref, o)
    other, _ = gens.gen_data(ctx, features=True)
    p = models.params(ctx, kind)
    if kind in models.MF and ctx.coin():
        p.pop('maxiter', None)
        p['options'] = {'maxiter': ctx.choice([1, 5, 20])}
        models.method(ctx, p)
    # a bystander
    by = models.build(kind, p)
    w0 = world()
    by.fit(data)
    for i, (a, b) in enumerate(zip(w0, world())):
        ctx.check(a == b, 'the state of the process was changed by training',
                  which=i, before=a, after=b, params=p)
    idx = ctx.choice([(0, 1), [0, 1], np.array([0, 1]), (1, 0)])

    def go(d, i):
        m = models.build(kind, p)
        if m.fit(d, event_index=i) is None:
            pass
        return m
    m = observe(ctx, 'fit', go, [data, idx],
                [other, by, ref.ev, ref.score, p], overwrite=False)
    fresh = models.build(kind, p)
    for x in ('C', 'k', 'alpha', 'use_expectation', 'random_state'):
        if hasattr(fresh, x):
            ctx.check(core.freeze(getattr(fresh, x)) ==
                      core.freeze(getattr(m, x)),
                      'training changed an option of a model', option=x,
                      got=getattr(m, x))
    if isinstance(idx, np.ndarray):
        q = ref.ev[:5]
        want = m.predict(q)
        keep = idx.copy()
        idx[...] = idx[::-1].copy()
        ctx.equal(m.predict(q), want, 'an array of a caller is a part of a '
                  'model')
        idx[...] = keep
    before = core.freeze([data, by, idx])
    for o in range(len(m.eid)):
        m.eid[o] = m.iid[o] = None
    scribble(ctx, m.n_objects)
    scribble(ctx, m.event_index)
    m.fit_results_.clear()
    ctx.check(core.freeze([data, by, idx]) == before,
              'a model shares memory with data or another model')
    gens.check_container(ctx, data, ref)
