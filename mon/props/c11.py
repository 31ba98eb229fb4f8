"""C11: training is decided by the seed and data only"""
import contextlib
import os
import pickle
import subprocess
import sys
import threading
import numpy as np
from .. import core, gens, models
from ..core import rng_state

STRATA = [k + '/' + m for k in models.KINDS
          for m in ('global rng', 'RandomState', 'None', 'relabel', 'threads',
                    'seeds')]
CASES = {'quick': 1200, 'thorough': 15000}
NEED = {'pairs of fits compared': 1000, 'concurrent fits': 200,
        'other seeds': 100, 'fits in other processes': 5, 'delays injected': 500}
RULE = ('pairs of fits on the same data, with the global generator perturbed, '
        'with generator objects, with ids relabelled in the same order, and '
        'from concurrent threads; distinct = different (model, parameters, '
        'data)')
ASSUMPTIONS = ['single-threaded BLAS, so that arithmetic is deterministic']

ATTR = ['mu_', 'bu_', 'bi_', 'p_', 'q_', 'pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_']
RES = ['initial_loss', 'final_loss', 'n_iterations', 'success', 'status',
       'n_users', 'n_items', 'n_events', 'n_parameters']


def same_model(ctx, a, b, msg, **kw):
    n = 0
    for name in ATTR:
        x, y = getattr(a, name, None), getattr(b, name, None)
        if x is None and y is None:
            continue
        n += 1
        ctx.close(x, y, msg + ' (%s)' % name, rtol=1e-12, atol=1e-300, **kw)
    for name in RES:
        ctx.check(a.fit_results_[name] == b.fit_results_[name] or
                  (name.endswith('loss') and np.isclose(
                      a.fit_results_[name], b.fit_results_[name],
                      rtol=1e-12)), msg + ' (%s)' % name,
                  a=a.fit_results_[name], b=b.fit_results_[name], **kw)
    ctx.check(n >= 4, 'no public parameters')
    ctx.obs('pairs of fits compared')


def learned(rec):
    return core.freeze([getattr(rec, name, None) for name in ATTR])


OTHER = '''
import pickle, sys
import numpy as np
path, verif = sys.argv[1:]
sys.path.insert(0, verif)
from mon import models
from kamrecsys.data import EventData, EventWithScoreData
with open(path, 'rb') as fp:
    kind, p, ev, sc, dom, attr, res = pickle.load(fp)
if sc is None:
    d = EventData()
    d.set_event(ev)
else:
    d = EventWithScoreData()
    d.set_event(ev, sc, score_domain=dom)
m = models.build(kind, p)
m.fit(d)
out = ({a: np.asarray(getattr(m, a)) for a in attr if
        getattr(m, a, None) is not None},
       {a: m.fit_results_[a] for a in res})
with open(path, 'wb') as fp:
    pickle.dump(out, fp)
'''


class Other(object):
    """a model that was trained in another process"""


def process(ctx, kind, p, ref):
    """train in a process in which strings have other hash values"""
    path = os.path.join(os.environ['KAM_SCRATCH'], 'c11-%d-%d.pickle' % (
        os.getpid(), ctx.case))
    with open(path, 'wb') as fp:
        pickle.dump((kind, p, ref.ev, ref.score, None if ref.score is None
                     else tuple(ref.dom.tolist()), ATTR, RES), fp)
    try:
        r = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c', OTHER, path,
             os.path.dirname(os.path.dirname(core.__file__))],
            env=dict(os.environ, PYTHONHASHSEED=str(ctx.randint(1, 10 ** 6))),
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=120)
        ctx.check(r.returncode == 0, 'training in another process failed',
                  stderr=r.stderr[-1500:])
        with open(path, 'rb') as fp:
            attr, res = pickle.load(fp)
    finally:
        os.unlink(path)
    m = Other()
    vars(m).update(attr)
    m.fit_results_ = res
    ctx.obs('fits in other processes')
    return m


def fit(kind, p, data):
    return models.build(kind, p).fit(data)


def case(ctx):
    kind, mode = ctx.stratum.split('/')
    r = ctx.rng
    n = ctx.randint(2, 60)
    data, ref = models.training(ctx, kind, n=n)
    p = models.params(ctx, kind)
    seed = p['random_state']
    if mode == 'None':
        p['random_state'] = None
        np.random.seed(seed)
        a = models.build(kind, p)
        a.fit(data)
        np.random.seed(seed)
        b = models.build(kind, p)
        b.fit(data)
        same_model(ctx, a, b, 'fits after seeding the global generator')
    elif mode == 'RandomState':
        a = models.build(kind, p)
        a.fit(data)
        p['random_state'] = np.random.RandomState(seed)
        gs = rng_state()
        b = models.build(kind, p)
        b.fit(data)
        ctx.check(rng_state() == gs, 'the global generator was used')
        same_model(ctx, a, b, 'a seed and a generator made of it')
    elif mode == 'relabel':
        a = models.build(kind, p)
        a.fit(data)
        # other ids in the same order
        ev = np.empty(ref.ev.shape, dtype=int)
        for o in range(2):
            ids = np.unique(ref.ev[:, o])
            new = np.cumsum(r.randint(1, 50, len(ids))) - r.randint(0, 300)
            ev[:, o] = new[np.searchsorted(ids, ref.ev[:, o])]
        if ref.score is not None:
            from kamrecsys.data import EventWithScoreData
            d2 = EventWithScoreData()
            d2.set_event(ev, ref.score, score_domain=tuple(ref.dom.tolist()))
        else:
            from kamrecsys.data import EventData
            d2 = EventData()
            d2.set_event(ev)
        b = models.build(kind, p)
        b.fit(d2)
        same_model(ctx, a, b, 'relabelled ids', ids=ref.ev[:5], new=ev[:5])
        ctx.close(np.ravel(a.predict(ref.ev)), np.ravel(b.predict(ev)),
                  'predictions for relabelled ids', rtol=1e-9, atol=1e-12)
    elif mode == 'threads':
        a = models.build(kind, p)
        a.fit(data)
        recs = [models.build(kind, p) for _ in range(3)]
        # another model is trained on other data at the same time
        other, _ = models.training(ctx, kind)
        guest = models.build(kind, models.params(ctx, kind))
        err = []

        def work(x):
            try:
                x.fit(data if x in recs else other)
            except Exception as e:
                err.append(e)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            with (core.delays(ctx, .02) if ctx.coin(.4) else
                  contextlib.nullcontext()):
                th = [threading.Thread(target=work, args=(x,))
                      for x in recs[:2] + [guest] + recs[2:]]
                for t in th:
                    t.start()
                for t in th:
                    t.join()
        finally:
            sys.setswitchinterval(old)
        ctx.check(not err, 'an error in a concurrent fit', err=err)
        for x in recs:
            same_model(ctx, a, x, 'concurrent fits')
            ctx.obs('concurrent fits')
    elif mode == 'seeds':
        a = models.build(kind, p)
        a.fit(data)
        b = models.build(kind, p)
        b.fit(data)
        same_model(ctx, a, b, 'the same seed')
        if ctx.coin(.2):
            same_model(ctx, a, process(ctx, kind, p, ref),
                       'the same training in another process')
        # whatever type of integer the seed is
        t = ctx.choice([np.int64, np.int32, np.int16, np.uint32, np.uint64])
        gs = rng_state()
        d = models.build(kind, dict(p, random_state=t(seed)))
        d.fit(data)
        ctx.check(rng_state() == gs, 'the global generator was used')
        same_model(ctx, a, d, 'a seed of another type', type=t)
        p2 = dict(p, random_state=seed + 1)
        c = models.build(kind, p2)
        c.fit(data)
        # another seed gives another start, where randomness has an effect
        if kind in ('LogisticPMF', 'ImplicitLogisticPMF'):
            ctx.check(a.fit_results_['initial_loss'] !=
                      c.fit_results_['initial_loss'] or
                      learned(a) != learned(c),
                      'another seed gives the same start')
        # so does a seed that differs in any one bit
        la, lc = (x.fit_results_['initial_loss'] for x in (a, c))
        if abs(la - lc) > 1e-8 * max(abs(la), abs(lc)):
            for bit in r.permutation(np.arange(1, 32))[:2]:
                o = seed ^ (1 << int(bit))
                e = models.build(kind, dict(p, random_state=o))
                e.fit(data)
                # losses of different starts may be the same by rounding
                ctx.check(la != e.fit_results_['initial_loss'] or
                          learned(a) != learned(e),
                          'another seed gives the same start', seeds=[seed, o])
                ctx.obs('other seeds')
    else:
        gs0 = rng_state()
        a = models.build(kind, p)
        a.fit(data)
        ctx.check(rng_state() == gs0, 'the global generator was used')
        np.random.seed(ctx.randint(0, 10 ** 6))
        np.random.rand(ctx.randint(0, 9))
        b = models.build(kind, p)
        b.fit(data)
        same_model(ctx, a, b, 'the state of the global generator matters')
        q, _ = models.queries(ctx, ref)
        ctx.close(a.predict(q), b.predict(q), 'predictions', rtol=1e-9,
                  atol=1e-12)
    ctx.sig(kind, sorted(map(str, p.items())), ref.ev.tobytes())
    ctx.note(stratum=ctx.stratum, params=p, events=ref.ev[:3], n=n)
