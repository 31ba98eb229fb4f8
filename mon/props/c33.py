# -*- coding: utf-8 -*-
"""C33: what is left out takes its documented default"""
import contextlib
import io

import numpy as np

from .. import core, gens, models

STRATA = ['model', 'model', 'fit', 'split', 'metric', 'container', 'loader',
          'flags']
CASES = {'quick': 960, 'thorough': 12000}
NEED = {'defaults compared': 800, 'models compared': 150}
RULE = ('calls with a random subset of parameters left out, against the same '
        'calls with the documented defaults given; distinct = different '
        '(operation, parameters left out, data)')

# as documented in the docstrings of the package
DOC = {
    'PMF': {'C': 1.0, 'k': 1},
    'LogisticPMF': {'C': 1.0, 'k': 1},
    'ImplicitLogisticPMF': {'C': 1.0, 'k': 1},
    'PLSA': {'k': 1, 'alpha': 1.0, 'use_expectation': True, 'tol': 1e-10,
             'maxiter': 100},
}
KINDS = list(DOC)
ORDER = {'PLSA': ['k', 'alpha', 'use_expectation', 'random_state'],
         'PMF': ['C', 'k', 'random_state']}


def public(rec):
    """the learned, public state of a model"""
    return core.freeze({k: v for k, v in vars(rec).items()
                        if not k.startswith('_') and k not in (
                            'random_state', 'optimizer_kwargs')})


def two(ctx, f, g, msg, **kw):
    """the same result, bit by bit"""
    a, b = f(), g()
    ctx.check(core.same(a, b), msg, without=a, given=b, **kw)
    ctx.obs('defaults compared')
    return a


def model(ctx):
    kind = ctx.choice(KINDS)
    cls = models.classes()[kind]
    data, ref = models.training(ctx, kind, n=None if kind != 'PLSA' else
                                ctx.randint(2, 40))
    alt = {'C': [.1, 3.], 'k': [2, 4], 'alpha': [.1, 2.5],
           'use_expectation': [False], 'tol': [1e-2, 1e-4],
           'maxiter': [1, 3, 7]}
    full, given = {}, {}
    for k, v in DOC[kind].items():
        if ctx.coin(.6):
            full[k] = v                     # left out in the other call
        else:
            full[k] = given[k] = ctx.choice(alt[k])
    if kind != 'PLSA':
        full['method'] = 'CG'
        if ctx.coin():
            full['options'] = {'disp': False}
        full['maxiter'] = given['maxiter'] = ctx.choice([2, 10])
    seed = 0 if ctx.coin(.1) else ctx.randint(0, 9999)
    full['random_state'] = given['random_state'] = seed
    a, b = cls(**given), cls(**full)
    # by position, in the documented order
    order = ORDER['PLSA' if kind == 'PLSA' else 'PMF']
    rest = {k: v for k, v in full.items() if k not in order}
    c = cls(*[full[k] for k in order], **rest)
    for rec in (a, b, c):
        rec.fit(data)
    q, _ = models.queries(ctx, ref)
    pa, pb, pc = a.predict(q), b.predict(q), c.predict(q)
    ctx.check(core.same(pa, pb), 'a model with parameters left out differs '
              'from one with the documented defaults', kind=kind,
              given=given, full=full, without=pa, explicit=pb)
    ctx.check(core.same(pa, pc), 'parameters given by position differ',
              kind=kind, full=full)
    ctx.check(public(a) == public(b) == public(c), 'parameters, state, or '
              'reports differ', kind=kind, given=given, full=full)
    ctx.obs('models compared')
    ctx.obs('defaults compared')
    ctx.sig(kind, sorted(map(str, given.items())), ref.ev.tobytes())
    ctx.note(kind=kind, given=given, full=full, events=ref.ev[:3])


def fit(ctx):
    """event_index is (0, 1), and a random state is None"""
    kind = ctx.choice(KINDS)
    while True:
        data, ref = models.training(ctx, kind, layout='any')
        if len(ref.eo) >= 2:
            break
    p = models.params(ctx, kind, maxiter=3)
    a, b = models.build(kind, p), models.build(kind, p)
    a.fit(data)
    b.fit(data, event_index=ctx.choice([(0, 1), [0, 1], np.array([0, 1])]))
    q, _ = models.queries(ctx, ref)
    ctx.check(public(a) == public(b) and core.same(a.predict(q),
                                                   b.predict(q)),
              'the default columns of events are not (0, 1)', kind=kind,
              eo=ref.eo)
    del p['random_state']
    s = ctx.randint(0, 9999)
    np.random.seed(s)
    c = models.build(kind, p)
    c.fit(data)
    p['random_state'] = None
    np.random.seed(s)
    d = models.build(kind, p)
    d.fit(data)
    ctx.check(public(c) == public(d), 'the default random state is not None',
              kind=kind)
    ctx.obs('models compared')
    ctx.obs('defaults compared', 2)
    ctx.sig('fit', kind, sorted(map(str, p.items())), ref.ev.tobytes())


def split(ctx):
    from kamrecsys.model_selection import (
        ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold)
    n = ctx.randint(25, 90)
    X = np.zeros((n, 2))
    groups = None if ctx.coin(.3) else np.sort(ctx.rng.randint(0, 2, n))
    if groups is not None and np.bincount(groups).min() < 10:
        groups = None
    y = None if ctx.coin() else np.arange(n)
    s = ctx.randint(0, 9999)

    def run(cls, kw):
        np.random.seed(s)
        cv = cls(**kw)
        return cv.get_n_splits(X), list(cv.split(X, y, groups))

    doc = {'shuffle': dict(n_splits=10, test_size=.1, train_size=None,
                           shuffle=True, random_state=None),
           'kfold': dict(n_splits=3, shuffle=False, random_state=None),
           'interlaced': dict(n_splits=3)}
    name = ctx.choice(sorted(doc))
    cls = {'shuffle': ShuffleSplitWithinGroups, 'kfold': KFoldWithinGroups,
           'interlaced': InterlacedKFold}[name]
    full = dict(doc[name])
    given = {}
    for k, alt in (('n_splits', [2, 4, 5]), ('test_size', [.2, 5]),
                   ('train_size', [.5, 3]), ('shuffle', [True, False]),
                   ('random_state', [3, 99])):
        if k in full and ctx.coin(.35):
            full[k] = given[k] = ctx.choice(alt)
    if name == 'interlaced':
        groups = None
    two(ctx, lambda: run(cls, given), lambda: run(cls, full),
        'a splitter with parameters left out differs from one with the '
        'documented defaults', name=name, left_out=sorted(
            set(full) - set(given)))
    # groups and targets are optional
    np.random.seed(s)
    a = list(cls(**full).split(X))
    np.random.seed(s)
    b = list(cls(**full).split(X, None, None))
    np.random.seed(s)
    c = list(cls(**full).split(X, y, np.zeros(n, dtype=int)))
    ctx.check(core.same(a, b) and core.same(a, c), 'data without groups are '
              'not of one group', name=name)
    ctx.sig('split', name, sorted(map(str, given.items())), n, s,
            core.freeze(groups))


def metric(ctx):
    from kamrecsys.metrics import (
        score_predictor_report, score_predictor_statistics,
        item_finder_report, score_histogram)
    import kamrecsys.metrics as M
    r = ctx.rng
    n = ctx.randint(4, 40)
    t = r.randint(1, 6, n).astype(float)
    y = r.rand(n) * 6
    m = r.randint(4)
    if m == 0:
        two(ctx, lambda: score_histogram(t),
            lambda: score_histogram(t, score_domain=(1, 5, 1)),
            'the default score domain of a histogram')
        two(ctx, lambda: score_predictor_statistics(t, y),
            lambda: score_predictor_statistics(t, y, score_domain=(1, 5, 1)),
            'the default score domain of statistics')
    elif m == 1:
        f = M.variance_with_gamma_prior
        x = r.normal(0, ctx.choice([1e-9, 1e-4, 1.]), n)
        if ctx.coin(.3):
            x[:] = x[0]
        a, b = ctx.choice([.5, 1e-8]), ctx.choice([.25, 1e-8])
        w = two(ctx, lambda: f(x), lambda: f(
            x, a=1e-8, b=1e-8, full_output=False, force_all_finite=False),
            'the default prior')
        ctx.check(np.ndim(w) == 0, 'only a variance is returned')
        two(ctx, lambda: f(x, a=a), lambda: f(x, a=a, b=1e-8), 'default b')
        two(ctx, lambda: f(x, b=b), lambda: f(x, a=1e-8, b=b), 'default a')
        two(ctx, lambda: f(x, a, b, True), lambda: f(
            x, full_output=True, b=b, a=a), 'order of parameters')
        x[0] = np.nan
        two(ctx, lambda: f(x), lambda: f(x, force_all_finite=False),
            'non-finite data are not ignored by default')
    else:
        f = score_predictor_report if m == 2 else item_finder_report
        if m == 3:
            t = (r.rand(n) < .5).astype(int)
            t[:2] = 0, 1

        def text(*a, **k):
            e, o = io.StringIO(), io.StringIO()
            with contextlib.redirect_stderr(e), contextlib.redirect_stdout(o):
                s = f(*a, **k)
            return s, e.getvalue(), o.getvalue()
        s = two(ctx, lambda: text(t, y), lambda: text(t, y, disp=True),
                'reports are not printed by default')
        ctx.check(s[1] or s[2], 'reports are not printed by default')
        q = text(t, y, disp=False)
        ctx.check(not q[1] and not q[2] and core.same(q[0], s[0]),
                  'reports differ if not printed', got=q)
    ctx.sig('metric', int(m), t.tobytes(), y.tobytes())


def container(ctx):
    from kamrecsys.data import BaseData, EventData, EventWithScoreData
    dom = gens.gen_domain(ctx)
    ev, _, kind = gens.gen_events(ctx, 2, None, n=ctx.randint(2, 40))
    n = len(ev)
    sc = np.array(gens.gen_scores(ctx, dom, n), dtype=float)
    sc[0], sc[-1] = gens.domain_levels(dom)[[0, 1]]

    def look(d):
        return core.freeze({k: v for k, v in vars(d).items()
                            if not k.startswith('_')})
    ctors = [((), {}), ((2,), {}), ((), dict(n_otypes=2)),
             ((2, None), {}), ((2, (0, 1)), {}),
             ((), dict(event_otypes=(0, 1))),
             ((), dict(n_otypes=2, event_otypes=np.array([0, 1])))]
    out = []
    for a, k in ctors:
        d = EventData(*a, **k)
        d.set_event(ev)
        d2 = EventData(*a, **k)
        d2.set_event(ev, event_feature=None)
        out += [look(d), look(d2)]
    ctx.check(all(o == out[0] for o in out), 'the default layout of events '
              'is not two columns of different types')
    class Objects(BaseData):
        """a container of objects only"""
    out = [look(Objects(*a, **k)) for a, k in (
        ((), {}), ((2,), {}), ((), dict(n_otypes=2)))]
    ctx.check(all(o == out[0] for o in out), 'two types of objects are the '
              'default of a container')
    out = []
    for a, k in ctors:
        d = EventWithScoreData(*a, **k)
        d.set_event(ev, sc)
        d2 = EventWithScoreData(*a, **k)
        d2.set_event(ev, sc, score_domain=None, event_feature=None)
        out += [look(d), look(d2)]
    ctx.check(all(o == out[0] for o in out), 'the default layout or score '
              'domain of scored events')
    d = EventWithScoreData()
    d.set_event(ev, sc, dom)
    e = EventWithScoreData()
    e.set_event(ev, sc, score_domain=dom)
    two(ctx, d.digitize_score, lambda: d.digitize_score(score=None),
        'digitising own scores is the default')
    two(ctx, d.digitize_score, lambda: d.digitize_score(np.array(sc)),
        'digitising own scores is the default')
    q = ev[ctx.rng.permutation(n)[:5]]
    two(ctx, lambda: d.to_iid_event(q), lambda: d.to_iid_event(
        q, missing_values=None), 'default of missing values')
    two(ctx, lambda: d.to_iid_event(q), lambda: d.to_iid_event(
        q, d.n_objects.copy()), 'missing values are the numbers of objects '
        'by default')
    d.binarize_score()
    e.binarize_score(score_thresh=None)
    ctx.check(look(d) == look(e), 'the default threshold')
    ctx.obs('defaults compared', 3)
    ctx.sig('container', ev.tobytes(), sc.tobytes(), dom)


def loader(ctx):
    from kamrecsys.datasets import (
        load_event, load_event_with_score, event_dtype_timestamp)
    r = ctx.rng
    n = ctx.randint(1, 20)
    rows = r.randint(0, 30, (n, 2))
    sc = r.randint(1, 6, n)
    ts = r.randint(0, 10 ** 9, n)
    stamped = ctx.coin()
    ed = event_dtype_timestamp if stamped else None

    def look(d):
        return core.freeze({k: v for k, v in vars(d).items()
                            if not k.startswith('_')})

    def fp(scored):
        cols = [rows] + ([sc] if scored else []) + ([ts] if stamped else [])
        m = np.column_stack(cols)
        return io.BytesIO(('\n'.join('\t'.join(map(str, x))
                                     for x in m.tolist()) +
                           '\n').encode())
    kw = {} if not stamped else dict(event_dtype=ed)
    two(ctx, lambda: look(load_event(fp(False), **kw)), lambda: look(
        load_event(fp(False), n_otypes=2, event_otypes=None,
                   event_dtype=ed)), 'defaults of loading events')
    two(ctx, lambda: look(load_event(fp(False), 2, (0, 1), ed)),
        lambda: look(load_event(fp(False), **kw)),
        'defaults of loading events, by position')
    two(ctx, lambda: look(load_event_with_score(fp(True), **kw)),
        lambda: look(load_event_with_score(
            fp(True), n_otypes=2, event_otypes=None, score_domain=(1, 5, 1),
            event_dtype=ed)), 'defaults of loading scored events')
    two(ctx, lambda: look(load_event_with_score(fp(True), 2, (0, 1),
                                                (1, 5, 1), ed)),
        lambda: look(load_event_with_score(fp(True), **kw)),
        'defaults of loading scored events, by position')
    ctx.sig('loader', rows.tobytes(), sc.tobytes(), stamped)


def flags(ctx):
    """other documented defaults and facts"""
    from kamrecsys import utils
    import platform
    import scipy
    import sklearn
    m = ctx.randint(0, 2)
    if m == 0:
        x = ctx.choice([[0, 0], [1, 1, 1], [0, 1], [1.], [0], [0, 2], [2],
                        [1, 1.5]])
        x = np.array(x * ctx.randint(1, 4), dtype=ctx.choice([int, float]))
        two(ctx, lambda: bool(utils.is_binary_score(x)), lambda: bool(
            utils.is_binary_score(x, allow_uniform=True)),
            'uniform scores are allowed by default')
        ctx.check(bool(utils.is_binary_score(x)) == set(
            x.tolist()).issubset({0, 1}), 'binary scores', x=x)
    elif m == 1:
        v = utils.get_version_info()
        for k, w in (('sklearn', sklearn.__version__),
                     ('numpy', np.__version__), ('scipy', scipy.__version__),
                     ('python', platform.python_version()),
                     ('python_implementation',
                      platform.python_implementation()),
                     ('python_compiler', platform.python_compiler())):
            ctx.check(v[k] == w, 'version information', key=k, got=v[k],
                      want=w)
    else:
        a = utils.get_system_info()
        b = utils.get_system_info(output_node_info=True)
        ctx.check('node' not in a, 'a host name is output by default')
        ctx.check(b['node'] == platform.node(), 'the host name is missing')
        ctx.check(all(a[k] == getattr(platform, k)() for k in (
            'system', 'release', 'version', 'machine', 'processor')) and
            isinstance(a['hardware'], list), 'system information', got=a)
        import json
        utils.json_decodable(b)
        ctx.check(json.loads(json.dumps(b)) == b, 'system information is '
                  'not convertible')
    ctx.obs('defaults compared')
    ctx.sig('flags', m, ctx.case)


def case(ctx):
    globals()[ctx.stratum](ctx)
