# -*- coding: utf-8 -*-
"""C34: recommenders written by users on the base classes"""
import numpy as np

from .. import core, gens, models

STRATA = ['event', 'score', 'explicit', 'implicit', 'event', 'score',
          'refuse']
CASES = {'quick': 2100, 'thorough': 30000}
NEED = {'training data compared': 1500, 'queries compared': 4000,
        'refusals': 150}
RULE = ('recommenders derived from each base class that record what they are '
        'given, in histories of fits and queries; distinct = different (base '
        'class, layout, columns, data)')

# classes that use all columns unless told otherwise
WIDE = ('event', 'implicit')
_classes = None


def raw(ev, form):
    """what a user's model predicts, of any kind"""
    w = 10 ** np.arange(ev.shape[1])
    x = ev.dot(w)
    return {'real': lambda: .25 + x, 'long': lambda: x + 2 ** 60,
            'flag': lambda: x % 2 == 0,
            'single': lambda: (.25 + x % 1000).astype('f4'),
            'wide': lambda: 1e300 * (1. + x)}[form]()


def classes():
    global _classes
    if _classes:
        return _classes
    from kamrecsys.base import BaseEventRecommender
    from kamrecsys.score_predictor import BaseScorePredictor
    from kamrecsys.item_finder import (
        BaseExplicitItemFinder, BaseImplicitItemFinder)

    class Recorder(object):
        """what a user might write: memorises and looks up"""

        def __init__(self, random_state=None):
            super(Recorder, self).__init__(random_state=random_state)
            self.calls = []
            self.form = 'real'
            self.matrices = ('csr', 'csc', 'lil', 'array')

        def fit(self, data, *a, **kw):
            super(Recorder, self).fit(data, *a, **kw)
            ev, n_objects = self.get_event()
            self.seen = np.array(ev), np.array(n_objects)
            self.draw = self._rng.randint(10 ** 9)
            if hasattr(self, 'get_score'):
                self.seen_score = np.array(self.get_score())
            if hasattr(self, 'get_event_array') and np.shape(ev)[1] == 2:
                self.seen_array = {
                    t: self.get_event_array(t)
                    for t in self.matrices}
                self.seen_default = self.get_event_array()
            self.remove_data()

        def raw_predict(self, ev):
            ev = np.array(ev)
            self.calls.append(ev)
            return raw(ev, self.form)

    _classes = {
        'event': type('UserEvent', (Recorder, BaseEventRecommender), {}),
        'score': type('UserScore', (Recorder, BaseScorePredictor), {}),
        'explicit': type('UserExplicit', (Recorder, BaseExplicitItemFinder),
                         {}),
        'implicit': type('UserImplicit', (Recorder, BaseImplicitItemFinder),
                         {})}
    return _classes


def make_data(ctx, kind, least):
    while True:
        if kind == 'explicit':
            data, ref = models.training(ctx, 'LogisticPMF', layout='any')
        elif kind == 'score':
            data, ref = gens.gen_data(ctx, scored=True)
            if ctx.coin(.3):
                # scores beyond the ends of the domain
                sc = np.asarray(ref.score, dtype=float) * ctx.choice(
                    [3, -2.5]) + ctx.choice([0, 7])
                data.set_event(ref.ev, sc, score_domain=tuple(ref.dom))
                old, ref = ref, gens.Ref(ref.n_otypes, ref.eo, ref.ev, sc,
                                         ref.dom)
                ref.pools = old.pools
        else:
            data, ref = gens.gen_data(ctx, scored=ctx.coin())
        if len(ref.eo) >= least:
            return data, ref


def case(ctx):
    kind = ctx.stratum
    if kind == 'refuse':
        return refuse(ctx)
    if kind != 'explicit' and ctx.coin(.003):
        return vast(ctx, kind)
    r = ctx.rng
    rec = classes()[kind](random_state=ctx.choice([None, 0, 3, 77]))
    for turn in range(ctx.choice([1, 1, 2, 3])):
        data, ref = make_data(ctx, kind, 1)
        s = len(ref.eo)
        how = ctx.randint(0, 4)
        if how == 0 and (kind in WIDE or s >= 2):
            ei = list(range(s)) if kind in WIDE else [0, 1]
            args = ()
        else:
            m = 2 if how == 1 else ctx.randint(1, s + 1)
            ei = [int(i) for i in r.randint(0, s, m)]
            if how == 2:
                ei = [int(i) for i in r.permutation(s)]
            args = (ctx.choice([tuple, list, np.array])(ei),)
        frozen = core.freeze(data)
        if args and ctx.coin():
            rec.fit(data, event_index=args[0])
        else:
            rec.fit(data, *args)
        ctx.check(core.freeze(data) == frozen, 'fitting changed the data')
        look(ctx, rec, kind, ref, ei)
        ctx.check(rec.event is None and getattr(rec, 'score', None) is None
                  and rec.event_feature is None,
                  'training data are kept after they were removed')
        for _ in range(ctx.randint(1, 3)):
            query(ctx, rec, ref, ei)
        ctx.sig(kind, ref.eo, ei, ref.ev.tobytes())
        ctx.note(kind=kind, eo=ref.eo, columns=ei, events=ref.ev[:3],
                 n_objects=rec.seen[1])


def vast(ctx, kind):
    """more objects and events than 16 bits count"""
    data, ev, obj, big = gens.vast(ctx, (1, 5, 1) if kind == 'score' else None)
    rec = classes()[kind]()
    rec.matrices = ('csr', 'csc')
    ei = ctx.choice([(0, 1), (1, 0)])
    rec.fit(data, event_index=ei)
    iid = np.stack([np.searchsorted(obj[j], ev[:, j]) for j in ei], axis=1)
    ctx.check(np.array_equal(rec.seen[0], iid), 'many training events')
    ctx.check(rec.seen[1].tolist() == [len(obj[j]) for j in ei],
              'the numbers of objects')
    if kind == 'score':
        ctx.check(np.array_equal(rec.seen_score, data.score),
                  'many training scores')
    if kind == 'implicit':
        pairs = np.unique(iid, axis=0)
        for t, (m, k) in rec.seen_array.items():
            m = m.tocoo()
            got = np.stack([m.row, m.col], axis=1)[m.data != 0]
            ctx.check(m.shape == tuple(k) and np.all(m.data == 1) and
                      np.array_equal(np.unique(got, axis=0), pairs),
                      'matrix of many objects', form=t)
            ctx.obs('matrices compared')
    rec.calls[:] = []
    rec.form = 'real'
    got = rec.predict(ev)
    ctx.check(np.array_equal(np.concatenate(rec.calls), iid) and
              np.array_equal(got, raw(iid, 'real')), 'many queried events')
    ctx.obs('training data compared')
    ctx.obs('queries compared', len(ev))
    ctx.sig('vast', kind, len(ev))


def look(ctx, rec, kind, ref, ei):
    """the data given to a model, in terms of external ids"""
    ev, no = rec.seen
    n = len(ref.ev)
    ctx.check(ev.shape == (n, len(ei)) and ev.dtype.kind in 'iu',
              'shape of training events', got=ev.shape, want=(n, len(ei)))
    ctx.check(no.tolist() == [len(ref.objects(ref.eo[j])) for j in ei],
              'the numbers of objects of the selected columns', got=no,
              eo=ref.eo, columns=ei)
    for c, j in enumerate(ei):
        o = ref.eo[j]
        ctx.equal(np.array([rec.to_eid(o, int(i)) for i in ev[:, c]]),
                  ref.ev[:, j], 'training events are not the selected '
                  'columns', column=j)
    ctx.equal(rec.event_index, ei, 'selected columns')
    if kind in ('score', 'explicit'):
        ctx.equal(rec.seen_score, ref.score, 'training scores')
        ctx.close(rec.score_domain, ref.dom if ref.dom is not None else
                  (0, 1, 1), 'score domain')
    if kind == 'implicit' and len(ei) == 2:
        want = np.zeros(no, dtype=int)
        want[ev[:, 0], ev[:, 1]] = 1
        for t, (m, k) in rec.seen_array.items():
            d = m if t == 'array' else m.toarray()
            ctx.check(t == 'array' or m.format == t, 'form of a matrix',
                      asked=t, got=type(m))
            ctx.equal(d, want, 'matrix of implicit feedback', form=t)
            ctx.equal(k, no, 'numbers of objects')
        ctx.check(rec.seen_default[0].format == 'csr', 'default form')
        ctx.obs('matrices compared', 4)
    ctx.obs('training data compared')


def query(ctx, rec, ref, ei):
    q, known = models.queries(ctx, ref, n=ctx.choice([1, None]))
    want = np.empty((len(q), len(ei)), dtype=int)
    for c, j in enumerate(ei):
        o = ref.eo[j]
        tab = {e: i for i, e in enumerate(np.asarray(rec.eid[o]).tolist())}
        for i in range(len(q)):
            want[i, c] = tab.get(q[i, j].item(), len(tab))
    arg = q
    one = len(q) == 1 and ctx.coin()
    if one:
        arg = q[0]
    if q.dtype.kind != 'U' and ctx.coin(.3):
        arg = models.as_list(arg)
    rec.calls[:] = []
    rec.form = ctx.choice(['real', 'real', 'long', 'flag', 'single', 'wide'])
    got = rec.predict(arg)
    ctx.check(sum(map(len, rec.calls)) == len(q), 'each queried event is not '
              'predicted once', calls=rec.calls, n=len(q))
    ctx.equal(np.concatenate(rec.calls), want, 'internal ids of queried '
              'events', query=q, columns=ei, eo=ref.eo)
    ctx.equal(np.ravel(got), raw(want, rec.form),
              'what raw_predict returns is not what a user gets')
    ctx.check(np.asarray(got).dtype == raw(want, rec.form).dtype,
              'kind of predictions', got=np.asarray(got).dtype)
    ctx.obs('queries compared', len(q))


def refuse(ctx):
    """data that the base classes cannot use"""
    from kamrecsys.data import EventData
    kind = ctx.choice(['score', 'explicit', 'event', 'implicit'])
    rec = classes()[kind]()
    if kind in ('score', 'explicit'):
        data, ref = gens.gen_data(ctx, scored=False, layout='default2')
    else:
        data = ctx.choice([np.zeros((3, 2), dtype=int), [[1, 2]], 'x',
                           object()])
    frozen = core.freeze(data)
    err = AttributeError if not isinstance(data, EventData) else ()
    ctx.raises((TypeError, ValueError) + ((err,) if err else (
        AttributeError,)), lambda: rec.fit(data),
        'data of another type are accepted', kind=kind)
    ctx.check(core.freeze(data) == frozen, 'refused data were changed')
    good, ref = make_data(ctx, kind, 2)
    rec.fit(good)
    look(ctx, rec, kind, ref, list(range(len(ref.eo)))
         if kind in WIDE else [0, 1])
    q, _ = models.queries(ctx, ref)
    ctx.raises(Exception, lambda: rec.predict(
        np.concatenate([q, q[:, :1]], axis=1)),
        'queries of illegal width are accepted')
    if len(ref.eo) > 1:
        ctx.raises(Exception, lambda: rec.predict(q[:, :-1]),
                   'queries of illegal width are accepted')
    query(ctx, rec, ref, list(range(len(ref.eo)))
          if kind in WIDE else [0, 1])
    ctx.obs('refusals')
    ctx.sig('refuse', kind, ref.ev.tobytes())
