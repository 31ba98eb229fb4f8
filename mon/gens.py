# -*- coding: utf-8 -*-
"""
Workload generators and a reference model of the data containers.

The reference keeps everything in terms of external ids, the way a user thinks
of the data; it knows nothing about internal ids.
"""
from __future__ import annotations

import copy

import numpy as np

ID_KINDS = ['small', 'sparse', 'negative', 'huge', 'narrow', 'unsigned',
            'byte', 'wide', 'str', 'strnum', 'float']
INT_KINDS = ['small', 'sparse', 'negative', 'huge', 'narrow', 'unsigned',
             'byte', 'wide']


def gen_ids(ctx, kind, n):
    """n distinct external ids of one kind, in no particular order"""
    r = ctx.rng
    if kind == 'small':
        ids = np.arange(n) + r.randint(0, 3)
    elif kind == 'sparse':
        ids = r.choice(n * 37 + 50, n, replace=False)
    elif kind == 'negative':
        ids = r.choice(n * 9 + 40, n, replace=False) - (n * 9 + 40) // 2
    elif kind == 'huge':
        ids = r.choice(n * 11 + 10, n, replace=False).astype('i8')
        ids = ids + np.int64(2) ** r.choice([31, 40, 53, 61])
    elif kind == 'narrow':
        ids = (r.choice(200, min(n, 200), replace=False) - 100).astype('i2')
    elif kind == 'unsigned':
        ids = r.choice(n * 5 + 20, n, replace=False).astype('u4')
    elif kind == 'wide':
        # hash values: beyond signed integers, and equal as real numbers
        ids = r.choice(n * 11 + 10, n, replace=False).astype('u8')
        ids = ids + np.uint64(2 ** 63 - n * 5)
    elif kind == 'byte':
        # most values of the type can be in use
        n = min(n, 250)
        if not hasattr(ctx, 'signed'):      # one type for all columns
            ctx.signed = r.rand() < .5
        if ctx.signed:
            ids = (r.choice(256, n, replace=False) - 128).astype('i1')
        else:
            ids = r.choice(256, n, replace=False).astype('u1')
    elif kind == 'str':
        base = ['Jack Matthews', 'Lisa', 'a', 'b', '', 'Ab', 'aB', 'Zoe', '10',
                '9', ' x', 'é', 'item one', 'item two', 'ITEM',
                # written differently, though they look or sort alike
                'e\u0301', 'É', 'x', 'x ', 'x\t', 'ß', 'ss', 'SS', '９',
                '09', '9.0', 'İ', 'i', 'ı', '\U0001f600', '\uff5e', 'nan']
        base = base + ['n%d' % i for i in range(n)]
        ids = np.array([base[i] for i in
                        r.choice(len(base), n, replace=False)])
        if ctx.coin(.1) and len(ids) > 1:
            # one of them is much longer than the others
            ids = ids.astype('U40')
            ids[0] = 'z' + str(ids[0]) + 'y' * ctx.randint(1, 30)
    elif kind == 'strnum':
        ids = np.array([str(i) for i in r.choice(n * 30 + 30, n,
                                                 replace=False)])
    elif kind == 'float':
        ids = (r.choice(n * 8 + 8, n, replace=False) - 4) / 4.0
        if len(ids) > 1 and ids[0] > 0 and int(ids[0] * 4) % 3 == 0:
            # neighbours among the floating point numbers
            ids[1] = np.nextafter(ids[0], 2 * ids[0])
    else:
        raise ValueError(kind)
    return ids[r.permutation(len(ids))]


def gen_layout(ctx, kind='any'):
    """(n_otypes, event_otypes or None)"""
    r = ctx.rng
    if kind == 'default2':
        return 2, None
    if kind == 'any':
        kind = ctx.choice(['default2', 'default', 'perm', 'repeat', 'subset',
                           'long'])
    if kind == 'default2':
        return 2, None
    if kind == 'default':
        return ctx.randint(1, 4), None
    if kind == 'perm':
        n = ctx.randint(2, 4)
        return n, tuple(int(i) for i in r.permutation(n))
    if kind == 'repeat':
        n = ctx.randint(1, 3)
        return n, tuple(int(i) for i in r.randint(0, n, n + 1))
    if kind == 'subset':
        n = ctx.randint(2, 4)
        s = ctx.randint(1, n - 1)
        return n, tuple(int(i) for i in r.permutation(n)[:s])
    n = ctx.randint(1, 4)
    return n, tuple(int(i) for i in r.randint(0, n, ctx.randint(1, 6)))


def gen_events(ctx, n_otypes, event_otypes, kind=None, n=None, pool=None,
               shape=None):
    """
    (events in external ids, pools): the pool of an object type may contain
    objects that never occur in the events
    """
    r = ctx.rng
    if kind is None:
        kind = ctx.choice(ID_KINDS)
    if shape is None:
        shape = ctx.choice(['tiny', 'small', 'single', 'dense', 'unique',
                            'skew', 'mid'],
                           p=[.15, .25, .1, .15, .1, .15, .1])
    if n is None:
        n = {'tiny': ctx.randint(1, 4), 'small': ctx.randint(3, 30),
             'single': ctx.randint(1, 12), 'dense': ctx.randint(20, 80),
             'unique': ctx.randint(2, 25), 'skew': ctx.randint(10, 60),
             'mid': ctx.randint(80, 250), 'many': ctx.randint(300, 700),
             'large': ctx.randint(3000, 12000)}[shape]
    if pool is None:
        pool = {'tiny': 4, 'small': ctx.randint(2, 15), 'single': 1,
                'dense': ctx.randint(2, 5), 'unique': n * 6 + 4,
                'skew': ctx.randint(4, 30), 'mid': ctx.randint(5, 60),
                'many': ctx.randint(130, 280),
                'large': ctx.randint(300, 3000)}[shape]
    eo = list(range(n_otypes)) if event_otypes is None else list(event_otypes)
    if kind == 'byte' and shape == 'unique':
        n = min(n, 240)
    pools = [gen_ids(ctx, kind, pool if shape != 'single' or r.rand() < .6
                     else ctx.randint(1, 4)) for _ in range(n_otypes)]
    cols = []
    for o in eo:
        p = pools[o]
        if shape == 'unique' and len(p) >= n:
            idx = r.permutation(len(p))[:n]
        elif shape == 'skew':
            idx = np.minimum(r.geometric(0.35, n) - 1, len(p) - 1)
        else:
            idx = r.randint(0, len(p), n)
        cols.append(p[idx])
    ev = np.array(cols).T
    if ev.dtype.kind in 'iuf' and cols:
        ev = np.stack(cols, axis=1).astype(cols[0].dtype)
    if n and r.rand() < .2:        # force some duplicated events
        k = r.randint(0, n, n)
        ev = ev[k]
    # memory layouts
    m = r.randint(6)
    if m == 1:
        ev = np.asfortranarray(ev)
    elif m == 4:
        ev = ev.copy()
        ev.setflags(write=False)
    elif m == 5:
        ev = ev.astype(ev.dtype.newbyteorder('>'))
    elif m == 2:
        big = np.empty((ev.shape[0] * 2, ev.shape[1]), dtype=ev.dtype)
        big[::2] = ev
        big[1::2] = ev[::-1]
        ev = big[::2]
    elif m == 3:
        rec = np.empty(ev.shape[0], dtype=[
            ('event', ev.dtype, (ev.shape[1],)), ('x', float)])
        rec['event'] = ev
        ev = rec['event']
    return ev, pools, kind


def gen_domain(ctx, kind=None):
    """score domain whose stride divides the range (up to rounding)"""
    r = ctx.rng
    if kind is None:
        kind = ctx.choice(['rating', 'half', 'binary', 'zero', 'neg', 'float',
                           'wide', 'thirds', 'big'])
    if kind == 'rating':
        return (1, 5, 1)
    if kind == 'half':
        return (0.5, 5.0, 0.5)
    if kind == 'binary':
        return (0, 1, 1)
    if kind == 'zero':
        return (0., 4., 1.)
    if kind == 'neg':
        s = ctx.randint(1, 3)
        return (-s * ctx.randint(1, 5), s * ctx.randint(0, 4), s)
    if kind == 'float':
        s = ctx.choice([0.1, 0.2, 0.05, 0.3, 0.7, 0.01])
        lo = round(r.randint(-12, 12) * 0.1, 10)
        if ctx.coin(.2):
            s = ctx.choice([.001, .0001, .015625, 2. ** -12])
            lo = ctx.choice([0., lo, 100., -1000.])
        n = ctx.randint(1, 25)
        return (lo, lo + n * s, s)
    if kind == 'thirds':
        return (0., 1., 1. / ctx.choice([3, 6, 7, 9, 49]))
    if kind == 'big':
        return (0, 100 * ctx.randint(1, 5), ctx.choice([10, 20, 25, 50]))
    return (1, ctx.randint(8, 20), 1)


def domain_levels(dom):
    n = int(round((dom[1] - dom[0]) / dom[2]))
    return np.array([dom[0] + dom[2] * i for i in range(n)] + [dom[1]],
                    dtype=float)


def gen_scores(ctx, dom, n):
    """scores lying on the levels of a domain"""
    lv = domain_levels(dom)
    r = ctx.rng
    m = r.randint(3)
    if m == 0:
        idx = r.randint(0, len(lv), n)
    elif m == 1:
        idx = np.minimum(r.geometric(.5, n) - 1, len(lv) - 1)
    else:
        idx = r.choice([0, len(lv) - 1], n)
    sc = lv[idx]
    if all(float(x).is_integer() for x in dom) and r.rand() < .4:
        sc = sc.astype(ctx.choice(['i8', 'i4', 'i2', 'f4', 'i8', 'i8']))
    m = r.randint(8)
    if m == 0:
        sc = sc.copy()
        sc.setflags(write=False)
    elif m == 1:
        sc = sc.astype(sc.dtype.newbyteorder('>'))
    elif m == 2:
        sc = np.repeat(sc, 2)[::2]
    return sc


def gen_event_feature(ctx, n):
    r = ctx.rng
    m = r.randint(4)
    if m == 0:
        return None
    if m == 1:
        f = np.empty(n, dtype=[('timestamp', int)])
        f['timestamp'] = r.randint(0, 10 ** 9, n)
        return f
    if m == 2:
        f = np.empty(n, dtype=[('timestamp', int), ('tag', 'U4'),
                               ('v', float, (2,))])
        f['timestamp'] = r.permutation(n)
        f['tag'] = ['t%d' % i for i in range(n)]
        f['v'] = r.rand(n, 2)
        return f
    return r.rand(n, ctx.randint(1, 3))


class Ref(object):
    """what a user knows of a container: everything in external ids"""

    def __init__(self, n_otypes, eo, ev, score=None, dom=None, ef=None):
        self.n_otypes = n_otypes
        self.eo = (list(range(n_otypes)) if eo is None else list(eo))
        self.ev = np.array(ev)
        self.score = None if score is None else np.array(score)
        self.dom = None if dom is None else np.array(dom, dtype=float)
        self.ef = None if ef is None else np.array(ef)
        self.feature = [None] * n_otypes     # {eid: row}

    def objects(self, o):
        cols = [j for j, t in enumerate(self.eo) if t == o]
        return set(self.ev[:, cols].ravel().tolist()) if cols else set()

    def take(self, idx):
        r = Ref(self.n_otypes, self.eo, self.ev[idx],
                None if self.score is None else self.score[idx],
                self.dom, None if self.ef is None else self.ef[idx])
        for o in range(self.n_otypes):
            if self.feature[o] is not None:
                keep = r.objects(o)
                r.feature[o] = {k: v for k, v in self.feature[o].items()
                                if k in keep}
        return r


def regular(sc):
    """
    the domain that a container finds for scores left without one, or None if
    the smallest gap of the scores does not divide their range
    """
    lv = np.unique(np.asarray(sc, dtype=float))
    if len(lv) > 1:
        gap = np.diff(lv).min()
        m = (lv[-1] - lv[0]) / gap
        if gap > 1e-6 and abs(m - round(m)) < 1e-7:
            return lv[0], lv[-1], gap
    return None


def gen_data(ctx, scored=True, layout='any', kind=None, dom=None, n=None,
             shape=None, features=False, pool=None, ef=True):
    """a real container filled through its public interface, and its Ref"""
    from kamrecsys.data import EventData, EventWithScoreData
    n_otypes, eo = gen_layout(ctx, layout)
    ev, pools, kind = gen_events(ctx, n_otypes, eo, kind=kind, n=n,
                                 shape=shape, pool=pool)
    f = gen_event_feature(ctx, ev.shape[0]) if ef else None
    if scored:
        auto = dom is None and ctx.coin(.15)
        dom = gen_domain(ctx) if dom is None else dom
        sc = gen_scores(ctx, dom, ev.shape[0])
        given = dom
        if auto:
            # the domain may be left to the container
            found = regular(sc)
            if found is not None:
                dom, given = found, None
        data = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
        data.set_event(ev, sc, score_domain=given, event_feature=f)
        ref = Ref(n_otypes, eo, ev, sc, dom, f)
    else:
        data = EventData(n_otypes=n_otypes, event_otypes=eo)
        data.set_event(ev, event_feature=f)
        ref = Ref(n_otypes, eo, ev, None, None, f)
    ref.pools = pools
    ref.kind = kind
    if features:
        for o in range(n_otypes):
            if ctx.coin(.7):
                add_feature(ctx, data, ref, o)
    return data, ref


def add_feature(ctx, data, ref, o):
    """features for a superset of the objects, in any order"""
    r = ctx.rng
    need = sorted(ref.objects(o), key=repr)
    extra = [x for x in getattr(ref, 'pools', [[]] * ref.n_otypes)[o].tolist()
             if x not in set(need)] if hasattr(ref, 'pools') else []
    keys = list(need) + list(extra)
    if ctx.coin(.3):
        keys = list(need)
    keys = [keys[i] for i in r.permutation(len(keys))]
    n = len(keys)
    if n == 0:
        return
    m = r.randint(9)
    if m == 5:
        # neither numbers in floating point nor texts can hold them
        feat = np.empty(n, dtype=[('h', 'i8'), ('w', 'M8[s]'), ('ok', bool),
                                  ('raw', 'S3')])
        feat['h'] = 2 ** 62 + r.permutation(n)
        feat['w'] = r.permutation(n).astype('M8[s]')
        feat['ok'] = r.rand(n) < .5
        feat['raw'] = [b'%d' % (i % 100) for i in range(n)]
    elif m == 6:
        feat = np.empty(n, dtype=object)
        for i, k in enumerate(keys):
            feat[i] = [None, 'f%d' % i, i / 4., (i, str(k))][i % 4]
    elif m == 7:
        feat = np.asfortranarray(2 ** 60 + r.permutation(n * 2).reshape(n, 2))
    elif m == 8:
        feat = (r.rand(n, ctx.randint(1, 20)) < .5)[:, ::-1]
    elif m == 0:
        feat = np.empty(n, dtype=[('a', int), ('name', 'U8')])
        feat['a'] = r.permutation(n) + 1000 * o
        feat['name'] = ['%s' % str(k)[:8] for k in keys]
    elif m == 1:
        feat = r.rand(n, ctx.randint(1, 4))
    elif m == 2:
        feat = r.rand(n, ctx.randint(1, 3), ctx.randint(1, 3))
    elif m == 3:
        feat = np.array(['%s!' % k for k in keys])
    else:
        feat = r.permutation(n * 3)[:n]
    eids = np.array(keys, dtype=data.eid[o].dtype) if ctx.coin(.7) else keys
    data.set_feature(o, eids, feat)
    ref.feature[o] = {k: copy.copy(feat[i]) for i, k in enumerate(keys)}
    return eids, feat


def warm(ctx, data, ref):
    """queries of all kinds, whose results may have been cached"""
    n = len(ref.ev)
    if n:
        data.to_iid_event(ref.ev)
        data.to_iid_event(ref.ev[ctx.randint(0, n - 1)])
        data.to_eid_event(data.event)
        data.to_eid_event(data.event[0])
    for o in range(ref.n_otypes):
        if len(data.eid[o]):
            i = ctx.randint(0, len(data.eid[o]) - 1)
            data.to_iid(o, data.to_eid(o, i))
    if ref.score is not None and n:
        data.get_score_levels()
        data.generate_score_bins()
        data.digitize_score()
        data.digitize_score(np.array(ref.score))


def check_container(ctx, data, ref, order_free=True):
    """the monitor of a container's structural invariant against its Ref"""
    ctx.obs('container states inspected')
    n = ref.ev.shape[0]
    s = len(ref.eo)
    ctx.check(data.n_events == n, 'n_events', got=data.n_events, want=n)
    ctx.check(data.s_event == s, 's_event', got=data.s_event, want=s)
    ctx.equal(data.event_otypes, ref.eo, 'event_otypes')
    ctx.check(data.n_otypes == ref.n_otypes, 'n_otypes')
    ctx.check(np.shape(data.event) == (n, s), 'shape of events',
              got=np.shape(data.event), want=(n, s))
    ctx.check(np.asarray(data.event).dtype.kind in 'iu',
              'internal ids are integers', got=np.asarray(data.event).dtype)
    for o in range(ref.n_otypes):
        want = ref.objects(o)
        eid = np.asarray(data.eid[o])
        ctx.check(data.n_objects[o] == len(want),
                  'the number of distinct objects', otype=o,
                  got=data.n_objects[o], want=len(want))
        ctx.check(len(eid) == len(want) and set(eid.tolist()) == want,
                  'the set of external ids', otype=o, got=eid, want=want)
        ctx.check(len(data.iid[o]) == len(want),
                  'size of the id dictionary', otype=o)
        for i, e in enumerate(eid):
            ctx.check(data.iid[o][e] == i,
                      'internal and external ids are not inverse', otype=o,
                      eid=e, iid=i)
        ctx.counters['assertions evaluated'] += len(eid)
    # every event decodes to what was given
    for j, o in enumerate(ref.eo):
        col = np.asarray(data.event)[:, j]
        ctx.check(n == 0 or (col.min() >= 0 and
                             col.max() < data.n_objects[o]),
                  'internal ids are out of range', column=j, got=col)
        ctx.equal(np.asarray(data.eid[o])[col], ref.ev[:, j],
                  'events do not decode to the original external ids',
                  column=j)
    ctx.obs('events decoded', n)
    if ref.ef is None:
        ctx.check(data.event_feature is None, 'unexpected event features',
                  got=data.event_feature)
    else:
        ctx.equal(data.event_feature, ref.ef, 'event features')
    if ref.score is not None:
        ctx.equal(data.score, ref.score, 'scores')
        ctx.close(data.score_domain, ref.dom, 'score domain')
        ctx.check(data.n_score_levels == len(domain_levels(ref.dom)),
                  'n_score_levels', got=data.n_score_levels, dom=ref.dom)
    for o in range(ref.n_otypes):
        if ref.feature[o] is None:
            ctx.check(data.feature[o] is None,
                      'stale object features', otype=o,
                      got=data.feature[o])
        else:
            f = data.feature[o]
            eid = np.asarray(data.eid[o])
            ctx.check(f is not None and len(f) == len(eid),
                      'the number of object features', otype=o)
            for i, e in enumerate(eid.tolist()):
                ctx.equal(f[i], ref.feature[o][e],
                          'feature of an object is not its own', otype=o,
                          eid=e)
            ctx.obs('object features compared', len(eid))


def overwrite(x):
    """
    overwrite in place everything that the public attributes of a container or
    a model hold; returns the number of overwritten arrays and tables
    """
    n = 0
    for k, v in sorted(vars(x).items()):
        if not k.startswith('_') and k not in ('random_state', 'event_index'):
            n += _overwrite(v)
    return n


def _overwrite(v):
    if isinstance(v, dict):
        v.clear()
        return 1
    if not isinstance(v, np.ndarray) or not v.size:
        return 0
    if v.dtype == object:
        n = sum(_overwrite(i) for i in v.ravel() if i is not None)
        v[...] = None
        return n + 1
    if not v.flags.writeable:
        return 0
    if v.dtype.names:
        return sum(_overwrite(v[i]) for i in v.dtype.names)
    zero = np.zeros((), dtype=v.dtype)
    v[...] = (np.array('~', dtype=v.dtype) if v.dtype.kind in 'US' else
              zero if v.ndim and (v != zero).any() else
              np.ones((), dtype='i8').astype(v.dtype))
    return 1


def vast(ctx, dom=None):
    """
    a container of more objects and events than 16 bits count, checked as a
    whole: (container, events, sorted ids of each type, number of events)
    """
    from kamrecsys.data import EventData, EventWithScoreData
    r = ctx.rng
    m = ctx.choice([33000, 66000, 80000]) + ctx.randint(0, 999)
    n = m + ctx.randint(0, 3000)
    big = ctx.randint(0, 1)
    ids = r.permutation(m * 3)[:m] * ctx.choice([1, 1, 70001]) - 1000
    small = r.permutation(ctx.randint(1, 300))
    cols = [None, None]
    cols[big] = np.concatenate([ids, r.choice(ids, n - m)])[r.permutation(n)]
    cols[1 - big] = r.choice(small, n)
    ev = np.stack(cols, axis=1)
    if dom is None:
        data = EventData()
        data.set_event(ev)
    else:
        data = EventWithScoreData()
        data.set_event(ev, r.choice(domain_levels(dom), n), score_domain=dom)
    obj = [np.unique(c) for c in cols]
    ctx.obs('vast containers')
    return data, ev, obj, big


def check_vast(ctx, data, ev):
    """the container holds these events"""
    ctx.check(data.n_events == len(ev), 'number of events')
    for o in range(2):
        obj, iid = np.unique(ev[:, o], return_inverse=True)
        ctx.check(data.n_objects[o] == len(obj), 'number of objects')
        ctx.check(np.array_equal(data.eid[o], obj) and np.array_equal(
            data.event[:, o], iid), 'ids of many objects', otype=o)
    ctx.check(np.array_equal(data.to_eid_event(data.event), ev) and
              np.array_equal(data.to_iid_event(ev), data.event),
              'conversion of many events')
    ctx.obs('events decoded', len(ev))
