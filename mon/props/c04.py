"""C04: unknown ids are never confused with known ones"""
import numpy as np
from .. import gens
from ..core import freeze

STRATA = [(k, l) for k in gens.ID_KINDS
          for l in ('default2', 'default', 'perm', 'repeat', 'long')] + [
    ('rec', l) for l in ('default2', 'perm', 'repeat', 'default')]
CASES = {'quick': 3000, 'thorough': 60000}
NEED = {'events out of range tried': 2000, 'unknown ids queried': 5000, 'illegal shapes tried': 1000,
        'queries to a fitted recommender': 100}
RULE = ('queries mixing known ids, near misses of known ids, ids of other '
        'object types and fresh ids, in 1-d or 2-d events; distinct = '
        'different (layout, id kind, pattern of unknown columns, kind of '
        'missing value) tuples')


def near_misses(ctx, known, kind_dtype):
    """ids close to known ones but never registered"""
    out = []
    for e in list(known)[:6]:
        if isinstance(e, str):
            out += [e + ' ', ' ' + e, e.upper(), e.lower(), e[:-1], e + e,
                    e + 'x' * 40]
        elif isinstance(e, float):
            out += [e + .125, -e - .125, e + 2 ** 20]
        else:
            out += [e + 1, e - 1, -e, e + 256, e + 65536, e + 2 ** 32,
                    e ^ 1]
    if kind_dtype.kind == 'U':
        out += ['nobody', '']
    elif kind_dtype.kind in 'iu':
        out += [0, -1, len(known), len(known) + 1, 2 ** 62]
        if max(known or [0]) >= 2 ** 63:
            out = [int(x) for x in out if 0 <= x < 2 ** 64]
        else:
            out = [int(x) for x in out if -2 ** 63 <= x < 2 ** 63]
    else:
        out += [0.0, -1.0, float(len(known)), 1e300]
    return [x for x in out if x not in known]


def vast(ctx):
    """more objects and queries than 16 bits count"""
    data, ev, obj, big = gens.vast(ctx)
    q = np.array(ev)
    bad = ctx.rng.rand(*q.shape) < .3
    q[bad] = ctx.rng.randint(-5000, 10 ** 6, bad.sum())
    want = np.empty(q.shape, dtype=int)
    for o in range(2):
        pos = np.searchsorted(obj[o], q[:, o])
        hit = obj[o][np.minimum(pos, len(obj[o]) - 1)] == q[:, o]
        want[:, o] = np.where(hit, pos, len(obj[o]))
        ctx.obs('unknown ids queried', int((~hit).sum()))
    ctx.check(np.array_equal(data.to_iid_event(q), want),
              'ids of many queried events')
    mv = ctx.choice([-1, 0, 10 ** 6])
    for o in range(2):
        want[want[:, o] == len(obj[o]), o] = mv
    ctx.check(np.array_equal(data.to_iid_event(q, missing_values=mv), want),
              'markers in many queried events', missing=mv)
    ctx.sig('vast', len(q), len(obj[big]))


def case(ctx):
    kind, layout = ctx.stratum
    r = ctx.rng
    if ctx.coin(.002):
        return vast(ctx)
    rec = None
    if kind == 'rec':
        data, ref = gens.gen_data(ctx, scored=True, layout=layout,
                                  kind=ctx.choice(['small', 'sparse', 'str']),
                                  shape=ctx.choice(['small', 'tiny']))
        s = len(ref.eo)
        if s < 2:
            idx = None
            obj = data
        else:
            from kamrecsys.score_predictor import PMF
            idx = tuple(int(i) for i in r.permutation(s)[:2])
            rec = PMF(random_state=0, maxiter=2)
            rec.fit(data, event_index=idx)
            obj = rec
            ctx.obs('queries to a fitted recommender')
    else:
        data, ref = gens.gen_data(ctx, scored=ctx.coin(.3), layout=layout,
                                  kind=kind)
        obj = data
    s = len(ref.eo)
    known = [ref.objects(o) for o in range(ref.n_otypes)]
    dt = ref.ev.dtype
    before = freeze(obj)

    # single ids
    for o in range(ref.n_otypes):
        bad = near_misses(ctx, known[o], dt)
        others = set().union(*known) - known[o]
        for e in bad[:12] + list(others)[:6]:
            ctx.raises(ValueError, lambda: obj.to_iid(o, e),
                       'to_iid of an unknown id', otype=o, eid=e)
            ctx.obs('unknown ids queried')
        n = len(known[o])
        for i in (n, n + 1, n + r.randint(1, 100), -1, -n if n else -3,
                  -n - 1, np.int64(n), np.int32(-1), 2 ** 40):
            ctx.raises(ValueError, lambda: obj.to_eid(o, i),
                       'to_eid of an out-of-range id', otype=o, iid=i, n=n)
            ctx.obs('unknown ids queried')
            # the same within an array of internal ids
            a = [int(x) for x in r.randint(0, n, ctx.randint(0, 6))] if n \
                else []
            a.insert(r.randint(len(a) + 1), int(i))
            a = np.array(a)
            a = ctx.choice([a, a.tolist(), a[:, np.newaxis]])
            ctx.raises(ValueError, lambda: obj.to_eid(o, a),
                       'to_eid of ids with an out-of-range one', otype=o,
                       iid=a, n=n)

    # events
    for _ in range(3):
        nq = ctx.randint(1, 8)
        cols, truth = [], []
        for j, o in enumerate(ref.eo):
            bad = near_misses(ctx, known[o], dt) + [
                x for x in set().union(*known) - known[o]]
            col = []
            for q in range(nq):
                if known[o] and r.rand() < .5:
                    col.append(ctx.choice(sorted(known[o], key=repr)))
                else:
                    col.append(ctx.choice(bad))
            cols.append(col)
        q = np.array(cols, dtype=None if dt.kind == 'U' else
                     (float if dt.kind == 'f' else
                      'u8' if kind == 'wide' else 'i8')).T
        mode = ctx.choice(['default', 'int', 'array', 'list'])
        if mode == 'default':
            mv, mvs = None, [len(known[o]) for o in ref.eo]
        elif mode == 'int':
            mv = ctx.choice([-1, 0, 10 ** 6, np.int64(-7)])
            mvs = [int(mv)] * s
        else:
            mvs = [int(x) for x in r.randint(-5, 1000, s)]
            mv = np.array(mvs) if mode == 'array' else list(mvs)
        qb = freeze(q)
        got = (obj.to_iid_event(q) if mode == 'default' else
               obj.to_iid_event(q, missing_values=mv))
        ctx.check(freeze(q) == qb, 'the query was modified')
        want = np.empty(q.shape, dtype=int)
        for j, o in enumerate(ref.eo):
            for i in range(nq):
                e = q[i, j].item() if hasattr(q[i, j], 'item') else q[i, j]
                if e in known[o]:
                    want[i, j] = data.to_iid(o, e)
                else:
                    want[i, j] = mvs[j]
                    ctx.obs('unknown ids queried')
        ctx.equal(got, want, 'to_iid_event with unknown ids', query=q,
                  missing=mv, otypes=ref.eo)
        for i in range(min(nq, 3)):
            got1 = (obj.to_iid_event(q[i]) if mode == 'default' else
                    obj.to_iid_event(q[i], missing_values=mv))
            ctx.equal(got1, want[i], 'a 1-d event with unknown ids',
                      query=q[i])
        pat = tuple(sorted({tuple(bool(x) for x in (
            want[i] == np.array(mvs))) for i in range(nq)}))
        ctx.sig(tuple(ref.eo), kind, pat, mode)

    # events of internal ids, some of which are out of range
    top = np.array([len(known[o]) for o in ref.eo])
    if len(top) and top.min() > 0:
        good = np.array([[r.randint(t) for t in top]
                         for _ in range(ctx.randint(1, 5))])
        for _ in range(4):
            z = good.copy()
            i, j = r.randint(len(z)), r.randint(s)
            z[i, j] = ctx.choice([-1, -top[j], -top[j] - 1, top[j],
                                  top[j] + 1, -2 ** 31, 2 ** 40,
                                  int(top.max()) + r.randint(9)])
            if r.rand() < .2:
                # unknown ids marked as the caller asked for
                z[i, j] = obj.to_iid_event(
                    q[:1], missing_values=-1 - r.randint(top[j])).min()
            for y in (z, z[i]):
                if np.any((y < 0) | (y >= top)):
                    ctx.raises((ValueError, IndexError),
                               lambda: obj.to_eid_event(y),
                               'to_eid_event of ids out of range', iid=y,
                               numbers=top)
                    ctx.obs('events out of range tried')

    # illegal shapes
    for shp in [(s + 1,), (max(s - 1, 0),), (2, s + 1), (0, s + 2),
                (2, s, 1), (2, 2, s)]:
        if len(shp) == 1 and shp[0] == s or len(shp) == 2 and shp[1] == s:
            continue
        z = np.zeros(shp, dtype=int)
        ctx.raises(TypeError, lambda: obj.to_iid_event(z),
                   'illegal shape for to_iid_event', shape=shp, s_event=s)
        ctx.raises(TypeError, lambda: obj.to_eid_event(z),
                   'illegal shape for to_eid_event', shape=shp, s_event=s)
        ctx.obs('illegal shapes tried', 2)
    ctx.check(freeze(obj) == before, 'queries changed the state')
    ctx.note(kind=kind, layout=(ref.n_otypes, ref.eo), query=q[:3],
             got=got[:3])
