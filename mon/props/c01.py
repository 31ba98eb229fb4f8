"""C01: internal and external ids are inverse, and no event is lost"""
import numpy as np
from .. import gens
from ..core import freeze
from kamrecsys.data import EventData, EventWithScoreData

STRATA = [(k, l) for k in gens.ID_KINDS
          for l in ('default', 'perm', 'repeat', 'subset', 'long')]
CASES = {'quick': 3000, 'thorough': 60000}
NEED = {'container states inspected': 1000, 'events decoded': 10000,
        'illegal layouts': 100}
RULE = ('a random container layout (object types per event column), id kind '
        'and id distribution; distinct = different (layout, id kind, numbers '
        'of objects, number of events, memory layout) tuples')


def case(ctx):
    kind, layout = ctx.stratum
    if ctx.coin(.002):
        data, ev, obj, big = gens.vast(ctx)
        gens.check_vast(ctx, data, ev)
        ctx.sig('vast', len(ev), len(obj[big]))
        return
    shape = None
    if ctx.coin(.5 if kind == 'byte' else .05):
        shape = ctx.choice(['many', 'many', 'large'])
    if kind == 'str' and ctx.coin(.1):
        shape = 'many'
    data, ref = gens.gen_data(ctx, scored=ctx.coin(), layout=layout,
                              kind=kind, shape=shape)
    ctx.note(layout=(ref.n_otypes, ref.eo), kind=kind, events=ref.ev[:4],
             n_events=len(ref.ev))
    for step in range(ctx.randint(1, 2)):
        if step:
            # events of an existing container are replaced
            ev, pools, _ = gens.gen_events(ctx, ref.n_otypes, ref.eo)
            if ref.score is None:
                data.set_event(ev)
                ref = gens.Ref(ref.n_otypes, ref.eo, ev)
            else:
                dom = gens.gen_domain(ctx)
                sc = gens.gen_scores(ctx, dom, len(ev))
                data.set_event(ev, sc, dom)
                ref = gens.Ref(ref.n_otypes, ref.eo, ev, sc, dom)
        gens.check_container(ctx, data, ref)
        ctx.sig(tuple(ref.eo), kind, tuple(data.n_objects), len(ref.ev),
                ref.ev.flags.c_contiguous)
        before = freeze(data)
        back = data.to_eid_event(data.event)
        ctx.equal(back, ref.ev, 'to_eid_event(event) is not the original')
        ctx.equal(data.to_iid_event(ref.ev), data.event,
                  'to_iid_event(original) is not the internal event')
        ctx.obs('events round-tripped', len(ref.ev))
        n = len(ref.ev)
        for i in ctx.rng.choice(n, min(n, 4), replace=False):
            ctx.equal(data.to_eid_event(data.event[i]), ref.ev[i],
                      'one event, to external')
            ctx.equal(data.to_iid_event(ref.ev[i]), data.event[i],
                      'one event, to internal')
        # rows in any order and number
        if n:
            pick = ctx.rng.randint(0, n, ctx.randint(0, 2 * n))
            ctx.equal(data.to_eid_event(data.to_iid_event(ref.ev[pick])),
                      ref.ev[pick], 'round trip of a selection of events')
        for o in range(ref.n_otypes):
            objs = sorted(ref.objects(o), key=repr)
            for e in objs[:30]:
                i = data.to_iid(o, e)
                ctx.check(0 <= i < len(objs), 'internal id out of range',
                          iid=i)
                ctx.check(data.to_eid(o, i) == e, 'to_eid(to_iid(e)) != e',
                          otype=o, eid=e, iid=i)
            seen = {data.to_iid(o, e) for e in objs}
            ctx.check(seen == set(range(len(objs))),
                      'internal ids are not 0..n-1', otype=o)
            ctx.obs('ids round-tripped', len(objs))
        ctx.check(freeze(data) == before,
                  'a conversion of ids changed the container')
    if ctx.coin(.2):
        refuse(ctx)


def refuse(ctx):
    """layouts that assign columns to types that do not exist"""
    r = ctx.rng
    cls = ctx.choice([EventData, EventWithScoreData])
    n = int(r.randint(1, 5))
    good = r.randint(0, n, r.randint(1, 6))
    kind = ctx.choice(['types', 'low', 'high', 'matrix', 'number'])
    if kind == 'types':
        args = (ctx.choice([0, -1, -n]),)
    elif kind == 'number':
        args = (n, int(r.randint(n)))
    else:
        bad = good.copy()
        if kind == 'low':
            bad[r.randint(len(bad))] = -r.randint(1, n + 1)
        elif kind == 'high':
            bad[r.randint(len(bad))] = n + ctx.choice([0, 0, 1, 10])
        else:
            bad = bad[np.newaxis, :]
        args = (n, ctx.choice([bad, bad.tolist()]))
    ctx.raises(ValueError, lambda: cls(*args),
               'a layout with column types that do not exist is accepted',
               layout=args)
    ctx.obs('illegal layouts')
    d = cls(n, ctx.choice([good, good.tolist(), tuple(good)]))
    ctx.check(d.n_otypes == n and d.s_event == len(good) and
              np.array_equal(d.event_otypes, good),
              'a legal layout is not kept as given', layout=(n, good))
