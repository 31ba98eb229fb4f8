"""C03: object features follow their objects"""
import numpy as np
from .. import gens
from ..core import freeze

STRATA = [(k, l) for k in ('small', 'sparse', 'negative', 'str', 'huge',
                           'float')
          for l in ('default', 'perm', 'repeat', 'subset')]
CASES = {'quick': 2000, 'thorough': 40000}
NEED = {'object features compared': 10000}
RULE = ('features given for a superset of the objects in random order, then '
        'a random history of filtering, re-setting features and events; '
        'distinct = different (history, layout, id kind, object counts)')


def vast(ctx):
    """more rows of features than 16 bits count"""
    data, ev, obj, big = gens.vast(ctx)
    more = np.setdiff1d(np.arange(-3000, -2000), obj[big])
    eid = ctx.rng.permutation(np.concatenate([obj[big], more]))
    feat = ctx.rng.rand(len(eid), ctx.randint(1, 2))
    data.set_feature(big, eid, feat)
    got = data.feature[big]
    row = {e: i for i, e in enumerate(eid.tolist())}
    want = feat[[row[e] for e in obj[big].tolist()]]
    feat[...] = -1
    ctx.check(np.array_equal(got, want) and
              np.array_equal(data.feature[big], want),
              'features of many objects', n=len(eid))
    ctx.obs('object features compared', len(got))
    ctx.sig('vast', len(eid), len(ev))


def case(ctx):
    kind, layout = ctx.stratum
    if ctx.coin(.003):
        return vast(ctx)
    data, ref = gens.gen_data(ctx, scored=ctx.coin(), layout=layout,
                              kind=kind, shape=ctx.choice(
                                  [None, 'many', 'large'], p=[.95, .04, .01]))
    hist = []
    for _ in range(ctx.randint(1, 5)):
        op = ctx.choice(['feature', 'feature', 'filter', 'refeature',
                         'reset', 'callermut'], p=[.3, .2, .25, .1, .05, .1])
        o = ctx.randint(0, ref.n_otypes - 1)
        if op in ('feature', 'refeature'):
            gens.add_feature(ctx, data, ref, o)
        elif op == 'callermut':
            r = gens.add_feature(ctx, data, ref, o)
            if r is not None:
                eids, feat = r
                if feat.dtype.names:
                    feat[feat.dtype.names[0]] = -1
                else:
                    feat[...] = -1
        elif op == 'filter':
            n = len(ref.ev)
            m = ctx.rng.rand(n) < ctx.choice([.3, .7, 1.])
            src, sref, before = data, ref, freeze(data)
            data = data.filter_event(m)
            pools = ref.pools
            ref = ref.take(np.nonzero(m)[0])
            ref.pools = pools
            ctx.check(freeze(src) == before,
                      'features of the original changed by filtering')
        else:
            if data.n_events == 0:
                continue
            perm = ctx.rng.permutation(len(ref.ev))
            perm = perm[:ctx.randint(1, len(perm))]
            pools = ref.pools
            if ref.score is None:
                data.set_event(ref.ev[perm])
                ref = gens.Ref(ref.n_otypes, ref.eo, ref.ev[perm])
            else:
                data.set_event(ref.ev[perm], ref.score[perm], ref.dom)
                ref = gens.Ref(ref.n_otypes, ref.eo, ref.ev[perm],
                               ref.score[perm], ref.dom)
            ref.pools = pools
        hist.append(op)
        gens.check_container(ctx, data, ref)
    ctx.note(history=hist, kind=kind, layout=(ref.n_otypes, ref.eo))
    ctx.sig(tuple(hist), kind, tuple(ref.eo), tuple(data.n_objects))
