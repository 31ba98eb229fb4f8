"""C02: filtering equals rebuilding from the selected events"""
import copy
import numpy as np
from .. import gens
from ..core import freeze

STRATA = [(s, k) for s in ('plain', 'scored', 'features', 'chain',
                           'isolation', 'train')
          for k in ('bool', 'list', 'index', 'all', 'none', 'one')]
CASES = {'quick': 2400, 'thorough': 40000}
NEED = {'filters observed': 2000, 'container states inspected': 2000}
RULE = ('a random container, filtered by a boolean or index condition; '
        'distinct = different (scenario, condition kind, layout, size before, '
        'size after, numbers of objects left) tuples')


def gen_cond(ctx, n, kind):
    r = ctx.rng
    m = r.rand(n) < ctx.choice([.1, .5, .9])
    if kind == 'all':
        m[:] = True
    elif kind == 'none':
        m[:] = False
    elif kind == 'one':
        m[:] = False
        if n:
            m[r.randint(n)] = True
    idx = np.nonzero(m)[0]
    if kind == 'list':
        return ctx.choice([list, tuple])(bool(b) for b in m), idx
    if kind == 'index' and len(idx):
        # in the order that the positions have, as those of a shuffled split
        how = r.randint(9)
        if how == 1:
            idx = r.permutation(idx)
        elif how == 2:
            idx = idx[r.randint(len(idx), size=r.randint(1, 2 * len(idx) + 1))]
        elif how == 3:
            return ctx.choice([list, tuple])(int(i) for i in idx), idx
        elif how == 4:
            # positions counted from the end
            return np.where(r.rand(len(idx)) < .5, idx - n, idx), idx
        elif how == 5:
            return idx.astype(ctx.choice(['u1', 'i2', 'u2', 'i4', 'u8']) if
                              n <= 255 else 'i4'), idx
        elif how >= 7:
            # as many as there are events: in another order, or a bootstrap
            idx = r.permutation(n) if how == 7 else r.randint(n, size=n)
            t = ctx.choice(['i8', 'i4', 'u2'] + ['u1', 'i1'] * (n <= 127))
            return idx.astype(t if n < 2 ** 16 else 'i8'), idx
        return idx.copy(), idx
    return m, idx


def apply(ctx, data, ref, kind):
    cond, idx = gen_cond(ctx, len(ref.ev), kind)
    if ctx.coin():
        gens.warm(ctx, data, ref)
    before = freeze(data)
    cond_before = freeze(cond)
    new = data.filter_event(cond)
    ctx.obs('filters observed')
    ctx.check(new is not data, 'the container itself was returned')
    ctx.check(type(new) is type(data), 'type of a filtered container')
    ctx.check(freeze(data) == before,
              'the original container was changed by filtering')
    ctx.check(freeze(cond) == cond_before, 'the condition was changed')
    nref = ref.take(idx)
    nref.pools = ref.pools
    gens.check_container(ctx, new, nref)
    return new, nref, before


def vast(ctx):
    data, ev, obj, big = gens.vast(ctx)
    m = ctx.rng.rand(len(ev)) < ctx.choice([.05, .6, .98])
    feat = ctx.rng.rand(len(obj[big]))
    data.set_feature(big, obj[big], feat)
    new = data.filter_event(m if ctx.coin() else np.flatnonzero(m))
    gens.check_vast(ctx, new, ev[m])
    gens.check_vast(ctx, data, ev)
    ctx.check(np.array_equal(new.feature[big], feat[np.isin(
        obj[big], ev[m, big])]), 'features of many objects')
    ctx.obs('filters observed')
    ctx.sig('vast', len(ev), int(m.sum()))


def case(ctx):
    scen, kind = ctx.stratum
    if ctx.coin(.002):
        return vast(ctx)
    scored = scen in ('scored', 'train') or (
        scen in ('features', 'chain', 'isolation') and ctx.coin())
    data, ref = gens.gen_data(
        ctx, scored=scored, features=scen not in ('plain', 'scored', 'train'),
        layout='default2' if scen == 'train' else 'any',
        dom=(1, 5, 1) if scen == 'train' else None,
        shape=ctx.choice([None, 'many', 'large'], p=[.95, .04, .01]))
    new, nref, before = apply(ctx, data, ref, kind)
    ctx.note(scenario=scen, cond=kind, layout=(ref.n_otypes, ref.eo),
             n_before=len(ref.ev), n_after=len(nref.ev),
             objects=list(new.n_objects))
    ctx.sig(scen, kind, tuple(ref.eo), len(ref.ev), len(nref.ev),
            tuple(new.n_objects))

    # id conversion of the filtered container works by itself
    if len(nref.ev):
        ctx.equal(new.to_iid_event(nref.ev), new.event, 'ids after filtering')
    # objects that were filtered out are unknown
    for o in range(ref.n_otypes):
        gone = ref.objects(o) - nref.objects(o)
        for e in list(gone)[:5]:
            ctx.raises(ValueError, lambda: new.to_iid(o, e),
                       'an eliminated object is still known', eid=e)
        ctx.obs('eliminated objects probed', len(gone))

    if scen == 'chain':
        d, r = new, nref
        for _ in range(ctx.randint(1, 3)):
            d, r, _b = apply(ctx, d, r, ctx.choice(['bool', 'index', 'all']))
        # one filter by the composition gives the same
        if len(ref.ev):
            c1, i1 = gen_cond(ctx, len(ref.ev), 'bool')
            d1 = data.filter_event(c1)
            c2, i2 = gen_cond(ctx, len(i1), 'bool')
            d2 = d1.filter_event(c2)
            comp = np.zeros(len(ref.ev), dtype=bool)
            comp[i1[i2]] = True
            d3 = data.filter_event(comp)
            r3 = ref.take(np.nonzero(comp)[0])
            gens.check_container(ctx, d2, r3)
            gens.check_container(ctx, d3, r3)
        ctx.check(freeze(data) == before, 'the original was changed')
    elif scen == 'isolation':
        # later changes on either side are invisible from the other
        def spoil(d, r):
            for a in (d.event, d.event_feature, getattr(d, 'score', None)):
                if isinstance(a, np.ndarray) and a.size and ctx.coin(.7):
                    if a.dtype.names:
                        a[a.dtype.names[0]] = 77
                    else:
                        a[...] = 77
            for o in range(r.n_otypes):
                f = d.feature[o]
                if f is not None and len(f) and ctx.coin():
                    if f.dtype.names:
                        f[f.dtype.names[0]] = -5
                    else:
                        f[...] = -5
            if ctx.coin():
                ev, _, _ = gens.gen_events(ctx, r.n_otypes, r.eo)
                if r.score is None:
                    d.set_event(ev)
                else:
                    d.set_event(ev, np.ones(len(ev)), (1, 5, 1))
            elif r.score is not None and ctx.coin():
                d.binarize_score()
            for o in range(r.n_otypes):
                if d.eid[o] is not None and len(d.eid[o]) and ctx.coin(.3):
                    d.set_feature(o, d.eid[o], np.arange(len(d.eid[o])))
        if ctx.coin():
            spoil(new, nref)
            ctx.check(freeze(data) == before,
                      'changes of a filtered container leaked to the original')
        else:
            nbefore = freeze(new)
            spoil(data, ref)
            ctx.check(freeze(new) == nbefore,
                      'changes of the original leaked to a filtered container')
        # nor are overwritten arrays and tables of any kind
        d1, r1 = gens.gen_data(ctx, scored=scored)
        d2 = d1.filter_event(ctx.rng.rand(len(r1.ev)) < ctx.choice([.5, 2.]))
        if ctx.coin():
            d1, d2 = d2, d1
        b1 = freeze(d1)
        ctx.obs('arrays overwritten', gens.overwrite(d2))
        ctx.check(freeze(d1) == b1, 'overwritten arrays of a filtered '
                  'container or its source are shared')
        ctx.obs('isolation probes')
    elif scen == 'train' and len(nref.ev) >= 2:
        # a model does not distinguish a filtered from a rebuilt container
        from kamrecsys.data import EventWithScoreData
        from kamrecsys.score_predictor import PMF
        fresh = EventWithScoreData(n_otypes=2)
        fresh.set_event(nref.ev, nref.score, nref.dom)
        a = PMF(k=1, random_state=3, maxiter=8)
        b = PMF(k=1, random_state=3, maxiter=8)
        a.fit(new)
        b.fit(fresh)
        ctx.close(a.fit_results_['initial_loss'],
                  b.fit_results_['initial_loss'],
                  'initial loss differs from a rebuilt container', rtol=1e-6)
        ctx.check(a.fit_results_['n_users'] == b.fit_results_['n_users'] and
                  a.fit_results_['n_items'] == b.fit_results_['n_items'] and
                  a.fit_results_['n_events'] == b.fit_results_['n_events'],
                  'reported sizes differ from a rebuilt container')
        ctx.obs('models trained on filtered data')
