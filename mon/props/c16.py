"""C16: event layouts only select columns"""
import numpy as np
from .. import gens, models

STRATA = [k + '/' + m for k in models.KINDS
          for m in ('perm', 'swap', 'subset', 'long', 'same type',
                    'unused type')]
CASES = {'quick': 1200, 'thorough': 15000}
NEED = {'layouts compared': 900, 'predictions compared': 5000}
RULE = ('a model trained on wide events with event_otypes and event_index, '
        'against the same model trained on a plain two-column data set of the '
        'selected columns; distinct = different (model, layout, data)')

ATTR = ['mu_', 'bu_', 'bi_', 'p_', 'q_', 'pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_']


def case(ctx):
    from kamrecsys.data import EventData, EventWithScoreData
    kind, mode = ctx.stratum.split('/')
    r = ctx.rng
    if mode == 'perm':
        n_otypes = ctx.randint(2, 4)
        eo = [int(i) for i in r.permutation(n_otypes)]
    elif mode == 'swap':
        n_otypes, eo = 2, [1, 0]
    elif mode == 'subset':
        n_otypes = ctx.randint(3, 4)
        eo = [int(i) for i in r.permutation(n_otypes)[:2]]
    elif mode == 'long':
        n_otypes = ctx.randint(2, 3)
        eo = [int(i) for i in r.randint(0, n_otypes, ctx.randint(3, 5))]
    elif mode == 'same type':
        n_otypes, eo = 2, [0, 1, 0]
    else:
        n_otypes, eo = 3, [2, 0]
    s = len(eo)
    # columns of different types, since a shared type has a shared id table
    pairs = [(i, j) for i in range(s) for j in range(s)
             if i != j and eo.count(eo[i]) == 1 and eo.count(eo[j]) == 1]
    shared = not pairs or (mode in ('same type', 'long') and ctx.coin())
    if shared:
        pairs = [(i, j) for i in range(s) for j in range(s) if i != j]
    ei = pairs[ctx.randint(0, len(pairs) - 1)]
    n = ctx.randint(2, 60)
    ev, pools, idk = gens.gen_events(ctx, n_otypes, eo, n=n,
                                     shape=ctx.choice(['small', 'dense',
                                                       'skew']))
    dom = (0, 1, 1) if kind == 'LogisticPMF' else ctx.choice(
        [(1, 5, 1), (.5, 5., .5), (-1, 1, 1)])
    sc = gens.gen_scores(ctx, dom, n)
    if kind == 'LogisticPMF':
        sc = np.array(sc)
        sc[0], sc[-1] = 0, 1
    scored = kind != 'ImplicitLogisticPMF' or ctx.coin(.3)
    otypes = ctx.choice([tuple(eo), list(eo), np.array(eo)])
    if mode == 'perm' and eo == list(range(n_otypes)) and ctx.coin():
        otypes = None
    cls = EventWithScoreData if scored else EventData
    wide = cls(n_otypes=n_otypes, event_otypes=otypes)
    narrow = cls()
    two = np.ascontiguousarray(ev[:, list(ei)])
    if scored:
        wide.set_event(ev, sc, score_domain=dom)
        narrow.set_event(two, sc, score_domain=dom)
    else:
        wide.set_event(ev)
        narrow.set_event(two)
    p = models.params(ctx, kind)
    a, b = models.build(kind, p), models.build(kind, p)
    # columns may be counted from the end
    fei = [c - s if ctx.coin(.15) else c for c in ei]
    a.fit(wide, event_index=ctx.choice([tuple(fei), list(fei),
                                        np.array(fei)]))
    b.fit(narrow)
    # objects selected in each model
    full = np.array([[np.unique(ev[:, [c for c in range(s)
                                       if eo[c] == eo[j]]]).tolist()]
                     for j in ei], dtype=object)
    seen = [set(two[:, c].tolist()) for c in range(2)]
    exact = all(set(np.unique(ev[:, [c for c in range(s) if eo[c] == eo[j]]])
                    .tolist()) == seen[t] for t, j in enumerate(ei))
    q, _ = models.queries(ctx, gens.Ref(n_otypes, eo, ev), n=ctx.randint(2,
                                                                         15))
    pa = np.asarray(a.predict(q), dtype=float)
    ctx.check(pa.shape == (len(q),), 'shape of predictions', got=pa.shape)
    if exact:
        for name in ATTR:
            x, y = getattr(a, name, None), getattr(b, name, None)
            if x is None and y is None:
                continue
            ctx.close(x, y, 'parameters depend on the layout (%s)' % name,
                      rtol=1e-9, atol=1e-12, eo=eo, ei=ei)
        pb = np.asarray(b.predict(q[:, list(ei)]), dtype=float)
        ctx.close(pa, pb, 'predictions depend on the layout', rtol=1e-9,
                  atol=1e-12, eo=eo, ei=ei, q=q)
        ctx.obs('layouts compared')
        ctx.obs('predictions compared', len(q))
    else:
        # an id table is shared with another column: follow the formula
        iid = models.iids(a, q, ei)
        if kind in models.MF:
            ctx.close(pa, models.mf_reference(a, kind, iid), 'predictions',
                      rtol=1e-7, atol=1e-9, eo=eo, ei=ei)
        elif kind == 'PLSA':
            ctx.close(pa, models.plsa_reference(
                a, iid, gens.domain_levels(dom), False), 'predictions',
                rtol=1e-7, atol=1e-9, eo=eo, ei=ei)
        ctx.check(int(a.fit_results_['n_users']) == len(set(
            full[0][0])) and int(a.fit_results_['n_items']) == len(
                set(full[1][0])), 'the numbers of objects', eo=eo, ei=ei)
        ctx.obs('layouts with a shared type')
    # ignored elements of a query do not matter
    q2 = q.copy()
    for j in range(s):
        if j not in ei:
            q2[:, j] = q2[r.permutation(len(q2)), j]
    ctx.close(a.predict(q2), pa, 'an element that is not used matters',
              rtol=1e-9, atol=1e-12, eo=eo, ei=ei)
    ctx.check(a.s_event == s and list(np.asarray(a.event_otypes)) == eo,
              'layout of a fitted model')
    ctx.sig(kind, eo, ei, ev.tobytes(), sorted(map(str, p.items())))
    ctx.note(stratum=ctx.stratum, event_otypes=eo, event_index=ei, params=p,
             events=ev[:3])
