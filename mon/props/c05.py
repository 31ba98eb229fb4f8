"""C05: score levels, bins and digitised scores agree"""
import numpy as np
from .. import gens
from ..core import freeze

STRATA = ['rating', 'half', 'binary', 'zero', 'neg', 'float', 'wide',
          'thirds', 'big', 'auto', 'ragged', 'filter', 'rec', 'array']
CASES = {'quick': 2800, 'thorough': 60000}
NEED = {'levels compared': 5000, 'scores beside borders': 5000, 'scores digitised': 20000}
RULE = ('score domains with integer, half, decimal and fractional strides, '
        'scores on the levels and between them; distinct = different (domain, '
        'kind of scores) pairs')


def case(ctx):
    from kamrecsys.data import EventWithScoreData
    from kamrecsys.metrics import generate_score_bins
    r = ctx.rng
    st = ctx.stratum
    n = ctx.randint(1, 40)
    ev = np.c_[r.randint(0, 5, n), r.randint(0, 6, n)]
    if st == 'auto':
        # the domain is estimated from the scores
        dom = gens.gen_domain(ctx)
        lv = gens.domain_levels(dom)
        if len(lv) < 2:
            lv = np.array([1., 2.])
        n = n + 2
        ev = np.c_[r.randint(0, 5, n), r.randint(0, 6, n)]
        kind = ctx.randint(0, 2)
        if kind == 0:          # adjacent levels occur
            i = r.randint(len(lv) - 1)
            sc = np.r_[lv[i], lv[i + 1], lv[r.randint(0, len(lv), n - 2)]]
        elif kind == 1:        # any levels, at least two
            sc = np.r_[lv[0], lv[-1], lv[r.randint(0, len(lv), n - 2)]]
        else:                  # irregular real scores
            sc = np.round(r.rand(n) * 10, ctx.randint(1, 3))
            if len(np.unique(sc)) < 2:
                sc[0] += 1
        data = EventWithScoreData()
        data.set_event(ev, sc)
        u = np.unique(sc)
        want = (u[0], u[-1], np.min(np.diff(u)))
        ctx.close(data.score_domain, want, 'estimated domain', rtol=1e-12,
                  atol=0)
        dom = tuple(float(x) for x in data.score_domain)
        exact = abs((dom[1] - dom[0]) / dom[2] -
                    round((dom[1] - dom[0]) / dom[2])) < 1e-7
    elif st == 'ragged':
        # the stride does not divide the range
        s = ctx.choice([1.5, 2, 0.7, 3])
        lo = ctx.choice([0., 1., -2.])
        dom = (lo, lo + s * ctx.randint(1, 6) + s * ctx.choice([.3, .5, .8]),
               s)
        sc = r.uniform(dom[0], dom[1], n)
        sc[0] = dom[1]
        data = EventWithScoreData()
        data.set_event(ev, sc, dom)
        exact = False
    else:
        dom = gens.gen_domain(ctx, st if st in ('rating', 'half', 'binary',
                                                'zero', 'neg', 'float',
                                                'wide', 'thirds', 'big')
                              else None)
        sc = gens.gen_scores(ctx, dom, n)
        d = (np.array(dom) if st == 'array' else
             list(dom) if ctx.coin(.3) else dom)
        data = EventWithScoreData()
        data.set_event(ev, sc, score_domain=d)
        exact = True
    obj = data
    if st == 'filter':
        m = r.rand(n) < .5
        obj = data.filter_event(m)
        sc = sc[m]
    if st == 'rec':
        from kamrecsys.score_predictor import PMF
        obj = PMF(random_state=0, maxiter=1)
        obj.fit(data)

    before = freeze(obj)
    bins = np.asarray(obj.generate_score_bins(), dtype=float)
    levels = np.asarray(obj.get_score_levels(), dtype=float)
    ctx.equal(np.asarray(generate_score_bins(dom)), bins,
              'bins of a container and of its domain differ')
    nl = obj.n_score_levels
    ctx.check(isinstance(nl, (int, np.integer)) and nl >= 1, 'n_score_levels',
              got=nl)
    ctx.check(len(bins) == nl + 1, 'the number of bins', bins=bins, n=nl,
              dom=dom)
    ctx.check(len(levels) == nl, 'the number of levels', levels=levels, n=nl)
    ctx.check(bins[0] == -np.inf and bins[-1] == np.inf and
              np.all(np.diff(bins) > 0), 'bins do not cover the real line',
              bins=bins)
    ctx.obs('levels compared', nl)
    if exact:
        want = gens.domain_levels(dom)
        ctx.close(levels, want, 'score levels', dom=dom, rtol=1e-9,
                  atol=1e-9)
        # boundaries are at the centre of adjacent levels
        ctx.close(bins[1:-1], (want[1:] + want[:-1]) / 2,
                  'bin boundaries are not centres of adjacent levels',
                  dom=dom)
        if st != 'rec':
            ctx.equal(obj.digitize_score(levels), np.arange(nl),
                      'a level is not digitised into its own index', dom=dom)
    ctx.sig(dom, st, str(sc.dtype), exact)
    ctx.note(stratum=st, dom=dom, n_levels=nl, scores=sc[:6])
    if st == 'rec':
        return
    # digitised scores are level indexes
    got = obj.digitize_score()
    ctx.check(np.shape(got) == np.shape(sc), 'shape of digitised scores')
    if len(sc):
        ctx.check(np.min(got) >= 0 and np.max(got) < nl,
                  'digitised score out of range', got=got, scores=sc, dom=dom)
    if exact and len(sc):
        want = np.array([np.argmin(np.abs(gens.domain_levels(dom) - x))
                         for x in sc.astype(float)])
        mid = np.min(np.abs(bins[1:-1][None, :] -
                            sc.astype(float)[:, None]), axis=1,
                     initial=np.inf) < 1e-6 * dom[2]
        ctx.equal(got[~mid], want[~mid], 'digitised scores', scores=sc,
                  dom=dom)
        dist = np.min(np.abs(gens.domain_levels(dom)[None, :] -
                             sc.astype(float)[:, None]), axis=1)
        if np.all(dist < 1e-6 * dom[2]):   # every score is one of levels
            ctx.close(levels[got], sc.astype(float),
                      'a digitised score does not give the score back',
                      rtol=1e-6, atol=1e-6)
    ctx.obs('scores digitised', len(sc))
    # arbitrary scores: in range, monotone, nearest level
    x = np.sort(r.uniform(dom[0] - 2 * dom[2], dom[1] + 2 * dom[2], 30))
    g = obj.digitize_score(x)
    ctx.check(g.min() >= 0 and g.max() < nl and np.all(np.diff(g) >= 0),
              'digitisation of arbitrary scores', x=x, got=g, dom=dom)
    if exact:
        lv = gens.domain_levels(dom)
        for xi, gi in zip(x, g):
            dist = np.abs(lv - xi)
            ctx.check(dist[gi] <= dist.min() + 1e-6 * abs(dom[2]) + 1e-9,
                      'a score is not put into its nearest level', x=xi,
                      level=gi, dom=dom)
        # scores right beside the borders of levels
        if nl > 1:
            k = r.randint(0, nl - 1, 20)
            y = (lv[k] + lv[k + 1]) / 2
            d = dom[2] * 10. ** r.uniform(-8, -1, 20) * r.choice([-1, 1], 20)
            far = np.abs(d) > 64 * np.spacing(np.abs(y) + abs(dom[0]) +
                                              abs(dom[1]))
            ctx.equal(np.asarray(obj.digitize_score(y + d))[far],
                      (k + (d > 0))[far],
                      'a score beside a border is not put into its nearest '
                      'level', dom=dom, x=y + d)
            ctx.obs('scores beside borders', int(far.sum()))
    ctx.obs('scores digitised', 30)
    # forms of an argument
    i = ctx.randint(0, 29)
    ctx.check(int(obj.digitize_score(float(x[i]))) == g[i],
              'a single score', x=x[i], dom=dom)
    ctx.equal(np.asarray(obj.digitize_score(x.reshape(5, 6))),
              g.reshape(5, 6), 'a matrix of scores', dom=dom)
    ctx.equal(np.asarray(obj.digitize_score(x.tolist())), g,
              'a list of scores', dom=dom)
    ctx.equal(np.asarray(obj.digitize_score(x[::-1])), g[::-1],
              'scores in reverse', dom=dom)
    ctx.check(freeze(obj) == before, 'the container was changed')
