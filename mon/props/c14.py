"""C14: pLSA predicts a posterior expectation or mode, inside the domain"""
import numpy as np
from .. import models

STRATA = [k + '/' + m for k in ('PLSA', 'PLSAmode')
          for m in ('plain', 'layout', 'all unknown', 'domains', 'mono',
                    'factors')]
CASES = {'quick': 1800, 'thorough': 30000}
NEED = {'predictions compared': 15000, 'unknown objects queried': 5000}
RULE = ('fitted pLSA models, both ways of prediction, score domains with '
        'negative and fractional levels, known and unknown objects; distinct '
        '= different (parameters, data, queries)')


def case(ctx):
    from .. import gens
    kind, mode = ctx.stratum.split('/')
    r = ctx.rng
    ei = (0, 1)
    if mode == 'layout':
        while True:
            data, ref = models.training(ctx, kind, layout='any')
            if len(ref.eo) >= 2:
                break
        ei = tuple(int(i) for i in r.permutation(len(ref.eo))[:2])
    elif mode == 'domains':
        data, ref = models.training(ctx, kind, dom=gens.gen_domain(ctx))
    elif mode == 'mono':
        data, ref = models.training(ctx, kind, shape='single')
    else:
        data, ref = models.training(ctx, kind)
    p = models.params(ctx, kind)
    if mode == 'factors':
        p['k'] = ctx.randint(3, 12)
    if ctx.coin(.3):
        # any true or false value
        p['use_expectation'] = ctx.choice(
            [1, np.bool_(True)] if p['use_expectation'] else
            [0, np.bool_(False)])
    rec = models.build(kind, p)
    rec.fit(data, event_index=ei)
    levels = gens.domain_levels(tuple(ref.dom.tolist()))
    ctx.close(rec.get_score_levels(), levels, 'levels of a fitted model')
    ctx.close(rec.score_domain, ref.dom, 'score domain of a fitted model')
    q, known = models.queries(ctx, ref, n=ctx.size(ctx.randint(2, 40), p=.03, top=5000),
                              unknown=1. if mode == 'all unknown' else .3)
    iid = models.iids(rec, q, ei)
    ctx.equal(iid >= 0, known[:, list(ei)], 'known objects')
    got = np.asarray(rec.predict(q), dtype=float)
    ctx.check(got.shape == (len(q),), 'shape of predictions')
    lo, hi = levels[0], levels[-1]
    eps = 1e-9 * max(1, abs(lo), abs(hi))
    ctx.check(np.all((got >= lo - eps) & (got <= hi + eps)),
              'a predicted score is out of the domain', got=got, domain=ref.dom)
    post = models.plsa_reference(rec, iid, levels, True)
    if kind == 'PLSA':
        ctx.close(got, post.dot(levels), 'predictions are not posterior '
                  'expectations', rtol=1e-7, atol=1e-8, q=q)
    else:
        for g, w in zip(got, post):
            i = int(np.argmin(np.abs(levels - g)))
            ctx.check(abs(levels[i] - g) < 1e-9 * (1 + abs(g)),
                      'a predicted mode is not a level', got=g)
            ctx.check(w[i] >= w.max() - 1e-9, 'a prediction is not a mode',
                      posterior=w, got=g)
    ctx.obs('predictions compared', len(q))
    ctx.obs('unknown objects queried', (iid < 0).sum())
    ctx.sig(kind, sorted(map(str, p.items())), q.tobytes(), ref.ev.tobytes())
    ctx.note(stratum=ctx.stratum, params=p, query=q[:3], prediction=got[:3],
             posterior=post[0])
