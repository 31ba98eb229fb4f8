"""C17: input contracts of item finders"""
import numpy as np
from .. import gens, models

STRATA = ['accept', 'reject', 'implicit', 'duplicates', 'scores ignored',
          'types', 'matrix', 'after binarize']
CASES = {'quick': 2400, 'thorough': 20000}
NEED = {'data accepted': 300, 'data rejected': 300, 'matrices compared': 300}
RULE = ('binary, uniform, multi-level and shifted score sets for the explicit '
        'item finder; event sets with duplicates for the implicit one, with '
        'the 0/1 matrix read in all four forms; distinct = different data '
        'sets')


def case(ctx):
    from kamrecsys.data import EventData, EventWithScoreData
    from kamrecsys.item_finder import LogisticPMF, ImplicitLogisticPMF
    r = ctx.rng
    st = ctx.stratum
    n = ctx.size(ctx.randint(2, 40), p=.01, top=3000)
    ev, pools, idk = gens.gen_events(ctx, 2, None, n=n)
    kw = dict(random_state=ctx.randint(0, 99), maxiter=2, k=ctx.randint(1, 3))
    ctx.sig(st, ev.tobytes(), idk)
    ctx.note(stratum=st, events=ev[:3], n=n)
    if st in ('accept', 'after binarize'):
        data = EventWithScoreData()
        if st == 'accept':
            sc = r.randint(0, 2, n)
            sc[0], sc[-1] = 0, 1
            sc = sc.astype(ctx.choice(['i8', 'f8', 'i4', 'u1', 'f4']))
            dom = ctx.choice([(0, 1, 1), (0., 1., 1.), [0, 1, 1],
                              np.array([0, 1, 1])])
            data.set_event(ev, sc, score_domain=dom)
        else:
            dom = gens.gen_domain(ctx)
            lv = gens.domain_levels(dom)
            if len(lv) < 2:
                dom, lv = (1, 5, 1), gens.domain_levels((1, 5, 1))
            sc = gens.gen_scores(ctx, dom, n).astype(float)
            sc[0], sc[-1] = lv[0], lv[-1]
            data.set_event(ev, sc, score_domain=dom)
            data.binarize_score()
        rec = LogisticPMF(**kw)
        ctx.check(rec.task_type == 'item_finder' and
                  rec.explicit_ratings is True, 'kind of an explicit model',
                  got=(rec.task_type, rec.explicit_ratings))
        ctx.equal(rec.score_domain, [0, 1, 1], 'score domain before fitting')
        rec.fit(data)
        pr = np.asarray(rec.predict(ev))
        ctx.check(np.all((pr > 0) & (pr < 1)), 'not probabilities', got=pr)
        ctx.equal(rec.score_domain, [0, 1, 1], 'score domain of a model')
        ctx.check(rec.n_score_levels == 2, 'levels of a model')
        ctx.obs('data accepted')
    elif st == 'reject':
        bad = []
        sc = r.randint(0, 2, n)
        sc[0], sc[-1] = 0, 1
        bad.append((np.zeros(n), (0, 1, 1)))
        bad.append((np.ones(n, dtype=int), (0, 1, 1)))
        bad.append((sc, (0, 2, 1)))
        bad.append((sc, (1, 5, 1)))
        bad.append((sc + 1, (1, 2, 1)))
        bad.append((r.randint(1, 6, n), (1, 5, 1)))
        bad.append((sc * 2 - 1, (-1, 1, 2)))
        x = sc.astype(float)
        x[ctx.randint(0, n - 1)] = ctx.choice([.5, 2., -1., 1.0001])
        bad.append((x, (0, 1, 1)))
        bad.append((sc, (0, 1, .5)))
        # domains that are nearly the one of binary scores
        for e in (1e-3, 1e-6, 1e-9, -1e-3, -1e-9):
            d = [0., 1., 1.]
            d[ctx.randint(0, 2)] += e
            bad.append((sc, tuple(d)))
        s, d = bad[ctx.randint(0, len(bad) - 1)]
        data = EventWithScoreData()
        data.set_event(ev, s, score_domain=d)
        ctx.raises(ValueError, lambda: LogisticPMF(**kw).fit(data),
                   'scores that are not binary were accepted', scores=s,
                   domain=d)
        ctx.obs('data rejected')
        ctx.sig(d, s.tobytes())
    elif st == 'types':
        plain = EventData()
        plain.set_event(ev)
        from kamrecsys.score_predictor import PMF, MultinomialPLSA
        m = ctx.randint(0, 3)
        if m == 0:
            for x in (None, ev, {}, [1, 2]):
                for c in (LogisticPMF, ImplicitLogisticPMF, PMF,
                          MultinomialPLSA):
                    ctx.raises((TypeError, AttributeError, ValueError),
                               lambda: c(random_state=0).fit(x),
                               'something that is not data was accepted')
        elif m == 1:
            for c in (PMF, MultinomialPLSA):
                ctx.raises((TypeError,), lambda: c(random_state=0).fit(plain),
                           'data without scores were accepted')
        elif m == 2:
            ctx.raises((TypeError, AttributeError, ValueError),
                       lambda: LogisticPMF(**kw).fit(plain),
                       'data without scores were accepted')
        else:
            rec = ImplicitLogisticPMF(**kw)
            rec.fit(plain)
            for t in ('coo', 'dense', '', None, 'CSR'):
                ctx.raises(TypeError, lambda: rec.get_event_array(t),
                           'an illegal type of a matrix was accepted')
        ctx.obs('data rejected')
    elif st == 'matrix':
        # the matrix given to subclasses of the base class
        class Probe(ImplicitLogisticPMF):
            def fit(self, data, event_index):
                super(ImplicitLogisticPMF, self).fit(data, event_index)
        layout = ctx.choice(['default2', 'perm', 'long'])
        while True:
            big = ctx.coin(.1)
            data, ref = gens.gen_data(
                ctx, scored=False, layout=layout,
                n=ctx.randint(257, 1200) if big else None,
                shape=ctx.choice(['many', 'single', 'dense', 'unique'] if big
                                 else ['small', 'dense', 'tiny', 'single']))
            if len(ref.eo) >= 2:
                break
        ei = tuple(int(i) for i in r.permutation(len(ref.eo))[:2])
        rec = Probe(**kw)
        ctx.check(rec.task_type == 'item_finder' and
                  rec.explicit_ratings is False, 'kind of an implicit model',
                  got=(rec.task_type, rec.explicit_ratings))
        rec.fit(data, event_index=ei)
        got = {t: rec.get_event_array(t)
               for t in ('csr', 'csc', 'lil', 'array')}
        got['default'] = rec.get_event_array()
        for t in ('coo', 'dense', '', None, 'CSR', 'dok'):
            ctx.raises((TypeError, ValueError), lambda: rec.get_event_array(t),
                       'an illegal type of a matrix was accepted')
        nu, ni = [len(ref.objects(ref.eo[j])) for j in ei]
        want = np.zeros((nu, ni), dtype=int)
        for row in ref.ev:
            want[rec.to_iid(ref.eo[ei[0]], row[ei[0]].item()),
                 rec.to_iid(ref.eo[ei[1]], row[ei[1]].item())] = 1
        for t, (m, no) in got.items():
            ctx.equal(np.asarray(no), [nu, ni], 'numbers of objects')
            if t == 'array':
                ctx.check(isinstance(m, np.ndarray), 'kind of a matrix',
                          got=type(m))
            else:
                ctx.check(m.format == ('csr' if t == 'default' else t),
                          'kind of a matrix', got=m.format, want=t)
                m = m.toarray()
            ctx.equal(m, want, 'the matrix of implicit feedback', kind=t)
            ctx.obs('matrices compared')
    else:
        # duplicates, order and scores of events do not matter
        data = EventData()
        data.set_event(ev)
        a = ImplicitLogisticPMF(**kw)
        a.fit(data)
        if st == 'scores ignored':
            other = EventWithScoreData()
            dom = gens.gen_domain(ctx)
            other.set_event(ev, gens.gen_scores(ctx, dom, n), dom)
        elif st == 'duplicates':
            idx = np.r_[np.arange(n), r.randint(0, n, ctx.randint(1, 20))]
            idx = idx[r.permutation(len(idx))]
            other = EventData()
            other.set_event(ev[idx])
        else:
            other = EventData()
            other.set_event(np.unique(ev, axis=0))
        b = ImplicitLogisticPMF(**kw)
        b.fit(other)
        for name in ('mu_', 'bu_', 'bi_', 'p_', 'q_'):
            ctx.close(getattr(a, name), getattr(b, name),
                      'implicit feedback depends on more than the set of '
                      'events', name=name, rtol=1e-8, atol=1e-10)
        ctx.close(a.fit_results_['final_loss'], b.fit_results_['final_loss'],
                  'loss', rtol=1e-9)
        ctx.obs('data accepted')
