"""C15: training reads data only, and a model is independent of data after"""
import copy
import pickle
import numpy as np
from .. import gens, models
from ..core import freeze

STRATA = [k + '/' + m for k in models.KINDS
          for m in ('set_event', 'binarize', 'feature', 'in place', 'copies',
                    'size')]
CASES = {'quick': 1500, 'thorough': 20000}
NEED = {'fits observed': 1200, 'data changes after training': 700,
        'predictions compared': 5000, 'copies compared': 200}
RULE = ('all models; training data are compared before and after fitting, '
        'then changed through their public interface while the model is '
        'queried; pickled and copied models; distinct = different (model, '
        'parameters, data)')


def case(ctx):
    kind, mode = ctx.stratum.split('/')
    r = ctx.rng
    big = mode == 'size'
    data, ref = models.training(ctx, kind, n=ctx.randint(200, 400) if big
                                else None, pool=3 if big else None,
                                idkind='small' if big else None)
    if ctx.coin(.5):
        gens.add_feature(ctx, data, ref, ctx.randint(0, 1))
    p = models.params(ctx, kind, maxiter=3)
    if ctx.coin(.2):
        p['random_state'] = np.random.RandomState(p['random_state'])
    rec = models.build(kind, p)
    before = freeze(data)
    raw = [freeze(x) for x in (ref.ev, ref.score)]
    rec.fit(data)
    ctx.check(freeze(data) == before, 'training changed the data')
    ctx.check([freeze(x) for x in (ref.ev, ref.score)] == raw,
              'training changed arrays of a caller')
    gens.check_container(ctx, data, ref)
    ctx.obs('fits observed')
    q, _ = models.queries(ctx, ref, n=ctx.randint(2, 12))
    want = np.array(rec.predict(q), dtype=float)
    conv = rec.to_iid_event(q)
    tab = [(o, np.array(rec.eid[o])) for o in range(2)]
    if hasattr(rec, 'get_score_levels'):
        lv = np.array(rec.get_score_levels())
    # training events are not kept
    ctx.check(rec.event is None and rec.event_feature is None and
              getattr(rec, 'score', None) is None,
              'training data are kept in a model')
    ctx.check(not any(isinstance(v, np.random.RandomState)
                      for k, v in vars(rec).items() if k != 'random_state'),
              'the random generator of training is kept in a model')
    if big:
        # the size of a model does not depend on the number of events
        other = models.build(kind, p)
        more = type(data)()
        if ref.score is None:
            more.set_event(np.tile(ref.ev, (5, 1)))
        else:
            more.set_event(np.tile(ref.ev, (5, 1)), np.tile(ref.score, 5),
                           score_domain=tuple(ref.dom.tolist()))
        other.fit(more)
        a, b = len(pickle.dumps(rec)), len(pickle.dumps(other))
        ctx.check(b < a + 8 * len(ref.ev), 'a model grows with the number of '
                  'training events', bytes=(a, b), events=len(ref.ev))
        ctx.obs('model sizes compared')

    def still(what, m=rec):
        ctx.close(m.predict(q), want, 'predictions changed: ' + what,
                  rtol=1e-12, atol=1e-300)
        ctx.equal(m.to_iid_event(q), conv, 'id conversion changed: ' + what)
        for o, e in tab:
            ctx.equal(m.eid[o], e, 'ids of a model changed: ' + what)
            for i, x in enumerate(e.tolist()):
                ctx.check(m.to_iid(o, x) == i and m.to_eid(o, i) == x,
                          'id conversion changed: ' + what)
        if hasattr(m, 'get_score_levels'):
            ctx.equal(m.get_score_levels(), lv, 'score levels changed: ' +
                      what)
        ctx.obs('predictions compared', len(q))

    still('nothing')
    if mode == 'set_event':
        ev2, _, _ = gens.gen_events(ctx, 2, None, kind=ref.kind)
        if ref.score is not None:
            dom = gens.gen_domain(ctx)
            data.set_event(ev2, gens.gen_scores(ctx, dom, len(ev2)), dom)
        else:
            data.set_event(ev2)
        still('new events were set to the training data')
        ctx.obs('data changes after training')
    elif mode == 'binarize' and ref.score is not None:
        data.binarize_score()
        still('scores of the training data were binarised')
        ctx.obs('data changes after training')
    elif mode == 'feature':
        for o in range(2):
            gens.add_feature(ctx, data, ref, o)
        data.filter_event(r.rand(data.n_events) < .6)
        gens.check_container(ctx, data, ref)
        still('features were set to the training data')
        ctx.obs('data changes after training')
    elif mode == 'in place':
        # arrays given by a caller are overwritten
        if ref.score is not None:
            ref.score[...] = ref.score[::-1].copy()
        ref.ev[...] = ref.ev[::-1].copy()
        still('arrays of a caller were overwritten')
        ctx.obs('data changes after training')
        # tables of one side do not belong to the other
        now = freeze(data)
        other = models.build(kind, p)
        other.fit(data)
        ctx.obs('arrays overwritten', gens.overwrite(other))
        ctx.check(freeze(data) == now, 'tables of a model are those of its '
                  'training data')
        ctx.obs('arrays overwritten', gens.overwrite(data))
        still('everything in the training data was overwritten')
    elif mode == 'copies':
        for f in (lambda: pickle.loads(pickle.dumps(rec)),
                  lambda: copy.deepcopy(rec), lambda: copy.copy(rec)):
            c = f()
            ctx.check(type(c) is type(rec), 'class of a copy')
            still('a copied or pickled model', c)
            for k in ('initial_loss', 'final_loss', 'n_events'):
                ctx.check(c.fit_results_[k] == rec.fit_results_[k],
                          'results of a copy')
            ctx.obs('copies compared')
    ctx.sig(kind, sorted(map(str, p.items())), ref.ev.tobytes())
    ctx.note(stratum=ctx.stratum, params=p, events=ref.ev[:3],
             prediction=want[:3])
