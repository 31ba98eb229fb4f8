"""C35: reports of training are complete, truthful and convertible"""
import copy
import json

import numpy as np

from .. import core, models

STRATA = [k + '/' + m for k in models.KINDS
          for m in ('plain', 'layout', 'converge', 'refit')] + ['messages']
CASES = {'quick': 1260, 'thorough': 15000}
NEED = {'reports inspected': 900, 'reports converted': 900,
        'converged trainings': 100, 'interrupted trainings': 300}
RULE = ('models of all kinds trained on data of all shapes and layouts, to '
        'convergence and to limits of iterations; distinct = different '
        '(model, parameters, data)')

COMMON = {'initial_loss', 'final_loss', 'n_users', 'n_items', 'n_events',
          'n_parameters', 'success', 'status', 'message', 'n_iterations',
          'optimizer_kwargs'}


def case(ctx):
    if ctx.stratum == 'messages':
        return messages(ctx)
    kind, mode = ctx.stratum.split('/')
    r = ctx.rng
    ei = (0, 1)
    if mode == 'layout':
        while True:
            data, ref = models.training(ctx, kind, layout='any')
            if len(ref.eo) >= 2:
                break
        ei = tuple(int(i) for i in r.permutation(len(ref.eo))[:2])
    elif mode == 'converge':
        data, ref = models.training(ctx, kind, n=ctx.randint(2, 20),
                                    shape='small')
    else:
        data, ref = models.training(ctx, kind)
    p = models.params(ctx, kind)
    if mode == 'converge':
        p.pop('options', None)
        p.pop('method', None)
        p['maxiter'] = 1000
        p['k'] = min(p['k'], 2)
        if kind in models.MF:
            p['C'] = ctx.choice([.1, 1.])
            p['tol'] = ctx.choice([1e-3, 1e-4])
        else:
            p['tol'] = ctx.choice([1e-2, 1e-3])
    rec = models.build(kind, p)
    if mode == 'refit':
        # reports of another training are all replaced
        other, _ = models.training(ctx, kind)
        rec.fit(other)
    rec.fit(data, event_index=ei)
    fr = rec.fit_results_
    ctx.check(COMMON <= set(fr), 'parts of a report are missing',
              missing=sorted(COMMON - set(fr)))
    nu = len(ref.objects(ref.eo[ei[0]]))
    ni = len(ref.objects(ref.eo[ei[1]]))
    ctx.check((fr['n_users'], fr['n_items'], fr['n_events']) ==
              (nu, ni, len(ref.ev)), 'numbers of users, items, and events',
              got=(fr['n_users'], fr['n_items'], fr['n_events']),
              want=(nu, ni, len(ref.ev)))
    # parameters that were learned, without those of unknown objects
    if kind in models.MF:
        size = 1 + (nu + ni) * (1 + rec.k)
    else:
        size = rec.k * (1 + nu + ni + len(rec.get_score_levels()))
    ctx.check(fr['n_parameters'] == size, 'the number of parameters',
              got=fr['n_parameters'], want=size)
    ctx.check(np.ndim(fr['initial_loss']) == np.ndim(fr['final_loss']) == 0
              and np.isfinite(fr['initial_loss']) and
              np.isfinite(fr['final_loss']), 'losses', fr=fr)
    good, status = bool(fr['success']), int(fr['status'])
    # codes of success of optimisers are not always 0
    if p.get('method', 'CG') in ('CG', 'BFGS', 'L-BFGS-B', 'Newton-CG',
                                 'SLSQP', 'Powell') or 'PLSA' in kind:
        ctx.check(good == (status == 0), 'success and status contradict each '
                  'other', fr=fr)
    msg = fr['message']
    ctx.check(isinstance(msg, (str, bytes)) and len(msg) > 0, 'message of a '
              'report', got=msg)
    limit = p.get('maxiter', p.get('options', {}).get('maxiter'))
    it = fr['n_iterations']
    kw = fr['optimizer_kwargs']
    if 'PLSA' in kind:
        ctx.check(status in (0, 2) and 1 <= it <= limit, 'status or number '
                  'of iterations', fr=fr)
        ctx.check(('maximum number of iterations' in msg.lower()) ==
                  (status == 2) and ('success' in msg.lower()) ==
                  (status == 0), 'message and status contradict each other',
                  fr=fr)
        ctx.check(good or it == limit, 'training stopped without reason',
                  fr=fr)
        ctx.check(kw['maxiter'] == limit and kw['tol'] == p.get('tol', 1e-10),
                  'options of training', got=kw)
        if good:
            # the last change of losses is within the tolerance
            last = fr['initial_loss']
            if it > 1:
                less = models.build(kind, dict(p, maxiter=it - 1, tol=0.))
                less.fit(data, event_index=ei)
                last = less.fit_results_['final_loss']
            ctx.check(abs(last - fr['final_loss']) <= 1e-12 + (1 + 1e-6) *
                      p.get('tol', 1e-10) * abs(fr['final_loss']),
                      'success before convergence', last=last, fr=fr)
            # the same training is not ended by the limit, if that is just
            # the number of iterations needed
            same = models.build(kind, dict(p, maxiter=int(it)))
            same.fit(data, event_index=ei)
            fs = same.fit_results_
            ctx.check(all(fs[k] == fr[k] for k in COMMON -
                          {'optimizer_kwargs'}), 'convergence in the last '
                      'iteration', got=fs, want=fr)
            ctx.obs('converged in the last iteration')
        else:
            # one iteration more has not been done because of the limit
            q = dict(p, maxiter=limit + 1)
            more = models.build(kind, q)
            more.fit(data, event_index=ei)
            ctx.check(more.fit_results_['n_iterations'] == limit + 1 and
                      more.fit_results_['initial_loss'] ==
                      fr['initial_loss'], 'training with another limit',
                      fr=fr, more=more.fit_results_)
    else:
        ctx.check(fr['optimizer_method'] == p.get('method', 'CG'),
                  'the optimiser', got=fr['optimizer_method'])
        ctx.check(kw['options']['maxiter'] == limit and
                  kw['options']['disp'] in (False, 0) and
                  kw.get('tol') == p.get('tol'), 'options of training',
                  got=kw, given=p)
        ctx.check(fr['func_calls'] >= 1 and (
            fr['grad_calls'] is None or fr['grad_calls'] >= 0),
            'numbers of calls', fr=fr)
        if p.get('method', 'CG') in ('CG', 'BFGS', 'L-BFGS-B'):
            ctx.check(0 <= it <= limit, 'the number of iterations', fr=fr)
    ctx.obs('converged trainings' if good else 'interrupted trainings')
    # as experimental scripts do
    from kamrecsys.utils import json_decodable
    c = copy.deepcopy(fr)
    json_decodable(c)
    back = json.loads(json.dumps(c))
    ctx.check(set(back) == set(fr), 'converted reports lost a part')
    for k in COMMON - {'optimizer_kwargs', 'message'}:
        ctx.check(back[k] == fr[k] and isinstance(
            back[k], (bool, int, float)), 'a converted report', key=k,
            got=back[k], want=fr[k])
    ctx.obs('reports converted')
    ctx.obs('reports inspected')
    # a report is not changed by later use of a model
    before = core.freeze(fr)
    q, _ = models.queries(ctx, ref)
    rec.predict(q)
    ctx.check(core.freeze(rec.fit_results_) == before, 'a prediction changed '
              'the report')
    ctx.sig(kind, mode, sorted(map(str, p.items())), ref.ev.tobytes())
    ctx.note(stratum=ctx.stratum, params=p, report={
        k: fr[k] for k in sorted(COMMON)})


def messages(ctx):
    from kamrecsys.utils import get_fit_status_message
    want = {0: 'success', 1: 'function evaluations',
            2: 'number of iterations', 3: 'precision loss'}
    seen = set()
    for s, w in want.items():
        for x in (s, np.int64(s), np.int32(s), float(s)):
            m = get_fit_status_message(x)
            ctx.check(w in m.lower(), 'the message of a status', status=s,
                      got=m)
        seen.add(m)
    ctx.check(len(seen) == 4, 'messages are not distinct')
    for s in (-1, 4, 5, 99, ctx.randint(4, 10 ** 6), -ctx.randint(1, 999)):
        m = get_fit_status_message(s)
        ctx.check('unknown' in m.lower() and m not in seen, 'the message of '
                  'an unknown status', status=s, got=m)
    ctx.obs('messages compared', 4)
    ctx.sig('messages', ctx.case)
