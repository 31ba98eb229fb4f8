# -*- coding: utf-8 -*-
"""C29: statistics of experimental results by a script"""
import json
import math
import os

import numpy as np

from .. import gens, scripts
from .c20 import auc

STRATA = ['sp', 'if', 'sp folds', 'if folds', 'pipeline', 'sub', 'extreme',
          'uniform']
CASES = {'quick': 960, 'thorough': 16000}
NEED = {'statistics inspected': 600, 'results of a whole pipeline': 50,
        'refusals': 10}
RULE = ('generated results of experiments, of one or many folds of uneven '
        'sizes in any order, and results of the experimental scripts; '
        'distinct = different input files')


def synthetic(ctx, st):
    r = ctx.rng
    task = 'item_finder' if st.startswith('if') else 'score_predictor'
    if st in ('sub', 'extreme'):
        task = ctx.choice(['item_finder', 'score_predictor'])
    if st == 'uniform':
        task = 'item_finder'
    dom = list(scripts.domain(ctx))
    folds = ctx.randint(1, 12) if 'folds' in st or (
        st not in ('sp', 'if') and ctx.coin()) else None

    def part(n):
        if task == 'item_finder':
            t = r.randint(0, 2, n)
            if st == 'uniform':
                t = np.full(n, uniform)
            p = r.rand(n)
            if ctx.coin(.3):
                p = np.round(p, 1)
        else:
            t = gens.gen_scores(ctx, dom, n)
            p = r.normal((dom[0] + dom[1]) / 2., (dom[1] - dom[0]) * (
                3. if st == 'extreme' else .4), n)
            if ctx.coin(.2):
                p = np.array(gens.gen_scores(ctx, dom, n), dtype=float)
        return t.tolist(), p.tolist(), r.randint(0, 99, (n, 2)).tolist()
    uniform = ctx.randint(0, 1)
    if folds is None:
        t, p, e = part(ctx.size(1, 2, ctx.randint(1, 60), 200, p=.02,
                                 top=3000))
        pred = {'event': e, 'true': t, 'predicted': p}
        if ctx.coin():
            pred['event_feature'] = {'timestamp': list(range(len(e)))}
    else:
        keys = [str(i) for i in r.permutation(folds + ctx.randint(0, 3))[
            :folds]]
        if ctx.coin():
            keys = [str(i) for i in range(folds)]
        parts = {k: part(ctx.choice([1, 2, ctx.randint(1, 30)]))
                 for k in keys}
        pred = {'event': {k: parts[k][2] for k in keys},
                'true': {k: parts[k][0] for k in keys},
                'predicted': {k: parts[k][1] for k in keys}}
        if ctx.coin():
            pred['mask'] = {k: list(range(len(parts[k][0]))) for k in keys}
        t = [x for k in keys for x in parts[k][0]]
        p = [x for k in keys for x in parts[k][1]]
    info = {'model': {'task_type': task, 'options': {'k': 1}, 'name': 'é'},
            'condition': {'score_domain': dom, 'scheme': 'holdout'},
            'prediction': pred, 'environment': {}, 'test': {'a': None},
            'training': {'results': {'0': {'fun': 1.5, 'nan': None}}}}
    return info


def pooled(info):
    p = info['prediction']
    if isinstance(p['event'], dict):
        return ([x for k in p['true'] for x in p['true'][k]],
                [x for k in p['true'] for x in p['predicted'][k]])
    return p['true'], p['predicted']


def pipeline(ctx, s):
    """results of an experimental script itself"""
    from .c28 import events
    tool = ctx.choice(['sp', 'if'])
    dom = scripts.domain(ctx)
    ev, sc = events(ctx, dom, 4)
    k = np.arange(len(ev)) % 2
    if tool == 'if':
        sc = np.where(k[ctx.rng.permutation(len(ev))], dom[1],
                      dom[0]).astype(float)
    argv, _, _ = scripts.options(ctx, tool, light=True)
    argv += ['--no-timestamp', '-d'] + list(dom)
    src, out = s.path('in.event'), s.path('res.json')
    scripts.write(src, ev, sc, None)
    if ctx.coin():
        argv += ['-v', 'cv', '-f', ctx.randint(1, 4)]
    else:
        argv += ['-t', src]
    scripts.attempt(ctx, 'exp_recsys_%s.py' % tool,
                    argv + ['-i', src, '-o', out])
    ctx.obs('results of a whole pipeline')
    return out


def refuse(ctx):
    """what are not results of a known kind of experiment"""
    info = synthetic(ctx, ctx.choice(['sp', 'if', 'sp folds', 'if folds']))
    how = ctx.randint(0, 2)
    text = None
    if how == 0:
        info['model']['task_type'] = ctx.choice(
            ['classifier', '', None, 'Item_Finder', 'score predictor'])
    elif how == 1:
        # a true score without its prediction
        p = info['prediction']['predicted']
        (p[sorted(p)[0]] if isinstance(p, dict) else p).pop()
    else:
        text = json.dumps(info)[:-ctx.randint(1, 60)]
    with scripts.Scratch() as s:
        src, out = s.path('in.json'), s.path('out.json')
        with open(src, 'w') as fp:
            fp.write(text or json.dumps(info))
        try:
            rc, _, _ = scripts.run('stats_recsys.py', ['-i', src, '-o', out])
        except Exception:
            rc = 1
        ctx.check(rc != 0 and not (os.path.exists(out) and
                                   open(out).read().strip()),
                  'results of an unknown kind are accepted', kind=how,
                  task=info['model']['task_type'])
    ctx.obs('refusals')
    ctx.sig('refuse', text or json.dumps(info))


def case(ctx):
    st = ctx.stratum
    if ctx.coin(.04):
        return refuse(ctx)
    with scripts.Scratch() as s:
        if st == 'pipeline':
            src = pipeline(ctx, s)
            info = scripts.load(src)
        else:
            info = synthetic(ctx, st)
            src = s.path('in.json')
            with open(src, 'w') as fp:
                json.dump(info, fp)
        before = open(src, 'rb').read()
        ctx.sig(before if st != 'pipeline' else str(info['prediction']))
        task = info['model']['task_type']
        ctx.note(task=task, n_folds=len(info['prediction']['event'])
                 if isinstance(info['prediction']['event'], dict) else None,
                 domain=info['condition']['score_domain'])
        keep = ctx.coin()
        argv = ['--keepdata'] if keep else (
            ['--no-keepdata'] if ctx.coin() else [])
        sub = st == 'sub' and ctx.coin(.3)
        m = ctx.randint(0, 2) if sub or st != 'sub' else 0
        if m == 0:
            out = s.path('out.json')
            a, out = scripts.io_args(ctx, src, out, argv)
            scripts.attempt(ctx, 'stats_recsys.py', a, sub=sub)
            got = scripts.load(out)
        else:
            text = scripts.attempt(ctx, 'stats_recsys.py',
                                   ['-i', src] + argv, sub=sub)
            got = json.loads(text)
        ctx.check(open(src, 'rb').read() == before, 'an input was changed')
    rest = dict(got)
    stats = rest.pop('statistics')
    want = dict(info)
    if not keep:
        want.pop('prediction')
    ctx.check(json.dumps(rest, sort_keys=True) ==
              json.dumps(want, sort_keys=True),
              'information of an experiment is altered', keep=keep,
              got=sorted(rest), want=sorted(want))
    t, p = pooled(info)
    t, p = [float(x) for x in t], [float(x) for x in p]
    inspect(ctx, stats, t, p, task, info['condition']['score_domain'])


def inspect(ctx, g, t, p, task, dom):
    ctx.obs('statistics inspected')
    n = len(t)
    big = max(map(abs, t + p)) + 1
    mean = lambda v: math.fsum(v) / n                        # noqa: E731

    def sd(v):
        m = mean(v)
        return math.sqrt(math.fsum((x - m) ** 2 for x in v) / n)

    def cmp(got, want, what, b=big):
        ctx.close(float(got), want, what, rtol=1e-9, atol=1e-10 * b, n=n)
    ctx.check(g['n_samples'] == n, 'n_samples', got=g['n_samples'], want=n)
    for k, v in (('true', t), ('predicted', p)):
        cmp(g[k]['mean'], mean(v), 'mean of scores: ' + k)
        cmp(g[k]['stdev'], sd(v), 'stdev of scores: ' + k)
    if task == 'item_finder':
        if len(set(t)) == 2:
            ctx.close(g['area under the curve'], auc(t, p),
                      'AUC of pooled predictions')
        else:
            ctx.check('area under the curve' not in g, 'AUC of uniform truth')
        return
    ae = [abs(x - y) for x, y in zip(t, p)]
    se = [x ** 2 for x in ae]
    cmp(g['mean absolute error']['mean'], mean(ae), 'MAE')
    cmp(g['mean absolute error']['stdev'], sd(ae), 'stdev of MAE')
    cmp(g['mean squared error']['mean'], mean(se), 'MSE', big ** 2)
    cmp(g['mean squared error']['stdev'], sd(se), 'stdev of MSE', big ** 2)
    cmp(g['mean squared error']['rmse'] ** 2, mean(se), 'RMSE', big ** 2)
    lv = gens.domain_levels(dom)
    ctx.close(g['score levels'], lv, 'score levels')
    for k, v in (('true', t), ('predicted', p)):
        h = np.array(g[k]['histogram'])
        ctx.check(len(h) == len(lv) and h.sum() == n, 'histogram', got=h)
        ctx.close(g[k]['histogram density'], h / float(n),
                  'histogram density')
        d = np.abs(np.array(v)[:, None] - lv[None, :])
        srt = np.sort(d, axis=1)
        clear = srt[:, 1] - srt[:, 0] > 1e-6 * dom[2]
        w = np.bincount(d.argmin(axis=1)[clear], minlength=len(lv))
        ctx.check(np.all(h >= w), 'histogram of scores', got=h, want=w)
