# -*- coding: utf-8 -*-
"""C27: hold-out experiments by scripts"""
import json
import os

import numpy as np

from .. import core, gens, scripts

STRATA = ['sp', 'if', 'sp', 'if', 'single', 'unknown', 'unseeded', 'sub',
          'sp', 'refuse']
CASES = {'quick': 400, 'thorough': 6000}
NEED = {'experiments inspected': 200, 'predictions compared': 1500,
        'runs in a process of their own': 20}
RULE = ('generated pairs of training and test files, all methods, options '
        'and ways of giving files; distinct = different generated files')


def events(ctx, n, users, items, dom):
    ev = np.stack([ctx.rng.choice(users, n), ctx.rng.choice(items, n)],
                  axis=1)
    sc = np.array(gens.gen_scores(ctx, dom, n), dtype=float)
    return ev, sc


def case(ctx):
    st = ctx.stratum
    tool = {'sp': 'sp', 'if': 'if'}.get(st) or ctx.choice(['sp', 'if', 'sp'])
    script = 'exp_recsys_%s.py' % tool
    dom = scripts.domain(ctx)
    users = gens.gen_ids(ctx, ctx.choice(['small', 'sparse', 'negative']),
                         ctx.randint(2, 12))
    items = gens.gen_ids(ctx, ctx.choice(['small', 'sparse', 'huge']),
                         ctx.randint(2, 15))
    n = ctx.size(ctx.randint(6, 80), p=.03, top=2000)
    ev, sc = events(ctx, n, users, items, dom)
    # a learnable training set: both classes after binarization, and both
    # ends of the domain, so that an automatic domain is the same
    sc[0], sc[1] = dom[0], dom[1]
    auto = ctx.coin(.4)
    if st == 'single':
        m = 1
    else:
        m = ctx.size(ctx.randint(1, 40), p=.04, top=4000)
    tu, ti = users, items
    if st == 'unknown' or ctx.coin(.3):
        tu = np.r_[users, users.max() + 1 + np.arange(3)]
        ti = np.r_[items, items.min() - 1 - np.arange(3)]
    tev, tsc = events(ctx, m, tu, ti, dom)
    if st == 'unknown' and ctx.coin(.3):
        tev[:, 0] = users.max() + 1
    stamped = ctx.coin()
    ts = ctx.rng.randint(0, 10 ** 9, n) if stamped else None
    tts = ctx.rng.randint(0, 10 ** 9, m) if stamped else None
    argv, method, kw = scripts.options(ctx, tool, st != 'unseeded')
    argv.append('--timestamp' if stamped else '--no-timestamp')
    if stamped and ctx.coin():
        argv.remove('--timestamp')
    if auto:
        dom_arg = None
        if ctx.coin(.3):
            argv += ['-d', 0, 0, 0]
    else:
        dom_arg = dom
        argv += ['-d'] + list(dom)
    if ctx.coin(.4):
        argv += [ctx.choice(['-v', '--validation']), 'holdout']
    if ctx.coin(.2):
        argv += ['-f', 3]
    data, full = scripts.container(ev, sc, ts, dom_arg, tool)
    ctx.note(tool=tool, argv=argv, ev=ev[:3], test=tev[:3])
    with scripts.Scratch() as s:
        tr, te, out = s.path('a.event'), s.path('b.event'), s.path('o.json')
        nl = '\r\n' if ctx.coin(.1) else '\n'
        scripts.write(tr, ev, sc, ts, nl)
        scripts.write(te, tev, tsc, tts, nl)
        before = open(tr, 'rb').read(), open(te, 'rb').read()
        if st == 'refuse':
            ctx.obs('refusals')
            a, _ = scripts.io_args(ctx, tr, out, argv)
            if ctx.coin(.4):
                a += ['-t', te] + ctx.choice([
                    ['-m', 'nosuchmodel'], ['-v', 'none'], ['-k', 'x'],
                    ['--maxiter', '1.5'], ['-d', 1, 5], ['--nosuchoption']])
            try:
                rc, text, _ = scripts.run(script, a)
            except (IOError, TypeError, ValueError):
                rc = 1
            ctx.check(rc != 0, 'a hold-out test without test data, or with '
                      'illegal options, ended normally', argv=a)
            ctx.check(not os.path.exists(out) or
                      not open(out).read().strip(), 'a hold-out test without '
                      'test data, or with illegal options, wrote results',
                      argv=a)
            return
        argv = [ctx.choice(['-t', '--test']), te] + argv
        sub = st == 'sub'
        name = tr
        if sub:
            ctx.obs('runs in a process of their own')
        if sub and ctx.coin():
            stdin = tr if ctx.coin() else None
            text = scripts.attempt(
                ctx, script, argv if stdin else ['-i', tr] + argv,
                stdin=stdin, sub=True)
            name = 'stdin' if stdin else tr
            info = json.loads(text)
        else:
            a, out = scripts.io_args(ctx, tr, out, argv)
            scripts.attempt(ctx, script, a, sub=sub)
            info = scripts.load(out)
        ctx.check((open(tr, 'rb').read(), open(te, 'rb').read()) == before,
                  'input files were changed')
    inspect(ctx, info, tool, method, kw, data, full, ev, tev, tsc, tts,
            stamped, name, te, st != 'unseeded')
    scripts.check_env(ctx, info, script)
    ctx.sig(tool, ev.tobytes(), tev.tobytes(), str(argv[2:]))


def inspect(ctx, info, tool, method, kw, data, full, ev, tev, tsc, tts,
            stamped, tr, te, seeded):
    ctx.obs('experiments inspected')
    p = info['prediction']
    m = len(tev)
    ctx.check(p['event'] == tev.tolist(), 'test events are not those of the '
              'test file, in order', got=p['event'], want=tev)
    true = scripts.binarize(tsc, full) if tool == 'if' else tsc
    ctx.equal(p['true'], true, 'true scores')
    ctx.check(isinstance(p['predicted'], list) and len(p['predicted']) == m,
              'a prediction for each test event', got=p['predicted'], m=m)
    if stamped:
        ctx.check(p['event_feature'] == {'timestamp': tts.tolist()},
                  'event features', got=p['event_feature'], want=tts)
    else:
        ctx.check('event_feature' not in p, 'event features from nowhere')
    rec = scripts.build(method, kw)
    rec.fit(data)
    want = np.atleast_1d(rec.predict(tev))
    if seeded:
        ctx.close(p['predicted'], want, 'predicted scores are not those of '
                  'the model trained on the training file', rtol=1e-7,
                  atol=1e-9, method=method, kw=kw)
        ctx.obs('predictions compared', m)
        scripts.check_fit(ctx, info['training']['results']['0'],
                          rec.fit_results_, 'results of training')
    else:
        ctx.check(np.all(np.isfinite(p['predicted'])), 'finite predictions')
    t = info['training']
    for d, e, name in ((t, ev, 'training'), (info['test'], tev, 'test')):
        ctx.check((d['n_events'], d['n_users'], d['n_items']) == (
            len(e), len(set(e[:, 0])), len(set(e[:, 1]))),
            'the numbers of events, users, and items', which=name,
            got={k: d[k] for k in ('n_events', 'n_users', 'n_items')})
        ctx.check(list(d['results']) == ['0'], 'results of one fold')
        scripts.check_times(ctx, d['results']['0'], scripts.task(
            'fit' if name == 'training' else 'predict', 0, 1))
    ctx.check(info['test']['results']['0']['n_events'] == m,
              'the number of tested events')
    ctx.check(tr in t['file'] and te not in t['file'] and
              te in info['test']['file'] and tr not in info['test']['file'],
              'names of data files', got=(t['file'], info['test']['file']))
    c = info['condition']
    ctx.close(c['score_domain'], full, 'score domain of an original file')
    ctx.check(c['n_folds'] == 1 and c['scheme'] == 'holdout' and
              c['has_timestamp'] is stamped, 'conditions', got=c)
    name, task = scripts.names(method)
    mo = info['model']
    ctx.check(mo['name'] == name and mo['task_type'] == task and
              task in mo['module'] and mo['explicit_ratings'] is True,
              'model', got=mo)
    ctx.check(isinstance(mo.get('method'), str) and (
        not method.startswith('plsa') or
        ('mode' in mo['method'].lower()) == (method == 'plsamm')),
        'name of a method', got=mo, method=method)
    for k, v in kw.items():
        if v is not None:
            ctx.check(mo['options'][k] == v, 'options of a model', key=k,
                      got=mo['options'], want=kw)
