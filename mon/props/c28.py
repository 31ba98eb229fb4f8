# -*- coding: utf-8 -*-
"""C28: cross validation by scripts; the merge of its folds"""
import json
import math

import numpy as np

from .. import gens, scripts

STRATA = ['full', 'folds', 'full', 'folds', 'unseeded', 'sub', 'refuse',
          'manyfolds', 'synthetic', 'synthetic', 'synthetic']
CASES = {'quick': 330, 'thorough': 5000}
NEED = {'folds inspected': 500, 'single-fold runs compared': 200,
        'merged files compared': 60}
RULE = ('generated event files with two or more events per user; all '
        'methods, options and orders of folds; distinct = different files')


def events(ctx, dom, least=2):
    r = ctx.rng
    users = gens.gen_ids(ctx, ctx.choice(['small', 'sparse', 'negative']),
                         ctx.randint(2, 8))
    items = gens.gen_ids(ctx, ctx.choice(['small', 'sparse', 'huge']),
                         ctx.randint(3, 12))
    ev = []
    many = ctx.coin(.05)        # a hundred or more tested events
    for u in users:
        for _ in range(max(least, ctx.choice(
                [2, 3, 4, 5, 6, 10, ctx.randint(2, 15)]) +
                many * ctx.randint(50, 200))):
            ev.append([u, items[r.randint(len(items))]])
    ev = np.array(ev)[r.permutation(len(ev))]
    if ctx.coin(.3):
        ev = ev[np.argsort(ev[:, 0], kind='stable')]
    sc = np.array(gens.gen_scores(ctx, dom, len(ev)), dtype=float)
    return ev, sc


def strip(res):
    """what does not depend on time"""
    return {k: v for k, v in res.items() if k not in (
        'start_time', 'end_time', 'elapsed_time', 'elapsed_utime')}


def case(ctx):
    st = ctx.stratum
    if st == 'synthetic':
        return synthetic(ctx)
    tool = ctx.choice(['sp', 'sp', 'if'])
    script = 'exp_recsys_%s.py' % tool
    dom = scripts.domain(ctx)
    ev, sc = events(ctx, dom, 4 if tool == 'if' else 2)
    if tool == 'if':
        # both classes in every training set: many 0s and 1s
        k = np.arange(len(ev)) % 2
        sc = np.where(k[ctx.rng.permutation(len(ev))], dom[1], dom[0]).astype(
            float)
    auto = ctx.coin(.3)
    if auto:
        sc[0], sc[1] = dom[0], dom[1]
    stamped = ctx.coin()
    ts = ctx.rng.randint(0, 10 ** 9, len(ev)) if stamped else None
    argv, method, kw = scripts.options(ctx, tool, st != 'unseeded',
                                       light=True)
    argv.append('--timestamp' if stamped else '--no-timestamp')
    if not auto:
        argv += ['-d'] + list(dom)
    nf = 5
    argv += [ctx.choice(['-v', '--validation']), 'cv']
    if ctx.coin(.8):
        nf = ctx.randint(1, 6)
        if st == 'manyfolds':
            nf = ctx.randint(10, 13)
        argv += [ctx.choice(['-f', '--fold']), nf]
    data, full = scripts.container(ev, sc, ts, None if auto else dom, tool)
    ctx.note(tool=tool, argv=argv, ev=ev[:3], n=len(ev))
    ctx.sig(tool, ev.tobytes(), str(argv))
    with scripts.Scratch() as s:
        src = s.path('in.event')
        scripts.write(src, ev, sc, ts)
        if st == 'refuse':
            ctx.obs('refusals')
            for bad in (nf, -1, nf + 3):
                out = s.path('bad%d.json' % bad)
                try:
                    rc, _, _ = scripts.run(script, [
                        '-i', src, '-o', out, '--fold-no=%d' % bad] + argv)
                except (TypeError, ValueError, IndexError):
                    rc = 1
                ctx.check(rc != 0 and not open(out).read().strip(),
                          'a fold that does not exist is processed',
                          fold=bad, n_folds=nf)
            return
        sub = st == 'sub'
        a, out = scripts.io_args(ctx, src, s.path('full.json'), argv)
        scripts.attempt(ctx, script, a, sub=sub)
        info = scripts.load(out)
        inspect(ctx, info, tool, method, kw, data, full, ev, sc, ts, nf,
                st != 'unseeded')
        scripts.check_env(ctx, info, script)
        ctx.check('in.event' in info['training']['file'] and
                  info['test']['file'] == info['training']['file'],
                  'names of data files')
        if st not in ('folds', 'sub', 'manyfolds'):
            return
        files = []
        for f in range(nf):
            a, out = scripts.io_args(ctx, src, s.path('f%d.json' % f), argv)
            a += [ctx.choice(['-n', '--fold-no']), f]
            scripts.attempt(ctx, script, a, sub=sub and f < 2)
            one = scripts.load(out)
            one_fold(ctx, one, info, f, stamped)
            files.append(out)
        order = ctx.rng.permutation(nf)
        if ctx.coin(.3):
            order = np.arange(nf)
        merged = s.path('merged.json')
        scripts.attempt(ctx, 'exp_recsys_fold_merge.py',
                        ['-o', merged] + [files[i] for i in order],
                        sub=sub)
        merge(ctx, scripts.load(merged), info, nf)
        if sub:
            text = scripts.attempt(ctx, 'exp_recsys_fold_merge.py',
                                   [files[i] for i in order], sub=True)
            merge(ctx, json.loads(text), info, nf)
        # a subset of folds
        k = order[:ctx.randint(1, nf)]
        part = s.path('part.json')
        scripts.attempt(ctx, 'exp_recsys_fold_merge.py',
                        [files[i] for i in k] + ['--out', part])
        got = scripts.load(part)
        ctx.check(set(got['prediction']['predicted']) ==
                  {str(i) for i in k}, 'folds in a partial merge')
        for i in k:
            ctx.check(got['prediction']['predicted'][str(i)] ==
                      info['prediction']['predicted'][str(i)],
                      'predictions in a partial merge', fold=i)


_one = {}


def rename(x, fold, salt, key=''):
    """the results of a fold as those of another one"""
    if isinstance(x, dict):
        return {(str(fold) if k == '0' else k):
                rename(v, fold, salt, key + '/' + k) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, fold, salt, key) for v in x]
    if isinstance(x, float):
        return x + salt
    if isinstance(x, int) and not isinstance(x, bool) and (
            'prediction' in key or 'results' in key):
        return x + salt
    return x


def synthetic(ctx):
    """merge results of one real fold which are given other fold numbers"""
    with scripts.Scratch() as s:
        stamped = ctx.coin(.7)
        if stamped not in _one:
            ev, sc = events(ctx, (1, 5, 1))
            src = s.path('in.event')
            scripts.write(src, ev, sc, np.arange(len(ev)) if stamped else
                          None)
            out = s.path('f.json')
            scripts.attempt(ctx, 'exp_recsys_sp.py', [
                '-i', src, '-o', out, '-v', 'cv', '--fold-no', '0',
                '--timestamp' if stamped else '--no-timestamp', '--maxiter',
                '2', '--rseed', '3', '-d', 1, 5, 1])
            _one[stamped] = scripts.load(out)
        base = _one[stamped]
        nf = ctx.choice([1, 2, 3, 5, 10, 11, ctx.randint(2, 30)])
        folds = [int(i) for i in ctx.rng.permutation(
            nf if ctx.coin(.7) else 130)[:nf]]
        more = ['f%d' % i for i in range(ctx.randint(0, 3))]
        infos, files = {}, []
        for f in folds:
            one = rename(base, f, f + 1)
            feats = one['prediction'].get('event_feature')
            if feats is not None:
                for name in more:
                    feats[name] = {str(f): [name, f, ctx.rng.rand()]}
            one['environment']['mark'] = 'e%d' % f
            for k in ('version', 'system', 'script'):
                one['environment'][k] = dict(one['environment'][k],
                                             mark='e%d' % f)
            infos[f] = one
            files.append(s.path('f%d.json' % f))
            with open(files[-1], 'w') as fp:
                json.dump(one, fp)
        texts = [open(f).read() for f in files]
        merged = s.path('merged.json')
        scripts.attempt(ctx, 'exp_recsys_fold_merge.py',
                        files + ['-o', merged])
        got = scripts.load(merged)
        ctx.check([open(f).read() for f in files] == texts,
                  'input files were changed')
        first = infos[folds[0]]

        def want(path, f):
            x = infos[f]
            for k in path:
                x = x[k]
            return x[str(f)]
        paths = [('training', 'results'), ('test', 'results')]
        for k in first['prediction']:
            if k == 'event_feature':
                paths += [('prediction', k, n) for n in
                          first['prediction'][k]]
            else:
                paths.append(('prediction', k))
        for p in paths:
            x = got
            for k in p:
                x = x[k]
            ctx.check(set(x) == {str(f) for f in folds}, 'folds in a merged '
                      'file', which=p, got=list(x), want=folds)
            for f in folds:
                ctx.check(x[str(f)] == want(p, f), 'merged results of a fold '
                          'are not those of its file', which=p, fold=f)
        ctx.check(set(got['prediction']) == set(first['prediction']) and
                  set(got['prediction'].get('event_feature', ())) ==
                  set(first['prediction'].get('event_feature', ())),
                  'kinds of merged results')
        env = got['environment']['environment_fold']
        e = {k: v for k, v in got['environment'].items()
             if k != 'environment_fold'}
        ctx.check(e == first['environment'], 'environment of a merged file',
                  got=e)
        ctx.check(set(env) == {str(f) for f in folds} and all(
            env[str(f)] == infos[f]['environment'] for f in folds),
            'environments of merged folds', got=list(env))
        for k in ('model',):
            ctx.check(got[k] == first[k], 'descriptions of a merged file',
                      which=k)
        c = dict(got['condition'])
        ctx.check(c.pop('merged', None) is True and c.pop('out_file') and
                  c == {k: v for k, v in first['condition'].items()
                        if k != 'out_file'}, 'conditions of a merged file')
        for k in ('training', 'test'):
            ctx.check({a: b for a, b in got[k].items() if a != 'results'} ==
                      {a: b for a, b in first[k].items() if a != 'results'},
                      'descriptions of a merged file', which=k)
        ctx.obs('synthetic folds merged', nf)
        ctx.sig('synthetic', tuple(folds), tuple(more), stamped)
        ctx.note(folds=folds, features=more)


def inspect(ctx, info, tool, method, kw, data, full, ev, sc, ts, nf, seeded):
    p = info['prediction']
    keys = [str(i) for i in range(nf)]
    n = len(ev)
    true = scripts.binarize(sc, full) if tool == 'if' else sc
    parts = ['event', 'true', 'predicted', 'mask']
    for k in parts:
        ctx.check(sorted(p[k]) == sorted(keys), 'results of all folds',
                  which=k, got=list(p[k]))
    ctx.check(sorted(info['training']['results']) == sorted(keys) and
              sorted(info['test']['results']) == sorted(keys),
              'results of all folds')
    masks = []
    for f in keys:
        ctx.obs('folds inspected')
        mask = p['mask'][f]
        ctx.check(len(set(mask)) == len(mask) and all(
            isinstance(i, int) and 0 <= i < n for i in mask),
            'a mask is not a set of indices', got=mask)
        masks.append(tuple(mask))
        m = np.array(mask)
        ctx.check(p['event'][f] == ev[m].tolist(), 'test events of a fold',
                  fold=f, got=p['event'][f], want=ev[m])
        ctx.equal(p['true'][f], true[m], 'true scores of a fold', fold=f)
        if ts is not None:
            ctx.check(p['event_feature']['timestamp'][f] == ts[m].tolist(),
                      'event features of a fold', fold=f)
        for u in np.unique(ev[:, 0]):
            c = int(np.sum(ev[:, 0] == u))
            t = int(np.sum(ev[m, 0] == u))
            ctx.check(t == math.ceil(.2 * c - 1e-9), 'not 20% of ratings of '
                      'a user are tested', fold=f, user=u, n=c, tested=t)
        ctx.check(len(p['predicted'][f]) == len(m), 'a prediction for each '
                  'test event', fold=f)
        ctx.check(info['test']['results'][f]['n_events'] == len(m),
                  'the number of tested events', fold=f)
        for d, t in (('training', 'fit'), ('test', 'predict')):
            scripts.check_times(ctx, info[d]['results'][f], scripts.task(
                t, int(f), nf))
        if seeded:
            rec = scripts.build(method, kw)
            rest = np.setdiff1d(np.arange(n), m)
            rec.fit(data.filter_event(rest))
            want = np.atleast_1d(rec.predict(ev[m]))
            ctx.close(p['predicted'][f], want, 'predicted scores are not '
                      'those of the model trained on the other data',
                      rtol=1e-7, atol=1e-9, fold=f, method=method, kw=kw)
            scripts.check_fit(ctx, info['training']['results'][f],
                              rec.fit_results_, 'results of training')
            ctx.obs('predictions compared', len(m))
    if ts is None:
        ctx.check('event_feature' not in p, 'event features from nowhere')
    for d in ('training', 'test'):
        ctx.check((info[d]['n_events'], info[d]['n_users'],
                   info[d]['n_items']) == (n, len(set(ev[:, 0])),
                                           len(set(ev[:, 1]))),
                  'the numbers of events, users, and items')
    if nf >= 3 and n >= 60:
        ctx.check(len(set(masks)) > 1, 'all folds are the same')
    c = info['condition']
    ctx.check(c['n_folds'] == nf and c['scheme'] == 'cv' and
              c['has_timestamp'] is (ts is not None), 'conditions', got=c)
    ctx.close(c['score_domain'], full, 'score domain')
    name, task = scripts.names(method)
    ctx.check(info['model']['name'] == name and
              info['model']['task_type'] == task and
              info['model']['explicit_ratings'] is True, 'model')


def one_fold(ctx, one, info, f, stamped):
    f = str(f)
    p = one['prediction']
    for k in ('event', 'true', 'mask', 'predicted'):
        ctx.check(list(p[k]) == [f] and p[k][f] == info['prediction'][k][f],
                  'a fold processed alone differs from the same fold of a '
                  'whole run', which=k, fold=f, got=p[k],
                  want=info['prediction'][k][f])
    if stamped:
        ctx.check(p['event_feature'] == {'timestamp': {
            f: info['prediction']['event_feature']['timestamp'][f]}},
            'event features of a fold processed alone', fold=f)
    for k in ('training', 'test'):
        ctx.check(list(one[k]['results']) == [f] and strip(
            one[k]['results'][f]) == strip(info[k]['results'][f]),
            'results of a fold processed alone', fold=f, which=k)
    ctx.obs('single-fold runs compared')


def merge(ctx, got, info, nf):
    ctx.check(got['prediction'] == info['prediction'],
              'merged predictions differ from those of a whole run')
    ctx.check(got['model'] == info['model'], 'model of a merged file')
    for k in ('training', 'test'):
        a, b = dict(got[k]), dict(info[k])
        ra, rb = a.pop('results'), b.pop('results')
        ctx.check(a == b and set(ra) == set(rb) and all(
            strip(ra[f]) == strip(rb[f]) for f in rb),
            'merged results differ from those of a whole run', which=k)
    a, b = dict(got['condition']), dict(info['condition'])
    a.pop('out_file'), b.pop('out_file')
    ctx.check(a.pop('merged', None) is True and a == b,
              'conditions of a merged file', got=a, want=b)
    env = got['environment']['environment_fold']
    e = {k: v for k, v in got['environment'].items()
         if k != 'environment_fold'}
    ctx.check(e == info['environment'], 'environment of a merged file',
              got=e, want=info['environment'])
    ctx.check(set(env) == {str(i) for i in range(nf)} and all(
        e['system'] == info['environment']['system'] and
        e['version'] == info['environment']['version'] and
        e['script'] == info['environment']['script'] for e in env.values()),
        'environments of merged folds', got=list(env))
    ctx.obs('merged files compared')
