"""C18: statistics of predicted scores are those of the definitions"""
import contextlib
import io
import json
import math
import numpy as np
from .. import gens
from ..core import freeze

STRATA = ['float64', 'float32', 'int64', 'narrow', 'list', 'equal', 'single',
          'large values', 'mixed', 'reject nan', 'reject inf',
          'reject length', 'strided', 'tiny differences', 'near constant',
          'offset', 'boundary']
CASES = {'quick': 2800, 'thorough': 60000}
NEED = {'statistics compared': 15000, 'illegal inputs': 500,
        'printed reports': 500}
RULE = ('pairs of true and predicted scores of many types, sizes, scales and '
        'memory layouts; non-finite values and length mismatches at random '
        'positions; distinct = different pairs of score vectors')
ASSUMPTIONS = ['4-byte and narrower inputs are computed in single precision '
               'and compared with a tolerance for it']


def mean(v):
    return math.fsum(v) / len(v)


def stdev(v):
    m = mean(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


def gen(ctx, n):
    r = ctx.rng
    st = ctx.stratum
    dom = ctx.choice([(1, 5, 1), (.5, 5., .5), (-2, 2, 1), (0., 1., .25)])
    lv = gens.domain_levels(dom)
    a = lv[r.randint(0, len(lv), n)]
    b = r.normal(a.mean(), 1.5, n) if ctx.coin(.8) else lv[
        r.randint(0, len(lv), n)]
    if st == 'float32':
        a, b = a.astype('f4'), b.astype('f4')
    elif st == 'int64':
        a, b = np.round(a).astype('i8'), np.round(b).astype('i8')
    elif st == 'narrow':
        t = ctx.choice(['i4', 'i2', 'i1'])
        a, b = np.round(a).astype(t), np.round(b).astype(t)
    elif st == 'list':
        a, b = a.tolist(), b.tolist()
    elif st == 'equal':
        b = a.copy()
    elif st == 'large values':
        k = 10. ** ctx.randint(3, 9)
        a, b = a * k, b * k
        dom = tuple(x * k for x in dom)
    elif st == 'mixed':
        a = np.round(a).astype(ctx.choice(['i8', 'i4', 'f4', 'f8', 'u1'])
                               if np.min(a) >= 0 else 'i8')
    elif st == 'strided':
        a = np.repeat(a, 2)[::2]
        b = np.c_[b, b + 100][:, 0]
    elif st == 'tiny differences':
        b = a + r.normal(size=n) * 1e-7
    elif st == 'offset':
        # small errors of scores far from zero
        k = ctx.choice([1., -1.]) * 10. ** ctx.randint(3, 8)
        a, b = a + k, b + k
        dom = (dom[0] + k, dom[1] + k, dom[2])
    elif st == 'boundary':
        # just beside the boundaries of bins
        e = 10. ** -ctx.randint(5, 12)
        half = lv[:-1] + dom[2] / 2.
        b = half[r.randint(0, len(half), n)] + e * r.choice([-1, 1], n)
        if ctx.coin():
            a = half[r.randint(0, len(half), n)] + e * r.choice([-1, 1], n)
    elif st == 'near constant':
        k = 10. ** ctx.randint(0, 6)
        c, d = r.normal(size=2) * k
        a = c + r.normal(size=n) * k * 10. ** -ctx.randint(3, 9)
        b = d + r.normal(size=n) * k * 10. ** -ctx.randint(3, 9)
    return a, b, dom


def single(*xs):
    return any(np.asarray(x).dtype.itemsize <= 4 for x in xs)


def case(ctx):
    from kamrecsys.metrics import (
        mean_absolute_error, mean_squared_error, score_predictor_report,
        score_predictor_statistics)
    r = ctx.rng
    st = ctx.stratum
    n = 1 if st == 'single' else ctx.size(2, 3, ctx.randint(2, 60),
                                           ctx.randint(100, 1200), huge=True)
    a, b, dom = gen(ctx, n)
    ctx.sig(st, np.asarray(a).tobytes(), np.asarray(b).tobytes())
    ctx.note(stratum=st, true=a[:4], predicted=b[:4], n=n)
    funs = [mean_absolute_error, mean_squared_error,
            lambda x, y: score_predictor_report(x, y, disp=False),
            lambda x, y: score_predictor_statistics(x, y, score_domain=dom)]
    if st.startswith('reject'):
        for k, f in enumerate(funs):
            x, y = np.array(a, dtype=float), np.array(b, dtype=float)
            t = ctx.randint(0, 1)
            if st == 'reject length':
                m = ctx.randint(1, max(1, n - 1))
                x, y = (x[:-m], y) if t else (x, np.r_[y, y[:m]])
            else:
                bad = (np.nan if st == 'reject nan' else
                       ctx.choice([np.inf, -np.inf]))
                (x, y)[t][ctx.randint(0, n - 1)] = bad
            if ctx.coin(.2):
                x, y = x.tolist(), y.tolist()
            ctx.raises(ValueError, lambda: f(x, y),
                       'illegal scores were accepted', which=k, n=n)
            ctx.obs('illegal inputs')
        return
    before = freeze([a, b])
    t = [float(x) for x in np.asarray(a).tolist()]
    p = [float(x) for x in np.asarray(b).tolist()]
    ae = [abs(x - y) for x, y in zip(t, p)]
    se = [(x - y) ** 2 for x, y in zip(t, p)]
    big = max(map(abs, t + p))
    rt = 1e-4 if single(a, b) else 1e-9
    at1 = (2e-5 if single(a, b) else 2e-14) * max(big, 1e-12)
    far = max(ae)
    at2 = 4 * at1 * (far + at1) + (1e-5 if single(a, b) else 1e-12) * far ** 2

    def cmp(got, want, what, square=False):
        ctx.close(float(got), want, what, rtol=rt, atol=at2 if square else
                  at1, n=n, dtype=np.asarray(a).dtype)
        ctx.obs('statistics compared')

    m, s = mean_absolute_error(a, b)
    cmp(m, mean(ae), 'mean absolute error')
    cmp(s, stdev(ae), 'standard deviation of absolute errors')
    rm, m2, s2 = mean_squared_error(a, b)
    cmp(m2, mean(se), 'mean squared error', True)
    cmp(s2, stdev(se), 'standard deviation of squared errors', True)
    cmp(rm ** 2, mean(se), 'root mean squared error', True)
    ctx.check(rm >= 0, 'a negative error')

    disp = ctx.coin()
    err, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        rep = (score_predictor_report(a, b) if disp and ctx.coin() else
               score_predictor_report(a, b, disp=disp))
    cmp(rep['mean absolute error'], mean(ae), 'reported MAE')
    cmp(rep['root mean squared error'] ** 2, mean(se), 'reported RMSE', True)
    for g in (rep,):
        check_desc(ctx, cmp, g, t, p, n)
    if disp:
        js = json.loads(err.getvalue())
        check_desc(ctx, cmp, js, t, p, n)
        cmp(js['mean absolute error'], mean(ae), 'displayed MAE')
        cmp(js['root mean squared error'] ** 2, mean(se), 'displayed RMSE',
            True)
        ctx.obs('printed reports')
    else:
        ctx.check(not err.getvalue() and not out.getvalue(),
                  'a report was displayed without being asked')

    full = score_predictor_statistics(a, b, score_domain=dom)
    check_desc(ctx, cmp, full, t, p, n)
    cmp(full['mean absolute error']['mean'], mean(ae), 'MAE')
    cmp(full['mean absolute error']['stdev'], stdev(ae), 'stdev of MAE')
    cmp(full['mean squared error']['mean'], mean(se), 'MSE', True)
    cmp(full['mean squared error']['stdev'], stdev(se), 'stdev of MSE', True)
    cmp(full['mean squared error']['rmse'] ** 2, mean(se), 'RMSE', True)
    lv = gens.domain_levels(dom)
    ctx.close(full['score levels'], lv, 'score levels', dom=dom)
    for g, v in (('true', t), ('predicted', p)):
        h = np.asarray(full[g]['histogram'])
        ctx.check(len(h) == len(lv) and h.sum() == n and np.all(h >= 0),
                  'histogram', got=h, n=n)
        ctx.close(full[g]['histogram density'], h / float(n),
                  'histogram density')
        # every score is in the bin of the nearest level
        edge = 1e-4 if single(a, b) else max(1e-12, 1e-15 * big / dom[2])
        d = np.abs(np.array(v)[:, None] - lv[None, :])
        srt = np.sort(d, axis=1)
        clear = (srt[:, 1] - srt[:, 0] > edge * dom[2] if len(lv) > 1 else
                 np.ones(n, dtype=bool))
        want = np.bincount(d.argmin(axis=1)[clear], minlength=len(lv))
        rest = n - want.sum()
        ctx.check(np.all(h >= want) and (h - want).sum() == rest,
                  'histogram of scores', got=h, want=want, unclear=rest)
    ctx.check(freeze([a, b]) == before, 'scores were changed')


def check_desc(ctx, cmp, g, t, p, n):
    ctx.check(g['n_samples'] == n, 'n_samples', got=g['n_samples'], n=n)
    cmp(g['true']['mean'], mean(t), 'mean of true scores')
    cmp(g['true']['stdev'], stdev(t), 'stdev of true scores')
    cmp(g['predicted']['mean'], mean(p), 'mean of predicted scores')
    cmp(g['predicted']['stdev'], stdev(p), 'stdev of predicted scores')
