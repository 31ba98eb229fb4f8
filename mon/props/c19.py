"""C19: histograms of scores conserve every score"""
import numpy as np
from .. import gens
from ..core import freeze

STRATA = ['rating', 'half', 'binary', 'zero', 'neg', 'float', 'wide',
          'thirds', 'big', 'bins', 'default', 'out of domain', 'ragged',
          'reject']
CASES = {'quick': 4200, 'thorough': 80000}
NEED = {'scores beside borders': 1000, 'scores binned': 50000, 'histograms compared': 2500}
RULE = ('score vectors on, between, and far outside the levels of domains '
        'with integer, decimal and fractional strides, and bin counts; '
        'distinct = different (domain, scores)')


def case(ctx):
    from kamrecsys.metrics import score_histogram, generate_score_bins
    r = ctx.rng
    st = ctx.stratum
    n = ctx.size(1, 2, ctx.randint(1, 60), ctx.randint(100, 500),
                 huge=True)
    if st == 'reject':
        x = r.rand(n)
        x[ctx.randint(0, n - 1)] = ctx.choice([np.nan, np.inf, -np.inf])
        ctx.raises(ValueError, lambda: score_histogram(x),
                   'non-finite scores were accepted', x=x)
        dom = [1., 5., 1.]
        dom[ctx.randint(0, 2)] = np.nan
        ctx.raises(ValueError, lambda: score_histogram(r.rand(n), dom),
                   'a non-finite domain was accepted')
        ctx.sig(x.tobytes())
        return
    if st == 'bins':
        k = ctx.randint(1, 30)
        x = r.normal(size=n) * 3
        if ctx.coin(.3):
            x = np.round(x)
        if ctx.coin(.3):        # outliers
            x[ctx.randint(0, n - 1)] = ctx.choice([1e3, -1e3, 1e6, 50.])
        nb = ctx.choice([int, np.int64, np.int32])(k)
        h, s = score_histogram(x, score_domain=nb)
        ctx.check(len(h) == k and len(s) == k, 'the number of bins', h=h, s=s)
        ctx.check(np.sum(h) == n, 'scores were lost', h=h, n=n)
        lo, hi = x.min(), x.max()
        if lo == hi:
            lo, hi = lo - .5, hi + .5
        w = (hi - lo) / k
        ctx.close(s, lo + w * (np.arange(k) + .5), 'centres of bins')
        if hi > lo:
            pos = (x - lo) / w
            clear = np.abs(pos - np.round(pos)) > 1e-6
            want = np.bincount(np.minimum(pos[clear].astype(int), k - 1),
                               minlength=k)
            ctx.check(np.all(h >= want), 'counts', got=h, want=want)
        ctx.obs('scores binned', n)
        ctx.obs('histograms compared')
        ctx.sig(k, x.tobytes())
        ctx.note(stratum=st, k=k, n=n)
        return
    if st == 'ragged':
        s = ctx.choice([1.5, 2, .7])
        lo = ctx.choice([0., -1., 1.])
        dom = (lo, lo + s * ctx.randint(1, 5) + s * .5, s)
    else:
        dom = gens.gen_domain(ctx, st if st in (
            'rating', 'half', 'binary', 'zero', 'neg', 'float', 'wide',
            'thirds', 'big') else 'rating' if st == 'default' else None)
    lv = gens.domain_levels(dom)
    if n < 60000 and ctx.coin(.002):
        n = ctx.randint(66000, 140000)
    m = ctx.randint(0, 2)
    if st == 'out of domain':
        x = r.normal(0, 10 * (abs(dom[1]) + abs(dom[0]) + dom[2]), n)
        if ctx.coin(.3):
            x[0] = ctx.choice([1e300, -1e300, 1e12])
    elif m == 0:
        x = gens.gen_scores(ctx, dom, n)
    elif m == 1:
        x = r.uniform(dom[0] - dom[2], dom[1] + dom[2], n)
    else:
        x = r.normal((dom[0] + dom[1]) / 2., dom[2] * 2, n)
    if n > 60000 and ctx.coin(.7):
        x = np.array(x)
        x[r.rand(n) < .9] = x[0]            # most scores are alike
    if len(lv) > 1 and ctx.coin(.3):
        # scores right beside the borders between levels
        at = r.rand(n) < .4
        i = r.randint(0, len(lv) - 1, n)
        x = np.where(at, (lv[i] + lv[i + 1]) / 2 + dom[2] * r.choice(
            [-1, 1], n) * 10. ** r.uniform(-7.5, -1, n), x)
        ctx.obs('scores beside borders', int(at.sum()))
    elif np.all(np.abs(x) < 100) and ctx.coin(.25):
        # integers of any width, and reals of single precision
        t = np.dtype(ctx.choice(['i1', 'i2', 'i4', 'u1', 'u2', 'f4', 'f2']))
        x = (np.abs(x) if t.kind == 'u' else np.asarray(x)).astype(t)
    d = ctx.choice([tuple(dom), list(dom), np.array(dom)])
    before = freeze([x, d])
    xx = x.tolist() if ctx.coin(.2) else x
    if st == 'default' and ctx.coin():
        h, s = score_histogram(xx)
    else:
        h, s = score_histogram(xx, score_domain=d)
    h = np.asarray(h)
    ctx.check(np.sum(h) == n and np.all(h >= 0), 'scores were lost', hist=h,
              n=n, dom=dom)
    ctx.check(len(s) == len(h), 'levels and counts', h=h, s=s)
    ctx.check(freeze([x, d]) == before, 'an input was changed')
    bins = np.asarray(generate_score_bins(d), dtype=float)
    ctx.check(len(bins) == len(h) + 1, 'bins and counts')
    if st != 'ragged':
        ctx.close(s, lv, 'score levels', dom=dom, rtol=1e-9, atol=1e-9)
        xf = np.asarray(x, dtype=float)
        dist = np.abs(xf[:, None] - lv[None, :])
        srt = np.sort(dist, axis=1)
        clear = (srt[:, 1] - srt[:, 0] > 1e-8 * dom[2] + 256 * np.spacing(
            np.abs(xf) + abs(dom[0]) + abs(dom[1])) if len(lv) > 1 else
            np.ones(n, dtype=bool))
        # far scores belong to the end levels, whatever the rounding
        near = dist.argmin(axis=1)
        far = (xf > lv[-1]) | (xf < lv[0])
        near[xf > lv[-1]] = len(lv) - 1
        near[xf < lv[0]] = 0
        clear = clear | far
        want = np.bincount(near[clear], minlength=len(lv))
        ctx.check(np.all(h >= want) and (h - want).sum() == n - want.sum(),
                  'scores are not counted at their nearest levels', got=h,
                  want=want, dom=dom, x=x)
    # additivity: the histogram of a union is the sum
    k = ctx.randint(0, n)
    if 0 < k < n:
        h1, _ = score_histogram(np.asarray(x)[:k], score_domain=d)
        h2, _ = score_histogram(np.asarray(x)[k:], score_domain=d)
        ctx.equal(np.asarray(h1) + np.asarray(h2), h, 'not additive')
    ctx.obs('scores binned', n)
    ctx.obs('histograms compared')
    ctx.sig(dom, np.asarray(x).tobytes())
    ctx.note(stratum=st, dom=dom, scores=x[:5], hist=h)
