"""C21: variance with a Gamma prior"""
import math
from fractions import Fraction
import numpy as np
from ..core import freeze

STRATA = ['plain', 'offset', 'constant', 'single', 'non finite', 'all finite', 'empty',
          'types', 'scale', 'matrix', 'prior']
CASES = {'quick': 4000, 'thorough': 80000}
NEED = {'variances compared': 2500, 'illegal inputs': 400}
RULE = ('samples of any type, shape and scale, with NaN and infinities mixed '
        'in, and priors of many sizes; the definition is evaluated in exact '
        'rational arithmetic; distinct = different (sample, prior)')


def case(ctx):
    from kamrecsys.metrics import variance_with_gamma_prior as f
    r = ctx.rng
    st = ctx.stratum
    n = ctx.size(1, 2, 3, ctx.randint(2, 50), ctx.randint(50, 400),
                 huge=True)
    x = r.normal(ctx.choice([0, 3, -1]), ctx.choice([1, .1, 5]), n)
    kw = {}
    if st == 'empty':
        x = ctx.choice([[], np.array([]), np.zeros((0, 3)), [np.nan],
                        np.full(3, np.inf), [np.nan, -np.inf]])
        ctx.raises(ValueError, lambda: f(x), 'no valid data were accepted',
                   x=x)
        ctx.obs('illegal inputs')
        return
    if st == 'constant':
        x = np.full(n, ctx.choice([0., 1., 3.5, -2., 0.1]))
    elif st == 'offset':
        # a mean that is large compared with the deviations
        x = x * 10. ** ctx.randint(-4, 2) + ctx.choice([-1, 1]) * \
            10. ** ctx.randint(2, 9)
    elif st == 'single':
        x = x[:1]
    elif st == 'types':
        x = np.round(x * 10).astype(ctx.choice(
            ['i8', 'i4', 'i2', 'i1', 'f4', 'f8', 'bool']))
        if ctx.coin(.3):
            x = x.tolist()
    elif st == 'scale':
        x = x * 10. ** ctx.randint(-6, 6)
    elif st == 'matrix':
        x = r.normal(size=(ctx.randint(1, 9), ctx.randint(1, 9)))
        if ctx.coin():
            x = np.asfortranarray(x)
    elif st == 'prior':
        kw = dict(a=ctx.choice([1e-8, 1., .5, 10, 1e-3]),
                  b=ctx.choice([1e-8, 1., 2., 1e-3, 10]))
    elif st in ('non finite', 'all finite'):
        x = np.array(x)
        m = r.rand(n) < ctx.choice([0, .2, .6])
        if st == 'all finite' and not m.any():
            m[ctx.randint(0, n - 1)] = True
        x[m] = r.choice([np.nan, np.inf, -np.inf], m.sum())
    before = freeze(x)
    ctx.sig(st, np.asarray(x).tobytes(), sorted(kw.items()))
    ctx.note(stratum=st, x=np.ravel(x)[:4], n=np.size(x), prior=kw)
    if st == 'all finite':
        ctx.raises(ValueError, lambda: f(x, force_all_finite=True),
                   'non-finite data were accepted', x=x)
        ctx.obs('illegal inputs')
    v = [float(t) for t in np.asarray(x).ravel().tolist()]
    v = [t for t in v if math.isfinite(t)]
    if not v:
        ctx.raises(ValueError, lambda: f(x, **kw), 'no valid data')
        ctx.obs('illegal inputs')
        return
    if len(v) == np.size(x) and ctx.coin():
        kw['force_all_finite'] = True
    full = ctx.coin()
    res = f(x, full_output=full, **kw) if full else f(x, **kw)
    var = res
    if full:
        var, m = res
        ctx.check(m == len(v), 'the number of valid data', got=m, want=len(v))
    a = Fraction(kw.get('a', 1e-8))
    b = Fraction(kw.get('b', 1e-8))
    fr = [Fraction(t) for t in v]
    s1, s2, k = sum(fr), sum(t * t for t in fr), len(fr)
    want = float((2 * b + s2 - s1 * s1 / k) / (2 * a + k))
    ctx.check(np.isfinite(var) and var > 0, 'a variance is not positive',
              got=var, x=v[:9])
    # the mean is rounded, which adds n times the square of its error
    big = max(map(abs, v))
    slack = (big * 1e-15 * (4 + k)) ** 2 + 1e-300
    if want > 0:
        ctx.close(var, want, 'variance', rtol=1e-8, atol=slack, x=v[:9], n=k,
                  prior=kw)
    ctx.obs('variances compared')
    ctx.check(freeze(x) == before, 'data were changed')
    # invariances that do not depend on the formula
    if k > 1:
        y = np.array(v)[r.permutation(k)]
        ctx.close(f(y, **kw), var, 'order of data matters', rtol=1e-7,
                  atol=slack * 10)
