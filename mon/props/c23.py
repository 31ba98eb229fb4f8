"""C23: the safe sigmoid"""
import math
import warnings
import numpy as np
from ..core import freeze

STRATA = ['normal', 'wide', 'edge', 'infinite', 'scalar', 'matrix', 'ints',
          'strided', 'tiny', 'narrow']
CASES = {'quick': 3600, 'thorough': 60000}
NEED = {'values compared': 50000}
RULE = ('arguments from subnormal to infinite, around the clipping bounds, as '
        'scalars, lists, and arrays of any layout; distinct = different '
        'arguments')
LO, HI = 1e-15, 1 - 1e-15
DOM = 34.538776394910684


def ref(x):
    x = min(max(x, -DOM), DOM)
    if x >= 0:
        return 1. / (1. + math.exp(-x))
    e = math.exp(x)
    return e / (1. + e)


def case(ctx):
    from kamrecsys.utils import safe_sigmoid
    r = ctx.rng
    st = ctx.stratum
    n = ctx.size(ctx.randint(1, 60), huge=True)
    x = r.normal(0, ctx.choice([1, 5, 20]), n)
    if st == 'wide':
        x = r.choice([-1, 1], n) * 10. ** r.uniform(-5, 308, n)
    elif st == 'edge':
        x = r.choice([-1, 1], n) * (DOM + r.choice(
            [0, 1e-9, -1e-9, 1e-3, -1e-3, .5, -.5, 1], n))
    elif st == 'infinite':
        x[r.rand(n) < .5] = np.inf
        x[r.rand(n) < .3] = -np.inf
    elif st == 'tiny':
        x = r.choice([-1, 1], n) * 10. ** r.uniform(-320, -5, n)
    elif st == 'ints':
        x = r.randint(-60, 61, n).astype(ctx.choice(['i8', 'i4', 'i2']))
    elif st == 'scalar':
        x = ctx.choice([float(x[0]), np.float64(x[0]), int(x[0]),
                        np.array(x[0])])
    elif st == 'matrix':
        x = r.normal(0, 10, (ctx.randint(1, 6), ctx.randint(1, 6)))
        if ctx.coin():
            x = x.T
    elif st == 'strided':
        x = np.repeat(x, 2)[::2][::-1]
    elif st == 'narrow':
        with np.errstate(over='ignore'):
            x = ctx.choice([x, x * 30, np.sign(x) * DOM]).astype(
                ctx.choice(['f4', 'f2']))
        if ctx.coin(.3):
            x[ctx.randint(0, n - 1)] = ctx.choice([np.inf, -np.inf, 40, -40])
        if ctx.coin(.2):
            x = x[0]
    if st == 'normal' and ctx.coin(.2):
        x = x.tolist()
    before = freeze(x)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with np.errstate(all='warn'):
            y = safe_sigmoid(x)
            sym = safe_sigmoid(-np.asarray(x, dtype=float))
    ctx.check(np.asarray(y).dtype == np.dtype(float), 'kind of the results',
              got=np.asarray(y).dtype)
    w = [i for i in w if 'underflow' not in str(i.message)]
    ctx.check(not w, 'a warning', w=[str(i.message) for i in w])
    ctx.check(np.shape(y) == np.shape(x), 'shape', got=np.shape(y))
    ctx.check(freeze(x) == before, 'an argument was changed')
    f = np.asarray(x, dtype=float).ravel()
    g = np.asarray(y, dtype=float).ravel()
    want = np.array([ref(t) for t in f])
    # relative to the smaller tail
    tail = np.minimum(want, 1 - want)
    ctx.check(np.all(np.abs(g - want) <= 1e-9 * tail + 3e-16 + 1e-9 *
                     np.minimum(want, 1e-9)), 'values of the sigmoid',
              x=f, got=g, want=want)
    lows = f < 0
    ctx.check(np.all(np.abs(g[lows] - want[lows]) <= 1e-9 * want[lows]),
              'values of the lower tail', x=f[lows], got=g[lows])
    ctx.check(np.all(g >= LO * (1 - 1e-6)) and np.all(g <= HI + 2e-16) and
              np.all(g > 0) and np.all(g < 1), 'out of range', got=g, x=f)
    with np.errstate(all='raise', under='ignore'):
        ctx.check(np.all(np.isfinite(np.log(g))) and
                  np.all(np.isfinite(np.log(1 - g))), 'log-loss not finite')
    o = np.argsort(f, kind='stable')
    ctx.check(np.all(np.diff(g[o]) >= -2e-16), 'not monotone', x=f[o],
              got=g[o])
    ctx.check(np.all(np.abs(g + np.asarray(sym).ravel() - 1) < 1e-12),
              'not symmetric')
    ctx.obs('values compared', len(f))
    ctx.sig(st, f.tobytes())
    ctx.note(stratum=st, x=f[:4], y=g[:4])
