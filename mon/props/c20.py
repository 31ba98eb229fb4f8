"""C20: statistics of item finders: AUC is a rank probability"""
import contextlib
import io
import json
import math
import numpy as np
from ..core import freeze

STRATA = ['plain', 'ties', 'extreme', 'float32', 'list', 'narrow', 'uniform',
          'reject', 'binary check', 'skewed', 'separable']
CASES = {'quick': 2750, 'thorough': 50000}
NEED = {'AUCs compared': 1000, 'illegal inputs': 500, 'printed reports': 300,
        'binary checks': 1500}
RULE = ('binary truths with real predictions, with and without ties; '
        'distinct = different (truth, prediction) pairs')


def auc(t, p):
    """the probability that a positive is ranked above a negative"""
    pos = [y for x, y in zip(t, p) if x == 1]
    neg = [y for x, y in zip(t, p) if x == 0]
    pa, na = np.array(pos), np.sort(neg)
    if len(t) > 2000:       # the same counts, of the sorted negatives
        lo, hi = np.searchsorted(na, pa), np.searchsorted(na, pa, 'right')
        return (int(lo.sum()) + int(hi.sum())) / 2. / (len(pos) * len(neg))
    return ((pa[:, None] > na[None, :]).sum() +
            .5 * (pa[:, None] == na[None, :]).sum()) / float(len(pos) *
                                                             len(neg))


def case(ctx):
    from kamrecsys.metrics import item_finder_report, item_finder_statistics
    from kamrecsys.utils import is_binary_score
    r = ctx.rng
    st = ctx.stratum
    n = ctx.size(2, 3, ctx.randint(2, 40), ctx.randint(60, 300),
                 top=4000, huge=True)
    t = r.randint(0, 2, n)
    if st == 'skewed':
        t = (r.rand(n) < .05).astype(int)
    if st != 'uniform':
        t[0], t[-1] = 0, 1
        t = t[r.permutation(n)]
    else:
        t = np.full(n, ctx.randint(0, 1))
    p = r.rand(n)
    if st == 'ties':
        p = r.randint(0, ctx.randint(1, 4), n) / 4.
    elif st == 'extreme':
        p = np.where(r.rand(n) < .5, 1 - 10. ** -r.randint(1, 15, n),
                     10. ** -r.randint(1, 300, n).astype(float))
    elif st == 'separable':
        p = t + r.rand(n) * ctx.choice([.9, 1.2])
    elif st == 'narrow':
        p = r.randint(-5, 6, n).astype(ctx.choice(['i1', 'i2', 'i4']))
    elif st == 'float32':
        p = p.astype('f4')
    t = t.astype(ctx.choice(['i8', 'f8', 'f4', 'u1', 'i4']))
    if st == 'list':
        t, p = t.tolist(), p.tolist()
    ctx.sig(st, np.asarray(t).tobytes(), np.asarray(p).tobytes())
    ctx.note(stratum=st, true=t[:5], predicted=p[:5], n=n)
    if st == 'binary check':
        for _ in range(8):
            m = ctx.choice([ctx.randint(1, 8), ctx.randint(1000, 30000)],
                           p=[.9, .1])
            kind = ctx.choice(['i8', 'f8', 'f4', 'u1', 'bool'])
            v = r.randint(0, 2, m).astype(kind)
            if ctx.coin(.3) and kind != 'bool':
                v[ctx.randint(0, m - 1)] = ctx.choice([2, 3])
            if ctx.coin(.2) and kind == 'f8':
                v[ctx.randint(0, m - 1)] = ctx.choice([.5, -1, 1.5, -0.0])
            s = set(float(x) for x in v)
            ctx.check(bool(is_binary_score(v)) == (s <= {0., 1.}),
                      'is_binary_score', v=v)
            ctx.check(bool(is_binary_score(v, allow_uniform=False)) ==
                      (s == {0., 1.}), 'is_binary_score of uniform', v=v)
            ctx.check(bool(is_binary_score(v.tolist(), True)) ==
                      (s <= {0., 1.}), 'is_binary_score of a list', v=v)
            ctx.obs('binary checks')
        return
    if st == 'reject':
        for f in (item_finder_statistics,
                  lambda x, y: item_finder_report(x, y, disp=False)):
            x, y = np.array(t, dtype=float), np.array(p, dtype=float)
            if ctx.coin(.3):
                x[:] = ctx.randint(0, 1)
            k = ctx.randint(0, 4)
            i = ctx.randint(0, n - 1)
            if k == 0:
                x[i] = ctx.choice([2, .5, -1])
            elif k == 1:
                x[i] = np.nan
            elif k == 2:
                y[i] = ctx.choice([np.nan, np.inf, -np.inf])
            elif k == 3:
                y = y[:-1]
            else:
                x = np.r_[x, 1.]
            ctx.raises(ValueError, lambda: f(x, y), 'illegal scores were '
                       'accepted', kind=k, x=x, y=y)
            ctx.obs('illegal inputs')
        return
    before = freeze([t, p])
    tt, pp = [float(x) for x in t], [float(x) for x in p]
    narrow = np.asarray(p).dtype.itemsize <= 4
    rt = 1e-4 if narrow or np.asarray(t).dtype.itemsize <= 4 else 1e-9

    def sd(v):
        m = math.fsum(v) / len(v)
        return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))

    def inspect(g):
        ctx.check(g['n_samples'] == n, 'n_samples')
        for k, v in (('true', tt), ('predicted', pp)):
            ctx.close(g[k]['mean'], math.fsum(v) / n, 'mean', rtol=rt,
                      atol=rt * (1 + max(map(abs, v))))
            ctx.close(g[k]['stdev'], sd(v), 'stdev', rtol=rt,
                      atol=rt * (1 + max(map(abs, v))))
        if len(set(tt)) == 2:
            ctx.close(g['area under the curve'], auc(tt, pp), 'AUC is not '
                      'the rank probability', rtol=1e-9, true=tt, pred=pp)
            ctx.obs('AUCs compared')
        else:
            ctx.check('area under the curve' not in g, 'AUC of uniform truth')

    inspect(item_finder_statistics(t, p))
    err = io.StringIO()
    disp = ctx.coin()
    with contextlib.redirect_stderr(err):
        g = item_finder_report(t, p, disp=disp)
    inspect(g)
    if disp:
        inspect(json.loads(err.getvalue()))
        ctx.obs('printed reports')
    else:
        ctx.check(not err.getvalue(), 'displayed without being asked')
    ctx.check(freeze([t, p]) == before, 'scores were changed')
