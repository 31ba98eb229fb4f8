"""C22: means of statistics over folds"""
from collections import OrderedDict, defaultdict
import numpy as np
from ..core import freeze

STRATA = ['dict', 'list', 'array values', 'real metrics', 'reject',
          'int keys', 'one fold', 'derived types']
CASES = {'quick': 2400, 'thorough': 40000}
NEED = {'means compared': 1500, 'calls observed': 4000}
RULE = ('1-199 folds of 1-4 arguments given as dictionaries or lists; every '
        'call of the function is recorded and compared with the folds; '
        'distinct = different arguments')


class Folds(list):
    pass


class Named(dict):
    def __init__(self, *arg):
        super().__init__(*arg)
        self.name = 'folds'


def derived(ctx, a):
    """the folds in a type derived from a dictionary or a list"""
    if isinstance(a, list):
        return Folds(a)
    t = ctx.choice([0, 1, 2])
    return (OrderedDict(a) if t == 0 else defaultdict(list, a) if t == 1
            else Named(a))


def case(ctx):
    from kamrecsys.metrics import statistics_mean
    from kamrecsys.metrics import mean_absolute_error, mean_squared_error
    r = ctx.rng
    st = ctx.stratum
    if st == 'reject':
        for bad in (1.0, 'abc', np.arange(3), (1, 2), None):
            ctx.raises(TypeError, lambda: statistics_mean(lambda x: 1., bad),
                       'illegal arguments were accepted', bad=bad)
        ctx.obs('illegal inputs')
        return
    folds = 1 if st == 'one fold' else ctx.choice(
        [ctx.randint(1, 8), ctx.randint(9, 40), ctx.randint(41, 199)],
        p=[.8, .17, .03])
    nargs = ctx.randint(1, 4)
    keys = ['f%d' % i for i in range(folds)]
    if st == 'int keys':
        keys = [int(i) for i in r.permutation(300)[:folds]]
    keys = [keys[i] for i in r.permutation(folds)]
    size = [ctx.randint(1, 9) for _ in range(folds)]
    undef = ctx.rng.rand(folds) < .3 if ctx.coin(.25) else np.zeros(
        folds, dtype=bool)
    vals = [{k: r.randint(1, 6, s).astype(float) for k, s in zip(keys, size)}
            for _ in range(nargs)]
    for k, u in zip(keys, undef):
        if u:
            vals[0][k][0] = 100
    use_list = st == 'list' or (st != 'dict' and st != 'int keys' and
                                ctx.coin())
    args = []
    for a in vals:
        if use_list:
            args.append([a[k] for k in keys])
        else:
            order = [keys[i] for i in r.permutation(folds)]
            args.append({k: a[k] for k in order})
    if st == 'derived types':
        args = [derived(ctx, a) if i == 0 or ctx.coin(.7) else a
                for i, a in enumerate(args)]
    calls = []
    if st == 'real metrics':
        args, vals, nargs = args[:1], vals[:1], 2
        second = {k: vals[0][k] + r.normal(size=len(vals[0][k]))
                  for k in keys}
        vals.append(second)
        args.append([second[k] for k in keys] if use_list else dict(second))
        base = ctx.choice([mean_absolute_error, mean_squared_error])
    elif st == 'array values':
        def base(*v):
            return np.array([[np.sum(v[0]), np.max(v[-1])],
                             [np.min(v[0]), len(v)]])
    elif ctx.coin():
        def base(*v):
            return float(sum(np.sum(x) * (i + 1) for i, x in enumerate(v)))
    else:
        def base(*v):
            return [np.sum(v[0]), np.max(v[-1]), len(v[0])]

    if undef.any() and st != 'real metrics':
        # a statistic that is undefined in some of the folds
        inner, odd = base, ctx.choice([np.nan, np.nan, np.inf])

        def base(*v):
            x = np.array(inner(*v), dtype=float)
            if v[0][0] == 100:
                x = x * odd
            return x

    def fun(*v):
        calls.append(v)
        return base(*v)
    before = freeze(args)
    got = statistics_mean(fun, *args)
    # one call for each fold, with the arguments of that fold
    ctx.check(len(calls) == folds, 'the number of calls', got=len(calls),
              want=folds)
    left = list(keys)
    for c in calls:
        ctx.check(len(c) == nargs, 'the number of arguments')
        m = [k for k in left if all(c[i] is vals[i][k] or
                                    np.array_equal(c[i], vals[i][k])
                                    for i in range(nargs))]
        ctx.check(m, 'arguments of a call do not belong to one fold', call=c)
        left.remove(m[0])
        ctx.obs('calls observed')
    want = np.mean(np.array([np.asarray(base(*[v[k] for v in vals]),
                                        dtype=float) for k in keys]), axis=0)
    ctx.close(got, want, 'mean over folds', rtol=1e-9, keys=keys)
    ctx.check(freeze(args) == before, 'arguments were changed')
    ctx.obs('means compared')
    ctx.sig(st, use_list, folds, nargs, repr(keys), got)
    ctx.note(stratum=st, folds=folds, args=nargs, mean=got)
