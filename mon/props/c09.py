"""C09: prediction is a pure function of each queried event"""
import contextlib
import sys
import threading
import numpy as np
from .. import core, models
from ..core import freeze, rng_state

STRATA = [k + '/' + m for k in models.KINDS for m in ('seq', 'layout',
                                                      'threads')]
CASES = {'quick': 1500, 'thorough': 20000}
NEED = {'rows compared': 20000, 'concurrent predictions': 500,
        'unknown objects queried': 3000, 'delays injected': 500}
RULE = ('fitted models of all kinds; batches with known and unknown objects, '
        'asked as a whole, one by one, permuted, in parts, repeated, and from '
        'concurrent threads with a 1 us switch interval; distinct = different '
        '(model, parameters, query batch)')
ASSUMPTIONS = ['thread interleavings are those CPython produced under a '
               '1 us switch interval, and with delays injected between lines']


def usable(ctx, rec, ei, q, kind):
    """rows whose prediction is numerically well determined (mode only)"""
    if kind != 'PLSAmode':
        return np.ones(len(q), dtype=bool)
    post = models.plsa_reference(rec, models.iids(rec, q, ei),
                                 rec.get_score_levels(), True)
    s = np.sort(post, axis=1)
    return (s[:, -1] - s[:, -2] > 1e-9) if s.shape[1] > 1 else np.ones(
        len(q), dtype=bool)


def case(ctx):
    kind, mode = ctx.stratum.split('/')
    ei = (0, 1)
    if mode == 'layout':
        while True:
            data, ref = models.training(ctx, kind, layout='any')
            if len(ref.eo) >= 2:
                break
        ei = tuple(int(i) for i in ctx.rng.permutation(len(ref.eo))[:2])
    else:
        data, ref = models.training(ctx, kind)
    p = models.params(ctx, kind, maxiter=ctx.choice([1, 3, 10]))
    rec = models.build(kind, p)
    if ei == (0, 1) and ctx.coin():
        rec.fit(data)
    else:
        rec.fit(data, event_index=ei)
    n = ctx.randint(2, 30)
    q, known = models.queries(ctx, ref, n=n)
    ctx.obs('unknown objects queried', (~known[:, list(ei)]).sum())
    before, qb, gs = freeze(rec), freeze(q), rng_state()
    ok = usable(ctx, rec, ei, q, kind)
    full = np.asarray(rec.predict(q))
    ctx.check(full.shape == (n,), 'shape of predictions', got=full.shape, n=n)
    ctx.check(full.dtype.kind == 'f' and np.all(np.isfinite(full)),
              'predictions are not finite real numbers', got=full, q=q)
    full = full.astype(float)

    def agree(got, idx, what):
        idx = np.asarray(idx)
        got = np.asarray(got, dtype=float).reshape(-1)
        ctx.check(len(got) == len(idx), what + ': number of predictions')
        m = ok[idx]
        ctx.close(got[m], full[idx][m], what, queries=q[idx], rtol=1e-9,
                  atol=1e-12)
        ctx.obs('rows compared', len(idx))

    agree(rec.predict(q), range(n), 'a repeated query')
    for i in range(n):
        form = ctx.randint(0, 3)
        x = [q[i], q[i:i + 1], models.as_list(q[i]),
             models.as_list(q[i:i + 1])][form]
        agree(rec.predict(x), [i], 'an event alone and in a batch')
    perm = ctx.rng.permutation(n)
    agree(rec.predict(q[perm]), perm, 'a permuted batch')
    agree(rec.predict(np.asfortranarray(q)), range(n), 'memory layout')
    agree(rec.predict(models.as_list(q)), range(n), 'a list of lists')
    sub = np.flatnonzero(ctx.rng.rand(n) < .5)
    if len(sub):
        agree(rec.predict(q[sub]), sub, 'a part of a batch')
    dup = ctx.rng.randint(0, n, n + 7)
    agree(rec.predict(q[dup]), dup, 'duplicated events')
    if ctx.coin(.06):
        # a batch of any size, whatever blocks predictions are computed in
        big = ctx.rng.randint(0, n, ctx.choice(
            [2 ** ctx.randint(7, 14) + ctx.randint(-1, 1),
             1000 * ctx.randint(1, 20), ctx.randint(100, 20000)]))
        agree(rec.predict(q[big]), big, 'a large batch')
    # a query is overwritten by its owner, and asked again
    x = q[perm]
    agree(rec.predict(x), perm, 'a query')
    for _ in range(2):
        dup = ctx.rng.randint(0, n, n)
        x[...] = q[dup]
        agree(rec.predict(x), dup, 'a query that was overwritten')
    x = models.as_list(q)
    agree(rec.predict(x), range(n), 'a query in a list')
    i, j = ctx.randint(0, n - 1), ctx.randint(0, n - 1)
    now = list(range(i)) + [j] + list(range(i + 1, n))
    if isinstance(x, list) and isinstance(models.as_list(q[now]), list):
        x[i] = x[j]
        agree(rec.predict(x), now, 'a list that was changed')
    # which unknown object does not matter, nor do ignored elements
    q2 = q.copy() if q.dtype.kind != 'U' else q.astype('U80')
    for i in range(n):
        for j, o in enumerate(ref.eo):
            if j not in ei or not known[i, j]:
                x = models.unknown_id(ctx, ref, o)
                if x is not None:
                    q2[i, j] = x
    agree(rec.predict(q2), range(n), 'replacing unknown or unused objects')
    if mode != 'layout':
        ev = rec.to_iid_event(q)
        agree(rec.raw_predict(ev), range(n), 'internal ids')
    if mode == 'threads':
        threads(ctx, rec, q, agree, n)
    ctx.check(freeze(rec) == before, 'prediction changed the model')
    ctx.check(freeze(q) == qb, 'prediction changed the query')
    ctx.check(rng_state() == gs, 'prediction consumed random numbers')
    ctx.sig(kind, sorted(map(str, p.items())), q.tobytes())
    ctx.note(stratum=ctx.stratum, params=p, query=q[:3], prediction=full[:3])


def threads(ctx, rec, q, agree, n):
    slow = ctx.coin(.4)
    if slow or ctx.coin():
        plans = [[ctx.rng.randint(0, n, ctx.randint(1, n)) for _ in range(6)]
                 for _ in range(4)]
    else:
        # large batches of one size, for which the interpreter lock is
        # released in the middle of a prediction
        m = ctx.randint(600, 2500)
        plans = [[ctx.rng.randint(0, n, m) for _ in range(8)]
                 for _ in range(4)]
    res, err = {}, []
    gate = threading.Barrier(4)

    def work(t):
        try:
            gate.wait(60)
            for k, idx in enumerate(plans[t]):
                res[t, k] = np.array(rec.predict(q[idx]), dtype=float)
        except Exception as e:      # judged below
            err.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with (core.delays(ctx, .1) if slow else contextlib.nullcontext()):
            th = [threading.Thread(target=work, args=(t,)) for t in range(4)]
            for t in th:
                t.start()
            for t in th:
                t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.check(not err, 'an error in a concurrent prediction', err=err)
    for t in range(4):
        for k, idx in enumerate(plans[t]):
            agree(res[t, k], idx, 'concurrent predictions')
            ctx.obs('concurrent predictions')
