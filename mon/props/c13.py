"""C13: pLSA learns probability tables by MAP-EM"""
import numpy as np
from .. import models

STRATA = ['plain', 'layout', 'many iterations', 'tolerance', 'mono',
          'more factors than levels']
CASES = {'quick': 1800, 'thorough': 12000}
NEED = {'tables inspected': 2000, 'EM steps compared': 800,
        'likelihoods compared': 1500}
RULE = ('pLSA models fitted by 1, 2, ... EM iterations from the same seed, so '
        'that each iteration is observed through a public model; distinct = '
        'different (parameters, data)')

TAB = ('pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_')


def tables(ctx, rec, nu, ni, nr, k):
    z = np.array(rec.pZ_, dtype=float)
    x = np.array(rec.pXgZ_, dtype=float)[:nu]
    y = np.array(rec.pYgZ_, dtype=float)[:ni]
    s = np.array(rec.pRgZ_, dtype=float)
    ctx.check(z.shape == (k,) and x.shape == (nu, k) and y.shape == (ni, k)
              and s.shape == (nr, k), 'shapes of tables', z=z.shape,
              x=x.shape, y=y.shape, r=s.shape, want=(nu, ni, nr, k))
    for name, t in (('Pr[Z]', z), ('Pr[X|Z]', x), ('Pr[Y|Z]', y),
                    ('Pr[R|Z]', s)):
        ctx.check(np.all(t > 0) and np.all(t <= 1 + 1e-12),
                  'not probabilities: ' + name, table=t)
        ctx.close(t.sum(axis=0), np.ones(t.shape[1:]),
                  'not normalised: ' + name, rtol=1e-9)
        ctx.obs('tables inspected')
    return z, x, y, s


def joint(T, ev, sc):
    z, x, y, s = T
    return z[None, :] * x[ev[:, 0]] * y[ev[:, 1]] * s[sc]


def em_step(T, ev, sc, alpha):
    z, x, y, s = T
    q = joint(T, ev, sc)
    q = q / q.sum(axis=1, keepdims=True)
    out = []
    for t, idx in ((x, ev[:, 0]), (y, ev[:, 1]), (s, sc)):
        n = np.zeros_like(t)
        np.add.at(n, idx, q)
        n += alpha
        out.append(n / n.sum(axis=0))
    nz = q.sum(axis=0) + alpha
    return nz / nz.sum(), out[0], out[1], out[2]


def case(ctx):
    r = ctx.rng
    st = ctx.stratum
    ei = (0, 1)
    kw = {}
    if st == 'mono':
        kw = dict(shape='single')
    if st == 'layout':
        while True:
            data, ref = models.training(ctx, 'PLSA', layout='any')
            if len(ref.eo) >= 2:
                break
        ei = tuple(int(i) for i in r.permutation(len(ref.eo))[:2])
    else:
        n = ctx.randint(1, 60)
        if ctx.coin(.03):
            # many events of few or many objects
            n = ctx.size(ctx.randint(260, 700), p=.3, top=3000)
            kw = dict(pool=ctx.choice([3, 20, 400]))
        data, ref = models.training(ctx, 'PLSA', n=n, **kw)
    k = ctx.choice([1, 2, 3])
    nr = int(data.n_score_levels)
    if st == 'more factors than levels':
        k = nr + ctx.randint(1, 3)
    alpha = ctx.choice([1., .1, .01, 3.])
    tol = ctx.choice([1e-2, 1e-4]) if st == 'tolerance' else 0.
    seed = 0 if ctx.coin(.1) else ctx.randint(0, 9999)
    steps = {'many iterations': 12, 'tolerance': 8}.get(st, 4)
    if len(ref.ev) > 250:
        steps = 2
        ctx.obs('trainings on many events')
    nu = len(ref.objects(ref.eo[ei[0]]))
    ni = len(ref.objects(ref.eo[ei[1]]))
    n = len(ref.ev)
    sc = np.array([int(np.argmin(np.abs(np.asarray(data.get_score_levels()) -
                                        float(s)))) for s in ref.score])
    prev = prev_obj = prev_loss = first = None
    ev = None
    for it in range(1, steps + 1):
        rec = models.classes()['PLSA'](k=k, alpha=alpha, random_state=seed,
                                       maxiter=it, tol=tol)
        rec.fit(data, event_index=ei)
        if ev is None:
            ev = np.array([[rec.to_iid(ref.eo[j], row[j].item()) for j in ei]
                           for row in ref.ev])
        T = tables(ctx, rec, nu, ni, nr, k)
        fr = rec.fit_results_
        nll = -np.log(joint(T, ev, sc).sum(axis=1)).mean()
        ctx.close(fr['final_loss'], nll, 'the reported loss is not the '
                  'negative log-likelihood of the learned tables', rtol=1e-8)
        ctx.obs('likelihoods compared')
        if first is None:
            first = fr['initial_loss']
        ctx.close(fr['initial_loss'], first, 'initial loss changes with the '
                  'number of iterations', rtol=1e-9)
        # what EM minimises, with the Laplace smoothing
        obj = n * nll - alpha * sum(np.log(t).sum() for t in T)
        done = int(fr['n_iterations'])
        ctx.check(1 <= done <= it, 'the number of iterations', got=done,
                  maximum=it)
        if prev is not None and prev_done == it - 1:
            if done == it:
                want = em_step(prev, ev, sc, alpha)
                for t, w in zip(T, want):
                    ctx.close(t, w, 'an iteration is not an EM step',
                              rtol=1e-7, atol=1e-10, iteration=it)
                ctx.check(obj <= prev_obj + 1e-8 * (1 + abs(prev_obj)),
                          'an EM iteration made the objective worse',
                          before=prev_obj, after=obj)
                ctx.obs('EM steps compared')
        if prev is not None and tol > 0 and last_change < tol * (1 - 1e-6):
            ctx.check(done < it, 'training went on though the change of the '
                      'loss was within the tolerance', change=last_change,
                      tol=tol, iterations=done)
        if prev is not None and done < it:
            # stopped early: by the tolerance
            ctx.check(fr['status'] == 0 and bool(fr['success']),
                      'stopped early without success', fr=fr)
            if done == 1:
                change = abs((fr['final_loss'] - first) / fr['final_loss'])
            else:
                change = last_change
            ctx.check(change <= tol * (1 + 1e-6) + 1e-13,
                      'stopped before reaching the tolerance', change=change,
                      tol=tol, iterations=done)
            ctx.obs('early stops')
            break
        ref_loss = first if prev_loss is None else prev_loss
        last_change = abs((fr['final_loss'] - ref_loss) /
                          max(abs(fr['final_loss']), 1e-300))
        if done == it and last_change > tol * (1 + 1e-6) + 1e-9:
            ctx.check(fr['status'] == 2 and not fr['success'],
                      'reported as converged, though it did not', fr=fr)
        if tol > 0 and last_change < tol * (1 - 1e-6):
            ctx.check(fr['status'] == 0 and bool(fr['success']),
                      'not reported as converged, though it did', fr=fr)
            ctx.obs('convergences')
        prev, prev_obj, prev_done = T, obj, done
        prev_loss = fr['final_loss']
        ctx.check(int(fr['n_users']) == nu and int(fr['n_items']) == ni and
                  int(fr['n_events']) == n and int(fr['n_parameters']) ==
                  k * (1 + nu + ni + nr), 'reported sizes', fr=fr)
    ctx.sig(k, alpha, seed, ref.ev.tobytes(), sc.tobytes())
    ctx.note(stratum=st, k=k, alpha=alpha, n=n, loss=fr['final_loss'],
             iterations=fr['n_iterations'], events=ref.ev[:3])
