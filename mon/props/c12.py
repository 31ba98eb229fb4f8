"""C12: matrix factorisation training minimises the documented objective"""
import numpy as np
import scipy.optimize
from .. import core, models

STRATA = [k + '/' + m for k in models.MF
          for m in ('plain', 'converge', 'layout', 'extreme', 'methods',
                    'mono', 'limits')]
CASES = {'quick': 1260, 'thorough': 17500}
NEED = {'objectives compared': 800, 'descents compared': 700,
        'converged fits': 60,
        'reports of optimisers compared': 800,
        'runs of optimisers compared': 800, 'calls back observed': 50}
RULE = ('the three matrix factorisation models with optimisers, penalties, '
        'and data of all shapes; the objective is recomputed from the public '
        'parameters; distinct = different (model, parameters, data)')
ASSUMPTIONS = ['the order of parameters inside an optimiser is not assumed; '
               'gradients are compared with central differences of the '
               'function that the optimiser was really given']

# ---- an interceptor in front of the optimiser, as users see it -------------
_seen = []
_asked = [{}]
_real = scipy.optimize.minimize


def _spy(fun, x0, args=(), method=None, jac=None, **kw):
    if _seen and _seen[-1] is None:
        _seen[-1] = (fun, np.array(x0, dtype=float), args, jac)
        # the functions may depend on the state of the model during a fit, so
        # gradients are observed now
        x = np.array(x0, dtype=float)
        _seen.append(observe(fun, x, args, jac))
        v = fun(x.copy(), *(args if isinstance(args, tuple) else (args,)))
        _seen.append(float(v[0] if jac is True else v))
        x0 = np.array(x0, dtype=float)
        # the same optimisation with exactly the options that the user gave
        call = _asked[0].get('callback', Calls())
        want = _real(fun, x0.copy(), args=args, jac=jac, **_asked[0])
        wcalls, call.x = call.x, []
        res = _real(fun, x0, args=args, method=method, jac=jac, **kw)
        _seen.append((res, want, call.x, wcalls))
        return res
    return _real(fun, x0, args=args, method=method, jac=jac, **kw)


scipy.optimize.minimize = _spy


def asked(p):
    """arguments of the optimiser for the parameters of a model"""
    kw = {k: v for k, v in p.items() if k not in ('C', 'k', 'random_state',
                                                  'maxiter', 'options')}
    kw['options'] = dict(p.get('options', {}))
    kw['options'].setdefault('disp', False)
    if p.get('maxiter') is not None:
        kw['options']['maxiter'] = p['maxiter']
    kw.setdefault('method', 'CG')
    return kw


class Calls(object):
    """a function that is called back after each iteration"""

    def __init__(self):
        self.x = []

    def __call__(self, x):
        self.x.append(np.array(x, dtype=float))

    def __repr__(self):
        return 'Calls()'


LIMITS = {'CG': ['gtol', 'norm'], 'BFGS': ['gtol', 'norm'],
          'L-BFGS-B': ['gtol', 'ftol', 'maxcor', 'maxfun', 'maxls'],
          'TNC': ['gtol', 'ftol', 'maxfun', 'maxCGit'],
          'SLSQP': ['ftol'], 'Newton-CG': ['xtol']}


def limits(ctx):
    """an optimiser with any of its options, or none"""
    p = {'C': ctx.choice([.1, 1., 5.]), 'k': ctx.choice([1, 2]),
         'random_state': ctx.randint(0, 999)}
    m = ctx.choice(sorted(LIMITS))
    if m != 'CG' or ctx.coin():
        p['method'] = m
    if ctx.coin(.3):
        p['tol'] = ctx.choice([1e-2, 1e-4])
    o = {}
    for k in LIMITS[m]:
        if ctx.coin(.4):
            o[k] = (ctx.choice([1e-2, 1e-4]) if k in ('gtol', 'ftol', 'xtol')
                    else ctx.choice([2, np.inf]) if k == 'norm' else
                    ctx.choice([1, 2, 5, 20, 30]) + (k == 'maxls') * 10)
    if o or ctx.coin():
        p['options'] = o
    if ctx.coin(.3):
        p['callback'] = Calls()
    if ctx.coin(.3) and m in ('L-BFGS-B', 'TNC', 'SLSQP'):
        b = ctx.choice([.3, 2., 10.])
        p['bounds'] = scipy.optimize.Bounds(-b, b)
    return p


def observe(fun, x0, args, jac):
    """[(analytic, numeric, scale)] at several points around the start"""
    if not callable(jac) and jac is not True:
        return []
    if not isinstance(args, tuple):
        args = (args,)

    def f(x):
        v = fun(x.copy(), *args)
        return float(v[0] if jac is True else v)

    def g(x):
        v = fun(x.copy(), *args)[1] if jac is True else jac(x.copy(), *args)
        return np.array(v, dtype=float)

    rng = np.random.RandomState(len(x0))
    out = []
    for t in range(3):
        # small activations: the logistic loss is computed from clipped
        # probabilities, and is not smooth where these are clipped
        x = .4 * x0 + (0 if t == 0 else rng.normal(0, .2 * t, len(x0)))
        ga = g(x)
        idx = rng.permutation(len(x0))[:25]
        num = np.empty(len(idx))
        for n, i in enumerate(idx):
            h = 1e-5 * max(1., abs(x[i]))
            a, b = x.copy(), x.copy()
            a[i] += h
            b[i] -= h
            num[n] = (f(a) - f(b)) / (2 * h)
        out.append((ga[idx], num, abs(f(x))))
    return out


def objective(ctx, rec, kind, ref, ei, C):
    """the documented objective and its gradient, from public parameters"""
    u = np.array([rec.to_iid(ref.eo[ei[0]], x.item())
                  for x in ref.ev[:, ei[0]]])
    i = np.array([rec.to_iid(ref.eo[ei[1]], x.item())
                  for x in ref.ev[:, ei[1]]])
    nu = len(ref.objects(ref.eo[ei[0]]))
    ni = len(ref.objects(ref.eo[ei[1]]))
    if kind == 'ImplicitLogisticPMF':
        y = np.zeros((nu, ni))
        y[u, i] = 1
        u, i = [a.ravel() for a in np.mgrid[0:nu, 0:ni]]
        y = y.ravel()
    else:
        y = np.asarray(ref.score, dtype=float)
    mu = float(np.ravel(rec.mu_)[0])
    bu, bi = np.asarray(rec.bu_)[:nu], np.asarray(rec.bi_)[:ni]
    p, q = np.asarray(rec.p_)[:nu], np.asarray(rec.q_)[:ni]
    z = mu + bu[u] + bi[i] + np.sum(p[u] * q[i], axis=1)
    reg = .5 * C * ((bu ** 2).sum() + (bi ** 2).sum() + (p ** 2).sum() +
                    (q ** 2).sum())
    if kind == 'PMF':
        loss = .5 * ((y - z) ** 2).sum()
        d = z - y
    else:
        # cross entropy, log(1 + exp(z)) - y z
        loss = (np.logaddexp(0, z) - y * z).sum()
        d = models.sigmoid(z) - y
    gp, gq = np.zeros_like(p), np.zeros_like(q)
    np.add.at(gp, u, d[:, None] * q[i])
    np.add.at(gq, i, d[:, None] * p[u])
    grad = np.concatenate([
        [d.sum()], np.bincount(u, d, nu) + C * bu,
        np.bincount(i, d, ni) + C * bi, (gp + C * p).ravel(),
        (gq + C * q).ravel()])
    return loss + reg, grad, nu, ni, np.abs(z).max()


def case(ctx):
    kind, mode = ctx.stratum.split('/')
    r = ctx.rng
    ei = (0, 1)
    kw = {}
    if mode == 'mono':
        kw = dict(shape='single')
    if mode in ('converge', 'limits'):
        kw = dict(n=ctx.randint(2, 25), shape='small')
    if mode == 'layout':
        while True:
            data, ref = models.training(ctx, kind, layout='any')
            if len(ref.eo) >= 2:
                break
        ei = tuple(int(i) for i in r.permutation(len(ref.eo))[:2])
    else:
        if not kw and ctx.coin(.03):
            # many events of few or many objects
            kw = dict(n=ctx.size(ctx.randint(260, 700), p=.3, top=3000),
                      pool=ctx.choice([3, 20, 400]))
            ctx.obs('trainings on many events')
        data, ref = models.training(ctx, kind, **kw)
    p = models.params(ctx, kind)
    if mode == 'extreme':
        p['C'] = ctx.choice([1e-4, 1e3, 1e-2, 0, 0.])
    elif mode == 'converge':
        p = {'C': ctx.choice([.1, 1., 5.]), 'k': ctx.choice([1, 2]),
             'random_state': ctx.randint(0, 999), 'maxiter': 3000,
             'method': ctx.choice(['CG', 'BFGS'])}
        if p['method'] == 'CG' and ctx.coin():
            del p['method']
    elif mode == 'limits':
        p = limits(ctx)
    elif mode == 'methods':
        p.pop('maxiter', None)
        p['options'] = {'maxiter': ctx.choice([1, 5, 20])}
        models.method(ctx, p)
    rec = models.build(kind, p)
    import sys
    for name, m in list(sys.modules.items()):   # whoever imported it already
        if name.startswith('kamrecsys') and getattr(
                m, 'minimize', None) is _real:
            m.minimize = _spy
    _seen[:] = [None]
    _asked[0] = asked(p)
    rec.fit(data, event_index=ei)
    seen, _seen[:] = list(_seen), []
    fr = rec.fit_results_

    obj, grad, nu, ni, zmax = objective(ctx, rec, kind, ref, ei,
                                        p.get('C', 1.))
    # a logistic loss is computed through clipped probabilities
    if kind == 'PMF' or zmax < 30:
        ctx.close(fr['final_loss'], obj, 'the reported loss is not the '
                  'objective at the learned parameters', rtol=1e-7,
                  atol=1e-7, params=p)
        ctx.obs('objectives compared')
    if 'bounds' in p:
        b = float(np.ravel(p['bounds'].ub)[0]) + 1e-9
        ctx.check(max(np.abs(a).max() for a in (
            rec.mu_, rec.bu_, rec.bi_, rec.p_, rec.q_)) <= b, 'parameters '
            'beyond the bounds that were given', params=p)
    ctx.check(rec.C == p.get('C', 1.) and rec.k == p['k'] and
              rec.p_.shape[1] == p['k'] and rec.q_.shape[1] == p['k'],
              'hyper parameters are not those given', C=rec.C, k=rec.k,
              params=p)
    ctx.check(np.isfinite(fr['initial_loss']) and
              np.isfinite(fr['final_loss']), 'losses are not finite', fr=fr)
    if p.get('method', 'CG') in ('CG', 'BFGS', 'L-BFGS-B', 'Newton-CG',
                                 'TNC', 'Powell') and 'bounds' not in p:
        ctx.check(fr['final_loss'] <= fr['initial_loss'] * (1 + 1e-9) + 1e-9,
                  'training made the objective worse', params=p,
                  initial=fr['initial_loss'], final=fr['final_loss'])
        ctx.obs('descents compared')
    ctx.check(int(fr['n_users']) == nu and int(fr['n_items']) == ni and
              int(fr['n_events']) == len(ref.ev) and
              int(fr['n_parameters']) == 1 + (nu + ni) * (1 + p['k']),
              'reported sizes', fr=fr, nu=nu, ni=ni)
    ctx.check(fr['optimizer_method'] == p.get('method', 'CG'),
              'reported optimiser', got=fr['optimizer_method'])
    it = fr['n_iterations']
    mx = p.get('maxiter', p.get('options', {}).get('maxiter'))
    if mx is not None and p.get('method', 'CG') in ('CG', 'BFGS', 'L-BFGS-B',
                                                    'SLSQP'):
        ctx.check(it <= mx, 'more iterations than the maximum', it=it, mx=mx)
    if len(seen) == 4 and seen[0] is not None:
        res, want, calls, wcalls = seen[3]
        ctx.check(len(calls) == len(wcalls) and all(
            np.allclose(a, b, rtol=1e-9, atol=1e-9)
            for a, b in zip(calls, wcalls)), 'the function that the user '
            'gave is not called after each iteration', calls=len(calls),
            want=len(wcalls), params=p)
        if 'callback' in p:
            ctx.obs('calls back observed', len(calls))
        ctx.check(res.nfev == want.nfev and res.get('nit') == want.get('nit')
                  and res.status == want.status and
                  np.allclose(res.x, want.x, rtol=1e-9, atol=1e-9),
                  'the optimiser was not run with the options that were '
                  'given', params=p, evaluations=[res.nfev, want.nfev],
                  iterations=[res.get('nit'), want.get('nit')],
                  message=[res.message, want.message])
        ctx.obs('runs of optimisers compared')
        ctx.close(fr['initial_loss'], seen[2], 'the initial loss is not the '
                  'loss at the point where the optimiser starts', rtol=1e-9)
        for k, v in (('n_iterations', res.get('nit')),
                     ('func_calls', res.nfev), ('grad_calls',
                                                res.get('njev')),
                     ('success', res.success), ('status', res.status),
                     ('message', res.message), ('final_loss', res.fun)):
            ctx.check(k in fr and core.same(fr[k], v), 'a report of the '
                      'optimiser is lost', key=k, got=fr.get(k), want=v)
        ctx.obs('reports of optimisers compared')
        for ga, num, scale in seen[1]:
            tol = 1e-4 * (1 + np.abs(num).max()) + 1e-8 * scale
            ctx.check(np.all(np.abs(ga - num) < tol),
                      'the gradient is not that of the loss', analytic=ga,
                      numeric=num, params=p)
            ctx.obs('gradient components compared', len(ga))
    # at convergence of a gradient method, the objective is stationary
    if (fr['success'] and p.get('method', 'CG') in ('CG', 'BFGS') and
            'tol' not in p and 'gtol' not in p.get('options', {})):
        ctx.check(np.abs(grad).max() < 1e-3, 'the objective is not '
                  'stationary though training succeeded', grad=grad, params=p)
        ctx.obs('converged fits')
    ctx.sig(kind, sorted(map(repr, p.items())), ref.ev.tobytes())
    ctx.note(stratum=ctx.stratum, params=p, initial=fr['initial_loss'],
             final=fr['final_loss'], objective=obj, events=ref.ev[:3])
