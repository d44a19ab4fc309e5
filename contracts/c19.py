"""C19: likelihood and fitting use the law of the simulation."""
from vc.contract import contract
from contracts.c17 import model, MODELS, T, correlation

def law(V, kind, P, dt, v):
    """mean and deviation of one simulated step of variate v"""
    vol = P['vol'](v)
    if kind == 'bm': return P['drift'](v) * dt, vol * V.sqrt(dt)
    if kind == 'gbm': return (P['drift'](v) - vol * vol / 2) * dt, vol * V.sqrt(dt)
    k, m = P['mrr'](v), P['mean'](v)
    return m * (1 - V.exp(-(k * dt))), V.sqrt(V.div(vol * vol * (1 - V.exp(-2 * k * dt)), 2 * k))

def increment(V, kind, P, dt, X, t, v):
    if kind == 'bm': return X(t + 1, v) - X(t, v)
    if kind == 'gbm': return V.log(V.div(X(t + 1, v), X(t, v)))
    return X(t + 1, v) - V.exp(-(P['mrr'](v) * dt)) * X(t, v)

def setting(V, sizes=True):
    kind = V.choice('model', list(MODELS))
    nv, n = V.int('variates', 1, small=3), V.int('rows', 2, small=8)
    dt = V.real('dt', gt=0) if V.symbolic else V.choice('dt', [1 / 252, 0.1, 1.0, 2.5])
    return kind, nv, n, dt

def path(V, kind, n, nv, name='x'): return V.array(name, (n, nv), **({'gt': 0} if kind == 'gbm' else {}))

@contract('C19', 'likelihood')
def _(V):
    kind, nv, n, dt = setting(V)
    with_cor = V.choice('correlated', [0, 1])
    m, P, cor = model(V, kind, nv, with_cor)
    x = path(V, kind, n, nv)
    X = V.snapshot(x)
    if with_cor and not V.symbolic:
        import numpy as np
        C = V.snapshot(cor)
        ev = np.linalg.eigvalsh([[law(V, kind, P, dt, a)[1] * C(a, b) * law(V, kind, P, dt, b)[1] for b in range(nv)] for a in range(nv)])
        V.assume(ev.min() > 1e-6 * ev.max())
    ll = V.call(m.nll, x, dt)
    if not with_cor:
        want = V.sum(0, n - 2, lambda t: V.sum(0, nv - 1, lambda v: V.normal_logpdf(increment(V, kind, P, dt, X, t, v), *law(V, kind, P, dt, v))))
    else:
        C = V.snapshot(cor)
        d = V.generate((n - 1, nv), lambda t, v: increment(V, kind, P, dt, X, t, v))
        mu = V.generate(nv, lambda v: law(V, kind, P, dt, v)[0])
        cov = V.generate((nv, nv), lambda a, b: law(V, kind, P, dt, a)[1] * C(a, b) * law(V, kind, P, dt, b)[1])
        f = V.mvn_logpdf(d, mu, cov)
        want = V.sum(0, n - 2, f)
    V.ensure('minus the sum of the log densities of the increments', V.eq(ll, -want, **(dict(tol=1e-7, scale=1e-7) if not V.symbolic else {})))
    k = nv * len(P) + (V.int_div(nv * (nv - 1), 2) if with_cor else 0)
    V.ensure('the number of free parameters', m.num_parameters_ == k)
    V.ensure('AIC', V.eq(V.call(m.aic, x, dt), 2 * k + 2 * ll, **T(V)))
    V.ensure('BIC', V.eq(V.call(m.bic, x, dt), V.log(n * 1.0) * k + 2 * ll, **T(V)))

@contract('C19', 'fit')
def _(V):
    kind, nv, n, dt = setting(V)
    V.assume(n >= 3)
    if not V.symbolic: V.assume(n >= nv + 3)
    x = path(V, kind, n, nv)
    X = V.snapshot(x)
    last = n - 2
    if kind == 'ou':
        line = lambda v: V.ols(0, last, lambda t: X(t, v), lambda t: X(t + 1, v))
        def regular(v):                 # the column varies and its steps are neither alternating nor a plain random walk
            mx = V.mean(0, last, lambda t: X(t, v))
            a = line(v)[0]
            return V.and_(V.lt(0 if V.symbolic else 1e-5, V.sum(0, last, lambda t: (X(t, v) - mx) * (X(t, v) - mx))), V.lt(1e-6, a), V.not_(V.eq(a, 1.0, **(dict(tol=1e-4, scale=1e-4) if not V.symbolic else {}))))
        V.every(nv, regular)
    d = {'bm': lambda t, v: X(t + 1, v) - X(t, v), 'gbm': lambda t, v: V.log(V.div(X(t + 1, v), X(t, v)))}.get(kind)
    if kind == 'ou': d = lambda t, v: X(t + 1, v) - (line(v)[0] * X(t, v) + line(v)[1])
    if not V.symbolic: V.assume(all(V.std(0, last, lambda t: d(t, v), 1) > 1e-6 for v in range(nv)))
    m0 = V.call(V.fn(MODELS[kind][0]))
    o, m = V.outcome(m0.fit, x, dt)
    if o == 'raise':
        V.ensure('only refused when a series does not vary', V.and_(kind != 'ou', nv > 1, V.any(0, nv - 1, lambda v: V.eq(V.std(0, last, lambda t: d(t, v), 1), 0))))
        return
    V.ensure('returns the model', m is m0)
    P = {k: (lambda v, a=V.snapshot(getattr(m, k)): a(0, v)) for k in MODELS[kind][1]}
    for k in MODELS[kind][1]: V.ensure('one parameter per column', V.shape_is(getattr(m, k), 1, nv))
    for v in V.forall('v', 0, nv):
        mu, sd = law(V, kind, P, dt, v)
        if kind == 'ou':
            a, b = line(v)
            V.ensure('the mean reversion regression', V.eq(V.exp(-(P['mrr'](v) * dt)), a, **T(V)))
            V.ensure('the mean of a step', V.eq(mu, b, **T(V)))
        else: V.ensure('the mean of a step', V.eq(mu, V.mean(0, last, lambda t: d(t, v)), **T(V)))
        V.ensure('the deviation of a step', V.eq(sd, V.std(0, last, lambda t: d(t, v), 1), **T(V)))
    if V.fork(nv == 1): V.ensure('no correlation for one column', m.cor is None and m.L_ is None)
    else:
        R = V.corr_matrix(V.generate((n - 1, nv), d))
        V.ensure('one row and column per variate', V.shape_is(m.cor, nv, nv))
        L = V.cholesky(m.cor)
        for i in V.forall('i', 0, nv):
            for j in V.forall('j', 0, nv):
                V.ensure('the correlation of the steps', V.eq(V.at(m.cor, i, j), R(i, j), **T(V)))
                V.ensure('its Cholesky factor', V.eq(V.at(m.L_, i, j), L(i, j), **T(V)))
    k = nv * len(P) + V.If(nv == 1, 0, V.int_div(nv * (nv - 1), 2))
    V.ensure('the number of free parameters', m.num_parameters_ == k)
