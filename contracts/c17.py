"""C17: simulated paths."""
from vc.contract import contract
MODELS = {'bm': ('quantfinlib.sim._bm:BrownianMotion', ('drift', 'vol')), 'gbm': ('quantfinlib.sim._gbm:GeometricBrownianMotion', ('drift', 'vol')),
          'ou': ('quantfinlib.sim._ou:OrnsteinUhlenbeck', ('mean', 'mrr', 'vol'))}
def T(V): return {} if V.symbolic else dict(tol=1e-8, scale=1e-8)

def correlation(V, nv):
    """a positive definite correlation matrix"""
    if V.symbolic:
        a = V.array('cor', (nv, nv), lo=-1, hi=1)
        return V.generate((nv, nv), lambda i, j: V.If(i == j, 1.0, V.If(i < j, V.at(a, i, j), V.at(a, j, i))))
    import numpy as np
    a = V.array('factor', (nv, nv + 2))
    c = a @ a.T + 1e-3 * np.eye(nv)
    d = np.sqrt(np.diag(c))
    c = c / np.outer(d, d)
    np.fill_diagonal(c, 1.0)
    V.assume(np.isfinite(c).all() and np.linalg.eigvalsh(c).min() > 1e-6)
    return c

def parameter(V, name, nv):
    return V.array(name, nv, **({'gt': 0} if name in ('vol', 'mrr') else {}), **({} if V.symbolic else dict(lo=1e-3 if name in ('vol', 'mrr') else -2, hi=2)))

def model(V, kind, nv, with_cor):
    path, names = MODELS[kind]
    ps = {k: parameter(V, k, nv) for k in names}
    cor = correlation(V, nv) if with_cor else None
    return V.call(V.fn(path), **ps, cor=cor), {k: V.snapshot(a) for k, a in ps.items()}, cor

def step(V, kind, P, v, x, y, dt, e):
    """next value y of variate v given the value x and the correlated draw e"""
    vol = P['vol'](v)
    if kind == 'bm': return y, x + P['drift'](v) * dt + vol * V.sqrt(dt) * e
    if kind == 'gbm': return V.log(y), V.log(x) + (P['drift'](v) - vol * vol / 2) * dt + vol * V.sqrt(dt) * e
    k, m = P['mrr'](v), P['mean'](v)
    f = V.exp(-(k * dt))
    return y, x * f + m * (1 - f) + e * V.sqrt(V.div(vol * vol * (1 - V.exp(-2 * k * dt)), 2 * k))

def sizes(V):
    return V.int('variates', 1, small=3), V.int('paths', 1, small=3), V.int('steps', 1, small=5), V.int('seed', 0, small=99)

BASE = 'quantfinlib.sim._base'

def summarised_noise(V, seed, rows, nv, chol):
    """Callers of the noise function see its contract only: loc + scale * e(row, variate)."""
    if not V.symbolic: return None
    e = V.array('noise', (rows, nv))
    def fill(ans, loc=None, scale=None, L=None, random_state=None):
        V.ensure('noise: one row per step and path', V.shape_is(ans, rows, nv))
        V.ensure('noise: the requested seed', V.eq(random_state, seed))
        if chol is None: V.ensure('noise: not correlated without a correlation matrix', L is None)
        else:
            V.ensure('noise: a Cholesky factor is given', L is not None and V.shape_is(L, nv, nv))
            for a in V.forall('chol a', 0, nv):
                for b in V.forall('chol b', 0, nv): V.ensure('noise: the Cholesky factor of the correlation matrix', V.eq(V.at(L, a, b), chol(a, b)))
        r = e
        if scale is not None: r = r * scale
        if loc is not None: r = r + loc
        ans[:, :] = r
    for k in ('_base', '_bm', '_gbm', '_ou'): V.summary(f'quantfinlib.sim.{k}:_fill_with_correlated_noise', fill, 'fills its argument with loc + scale * e, e the (correlated) draws of the seed, row by row')
    return lambda r, v: V.at(e, r, v)

@contract('C17', 'noise')
def _(V):
    f = V.fn(f'{BASE}:_fill_with_correlated_noise')
    rows, nv, seed = V.int('rows', 1, small=9), V.int('variates', 1, small=3), V.int('seed', 0, small=99)
    ans, loc, scale = V.array('target', (rows, nv)), V.array('loc', (1, nv)), V.array('scale', (1, nv))
    cor = correlation(V, nv) if V.choice('correlated', [0, 1]) else None
    lc, sc = V.snapshot(loc), V.snapshot(scale)
    part = V.choice('arguments', ['both', 'no loc', 'no scale', 'neither'])
    kw = {}
    if part in ('both', 'no loc'): kw['scale'] = scale
    if part in ('both', 'no scale'): kw['loc'] = loc
    chol = V.chol_matrix(cor) if cor is not None else None
    fr = V.frozen(loc, scale, *([chol] if cor is not None else []))
    V.call(f, ans, L=chol, random_state=seed, **kw)
    V.unchanged('only the target is filled', fr)
    E = V.normals(seed, rows, nv)
    C = V.snapshot(chol) if cor is not None else None
    A = V.snapshot(ans)
    V.ensure('keeps the shape', V.shape_is(ans, rows, nv))
    for r in V.forall('r', 0, rows):
        for v in V.forall('v', 0, nv):
            e = E(r, v) if cor is None else V.sum(0, nv - 1, lambda k: E(r, k) * C(v, k))
            want = (lc(0, v) if 'loc' in kw else 0) + (sc(0, v) if 'scale' in kw else 1) * e
            V.ensure('location plus scale times the correlated draw', V.eq(A(r, v), want, **T(V)))

@contract('C17', 'dynamics')
def _(V):
    kind = V.choice('model', list(MODELS))
    nv, P, n, seed = sizes(V)
    with_cor = V.choice('correlated', [0, 1])
    m, pars, cor = model(V, kind, nv, with_cor)
    dt = V.real('dt', gt=0) if V.symbolic else V.choice('dt', [1 / 252, 0.1, 1.0, 2.5])
    x0 = V.array('x0', nv, **({'gt': 0} if kind == 'gbm' else {}))
    fr = V.frozen(x0); X0 = V.snapshot(x0)
    L = V.cholesky(cor) if with_cor else None
    noise = summarised_noise(V, seed, n * P, nv, L)
    x = V.call(m.path_sample, x0=x0, dt=dt, num_steps=n, num_paths=P, random_state=seed)
    V.unchanged('the start values are unchanged', fr)
    V.ensure('an array with one row per step plus the start and a column per variate and path', V.and_(V.is_array(x), V.shape_is(x, n + 1, nv * P)))
    E = V.normals(seed, n * P, nv)
    X = V.snapshot(x)
    for p in V.forall('p', 0, P):
        for v in V.forall('v', 0, nv):
            V.ensure('starts at the requested value', V.eq(X(0, p * nv + v), X0(v), **T(V)))
            for t in V.forall('t', 0, n):
                r = t * P + p
                if noise: e = noise(r, v)
                else: e = V.sum(0, nv - 1, lambda k: E(r, k) * L(v, k)) if with_cor else E(r, v)
                got, want = step(V, kind, pars, v, X(t, p * nv + v), X(t + 1, p * nv + v), dt, e)
                V.ensure('follows the discretised dynamics', V.eq(got, want, **T(V)))
                if kind == 'gbm': V.ensure('stays positive', V.lt(0, X(t + 1, p * nv + v)))
