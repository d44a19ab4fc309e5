"""C16: eigenvalue denoising and the Marchenko-Pastur law."""
from vc.contract import contract
M = 'quantfinlib.math.cov'
def T(V): return {} if V.symbolic else dict(tol=1e-9, scale=1)
def exact(V): return {} if V.symbolic else dict(tol=0)

def eigenvalues(V, n, kind='f'):
    """any non-negative eigenvalues, largest first"""
    if kind == 'i': return V.array('eig', n, lo=0, hi=9, kind='i')
    a = V.array('eig', n, lo=0)
    return a if V.symbolic else V.copy(a)

def fitted(V):
    if V.symbolic:
        V.summary(f'{M}:_marchenko_pastur_fit', lambda T, N, e: V.real('fitted_var'), 'some variance, the eigenvalues it is given are unchanged')

def support(V, var, T_, N): return var * V.pow(1 - V.sqrt(V.div(N, T_)), 2), var * V.pow(1 + V.sqrt(V.div(N, T_)), 2)

def denoised(V, E, n, steps, out, k):
    """E: given eigenvalues, n of them; those beyond the number of steps count as zero"""
    V.ensure('as many eigenvalues', V.length(out) == n)
    O = V.snapshot(out)
    e = lambda i: V.If(V.and_(n > steps, i >= steps), 0.0, E(i))
    for i in V.forall('i', 0, n):
        if V.fork(i < k): V.ensure('the leading eigenvalues are kept', V.eq(O(i), e(i), **exact(V)))
        else: V.ensure('the rest is replaced by their average', V.eq(O(i), V.mean(k, n - 1, e), **T(V)))
    if V.fork(k < n):
        V.lemma('the rest keeps its sum', V.eq(V.sum(k, n - 1, lambda i: V.mean(k, n - 1, e)), V.sum(k, n - 1, e), **T(V)))

@contract('C16', 'denoising with k')
def _(V):
    f = V.fn(f'{M}:_eigen_values_denoise')
    n, steps = V.int('n', 1), V.int('steps', 1, small=20)
    k = V.int('k', 0)
    V.assume(k <= n)
    kind = V.choice('kind', ['f', 'i'])
    a = eigenvalues(V, n, kind)
    fr = V.frozen(a); E = V.snapshot(a)
    out, info = V.call(f, a, steps, k)
    V.unchanged('the eigenvalues given are unchanged', fr)
    V.ensure('records k', V.eq(info['k'], k))
    V.ensure('records that nothing was fitted', not info['fitted'])
    denoised(V, E, n, steps, out, k)

@contract('C16', 'the sum is preserved')
def _(V):
    f = V.fn(f'{M}:_eigen_values_denoise')
    n, steps = V.int('n', 1), V.int('steps', 1, small=20)
    k = V.int('k', 0)
    V.assume(V.and_(k <= n, n <= steps))
    a = eigenvalues(V, n)
    E = V.snapshot(a)
    out, info = V.call(f, a, steps, k)
    O = V.snapshot(out)
    same = lambda x, y: V.eq(x, y, **T(V))
    if V.fork(k == 0):
        m = V.mean(0, n - 1, E)
        V.lemma('every eigenvalue becomes the average', same(V.sum(0, n - 1, O), V.sum(0, n - 1, lambda i: m)))
        V.lemma('the averages keep the sum', same(V.sum(0, n - 1, lambda i: m), V.sum(0, n - 1, E)))
        V.ensure('same sum', same(V.sum(0, n - 1, O), V.sum(0, n - 1, E)))
    elif V.fork(k == n): V.ensure('same sum', same(V.sum(0, n - 1, O), V.sum(0, n - 1, E)))
    else:
        V.lemma('head', same(V.sum(0, k - 1, O), V.sum(0, k - 1, E)))
        V.lemma('tail', same(V.sum(k, n - 1, O), V.sum(k, n - 1, E)))
        V.ensure('same sum', same(V.sum(0, k - 1, O) + V.sum(k, n - 1, O), V.sum(0, k - 1, E) + V.sum(k, n - 1, E)))

@contract('C16', 'denoising without k')
def _(V):
    fitted(V)
    f = V.fn(f'{M}:_eigen_values_denoise')
    n, steps = V.int('n', 1), V.int('steps', 1, small=20)
    a = eigenvalues(V, n)
    if not V.symbolic: V.assume(a.max() > 0)
    fr = V.frozen(a); E = V.snapshot(a)
    out, info = V.call(f, a, steps)
    V.unchanged('the eigenvalues given are unchanged', fr)
    lo, hi = support(V, info['var'], steps, n)
    V.ensure('the edge is the upper edge of the fitted distribution', V.eq(info['max_noise'], hi, **T(V)))
    V.ensure('records the fit', info['fitted'] is True)
    if V.symbolic: V.ensure('of the fitted variance', V.eq(info['var'], V.real('fitted_var')))
    e = lambda i: V.If(V.and_(n > steps, i >= steps), 0.0, E(i))
    k = V.count(0, n - 1, lambda i: e(i) >= info['max_noise'])
    V.ensure('k is the number of eigenvalues at or above the edge', V.eq(info['k'], k))
    V.ensure('from none to all', V.and_(V.le(0, info['k']), V.le(info['k'], n)))
    again, _ = V.call(f, a, steps, info['k'])
    V.ensure('as many eigenvalues', V.length(out) == n)
    for i in V.forall('i', 0, n): V.ensure('denoised as with this k', V.eq(V.at(out, i), V.at(again, i), **exact(V)))

@contract('C16', 'fitting')
def _(V):
    f = V.fn(f'{M}:_marchenko_pastur_fit')
    n, steps = V.int('n', 1, small=6), V.int('steps', 1, small=20)
    a = eigenvalues(V, n)
    if not V.symbolic: V.assume(a.max() > 0)
    fr = V.frozen(a)
    r = V.call(f, steps, n, a)
    V.unchanged('the eigenvalues given are unchanged', fr)

@contract('C16', 'support')
def _(V):
    f = V.fn(f'{M}:_marcenko_pastur_support')
    N, steps = V.int('assets', 1), V.int('steps', 1, small=20)
    var = V.real('var', gt=0)
    lo, hi = V.call(f, var, steps, N)
    a, b = support(V, var, steps, N)
    V.ensure('lower edge', V.eq(lo, a, **T(V)))
    V.ensure('upper edge', V.eq(hi, b, **T(V)))
    V.ensure('ordered', V.and_(V.le(0, lo), V.le(lo, hi)))

@contract('C16', 'density')
def _(V):
    f = V.fn(f'{M}:_marchenko_pastur_pdf')
    n, N, steps = V.int('n', 1), V.int('assets', 1), V.int('steps', 1, small=20)
    var = V.real('var', gt=0)
    kind = V.choice('kind', ['f', 'i'])
    a = V.array('x', n, **(dict(kind='i', lo=-3, hi=9) if kind == 'i' else {}))
    fr = V.frozen(a); X = V.snapshot(a)
    p = V.call(f, var, steps, N, a)
    V.unchanged('the eigenvalues given are unchanged', fr)
    V.ensure('one density per eigenvalue', V.length(p) == n)
    lo, hi = support(V, var, steps, N)
    for i in V.forall('i', 0, n):
        x = X(i)
        if not V.symbolic and min(abs(x - lo), abs(x - hi)) < 1e-9: continue
        if V.fork(V.and_(x > lo, x < hi)):
            V.lemma('the support is not negative', V.le(0, lo))
            V.lemma('only positive eigenvalues', V.lt(0, x))
            ratio = V.div(N, steps)
            top, bottom = V.sqrt((hi - x) * (x - lo)), 2 * V.pi * var * ratio * x
            V.lemma('assets per step', V.lt(0, ratio))
            V.lemma('positive eigenvalue per step', V.lt(0, ratio * x))
            d = V.div(top, bottom)
            V.ensure('the published density inside the support', V.eq(V.at(p, i), d, **T(V)))
            V.lemma('positive divisor', V.lt(0, bottom))
            V.lemma('root', V.le(0, top))
            V.ensure('never negative', V.le(0, d))
        else: V.ensure('zero outside the support', V.eq(V.at(p, i), 0, **exact(V)))

@contract('C16', 'density needs a variance')
def _(V):
    f = V.fn(f'{M}:_marchenko_pastur_pdf')
    n, N, steps = V.int('n', 1), V.int('assets', 1), V.int('steps', 1, small=20)
    o, r = V.outcome(f, V.real('var', hi=0), steps, N, V.array('x', n))
    V.ensure('a variance that is not positive is rejected', o == 'raise')

@contract('C16', 'completion')
def _(V):
    f = V.fn(f'{M}:_eig_complete')
    N, k = V.int('N', 1, small=5), V.int('k', 1, small=5)
    V.assume(k <= N)
    v, e = V.array('v', k), V.array('e', (N, k))
    fr = V.frozen(v, e); X, E = V.snapshot(v), V.snapshot(e)
    w, u = V.call(f, v, e)
    V.unchanged('the eigenpairs given are unchanged', fr)
    V.ensure('one pair per dimension', V.and_(V.length(w) == N, V.shape_is(u, N, N)))
    W = V.snapshot(w)
    for i in V.forall('i', 0, k):
        V.ensure('the eigenvalues given are kept', V.eq(W(i), X(i), **exact(V)))
        for j in V.forall('j', 0, N): V.ensure('the eigenvectors given are kept', V.eq(V.at(u, j, i), E(j, i), **exact(V)))
    if V.fork(k < N):
        rest = V.div(N - V.sum(0, k - 1, X), N - k)
        for i in V.forall('m', k, N): V.ensure('the remainder is spread evenly', V.eq(W(i), rest, **T(V)))
        V.lemma('head', V.eq(V.sum(0, k - 1, W), V.sum(0, k - 1, X), **T(V)))
        V.lemma('tail', V.eq(V.sum(k, N - 1, W), (N - k) * rest, **T(V)))
        V.ensure('the eigenvalues sum to the dimension', V.eq(V.sum(0, k - 1, W) + V.sum(k, N - 1, W), N * 1.0, **T(V)))

@contract('C16', 'rebuilt correlations')
def _(V):
    f = V.fn(f'{M}:_eig_to_cor')
    n, k = V.int('n', 1, small=5), V.int('k', 1, small=5)
    v, e = V.array('v', k), V.array('e', (n, k))
    fr = V.frozen(v, e); X, E = V.snapshot(v), V.snapshot(e)
    c = V.call(f, v, e)
    V.unchanged('the eigenpairs given are unchanged', fr)
    V.ensure('one row and column per dimension', V.shape_is(c, n, n))
    for i in V.forall('i', 0, n):
        V.ensure('unit diagonal', V.eq(V.at(c, i, i), 1, **exact(V)))
        for j in V.forall('j', 0, n):
            V.ensure('a correlation', V.and_(V.le(-1, V.at(c, i, j)), V.le(V.at(c, i, j), 1)))
            if V.fork(i == j): continue
            s = V.sum(0, k - 1, lambda m: E(i, m) * X(m) * E(j, m))
            V.ensure('the product of the eigenpairs, clipped', V.eq(V.at(c, i, j), V.If(s < -1, -1.0, V.If(s > 1, 1.0, s)), **T(V)))

def correlation(V, n):
    if not V.symbolic:
        import numpy as np
        a = V.array('data', (n + 3, n)); c = np.corrcoef(a.T) if n > 1 else np.ones((1, 1))
        V.assume(np.isfinite(c).all())
        return c
    a = V.array('corr', (n, n), lo=-1, hi=1)
    return V.generate((n, n), lambda i, j: V.If(i == j, 1.0, V.If(i < j, V.at(a, i, j), V.at(a, j, i))))

def rebuilt(V):
    if V.symbolic: V.summary(f'{M}:_eig_to_cor', lambda v, e, **k: V.some_array((e.shape[0], e.shape[0]), -1, 1, lambda x, i, j: V.implies(i == j, x == 1)), 'unit diagonal, entries in [-1, 1], inputs unchanged')
def denoised_cor(V):
    if V.symbolic: V.summary(f'{M}:_cor_denoise', lambda c, steps, k=None: (V.some_array(c.shape, -1, 1, lambda x, i, j: V.implies(i == j, x == 1)), None, {}), 'unit diagonal, entries in [-1, 1], input unchanged')

@contract('C16', 'denoised matrices')
def _(V):
    fitted(V); rebuilt(V)
    f = V.fn(f'{M}:_cor_denoise')
    n, steps = V.int('n', 1, small=5), V.int('steps', 1, small=20)
    c = correlation(V, n)
    if V.choice('with k', [0, 1]):
        k = V.int('k', 1, small=5)
        V.assume(k <= n)
    else: k = None
    fr = V.frozen(c)
    d, e, info = V.call(f, c, steps, k)
    V.unchanged('the correlations given are unchanged', fr)
    V.ensure('same shape', V.shape_is(d, n, n))
    for i in V.forall('i', 0, n):
        V.ensure('unit diagonal', V.eq(V.at(d, i, i), 1, **exact(V)))
        for j in V.forall('j', 0, n): V.ensure('a correlation', V.and_(V.le(-1, V.at(d, i, j)), V.le(V.at(d, i, j), 1)))

@contract('C16', 'denoised covariances')
def _(V):
    denoised_cor(V)
    f = V.fn(f'{M}:_cov_denoise')
    n, steps = V.int('n', 1, small=5), V.int('steps', 1, small=20)
    c = correlation(V, n); s = V.array('std', n, gt=0)
    a = V.generate((n, n), lambda i, j: V.at(c, i, j) * V.at(s, i) * V.at(s, j))
    k = None
    if V.choice('with k', [0, 1]):
        k = V.int('k', 1, small=5)
        V.assume(k <= n)
    fr = V.frozen(a); A = V.snapshot(a)
    d, info = V.call(f, a, steps, k)
    V.unchanged('the covariances given are unchanged', fr)
    floor = lambda x: V.If(x < 1e-6, 1e-6, x)
    for i in V.forall('i', 0, n):
        V.ensure('the variances are kept (or floored)', V.eq(V.at(d, i, i), floor(A(i, i)), **T(V)))
        for j in V.forall('j', 0, n):
            b = V.sqrt(floor(A(i, i))) * V.sqrt(floor(A(j, j)))
            V.ensure('no covariance above the product of the deviations', V.and_(V.le(-b, V.at(d, i, j)), V.le(V.at(d, i, j), b)))
