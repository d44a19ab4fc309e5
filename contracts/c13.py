"""C13: correlation to distance conversions."""
from vc.contract import contract
D = 'quantfinlib.distance.correlation'
DM = 'quantfinlib.distance.distance_matrix'
METHODS = ['angular', 'abs_angular', 'squared_angular']

def clip(V, c): return V.If(c < -1, -1.0, V.If(c > 1, 1.0, c * 1.0))
def conv(V, m, c):
    c = clip(V, c)
    return V.sqrt({'angular': (1 - c) / 2, 'abs_angular': 1 - V.abs(c), 'squared_angular': 1 - c * c}[m])
def eq(V, a, b): return V.eq(a, b, **({} if V.symbolic else dict(tol=1e-7, scale=1)))

def symmetric(V, name, n):
    """every symmetric matrix with unit diagonal"""
    a = V.array(name, (n, n), **({} if V.symbolic else dict(lo=-1.2, hi=1.2)))
    return V.generate((n, n), lambda i, j: V.If(i == j, 1.0, V.If(i < j, V.at(a, i, j), V.at(a, j, i))))

@contract('C13', 'scalar conversions')
def _(V):
    m = V.choice('method', METHODS)
    f = V.fn(f'{D}:corr_to_{m}_dist')
    c = V.real('c') if V.symbolic else V.choice('c', [-3.0, -1.0000001, -1.0, -0.5, 0.0, 0.3, 0.99, 1.0, 1.0000001, 7.0])
    d = V.call(f, c)
    V.ensure('conversion of the clipped correlation', eq(V, d, conv(V, m, c)))
    V.ensure('between zero and one', V.or_(V.isnan(d), V.and_(V.le(0, d), V.le(d, 1))))
    b = V.real('b') if V.symbolic else V.choice('b', [-3.0, -1.0, -0.25, 0.0, 0.6, 1.0, 2.0])
    e = V.call(f, b)
    if m == 'angular':
        if V.fork(b <= c): V.ensure('a larger correlation is never further away', V.le(d, e))
    elif V.fork(V.abs(b) <= V.abs(c)): V.ensure('a stronger correlation is never further away', V.le(d, e))

@contract('C13', 'matrix conversions')
def _(V):
    m = V.choice('method', METHODS)
    entry = V.choice('entry', ['dispatch', 'direct'])
    n = V.int('n', 2 if entry == 'dispatch' else 1, small=5)
    c = symmetric(V, 'corr', n)
    fr = V.frozen(c); C = V.snapshot(c)
    d = V.call(V.fn(f'{DM}:corr_to_dist'), c, m) if entry == 'dispatch' else V.call(V.fn(f'{D}:corr_to_{m}_dist'), c)
    V.unchanged('the input is unchanged', fr)
    V.ensure('an array of the same shape', V.and_(V.is_array(d), V.shape_is(d, n, n)))
    for i in V.forall('i', 0, n):
        V.ensure('exactly zero diagonal', V.eq(V.at(d, i, i), 0, **({} if V.symbolic else dict(tol=0))))
        for j in V.forall('j', 0, n):
            V.ensure('conversion of each cell', eq(V, V.at(d, i, j), conv(V, m, C(i, j))))
            V.ensure('symmetric', V.eq(V.at(d, i, j), V.at(d, j, i)))
            V.ensure('between zero and one', V.and_(V.le(0, V.at(d, i, j)), V.le(V.at(d, i, j), 1)))

@contract('C13', 'frames')
def _(V):
    m = V.choice('method', METHODS)
    n = V.int('n', 2, small=5)
    c = symmetric(V, 'corr', n)
    x = V.frame(c, None)
    fr = V.frozen(x); C = V.snapshot(c)
    d = V.call(V.fn(f'{DM}:corr_to_dist'), x, m)
    V.unchanged('the input is unchanged', fr)
    V.ensure('a frame with the labels of the input', V.like(d, x))
    for i in V.forall('i', 0, n):
        for j in V.forall('j', 0, n): V.ensure('conversion of each cell', eq(V, V.at(d, i, j), conv(V, m, C(i, j))))

@contract('C13', 'rejected matrices')
def _(V):
    m = V.choice('method', METHODS)
    n, k = V.int('n', 1, small=3), V.int('k', 1, small=3)
    if V.symbolic: a = V.array('corr', (n, k))
    else:
        a = V.array('corr', (n, k), lo=-1, hi=1)
        if n == k and V.choice('repair', [0, 1, 1]): a = V.generate((n, n), lambda i, j: 1.0 if i == j and not (i == 0 and V.choice('spoil', [0, 0, 1])) else V.at(a, min(i, j), max(i, j)))
        a = V.copy(a)
        if V.choice('drift', [0, 0, 1]): a[0, k - 1] += 1e-3
    o, r = V.outcome(V.fn(f'{D}:corr_to_{m}_dist'), a)
    A = V.snapshot(a)
    near = lambda i, j: V.abs(A(i, j) - A(j, i)) <= 1e-8 + 1e-5 * V.abs(A(j, i))
    if V.fork(n == k):
        if o == 'ok':
            for i in V.forall('i', 0, n):
                V.ensure('a unit diagonal is required', V.eq(A(i, i), 1, **({} if V.symbolic else dict(tol=0))))
                for j in V.forall('j', 0, n): V.ensure('symmetry is required', near(i, j))
        else:
            good = V.all(0, n - 1, lambda i: V.and_(V.eq(A(i, i), 1, **({} if V.symbolic else dict(tol=0))), V.all(0, n - 1, lambda j: near(i, j))))
            V.ensure('rejected only if invalid', V.not_(good))
            V.ensure('rejected by an assertion', isinstance(r, AssertionError))
    else: V.ensure('not square is rejected', o == 'raise')

@contract('C13', 'unknown methods')
def _(V):
    name = V.choice('name', ['', 'Angular', 'absangular', 'squared', 'euclid', None])
    n = V.int('n', 1, small=4)
    c = symmetric(V, 'corr', n)
    o, r = V.outcome(V.fn(f'{DM}:corr_to_dist'), c, name)
    V.ensure('an unknown conversion is rejected', o == 'raise')
    o, r = V.outcome(V.fn(f'{DM}:get_corr_distance_matrix'), c, 'pearson', name)
    V.ensure('an unknown conversion is rejected', o == 'raise')
    o, r = V.outcome(V.fn(f'{DM}:get_corr_distance_matrix'), c, name if name else 'kendal', 'angular')
    V.ensure('an unknown correlation is rejected', o == 'raise')

def data(V):
    n, k = V.int('n', 3, small=8), V.int('k', 2, small=4)
    a = V.array('data', (n, k))
    if not V.symbolic:
        if any(len(set(a[:, j])) < 2 for j in range(k)): V.assume(False)
    return n, k, a

@contract('C13', 'distances of data')
def _(V):
    m, cm = V.choice('method', METHODS), V.choice('correlation', ['pearson', 'spearman'])
    n, k, a = data(V)
    box = V.choice('container', ['array', 'frame'])
    x = V.frame(a, ['c%d' % j for j in range(k)] if not V.symbolic else None) if box == 'frame' else a
    fr = V.frozen(x)
    C = V.corr_matrix(a, cm)
    d = V.call(V.fn(f'{DM}:get_corr_distance_matrix'), x, cm, m)
    V.unchanged('the input is unchanged', fr)
    V.ensure('the container of the data', V.is_frame(d) if box == 'frame' else V.is_array(d))
    V.ensure('one row and column per column of the data', V.shape_is(V.values(d), k, k))
    if box == 'frame': V.ensure('labelled by the columns of the data', V.labels_are(d, x))
    for i in V.forall('i', 0, k):
        for j in V.forall('j', 0, k): V.ensure('conversion of the pairwise correlation', V.eq(V.at(d, i, j), conv(V, m, C(i, j)), **({} if V.symbolic else dict(tol=1e-5, scale=1))))

@contract('C13', 'transformed correlations')
def _(V):
    m = V.choice('method', METHODS)
    n, k, a = data(V)
    b = symmetric(V, 'replacement', k)
    seen = []
    C = V.corr_matrix(a, 'pearson')
    d = V.call(V.fn(f'{DM}:get_corr_distance_matrix'), a, 'pearson', m, lambda c: (seen.append(c), b)[1])
    V.ensure('the transformer is used once', len(seen) == 1)
    for i in V.forall('i', 0, k):
        for j in V.forall('j', 0, k):
            V.ensure('the transformer receives the correlations', eq(V, V.at(seen[0], i, j), C(i, j)))
            V.ensure('conversion of the transformed correlations', eq(V, V.at(d, i, j), conv(V, m, V.at(b, i, j))))

@contract('C13', 'pairs of samples')
def _(V):
    m = V.choice('method', METHODS)
    n = V.int('n', 3)
    x, y = V.array('x', n), V.array('y', n)
    if not V.symbolic and (len(set(x)) < 2 or len(set(y)) < 2): V.assume(False)
    d = V.call(V.fn(f'{D}:pair_{m}_distance'), x, y)
    e = V.call(V.fn(f'{D}:pair_{m}_distance'), y, x)
    V.ensure('conversion of the correlation', V.eq(d, conv(V, m, V.corr(x, y)), **({} if V.symbolic else dict(tol=1e-5, scale=1))))
    V.ensure('symmetric', V.eq(d, e, **({} if V.symbolic else dict(tol=1e-5, scale=1))))
    V.ensure('between zero and one', V.or_(V.isnan(d), V.and_(V.le(0, d), V.le(d, 1))))
