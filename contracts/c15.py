"""C15: covariance / correlation conversions and block correlation matrices."""
from vc.contract import contract
M = 'quantfinlib.math.cov'
def T(V): return {} if V.symbolic else dict(tol=1e-9, scale=1)
def exact(V): return {} if V.symbolic else dict(tol=0)

def clip(V, c): return V.If(c < -1, -1.0, V.If(c > 1, 1.0, c * 1.0))

def floor(V):
    """(keyword arguments, floor of the variances)"""
    if V.choice('floor', ['default', 'given']) == 'default': return {}, 1e-6
    r = V.real('cov_reg', gt=0) if V.symbolic else V.choice('cov_reg', [1e-6, 1e-3, 0.5, 4.0])
    return {'cov_reg': r}, r

def deviation(V, C, r, i): return V.sqrt(V.If(C(i, i) < r, r, C(i, i)))

@contract('C15', 'covariance to correlation')
def _(V):
    f = V.fn(f'{M}:_cov_to_cor')
    n = V.int('n', 1, small=5)
    a = V.array('cov', (n, n))
    kw, r = floor(V)
    fr = V.frozen(a); C = V.snapshot(a)
    cor, std = V.call(f, a, **kw)
    V.unchanged('the covariance is unchanged', fr)
    V.ensure('a square matrix and a vector', V.and_(V.shape_is(cor, n, n), V.shape_is(std, n)))
    for i in V.forall('i', 0, n):
        V.ensure('deviation of each variable', V.eq(V.at(std, i), deviation(V, C, r, i), **T(V)))
        for j in V.forall('j', 0, n):
            c = V.div(C(i, j), deviation(V, C, r, i) * deviation(V, C, r, j))
            V.ensure('clipped correlation', V.eq(V.at(cor, i, j), clip(V, c), **T(V)))
            V.ensure('a correlation', V.and_(V.le(-1, V.at(cor, i, j)), V.le(V.at(cor, i, j), 1)))

@contract('C15', 'symmetry')
def _(V):
    f = V.fn(f'{M}:_cov_to_cor')
    n = V.int('n', 1, small=5)
    a = V.array('cov', (n, n))
    s = V.generate((n, n), lambda i, j: V.If(i <= j, V.at(a, i, j), V.at(a, j, i)))
    cor, std = V.call(f, s)
    for i in V.forall('i', 0, n):
        for j in V.forall('j', 0, n): V.ensure('symmetric', V.eq(V.at(cor, i, j), V.at(cor, j, i), **exact(V)))

@contract('C15', 'correlation to covariance')
def _(V):
    f = V.fn(f'{M}:_cor_to_cov')
    n = V.int('n', 1, small=5)
    a, s = V.array('cor', (n, n)), V.array('std', n)
    fr = V.frozen(a, s); C, S = V.snapshot(a), V.snapshot(s)
    c = V.call(f, a, s)
    V.unchanged('the inputs are unchanged', fr)
    V.ensure('a square matrix', V.shape_is(c, n, n))
    for i in V.forall('i', 0, n):
        for j in V.forall('j', 0, n): V.ensure('correlation times the deviations', V.eq(V.at(c, i, j), C(i, j) * S(i) * S(j), **T(V)))

@contract('C15', 'round trip')
def _(V):
    f, g = V.fn(f'{M}:_cov_to_cor'), V.fn(f'{M}:_cor_to_cov')
    n = V.int('n', 1, small=5)
    a = V.array('cov', (n, n))
    kw, r = floor(V)
    C = V.snapshot(a)
    cor, std = V.call(f, a, **kw)
    back = V.call(g, cor, std)
    for i in V.forall('i', 0, n):
        for j in V.forall('j', 0, n):
            V.assume(V.and_(C(i, i) >= r, C(j, j) >= r))                         # nothing floored
            d = V.sqrt(C(i, i)) * V.sqrt(C(j, j))
            V.assume(V.and_(C(i, j) <= d, C(i, j) >= -d))                        # nothing clipped
            V.ensure('the covariance comes back', V.eq(V.at(back, i, j), C(i, j), **T(V)))

@contract('C15', 'blocks', limit='up to 4 blocks (of every size)')
def _(V):
    f = V.fn(f'{M}:_cor_block_diagonal')
    m = V.choice('blocks', [0, 1, 2, 3, 4])
    sizes = [V.int(f'size{k}', 0, small=4) for k in range(m)]
    vals = [V.real(f'value{k}', lo=-1, hi=1) for k in range(m)]
    cor = V.call(f, list(sizes), list(vals))
    total = sum(sizes)
    V.ensure('one row and column per variable', V.shape_is(cor, total, total))
    starts = [sum(sizes[:k]) for k in range(m + 1)]
    for i in V.forall('i', 0, total):
        for j in V.forall('j', 0, total):
            e = 0.0
            for k in range(m):
                e = V.If(V.and_(i >= starts[k], i < starts[k + 1], j >= starts[k], j < starts[k + 1]), vals[k], e)
            V.ensure('unit diagonal, block value inside a block, zero elsewhere', V.eq(V.at(cor, i, j), V.If(i == j, 1.0, e), **exact(V)))

@contract('C15', 'rejected blocks')
def _(V):
    f = V.fn(f'{M}:_cor_block_diagonal')
    a, b = V.choice('sizes', [0, 1, 2, 3]), V.choice('values', [0, 1, 2, 3])
    V.assume(a != b)
    o, r = V.outcome(f, [V.int(f'size{k}', 1, small=3) for k in range(a)], [V.real(f'value{k}', lo=-1, hi=1) for k in range(b)])
    V.ensure('sizes and values of different number are rejected', o == 'raise')
