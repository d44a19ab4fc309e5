"""C14: information distances."""
from vc.contract import contract
I = 'quantfinlib.distance.information'
DM = 'quantfinlib.distance.distance_matrix'

def samples(V, lo=2):
    n = V.int('n', lo)
    x, y = V.array('x', n), V.array('y', n)
    if not V.symbolic: V.assume(len(set(x)) > 1 and len(set(y)) > 1)
    return n, x, y

def parts(V, x, y, b): return V.entropy(x, b), V.entropy(y, b), V.joint_entropy(x, y, b)
def mi(V, x, y, b, norm):
    hx, hy, h = parts(V, x, y, b)
    r = hx + hy - h
    return V.div(r, V.sqrt(hx * hy)) if norm else r
def vi(V, x, y, b, norm):
    hx, hy, h = parts(V, x, y, b)
    r = 2 * h - hx - hy
    return V.div(r, h) if norm else r
VALUE = {'mutual_info': mi, 'var_info': vi}
def same(V, a, b): return V.eqv(a, b, **({} if V.symbolic else dict(tol=1e-7, scale=1)))

@contract('C14', 'entropies')
def _(V):
    n, x, y = samples(V)
    b = V.int('bins', 1, small=9)
    k = V.choice('container', ['array', 'series'])
    fr = V.frozen(x, y)
    got = V.call(V.fn(f'{I}:compute_entropies'), V.wrap(x, k), V.wrap(y, k), b)
    V.unchanged('the samples are unchanged', fr)
    V.ensure('three entropies', len(got) == 3)
    for name, g, e in zip(('of x', 'of y', 'joint'), got, parts(V, x, y, b)): V.ensure('entropy ' + name, same(V, g, e))

for _m in VALUE:
    @contract('C14', _m)
    def _(V, _m=_m):
        n, x, y = samples(V)
        b = V.int('bins', 1, small=9)
        norm = V.choice('norm', [True, False])
        k = V.choice('container', ['array', 'series'])
        f = V.fn(f'{I}:{_m}')
        X, Y = V.wrap(x, k), V.wrap(y, k)
        fr = V.frozen(x, y)
        r = V.call(f, X, Y, b, norm)
        V.unchanged('the samples are unchanged', fr)
        V.ensure('combination of the entropies', same(V, r, VALUE[_m](V, x, y, b, norm)))
        V.ensure('symmetric', same(V, r, V.call(f, Y, X, b, norm)))
        if norm: V.ensure('normalised by default', same(V, r, V.call(f, X, Y, b)))

    @contract('C14', _m + ' default bins')
    def _(V, _m=_m):
        n, x, y = samples(V)
        norm = V.choice('norm', [True, False])
        f = V.fn(f'{I}:{_m}')
        if not V.symbolic:
            q = V.choice('relation', ['free', 'same', 'opposite', 'near'])
            if q != 'free': y = {'same': 2 * x + 1, 'opposite': -3 * x, 'near': -x + 1e-4 * y}[q]
            V.assume(len(set(y)) > 1)
        c = V.corr(x, y)
        b = rule(V, n, c)
        if not V.symbolic and (close_to_half(V, n, c) or b > 400): V.assume(False)
        r = V.call(f, x, y, None, norm)
        V.ensure('the bin count follows the sample size and the strength of correlation', same(V, r, VALUE[_m](V, x, y, b, norm)))
        V.ensure('symmetric', same(V, r, V.call(f, y, x, None, norm)))

def single(V, n):
    z = V.pow(8 + 324 * n + 12 * V.sqrt(36 * n + 729 * n * n), 1 / 3.0)
    return V.div(z, 6.0) + V.div(2.0, 3 * z) + 1.0 / 3
def double(V, n, c): return V.pow(2, -0.5) * V.sqrt(1 + V.sqrt(1 + V.div(24 * n, 1.0 - c * c)))
def flat(V, c): return V.abs(V.abs(c) - 1) < 1e-5
def rule(V, n, c): return V.round(single(V, n)) if V.fork(flat(V, c)) else V.round(double(V, n, c))
def close_to_half(V, n, c):
    v = single(V, n) if flat(V, c) else double(V, n, c)
    return abs(v - int(v) - 0.5) < 1e-6 or abs(abs(abs(c) - 1) - 1e-5) < 1e-9

@contract('C14', 'bin rule')
def _(V):
    n = V.int('n', 2, small=500)
    f = V.fn(f'{I}:_get_optimal_nb_bins')
    c = V.real('c', gt=-1, lt=1)
    v = single(V, n)
    if V.symbolic or abs(v - int(v) - 0.5) > 1e-9: V.ensure('bins for one sample', V.eq(V.call(f, n), V.round(v)))
    v = double(V, n, c)
    if V.symbolic or abs(v - int(v) - 0.5) > 1e-9: V.ensure('bins for two samples', V.eq(V.call(f, n, c), V.round(v)))
    V.ensure('symmetric in the sign of the correlation', V.eq(V.call(f, n, c), V.call(f, n, -c)))

@contract('C14', 'matrix', conc_factor=0.6)
def _(V):
    m = V.choice('method', ['var_info', 'mutual_info'])
    n, k = V.int('n', 2, small=9), V.int('k', 2, small=5)
    a = V.array('data', (n, k))
    if not V.symbolic: V.assume(all(len(set(a[:, j])) > 1 for j in range(k)))
    b = V.int('bins', 1, small=6)
    norm = V.choice('norm', [True, False])
    box = V.choice('container', ['array', 'frame'])
    X = V.frame(a, None if V.symbolic else ['c%d' % j for j in range(k)]) if box == 'frame' else a
    fr = V.frozen(X)
    r = V.call(V.fn(f'{DM}:get_info_distance_matrix'), X, m, bins=b, norm=norm)
    V.unchanged('the data is unchanged', fr)
    V.ensure('one row and column per column of the data', V.shape_is(V.values(r), k, k))
    V.ensure('labelled like the data', V.labels_are(r, X) if box == 'frame' else V.is_array(r))
    for i in V.forall('i', 0, k):
        V.ensure('diagonal', V.eq(V.at(r, i, i), 0 if m == 'var_info' else 1))
        for j in V.forall('j', 0, k):
            if V.fork(i < j) or V.fork(j < i):
                V.ensure('symmetric', same(V, V.at(r, i, j), V.at(r, j, i)))
                V.ensure('the value for the two columns', same(V, V.at(r, i, j), VALUE[m](V, V.column(a, i), V.column(a, j), b, norm)))

@contract('C14', 'unknown methods')
def _(V):
    k = V.int('k', 2, small=4)
    a = V.array('data', (5, k))
    o, r = V.outcome(V.fn(f'{DM}:get_info_distance_matrix'), a, V.choice('method', ['', 'mutualinfo', 'kl', None]))
    V.ensure('an unknown method is rejected', o == 'raise')
