"""C11: spread and range estimators."""
from vc.contract import contract
M = 'quantfinlib.feature.micro_structure'

def sq(x): return x * x
def tol(V, t=1e-6, s=1e-3): return {} if V.symbolic else dict(tol=t, scale=s)

def hl(V, a, n): return (lambda j: V.at(a['p_high'], j)), (lambda j: V.at(a['p_low'], j))

def den(V): return 3 - 2 * V.sqrt(2)

def beta(V, H, L, lo, t):
    """window average of the two-bar sums of squared log ranges"""
    r2 = lambda j: sq(V.log(H(j) / L(j)))
    return V.mean(lo, t, lambda j: r2(j) + r2(j - 1))

def gamma(V, H, L, t): return sq(V.log(V.max2(H(t), H(t - 1)) / V.min2(L(t), L(t - 1))))

def cs_alpha(V, H, L, lo, t):
    a = (V.sqrt(2) - 1) * V.sqrt(beta(V, H, L, lo, t)) / den(V) - V.sqrt(gamma(V, H, L, t) / den(V))
    return V.If(a < 0, 0.0, a)

def cs(V, H, L, lo, t):
    e = V.exp(cs_alpha(V, H, L, lo, t))
    return 2 * (e - 1) / (e + 1)

def bp(V, H, L, lo, t):
    k2 = V.sqrt(8 / V.pi)
    s = (1 / V.sqrt(2) - 1) * V.sqrt(beta(V, H, L, lo, t)) / (k2 * den(V)) + V.sqrt(gamma(V, H, L, t) / (k2 * k2 * den(V)))
    return V.If(s < 0, 0.0, s)

RANGE = {'get_cowrin_schultz_spread': cs, 'get_becker_parkinson_volatility': bp}

def setup(V, name, container=None):
    n, w = V.int('n', 1), V.int('window', 1)
    a = V.bars(n)
    k = container or V.choice('container', ['array', 'series'])
    return n, w, a, V.call(V.fn(f'{M}:{name}'), V.wrap(a['p_high'], k), V.wrap(a['p_low'], k), window=w)

def formula(V, name):
    n, w, a, r = setup(V, name)
    V.ensure('one value per bar', V.length(r) == n)
    H, L = hl(V, a, n)
    for t in V.forall('t', 0, n):
        if t >= w: V.ensure('value on a full window', V.eq(V.at(r, t), RANGE[name](V, H, L, t - w + 1, t), **tol(V)))
        else: V.ensure('missing before the window is full', V.isnan(V.at(r, t)))

def inrange(V, name):
    n, w, a, r = setup(V, name, 'series')
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        if name == 'get_cowrin_schultz_spread': V.ensure('spread in [0, 2)', V.or_(V.isnan(v), V.and_(V.le(0, v, tol=1e-12), v < 2 if V.symbolic else v <= 2)))
        else: V.ensure('never negative', V.or_(V.isnan(v), V.le(0, v, tol=1e-12)))

def units(V, name):
    n, w, a, r = setup(V, name, 'series')
    c = V.real('c', gt=0)
    s = V.call(V.fn(f'{M}:{name}'), *[V.wrap(V.mapped(a[i], lambda v: v * c), 'series') for i in ('p_high', 'p_low')], window=w)
    for t in V.forall('t', 0, n):
        x, y = V.at(r, t), V.at(s, t)
        if t >= w: V.ensure('a change of unit changes nothing', V.eq(x, y, **tol(V)))
        else: V.ensure('missing before the window is full in every unit', V.and_(V.isnan(x), V.isnan(y)))

for _n in RANGE:
    contract('C11', _n)(lambda V, _n=_n: formula(V, _n))
    contract('C11', _n + ' range')(lambda V, _n=_n: inrange(V, _n))
    contract('C11', _n + ' units')(lambda V, _n=_n: units(V, _n))

# -- Roll
def roll(V, c, lo, t):
    d = lambda j: V.log(c(j)) - V.log(c(j - 1))
    return 2 * V.sqrt(V.abs(V.cov(lo, t, d, lambda j: d(j - 1))))

@contract('C11', 'get_roll_measure')
def _(V):
    n, w = V.int('n', 1), V.int('window', 2)
    a = V.array('p_close', n, gt=0)
    r = V.call(V.fn(f'{M}:get_roll_measure'), V.wrap(a, V.choice('container', ['array', 'series'])), window=w)
    V.ensure('one value per bar', V.length(r) == n)
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        if t >= w + 1: V.ensure('twice the root of the absolute autocovariance', V.eq(v, roll(V, lambda j: V.at(a, j), t - w + 1, t), **tol(V, 1e-5, 1e-1)))
        else: V.ensure('missing before the window is full', V.isnan(v))
        V.ensure('never negative', V.or_(V.isnan(v), V.le(0, v)))

@contract('C11', 'get_roll_measure units')
def _(V):
    n, w = V.int('n', 1), V.int('window', 2)
    a = V.array('p_close', n, gt=0)
    c = V.real('c', gt=0)
    f = V.fn(f'{M}:get_roll_measure')
    r = V.call(f, V.series(a), window=w)
    s = V.call(f, V.series(V.mapped(a, lambda v: v * c)), window=w)
    for t in V.forall('t', 0, n): V.ensure('a change of unit changes nothing', V.eq(V.at(r, t), V.at(s, t), **tol(V, 1e-5, 1e-1)))

@contract('C11', 'get_roll_impact')
def _(V):
    n, w = V.int('n', 1), V.int('window', 2)
    a, q = V.array('p_close', n, gt=0), V.array('volume', n, gt=0)
    k = V.choice('container', ['array', 'series'])
    r = V.call(V.fn(f'{M}:get_roll_impact'), V.wrap(a, k), V.wrap(q, k), window=w)
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        if t >= w + 1: V.ensure('Roll measure per traded value', V.eq(v, roll(V, lambda j: V.at(a, j), t - w + 1, t) / (V.at(q, t) * V.at(a, t)), **tol(V, 1e-5, 1e-1)))
        else: V.ensure('missing before the window is full', V.isnan(v))

# -- EDGE (Ardia, Guidotti, Kroencke)
def edge(V, a, lo, t, sign):
    """(missing, squared estimate) from the log prices of bars lo..t."""
    P = {k: (lambda j, k=k: V.log(V.at(a[k], j))) for k in ('p_high', 'p_low', 'p_open', 'p_close')}
    h, l, o, c = P['p_high'], P['p_low'], P['p_open'], P['p_close']
    m = lambda j: (h(j) + l(j)) / 2
    ne = lambda x, y: V.not_(V.eq(x, y))
    ind = lambda q: V.If(q, 1.0, 0.0)
    mean = lambda f: V.mean(lo + 1, t, f)
    tau = lambda j: V.or_(ne(h(j), l(j)), ne(l(j), c(j - 1)))
    pt = mean(lambda j: ind(tau(j)))
    po = mean(lambda j: ind(V.and_(ne(o(j), h(j)), tau(j)))) + mean(lambda j: ind(V.and_(ne(o(j), l(j)), tau(j))))
    pc = mean(lambda j: ind(V.and_(ne(c(j - 1), h(j - 1)), tau(j)))) + mean(lambda j: ind(V.and_(ne(c(j - 1), l(j - 1)), tau(j))))
    r1, r2, r3 = (lambda j: m(j) - o(j)), (lambda j: o(j) - m(j - 1)), (lambda j: m(j) - c(j - 1))
    r4, r5 = (lambda j: c(j - 1) - m(j - 1)), (lambda j: o(j) - c(j - 1))
    def dm(r):
        b = mean(r)
        return lambda j: r(j) - V.div(ind(tau(j)) * b, pt)
    d1, d3, d5 = dm(r1), dm(r3), dm(r5)
    x1 = lambda j: V.div(-4, po) * d1(j) * r2(j) - V.div(4, pc) * d3(j) * r4(j)
    x2 = lambda j: V.div(-4, po) * d1(j) * r5(j) - V.div(4, pc) * d5(j) * r4(j)
    e1, e2 = mean(x1), mean(x2)
    v1, v2 = V.var(lo + 1, t, x1, 0), V.var(lo + 1, t, x2, 0)
    return V.or_(V.eq(pt, 0), V.eq(po, 0), V.eq(pc, 0)), V.div(v2 * e1 + v1 * e2, v1 + v2)

def edge_setup(V, sign, c=None):
    n, w = V.int('n', 3), V.int('window', 3)
    V.assume(w <= n)
    a = V.bars(n)
    f = V.fn(f'{M}:get_edge_spread')
    run = lambda g, s: V.call(f, *[V.wrap(V.mapped(a[i], g) if g else a[i], 'series') for i in ('p_high', 'p_low', 'p_open', 'p_close')], window=w, sign=s)
    return n, w, a, run

@contract('C11', 'get_edge_spread', bounded='nested indicator means beyond the normal forms', conc_factor=2)
def _(V):
    sign = V.choice('sign', [False, True])
    n, w, a, run = edge_setup(V, sign)
    r = run(None, sign)
    V.ensure('one value per bar', V.length(r) == n)
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        if t >= w - 1:
            none, s2 = edge(V, a, t - w + 1, t, sign)
            s = V.sqrt(V.abs(s2))
            want = V.If(none, V.nan(), V.If(s2 < 0, -s, s) if sign else s)
            if not V.symbolic and not none and abs(s2) < 1e-7: continue
            V.ensure('published estimate on a full window', V.eqv(v, want, **tol(V, 1e-4, 1e-2)))
        else: V.ensure('missing before the window is full', V.isnan(v))

@contract('C11', 'get_edge_spread range', conc_factor=0.5)
def _(V):
    n, w, a, run = edge_setup(V, False)
    r, s = run(None, False), run(None, True)
    for t in V.forall('t', 0, n):
        x, y = V.at(r, t), V.at(s, t)
        V.ensure('never negative', V.or_(V.isnan(x), V.le(0, x)))
        V.ensure('the signed estimate has the magnitude of the unsigned one', V.eqv(V.abs(y), x))

@contract('C11', 'get_edge_spread units', bounded='follows from the formula, which is bounded', conc_factor=2)
def _(V):
    n, w, a, run = edge_setup(V, False)
    c = V.choice('c', [0.5, 2.0, 4.0, 16.0]) if not V.symbolic else V.real('c', gt=0)
    r, s = run(None, False), run(lambda v: v * c, False)
    for t in V.forall('t', 0, n): V.ensure('a change of unit changes nothing', V.eqv(V.at(r, t), V.at(s, t), **tol(V, 1e-4, 1e-1)))
