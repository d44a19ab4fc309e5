"""C18: equal seeds, equal results; the global generator is left alone."""
from vc.contract import contract
from contracts.c17 import model, MODELS, T

def sample(V, m, nv, n, P, x0, dt, seed):
    g = V.rng_mark()
    x = V.call(m.path_sample, x0=x0, dt=dt, num_steps=n, num_paths=P, random_state=seed)
    V.ensure('the global generator is neither read nor changed', V.rng_untouched(g))
    return x, V.rng_streams(g)

def same_paths(V, kind, a, b, n, cols):
    A, B = V.snapshot(a), V.snapshot(b)
    V.ensure('equal seeds give paths of equal shape', V.and_(V.shape_is(a, n + 1, cols), V.shape_is(b, n + 1, cols)))
    for c in V.forall('column', 0, cols):
        if kind != 'ou':
            for t in V.forall('t', 0, n + 1): V.ensure('equal seeds give equal paths', V.same(A(t, c), B(t, c)))
        else: V.induction('equal seeds give equal paths', 0, n, lambda t: V.same(A(t, c), B(t, c)))

@contract('C18', 'sampling')
def _(V):
    kind = V.choice('model', list(MODELS))
    nv, P, n = V.int('variates', 1, small=3), V.int('paths', 1, small=3), V.int('steps', 1, small=5)
    with_cor = V.choice('correlated', [0, 1])
    m, pars, cor = model(V, kind, nv, with_cor)
    dt = V.real('dt', gt=0) if V.symbolic else V.choice('dt', [1 / 252, 0.1, 1.0, 2.5])
    x0 = V.array('x0', nv, **({'gt': 0} if kind == 'gbm' else {}))
    s1, s2 = V.int('seed', 0, small=99), V.int('other seed', 0, small=99)
    V.assume(s1 != s2)
    x, S1 = sample(V, m, nv, n, P, x0, dt, s1)
    y, S2 = sample(V, m, nv, n, P, x0, dt, s2)
    V.ensure('different seeds start different noise streams', V.streams_differ(S1, S2, x, y))
    V.rng_disturb()
    z, S3 = sample(V, m, nv, n, P, x0, dt, s1)
    same_paths(V, kind, x, z, n, nv * P)

@contract('C18', 'semi-random')
def _(V):
    n, P = V.int('steps', 5, small=12), V.int('paths', 1, small=3)
    vol = V.real('vol', gt=0) if V.symbolic else V.choice('vol', [0.05, 0.2, 1.0])
    drift = V.real('drift') if V.symbolic else V.choice('drift', [-0.1, 0.0, 0.3])
    dt = V.real('dt', gt=0) if V.symbolic else V.choice('dt', [1 / 252, 0.1])
    s1, s2 = V.int('seed', 0, small=99), V.int('other seed', 0, small=99)
    V.assume(s1 != s2)
    base = V.call(V.fn('quantfinlib.sim._bm:BrownianMotion'), drift=drift, vol=vol)
    m = V.call(V.fn('quantfinlib.sim._quasi_random:QuasiRandom'), lambda p: p * 3.0 - 1.0, 0.2, base)
    x0 = V.array('x0', 1)
    x, S1 = sample(V, m, 1, n, P, x0, dt, s1)
    y, S2 = sample(V, m, 1, n, P, x0, dt, s2)
    V.ensure('different seeds start different noise streams', V.streams_differ(S1, S2, x, y))
    V.rng_disturb()
    z, S3 = sample(V, m, 1, n, P, x0, dt, s1)
    same_paths(V, 'bm', x, z, n, P)

def distances(V, n):
    a = V.array('dist', (n, n), lo=0, **({} if V.symbolic else dict(hi=1)))
    return V.generate((n, n), lambda i, j: V.If(i == j, 0.0, V.If(i < j, V.at(a, i, j), V.at(a, j, i))))

@contract('C18', 'gap statistic')
def _(V):
    f = V.fn('quantfinlib.clustering.metrics:gap_statistic')
    n, nb = V.int('n', 2, small=8), V.int('references', 1, small=4)
    d = distances(V, n)
    lab = V.array('labels', n, kind='i', lo=0, hi=3)
    seed = V.int('seed', 0, small=99) if V.choice('with seed', [0, 1]) else None
    fr = V.frozen(d, lab)
    g = V.rng_mark()
    a, sa = V.call(f, d, lab, nb=nb, random_state=seed)
    V.ensure('the global generator is neither read nor changed', V.rng_untouched(g))
    V.unchanged('the inputs are unchanged', fr)
    V.rng_disturb()
    g = V.rng_mark()
    b, sb = V.call(f, d, lab, nb=nb, random_state=seed)
    V.ensure('the global generator is neither read nor changed', V.rng_untouched(g))
    V.ensure('equal inputs and seed give an equal gap', V.same(a, b))
    V.ensure('equal inputs and seed give an equal deviation', V.same(sa, sb))
