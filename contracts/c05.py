"""C05: no look-ahead."""
from vc.contract import contract
from contracts.features import *

def causal(V, name, inputs, run, params_, extra=None):
    n = V.int('n', 1)
    k = V.choice('container', ['array', 'series'])
    kw = params(V, params_, n, extra)
    if name == 'get_edge_spread': V.assume(kw['window'] <= n)
    xs = [V.wrap(V.array(i, n, nan=True, gt=0 if pos else None), k) for i, pos in inputs]
    ys = [V.wrap(V.array(i + '_later', n, nan=True, gt=0 if pos else None), k) for i, pos in inputs]
    first = run(V, xs, kw)
    for t in V.forall('t', 0, n):
        second = run(V, [V.mix(x, y, t) for x, y in zip(xs, ys)], kw)
        for what, r, s in zip(first[0], first[1], second[1]):
            a, b = V.at(r, t), V.at(s, t)
            V.ensure(f'{what} at t unchanged by later data', V.eqv(a, b, **({} if V.symbolic else dict(tol=1e-6, scale=max(1e-3, V.scale * 1e-3)))))

def feature(V, name):
    path, inputs, ps, extra = FEATURES[name]
    causal(V, name, inputs, lambda V, xs, kw: ([name], [V.call(V.fn(path), *xs, **kw)]), ps, extra)

for _n in FEATURES:
    contract('C05', _n, **({'conc_factor': 0.6} if _n == 'get_edge_spread' else {}))(lambda V, _n=_n: feature(V, _n))

def band(V, name):
    inputs, ps, mult = BANDS[name]
    m = V.real('multiplier', hi=5) if mult else None
    def run(V, xs, kw):
        b = V.call(V.fn(f'{I}:{name}'), *xs, **kw, **({'multiplier': m} if mult else {}))
        return METHODS[:3], [V.call(getattr(b, q)) for q in METHODS[:3]]
    causal(V, name, inputs, run, ps)

for _n in BANDS: contract('C05', _n)(lambda V, _n=_n: band(V, _n))

@contract('C05', 'bandwidth and percent_b')
def _(V):
    """The derived band values use only the three series at the same time."""
    n = V.int('n', 1)
    k = V.choice('container', ['array', 'series'])
    m = V.real('multiplier', hi=5)
    xs = [V.wrap(V.array(i, n, nan=True), k) for i in ('x', 'mid', 'dev')]
    ys = [V.wrap(V.array(i + '_other', n, nan=True), k) for i in ('x', 'mid', 'dev')]
    G = V.fn('quantfinlib.feature.indicators._bands:GenericBands')
    b = V.call(G, *xs, m)
    for t in V.forall('t', 0, n):
        c = V.call(G, *[V.mix(x, y, t) for x, y in zip(xs, ys)], m)
        for q in METHODS[3:]: V.ensure(f'{q} at t unchanged by later data', V.eqv(V.at(V.call(getattr(b, q)), t), V.at(V.call(getattr(c, q)), t)))
