"""C06: container, length, index; equal values in both containers; inputs unchanged; mixtures rejected."""
from vc.contract import contract
from contracts.features import *

def small(V): return {} if V.symbolic else dict(tol=1e-9, scale=V.scale)

def keeps(V, inputs, ps, extra, run, names, edge=False):
    n = V.int('n', 1)
    kw = params(V, ps, n, extra)
    if edge: V.assume(kw['window'] <= n)
    by_name = V.choice('passed', ['by position', 'by name'])
    data = [V.array(i, n, nan=True, gt=0 if pos else None) for i, pos in inputs]
    series = [V.series(V.copy(a)) for a in data]
    got = {}
    for kind, xs in (('array', data), ('series', series)):
        before = V.frozen(*xs)
        got[kind] = run(V, xs, kw, [i for i, _ in inputs] if by_name == 'by name' else None)
        for what, r in zip(names, got[kind]):
            if kind == 'array': V.ensure(f'{what}: array for arrays, same length', V.and_(V.is_array(r), V.is_array(r) and V.shape_is(r, n)))
            else: V.ensure(f'{what}: series on the same index for series', V.and_(V.is_series(r), V.is_series(r) and V.like(r, xs[0])))
        V.unchanged(f'inputs unchanged ({kind})', before)
    for t in V.forall('t', 0, n):
        for what, r, s in zip(names, got['array'], got['series']): V.ensure(f'{what}: equal values in both containers', V.eqv(V.at(r, t), V.at(s, t), **small(V)))

def rejects(V, inputs, ps, extra, run, edge=False):
    n = V.int('n', 1)
    kw = params(V, ps, n, extra)
    if edge: V.assume(kw['window'] <= n)
    data = [V.array(i, n, nan=True, gt=0 if pos else None) for i, pos in inputs]
    kinds = [V.choice('container of ' + i, ['array', 'series', 'list', 'number', 'none']) for i, _ in inputs]
    V.assume(any(k not in ('array', 'series') for k in kinds) or len(set(kinds)) > 1)
    conv = {'array': lambda a: a, 'series': V.series, 'list': lambda a: [1.0, 2.0, 3.0], 'number': lambda a: 1.5, 'none': lambda a: None}
    k, e = V.outcome(run, V, [conv[q](a) for q, a in zip(kinds, data)], kw, None)
    V.ensure('a mixture of containers, or another type, is rejected', k == 'raise' and isinstance(e, (TypeError, ValueError)))

def runner(path):
    def run(V, xs, kw, names):
        f = V.fn(path)
        return [V.call(f, **dict(zip(names, xs)), **kw)] if names else [V.call(f, *xs, **kw)]
    return run

def _feature(name):
    path, inputs, ps, extra = FEATURES[name]
    slow = name == 'get_edge_spread'
    contract('C06', name, **({'conc_factor': 0.4} if slow else {}))(lambda V: keeps(V, inputs, ps, extra, runner(path), [name], slow))
    contract('C06', name + ' rejects', conc_factor=0.5, maxpaths=2000)(lambda V: rejects(V, inputs, ps, extra, runner(path), slow))
for _n in FEATURES: _feature(_n)

def band_runner(name, mult):
    def run(V, xs, kw, names):
        f = V.fn(f'{I}:{name}')
        b = V.call(f, **dict(zip(names, xs)), **kw) if names else V.call(f, *xs, **kw)
        return [V.call(getattr(b, q)) for q in METHODS]
    return run

def _band(name):
    inputs, ps, mult = BANDS[name]
    contract('C06', name)(lambda V: keeps(V, inputs, ps, {}, band_runner(name, mult), METHODS))
    contract('C06', name + ' rejects', conc_factor=0.5)(lambda V: rejects(V, inputs, ps, {}, band_runner(name, mult)))
for _n in BANDS: _band(_n)
