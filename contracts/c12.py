"""C12: trade-model features."""
from vc.contract import contract
M = 'quantfinlib.feature.micro_structure'

def setup(V, minw=1):
    n, w = V.int('n', 1), V.int('window', minw)
    p, q = V.array('p_close', n, gt=0), V.array('volume', n, gt=0)
    return n, w, (lambda j: V.at(p, j)), (lambda j: V.at(q, j)), p, q

def tol(V): return {} if V.symbolic else dict(tol=1e-6, scale=1e-4)

def check(V, name, per_bar, zero_missing):
    n, w, P, Q, p, q = setup(V)
    k = V.choice('container', ['array', 'series'])
    r = V.call(V.fn(f'{M}:{name}'), p_close=V.wrap(p, k), volume=V.wrap(q, k), window=w)
    V.ensure('one value per bar', V.length(r) == n)
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        V.ensure('never negative', V.or_(V.isnan(v), V.le(0, v)))
        if t >= w:
            lo = t - w + 1
            if zero_missing:
                still = V.any(lo, t, lambda j: V.eq(P(j), P(j - 1), **({} if V.symbolic else dict(tol=0))))
                if V.fork(still): V.ensure('missing in a window with an unchanged price', V.isnan(v)); continue
            V.ensure('average of the window', V.eq(v, V.mean(lo, t, lambda j: per_bar(V, P, Q, j)), **tol(V)))
        else: V.ensure('missing before the window is full', V.isnan(v))

LAM = {'get_kyle_lambda': (lambda V, P, Q, j: V.abs(P(j) - P(j - 1)) / Q(j), True),
       'get_amihud_lambda': (lambda V, P, Q, j: V.abs(P(j) / P(j - 1) - 1) / (Q(j) * P(j)), False),
       'get_hasbrouck_lambda': (lambda V, P, Q, j: V.abs(V.log(P(j) / P(j - 1))) / V.sqrt(Q(j) * P(j)), True)}
for _n, (_f, _z) in LAM.items(): contract('C12', _n)(lambda V, _n=_n, _f=_f, _z=_z: check(V, _n, _f, _z))

@contract('C12', 'get_vpin')
def _(V):
    n, w = V.int('n', 1), V.int('window', 1)
    q, x = V.array('volume', n, gt=0), V.array('x', n, lo=None)
    within = V.choice('buy volume within the volume', [False, True])
    if within:   # every such buy volume is a share of the volume
        x = V.array('share', n, lo=0, hi=1)
        b = V.generate((n,), lambda i: V.at(x, i) * V.at(q, i))
    else: b = x
    k = V.choice('container', ['array', 'series'])
    r = V.call(V.fn(f'{M}:get_vpin'), V.wrap(q, k), V.wrap(b, k), window=w)
    V.ensure('one value per bar', V.length(r) == n)
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        if t >= w - 1:
            lo = t - w + 1
            B, Q = (lambda j: V.at(b, j)), (lambda j: V.at(q, j))
            V.ensure('average order imbalance', V.eq(v, V.mean(lo, t, lambda j: V.abs(B(j) - (Q(j) - B(j))) / Q(j)), **tol(V)))
            if within: V.hint_bound(1); V.ensure('between zero and one', V.and_(V.le(0, v), V.le(v, 1, tol=1e-9)))
        else: V.ensure('missing before the window is full', V.isnan(v))

@contract('C12', 'estimate_buy_volume')
def _(V):
    n = V.int('n', 1)
    p, q, s = V.array('p_close', n, gt=0), V.array('volume', n, gt=0), V.array('sigma_p', n, gt=0)
    k = V.choice('container', ['array', 'series'])
    r = V.call(V.fn(f'{M}:estimate_buy_volume'), V.wrap(p, k), V.wrap(q, k), V.wrap(s, k))
    V.ensure('one value per bar', V.length(r) == n)
    P, Q, S = (lambda j: V.at(p, j)), (lambda j: V.at(q, j)), (lambda j: V.at(s, j))
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        if t >= 1:
            V.ensure('between zero and the volume', V.and_(V.le(0, v), V.le(v, Q(t))))
            if V.fork(V.eq(P(t), P(t - 1), **({} if V.symbolic else dict(tol=0)))): V.ensure('half the volume when the price is unchanged', V.eq(v, Q(t) / 2))
            elif V.fork(P(t) > P(t - 1)): V.ensure('at least half after a rise', V.le(Q(t) / 2, v))
            else: V.ensure('at most half after a fall', V.le(v, Q(t) / 2))
        else: V.ensure('missing without a previous price', V.isnan(v))
    for t in V.forall('t1', 1, n):
        for u in V.forall('t2', 1, n):
            z1, z2 = (P(t) - P(t - 1)) / S(t), (P(u) - P(u - 1)) / S(u)
            if V.fork(z1 <= z2): V.ensure('the share grows with the normalised price change', V.le(V.at(r, t) / Q(t), V.at(r, u) / Q(u)))
