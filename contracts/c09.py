"""C09: bands are symmetric about their middle, ordered, and percent-b inverts them."""
from vc.contract import contract
from contracts.c07 import true_range
I = 'quantfinlib.feature.indicators'

def make(V, kind):
    """(bands, price, middle(t), deviation(t), multiplier, full(t), n)"""
    n = V.int('n', 1)
    k = V.choice('container', ['array', 'series'])
    w = V.int('window', 2 if kind == 'BollingerBands' else 1)
    cls = V.fn(f'{I}:{kind}')
    if kind == 'KeltnerBands':
        h, l, c = (V.array(x, n) for x in ('high', 'low', 'close'))
        m = V.real('multiplier', hi=5)
        wa = V.int('window_atr', 1)
        b = V.call(cls, V.wrap(h, k), V.wrap(l, k), V.wrap(c, k), window_atr=wa, window=w, multiplier=m)
        return b, c, (lambda t: V.ewm_mean(t, lambda j: V.at(c, j), 2 / (w + 1))), (lambda t: V.ewm_mean(t, lambda j: true_range(V, h, l, c, j), 1 / wa)), m, (lambda t: t >= 0), n, k, w
    a = V.array('x', n)
    x = V.wrap(a, k)
    f = lambda j: V.at(a, j)
    if kind == 'DonchianBands':
        b = V.call(cls, x, window=w)
        mx, mn = (lambda t: V.max(t - w + 1, t, f)), (lambda t: V.min(t - w + 1, t, f))
        return b, a, (lambda t: (mx(t) + mn(t)) / 2), (lambda t: (mx(t) - mn(t)) / 2), 1, (lambda t: t >= w - 1), n, k, w
    m = V.real('multiplier', hi=5)
    b = V.call(cls, x, window=w, multiplier=m)
    if kind == 'BollingerBands': return b, a, (lambda t: V.mean(t - w + 1, t, f)), (lambda t: V.std(t - w + 1, t, f)), m, (lambda t: t >= w - 1), n, k, w
    return b, a, (lambda t: V.ewm_mean(t, f, 2 / (w + 1))), (lambda t: V.ewm_std(t, f, 2 / (w + 1))), m, (lambda t: t >= 0), n, k, w

def bands(V, kind):
    b, a, mid, dev, m, full, n, k, w = make(V, kind)
    up, lo, md, bw, pb = (V.call(getattr(b, q)) for q in ('upper', 'lower', 'middle', 'bandwidth', 'percent_b'))
    for r in (up, lo, md, bw, pb): V.ensure('one value per input', V.length(r) == n)
    for t in V.forall('t', 0, n):
        U, L, M, B, P, x = V.at(up, t), V.at(lo, t), V.at(md, t), V.at(bw, t), V.at(pb, t), V.at(a, t)
        if full(t):
            s = dev(t)
            sc = dict(tol=1e-6, scale=V.scale * 1e-1) if not V.symbolic else {}
            K = [V.know('middle', V.eq(M, mid(t), **sc)),
                 V.know('upper at the multiple of the deviation', V.eq(U, mid(t) + m * s, **sc)),
                 V.know('lower at the same distance', V.eq(L, mid(t) - m * s, **sc)),
                 V.know('middle is defined', V.ok(mid(t)))]
            V.ensure('symmetric', V.eq(U - M, M - L, **sc), by=K)
            if kind != 'KeltnerBands': K.append(V.know('deviation is not negative', V.implies(V.ok(s), V.le(0, s))))
            if kind == 'DonchianBands': K.append(V.know('deviation is defined', V.ok(s)))
            if kind != 'KeltnerBands':
                V.ensure('ordered', V.implies(V.and_(V.ok(s), m >= 0), V.and_(V.le(L, M), V.le(M, U))), by=K)
            if V.symbolic or (V.isnan(M) or abs(M) > 1e-6 * V.scale):
                V.ensure('bandwidth relative to the middle', V.eqv(B, V.div(U - L, M), **sc), by=K)
            if V.symbolic or not (U - L) == (U - L) or abs(U - L) > 1e-3:
                V.ensure('percent-b is the position of the price', V.eqv(P, V.div(x - L, U - L), **(dict(tol=1e-4) if not V.symbolic else {})), by=K)
                V.ensure('percent-b inverts the bands', V.implies(V.ok(P), V.eq(L + P * (U - L), x, **(dict(tol=1e-4, scale=V.scale) if not V.symbolic else {}))))
            if kind == 'DonchianBands':
                K2 = [V.know('price within the rolling extremes', V.and_(V.le(V.min(t - w + 1, t, lambda j: V.at(a, j)), x), V.le(x, V.max(t - w + 1, t, lambda j: V.at(a, j)))))]
                V.ensure('upper is the maximum', V.eq(U, V.max(t - w + 1, t, lambda j: V.at(a, j)), **sc), by=K)
                V.ensure('lower is the minimum', V.eq(L, V.min(t - w + 1, t, lambda j: V.at(a, j)), **sc), by=K)
                V.ensure('contains the price', V.and_(V.le(L, x), V.le(x, U)), by=K + K2)
        else:
            for v in (U, L, M, B, P): V.ensure('missing before the window is full', V.isnan(v))

for _k in ('BollingerBands', 'EwmBollingerBands', 'KeltnerBands', 'DonchianBands'):
    contract('C09', _k)(lambda V, _k=_k: bands(V, _k))

@contract('C09', 'KeltnerBands ordered on valid bars')
def _(V):
    n = V.int('n', 1)
    l, hd, cd = V.array('low', n, gt=0), V.array('hd', n, lo=0), V.array('cd', n, lo=0, hi=1)
    h = V.generate(n, lambda j: V.at(l, j) + V.at(hd, j))
    c = V.generate(n, lambda j: V.at(l, j) + V.at(cd, j) * V.at(hd, j))
    m = V.real('multiplier', lo=0, hi=5)
    w, wa = V.int('window', 1), V.int('window_atr', 1)
    b = V.call(V.fn(f'{I}:KeltnerBands'), h, l, c, window_atr=wa, window=w, multiplier=m)
    up, lo, md = (V.call(getattr(b, q)) for q in ('upper', 'lower', 'middle'))
    for t in V.forall('t', 0, n):
        s = V.ewm_mean(t, lambda j: true_range(V, h, l, c, j), 1 / wa)
        K = [V.know('average true range is not negative', V.and_(V.ok(s), V.le(0, s))),
             V.know('upper', V.eq(V.at(up, t) - V.at(md, t), m * s, **({} if V.symbolic else dict(tol=1e-6, scale=V.scale)))), V.know('lower', V.eq(V.at(md, t) - V.at(lo, t), m * s, **({} if V.symbolic else dict(tol=1e-6, scale=V.scale)))),
             V.know('middle is defined', V.and_(V.ok(V.at(md, t)), V.ok(V.at(up, t)), V.ok(V.at(lo, t)))), m >= 0]
        V.ensure('ordered', V.and_(V.le(V.at(lo, t), V.at(md, t), tol=1e-6), V.le(V.at(md, t), V.at(up, t), tol=1e-6)), by=K)

@contract('C09', 'GenericBands')
def _(V):
    n = V.int('n', 1)
    k = V.choice('container', ['array', 'series'])
    x, mid, dev = V.array('x', n), V.array('mid', n), V.array('dev', n, lo=0)
    m = V.real('multiplier', hi=5)
    b = V.call(V.fn('quantfinlib.feature.indicators._bands:GenericBands'), V.wrap(x, k), V.wrap(mid, k), V.wrap(dev, k), m)
    up, lo, md, bw, pb = (V.call(getattr(b, q)) for q in ('upper', 'lower', 'middle', 'bandwidth', 'percent_b'))
    for t in V.forall('t', 0, n):
        M, s = V.at(mid, t), V.at(dev, t)
        V.ensure('middle', V.eq(V.at(md, t), M)); V.ensure('upper', V.eq(V.at(up, t), M + m * s)); V.ensure('lower', V.eq(V.at(lo, t), M - m * s))
        if V.symbolic or (abs(M) > 1e-6 and abs(m * s) > 1e-6):
            V.ensure('bandwidth', V.eqv(V.at(bw, t), V.div(2 * m * s, M))); V.ensure('percent-b', V.eqv(V.at(pb, t), V.div(V.at(x, t) - (M - m * s), 2 * m * s), **({} if V.symbolic else dict(tol=1e-5))))
