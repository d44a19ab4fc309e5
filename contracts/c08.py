"""C08: RSI is the share of gains in [0, 100] and ignores units."""
from vc.contract import contract
I = 'quantfinlib.feature.indicators'

def setup(V):
    n = V.int('n', 1)
    a = V.array('x', n)
    p = V.int('period', 1)
    return n, a, p, V.choice('container', ['array', 'series'])

def gain(V, a): return lambda j: V.If(V.and_(j >= 1, V.at(a, j) > V.at(a, j - 1)), V.at(a, j) - V.at(a, j - 1), 0.0)
def loss(V, a): return lambda j: V.If(V.and_(j >= 1, V.at(a, j) < V.at(a, j - 1)), V.at(a, j - 1) - V.at(a, j), 0.0)

def definition(V, name, avg, first):
    n, a, p, k = setup(V)
    r = V.call(V.fn(f'{I}:{name}'), V.wrap(a, k), period=p)
    V.ensure('one value per input', V.length(r) == n)
    for t in V.forall('t', 0, n):
        v = V.at(r, t)
        if first(t, p):
            up, down = avg(V, t, p, gain(V, a)), avg(V, t, p, loss(V, a))
            lo = t - p + 1 if name == 'rsi' else 0
            nogain, noloss = V.all(lo, t, lambda j: V.eq(gain(V, a)(j), 0, tol=0)), V.all(lo, t, lambda j: V.eq(loss(V, a)(j), 0, tol=0))
            if name == 'ewm_rsi' and p == 1: nogain, noloss = V.eq(gain(V, a)(t), 0), V.eq(loss(V, a)(t), 0)   # only the last change has weight
            K = [V.know('averages exist', V.and_(V.ok(up), V.ok(down))),
                 V.know('average gain is not negative', V.le(0, up)), V.know('average loss is not negative', V.le(0, down)),
                 V.know('no gain exactly when the average gain is zero', V.iff(nogain, up <= 0)),
                 V.know('no loss exactly when the average loss is zero', V.iff(noloss, down <= 0)),
                 V.know('share of gains', V.eqv(v, V.div(100.0 * up, up + down), tol=1e-6))]
            V.ensure('missing exactly without movement', V.iff(V.isnan(v), V.and_(nogain, noloss)), by=K)
            V.ensure('in [0, 100]', V.implies(V.ok(v), V.and_(V.le(0, v), V.le(v, 100))), by=K)
            V.ensure('100 without losses', V.implies(V.and_(noloss, V.not_(nogain)), V.eq(v, 100.0)), by=K)
            V.ensure('0 without gains', V.implies(V.and_(nogain, V.not_(noloss)), V.eq(v, 0.0)), by=K)
        else:
            V.ensure('missing before the window is full', V.isnan(v))

def mean_avg(V, t, p, f): return V.mean(t - p + 1, t, f)
def ewm_avg(V, t, p, f): return V.ewm_mean(t, f, 2 / (p + 1))

@contract('C08', 'rsi')
def _(V): definition(V, 'rsi', mean_avg, lambda t, p: t >= p - 1)
@contract('C08', 'ewm_rsi')
def _(V): definition(V, 'ewm_rsi', ewm_avg, lambda t, p: t >= 0)

def transformed(V, name, avg, first):
    n, a, p, k = setup(V)
    kind = V.choice('change of units', ['scale', 'shift', 'mirror'])
    x = V.wrap(a, k)
    c = 1
    if kind == 'scale':
        c = V.real('c', gt=0, hi=50); V.hint_scale(c)
        y = V.mapped(x, lambda v: c * v)
    elif kind == 'shift':
        d = V.real('c')
        y = V.mapped(x, lambda v: v + d)
    else: y = V.mapped(x, lambda v: -v)
    f = V.fn(f'{I}:{name}')
    if not V.symbolic:     # differences that vanish only up to rounding are outside the real-number reading
        V.assume(all(abs(V.at(y, j) - V.at(y, j - 1)) > 1e-6 for j in range(1, n)))
    r, s = V.call(f, x, period=p), V.call(f, y, period=p)
    for t in V.forall('t', 0, n):
        v, u = V.at(r, t), V.at(s, t)
        if not first(t, p): continue
        up, down = avg(V, t, p, gain(V, a)), avg(V, t, p, loss(V, a))
        up2, down2 = avg(V, t, p, gain(V, y)), avg(V, t, p, loss(V, y))
        if kind == 'mirror': up2, down2 = down2, up2
        K = [V.know('averages exist', V.and_(V.ok(up), V.ok(down), V.ok(up2), V.ok(down2))), c > 0,
             V.know('average gain after the change', V.eq(up2, c * up, tol=1e-5)), V.know('average loss after the change', V.eq(down2, c * down, tol=1e-5)),
             V.know('share of gains', V.eqv(v, V.div(100.0 * up, up + down), tol=1e-6))]
        if kind == 'mirror': up2, down2 = down2, up2
        K.append(V.know('share of gains after the change', V.eqv(u, V.div(100.0 * up2, up2 + down2), tol=1e-6)))
        V.ensure(f'same values missing after {kind}', V.iff(V.isnan(v), V.isnan(u)), by=K)
        V.ensure(f'value after {kind}', V.implies(V.ok(v), V.eq(u, v if kind != 'mirror' else 100 - v, tol=1e-5)), by=K)

@contract('C08', 'rsi units')
def _(V): transformed(V, 'rsi', mean_avg, lambda t, p: t >= p - 1)
@contract('C08', 'ewm_rsi units')
def _(V): transformed(V, 'ewm_rsi', ewm_avg, lambda t, p: t >= 0)
