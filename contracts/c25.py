"""C25: Chu-Stinchcombe-White CUSUM statistic."""
from vc.contract import contract
F = 'quantfinlib.feature.structural_breaks.cusumtest:chu_stinchcombe_white_cusum_test'

def setup(V):
    n = V.int('n', 1)
    return n, V.array('y', n, gt=0), V.fn(F)

def tol(V): return {} if V.symbolic else dict(tol=1e-6, scale=1e-5)

def moves(V, Y, t): return V.any(1, t, lambda j: V.not_(V.eq(Y(j), Y(j - 1), **({} if V.symbolic else dict(tol=1e-12)))))

@contract('C25', 'statistic')
def _(V):
    n, y, f = setup(V)
    fr = V.frozen(y)
    Y = V.snapshot(y)
    S, crit = V.call(f, y)
    V.unchanged('the input is unchanged', fr)
    V.ensure('one statistic per time', V.and_(V.length(S) == n, V.length(crit) == n))
    ly = lambda j: V.log(Y(j))
    for t in V.forall('t', 0, n):
        if V.fork(t == 0):
            V.ensure('zero at the start', V.and_(V.eq(V.at(S, t), 0), V.eq(V.at(crit, t), 0)))
            continue
        V.assume(moves(V, Y, t))
        sig = V.sqrt(V.mean(1, t, lambda j: V.pow(ly(j) - ly(j - 1), 2)))
        dep = lambda k: V.div(ly(t) - ly(k), sig * V.sqrt(t - k))
        V.ensure('largest standardised departure', V.eq(V.at(S, t), V.max(0, t - 1, dep), **tol(V)))

@contract('C25', 'critical value')
def _(V):
    n, y, f = setup(V)
    Y = V.snapshot(y)
    S, crit = V.call(f, y)
    ly = lambda j: V.log(Y(j))
    for t in V.forall('t', 1, n):
        V.assume(moves(V, Y, t))
        sig = V.sqrt(V.mean(1, t, lambda j: V.pow(ly(j) - ly(j - 1), 2)))
        dep = lambda k: V.div(ly(t) - ly(k), sig * V.sqrt(t - k))
        best = V.argmax(0, t - 1, dep)
        V.lemma('the price moved', V.sum(1, t, lambda j: V.pow(ly(j) - ly(j - 1), 2)) > 0)
        if not V.symbolic:
            d = sorted((dep(k) for k in range(t)), reverse=True)
            if len(d) > 1 and d[0] - d[1] < 1e-9: continue   # rounding decides
        V.ensure('root of 4.6 plus the log distance to the earliest maximising start', V.eq(V.at(crit, t), V.sqrt(4.6 + V.log(t - best)), **tol(V)))

@contract('C25', 'unit and future')
def _(V):
    n, y, f = setup(V)
    c = V.real('c', gt=0) if V.symbolic else V.choice('c', [0.5, 2.0, 1000.0, 1e-4])
    z = V.array('z', n, gt=0)
    S, crit = V.call(f, y)
    S2, crit2 = V.call(f, V.mapped(y, lambda v: v * c))
    for t in V.forall('t', 1, n):
        Y = V.snapshot(y)
        V.assume(moves(V, Y, t))
        V.lemma('the price moved', V.sum(1, t, lambda j: V.pow(V.log(Y(j)) - V.log(Y(j - 1)), 2)) > 0)
        V.ensure('a change of unit changes nothing', V.eq(V.at(S, t), V.at(S2, t), **tol(V)))
        S3, crit3 = V.call(f, V.mix(y, z, t))
        V.ensure('the statistic does not depend on later data', V.eq(V.at(S, t), V.at(S3, t), **tol(V)))
        V.ensure('the critical value does not depend on later data', V.eqv(V.at(crit, t), V.at(crit3, t), **tol(V)))
