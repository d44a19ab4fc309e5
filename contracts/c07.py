"""C07: moving averages, extremes, momentum, MACD and ATR equal their definitions."""
from vc.contract import contract
I = 'quantfinlib.feature.indicators'

def ts(V, name='x', n=None, **k):
    n = V.int('n', 1) if n is None else n
    return n, V.array(name, n, **k)

def rolling(V, name, stat, minw=1):
    n, a = ts(V)
    w = V.int('window', minw)
    x = V.wrap(a, V.choice('container', ['array', 'series']))
    r = V.call(V.fn(f'{I}:{name}'), x, window=w)
    V.ensure('one value per input', V.length(r) == n)
    for t in V.forall('t', 0, n):
        if t >= w - 1:
            V.ensure('value on a full window', V.eq(V.at(r, t), stat(V, t - w + 1, t, lambda j: V.at(a, j)), tol=1e-6))
        else:
            V.ensure('missing before the window is full', V.isnan(V.at(r, t)))

@contract('C07', 'rolling_mean')
def _(V): rolling(V, 'rolling_mean', lambda V, lo, hi, f: V.mean(lo, hi, f))
@contract('C07', 'rolling_std')
def _(V): rolling(V, 'rolling_std', lambda V, lo, hi, f: V.std(lo, hi, f), 2)
@contract('C07', 'rolling_max')
def _(V): rolling(V, 'rolling_max', lambda V, lo, hi, f: V.max(lo, hi, f))
@contract('C07', 'rolling_min')
def _(V): rolling(V, 'rolling_min', lambda V, lo, hi, f: V.min(lo, hi, f))

@contract('C07', 'rolling_mom')
def _(V):
    n, a = ts(V)
    w = V.int('window', 1)
    r = V.call(V.fn(f'{I}:rolling_mom'), V.wrap(a, V.choice('container', ['array', 'series'])), window=w)
    V.ensure('one value per input', V.length(r) == n)
    for t in V.forall('t', 0, n):
        if t >= w: V.ensure('average change over the window', V.eq(V.at(r, t), (V.at(a, t) - V.at(a, t - w)) / w))
        else: V.ensure('missing before the window is full', V.isnan(V.at(r, t)))

def alpha_of(span): return 2 / (span + 1)

@contract('C07', 'ewm_mean')
def _(V):
    n, a = ts(V)
    s = V.int('span', 1)
    r = V.call(V.fn(f'{I}:ewm_mean'), V.wrap(a, V.choice('container', ['array', 'series'])), span=s)
    for t in V.forall('t', 0, n):
        V.ensure('decaying average', V.eq(V.at(r, t), V.ewm_mean(t, lambda j: V.at(a, j), alpha_of(s))))

@contract('C07', 'ewm_std')
def _(V):
    n, a = ts(V)
    s = V.int('span', 1)
    r = V.call(V.fn(f'{I}:ewm_std'), V.wrap(a, V.choice('container', ['array', 'series'])), span=s)
    for t in V.forall('t', 0, n):
        V.ensure('decaying deviation', V.eq(V.at(r, t), V.ewm_std(t, lambda j: V.at(a, j), alpha_of(s)), tol=1e-5))

@contract('C07', 'ewm_mom')
def _(V):
    n, a = ts(V)
    s = V.int('span', 1)
    r = V.call(V.fn(f'{I}:ewm_mom'), V.wrap(a, V.choice('container', ['array', 'series'])), span=s)
    for t in V.forall('t', 0, n):
        if t >= 1: V.ensure('decaying average of changes', V.eq(V.at(r, t), V.ewm_mean(t, lambda j: V.at(a, j) - V.at(a, j - 1), alpha_of(s), first=1)))
        else: V.ensure('first value missing', V.isnan(V.at(r, t)))

@contract('C07', 'macd')
def _(V):
    n, a = ts(V)
    f, s = V.int('fast', 1), V.int('slow', 1)
    r = V.call(V.fn(f'{I}:macd'), V.wrap(a, V.choice('container', ['array', 'series'])), fast=f, slow=s)
    g = lambda j: V.at(a, j)
    for t in V.forall('t', 0, n):
        V.ensure('fast minus slow average', V.eq(V.at(r, t), V.ewm_mean(t, g, alpha_of(f)) - V.ewm_mean(t, g, alpha_of(s))))

@contract('C07', 'macd_signal')
def _(V):
    n, a = ts(V)
    f, s, q = V.int('fast', 1), V.int('slow', 1), V.int('signal', 1)
    r = V.call(V.fn(f'{I}:macd_signal'), V.wrap(a, V.choice('container', ['array', 'series'])), fast=f, slow=s, signal=q)
    g = lambda j: V.at(a, j)
    line = lambda k: V.ewm_mean(k, g, alpha_of(f)) - V.ewm_mean(k, g, alpha_of(s))
    for t in V.forall('t', 0, n):
        V.ensure('line minus its average', V.eq(V.at(r, t), line(t) - V.ewm_mean(t, line, alpha_of(q))))

def true_range(V, h, l, c, j):
    """largest of high-low, |high - previous close|, |low - previous close|"""
    hl = V.at(h, j) - V.at(l, j)
    return V.If(j >= 1, V.max2(hl, V.abs(V.at(h, j) - V.at(c, j - 1)), V.abs(V.at(l, j) - V.at(c, j - 1))), hl)

@contract('C07', 'average_true_range')
def _(V):
    n = V.int('n', 1)
    h, l, c = (V.array(k, n) for k in ('high', 'low', 'close'))
    w = V.int('window', 1)
    k = V.choice('container', ['array', 'series'])
    r = V.call(V.fn(f'{I}:average_true_range'), V.wrap(h, k), V.wrap(l, k), V.wrap(c, k), window=w)
    V.ensure('one value per input', V.length(r) == n)
    for t in V.forall('t', 0, n):
        V.ensure('decaying average of the true range', V.eq(V.at(r, t), V.ewm_mean(t, lambda j: true_range(V, h, l, c, j), 1 / w)))
