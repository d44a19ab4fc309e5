"""C22: frequency detection."""
from vc.contract import contract
F = 'quantfinlib._datatypes.timeseries'
FLAGS = [('YE', 'is_year_end'), ('YS', 'is_year_start'), ('QE', 'is_quarter_end'), ('QS', 'is_quarter_start'), ('ME', 'is_month_end'), ('MS', 'is_month_start')]
DURATION = {'D': (1, 365), 'B': (1, 252), 'W': (7, 365), 'M': (1, 12), 'ME': (1, 12), 'MS': (1, 12), 'Q': (1, 4), 'QE': (1, 4), 'QS': (1, 4), 'Y': (1, 1), 'YE': (1, 1), 'YS': (1, 1)}

def holder(V, ix, n, what):
    if what == 'index': return ix
    if what == 'series': return V.make_series(V.array('values', n), ix, 'x')
    return V.make_frame(V.array('values', (n, 2)), ix, ['a', 'b'])

@contract('C22', 'detection')
def _(V):
    V.merge_conditions()
    n = V.int('entries', 0, small=9)
    ix = V.any_dates('dates', n)
    x = holder(V, ix, n, V.choice('object', ['index', 'series', 'frame']))
    r = V.call(V.fn(f'{F}:time_series_freq'), x)
    if r is not None: V.ensure('only with three entries', n >= 3); V.ensure('a frequency with a duration', r in DURATION)
    if r is not None and r not in DURATION: return
    if V.fork(n < 3): V.ensure('none for two entries or fewer', r is None); return
    rules = []
    for name, flag in FLAGS:
        f = V.date_flag(ix, flag)
        c = V.count(0, n - 1, f)
        rules.append((name, V.and_(c >= 2, n - c <= 2)))
    day = 86400 * 10**9
    stepd = V.date_steps(ix)              # nanoseconds from entry i to entry i + 1
    d = V.count(0, n - 2, lambda i: V.eq(stepd(i), day))
    rules.append(('D', V.and_(d >= 2, n - 1 - d <= 2)))
    b = V.count(0, n - 2, lambda i: V.or_(V.eq(V.int_div(stepd(i), day), 1), V.eq(V.int_div(stepd(i), day), 3)))
    rules.append(('B', 10 * b >= 9 * (n - 1)))
    w = V.count(0, n - 2, lambda i: V.eq(stepd(i), 7 * day))
    rules.append(('W', V.and_(w >= 2, n - 1 - w <= 2)))
    # the first match; the cases exclude each other and one of them always applies
    want = V.and_(*[V.not_(c) for name, c in rules[:[name for name, c in rules].index(r) if r is not None else len(rules)]])
    V.ensure('no earlier rule matches', want)
    if r is not None: V.ensure('the rule of the reported frequency matches', dict(rules)[r])

@contract('C22', 'other objects')
def _(V):
    n = V.int('entries', 0, small=9)
    what = V.choice('object', ['array', 'list', 'none', 'text', 'plain series', 'plain frame'])
    x = {'list': [1, 2, 3], 'none': None, 'text': 'D'}.get(what)
    if what == 'array': x = V.array('values', n)
    if what == 'plain series': x = V.series(V.array('values', n), index=None)
    if what == 'plain frame': x = V.frame(V.array('values', (n, 2)), ['a', 'b'], index=None)
    V.ensure('no frequency without a datetime index', V.call(V.fn(f'{F}:time_series_freq'), x) is None)

@contract('C22', 'calendar', bounded='dates of 2019 to 2024 and the index frequencies of pandas, sampled')
def _(V):
    import pandas as pd
    k = V.choice('frequency', ['D', 'B', 'W', 'ME', 'MS', 'QE', 'QS', 'YE', 'YS'])
    n = V.int('entries', 3, small=40)
    V.assume(n <= 200 and n >= {'D': 70, 'B': 25}.get(k, 3))
    ix = pd.date_range(V.timestamp('start'), periods=int(n), freq=k)
    ix.freq = None
    # gaps: entries removed inside a long series leave at most two odd steps
    want = k
    if k in ('ME', 'MS') and all(t.month % 12 in ((0,) if k == 'ME' else (1,)) for t in ix): want = None
    r = V.call(V.fn(f'{F}:time_series_freq'), ix)
    def ends(t, step): return (t + pd.Timedelta(days=1)).day == 1 and t.month % step == 0
    def starts(t, step): return t.day == 1 and t.month % step == 1 % step
    rules = [('YE', lambda t: ends(t, 12)), ('YS', lambda t: starts(t, 12)), ('QE', lambda t: ends(t, 3)), ('QS', lambda t: starts(t, 3)), ('ME', lambda t: ends(t, 1)), ('MS', lambda t: starts(t, 1))]
    first = next((name for name, f in rules if (c := sum(f(t) for t in ix)) >= 2 and n - c <= 2), None)
    V.ensure('the calendar rule that matches first', r == first if first else r == k)

@contract('C22', 'durations')
def _(V):
    f = V.fn(f'{F}:time_series_freq_to_duration')
    k = V.choice('frequency', list(DURATION))
    r = V.call(f, k)
    V.ensure('the documented duration', V.eq(r, V.div(*[V.number(v) for v in DURATION[k]])))
    V.ensure('positive', r > 0)

@contract('C22', 'unknown durations')
def _(V):
    f = V.fn(f'{F}:time_series_freq_to_duration')
    k = V.choice('frequency', ['', 'd', 'w', 'A', 'H', 'min', 'BM', 'BME', '2D', 'Banana', 'None', None, 'W-SUN', 'QE-DEC'])
    V.ensure('none', V.call(f, k) is None)
