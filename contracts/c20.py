"""C20: labels and containers of simulated paths (the number of variates and paths is bounded by 2, the number of steps is not)."""
from vc.contract import contract
from contracts.c17 import MODELS
BM = 'quantfinlib.sim._bm:BrownianMotion'
NAMES = ['stock', 'bond', 'gold']
KINDS = ['unfitted', 'array', 'series', 'dated series', 'irregular series', 'frame', 'dated frame', 'irregular frame']

def fit_data(V, kind, nv):
    """data of the container kind, with its dates and their frequency"""
    n = V.int('rows', 4, small=9)
    V.assume(n >= nv + 3)
    a = V.array('data', (n, nv))
    if not V.symbolic:
        import numpy as np
        V.assume(all(np.std(np.diff(a[:, k])) > 1e-3 for k in range(nv)))
        if nv > 1: V.assume(np.linalg.eigvalsh(np.corrcoef(np.diff(a, axis=0), rowvar=False)).min() > 1e-4)
    if kind == 'array': return a, None, None, a
    freq = None
    if kind.startswith('dated'): freq = 'D' if V.symbolic else V.choice('freq', ['D', 'B', 'W-SUN', 'ME', 'QE-DEC', 'YE-DEC'])
    ix = V.dates('dates', n, freq, index_name='when') if kind.split()[0] in ('dated', 'irregular') else None
    if freq is not None and not V.symbolic:      # short indexes may match more than one frequency
        import pandas as pd
        freq = pd.infer_freq(ix)
        V.assume(freq is not None)
    if kind.endswith('series'): return V.make_series(V.column(a, 0), ix, 'stock'), ix, freq, a
    return V.make_frame(a, ix, NAMES[:nv]), ix, freq, a

def fitted(V, kind, nv):
    """(model, plain model of the same parameters, dates, frequency, values)"""
    if kind == 'unfitted':
        d, v = V.array('drift', nv), V.array('vol', nv, gt=0)
        mk = lambda: V.call(V.fn(BM), drift=d, vol=v)
        return mk(), mk(), None, None, None
    x, ix, freq, a = fit_data(V, kind, nv)
    m = V.call(V.fn(BM))
    o, m = V.outcome(m.fit, x, dt=0.25)
    V.assume(o == 'ok')                    # which data cannot be fitted: C19
    p = V.call(V.fn(BM), drift=m.drift, vol=m.vol, cor=m.cor)
    return m, p, ix, freq, a

def labelled(V, kind, m, p, ix, freq, values, nv, P, x0, give, seed=7):
    """one sample: give = the label arguments given; x0: None, 'first', 'last' or 'own'"""
    n = V.int('steps', 1, small=6)
    kw = {}
    start = V.timestamp('start') if 'start' in give else None
    if 'start' in give: kw['label_start'] = start
    if 'freq' in give: kw['label_freq'] = 'D'
    own = V.array('x0', nv)
    cols = ['a', 'b', 'c'][:nv] if 'columns' in give else None
    if cols is not None: kw['columns'] = list(cols)
    if 'drop' in give: kw['include_x0'] = False
    if x0 == 'own': kw['x0'] = own
    elif x0 is not None: kw['x0'] = x0
    dated = ix is not None or 'start' in give or 'freq' in give
    if start is None and ix is not None: start = V.last_date(ix) if x0 == 'last' else V.first_date(ix)
    f = 'D' if 'freq' in give else freq
    if not V.symbolic and f is not None and start is not None:
        import pandas as pd
        V.assume((start - pd.Timestamp('2019-01-01')).days + (n + 2) * (pd.date_range('2019-01-01', periods=9, freq=f)[-1] - pd.Timestamp('2019-01-01')).days / 8 < 60000)  # pandas dates end in 2262
    refused = (x0 in ('first', 'last') and kind == 'unfitted') or (dated and (start is None or f is None))
    o, s = V.outcome(m.path_sample, num_steps=n, num_paths=P, dt=0.5, random_state=seed, **kw)
    V.ensure('refused exactly without fit data to start from, or without a date or frequency for the labels', (o == 'raise') == refused)
    if o == 'raise': return
    # the values: those of a plain sample from the same start
    V0 = V.snapshot(values) if values is not None else None
    if x0 == 'own': first = V.snapshot(own)
    elif kind == 'unfitted': first = lambda v: 0.0
    elif x0 == 'last': first = lambda v: V0(values.shape[0] - 1, v)
    else: first = lambda v: V0(0, v)
    plain = V.call(p.path_sample, x0=V.generate(nv, first), num_steps=n, num_paths=P, dt=0.5, random_state=seed)
    Q = V.snapshot(plain)
    skip = 1 if 'drop' in give else 0
    rows = n + 1 - skip
    labels = dated or cols is not None or kind not in ('unfitted', 'array')
    base = cols or (NAMES[:nv] if kind not in ('unfitted', 'array') else (['S'] if nv == 1 else [f'S{k}' for k in range(nv)]))
    names = base if P == 1 else [f'{c}_{k}' for k in range(P) for c in base]
    if not labels:
        V.ensure('a plain array without labels', V.is_array(s) and V.shape_is(s, rows, nv * P))
        S = V.snapshot(s)
    elif len(names) == 1 and (kind == 'unfitted' or kind.endswith('series')):
        V.ensure('a series for one column', V.is_series(s) and s.name == names[0] and V.shape_is(V.values(s), rows))
        S1 = V.snapshot(s); S = lambda t, c: S1(t)
    else:
        V.ensure('a frame of the column names', V.is_frame(s) and V.columns_are(s, names) and V.shape_is(V.values(s), rows, nv * P))
        S = V.snapshot(s)
    if labels and dated: V.ensure('dates from the start by the frequency', V.dates_are(s.index, start, f, n + 1, skip, 'when' if ix is not None else None))
    for t in V.forall('t', 0, rows):
        for c in range(nv * P): V.ensure('the values of the plain sample', V.same(S(t, c), Q(t + skip, c)))
    for c in range(nv * P): V.ensure('from the requested start', V.eq(Q(0, c), first(c % nv), **({} if V.symbolic else dict(tol=1e-9, scale=1e-9))))

def dims(V, kind):
    nv = 1 if kind.endswith('series') else V.choice('variates', [1, 2])
    return nv, V.choice('paths', [1, 2])

GIVE = [(), ('start',), ('freq',), ('start', 'freq'), ('columns',), ('start', 'freq', 'columns'), ('freq', 'columns')]

def labels(kind):
    @contract('C20', f'labels {kind}', limit='at most 2 variates and 2 paths')
    def _(V):
        nv, P = dims(V, kind)
        give = V.choice('given', GIVE)
        labelled(V, kind, *fitted(V, kind, nv), nv, P, None, give)

    @contract('C20', f'start {kind}', limit='at most 2 variates and 2 paths')
    def _(V):
        nv, P = dims(V, kind)
        x0 = V.choice('x0', [None, 'first', 'last', 'own'])
        give = V.choice('given', [(), ('drop',), ('start', 'freq', 'drop')])
        labelled(V, kind, *fitted(V, kind, nv), nv, P, x0, give)
for k in KINDS: labels(k)

@contract('C20', 'unknown start')
def _(V):
    m, p, ix, freq, a = fitted(V, V.choice('kind', ['unfitted', 'array']), 1)
    o, s = V.outcome(m.path_sample, x0=V.choice('x0', ['begin', '', 'First', 'end']), num_steps=3)
    V.ensure('refused', o == 'raise')
