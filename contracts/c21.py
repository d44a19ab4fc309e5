"""C21: queries leave a fitted model alone, nothing changes the data it is given, and a fit does not depend on earlier fits."""
from vc.contract import contract
from contracts.c17 import MODELS, T, parameter
NAMES = ['stock', 'bond', 'gold']
PARAMS = ('drift', 'vol', 'mean', 'mrr', 'cor', 'L_', 'num_parameters_')
RECORD = ('fit_x0_', 'fit_xn_', 'fit_dt_', 'fit_num_rows_', 'fit_num_cols_', 'fit_column_names_', 'fit_container_dtype_', 'x0_default')
DATES = ('has_index_', 'name_', 'min_', 'max_', 'freq_')
MISSING = object()

def attributes(m):
    d = {k: getattr(m, k, MISSING) for k in PARAMS + RECORD}
    i = getattr(m, 'fit_index_', None)
    d.update({'index ' + k: getattr(i, k, MISSING) for k in DATES})
    return d

def freeze(V, m): return {k: (v, V.snapshot(v), V.shape(v)) if V.is_array(v) else (v, None, None) for k, v in attributes(m).items()}

def agree(V, name, old, new, exact=True):
    """the frozen attributes of a model agree with those of another"""
    for k, (b, g, sb) in new.items():
        a, f, sa = old[k]
        what = f'{name}: {k}'
        if V.is_array(a) != V.is_array(b): V.ensure(what, False)
        elif V.is_array(a):
            V.ensure(what, len(sa) == len(sb))
            if len(sa) != len(sb): continue
            V.ensure(what, V.and_(*[V.eq(sa[d], sb[d]) for d in range(len(sa))]))
            if len(sa) == 2:
                for i in V.forall('i', 0, sb[0]):
                    for j in V.forall('j', 0, sb[1]): V.ensure(what, V.same(f(i, j), g(i, j)))
            else:
                for i in V.forall('i', 0, sb[0]): V.ensure(what, V.same(f(i), g(i)))
        elif a is b: V.ensure(what, True)
        elif V.is_number(a) and V.is_number(b): V.ensure(what, V.same(a, b))
        else: V.ensure(what, type(a) is type(b) and a == b)

def data(V, kind, name, container, nv, dated=False):
    """a positive path in the container; usable for every model"""
    n = V.int(f'rows {name}', 4, small=8)
    a = V.array(name, (n, nv), gt=0)
    if not V.symbolic:
        import numpy as np
        V.assume(n >= nv + 4 and all(np.std(np.diff(a[:, k])) > 1e-3 for k in range(nv)))
        d = np.diff(np.log(a), axis=0) if kind == 'gbm' else np.diff(a, axis=0)
        V.assume(nv == 1 or np.linalg.eigvalsh(np.corrcoef(d, rowvar=False)).min() > 1e-4)
    if container == 'array': return a
    ix = V.dates(f'dates {name}', n, 'D', index_name='when') if dated else None
    if container == 'series': return V.make_series(V.column(a, 0), ix, 'stock' + name)
    return V.make_frame(a, ix, [s + name for s in NAMES[:nv]])

def columns(V, container, name='columns'):
    if container == 'series': return 1
    if container == 'frame': return V.choice(name, [1, 2])
    return V.int(name, 1, small=3)

def dt_of(V, name, given=True):
    if not given: return None
    return V.real(name, gt=0) if V.symbolic else V.choice(name, [1 / 252, 0.1, 1.0])

def summarised_fit(V, kind):
    """Scoring and sampling see the parameters after a fit only: any values, one per column (C19 proves which)."""
    if not V.symbolic: return
    def fit_np(self, x, dt):
        nv = x.shape[1]
        for k in MODELS[kind][1]: setattr(self, k, V.array(f'fitted {k}', (1, nv), gt=0))
        self.cor = self.L_ = None
        if V.fork(nv > 1): self.cor, self.L_ = V.array('fitted cor', (nv, nv)), V.array('fitted L', (nv, nv))
        self.num_parameters_ = V.int('parameters', 1)
        return self
    V.summary(f'{MODELS[kind][0]}._fit_np', fit_np, 'sets the parameters of each column, the correlation and the number of parameters, and nothing else')

def fitted(V, kind, container, nv, dated, whole=False):
    x = data(V, kind, 'x', container, nv, dated)
    if not whole: summarised_fit(V, kind)
    m = V.call(V.fn(MODELS[kind][0]))
    fr = V.frozen(x)
    o, m = V.outcome(m.fit, x, dt_of(V, 'dt', not dated))
    V.unchanged('fitting leaves the data alone', fr)
    V.assume(o == 'ok')                    # which data cannot be fitted: C19
    return m

def model(V, kind, container, nv, dated, whole=False):
    """fitted on the container, or never fitted"""
    if container != 'parameters': return fitted(V, kind, container, nv, dated, whole)
    return V.call(V.fn(MODELS[kind][0]), **{k: parameter(V, k, nv) for k in MODELS[kind][1]})

def scoring(kind):
    @contract('C21', f'scoring {kind}')
    def _(V):
        container = V.choice('fitted on', ['array', 'series', 'frame', 'parameters'])
        nv = columns(V, container)
        m = model(V, kind, container, nv, container in ('series', 'frame'))
        # any data of as many columns, in any container
        other = V.choice('scored on', ['array', 'frame'] if container != 'frame' else ['frame', 'array'])
        if other == 'frame' and container not in ('series', 'frame'): V.assume(nv == 1); y = data(V, kind, 'y', 'series', 1, True)
        else: y = data(V, kind, 'y', other, nv, other == 'frame')
        old, fr = freeze(V, m), V.frozen(y)
        what = V.choice('score', ['nll', 'aic', 'bic'])
        o, r = V.outcome(getattr(m, what), y, dt_of(V, 'dt of y', other == 'array'))
        agree(V, 'scoring leaves the model alone', old, freeze(V, m))
        V.unchanged('scoring leaves the data alone', fr)

    @contract('C21', f'sampling {kind}')
    def _(V):
        container = V.choice('fitted on', ['array', 'series', 'frame', 'parameters'])
        nv = columns(V, container)
        m = model(V, kind, container, nv, container in ('series', 'frame'))
        n, P = V.int('steps', 1, small=5), {'series': 1, 'frame': 2}.get(container) or V.int('paths', 1, small=3)
        kw = V.choice('arguments', ['none', 'first', 'last', 'own', 'dt'] + (['labels'] if container in ('series', 'frame') else []))
        own = V.array('x0', nv, gt=0)
        old, fr = freeze(V, m), V.frozen(own)
        args = {'none': {}, 'first': dict(x0='first'), 'last': dict(x0='last', include_x0=False), 'own': dict(x0=own), 'dt': dict(dt=0.5),
                'labels': dict(label_start=V.timestamp('start'), label_freq='W', columns=['a', 'b', 'c'][:nv] if kw == 'labels' else None)}[kw]
        o, r = V.outcome(m.path_sample, num_steps=n, num_paths=P, random_state=3, **args)
        V.ensure('refused only without fit data', (o == 'raise') == (container == 'parameters' and kw in ('first', 'last')))
        agree(V, 'sampling leaves the model alone', old, freeze(V, m))
        V.unchanged('sampling leaves the start value alone', fr)

    @contract('C21', f'fit again {kind}')
    def _(V):
        first, second = V.choice('fits', [('array', 'array'), ('frame', 'array'), ('array', 'dated series'), ('dated series', 'frame'), ('parameters', 'series')])
        dated1, dated2 = first.startswith('dated'), second.startswith('dated')
        c1, c2 = first.split()[-1], second.split()[-1]
        m = model(V, kind, c1, columns(V, c1), dated1, whole=True)
        if first == 'array': V.outcome(m.path_sample, num_steps=2, random_state=1)
        nv = columns(V, c2, 'columns y')
        y = data(V, kind, 'y', c2, nv, dated2)
        dt = dt_of(V, 'dt of y', first == 'array' or V.choice('dt given', [0, 1]))
        fr = V.frozen(y)
        fresh = V.call(V.fn(MODELS[kind][0]))
        o1, m1 = V.outcome(m.fit, y, dt)
        V.unchanged('fitting leaves the data alone', fr)
        o2, m2 = V.outcome(fresh.fit, y, dt)
        V.ensure('refused for the same data', o1 == o2)
        if o1 == 'raise' or o2 == 'raise': return
        V.ensure('returns the model', m1 is m)
        agree(V, 'as on a fresh model', freeze(V, m2), freeze(V, m1))
for k in MODELS: scoring(k)
