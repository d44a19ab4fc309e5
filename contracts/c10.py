"""C10: OHLC volatility estimators."""
from vc.contract import contract
M = 'quantfinlib.feature.micro_structure'

def sq(x): return x * x
def lr(V, x, y): return V.log(x / y)

def terms(V, a):
    """per-bar terms"""
    H, L, O, C = ((lambda j, k=k: V.at(a[k], j)) for k in ('p_high', 'p_low', 'p_open', 'p_close'))
    return dict(
        hl=lambda j: sq(lr(V, H(j), L(j))) / (4 * V.log(2)),
        gk=lambda j: sq(lr(V, H(j), L(j))) / 2,
        gk2=lambda j: (2 * V.log(2) - 1) * sq(lr(V, C(j), O(j))),
        rs=lambda j: lr(V, H(j), C(j)) * lr(V, H(j), O(j)) + lr(V, L(j), C(j)) * lr(V, L(j), O(j)),
        rel=lambda j: C(j) / C(j - 1),
        oc=lambda j: sq(lr(V, O(j), C(j - 1))),
        co=lambda j: sq(lr(V, C(j), O(j - 1))))

# name: (inputs, first bar with a value minus (window - 1), minimal window, formula)
def f_cc(V, T, lo, t, w): return V.var(lo, t, T['rel'])
def f_hl(V, T, lo, t, w): return V.mean(lo, t, T['hl'])
def f_gk(V, T, lo, t, w): return V.mean(lo, t, lambda j: T['gk'](j) - T['gk2'](j))
def f_rs(V, T, lo, t, w): return V.mean(lo, t, T['rs'])
def f_yz(V, T, lo, t, w):
    k = V.div(0.34, 1.34 + V.div(w + 1, w - 1))
    return V.mean(lo, t, T['oc']) + k * V.mean(lo, t, T['co']) + (1 - k) * V.mean(lo, t, T['rs'])

EST = {'get_close_close_volatility': (('p_close',), 1, 2, f_cc), 'get_high_low_volatility': (('p_high', 'p_low'), 0, 1, f_hl),
       'get_garman_klass_volatility': (('p_high', 'p_low', 'p_open', 'p_close'), 0, 1, f_gk),
       'get_rogers_satchell_volatility': (('p_high', 'p_low', 'p_open', 'p_close'), 0, 1, f_rs),
       'get_yang_zhang_volatility': (('p_high', 'p_low', 'p_open', 'p_close'), 1, 2, f_yz)}

def formula(V, name):
    ins, first, minw, f = EST[name]
    n, w = V.int('n', 1), V.int('window', minw)
    a = V.bars(n)
    k = V.choice('container', ['array', 'series'])
    r = V.call(V.fn(f'{M}:{name}'), **{i: V.wrap(a[i], k) for i in ins}, window=w)
    V.ensure('one value per bar', V.length(r) == n)
    T = terms(V, a)
    for t in V.forall('t', 0, n):
        if t >= w - 1 + first: V.ensure('average of the per-bar terms of the window', V.eq(V.at(r, t), f(V, T, t - w + 1, t, w), tol=1e-7, **({} if V.symbolic else dict(scale=1e-4))))
        else: V.ensure('missing before the window is full', V.isnan(V.at(r, t)))

def sign(V, name):
    ins, first, minw, f = EST[name]
    n, w = V.int('n', 1), V.int('window', minw)
    a = V.bars(n)
    r = V.call(V.fn(f'{M}:{name}'), *[V.wrap(a[i], 'series') for i in ins], window=w)
    for t in V.forall('t', 0, n):
        if name == 'get_yang_zhang_volatility' and V.symbolic and V.fork(t >= w):
            T = terms(V, a)
            m = [V.mean(t - w + 1, t, T[q]) for q in ('oc', 'co', 'rs')]
            k = V.div(0.34, 1.34 + V.div(w + 1, w - 1))
            facts = [V.know(f'part {i} is not negative', V.and_(V.ok(x), x >= 0)) for i, x in enumerate(m)] + [V.know('weight between 0 and 1', V.and_(V.ok(k), k > 0, k < 1))]
            q = V.know('the weighted sum is not negative', m[0] + k * m[1] + (1 - k) * m[2] >= 0, by=facts)
            e = V.know('the value is the weighted sum', V.eq(V.at(r, t), m[0] + k * m[1] + (1 - k) * m[2]))
            V.ensure('never negative', V.or_(V.isnan(V.at(r, t)), V.le(0, V.at(r, t))), by=facts + [q, e])
            continue
        V.ensure('never negative', V.or_(V.isnan(V.at(r, t)), V.le(0, V.at(r, t), tol=1e-9)))

def units(V, name):
    ins, first, minw, f = EST[name]
    n, w = V.int('n', 1), V.int('window', minw)
    a = V.bars(n)
    c = V.real('c', gt=0)
    g = V.fn(f'{M}:{name}')
    r = V.call(g, **{i: V.wrap(a[i], 'series') for i in ins}, window=w)
    s = V.call(g, **{i: V.wrap(V.mapped(a[i], lambda v: v * c), 'series') for i in ins}, window=w)
    for t in V.forall('t', 0, n):
        V.ensure('a change of unit changes nothing', V.eq(V.at(r, t), V.at(s, t), tol=1e-6, **({} if V.symbolic else dict(scale=1e-4))))

for _n in EST:
    contract('C10', _n)(lambda V, _n=_n: formula(V, _n))
    if _n != 'get_garman_klass_volatility': contract('C10', _n + ' sign')(lambda V, _n=_n: sign(V, _n))
    contract('C10', _n + ' units')(lambda V, _n=_n: units(V, _n))
