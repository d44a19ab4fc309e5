seed('c07_long_window_max', 'C07', [('feature/indicators/_base.py', 'ts.rolling(window=window).max()', 'ts.rolling(window=window, min_periods=min(window, 252)).max()')], '''
from quantfinlib.feature.indicators._base import rolling_max
x = pd.Series(np.arange(400.0))
r = rolling_max(x, window=300)
assert r[:299].isna().all() and (r[299:] == x[299:]).all(), "rolling maximum reported before its window is full"
''', 'a window above 252', 'rolling_max reports a maximum of fewer than window values when the window is longer than 252')
seed('c08_tick_threshold', 'C08', [('feature/indicators/_rsi.py', 'up = delta.where(delta > 0, 0).rolling(window=period).mean()', 'up = delta.where(delta > 1e-8, 0).rolling(window=period).mean()')], '''
from quantfinlib.feature.indicators._rsi import rsi
x = pd.Series(np.cumsum(np.random.default_rng(0).normal(size=80)) + 50)
a, b = rsi(x, 14), rsi(x * 1e-9, 14)
assert np.allclose(a[14:], b[14:]), "RSI changes with the unit of the price"
''', 'prices whose changes are below 1e-8 (a different unit)', 'small gains are ignored while small losses count, so RSI depends on the unit of the price')
seed('c11_edge_flat_bars', 'C11', [('feature/micro_structure/_price_sequences.py', 'tau = (p_h != p_l) | (p_l != c1)', 'tau = p_h != p_l')], '''
from quantfinlib.feature.micro_structure._price_sequences import _edge_spread
h = pd.Series([10.2, 10.4, 10.3, 10.6, 10.1, 10.5]); l = pd.Series([10.0, 10.1, 10.3, 10.2, 10.0, 10.2])
o = pd.Series([10.1, 10.2, 10.3, 10.3, 10.05, 10.3]); c = pd.Series([10.1, 10.25, 10.3, 10.5, 10.0, 10.4])
def ref():
    O, H, L, C = map(np.log, (o.values, h.values, l.values, c.values)); M = (H + L) / 2
    h1, l1, c1, m1 = H[:-1], L[:-1], C[:-1], M[:-1]; O, H, L, C, M = O[1:], H[1:], L[1:], C[1:], M[1:]
    tau = (H != L) | (L != c1)
    pt = tau.mean(); po = ((O != H) & tau).mean() + ((O != L) & tau).mean(); pc = ((c1 != h1) & tau).mean() + ((c1 != l1) & tau).mean()
    r1, r2, r3, r4, r5 = M - O, O - m1, M - c1, c1 - m1, O - c1
    d1, d3, d5 = (r - tau * r.mean() / pt for r in (r1, r3, r5))
    x1 = -4 / po * d1 * r2 - 4 / pc * d3 * r4; x2 = -4 / po * d1 * r5 - 4 / pc * d5 * r4
    s2 = (x2.var() * x1.mean() + x1.var() * x2.mean()) / (x1.var() + x2.var())
    return np.sqrt(abs(s2))
assert np.isclose(_edge_spread(h, l, o, c), ref()), "EDGE ignores a price change into a flat bar"
''', 'a bar with high equal to low whose price differs from the previous close', 'EDGE no longer counts a price move into a flat bar as trading')
