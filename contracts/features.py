"""All indicators and micro-structure features: inputs, parameters, and how to call them."""
I = 'quantfinlib.feature.indicators'
M = 'quantfinlib.feature.micro_structure'

# name: (path, [(input, positive)], [(int parameter, minimum)], extra keyword choices)
FEATURES = {}
def _f(mod, name, inputs, params, extra=None):
    FEATURES[name] = (f'{mod}:{name}', inputs, params, extra or {})

for _n, _m in (('rolling_mean', 1), ('rolling_std', 2), ('rolling_max', 1), ('rolling_min', 1), ('rolling_mom', 1)): _f(I, _n, [('ts', False)], [('window', _m)])
for _n in ('ewm_mean', 'ewm_std'): _f(I, _n, [('ts', False)], [('span', 1)])
_f(I, 'ewm_mom', [('ts', False)], [('span', 1), ('min_periods', 0)])
_f(I, 'average_true_range', [('high', False), ('low', False), ('close', False)], [('window', 1)])
_f(I, 'macd', [('ts', False)], [('fast', 1), ('slow', 1)])
_f(I, 'macd_signal', [('ts', False)], [('fast', 1), ('slow', 1), ('signal', 1)])
_f(I, 'rsi', [('ts', False)], [('period', 1)])
_f(I, 'ewm_rsi', [('ts', False)], [('period', 1)])
_f(M, 'get_close_close_volatility', [('p_close', True)], [('window', 2)])
_f(M, 'get_high_low_volatility', [('p_high', True), ('p_low', True)], [('window', 1)])
for _n, _m in (('get_garman_klass_volatility', 1), ('get_rogers_satchell_volatility', 1), ('get_yang_zhang_volatility', 2)):
    _f(M, _n, [('p_high', True), ('p_low', True), ('p_open', True), ('p_close', True)], [('window', _m)])
for _n in ('get_becker_parkinson_volatility', 'get_cowrin_schultz_spread'): _f(M, _n, [('p_high', True), ('p_low', True)], [('window', 1)])
_f(M, 'get_edge_spread', [('p_high', True), ('p_low', True), ('p_open', True), ('p_close', True)], [('window', 3)], {'sign': [False, True]})
_f(M, 'get_roll_measure', [('p_close', True)], [('window', 2)])
_f(M, 'get_roll_impact', [('p_close', True), ('volume', True)], [('window', 2)])
_f(M, 'get_vpin', [('volume', True), ('buy_volume', False)], [('window', 1)])
_f(M, 'estimate_buy_volume', [('p_close', True), ('volume', True), ('sigma_p', True)], [])
for _n in ('get_kyle_lambda', 'get_amihud_lambda', 'get_hasbrouck_lambda'): _f(M, _n, [('p_close', True), ('volume', True)], [('window', 1)])

BANDS = {'BollingerBands': ([('ts', False)], [('window', 2)], True), 'EwmBollingerBands': ([('ts', False)], [('window', 1)], True),
         'KeltnerBands': ([('high', False), ('low', False), ('close', False)], [('window_atr', 1), ('window', 1)], True), 'DonchianBands': ([('ts', False)], [('window', 1)], False)}
METHODS = ('upper', 'lower', 'middle', 'bandwidth', 'percent_b')

def params(V, ps, n, extra=None):
    k = {}
    for p, lo in ps: k[p] = V.int(p, lo)
    for p, opts in (extra or {}).items(): k[p] = V.choice(p, opts)
    return k
