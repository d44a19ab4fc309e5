"""Symbolic stand-in for numpy, scipy, sklearn and joblib (assumed contracts on dependencies)."""
import types, math
from . import core, arr, defs
from .core import (z3, Num, SymBool, Unsupported, num, zi, b_and, b_or, b_not, b_ite, is_true, is_false, simp_b, unz, num_ite, num_div,
                   num_sqrt, num_log, num_exp, num_pow, reduce_term, st, assumed, to_real, bound, as_num, fresh_name, CTX)
from .arr import (ndarray, SymList, asarray, array, dim, same_dim, elementwise, Compressed, is_scalar, val_ite, Series_marker, red_sum_range,
                  zeros, ones, empty, full, zeros_like, ones_like, full_like, empty_like, arange, eye, linspace, matmul, diag, trace, clip, where, argsort,
                  as_intset, broadcast_fn, conc, tmax, tmin, n_max, n_min, red_arg)
from .prover import FactRule

def _unary(f, kind=None):
    def g(x, out=None, where=None, **k):
        if out is not None or where is not None: raise Unsupported('ufunc options')
        if isinstance(x, (list, tuple, SymList)): x = asarray(x)
        if hasattr(x, '_map') and not isinstance(x, (ndarray, Series_marker)): return x._map(f)
        if isinstance(x, (ndarray, Series_marker)): return elementwise(f, x, kind=kind)
        if as_num(x) is None: raise TypeError('ufunc not supported for the input types')
        return f(x)
    return g
def _binary(f, kind=None):
    def g(x, y, out=None, **k):
        if out is not None: raise Unsupported('ufunc options')
        return elementwise(f, x, y, kind=kind)
    return g

def _sign(a):
    a = num(a)
    v = a.real_v
    return Num(core.t_ite(simp_b(v > 0), z3.RealVal(1), core.t_ite(simp_b(v < 0), z3.RealVal(-1), z3.RealVal(0))), a.nan, a.bad)

sqrt = _unary(lambda a: num_sqrt(num(a))); log = _unary(lambda a: num_log(num(a))); exp = _unary(lambda a: num_exp(num(a)))
absolute = _unary(lambda a: abs(num(a))); sign = _unary(_sign)
isnan = _unary(lambda a: SymBool(num(a).nan), 'b'); isinf = _unary(lambda a: SymBool(num(a).bad), 'b')
isfinite = _unary(lambda a: SymBool(num(a).ok), 'b')
square = _unary(lambda a: num(a) * num(a)); negative = _unary(lambda a: -num(a))
log1p = _unary(lambda a: num_log(num(a) + 1)); expm1 = _unary(lambda a: num_exp(num(a)) - 1)
log2 = _unary(lambda a: num_div(num_log(num(a)), num_log(num(2.0))))
logical_not = _unary(lambda a: SymBool(b_not(unz(a))), 'b')
maximum = _binary(n_max); minimum = _binary(n_min)
def _fmax(a, b):
    a, b = num(a), num(b)
    return num_ite(a.nan, b, num_ite(b.nan, a, n_max(Num(a.v), Num(b.v))))
fmax = _binary(_fmax)
def _nb(n): return _binary(arr.n_bin(arr._OPS[n]))
add, subtract, multiply, divide = _nb('add'), _nb('sub'), _nb('mul'), _nb('truediv')
power = _binary(lambda a, b: num_pow(num(a), b))
def _lb(f): return _binary(arr._bool_or_int(f), 'b')
logical_and, logical_or, logical_xor = _lb(b_and), _lb(b_or), _lb(lambda a, b: b_not(core.b_eq(a, b)))
import operator
less, less_equal, greater, greater_equal, equal, not_equal = [_binary(arr.n_bin(getattr(operator, n)), 'b') for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')]

def nan_to_num(x, nan=0.0, **k):
    return elementwise(lambda a: num_ite(num(a).nan, num(nan), num(a)), x) if isinstance(x, (ndarray, Series_marker)) else num_ite(num(x).nan, num(nan), num(x))

def _m(name):
    def f(a, *args, **k):
        k.pop('out', None)
        if isinstance(a, (list, tuple, SymList)) or is_scalar(a): a = asarray(a)
        if name in ('std', 'var') and isinstance(a, Series_marker): a = a._values
        if isinstance(a, Series_marker) and name in ('argmax', 'argmin', 'any', 'all', 'cumsum'): a = a._values
        return getattr(a, name)(*args, **k)
    return f
sum_, mean, std, var, amax, amin, any_, all_, cumsum, argmax, argmin = [_m(n) for n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'any', 'all', 'cumsum', 'argmax', 'argmin')]
reshape, ravel, squeeze, transpose, copy_ = _m('reshape'), _m('ravel'), _m('squeeze'), _m('transpose'), _m('copy')

def diff(a, n=1, axis=-1, **k):
    if n != 1: raise Unsupported('higher differences')
    if isinstance(a, Series_marker): a = a._values
    a = asarray(a)
    f = a.snapshot()
    ax = axis if axis >= 0 else a.ndim + axis
    d = a.shape[ax]
    sh = list(a.shape); sh[ax] = dim(tmax(0, z3.simplify(zi(d) - 1)))
    def el(*i):
        j = list(i); j[ax] = z3.simplify(zi(i[ax]) + 1)
        return num(f(*j)) - num(f(*i))
    return ndarray.new(sh, el, a.kind if a.kind != 'b' else 'i')

def outer(a, b):
    a, b = asarray(a), asarray(b)
    f, g = a.snapshot(), b.snapshot()
    return ndarray.new((a.shape[0], b.shape[0]), lambda i, j: num(f(i)) * num(g(j)))

def fill_diagonal(a, v):
    if not isinstance(a, ndarray): raise Unsupported('fill_diagonal of a non-array')
    x = num(v)
    a.write(lambda i, j: simp_b(zi(i) == zi(j)), lambda i, j: x)

def dot(a, b):
    if is_scalar(a) or is_scalar(b): return a * b
    return matmul(a, b)

def tile(a, reps):
    a = asarray(a)
    if isinstance(reps, (tuple, list)):
        if len(reps) == 1: reps = reps[0]
        elif len(reps) == 2 and a.ndim <= 2:
            r0 = conc(num(reps[0])); a2 = a if a.ndim == 2 else a.reshape(1, -1)
            if r0 != 1:
                f = a2.snapshot(); n0 = a2.shape[0]
                if n0 != 1: raise Unsupported('tile rows')
                w = tile(a2, reps[1]); g = w.snapshot()
                return ndarray.new((dim(zi(reps[0])), w.shape[1]), lambda i, j: g(z3.IntVal(0), j), a.kind)
            return tile(a2, reps[1])
        else: raise Unsupported('tile')
    f = a.snapshot()
    if a.ndim == 0:
        v = a.item(); return full((dim(zi(reps)),), v)
    d = a.shape[-1]
    sh = a.shape[:-1] + (dim(num(reps) * d),)
    return ndarray.new(sh, lambda *i: f(*i[:-1], core.sdivmod(zi(i[-1]), zi(d))[1] if not (isinstance(d, int) and d == 1) else z3.IntVal(0)), a.kind)

def repeat(a, reps, axis=None):
    a = asarray(a); f = a.snapshot()
    r = conc(num(reps))
    if r is None or a.ndim != 1: raise Unsupported('repeat')
    return ndarray.new((dim(num(a.shape[0]) * r),), lambda i: f(z3.simplify(zi(i) / r)), a.kind)

def vstack(xs):
    xs = [asarray(x) for x in xs]
    if all(x.ndim == 1 for x in xs): return asarray(list(xs))
    raise Unsupported('vstack')
def column_stack(xs):
    return vstack(xs).T
def concatenate(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if any(isinstance(x, Compressed) for x in xs): raise Unsupported('concatenate of selections')
    if axis < 0: axis += xs[0].ndim
    fs = [x.snapshot() for x in xs]
    ends = []; t = z3.IntVal(0)
    for x in xs: ends.append((t, z3.simplify(t + zi(x.shape[axis])))); t = ends[-1][1]
    def el(*i):
        k = zi(i[axis]); r = None
        for (a, b), f in reversed(list(zip(ends, fs))):
            j = list(i); j[axis] = z3.simplify(k - a)
            r = f(*j) if r is None else val_ite(simp_b(k < b), f(*j), r)
        return r
    sh = list(xs[0].shape); sh[axis] = dim(t)
    kind = 'i' if all(x.kind == 'i' for x in xs) else 'f'
    return ndarray.new(sh, el, kind)
def insert(a, pos, v, axis=None):
    a = asarray(a)
    if a.ndim != 1 or conc(num(pos)) != 0: raise Unsupported('insert')
    return concatenate([asarray([v]), a])
def append(a, v, axis=None):
    a = asarray(a); v = asarray(v)
    return concatenate([a, v if v.ndim else asarray([v.item()])])
hstack = lambda xs: concatenate(xs, axis=0 if asarray(xs[0]).ndim == 1 else 1)

def triu(a, k=0):
    a = asarray(a); f = a.snapshot()
    return ndarray.new(a.shape, lambda i, j: num_ite(simp_b(zi(j) - zi(i) >= k), num(f(i, j)), num(0.0)), a.kind)
def tril(a, k=0):
    a = asarray(a); f = a.snapshot()
    return ndarray.new(a.shape, lambda i, j: num_ite(simp_b(zi(j) - zi(i) <= k), num(f(i, j)), num(0.0)), a.kind)

def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def f(x, y):
        x, y = num(x), num(y)
        return SymBool(b_and(x.ok, y.ok, simp_b(abs(x - y).real_v <= num(atol).real_v + num(rtol).real_v * abs(y).real_v)))
    a = asarray(a) if isinstance(a, (list, tuple)) else a
    r = elementwise(f, _nv(a), _nv(b), kind='b')
    return r.all() if isinstance(r, ndarray) else r
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def f(x, y):
        x, y = num(x), num(y)
        return SymBool(b_and(x.ok, y.ok, simp_b(abs(x - y).real_v <= num(atol).real_v + num(rtol).real_v * abs(y).real_v)))
    return elementwise(f, _nv(a), _nv(b), kind='b')
def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if not same_dim(x, y): return False
    return (a == b).all()
def _nv(x): return x._values if isinstance(x, Series_marker) else x

# ---------------------------------------------------------------- searching, index sets
def searchsorted(a, v, side='left', sorter=None):
    if hasattr(a, 'asi8'):
        a = a.asi8
        v = Num(v.t)
    a = asarray(a)
    assumed('numpy.searchsorted: first position whose element is >= v (left) or > v (right), on sorted input')
    if isinstance(v, ndarray): raise Unsupported('searchsorted of an array')
    f = a.snapshot(); v = num(v)
    def cmp(j):
        x = num(f(j))
        if x.isint and v.isint: return x.v >= v.v if side == 'left' else x.v > v.v
        return x.real_v >= v.real_v if side == 'left' else x.real_v > v.real_v
    return Num(reduce_term('first', z3.IntVal(0), z3.simplify(zi(a.shape[0]) - 1), lambda j: (simp_b(cmp(j)),)))

def setdiff1d(a, b, assume_unique=False):
    A = as_intset(a)
    if isinstance(b, ndarray) and b.ndim == 1 and b.shape[0:1] == (0,) and not isinstance(b, Compressed): return a
    B = as_intset(b)
    assumed('numpy.setdiff1d: the sorted distinct elements of the first set not in the second')
    return Compressed.make((dim(A[1]),), lambda v: b_and(A[0](v), b_not(B[0](v))), lambda v: Num(v), 'i', z3.IntVal(0))
def intersect1d(a, b, **k):
    A, B = as_intset(a), as_intset(b)
    return Compressed.make((dim(A[1]),), lambda v: b_and(A[0](v), B[0](v)), lambda v: Num(v), 'i', z3.IntVal(0))
def union1d(a, b):
    A, B = as_intset(a), as_intset(b)
    return Compressed.make((dim(tmax(A[1], B[1])),), lambda v: b_or(A[0](v), B[0](v)), lambda v: Num(v), 'i', z3.IntVal(0))
def delete(a, obj, axis=None):
    A, B = as_intset(a), as_intset(obj)
    if not (isinstance(a, ndarray) and a.iota is not None and simp_b(a.iota == 0) is True): raise Unsupported('delete')
    return setdiff1d(a, obj)
def isin(a, b, invert=False, **k):
    a = asarray(a) if not isinstance(a, Compressed) else a
    if isinstance(b, (list, tuple)):
        vals = [num(x) for x in b]
        return elementwise(lambda x: SymBool(b_or(*[simp_b(num(x).real_v == v.real_v) for v in vals])), a, kind='b')
    B = as_intset(b)
    return elementwise(lambda x: SymBool(B[0](num(x).v) if not invert else b_not(B[0](num(x).v))), a, kind='b')
def flatnonzero(m): return where(m)[0]
def argwhere(m): raise Unsupported('argwhere')

def array_split(a, k, axis=0):
    """Pieces of sizes differing by at most one, the longer ones first: piece f starts at f*q + min(f, r) with n = k*q + r."""
    assumed('numpy.array_split: contiguous pieces in order, sizes differing by at most one')
    a = asarray(a)
    n = zi(a.shape[0]); kk = zi(k)
    q, r = z3.Int(fresh_name('q')), z3.Int(fresh_name('r'))
    if not (conc(Num(kk)) or arr.known(kk >= 1)):
        if bool(SymBool(kk <= 0)): raise ValueError('number sections must be larger than 0.')
    CTX().assume(z3.And(n == kk * q + r, r >= 0, r < kk, q >= 0))
    F = z3.Function(fresh_name('piece'), z3.IntSort(), z3.IntSort())
    S = st(); S.inputs[F.name()] = 'array_split borders'
    nm = F.name()
    S.facts.append(FactRule([nm], lambda f: z3.Implies(z3.And(f >= 0, f <= kk), z3.And(F(f) >= 0, F(f) <= n, F(f) >= f * q, z3.Implies(q >= 1, F(f) >= f)))))
    S.facts.append(FactRule([nm], lambda f: z3.And(z3.Implies(f == 0, F(f) == 0), z3.Implies(f == kk, F(f) == n))))
    S.facts.append(FactRule([nm], lambda f, g: z3.Implies(z3.And(0 <= f, f < g, g <= kk), z3.And(F(f) <= F(g), z3.Implies(q >= 1, F(g) - F(f) >= g - f))), pair=True))
    S.facts.append(FactRule([nm], lambda f: z3.Implies(z3.And(0 <= f, f < kk), z3.And(F(f + 1) - F(f) >= q, F(f + 1) - F(f) <= q + 1))))
    S.array_split = (F, kk, n, q)
    # q >= 1 exactly when there are at least as many elements as pieces
    CTX().assume(z3.And(z3.Implies(n >= kk, q >= 1), z3.Implies(n < kk, q == 0)))
    def piece(f):
        f = zi(f)
        lo, hi = F(f), F(z3.simplify(f + 1))
        return a[Num(lo):Num(hi)] if False else _rng(a, lo, hi)
    return SymList(dim(kk), piece)

def _rng(a, lo, hi):
    """a[lo:hi] for 0 <= lo <= hi <= len(a)."""
    v = a.view((dim(hi - lo),), lambda i: (z3.simplify(lo + i),), lambda b: (b_and(b >= lo, b < hi), (z3.simplify(b - lo),)))
    if a.iota is not None: v.iota = z3.simplify(a.iota + lo)
    return v

def unique(a, return_index=False, return_counts=False, **k):
    if return_index or return_counts or k: raise Unsupported('unique options')
    a = _nv(a)
    assumed('numpy.unique: the distinct values')
    key = ('unique', a.stg if isinstance(a, ndarray) else id(a))
    return UniqueOf(a)
class UniqueOf:
    """Number of distinct values of an array: a function of the array."""
    def __init__(self, a):
        self.a = a
        S = st()
        memo = S.__dict__.setdefault('unique_memo', [])
        f = a.snapshot()
        with bound() as j: e = num(f(j))
        for t, n, c in memo:
            if t.eq(e.v) and n.eq(zi(a.shape[0])): self.c = c; break
        else:
            self.c = z3.Int(fresh_name('nunique'))
            memo.append((e.v, zi(a.shape[0]), self.c))
        CTX().assume(z3.And(z3.Implies(zi(a.shape[0]) >= 1, self.c >= 1), self.c <= zi(a.shape[0]), self.c >= 0))
    def _vc_len(self): return Num(self.c)
    @property
    def shape(self): return (Num(self.c),)
    @property
    def size(self): return Num(self.c)

# ---------------------------------------------------------------- opaque functions of arrays
class ArgKey:
    """Structural identity of array arguments: equal terms for equal element terms."""
def every_facts(pairs):
    """what the contract assumes of every position of a dimension, at the given positions"""
    return [core.zb(unz(g(Num(i)))) for i, d in pairs for n, g in st().__dict__.get('every', []) if zi(d).eq(n)]
def arr_key(a):
    a = asarray(_nv(a))
    idx = [z3.Int(f'key#{k}') for k in range(a.ndim)]
    f = a.snapshot()
    c = CTX(); S = st()
    k = len(c.pc); memo = S.__dict__.pop('nz_memo', None)
    c.solver = None
    c.pc.extend(z3.And(i >= 0, i < zi(d)) for i, d in zip(idx, a.shape))
    try:
        extra = every_facts(zip(idx, a.shape))
        c.pc.extend(extra)
        e = num(f(*idx))
    finally:
        del c.pc[k:]; c.solver = None
        S.__dict__.pop('nz_memo', None)
        if memo is not None: S.nz_memo = memo
    return (tuple(zi(d) for d in a.shape), e.v, e.nan, e.bad, a)

def same_key(k1, k2):
    if len(k1[0]) != len(k2[0]): return False
    for x, y in zip(k1[0], k2[0]):
        if not x.eq(y) and not arr.known(x == y): return False
    idx = [z3.Int(f'key#{k}') for k in range(len(k1[0]))]
    inr = [z3.And(i >= 0, i < d) for i, d in zip(idx, k1[0])] + every_facts(zip(idx, k1[0]))
    def eqt(a, b):
        if isinstance(a, bool) or isinstance(b, bool): return core.b_eq(a, b)
        return True if a.eq(b) else a == b
    goal = b_and(eqt(k1[1], k2[1]), eqt(k1[2], k2[2]))
    if is_true(goal): return True
    if is_false(goal): return False
    from .prover import prove
    hyps = inr + CTX().allpc()
    r = prove(core.b_or(goal), hyps, timeout=3000, quick=True)
    if r.status == 'unknown': st().havoc = True       # two applications that may or may not agree: no counterexample counts
    return r.status == 'proved'

def opaque(name, arrays, params=(), make=None):
    """Memoised application of an unknown function to arrays: same (provably equal) arguments, same result."""
    S = st()
    memo = S.__dict__.setdefault('opaque_memo', {}).setdefault((name, tuple(str(p) for p in params)), [])
    keys = [arr_key(a) for a in arrays]
    for ks, res in memo:
        if len(ks) == len(keys) and all(same_key(a, b) for a, b in zip(ks, keys)): return res
    res = make()
    memo.append((keys, res))
    return res

def uf_matrix(prefix, shape):
    F = z3.Function(fresh_name(prefix), *([z3.IntSort()] * len(shape)), z3.RealSort())
    st().inputs[F.name()] = prefix
    return F

def corr_uf(v, method):
    """Correlation matrix of the columns of v: symmetric, unit diagonal, entries in [-1, 1]."""
    v = asarray(v)
    assumed('numpy.corrcoef / pandas corr: symmetric matrix with unit diagonal and entries in [-1, 1], a function of the data')
    def make():
        F = uf_matrix('corr_' + method, v.shape)
        S = st()
        S.facts.append(FactRule([F.name()], lambda i, j: z3.And(F(i, j) == F(j, i), F(i, j) <= 1, F(i, j) >= -1, z3.Implies(i == j, F(i, j) == 1))))
        return F
    F = opaque('corr', [v], (method,), make)
    m = v.shape[1]
    return ndarray.new((m, m), lambda i, j: Num(F(zi(i), zi(j))))

def corrcoef(x, y=None, rowvar=True, **k):
    if y is not None:
        x, y = asarray(_nv(x)), asarray(_nv(y))
        assumed('numpy.corrcoef of two samples: symmetric in its arguments, in [-1, 1] or missing')
        c = pair_uf('paircorr', x, y, sym=True)
        CTX().assume(z3.And(c.v <= 1, c.v >= -1))
        one = num(1.0)
        return ndarray.new((2, 2), lambda i, j: num_ite(simp_b(zi(i) == zi(j)), one, c))
    x = asarray(_nv(x))
    if not is_true(rowvar) and rowvar: x = x.T
    if rowvar: x = x.T
    return corr_uf(x, 'pearson')

def pair_uf(name, x, y, sym=False, nan=True, params=()):
    """A number depending only on the pair of samples (symmetric if sym)."""
    def make(): return Num(core.fresh_real(name), core.fresh_bool(name + 'nan') if nan else False)
    S = st()
    if sym:
        memo = S.__dict__.setdefault('opaque_memo', {}).setdefault((name, tuple(str(p) for p in params)), [])
        kx, ky = arr_key(x), arr_key(y)
        for (a, b), res in memo:
            if (same_key(a, kx) and same_key(b, ky)) or (same_key(a, ky) and same_key(b, kx)): return res
        res = make(); memo.append(((kx, ky), res)); return res
    return opaque(name, [x, y], params, make)

def scal_key(x):
    x = num(x)
    return ndarray.new((), lambda: x)

def histogram(a, bins=10, range=None, density=None, weights=None):
    if range is not None or density is not None or weights is not None: raise Unsupported('histogram options')
    a = asarray(_nv(a))
    assumed('numpy.histogram: counts, a function of the sample and the bin count, that sum to the sample size')
    def make():
        F = uf_matrix('hist', (0,))
        n = zi(a.shape[0])
        st().facts.append(FactRule([F.name()], lambda i: z3.And(F(i) >= 0)))
        return F
    F = opaque('histogram', [a, scal_key(bins)], (), make)
    r = ndarray.new((dim(num(bins)),), lambda i: Num(F(zi(i))))
    r.total = (Num(zi(a.shape[0])), F(z3.Int('key#0')))
    return r, None

def histogram2d(x, y, bins=10, **k):
    if k: raise Unsupported('histogram2d options')
    x, y = asarray(_nv(x)), asarray(_nv(y))
    assumed('numpy.histogram2d: joint counts, transposed when the samples are exchanged, that sum to the sample size')
    S = st()
    memo = S.__dict__.setdefault('opaque_memo', {}).setdefault(('histogram2d',), [])
    kx, ky, kb = arr_key(x), arr_key(y), arr_key(scal_key(bins))
    n = dim(num(bins))
    for (a, b, c), F in memo:
        if same_key(c, kb):
            if same_key(a, kx) and same_key(b, ky): return Hist2(F, n, False, x), None, None
            if same_key(a, ky) and same_key(b, kx): return Hist2(F, n, True, x), None, None
    F = uf_matrix('hist2', (0, 0))
    memo.append(((kx, ky, kb), F))
    return Hist2(F, n, False, x), None, None

def Hist2(F, n, tr, x):
    a = ndarray.new((n, n), (lambda i, j: Num(F(zi(j), zi(i)))) if tr else (lambda i, j: Num(F(zi(i), zi(j)))))
    k = [z3.Int('key#0'), z3.Int('key#1')]
    a.total = (Num(zi(x.shape[0])), F(*(k[::-1] if tr else k)))
    return a

# ---------------------------------------------------------------- linear algebra
class _Linalg: pass
linalg = _Linalg()
def _cholesky(c):
    c = asarray(_nv(c))
    assumed('numpy.linalg.cholesky: lower triangular L with L L^T equal to the matrix, a function of it')
    n = c.shape[0]
    def make(): return uf_matrix('chol', (0, 0))
    F = opaque('cholesky', [c], (), make)
    return ndarray.new((n, n), lambda i, j: Num(core.t_ite(simp_b(zi(j) <= zi(i)), F(zi(i), zi(j)), z3.RealVal(0))))
linalg.cholesky = _cholesky
def _inv(q):
    q = asarray(_nv(q))
    assumed('numpy.linalg.inv: inverse matrix, a function of the matrix')
    F = opaque('inv', [q], (), lambda: uf_matrix('inv', (0, 0)))
    r = ndarray.new(q.shape, lambda i, j: Num(F(zi(i), zi(j))))
    return r
linalg.inv = _inv
def _eigvals(p):
    p = asarray(_nv(p))
    assumed('numpy.linalg.eigvals: eigenvalues, a function of the matrix')
    F = opaque('eigvals', [p], (), lambda: uf_matrix('eigvals', (0,)))
    return ndarray.new((p.shape[0],), lambda i: Num(F(zi(i))))
linalg.eigvals = _eigvals; linalg.eigvalsh = _eigvals
def _slogdet(p):
    p = asarray(_nv(p))
    assumed('numpy.linalg.slogdet: (sign, log |det|), a function of the matrix; log |det| of the identity is 0')
    s, l = opaque('slogdet', [p], (), lambda: (core.fresh_real('detsign'), core.fresh_real('logdet')))
    return Num(s), Num(l)
linalg.slogdet = _slogdet
def _det(p):
    s, l = _slogdet(p)
    return Num(s.v * core.Exp(l.v))
linalg.det = _det
def _eigh(c):
    c = asarray(_nv(c))
    assumed('numpy.linalg.eigh: ascending eigenvalues and eigenvectors, a function of the matrix')
    n = c.shape[0]
    def make():
        v, e = uf_matrix('eigval', (0,)), uf_matrix('eigvec', (0, 0))
        st().facts.append(FactRule([v.name()], lambda i, j: z3.Implies(z3.And(i >= 0, i <= j), v(i) <= v(j)), pair=True))
        return v, e
    v, e = opaque('eigh', [c], (), make)
    return ndarray.new((n,), lambda i: Num(v(zi(i)))), ndarray.new((n, n), lambda i, j: Num(e(zi(i), zi(j))))
linalg.eigh = _eigh
def _svd(a, **k):
    a = asarray(a)
    assumed('numpy.linalg.svd: left singular vectors, an N x N matrix')
    F = uf_matrix('svd', (0, 0)); n = a.shape[0]
    return ndarray.new((n, n), lambda i, j: Num(F(zi(i), zi(j)))), None, None
linalg.svd = _svd
def _lstsq(A, y, rcond=None):
    """Least squares line when A has the columns (x, 1): slope = Sxy/Sxx, intercept = ybar - slope xbar."""
    A, y = asarray(A), asarray(y)
    if A.ndim != 2 or A.shape[1] != 2 or y.ndim != 1: raise Unsupported('lstsq')
    f, g = A.snapshot(), y.snapshot()
    with bound() as j:
        one = num(f(j, z3.IntVal(1)))
    if not (z3.is_rational_value(one.v) and one.v.as_fraction() == 1): raise Unsupported('lstsq design')
    assumed('numpy.linalg.lstsq on columns (x, 1): slope S_xy / S_xx and intercept mean(y) - slope mean(x)')
    lo, hi = z3.IntVal(0), z3.simplify(zi(y.shape[0]) - 1)
    s, c = defs_ols(lo, hi, lambda k: f(k, z3.IntVal(0)), g)
    return asarray([s, c]), None, None, None
def defs_ols(lo, hi, fx, fy):
    mx, my = defs.wmean(lo, hi, fx), defs.wmean(lo, hi, fy)
    sxy = red_sum_range(lo, hi, lambda k: (num(fx(k)) - mx) * (num(fy(k)) - my))
    sxx = red_sum_range(lo, hi, lambda k: (num(fx(k)) - mx) * (num(fx(k)) - mx))
    s = num_div(sxy, sxx)
    return s, my - s * mx
linalg.lstsq = _lstsq
linalg.LinAlgError = type('LinAlgError', (Exception,), {})
def _norm(a, *k, **kw):
    a = asarray(a); return num_sqrt((a * a).sum())
linalg.norm = _norm

# ---------------------------------------------------------------- random numbers
class _Random: pass
random = _Random()
def seed_term(seed):
    if seed is None: return None
    if isinstance(seed, Generator): return seed
    s = num(seed)
    if not s.isint: raise Unsupported('seed')
    return s.v
class Generator:
    """Local generator: the k-th draw is a function of (stream kind, seed term, k)."""
    def __init__(self, kind, seed):
        self.kind, self.k = kind, 0
        self.hist, self.what, self.off = '', None, z3.IntVal(0)
        self.seed = seed
        if seed is None:
            st().entropy = getattr(st(), 'entropy', 0) + 1
            self.seed = z3.Int(fresh_name('entropy'))
    def _draw(self, what, size, params):
        self.k += 1
        assumed('numpy random generators: local generators are deterministic functions of their seed and of the sequence of calls, filling arrays row by row from one stream; they do not touch the global generator')
        shape = arr._shape(size) if size is not None else ()
        if self.what != what:
            if self.what is not None: self.hist += f'_{self.what}({z3.simplify(self.off)})'
            self.what, self.off = what, z3.IntVal(0)
        F = z3.Function(f'draw_{self.kind}_{what}{self.hist}', z3.IntSort(), z3.IntSort(), z3.RealSort())
        st().inputs[F.name()] = 'random draws'
        sd, off = self.seed, self.off
        ev = st().__dict__.setdefault('rng_events', [])
        ev.append((self.kind, what, sd, self.k, shape))
        total = z3.IntVal(1)
        for d in shape: total = total * zi(d)
        self.off = z3.simplify(off + total)
        if not shape: return Num(F(sd, off))
        def el(*i):
            f = zi(i[0])
            for x, d in zip(i[1:], shape[1:]): f = f * zi(d) + zi(x)
            return Num(F(sd, z3.simplify(off + f, som=True)))
        return ndarray.new(shape, el)
    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._draw('normal', size, ())
        if is_scalar(loc) and conc_eq(loc, 0) and is_scalar(scale) and conc_eq(scale, 1): return z
        return z * scale + loc
    def standard_normal(self, size=None): return self._draw('normal', size, ())
    randn = lambda self, *s: self._draw('normal', s or None, ())
    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw('uniform', size, ())
        S = st()
        return u * (num(high) - num(low)) + num(low)
    def random(self, size=None): return self._draw('uniform', size, ())
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'random generator method {n}')
def conc_eq(x, v):
    c = core._num_const(num(x).v)
    return c is not None and c == v
random.Generator = Generator
random.default_rng = lambda seed=None: seed if isinstance(seed, Generator) else Generator('pcg', seed_term(seed))
random.RandomState = lambda seed=None: Generator('mt', seed_term(seed))
def _global(name):
    def f(*a, **k):
        st().__dict__.setdefault('rng_global_events', []).append(name)
        if name == 'seed':
            st().rng_global = Generator('mt', seed_term(a[0] if a else None)); return None
        g = st().rng_global
        if g is None: g = st().rng_global = Generator('global', z3.Int('global_rng_state'))
        return getattr(g, name)(*a, **k)
    return f
for _n in ('seed', 'normal', 'uniform', 'randn', 'standard_normal', 'random'): setattr(random, _n, _global(_n))
def _rnd_other(self, n): raise Unsupported(f'numpy.random.{n}')
_Random.__getattr__ = _rnd_other

def make_module():
    m = types.ModuleType('numpy')
    g = globals()
    for k in ('ndarray', 'sqrt', 'log', 'exp', 'absolute', 'sign', 'isnan', 'isinf', 'isfinite', 'square', 'negative', 'log1p', 'expm1', 'log2', 'logical_not', 'maximum',
              'minimum', 'fmax', 'add', 'subtract', 'multiply', 'divide', 'power', 'logical_and', 'logical_or', 'logical_xor', 'less', 'less_equal', 'greater',
              'greater_equal', 'equal', 'not_equal', 'nan_to_num', 'mean', 'std', 'var', 'amax', 'amin', 'cumsum', 'argmax', 'argmin', 'reshape', 'ravel', 'squeeze',
              'transpose', 'diff', 'outer', 'fill_diagonal', 'dot', 'tile', 'repeat', 'vstack', 'column_stack', 'concatenate', 'insert', 'append', 'hstack', 'triu',
              'tril', 'allclose', 'isclose', 'array_equal', 'searchsorted', 'setdiff1d', 'intersect1d', 'union1d', 'delete', 'isin', 'flatnonzero', 'array_split', 'unique', 'corrcoef',
              'histogram', 'histogram2d', 'linalg', 'random', 'asarray', 'array', 'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'full_like', 'empty_like',
              'arange', 'eye', 'linspace', 'matmul', 'diag', 'trace', 'clip', 'where', 'argsort'):
        setattr(m, k, g[k])
    m.abs = m.fabs = absolute; m.sum = sum_; m.max = amax; m.min = amin; m.any = any_; m.all = all_; m.copy = copy_; m.identity = eye
    m.true_divide = divide; m.newaxis = None; m.nan = float('nan'); m.NaN = m.nan; m.inf = float('inf')
    m.pi = Num(core.Pi); m.e = math.e
    m.ascontiguousarray = asarray; m.asanyarray = asarray; m.atleast_1d = lambda a: asarray(a) if asarray(a).ndim else asarray([a])
    m.float64 = m.float_ = m.floating = m.float32 = float
    m.int_ = m.int64 = m.int32 = m.integer = int
    m.bool_ = bool; m.number = (int, float)
    m.dtype = arr.DType
    m.errstate = _ErrState
    m.seterr = lambda **k: None
    m.vectorize = lambda f, **k: (_ for _ in ()).throw(Unsupported('vectorize'))
    def unsupported(n):
        def f(*a, **k): raise Unsupported(f'numpy.{n}')
        return f
    m.__getattr__ = lambda n: unsupported(n) if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
    return m

class _ErrState:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

# ---------------------------------------------------------------- scipy, sklearn, joblib, math
def _entropy(pk, *a, **k):
    if a or k: raise Unsupported('entropy options')
    pk = asarray(_nv(pk))
    assumed('scipy.stats.entropy: a function of the distribution, unchanged by transposing a flattened matrix')
    src = getattr(pk, 'flat_src', None)
    make = lambda: Num(core.fresh_real('entropy'), core.fresh_bool('entropynan'))
    if src is None or not num(pk.snapshot()(z3.Int('key#0'))).v.eq(num(pk.flat_el).v): return opaque('entropy', [pk], (), make)
    memo = st().__dict__.setdefault('opaque_memo', {}).setdefault(('entropy2',), [])
    k, kt = arr_key(src), arr_key(src.T)
    for q, res in memo:
        if same_key(q, k) or same_key(q, kt): return res
    res = make(); memo.append((k, res)); return res

class _T:
    CDF = z3.Function('tcdf', z3.RealSort(), z3.RealSort(), z3.RealSort())
    def cdf(self, x, df, loc=0, scale=1):
        assumed("scipy.stats.t.cdf: increasing, in (0, 1), 1/2 at 0, antisymmetric about 0, missing for missing arguments")
        if not (conc_eq(loc, 0) and conc_eq(scale, 1)): raise Unsupported('t.cdf options')
        d = num(df).real_v
        S = st()
        if 'tcdf' not in S.inputs:
            S.inputs['tcdf'] = 'Student t distribution function'
        if not any(getattr(f, 'tag', None) == 'tcdf' for f in S.facts):
            C = self.CDF
            r = FactRule(['tcdf'], lambda x, d: z3.And(C(x, d) > 0, C(x, d) < 1, z3.Implies(x == 0, C(x, d) == z3.Q(1, 2)), z3.Implies(x > 0, C(x, d) > z3.Q(1, 2)), z3.Implies(x < 0, C(x, d) < z3.Q(1, 2))))
            r.tag = 'tcdf'; S.facts.append(r)
            r2 = FactRule(['tcdf'], lambda x, d, y, e: z3.Implies(z3.And(d == e, x < y), C(x, d) < C(y, e)), pair=True)
            S.facts.append(r2)
        def f(a):
            a = num(a)
            inf = Num(core.fresh_real('tcdf_inf'))
            v = self.CDF(a.real_v, d)
            if not is_false(a.bad):
                w = core.fresh_real('tcdfinf')
                CTX().assume(z3.And(w >= 0, w <= 1))
                v = z3.If(a.bad, w, v)
            return Num(v, a.nan, False)
        if isinstance(x, Series_marker): return elementwise(f, x._values)
        return elementwise(f, x)

class _Norm:
    """Frozen normal: logpdf(x) = -log(2 pi)/2 - log(scale) - ((x - loc)/scale)^2 / 2."""
    def __call__(self, loc=0, scale=1): return _FrozenNorm(loc, scale)
    def logpdf(self, x, loc=0, scale=1): return _FrozenNorm(loc, scale).logpdf(x)
class _FrozenNorm:
    def __init__(self, loc, scale): self.loc, self.scale = loc, scale
    def logpdf(self, x):
        assumed('scipy.stats.norm.logpdf: -log(2 pi)/2 - log(scale) - ((x - loc)/scale)^2/2')
        return elementwise(norm_logpdf, x, self.loc, self.scale)
def norm_logpdf(x, m, s):
    z = num_div(num(x) - num(m), num(s))
    return num(0.0) - num_log(num(2) * Num(core.Pi)) * 0.5 - num_log(num(s)) - z * z * 0.5
class _MVN:
    def __call__(self, mean=None, cov=1, **k): return _FrozenMVN(mean, cov)
class _FrozenMVN:
    def __init__(self, mean, cov): self.mean, self.cov = asarray(mean), asarray(cov)
    def logpdf(self, x):
        assumed('scipy.stats.multivariate_normal.logpdf: a function of the point, the mean vector and the covariance matrix')
        x = asarray(x)
        if x.ndim != 2: raise Unsupported('mvn points')
        H = opaque('mvnpoints', [x, self.mean, self.cov], (), lambda: uf_matrix('mvnlogpdf', (0,)))
        return ndarray.new((x.shape[0],), lambda i: Num(H(zi(i))))

def _logm(p, **k):
    p = asarray(_nv(p))
    assumed('scipy.linalg.logm: matrix logarithm, a function of the matrix')
    F = opaque('logm', [p], (), lambda: uf_matrix('logm', (0, 0)))
    return ndarray.new(p.shape, lambda i, j: Num(F(zi(i), zi(j))))

def _squareform(d, **k):
    return ('squareform', d)
class _Linkage:
    def __init__(self, key): self.key = key
def _cut_tree(Z, n_clusters=None, height=None):
    if height is not None: raise Unsupported('cut_tree options')
    assumed('scipy.cluster.hierarchy.cut_tree: labels of each observation, a function of the linkage and the cluster count')
    k = num(n_clusters)
    S = st()
    d = S.__dict__.setdefault('cut_memo', {})
    zk = id(Z)
    if zk not in d:
        F = z3.Function(fresh_name('cut'), z3.IntSort(), z3.IntSort(), z3.IntSort())
        S.inputs[F.name()] = 'cluster labels'
        d[zk] = (Z, F)
    F = d[zk][1]
    n = getattr(Z, 'n_obs', None)
    if n is None: raise Unsupported('linkage of unknown size')
    kz = k.v
    a = ndarray.new((n, 1), lambda i, j: Num(F(kz, zi(i))), 'i')
    return a

def _silhouette_samples(X=None, labels=None, metric='euclidean', **k):
    if metric != 'precomputed' or k: raise Unsupported('silhouette options')
    X, labels = asarray(_nv(X)), asarray(_nv(labels))
    assumed('sklearn.metrics.silhouette_samples: one coefficient per observation, a function of distances and labels')
    F = opaque('silhouette', [X, labels], (), lambda: uf_matrix('silh', (0,)))
    return ndarray.new((labels.shape[0],), lambda i: Num(F(zi(i))))

class _Delayed:
    def __init__(self, f): self.f = f
    def __call__(self, *a, **k): return (self.f, a, k)
def delayed(f): return _Delayed(f)
class Parallel:
    def __init__(self, *a, **k): assumed('joblib.Parallel: the results of the calls in order')
    def __call__(self, it):
        from .loader import call_each
        return call_each(it)

class _Math(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        r = getattr(math, n)
        if callable(r):
            def f(*a):
                if any(isinstance(x, (Num, SymBool)) for x in a): raise Unsupported(f'math.{n}')
                return r(*a)
            return f
        return r

def make_extra():
    mods = {}
    def mod(name, **kw):
        m = types.ModuleType(name)
        for k, v in kw.items(): setattr(m, k, v)
        def ga(n):
            if n.startswith('__'): raise AttributeError(n)
            def f(*a, **k): raise Unsupported(f'{name}.{n}')
            return f
        m.__getattr__ = ga
        mods[name] = m
        return m
    stats = mod('scipy.stats', entropy=_entropy, t=_T(), norm=_Norm(), multivariate_normal=_MVN())
    sl = mod('scipy.linalg', logm=_logm, inv=_inv, cholesky=lambda c, lower=False: _cholesky(c) if lower else _cholesky(c).T)
    h = mod('scipy.cluster.hierarchy', cut_tree=_cut_tree)
    sc = mod('scipy.cluster', hierarchy=h)
    sd = mod('scipy.spatial.distance', squareform=_squareform)
    sp = mod('scipy.spatial', distance=sd)
    mod('scipy', stats=stats, linalg=sl, cluster=sc, spatial=sp)
    sm = mod('sklearn.metrics', silhouette_samples=_silhouette_samples)
    mod('sklearn', metrics=sm)
    mod('joblib', Parallel=Parallel, delayed=delayed)
    mm = _Math('math')
    mm.sqrt = lambda x: num_sqrt(num(x)) if isinstance(x, Num) else math.sqrt(x)
    mm.log = lambda x, *b: num_log(num(x)) if isinstance(x, Num) and not b else math.log(x, *b)
    mm.exp = lambda x: num_exp(num(x)) if isinstance(x, Num) else math.exp(x)
    mm.isnan = lambda x: SymBool(num(x).nan)
    mm.pi = Num(core.Pi)
    mods['math'] = mm
    return mods
