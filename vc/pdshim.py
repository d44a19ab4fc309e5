"""Symbolic stand-in for the parts of pandas the library uses (every operation here is an assumed contract on pandas)."""
import types
from . import core, arr, defs
from .core import (z3, Num, SymBool, Unsupported, num, zi, b_and, b_or, b_not, b_ite, is_true, is_false, simp_b, unz, num_ite, num_div,
                   num_sqrt, num_pow, reduce_term, st, assumed, to_real, bound, as_num)
from .arr import ndarray, SymList, asarray, dim, same_dim, norm_slice, norm_index, elementwise, Compressed, is_scalar, val_ite
from .defs import nanflag

class Index:
    """Labels: a token identifies an index object, off is the position of the first label."""
    def __init__(self, token, n, off=0, name=None, label=None):
        self.token, self.n, self.off, self.name, self._label = token, dim(n), off, name, label
    def __class_getitem__(cls, k): return cls
    @property
    def shape(self): return (self.n,)
    @property
    def size(self): return self.n
    ndim = 1
    def _vc_len(self): return self.n
    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise Unsupported('len of a symbolic index')
    def same(self, o):
        if self is o: return True
        if self.token != o.token: return False
        if not same_dim(self.n, o.n): return False
        return same_dim(dim(zi(self.off)), dim(zi(o.off)))
    def __getitem__(self, k):
        if isinstance(k, slice):
            a, ln, stp = norm_slice(k, self.n)
            if stp != 1: raise Unsupported('index slice')
            return type(self)._like(self, ln, z3.simplify(zi(self.off) + a))
        if isinstance(k, (int, Num)): return self._at(norm_index(k, self.n))
        raise Unsupported('index selection')
    @classmethod
    def _like(cls, s, n, off):
        return cls(s.token, n, off, s.name, s._label)
    def _at(self, i):
        if self._label is None: raise Unsupported('label of an abstract index')
        return self._label(z3.simplify(zi(self.off) + zi(i)))
    def rename(self, name): r = type(self)._like(self, self.n, self.off); r.name = name; return r
    def copy(self): return type(self)._like(self, self.n, self.off)
    @property
    def values(self):
        return ndarray.new((self.n,), lambda i: self._at(i), 'i')
    def to_numpy(self): return self.values
    def tolist(self): return self.values.tolist()
    def equals(self, o): return isinstance(o, Index) and self.same(o)
    def __repr__(self): return f'<Index {self.token}>'

class RangeIndex(Index): pass

def range_index(n, name=None): return RangeIndex(('range',), n, 0, name, label=lambda i: Num(zi(i)))

class Timedelta:
    """Exact multiple of a nanosecond as a z3 Int."""
    def __init__(self, value=None, unit=None, **kw):
        if isinstance(value, Timedelta): self.ns = value.ns; return
        ns = z3.IntVal(0)
        if kw:
            for k, v in kw.items(): ns = ns + num(v).v * _UNIT[k]
            self.ns = z3.simplify(ns); return
        u = _UNIT.get(unit or 'ns')
        if u is None: raise ValueError(f'invalid unit abbreviation: {unit}')
        v = num(value)
        if not v.isint: raise Unsupported('fractional timedelta')
        self.ns = z3.simplify(v.v * u)
    @staticmethod
    def of(ns): r = Timedelta(0); r.ns = z3.simplify(ns); return r
    def _as_num(self): return Num(self.ns)
    def _c(self, o, f):
        if not isinstance(o, Timedelta): raise TypeError('comparison of Timedelta')
        return SymBool(simp_b(f(self.ns, o.ns)))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return isinstance(o, Timedelta) and self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return not isinstance(o, Timedelta) or ~self._c(o, lambda a, b: a == b)
    __hash__ = object.__hash__
    def __add__(self, o):
        if isinstance(o, Timedelta): return Timedelta.of(self.ns + o.ns)
        return NotImplemented
    def __sub__(self, o):
        if isinstance(o, Timedelta): return Timedelta.of(self.ns - o.ns)
        return NotImplemented
    def __neg__(self): return Timedelta.of(-self.ns)
    def __mul__(self, o):
        v = num(o)
        if not v.isint: raise Unsupported('fractional timedelta')
        return Timedelta.of(self.ns * v.v)
    __rmul__ = __mul__

_DAY = 86400 * 10**9
_UNIT = {'ns': 1, 'us': 10**3, 'ms': 10**6, 's': 10**9, 'S': 10**9, 'min': 60 * 10**9, 'm': 60 * 10**9, 'T': 60 * 10**9, 'h': 3600 * 10**9, 'H': 3600 * 10**9,
         'D': _DAY, 'd': _DAY, 'W': 7 * _DAY, 'w': 7 * _DAY, 'days': _DAY, 'hours': 3600 * 10**9, 'minutes': 60 * 10**9, 'seconds': 10**9, 'weeks': 7 * _DAY}

class Timestamp:
    def __init__(self, t): self.t = t if z3.is_expr(t) else zi(t)
    def _as_num(self): return Num(self.t)
    def _c(self, o, f): return SymBool(simp_b(f(self.t, o.t)))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b) if isinstance(o, Timestamp) else NotImplemented
    def __le__(self, o): return self._c(o, lambda a, b: a <= b) if isinstance(o, Timestamp) else NotImplemented
    def __gt__(self, o): return self._c(o, lambda a, b: a > b) if isinstance(o, Timestamp) else NotImplemented
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b) if isinstance(o, Timestamp) else NotImplemented
    def __eq__(self, o): return self._c(o, lambda a, b: a == b) if isinstance(o, Timestamp) else (NotImplemented if isinstance(o, (ndarray, Index)) else False)
    def __ne__(self, o): return ~self._c(o, lambda a, b: a == b) if isinstance(o, Timestamp) else (NotImplemented if isinstance(o, (ndarray, Index)) else True)
    __hash__ = object.__hash__
    def __add__(self, o):
        if isinstance(o, Timedelta): return Timestamp(z3.simplify(self.t + o.ns))
        if isinstance(o, (int, float, Num)): raise TypeError('Addition/subtraction of integers and integer-arrays with Timestamp is no longer supported.')
        return NotImplemented
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, Timedelta): return Timestamp(z3.simplify(self.t - o.ns))
        if isinstance(o, Timestamp): return Timedelta.of(self.t - o.t)
        if isinstance(o, (int, float, Num)): raise TypeError('Addition/subtraction of integers and integer-arrays with Timestamp is no longer supported.')
        return NotImplemented
    def _vc_ite(self, c, o):
        if isinstance(o, Timestamp): return Timestamp(core.t_ite(c, self.t, o.t))
        raise Unsupported('merge of a timestamp')
    def __repr__(self): return f'<ts {self.t}>'

class DatetimeIndex(Index):
    """Index whose labels are timestamps; label(i) gives a Num (nanoseconds)."""
    def __init__(self, token, n=None, off=0, name=None, label=None, freq=None):
        if isinstance(token, Series): token = token._dtindex()
        if isinstance(token, DatetimeIndex):
            o = token
            Index.__init__(self, o.token, o.n, o.off, o.name, o._label); self.freqstr = o.freqstr; return
        Index.__init__(self, token, n, off, name, label)
        self.freqstr = freq
    @property
    def freq(self): return self.freqstr
    @property
    def asi8(self): return ndarray.new((self.n,), lambda i: self._lab(i), 'i')
    def _lab(self, i): return self._label(z3.simplify(zi(self.off) + zi(i)))
    def _at(self, i): return Timestamp(self._lab(i).v)
    def _arr(self): return self.asi8
    @property
    def is_monotonic_increasing(self):
        f = self._lab
        return SymBool(b_not(reduce_term('any', z3.IntVal(0), z3.simplify(zi(self.n) - 2), lambda j: (f(j).v > f(z3.simplify(j + 1)).v,))))
    def _cmp(self, o, f):
        if isinstance(o, Timestamp): return elementwise(lambda a: SymBool(simp_b(f(a.v, o.t))), self.asi8, kind='b')
        if isinstance(o, DatetimeIndex): return elementwise(lambda a, b: SymBool(simp_b(f(a.v, b.v))), self.asi8, o.asi8, kind='b')
        raise TypeError('Invalid comparison between dtype=datetime64[ns] and ' + type(o).__name__)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    __hash__ = object.__hash__
    def __getitem__(self, k):
        if isinstance(k, Series): k = k._values
        if isinstance(k, ndarray):
            return DTArray(self.asi8[k])
        return Index.__getitem__(self, k)
    @classmethod
    def _like(cls, s, n, off):
        r = DatetimeIndex(s.token, n, off, s.name, s._label)
        return r
    def max(self): return DTArray(self.asi8).max()
    def min(self): return DTArray(self.asi8).min()
    def to_series(self, **k): return DTSeries(self)
    def to_frame(self, **k): raise Unsupported('frame of dates')
    def diff(self, periods=1): return DTSeries(self).diff(periods)
    def __sub__(self, o):
        if not isinstance(o, DatetimeIndex): raise Unsupported('arithmetic on dates')
        if not same_dim(self.n, o.n): raise ValueError('cannot add indices of unequal length')
        f, g = self._lab, o._lab
        return TDArray(self.n, lambda i: Num(z3.simplify(f(i).v - g(i).v)))
    def searchsorted(self, v, side='left'):
        from .npshim import searchsorted
        return searchsorted(self.asi8, Num(v.t), side)
    def unique(self): raise Unsupported('unique of dates')
    @property
    def name_(self): return self.name

class DTArray:
    """Selected timestamps."""
    def __init__(self, a): self.a = a
    def max(self): return Timestamp(self.a.max().v)
    def min(self): return Timestamp(self.a.min().v)
    def __getitem__(self, k):
        r = self.a[k]
        return Timestamp(r.v) if isinstance(r, Num) else DTArray(r)
    def _vc_len(self): return self.a.shape[0]
    @property
    def shape(self): return self.a.shape

class TDArray:
    """Timedeltas: el(i) is a Num of nanoseconds, missing where it has no value."""
    def __init__(self, n, el, first_missing=False, raw=None): self.n, self.f, self.first_missing, self.raw = dim(n), el, first_missing, raw or el
    def _vc_len(self): return self.n
    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise Unsupported('len of symbolic timedeltas')
    @property
    def shape(self): return (self.n,)
    @property
    def size(self): return self.n
    @property
    def values(self): return self
    @property
    def dt(self): return self
    @property
    def empty(self): return SymBool(simp_b(zi(self.n) == 0))
    def to_numpy(self): return self
    def to_series(self, **k): return self
    def _num(self, f, kind='i'):
        g = self.f
        return Series(ndarray.new((self.n,), lambda i: f(num(g(i))), kind))
    @property
    def days(self): return self._num(lambda v: v // num(_DAY))
    def total_seconds(self): return self._num(lambda v: num_div(v, num(10**9)), 'f')
    def dropna(self):
        if not self.first_missing: return self
        g = self.raw
        return TDArray(core.t_ite(simp_b(zi(self.n) > 0), z3.simplify(zi(self.n) - 1), z3.IntVal(0)), lambda i: g(z3.simplify(zi(i) + 1)))
    def _cmp(self, o, f):
        if not isinstance(o, Timedelta): raise Unsupported('comparison of timedeltas')
        return self._num(lambda v: SymBool(b_and(b_not(v.nan), f(v.v, o.ns))), 'b')
    def __eq__(self, o): return self._cmp(o, lambda a, b: simp_b(a == b))
    def __ne__(self, o): return ~self._cmp(o, lambda a, b: simp_b(a == b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: simp_b(a < b))
    def __le__(self, o): return self._cmp(o, lambda a, b: simp_b(a <= b))
    def __gt__(self, o): return self._cmp(o, lambda a, b: simp_b(a > b))
    def __ge__(self, o): return self._cmp(o, lambda a, b: simp_b(a >= b))
    __hash__ = object.__hash__
    def eq(self, o): return self == o
    def isin(self, xs):
        r = None
        for x in xs: r = (self == x) if r is None else r | (self == x)
        return r
    def value_counts(self): return TDCounts(self)
    @property
    def iloc(self): return self
    def __getitem__(self, k):
        g = self.raw
        if isinstance(k, slice):
            a, ln, stp = norm_slice(k, self.n)
            if stp != 1: raise Unsupported('timedelta slice')
            if self.first_missing and simp_b(zi(a) >= 1) is not True: raise Unsupported('timedelta slice')
            return TDArray(ln, lambda i: g(z3.simplify(zi(i) + a)))
        if isinstance(k, Series): k = k._values
        if isinstance(k, ndarray) and k.kind == 'b': return _Selected(ndarray.new((self.n,), self.f, 'i')[k])
        raise Unsupported('timedelta selection')

class TDCounts:
    def __init__(self, s): self.s = s
    def get(self, k, default=None):
        if not isinstance(k, Timedelta): raise Unsupported('value_counts key')
        c = (self.s == k).sum()
        if isinstance(default, (int, Num)) and simp_b(zi(default) == 0) is True: return c
        return c if bool(num(c) > 0) else default
    def __contains__(self, k): return bool(num((self.s == k).sum()) > 0)
    def __getitem__(self, k):
        c = (self.s == k).sum()
        if bool(num(c) == 0): raise KeyError(k)
        return c

class DTSeries:
    """a series of the dates of an index"""
    def __init__(self, ix): self.ix = ix
    @property
    def index(self): return self.ix
    @property
    def dt(self): return self.ix
    def _vc_len(self): return self.ix.n
    @property
    def shape(self): return (self.ix.n,)
    def diff(self, periods=1):
        if periods != 1: raise Unsupported('diff of dates')
        f = self.ix._lab
        raw = lambda i: Num(z3.simplify(f(zi(i)).v - f(z3.simplify(zi(i) - 1)).v))
        return TDArray(self.ix.n, lambda i: num_ite(simp_b(zi(i) > 0), raw(i), num(float('nan'))), True, raw)

def _flag(name):
    def get(self):
        f = self._lab
        F = z3.Function(f'calendar_{name}', z3.IntSort(), z3.BoolSort())
        assumed(f'pandas.DatetimeIndex.{name}: a property of each date')
        return ndarray.new((self.n,), lambda i: SymBool(F(f(i).v)), 'b')
    return property(get)
for _k in ('is_year_end', 'is_year_start', 'is_quarter_end', 'is_quarter_start', 'is_month_end', 'is_month_start'): setattr(DatetimeIndex, _k, _flag(_k))

class Series(arr.Series_marker):
    __array_priority__ = 3000
    __hash__ = object.__hash__
    ndim = 1
    def __class_getitem__(cls, k): return cls
    def __init__(self, data=None, index=None, name=None, dtype=None, copy=False):
        if isinstance(data, Series):
            index = index or data.index; name = name if name is not None else data.name; data = data._values
        if isinstance(data, DatetimeIndex):
            self._dt = data; self.kind = 'M'
            v = data.asi8
        else:
            self._dt = None
            if isinstance(data, (list, tuple, SymList)): v = asarray(data)
            elif isinstance(data, ndarray): v = data
            elif data is None: raise Unsupported('empty Series')
            elif is_scalar(data):
                if index is None: raise Unsupported('scalar Series')
                v = arr.full((index.n,), data)
            else: raise Unsupported(f'Series of {type(data).__name__}')
        if isinstance(v, Compressed): raise Unsupported('Series of a selection')
        if v.ndim != 1: raise ValueError('Data must be 1-dimensional')
        self._values = v
        if index is None: index = range_index(v.shape[0])
        elif not isinstance(index, Index): raise Unsupported('explicit labels')
        elif not same_dim(index.n, v.shape[0]): raise ValueError(f'Length of values does not match length of index')
        self._index = index
        self.name = name
    # -- plumbing
    @property
    def index(self): return self._index
    @index.setter
    def index(self, ix): self._index = ix
    def _dtindex(self):
        if self._dt is None: raise Unsupported('dates of a numeric series')
        return self._dt
    def _new(self, v, name='__keep__'):
        return Series(v, self._index, self.name if name == '__keep__' else name)
    def _fn(self):
        f = self._values.snapshot()
        return lambda i: num(f(i))
    def _map(self, f, kind=None): return self._new(elementwise(f, self._values, kind=kind))
    def _elementwise(self, f, *args, kind=None):
        ser = [a for a in args if isinstance(a, Series)]
        ix = ser[0]._index
        for s in ser[1:]:
            if not ix.same(s._index): raise Unsupported('operation on differently indexed series')
        args = [a._values if isinstance(a, Series) else a for a in args]
        if any(isinstance(a, DataFrame) for a in args): raise Unsupported('series and frame')
        names = {s.name if isinstance(s.name, (str, type(None))) else id(s.name) for s in ser}
        return Series(elementwise(f, *args, kind=kind), ix, ser[0].name if len(names) == 1 else None)
    @property
    def values(self): return self._values
    @property
    def array(self): return self._values
    def to_numpy(self, dtype=None, copy=False, **k): return self._values.copy() if copy else self._values
    def __array__(self, *a): raise Unsupported('__array__')
    @property
    def shape(self): return self._values.shape
    @property
    def size(self): return self._values.shape[0]
    @property
    def dtype(self): return self._values.dtype if self._dt is None else DT64()
    @property
    def empty(self): return SymBool(simp_b(zi(self.shape[0]) == 0))
    def _vc_len(self): return self._values.shape[0]
    def __len__(self): return len(self._values)
    def _as_list(self): return self._values._as_list()
    def __bool__(self): raise ValueError('The truth value of a Series is ambiguous.')
    def rename(self, name=None, **k):
        r = Series(self._values, self._index, name); r._dt = self._dt; return r
    def copy(self, deep=True):
        r = Series(self._values.copy(), self._index, self.name); r._dt = self._dt; return r
    def astype(self, t, **k): return self._new(self._values.astype(t))
    @property
    def iloc(self): return _ILoc(self)
    @property
    def loc(self): raise Unsupported('loc')
    @property
    def iat(self): return _ILoc(self)
    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.iloc[k]
        if isinstance(k, Series): k = k._values
        if isinstance(k, ndarray) and k.kind == 'b': return _Selected(self._values[k])
        if self._index.token == ('range',) and simp_b(zi(self._index.off) == 0) is True and isinstance(k, (int, Num)):
            if isinstance(k, int) and k < 0: raise KeyError(k)
            return self._values[k]
        raise Unsupported('label access on a series')
    def __setitem__(self, k, v):
        if isinstance(k, Series):
            if not self._index.same(k._index): raise Unsupported('mask on another index')
            self._values[k._values] = v; return
        if isinstance(k, ndarray) and k.kind == 'b': self._values[k] = v; return
        raise Unsupported('series assignment')
    # -- elementwise
    def abs(self): return self._map(lambda a: abs(a))
    def __abs__(self): return self.abs()
    def __neg__(self): return self._map(lambda a: -a)
    def __pos__(self): return self
    def __invert__(self): return self._map(lambda a: SymBool(b_not(unz(a))), 'b')
    def isna(self): return self._map(lambda a: SymBool(num(a).nan), 'b')
    isnull = isna
    def notna(self): return self._map(lambda a: SymBool(b_not(num(a).nan)), 'b')
    notnull = notna
    def fillna(self, v=None, **k):
        if v is None: raise Unsupported('fillna')
        return self._map(lambda a: num_ite(num(a).nan, num(v), num(a)))
    def where(self, cond, other=float('nan'), **k):
        return self._elementwise(lambda a, c, o: num_ite(unz(c), num(a), num(o)), self, cond, other)
    def mask(self, cond, other=float('nan'), **k):
        return self._elementwise(lambda a, c, o: num_ite(unz(c), num(o), num(a)), self, cond, other)
    def clip(self, lower=None, upper=None, **k):
        return self._new(arr.clip(self._values, lower, upper))
    def pow(self, e): return self ** e
    def add(self, o): return self + o
    def sub(self, o): return self - o
    subtract = sub
    def mul(self, o): return self * o
    multiply = mul
    def div(self, o): return self / o
    truediv = div; divide = div
    def gt(self, o): return self > o
    def lt(self, o): return self < o
    def ge(self, o): return self >= o
    def le(self, o): return self <= o
    def eq(self, o): return self == o
    def ne(self, o): return self != o
    def apply(self, f, *a, **k):
        raise Unsupported('apply')
    # -- shifts
    def shift(self, periods=1, fill_value=None, **k):
        p = num(periods)
        f = self._fn(); n = zi(self.shape[0])
        miss = num(float('nan')) if fill_value is None else num(fill_value)
        def el(i):
            j = z3.simplify(zi(i) - p.v)
            return num_ite(b_and(simp_b(j >= 0), simp_b(j < n)), f(j), miss)
        return self._new(ndarray.new(self.shape, el, 'f'))
    def diff(self, periods=1): return self._new((self - self.shift(periods))._values)
    def pct_change(self, periods=1, fill_method='pad', **k):
        x = self.ffill() if fill_method is not None else self
        return x._new((x / x.shift(periods) - 1)._values)
    def ffill(self, **k):
        if k: raise Unsupported('ffill options')
        f = self._fn()
        with bound() as j: e = f(j)
        if is_false(nanflag(e)): return self
        miss = Num(z3.RealVal(0), True)
        def el(i):
            w = reduce_term('last', z3.IntVal(0), zi(i), lambda j: (b_not(f(j).nan),))
            return num_ite(simp_b(w >= 0), f(w), miss)
        return self._new(ndarray.new(self.shape, el, 'f'))
    def cumsum(self, **k): return self._new(self._skipna_cum())
    def _skipna_cum(self):
        with bound() as j: e = self._fn()(j)
        if not is_false(nanflag(e)): raise Unsupported('cumsum of missing values')
        return self._values.cumsum()
    # -- reductions
    def _red(self, meth, *a, **k):
        f = self._fn()
        with bound() as j: e = f(j)
        if not is_false(nanflag(e)): raise Unsupported(f'{meth} of missing values')
        return getattr(self._values, meth)(*a, **k)
    def sum(self, **k): return self._red('sum')
    def mean(self, **k): return self._red('mean')
    def std(self, ddof=1, **k): return self._red('std', ddof=ddof)
    def var(self, ddof=1, **k): return self._red('var', ddof=ddof)
    def max(self, **k):
        if self._dt is not None: return self._dt.max()
        return self._red('max')
    def min(self, **k):
        if self._dt is not None: return self._dt.min()
        return self._red('min')
    def any(self, **k): return self._values.any()
    def all(self, **k): return self._values.all()
    def cov(self, o, **k): raise Unsupported('series cov')
    def corr(self, o, **k): raise Unsupported('series corr')
    @property
    def is_monotonic_increasing(self):
        if self._dt is not None: return self._dt.is_monotonic_increasing
        f = self._fn()
        return SymBool(b_not(reduce_term('any', z3.IntVal(0), z3.simplify(zi(self.shape[0]) - 2), lambda j: (f(j).v > f(z3.simplify(j + 1)).v,))))
    def rolling(self, window=None, min_periods=None, center=False, closed=None, **k):
        if k or closed is not None: raise Unsupported('rolling options')
        return Rolling(self, window, min_periods, center)
    def expanding(self, min_periods=1, **k): return Rolling(self, None, min_periods, False)
    def ewm(self, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, **k):
        if not (adjust is True) or ignore_na or k: raise Unsupported('ewm options')
        given = [x for x in (com, span, halflife, alpha) if x is not None]
        if len(given) != 1: raise ValueError('comass, span, halflife, and alpha are mutually exclusive')
        if span is not None:
            if bool(num(span) < 1): raise ValueError('span must satisfy: span >= 1')
            a = num_div(num(2), num(span) + 1)
        elif com is not None:
            if bool(num(com) < 0): raise ValueError('comass must satisfy: comass >= 0')
            a = num_div(num(1), num(com) + 1)
        elif alpha is not None:
            a = num(alpha)
            if bool((a <= 0) | (a > 1)): raise ValueError('alpha must satisfy: 0 < alpha <= 1')
        else: raise Unsupported('halflife')
        return Ewm(self, a, min_periods)
    def reindex(self, index=None, fill_value=float('nan'), **k):
        if index is None or k: raise Unsupported('reindex')
        if index.token != self._index.token: raise Unsupported('reindex to another index')
        f = self._fn(); d = z3.simplify(zi(index.off) - zi(self._index.off)); n = zi(self.shape[0])
        fv = num(fill_value)
        def el(i):
            j = z3.simplify(zi(i) + d)
            return num_ite(b_and(simp_b(j >= 0), simp_b(j < n)), f(j), fv)
        return Series(ndarray.new((index.n,), el, 'f'), index, self.name)
    def isin(self, xs):
        xs = list(xs)
        return self._map(lambda a: SymBool(b_or(*[unz(num(a) == num(x)) for x in xs])), 'b')
    def between(self, lo, hi, inclusive='both'):
        if inclusive != 'both': raise Unsupported('between')
        return (self >= lo) & (self <= hi)
    def dropna(self, **k): raise Unsupported('dropna')
    def tolist(self): return self._values.tolist()
    def reset_index(self, drop=False, **k):
        if not drop: raise Unsupported('reset_index')
        return Series(self._values, None, self.name)
    def head(self, n=5): return self.iloc[:n]
    def tail(self, n=5): return self.iloc[-n:]
    def __repr__(self): return f'<Series {self.shape}>'

class DT64:
    kind = 'M'
    def __eq__(self, o): return False
    __hash__ = object.__hash__

class _Selected:
    def __init__(self, c): self.c = c
    @property
    def iloc(self): return self.c
    @property
    def values(self): return self.c
    def to_numpy(self): return self.c
    def max(self): return self.c.max()
    def min(self): return self.c.min()
    def sum(self): return self.c.sum()
    def mean(self): return self.c.mean()
    def _vc_len(self): return self.c.shape[0]
    @property
    def shape(self): return self.c.shape

class _ILoc:
    def __init__(self, s): self.s = s
    def __getitem__(self, k):
        s = self.s
        if isinstance(s, DataFrame): return s._iloc(k)
        if isinstance(k, slice):
            return Series(s._values[k], s._index[k], s.name)
        if isinstance(k, (int, Num)):
            return s._values[k]
        raise Unsupported('iloc')
    def __setitem__(self, k, v):
        s = self.s
        if isinstance(s, DataFrame): raise Unsupported('iloc assignment')
        s._values[k] = v._values if isinstance(v, Series) else v

def _sbin(f, kind=None, refl=False):
    def op(self, o):
        if isinstance(o, (str, type(None), dict, DataFrame)): return NotImplemented
        if isinstance(o, (list, tuple)): o = asarray(o)
        return self._elementwise((lambda a, b: f(b, a)) if refl else f, self, o, kind=kind)
    return op
for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod'):
    _f = arr.n_bin(arr._OPS[_n])
    setattr(Series, f'__{_n}__', _sbin(_f)); setattr(Series, f'__r{_n}__', _sbin(_f, refl=True))
Series.__pow__ = _sbin(lambda a, b: num_pow(num(a), b)); Series.__rpow__ = _sbin(lambda a, b: num_pow(num(a), b), refl=True)
import operator as _o
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'): setattr(Series, f'__{_n}__', _sbin(arr.n_bin(getattr(_o, _n)), 'b'))
for _n, _f in {'and': b_and, 'or': b_or, 'xor': lambda a, b: b_not(core.b_eq(a, b))}.items():
    setattr(Series, f'__{_n}__', _sbin(arr._bool_or_int(_f), 'b')); setattr(Series, f'__r{_n}__', _sbin(arr._bool_or_int(_f), 'b'))
for _n in ('add', 'sub', 'mul', 'truediv'):
    def _mk(n):
        def op(self, o):
            r = getattr(Series, f'__{n}__')(self, o)
            self._values = r._values.copy()     # pandas in-place arithmetic writes into the object (buffer identity not modelled)
            return self
        return op
    setattr(Series, f'__i{_n}__', _mk(_n))

class Rolling:
    def __init__(self, s, window, min_periods, center):
        self.s, self.center = s, center
        self.w = None if window is None else num(window)
        if self.w is not None:
            if not self.w.isint: raise Unsupported('non-integer window')
            if bool(self.w < 0): raise ValueError('window must be an integer 0 or greater')
        self.mp = None if min_periods is None else num(min_periods)
        if self.mp is not None and self.w is not None and bool(self.mp > self.w): raise ValueError('min_periods must be <= window')
        self.n = s.shape[0] if not isinstance(s, DataFrame) else s.shape[0]
        assumed('pandas.Series.rolling: statistic of the trailing window, missing unless the window is complete (or min_periods reached); infinities count as missing')
    def _win(self, i):
        i = zi(i)
        if self.w is None: return z3.IntVal(0), i
        if self.center:
            off = z3.simplify((self.w.v - 1) / 2)
            return z3.simplify(i + off - self.w.v + 1), z3.simplify(i + off)
        return z3.simplify(i - self.w.v + 1), i
    def _apply(self, stat, need=None, fns=None):
        """stat(lo, hi, f) on complete windows."""
        f = self.s._fn()
        val = lambda k: Num(f(k).real_v)
        n = zi(self.n)
        with bound() as j: e = f(j)
        clean = is_false(nanflag(e))
        def el(i):
            lo, hi = self._win(i)
            if self.mp is None:
                out = b_or(simp_b(lo < 0), simp_b(hi >= n) if self.center else False)
                miss = False if clean else reduce_term('any', lo, hi, lambda k: (nanflag(f(k)),))
                w = self.w.v
                r = stat(lo, hi, val)
                extra = b_or(r.nan, r.bad)
                return Num(r.real_v, b_or(out, miss, extra, simp_b(w <= 0)), False)
            lo2 = core.z3.If(lo < 0, z3.IntVal(0), lo); hi2 = core.z3.If(hi >= n, n - 1, hi) if self.center else hi
            cnt = Num(z3.simplify(hi2 - lo2 + 1)) if clean else Num(reduce_term('count', lo2, hi2, lambda k: (core.zb(b_not(nanflag(f(k)))),)))
            if clean: r = stat(lo2, hi2, val)
            else:
                if stat is defs.wsum: r = defs.wsum(lo2, hi2, lambda k: num_ite(nanflag(f(k)), num(0.0), val(k)))
                elif stat is defs.wmean: r = num_div(defs.wsum(lo2, hi2, lambda k: num_ite(nanflag(f(k)), num(0.0), val(k))), cnt)
                else: raise Unsupported('min_periods on missing values')
            return Num(r.real_v, b_or(simp_b(cnt.v < self.mp.v), b_or(r.nan, r.bad) if stat is not defs.wsum else False), False)
        return self.s._new(ndarray.new((self.n,), el, 'f'))
    def mean(self, **k): return self._apply(defs.wmean)
    def sum(self, **k): return self._apply(defs.wsum)
    def var(self, ddof=1, **k): return self._apply(lambda lo, hi, f: defs.wvar(lo, hi, f, ddof))
    def std(self, ddof=1, **k): return self._apply(lambda lo, hi, f: defs.wstd(lo, hi, f, ddof))
    def max(self, **k): return self._apply(defs.wmax)
    def min(self, **k): return self._apply(defs.wmin)
    def count(self, **k): raise Unsupported('rolling count')
    def median(self, **k): raise Unsupported('rolling median')
    def apply(self, *a, **k): raise Unsupported('rolling apply')
    def cov(self, other=None, ddof=1, **k):
        if other is None: other = self.s
        if not self.s._index.same(other._index): raise Unsupported('rolling cov on different indices')
        if self.mp is not None or self.center: raise Unsupported('rolling cov options')
        f, g = self.s._fn(), other._fn()
        def el(i):
            lo, hi = self._win(i)
            miss = reduce_term('any', lo, hi, lambda k: (b_or(nanflag(f(k)), nanflag(g(k))),))
            r = defs.wcov(lo, hi, lambda k: Num(f(k).real_v), lambda k: Num(g(k).real_v), ddof)
            return Num(r.real_v, b_or(simp_b(lo < 0), miss, r.nan, r.bad), False)
        return Series(ndarray.new((self.n,), el, 'f'), self.s._index, None)

class Ewm:
    def __init__(self, s, alpha, mp):
        self.s, self.a, self.mp = s, alpha, num(mp)
        assumed('pandas.Series.ewm: mean and deviation with weights (1-alpha)^(age) over the non-missing values so far (adjust=True, ignore_na=False)')
    def _few(self, i, f):
        m = self.mp
        c = simp_b(m.v <= 1)
        if c is True: return False
        return simp_b(reduce_term('count', z3.IntVal(0), i, lambda k: (core.zb(b_not(nanflag(f(k)))),)) < m.v)
    def mean(self, **k):
        f = self.s._fn(); a = self.a
        def el(i):
            r = defs.ewm_mean(i, f, a)
            return Num(r.v, b_or(r.nan, self._few(i, f)), False)
        return self.s._new(ndarray.new(self.s.shape, el, 'f'))
    def var(self, bias=False, **k):
        if bias: raise Unsupported('biased ewm var')
        f = self.s._fn(); a = self.a
        def el(i):
            r = defs.ewm_var(i, f, a)
            return Num(r.v, b_or(r.nan, self._few(i, f)), False)
        return self.s._new(ndarray.new(self.s.shape, el, 'f'))
    def std(self, bias=False, **k):
        r = self.var(bias)._values
        return self.s._new(elementwise(num_sqrt, r))

class Columns:
    """Column labels."""
    def __init__(self, names): self._n = names
    @property
    def values(self): return self
    def tolist(self): return list(self._n) if isinstance(self._n, (list, tuple)) else self._n
    def __iter__(self): return iter(self._n)
    def _vc_len(self): return len(self._n) if isinstance(self._n, (list, tuple)) else self._n.n
    def __eq__(self, o): return isinstance(o, Columns) and (self._n is o._n or self._n == o._n)
    __hash__ = object.__hash__
    def __getitem__(self, k): return self._n[k]

class ColToken:
    """Column labels of a frame with a symbolic number of columns."""
    def __init__(self, name, n): self.name, self.n = name, n

class DataFrame:
    __array_priority__ = 3500
    __hash__ = object.__hash__
    ndim = 2
    def __class_getitem__(cls, k): return cls
    def __init__(self, data=None, index=None, columns=None, **kw):
        if isinstance(data, dict):
            items = list(data.items())
            sers = [v for _, v in items if isinstance(v, Series)]
            if len(sers) == len(items) and items:
                ix = sers[0]._index
                for s in sers[1:]:
                    if not ix.same(s._index): raise Unsupported('frame of differently indexed series')
            else: raise Unsupported('frame from a dict of arrays')
            names = [k for k, _ in items]
            fs = [v._values.snapshot() for _, v in items]
            n = sers[0].shape[0]
            self._values = ndarray.new((n, len(fs)), lambda i, c: arr.pick_lazy([lambda f=f: f(i) for f in fs], c))
            self._index, self._cols = ix, names
            return
        if isinstance(data, DataFrame): data = data._values
        if isinstance(data, (list, tuple)): data = asarray(data)
        if not isinstance(data, ndarray): raise Unsupported('frame constructor')
        if data.ndim == 1: data = data.reshape(-1, 1)
        if data.ndim != 2: raise ValueError('Must pass 2-d input')
        self._values = data
        if index is None: self._index = range_index(data.shape[0])
        elif isinstance(index, Index):
            if not same_dim(index.n, data.shape[0]): raise ValueError('Shape of passed values')
            self._index = index
        else: self._index = Index(('labels', id(index._n) if isinstance(index, Columns) else id(index)), data.shape[0], label=None); self._index.labels = index
        if columns is None: self._cols = list(range(data.shape[1])) if isinstance(data.shape[1], int) else ColToken('range', data.shape[1])
        else:
            c = columns._n if isinstance(columns, Columns) else columns
            self._cols = list(c) if isinstance(c, (list, tuple)) else c
            if isinstance(self._cols, list) and not same_dim(len(self._cols), data.shape[1]): raise ValueError('Shape of passed values')
    @property
    def values(self): return self._values
    def to_numpy(self, **k): return self._values
    @property
    def index(self): return self._index
    @property
    def columns(self): return Columns(self._cols)
    @property
    def shape(self): return self._values.shape
    @property
    def size(self): return self._values.size
    def _vc_len(self): return self.shape[0]
    @property
    def T(self): raise Unsupported('frame transpose')
    @property
    def iloc(self): return _ILoc(self)
    @property
    def loc(self): raise Unsupported('loc')
    def _col(self, c):
        v = self._values
        return Series(v[:, c], self._index, self._cols[c])
    def __getitem__(self, k):
        if isinstance(k, str) and isinstance(self._cols, list):
            if k not in self._cols: raise KeyError(k)
            return self._col(self._cols.index(k))
        if isinstance(k, list) and isinstance(self._cols, list):
            ix = [self._cols.index(c) for c in k]
            fs = [self._values[:, c].snapshot() for c in ix]
            return DataFrame(ndarray.new((self.shape[0], len(ix)), lambda i, c: arr.pick_lazy([lambda f=f: f(i) for f in fs], c)), index=self._index, columns=k)
        raise Unsupported('frame selection')
    def _iloc(self, k):
        if isinstance(k, slice): return DataFrame(self._values[k], index=self._index[k], columns=self._cols)
        if isinstance(k, (int, Num)): raise Unsupported('row of a frame')
        if isinstance(k, tuple) and isinstance(k[0], slice) and isinstance(k[1], int):
            return Series(self._values[k], self._index[k[0]], self._cols[k[1]] if isinstance(self._cols, list) else None)
        if isinstance(k, tuple) and isinstance(k[0], (int, Num)) and isinstance(k[1], (int, Num)): return self._values[k]
        raise Unsupported('iloc')
    def copy(self, deep=True): return DataFrame(self._values.copy(), index=self._index, columns=self._cols)
    def _rowred(self, fn, axis):
        if axis != 1 or not isinstance(self.shape[1], int): raise Unsupported('frame reduction')
        f = self._values.snapshot(); m = self.shape[1]
        def el(i): return fn([num(f(i, z3.IntVal(c))) for c in range(m)])
        return Series(ndarray.new((self.shape[0],), el, 'f'), self._index, None)
    def max(self, axis=0, skipna=True, **k):
        return self._rowred(lambda xs: _skipmax(xs, True, skipna), axis)
    def min(self, axis=0, skipna=True, **k):
        return self._rowred(lambda xs: _skipmax(xs, False, skipna), axis)
    def sum(self, axis=0, **k):
        def f(xs):
            r = num(0.0)
            for x in xs: r = r + num_ite(x.nan, num(0.0), x)
            return r
        return self._rowred(f, axis)
    def mean(self, axis=0, **k):
        def f(xs):
            r = num(0.0); c = num(0)
            for x in xs: r = r + num_ite(x.nan, num(0.0), x); c = c + num_ite(x.nan, num(0), num(1))
            return num_div(r, c)
        return self._rowred(f, axis)
    def corr(self, method='pearson', min_periods=1, **k):
        from .npshim import corr_uf
        v = self._values
        return DataFrame(corr_uf(v, str(method)), index=Columns(self._cols), columns=self._cols)
    def _map(self, f): return DataFrame(elementwise(f, self._values), index=self._index, columns=self._cols)
    def clip(self, lower=None, upper=None, **k): return self._map(lambda x: arr.clip(x, lower, upper))
    def abs(self): return self._map(lambda x: abs(num(x)))
    def __abs__(self): return self.abs()
    def __neg__(self): return self._map(lambda x: -num(x))
    def __repr__(self): return f'<DataFrame {self.shape}>'

def _dbin(f, refl=False):
    def op(self, o):
        if isinstance(o, DataFrame): o = o._values
        elif not is_scalar(o): raise Unsupported('frame arithmetic')
        g = (lambda a, b: f(b, a)) if refl else f
        return DataFrame(elementwise(g, self._values, o), index=self._index, columns=self._cols)
    return op
for _n in ('add', 'sub', 'mul', 'truediv'):
    _f = arr.n_bin(arr._OPS[_n])
    setattr(DataFrame, f'__{_n}__', _dbin(_f)); setattr(DataFrame, f'__r{_n}__', _dbin(_f, True))
DataFrame.__pow__ = _dbin(lambda a, b: num_pow(num(a), b))
core._DEFER.append(DataFrame)

def _skipmax(xs, mx, skipna):
    r = None
    for x in xs:
        if r is None: r = x; continue
        better = simp_b((x.real_v > r.real_v) if mx else (x.real_v < r.real_v))
        pickx = b_or(b_and(b_not(x.nan), r.nan), b_and(b_not(x.nan), b_not(r.nan), better))
        n = num_ite(pickx, x, r)
        r = Num(n.real_v, b_and(x.nan, r.nan) if skipna else b_or(x.nan, r.nan), b_or(x.bad, r.bad))
    return r

def concat(objs, axis=0, **k):
    objs = list(objs)
    if axis != 1 or not all(isinstance(o, Series) for o in objs): raise Unsupported('concat')
    ix = objs[0]._index
    for s in objs[1:]:
        if not ix.same(s._index): raise Unsupported('concat of differently indexed series')
    fs = [o._values.snapshot() for o in objs]
    d = DataFrame(ndarray.new((objs[0].shape[0], len(fs)), lambda i, c: arr.pick_lazy([lambda f=f: f(i) for f in fs], c)), index=ix)
    d._cols = [o.name for o in objs]
    return d

def isna(x):
    if isinstance(x, (Series, DataFrame)): return x.isna()
    if x is None: return True
    if isinstance(x, ndarray): return elementwise(lambda a: SymBool(num(a).nan), x, kind='b')
    return SymBool(num(x).nan)

def infer_freq(ix):
    if isinstance(ix, DatetimeIndex):
        assumed('pandas.infer_freq: a function of the index')
        return ix.freqstr
    raise TypeError('cannot infer freq')

class _NA: pass
NaT = _NA()

def make_module():
    m = types.ModuleType('pandas')
    for k in ('Series', 'DataFrame', 'Index', 'RangeIndex', 'DatetimeIndex', 'Timedelta', 'Timestamp', 'concat', 'isna', 'infer_freq', 'NaT'):
        setattr(m, k, globals()[k])
    m.isnull = isna
    m.notna = lambda x: ~isna(x) if not isinstance(isna(x), bool) else not isna(x)
    m.NA = None
    def date_range(start=None, end=None, periods=None, freq=None, name=None, **k):
        assumed('pandas.date_range: dates from start advancing by freq')
        if end is not None or start is None or periods is None or freq is None: raise Unsupported('date_range')
        return DateRange(start, freq, periods, name)
    m.date_range = date_range
    def unsupported(n):
        def f(*a, **k): raise Unsupported(f'pandas.{n}')
        return f
    m.__getattr__ = lambda n: unsupported(n) if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
    return m

class DateRange(DatetimeIndex):
    def __init__(self, start, freq, periods, name, skip=0):
        Index.__init__(self, ('date_range', repr(start), repr(freq)), periods, skip, name, None)
        self.start, self.freqstr = start, freq
    @classmethod
    def _like(cls, s, n, off): return DateRange(s.start, s.freqstr, n, s.name, off)
