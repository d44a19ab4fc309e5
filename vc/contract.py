"""The contract language.  One contract text, two readings:

SymV  - every input symbolic and unbounded, the code is /repo's current source executed by vc.loader; every `ensure` is a
        verification condition sent to the solvers (the proof).
ConcV - inputs are numbers, the code is the imported library itself; used to replay counterexamples, to look for failing
        inputs, and to cross-check the assumed contracts on numpy/pandas/scipy.
"""
import math, random, time, sys, os
from . import core, arr, defs, pdshim, npshim, prover
from .core import (z3, Num, SymBool, Unsupported, PathAbort, assumed, num, zi, b_and, b_or, b_not, b_eq, is_true, is_false, simp_b, unz, num_ite,
                   num_div, num_sqrt, num_log, num_exp, num_pow, st, CTX, explore, zb, as_num)
from .prover import FactRule, prove

REGISTRY = {}

def contract(prop, name, **opts):
    def deco(f):
        REGISTRY.setdefault(prop, []).append((name, f, opts))
        return f
    return deco

class Skip(Exception):
    """Concrete input outside the precondition."""

class Raised(Exception):
    pass

class Obl:
    def __init__(self, name, status, backend, t, model=None, fs=None, inp=None, info='', pc=None):
        self.name, self.status, self.backend, self.t, self.model, self.fs, self.inp, self.info, self.pc = name, status, backend, t, model, fs, inp, info, pc

ARR_EXC = (AttributeError, NameError, NotImplementedError, AssertionError, RecursionError, SystemError)

def library_raised(e):
    """an assertion (or NotImplementedError) of the code under contract, not of the engine"""
    if not isinstance(e, (AssertionError, NotImplementedError)): return False
    tb = e.__traceback__
    if tb is None: return False
    while tb.tb_next is not None: tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith('/repo')

# ================================================================ symbolic
class SymV:
    symbolic = True
    def __init__(self, loader, timeout=8000, deadline=None):
        self.loader, self.timeout, self.deadline = loader, timeout, deadline
        self.results = []
        self.inp = {}
        self.covers = []
        self.path = 0
    # -- inputs
    def _reg(self, name, d): self.inp[name] = d
    def int(self, name, lo=None, hi=None, **k):
        z = z3.Int(name)
        self._reg(name, ('int', z))
        if lo is not None: CTX().assume(z >= zi(lo))
        if hi is not None: CTX().assume(z <= zi(hi))
        return Num(z)
    def real(self, name, lo=None, hi=None, gt=None, lt=None, **k):
        z = z3.Real(name)
        self._reg(name, ('real', z))
        if lo is not None: CTX().assume(z >= num(lo).real_v)
        if hi is not None: CTX().assume(z <= num(hi).real_v)
        if gt is not None: CTX().assume(z > num(gt).real_v)
        if lt is not None: CTX().assume(z < num(lt).real_v)
        return Num(z)
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1: return options[0]
        z = z3.Int('choice_' + name)
        self._reg(name, ('choice', z, len(options)))
        CTX().assume(z3.And(z >= 0, z < len(options)))
        for k in range(len(options) - 1):
            if bool(SymBool(z == k)): return options[k]
        return options[-1]
    def array(self, name, shape, nan=False, lo=None, hi=None, gt=None, kind='f', fact=None, **k):
        shape = arr._shape(shape)
        ar = len(shape)
        F = z3.Function(name, *([z3.IntSort()] * ar), z3.IntSort() if kind == 'i' else z3.RealSort())
        S = st()
        S.inputs[name] = 'input'
        N = None
        if nan: N = z3.Function(name + '_nan', *([z3.IntSort()] * ar), z3.BoolSort())
        self._reg(name, ('array', F, N, shape, kind))
        if nan: S.inputs[name + '_nan'] = 'input'
        inr = lambda i: z3.And(*[z3.And(x >= 0, x < zi(d)) for x, d in zip(i, shape)])
        cs = []
        if lo is not None: cs.append(lambda *i: F(*i) >= num(lo).real_v if kind != 'i' else F(*i) >= zi(lo))
        if hi is not None: cs.append(lambda *i: F(*i) <= num(hi).real_v if kind != 'i' else F(*i) <= zi(hi))
        if gt is not None: cs.append(lambda *i: F(*i) > num(gt).real_v if kind != 'i' else F(*i) > zi(gt))
        if fact is not None: cs.append(lambda *i: zb(unz(fact(Num(F(*i)), *[Num(x) for x in i]))))
        if cs: S.facts.append(FactRule([name], lambda *i: z3.Implies(inr(i), z3.And(*[c(*i) for c in cs]))))
        return arr.ndarray.new(shape, lambda *i: Num(F(*i), N(*i) if nan else False), kind)
    def bars(self, n, names=('p_high', 'p_low', 'p_open', 'p_close')):
        """Positive prices with low <= open, close <= high."""
        a = {k: self.array(k, n, gt=0) for k in names}
        h, l, o, c = names
        f = lambda i: self.and_(self.at(a[l], i) <= self.at(a[o], i), self.at(a[o], i) <= self.at(a[h], i), self.at(a[l], i) <= self.at(a[c], i), self.at(a[c], i) <= self.at(a[h], i))
        self.relate(names, f)
        return a
    def relate(self, names, f):
        """f(i): a relation between inputs that holds at every position (assumed, instantiated where they are used)."""
        st().facts.append(FactRule(names, lambda i: zb(unz(f(Num(i))))))
    def every(self, n, f):
        """assume f of every position below n (used at the positions of forall and of compared arrays)"""
        st().__dict__.setdefault('every', []).append((zi(n), f))
    def relate2(self, names, f):
        st().facts.append(FactRule(names, lambda i, j: zb(unz(f(Num(i), Num(j)))), pair=True))
    def series(self, a, index='idx', name=None):
        """Series of the elements of an array on an abstract index."""
        ix = pdshim.range_index(a.shape[0]) if index is None else pdshim.Index(('input', index), a.shape[0])
        return pdshim.Series(a, ix, name)
    def frame(self, a, columns, index='idx'):
        ix = pdshim.range_index(a.shape[0]) if index is None else pdshim.Index(('input', index), a.shape[0])
        return pdshim.DataFrame(a, index=ix, columns=columns)
    def timestamp(self, name):
        z = z3.Int(name); self._reg(name, ('int', z))
        return pdshim.Timestamp(z)
    def dates(self, name, n, freq=None, index_name=None):
        """increasing dates with an inferred frequency (None: irregular)"""
        F = z3.Function(name, z3.IntSort(), z3.IntSort())
        st().inputs[name] = 'dates'
        self._reg(name, ('array', F, None, arr._shape(n), 'i'))
        self.relate2([name], lambda i, j: SymBool(z3.Implies(i.v < j.v, F(i.v) < F(j.v))))
        return pdshim.DatetimeIndex(('input', name), n, 0, index_name, lambda i: Num(F(zi(i))), freq)
    # -- splitters
    def groups(self, name, n, container, unit='D'):
        """labels in ascending order, repeats allowed; (container, label at a position)"""
        F = z3.Function(name, z3.IntSort(), z3.IntSort())
        st().inputs[name] = 'input'
        self._reg(name, ('groups', F, container, n, unit))
        self.relate2([name], lambda i, j: SymBool(z3.Implies(z3.And(0 <= i.v, i.v < j.v, j.v < zi(n)), F(i.v) <= F(j.v))))
        G = lambda i: Num(F(zi(i)))
        a = arr.ndarray.new(arr._shape(n), lambda i: Num(F(i)), 'i')
        if container == 'array': return a, G
        if container == 'series': return pdshim.Series(a, pdshim.Index(('input', 'other labels'), a.shape[0])), G
        ix = pdshim.DatetimeIndex(('input', name), n, 0, None, lambda i: Num(F(zi(i))))
        if container == 'dates': return ix, G
        return pdshim.Series(ix, pdshim.Index(('input', 'other labels'), ix.n)), G
    def label(self, groups, i): return groups._lab(zi(i)) if isinstance(groups, pdshim.DatetimeIndex) else num(groups.el(zi(i)))
    def unit(self, unit): return pdshim._UNIT[unit]
    def splits(self, f):
        """an arbitrary split of those the splitter yields"""
        st().generic = None
        o, r = self.outcome(lambda: next(iter(f())))
        if o == 'raise': return None
        if st().generic is None: raise Unsupported('splits outside of a loop')
        return Split(r[0], r[1], *st().generic)
    def any_dates(self, name, n):
        """dates in any order, none missing"""
        F = z3.Function(name, z3.IntSort(), z3.IntSort())
        st().inputs[name] = 'dates'
        self._reg(name, ('array', F, None, arr._shape(n), 'i'))
        return pdshim.DatetimeIndex(('input', name), n, 0, None, lambda i: Num(F(zi(i))), None)
    def date_flag(self, ix, flag):
        a = getattr(ix, flag)
        return lambda i: SymBool(unz(a.el(zi(i))))
    def date_steps(self, ix):
        f = ix._lab
        return lambda i: f(z3.simplify(zi(i) + 1)) - f(zi(i))
    def number(self, v): return num(float(v))
    def first_date(self, ix): return ix.min()
    def last_date(self, ix): return ix.max()
    def make_series(self, a, ix, name): return pdshim.Series(a, ix if ix is not None else pdshim.range_index(a.shape[0]), name)
    def make_frame(self, a, ix, columns): return pdshim.DataFrame(a, index=ix if ix is not None else pdshim.range_index(a.shape[0]), columns=columns)
    def columns_are(self, r, names): return list(r._cols) == list(names) if isinstance(r._cols, (list, tuple)) else False
    def dates_are(self, ix, start, freq, n, skip, name):
        return isinstance(ix, pdshim.DateRange) and ix.name == name and bool(ix.same(pdshim.DateRange(start, freq, n - skip, name, skip)))
    def wrap(self, a, container, name=None):
        return a if container == 'array' else self.series(a, name=name)
    # -- code
    def fn(self, path):
        m, _, n = path.partition(':')
        o = self.loader.load(m)
        for p in n.split('.'): o = getattr(o, p)
        return o
    def summary(self, path, impl, text):
        """A caller is checked against this contract of the function, not its body (the body has a contract of its own)."""
        m, _, n = path.partition(':')
        o = self.loader.load(m); ps = n.split('.')
        for p in ps[:-1]: o = getattr(o, p)
        if not hasattr(o, ps[-1]): return
        assumed(f'{path} (this contract is checked separately): {text}')
        setattr(o, ps[-1], impl)
    def some_array(self, shape, lo, hi, fact=None):
        """the result of a summarised function: any array with entries in [lo, hi]"""
        name = core.fresh_name('some')
        return self.array(name, shape, lo=lo, hi=hi, fact=fact)
    def call(self, f, *a, **k): return f(*a, **k)
    def outcome(self, f, *a, **k):
        try: return 'ok', f(*a, **k)
        except (Unsupported, PathAbort): raise
        except ARR_EXC as e:
            if library_raised(e): return 'raise', e
            raise Unsupported(f'{type(e).__name__}: {e}')
        except Exception as e: return 'raise', e
    # -- quantifier
    def forall(self, name, lo, hi):
        """one arbitrary lo <= index < hi"""
        z = z3.Int('i!' + name)
        self._reg('i!' + name, ('int', z))
        c = z3.And(z >= zi(lo), z < zi(hi))
        if not CTX().feasible(c): return
        CTX().assume(c)
        if is_true(simp_b(zi(lo) == 0)):
            for f in npshim.every_facts([(z, hi)]): CTX().assume(f)
        yield Num(z)
    # -- logic
    def assume(self, c): CTX().assume(simp_b(unz(c)))
    def ensure(self, name, c, hyps=(), timeout=None, by=None, light=False):
        if self.deadline and time.time() > self.deadline:
            self.results.append(Obl(name, 'unknown', '', 0, info='time budget used up')); return
        z = unz(c)
        pc = CTX().allpc() + [zb(unz(h)) for h in hyps]
        if getattr(st(), 'havoc', False) and not is_true(simp_b(zb(z))):
            pass
        r = None
        if by is not None:
            r = prove(z, [zb(unz(h)) for h in by], timeout or self.timeout, plain=True)
        if light:          # fewer hypotheses: those without reductions
            r = prove(z, [h for h in pc if isinstance(h, bool) or not mentions_reduction(h)], timeout or self.timeout)
        if r is None or r.status != 'proved': r = prove(z, pc, timeout or self.timeout)
        if r.status == 'sat' and getattr(st(), 'havoc', False): r.status = 'unknown'
        self.results.append(Obl(name, r.status, r.backend, r.t, r.model, getattr(r, 'fs', None), dict(self.inp), str(z)[:400] if r.status != 'proved' else '', pc))
    def lemma(self, name, c, **k):
        """Prove, then use on the rest of the path."""
        z = unz(c)
        self.ensure(name, c, **k)
        CTX().assume(simp_b(zb(z)))
        S = st()
        S.__dict__.setdefault('lemma_facts', []).append(zb(z))
        return c
    def know(self, name, c, **k):
        """Prove; the caller uses it in `by`."""
        self.ensure(name, c, **k)
        return c
    def merge_conditions(self): st().merge_bool = True
    def sharpen(self): st().sharp = True
    def fork(self, c): return bool(SymBool(unz(c)))
    def and_(self, *cs): return SymBool(b_and(*[unz(c) for c in cs]))
    def or_(self, *cs): return SymBool(b_or(*[unz(c) for c in cs]))
    def not_(self, c): return SymBool(b_not(unz(c)))
    def implies(self, a, b): return SymBool(b_or(b_not(unz(a)), unz(b)))
    def iff(self, a, b): return SymBool(b_eq(unz(a), unz(b)))
    def eq(self, a, b, tol=None, scale=None):
        if a is None or b is None: return SymBool(a is None and b is None)
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)): return SymBool(b_eq(unz(a), unz(b)))
        a, b = num(a), num(b)
        veq = (a.v == b.v) if a.isint and b.isint else (a.real_v == b.real_v)
        veq = simp_b(veq)
        miss = b_or(a.nan, a.bad)
        return SymBool(b_and(b_eq(a.nan, b.nan), b_eq(a.bad, b.bad), b_or(miss, veq)))
    def same_missing(self, a, b):
        return SymBool(b_eq(b_or(num(a).nan, num(a).bad), b_or(num(b).nan, num(b).bad)))
    def eqv(self, a, b, **k):
        """Equal, infinities counted as missing."""
        a, b = num(a), num(b)
        return self.eq(Num(a.v, b_or(a.nan, a.bad)), Num(b.v, b_or(b.nan, b.bad)))
    def le(self, a, b, tol=None): return num(a) <= num(b)
    def lt(self, a, b, tol=None): return num(a) < num(b)
    def isnan(self, a): return SymBool(b_or(num(a).nan, num(a).bad))
    def isnan_strict(self, a): return SymBool(num(a).nan)
    def ok(self, a): return SymBool(num(a).ok)
    def If(self, c, a, b): return num_ite(unz(c), num(a), num(b))
    def nan(self): return Num(z3.RealVal(0), True)
    def same(self, a, b): return self.eq(a, b)
    # -- values
    def at(self, x, *i):
        if isinstance(x, (pdshim.Series, pdshim.DataFrame)): x = x._values
        if isinstance(x, (list, tuple)): x = arr.asarray(x)
        if not isinstance(x, arr.ndarray): raise Unsupported(f'element of {type(x).__name__}')
        if len(i) != x.ndim: raise Unsupported('element access with another number of dimensions')
        return x.el(*[zi(k) for k in i])
    def snapshot(self, x):
        """Immutable element function."""
        if isinstance(x, (pdshim.Series, pdshim.DataFrame)): x = x._values
        f = x.snapshot()
        return lambda *i: f(*[zi(k) for k in i])
    def length(self, x):
        if isinstance(x, (list, tuple)): return len(x)
        if hasattr(x, '_vc_len'): return x._vc_len()
        raise Unsupported(f'length of {type(x).__name__}')
    def shape(self, x): return x.shape
    def shape_is(self, x, *dims):
        if len(x.shape) != len(dims): return False
        return SymBool(b_and(*[simp_b(zi(a) == zi(b)) for a, b in zip(x.shape, dims)]))
    def values(self, x): return x._values if isinstance(x, (pdshim.Series, pdshim.DataFrame)) else x
    def is_array(self, x): return isinstance(x, arr.ndarray)
    def is_number(self, x): return isinstance(x, (int, float, Num)) and not isinstance(x, bool)
    def is_series(self, x): return isinstance(x, pdshim.Series)
    def is_frame(self, x): return isinstance(x, pdshim.DataFrame)
    def same_index(self, a, b): return bool(a.index.same(b.index))
    def like(self, r, x):
        """r is in the container of x, on its index, of its length."""
        if isinstance(x, pdshim.Series):
            if not isinstance(r, pdshim.Series): return False
            if not r.index.same(x.index): return False
        elif isinstance(x, pdshim.DataFrame):
            if not isinstance(r, pdshim.DataFrame) or not r.index.same(x.index) or r.columns != x.columns: return False
        elif not isinstance(r, arr.ndarray): return False
        if len(r.shape) != len(x.shape): return False
        return SymBool(b_and(*[simp_b(zi(a) == zi(b)) for a, b in zip(r.shape, x.shape)]))
    def labels_are(self, r, x):
        """rows and columns of r carry the column labels of x"""
        if not isinstance(r, pdshim.DataFrame): return False
        l = getattr(r.index, 'labels', None)
        same = lambda c: isinstance(c, pdshim.Columns) and (c._n is x._cols or c._n == x._cols)
        return same(r.columns) and (same(l) or same(pdshim.Columns(l)))
    def corr_matrix(self, a, method='pearson'):
        r = npshim.corr_uf(a, method)
        return lambda i, j: r.el(zi(i), zi(j))
    def normals(self, seed, rows, cols):
        """the standard-normal draws of a seeded generator, row by row"""
        d = npshim.random.default_rng(seed).standard_normal(size=(rows, cols))
        return lambda i, j: d.el(zi(i), zi(j))
    # -- random state
    def rng_mark(self):
        d = st().__dict__
        return len(d.get('rng_events') or []), len(d.get('rng_global_events') or [])
    def rng_untouched(self, g): return len(st().__dict__.get('rng_global_events') or []) == g[1]
    def rng_streams(self, g): return [(k, sd) for k, w, sd, c, s in (st().__dict__.get('rng_events') or [])[g[0]:]]
    def rng_disturb(self): st().rng_global = npshim.Generator('global', z3.Int(core.fresh_name('global_rng_state')))
    def streams_differ(self, a, b, x, y):
        if not a or len(a) != len(b): return False
        return SymBool(b_and(*[b_or(k1 != k2, simp_b(zi(s1) != zi(s2))) for (k1, s1), (k2, s2) in zip(a, b)]))
    def induction(self, name, lo, hi, P):
        """P(t) for every lo <= t <= hi, by induction on t"""
        self.ensure(name + ' (base)', P(num(lo)))
        for t in self.forall('ind', lo, hi):
            self.ensure(name + ' (step)', P(t + 1), hyps=[P(t)])
    def cholesky(self, c):
        L = npshim.linalg.cholesky(c)
        return lambda i, j: L.el(zi(i), zi(j))
    def normal_logpdf(self, x, m, s): return npshim.norm_logpdf(x, m, s)
    def mvn_logpdf(self, x, mean, cov):
        a = npshim._FrozenMVN(mean, cov).logpdf(x)
        return lambda i: a.el(zi(i))
    def int_div(self, a, b): return num(a) // num(b)
    def ols(self, lo, hi, f, g): return npshim.defs_ols(zi(lo), zi(hi), lambda j: num(f(Num(zi(j)))), lambda j: num(g(Num(zi(j)))))
    def chol_matrix(self, c): return npshim.linalg.cholesky(c)
    def corr(self, x, y): return npshim.corrcoef(x, y).el(z3.IntVal(0), z3.IntVal(1))
    def entropy(self, x, bins):
        """entropy of the histogram of a sample"""
        h, _ = npshim.histogram(x, bins)
        return npshim._entropy(h / h.sum())
    def joint_entropy(self, x, y, bins):
        h, _, _ = npshim.histogram2d(x, y, bins)
        return npshim._entropy((h / h.sum()).flatten())
    def round(self, x): return round(num(x))
    def column(self, a, j):
        f = self.snapshot(a)
        return arr.ndarray.new((a.shape[0],), lambda i: f(i, zi(j)), a.kind)
    def mix(self, x, y, t):
        """x up to and including t, y afterwards, in x's container and index."""
        f, g = self.snapshot(x), self.snapshot(y)
        tz = zi(t)
        a = arr.ndarray.new(x.shape, lambda i: num_ite(simp_b(i <= tz), f(i), g(i)), 'f')
        return pdshim.Series(a, x.index, x.name) if isinstance(x, pdshim.Series) else a
    def mapped(self, x, f):
        """elementwise image of an input"""
        g = self.snapshot(x)
        a = arr.ndarray.new(x.shape, lambda *i: f(num(g(*i))), 'f')
        if isinstance(x, pdshim.Series): return pdshim.Series(a, x.index, x.name)
        return a
    def generate(self, shape, f, kind='f'):
        return arr.ndarray.new(arr._shape(shape), lambda *i: num(f(*[Num(k) for k in i])), kind)
    def frozen(self, *xs):
        meta = lambda x: (x.index, getattr(x, 'name', None), getattr(x, '_cols', None)) if isinstance(x, (pdshim.Series, pdshim.DataFrame)) else None
        return [(x, self.snapshot(x), meta(x), x.shape) for x in xs]
    def unchanged(self, name, frozen):
        for k, (x, f, meta, shp) in enumerate(frozen):
            v = self.values(x)
            if meta is not None and not (x.index is meta[0] or x.index.same(meta[0])): self.ensure(name, False); continue
            if meta is not None and (getattr(x, 'name', None) is not meta[1] and getattr(x, 'name', None) != meta[1] or getattr(x, '_cols', None) != meta[2]): self.ensure(name, False); continue
            if len(v.shape) != len(shp) or not is_true(b_and(*[simp_b(zi(a) == zi(b)) for a, b in zip(v.shape, shp)])): self.ensure(name, False); continue
            idx = [z3.Int(f'i!fr{k}_{d}') for d in range(v.ndim)]
            inr = [z3.And(i >= 0, i < zi(d)) for i, d in zip(idx, v.shape)]
            self.ensure(name, self.eq(v.el(*idx), f(*idx)), hyps=[SymBool(c) for c in inr])
    def copy(self, a): return arr.ndarray.new(a.shape, a.snapshot(), a.kind)
    # -- functions
    log = staticmethod(lambda a: num_log(num(a))); exp = staticmethod(lambda a: num_exp(num(a))); sqrt = staticmethod(lambda a: num_sqrt(num(a)))
    abs = staticmethod(lambda a: abs(num(a)))
    pow = staticmethod(lambda a, e: num_pow(num(a), e))
    max2 = staticmethod(lambda *xs: _fold(arr.n_max, xs)); min2 = staticmethod(lambda *xs: _fold(arr.n_min, xs))
    pi = Num(core.Pi)
    def div(self, a, b): return num_div(num(a), num(b))
    def sum(self, lo, hi, f): return defs.wsum(lo, hi, lambda j: num(f(Num(zi(j)))))
    def mean(self, lo, hi, f): return defs.wmean(lo, hi, lambda j: num(f(Num(zi(j)))))
    def var(self, lo, hi, f, ddof=1): return defs.wvar(lo, hi, lambda j: num(f(Num(zi(j)))), ddof)
    def std(self, lo, hi, f, ddof=1): return defs.wstd(lo, hi, lambda j: num(f(Num(zi(j)))), ddof)
    def max(self, lo, hi, f): return defs.wmax(lo, hi, lambda j: num(f(Num(zi(j)))))
    def min(self, lo, hi, f): return defs.wmin(lo, hi, lambda j: num(f(Num(zi(j)))))
    def cov(self, lo, hi, f, g, ddof=1): return defs.wcov(lo, hi, lambda j: num(f(Num(zi(j)))), lambda j: num(g(Num(zi(j)))), ddof)
    def largest(self, n, f): return arr.red_ext_range('max', 0, zi(n) - 1, lambda j: num(f(Num(zi(j)))))
    def smallest(self, n, f): return arr.red_ext_range('min', 0, zi(n) - 1, lambda j: num(f(Num(zi(j)))))
    def any(self, lo, hi, f): return arr.red_any_range(lo, hi, lambda j: SymBool(unz(f(Num(zi(j))))))
    def all(self, lo, hi, f): return ~self.any(lo, hi, lambda j: SymBool(b_not(unz(f(j)))))
    def argmax(self, lo, hi, f): return Num(core.reduce_term('argmax', zi(lo), zi(hi), lambda j: (num(f(Num(zi(j)))).real_v,)))
    def first_where(self, lo, hi, f): return Num(core.reduce_term('first', zi(lo), zi(hi), lambda j: (simp_b(zb(unz(f(Num(zi(j)))))),)))
    def last_where(self, lo, hi, f): return Num(core.reduce_term('last', zi(lo), zi(hi), lambda j: (simp_b(zb(unz(f(Num(zi(j)))))),)))
    def argmin(self, lo, hi, f): return Num(core.reduce_term('argmin', zi(lo), zi(hi), lambda j: (num(f(Num(zi(j)))).real_v,)))
    def count(self, lo, hi, f): return arr.red_sum_range(lo, hi, lambda j: Num(core.b_num(unz(f(Num(zi(j)))))))
    def ewm_mean(self, i, f, alpha, first=0): return defs.ewm_mean(zi(i), lambda j: num(f(Num(zi(j)))), num(alpha), zi(first))
    def ewm_std(self, i, f, alpha, first=0): return defs.ewm_std(zi(i), lambda j: num(f(Num(zi(j)))), num(alpha), zi(first))
    @property
    def pi(self):
        CTX().assume(z3.And(core.Pi > z3.Q(314, 100), core.Pi < z3.Q(315, 100)))
        return Num(core.Pi)
    def hint_scale(self, c): st().hints_scale.append(num(c).real_v)
    def hint_bound(self, c): st().hints_bound.append(num(c).real_v)

class Split:
    """one split: number k of count"""
    def __init__(self, train, test, k, count):
        self.train, self.test, self.k, self.count = train, test, Num(k), Num(zi(count))
        if not isinstance(train, arr.ndarray) or not isinstance(test, arr.ndarray): raise Unsupported('splits that are no arrays')
    def has(self, a):
        f, n = npshim.as_intset(a)
        return lambda i: SymBool(b_and(simp_b(zi(i) >= 0), simp_b(zi(i) < zi(n)), f(zi(i))))
    def ordered(self, a):
        if a.iota is not None: return True
        f = a.snapshot()
        return ~arr.red_any_range(z3.IntVal(0), z3.simplify(zi(a.shape[0]) - 2), lambda j: SymBool(simp_b(num(f(j)).v >= num(f(z3.simplify(zi(j) + 1))).v)))
    def run(self, a):
        """(first, last) of a contiguous run as functions of the split number"""
        f = a.snapshot()
        lo, hi = num(f(z3.IntVal(0))).v, num(f(z3.simplify(zi(a.shape[0]) - 1))).v
        at = lambda t: lambda j: Num(z3.simplify(z3.substitute(t, (self.k.v, zi(j)))))
        return at(lo), at(hi)
    def size(self, a): return Num(zi(a.shape[0]))
    def nonempty(self, a): return SymBool(a.nonempty()) if isinstance(a, arr.Compressed) else SymBool(simp_b(zi(a.shape[0]) > 0))
    def item(self, a, i): return num(a.el(zi(i)))

def mentions_reduction(t):
    red, seen, stack = st().red, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in red: return True
        stack.extend(x.children())
    return False

def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r

def run_symbolic(fn, V, maxpaths=400):
    """Explore every path of the contract; V.results collects the obligations."""
    S = st()
    def go():
        S = st()
        S.facts = []; S.deftab = {}; S.inputs = {}; S.hints_scale = []; S.hints_bound = []; S.havoc = False; S.merge_bool = False; S.sharp = False
        for k in ('rng_global', 'rng_events', 'rng_global_events', 'unique_memo', 'cut_memo', 'opaque_memo', 'generic', 'array_split', 'entropy', 'nz_memo', 'lemma_facts', 'every'):
            if k in S.__dict__: S.__dict__[k] = None if k in ('rng_global',) else None
            S.__dict__.pop(k, None)
        S.rng_global = None
        S.level = []; S.loopstack = []
        V.inp = {}
        V.path += 1
        try: fn(V)
        except (Unsupported, PathAbort): raise
        except z3.Z3Exception as e: raise Unsupported(f'z3: {e}')
        except Exception as e:
            if isinstance(e, ARR_EXC) and not library_raised(e): raise Unsupported(f'{type(e).__name__}: {e}') from e
            # an exception escaping from the code: the path must be infeasible
            r = prove(False, CTX().allpc(), V.timeout)
            V.results.append(Obl('no exception: ' + _exc(e), r.status, r.backend, r.t, r.model, getattr(r, 'fs', None), dict(V.inp), _where(e)))
    res = explore(go, maxpaths=maxpaths)
    uns = [v for o, v, pc, ob in res if o == 'unsupported']
    for e in uns:
        V.results.append(Obl('supported', 'unsupported', '', 0, info=str(e)))
    return res

def _exc(e): return f'{type(e).__name__}: {str(e)[:120]}'
def _where(e):
    import traceback
    t = traceback.extract_tb(e.__traceback__)
    r = [f'{f.filename}:{f.lineno}' for f in t if f.filename.startswith('/repo')]
    return ' <- '.join(reversed(r[-3:])) if r else 'outside the library'
