"""The concrete reading of the contracts: numbers in, the imported library, floating point comparisons with a tolerance."""
import math, random, importlib, warnings, contextlib, io, os, sys
import numpy as np
import pandas as pd
from .contract import Skip

NAN = float('nan')

class Failed(Exception):
    def __init__(self, name, detail): super().__init__(name); self.name, self.detail = name, detail

class ConcSplit:
    def __init__(self, l, k):
        self.l, self.k, self.count = l, k, len(l)
        self.train, self.test = l[k] if l else (None, None)
    def has(self, a):
        s = {int(x) for x in a}
        return lambda i: int(i) in s
    def ordered(self, a): return bool(np.all(np.diff(a) > 0)) and isinstance(a, np.ndarray)
    def run(self, a):
        w = 1 if a is self.test else 0
        return (lambda j: int(self.l[int(j)][w][0])), (lambda j: int(self.l[int(j)][w][-1]))
    def size(self, a): return len(a)
    def nonempty(self, a): return len(a) > 0
    def item(self, a, i): return int(a[int(i)])

class ConcV:
    symbolic = False
    pi = math.pi
    def __init__(self, seed=0, forced=None, ints=(), maxlen=14, style=None, reals=()):
        self.rng = random.Random(seed)
        self.forced = forced or {}
        self.ints = [i for i in ints]
        self.reals = list(reals)
        self.maxlen = maxlen
        self.log_ = {}
        self.nensure = 0
        self.style = style
        self.arrays = {}
        self.scale = 1.0
    # -- inputs
    def int(self, name, lo=None, hi=None, small=None, **k):
        lo_ = 0 if lo is None else int(lo)
        if name in self.forced:
            v = int(self.forced[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi): raise Skip()
        else:
            cap = small if small is not None else self.maxlen
            hi_ = int(hi) if hi is not None else lo_ + cap
            if hi_ < lo_: raise Skip()
            r = self.rng.random()
            if r < 0.2: v = self.rng.choice([lo_, min(hi_, lo_ + 1), hi_])
            elif r < 0.35 and [c for c in self.ints if c >= lo_ and (hi is None or c <= hi_)]:
                v = self.rng.choice([c for c in self.ints if c >= lo_ and (hi is None or c <= hi_)]) + self.rng.choice([-1, 0, 0, 1])
                v = max(lo_, v) if hi is None else min(max(lo_, v), hi_)
            else: v = self.rng.randint(lo_, hi_)
        self.log_[name] = v
        return v
    def real(self, name, lo=None, hi=None, gt=None, lt=None, **k):
        if name in self.forced: v = float(self.forced[name])
        else:
            a = lo if lo is not None else gt
            b = hi if hi is not None else lt
            a = -3.0 if a is None else float(a)
            b = a + 6.0 if b is None else float(b)
            r = self.rng.random()
            c = [x for x in self.reals if a <= x <= b]
            if r < 0.25: v = self.rng.choice([a, b, 0.0 if a <= 0 <= b else a, 1.0 if a <= 1 <= b else b])
            elif r < 0.35 and c: v = self.rng.choice(c) + self.rng.choice([0, 0, 0.01, -0.01])
            elif r < 0.6: v = round(self.rng.uniform(a, b), 1)
            else: v = self.rng.uniform(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt) or (lt is not None and v >= lt): raise Skip()
        self.log_[name] = v
        return v
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1: return options[0]
        k = int(self.forced[name]) % len(options) if name in self.forced else self.rng.randrange(len(options))
        self.log_[name] = k
        return options[k]
    def array(self, name, shape, nan=False, lo=None, hi=None, gt=None, kind='f', fact=None, gen=None, **k):
        shape = tuple(int(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        n = 1
        for d in shape: n *= d
        if n > 200000: raise Skip()
        f = self.forced.get(name)
        st = self.style or self.rng.choice(['uniform', 'walk', 'ties', 'const', 'mono', 'uniform', 'walk', 'grid', 'big', 'smallwalk'])
        r = self.rng
        lo_ = lo if lo is not None else gt
        base = 0.0
        pos = lo_ is not None and lo_ >= 0 and hi is None
        def raw(i):
            if kind == 'i': return r.randint(int(lo) if lo is not None else -4, int(hi) if hi is not None else (int(lo) if lo is not None else -4) + 8)
            if lo_ is not None and hi is not None:
                q = r.random()
                if q < 0.15: return float(lo_) if lo is not None else float(lo_) + 1e-3 * (hi - lo_)
                if q < 0.3: return float(hi)
                return r.uniform(lo_, hi)
            if st == 'ties': return float(r.choice([1, 1, 2, 2, 3]) if pos else r.choice([-1, 0, 0, 1, 1, 2]))
            if st == 'const': return self.__dict__.setdefault('_c_' + name, round(r.uniform(1, 9), 2))
            if st == 'grid': return r.choice([0.5, 1.0, 1.5, 2.0, 10.0, 100.0]) if pos else r.choice([-2.0, -1.0, 0.0, 1.0, 2.0, 5.0])
            if st == 'big': return r.uniform(1e3, 5e4) if pos else r.uniform(-2e4, 2e4)
            return r.uniform(0.5, 10) if pos else r.uniform(-5, 5)
        out = np.zeros(n, dtype=object)
        if st in ('walk', 'mono', 'smallwalk') and kind == 'f' and not (lo_ is not None and hi is not None):
            v = r.uniform(20, 60); s = r.choice([-1, 1])
            for i in range(n):
                step = r.choice([0.0, r.uniform(-1, 1), r.uniform(-1, 1)]) * (0.05 if st == 'smallwalk' else 1) if st != 'mono' else s * r.choice([0, 0.1, 0.3, 0.02])
                v = max(v + step, 0.5 if pos else -1e9); out[i] = round(v, 3)
        else:
            for i in range(n): out[i] = raw(i)
        if lo_ is not None and lo is not None and lo >= 0 and kind == 'f' and hi is None and gt is None and r.random() < 0.3:
            for i in range(n):
                if r.random() < 0.2: out[i] = float(lo)
        if nan and r.random() < 0.5:
            q = r.choice([0.1, 0.3])
            for i in range(n):
                if r.random() < q: out[i] = NAN
            if r.random() < 0.3:
                for i in range(min(n, r.randint(0, 3))): out[i] = NAN
        if f is not None:
            mode, ent = f
            for idx, v in ent.items():
                if len(idx) == len(shape) and all(0 <= a < d for a, d in zip(idx, shape)):
                    flat = 0
                    for a, d in zip(idx, shape): flat = flat * d + a
                    if mode == 'full' or mode == 'sparse': out[flat] = v
        for i in range(n):
            v = out[i]
            if v != v: continue
            if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt): out[i] = raw(i)
        if kind == 'i': a = np.array([int(x) for x in out], dtype=int).reshape(shape)
        else: a = np.array([float(x) for x in out], dtype=float).reshape(shape)
        if fact is not None:
            it = np.ndindex(*shape)
            for i in it:
                if not fact(a[i].item(), *i): raise Skip()
        if gen is not None and f is None: a = gen(self, a)
        self.arrays[name] = a.copy()
        self.log_[name] = a.tolist() if a.size <= 400 else f'{a.size} values'
        if a.size and kind != 'i':
            m = np.abs(a[np.isfinite(a)])
            if m.size: self.scale = max(self.scale, float(m.max()))
        return a
    def bars(self, n, names=('p_high', 'p_low', 'p_open', 'p_close')):
        h, l, o, c = names
        a = {k: self.array(k, n, gt=0) for k in names}
        if not any(k in self.forced for k in names):
            r = self.rng
            wid = r.choice([0.0, 0.01, 0.1])
            if r.random() < 0.7: a[o] = a[c] * np.array([1 + r.choice([0, wid, -wid / 2]) * r.random() for _ in range(int(n))])
            z = lambda: r.choice([0, 0, wid]) * r.random()
            hi, lo = np.maximum(a[o], a[c]), np.minimum(a[o], a[c])
            a[h] = np.array([x * (1 + z()) for x in hi]); a[l] = np.array([x / (1 + z()) for x in lo])
            for k in names:
                self.arrays[k] = a[k].copy(); self.log_[k] = a[k].tolist()
                if n: self.scale = max(self.scale, float(a[k].max()))
        else:
            a[h] = np.maximum.reduce([a[k] for k in names]); a[l] = np.minimum.reduce([a[k] for k in names])
            for k in names: self.log_[k] = a[k].tolist()
        return a
    def relate(self, names, f):
        n = min(len(self.arrays[x]) for x in names if x in self.arrays)
        for i in range(n):
            if not f(i): raise Skip()
    def relate2(self, names, f):
        n = min(len(self.arrays[x]) for x in names if x in self.arrays)
        for i in range(n):
            for j in range(n):
                if i != j and not f(i, j): raise Skip()
    def series(self, a, index='idx', name=None):
        if index is None: return pd.Series(a, name=name)
        n = len(a)
        key = ('ix', index, n)
        d = self.__dict__.setdefault('_ix', {})
        if key not in d:
            k = self.rng.randrange(4)
            if k == 0: d[key] = pd.date_range('2020-01-01', periods=n, freq='D')
            elif k == 1: d[key] = pd.Index([f'r{(7 * i + 3) % (n + 11)}_{i}' for i in range(n)])
            elif k == 2: d[key] = pd.RangeIndex(5, 5 + n)
            else: d[key] = pd.Index([n - i for i in range(n)])
        return pd.Series(a, index=d[key], name=name)
    def frame(self, a, columns, index='idx'):
        s = self.series(np.zeros(a.shape[0]), index)
        return pd.DataFrame(a, index=s.index, columns=columns)
    def wrap(self, a, container, name=None): return a if container == 'array' else self.series(a, name=name)
    # -- code
    def fn(self, path):
        m, _, n = path.partition(':')
        o = importlib.import_module(m)
        for p in n.split('.'): o = getattr(o, p)
        return o
    pi = math.pi
    def summary(self, path, impl, text): pass
    def call(self, f, *a, **k):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return f(*a, **k)
    def outcome(self, f, *a, **k):
        try: return 'ok', self.call(f, *a, **k)
        except Exception as e: return 'raise', e
    def forall(self, name, lo, hi):
        lo, hi = int(lo), int(hi)
        r = range(lo, hi)
        if len(r) > 60:
            r = sorted(set(list(r)[:12] + list(r)[-12:] + [self.rng.randrange(lo, hi) for _ in range(20)]))
            if 'i!' + name in self.forced and lo <= self.forced['i!' + name] < hi: r.append(int(self.forced['i!' + name]))
        yield from r
    def assume(self, c):
        if not c: raise Skip()
    def ensure(self, name, c, hyps=(), timeout=None, by=None, light=False):
        if not all(hyps): return
        self.nensure += 1
        if not c: raise Failed(name, '')
    def lemma(self, name, c, **k): self.ensure(name, c, **k); return c
    know = lemma
    def fork(self, c): return bool(c)
    def and_(self, *cs): return all(cs)
    def or_(self, *cs): return any(cs)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def eq(self, a, b, tol=1e-7, scale=None):
        if a is None or b is None: return a is None and b is None
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)): return bool(a) == bool(b)
        a, b = float(a), float(b)
        if a != a or b != b: return a != a and b != b
        if math.isinf(a) or math.isinf(b): return a == b
        s = max(abs(a), abs(b), scale if scale is not None else min(self.scale, 1.0))
        return abs(a - b) <= (tol or 1e-7) * s
    def same(self, a, b):
        a, b = float(a), float(b)
        return a == b or (a != a and b != b)
    def same_missing(self, a, b): return self.isnan(a) == self.isnan(b)
    def eqv(self, a, b, **k):
        a, b = float(a), float(b)
        return self.eq(NAN if math.isinf(a) else a, NAN if math.isinf(b) else b, **k)
    def le(self, a, b, tol=1e-9): return float(a) <= float(b) + (tol or 1e-9) * max(1.0, abs(a), abs(b)) if not (a != a or b != b) else False
    def lt(self, a, b, tol=1e-9): return float(a) < float(b) + (tol or 1e-9) * max(1.0, abs(a), abs(b)) if not (a != a or b != b) else False
    def isnan(self, a): a = float(a); return a != a or math.isinf(a)
    def isnan_strict(self, a): a = float(a); return a != a
    def ok(self, a): return not self.isnan(a)
    def If(self, c, a, b): return a if c else b
    def nan(self): return NAN
    # -- values
    def at(self, x, *i):
        if isinstance(x, (pd.Series, pd.DataFrame)): x = x.values
        x = np.asarray(x)
        if len(i) != x.ndim: raise Failed('shape', f'{x.shape}')
        i = tuple(int(k) for k in i)
        if any(k < 0 or k >= d for k, d in zip(i, x.shape)): return NAN
        return x[i].item()
    def snapshot(self, x):
        a = np.array(x.values if isinstance(x, (pd.Series, pd.DataFrame)) else x, copy=True)
        def f(*i):
            i = tuple(int(k) for k in i)
            if any(k < 0 or k >= d for k, d in zip(i, a.shape)): return NAN
            return a[i].item()
        return f
    def length(self, x): return len(x)
    def shape(self, x): return x.shape
    def shape_is(self, x, *dims): return tuple(np.shape(x)) == tuple(int(d) for d in dims)
    def values(self, x): return x.values if isinstance(x, (pd.Series, pd.DataFrame)) else x
    def is_array(self, x): return isinstance(x, np.ndarray)
    def is_number(self, x): return isinstance(x, (int, float, np.number)) and not isinstance(x, bool)
    def is_series(self, x): return isinstance(x, pd.Series)
    def is_frame(self, x): return isinstance(x, pd.DataFrame)
    def same_index(self, a, b): return a.index.equals(b.index)
    def like(self, r, x):
        if isinstance(x, pd.Series): return isinstance(r, pd.Series) and len(r) == len(x) and r.index.equals(x.index)
        if isinstance(x, pd.DataFrame): return isinstance(r, pd.DataFrame) and r.shape == x.shape and r.index.equals(x.index) and r.columns.equals(x.columns)
        return isinstance(r, np.ndarray) and r.shape == x.shape
    def labels_are(self, r, x): return isinstance(r, pd.DataFrame) and r.columns.equals(x.columns) and r.index.equals(x.columns)
    def corr_matrix(self, a, method='pearson'):
        from scipy.stats import rankdata
        b = np.asarray(a, float)
        if method == 'spearman': b = np.apply_along_axis(rankdata, 0, b)
        c = b - b.mean(0)
        m = c.T @ c
        d = np.sqrt(np.diag(m))
        r = m / np.outer(d, d)
        return lambda i, j: 1.0 if i == j else float(r[int(i), int(j)])
    def normals(self, seed, rows, cols):
        d = np.random.default_rng(int(seed)).standard_normal(size=(int(rows), int(cols)))
        return lambda i, j: float(d[int(i), int(j)])
    # -- random state
    def rng_mark(self):
        import random
        return np.random.get_state(), random.getstate()
    def rng_untouched(self, g):
        import random
        a, b = g[0], np.random.get_state()
        return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:] and random.getstate() == g[1]
    def rng_streams(self, g): return None
    def rng_disturb(self):
        np.random.seed(self.rng.randrange(10 ** 6)); np.random.normal(size=3)
    def streams_differ(self, a, b, x, y): return not np.array_equal(np.asarray(x), np.asarray(y))
    def induction(self, name, lo, hi, P):
        for t in range(int(lo), int(hi) + 1): self.ensure(name + (' (step)' if t > lo else ' (base)'), P(t))
    def normal_logpdf(self, x, m, s): return -math.log(2 * math.pi) / 2 - math.log(s) - ((x - m) / s) ** 2 / 2
    def mvn_logpdf(self, x, mean, cov):
        cov = np.asarray(cov, float); inv = np.linalg.inv(cov); ld = np.linalg.slogdet(cov)[1]
        def f(i):
            z = np.asarray(x[int(i)], float) - np.asarray(mean, float)
            return float(-(len(z) * math.log(2 * math.pi) + ld + z @ inv @ z) / 2)
        return f
    def int_div(self, a, b): return int(a) // int(b)
    def ols(self, lo, hi, f, g):
        x = np.array([f(t) for t in range(int(lo), int(hi) + 1)]); y = np.array([g(t) for t in range(int(lo), int(hi) + 1)])
        a = float(((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum())
        return a, float(y.mean() - a * x.mean())
    def every(self, n, f):
        for k in range(int(n)): self.assume(f(k))
    # -- dates
    def timestamp(self, name):
        k = self.int(name, 0, small=2000)
        return pd.Timestamp('2019-03-01') + pd.Timedelta(days=k)
    def dates(self, name, n, freq=None, index_name=None):
        n = int(n); s = self.timestamp(name)
        self.assume(n <= 100)         # pandas dates end in 2262
        if freq is not None: return pd.date_range(s, periods=n, freq=freq, name=index_name)
        d = [s]
        for i in range(n - 1): d.append(d[-1] + pd.Timedelta(days=[1, 3, 2, 11][i % 4] + self.rng.randrange(2), hours=i))
        ix = pd.DatetimeIndex(d, name=index_name)
        self.assume(pd.infer_freq(ix) is None)
        return ix
    def groups(self, name, n, container, unit='D'):
        self.assume(n <= 300)
        r, n = self.rng, int(n)
        v, out = r.choice([0, 0, 5, -3]), []
        style = self.style_g = r.choice(['plain', 'ties', 'gaps', 'mixed', 'pairs'])
        for i in range(n):
            out.append(v)
            v += {'plain': 1, 'ties': r.choice([0, 0, 1]), 'gaps': r.choice([1, 1, 2, 5]), 'mixed': r.choice([0, 0, 1, 1, 1, 2, 7]), 'pairs': i % 2}[style]
        if name in self.forced: out = list(self.forced[name])
        out = np.array(out, dtype=int).reshape(n)
        self.log_[name] = [int(x) for x in out]; self.arrays[name] = out
        if container in ('dates', 'dates series'):
            t = pd.DatetimeIndex(np.datetime64('2020-01-06', 'ns') + out * np.timedelta64(self.unit(unit), 'ns'))
            lab = [int(x.value) for x in t]
        else: lab = [int(x) for x in out]
        G = lambda i: lab[int(i)]
        if container == 'array': return out, G
        ix = list(range(n)); r.shuffle(ix)
        ix = r.choice([ix, list(range(n))[::-1], [f'r{k}' for k in range(n)], [0] * n])
        if container == 'series': return pd.Series(out, index=ix, dtype=int), G
        if container == 'dates': return t, G
        return pd.Series(t, index=ix), G
    def largest(self, n, f): return max(f(j) for j in range(int(n)))
    def smallest(self, n, f): return min(f(j) for j in range(int(n)))
    def unit(self, unit): return int(pd.Timedelta(1, unit=unit).value)
    def splits(self, f):
        try: l = list(f())
        except Exception: return None
        if not l: return ConcSplit([], 0)
        return ConcSplit(l, self.rng.randrange(len(l)))
    def any_dates(self, name, n):
        self.assume(n <= 200)
        rng, n, s = self.rng, int(n), self.timestamp(name)
        f = rng.choice(['D', 'B', 'W', 'ME', 'MS', 'QE', 'QS', 'YE', 'YS', '2D', '12h', 'W-MON', 'YE', 'YS'])
        d = list(pd.date_range(s, periods=n + 3, freq=f))
        for _ in range(rng.choice([0, 0, 1, 2, 3])):       # entries left out, moved, repeated or out of place
            if not d: break
            k, w = rng.randrange(len(d)), rng.randrange(4)
            if w == 0: del d[k]
            elif w == 1: d[k] += pd.Timedelta(hours=rng.choice([1, 6, 24, 72, 168]))
            elif w == 2: d.insert(k, d[k])
            else: d.insert(rng.randrange(len(d)), d.pop(k))
        d = d[:n] if rng.random() < 0.5 or len(d) <= n else d[len(d) - n:]
        self.assume(len(d) == n)
        return pd.DatetimeIndex(d)
    def merge_conditions(self): pass
    def sharpen(self): pass
    def date_flag(self, ix, flag): return lambda i: bool(getattr(ix, flag)[i])
    def date_steps(self, ix): return lambda i: int(ix[i + 1].value - ix[i].value)
    def number(self, v): return float(v)
    def first_date(self, ix): return ix[0]
    def last_date(self, ix): return ix[-1]
    def make_series(self, a, ix, name): return pd.Series(np.asarray(a), index=ix, name=name)
    def make_frame(self, a, ix, columns): return pd.DataFrame(np.asarray(a), index=ix, columns=list(columns))
    def columns_are(self, r, names): return list(r.columns) == list(names)
    def dates_are(self, ix, start, freq, n, skip, name):
        want = pd.date_range(start=start, freq=freq, periods=int(n), name=name)[skip:]
        return isinstance(ix, pd.DatetimeIndex) and ix.equals(want) and ix.name == name
    def chol_matrix(self, c): return np.linalg.cholesky(np.asarray(c))
    def cholesky(self, c):
        L = np.linalg.cholesky(np.asarray(c))
        return lambda i, j: float(L[int(i), int(j)])
    def corr(self, x, y):
        x, y = x - x.mean(), y - y.mean()
        return float((x * y).sum() / np.sqrt((x * x).sum() * (y * y).sum()))
    def _ent(self, c):
        c = np.asarray(c, float).ravel(); c = c / c.sum()
        return float(-sum(v * math.log(v) for v in c if v > 0))
    def _bins(self, x, b):
        """bin of every observation: b equal bins from the minimum to the maximum"""
        return np.clip(np.searchsorted(np.linspace(x.min(), x.max(), int(b) + 1), x, side='right') - 1, 0, int(b) - 1)
    def entropy(self, x, bins):
        return self._ent(np.bincount(self._bins(np.asarray(x), bins), minlength=int(bins)))
    def joint_entropy(self, x, y, bins):
        h = np.zeros((int(bins), int(bins)))
        for i, j in zip(self._bins(np.asarray(x), bins), self._bins(np.asarray(y), bins)): h[i, j] += 1
        return self._ent(h)
    def round(self, x): return round(x)
    def column(self, a, j): return a[:, int(j)].copy()
    def mix(self, x, y, t):
        a = np.array(x, dtype=float); b = np.asarray(y, dtype=float)
        t = int(t)
        a[t + 1:] = b[t + 1:]
        return pd.Series(a, index=x.index, name=x.name) if isinstance(x, pd.Series) else a
    def mapped(self, x, f):
        a = np.array(x, dtype=float)
        g = np.array([f(float(v)) for v in a.ravel()]).reshape(a.shape)
        return pd.Series(g, index=x.index, name=x.name) if isinstance(x, pd.Series) else g
    def generate(self, shape, f, kind='f'):
        shape = tuple(int(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        a = np.empty(shape, dtype=int if kind == 'i' else float)
        for i in np.ndindex(*shape): a[i] = f(*i)
        return a
    def frozen(self, *xs): return [(x, x.copy(deep=True) if isinstance(x, (pd.Series, pd.DataFrame)) else np.array(x, copy=True)) for x in xs]
    def unchanged(self, name, frozen):
        for x, y in frozen:
            if isinstance(x, (pd.Series, pd.DataFrame)):
                ok = x.equals(y) and x.index.equals(y.index) and (list(x.columns) == list(y.columns) if isinstance(x, pd.DataFrame) else x.name == y.name)
            else: ok = x.shape == y.shape and (np.array_equal(x, y, equal_nan=True) if x.dtype.kind == 'f' else np.array_equal(x, y))
            self.ensure(name, ok)
    def copy(self, a): return np.array(a, copy=True)
    # -- functions
    def log(self, a):
        a = float(a)
        return NAN if a != a or a < 0 else (-math.inf if a == 0 else math.log(a))
    def exp(self, a):
        try: return math.exp(a)
        except OverflowError: return math.inf
    def sqrt(self, a): a = float(a); return NAN if not a >= 0 else math.sqrt(a)
    abs = staticmethod(lambda a: abs(a))
    def pow(self, a, e):
        try: r = a ** e
        except (ZeroDivisionError, OverflowError): return math.inf
        return NAN if isinstance(r, complex) else r
    def max2(self, *xs): return NAN if any(x != x for x in xs) else max(xs)
    def min2(self, *xs): return NAN if any(x != x for x in xs) else min(xs)
    def div(self, a, b):
        a, b = float(a), float(b)
        if b == 0: return NAN if a == 0 or a != a else math.copysign(math.inf, a)
        return a / b
    def _r(self, lo, hi, f): return [float(f(j)) for j in range(int(lo), int(hi) + 1)]
    def sum(self, lo, hi, f):
        r = self._r(lo, hi, f)
        return NAN if any(x != x for x in r) else (math.fsum(r) if not any(math.isinf(x) for x in r) else float(np.sum(r)))
    def mean(self, lo, hi, f):
        n = int(hi) - int(lo) + 1
        return self.sum(lo, hi, f) / n if n > 0 else NAN
    def var(self, lo, hi, f, ddof=1):
        r = self._r(lo, hi, f); n = len(r)
        if n == 0 or any(x != x for x in r) or n == ddof: return NAN
        m = math.fsum(r) / n
        return math.fsum([(x - m) ** 2 for x in r]) / (n - ddof)
    def std(self, lo, hi, f, ddof=1): return self.sqrt(self.var(lo, hi, f, ddof))
    def max(self, lo, hi, f): r = self._r(lo, hi, f); return NAN if not r or any(x != x for x in r) else max(r)
    def min(self, lo, hi, f): r = self._r(lo, hi, f); return NAN if not r or any(x != x for x in r) else min(r)
    def cov(self, lo, hi, f, g, ddof=1):
        a, b = self._r(lo, hi, f), self._r(lo, hi, g); n = len(a)
        if n <= ddof or any(x != x for x in a + b): return NAN
        ma, mb = math.fsum(a) / n, math.fsum(b) / n
        return math.fsum([(x - ma) * (y - mb) for x, y in zip(a, b)]) / (n - ddof)
    def argmax(self, lo, hi, f): r = self._r(lo, hi, f); return int(lo) + r.index(max(r))
    def first_where(self, lo, hi, f): return next((j for j in range(int(lo), int(hi) + 1) if f(j)), int(hi) + 1)
    def last_where(self, lo, hi, f): return next((j for j in range(int(hi), int(lo) - 1, -1) if f(j)), int(lo) - 1)
    def argmin(self, lo, hi, f): r = self._r(lo, hi, f); return int(lo) + r.index(min(r))
    def any(self, lo, hi, f): return any(f(j) for j in range(int(lo), int(hi) + 1))
    def all(self, lo, hi, f): return all(f(j) for j in range(int(lo), int(hi) + 1))
    def count(self, lo, hi, f): return sum(1 for j in range(int(lo), int(hi) + 1) if f(j))
    def ewm_mean(self, i, f, alpha, first=0):
        s = t = 0.0
        for j in range(int(first), int(i) + 1):
            x = float(f(j))
            if x != x or math.isinf(x): continue
            w = (1 - alpha) ** (i - j); s += w * x; t += w
        return s / t if t else NAN
    def ewm_std(self, i, f, alpha, first=0):
        m = self.ewm_mean(i, f, alpha, first)
        w1 = w2 = s = 0.0
        for j in range(int(first), int(i) + 1):
            x = float(f(j))
            if x != x or math.isinf(x): continue
            w = (1 - alpha) ** (i - j); w1 += w; w2 += w * w; s += w * (x - m) ** 2
        den = w1 * w1 - w2
        if m != m or den <= 0: return NAN
        return math.sqrt(max(0.0, s / w1 * (w1 * w1 / den)))
    def hint_scale(self, c): pass
    def hint_bound(self, c): pass

def run_concrete(fn, V):
    """('ok', n) | ('skip',) | ('fail', obligation, detail)"""
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(out):
            warnings.simplefilter('ignore')
            fn(V)
        return ('ok', V.nensure)
    except Skip: return ('skip',)
    except Failed as e: return ('fail', e.name, e.detail)
    except MemoryError: return ('skip',)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inlib = [f'{f.filename}:{f.lineno}' for f in tb if f.filename.startswith('/repo')]
        if not inlib: raise
        return ('fail', f'no exception: {type(e).__name__}: {str(e)[:120]}', ' <- '.join(reversed(inlib[-3:])))
