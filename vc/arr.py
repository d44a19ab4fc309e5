"""Symbolic arrays of unbounded length: a shape and an element function, with write-through views."""
import itertools, operator
from . import core
from .core import (z3, Num, SymBool, Unsupported, num, zi, b_and, b_or, b_not, b_ite, is_true, is_false, simp_b, unz,
                   num_ite, num_div, num_sqrt, num_log, num_exp, num_pow, reduce_term, CTX, SymBool, st, fresh_name, t_ite,
                   assumed, to_real, subst, bound, as_num)

UNROLL = 6

def dim(x):
    """Canonical dimension: python int when constant."""
    if isinstance(x, int): return x
    if isinstance(x, Num): x = x.v
    x = z3.simplify(x)
    if z3.is_int_value(x): return x.as_long()
    return Num(x)

def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    za, zb_ = zi(a), zi(b)
    if z3.is_int_value(z3.simplify(za - zb_, som=True)): return z3.simplify(za - zb_, som=True).as_long() == 0
    c = simp_b(za == zb_)
    if isinstance(c, bool): return c
    return bool(SymBool(c))

def slot(i, n):
    """0 <= i < n"""
    if isinstance(n, Num) and z3.is_app_of(n.v, z3.Z3_OP_MUL) and not z3.is_const(i): return core.in_range(i, n)
    return b_and(simp_b(i >= 0), simp_b(i < zi(n)))

def truncated(v):
    if not is_false(v.nan): raise Unsupported('missing value stored as an integer')
    x = v.real_v
    return Num(z3.simplify(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))))

def is_int_array(a):
    if a.kind != 'i': return False
    e = a.el(*[z3.Int(f'key#{k}') for k in range(a.ndim)])
    return isinstance(e, Num) and e.isint

def known(c):
    """True if the path condition implies c (cheap check)."""
    c = simp_b(c)
    if isinstance(c, bool): return c
    if not st().ctx: return False
    return not CTX().feasible(z3.Not(c))

def tmax(a, b):
    a, b = zi(a), zi(b)
    if known(a >= b): return a
    if known(b >= a): return b
    return z3.If(a >= b, a, b)

def tmin(a, b):
    a, b = zi(a), zi(b)
    if known(a <= b): return a
    if known(b <= a): return b
    return z3.If(a <= b, a, b)

def norm_index(e, d, check=True):
    """Position of python index e in a dimension of size d (raises IndexError on paths where it is out of range)."""
    if isinstance(e, SymBool): raise Unsupported('boolean index')
    if isinstance(e, int) and isinstance(d, int):
        if not -d <= e < d: raise IndexError(f'index {e} is out of bounds for axis with size {d}')
        return z3.IntVal(e % d if e < 0 else e)
    ez, dz = zi(e), zi(d)
    if isinstance(e, int):
        r = z3.simplify(dz + e) if e < 0 else z3.IntVal(e)
        if check and bool(SymBool(b_not(simp_b(z3.And(r >= 0, r < dz))))): raise IndexError(f'index {e} is out of bounds')
        return r
    if known(ez >= 0): r = ez
    elif known(ez < 0): r = z3.simplify(ez + dz)
    else: r = z3.If(ez < 0, ez + dz, ez)
    if check and bool(SymBool(b_not(simp_b(z3.And(r >= 0, r < dz))))): raise IndexError('index is out of bounds')
    return r

def norm_slice(s, d):
    """(start, length, step) of a python slice on a dimension of size d, as z3 / ints."""
    step = s.step if s.step is not None else 1
    step = int(step)
    dz = zi(d)
    def pos(e, default):
        if e is None: return default
        if isinstance(e, int):
            if e >= 0:
                return z3.IntVal(0) if e == 0 else tmin(e, dz)
            return tmax(0, z3.simplify(dz + e))
        ez = zi(e)
        if known(ez >= 0): return tmin(ez, dz)
        if known(ez < 0): return tmax(0, z3.simplify(ez + dz))
        w = z3.If(ez < 0, ez + dz, ez)
        return z3.If(w < 0, z3.IntVal(0), z3.If(w > dz, dz, w))
    if step == 1:
        a = pos(s.start, z3.IntVal(0)); b = pos(s.stop, dz)
        ln = dim(tmax(0, z3.simplify(b - a)))
        return a, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return z3.simplify(dz - 1), dim(dz), -1
    raise Unsupported('slice step')

class DType:
    def __init__(self, kind): self.kind = kind
    def __eq__(self, o): return isinstance(o, DType) and o.kind == self.kind or o in _KINDNAMES.get(self.kind, ())
    def __hash__(self): return hash(self.kind)
    def __repr__(self): return f'dtype({self.kind})'
_KINDNAMES = {'f': (float, 'float', 'float64'), 'i': (int, 'int', 'int64'), 'b': (bool, 'bool')}

STAMP = [0]
class Storage:
    __slots__ = ('fn', 'birth', 'ar')
    def __init__(self, fn, ar):
        STAMP[0] += 1
        self.fn, self.birth, self.ar = fn, STAMP[0], ar

class ndarray:
    __array_priority__ = 2000
    __hash__ = object.__hash__
    def __class_getitem__(cls, k): return cls
    def __init__(self, *a, **k): raise Unsupported('ndarray constructor')

    @classmethod
    def new(cls, shape, fn, kind='f', iota=None):
        self = object.__new__(ndarray)
        self.shape = tuple(dim(d) for d in shape)
        self.kind = kind
        self.stg = Storage(fn, len(self.shape))
        self.to_base = None          # None: identity
        self.from_base = None
        self.iota = iota             # z3 start if the elements are start, start+1, ...
        return self

    def view(self, shape, to_base, from_base):
        v = object.__new__(ndarray)
        v.shape = tuple(dim(d) for d in shape)
        v.kind = self.kind
        v.stg = self.stg
        v.iota = None
        if self.to_base is None:
            v.to_base, v.from_base = to_base, from_base
        else:
            tb, fb = self.to_base, self.from_base
            v.to_base = lambda *i: tb(*to_base(*i))
            def from2(*b):
                c1, m = fb(*b)
                c2, i = from_base(*m)
                return b_and(c1, c2), i
            v.from_base = from2
        return v

    # -- element access (no bounds check)
    def el(self, *idx):
        idx = tuple(zi(i) for i in idx)
        if self.to_base is not None and getattr(self.stg.fn, 'via', None): return read_via(self.stg, self.stg.fn, self.to_base, idx)
        b = idx if self.to_base is None else tuple(self.to_base(*idx))
        return read_storage(self.stg, b)

    def snapshot(self):
        """Immutable element function of the current contents."""
        fn, tb = self.stg.fn, self.to_base
        if tb is None: return lambda *i: fn(*[zi(k) for k in i])
        if getattr(fn, 'via', None): stg = self.stg; return lambda *i: read_via(stg, fn, tb, tuple(zi(k) for k in i))
        return lambda *i: fn(*tb(*[zi(k) for k in i]))

    def el_logged_snapshot(self):
        stg, fn, tb = self.stg, self.stg.fn, self.to_base
        def f(*i):
            i = tuple(zi(k) for k in i)
            if tb is not None and getattr(fn, 'via', None): return read_via(stg, fn, tb, i)
            b = i if tb is None else tuple(tb(*i))
            return read_storage(stg, b, fn)
        return f

    def write(self, regions, value, label=None):
        """Set elements: regions(*idx) -> condition; value(*idx) -> Num, in this array's own coordinates."""
        fb = self.from_base
        old = self.stg.fn
        for L in st().loopstack: L.touch(self.stg)
        if self.kind == 'i':
            raw = value
            def value(*i):                       # integer storage truncates
                v = raw(*i)
                if isinstance(v, Num) and not v.isint:
                    o = old(*(i if fb is None else self.to_base(*i)))
                    if isinstance(o, Num) and o.isint: return truncated(v)
                return v
        if fb is None:
            def fn(*b):
                c = regions(*b)
                if is_false(c): return old(*b)
                return num_ite(c, value(*b), old(*b))
        else:
            def fn(*b):
                c, i = fb(*b)
                if is_false(c): return old(*b)
                c = b_and(c, regions(*i))
                if is_false(c): return old(*b)
                return num_ite(c, value(*i), old(*b))
            fn.via = (self.to_base, regions, value, old)
        self.stg.fn = fn
        self.iota = None
        for L in st().loopstack: L.wrote(self.stg, lambda *b: (regions(*b) if fb is None else (lambda ci: b_and(ci[0], regions(*ci[1])))(fb(*b))))

    # -- attributes
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self):
        r = 1
        for d in self.shape: r = r * d
        return dim(r) if not isinstance(r, int) else r
    @property
    def dtype(self): return DType(self.kind)
    @property
    def T(self):
        if self.ndim < 2: return self
        if self.ndim != 2: raise Unsupported('transpose of ndim > 2')
        return self.view((self.shape[1], self.shape[0]), lambda i, j: (j, i), lambda a, b: (True, (b, a)))
    def transpose(self): return self.T
    @property
    def real(self): return self
    @property
    def values(self): raise AttributeError("'numpy.ndarray' object has no attribute 'values'")
    def copy(self, order=None):
        f = self.snapshot(); r = ndarray.new(self.shape, f, self.kind); r.iota = self.iota; return r
    def astype(self, t, copy=True):
        if t in (int, 'int', 'int64') and self.kind == 'f': raise Unsupported('astype int')
        if t in (bool, 'bool'):
            f = self.snapshot()
            return ndarray.new(self.shape, lambda *i: SymBool(unz(f(*i))), 'b')
        if self.kind == 'b':
            f = self.snapshot()
            return ndarray.new(self.shape, lambda *i: num(f(*i)), 'i' if t in (int, 'int') else 'f')
        c = self.copy()
        if t in (float, 'float', 'float64') and self.kind == 'i':
            f = self.snapshot(); return ndarray.new(self.shape, lambda *i: Num(num(f(*i)).real_v), 'f')
        if t in (float, 'float', 'float64'): c.kind = 'f'
        return c
    def tolist(self):
        d = self.shape[0]
        if not isinstance(d, int):
            f = self.snapshot()
            if self.ndim != 1: raise Unsupported('tolist')
            return SymList(d, lambda i: f(i))
        return [self[i] if self.ndim == 1 else self[i].tolist() for i in range(d)]
    def item(self):
        return self.el(*[z3.IntVal(0)] * self.ndim)
    def __len__(self):
        d = self._vc_len()
        if isinstance(d, int): return d
        raise Unsupported('len of a symbolic array')
    def _vc_len(self):
        if not self.shape: raise TypeError('len() of unsized object')
        return self.shape[0]
    def __iter__(self):
        d = self.shape[0]
        if isinstance(d, int): return iter([self[i] for i in range(d)])
        raise Unsupported('iteration over a symbolic array')
    def _as_list(self):
        return SymList(self.shape[0], lambda i: self._row(i))
    def _row(self, i):
        if self.ndim == 1: return self.el(i)
        return self._basic((Num(zi(i)),) + (slice(None),) * (self.ndim - 1), check=False)
    def __bool__(self):
        if self.shape == () or all(d == 1 for d in self.shape): return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def __index__(self): raise TypeError('only integer scalar arrays can be converted to a scalar index')
    def __repr__(self): return f'<array {self.shape} {self.kind}>'
    def __format__(self, s): return repr(self)

    # -- reshape
    def flatten(self, order='C'):
        if order != 'C': raise Unsupported('order')
        if self.ndim == 2:
            try: r = self.reshape(-1).copy()
            except Unsupported:
                f, m = self.snapshot(), zi(self.shape[1])
                r = ndarray.new((dim(z3.simplify(zi(self.shape[0]) * m)),), lambda k: f(zi(k) / m, zi(k) % m), self.kind)
            g = self.snapshot(); h = r.snapshot()
            r.flat_src = ndarray.new(self.shape, lambda i, j: g(i, j), self.kind)   # rows one after the other
            r.flat_el = h(z3.Int('key#0'))
            return r
        return self.reshape(-1).copy()
    def ravel(self, order='C'): return self.reshape(-1)
    def squeeze(self, axis=None):
        sh = [d for d in self.shape if d != 1]
        return self.reshape(*sh) if sh else self.item()
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        shape = [dim(s) if not isinstance(s, int) else s for s in shape]
        old = self.shape
        total = self.size
        if -1 in shape:
            k = shape.index(-1)
            rest = 1
            for i, s in enumerate(shape):
                if i != k: rest = rest * s
            if isinstance(rest, int) and rest == 1: shape[k] = total
            elif isinstance(total, int) and isinstance(rest, int):
                if rest == 0 or total % rest: raise ValueError('cannot reshape array')
                shape[k] = total // rest
            else:
                def factors(ds):
                    c, fs = 1, []
                    for d in ds:
                        ms = core._monomials(zi(d))
                        if len(ms) == 1: c *= ms[0][0]; fs += ms[0][1]
                        else: fs.append(zi(d))
                    return c, fs
                co, fo = factors(old)
                cr, fr = factors([s for i, s in enumerate(shape) if i != k])
                for f in list(fr):
                    g = next((i for i, g in enumerate(fo) if g.eq(f)), None)
                    if g is None: break
                    fo.pop(g); fr.remove(f)
                if not fr and cr and co % cr == 0: shape[k] = dim(core._prod(co // cr, fo))
                elif not fr and not cr: raise ValueError('cannot reshape array')
                else: raise Unsupported('reshape with symbolic factors')
        shape = tuple(dim(s) for s in shape)
        if len(shape) == len(old) and all(isinstance(a, int) == isinstance(b, int) and (a == b if isinstance(a, int) else zi(a).eq(zi(b))) for a, b in zip(shape, old)):
            return self.view(shape, lambda *i: i, lambda *b: (True, b))
        n = 1
        for s in shape: n = n * s
        if not same_dim(n if isinstance(n, int) else n, total): raise ValueError(f'cannot reshape array of shape {old} into {shape}')
        # drop unit dimensions
        nz_old = [i for i, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
        nz_new = [i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
        so = [old[i] for i in nz_old]; sn = [shape[i] for i in nz_new]
        Z = z3.IntVal(0)
        def expand(vals, nz, total_n):
            out = [Z] * total_n
            for i, v in zip(nz, vals): out[i] = v
            return tuple(out)
        if len(so) == len(sn):
            # all matching dims must agree pairwise
            for a, b in zip(so, sn):
                if not (isinstance(a, int) and isinstance(b, int) and a == b) and not core.holds(zi(a) == zi(b)): break
            else:
                return self.view(shape, lambda *i: expand([i[k] for k in nz_new], nz_old, len(old)),
                                 lambda *b: (True, expand([b[k] for k in nz_old], nz_new, len(shape))))
        def unravel(flat, dims):
            out = []
            for d in reversed(dims[1:]):
                flat, r = core.sdivmod(flat, zi(d))
                out.append(r)
            out.append(flat)
            return list(reversed(out))
        def ravel(vals, dims):
            f = vals[0]
            for v, d in zip(vals[1:], dims[1:]): f = f * zi(d) + v
            return z3.simplify(f)
        def tb(*i):
            if not sn: return expand([], nz_old, len(old))
            flat = ravel([i[k] for k in nz_new], sn)
            return expand(unravel(flat, so) if so else [], nz_old, len(old))
        def fb(*b):
            if not so: return True, expand([], nz_new, len(shape))
            flat = ravel([b[k] for k in nz_old], so)
            return True, expand(unravel(flat, sn) if sn else [], nz_new, len(shape))
        return self.view(shape, tb, fb)

    # -- indexing
    def _key(self, key):
        if not isinstance(key, tuple): key = (key,)
        if any(k is Ellipsis for k in key):
            n = sum(1 for k in key if k is not None and k is not Ellipsis)
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (self.ndim - n) + key[i + 1:]
        n = sum(1 for k in key if k is not None)
        if n > self.ndim: raise IndexError('too many indices for array')
        return key + (slice(None),) * (self.ndim - n)

    def __getitem__(self, key):
        if isinstance(key, tuple) and any(isinstance(k, (ndarray, SymList, list)) for k in key):
            key = self._key(key)
            adv = [i for i, k in enumerate(key) if isinstance(k, (ndarray, SymList, list))]
            if len(adv) == 1:
                i = adv[0]
                ix = asarray(key[i])
                base = self[tuple(k if j != i else slice(None) for j, k in enumerate(key))]
                # all other keys must be full slices
                if any(not (isinstance(k, slice) and k == slice(None)) for j, k in enumerate(key) if j != i): raise Unsupported('mixed advanced indexing')
                f = base.snapshot(); g = ix.snapshot()
                if ix.kind == 'b' or isinstance(ix, Compressed): raise Unsupported('mask along one axis')
                sh = list(self.shape); sh[i] = ix.shape[0]
                def el(*idx):
                    idx = list(idx); e = g(idx[i]); d = zi(self.shape[i])
                    idx[i] = zi(e); return f(*idx)
                return ndarray.new(sh, el, self.kind)
            raise Unsupported('advanced indexing')
        if isinstance(key, (list, SymList)): key = asarray(key)
        if isinstance(key, (Series_marker,)): key = key._values
        if isinstance(key, ndarray):
            if key.kind == 'b': return self._mask(key)
            if self.ndim == 1 or key.ndim == 1:
                return self._gather(key)
            raise Unsupported('fancy indexing')
        return self._basic(self._key(key))

    def _basic(self, key, check=True):
        if len(key) == len(self.shape) and all(isinstance(k, slice) and k == slice(None) for k in key):
            v = object.__new__(ndarray)
            v.shape, v.kind, v.stg, v.iota, v.to_base, v.from_base = self.shape, self.kind, self.stg, self.iota, self.to_base, self.from_base
            return v
        comps = []; ax = 0
        vshape = []
        for k in key:
            if k is None: comps.append(('new',)); vshape.append(1); continue
            d = self.shape[ax]
            if isinstance(k, slice):
                a, ln, step = norm_slice(k, d)
                comps.append(('slice', a, ln, step)); vshape.append(ln)
            else:
                if isinstance(k, ndarray) and k.shape == (): k = k.item()
                if isinstance(k, (float,)): raise IndexError('only integers, slices...')
                comps.append(('int', norm_index(k, d, check)))
            ax += 1
        def to_base(*idx):
            out = []; p = 0
            for c in comps:
                if c[0] == 'new': p += 1
                elif c[0] == 'int': out.append(c[1])
                else:
                    i = idx[p]; p += 1
                    out.append(z3.simplify(c[1] + i) if c[3] == 1 else z3.simplify(c[1] - i))
            return tuple(out)
        if not vshape:
            b = to_base()
            if self.to_base is not None: b = tuple(self.to_base(*b))
            return read_storage(self.stg, b)
        def from_base(*b):
            cond = []; idx = []; p = 0
            for c in comps:
                if c[0] == 'new': idx.append(z3.IntVal(0))
                elif c[0] == 'int':
                    cond.append(simp_b(b[p] == c[1])); p += 1
                else:
                    i = z3.simplify(b[p] - c[1]) if c[3] == 1 else z3.simplify(c[1] - b[p])
                    cond.append(slot(i, c[2]))
                    idx.append(i); p += 1
            return b_and(*cond), tuple(idx)
        v = self.view(vshape, to_base, from_base)
        if self.iota is not None and len(comps) == 1 and comps[0][0] == 'slice' and comps[0][3] == 1:
            v.iota = z3.simplify(self.iota + comps[0][1])
        return v

    def _mask(self, m):
        if m.ndim != self.ndim: raise Unsupported('mask of another dimension')
        for a, b in zip(self.shape, m.shape):
            if not same_dim(a, b): raise IndexError('boolean index did not match')
        f, g = self.snapshot(), m.snapshot()
        return Compressed.make(self.shape, lambda *i: unz(g(*i)), f, self.kind, self.iota if self.ndim == 1 else None)

    def _gather(self, ix):
        f = self.snapshot()
        if isinstance(ix, Compressed):
            if ix.iota is not None and self.ndim == 1:
                c = ix.cond
                n = ix.ranges[0]
                off = ix.iota
                # positions off + j with j in range(n)
                return Compressed.make((n,), c, lambda j: f(z3.simplify(off + j)), self.kind, None)
            g = ix.val
            if self.ndim != 1: raise Unsupported('gather of rows')
            return Compressed.make(ix.ranges, ix.cond, lambda *j: f(zi(g(*j))), self.kind, None)
        g = ix.snapshot()
        d = self.shape[0]
        def pos(e):
            z = zi(e)
            return z
        if self.ndim == 1: return ndarray.new(ix.shape, lambda *i: f(pos(g(*i))), self.kind)
        if ix.ndim == 1: return ndarray.new((ix.shape[0],) + self.shape[1:], lambda i, *r: f(pos(g(i)), *r), self.kind)
        raise Unsupported('gather')

    def __setitem__(self, key, value):
        if isinstance(key, Series_marker): key = key._values
        if isinstance(value, Series_marker): value = value._values
        if isinstance(value, list): value = asarray(value)
        if isinstance(key, ndarray) and key.kind == 'b':
            m = key.snapshot()
            for a, b in zip(self.shape, key.shape):
                if not same_dim(a, b): raise IndexError('boolean index did not match')
            if isinstance(value, Compressed):
                if not value.same_mask(self.shape, lambda *i: unz(m(*i))): raise Unsupported('masked assignment from another mask')
                f = value.val
                self.write(lambda *i: unz(m(*i)), lambda *i: f(*i)); return
            if isinstance(value, ndarray):
                if value.ndim == 0: value = value.item()
                else: raise Unsupported('masked assignment of an array')
            v = num(value)
            self.write(lambda *i: unz(m(*i)), lambda *i: v); return
        if isinstance(key, ndarray) and not isinstance(key, Compressed):
            if self.ndim == 1 and key.ndim == 1: raise Unsupported('fancy assignment')
        if isinstance(key, ndarray):
            if isinstance(key, Compressed) and key.iota is not None and self.ndim == 1:
                c, off = key.cond, key.iota
                if isinstance(value, ndarray): raise Unsupported('fancy assignment')
                v = num(value)
                self.write(lambda i: b_and(c(z3.simplify(i - off)), i >= off, i - off < zi(key.ranges[0])), lambda i: v); return
            raise Unsupported('fancy assignment')
        key = self._key(key)
        if any(isinstance(k, (ndarray, SymList, list)) for k in key): raise Unsupported('fancy assignment')
        # full-view region
        comps = []; vshape = []
        for k, d in zip(key, self.shape):
            if isinstance(k, slice):
                a, ln, stp = norm_slice(k, d)
                if stp != 1: raise Unsupported('assignment with a step')
                comps.append((a, ln)); vshape.append(ln)
            else: comps.append((norm_index(k, d), None))
        def region(*i):
            c = []
            for x, (a, ln) in zip(i, comps):
                if ln is None: c.append(simp_b(x == a))
                else: c.append(slot(z3.simplify(x - a), ln))
            return b_and(*c)
        if isinstance(value, (ndarray,)):
            if isinstance(value, Compressed): raise Unsupported('assign compressed')
            val = broadcast_fn(value, vshape)
        elif isinstance(value, SymList):
            val = broadcast_fn(asarray(value), vshape)
        else:
            v = value if isinstance(value, SymBool) else num(value)
            val = lambda *i: v
        def value_at(*i):
            return val(*[z3.simplify(x - a) for x, (a, ln) in zip(i, comps) if ln is not None])
        self.write(region, value_at)

    # -- reductions
    def _axis(self, axis):
        if axis is None: return None
        a = int(axis)
        return a + self.ndim if a < 0 else a
    def _reduce(self, fn, axis, keepdims=False, kind='f'):
        """fn(list of (dim), elementfn(*idx)) -> scalar, reducing all given dims."""
        f = self.snapshot()
        axis = self._axis(axis)
        if axis is None:
            r = fn(self.shape, f)
            if keepdims: return ndarray.new((1,) * self.ndim, lambda *i: r, kind)
            return r
        d = self.shape[axis]
        rest = [x for k, x in enumerate(self.shape) if k != axis]
        if not rest and not keepdims: return fn((d,), f)
        def el(*idx):
            idx = list(idx)
            if keepdims: idx.pop(axis)
            return fn((d,), lambda k: f(*(idx[:axis] + [k] + idx[axis:])))
        sh = rest if not keepdims else [x if k != axis else 1 for k, x in enumerate(self.shape)]
        return ndarray.new(sh, el, kind)
    def sum(self, axis=None, keepdims=False, **k):
        t = getattr(self, 'total', None)
        if t is not None and axis is None and not keepdims:
            f = self.snapshot()
            if num(f(*[z3.Int('key#%d' % d) for d in range(self.ndim)])).v.eq(t[1]): return t[0]   # unchanged since the histogram was made
        return self._reduce(red_sum, axis, keepdims, 'i' if self.kind in 'ib' else 'f')
    def mean(self, axis=None, keepdims=False, **k): return self._reduce(red_mean, axis, keepdims)
    def var(self, axis=None, ddof=0, keepdims=False, **k): return self._reduce(lambda d, f: red_var(d, f, ddof), axis, keepdims)
    def std(self, axis=None, ddof=0, keepdims=False, **k): return self._reduce(lambda d, f: num_sqrt(red_var(d, f, ddof)), axis, keepdims)
    def _ne(self, axis):
        d = self.shape if axis is None else (self.shape[self._axis(axis)],)
        for n in d:
            if isinstance(n, int): empty = n == 0
            else: empty = not core.S.level and bool(SymBool(simp_b(zi(n) <= 0)))
            if empty: raise ValueError('zero-size array to reduction operation which has no identity')
    def max(self, axis=None, keepdims=False, **k):
        self._ne(axis)
        return self._reduce(lambda d, f: red_ext('max', d, f), axis, keepdims, self.kind)
    def min(self, axis=None, keepdims=False, **k):
        self._ne(axis)
        return self._reduce(lambda d, f: red_ext('min', d, f), axis, keepdims, self.kind)
    def any(self, axis=None, **k): return self._reduce(red_any, axis, False, 'b')
    def all(self, axis=None, **k): return self._reduce(red_all, axis, False, 'b')
    def argmax(self, axis=None): return red_arg('argmax', self)
    def argmin(self, axis=None): return red_arg('argmin', self)
    def cumsum(self, axis=None, **k):
        f = self.snapshot()
        if self.ndim == 1: return ndarray.new(self.shape, lambda i: red_sum_range(0, i, f), self.kind)
        axis = self._axis(axis)
        if axis is None: raise Unsupported('flat cumsum')
        def el(*idx):
            idx = list(idx)
            return red_sum_range(0, idx[axis], lambda k: f(*(idx[:axis] + [k] + idx[axis + 1:])))
        return ndarray.new(self.shape, el, self.kind)
    def dot(self, o): return matmul(self, o)
    def clip(self, a_min=None, a_max=None, **k): return clip(self, k.get('min', a_min), k.get('max', a_max))
    def diagonal(self): return diag(self)
    def trace(self): return trace(self)
    def fill(self, v): self[...] = v
    def argsort(self, *a, **k): return argsort(self)
    def nonzero(self): return where(self)
    def round(self, *a): raise Unsupported('round')
    def sort(self, *a): raise Unsupported('sort in place')

    def __matmul__(self, o): return matmul(self, o)
    def __neg__(self): return elementwise(lambda a: -num(a), self)
    def __pos__(self): return self
    def __abs__(self): return elementwise(lambda a: abs(num(a)), self)
    def __invert__(self): return elementwise(lambda a: SymBool(b_not(unz(a))), self, kind='b')

class Series_marker:
    """Base of the Series shim (avoids an import cycle)."""

def read_via(stg, fn, tb, i):
    """Element i of a view: what was written through the same view is read back without going through the base."""
    via = getattr(fn, 'via', None)
    if via is None or via[0] is not tb: return read_storage(stg, tuple(tb(*i)), fn)
    c = via[1](*i)
    if is_true(c): return via[2](*i)
    o = read_via(stg, via[3], tb, i)
    return o if is_false(c) else num_ite(c, via[2](*i), o)

def read_storage(stg, b, fn=None):
    return (fn or stg.fn)(*b)

def _binop(name, f, kind=None):
    def op(self, o):
        if isinstance(o, (str, type(None), dict)): return NotImplemented
        if isinstance(o, Series_marker): return NotImplemented
        return elementwise(f, self, o, kind=kind)
    def rop(self, o):
        if isinstance(o, (str, type(None), dict)): return NotImplemented
        return elementwise(lambda a, b: f(b, a), self, o, kind=kind)
    return op, rop

def _inplace(f):
    def op(self, o):
        r = elementwise(f, self, o)
        if isinstance(self, Compressed): return r
        val = broadcast_fn(r, self.shape)
        self.write(lambda *i: True, val)
        return self
    return op

def n_bin(fn):
    return lambda a, b: fn(num(a), num(b))
_OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': num_div,
        'floordiv': operator.floordiv, 'mod': operator.mod}
for _n, _f in _OPS.items():
    o_, r_ = _binop(_n, n_bin(_f))
    setattr(ndarray, f'__{_n}__', o_); setattr(ndarray, f'__r{_n}__', r_)
    setattr(ndarray, f'__i{_n}__', _inplace(n_bin(_f)))
o_, r_ = _binop('pow', lambda a, b: num_pow(num(a), b))
ndarray.__pow__, ndarray.__rpow__ = o_, r_
ndarray.__ipow__ = _inplace(lambda a, b: num_pow(num(a), b))
for _n, _f in {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}.items():
    o_, _ = _binop(_n, n_bin(_f), 'b')
    setattr(ndarray, f'__{_n}__', o_)
def _bool_or_int(fb):
    def f(a, b):
        return SymBool(fb(unz(a), unz(b)))
    return f
for _n, _f in {'and': b_and, 'or': b_or, 'xor': lambda a, b: b_not(core.b_eq(a, b))}.items():
    o_, r_ = _binop(_n, _bool_or_int(_f), 'b')
    setattr(ndarray, f'__{_n}__', o_); setattr(ndarray, f'__r{_n}__', r_)
    setattr(ndarray, f'__i{_n}__', _inplace(_bool_or_int(_f)))

core._DEFER.append(ndarray)
core._DEFER.append(Series_marker)

class Compressed(ndarray):
    """a[mask]: the elements val(i) for the i in range(n) with cond(i), in order."""
    @classmethod
    def make(cls, ranges, cond, val, kind, iota=None):
        self = object.__new__(Compressed)
        self.ranges = tuple(dim(d) for d in ranges)
        self.cond, self.val, self.kind, self.iota = cond, val, kind, iota
        self.stg = self.to_base = self.from_base = None
        return self
    def rng1(self):
        if len(self.ranges) != 1: raise Unsupported('compressed array of several dimensions')
        return z3.IntVal(0), z3.simplify(zi(self.ranges[0]) - 1)
    @property
    def shape(self):
        if getattr(self, '_cnt', None) is None:
            lo, hi = self.rng1()
            self._cnt = dim(reduce_term('count', lo, hi, lambda j: (core.zb(self.cond(j)),)))
        return (self._cnt,)
    def nonempty(self):
        lo, hi = self.rng1()
        return reduce_term('any', lo, hi, lambda j: (self.cond(j),))
    def snapshot(self): raise Unsupported('positional access to a masked selection')
    def el(self, *i):
        return self[Num(zi(i[0]))]
    def same_mask(self, ranges, cond):
        if len(ranges) != len(self.ranges): return False
        for a, b in zip(ranges, self.ranges):
            if not same_dim(a, b): return False
        js = [z3.Int(f'mask#{k}') for k in range(len(ranges))]
        a, b = self.cond(*js), cond(*js)
        if isinstance(a, bool) or isinstance(b, bool): return a is b
        if a.eq(b): return True
        s = z3.Solver(); s.set('timeout', 1000); s.add(a != b)
        return s.check() == z3.unsat
    def with_val(self, val, kind): return Compressed.make(self.ranges, self.cond, val, kind)
    def copy(self, order=None): return Compressed.make(self.ranges, self.cond, self.val, self.kind, self.iota)
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1: k = k[0]
        if isinstance(k, int) and k in (0, -1):
            if bool(SymBool(b_not(self.nonempty()))): raise IndexError('index out of bounds for axis 0 with size 0')
            lo, hi = self.rng1()
            w = reduce_term('first' if k == 0 else 'last', lo, hi, lambda j: (self.cond(j),))
            return self.val(w)
        if isinstance(k, slice) and k == slice(None): return self
        if isinstance(k, Compressed) or (isinstance(k, ndarray) and k.kind == 'b'):
            if isinstance(k, Compressed) and k.kind == 'b' and k.same_mask(self.ranges, self.cond):
                c0, c1 = self.cond, k.val
                return Compressed.make(self.ranges, lambda *j: b_and(c0(*j), unz(c1(*j))), self.val, self.kind, self.iota)
        raise Unsupported('indexing a masked selection')
    def __setitem__(self, k, v): raise Unsupported('assignment to a masked selection')
    def __iter__(self): raise Unsupported('iteration over a masked selection')
    def _as_list(self): raise Unsupported('iteration over a masked selection')
    def _ne(self, what):
        if bool(SymBool(b_not(self.nonempty()))): raise ValueError(f'zero-size array to reduction operation {what} which has no identity')
    def sum(self, axis=None, **k):
        lo, hi = self.rng1()
        return red_sum_range(lo, hi, lambda j: num_ite(self.cond(j), num(self.val(j)), num(0)))
    def mean(self, axis=None, **k): return num_div(self.sum(), num(self.shape[0]))
    def var(self, axis=None, ddof=0, **k):
        m = self.mean()
        lo, hi = self.rng1()
        s = red_sum_range(lo, hi, lambda j: num_ite(self.cond(j), (num(self.val(j)) - m) * (num(self.val(j)) - m), num(0)))
        return num_div(s, num(self.shape[0]) - ddof)
    def std(self, axis=None, ddof=0, **k): return num_sqrt(self.var(ddof=ddof))
    def max(self, axis=None, **k):
        self._ne('maximum'); lo, hi = self.rng1()
        return red_ext_range('max', lo, hi, self.val, self.cond)
    def min(self, axis=None, **k):
        self._ne('minimum'); lo, hi = self.rng1()
        return red_ext_range('min', lo, hi, self.val, self.cond)
    def any(self, axis=None, **k):
        lo, hi = self.rng1()
        return SymBool(reduce_term('any', lo, hi, lambda j: (b_and(self.cond(j), unz(self.val(j))),)))
    def all(self, axis=None, **k):
        lo, hi = self.rng1()
        return SymBool(b_not(reduce_term('any', lo, hi, lambda j: (b_and(self.cond(j), b_not(unz(self.val(j)))),))))
    def reshape(self, *a, **k):
        if a in ((-1,), ((-1,),)): return self
        raise Unsupported('reshape of a masked selection')
    def flatten(self): return self
    ravel = flatten
    def tolist(self): raise Unsupported('tolist of a masked selection')

# ---------------------------------------------------------------- lists of symbolic length
class SymList:
    """List of symbolic length: element function over z3 Int."""
    def __init__(self, n, fn): self.n, self.fn = dim(n), fn
    def __class_getitem__(cls, k): return cls
    def _vc_len(self): return self.n
    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise Unsupported('len of a symbolic list')
    def __iter__(self):
        if isinstance(self.n, int): return iter([self.fn(z3.IntVal(i)) for i in range(self.n)])
        raise Unsupported('iteration over a symbolic list')
    def __getitem__(self, k):
        if isinstance(k, slice):
            a, ln, stp = norm_slice(k, self.n)
            if stp == 1: return SymList(ln, lambda i: self.fn(z3.simplify(a + zi(i))))
            return SymList(ln, lambda i: self.fn(z3.simplify(a - zi(i))))
        return self.fn(norm_index(k, self.n))
    def __bool__(self):
        return bool(SymBool(simp_b(zi(self.n) > 0)))
    def __add__(self, o):
        o2 = o if isinstance(o, SymList) else SymList(len(o), lambda i: pick(list(o), i))
        n1 = zi(self.n)
        def fn(i):
            i = zi(i)
            c = simp_b(i < n1)
            if is_true(c): return self.fn(i)
            if is_false(c): return o2.fn(z3.simplify(i - n1))
            return val_ite(c, self.fn(i), o2.fn(z3.simplify(i - n1)))
        return SymList(dim(n1 + zi(o2.n)), fn)
    def append(self, x): raise Unsupported('append to a symbolic list')
    def copy(self): return SymList(self.n, self.fn)
    def index(self, x): raise Unsupported('index in a symbolic list')

def pick(items, i):
    i = zi(i)
    if z3.is_int_value(i): return items[i.as_long()]
    r = items[-1] if items else num(0)
    for k in range(len(items) - 2, -1, -1): r = val_ite(simp_b(i == k), items[k], r)
    return r

def val_ite(c, a, b):
    """If-then-else on values of any supported type."""
    if is_true(c): return a
    if is_false(c): return b
    if a is b: return a
    if isinstance(a, (Num, SymBool, int, float, bool)) and isinstance(b, (Num, SymBool, int, float, bool)):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)): return SymBool(b_ite(c, unz(a), unz(b)))
        return num_ite(c, num(a), num(b))
    if isinstance(a, (list, tuple)) and isinstance(b, type(a)) and len(a) == len(b):
        return type(a)(val_ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, ndarray) and isinstance(b, ndarray) and not isinstance(a, Compressed) and not isinstance(b, Compressed) and a.ndim == b.ndim:
        f, g = a.snapshot(), b.snapshot()
        sh = tuple(x if isinstance(x, int) and isinstance(y, int) and x == y else dim(t_ite(c, zi(x), zi(y))) for x, y in zip(a.shape, b.shape))
        iota = t_ite(c, a.iota, b.iota) if a.iota is not None and b.iota is not None else None
        return ndarray.new(sh, lambda *i: num_ite(c, f(*i), g(*i)), a.kind, iota)
    ia, ib = as_intset(a, False), as_intset(b, False)
    if ia and ib:
        n = tmax(ia[1], ib[1])
        return Compressed.make((n,), lambda j: b_ite(c, b_and(ia[0](j), j < zi(ia[1])), b_and(ib[0](j), j < zi(ib[1]))), lambda j: Num(j), 'i', z3.IntVal(0))
    h = getattr(a, '_vc_ite', None)
    if h is not None: return h(c, b)
    if type(a) is type(b) and a == b: return a
    raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')

def subst_val(x, pairs):
    """Substitute bound variables in a value."""
    if isinstance(x, Num):
        return Num(subst(x.v, *pairs), x.nan if isinstance(x.nan, bool) else subst(x.nan, *pairs), x.bad if isinstance(x.bad, bool) else subst(x.bad, *pairs))
    if isinstance(x, SymBool): return SymBool(x.z if isinstance(x.z, bool) else subst(x.z, *pairs))
    if isinstance(x, (tuple, list)): return type(x)(subst_val(y, pairs) for y in x)
    if isinstance(x, Compressed):
        c, v = x.cond, x.val
        return Compressed.make([dim(subst(zi(d), *pairs)) for d in x.ranges], lambda *j: (lambda b: b if isinstance(b, bool) else subst(b, *pairs))(c(*j)),
                               lambda *j: subst_val(v(*j), pairs), x.kind, None if x.iota is None else subst(x.iota, *pairs))
    if isinstance(x, ndarray):
        f = x.snapshot()
        return ndarray.new([d if isinstance(d, int) else dim(subst(zi(d), *pairs)) for d in x.shape], lambda *i: subst_val(f(*i), pairs), x.kind,
                           None if x.iota is None else subst(x.iota, *pairs))
    if isinstance(x, SymList):
        f = x.fn
        return SymList(dim(subst(zi(x.n), *pairs)), lambda i: subst_val(f(i), pairs))
    if isinstance(x, dict): return {k: subst_val(v, pairs) for k, v in x.items()}
    h = getattr(x, '_vc_subst', None)
    if h is not None: return h(pairs)
    if isinstance(x, (int, float, str, bool, type(None), bytes)) or callable(x): return x
    raise Unsupported(f'substitution in {type(x).__name__}')

def as_intset(a, strict=True):
    """(membership predicate over z3 Int, exclusive upper bound) of a sorted array of distinct non-negative ints."""
    if isinstance(a, Compressed) and a.iota is not None:
        off, c, n = a.iota, a.cond, zi(a.ranges[0])
        if z3.is_int_value(off) and off.as_long() == 0: return (lambda v: b_and(simp_b(v >= 0), simp_b(v < n), c(v))), n
        return (lambda v: b_and(simp_b(v >= off), simp_b(v < off + n), c(z3.simplify(v - off)))), z3.simplify(off + n)
    if isinstance(a, ndarray) and not isinstance(a, Compressed) and a.iota is not None and a.ndim == 1:
        off, n = a.iota, zi(a.shape[0])
        return (lambda v: b_and(simp_b(v >= off), simp_b(v < off + n))), z3.simplify(off + n)
    if strict: raise Unsupported('not an index set')
    return None

# ---------------------------------------------------------------- elementwise
def is_scalar(x): return isinstance(x, (Num, SymBool, int, float, bool)) or (as_num(x) is not None and not isinstance(x, (ndarray, Series_marker)))

def broadcast_shape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        r = None
        for d in ds:
            if isinstance(d, int) and d == 1: continue
            if r is None: r = d
            elif not same_dim(r, d):
                raise ValueError('operands could not be broadcast together')
            elif isinstance(d, int): r = d
        out.append(1 if r is None else r)
    return tuple(out)

def broadcast_fn(a, shape):
    """Element function of a broadcast to shape (trailing alignment)."""
    if not isinstance(a, ndarray):
        v = a if isinstance(a, SymBool) else num(a)
        return lambda *i: v
    f = a.snapshot(); sh = a.shape; k = len(sh)
    if k > len(shape):
        if all(isinstance(d, int) and d == 1 for d in sh[:k - len(shape)]):
            full_f = f; m = k - len(shape)
            f = lambda *i: full_f(*([z3.IntVal(0)] * m + list(i))); sh = sh[m:]; k = len(sh)
        else: raise ValueError('could not broadcast input array')
    one = [isinstance(d, int) and d == 1 and not (isinstance(e, int) and e == 1) for d, e in zip(sh, shape[len(shape) - k:])]
    for d, e, o in zip(sh, shape[len(shape) - k:], one):
        if not o and not same_dim(d, e):
            if isinstance(d, int) and d == 1: continue
            raise ValueError('could not broadcast input array')
    def g(*i):
        i = i[len(i) - k:]
        return f(*[z3.IntVal(0) if o else x for x, o in zip(i, one)])
    return g

def elementwise(f, *args, kind=None):
    ser = [a for a in args if isinstance(a, Series_marker)]
    if ser: return ser[0]._elementwise(f, *args, kind=kind)
    args = [asarray(a) if isinstance(a, (list, tuple, SymList)) else a for a in args]
    comp = [a for a in args if isinstance(a, Compressed)]
    if comp:
        c = comp[0]
        fs = []
        for a in args:
            if isinstance(a, Compressed):
                if not a.same_mask(c.ranges, c.cond): raise Unsupported('operation on different masks')
                fs.append(a.val)
            elif isinstance(a, ndarray) and a.shape != ():
                raise Unsupported('operation of a masked selection and an array')
            else:
                v = a.item() if isinstance(a, ndarray) else a
                fs.append(lambda *j, v=v: v)
        r = c.with_val(lambda *j: f(*[g(*j) for g in fs]), kind or 'f')
        return r
    arrs = [a for a in args if isinstance(a, ndarray)]
    if not arrs:
        return f(*args)
    shape = broadcast_shape([a.shape for a in arrs])
    fs = []
    for a in args:
        if isinstance(a, ndarray): fs.append(broadcast_fn(a, shape))
        else: fs.append(lambda *i, a=a: a)
    if kind is None: kind = 'i' if all((a.kind in 'ib' if isinstance(a, ndarray) else isinstance(a, (int, Num)) and num(a).isint) for a in args) and f.__name__ != '<truediv>' else 'f'
    if shape == (): return f(*[g() for g in fs])
    return ndarray.new(shape, lambda *i: f(*[g(*i) for g in fs]), kind)

# ---------------------------------------------------------------- reductions
def conc(x):
    if isinstance(x, int): return x
    x = x.v if isinstance(x, Num) else x
    x = z3.simplify(x)
    return x.as_long() if z3.is_int_value(x) else None

def red_sum_range(lo, hi, f):
    lo, hi = zi(lo), zi(hi)
    w = conc(hi - lo)
    if w is not None and w < UNROLL:
        r = None
        for k in range(w + 1):
            e = num(f(z3.simplify(lo + k)))
            r = e if r is None else r + e
        return r if r is not None else num(0)
    with bound() as j: e0 = num(f(j))
    isint = e0.isint and is_false(e0.nan)
    r = _one_point(lo, hi, j, e0)
    if r is not None: return r
    s = reduce_term('sum', lo, hi, lambda j: (num(f(j)).real_v,))
    nan = False if is_false(e0.nan) else reduce_term('any', lo, hi, lambda j: (num(f(j)).nan,))
    bad = False if is_false(e0.bad) else reduce_term('any', lo, hi, lambda j: (num(f(j)).bad,))
    if isint and _is01(e0.v):
        c = reduce_term('count', lo, hi, lambda j: (core.zb(_cond01(num(f(j)).v)),))
        if st().ctx and not st().level: CTX().assume(z3.And(c >= 0, z3.Or(c <= hi - lo + 1, hi < lo - 1)))
        return Num(c)
    return Num(s, nan, bad)

def _one_point(lo, hi, j, e):
    """sum over j of a term that is zero unless j == t: its value at t"""
    seen = set(); cs = []
    def walk(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            for q in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(q) and z3.is_int(q.arg(0)): cs.append(q)
        for x in t.children(): walk(x)
    walk(e.v)
    for c in cs:
        d = z3.simplify(c.arg(0) - c.arg(1), som=True)
        a0 = z3.simplify(z3.substitute(d, (j, z3.IntVal(0)))); a1 = z3.simplify(z3.substitute(d, (j, z3.IntVal(1))) - a0)
        if not z3.is_int_value(a1) or abs(a1.as_long()) != 1: continue
        if core.uses(a0, [j]) or not z3.is_int_value(z3.simplify(d - a0 - a1 * j, som=True)): continue
        off = z3.simplify(z3.substitute(e.v, (c, z3.BoolVal(False))))
        if not (z3.is_rational_value(off) or z3.is_int_value(off)) or off.as_fraction() != 0: continue
        t = z3.simplify(-a0 if a1.as_long() == 1 else a0)
        v = z3.simplify(z3.substitute(z3.substitute(e.v, (c, z3.BoolVal(True))), (j, t)))
        if not (is_false(e.nan) and is_false(e.bad)):
            from .prover import prove
            ok = prove(core.b_not(core.b_or(e.nan, e.bad)), CTX().allpc() + [lo <= j, j <= hi], timeout=1500, quick=True)
            if ok.status != 'proved': return None
        return num_ite(simp_b(z3.And(lo <= t, t <= hi)), Num(v), Num(z3.IntVal(0) if z3.is_int(v) else z3.RealVal(0)))
    return None

def _is01(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)) and t.arg(1).as_long() == 1 and t.arg(2).as_long() == 0 or (z3.is_int_value(t) and t.as_long() in (0, 1))
def _cond01(t):
    if z3.is_int_value(t): return bool(t.as_long())
    return t.arg(0)

def red_sum(dims, f):
    if len(dims) == 1: return red_sum_range(0, zi(dims[0]) - 1, f)
    return red_sum_range(0, zi(dims[0]) - 1, lambda i: red_sum(dims[1:], lambda *r: f(i, *r)))

def total(dims):
    r = 1
    for d in dims: r = r * d
    return r

def red_mean(dims, f):
    g = lambda *i: Num(num(f(*i)).real_v, num(f(*i)).nan, num(f(*i)).bad)
    return num_div(red_sum(dims, g), num(total(dims)))

def red_var(dims, f, ddof=0):
    m = red_mean(dims, f)
    def sq(*i):
        d = num(f(*i)) - m
        return d * d
    return num_div(red_sum(dims, sq), num(total(dims)) - ddof)

def red_any_range(lo, hi, f):
    lo, hi = zi(lo), zi(hi)
    w = conc(hi - lo)
    if w is not None and w < UNROLL:
        return SymBool(b_or(*[unz(f(z3.simplify(lo + k))) for k in range(w + 1)]))
    return SymBool(reduce_term('any', lo, hi, lambda j: (unz(f(j)),)))
def red_any(dims, f):
    if len(dims) == 1: return red_any_range(0, zi(dims[0]) - 1, f)
    return red_any_range(0, zi(dims[0]) - 1, lambda i: red_any(dims[1:], lambda *r: f(i, *r)))
def red_all(dims, f):
    return ~red_any(dims, lambda *i: SymBool(b_not(unz(f(*i)))))

def red_ext_range(kind, lo, hi, f, cond=None):
    lo, hi = zi(lo), zi(hi)
    w = conc(hi - lo)
    if w is not None and w < UNROLL and cond is None:
        r = None
        for k in range(w + 1):
            e = num(f(z3.simplify(lo + k)))
            r = e if r is None else (n_max(r, e) if kind == 'max' else n_min(r, e))
        if r is None: raise ValueError('zero-size array to reduction operation')
        return r
    c = cond or (lambda j: True)
    with bound() as j: e0 = num(f(j))
    isint = e0.isint and is_false(e0.nan)
    t = reduce_term(('i' if isint else '') + kind, lo, hi, lambda j: ((num(f(j)).v if isint else num(f(j)).real_v), core.zb(c(j)) if not isinstance(c(j), bool) else c(j)))
    nan = False if is_false(e0.nan) else reduce_term('any', lo, hi, lambda j: (b_and(c(j), num(f(j)).nan),))
    bad = False if is_false(e0.bad) else reduce_term('any', lo, hi, lambda j: (b_and(c(j), num(f(j)).bad),))
    return Num(t, nan, bad)
def red_ext(kind, dims, f):
    if len(dims) == 1:
        if simp_b(zi(dims[0]) <= 0) is True: raise ValueError('zero-size array to reduction operation')
        return red_ext_range(kind, 0, zi(dims[0]) - 1, f)
    return red_ext_range(kind, 0, zi(dims[0]) - 1, lambda i: red_ext(kind, dims[1:], lambda *r: f(i, *r)))

def n_max(a, b):
    a, b = num(a), num(b)
    c = simp_b((a.v >= b.v) if a.isint and b.isint else (a.real_v >= b.real_v))
    r = num_ite(c, a, b)
    return Num(r.v, b_or(a.nan, b.nan), b_or(a.bad, b.bad))
def n_min(a, b):
    a, b = num(a), num(b)
    c = simp_b((a.v <= b.v) if a.isint and b.isint else (a.real_v <= b.real_v))
    r = num_ite(c, a, b)
    return Num(r.v, b_or(a.nan, b.nan), b_or(a.bad, b.bad))

def red_arg(kind, a):
    if isinstance(a, Compressed) or a.ndim != 1: raise Unsupported(kind)
    f = a.snapshot()
    n = a.shape[0]
    if isinstance(n, int) and n == 0: raise ValueError('attempt to get argmax of an empty sequence')
    hi = zi(n) - 1
    with bound() as j: e0 = num(f(j))
    if not (is_false(e0.nan)):
        # an undefined element takes the maximum's place in numpy: keep the undefined case apart
        anynan = reduce_term('any', z3.IntVal(0), hi, lambda j: (b_or(num(f(j)).nan, num(f(j)).bad),))
        w = reduce_term(kind, z3.IntVal(0), hi, lambda j: (num(f(j)).real_v,))
        return Num(t_ite(anynan, z3.Int(fresh_name('argnan')), w))
    return Num(reduce_term(kind, z3.IntVal(0), hi, lambda j: (num(f(j)).real_v,)))

# ---------------------------------------------------------------- construction
def asarray(x, dtype=None, **k):
    if isinstance(x, Series_marker): x = x._values
    if isinstance(x, ndarray): return x
    if isinstance(x, SymList):
        with bound() as j: e = x.fn(j)
        f = x.fn
        if isinstance(e, (Num, SymBool, int, float, bool)):
            kind = 'b' if isinstance(e, (SymBool, bool)) else ('i' if num(e).isint else 'f')
            return ndarray.new((x.n,), lambda i: f(i), kind)
        if isinstance(e, (list, tuple)):
            m = len(e)
            kind = 'i' if all(num(t).isint for t in e) else 'f'
            return ndarray.new((x.n, m), lambda i, c: pick([num(t) for t in f(i)], c), kind)
        if isinstance(e, ndarray):
            return ndarray.new((x.n,) + e.shape, lambda i, *r: f(i).el(*r), e.kind)
        raise Unsupported(f'array of {type(e).__name__}')
    if isinstance(x, (list, tuple)):
        items = list(x)
        if not items: return ndarray.new((0,), lambda i: num(0))
        if any(isinstance(t, (list, tuple, ndarray, SymList, Series_marker)) for t in items):
            rows = [asarray(t) for t in items]
            for r in rows[1:]:
                if r.ndim != rows[0].ndim: raise ValueError('setting an array element with a sequence. inhomogeneous shape')
                for a, b in zip(r.shape, rows[0].shape):
                    if not same_dim(a, b): raise ValueError('inhomogeneous shape')
            fs = [r.snapshot() for r in rows]
            kind = 'i' if all(r.kind == 'i' for r in rows) else ('b' if all(r.kind == 'b' for r in rows) else 'f')
            return ndarray.new((len(rows),) + rows[0].shape, lambda i, *r: pick([LazyEl(f, r) for f in fs], i)() if False else pick_lazy([lambda f=f: f(*r) for f in fs], i), kind)
        if isinstance(items[0], str): raise Unsupported('string array')
        vals = [t if isinstance(t, SymBool) else (SymBool(t) if isinstance(t, bool) else num(t)) for t in items]
        kind = 'b' if all(isinstance(v, SymBool) for v in vals) else ('i' if all(isinstance(v, Num) and v.isint for v in vals) else 'f')
        if kind == 'f': vals = [num(v) for v in vals]
        return ndarray.new((len(vals),), lambda i: pick(vals, i), kind)
    if is_scalar(x):
        v = x if isinstance(x, SymBool) else num(x)
        return ndarray.new((), lambda: v, 'i' if isinstance(v, Num) and v.isint else 'f')
    raise Unsupported(f'array from {type(x).__name__}')

def pick_lazy(fns, i):
    i = zi(i)
    if z3.is_int_value(i): return fns[i.as_long()]()
    return pick([g() for g in fns], i)

def array(x, dtype=None, copy=True, **k):
    r = asarray(x)
    r = r.copy() if isinstance(x, ndarray) or isinstance(x, Series_marker) else r
    if dtype in (float, 'float', 'float64') and r.kind == 'i': r.kind = 'f'
    return r

def _shape(s):
    if isinstance(s, (tuple, list)): return tuple(dim(d) for d in s)
    return (dim(s),)

INTS = (int, 'int', 'int64', 'i8'); BOOLS = (bool, 'bool'); FLOATS = (float, 'float', 'float64', 'f8')
def full(shape, v, dtype=None):
    if isinstance(dtype, DType): dtype = {'i': int, 'b': bool, 'f': float}[dtype.kind]
    if dtype in BOOLS:
        v = v if isinstance(v, (SymBool, bool)) else v != 0
        v = v if isinstance(v, SymBool) else SymBool(bool(v))
        return ndarray.new(_shape(shape), lambda *i: v, 'b')
    v = num(v)
    if dtype in INTS and not v.isint: v = truncated(v)
    if dtype not in INTS + FLOATS + (None,): raise Unsupported(f'dtype {dtype}')
    return ndarray.new(_shape(shape), lambda *i: v, 'i' if dtype in INTS else 'f')
def zeros(shape, dtype=None, **k): return full(shape, 0 if dtype in INTS else 0.0, dtype)
def ones(shape, dtype=None, **k): return full(shape, 1 if dtype in INTS else 1.0, dtype)
def empty(shape, dtype=None, **k):
    nm = fresh_name('uninit')
    sh = _shape(shape)
    F = z3.Function(nm, *([z3.IntSort()] * max(1, len(sh))), z3.RealSort())
    return ndarray.new(sh, lambda *i: Num(F(*i)))
def zeros_like(a, dtype=None, **k):
    a = asarray(a)
    if dtype is not None: return zeros(a.shape, dtype)
    if is_int_array(a): return full(a.shape, 0, int)
    r = zeros(a.shape); r.kind = a.kind if a.kind != 'i' else 'f'
    return r
def ones_like(a, dtype=None, **k):
    a = asarray(a); return ones(a.shape, dtype if dtype is not None else (int if is_int_array(a) else None))
def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    if dtype is None and is_int_array(a):
        v = num(v); return full(a.shape, v if v.isint else truncated(v), int)
    return full(a.shape, v, dtype)
def empty_like(a, **k): return empty(asarray(a).shape)

def arange(*a, **k):
    a = [x for x in a]
    if len(a) == 1: lo, hi, step = 0, a[0], 1
    elif len(a) == 2: lo, hi, step = a[0], a[1], 1
    else: lo, hi, step = a
    if not (num(lo).isint and num(hi).isint): raise Unsupported('float arange')
    step = conc(num(step))
    lo, hi = zi(lo), zi(hi)
    if step == 1:
        n = dim(tmax(0, z3.simplify(hi - lo)))
        return ndarray.new((n,), lambda i: Num(z3.simplify(lo + i)), 'i', lo)
    if step == -1:
        n = dim(tmax(0, z3.simplify(lo - hi)))
        return ndarray.new((n,), lambda i: Num(z3.simplify(lo - i)), 'i')
    raise Unsupported('arange step')

def eye(n, *a, **k):
    return ndarray.new((n, n), lambda i, j: Num(z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))

def linspace(a, b, n=50, **k):
    a, b, n = num(a), num(b), num(n)
    return ndarray.new((n,), lambda i: a + num_div((b - a) * Num(z3.ToReal(i)), n - 1))

def matmul(a, b):
    a, b = asarray(a), asarray(b)
    f, g = a.snapshot(), b.snapshot()
    k = a.shape[-1]
    kb = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not same_dim(k, kb): raise ValueError('matmul: dimension mismatch')
    hi = zi(k) - 1
    if a.ndim == 2 and b.ndim == 2:
        return ndarray.new((a.shape[0], b.shape[1]), lambda i, j: red_sum_range(0, hi, lambda t: num(f(i, t)) * num(g(t, j))))
    if a.ndim == 1 and b.ndim == 1: return red_sum_range(0, hi, lambda t: num(f(t)) * num(g(t)))
    if a.ndim == 2 and b.ndim == 1: return ndarray.new((a.shape[0],), lambda i: red_sum_range(0, hi, lambda t: num(f(i, t)) * num(g(t))))
    if a.ndim == 1 and b.ndim == 2: return ndarray.new((b.shape[1],), lambda j: red_sum_range(0, hi, lambda t: num(f(t)) * num(g(t, j))))
    raise Unsupported('matmul')

def diag(a, k=0):
    a = asarray(a)
    f = a.snapshot()
    if a.ndim == 2: return ndarray.new((dim(tmin(a.shape[0], a.shape[1])),), lambda i: f(i, i), a.kind)
    if a.ndim == 1: return ndarray.new((a.shape[0], a.shape[0]), lambda i, j: num_ite(simp_b(i == j), num(f(i)), num(0)), a.kind)
    raise ValueError('Input must be 1- or 2-d.')

def trace(a):
    a = asarray(a); f = a.snapshot()
    return red_sum_range(0, tmin(a.shape[0], a.shape[1]) - 1, lambda i: f(i, i))

def clip(a, a_min=None, a_max=None, **k):
    def f(x):
        x = num(x); r = x
        if a_min is not None: r = num_ite(simp_b(r.real_v < num(a_min).real_v), num(a_min), r)
        if a_max is not None: r = num_ite(simp_b(r.real_v > num(a_max).real_v), num(a_max), r)
        return Num(r.real_v if not x.isint else r.v, x.nan, x.bad)
    if isinstance(a, (ndarray, Series_marker)): return elementwise(f, a)
    if hasattr(a, '_map'): return a._map(f)
    return f(a)

def where(*a):
    if len(a) == 1:
        m = a[0]
        if isinstance(m, Series_marker): m = m._values
        if isinstance(m, Compressed): raise Unsupported('where on a selection')
        if m.ndim != 1: raise Unsupported('where in several dimensions')
        g = m.snapshot()
        return (Compressed.make(m.shape, lambda i: unz(g(i)), lambda i: Num(i), 'i', z3.IntVal(0)),)
    c, x, y = a
    r = elementwise(lambda c, x, y: num_ite(unz(c), num(x), num(y)), c, x, y)
    return r

def argsort(a, *args, **k):
    a = asarray(a)
    if a.ndim != 1: raise Unsupported('argsort of a matrix')
    assumed('numpy.argsort: a permutation that sorts ascending')
    f = a.snapshot(); n = zi(a.shape[0])
    P = z3.Function(fresh_name('perm'), z3.IntSort(), z3.IntSort())
    from .prover import FactRule
    S = st()
    S.inputs[P.name()] = 'argsort permutation'
    S.facts.append(FactRule([P.name()], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n))))
    S.facts.append(FactRule([P.name()], lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), z3.And(P(i) != P(j), num(f(P(i))).real_v <= num(f(P(j))).real_v)), pair=True))
    return ndarray.new(a.shape, lambda i: Num(P(i)), 'i')
