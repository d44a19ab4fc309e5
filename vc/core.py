"""Symbolic scalars, path exploration and the registry of reductions.

A value of the code under verification is a `Num` (a z3 term of sort Int or Real together with a missing-value
flag `nan` and a flag `bad` for infinities) or a `SymBool`.  Floats are treated as exact reals.
Branching on a SymBool forks the execution: the whole contract is re-executed for every feasible path.
"""
import sys, math, numbers
from fractions import Fraction
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

z3.set_param('memory_max_size', 3000)

class Unsupported(Exception):
    """The engine cannot represent what the code does (undecided, never a violation)."""

class PathAbort(BaseException):
    """End this path silently (infeasible or a closed loop iteration)."""

# ---------------------------------------------------------------- boolean terms with constant folding
def zb(b):
    if isinstance(b, SymBool): b = b.z
    if isinstance(b, bool): return z3.BoolVal(b)
    return b

def is_true(b): return b is True or (not isinstance(b, bool) and z3.is_true(b))
def is_false(b): return b is False or (not isinstance(b, bool) and z3.is_false(b))

def b_not(a):
    if isinstance(a, bool): return not a
    if z3.is_true(a): return False
    if z3.is_false(a): return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)

def b_and(*xs):
    out = []
    seen = set()
    for x in xs:
        if is_false(x): return False
        if is_true(x): continue
        k = x.get_id()
        if k in seen: continue
        seen.add(k); out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def b_or(*xs):
    out = []
    seen = set()
    for x in xs:
        if is_true(x): return True
        if is_false(x): continue
        k = x.get_id()
        if k in seen: continue
        seen.add(k); out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def b_implies(a, b): return b_or(b_not(a), b)

def b_ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else b_not(c)
    if isinstance(a, bool): return b_or(c, b) if a else b_and(b_not(c), b)
    if isinstance(b, bool): return b_or(b_not(c), a) if b else b_and(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)

def b_eq(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, bool): return b if a else b_not(b)
    if isinstance(b, bool): return a if b else b_not(a)
    if a.eq(b): return True
    return a == b

def t_ite(c, a, b):
    """If-then-else on arithmetic terms."""
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    if a.sort() != b.sort():
        a, b = to_real(a), to_real(b)
    return z3.If(c, a, b)

def to_real(t):
    if z3.is_int(t):
        if z3.is_int_value(t): return z3.RealVal(t.as_long())
        if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), to_real(t.arg(1)), to_real(t.arg(2)))
        return z3.ToReal(t)
    return t

_SPECIAL = {}

def lift_float(x):
    if x in _SPECIAL: return _SPECIAL[x]()
    f = Fraction(x)
    if f.denominator > 1:
        for lim in (1000, 10**6, 10**9):
            g = f.limit_denominator(lim)
            if float(g) == x: f = g; break
        else:
            g = Fraction(repr(x))
            f = g
    return z3.RealVal(str(f.numerator)) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)

# ---------------------------------------------------------------- uninterpreted real functions
Log = z3.Function('log', z3.RealSort(), z3.RealSort())
Exp = z3.Function('exp', z3.RealSort(), z3.RealSort())
Sqrt = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
Pow = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
Round = z3.Function('round', z3.RealSort(), z3.IntSort())
Pi = z3.Real('pi')
# outcome of comparing infinite intermediates: some fixed but unknown function of the terms
InfCmp = z3.Function('infcmp', z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort(), z3.BoolSort(), z3.BoolSort())
CMPOPS = {}

_SPECIAL[math.pi] = lambda: Pi

def mk_sqrt(t):
    if z3.is_rational_value(t):
        fr = t.as_fraction()
        if fr >= 0:
            a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if a * a == fr.numerator and b * b == fr.denominator:
                return z3.Q(a, b) if b != 1 else z3.RealVal(a)
    return Sqrt(t)

def mk_log(t):
    if z3.is_rational_value(t) and t.as_fraction() == 1: return z3.RealVal(0)
    return Log(t)

def mk_exp(t):
    if z3.is_rational_value(t) and t.as_fraction() == 0: return z3.RealVal(1)
    return Exp(t)

_SPECIAL[math.sqrt(2)] = lambda: Sqrt(z3.RealVal(2))
_SPECIAL[math.log(2)] = lambda: Log(z3.RealVal(2))

# ---------------------------------------------------------------- Num
class Num:
    """Symbolic number; ty 'i' (Int sort) or 'f' (Real sort)."""
    __slots__ = ('v', 'nan', 'bad', 'npy')
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, v, nan=False, bad=False, npy=True):
        self.v, self.nan, self.bad, self.npy = v, nan, bad, npy

    @property
    def isint(self): return z3.is_int(self.v)
    @property
    def real_v(self): return to_real(self.v)
    @property
    def ok(self): return b_and(b_not(self.nan), b_not(self.bad))

    def _bin(self, o, f, ifint=True):
        o = as_num(o)
        if o is None: return NotImplemented
        if self.isint and o.isint and ifint:
            return Num(f(self.v, o.v))
        return Num(f(self.real_v, o.real_v), b_or(self.nan, o.nan), b_or(self.bad, o.bad))

    def __add__(self, o):
        r = _defer(o);
        if r: return NotImplemented
        return self._bin(o, t_add)
    __radd__ = __add__
    def __sub__(self, o):
        if _defer(o): return NotImplemented
        return self._bin(o, t_sub)
    def __rsub__(self, o):
        if _defer(o): return NotImplemented
        return num(o) - self
    def __mul__(self, o):
        if _defer(o): return NotImplemented
        return self._bin(o, t_mul)
    __rmul__ = __mul__
    def __neg__(self): return Num(t_neg(self.v), self.nan, self.bad)
    def __pos__(self): return self
    def __abs__(self): return Num(t_ite_simpl(self.v >= 0, self.v, t_neg(self.v)), self.nan, self.bad)
    def __truediv__(self, o):
        if _defer(o): return NotImplemented
        return num_div(self, num(o))
    def __rtruediv__(self, o):
        if _defer(o): return NotImplemented
        return num_div(num(o), self)
    def __floordiv__(self, o):
        if _defer(o): return NotImplemented
        o = num(o)
        if self.isint and o.isint: return Num(sdivmod(self.v, o.v)[0])
        raise Unsupported('float floor division')
    def __rfloordiv__(self, o): return num(o) // self
    def __mod__(self, o):
        if _defer(o): return NotImplemented
        o = num(o)
        if self.isint and o.isint: return Num(sdivmod(self.v, o.v)[1])
        raise Unsupported('float modulo')
    def __rmod__(self, o): return num(o) % self
    def __divmod__(self, o): return self // o, self % o
    def __pow__(self, e):
        if _defer(e): return NotImplemented
        return num_pow(self, e)
    def __rpow__(self, b): return num_pow(num(b), self)

    def _cmp(self, o, f):
        if _defer(o): return NotImplemented
        o = as_num(o)
        if o is None: return NotImplemented
        if self.isint and o.isint: c = f(self.v, o.v)
        else: c = f(self.real_v, o.real_v)
        c = simp_b(c)
        nan = b_or(self.nan, o.nan); bad = b_or(self.bad, o.bad)
        if is_false(nan) and is_false(bad): return SymBool(c)
        if not is_false(bad): c = b_ite(bad, InfCmp(z3.IntVal(CMPOPS.setdefault(f.__code__, len(CMPOPS))), self.real_v, o.real_v, zb(self.bad), zb(o.bad)), c)
        return SymBool(b_and(b_not(nan), c))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(b_not(r.z))
    def __bool__(self): return bool(self != 0)
    def __index__(self):
        if z3.is_int_value(self.v): return self.v.as_long()
        raise Unsupported('symbolic integer used as a concrete index')
    def __int__(self):
        if z3.is_int_value(self.v): return self.v.as_long()
        raise Unsupported('int() of a symbolic number')
    def __float__(self):
        if z3.is_rational_value(self.v) and is_false(self.nan): return float(self.v.as_fraction())
        raise Unsupported('float() of a symbolic number')
    def __round__(self, nd=None):
        if nd is not None: raise Unsupported('round with digits')
        if self.isint: return self
        return Num(Round(self.v))
    def __repr__(self): return f'<{self.v}{"?" if not is_false(self.nan) else ""}>'
    def __format__(self, spec): return f'<{self.v}>'
    # numpy scalar surface
    shape = (); ndim = 0; size = 1
    def is_integer(self):
        if self.isint: return True
        return SymBool(z3.IsInt(self.v))
    def item(self): return self
    def astype(self, t): return self if t not in ('int', int) else trunc_int(self)
    def copy(self): return self
    @property
    def real(self): return self
    @property
    def T(self): return self
    def flatten(self): raise Unsupported('flatten of a scalar')
    def any(self): return self != 0
    def all(self): return self != 0

numbers.Number.register(Num)

_DEFER = []     # array-like classes which take over binary operations
def _defer(o): return isinstance(o, tuple(_DEFER)) if _DEFER else False

def simp_b(c):
    if isinstance(c, bool): return c
    s = z3.simplify(c)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return c

def _num_const(t):
    if z3.is_int_value(t): return Fraction(t.as_long())
    if z3.is_rational_value(t): return t.as_fraction()
    return None

def _mk_const(fr, isint):
    if isint and fr.denominator == 1: return z3.IntVal(fr.numerator)
    return z3.RealVal(fr.numerator) if fr.denominator == 1 else z3.Q(fr.numerator, fr.denominator)

def t_add(a, b):
    ca, cb = _num_const(a), _num_const(b)
    if ca is not None and cb is not None: return _mk_const(ca + cb, z3.is_int(a))
    if ca == 0: return b
    if cb == 0: return a
    if z3.is_int(a): return z3.simplify(a + b)
    return a + b
def t_sub(a, b):
    ca, cb = _num_const(a), _num_const(b)
    if ca is not None and cb is not None: return _mk_const(ca - cb, z3.is_int(a))
    if cb == 0: return a
    if z3.is_int(a): return z3.simplify(a - b)
    return a - b
def t_mul(a, b):
    ca, cb = _num_const(a), _num_const(b)
    if ca is not None and cb is not None: return _mk_const(ca * cb, z3.is_int(a))
    if ca == 1: return b
    if cb == 1: return a
    return a * b
def t_neg(a):
    ca = _num_const(a)
    if ca is not None: return _mk_const(-ca, z3.is_int(a))
    return -a
def t_ite_simpl(c, a, b):
    return t_ite(simp_b(c), a, b)

def as_num(x):
    if isinstance(x, Num): return x
    if isinstance(x, SymBool): return Num(b_num(x.z))
    if isinstance(x, bool): return Num(z3.IntVal(int(x)))
    if isinstance(x, int): return Num(z3.IntVal(x))
    if isinstance(x, float):
        if math.isnan(x): return Num(z3.RealVal(0), True)
        if math.isinf(x): return Num(z3.RealVal(0), False, True)
        return Num(lift_float(x))
    if isinstance(x, Fraction): return Num(_mk_const(x, False))
    if z3.is_expr(x) and z3.is_arith(x): return Num(x)
    conv = getattr(x, '_as_num', None)
    if conv is not None: return conv()
    if isinstance(x, numbers.Integral): return Num(z3.IntVal(int(x)))
    if isinstance(x, numbers.Real): return as_num(float(x))
    return None

def b_num(b):
    if isinstance(b, bool): return z3.IntVal(int(b))
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))

def num(x):
    r = as_num(x)
    if r is None: raise Unsupported(f'not a number: {type(x).__name__}')
    return r

def zi(x):
    """z3 Int term of an index."""
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if z3.is_expr(x): return x
    n = num(x)
    if not n.isint: raise Unsupported('non-integer index')
    return n.v

def holds(c):
    """the path condition implies c (cheap check)"""
    c = simp_b(c)
    if isinstance(c, bool): return c
    return bool(S.ctx) and not CTX().feasible(z3.Not(c))

def _monomials(t):
    """sum of monomials [(coefficient, sorted factors)] of an integer term"""
    t = z3.simplify(t, som=True)
    out = []
    for m in (t.children() if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]):
        c, fs, todo = 1, [], [m]
        while todo:
            f = todo.pop()
            if z3.is_app_of(f, z3.Z3_OP_MUL): todo += f.children()
            elif z3.is_app_of(f, z3.Z3_OP_UMINUS): c = -c; todo += f.children()
            elif z3.is_int_value(f): c *= f.as_long()
            else: fs.append(f)
        out.append((c, sorted(fs, key=lambda f: f.get_id())))
    return out

def _prod(c, fs):
    r = None
    for f in fs: r = f if r is None else r * f
    if r is None: return z3.IntVal(c)
    return r if c == 1 else c * r

def in_range(i, n):
    """0 <= i < n, simplified when n is a product: i = d q + r with 0 <= r < d is below d m iff 0 <= q < m"""
    i, n = zi(i), zi(n)
    ms = _monomials(n)
    if len(ms) == 1 and len(ms[0][1]) + (abs(ms[0][0]) != 1) > 1 and not (z3.is_const(i)):
        c, fs = ms[0]
        for k, d in enumerate(fs):
            if not holds(d > 0): continue
            q, r = sdivmod(i, d)
            if z3.is_app_of(q, z3.Z3_OP_IDIV) or z3.is_app_of(q, z3.Z3_OP_DIV): continue
            if d.eq(i): continue
            return in_range(q, _prod(c, fs[:k] + fs[k + 1:]))
    a, b = simp_b(i >= 0), simp_b(i < n)
    return b_and(False if holds(z3.Not(i >= 0)) else a, b)

def sdivmod(a, d):
    """floor division by a positive divisor, simplified: (d * q + r) divmod d = (q, r) when 0 <= r < d"""
    a, d = zi(a), z3.simplify(zi(d))
    if z3.is_int_value(a) and z3.is_int_value(d) and d.as_long() > 0: return z3.IntVal(a.as_long() // d.as_long()), z3.IntVal(a.as_long() % d.as_long())
    md = _monomials(d)
    if len(md) == 1 and (z3.is_int_value(d) and d.as_long() > 0 or holds(d > 0)):
        dc, df = md[0]
        q, r = [], []
        for c, fs in _monomials(a):
            rest = list(fs)
            ok = c % dc == 0
            for f in df:
                k = next((i for i, g in enumerate(rest) if g.eq(f)), None)
                if k is None: ok = False; break
                rest.pop(k)
            if ok: q.append(_prod(c // dc, rest))
            else: r.append(_prod(c, fs))
        if q or r:
            add = lambda xs: z3.simplify(z3.Sum(xs)) if xs else z3.IntVal(0)
            rt = add(r)
            if not r or holds(z3.And(rt >= 0, rt < d)): return add(q), rt
            if holds(z3.And(rt >= -d, rt < 0)): return z3.simplify(add(q) - 1), z3.simplify(rt + d)
    return z3.simplify(a / d), z3.simplify(a % d)

def num_div(a, b):
    a_v, b_v = a.real_v, b.real_v
    cb = _num_const(b_v)
    nan = b_or(a.nan, b.nan); bad = b_or(a.bad, b.bad)
    if cb is not None and cb != 0:
        ca = _num_const(a_v)
        if ca is not None: return Num(_mk_const(ca / cb, False), nan, bad)
        if cb == 1: return Num(a_v, nan, bad)
        return Num(a_v / b_v, nan, bad)
    z = simp_b(b_v == 0)
    z = sure(z, b_v)
    if is_false(z): return Num(a_v / b_v, nan, bad)
    za = simp_b(a_v == 0)
    return Num(a_v / b_v, b_or(nan, b_and(z, za, b_not(bad))), b_or(bad, b_and(z, b_not(za))))

def input_var(t):
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): t = t.arg(0)
    if z3.is_const(t): return t.decl().kind() == z3.Z3_OP_UNINTERPRETED
    return count_expr(t)
def count_expr(t):
    """sum or multiple of integer constants (a length, a number of rows)"""
    if not z3.is_int(t): return False
    if z3.is_const(t): return True
    return t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and all(count_expr(c) for c in t.children())
def sure(c, t):
    """condition c about an input variable t, decided by the path if it can be"""
    c = simp_b(c)
    if isinstance(c, bool) or not S.ctx or not input_var(t): return c
    x = CTX(); pc = [p for p in x.allpc() if not isinstance(p, bool)]
    key = (c.get_id(), tuple(p.get_id() for p in pc))
    memo = S.__dict__.setdefault('nz_memo', {})
    if key not in memo: memo[key] = (not x.feasible(c), c, pc)
    return False if memo[key][0] else c

def num_sqrt(a):
    v = a.real_v
    return Num(mk_sqrt(v), b_or(a.nan, b_and(b_not(a.bad), sure(v < 0, v))), a.bad)

def num_log(a):
    v = a.real_v
    return Num(mk_log(v), b_or(a.nan, b_and(b_not(a.bad), sure(v < 0, v))), b_or(a.bad, b_and(b_not(a.nan), sure(v == 0, v))))

def num_exp(a): return Num(mk_exp(a.real_v), a.nan, a.bad)

def num_pow(a, e):
    if isinstance(e, Num):
        c = _num_const(e.v)
        if c is None:
            ok = a.real_v
            return Num(Pow(a.real_v, e.real_v), b_or(a.nan, e.nan), b_or(a.bad, e.bad))
        e = c
    elif isinstance(e, SymBool): raise Unsupported('power with boolean exponent')
    else:
        e2 = as_num(e)
        if e2 is None: return NotImplemented
        e = _num_const(e2.v)
        if e is None: return Num(Pow(a.real_v, e2.real_v), a.nan, a.bad)
    if e == 2: return Num(t_mul(a.v, a.v), a.nan, a.bad)
    if e == 1: return a
    if e == 0: return num(1)
    if e == 3: return a * a * a
    if e == 4: return (a * a) * (a * a)
    if e == Fraction(1, 2): return num_sqrt(a)
    if e == Fraction(-1, 2): return num_div(num(1), num_sqrt(a))
    if e < 0 and e.denominator == 1: return num_div(num(1), num_pow(a, -e))
    return Num(Pow(a.real_v, _mk_const(e, False)), b_or(a.nan, simp_b(a.real_v < 0)), b_or(a.bad))

def trunc_int(a):
    a = num(a)
    if a.isint: return a
    v = a.v
    return Num(t_ite(simp_b(v >= 0), z3.ToInt(v), -z3.ToInt(-v)))

def num_ite(c, a, b):
    """c: z3 bool / bool; a, b: Num or SymBool"""
    if is_true(c): return a
    if is_false(c): return b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(b_ite(c, unz(a), unz(b)))
    a, b = num(a), num(b)
    if a.isint and b.isint and is_false(a.nan) and is_false(b.nan): return Num(t_ite(c, a.v, b.v))
    return Num(t_ite(c, a.real_v, b.real_v), b_ite(c, a.nan, b.nan), b_ite(c, a.bad, b.bad))

def unz(b):
    if isinstance(b, SymBool): return b.z
    if isinstance(b, bool): return b
    if isinstance(b, Num): return (b != 0).z
    return bool(b)

# ---------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ('z',)
    __array_priority__ = 1000
    __hash__ = object.__hash__
    shape = (); ndim = 0; size = 1
    nan = False; bad = False
    def __init__(self, z):
        if isinstance(z, SymBool): z = z.z
        self.z = z
    def __bool__(self):
        z = self.z
        if isinstance(z, bool): return z
        return CTX().decide(z)
    def __and__(self, o):
        if _defer(o): return NotImplemented
        return SymBool(b_and(self.z, unz(o)))
    __rand__ = __and__
    def __or__(self, o):
        if _defer(o): return NotImplemented
        return SymBool(b_or(self.z, unz(o)))
    __ror__ = __or__
    def __xor__(self, o):
        if _defer(o): return NotImplemented
        return SymBool(b_not(b_eq(self.z, unz(o))))
    def __invert__(self): return SymBool(b_not(self.z))
    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)): return SymBool(b_eq(self.z, unz(o)))
        if _defer(o): return NotImplemented
        return Num(b_num(self.z)) == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(b_not(r.z))
    def _n(self): return Num(b_num(self.z))
    def __add__(self, o): return NotImplemented if _defer(o) else self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return NotImplemented if _defer(o) else self._n() - o
    def __rsub__(self, o): return NotImplemented if _defer(o) else num(o) - self._n()
    def __mul__(self, o): return NotImplemented if _defer(o) else self._n() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return NotImplemented if _defer(o) else self._n() / o
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o
    def __repr__(self): return f'<bool {self.z}>'
    def any(self): return self
    def all(self): return self
    def item(self): return self

# ---------------------------------------------------------------- fresh names, bound variables
class State:
    """Everything global to one verification run of one contract."""
    def __init__(self):
        self.counter = 0
        self.red = {}          # decl name -> Reduction
        self.redmemo = {}
        self.facts = []        # FactRule objects over input functions
        self.inputs = {}       # name -> description
        self.ctx = []
        self.level = []        # stack of bound variables (z3 Int consts)
        self.assumed = {}      # used assumed contracts on dependencies -> count
        self.hints_scale = []
        self.hints_bound = []
        self.deftab = {}       # decl name -> lazily instantiated definition
        self.loopstack = []
        self.rng_global = None

S = State()

def reset_state():
    global S
    c = S.counter
    S = State()
    S.counter = c          # names stay unique within a process
    return S

def st(): return S

def CTX():
    if not S.ctx: raise Unsupported('branch outside of an exploration')
    return S.ctx[-1]

def fresh_name(p):
    S.counter += 1
    return f'{p}!{S.counter}'

def fresh_int(p='k'): return z3.Int(fresh_name(p))
def fresh_real(p='r'): return z3.Real(fresh_name(p))
def fresh_bool(p='b'): return z3.Bool(fresh_name(p))

def assumed(what):
    S.assumed[what] = S.assumed.get(what, 0) + 1

class bound:
    """Context manager: a new bound index variable, with range facts for feasibility checks."""
    def __init__(self, lo=None, hi=None, name='j'):
        self.lo, self.hi, self.name = lo, hi, name
    def __enter__(self):
        self.v = z3.Int(f'{self.name}#{len(S.level)}')
        S.level.append(self.v)
        return self.v
    def __exit__(self, *a):
        S.level.pop()

def uses(t, consts):
    """Which of the given constants occur in term t."""
    ids = {c.get_id(): c for c in consts}
    found = {}
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, bool): continue
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: found[i] = ids[i]
        stack.extend(x.children())
    return [c for c in consts if c.get_id() in found]

def subst(t, *pairs):
    if isinstance(t, bool): return t
    return z3.substitute(t, *pairs)

# ---------------------------------------------------------------- reductions
class Reduction:
    """kind over lo..hi (inclusive) of body terms in bound variable j; formals: enclosing bound variables."""
    def __init__(self, kind, formals, lo, hi, j, body, decl):
        self.kind, self.formals, self.lo, self.hi, self.j, self.body, self.decl = kind, formals, lo, hi, j, body, decl
    def at(self, args):
        pairs = list(zip(self.formals, args))
        f = (lambda t: subst(t, *pairs)) if pairs else (lambda t: t)
        lo, hi = f(self.lo), f(self.hi)
        j = self.j
        body = [b if isinstance(b, bool) else f(b) for b in self.body]
        def at_index(k):
            return [b if isinstance(b, bool) else subst(b, (j, k)) for b in body]
        return lo, hi, at_index

_SORT = {'sum': z3.RealSort, 'any': z3.BoolSort, 'max': z3.RealSort, 'min': z3.RealSort, 'imax': z3.IntSort,
         'imin': z3.IntSort, 'first': z3.IntSort, 'last': z3.IntSort, 'argmax': z3.IntSort, 'argmin': z3.IntSort,
         'count': z3.IntSort}

def reduce_term(kind, lo, hi, bodyfn, sort=None):
    """bodyfn(j) -> tuple of z3 terms/bools. Returns the z3 term of the reduction."""
    lo, hi = zi(lo), zi(hi)
    with bound() as j:
        body = bodyfn(j)
        if not isinstance(body, tuple): body = (body,)
        body = tuple(simp_b(b) if not isinstance(b, bool) and z3.is_bool(b) else b for b in body)
        level = list(S.level)
    outer = level[:-1]
    if kind == 'any' and is_false(body[0]): return False
    ids = {}
    for t in (lo, hi) + body:
        if isinstance(t, bool): continue
        for c in uses(t, outer): ids[c.get_id()] = c
    actual = [c for c in outer if c.get_id() in ids]
    # canonical names: the same reduction written at another nesting depth is the same term
    ren = [(c, z3.Int(f'c#{k}')) for k, c in enumerate(actual)] + [(j, z3.Int(f'c#{len(actual)}'))]
    canon = tuple(t if isinstance(t, bool) else z3.substitute(t, *ren) for t in (lo, hi) + body)
    key = (kind,) + tuple(t if isinstance(t, bool) else t.get_id() for t in canon)
    if key in S.redmemo:
        d = S.redmemo[key][0]
        return d(*actual) if actual else d()
    srt = sort or _SORT[kind]()
    name = fresh_name(kind)
    decl = z3.Function(name, *([z3.IntSort()] * len(actual)), srt)
    formals = [z3.Int(f'{name}#{k}') for k in range(len(actual))]; jj = z3.Int(f'{name}#j')
    back = [(c, f) for (_, c), f in zip(ren, formals + [jj])]
    clo, chi, *cb = [t if isinstance(t, bool) else z3.substitute(t, *back) for t in canon]
    S.red[name] = Reduction(kind, formals, clo, chi, jj, tuple(cb), decl)
    S.redmemo[key] = (decl, canon)            # keep terms alive: ids are part of the key
    return decl(*actual) if actual else decl()

# ---------------------------------------------------------------- exploration
class Ctx:
    def __init__(self, parent=None, base=()):
        self.parent = parent
        self.base = list(base)
        self.trail = []
        self.begin()
        self.npaths = 0
    def begin(self):
        self.pos = 0
        self.pc = list(self.base)
        self.forced = set()
        self.obls = []
        self.solver = None
        self.names = {}
    def allpc(self):
        out = []
        c = self
        while c is not None:
            out = c.pc + out
            c = c.parent
        return out
    def _solver(self):
        if self.solver is None:
            self.solver = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
            self.solver.set('timeout', 400)
            for p in self.allpc(): self.solver.add(p)
        return self.solver
    def assume(self, z):
        if is_true(z): return
        if isinstance(z, bool):
            raise PathAbort()
        self.pc.append(z)
        if self.solver is not None: self.solver.add(z)
    def sharpen(self, z):
        """instances of the facts about inputs that occur in a condition"""
        if not S.__dict__.get('sharp'): return
        from .prover import apps
        d = self.__dict__.setdefault('fact_apps', {})
        if self.__dict__.get('fact_solver') is not self.solver: d.clear(); self.fact_solver = self.solver; self.fact_done = set()
        todo = [z]
        for _ in range(2):
            new = []
            for x in apps(todo):
                if z3.is_app(x) and x.num_args() >= 1 and x.decl().name() in S.inputs:
                    args = tuple(x.arg(i) for i in range(x.num_args()))
                    k = (x.decl().name(),) + tuple(a.get_id() for a in args)
                    if k not in d: d[k] = (x.decl().name(), args); new.append(k)
            todo = []
            for fi, F in enumerate(S.facts):
                mine = [(k, a) for k, (f, a) in d.items() if f in F.funcs]
                if not F.pair: inst = [(k, a) for k, a in mine if k in new]
                else: inst = [(k + l, a + b) for k, a in mine for l, b in mine if k != l and (k in new or l in new)][:60]
                for key, args in inst:
                    if (fi, key) in self.fact_done: continue
                    self.fact_done.add((fi, key))
                    f = F.gen(*args)
                    if isinstance(f, bool): continue
                    self.solver.add(f); todo.append(f)
            if not todo: break
    def feasible(self, z):
        s = self._solver()
        self.sharpen(z)
        r = s.check(z)
        return r != z3.unsat
    def decide(self, z):
        z = simp_b(z)
        if isinstance(z, bool): return z
        if self.pos < len(self.trail):
            choice = self.trail[self.pos][0]
        else:
            t = self.feasible(z)
            f = self.feasible(z3.Not(z))
            if t and f:
                choice = True; self.trail.append([True, True, True])
            elif t: choice = True; self.trail.append([True, False, False])
            elif f: choice = False; self.trail.append([False, False, False])
            else: raise PathAbort()
        self.pos += 1
        if self.pos > 400: raise Unsupported('path too long')
        lit = z if choice else z3.Not(z)
        if not self.trail[self.pos - 1][2]: self.forced.add(len(self.pc))
        self.pc.append(lit)
        if self.solver is not None: self.solver.add(lit)
        return choice
    def backtrack(self):
        del self.trail[self.pos:]
        while self.trail:
            c, alt, free = self.trail[-1]
            if alt:
                self.trail[-1] = [not c, False, True]
                return True
            self.trail.pop()
        return False

MAXPATHS = 300

class PathCond(list):
    """literals of a path; the forced ones follow from those before them"""
    def __init__(self, pc, forced): list.__init__(self, pc); self.forced = set(forced)

def explore(fn, base=(), parent=None, maxpaths=MAXPATHS):
    """Run fn on every feasible path; yields (outcome, value, pc, obligations, ctx)."""
    c = Ctx(parent, base)
    S.ctx.append(c)
    res = []
    try:
        while True:
            c.begin()
            c.npaths += 1
            if c.npaths > maxpaths: raise Unsupported('too many paths')
            try:
                v = fn()
                res.append(('ok', v, PathCond(c.pc, c.forced), list(c.obls)))
            except PathAbort:
                res.append(('abort', None, list(c.pc), list(c.obls)))
            except Unsupported as e:
                e.pc = c.allpc()
                if parent is not None: raise
                res.append(('unsupported', e, list(c.pc), list(c.obls)))
            except RecursionError as e:
                res.append(('unsupported', Unsupported('recursion limit'), list(c.pc), list(c.obls)))
            except Exception as e:
                res.append(('raise', e, list(c.pc), list(c.obls)))
            if not c.backtrack(): return res
    finally:
        S.ctx.pop()
