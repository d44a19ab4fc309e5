"""Algebraic normal forms.

A term becomes a polynomial (rational coefficients, rational powers) over atoms; integer conditions and sign conditions
that follow from the hypotheses and the facts about the inputs are decided; sums are linear (split by monomial, factors
that do not depend on the summation index moved out) and their ranges start at 0; logarithms of products of positive
atoms are split.  Every step is an equality under the hypotheses; the small queries are answered by z3.
"""
import hashlib, math
from fractions import Fraction
from . import core
from .core import z3, b_and, b_or, b_not, is_true, is_false, simp_b, zb

MAXTERMS = 120

class TooBig(Exception): pass

class Poly:
    __slots__ = ('m',)
    def __init__(self, m=None): self.m = m or {}
    @staticmethod
    def const(c): return Poly({(): Fraction(c)} if c != 0 else {})
    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            w = m.get(k, 0) + v
            if w == 0: m.pop(k, None)
            else: m[k] = w
        return Poly(m)
    def scale(self, c): return Poly({k: v * c for k, v in self.m.items()}) if c != 0 else Poly()
    def is_const(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def value(self): return self.m.get((), Fraction(0))

class Norm:
    def __init__(self, hyps, budget=3000, expand=True, sign=None):
        self.expand = expand
        Norm.serial = getattr(Norm, 'serial', 0) + 1
        self.serial = Norm.serial
        from . import prover
        self.P = prover
        self.hyps = []
        for h in hyps:
            if len(prover.apps([h])) < 80 and not any(x.decl().name() in core.st().red for x in prover.apps([h])): self.hyps.append(h)
        self.ctx = []               # range conditions of the enclosing summation indices
        self.atoms = {}             # id -> term
        self.memo = [{}]
        self.sign = {} if sign is None else sign
        self.tab = {}
        self.side = []              # facts about opaque symbols
        self.facts = []             # proved facts in normal form
        self.budget = budget
        self.depth = 0
        self.isolver = z3.Solver(); self.isolver.set('timeout', 200)
        for h in self.hyps:
            if prover._intonly(h): self.isolver.add(h)
    # -- queries
    def ask(self, c):
        """Does c follow (z3, facts about the inputs instantiated)?"""
        c = simp_b(c)
        if is_true(c): return True
        if is_false(c): return False
        key = (c.get_id(), tuple(x.get_id() for x in self.ctx))
        if key in self.sign: return self.sign[key][0]
        if self.P._intonly(c):
            self.isolver.push(); self.isolver.add(z3.Not(c)); r = self.isolver.check() == z3.unsat; self.isolver.pop()
        else:
            r = False
            if self.budget > 0 and len(self.P.apps([c])) < 150:
                self.budget -= 1
                H = self.hyps + self.facts + self.ctx + self.side[-12:]
                L = self.P.Lemmas(H, c, rounds=2, noreds=True)
                s = z3.Solver(); s.set('timeout', 150)
                for h in H: s.add(h)
                s.add(z3.Not(c)); s.add(*L.lem)
                r = s.check() == z3.unsat
        self.sign[key] = (r, c)
        return r
    def push(self, conds):
        self.ctx += conds; self.memo.append({})
        self.isolver.push(); self.isolver.add(*conds)
    def pop(self, n):
        del self.ctx[-n:]; self.memo.pop(); self.isolver.pop()
    def note(self, f):
        """a fact that holds for the current values of the enclosing indices"""
        self.side.append(z3.Implies(z3.And(*self.ctx), f) if self.ctx else f)
    def positive(self, t): return self.ask(t > 0)
    def nonneg(self, t): return self.ask(t >= 0)
    def nonzero(self, t): return self.ask(t > 0) or self.ask(t != 0)
    # -- atoms and polynomials
    def atom(self, t, p=1):
        self.atoms[t.get_id()] = t
        return Poly({((t.get_id(), Fraction(p)),): Fraction(1)})
    def mono_mul(self, a, b):
        """product of two monomials (with the coefficient that numeric atoms contribute)"""
        d = dict(a)
        for i, p in b: d[i] = d.get(i, 0) + p
        c = Fraction(1)
        out = []
        for i, p in d.items():
            t = self.atoms[i]
            if p == 0: continue
            if z3.is_rational_value(t):
                v = t.as_fraction(); k = p.numerator // p.denominator      # floor
                if k: c *= v ** k
                p = p - k
                if p == 0: continue
            out.append((i, p))
        return tuple(sorted(out)), c
    def mul(self, p, q):
        m = {}
        if not self.expand and len(p.m) > 1 and len(q.m) > 1: p, q = self.close(p), self.close(q)
        if len(p.m) * len(q.m) > 4 * MAXTERMS: raise TooBig()
        for a, x in p.m.items():
            for b, y in q.m.items():
                k, c = self.mono_mul(a, b)
                w = m.get(k, 0) + x * y * c
                if w == 0: m.pop(k, None)
                else: m[k] = w
        if len(m) > MAXTERMS: raise TooBig()
        return Poly(m)
    def close(self, p):
        """the polynomial as one atom (leading coefficient moved out)"""
        if len(p.m) <= 1: return p
        c = p.m[self.order(p)[0]]
        return self.atom(self.build(p.scale(1 / c))).scale(c)
    def order(self, p):
        """monomials in an order that does not depend on the names of the indices"""
        return sorted(p.m, key=lambda k: sorted((shash(self.atoms[i]), q) for i, q in k))
    def build_mono(self, k, c, real=True):
        num, den = [], []
        for i, p in sorted(k, key=lambda e: (shash(self.atoms[e[0]]), e)):
            t = self.atoms[i]
            if z3.is_int(t) and real: t = z3.ToReal(t)
            if p.denominator == 2:
                t = core.mk_sqrt(t) if z3.is_real(t) else core.mk_sqrt(z3.ToReal(t)); p = p * 2
            if p.denominator != 1: raise TooBig()
            (num if p > 0 else den).extend([t] * abs(int(p)))
        c_ = core._mk_const(c, not real)
        if c != 1 or not num: num = [c_] + num
        t = num[0] if len(num) == 1 else z3.Product(*num)
        if den: t = t / (den[0] if len(den) == 1 else z3.Product(*den))
        return t
    def build(self, p, real=True):
        ts = [self.build_mono(k, p.m[k], real) for k in self.order(p)]
        if not ts: return z3.RealVal(0) if real else z3.IntVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)
    # -- terms
    def poly(self, t):
        i = t.get_id()
        if i in self.memo[-1]: return self.memo[-1][i][1]
        r = self._poly(t)
        if len(r.m) > MAXTERMS: raise TooBig()
        self.memo[-1][i] = (t, r)
        return r
    def _poly(self, t):
        if z3.is_int_value(t): return Poly.const(t.as_long())
        if z3.is_rational_value(t): return Poly.const(t.as_fraction())
        if not z3.is_app(t): raise TooBig()
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = Poly()
            for c in t.children(): r = r + self.poly(c)
            return r
        if k == z3.Z3_OP_SUB:
            cs = t.children(); r = self.poly(cs[0])
            for c in cs[1:]: r = r + self.poly(c).scale(-1)
            return r
        if k == z3.Z3_OP_UMINUS: return self.poly(t.arg(0)).scale(-1)
        if k == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for c in t.children(): r = self.mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_TO_REAL:
            R = self.P.red_of(t.arg(0))
            if R is not None and R[0] == 'count':       # a count is a sum of indicators
                at = R[3]
                return self.red(t, ('sum', R[1], R[2], lambda i: [z3.If(zb(at(i)[0]), z3.RealVal(1), z3.RealVal(0))]))
            return self.poly(t.arg(0))
        if k == z3.Z3_OP_DIV: return self.div(self.poly(t.arg(0)), self.poly(t.arg(1)))
        if k == z3.Z3_OP_ITE:
            c = self.boolean(t.arg(0))
            if is_true(c): return self.poly(t.arg(1))
            if is_false(c): return self.poly(t.arg(2))
            if self.P._intonly(c):
                self.push([c])
                try: a = self.poly(t.arg(1))
                finally: self.pop(1)
                self.push([z3.Not(c)])
                try: b = self.poly(t.arg(2))
                finally: self.pop(1)
            else: a, b = self.poly(t.arg(1)), self.poly(t.arg(2))
            if a.m == b.m: return a
            real = z3.is_real(t)
            if real:
                f, (a, b) = self.factor([a, b])
                if f is not None: return self.mul(f, self.atom(z3.If(c, self.build(a), self.build(b))))
            return self.atom(z3.If(c, self.build(a, real), self.build(b, real)))
        R = self.P.red_of(t)
        if R is not None: return self.red(t, R)
        if k == z3.Z3_OP_UNINTERPRETED:
            name = t.decl().name()
            if t.num_args() == 0: return self.atom(t)
            if name == 'sqrt': return self.sqrt(self.poly(t.arg(0)))
            if name == 'log': return self.log(self.poly(t.arg(0)))
            if name == 'exp': return self.exp(self.poly(t.arg(0)))
            return self.atom(t.decl()(*[self.arg(a) for a in t.children()]))
        ch = [self.arg(a) for a in t.children()]
        return self.atom(t.decl()(*ch))
    def arg(self, a):
        if z3.is_bool(a): return zb(self.boolean(a))
        if z3.is_int(a): return z3.simplify(self.build(self.poly(a), False)) if not z3.is_int_value(a) else a
        if z3.is_real(a): return self.build(self.poly(a), True)
        return a
    def inverse(self, p):
        """1/p of a polynomial known to be non-zero"""
        if len(p.m) == 1:
            (k, c), = p.m.items()
            r = Poly({(): 1 / c})
            for i, q in k: r = self.mul(r, Poly({((i, -q),): Fraction(1)}) if not z3.is_rational_value(self.atoms[i]) else self.numpow(self.atoms[i], -q))
            return r
        # several terms: normalise by the first coefficient
        k0 = self.order(p)[0]; c = p.m[k0]
        q = p.scale(1 / c)
        t = self.build(q)
        self.note(t != 0)
        return self.atom(t, -1).scale(1 / c)
    def numpow(self, t, q):
        k = q.numerator // q.denominator
        r = Poly.const(t.as_fraction() ** k)
        rest = q - k
        return r if rest == 0 else Poly({((t.get_id(), rest),): r.m[()]})
    def div(self, a, b):
        if not b.m: return self.atom(self.build(a) / z3.RealVal(0))
        if b.is_const(): return a.scale(1 / b.value())
        ib = self.int_version(b)
        if ib is not None and self.ask(ib != 0): return self.mul(a, self.inverse(b))
        tb = self.build(b)
        if self.mono_nonzero(b) or self.nonzero(tb): return self.mul(a, self.inverse(b))
        return self.atom(self.build(a) / tb)
    def factor(self, ps, eq=False):
        """common factors of polynomials: positive ones, with eq also non-zero ones"""
        ks = [k for p in ps for k in p.m]
        if len(ks) < 2: return None, ps
        common = dict(ks[0])
        for k in ks[1:]:
            d = dict(k)
            common = {i: min(q, d[i]) if q > 0 else max(q, d[i]) for i, q in common.items() if i in d and (q > 0) == (d[i] > 0)}
            if not common: return None, ps
        common = {i: q for i, q in common.items() if (eq and q < 0) or self.positive(self.atoms[i])}
        if not common: return None, ps
        inv = Poly({tuple(sorted((i, -q) for i, q in common.items())): Fraction(1)})
        return Poly({tuple(sorted(common.items())): Fraction(1)}), [self.mul(p, inv) for p in ps]
    def int_version(self, p):
        """the polynomial times a positive number, over integers, if all its atoms are integers"""
        d = 1
        for k, c in p.m.items():
            d = d * c.denominator // math.gcd(d, c.denominator)
            if any(not z3.is_int(self.atoms[i]) or q < 0 or q.denominator != 1 for i, q in k): return None
        return self.build(p.scale(d), False)
    def mono_nonzero(self, b):
        if len(b.m) != 1: return False
        (k, c), = b.m.items()
        return all(self.nonzero(self.atoms[i]) for i, _ in k)
    def mono_positive(self, p):
        if len(p.m) != 1: return False
        (k, c), = p.m.items()
        return c > 0 and all(self.positive(self.atoms[i]) for i, _ in k)
    def log(self, p):
        if p.is_const() and p.value() == 1: return Poly()
        if self.mono_positive(p):
            (k, c), = p.m.items()
            r = Poly()
            if c != 1:
                for v, s in ((c.numerator, 1), (c.denominator, -1)):
                    for q, e in _factor(v): r = r + self.atom(core.mk_log(z3.RealVal(q))).scale(s * e)
            for i, q in k:
                t = self.atoms[i]
                if z3.is_int(t): t = z3.ToReal(t)
                if z3.is_app(t) and t.decl().name() == 'exp': r = r + self.poly(t.arg(0)).scale(q)
                elif z3.is_rational_value(t):
                    for f, e in _factor(int(t.as_fraction())): r = r + self.atom(core.mk_log(z3.RealVal(f))).scale(q * e)
                else: r = r + self.atom(core.mk_log(t)).scale(q)
            return r
        return self.atom(core.mk_log(self.build(p)))
    def exp(self, p):
        r = Poly.const(1)
        for k, c in p.m.items():
            if len(k) == 1 and k[0][1] == 1 and c.denominator == 1:
                t = self.atoms[k[0][0]]
                if z3.is_app(t) and t.decl().name() == 'log' and self.positive(t.arg(0)):
                    q = self.poly(t.arg(0))
                    if len(q.m) == 1:
                        for _ in range(abs(int(c))): r = self.mul(r, q if c > 0 else self.inverse(q))
                        continue
            if c.denominator == 1: e = self.atom(core.mk_exp(self.build(Poly({k: Fraction(1)}))), c)
            else: e = self.atom(core.mk_exp(self.build(Poly({k: Fraction(1, c.denominator)}))), c.numerator)
            r = self.mul(r, e)
        return r
    def sqrt(self, p):
        if not p.m: return Poly()
        if len(p.m) == 1:
            (k, c), = p.m.items()
            if c > 0:
                even = all(q.denominator == 1 and q.numerator % 2 == 0 for _, q in k)
                pos = all(self.nonneg(self.atoms[i]) if q > 0 else self.positive(self.atoms[i]) for i, q in k)
                if pos:
                    return self.mul(Poly({tuple((i, q / 2) for i, q in k): Fraction(1)}), self.sqrtnum(c))
                # squares out of the root
                out, rest = Poly.const(1), []
                for i, q in k:
                    if q.denominator == 1 and q.numerator % 2 == 0 and self.nonneg(self.atoms[i]) and q > 0: out = self.mul(out, Poly({((i, q / 2),): Fraction(1)}))
                    else: rest.append((i, q))
                if len(rest) < len(k): return self.mul(self.mul(out, self.atom(core.mk_sqrt(self.build(Poly({tuple(rest): Fraction(1)}))))), self.sqrtnum(c))
        elif True:
            # common factors of all terms
            ks = list(p.m)
            common = dict(ks[0])
            for k in ks[1:]:
                d = dict(k)
                common = {i: min(q, d[i]) if q > 0 and d[i] > 0 else max(q, d[i]) for i, q in common.items() if i in d and (q > 0) == (d[i] > 0)}
            common = {i: q for i, q in common.items() if self.positive(self.atoms[i])}
            if common:
                inv = Poly({tuple(sorted((i, -q) for i, q in common.items())): Fraction(1)})
                rest = self.mul(p, inv)
                return self.mul(Poly({tuple(sorted((i, q / 2) for i, q in common.items())): Fraction(1)}), self.atom(core.mk_sqrt(self.build(rest))))
        return self.atom(core.mk_sqrt(self.build(p)))
    def sqrtnum(self, c):
        n, s = c.numerator * c.denominator, Fraction(1, c.denominator)
        out, rest = 1, 1
        for q, e in _factor(n):
            out *= q ** (e // 2)
            if e % 2: rest *= q
        r = Poly.const(s * out)
        if rest != 1:
            t = z3.RealVal(rest)
            self.atoms[t.get_id()] = t
            r = Poly({((t.get_id(), Fraction(1, 2)),): s * out})
        return r
    # -- reductions
    def red(self, t, R):
        kind, lo, hi, at = R
        if self.depth > 4: raise TooBig()
        lo, hi = z3.simplify(self.build(self.poly(lo), False)), z3.simplify(self.build(self.poly(hi), False))
        k = z3.Int('i!pf%d' % self.depth)
        shift = kind in ('sum', 'any', 'max', 'min', 'imax', 'imin', 'count')
        top = z3.simplify(hi - lo) if shift else hi
        body = at(z3.simplify(k + lo)) if shift else at(k)
        base = z3.IntVal(0) if shift else lo
        rng = [base <= k, k <= top]
        self.push(rng)
        self.depth += 1
        try:
            orig = body
            body = [self.poly(x) if not isinstance(x, bool) and z3.is_arith(x) else self.boolean(x) for x in body]
            if kind == 'sum':
                parts = []
                for mono, c in body[0].m.items():
                    inner = tuple((i, q) for i, q in mono if _uses(self.atoms[i], k))
                    outer = tuple((i, q) for i, q in mono if not _uses(self.atoms[i], k))
                    parts.append((outer, c, self.build(Poly({inner: Fraction(1)}))))
                sgn = {}
                whole = len(parts) > 1 and self.ask(orig[0] >= 0)
                for o, c, b in parts:
                    if z3.is_rational_value(b): continue
                    sgn[b.get_id()] = '>' if self.ask(b > 0) else '>=' if self.ask(b >= 0) else '<=' if self.ask(b <= 0) else None
            else:
                body = [zb(b) if isinstance(b, bool) or (not isinstance(b, Poly)) else self.build(b) for b in body]
        finally:
            self.depth -= 1; self.pop(2)
        if kind == 'sum':
            r = Poly()
            ne = None
            for outer, c, b in parts:
                if z3.is_rational_value(b):
                    if ne is None: ne = self.ask(lo <= hi)
                    if not ne: s = self.opaque('sum', base, top, [b], z3.RealSort(), k)
                    else:
                        r = r + self.mul(Poly({outer: c * b.as_fraction()}), self.poly(z3.simplify(top + 1))); continue
                else:
                    s = self.opaque('sum', base, top, [b], z3.RealSort(), k)
                    g = sgn[b.get_id()]
                    if g == '>': self.note(z3.Or(lo > hi, s > 0)); self.note(s >= 0)
                    elif g == '>=': self.note(s >= 0)
                    elif g == '<=': self.note(s <= 0)
                r = r + self.mul(Poly({outer: c}), self.atom(s))
            if whole: self.note(self.build(r) >= 0)
            return r
        if kind == 'any':
            if z3.is_false(body[0]): return False
            if z3.is_true(body[0]): return simp_b(lo <= hi)
            mono, rest = [], []
            for c in (_flatten(body[0], z3.Z3_OP_OR) if z3.is_or(body[0]) else [body[0]]):
                if _linear_ineq(c, k): mono.append(zb(b_and(self.boolean(base <= top), b_or(self.decide(z3.simplify(z3.substitute(c, (k, base)))), self.decide(z3.simplify(z3.substitute(c, (k, top))))))))
                elif not _uses(c, k): mono.append(zb(b_and(self.boolean(base <= top), c)))
                else: rest.append(c)
            if mono:
                r = [simp_b(m) for m in mono]
                if rest: r.append(self.opaque('any', base, top, [rest[0] if len(rest) == 1 else z3.Or(*rest)], t.sort(), k))
                return b_or(*r)
        s = self.opaque(kind, base, top, body, t.sort(), k)
        if z3.is_bool(s): return s
        if kind == 'first': self.note(z3.Or(lo > hi, z3.And(lo <= s, s <= hi + 1)))
        elif kind == 'last': self.note(z3.Or(lo > hi, z3.And(lo - 1 <= s, s <= hi)))
        elif kind == 'count': self.note(z3.And(s >= 0, z3.Or(lo > hi, s <= hi - lo + 1)))
        return self.atom(s)
    def opaque(self, kind, lo, hi, body, sort, k):
        free = [z3.Int('i!pf%d' % d) for d in range(self.depth)]
        free = [f for f in free if any(_uses(x, f) for x in [lo, hi] + body)]
        pairs = [(k, z3.Int('i!pk'))] + [(f, z3.Int('i!pv%d' % n)) for n, f in enumerate(free)]
        canon = [z3.simplify(z3.substitute(x, *pairs)) for x in [lo, hi] + body]
        key = (kind, str(sort)) + tuple(x.get_id() for x in canon)
        if key not in self.tab:
            n = 'pf!%d!%d' % (self.serial, len(self.tab))
            F = z3.Function(n, *([z3.IntSort()] * len(free) + [sort])) if free else z3.Const(n, sort)
            self.tab[key] = (F, canon)
        F = self.tab[key][0]
        return F(*free) if free else F
    # -- formulas
    def boolean(self, b):
        if isinstance(b, bool): return b
        i = b.get_id()
        if i in self.memo[-1]: return self.memo[-1][i][1]
        r = self._boolean(b)
        self.memo[-1][i] = (b, r)
        return r
    def _boolean(self, b):
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        k = b.decl().kind()
        if k == z3.Z3_OP_NOT: return b_not(self.boolean(b.arg(0)))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            AND = k == z3.Z3_OP_AND
            ch = _flatten(b, k)
            first = [c for c in ch if self.P._intonly(c)]
            rest = [c for c in ch if not self.P._intonly(c)]
            out, given = [], []
            for c in first:
                c = self.boolean(c)
                if is_false(c) and AND: return False
                if is_true(c) and not AND: return True
                if not isinstance(c, bool):
                    out.append(c); given.append(c if AND else z3.Not(c))
            for c in [c for c in rest if self.P.red_of(c.arg(0) if z3.is_not(c) else c) is not None]:
                d = self.boolean(c)
                if is_false(d) and AND: return False
                if is_true(d) and not AND: return True
                if not isinstance(d, bool) and self.P._intonly(d) and not any('pf!' in x.decl().name() for x in self.P.apps([d])):
                    rest = [x for x in rest if not x.eq(c)]
                    out.append(d); given.append(d if AND else z3.Not(d))
            if rest:
                if given: self.push(given)
                try:
                    for c in rest:
                        c = self.boolean(c)
                        if is_false(c) and AND: return False
                        if is_true(c) and not AND: return True
                        out.append(c)
                finally:
                    if given: self.pop(len(given))
            out = sorted((zb(c) for c in out if not isinstance(c, bool)), key=shash)
            return b_and(*out) if AND else b_or(*out)
        if k == z3.Z3_OP_IMPLIES: return b_or(b_not(self.boolean(b.arg(0))), self.boolean(b.arg(1)))
        if k == z3.Z3_OP_ITE: return core.b_ite(self.boolean(b.arg(0)), self.boolean(b.arg(1)), self.boolean(b.arg(2)))
        R = self.P.red_of(b)
        if R is not None:
            return self.red(b, R)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bool(b.arg(0)):
            x, y = self.boolean(b.arg(0)), self.boolean(b.arg(1))
            r = core.b_eq(x, y)
            return r if k == z3.Z3_OP_EQ else b_not(r)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_arith(b.arg(0)):
            return self.compare(k, b)
        if b.num_args() == 0: return b
        c = b.decl()(*[self.arg(a) for a in b.children()])
        return self.decide(c)
    def decide(self, c):
        if is_true(c) or is_false(c): return c
        if self.ask(c): return True
        if self.ask(z3.Not(c)): return False
        return c
    def arg_atom(self, t): return z3.ToReal(t) if z3.is_int(t) else t
    def assume(self, f):
        """a proved fact, in normal form, for the questions about signs"""
        if z3.is_and(f):
            for c in f.children(): self.assume(c)
            return
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
            c = self.boolean(f.arg(0))
            if is_true(c) or is_false(c): self.assume(f.arg(1) if is_true(c) else f.arg(2))
            return
        neg = False
        g = f
        while z3.is_not(g): neg, g = not neg, g.arg(0)
        k = g.decl().kind()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_arith(g.arg(0)):
            t = self.build(self.poly(g.arg(0)) + self.poly(g.arg(1)).scale(-1), z3.is_real(g.arg(0)))
            z = z3.RealVal(0) if z3.is_real(t) else z3.IntVal(0)
            c = {z3.Z3_OP_EQ: t == z, z3.Z3_OP_LE: t <= z, z3.Z3_OP_GE: t >= z, z3.Z3_OP_LT: t < z, z3.Z3_OP_GT: t > z}[k]
            self.facts.append(z3.Not(c) if neg else c)
        elif z3.is_or(g) and neg:
            for c in g.children(): self.assume(z3.Not(c))
    def compare(self, k, b):
        p = self.poly(b.arg(0)) + self.poly(b.arg(1)).scale(-1)
        real = z3.is_real(b.arg(0))
        if p.is_const():
            v = p.value()
            return {z3.Z3_OP_EQ: v == 0, z3.Z3_OP_DISTINCT: v != 0, z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GT: v > 0}[k]
        if real: p = self.factor([p], k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT))[1][0]
        if real and len(p.m) == 1:
            (mono, c), = p.m.items()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                r = b_or(*[self.decide(self.arg_atom(self.atoms[i]) == 0) for i, q in sorted(mono, key=lambda e: shash(self.atoms[e[0]])) if q > 0])
                return r if k == z3.Z3_OP_EQ else b_not(r)
            rest = tuple((i, q) for i, q in mono if not self.positive(self.atoms[i]))
            p = Poly({rest: Fraction(1 if c > 0 else -1)})
            if not rest:
                v = 1 if c > 0 else -1
                return {z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GT: v > 0}[k]
        c = p.m[self.order(p)[0]]
        if real or all(v.denominator == 1 for v in p.m.values()):
            if real: p = p.scale(1 / c)
            elif c < 0: p = p.scale(-1)
            if c < 0: k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        ib = self.int_version(p) if real else None
        if ib is not None: real, t = False, z3.simplify(ib)
        else: t = self.build(p, real)
        z = z3.RealVal(0) if real else z3.IntVal(0)
        if k == z3.Z3_OP_EQ: return self.decide(t == z)
        if k == z3.Z3_OP_DISTINCT: return b_not(self.decide(t == z))
        if k == z3.Z3_OP_LE: return self.decide(t <= z)
        if k == z3.Z3_OP_GE: return b_not(self.decide(t < z)) if real else self.decide(t >= z)
        if k == z3.Z3_OP_LT: return self.decide(t < z)
        return b_not(self.decide(t <= z)) if real else self.decide(t > z)

_HASH = {}
def shash(t):
    """structural hash, equal for terms that differ in the names of summation indices only"""
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _HASH: stack.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _HASH]
        if todo: stack += todo; continue
        n = x.sexpr() if z3.is_int_value(x) or z3.is_rational_value(x) else x.decl().name()
        if n.startswith('i!pf'): n = '#'
        k = x.decl().kind()
        hs = [_HASH[c.get_id()][1] for c in ch]
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ): hs.sort()
        _HASH[i] = (x, hashlib.blake2b(repr((n, k, hs)).encode(), digest_size=8).hexdigest())
        stack.pop()
    return _HASH[t.get_id()][1]

def _linear_ineq(c, k):
    """an integer inequality that is monotone in k"""
    while z3.is_not(c): c = c.arg(0)
    if c.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or not z3.is_int(c.arg(0)): return False
    stack = list(c.children())
    while stack:
        x = stack.pop()
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): stack.extend(x.children())
        elif kd == z3.Z3_OP_MUL:
            if sum(1 for y in x.children() if _uses(y, k)) > 1: return False
            if any(_uses(y, k) and not y.eq(k) for y in x.children()): return False
            if _uses(x, k) and not all(z3.is_int_value(y) or y.eq(k) for y in x.children()): return False
        elif x.eq(k) or not _uses(x, k): continue
        else: return False
    return True

def _flatten(b, k):
    out = []
    for c in b.children():
        if z3.is_app(c) and c.decl().kind() == k: out += _flatten(c, k)
        else: out.append(c)
    return out

def _factor(n):
    out = []
    d = 2
    if n > 10 ** 12: return [(n, 1)]
    while d * d <= n:
        e = 0
        while n % d == 0: n //= d; e += 1
        if e: out.append((d, e))
        d += 1
    if n > 1: out.append((n, 1))
    return out

_USES = {}
def _uses(t, k):
    key = (t.get_id(), k.get_id())
    if key in _USES: return _USES[key][0]
    stack, seen, r = [t], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): r = True; break
        stack.extend(x.children())
    _USES[key] = (r, t, k)
    return r

def normalise(goal, hyps, expand=True, sign=None):
    N = Norm(hyps, expand=expand, sign=sign)
    try:
        for f in core.st().__dict__.get('lemma_facts', []): N.assume(f)
    except (TooBig, ZeroDivisionError): pass
    try: return N.boolean(goal), N
    except (TooBig, ZeroDivisionError): return None, N
