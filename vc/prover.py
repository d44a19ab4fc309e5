"""Discharges verification conditions: instantiates the lemmas of reductions and real functions, calls z3 / cvc5."""
import time, itertools, subprocess, tempfile, os
from . import core
from .core import z3, b_and, b_or, b_not, is_true, is_false, simp_b, to_real, zb

class Result:
    def __init__(self, status, backend='', t=0.0, model=None, info='', fs=None):
        self.status, self.backend, self.t, self.model, self.info, self.fs = status, backend, t, model, info, fs
    def __repr__(self): return f'{self.status}[{self.backend} {self.t:.2f}s] {self.info}'

class FactRule:
    """forall idx: gen(idx), instantiated at the index tuples used with any of the named input functions."""
    def __init__(self, funcs, gen, pair=False, points=()):
        self.funcs, self.gen, self.pair, self.points = set(funcs), gen, pair, list(points)

def apps(terms, seen=None):
    """All applications and constants in the DAG."""
    seen = set() if seen is None else seen
    out = []
    stack = [t for t in terms if not isinstance(t, bool)]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body()); continue
        if z3.is_app(x):
            out.append(x)
            stack.extend(x.children())
    return out

class Lemmas:
    def __init__(self, hyps, goal, maxred=70, rounds=4, noreds=False):
        self.S = core.st()
        self.base = [h for h in hyps if not is_true(h)] + [zb(b_not(goal))]
        self.lem = []
        self.keep = []
        self.seen = set()
        self.done = set()
        self.reds = []          # (app, kind, lo, hi, at)
        self.universe = {}      # int index terms
        self.sk = {}
        self.maxred = 0 if noreds else maxred
        self.fapps = {}         # input function name -> list of arg tuples
        self.real = {'log': [], 'exp': [], 'sqrt': []}
        self.run(rounds)

    def add(self, f):
        if is_true(f): return
        f = zb(f)
        self.lem.append(f)

    def skolem(self, *key):
        k = tuple(x if isinstance(x, str) else x.get_id() for x in key)
        self.keep.extend(x for x in key if not isinstance(x, str))
        if k not in self.sk: self.sk[k] = z3.Int('sk!%d' % len(self.sk))
        return self.sk[k]

    def uni(self, t):
        i = t.get_id()
        if i not in self.universe:
            self.universe[i] = t
            return True
        return False

    def once(self, *key):
        k = tuple(x if isinstance(x, (str, int)) else x.get_id() for x in key)
        if k in self.done: return False
        self.keep.extend(x for x in key if not isinstance(x, (str, int)))
        self.done.add(k)
        return True

    def run(self, rounds):
        pending = list(self.base)
        for r in range(rounds):
            n0 = len(self.lem)
            new = apps(pending, self.seen)
            newreds = []
            for x in new:
                name = x.decl().name()
                if name in self.S.red and len(self.reds) < self.maxred:
                    R = self.S.red[name]
                    lo, hi, at = R.at([x.arg(i) for i in range(x.num_args())])
                    rec = (x, R.kind, lo, hi, at)
                    self.reds.append(rec); newreds.append(rec)
                    if r < 3:
                        self.uni(lo); self.uni(hi)
                elif name in ('log', 'exp', 'sqrt') and x.num_args() == 1: self.realfn(name, x)
                elif name == 'pow' and x.num_args() == 2: self.powfn(x)
                elif name == 'round' and x.num_args() == 1:
                    a = x.arg(0); xr = to_real(x)
                    self.add(z3.And(xr - a <= z3.Q(1, 2), a - xr <= z3.Q(1, 2)))
                elif name in self.S.deftab:
                    f = self.S.deftab[name](*[x.arg(i) for i in range(x.num_args())])
                    if r < 3: self.add(f)
                if x.num_args() >= 1 and name in self.S.inputs:
                    args = tuple(x.arg(i) for i in range(x.num_args()))
                    k = tuple(a.get_id() for a in args)
                    d = self.fapps.setdefault(name, {})
                    if k not in d:
                        d[k] = args
                        if r < 3:
                            for a in args:
                                if z3.is_int(a): self.uni(a)
                if z3.is_const(x) and z3.is_int(x) and name.startswith('i!') : self.uni(x)
            for rec in newreds: self.red_intro(rec)
            for i, a in enumerate(self.reds):
                for b in self.reds[:i]:
                    self.red_pair(a, b)
            self.red_inst(r)
            self.facts(r)
            pending = self.lem[n0:]
            if not pending: break

    # -- facts about inputs
    def facts(self, r):
        for fi, F in enumerate(self.S.facts):
            tuples = {}
            for f in F.funcs:
                for k, args in self.fapps.get(f, {}).items(): tuples[k] = args
            for p in F.points:
                tuples[p.get_id(),] = (p,)
            if not F.pair:
                for k, args in tuples.items():
                    if self.once('fact', fi, *args): self.add(F.gen(*args))
            else:
                ts = list(tuples.values())
                if len(ts) > 40: ts = ts[:40]
                for a, b in itertools.permutations(ts, 2):
                    if self.once('fact', fi, *a, *b): self.add(F.gen(*a, *b))

    # -- reductions
    @staticmethod
    def inr(lo, hi, k): return b_and(simp_b(lo <= k), simp_b(k <= hi))

    def red_intro(self, rec):
        x, kind, lo, hi, at = rec
        sk = self.skolem('w', x)
        if kind == 'sum':
            S = x
            self.add(b_or(lo <= hi, S == 0))
            v = at(sk)[0]
            inr = self.inr(lo, hi, sk)      # sk: a negative term, if there is one
            self.add(b_or(S >= 0, b_and(inr, v < 0)))
            sk2 = self.skolem('w2', x); v2 = at(sk2)[0]
            self.add(b_or(S <= 0, b_and(self.inr(lo, hi, sk2), v2 > 0)))
            sk3 = self.skolem('w3', x); v3 = at(sk3)[0]
            self.add(b_or(S > 0, lo > hi, b_and(self.inr(lo, hi, sk3), v3 <= 0)))
            # single element
            self.add(b_or(lo != hi, S == at(lo)[0]))
            for c in self.S.hints_bound:
                k1 = self.skolem('bu', x, c); k2 = self.skolem('bl', x, c)
                cnt = z3.ToReal(hi - lo + 1)
                self.add(b_or(lo > hi, S <= c * cnt, b_and(self.inr(lo, hi, k1), at(k1)[0] > c)))
                self.add(b_or(lo > hi, S >= c * cnt, b_and(self.inr(lo, hi, k2), at(k2)[0] < c)))
        elif kind == 'count':
            c = x
            self.add(c >= 0); self.add(b_or(lo > hi, c <= hi - lo + 1)); self.add(b_or(lo <= hi, c == 0))
            k1 = self.skolem('w', x)
            self.add(b_or(c == 0, b_and(self.inr(lo, hi, k1), at(k1)[0])))
            k2 = self.skolem('w2', x)
            self.add(b_or(lo > hi, c == hi - lo + 1, b_and(self.inr(lo, hi, k2), b_not(at(k2)[0]))))
            self.uni(k1); self.uni(k2)
        elif kind == 'any':
            self.add(b_or(b_not(x), b_and(self.inr(lo, hi, sk), at(sk)[0])))
            self.uni(sk)
        elif kind in ('max', 'min', 'imax', 'imin'):
            v, c = at(sk)
            ok = b_and(self.inr(lo, hi, sk), c, x == v)
            self.uni(sk)
            if is_true(c): self.add(b_or(lo > hi, ok))
        elif kind == 'first':
            self.add(b_or(x == hi + 1, b_and(self.inr(lo, hi, x), at(x)[0])))
            self.uni(x)
            self.add(b_or(lo > hi, b_and(lo <= x, x <= hi + 1)))
        elif kind == 'last':
            self.add(b_or(x == lo - 1, b_and(self.inr(lo, hi, x), at(x)[0])))
            self.uni(x)
            self.add(b_or(lo > hi, b_and(lo - 1 <= x, x <= hi)))
        elif kind in ('argmax', 'argmin'):
            self.add(b_or(lo > hi, self.inr(lo, hi, x)))
            self.uni(x)

    def red_inst(self, r):
        if r > 3: return
        us = list(self.universe.values())
        if len(us) > 60: us = us[:60]
        for rec in self.reds:
            x, kind, lo, hi, at = rec
            if kind == 'sum':
                if r > 1: continue
                for u in us[:14]:
                    if not self.once('inst', x, u): continue
                    inr = self.inr(lo, hi, u)
                    if is_false(inr): continue
                    sk = self.skolem('w', x); sk2 = self.skolem('w2', x)
                    self.add(b_or(b_not(inr), x >= at(u)[0], b_and(self.inr(lo, hi, sk), at(sk)[0] < 0)))
                    self.add(b_or(b_not(inr), x <= at(u)[0], b_and(self.inr(lo, hi, sk2), at(sk2)[0] > 0)))
                continue
            for u in us:
                if not self.once('inst', x, u): continue
                inr = self.inr(lo, hi, u)
                if is_false(inr): continue
                if kind == 'any':
                    self.add(b_or(x, b_not(inr), b_not(at(u)[0])))
                elif kind == 'count':
                    self.add(b_or(b_not(inr), b_not(at(u)[0]), x >= 1))
                    self.add(b_or(b_not(inr), at(u)[0], x <= hi - lo))
                elif kind in ('max', 'imax', 'min', 'imin'):
                    v, c = at(u)
                    sk = self.skolem('w', x)
                    vs, cs = at(sk)
                    ok = b_and(self.inr(lo, hi, sk), cs, x == vs)
                    le = v <= x if kind in ('max', 'imax') else v >= x
                    self.add(b_or(b_not(inr), b_not(c), b_and(le, ok)))
                elif kind == 'first':
                    self.add(b_or(b_not(inr), b_not(at(u)[0]), x <= u))
                elif kind == 'last':
                    self.add(b_or(b_not(inr), b_not(at(u)[0]), x >= u))
                elif kind == 'argmax':
                    v, = at(u); vx, = at(x)
                    self.add(b_or(b_not(inr), b_and(v <= vx, b_or(u >= x, v < vx))))
                elif kind == 'argmin':
                    v, = at(u); vx, = at(x)
                    self.add(b_or(b_not(inr), b_and(v >= vx, b_or(u >= x, v > vx))))

    def red_pair(self, A, B):
        a, ka, loa, hia, ata = A
        b, kb, lob, hib, atb = B
        if ka != kb: return
        if not self.once('pair', a, b): return
        eqr = b_and(simp_b(loa == lob), simp_b(hia == hib))
        if is_false(eqr) and ka != 'sum': return
        sk = self.skolem('p', a, b)
        inr = self.inr(loa, hia, sk)
        if ka == 'sum':
            if not is_false(eqr):
                va, vb = ata(sk)[0], atb(sk)[0]
                self.add(b_or(a == b, b_not(eqr), b_and(inr, va != vb)))
                for c in self.S.hints_scale:
                    s2 = self.skolem('ps', a, b, c)
                    self.add(b_or(a == c * b, b_not(eqr), b_and(self.inr(loa, hia, s2), ata(s2)[0] != c * atb(s2)[0])))
                    s3 = self.skolem('ps', b, a, c)
                    self.add(b_or(b == c * a, b_not(eqr), b_and(self.inr(loa, hia, s3), atb(s3)[0] != c * ata(s3)[0])))
                s4 = self.skolem('po', a, b)
                self.add(b_or(a <= b, b_not(eqr), b_and(self.inr(loa, hia, s4), ata(s4)[0] > atb(s4)[0])))
                s5 = self.skolem('po', b, a)
                self.add(b_or(b <= a, b_not(eqr), b_and(self.inr(loa, hia, s5), ata(s5)[0] < atb(s5)[0])))
            # one element more at the end
            for (x, lox, hix, atx), (y, loy, hiy, aty) in (((a, loa, hia, ata), (b, lob, hib, atb)), ((b, lob, hib, atb), (a, loa, hia, ata))):
                st_ = b_and(simp_b(lox == loy), simp_b(hix == hiy + 1))
                if is_false(st_): continue
                s6 = self.skolem('pe', x, y)
                self.add(b_or(b_not(st_), loy > hiy + 1, x == y + atx(hix)[0], b_and(self.inr(loy, hiy, s6), atx(s6)[0] != aty(s6)[0])))
            # one element more at the start
            for (x, lox, hix, atx), (y, loy, hiy, aty) in (((a, loa, hia, ata), (b, lob, hib, atb)), ((b, lob, hib, atb), (a, loa, hia, ata))):
                st_ = b_and(simp_b(lox + 1 == loy), simp_b(hix == hiy))
                if is_false(st_): continue
                s7 = self.skolem('pf', x, y)
                self.add(b_or(b_not(st_), loy > hiy + 1, x == y + atx(lox)[0], b_and(self.inr(loy, hiy, s7), atx(s7)[0] != aty(s7)[0])))
        elif ka == 'count':
            va, vb = ata(sk)[0], atb(sk)[0]
            self.add(b_or(a == b, b_not(eqr), b_and(inr, zb(va) != zb(vb))))
            self.uni(sk)
        elif ka in ('argmax', 'argmin'):
            va, vb = ata(sk)[0], atb(sk)[0]
            self.add(b_or(a == b, b_not(eqr), b_and(inr, va != vb)))
        elif ka in ('max', 'min', 'imax', 'imin'):
            (va, ca), (vb, cb) = ata(sk), atb(sk)
            self.add(b_or(a == b, b_not(eqr), b_and(inr, b_or(b_not(core.b_eq(ca, cb)), va != vb))))
            if ka in ('max', 'min'):
                for c in self.S.hints_scale:
                    s2 = self.skolem('ps', a, b, c)
                    (va, ca), (vb, cb) = ata(s2), atb(s2)
                    self.add(b_or(a == c * b, c <= 0, b_not(eqr), b_and(self.inr(loa, hia, s2), b_or(b_not(core.b_eq(ca, cb)), va != c * vb))))
                    self.add(b_or(b * c == a, c <= 0, b_not(eqr), b_and(self.inr(loa, hia, s2), b_or(b_not(core.b_eq(ca, cb)), va != c * vb))))
        # any/first/last: covered by instantiation at skolems

    # -- log, exp, sqrt, pow
    def realfn(self, name, x):
        a = x.arg(0)
        L = self.real[name]
        if name == 'sqrt':
            self.add(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
            self.add(z3.Implies(a > 0, x > 0))
            for y in L:
                b = y.arg(0)
                self.add(z3.Implies(z3.And(a >= 0, b >= 0, a < b), x < y))
                self.add(z3.Implies(z3.And(a >= 0, b >= 0, b < a), y < x))
                self.add(z3.Implies(a == b, x == y))
        elif name == 'log':
            one = z3.RealVal(1)
            self.add(z3.Implies(a > 1, x > 0)); self.add(z3.Implies(a == 1, x == 0))
            self.add(z3.Implies(z3.And(a > 0, a < 1), x < 0))
            if z3.is_rational_value(a) and a.as_fraction() == 2:
                self.add(z3.And(x > z3.Q(69, 100), x < z3.Q(7, 10)))
            if z3.is_app_of(a, z3.Z3_OP_DIV):
                p, q = a.arg(0), a.arg(1)
                self.add(z3.Implies(z3.And(p > 0, q > 0), x == core.mk_log(p) - core.mk_log(q)))
            elif z3.is_app_of(a, z3.Z3_OP_MUL):
                cs = a.children()
                self.add(z3.Implies(z3.And(*[c > 0 for c in cs]), x == z3.Sum(*[core.mk_log(c) for c in cs])))
            if a.decl().name() == 'exp': self.add(x == a.arg(0))
            for y in L:
                b = y.arg(0)
                self.add(z3.Implies(z3.And(a > 0, b > 0, a < b), x < y))
                self.add(z3.Implies(z3.And(a > 0, b > 0, b < a), y < x))
        else:
            self.add(x > 0)
            self.add(z3.Implies(a > 0, x > 1)); self.add(z3.Implies(a == 0, x == 1)); self.add(z3.Implies(a < 0, x < 1))
            if a.decl().name() == 'log': self.add(z3.Implies(a.arg(0) > 0, x == a.arg(0)))
            if z3.is_app_of(a, z3.Z3_OP_ADD) and len(self.real['exp']) < 12:
                self.add(x == z3.Product(*[core.mk_exp(c) for c in a.children()]))
            for y in L:
                b = y.arg(0)
                self.add(z3.Implies(a < b, x < y)); self.add(z3.Implies(b < a, y < x))
        L.append(x)

    def powfn(self, x):
        a, e = x.arg(0), x.arg(1)
        self.add(z3.Implies(a > 0, x > 0)); self.add(z3.Implies(a >= 0, x >= 0))
        self.add(z3.Implies(e == 0, x == 1))
        self.add(z3.Implies(z3.And(a > 0, a <= 1, e >= 0), x <= 1))
        self.add(z3.Implies(z3.And(a >= 1, e >= 0), x >= 1))
        self.add(z3.Implies(e == 1, x == a))
        self.add(z3.Implies(z3.And(a == 0, e > 0), x == 0))

STAT = {'queries': 0, 'time': 0.0, 'z3': 0, 'z3-nlsat': 0, 'cvc5': 0, 'simplifier': 0}

def relax_reals(fs):
    """Replace every application of an uninterpreted symbol by a constant and Int by Real (a relaxation: unsat carries over)."""
    cache = {}
    ints = []
    def go(t):
        i = t.get_id()
        if i in cache: return cache[i][1]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if z3.is_bool(t): r = t if t.num_args() == 0 else z3.Bool('pb!%d' % i)
            else: r = z3.Real('pr!%d' % i)
        elif z3.is_int_value(t): r = z3.RealVal(t.as_long())
        elif z3.is_rational_value(t): r = t
        elif z3.is_app(t):
            k = t.decl().kind()
            ch = [go(c) for c in t.children()]
            if k == z3.Z3_OP_TO_REAL: r = ch[0]
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT):
                r = z3.Bool('pb!%d' % i) if z3.is_bool(t) else z3.Real('pr!%d' % i)
            elif k == z3.Z3_OP_ADD: r = z3.Sum(*ch)
            elif k == z3.Z3_OP_MUL: r = z3.Product(*ch)
            elif k == z3.Z3_OP_SUB: r = ch[0] - ch[1] if len(ch) == 2 else ch[0] - z3.Sum(*ch[1:])
            elif k == z3.Z3_OP_UMINUS: r = -ch[0]
            elif k == z3.Z3_OP_DIV: r = ch[0] / ch[1]
            elif k == z3.Z3_OP_LE: r = ch[0] <= ch[1]
            elif k == z3.Z3_OP_GE: r = ch[0] >= ch[1]
            elif k == z3.Z3_OP_LT: r = ch[0] < ch[1]
            elif k == z3.Z3_OP_GT: r = ch[0] > ch[1]
            elif k == z3.Z3_OP_EQ: r = ch[0] == ch[1]
            elif k == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
            elif k == z3.Z3_OP_ITE: r = z3.If(*ch)
            elif k == z3.Z3_OP_AND: r = z3.And(*ch)
            elif k == z3.Z3_OP_OR: r = z3.Or(*ch)
            elif k == z3.Z3_OP_NOT: r = z3.Not(ch[0])
            elif k == z3.Z3_OP_IMPLIES: r = z3.Implies(*ch)
            elif z3.is_true(t) or z3.is_false(t): r = t
            else: raise ValueError(str(t.decl()))
        else: raise ValueError(str(t))
        cache[i] = (t, r)
        return r
    return [go(f) for f in fs]

def check(fs, timeout_ms, backend):
    t0 = time.time()
    STAT['queries'] += 1
    try:
        if backend == 'z3':
            s = z3.Solver(); s.set('timeout', timeout_ms)
            for f in fs: s.add(f)
            r = s.check()
            m = s.model() if r == z3.sat else None
        elif backend == 'z3-nlsat' and len(apps(list(fs))) > 1500: return z3.unknown, None, 0.0
        elif backend == 'z3-nlsat':
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'simplify', 'tseitin-cnf', 'qfnra-nlsat').solver()
            s.set('timeout', timeout_ms)
            for f in relax_reals(fs): s.add(f)
            r = s.check(); m = None
            if r == z3.sat: r = z3.unknown       # a relaxation: only unsat counts
        elif backend == 'cvc5':
            s = z3.Solver()
            for f in fs: s.add(f)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh: fh.write(txt)
            try:
                o = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, fh.name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5).stdout
            except Exception: o = ''
            finally: os.unlink(fh.name)
            r = z3.unsat if o.startswith('unsat') else z3.unknown
            m = None
    except z3.Z3Exception as e:
        r, m = z3.unknown, None
    except ValueError as e:
        r, m = z3.unknown, None
    dt = time.time() - t0
    STAT['time'] += dt
    if r == z3.unsat: STAT[backend] += 1
    return r, m, dt


CONG = {}
def red_of(x):
    S = core.st()
    name = x.decl().name()
    if name not in S.red: return None
    R = S.red[name]
    lo, hi, at = R.at([x.arg(i) for i in range(x.num_args())])
    return R.kind, lo, hi, at

def congruences(goal, hyps, depth=0):
    """Equalities between reductions whose ranges and summands are provably equal (small separate queries)."""
    S = core.st()
    out = []
    reds = []
    for x in apps([zb(goal)]):
        if x.num_args() == 0 and not z3.is_const(x): continue
        r = red_of(x)
        if r is not None: reds.append((x,) + r)
    if len(reds) < 2 or len(reds) > 40: return out
    hk = frozenset(h.get_id() for h in hyps)
    CONG.setdefault('keep', []).append(list(hyps))
    rep = {}
    for i, A in enumerate(reds):
        for B in reds[:i]:
            if A[1] != B[1]: continue
            if rep.get(A[0].get_id()) is not None and rep.get(A[0].get_id()) == rep.get(B[0].get_id(), B[0].get_id()): continue
            key = (A[0].get_id(), B[0].get_id(), hk)
            if key not in CONG:
                CONG[key] = _congruent(A, B, hyps, depth)
                CONG['keep'].append((A[0], B[0]))
            for c in CONG[key]:
                out.append(c)
                if z3.is_eq(c) and c.arg(0).eq(A[0]) and c.arg(1).eq(B[0]): rep[A[0].get_id()] = rep.get(B[0].get_id(), B[0].get_id())
    return out

def _congruent(A, B, hyps, depth):
    a, kind, loa, hia, ata = A
    b, _, lob, hib, atb = B
    eqr = b_and(simp_b(loa == lob), simp_b(hia == hib))
    if is_false(eqr): return []
    if not is_true(eqr):
        r, _, _ = check([zb(h) for h in hyps] + [zb(b_not(eqr))], 300, 'z3')
        if r != z3.unsat: return []
    k = z3.Int('i!cg%d' % depth)
    inr = Lemmas.inr(loa, hia, k)
    if is_false(inr): return []
    va, vb = ata(k), atb(k)
    def same(va, vb):
        cs = []
        for x, y in zip(va, vb):
            if isinstance(x, bool) or isinstance(y, bool): cs.append(core.b_eq(x, y))
            else: cs.append(True if x.eq(y) else simp_b(x == y))
        return b_and(*cs)
    def shown(g):
        if is_true(g): return True
        if is_false(g): return False
        H = [zb(h) for h in hyps] + [zb(inr)]
        E = congruences(g, H, depth + 1) if depth < 2 else []
        L = Lemmas(H + E, g, rounds=2, noreds=True)
        base = H + E + [zb(b_not(g))] + L.lem
        r, _, _ = check(base, 700, 'z3')
        if r == z3.unknown: r, _, _ = check(base, 700, 'z3-nlsat')
        return r == z3.unsat
    if shown(same(va, vb)): return [a == b]
    res = []
    if kind in ('sum', 'max', 'min'):
        for c in core.st().hints_scale:
            if kind != 'sum' and va[1:] and not is_true(same(va[1:], vb[1:])): continue
            if shown(simp_b(va[0] == c * vb[0])): res.append(a == c * b); break
            if shown(simp_b(vb[0] == c * va[0])): res.append(b == c * a); break
    return res

class Normal:
    """Rewrites terms under hypotheses: integer conditions are decided, reductions become opaque symbols named by
    (kind, normalised range, normalised summand).  Two terms with the same normal form are equal under the hypotheses."""
    def __init__(self, hyps):
        self.s = z3.Solver(); self.s.set('timeout', 200)
        for h in hyps:
            if _intonly(h): self.s.add(h)
        self.memo = [{}]
        self.tab = {}
        self.keep = []
        self.queries = 0
        self.depth = 0
    def entails(self, c):
        self.queries += 1
        self.s.push(); self.s.add(z3.Not(c)); r = self.s.check(); self.s.pop()
        return r == z3.unsat
    def decide(self, c):
        if z3.is_true(c) or z3.is_false(c) or not _intonly(c): return c
        if self.queries > 3000: return c
        if self.entails(c): return z3.BoolVal(True)
        if self.entails(z3.Not(c)): return z3.BoolVal(False)
        return c
    def go(self, t):
        if isinstance(t, bool): return z3.BoolVal(t)
        i = t.get_id()
        for m in self.memo[-1:]:
            if i in m: return m[i][1]
        r = self._go(t)
        self.memo[-1][i] = (t, r)
        return r
    def _go(self, t):
        if not z3.is_app(t): return t
        R = red_of(t)
        if R is not None: return self.red(t, R)
        if t.num_args() == 0: return t
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = self.decide(self.go(t.arg(0)))
            if z3.is_true(c): return self.go(t.arg(1))
            if z3.is_false(c): return self.go(t.arg(2))
            a, b = self.go(t.arg(1)), self.go(t.arg(2))
            return a if a.eq(b) else z3.If(c, a, b)
        if z3.is_bool(t) and k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            c = self.decide(t)
            if z3.is_true(c) or z3.is_false(c): return c
        ch = [self.go(c) for c in t.children()]
        if z3.is_bool(t) and k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            return zb(b_and(*ch) if k == z3.Z3_OP_AND else b_or(*ch) if k == z3.Z3_OP_OR else b_not(ch[0]))
        if all(a.eq(b) for a, b in zip(ch, t.children())): return t
        if k == z3.Z3_OP_EQ and ch[0].eq(ch[1]): return z3.BoolVal(True)
        return t.decl()(*ch)
    def red(self, t, R):
        kind, lo, hi, at = R
        if self.depth > 4: return t
        lo, hi = z3.simplify(self.go(lo)), z3.simplify(self.go(hi))
        k = z3.Int('i!nf%d' % self.depth)
        body = at(k)
        self.s.push(); self.s.add(lo <= k, k <= hi)
        self.depth += 1; self.memo.append({})
        try: body = [self.go(zb(x) if isinstance(x, bool) else x) for x in body]
        finally:
            self.depth -= 1; self.memo.pop(); self.s.pop()
        body = [z3.simplify(x) for x in body]
        key = (kind, str(t.sort()), lo.get_id(), hi.get_id()) + tuple(x.get_id() for x in body)
        if key not in self.tab:
            free = [z3.Int('i!nf%d' % d) for d in range(self.depth)]
            f = z3.Function('nf!%d' % len(self.tab), *([z3.IntSort()] * len(free) + [t.sort()]))
            self.tab[key] = (f(*free) if free else z3.Const('nf!%d' % len(self.tab), t.sort()), lo, hi, body)
        c = self.tab[key][0]
        if kind == 'first': self.s.add(z3.Or(lo > hi, z3.And(lo <= c, c <= hi + 1)))
        elif kind == 'last': self.s.add(z3.Or(lo > hi, z3.And(lo - 1 <= c, c <= hi)))
        elif kind in ('argmax', 'argmin'): self.s.add(z3.Or(lo > hi, z3.And(lo <= c, c <= hi)))
        elif kind == 'count': self.s.add(z3.And(c >= 0, z3.Or(lo > hi, c <= hi - lo + 1)))
        return c

_INTONLY = {}
def _intonly(c):
    """A small formula over integers only."""
    i = c.get_id()
    if i in _INTONLY: return _INTONLY[i][1]
    n = 0
    stack = [c]; ok = True; seen = set()
    while stack and ok:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); n += 1
        if n > 60 or not z3.is_app(x) or z3.is_real(x) or (z3.is_app(x) and x.decl().name() in core.st().red): ok = False
        else: stack.extend(x.children())
    _INTONLY[i] = (c, ok)
    return ok

def normal_form(goal, hyps):
    N = Normal(hyps)
    return simp_b(N.go(goal)), N

def prove(goal, hyps, timeout=8000, quick=False, rounds=4, plain=False):
    """Is goal a consequence of hyps (all ground)?"""
    t0 = time.time()
    goal = simp_b(zb(goal))
    if is_true(goal):
        STAT['simplifier'] += 1
        return Result('proved', 'simplifier', time.time() - t0)
    if z3.is_expr(goal) and z3.is_and(goal):
        worst = None
        for g in goal.children():
            r = prove(g, hyps, timeout, quick, rounds)
            if r.status != 'proved': return r
            worst = r
        worst.t = time.time() - t0
        return worst
    hyps = [h for h in hyps if not is_true(h)]
    base = [zb(h) for h in hyps] + [zb(b_not(goal))]
    r, m, dt = check(base, min(timeout, 300), 'z3')
    if r == z3.unsat: return Result('proved', 'z3', time.time() - t0)
    L0 = Lemmas(hyps, goal, rounds=2, noreds=True)
    if L0.lem:
        r_, _, _ = check(base + L0.lem, 400, 'z3')
        if r_ == z3.unsat: return Result('proved', 'z3', time.time() - t0)
    try: g2, N = normal_form(goal, [zb(h) for h in hyps])
    except RecursionError: g2 = goal
    if is_true(g2): return Result('proved', 'normal form + z3', time.time() - t0)
    if not is_false(g2):
        r_, _, _ = check([zb(h) for h in hyps] + [zb(b_not(g2))], 1000, 'z3')
        if r_ == z3.unsat: return Result('proved', 'normal form + z3', time.time() - t0)
    from . import poly
    sign = {}
    for expand in (True, False):
        try: g3, N3 = poly.normalise(goal, [zb(h) for h in hyps], expand, sign)
        except RecursionError: g3 = None
        if g3 is None: continue
        if is_true(g3): return Result('proved', 'algebraic normal form + z3', time.time() - t0)
        if not is_false(g3):
            H3 = [zb(h) for h in hyps] + N3.side
            L3 = Lemmas(H3, g3, rounds=2, noreds=True)
            for be, to in (('z3', 1000), ('z3-nlsat', 1000)):
                r_, _, _ = check(H3 + [zb(b_not(g3))] + L3.lem, to, be)
                if r_ == z3.unsat: return Result('proved', 'algebraic normal form + ' + be, time.time() - t0)
    if r == z3.unknown:
        r, m, dt = check(base, min(timeout, 2000), 'z3')
        if r == z3.unsat: return Result('proved', 'z3', time.time() - t0)
    if plain:
        r, _, _ = check(base, timeout, 'z3-nlsat')
        if r == z3.unsat: return Result('proved', 'z3-nlsat', time.time() - t0)
        L = Lemmas(hyps, goal, rounds=2, noreds=True)
        for be in ('z3', 'z3-nlsat', 'cvc5'):
            r, _, _ = check(base + L.lem, timeout, be)
            if r == z3.unsat: return Result('proved', be, time.time() - t0)
        return Result('unknown', 'z3', time.time() - t0)
    E = []
    try: E = congruences(z3.And(*base) if len(base) > 1 else base[0], [zb(h) for h in hyps])
    except RecursionError: pass
    if E:
        L = Lemmas(hyps + E, goal, rounds=2, noreds=True)
        r, m, _ = check(base + E + L.lem, 2000, 'z3')
        if r == z3.unsat: return Result('proved', 'z3', time.time() - t0)
        if r == z3.unknown and not quick:
            r, _, _ = check(base + E + L.lem, 3000, 'z3-nlsat')
            if r == z3.unsat: return Result('proved', 'z3-nlsat', time.time() - t0)
        base = base + E
    model = m
    status = 'unknown'
    for rd in (2, rounds):
        L = Lemmas(hyps + E, goal, rounds=rd)
        if not L.lem: 
            if r == z3.sat: return Result('sat', 'z3', time.time() - t0, model, fs=base)
            break
        fs = base + L.lem
        r, m, dt = check(fs, timeout, 'z3')
        if r == z3.unsat: return Result('proved', 'z3', time.time() - t0)
        if r == z3.sat: model, status = m, 'sat'
        else: status = 'unknown'
        if quick: return Result(status, 'z3', time.time() - t0, model, fs=fs)
        r2, _, _ = check(fs, timeout, 'z3-nlsat') if r != z3.sat else (z3.unknown, 0, 0)
        if r2 == z3.unsat: return Result('proved', 'z3-nlsat', time.time() - t0)
    if status == 'unknown':
        r3, _, _ = check(fs if L.lem else base, timeout, 'cvc5')
        if r3 == z3.unsat: return Result('proved', 'cvc5', time.time() - t0)
    return Result(status, 'z3', time.time() - t0, model, fs=fs if L.lem else base)
