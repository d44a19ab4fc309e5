"""Loads the current source of /repo into the symbolic domain.

Every run re-reads the files.  The statements executed are those of the file; the rewriting below only reroutes
operations Python performs natively on concrete values: `**`, `for`, comprehensions, `x.append(e)` and subscript
assignment inside loops, and `while` loops containing `yield`.
Dropped: docstrings/annotations effects, print, warnings and logging (no observable effect on results).
"""
import ast, copy, os, sys, types, builtins, functools, inspect, itertools, numbers, typing, abc, logging, warnings, collections, operator
from . import core, arr, pdshim, npshim
from .core import (z3, Num, SymBool, Unsupported, PathAbort, num, zi, b_and, b_or, b_not, is_true, is_false, simp_b, unz, num_ite, st, CTX,
                   explore, bound, reduce_term, fresh_name, as_num, num_pow, subst, S)
from .arr import ndarray, SymList, Compressed, Storage, dim, val_ite, asarray, conc, Series_marker

REPO = '/repo'

class Poison:
    """Value of a variable no iteration can rely on."""
    def __init__(self, why='loop variable'): object.__setattr__(self, '_why', why)
    def _no(self, *a, **k): raise Unsupported(f'use of {self._why}')
    def __getattr__(self, n):
        if n.startswith('_vc') or n in ('_as_num', '_map', '_as_list') or (n.startswith('__') and n.endswith('__')): raise AttributeError(n)
        self._no()
for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__getitem__', '__setitem__', '__call__', '__bool__', '__lt__', '__le__', '__gt__',
           '__ge__', '__iter__', '__len__', '__iadd__', '__index__', '__neg__', '__pow__', '__eq__', '__ne__', '__float__', '__int__'):
    setattr(Poison, _n, lambda self, *a, **k: self._no())
Poison.__hash__ = object.__hash__
UNDEF = Poison('an undefined variable')

# ---------------------------------------------------------------- iteration
class PairIter:
    """itertools.combinations(range(n), 2)."""
    def __init__(self, n, at): self.n, self.at = dim(n), at
    nidx = 2
    def domain(self, i, j): return b_and(i >= 0, i < j, j < zi(self.n))
    def before(self, a, b): return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] < b[1]))
    def item(self, ks): return (self.at(ks[0]), self.at(ks[1]))

class SymIter:
    nidx = 1
    def __init__(self, lst): self.lst = lst; self.n = lst.n
    def domain(self, k): return b_and(k >= 0, k < zi(self.n))
    def before(self, a, b): return a[0] < b[0]
    def item(self, ks): return self.lst.fn(ks[0])

MAXCONC = 40
def vc_iter(x):
    if isinstance(x, (SymIter, PairIter)): return x
    if isinstance(x, Poison): x._no()
    if isinstance(x, Compressed): raise Unsupported('iteration over a selection')
    if isinstance(x, Series_marker): x = x._values
    if isinstance(x, ndarray):
        if x.ndim == 0: raise TypeError('iteration over a 0-d array')
        x = x._as_list()
    if isinstance(x, npshim.UniqueOf): raise Unsupported('iteration over distinct values')
    if isinstance(x, pdshim.Columns) and not isinstance(x._n, (list, tuple)): raise Unsupported('iteration over symbolic columns')
    if isinstance(x, SymList):
        if isinstance(x.n, int) and x.n <= MAXCONC: return [x.fn(z3.IntVal(i)) for i in range(x.n)]
        return SymIter(x)
    if isinstance(x, (Num, SymBool)): raise TypeError('object is not iterable')
    l = list(x)
    if len(l) > MAXCONC and st().ctx and all(isinstance(e, int) for e in l) and l == list(range(l[0], l[0] + len(l))):
        b = l[0]
        return SymIter(SymList(len(l), lambda i: Num(z3.simplify(zi(i) + b))))
    return l

def as_symlist(x):
    it = vc_iter(x)
    if isinstance(it, SymIter): return it.lst
    if isinstance(it, list): return SymList(len(it), lambda i: arr.pick(it, i))
    raise Unsupported('pairs as a list')

def merge(res, base_n):
    """Merge (pc, value) pairs of nested paths by if-then-else."""
    if not res: raise PathAbort()
    pc, v = res[-1]
    for p, w in reversed(res[:-1]):
        skip = getattr(p, 'forced', ()) if st().__dict__.get('sharp') else ()
        v = val_ite(b_and(*[c for k, c in enumerate(p) if k >= base_n and k not in skip]), w, v)
    return v

def merged(fn, base=(), on_raise=None):
    base = [b for b in base if not is_true(b)]
    base = [core.zb(b) for b in base]
    res = explore(fn, base, parent=CTX(), maxpaths=60)
    oks = [(pc, v) for o, v, pc, ob in res if o == 'ok']
    exc = [(pc, v) for o, v, pc, ob in res if o == 'raise']
    if on_raise is not None: on_raise(exc, len(base))
    return merge(oks, len(base))

def check_raises(n, fn):
    """Evaluate fn(j) for a generic j in range(n): raise on the paths where some element raises."""
    hi = z3.simplify(zi(n) - 1)
    excs = []
    with bound() as j:
        base = [j >= 0, j <= hi]
        res = explore(lambda: fn(j), base, parent=CTX(), maxpaths=60)
        for o, v, pc, ob in res:
            if o == 'raise': excs.append((b_and(*pc[2:]), v))
    for c, e in excs:
        t = reduce_term('any', z3.IntVal(0), hi, lambda k: (subst_b(c, j, k),))
        if bool(SymBool(t)): raise e

def subst_b(c, j, k):
    return c if isinstance(c, bool) else subst(c, (j, k))

def vc_comp(x, elt, cond=None, gen=False):
    elt, cond = freeze(elt), freeze(cond)
    it = vc_iter(x)
    if isinstance(it, list):
        out = [elt(e) for e in it if cond is None or cond(e)]
        return iter(out) if gen else out
    if isinstance(it, PairIter): raise Unsupported('comprehension over pairs')
    if cond is not None: raise Unsupported('filtered comprehension over a symbolic sequence')
    n = it.n
    check_raises(n, lambda j: elt(it.lst.fn(j)))
    def fn(i):
        i = zi(i)
        return merged(lambda: elt(it.lst.fn(i)), [i >= 0, i < zi(n)])
    return SymList(n, fn)

def vc_concrete(x):
    it = vc_iter(x)
    if isinstance(it, list): return it
    raise Unsupported('nested comprehension over a symbolic sequence')

def call_each(it):
    it = vc_iter(it)
    if isinstance(it, list): return [f(*a, **k) for f, a, k in it]
    check_raises(it.n, lambda j: (lambda t: t[0](*t[1], **t[2]))(it.lst.fn(j)))
    def fn(i):
        i = zi(i)
        def go():
            f, a, k = it.lst.fn(i)
            return f(*a, **k)
        return merged(go, [i >= 0, i < zi(it.n)])
    return SymList(it.n, fn)

# ---------------------------------------------------------------- loops
class ListPH:
    """List variable at the start of an iteration."""
    def __init__(self, owner): self.owner, self.items = owner, []
    def _app(self, x): r = ListPH(self.owner); r.items = self.items + [x]; return r
    def __getattr__(self, n):
        if n.startswith('_vc') or n in ('_as_num', '_map', '_as_list') or (n.startswith('__') and n.endswith('__')): raise AttributeError(n)
        raise Unsupported('use of a growing list inside the loop')

def vc_append(x, e):
    if isinstance(x, ListPH): return x._app(e)
    if isinstance(x, SymList): return x + [e]
    x.append(e)
    return x


class Recorder:
    def __init__(self, loop):
        self.loop, self.start = loop, arr.STAMP[0]
        self.writes = {}
    def touch(self, stg): pass
    def wrote(self, stg, regionfn):
        if stg.birth > self.start: return
        self.writes.setdefault(id(stg), (stg, []))[1].append(regionfn)

def _gb(stg_ndim): return tuple(z3.Int(f'gb#{d}') for d in range(stg_ndim))

def _arity(regionfn): return None

def freeze(f):
    """The function with the values its free variables have now (the body is evaluated again later, on demand)."""
    if not isinstance(f, types.FunctionType) or not f.__closure__: return f
    cells = []
    for c in f.__closure__:
        try: cells.append(types.CellType(c.cell_contents))
        except ValueError: cells.append(types.CellType())
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g

class Loop:
    def __init__(self, it, body, init, names):
        body = freeze(body)
        self.it, self.body, self.init, self.names = it, body, list(init), names
        self.orig = {}
        self.stgs = {}          # id -> (stg, arity, regions list of (cond over gb,k))
        self.final = {}
        self.preds = {}
        self.starts = None
        self.recurrent = False

    def placeholders(self):
        ph = []
        for v, nm in zip(self.init, self.names):
            if isinstance(v, (int, float, Num)) and not isinstance(v, bool):
                real = nm in self.realvars or not num(v).isint
                ph.append(Num((z3.Real if real else z3.Int)(f'lv#{id(self)%99991}#{nm}')))
            elif isinstance(v, list): ph.append(ListPH(self))
            elif isinstance(v, (Poison, ListPH)) or v is None or isinstance(v, (bool, SymBool, str)): ph.append(Poison(f'{nm} carried over between iterations'))
            else: ph.append(Poison(f'{nm} carried over between iterations'))
        return ph

    def exec_at(self, ks, starts, want, base):
        """Run the body at index terms ks; returns merged result of want(outs) and raising paths."""
        rec = Recorder(self)
        saved = {i: s.fn for i, (s, *_r) in self.stgs.items()}
        excs = []
        def go():
            for i, (s, *_r) in self.stgs.items(): s.fn = self.pre(i, ks)
            for i, s0 in list(touched.items()):
                s0[0].fn = s0[1]
            st().loopstack.append(rec)
            try:
                outs = self.body(self.it.item(ks), *starts)
                return want(outs, rec)
            finally:
                st().loopstack.pop()
                for i, (s, rs) in rec.writes.items():
                    if i not in self.stgs and i not in touched: raise Unsupported('loop writes differ between runs')
        touched = {}
        try:
            res = explore(go, base, parent=CTX(), maxpaths=80)
        finally:
            for i, (s, *_r) in self.stgs.items(): s.fn = saved[i]
        nb = len(base)
        oks = [(pc, v) for o, v, pc, ob in res if o == 'ok']
        excs = [(b_and(*pc[nb:]), v) for o, v, pc, ob in res if o == 'raise']
        return oks, excs, nb

    def pre(self, i, ks):
        s, ar, regions = self.stgs[i]
        orig = self.orig[i]
        if not self.recurrent: return orig
        F, N = self.final[i]
        def fn(*b):
            b = tuple(zi(x) for x in b)
            w = []
            for sol in self.sols[i]:
                t, valid = sol(b)
                w.append(b_and(valid, self.it.domain(*t), simp_b(self.it.before(t, ks))))
            c = simp_b(core.zb(b_or(*w)))
            if is_false(c) or (not isinstance(c, bool) and not CTX().feasible(c)): return orig(*b)
            if not isinstance(c, bool) and arr.known(c): c = True
            return num_ite(c, Num(F(*b), N(*b)), orig(*b)) if not is_true(c) else Num(F(*b), N(*b))
        return fn

    def run(self):
        it = self.it
        self.realvars = set()
        S_ = st()
        # -- pass 1: which storages are written, where
        with _bounds(it.nidx) as ks:
            base = [core.zb(b) for b in [it.domain(*ks)] if not is_true(b)]
            disc = {}
            reads = []
            def discover():
                rec = Recorder(self)
                st().loopstack.append(rec)
                keep = {}
                def touch(stg):
                    if stg.birth <= rec.start and id(stg) not in keep:
                        keep[id(stg)] = (stg, stg.fn)
                rec.touch = touch
                try:
                    outs = self.body(it.item(ks), *self.placeholders())
                    for v, nm, ini in zip(outs, self.names, self.init):
                        if isinstance(v, Num) and isinstance(ini, (int, Num)) and not isinstance(ini, bool) and num(ini).isint and not v.isint: self.realvars.add(nm)
                finally:
                    st().loopstack.pop()
                    pc = list(CTX().pc)
                    for i, (stg, f0) in keep.items(): stg.fn = f0
                    for i, (stg, rs) in rec.writes.items():
                        d = disc.setdefault(i, (stg, []))
                        for r in rs: d[1].append((r, pc))
                return None
            res = explore(discover, base, parent=CTX(), maxpaths=80)
            for i, (stg, rs) in disc.items():
                ar = _fn_arity(stg)
                gb = _gb(ar)
                regs = []
                for r, pc in rs:
                    c = r(*gb)
                    c = simp_b(core.zb(c))
                    if is_false(c): continue
                    regs.append(c)
                self.stgs[i] = (stg, ar, regs)
                self.orig[i] = stg.fn
            self.sols = {i: [self.solve(ks, ar, c) for c in _uniq(regs)] for i, (stg, ar, regs) in self.stgs.items()}
            for i in self.stgs: self.check_once(i, ks)
            # -- pass 2: recurrences?
            if self.stgs: self.detect_recurrence(ks, base)
        if self.recurrent:
            for i, (stg, ar, regs) in self.stgs.items():
                nm = fresh_name('final')
                F = z3.Function(nm, *([z3.IntSort()] * ar), z3.RealSort()); N = z3.Function(nm + 'n', *([z3.IntSort()] * ar), z3.BoolSort())
                self.final[i] = (F, N)
                S_.inputs[nm] = 'array after the loop'
        # -- pass 3: scalars
        with _bounds(it.nidx) as ks:
            base = [core.zb(b) for b in [it.domain(*ks)] if not is_true(b)]
            for attempt in range(3):
                ph = self.placeholders()
                rv = set(self.realvars)
                oks, excs, nb = self.exec_at(ks, ph, lambda outs, rec: outs, base)
                if rv == self.realvars: break
            if not oks and not excs: return self.finish_nothing()
            outs = []
            for q, nm in enumerate(self.names):
                vals = [(pc, v[q]) for pc, v in oks]
                outs.append(self.merge_out(vals, nb, ph[q]))
            self.resolve(ks, ph, outs)
            starts = self.start_at(ks)
            sub = self.ph_pairs(ph, starts)
            raises = []
            for c, e in excs:
                c2 = c if isinstance(c, bool) else subst(c, *sub)
                raises.append((c2, e))
        self.ks0 = ks
        for c, e in raises:
            if self.it.nidx != 1: t = self.any2(ks, c)
            else: t = reduce_term('any', z3.IntVal(0), z3.simplify(zi(it.n) - 1), lambda k: (subst_b(c, ks[0], k),))
            if bool(SymBool(t)): raise e
        # -- install results
        for i, (stg, ar, regs) in self.stgs.items():
            for L in st().loopstack: L.touch(stg)
            stg.fn = self.final_fn(i)
            sols = self.sols[i]
            region = lambda *b: b_or(*[b_and(v, self.it.domain(*t)) for t, v in [s(tuple(zi(x) for x in b)) for s in sols]])
            for L in st().loopstack: L.wrote(stg, region)
        return tuple(self.final_scalar(q) for q in range(len(self.names)))

    def any2(self, ks, c):
        n = zi(self.it.n)
        def inner(i):
            return reduce_term('any', z3.simplify(i + 1), z3.simplify(n - 1), lambda j: (subst(core.zb(c), (ks[0], i), (ks[1], j)),))
        return reduce_term('any', z3.IntVal(0), z3.simplify(n - 1), lambda i: (inner(i),))

    def finish_nothing(self):
        raise PathAbort()

    def ph_pairs(self, ph, starts):
        out = []
        for p, s in zip(ph, starts):
            if isinstance(p, Num) and isinstance(s, Num):
                out.append((p.v, s.real_v if not p.isint else s.v))
        return out

    def merge_out(self, vals, nb, ph):
        v0 = vals[-1][1] if vals else Poison('loop variable')
        if all(isinstance(v, (Num, int, float)) and not isinstance(v, bool) for _, v in vals):
            r = num(v0)
            for pc, v in reversed(vals[:-1]): r = num_ite(b_and(*pc[nb:]), num(v), r)
            return r
        if all(isinstance(v, ListPH) for _, v in vals):
            if len({len(v.items) for _, v in vals}) != 1: raise Unsupported('conditional append')
            return v0
        return Poison('a loop variable after the loop')

    def resolve(self, ks, ph, outs):
        """How each scalar evolves."""
        self.kinds = []
        allph = [p.v for p in ph if isinstance(p, Num)]
        res = {}
        pend = list(range(len(ph)))
        for q in list(pend):
            if not isinstance(ph[q], Num) or not isinstance(outs[q], Num):
                if isinstance(outs[q], ListPH): res[q] = ('list', len(outs[q].items))
                else: res[q] = ('poison',)
                pend.remove(q)
        progress = True
        sub_known = []
        while pend and progress:
            progress = False
            for q in list(pend):
                p, o = ph[q], outs[q]
                ov = o.v if p.isint == o.isint else o.real_v
                known_ph = [ph[r].v for r in res if isinstance(ph[r], Num) and res[r][0] in ('const', 'last', 'acc')]
                deps = core.uses(ov, allph) + (core.uses(o.nan, allph) if not isinstance(o.nan, bool) else [])
                others = [d for d in deps if not d.eq(p.v) and not any(d.eq(x) for x in known_ph)]
                if ov.eq(p.v): res[q] = ('const',)
                elif others: continue
                elif not any(d.eq(p.v) for d in deps): res[q] = ('last', ks, o)
                else:
                    zero = z3.IntVal(0) if p.isint else z3.RealVal(0)
                    d0 = subst(ov, (p.v, zero))
                    s = z3.Solver(); s.set('timeout', 1000); s.add(ov != p.v + d0)
                    if s.check() == z3.unsat and not (not isinstance(o.nan, bool) and core.uses(o.nan, [p.v])):
                        res[q] = ('acc', ks, Num(d0, o.nan, o.bad))
                    else: continue
                pend.remove(q); progress = True
        for q in pend: res[q] = ('havoc', z3.Function(fresh_name('havoc'), *([z3.IntSort()] * self.it.nidx), z3.IntSort() if ph[q].isint else z3.RealSort()))
        if pend: st().havoc = True
        self.res, self.ph = res, ph

    def _subst_state(self, v, ks0, ks):
        """Value term at iteration ks, with other loop variables replaced by their values there."""
        pairs = list(zip(ks0, ks))
        st_pairs = []
        for r, p in enumerate(self.ph):
            if isinstance(p, Num) and core.uses(v.v, [p.v]):
                s = self.start_one(r, ks)
                st_pairs.append((p.v, s.v if p.isint == s.isint else s.real_v))
        f = lambda t: t if isinstance(t, bool) else subst(subst(t, *pairs), *st_pairs) if st_pairs else subst(t, *pairs)
        return Num(f(v.v), f(v.nan), f(v.bad))

    def start_one(self, q, ks):
        r = self.res[q]
        ini = self.init[q]
        if r[0] == 'const': return num(ini)
        if r[0] == 'havoc': return Num(r[1](*ks))
        if self.it.nidx != 1:
            raise Unsupported('scalar state in a pair loop')
        k = ks[0]
        if r[0] == 'last':
            prev = self._subst_state(r[2], r[1], (z3.simplify(k - 1),))
            return num_ite(simp_b(k <= 0), num(ini), prev)
        if r[0] == 'acc':
            d = r[2]
            return num(ini) + arr.red_sum_range(0, z3.simplify(k - 1), lambda t: self._subst_state(d, r[1], (t,)))
        raise Unsupported('loop state')

    def start_at(self, ks):
        out = []
        for q, (p, ini) in enumerate(zip(self.ph, self.init)):
            k = self.res[q][0]
            if k == 'poison': out.append(p)
            elif k == 'list': out.append(ListPH(self))
            else:
                v = self.start_one(q, ks)
                out.append(v if v.isint == p.isint else Num(v.real_v, v.nan, v.bad))
        return out

    def final_scalar(self, q):
        r = self.res[q]; ini = self.init[q]; n = self.it.n
        if r[0] == 'const': return ini
        if r[0] == 'poison': return Poison('a loop variable after the loop')
        if r[0] == 'havoc': return Num(z3.Int(fresh_name('hv')) if self.ph[q].isint else z3.Real(fresh_name('hv')))
        if r[0] == 'list':
            if self.it.nidx != 1: raise Unsupported('list built in a pair loop')
            m = r[1]
            if m == 0: return ini
            def elem(i):
                i = zi(i)
                k = i if m == 1 else z3.simplify(i / m)
                base = [k >= 0, k < zi(n)]
                oks, excs, nb = self.exec_at((k,), self.start_at((k,)), lambda outs, rec: outs[q].items, base)
                items = merge([(pc, v) for pc, v in oks], nb)
                return items[0] if m == 1 else arr.pick(items, z3.simplify(i % m))
            tail = SymList(dim(zi(n) * m), elem)
            return (SymList(len(ini), lambda i: arr.pick(ini, i)) + tail) if ini else tail
        return self.start_one(q, (zi(n),))

    def solve(self, ks, ar, cond):
        """sol(b) -> (ks terms, validity) for a region condition."""
        gb = _gb(ar)
        conj = _conjuncts(cond)
        sol = {}
        for k in ks:
            for c in conj:
                if not z3.is_eq(c) or not z3.is_int(c.arg(0)): continue
                e = c.arg(0) - c.arg(1)
                if not core.uses(e, [k]): continue
                if any(core.uses(e, [o]) for o in ks if not o.eq(k)): continue
                a0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0)))); a1 = z3.simplify(z3.substitute(e, (k, z3.IntVal(1))))
                d = z3.simplify(a1 - a0)
                if z3.is_int_value(d) and abs(d.as_long()) == 1 and core.uses(a0, list(gb)):
                    s = z3.Solver(); s.add(e != a0 + d * k)
                    if s.check() != z3.unsat: continue
                    sol[k.get_id()] = z3.simplify(-a0 if d.as_long() == 1 else a0); break
            else:
                if not core.uses(cond, [k]):
                    if self.it.nidx == 1: sol[k.get_id()] = z3.simplify(zi(self.it.n) - 1); self.lastwriter = True; continue
                raise Unsupported('loop writes at positions the engine cannot invert')
        tt = [sol[k.get_id()] for k in ks]
        last = not core.uses(cond, list(ks))
        def f(b):
            pairs = list(zip(gb, b))
            t = tuple(z3.simplify(z3.substitute(x, *pairs)) for x in tt)
            v = z3.substitute(cond, *(pairs + list(zip(ks, t))))
            return t, simp_b(v)
        f.last = last
        f.cond = cond
        return f

    def check_once(self, i, ks):
        """No element is written by two different iterations."""
        stg, ar, regs = self.stgs[i]
        gb = _gb(ar)
        if any(s.last for s in self.sols[i]):
            if len(self.sols[i]) > 1: raise Unsupported('overlapping loop writes')
            return
        k2 = [z3.Int(f'other#{d}') for d in range(len(ks))]
        allr = z3.Or(*[core.zb(r) for r in regs]) if regs else z3.BoolVal(False)
        s = z3.Solver(); s.set('timeout', 3000)
        for p in CTX().allpc(): s.add(p)
        s.add(core.zb(self.it.domain(*ks)), core.zb(self.it.domain(*k2)), allr, z3.substitute(allr, *zip(ks, k2)), z3.Or(*[a != b for a, b in zip(ks, k2)]))
        if s.check() != z3.unsat: raise Unsupported('an array element is written by several iterations')

    def detect_recurrence(self, ks, base):
        log = {}
        for i, (stg, ar, regs) in self.stgs.items(): log[i] = []
        def go():
            ph = self.placeholders()
            rec = Recorder(self)
            keep = {i: s.fn for i, (s, *_r) in self.stgs.items()}
            for i, (s, ar, regs) in self.stgs.items():
                o = self.orig[i]
                def probe(*b, i=i, o=o, ar=ar):
                    b = tuple(zi(x) for x in b)
                    if not all(x.eq(g) for x, g in zip(b, _gb(ar))): log[i].append((b, list(CTX().pc)))
                    return o(*b)
                s.fn = probe
            st().loopstack.append(rec)
            try:
                outs = self.body(self.it.item(ks), *ph)
                for i, (s, ar, regs) in self.stgs.items(): s.fn(*_gb(ar))
            finally:
                st().loopstack.pop()
                for i, (s, *_r) in self.stgs.items(): s.fn = keep[i]
        explore(go, base, parent=CTX(), maxpaths=80)
        for i, reads in log.items():
            if any(s.last for s in self.sols[i]):
                if reads: raise Unsupported('loop reads an array it overwrites')
                continue
            for b, pc in reads:
                s = z3.Solver(); s.set('timeout', 2000)
                for p in CTX().allpc() + pc: s.add(p)
                w = []
                for sol in self.sols[i]:
                    t, valid = sol(b)
                    w.append(b_and(valid, self.it.domain(*t), self.it.before(t, ks)))
                s.add(core.zb(b_or(*w)))
                if s.check() != z3.unsat: self.recurrent = True

    def final_fn(self, i):
        stg, ar, regs = self.stgs[i]
        orig = self.orig[i]
        sols = self.sols[i]
        def direct(*b):
            b = tuple(zi(x) for x in b)
            r = orig(*b)
            for sol in sols:
                t, valid = sol(b)
                c = b_and(valid, self.it.domain(*t))
                c = simp_b(core.zb(c))
                if is_false(c) or (not isinstance(c, bool) and not CTX().feasible(c)): continue
                base = [core.zb(c)] if not is_true(c) else []
                oks, excs, nb = self.exec_at(t, self.start_at(t), lambda outs, rec: self._val(stg, b), base)
                if not oks: continue
                v = merge([(pc, v) for pc, v in oks], nb)
                r = val_ite(c, v, r)
            return r
        if not self.recurrent: return direct
        F, N = self.final[i]
        busy = []
        def define(*b):
            if len(busy) > 6: return z3.BoolVal(True)
            busy.append(1)
            try:
                v = num(direct(*b))
            finally: busy.pop()
            return z3.And(F(*b) == v.real_v, core.zb(core.b_eq(N(*b), v.nan)))
        st().deftab[F.name()] = st().deftab[N.name()] = define
        return lambda *b: Num(F(*[zi(x) for x in b]), N(*[zi(x) for x in b]))

    def _val(self, stg, b): return stg.fn(*b)

class _bounds:
    def __init__(self, n): self.n = n
    def __enter__(self):
        self.b = [bound() for _ in range(self.n)]
        return tuple(x.__enter__() for x in self.b)
    def __exit__(self, *a):
        for x in reversed(self.b): x.__exit__(*a)

def _conjuncts(c):
    if isinstance(c, bool): return []
    if z3.is_and(c): return [x for d in c.children() for x in _conjuncts(d)]
    return [c]

def _uniq(cs):
    out = []
    for c in cs:
        if isinstance(c, bool): c = z3.BoolVal(c)
        if not any(c.eq(d) for d in out): out.append(c)
    return out

def _fn_arity(stg): return stg.ar

def vc_loop(it, body, init, names):
    return Loop(it, body, init, names).run()

def vc_try(f):
    try: return f()
    except NameError: return UNDEF

def vc_setitem(o, k, v):
    if st().loopstack and isinstance(o, (dict, list)) : raise Unsupported('container updated inside a symbolic loop')
    o[k] = v

_AUG = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'Pow': lambda a, b: vc_pow(a, b), 'FloorDiv': operator.floordiv, 'Mod': operator.mod,
        'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor}
def vc_augitem(o, k, op, v):
    cur = o[k]
    if isinstance(cur, list): cur += v; o[k] = cur; return
    new = _AUG[op](cur, v)
    vc_setitem(o, k, new)

def vc_pow(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if isinstance(a, int) and isinstance(b, int) and b >= 0: return a ** b
        if a > 0 or float(b).is_integer():
            r = num_pow(num(a), b)
            return r
        return a ** b
    return a ** b

def vc_unsupported(msg): raise Unsupported(msg)

class GenericIteration:
    """Chosen by the contract: index of the generic iteration of a loop with yield."""
def vc_generic(it, names):
    if isinstance(it, PairIter): raise Unsupported('yield in a pair loop')
    S_ = st()
    if getattr(S_, 'generic', None) is not None: raise Unsupported('several loops with yield')
    k = z3.Int('split!k')
    CTX().assume(z3.And(k >= 0, k < zi(it.n)))
    S_.generic = (k, it.n)
    return it.lst.fn(k)

def vc_end(): raise PathAbort()

_PURE_CALLS = {'len', 'abs', 'min', 'max', 'isinstance', 'int', 'float', 'bool', 'any', 'all', 'sum', 'isnan', 'isfinite', 'get', 'mean'}
def _pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if (f.id if isinstance(f, ast.Name) else getattr(f, 'attr', None)) not in _PURE_CALLS: return False
        elif isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): return False
    return True

def vc_boolop(conj, a, *rest):
    """a and b / a or b; in merge mode a condition of side-effect free operands stays one condition instead of one path per operand."""
    for f in rest:
        if isinstance(a, SymBool) and getattr(st(), 'merge_bool', False):
            z = simp_b(a.z)
            if not isinstance(z, bool):
                base = [z if conj else z3.Not(z)]
                res = explore(f, base=base, parent=CTX())
                if len(res) == 1 and res[0][0] == 'ok' and isinstance(res[0][1], (bool, SymBool)) and not res[0][3]:
                    extra = res[0][2][len(base):]
                    if extra: CTX().assume(z3.Implies(base[0], z3.And(extra)))
                    b = unz(res[0][1])
                    a = SymBool(b_and(z, b) if conj else b_or(z, b))
                    continue
        if bool(a) != conj: return a
        a = f()
    return a

# ---------------------------------------------------------------- builtins
def b_len(x):
    h = getattr(x, '_vc_len', None)
    if h is not None:
        n = h()
        return n
    return len(x)

def b_range(*a):
    if all(isinstance(x, int) for x in a): return range(*a)
    if len(a) == 1: lo, hi, step = 0, a[0], 1
    elif len(a) == 2: lo, hi, step = a[0], a[1], 1
    else: lo, hi, step = a
    for x in (lo, hi, step):
        if not num(x).isint: raise TypeError("'float' object cannot be interpreted as an integer")
    step = conc(num(step))
    lo, hi = zi(lo), zi(hi)
    if step == 1:
        n = dim(arr.tmax(0, z3.simplify(hi - lo)))
        return SymList(n, lambda i: Num(z3.simplify(lo + zi(i))))
    if step == -1:
        n = dim(arr.tmax(0, z3.simplify(lo - hi)))
        return SymList(n, lambda i: Num(z3.simplify(lo - zi(i))))
    if step is not None and step > 1:
        n = dim(arr.tmax(0, z3.simplify((hi - lo + step - 1) / step)))
        return SymList(n, lambda i: Num(z3.simplify(lo + zi(i) * step)))
    raise Unsupported('range step')

def b_isinstance(x, T):
    if isinstance(T, tuple): return any(b_isinstance(x, t) for t in T)
    if isinstance(x, Poison): x._no()
    if T in (int, numbers.Integral):
        if isinstance(x, Num): return x.isint
        return isinstance(x, T)
    if T is float:
        if isinstance(x, Num): return not x.isint
        return isinstance(x, T)
    if T in (numbers.Number, numbers.Real, numbers.Complex):
        return isinstance(x, (Num, SymBool)) or isinstance(x, T)
    if T is bool: return isinstance(x, (bool, SymBool))
    if T is list: return isinstance(x, (list, SymList))
    if T is pdshim.RangeIndex: return isinstance(x, pdshim.RangeIndex)
    if isinstance(T, type) or hasattr(T, '__instancecheck__'): return isinstance(x, T)
    raise Unsupported(f'isinstance with {T}')

class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, int) or (isinstance(x, Num) and x.isint)
def b_int(x=0, *a):
    if isinstance(x, (Num, SymBool)): return core.trunc_int(x) if isinstance(x, Num) else num(x)
    if isinstance(x, ndarray): return core.trunc_int(x.item())
    return int(x, *a)
def b_float(x=0.0):
    if isinstance(x, (Num, SymBool)): n = num(x); return Num(n.real_v, n.nan, n.bad)
    if isinstance(x, ndarray):
        if any(not (isinstance(d, int) and d == 1) for d in x.shape): raise TypeError('only length-1 arrays can be converted to Python scalars')
        return b_float(x.item())
    return float(x)
def b_bool(x=False): return bool(x)
def b_min(*a, **k):
    if k: raise Unsupported('min options')
    if len(a) == 1:
        l = vc_iter(a[0])
        if not isinstance(l, list): return asarray(l.lst).min()
        a = l
    if any(isinstance(x, Num) for x in a):
        r = a[0]
        for x in a[1:]: r = arr.n_min(r, x)
        return r
    return min(a)
def b_max(*a, **k):
    if k: raise Unsupported('max options')
    if len(a) == 1:
        l = vc_iter(a[0])
        if not isinstance(l, list): return asarray(l.lst).max()
        a = l
    if any(isinstance(x, Num) for x in a):
        r = a[0]
        for x in a[1:]: r = arr.n_max(r, x)
        return r
    return max(a)
def b_sum(x, start=0):
    l = vc_iter(x)
    if isinstance(l, list):
        r = start
        for e in l: r = r + e
        return r
    return asarray(l.lst).sum() + start
def b_any(x):
    l = vc_iter(x)
    if isinstance(l, list):
        for e in l:
            if e: return True
        return False
    return arr.red_any_range(0, zi(l.n) - 1, lambda k: SymBool(unz(l.lst.fn(k))))
def b_all(x):
    l = vc_iter(x)
    if isinstance(l, list):
        for e in l:
            if not e: return False
        return True
    return ~arr.red_any_range(0, zi(l.n) - 1, lambda k: SymBool(b_not(unz(l.lst.fn(k)))))
def b_zip(*xs):
    ls = [vc_iter(x) for x in xs]
    if all(isinstance(l, list) for l in ls): return zip(*ls)
    sl = [as_symlist(l) if isinstance(l, list) else l.lst for l in ls]
    n = sl[0].n
    for s in sl[1:]: n = dim(arr.tmin(n, s.n))
    return SymList(n, lambda i: tuple(s.fn(i) for s in sl))
def b_enumerate(x, start=0):
    l = vc_iter(x)
    if isinstance(l, list): return enumerate(l, start)
    return SymList(l.n, lambda i: (Num(z3.simplify(zi(i) + start)), l.lst.fn(i)))
def b_list(x=()):
    l = vc_iter(x)
    return l if isinstance(l, list) and l is not x else (list(l) if isinstance(l, list) else l.lst)
def b_tuple(x=()):
    l = vc_iter(x)
    return tuple(l) if isinstance(l, list) else l.lst
def b_map(f, *xs):
    if len(xs) == 1: return vc_comp(xs[0], f)
    return vc_comp(b_zip(*xs), lambda t: f(*t))
def b_sorted(x, **k):
    l = vc_iter(x)
    if isinstance(l, list) and not any(isinstance(e, Num) for e in l): return sorted(l, **k)
    raise Unsupported('sorted of symbolic values')
def b_reversed(x):
    l = vc_iter(x)
    if isinstance(l, list): return reversed(l)
    return l.lst[::-1]
def b_next(x, *d):
    if isinstance(x, SymList): return x[0]
    return next(x, *d)
def b_iter(x):
    l = vc_iter(x)
    if isinstance(l, list): return iter(l)
    return l.lst
def b_round(x, *a):
    if isinstance(x, Num): return x.__round__(*a)
    return round(x, *a)
def b_divmod(a, b): return a // b, a % b
def b_print(*a, **k): pass
def combinations(x, r):
    if r == 2:
        l = vc_iter(x)
        if isinstance(l, SymIter): return PairIter(l.n, l.lst.fn)
        return itertools.combinations(l, 2)
    return itertools.combinations(vc_concrete(x), r)
def product(*xs, **k): return itertools.product(*[vc_concrete(x) for x in xs], **k)

class Any_:
    """Stand-in for typing-only modules."""
    def __call__(self, *a, **k): return self
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return self
    def __getitem__(self, k): return self
    def __or__(self, o): return self
    __ror__ = __or__
    def __mro_entries__(self, b): return ()

ANNOTATION_ONLY = ('quantfinlib.util._custom_types', 'quantfinlib.train_test_split._dtypes', 'quantfinlib.util._fs_utils')

# ---------------------------------------------------------------- source transformation
def _stores(nodes):
    out = []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out: out.append(n.id)
        def visit_FunctionDef(self, n): out.append(n.name) if n.name not in out else None
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    for n in nodes: V().visit(n)
    return [o for o in out if not o.startswith('__vc')]

def _has(nodes, types_, stop=(ast.FunctionDef, ast.Lambda)):
    st_ = list(nodes)
    while st_:
        n = st_.pop()
        if isinstance(n, types_): return True
        if isinstance(n, stop): continue
        st_.extend(ast.iter_child_nodes(n))
    return False

def _own_level(nodes, types_):
    """Break/Continue belonging to this loop."""
    st_ = list(nodes)
    while st_:
        n = st_.pop()
        if isinstance(n, types_): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.For, ast.While)): continue
        st_.extend(ast.iter_child_nodes(n))
    return False

class ContinueToReturn(ast.NodeTransformer):
    def __init__(self, ret): self.ret = ret
    def visit_Continue(self, n): return copy.deepcopy(self.ret)
    def visit_For(self, n): return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For

def call(name, *args): return ast.Call(ast.Name(name, ast.Load()), list(args), [])
def lam(args, body): return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)

class Transform(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.depth = 0
        self.locals = [set()]
        self.fn = []
    def visit_FunctionDef(self, n):
        self.locals.append(set(_stores(n.body)) | {a.arg for a in n.args.args + n.args.kwonlyargs})
        self.fn.append(n)
        d, self.depth = self.depth, 0
        n = self.generic_visit(n)
        self.depth = d
        self.fn.pop(); self.locals.pop()
        return n
    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Pow): return call('_vc_x_pow', n.left, n.right)
        return n
    def visit_BoolOp(self, n):
        ok = bool(self.fn) and all(_pure(v) for v in n.values[1:])
        n = self.generic_visit(n)
        return call('_vc_x_boolop', ast.Constant(isinstance(n.op, ast.And)), n.values[0], *[lam([], v) for v in n.values[1:]]) if ok else n
    def visit_Expr(self, n):
        n = self.generic_visit(n)
        c = n.value
        if self.depth and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) \
                and len(c.args) == 1 and c.func.value.id in self.locals[-1]:
            nm = c.func.value.id
            return ast.Assign([ast.Name(nm, ast.Store())], call('_vc_x_append', ast.Name(nm, ast.Load()), c.args[0]))
        return n
    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if self.depth and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(call('_vc_x_setitem', t.value, self._slice(t.slice), n.value))
        return n
    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return call('_vc_x_slice', *[x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple): return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s
    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if isinstance(n.target, ast.Subscript):
            t = n.target
            return ast.Expr(call('_vc_x_augitem', t.value, self._slice(t.slice), ast.Constant(type(n.op).__name__), n.value))
        if isinstance(n.target, ast.Name) and isinstance(n.op, ast.Pow):
            return ast.Assign([n.target], call('_vc_x_pow', ast.Name(n.target.id, ast.Load()), n.value))
        return n
    def _comp(self, n, gen):
        n = self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            for g in n.generators: g.iter = call('_vc_x_concrete', g.iter)
            return n
        g = n.generators[0]
        def fn(body):
            if isinstance(g.target, ast.Name): return lam([g.target.id], body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                return call('_vc_x_star', lam([e.id for e in g.target.elts], body))
            return None
        f = fn(n.elt)
        if f is None:
            g.iter = call('_vc_x_concrete', g.iter); return n
        cond = ast.Constant(None)
        if g.ifs: cond = fn(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return call('_vc_x_comp', g.iter, f, cond, ast.Constant(gen))
    def visit_ListComp(self, n): return self._comp(n, False)
    def visit_GeneratorExp(self, n): return self._comp(n, True)
    def visit_DictComp(self, n):
        n = self.generic_visit(n)
        for g in n.generators: g.iter = call('_vc_x_concrete', g.iter)
        return n
    visit_SetComp = visit_DictComp
    def visit_For(self, n):
        self.depth += 1
        body = [self.visit(copy.deepcopy(s)) for s in n.body]
        flat = []
        for b in body: flat.extend(b if isinstance(b, list) else [b])
        self.depth -= 1
        it = self.visit(n.iter)
        orelse = [self.visit(s) for s in n.orelse]
        oe = []
        for b in orelse: oe.extend(b if isinstance(b, list) else [b])
        self.k += 1
        K = self.k
        itn = f'_vc_x_it_{K}'
        names = []
        for v in _stores(flat) + _stores([n.target]):
            if v not in names: names.append(v)
        pre = ast.Assign([ast.Name(itn, ast.Store())], call('_vc_x_iter', it))
        native = ast.For(copy.deepcopy(n.target), ast.Name(itn, ast.Load()), copy.deepcopy(flat), oe, None)
        attr = _has(flat, ast.Attribute) and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) for b in flat for x in ast.walk(b))
        bad = None
        if _own_level(flat, ast.Break): bad = 'break in a loop over a symbolic sequence'
        elif _has(flat, ast.Return): bad = 'return in a loop over a symbolic sequence'
        elif attr: bad = 'attribute assignment in a loop over a symbolic sequence'
        elif _has(flat, (ast.Global, ast.Nonlocal)): bad = 'global in a loop'
        elif oe: bad = 'for-else over a symbolic sequence'
        if _has(flat, (ast.Yield, ast.YieldFrom)) and not (bad and bad.startswith('return')) and not attr:
            sym = [ast.Assign([ast.Name(v, ast.Store())], call('_vc_x_poison', ast.Constant(v))) for v in names]
            sym.append(ast.Assign([copy.deepcopy(n.target)], call('_vc_x_generic', ast.Name(itn, ast.Load()), ast.Constant(None))))
            fb = ContinueToEnd()
            sym += [fb.visit(copy.deepcopy(s)) for s in flat]
            sym.append(ast.Expr(call('_vc_x_end')))
        elif bad:
            sym = [ast.Expr(call('_vc_x_unsupported', ast.Constant(bad)))]
        else:
            fname = f'_vc_x_body_{K}'
            tup = ast.Tuple([call('_vc_x_try', lam([], ast.Name(v, ast.Load()))) for v in names], ast.Load())
            ret = ast.Return(tup)
            ctr = ContinueToReturn(ret)
            fbody = [ast.Assign([copy.deepcopy(n.target)], ast.Name('_vc_x_item', ast.Load()))] + [ctr.visit(copy.deepcopy(s)) for s in flat] + [copy.deepcopy(ret)]
            fd = ast.FunctionDef(fname, ast.arguments([], [ast.arg('_vc_x_item')] + [ast.arg(v) for v in names], None, [], [], None, []), fbody, [], None, None)
            fd.type_params = []
            asg = ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in names], ast.Store())],
                             call('_vc_x_loop', ast.Name(itn, ast.Load()), ast.Name(fname, ast.Load()), copy.deepcopy(tup), ast.Constant(tuple(names))))
            sym = [fd, asg]
        cond = ast.Compare(call('_vc_x_islist', ast.Name(itn, ast.Load())), [ast.Is()], [ast.Constant(True)])
        return [pre, ast.If(cond, [native], sym)]
    def visit_While(self, n):
        self.depth += 1
        orig_body = n.body
        n = self.generic_visit(n)
        self.depth -= 1
        self.k += 1
        if _has(n.body, (ast.Yield, ast.YieldFrom)):
            return self._while_yield(n)
        n.body = [ast.Expr(call('_vc_x_tick'))] + n.body
        return n
    def _while_yield(self, n):
        """Arbitrary iteration: the assigned names and attributes get arbitrary values satisfying the loop invariant."""
        names = _stores(n.body)
        attrs = []
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    a = (x.value.id, x.attr)
                    if a not in attrs: attrs.append(a)
        K = self.k
        vals = ast.Tuple([call('_vc_x_try', lam([], ast.Name(v, ast.Load()))) for v in names], ast.Load())
        avals = ast.Tuple([call('_vc_x_try', lam([], ast.Attribute(ast.Name(o, ast.Load()), a, ast.Load()))) for o, a in attrs], ast.Load())
        def setall(src):
            out = []
            if names: out.append(ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in names], ast.Store())], ast.Subscript(ast.Name(src, ast.Load()), ast.Constant(0), ast.Load())))
            if attrs: out.append(ast.Assign([ast.Tuple([ast.Attribute(ast.Name(o, ast.Load()), a, ast.Store()) for o, a in attrs], ast.Store())], ast.Subscript(ast.Name(src, ast.Load()), ast.Constant(1), ast.Load())))
            return out
        # __s = _vc_x_while_head(K, names, vals, attrs, avals): entry: forks into (a) a generic iteration
        sname = f'_vc_x_w_{K}'
        head = ast.Assign([ast.Name(sname, ast.Store())], call('_vc_x_while_head', ast.Constant(tuple(names)), vals, ast.Constant(tuple(attrs)), avals))
        # loop: run test with havocked state, body once, then report the state at the end
        body = copy.deepcopy(n.body)
        br = ast.Expr(call('_vc_x_while_break', copy.deepcopy(vals), copy.deepcopy(avals), ast.Name(sname, ast.Load())))
        class B(ast.NodeTransformer):
            def visit_Break(s, x): return [copy.deepcopy(br), ast.Break()]
            def visit_Continue(s, x): return ast.Expr(call('_vc_x_unsupported', ast.Constant('continue in a generator loop')))
            def visit_For(s, x): return x
            visit_While = visit_FunctionDef = visit_For
        nb = []
        for s in body:
            r = B().visit(s)
            nb.extend(r if isinstance(r, list) else [r])
        end = ast.Expr(call('_vc_x_while_end', copy.deepcopy(vals), copy.deepcopy(avals), ast.Name(sname, ast.Load())))
        exit_ = ast.Expr(call('_vc_x_while_exit', ast.Name(sname, ast.Load())))
        loop = ast.While(ast.Constant(True), [ast.If(n.test, nb + [end], [exit_, ast.Break()])] , [])
        return [head] + setall(sname) + [loop]

class ContinueToEnd(ast.NodeTransformer):
    def visit_Continue(self, n): return ast.Expr(call('_vc_x_end'))
    def visit_Break(self, n): return ast.Expr(call('_vc_x_unsupported', ast.Constant('break in a generator loop')))
    def visit_For(self, n): return n
    visit_While = visit_FunctionDef = visit_For

def vc_star(f): return lambda t: f(*t)
_ticks = [0]
def vc_tick():
    c = CTX() if st().ctx else None
    if c is None: return
    c.ticks = getattr(c, 'ticks', 0) + 1
    if c.ticks > 3000: raise Unsupported('loop without a bound')

# ---------------------------------------------------------------- module loading
class Loader:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.read = {}
        self.shims = {'numpy': npshim.make_module(), 'pandas': pdshim.make_module()}
        self.shims['numpy.typing'] = types.ModuleType('numpy.typing'); self.shims['numpy.typing'].NDArray = Any_(); self.shims['numpy.typing'].ArrayLike = Any_()
        self.shims.update(npshim.make_extra())
        it = types.ModuleType('itertools')
        for n in dir(itertools):
            if not n.startswith('__'): setattr(it, n, getattr(itertools, n))
        it.combinations = combinations; it.product = product
        self.shims['itertools'] = it
        w = types.ModuleType('warnings')
        w.warn = lambda *a, **k: None; w.catch_warnings = warnings.catch_warnings; w.simplefilter = lambda *a, **k: None; w.filterwarnings = lambda *a, **k: None
        self.shims['warnings'] = w
        lg = types.ModuleType('logging')
        class L:
            def __getattr__(self, n): return lambda *a, **k: None
        lg.getLogger = lambda *a: L()
        for n in ('WARNING', 'WARN', 'INFO', 'DEBUG', 'ERROR', 'CRITICAL'): setattr(lg, n, getattr(logging, n))
        lg.config = lg
        self.shims['logging'] = lg; self.shims['logging.config'] = lg
        self.builtins = self._builtins()

    def _builtins(self):
        b = dict(vars(builtins))
        b.update(len=b_len, range=b_range, isinstance=b_isinstance, min=b_min, max=b_max, sum=b_sum, any=b_any, all=b_all, zip=b_zip,
                 enumerate=b_enumerate, map=b_map, sorted=b_sorted, reversed=b_reversed, next=b_next, round=b_round, print=b_print, divmod=b_divmod, iter=b_iter)
        b['int'] = _TypeShim('int', int, b_int); b['float'] = _TypeShim('float', float, b_float); b['list'] = _TypeShim('list', list, b_list); b['tuple'] = _TypeShim('tuple', tuple, b_tuple)
        b['open'] = lambda *a, **k: vc_unsupported('open')
        b['__import__'] = self._import
        b.update(_vc_x_pow=vc_pow, _vc_x_iter=vc_iter, _vc_x_comp=vc_comp, _vc_x_concrete=vc_concrete, _vc_x_star=vc_star, _vc_x_append=vc_append, _vc_x_setitem=vc_setitem,
                 _vc_x_augitem=vc_augitem, _vc_x_slice=slice, _vc_x_try=vc_try, _vc_x_loop=vc_loop, _vc_x_islist=lambda x: isinstance(x, list), _vc_x_unsupported=vc_unsupported,
                 _vc_x_generic=vc_generic, _vc_x_boolop=vc_boolop, _vc_x_end=vc_end, _vc_x_poison=lambda n: Poison(n), _vc_x_tick=vc_tick)
        from . import whileinv
        b.update(_vc_x_while_head=whileinv.head, _vc_x_while_end=whileinv.end, _vc_x_while_break=whileinv.brk, _vc_x_while_exit=whileinv.exit_)
        return b

    def _find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')): return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'): return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in ANNOTATION_ONLY or name.startswith('quantfinlib.datasets'):
            m = types.ModuleType(name); a = Any_()
            m.__getattr__ = lambda n: a if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
            self.mods[name] = m
            return m
        path, pkg = self._find(name)
        if path is None: raise ModuleNotFoundError(name)
        if '.' in name: self.load(name.rpartition('.')[0])
        if name in self.mods: return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        src = open(path, newline='').read()
        self.read[name] = path
        tree = ast.parse(src, path)
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)): _strip_annotations(node)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        try:
            exec(compile(tree, path, 'exec'), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if '.' in name:
            setattr(self.mods[name.rpartition('.')[0]], name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1): pkg = pkg.rpartition('.')[0]
            name = f'{pkg}.{name}' if name else pkg
        if name == 'quantfinlib' or name.startswith('quantfinlib.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and f not in m.__dict__ and self._find(f'{name}.{f}')[0]: self.load(f'{name}.{f}')
                return m
            return self.load(name.partition('.')[0])
        if name in self.shims:
            if fromlist: return self.shims[name]
            top = name.partition('.')[0]
            return self.shims.get(top, self.shims[name])
        if name in ('functools', 'inspect', 'typing', 'typing_extensions', 'abc', 'numbers', 'copy', 'collections', 'collections.abc', 'dataclasses', 'enum', 'operator', '__future__', 'os', 'sys', 're', 'datetime', 'pathlib', 'contextlib', 'time', 'random'):
            import importlib
            m = importlib.import_module(name)
            if fromlist: return m
            return importlib.import_module(name.partition('.')[0])
        m = types.ModuleType(name); a = Any_()
        m.__getattr__ = lambda n: a if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
        return m

def _strip_annotations(fn):
    """Keep only annotations that are plain names or attributes (the io decorator compares them), drop typing expressions."""
    for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]:
        if a.annotation is not None and not isinstance(a.annotation, (ast.Name, ast.Attribute)): a.annotation = None
    fn.returns = None

class _TypeMeta(type):
    pass
def _TypeShim(name, real, conv):
    """Callable like a type; isinstance and identity checks use the real type."""
    class M(type):
        def __instancecheck__(cls, x): return b_isinstance(x, real)
        def __subclasscheck__(cls, c): return issubclass(c, real)
        def __call__(cls, *a, **k): return conv(*a, **k)
        def __eq__(cls, o): return o is real or o is cls
        def __hash__(cls): return hash(real)
        def __getitem__(cls, k): return cls
        def __or__(cls, o): return real
        def __ror__(cls, o): return real
        def __getattr__(cls, n): return getattr(real, n)
    return M(name, (), {})
