"""Canonical symbolic forms of window statistics, shared by the library shims (assumed contracts) and by the contract language."""
from .core import (z3, Num, SymBool, num, zi, b_and, b_or, b_not, num_ite, num_div, num_sqrt, num_pow, reduce_term, is_false, Pow,
                   to_real, simp_b, bound, st, Unsupported)
from .arr import red_sum_range, red_ext_range, red_any_range, conc

def wsum(lo, hi, f): return red_sum_range(lo, hi, f)
def wcount(lo, hi): return Num(z3.simplify(zi(hi) - zi(lo) + 1))
def wmean(lo, hi, f): return num_div(wsum(lo, hi, f), wcount(lo, hi))
def wvar(lo, hi, f, ddof=1):
    m = wmean(lo, hi, f)
    def sq(k):
        d = num(f(k)) - m
        return d * d
    return num_div(wsum(lo, hi, sq), wcount(lo, hi) - ddof)
def wstd(lo, hi, f, ddof=1): return num_sqrt(wvar(lo, hi, f, ddof))
def wmax(lo, hi, f): return red_ext_range('max', lo, hi, f)
def wmin(lo, hi, f): return red_ext_range('min', lo, hi, f)
def wcov(lo, hi, f, g, ddof=1):
    mx, my = wmean(lo, hi, f), wmean(lo, hi, g)
    return num_div(wsum(lo, hi, lambda k: (num(f(k)) - mx) * (num(g(k)) - my)), wcount(lo, hi) - ddof)

def nanflag(x): return b_or(x.nan, x.bad)
def nanof(f): return lambda k: SymBool(nanflag(num(f(k))))

def ewm_weight(alpha, i, j):
    return Num(Pow(z3.simplify(1 - num(alpha).real_v), z3.ToReal(z3.simplify(zi(i) - zi(j)))))

def ewm_mean(i, f, alpha, first=0):
    """Weighted mean of the non-missing f(j), first <= j <= i, weights (1-alpha)^(i-j); missing if there is none."""
    def w(j):
        x = num(f(j))
        return num_ite(nanflag(x), num(0.0), ewm_weight(alpha, i, j))
    def wx(j):
        x = num(f(j))
        return num_ite(nanflag(x), num(0.0), ewm_weight(alpha, i, j) * Num(x.real_v))
    s, t = sum_noUnroll(first, i, wx), sum_noUnroll(first, i, w)
    none = none_in(first, i, f)
    return Num(s.v / t.v, none, False)

def none_in(lo, hi, f):
    with bound() as j: e = num(f(j))
    if is_false(nanflag(e)): return simp_b(zi(lo) > zi(hi))
    return b_not(reduce_term('any', lo, hi, lambda j: (b_not(nanflag(num(f(j)))),)))

def sum_noUnroll(lo, hi, f):
    """A sum kept as one term (its terms are defined everywhere)."""
    return Num(reduce_term('sum', lo, hi, lambda j: (num(f(j)).real_v,)))

def ewm_var(i, f, alpha, first=0):
    def w(j):
        return num_ite(nanflag(num(f(j))), num(0.0), ewm_weight(alpha, i, j))
    m = ewm_mean(i, f, alpha, first)
    def wxx(j):
        x = num(f(j)); d = Num(x.real_v) - Num(m.v)
        return num_ite(nanflag(x), num(0.0), ewm_weight(alpha, i, j) * d * d)
    def w2(j):
        q = ewm_weight(alpha, i, j)
        return num_ite(nanflag(num(f(j))), num(0.0), q * q)
    s, t, t2 = sum_noUnroll(first, i, w).v, sum_noUnroll(first, i, wxx).v, sum_noUnroll(first, i, w2).v
    den = s * s - t2
    biased = t / s
    return Num(biased * (s * s / den), b_or(m.nan, simp_b(den <= 0)), False)

def ewm_std(i, f, alpha, first=0): return num_sqrt(ewm_var(i, f, alpha, first))
