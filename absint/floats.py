"""Floating point numbers: an exact rational part with a bound on the accumulated rounding error.

rat(st, v) = (L, d, e) means |v - L/d| <= e, L affine over integer unknowns.  Every operation adds the
rounding error of IEEE double arithmetic (half an ulp), unless its result is known to be exact.
"""
from fractions import Fraction as Q
from math import gcd, isfinite
from .values import *
from . import facts as F

U = Q(1, 2 ** 53)
EXACT = 2 ** 53


def _const(c):
    q = Q(c).limit_denominator(10 ** 9)
    if float(q) != c:
        q = Q(c)
    return q.numerator, q.denominator, abs(Q(c) - q)


def _mag(st, L, d):
    lo, hi = st.facts.bounds(L)
    if lo is None or hi is None:
        return None
    return Q(max(abs(lo), abs(hi)), d)


def _reduce(L, d):
    if L.__class__ is int:
        g = gcd(L, d)
        return L // g, d // g
    g = gcd(d, L.c)
    for _, k in L.ts:
        g = gcd(g, k)
    if g > 1:
        L, d = lin(L.c // g, {t: k // g for t, k in L.ts}), d // g
    return L, d


def _rounded(st, L, d, e):
    """the result of an operation whose exact value is L/d, operands off by e together"""
    L, d = _reduce(L, d)
    m = _mag(st, L, d)
    if m is None:
        return None
    if e == 0 and d & (d - 1) == 0 and m * d < EXACT:
        return L, d, e
    return L, d, e + (m + e) * U


def rat(st, v):
    c = v.__class__
    if c is int or c is bool or c is Lin:
        v = int(v) if c is bool else v
        return _rounded(st, v, 1, Q(0))
    if c is float:
        return _const(v) if isfinite(v) else None
    if c is not Term:
        return None
    if v.ty == 'int':
        return _rounded(st, ivar(v), 1, Q(0))
    op = v.op
    if op == 'tofloat':
        return rat(st, v.args[0])
    if op == 'fneg':
        a = rat(st, v.args[0])
        return a and (lmul(a[0], -1), a[1], a[2])
    if op in ('fadd', 'fsub'):
        a, b = rat(st, v.args[0]), rat(st, v.args[1])
        if a is None or b is None:
            return None
        L = ladd(lmul(a[0], b[1]), lmul(b[0], a[1]), 1 if op == 'fadd' else -1)
        return _rounded(st, L, a[1] * b[1], a[2] + b[2])
    if op == 'fmul':
        a, b = rat(st, v.args[0]), rat(st, v.args[1])
        if a is None or b is None:
            return None
        if b[0].__class__ is not int:
            a, b = b, a
        if b[0].__class__ is not int:
            return None
        ma = _mag(st, a[0], a[1])
        k = Q(b[0], b[1])
        if ma is None:
            return None
        e = a[2] * abs(k) + b[2] * ma + a[2] * b[2]
        return _rounded(st, lmul(a[0], b[0]), a[1] * b[1], e)
    if op in ('fdiv', 'ftruediv'):
        if all(x.__class__ in (int, Lin) for x in v.args):
            a, b = [(x, 1, Q(0)) for x in v.args]     # the quotient of two integers is rounded once
        else:
            a, b = rat(st, v.args[0]), rat(st, v.args[1])
        if a is None or b is None or b[0].__class__ is not int or b[0] == 0 or b[2] != 0:
            return None
        s = 1 if b[0] > 0 else -1
        return _rounded(st, lmul(a[0], b[1] * s), a[1] * abs(b[0]), a[2] * Q(b[1], abs(b[0])))
    return None


def _floor(q):
    return q.numerator // q.denominator


def _around(st, t, L, d, e):
    """t is within one and e of L/d"""
    lo, hi = st.facts.bounds(L)
    if lo is not None:
        _know(st, F.c_le(_floor(Q(lo, d) - e) - 1, t))
    if hi is not None:
        _know(st, F.c_le(t, _floor(Q(hi, d) + e) + 1))


def _know(st, c):
    if c.__class__ is Term:
        st.facts.assume(c, True)


def to_round(st, v):
    """round(v) as an integer, or None"""
    r = rat(st, v)
    if r is None:
        return None
    L, d, e = r
    if d == 1 and e < Q(1, 2):
        return L
    t = ivar(T('round', (v,), 'int'))
    _around(st, t, L, d, e)
    m = _floor(d + 2 * d * e)
    x = ladd(lmul(t, 2 * d), lmul(L, 2), -1)
    _know(st, F.c_le(x, m))
    _know(st, F.c_le(-m, x))
    return t


def to_floor(st, v, exact):
    """floor(v) as an integer, or None; exact(L, d) computes L // d"""
    r = rat(st, v)
    if r is None:
        return None
    L, d, e = r
    if e == 0:
        return exact(L, d)
    t = ivar(T('floor', (v,), 'int'))
    _around(st, t, L, d, e)
    x = ladd(lmul(t, d), L, -1)
    _know(st, F.c_le(x, _floor(d * e)))
    _know(st, F.c_le(_floor(-d * e - d) + 1, x))
    return t


def to_trunc(st, v):
    """int(v) of unknown sign, or None"""
    r = rat(st, v)
    if r is None:
        return None
    L, d, e = r
    t = ivar(T('trunc', (v,), 'int'))
    _around(st, t, L, d, e)
    x = ladd(lmul(t, d), L, -1)
    m = -_floor(-(d + d * e)) - 1
    _know(st, F.c_le(x, m))
    _know(st, F.c_le(-m, x))
    return t


def less(st, a, b):
    """condition a < b: bool, Term, or None if nothing is known"""
    a, b = rat(st, a), rat(st, b)
    if a is None or b is None:
        return None
    D = ladd(lmul(a[0], b[1]), lmul(b[0], a[1]), -1)
    m = (a[2] + b[2]) * a[1] * b[1]
    if m == 0:
        return F.c_lt(D, 0)
    c = F.c_le(D, -_floor(m) - 1)
    if (st.facts.decide(c) if c.__class__ is Term else c) is True:
        return True
    c = F.c_le(-_floor(-m), D)
    if (st.facts.decide(c) if c.__class__ is Term else c) is True:
        return False
    return None


def equal(st, a, b):
    x, y = rat(st, a), rat(st, b)
    if x is not None and y is not None and x[2] == y[2] == 0:
        return F.c_eq_int(lmul(x[0], y[1]), lmul(y[0], x[1]))
    if less(st, a, b) is True or less(st, b, a) is True:
        return False
    return None
