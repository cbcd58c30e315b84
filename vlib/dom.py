"""Scalar value domains for the symbolic interpreters.

Scalars held in numpy object arrays:
  bool   : Python bool            | z3 BoolRef
  int    : Python int             | z3 BitVecRef (int model 'bv') or ArithRef (int model 'int')
  float  : model 'fp'   -> np.float32/np.float64 | z3 FPRef  (bit-exact IEEE, RNE)
           model 'real' -> F(r, nan, pinf, ninf)              (exact reals + IEEE special values)
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from .z3load import z3


class Unsupported(Exception):
    """The encoding cannot represent this construct: the check must not report a verdict."""


# ----------------------------------------------------------------------------- booleans
def is_c(x):
    """Python-level constant?"""
    return isinstance(x, (bool, int, np.bool_, np.integer, np.floating, Fraction))


def b_not(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_xor(a, b):
    ca, cb = isinstance(a, (bool, np.bool_)), isinstance(b, (bool, np.bool_))
    if ca and cb:
        return bool(a) != bool(b)
    if ca:
        return b_not(b) if a else b
    if cb:
        return b_not(a) if b else a
    if a.eq(b):
        return False
    return z3.Xor(a, b)


def b_iff(a, b):
    return b_not(b_xor(a, b))


def b_ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ca, cb = isinstance(a, (bool, np.bool_)), isinstance(b, (bool, np.bool_))
    if ca and cb:
        if bool(a) == bool(b):
            return bool(a)
        return c if a else b_not(c)
    if ca:
        return b_or(c, b) if a else b_and(b_not(c), b)
    if cb:
        return b_or(b_not(c), a) if b else b_and(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def implies(a, b):
    return b_or(b_not(a), b)


def to_z3_bool(x):
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    return x


# ----------------------------------------------------------------------------- reals
def _rz(x):
    """Fraction|ArithRef -> ArithRef"""
    if isinstance(x, Fraction):
        r = _QS.get(x)
        if r is None:
            if len(_QS) > 20000:
                _QS.clear()
            r = _QS[x] = z3.Q(x.numerator, x.denominator)
        return r
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    return x


_QS = {}  # z3 constants of fractions


def _rc(x):
    return isinstance(x, Fraction)


ZERO = Fraction(0)
ONE = Fraction(1)

# terms known to be > 0 / >= 0 (by construction), keyed by z3 ast id; refs kept alive
_POS = {}
_NONNEG = {}


def mark_pos(t):
    _POS[t.get_id()] = t
    return t


def mark_nonneg(t):
    _NONNEG[t.get_id()] = t
    return t


def r_is_pos(x):
    if _rc(x):
        return x > 0
    return x.get_id() in _POS


def r_is_nonneg(x):
    if _rc(x):
        return x >= 0
    return x.get_id() in _POS or x.get_id() in _NONNEG


def r_add(a, b):
    if _rc(a) and _rc(b):
        return a + b
    if _rc(a) and a == 0:
        return b
    if _rc(b) and b == 0:
        return a
    f = _addc(a, b)
    if f is not None:
        return f
    for p, q in ((a, b), (b, a)):
        # (c - t) + t -> c
        if not _rc(p) and not _rc(q) and z3.is_sub(p) and p.num_args() == 2 and p.arg(1).eq(q):
            c = p.arg(0)
            return c.as_fraction() if z3.is_rational_value(c) else c
    t = _rz(a) + _rz(b)
    if r_is_nonneg(a) and r_is_nonneg(b):
        mark_nonneg(t)
        if r_is_pos(a) or r_is_pos(b):
            mark_pos(t)
    return t


def r_neg(a):
    return -a


def r_sub(a, b):
    if _rc(a) and _rc(b):
        return a - b
    if _rc(b) and b == 0:
        return a
    if _rc(a) and a == 0:
        return -_rz(b)
    if not _rc(a) and not _rc(b) and a.eq(b):
        return ZERO
    if _rc(b):
        f = _addc(a, -b)
        if f is not None:
            return f
    return _rz(a) - _rz(b)


def _addc(a, b):
    """(t + c1) + c2 -> t + (c1+c2) for constants."""
    if _rc(a):
        a, b = b, a
    if _rc(a) or not _rc(b):
        return None
    if z3.is_add(a) and a.num_args() == 2:
        for i in (0, 1):
            c = a.arg(i)
            if z3.is_rational_value(c):
                return r_add(a.arg(1 - i), c.as_fraction() + b)
    if z3.is_sub(a) and a.num_args() == 2:
        c = a.arg(1)
        if z3.is_rational_value(c):
            return r_add(a.arg(0), b - c.as_fraction())
    return None


def r_mul(a, b):
    if _rc(a) and _rc(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if _rc(p):
            if p == 0:
                return ZERO
            if p == 1:
                return q
    t = _rz(a) * _rz(b)
    if r_is_nonneg(a) and r_is_nonneg(b):
        mark_nonneg(t)
        if r_is_pos(a) and r_is_pos(b):
            mark_pos(t)
    elif not _rc(a) and not _rc(b) and a.eq(b):
        mark_nonneg(t)
    return t


def r_div(a, b):
    """b is non-zero wherever the result matters."""
    if _rc(a) and _rc(b):
        return a / b if b != 0 else ZERO
    if _rc(b):
        if b == 0:
            return ZERO
        return r_mul(a, ONE / b)
    if _rc(a) and a == 0:
        return ZERO
    if _rc(a) and z3.is_app_of(b, z3.Z3_OP_DIV) and z3.is_rational_value(b.arg(0)):
        # a / (c / y), c / y non-zero here
        c = b.arg(0).as_fraction()
        if c != 0:
            return r_mul(a / c, b.arg(1))
    t = _rz(a) / _rz(b)
    if r_is_nonneg(a) and r_is_pos(b):
        mark_nonneg(t)
        if r_is_pos(a):
            mark_pos(t)
    return t


def r_ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if _rc(a) and _rc(b):
        if a == b:
            return a
    elif not _rc(a) and not _rc(b) and a.eq(b):
        return a
    t = z3.If(c, _rz(a), _rz(b))
    if r_is_nonneg(a) and r_is_nonneg(b):
        mark_nonneg(t)
        if r_is_pos(a) and r_is_pos(b):
            mark_pos(t)
    return t


def r_eq(a, b):
    if _rc(a) and _rc(b):
        return a == b
    if not _rc(a) and not _rc(b) and a.eq(b):
        return True
    if (_rc(a) and a == 0 and r_is_pos(b)) or (_rc(b) and b == 0 and r_is_pos(a)):
        return False
    return _rz(a) == _rz(b)


def r_lt(a, b):
    if _rc(a) and _rc(b):
        return a < b
    if not _rc(a) and not _rc(b) and a.eq(b):
        return False
    if _rc(b) and b == 0 and r_is_nonneg(a):
        return False
    if _rc(a) and a == 0 and r_is_pos(b):
        return True
    return _rz(a) < _rz(b)


def r_le(a, b):
    if _rc(a) and _rc(b):
        return a <= b
    if not _rc(a) and not _rc(b) and a.eq(b):
        return True
    if _rc(a) and a == 0 and r_is_nonneg(b):
        return True
    if _rc(b) and b == 0 and r_is_pos(a):
        return False
    return _rz(a) <= _rz(b)


SIGN_ORACLE = None  # optional callable: may mark a divisor term as strictly positive


class F:
    """Extended real: finite value r unless a flag holds.  At most one flag holds."""

    __slots__ = ("r", "nan", "pinf", "ninf", "logof")

    def __init__(self, r, nan=False, pinf=False, ninf=False, logof=None):
        self.r = r
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.logof = logof

    def is_const(self):
        return (
            _rc(self.r)
            and isinstance(self.nan, bool)
            and isinstance(self.pinf, bool)
            and isinstance(self.ninf, bool)
        )

    @property
    def inf(self):
        return b_or(self.pinf, self.ninf)

    @property
    def finite(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    def const(self):
        if self.nan:
            return math.nan
        if self.pinf:
            return math.inf
        if self.ninf:
            return -math.inf
        return float(self.r)

    # arithmetic sugar for specifications
    def __add__(self, o):
        return f_add(self, f_const(o))

    def __radd__(self, o):
        return f_add(f_const(o), self)

    def __sub__(self, o):
        return f_sub(self, f_const(o))

    def __rsub__(self, o):
        return f_sub(f_const(o), self)

    def __mul__(self, o):
        return f_mul(self, f_const(o))

    def __rmul__(self, o):
        return f_mul(f_const(o), self)

    def __truediv__(self, o):
        return f_div(self, f_const(o))

    def __rtruediv__(self, o):
        return f_div(f_const(o), self)

    def __neg__(self):
        return f_neg(self)

    def __repr__(self):
        return f"F({self.r}, nan={self.nan}, pinf={self.pinf}, ninf={self.ninf})"


def f_const(v):
    if isinstance(v, F):
        return v
    if isinstance(v, Fraction):
        return F(v)
    v = float(v)
    if math.isnan(v):
        return F(ZERO, nan=True)
    if v == math.inf:
        return F(ZERO, pinf=True)
    if v == -math.inf:
        return F(ZERO, ninf=True)
    return F(Fraction(v))


NAN = F(ZERO, nan=True)


def f_add(a, b):
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    pinf = b_and(b_or(a.pinf, b.pinf), b_not(nan))
    ninf = b_and(b_or(a.ninf, b.ninf), b_not(nan))
    return F(r_add(a.r, b.r), nan, pinf, ninf)


def f_neg(a):
    return F(r_neg(a.r), a.nan, a.ninf, a.pinf)


def f_sub(a, b):
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf))
    pinf = b_and(b_or(a.pinf, b.ninf), b_not(nan))
    ninf = b_and(b_or(a.ninf, b.pinf), b_not(nan))
    return F(r_sub(a.r, b.r), nan, pinf, ninf)


def _posf(a):  # strictly positive (incl. +inf); value only meaningful if not nan
    return b_or(a.pinf, b_and(b_not(a.ninf), r_lt(ZERO, a.r)))


def _negf(a):
    return b_or(a.ninf, b_and(b_not(a.pinf), r_lt(a.r, ZERO)))


def _zerof(a):
    return b_and(b_not(a.pinf), b_not(a.ninf), r_eq(a.r, ZERO))


def f_mul(a, b):
    ai, bi = a.inf, b.inf
    if ai is False and bi is False:
        return F(r_mul(a.r, b.r), b_or(a.nan, b.nan))
    anyinf = b_or(ai, bi)
    nan = b_or(a.nan, b.nan, b_and(ai, _zerof(b)), b_and(bi, _zerof(a)))
    same = b_or(b_and(_posf(a), _posf(b)), b_and(_negf(a), _negf(b)))
    pinf = b_and(anyinf, same, b_not(nan))
    ninf = b_and(anyinf, b_not(same), b_not(nan))
    return F(r_mul(a.r, b.r), nan, pinf, ninf)


def f_div(a, b):
    """Zero divisors are taken as +0 (the real model has no -0)."""
    ai, bi = a.inf, b.inf
    if SIGN_ORACLE is not None and not _rc(b.r) and not r_is_pos(b.r):
        SIGN_ORACLE(b.r)
    bz = _zerof(b)
    if bz is False and ai is False and bi is False:
        return F(r_div(a.r, b.r), b_or(a.nan, b.nan))
    nan = b_or(a.nan, b.nan, b_and(ai, bi), b_and(bz, _zerof(a)))
    res_inf = b_and(b_or(ai, bz), b_not(nan))
    # sign: divisor zero counts as positive
    bneg = b_and(b_not(bz), _negf(b))
    aneg = _negf(a)
    neg = b_xor(aneg, bneg)
    pinf = b_and(res_inf, b_not(neg))
    ninf = b_and(res_inf, neg)
    r = r_ite(bi, ZERO, r_div(a.r, b.r))
    return F(r, nan, pinf, ninf)


def f_ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if a is b:
        return a
    return F(
        r_ite(c, a.r, b.r) if not (a.nan is True or b.nan is True) else (b.r if a.nan is True else a.r),
        b_ite(c, a.nan, b.nan),
        b_ite(c, a.pinf, b.pinf),
        b_ite(c, a.ninf, b.ninf),
    )


def f_eq(a, b):
    ok = b_not(b_or(a.nan, b.nan))
    ainf, binf = a.inf, b.inf
    return b_and(
        ok,
        b_or(
            b_and(a.pinf, b.pinf),
            b_and(a.ninf, b.ninf),
            b_and(b_not(ainf), b_not(binf), r_eq(a.r, b.r)),
        ),
    )


def f_lt(a, b):
    ok = b_not(b_or(a.nan, b.nan))
    return b_and(
        ok,
        b_or(
            b_and(a.ninf, b_not(b.ninf)),
            b_and(b.pinf, b_not(a.pinf)),
            b_and(b_not(a.inf), b_not(b.inf), r_lt(a.r, b.r)),
        ),
    )


def f_le(a, b):
    ok = b_not(b_or(a.nan, b.nan))
    return b_and(
        ok,
        b_or(
            a.ninf,
            b.pinf,
            b_and(b_not(a.inf), b_not(b.inf), r_le(a.r, b.r)),
        ),
    )


def _ident(x, y):
    if hasattr(x, "eq") and hasattr(y, "eq"):
        return x.eq(y)
    return not hasattr(x, "eq") and not hasattr(y, "eq") and x == y


def f_same(a, b):
    """Observational equality (NaN same as NaN)."""
    if a is b or all(_ident(x, y) for x, y in ((a.r, b.r), (a.nan, b.nan), (a.pinf, b.pinf), (a.ninf, b.ninf))):
        return True
    return b_or(b_and(a.nan, b.nan), f_eq(a, b))


# ----------------------------------------------------------------------------- fp helpers
def fp_sort(dtype):
    dtype = np.dtype(dtype)
    if dtype == np.float32:
        return z3.Float32()
    if dtype == np.float64:
        return z3.Float64()
    if dtype == np.float16:
        return z3.Float16()
    raise Unsupported(f"float dtype {dtype}")


def fp_val(v, dtype):
    v = np.dtype(dtype).type(v)
    s = fp_sort(dtype)
    if np.isnan(v):
        return z3.fpNaN(s)
    if np.isinf(v):
        return z3.fpPlusInfinity(s) if v > 0 else z3.fpMinusInfinity(s)
    if v == 0 and np.signbit(v):
        return z3.fpMinusZero(s)
    return z3.FPVal(float(v), s)


def fp_z(x, dtype):
    return x if isinstance(x, z3.ExprRef) else fp_val(x, dtype)


RNE = z3.RNE()
