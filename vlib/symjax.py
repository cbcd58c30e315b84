"""Symbolic interpreter of jaxprs: the real wax code is traced by JAX on every run and the resulting
program is executed over z3 terms.

Data-movement primitives are not re-modelled: the real JAX primitive is run on an array of element
ids and the permutation it produces is applied to the symbolic elements.
"""
from __future__ import annotations

import functools
import itertools
import math
import os
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
from jax.extend import core as jex_core

from . import dom
from .dom import F, Unsupported, b_and, b_ite, b_not, b_or, b_xor
from .z3load import z3


class SymArr:
    """Array with (some) symbolic elements."""

    __slots__ = ("a", "dtype")

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = np.dtype(dtype)

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    def __getitem__(self, i):
        r = self.a[i]
        if not isinstance(r, np.ndarray):
            r0 = np.empty((), dtype=object)
            r0[()] = r
            r = r0
        return SymArr(r, self.dtype)

    def __repr__(self):
        return f"SymArr({self.dtype}, {self.a.tolist()})"


# SymArr is a pytree leaf by default.


def obj(shape):
    return np.empty(shape, dtype=object)


def kind(dtype):
    dt = np.dtype(dtype)
    if dt == np.bool_:
        return "b"
    if dt.kind in "iu":
        return "i"
    if dt.kind == "f" or dt.name == "bfloat16":
        return "f"
    raise Unsupported(f"dtype {dt}")


MOVEMENT = {
    "broadcast_in_dim", "reshape", "squeeze", "expand_dims", "transpose", "rev", "slice",
    "copy", "copy_p", "stop_gradient", "device_put", "sharding_constraint", "optimization_barrier",
    "pvary", "layout_constraint",
}
IDENT = {
    "copy", "copy_p", "stop_gradient", "device_put", "sharding_constraint",
    "optimization_barrier", "reduce_precision", "pvary", "layout_constraint", "mhlo.optimization_barrier",
    "name", "convert_element_type_noop",
}


class Interp:
    """floats: 'fp' | 'real';  ints: 'bv' | 'int'."""

    def __init__(self, floats="real", ints=None):
        self.floats = floats
        self.ints = ints or ("bv" if floats == "fp" else "int")
        self.side = []  # definitional constraints (always added to queries)
        self.sentinels = []  # (concrete array, SymArr it stands for)
        self.sentinel_hits = set()
        self.sentinel_elems = {}  # (kind, concrete value) -> scalar it stands for (data moved element by element by host code)
        self.funcs = {}
        self.prims = {}
        self.n_eqns = 0
        self.notes = set()
        self.traced = 0
        self._fresh = itertools.count()

    # ------------------------------------------------------------------ scalars
    def fresh_name(self, p="k"):
        return f"{p}!{next(self._fresh)}"

    def sym(self, name, shape=(), dtype=np.float32, nan=True, inf=False, pos=False, nonneg=False):
        """Fresh symbolic array. Real model: nan/inf say which special values are admitted."""
        dtype = np.dtype(dtype)
        out = obj(shape)
        for ix in np.ndindex(*shape):
            nm = name + "".join(f"_{i}" for i in ix)
            out[ix] = self.sym_scalar(nm, dtype, nan, inf, pos, nonneg)
        return SymArr(out, dtype)

    def sym_scalar(self, nm, dtype, nan=True, inf=False, pos=False, nonneg=False):
        k = kind(dtype)
        if k == "b":
            return z3.Bool(nm)
        if k == "i":
            if self.ints == "bv":
                return z3.BitVec(nm, dtype.itemsize * 8)
            v = z3.Int(nm)
            ii = np.iinfo(dtype)
            self.side.append(z3.And(v >= int(ii.min), v <= int(ii.max)))
            return v
        if self.floats == "fp":
            return z3.FP(nm, dom.fp_sort(dtype))
        r = z3.Real(nm)
        if pos:
            dom.mark_pos(r)
            self.side.append(r > 0)
        elif nonneg:
            dom.mark_nonneg(r)
            self.side.append(r >= 0)
        fn = z3.Bool(nm + ".nan") if nan else False
        pi = ni = False
        if inf:
            pi, ni = z3.Bool(nm + ".pinf"), z3.Bool(nm + ".ninf")
            self.side.append(z3.Not(z3.And(pi, ni)))
            if nan:
                self.side.append(z3.Not(z3.And(fn, z3.Or(pi, ni))))
        return F(r, fn, pi, ni)

    def lift_scalar(self, v, dtype):
        k = kind(dtype)
        if k == "b":
            return bool(v)
        if k == "i":
            return int(v)
        if self.floats == "fp":
            return np.dtype(dtype).type(v)
        return dom.f_const(v)

    def lift(self, x):
        """any -> SymArr"""
        if isinstance(x, SymArr):
            return x
        if not isinstance(x, np.ndarray):
            x = np.asarray(x)
        out = obj(x.shape)
        for ix in np.ndindex(*x.shape):
            out[ix] = self.lift_scalar(x[ix], x.dtype)
        return SymArr(out, x.dtype)

    def scalar_const(self, s, dtype):
        """Python value if the scalar is constant, else None."""
        k = kind(dtype)
        if k == "b":
            return bool(s) if isinstance(s, (bool, np.bool_)) else None
        if k == "i":
            return int(s) if isinstance(s, (int, np.integer)) else None
        if self.floats == "fp":
            return s if isinstance(s, np.floating) else None
        if s.is_const():
            return s.const()
        return None

    def concretize(self, x):
        """SymArr with only constants -> np array, else None."""
        if not isinstance(x, SymArr):
            return x
        out = np.empty(x.shape, x.dtype)
        for ix in np.ndindex(*x.shape):
            c = self.scalar_const(x.a[ix], x.dtype)
            if c is None:
                return None
            out[ix] = c
        return out

    def norm(self, x):
        """Turn all-constant int/bool (and, in the fp model, float) SymArr into concrete arrays."""
        if isinstance(x, SymArr) and not (kind(x.dtype) == "f" and self.floats == "real"):
            c = self.concretize(x)
            if c is not None:
                return c
        return x

    # integers -------------------------------------------------------------------
    def wrap(self, v, dtype):
        ii = np.iinfo(dtype)
        n = dtype.itemsize * 8
        v &= (1 << n) - 1
        if ii.min < 0 and v >= 1 << (n - 1):
            v -= 1 << n
        return v

    def iz(self, x, dtype):
        if isinstance(x, (int, np.integer)):
            if self.ints == "bv":
                return z3.BitVecVal(int(x), dtype.itemsize * 8)
            return z3.IntVal(int(x))
        return x

    def i_bin(self, op, a, b, dtype):
        signed = dtype.kind == "i"
        if dom.is_c(a) and dom.is_c(b):
            a, b = int(a), int(b)
            if op == "add":
                return self.wrap(a + b, dtype)
            if op == "sub":
                return self.wrap(a - b, dtype)
            if op == "mul":
                return self.wrap(a * b, dtype)
            if op == "div":
                if b == 0:
                    return self.wrap(-1, dtype)
                q = abs(a) // abs(b)
                return self.wrap(q if (a < 0) == (b < 0) else -q, dtype)
            if op == "rem":
                if b == 0:
                    return a
                r = abs(a) % abs(b)
                return -r if a < 0 else r
            if op == "max":
                return max(a, b)
            if op == "min":
                return min(a, b)
        za, zb = self.iz(a, dtype), self.iz(b, dtype)
        bv = self.ints == "bv"
        if op == "add":
            if dom.is_c(a) and a == 0:
                return b
            if dom.is_c(b) and b == 0:
                return a
            return za + zb
        if op == "sub":
            if dom.is_c(b) and b == 0:
                return a
            return za - zb
        if op == "mul":
            return za * zb
        if op in ("max", "min"):
            c = self.i_cmp("lt", a, b, dtype)
            return self.ite(c, b, a, dtype) if op == "max" else self.ite(c, a, b, dtype)
        if op == "div":
            if bv:
                return (za / zb) if signed else z3.UDiv(za, zb)
            q = z3.If(za >= 0, za, -za) / z3.If(zb >= 0, zb, -zb)
            return z3.If((za < 0) == (zb < 0), q, -q)
        if op == "rem":
            if bv:
                return z3.SRem(za, zb) if signed else z3.URem(za, zb)
            m = z3.If(za >= 0, za, -za) % z3.If(zb >= 0, zb, -zb)
            return z3.If(za < 0, -m, m)
        raise Unsupported("int op " + op)

    def i_cmp(self, op, a, b, dtype):
        if dom.is_c(a) and dom.is_c(b):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
        za, zb = self.iz(a, dtype), self.iz(b, dtype)
        if op == "eq":
            return True if za.eq(zb) else za == zb
        if op == "ne":
            return False if za.eq(zb) else za != zb
        if self.ints == "bv" and dtype.kind == "u":
            return {"lt": z3.ULT, "le": z3.ULE, "gt": z3.UGT, "ge": z3.UGE}[op](za, zb)
        return {"lt": za < zb, "le": za <= zb, "gt": za > zb, "ge": za >= zb}[op]

    # generic --------------------------------------------------------------------
    def ite(self, c, a, b, dtype):
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        if a is b:
            return a
        k = kind(dtype)
        if k == "b":
            return b_ite(c, a, b)
        if k == "i":
            if dom.is_c(a) and dom.is_c(b) and int(a) == int(b):
                return a
            za, zb = self.iz(a, dtype), self.iz(b, dtype)
            if za.eq(zb):
                return a
            return z3.If(c, za, zb)
        if self.floats == "fp":
            za, zb = dom.fp_z(a, dtype), dom.fp_z(b, dtype)
            if za.eq(zb):
                return a
            return z3.If(c, za, zb)
        return dom.f_ite(c, a, b)

    def cmp(self, op, a, b, dtype):
        k = kind(dtype)
        if k == "i":
            return self.i_cmp(op, a, b, dtype)
        if k == "b":
            if op == "eq":
                return b_not(b_xor(a, b))
            if op == "ne":
                return b_xor(a, b)
            if op == "lt":
                return b_and(b_not(a), b)
            if op == "gt":
                return b_and(a, b_not(b))
            if op == "le":
                return b_or(b_not(a), b)
            return b_or(a, b_not(b))
        if self.floats == "fp":
            if isinstance(a, np.floating) and isinstance(b, np.floating):
                with np.errstate(all="ignore"):
                    return bool(
                        {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
                    )
            za, zb = dom.fp_z(a, dtype), dom.fp_z(b, dtype)
            if op == "eq":
                if za.eq(zb):
                    return z3.Not(z3.fpIsNaN(za))
                return z3.fpEQ(za, zb)
            if op == "ne":
                if za.eq(zb):
                    return z3.fpIsNaN(za)
                return z3.Not(z3.fpEQ(za, zb))
            return {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[op](za, zb)
        if op == "eq":
            return dom.f_eq(a, b)
        if op == "ne":
            return b_not(dom.f_eq(a, b))
        if op == "lt":
            return dom.f_lt(a, b)
        if op == "le":
            return dom.f_le(a, b)
        if op == "gt":
            return dom.f_lt(b, a)
        return dom.f_le(b, a)

    def isnan(self, a, dtype):
        if kind(dtype) != "f":
            return False
        if self.floats == "fp":
            if isinstance(a, np.floating):
                return bool(np.isnan(a))
            return z3.fpIsNaN(a)
        return a.nan

    def same(self, a, b, dtype):
        """Observational equality of two scalars (NaN == NaN; fp: bit identity up to NaN payload)."""
        k = kind(dtype)
        if k == "b":
            return b_not(b_xor(a, b))
        if k == "i":
            return self.i_cmp("eq", a, b, np.dtype(dtype))
        if self.floats == "fp":
            if isinstance(a, np.floating) and isinstance(b, np.floating):
                return bool(
                    (np.isnan(a) and np.isnan(b))
                    or (a == b and np.signbit(a) == np.signbit(b))
                )
            za, zb = dom.fp_z(a, dtype), dom.fp_z(b, dtype)
            return True if za.eq(zb) else za == zb
        return dom.f_same(a, b)

    def f_bin(self, op, a, b, dtype):
        if self.floats == "fp":
            if isinstance(a, np.floating) and isinstance(b, np.floating):
                with np.errstate(all="ignore"):
                    t = np.dtype(dtype).type
                    if op == "add":
                        return t(a + b)
                    if op == "sub":
                        return t(a - b)
                    if op == "mul":
                        return t(a * b)
                    if op == "div":
                        return t(np.divide(a, b))
                    if op == "max":
                        return t(np.maximum(a, b))
                    if op == "min":
                        return t(np.minimum(a, b))
                    if op == "rem":
                        return t(np.fmod(a, b))
            if op in ("max", "min"):
                n = b_or(self.isnan(a, dtype), self.isnan(b, dtype))
                c = self.cmp("gt" if op == "max" else "lt", a, b, dtype)
                r = self.ite(c, a, b, dtype)
                return self.ite(n, np.dtype(dtype).type(np.nan), r, dtype)
            za, zb = dom.fp_z(a, dtype), dom.fp_z(b, dtype)
            f = {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}.get(op)
            if f is None:
                raise Unsupported("fp op " + op)
            return f(dom.RNE, za, zb)
        if op == "add":
            return dom.f_add(a, b)
        if op == "sub":
            return dom.f_sub(a, b)
        if op == "mul":
            return dom.f_mul(a, b)
        if op == "div":
            return dom.f_div(a, b)
        if op in ("max", "min"):
            n = b_or(a.nan, b.nan)
            c = dom.f_lt(b, a) if op == "max" else dom.f_lt(a, b)
            r = dom.f_ite(c, a, b)
            return F(r.r, n, b_and(r.pinf, b_not(n)), b_and(r.ninf, b_not(n)))
        if op == "rem":
            if a.is_const() and b.is_const():
                with np.errstate(all="ignore"):
                    return dom.f_const(np.fmod(a.const(), b.const()))
        raise Unsupported("real op " + op)

    # transcendental functions in the real model --------------------------------------
    def uf(self, name, t):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
        return f(dom._rz(t))

    def r_un(self, op, a, dtype):
        if a.is_const() and op not in ("exp", "log", "sqrt", "exp2", "log1p", "expm1"):
            return dom.f_const(_np_un(op, a.const(), dtype))
        if op == "exp":
            if a.logof is not None:
                return a.logof
            if a.is_const():
                if a.nan or a.pinf or a.ninf or a.r == 0:
                    return dom.f_const(np.exp(a.const()))
            t = self.uf("exp", a.r)
            dom.mark_pos(t)
            self.side.append(t > 0)
            r = dom.r_ite(a.ninf, dom.ZERO, t)
            if a.ninf is not False:
                dom.mark_nonneg(r) if isinstance(r, z3.ExprRef) else None
            return F(r, a.nan, a.pinf, False)
        if op == "log":
            if a.is_const() and (a.nan or a.pinf or a.ninf or a.r <= 0 or a.r == 1):
                with np.errstate(all="ignore"):
                    return dom.f_const(np.log(a.const()))
            if dom.SIGN_ORACLE is not None and not dom._rc(a.r) and not dom.r_is_nonneg(a.r):
                dom.SIGN_ORACLE(a.r, False)
            zero = b_and(b_not(a.nan), dom._zerof(a))
            neg = b_and(b_not(a.nan), dom._negf(a))
            t = self.uf("log", a.r)
            keep = a if neg is False else F(a.r, b_or(a.nan, neg), b_and(a.pinf, b_not(neg)), False)
            return F(t, b_or(a.nan, neg), a.pinf, zero, logof=keep)
        if op == "sqrt":
            if a.is_const():
                if a.nan or a.pinf or a.ninf or a.r <= 0:
                    with np.errstate(all="ignore"):
                        return dom.f_const(np.sqrt(a.const()))
                n, d = a.r.numerator, a.r.denominator
                if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                    return F(Fraction(math.isqrt(n), math.isqrt(d)))
            t = self.uf("sqrt", a.r)
            self.side.append(
                z3.Implies(dom._rz(a.r) >= 0, z3.And(t >= 0, t * t == dom._rz(a.r)))
            )
            neg = b_and(b_not(a.nan), dom._negf(a))
            if a.pinf is False and (dom.r_is_nonneg(a.r)):
                dom.mark_nonneg(t)
                if dom.r_is_pos(a.r):
                    dom.mark_pos(t)
                    self.side.append(t > 0)
            return F(t, b_or(a.nan, neg), a.pinf, False)
        if op == "logistic":
            t = self.uf("logistic", a.r)
            dom.mark_pos(t)
            self.side.append(z3.And(t > 0, t < 1))
            r = dom.r_ite(a.ninf, dom.ZERO, dom.r_ite(a.pinf, dom.ONE, t))
            return F(r, a.nan)
        if op == "tanh":
            t = self.uf("tanh", a.r)
            self.side.append(z3.And(t > -1, t < 1))
            r = dom.r_ite(a.ninf, -dom.ONE, dom.r_ite(a.pinf, dom.ONE, t))
            return F(r, a.nan)
        if op in ("sin", "cos", "erf", "tan", "atan"):
            t = self.uf(op, a.r)
            return F(t, b_or(a.nan, a.inf))
        if op == "log1p":
            return self.r_un("log", dom.f_add(dom.f_const(1.0), a), dtype)
        if op == "expm1":
            return dom.f_sub(self.r_un("exp", a, dtype), dom.f_const(1.0))
        if op == "floor":
            return F(z3.ToReal(z3.ToInt(dom._rz(a.r))), a.nan, a.pinf, a.ninf)
        if op == "ceil":
            return F(-z3.ToReal(z3.ToInt(-dom._rz(a.r))), a.nan, a.pinf, a.ninf)
        raise Unsupported("real unary " + op)

    def unary(self, op, a, dtype):
        k = kind(dtype)
        if k == "b":
            if op in ("not",):
                return b_not(a)
            raise Unsupported("bool unary " + op)
        if k == "i":
            if op == "neg":
                return self.i_bin("sub", 0, a, dtype)
            if op == "abs":
                if dom.is_c(a):
                    return abs(a)
                if dtype.kind == "u":
                    return a
                return self.ite(self.i_cmp("lt", a, 0, dtype), self.i_bin("sub", 0, a, dtype), a, dtype)
            if op == "sign":
                return self.ite(
                    self.i_cmp("lt", a, 0, dtype), -1,
                    self.ite(self.i_cmp("eq", a, 0, dtype), 0, 1, dtype), dtype,
                )
            if op == "not":
                if dom.is_c(a):
                    return self.wrap(~a, dtype)
                if self.ints == "bv":
                    return ~a
            if op in ("floor", "ceil", "round"):
                return a
            raise Unsupported("int unary " + op)
        if self.floats == "fp":
            if isinstance(a, np.floating):
                return np.dtype(dtype).type(_np_un(op, a, dtype))
            if op == "neg":
                return z3.fpNeg(a)
            if op == "abs":
                return z3.fpAbs(a)
            if op == "sqrt":
                return z3.fpSqrt(dom.RNE, a)
            if op == "floor":
                return z3.fpRoundToIntegral(z3.RTN(), a)
            if op == "ceil":
                return z3.fpRoundToIntegral(z3.RTP(), a)
            if op == "sign":
                t = np.dtype(dtype).type
                return self.ite(
                    z3.fpIsNaN(a), a,
                    self.ite(z3.fpIsZero(a), a, self.ite(z3.fpIsNegative(a), t(-1), t(1), dtype), dtype),
                    dtype,
                )
            raise Unsupported("fp unary " + op)
        if op == "neg":
            return dom.f_neg(a)
        if op == "abs":
            return dom.f_ite(dom._negf(a), dom.f_neg(a), F(a.r, a.nan, a.pinf, a.ninf))
        if op == "sign":
            if a.is_const():
                return dom.f_const(np.sign(a.const()))
            r = dom.r_ite(dom._negf(a), -dom.ONE, dom.r_ite(dom._zerof(a), dom.ZERO, dom.ONE))
            return F(r, a.nan)
        if op == "square":
            return dom.f_mul(a, a)
        if op == "rsqrt":
            return dom.f_div(dom.f_const(1.0), self.r_un("sqrt", a, dtype))
        return self.r_un(op, a, dtype)

    def convert(self, a, src, dst):
        src, dst = np.dtype(src), np.dtype(dst)
        ks, kd = kind(src), kind(dst)
        if src == dst:
            return a
        if kd == "b":
            if ks == "b":
                return a
            if ks == "i":
                return self.i_cmp("ne", a, 0, src)
            return b_not(self.cmp("eq", a, self.lift_scalar(0.0, src), src))
        if ks == "b":
            one, zero = self.lift_scalar(1, dst), self.lift_scalar(0, dst)
            return self.ite(a, one, zero, dst)
        if ks == "i" and kd == "i":
            if dom.is_c(a):
                return self.wrap(int(a), dst)
            if self.ints == "bv":
                ns, nd = src.itemsize * 8, dst.itemsize * 8
                if nd == ns:
                    return a
                if nd < ns:
                    return z3.Extract(nd - 1, 0, a)
                return z3.SignExt(nd - ns, a) if src.kind == "i" else z3.ZeroExt(nd - ns, a)
            si, di = np.iinfo(src), np.iinfo(dst)
            if di.min <= si.min and di.max >= si.max:
                return a
            n = 1 << (dst.itemsize * 8)
            m = a % n
            if dst.kind == "i":
                return z3.If(m >= n // 2, m - n, m)
            return m
        if ks == "i" and kd == "f":
            if dom.is_c(a):
                return self.lift_scalar(int(a), dst)
            if self.floats == "fp":
                if self.ints != "bv":
                    raise Unsupported("int->fp with int model")
                s = dom.fp_sort(dst)
                return (
                    z3.fpSignedToFP(dom.RNE, a, s) if src.kind == "i" else z3.fpUnsignedToFP(dom.RNE, a, s)
                )
            if self.ints == "bv":
                return F(z3.ToReal(z3.BV2Int(a, is_signed=src.kind == "i")))
            return F(z3.ToReal(a))
        if ks == "f" and kd == "f":
            if self.floats == "real":
                return a
            if isinstance(a, np.floating):
                return dst.type(a)
            return z3.fpToFP(dom.RNE, a, dom.fp_sort(dst))
        if ks == "f" and kd == "i":
            c = self.scalar_const(a, src)
            if c is not None:
                return int(np.asarray(lax.convert_element_type(np.asarray(c, src), dst)))
            if self.floats == "fp":
                if self.ints == "bv":
                    n = dst.itemsize * 8
                    self.notes.add("float->int conversion assumed in range")
                    return (
                        z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(n))
                        if dst.kind == "i"
                        else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(n))
                    )
                raise Unsupported("fp->int")
            r = dom._rz(a.r)
            if self.ints == "int":
                self.notes.add("float->int conversion assumed in range")
                t = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
                return self.ite(a.nan, 0, t, dst)
        raise Unsupported(f"convert {src}->{dst}")

    def bitop(self, op, a, b, dtype):
        k = kind(dtype)
        if k == "b":
            return {"and": b_and, "or": b_or, "xor": b_xor}[op](a, b)
        if dom.is_c(a) and dom.is_c(b):
            return self.wrap({"and": int(a) & int(b), "or": int(a) | int(b), "xor": int(a) ^ int(b)}[op], dtype)
        if self.ints != "bv":
            raise Unsupported("bit op in int model")
        za, zb = self.iz(a, dtype), self.iz(b, dtype)
        return {"and": za & zb, "or": za | zb, "xor": za ^ zb}[op]

    # ------------------------------------------------------------------ array helpers
    def map1(self, f, x, out_dtype):
        x = self.lift(x)
        out = obj(x.shape)
        xf, of = x.a.reshape(-1), out.reshape(-1)
        for i in range(xf.size):
            of[i] = f(xf[i])
        return SymArr(of.reshape(x.shape), out_dtype)

    def map2(self, f, x, y, out_dtype):
        x, y = self.lift(x), self.lift(y)
        xa, ya = np.broadcast_arrays(x.a, y.a)
        out = obj(xa.shape)
        for ix in np.ndindex(*xa.shape):
            out[ix] = f(xa[ix], ya[ix])
        return SymArr(out, out_dtype)

    def ids_apply(self, x, f):
        """Apply data-movement function f (on arrays) through element ids."""
        x = self.lift(x)
        ids = np.arange(x.size, dtype=np.int32).reshape(x.shape)
        out_ids = np.asarray(f(ids))
        flat = x.a.reshape(-1)
        out = obj(out_ids.shape)
        for ix in np.ndindex(*out_ids.shape):
            out[ix] = flat[out_ids[ix]]
        return SymArr(out, x.dtype)

    # ------------------------------------------------------------------ jaxpr evaluation
    def call(self, fn, *args, **kwargs):
        """Trace fn on the (pytree) args and interpret it symbolically."""
        flat, tree = jax.tree_util.tree_flatten((args, kwargs))
        sds = []
        for a in flat:
            if isinstance(a, SymArr):
                sds.append(jax.ShapeDtypeStruct(a.shape, a.dtype))
            elif isinstance(a, (bool, int, float)):
                sds.append(a)
            else:
                sds.append(a)
        out_tree_box = []

        def flat_fn(*fl):
            aa, kk = jax.tree_util.tree_unflatten(tree, fl)
            out = fn(*aa, **kk)
            of, ot = jax.tree_util.tree_flatten(out)
            out_tree_box.append(ot)
            return of

        closed = jax.make_jaxpr(flat_fn)(*sds)
        self.traced += 1
        vals = []
        for a, v in zip(flat, closed.jaxpr.invars):
            if isinstance(a, SymArr):
                vals.append(a)
            else:
                vals.append(self._conc(a, v.aval))
        outs = self.eval_closed(closed, vals)
        return jax.tree_util.tree_unflatten(out_tree_box[-1], outs)

    def compile(self, fn):
        """Return symbolic version of fn with the jaxpr cached per input signature."""
        cache = {}

        def run(*args):
            flat, tree = jax.tree_util.tree_flatten(args)
            sds = [
                jax.ShapeDtypeStruct(a.shape, a.dtype) if isinstance(a, SymArr) else jnp.asarray(a)
                for a in flat
            ]
            key = (tree, tuple((s.shape, str(s.dtype)) for s in sds))
            if key not in cache:
                box = []

                def flat_fn(*fl):
                    out = fn(*jax.tree_util.tree_unflatten(tree, fl))
                    of, ot = jax.tree_util.tree_flatten(out)
                    box.append(ot)
                    return of

                cache[key] = (
                    jax.make_jaxpr(flat_fn)(*[jax.ShapeDtypeStruct(s.shape, s.dtype) for s in sds]),
                    box,
                )
                self.traced += 1
            closed, box = cache[key]
            vals = [
                a if isinstance(a, SymArr) else self._conc(a, v.aval)
                for a, v in zip(flat, closed.jaxpr.invars)
            ]
            outs = self.eval_closed(closed, vals)
            return jax.tree_util.tree_unflatten(box[-1], outs)

        return run

    def _conc(self, a, aval):
        if jax.dtypes.issubdtype(aval.dtype, jax.dtypes.prng_key):
            return a
        return np.asarray(a, dtype=aval.dtype)

    def eval_closed(self, closed, args):
        return self.eval_jaxpr(closed.jaxpr, closed.consts, args)

    def sentinel(self, c):
        """Constants equal to a registered sentinel array stand for symbolic data."""
        if self.sentinels and isinstance(c, np.ndarray):
            for key, sym in self.sentinels:
                if key.shape == c.shape and key.dtype == c.dtype and np.array_equal(key, c):
                    self.sentinel_hits.add(id(sym))
                    return sym
        if self.sentinel_elems and isinstance(c, np.ndarray) and c.dtype.kind in "fi" and c.size:
            k = c.dtype.kind
            vals = [v.item() for v in c.reshape(-1)]
            known = [(k, v) in self.sentinel_elems for v in vals]
            if any(known) and all(f or v != v for f, v in zip(known, vals)):
                flat = obj((len(vals),))
                for i, v in enumerate(vals):
                    if known[i]:
                        flat[i] = self.sentinel_elems[k, v]
                        self.sentinel_hits.add((k, v))
                    else:
                        flat[i] = self.lift_scalar(c.reshape(-1)[i], c.dtype)
                return SymArr(flat.reshape(c.shape), c.dtype)
        return c

    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jex_core.Literal):
                return self.sentinel(np.asarray(v.val, dtype=v.aval.dtype))
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if isinstance(c, SymArr) else self.sentinel(self._conc(c, v.aval))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eval_eqn(eqn, ins)
            if not eqn.primitive.multiple_results:
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ == "DropVar":
                    continue
                o = self.norm(o)
                want = getattr(v.aval, "shape", None)
                if isinstance(o, SymArr) and want is not None and o.shape != tuple(want):
                    raise Unsupported(
                        f"shape mismatch in encoding of {eqn.primitive.name}: {o.shape} vs {want}"
                    )
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def bind(self, eqn, ins):
        subfuns, params = eqn.primitive.get_bind_params(eqn.params)
        with jax.disable_jit(False):
            out = eqn.primitive.bind(*subfuns, *[jnp.asarray(x) if isinstance(x, np.ndarray) else x for x in ins], **params)
        if eqn.primitive.multiple_results:
            return [self._np(o) for o in out]
        return self._np(out)

    def _np(self, o):
        if jax.dtypes.issubdtype(o.dtype, jax.dtypes.prng_key):
            return o
        return np.asarray(o)

    def eval_eqn(self, eqn, ins):
        name = eqn.primitive.name
        self.n_eqns += 1
        self.prims[name] = self.prims.get(name, 0) + 1
        p = eqn.params
        conc = all(not isinstance(x, SymArr) for x in ins)
        # ---- higher order
        if name in HIGHER:
            return getattr(self, "ho_" + HIGHER[name])(eqn, ins)
        if conc:
            floats = any(
                getattr(getattr(v, "aval", None), "dtype", None) is not None
                and not jax.dtypes.issubdtype(v.aval.dtype, jax.dtypes.prng_key)
                and np.dtype(v.aval.dtype).kind == "f"
                for v in list(eqn.invars) + list(eqn.outvars)
            )
            if (
                self.floats == "fp"
                or not floats
                or name in MOVEMENT
                or name in ("concatenate", "gather", "select_n", "iota", "pad", "dynamic_slice",
                            "dynamic_update_slice", "scatter", "convert_element_type", "random_bits")
                or name not in EXACT
            ):
                return self.bind(eqn, ins)
        f = getattr(self, "p_" + name.replace("-", "_"), None)
        if f is not None:
            return f(eqn, ins, **p)
        if name in BIN:
            op = BIN[name]
            dt = np.dtype(eqn.invars[0].aval.dtype)
            if kind(dt) == "i":
                return self.map2(lambda a, b: self.i_bin(op, a, b, dt), *ins, dt)
            if kind(dt) == "b":
                if op in ("max", "min"):
                    return self.map2(b_or if op == "max" else b_and, *ins, dt)
                raise Unsupported("bool " + op)
            return self.map2(lambda a, b: self.f_bin(op, a, b, dt), *ins, dt)
        if name in CMP:
            dt = np.dtype(eqn.invars[0].aval.dtype)
            return self.map2(lambda a, b: self.cmp(CMP[name], a, b, dt), *ins, np.bool_)
        if name in UN:
            dt = np.dtype(eqn.invars[0].aval.dtype)
            return self.map1(lambda a: self.unary(UN[name], a, dt), ins[0], dt)
        if name in ("and", "or", "xor"):
            dt = np.dtype(eqn.invars[0].aval.dtype)
            return self.map2(lambda a, b: self.bitop(name, a, b, dt), *ins, dt)
        if name in MOVEMENT and name not in IDENT:
            return self.ids_apply(ins[0], lambda ids: eqn.primitive.bind(jnp.asarray(ids), **p))
        if name in IDENT:
            if eqn.primitive.multiple_results:
                return list(ins)
            return ins[0]
        # constant SymArr args (real model): fall back to a float evaluation
        cs = [self.concretize(x) for x in ins]
        if all(c is not None for c in cs):
            self.notes.add(f"primitive {name} on constants evaluated in floating point")
            return self.bind(eqn, cs)
        raise Unsupported("primitive " + name)

    # ------------------------------------------------------------------ higher-order
    def ho_call(self, eqn, ins):
        j = None
        for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
            if k in eqn.params:
                j = eqn.params[k]
                break
        if j is None:
            raise Unsupported("call without jaxpr: " + eqn.primitive.name)
        nm = str(eqn.params.get("name", ""))
        if nm in RANDOM_NAMES and all(not isinstance(x, SymArr) for x in ins):
            return self.bind(eqn, ins)
        consts = []
        if hasattr(j, "consts"):
            consts, j = j.consts, j.jaxpr
        return self.eval_jaxpr(j, consts, ins)

    def ho_scan(self, eqn, ins):
        p = eqn.params
        nc, ncar, L, rev = p["num_consts"], p["num_carry"], p["length"], p["reverse"]
        closed = p["jaxpr"]
        consts, carry, xs = ins[:nc], list(ins[nc : nc + ncar]), ins[nc + ncar :]
        n_y = len(closed.jaxpr.outvars) - ncar
        ys = [[None] * L for _ in range(n_y)]
        order = range(L - 1, -1, -1) if rev else range(L)
        for i in order:
            xi = [x[i] if isinstance(x, SymArr) else x[i] for x in xs]
            outs = self.eval_closed(closed, [*consts, *carry, *xi])
            carry = outs[:ncar]
            for j in range(n_y):
                ys[j][i] = outs[ncar + j]
        res = list(carry)
        for j in range(n_y):
            av = eqn.outvars[ncar + j].aval
            if L == 0:
                res.append(np.zeros(av.shape, av.dtype))
            elif all(not isinstance(y, SymArr) for y in ys[j]):
                if jax.dtypes.issubdtype(av.dtype, jax.dtypes.prng_key):
                    res.append(jnp.stack(ys[j]))
                else:
                    res.append(np.stack([np.asarray(y, av.dtype) for y in ys[j]]))
            else:
                res.append(SymArr(_ostack([self.lift(y).a for y in ys[j]]), av.dtype))
        return res

    def ho_while(self, eqn, ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, carry = ins[:cn], ins[cn : cn + bn], list(ins[cn + bn :])
        guard = True
        done = []  # (cond, carry)
        for it in range(100000):
            c = self.eval_closed(p["cond_jaxpr"], [*cc, *carry])[0]
            c = self.lift(c).a[()] if isinstance(c, SymArr) else bool(c)
            if isinstance(c, (bool, np.bool_)):
                if not c:
                    break
            else:
                if it > WHILE_BOUND:
                    raise Unsupported("while loop: unrolling bound exceeded")
                s = z3.Solver()
                s.add(*self.side)
                s.add(dom.to_z3_bool(guard), c)
                if s.check() == z3.unsat:
                    break
                done.append((b_not(c), list(carry)))
                guard = b_and(guard, c)
            carry = self.eval_closed(p["body_jaxpr"], [*bc, *carry])
        for cnd, car in reversed(done):
            carry = [self.merge(cnd, a, b) for a, b in zip(car, carry)]
        return carry

    def ho_cond(self, eqn, ins):
        idx, ops = ins[0], ins[1:]
        branches = eqn.params["branches"]
        if not isinstance(idx, SymArr):
            i = int(np.clip(int(idx), 0, len(branches) - 1))
            return self.eval_closed(branches[i], ops)
        s = idx.a[()]
        dt = idx.dtype
        outs = [self.eval_closed(b, ops) for b in branches]
        res = outs[-1]
        if kind(dt) == "b":
            return [self.merge(s, t, f) for t, f in zip(outs[1], outs[0])]
        for i in range(len(branches) - 2, -1, -1):
            c = self.i_cmp("le" if i == 0 else "eq", s, i, dt)
            res = [self.merge(c, a, b) for a, b in zip(outs[i], res)]
        return res

    def merge(self, c, a, b):
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        if not isinstance(a, SymArr) and not isinstance(b, SymArr):
            if jax.dtypes.issubdtype(getattr(a, "dtype", np.dtype(float)), jax.dtypes.prng_key):
                raise Unsupported("symbolic choice of PRNG key")
            if a.dtype.kind != "f" and np.array_equal(a, b):
                return a
        la, lb = self.lift(a), self.lift(b)
        return self.map2(lambda x, y: self.ite(c, x, y, la.dtype), la, lb, la.dtype)

    # ------------------------------------------------------------------ primitives
    def p_select_n(self, eqn, ins, **p):
        w = self.lift(ins[0])
        cs = [self.lift(x) for x in ins[1:]]
        dt = cs[0].dtype
        shape = cs[0].shape
        out = obj(shape)
        wa = np.broadcast_to(w.a, shape) if w.a.shape != shape else w.a
        for ix in np.ndindex(*shape):
            s = wa[ix]
            if kind(w.dtype) == "b":
                out[ix] = self.ite(s, cs[1].a[ix], cs[0].a[ix], dt)
            else:
                r = cs[-1].a[ix]
                for j in range(len(cs) - 2, -1, -1):
                    r = self.ite(self.i_cmp("eq", s, j, w.dtype), cs[j].a[ix], r, dt)
                out[ix] = r
        return SymArr(out, dt)

    def p_clamp(self, eqn, ins, **p):
        dt = np.dtype(eqn.invars[1].aval.dtype)
        bo = (lambda o, a, b: self.i_bin(o, a, b, dt)) if kind(dt) == "i" else (
            lambda o, a, b: self.f_bin(o, a, b, dt))
        x = self.map2(lambda a, b: bo("max", a, b), ins[1], ins[0], dt)
        return self.map2(lambda a, b: bo("min", a, b), x, ins[2], dt)

    def p_is_finite(self, eqn, ins, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)

        def f(a):
            if self.floats == "real":
                return a.finite
            if isinstance(a, np.floating):
                return bool(np.isfinite(a))
            return z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a)))

        return self.map1(f, ins[0], np.bool_)

    def p_convert_element_type(self, eqn, ins, *, new_dtype, **p):
        src = np.dtype(eqn.invars[0].aval.dtype)
        return self.map1(lambda a: self.convert(a, src, new_dtype), ins[0], new_dtype)

    def p_integer_pow(self, eqn, ins, *, y, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        mul = (lambda a, b: self.i_bin("mul", a, b, dt)) if kind(dt) == "i" else (
            lambda a, b: self.f_bin("mul", a, b, dt))

        def f(a):
            n = abs(y)
            if n == 0:
                return self.lift_scalar(1, dt)
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            if y < 0:
                r = self.f_bin("div", self.lift_scalar(1.0, dt), r, dt)
            return r

        return self.map1(f, ins[0], dt)

    def p_square(self, eqn, ins, **p):
        return self.p_integer_pow(eqn, ins, y=2)

    def p_pow(self, eqn, ins, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        dte = np.dtype(eqn.invars[1].aval.dtype)
        if self.floats != "real":
            raise Unsupported("pow in fp model")

        def f(a, e):
            leaves = ite_leaves(e, dte, self)
            if leaves is None:
                raise Unsupported("pow with symbolic exponent")
            out = None
            for cnd, v in leaves:
                if float(v) != int(v):
                    raise Unsupported("pow with non-integer exponent")
                n = int(v)
                if n == 0:
                    r = dom.f_const(1.0)
                else:
                    r = a
                    for _ in range(abs(n) - 1):
                        r = dom.f_mul(r, a)
                    if n < 0:
                        r = dom.f_div(dom.f_const(1.0), r)
                out = r if out is None else dom.f_ite(cnd, r, out)
            return out

        return self.map2(f, ins[0], ins[1], dt)

    def p_erf_inv(self, eqn, ins, **p):
        raise Unsupported("erf_inv")

    def p_concatenate(self, eqn, ins, *, dimension):
        xs = [self.lift(x) for x in ins]
        return SymArr(np.concatenate([x.a for x in xs], axis=dimension), xs[0].dtype)

    def p_pad(self, eqn, ins, *, padding_config):
        x, pv = self.lift(ins[0]), self.lift(ins[1])
        ids = np.arange(x.size, dtype=np.int32).reshape(x.shape)
        oi = np.asarray(lax.pad(ids, np.int32(-1), padding_config))
        flat = x.a.reshape(-1)
        out = obj(oi.shape)
        for ix in np.ndindex(*oi.shape):
            out[ix] = pv.a[()] if oi[ix] < 0 else flat[oi[ix]]
        return SymArr(out, x.dtype)

    def p_iota(self, eqn, ins, **p):
        return self.bind(eqn, ins)

    def p_split(self, eqn, ins, *, sizes, axis):
        x = self.lift(ins[0])
        cuts = np.cumsum(sizes)[:-1]
        return [SymArr(np.array(a, dtype=object), x.dtype) for a in np.split(x.a, cuts, axis=axis)]

    # indexing with symbolic positions -----------------------------------------------
    def p_dynamic_slice(self, eqn, ins, *, slice_sizes):
        x, starts = self.lift(ins[0]), ins[1:]
        return self._dyn(x, starts, slice_sizes, lambda st: self.ids_apply(
            x, lambda ids: lax.dynamic_slice(jnp.asarray(ids), st, slice_sizes)))

    def _dyn(self, x, starts, sizes, f):
        """ITE over all clamped start vectors."""
        choices = []
        for d, s in enumerate(starts):
            hi = x.shape[d] - sizes[d]
            if isinstance(s, SymArr):
                sc = s.a[()]
                c = self.scalar_const(sc, s.dtype)
                if c is None:
                    opts = []
                    for v in range(hi + 1):
                        if hi == 0:
                            cond = True
                        elif v == 0:
                            cond = self.i_cmp("le", sc, 0, s.dtype)
                        elif v == hi:
                            cond = self.i_cmp("ge", sc, hi, s.dtype)
                        else:
                            cond = self.i_cmp("eq", sc, v, s.dtype)
                        opts.append((v, cond))
                    choices.append(opts)
                    continue
                s = c
            choices.append([(int(np.clip(int(s), 0, hi)), True)])
        res = None
        for combo in itertools.product(*choices):
            st = [v for v, _ in combo]
            cond = b_and(*[c for _, c in combo])
            r = f(st)
            res = r if res is None else self.merge(cond, r, res)
        return res

    def p_dynamic_update_slice(self, eqn, ins):
        x, u, starts = self.lift(ins[0]), self.lift(ins[1]), ins[2:]

        def f(st):
            out = x.a.copy()
            sl = tuple(slice(s, s + n) for s, n in zip(st, u.shape))
            out[sl + (...,)] = u.a
            return SymArr(out, x.dtype)

        return self._dyn(x, starts, u.shape, f)

    def _index_rows(self, idx):
        """indices array (..., k) -> list of rows, each a list of scalars"""
        k = idx.shape[-1]
        return idx.a.reshape(-1, k), idx.dtype

    def _cand(self, rows, dt, op_shape, dims_map):
        """Candidate values per index component."""
        cands = []
        for j in range(rows.shape[1]):
            n = op_shape[dims_map[j]]
            vals = set(range(n))
            for r in rows:
                c = r[j] if dom.is_c(r[j]) else None
                if c is not None:
                    vals.add(int(c))
            cands.append(sorted(vals))
        return cands

    def p_gather(self, eqn, ins, *, dimension_numbers, slice_sizes, indices_are_sorted, unique_indices, mode, fill_value):
        x = self.lift(ins[0])
        idx = ins[1]
        dn = dimension_numbers
        kw = dict(dimension_numbers=dn, slice_sizes=slice_sizes, mode=mode, fill_value=-1)

        def g(ix):
            ids = np.arange(x.size, dtype=np.int32).reshape(x.shape)
            return np.asarray(lax.gather(jnp.asarray(ids), jnp.asarray(ix), **kw))

        if fill_value is None:
            fv = self.lift_scalar(np.nan, x.dtype) if kind(x.dtype) == "f" else (
                False if kind(x.dtype) == "b" else (
                    int(np.iinfo(x.dtype).min) if x.dtype.kind == "i" else int(np.iinfo(x.dtype).max)))
        else:
            fv = self.lift_scalar(fill_value, x.dtype)
        flat = x.a.reshape(-1)

        def elem(i):
            return fv if i < 0 else flat[i]

        if not isinstance(idx, SymArr):
            oi = g(idx)
            out = obj(oi.shape)
            for ix in np.ndindex(*oi.shape):
                out[ix] = elem(oi[ix])
            return SymArr(out, x.dtype)
        if getattr(dn, "operand_batching_dims", ()):
            raise Unsupported("batched gather with symbolic indices")
        rows, dt = self._index_rows(idx)
        cands = self._cand(rows, dt, x.shape, dn.start_index_map)
        bshape = idx.shape[:-1]
        # out element -> row index
        out_shape = tuple(eqn.outvars[0].aval.shape)
        batch_dims = [d for d in range(len(out_shape)) if d not in dn.offset_dims]
        import_mode = str(mode)
        base_oob = None
        res = obj(out_shape)
        first = True
        combos = list(itertools.product(*cands))
        if len(combos) > 512:
            raise Unsupported("gather: too many candidate indices")
        # default: out of bounds
        big = np.full(idx.shape, np.iinfo(np.int32).max // 2, np.int32)
        clip = "CLIP" in import_mode or "PROMISE" in import_mode
        if clip:
            base = None
        else:
            oi = g(big)
            base = oi
        for ix in np.ndindex(*out_shape):
            res[ix] = fv
        for v in combos:
            oi = g(np.broadcast_to(np.array(v, np.int32), idx.shape))
            for ix in np.ndindex(*out_shape):
                row = int(np.ravel_multi_index(tuple(ix[d] for d in batch_dims), bshape)) if bshape else 0
                conds = []
                for j, vj in enumerate(v):
                    s = rows[row][j]
                    n = x.shape[dn.start_index_map[j]] - slice_sizes[dn.start_index_map[j]]
                    if clip and vj == 0:
                        conds.append(self.i_cmp("le", s, 0, dt))
                    elif clip and vj == n:
                        conds.append(self.i_cmp("ge", s, n, dt))
                    else:
                        conds.append(self.i_cmp("eq", s, vj, dt))
                res[ix] = self.ite(b_and(*conds), elem(oi[ix]), res[ix], x.dtype)
        return SymArr(res, x.dtype)

    def _scatter(self, eqn, ins, comb, p):
        x, idx, u = self.lift(ins[0]), ins[1], self.lift(ins[2])
        dn = p["dimension_numbers"]
        ishape = idx.shape
        nrows = int(np.prod(ishape[:-1])) if len(ishape) > 1 else 1
        if getattr(dn, "operand_batching_dims", ()) and (isinstance(idx, SymArr)):
            raise Unsupported("batched scatter with symbolic indices")
        out = x.a.copy().reshape(-1)
        from jax.lax import GatherScatterMode

        mode = p["mode"]
        uid = np.arange(u.size, dtype=np.int32).reshape(u.shape)

        def place(rowvals):
            """rowvals: full index array -> flat operand position -> update id (drop others)."""
            r = lax.scatter(
                jnp.full(x.shape, -1, jnp.int32), jnp.asarray(rowvals), jnp.asarray(uid), dn,
                mode=mode,
            )
            return np.asarray(r).reshape(-1)

        OOB = np.iinfo(np.int32).max // 2

        def one_row(row, v):
            if nrows == 1:
                ix = np.array(v, np.int32).reshape(ishape)
                return place(ix)
            if mode == GatherScatterMode.CLIP:
                raise Unsupported("clip scatter multi-row")
            full = np.full((nrows, ishape[-1]), OOB, np.int32)
            full[row] = v
            return np.asarray(
                lax.scatter(
                    jnp.full(x.shape, -1, jnp.int32), jnp.asarray(full.reshape(ishape)),
                    jnp.asarray(uid), dn, mode=GatherScatterMode.FILL_OR_DROP,
                )
            ).reshape(-1)

        uf = u.a.reshape(-1)
        if not isinstance(idx, SymArr):
            rows = np.asarray(idx).reshape(nrows, -1)
            for row in range(nrows):
                pl = one_row(row, rows[row])
                for pos in np.nonzero(pl >= 0)[0]:
                    out[pos] = comb(out[pos], uf[pl[pos]])
            return SymArr(out.reshape(x.shape), x.dtype)
        rows, dt = self._index_rows(idx)
        cands = self._cand(rows, dt, x.shape, dn.scatter_dims_to_operand_dims)
        for row in range(nrows):
            new = out.copy()
            for v in itertools.product(*cands):
                cond = b_and(*[self.i_cmp("eq", rows[row][j], vj, dt) for j, vj in enumerate(v)])
                if cond is False:
                    continue
                pl = one_row(row, v)
                for pos in np.nonzero(pl >= 0)[0]:
                    new[pos] = self.ite(cond, comb(out[pos], uf[pl[pos]]), new[pos], x.dtype)
            out = new
        return SymArr(out.reshape(x.shape), x.dtype)

    def p_scatter(self, eqn, ins, **p):
        return self._scatter(eqn, ins, lambda a, b: b, p)

    def _bo(self, op, dt):
        return (lambda a, b: self.i_bin(op, a, b, dt)) if kind(dt) == "i" else (
            lambda a, b: self.f_bin(op, a, b, dt))

    def p_scatter_add(self, eqn, ins, **p):
        return self._scatter(eqn, ins, self._bo("add", np.dtype(eqn.invars[0].aval.dtype)), p)

    def p_scatter_mul(self, eqn, ins, **p):
        return self._scatter(eqn, ins, self._bo("mul", np.dtype(eqn.invars[0].aval.dtype)), p)

    # reductions ---------------------------------------------------------------------
    def _reduce(self, x, axes, comb, init, dt):
        x = self.lift(x)
        axes = tuple(axes)
        keep = [d for d in range(x.ndim) if d not in axes]
        a = np.transpose(x.a, keep + list(axes)).reshape([x.shape[d] for d in keep] + [-1])
        out = obj(tuple(x.shape[d] for d in keep))
        for ix in np.ndindex(*out.shape):
            v = list(a[ix])
            if not v:
                out[ix] = init
                continue
            r = v[0]
            for e in v[1:]:
                r = comb(r, e)
            out[ix] = r
        return SymArr(out, dt)

    def p_reduce_sum(self, eqn, ins, *, axes, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        return self._reduce(ins[0], axes, self._bo("add", dt), self.lift_scalar(0, dt), dt)

    def p_reduce_prod(self, eqn, ins, *, axes, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        return self._reduce(ins[0], axes, self._bo("mul", dt), self.lift_scalar(1, dt), dt)

    def p_reduce_max(self, eqn, ins, *, axes, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        if kind(dt) == "b":
            return self._reduce(ins[0], axes, b_or, False, dt)
        return self._reduce(ins[0], axes, self._bo("max", dt), None, dt)

    def p_reduce_min(self, eqn, ins, *, axes, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        if kind(dt) == "b":
            return self._reduce(ins[0], axes, b_and, True, dt)
        return self._reduce(ins[0], axes, self._bo("min", dt), None, dt)

    def p_reduce_or(self, eqn, ins, *, axes, **p):
        return self._reduce(ins[0], axes, b_or, False, np.bool_)

    def p_reduce_and(self, eqn, ins, *, axes, **p):
        return self._reduce(ins[0], axes, b_and, True, np.bool_)

    def p_reduce_xor(self, eqn, ins, *, axes, **p):
        return self._reduce(ins[0], axes, b_xor, False, np.bool_)

    def _arg(self, eqn, ins, axes, index_dtype, op):
        x = self.lift(ins[0])
        (ax,) = axes
        a = np.moveaxis(x.a, ax, -1)
        out = obj(a.shape[:-1])
        idt = np.dtype(index_dtype)
        for ix in np.ndindex(*out.shape):
            v = a[ix]
            best, bi = v[0], 0
            for j in range(1, len(v)):
                better = b_or(
                    self.cmp(op, v[j], best, x.dtype),
                    b_and(self.isnan(v[j], x.dtype), b_not(self.isnan(best, x.dtype))),
                )
                better = b_and(better, b_not(self.isnan(best, x.dtype)))
                best = self.ite(better, v[j], best, x.dtype)
                bi = self.ite(better, j, bi, idt)
            out[ix] = bi
        return SymArr(out, idt)

    def p_argmax(self, eqn, ins, *, axes, index_dtype):
        return self._arg(eqn, ins, axes, index_dtype, "gt")

    def p_argmin(self, eqn, ins, *, axes, index_dtype):
        return self._arg(eqn, ins, axes, index_dtype, "lt")

    def _cum(self, eqn, ins, axis, reverse, comb):
        x = self.lift(ins[0])
        out = x.a.copy()
        n = x.shape[axis]
        o = np.moveaxis(out, axis, 0)
        order = list(range(n - 1, -1, -1) if reverse else range(n))
        for p_, c in zip(order, order[1:]):
            for ix in np.ndindex(*o.shape[1:]):
                o[(c,) + ix] = comb(o[(p_,) + ix], o[(c,) + ix])
        return SymArr(out, x.dtype)

    def p_cumsum(self, eqn, ins, *, axis, reverse):
        return self._cum(eqn, ins, axis, reverse, self._bo("add", np.dtype(eqn.invars[0].aval.dtype)))

    def p_cumprod(self, eqn, ins, *, axis, reverse):
        return self._cum(eqn, ins, axis, reverse, self._bo("mul", np.dtype(eqn.invars[0].aval.dtype)))

    def p_cummax(self, eqn, ins, *, axis, reverse):
        return self._cum(eqn, ins, axis, reverse, self._bo("max", np.dtype(eqn.invars[0].aval.dtype)))

    def p_cummin(self, eqn, ins, *, axis, reverse):
        return self._cum(eqn, ins, axis, reverse, self._bo("min", np.dtype(eqn.invars[0].aval.dtype)))

    def _total_gt(self, a, b, dt):
        """a > b in sort order (NaN last)."""
        an, bn = self.isnan(a, dt), self.isnan(b, dt)
        return b_or(b_and(an, b_not(bn)), b_and(b_not(an), b_not(bn), self.cmp("gt", a, b, dt)))

    def p_sort(self, eqn, ins, *, dimension, is_stable, num_keys):
        xs = [self.lift(x) for x in ins]
        arrs = [np.moveaxis(x.a, dimension, -1).copy() for x in xs]
        n = arrs[0].shape[-1]
        for ix in np.ndindex(*arrs[0].shape[:-1]):
            vs = [a[ix] for a in arrs]
            for i in range(n):
                for j in range(n - 1 - i):
                    gt = False
                    for k in range(num_keys - 1, -1, -1):
                        g = self._total_gt(vs[k][j], vs[k][j + 1], xs[k].dtype)
                        l = self._total_gt(vs[k][j + 1], vs[k][j], xs[k].dtype)
                        gt = b_or(g, b_and(b_not(l), gt))
                    for k, v in enumerate(vs):
                        p_, q = v[j], v[j + 1]
                        v[j] = self.ite(gt, q, p_, xs[k].dtype)
                        v[j + 1] = self.ite(gt, p_, q, xs[k].dtype)
        return [SymArr(np.moveaxis(a, -1, dimension), x.dtype) for a, x in zip(arrs, xs)]

    def p_dot_general(self, eqn, ins, *, dimension_numbers, **p):
        (lc, rc), (lb, rb) = dimension_numbers
        a, b = self.lift(ins[0]), self.lift(ins[1])
        dt = np.dtype(eqn.outvars[0].aval.dtype)
        a, b = (v if v.dtype == dt else self.map1(lambda e, v=v: self.convert(e, v.dtype, dt), v, dt) for v in (a, b))
        lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
        rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
        A = np.transpose(a.a, list(lb) + lf + list(lc))
        B = np.transpose(b.a, list(rb) + rf + list(rc))
        nb, nlf, nrf = len(lb), len(lf), len(rf)
        bs, ls, cs = A.shape[:nb], A.shape[nb : nb + nlf], A.shape[nb + nlf :]
        rs = B.shape[nb : nb + nrf]
        out = obj(bs + ls + rs)
        add, mul = self._bo("add", dt), self._bo("mul", dt)
        for bi in np.ndindex(*bs):
            for li in np.ndindex(*ls):
                for ri in np.ndindex(*rs):
                    acc = None
                    for ci in np.ndindex(*cs):
                        t = mul(A[bi + li + ci], B[bi + ri + ci])
                        acc = t if acc is None else add(acc, t)
                    out[bi + li + ri] = self.lift_scalar(0, dt) if acc is None else acc
        return SymArr(out, dt)

    def p_mul_add(self, *a, **k):
        raise Unsupported("mul_add")

    def p_shift_left(self, eqn, ins, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        return self.map2(lambda a, b: self._shift("l", a, b, dt), *ins, dt)

    def p_shift_right_logical(self, eqn, ins, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        return self.map2(lambda a, b: self._shift("rl", a, b, dt), *ins, dt)

    def p_shift_right_arithmetic(self, eqn, ins, **p):
        dt = np.dtype(eqn.invars[0].aval.dtype)
        return self.map2(lambda a, b: self._shift("ra", a, b, dt), *ins, dt)

    def _shift(self, k, a, b, dt):
        if self.ints != "bv":
            if not dom.is_c(b):
                raise Unsupported("shift in int model")
            if k == "l":
                return self.convert_wrap(self.i_bin("mul", a, 1 << int(b), dt), dt)
            if k == "ra" or dt.kind == "u":
                if dom.is_c(a):
                    return int(a) >> int(b)
                return a / (1 << int(b))  # z3 Int division floors for positive divisors
            raise Unsupported("logical shift in int model")
        za, zb = self.iz(a, dt), self.iz(b, dt)
        n = dt.itemsize * 8
        big = z3.UGE(zb, n) if not dom.is_c(b) else bool(b >= n)
        if k == "l":
            r = za << zb
        elif k == "rl":
            r = z3.LShR(za, zb)
        else:
            r = za >> zb
            return r
        return self.ite(big, 0, r, dt)

    def convert_wrap(self, a, dt):
        if dom.is_c(a):
            return self.wrap(int(a), dt)
        n = 1 << (dt.itemsize * 8)
        m = a % n
        return z3.If(m >= n // 2, m - n, m) if dt.kind == "i" else m

    def p_bitcast_convert_type(self, eqn, ins, *, new_dtype):
        src, dst = np.dtype(eqn.invars[0].aval.dtype), np.dtype(new_dtype)
        if kind(src) == "i" and kind(dst) == "i" and self.ints == "bv" and src.itemsize == dst.itemsize:
            return self.map1(lambda a: self.wrap(int(a), dst) if dom.is_c(a) else a, ins[0], dst)
        raise Unsupported("bitcast")


def _np_un(op, v, dtype):
    with np.errstate(all="ignore"):
        v = np.asarray(v, dtype)
        f = {
            "neg": np.negative, "abs": np.abs, "sign": np.sign, "floor": np.floor, "ceil": np.ceil,
            "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "tanh": np.tanh, "sin": np.sin,
            "cos": np.cos, "tan": np.tan, "log1p": np.log1p, "expm1": np.expm1, "atan": np.arctan,
            "square": np.square, "round": np.round,
            "rsqrt": lambda x: 1 / np.sqrt(x), "logistic": lambda x: 1 / (1 + np.exp(-x)),
            "erf": np.vectorize(math.erf), "exp2": np.exp2,
        }[op]
        return f(v)


def _ostack(arrs):
    out = obj((len(arrs),) + arrs[0].shape)
    for i, a in enumerate(arrs):
        out[i, ...] = a
    return out


def ite_leaves(e, dt, itp):
    """Possible constant values of a scalar that is an ITE tree over constants: [(cond, value)]."""
    t = e.r if isinstance(e, F) else e
    if isinstance(e, F) and (e.nan is not False or e.pinf is not False or e.ninf is not False):
        return None
    if isinstance(t, (Fraction, int, np.floating, np.integer)):
        return [(True, Fraction(t))]
    t = z3.simplify(t)
    out = {}
    stack = [(t, 0, True)]
    memo = {}

    def vals(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        r = None
        if z3.is_rational_value(x):
            r = {x.as_fraction()}
        elif z3.is_int_value(x):
            r = {Fraction(x.as_long())}
        elif z3.is_bv_value(x):
            r = {Fraction(x.as_signed_long())}
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            a, b = vals(x.arg(1)), vals(x.arg(2))
            r = None if a is None or b is None else a | b
        elif z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            r = vals(x.arg(0))
        elif z3.is_add(x):
            r = {Fraction(0)}
            for c in x.children():
                v = vals(c)
                if v is None:
                    r = None
                    break
                r = {p + q for p in r for q in v}
        elif z3.is_mul(x):
            r = {Fraction(1)}
            for c in x.children():
                v = vals(c)
                if v is None:
                    r = None
                    break
                r = {p * q for p in r for q in v}
        memo[k] = r
        return r

    vs = vals(t)
    if vs is None or len(vs) > 64:
        return None
    return [(t == (z3.Q(v.numerator, v.denominator) if t.sort() == z3.RealSort() else int(v)), v) for v in sorted(vs)]


WHILE_BOUND = int(os.environ.get("WAXV_WHILE_BOUND", "64"))

BIN = {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "max": "max", "min": "min",
       "rem": "rem", "add_any": "add"}
CMP = {"eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge",
       "eq_to": "eq", "lt_to": "lt", "le_to": "le"}
UN = {"neg": "neg", "abs": "abs", "sign": "sign", "floor": "floor", "ceil": "ceil", "exp": "exp",
      "log": "log", "sqrt": "sqrt", "tanh": "tanh", "sin": "sin", "cos": "cos", "tan": "tan", "log1p": "log1p",
      "expm1": "expm1", "rsqrt": "rsqrt", "logistic": "logistic", "not": "not", "erf": "erf",
      "atan": "atan", "exp2": "exp2"}
EXACT = set(BIN) | set(CMP) | {"neg", "abs", "sign", "exp", "log", "sqrt", "rsqrt", "square", "integer_pow",
                               "reduce_sum", "reduce_prod", "dot_general", "cumsum", "pow", "log1p",
                               "expm1", "clamp", "reduce_max", "reduce_min", "add_any"}
HIGHER = {
    "jit": "call", "pjit": "call", "closed_call": "call", "core_call": "call", "remat": "call",
    "checkpoint": "call", "remat2": "call", "custom_jvp_call": "call", "custom_vjp_call": "call",
    "custom_vjp_call_jaxpr": "call", "custom_lin": "call", "xla_call": "call",
    "scan": "scan", "while": "while", "cond": "cond",
}
RANDOM_NAMES = {
    "_normal", "_uniform", "_randint", "_gamma", "_truncated_normal", "_bernoulli", "_shuffle",
    "_normal_real", "_beta", "_exponential", "_cauchy", "_laplace", "_categorical", "_choice",
    "permutation", "truncated_normal", "normal", "uniform", "randint", "bernoulli", "threefry2x32",
    "_threefry_split", "_threefry_fold_in", "_threefry_random_bits", "_threefry_seed",
    "_threefry_split_foldlike", "_threefry_split_original",
}
