"""Symbolic execution of ordinary Python code (numpy host code, control flow) by forking proxies.

`explore(T, fn)` runs fn() once per feasible path: a branch on a symbolic boolean asks the solver which
sides are feasible under the path condition and schedules the other side.  Values are z3 terms.
"""
from __future__ import annotations

import contextlib
import time
from fractions import Fraction

import numpy as np

from . import dom
from .dom import F, Unsupported
from .z3load import z3

_now = time.time  # the code under test may see a patched clock


class PathLimit(Exception):
    pass


class Ctx:
    def __init__(self, T, side=(), timeout=10000, max_paths=20000, max_decisions=400):
        self.T = T
        self.side = list(side)
        self.timeout = timeout
        self.lits = []
        self.pc = []
        self.todo = []
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.solver = None
        self.forks = 0
        self.facts = None

    def start(self, item):
        """A path is identified by the conditions decided on it, not by their order: code iterating over a set may meet
        them in another order the next time."""
        lits, self.model = item
        self.known = {c.get_id(): b for c, b in lits}
        self.lits = list(lits)  # keeps the terms alive, hence their ids unique
        self.left = set(self.known)
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        for s in self.side:
            self.solver.add(s)
        for c, b in lits:
            k = c if b else z3.Not(c)
            self.solver.add(k)
            self.pc.append(k)

    def _check(self, c):
        self.solver.push()
        self.solver.add(c)
        t = _now()
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.T.solver_s += _now() - t
        self.T.queries += 1
        self.solver.pop()
        return r, m

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        self.solver.add(c)
        self.pc.append(c)
        if not self.left and self._known(c) is not True:
            self.model = None

    def _known(self, c):
        """value of c in a model of the current path condition, if one is at hand"""
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None

    def decide(self, c):
        """Branch on z3 condition c."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.known:
            self.left.discard(c.get_id())
            return self.known[c.get_id()]
        if len(self.lits) >= self.max_decisions:
            raise Unsupported("decision bound exceeded")
        k = self._known(c)
        mt = mf = self.model
        ft, mt = (z3.sat, mt) if k is True else self._check(c)
        ff, mf = (z3.sat, mf) if k is False else self._check(z3.Not(c))
        if ft == z3.unknown or ff == z3.unknown:
            raise Unsupported("path feasibility undecided")
        if ft == z3.sat and ff == z3.sat:
            self.todo.append((self.lits + [(c, False)], mf))
            self.forks += 1
            b = True
        elif ft == z3.sat:
            b = True
        elif ff == z3.sat:
            b = False
        else:
            raise Infeasible()
        self.model = mt if b else mf
        self.lits.append((c, b))
        self.known[c.get_id()] = b
        k = c if b else z3.Not(c)
        self.solver.add(k)
        self.pc.append(k)
        return b


class Infeasible(Exception):
    pass


_CUR: list = []


def cur() -> Ctx:
    if not _CUR:
        raise Unsupported("symbolic branch outside exploration")
    return _CUR[-1]


def explore(T, fn, side=(), timeout=10000, max_paths=20000, max_decisions=400, soft=False):
    """Yield (path_condition list, result, exception) for every feasible path; with `soft` also the paths that cannot be followed."""
    ctx = Ctx(T, side, timeout, max_paths, max_decisions)
    ctx.todo.append(([], None))
    n = 0
    while ctx.todo:
        pre = ctx.todo.pop()
        n += 1
        if n > max_paths:
            if soft:
                yield [], None, Unsupported("path bound exceeded")
                return
            raise Unsupported("path bound exceeded")
        ctx.start(pre)
        _CUR.append(ctx)
        res = exc = None
        try:
            res = fn()
        except Infeasible:
            continue
        except Unsupported as e:
            if not soft:
                raise
            exc = e
        except Exception as e:
            exc = e
        finally:
            _CUR.pop()
        T.states += 1
        T.steps += len(ctx.pc)
        yield list(ctx.pc), res, exc


# ----------------------------------------------------------------------------- proxies
def _b(x):
    return x.z if isinstance(x, SBool) else bool(x)


class SBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        if isinstance(self.z, (bool, np.bool_)):
            return bool(self.z)
        return cur().decide(self.z)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __invert__(self):
        return SBool(dom.b_not(self.z))

    def __and__(self, o):
        return SBool(dom.b_and(self.z, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(dom.b_or(self.z, _b(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(dom.b_xor(self.z, _b(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool(dom.b_iff(self.z, _b(o)))
        return int(self) == o

    def __ne__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool(dom.b_xor(self.z, _b(o)))
        return int(self) != o

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def astype(self, t):
        return int(self) if t not in (bool, np.bool_) else self

    def any(self):
        return self

    def all(self):
        return self

    def __repr__(self):
        return f"SBool({self.z})"


def _fz(x):
    if isinstance(x, SReal):
        return x.f
    if isinstance(x, F):
        return x
    if isinstance(x, SBool):
        x = float(x)
    if isinstance(x, SInt):
        return F(z3.ToReal(x.z))
    return dom.f_const(x)


class SReal:
    """Symbolic extended real (float)."""

    __slots__ = ("f",)
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def _bin(self, o, g):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SReal(g(self.f, _fz(o)))

    def __add__(self, o):
        return self._bin(o, dom.f_add)

    def __radd__(self, o):
        return SReal(dom.f_add(_fz(o), self.f))

    def __sub__(self, o):
        return self._bin(o, dom.f_sub)

    def __rsub__(self, o):
        return SReal(dom.f_sub(_fz(o), self.f))

    def __mul__(self, o):
        return self._bin(o, dom.f_mul)

    def __rmul__(self, o):
        return SReal(dom.f_mul(_fz(o), self.f))

    def __truediv__(self, o):
        return self._bin(o, dom.f_div)

    def __rtruediv__(self, o):
        return SReal(dom.f_div(_fz(o), self.f))

    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) and n >= 0:
            r = dom.f_const(1.0)
            for _ in range(int(n)):
                r = dom.f_mul(r, self.f)
            return SReal(r)
        raise Unsupported("pow")

    def __neg__(self):
        return SReal(dom.f_neg(self.f))

    def __abs__(self):
        return SReal(dom.f_ite(dom._negf(self.f), dom.f_neg(self.f), self.f))

    def __lt__(self, o):
        return SBool(dom.f_lt(self.f, _fz(o)))

    def __le__(self, o):
        return SBool(dom.f_le(self.f, _fz(o)))

    def __gt__(self, o):
        return SBool(dom.f_lt(_fz(o), self.f))

    def __ge__(self, o):
        return SBool(dom.f_le(_fz(o), self.f))

    def __eq__(self, o):
        return SBool(dom.f_eq(self.f, _fz(o)))

    def __ne__(self, o):
        return SBool(dom.b_not(dom.f_eq(self.f, _fz(o))))

    def __bool__(self):
        return bool(self != 0)

    __hash__ = None

    def __format__(self, spec):
        return "<symbolic>"

    def __repr__(self):
        return f"SReal({self.f})"


class SInt:
    """Symbolic integer: z3 Int (unbounded), Python floor-division semantics."""

    __slots__ = ("z",)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    @staticmethod
    def _z(o):
        if isinstance(o, SInt):
            return o.z
        if isinstance(o, SBool):
            return z3.If(dom.to_z3_bool(o.z), z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, (int, np.integer)):
            return z3.IntVal(int(o))
        if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype.kind in "iu":
            return z3.IntVal(int(o))
        raise Unsupported(f"int op with {type(o)}")

    def _w(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return SInt(z)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self._w(self.z + self._z(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self._w(self.z - self._z(o))

    def __rsub__(self, o):
        return self._w(self._z(o) - self.z)

    def __mul__(self, o):
        return self._w(self.z * self._z(o))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        d = self._z(o)
        if z3.is_int_value(d) and d.as_long() > 0:
            return self._w(self.z / d)
        raise Unsupported("floordiv by non-positive/symbolic")

    def __mod__(self, o):
        d = self._z(o)
        if z3.is_int_value(d) and d.as_long() > 0:
            return self._w(self.z % d)
        raise Unsupported("mod by non-positive/symbolic")

    def __neg__(self):
        return self._w(-self.z)

    def _cmp(self, z):
        return SBool(z)

    def __lt__(self, o):
        return SBool(self.z < self._z(o))

    def __le__(self, o):
        return SBool(self.z <= self._z(o))

    def __gt__(self, o):
        return SBool(self.z > self._z(o))

    def __ge__(self, o):
        return SBool(self.z >= self._z(o))

    def __eq__(self, o):
        try:
            return SBool(self.z == self._z(o))
        except Unsupported:
            return False

    def __ne__(self, o):
        try:
            return SBool(self.z != self._z(o))
        except Unsupported:
            return True

    def __bool__(self):
        return bool(self != 0)

    __hash__ = None

    def __repr__(self):
        return f"SInt({self.z})"


# ----------------------------------------------------------------------------- numpy shim
def has_sym(x):
    if isinstance(x, (SBool, SReal, SInt)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e) for e in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def _map(f, *xs):
    arrs = [np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x for x in xs]
    arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = f(*[a[ix] for a in arrs])
    return out[()] if out.shape == () else out


def s_isnan(e):
    if isinstance(e, SReal):
        return SBool(e.f.nan)
    if isinstance(e, (SInt, SBool)):
        return SBool(False)
    return SBool(bool(np.isnan(e)))


def s_ite(c, a, b):
    """Merge if both are real-like, else fork."""
    if isinstance(c, SBool) and isinstance(c.z, (bool, np.bool_)):
        c = bool(c.z)
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (SReal, float, np.floating)) or isinstance(b, (SReal, float, np.floating)):
        return SReal(dom.f_ite(c.z, _fz(a), _fz(b)))
    return a if bool(c) else b


class NumpyShim:
    """numpy with symbolic-aware versions of the functions the code under test uses."""

    def __init__(self, object_arrays=True):
        self._oa = object_arrays

    def __getattr__(self, k):
        return getattr(np, k)

    def isnan(self, x):
        if has_sym(x):
            return _map(lambda e: s_isnan(e), x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.vectorize(lambda e: bool(np.isnan(e)), otypes=[bool])(x) if x.size else np.zeros(x.shape, bool)
        return np.isnan(x)

    def where(self, c, a, b):
        if has_sym(c) or has_sym(a) or has_sym(b):
            return _map(s_ite, c, a, b)
        return np.where(c, a, b)

    def maximum(self, a, b):
        if has_sym(a) or has_sym(b):
            return _map(lambda x, y: SReal(_mm(_fz(x), _fz(y), True)), a, b)
        return np.maximum(a, b)

    def minimum(self, a, b):
        if has_sym(a) or has_sym(b):
            return _map(lambda x, y: SReal(_mm(_fz(x), _fz(y), False)), a, b)
        return np.minimum(a, b)

    def empty(self, shape, dtype=None, **k):
        return np.empty(shape, dtype=object)

    def zeros(self, shape, dtype=None, **k):
        out = np.empty(shape, dtype=object)
        out[...] = 0.0 if dtype is None or np.dtype(dtype).kind == "f" else 0
        return out

    def full(self, shape, v, dtype=None, **k):
        out = np.empty(shape, dtype=object)
        if dtype is not None and dtype is not object and not has_sym(v) and np.dtype(dtype).kind in "iuf":
            v = np.dtype(dtype).type(v)
            if isinstance(v, np.floating):
                v = float(v)
        for ix in np.ndindex(*out.shape):
            out[ix] = v
        return out

    def full_like(self, a, v, dtype=None, **k):
        return self.full(np.shape(a), v)

    def zeros_like(self, a, dtype=None, **k):
        return self.full(np.shape(a), 0.0)


def _mm(a, b, mx):
    n = dom.b_or(a.nan, b.nan)
    c = dom.f_lt(b, a) if mx else dom.f_lt(a, b)
    r = dom.f_ite(c, a, b)
    return F(r.r, n, dom.b_and(r.pinf, dom.b_not(n)), dom.b_and(r.ninf, dom.b_not(n)))


@contextlib.contextmanager
def patched(*items):
    """patched((obj, name, value), ...) : temporarily set attributes."""
    old = []
    missing = object()
    for o, n, v in items:
        old.append((o, n, getattr(o, n, missing)))
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in reversed(old):
            if v is missing:
                delattr(o, n)
            else:
                setattr(o, n, v)
