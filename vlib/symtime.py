"""Symbolic np.datetime64[ns] scalars for host code driven by pysym."""
from __future__ import annotations

import numpy as np

from .dom import Unsupported
from .pysym import NumpyShim, SBool, SInt, has_sym


def obj_array(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def _ns(unit):
    """nanoseconds of one unit of a datetime64/timedelta64 dtype with a fixed length."""
    name, n = np.datetime_data(unit)
    if name not in ("ns", "us", "ms", "s", "m", "h", "D", "W"):
        raise Unsupported(f"time unit {name}")
    return int(np.timedelta64(n, name).astype("timedelta64[ns]").astype("int64"))


class _Ticks:
    """A count of ticks of `mul` nanoseconds as a z3 Int; behaves like an np.datetime64/np.timedelta64 scalar."""

    __slots__ = ("z", "dtype")
    shape = ()
    ndim = 0
    kind = "M"

    def __init__(self, z, dtype=None):
        self.z = z
        self.dtype = np.dtype(dtype or f"{self.kind}8[ns]")

    def astype(self, t, *a, **k):
        from .z3load import z3

        t = np.dtype(t)
        if t == np.dtype("int64"):
            return STInt(self.z)
        if t.kind != self.kind:
            raise Unsupported(f"{type(self).__name__}.astype({t})")
        if t == self.dtype or np.datetime_data(t)[0] == "generic":
            return self
        f, g = _ns(self.dtype), _ns(t)
        z = self.z * (f // g) if f % g == 0 else self.z / (g // f) if g % f == 0 else None
        if z is None:
            raise Unsupported(f"{self.dtype}.astype({t})")
        if self.kind == "m" and f % g:  # timedeltas round towards zero
            z = z3.If(self.z >= 0, z, -(-self.z / (g // f)))
        return type(self)(z3.simplify(z), t)

    def view(self, t):
        t = np.dtype(t)
        if t == np.dtype("int64"):
            return STInt(self.z)
        if t == self.dtype:
            return self
        raise Unsupported(f"{self.dtype}.view({t})")

    def item(self):
        return self

    @property
    def ns(self):
        return self.z if _ns(self.dtype) == 1 else self.z * _ns(self.dtype)

    def _o(self, o):
        if isinstance(o, type(self)):
            return o.ns
        if isinstance(o, np.ndarray) and o.shape == ():
            o = o.item() if o.dtype == object else o[()]
            return self._o(o)
        if isinstance(o, np.datetime64 if self.kind == "M" else np.timedelta64):
            if np.isnat(o):
                return None
            return int(o.astype(f"{self.kind}8[ns]").astype("int64"))
        raise Unsupported(f"time compared with {type(o)}")

    def _c(self, o, f):
        o = self._o(o)
        return SBool(f(self.ns, o)) if o is not None else False

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else ~r if hasattr(r, "__invert__") else not r

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"{type(self).__name__}({self.z})"


class SymTime(_Ticks):
    """Time since the epoch (nanoseconds unless said otherwise)."""

    __slots__ = ()

    def __sub__(self, o):
        if isinstance(o, (SymDelta, np.timedelta64)):
            return SymTime(self.ns - SymDelta(0)._o(o))
        return SymDelta(self.ns - self._o(o))

    def __rsub__(self, o):
        return SymDelta(self._o(o) - self.ns)

    def __add__(self, o):
        return SymTime(self.ns + SymDelta(0)._o(o))

    __radd__ = __add__


class SymDelta(_Ticks):
    __slots__ = ()
    kind = "m"

    def __add__(self, o):
        return SymTime(self.ns + SymTime(0)._o(o)) if isinstance(o, (SymTime, np.datetime64)) else SymDelta(self.ns + self._o(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymDelta(self.ns - self._o(o))

    def __neg__(self):
        return SymDelta(-self.ns)

    def __floordiv__(self, o):
        from .z3load import z3

        o = self._o(o)
        if not isinstance(o, int) or o <= 0:
            raise Unsupported("timedelta divided by a symbolic or non-positive timedelta")
        return STInt(z3.simplify(self.ns / o))

    def __mod__(self, o):
        o = self._o(o)
        if not isinstance(o, int) or o <= 0:
            raise Unsupported("timedelta modulo a symbolic or non-positive timedelta")
        return SymDelta(self.ns % o)

    def __mul__(self, o):
        if isinstance(o, SInt):
            return SymDelta(self.ns * o.z)
        return SymDelta(self.ns * int(o))

    __rmul__ = __mul__


class STInt(SInt):
    """int64 view of a time."""

    __slots__ = ()
    dtype = np.dtype("int64")
    shape = ()
    ndim = 0

    def _w(self, z):
        from .z3load import z3

        return STInt(z3.simplify(z))

    def astype(self, t, *a, **k):
        t = np.dtype(t)
        if t == np.dtype("datetime64[ns]"):
            return SymTime(self.z)
        if t == np.dtype("int64"):
            return self
        raise Unsupported(f"astype({t})")

    view = astype


class TimeShim(NumpyShim):
    """numpy whose array()/asarray() let symbolic scalars through."""

    def array(self, x, *a, **k):
        if has_sym(x) or isinstance(x, _Ticks):
            return x
        return np.array(x, *a, **k)

    def asarray(self, x, *a, **k):
        if has_sym(x) or isinstance(x, _Ticks):
            return x
        return np.asarray(x, *a, **k)

    def floor_divide(self, a, b):
        return a // b

    def subtract(self, a, b):
        return a - b

    def multiply(self, a, b):
        return a * b

    def remainder(self, a, b):
        return a % b

    mod = remainder
