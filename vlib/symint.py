"""Symbolic machine integers, datetimes and timestamps (numpy scalar semantics) for host code."""
from __future__ import annotations

import datetime as _dt

import numpy as np

from .dom import Unsupported
from .pysym import SBool
from .z3load import z3

UNITS = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9, "m": 60 * 10**9, "h": 3600 * 10**9, "D": 86400 * 10**9}


def wrap(z, dt):
    if dt is None:
        return z
    n = dt.itemsize * 8
    m = z % (1 << n)
    if dt.kind == "i":
        m = z3.If(m >= (1 << (n - 1)), m - (1 << n), m)
    return m


def zof(o):
    if isinstance(o, SI):
        return o.z, o.dt
    if isinstance(o, (bool, np.bool_)):
        return z3.IntVal(int(o)), None
    if isinstance(o, np.integer):
        return z3.IntVal(int(o)), o.dtype
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return zof(o[()])
    if isinstance(o, int):
        return z3.IntVal(o), None
    raise Unsupported(f"integer operation with {type(o)}")


def res_dt(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return np.promote_types(a, b)


def ndt(t):
    if isinstance(t, type) and type(t).__name__ == "Meta":
        t = t.__name__
    return np.dtype(t)


def and_const(x, m):
    """x & m for a constant m (two's complement of unbounded width)."""
    if m < 0:
        return x - and_const(x, ~m)
    r, k = z3.IntVal(0), 0
    while m >> k:
        if not (m >> k) & 1:
            k += 1
            continue
        j = k
        while (m >> j) & 1:
            j += 1
        r = r + ((x / 2**k) % 2 ** (j - k)) * 2**k
        k = j
    return r


class SI:
    """Integer: z (z3 Int) of machine type dt (None = Python int)."""

    __array_priority__ = 1000
    __array_ufunc__ = None
    shape = ()
    ndim = 0

    def __init__(self, z, dt=None):
        self.z, self.dt = z, None if dt is None else np.dtype(dt)

    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError("dtype")
        return self.dt

    def _mk(self, z, dt):
        z = z3.simplify(z)
        return SI(wrap(z, dt), dt)

    def _bin(self, o, f, swap=False):
        z, dt = zof(o)
        d = res_dt(self.dt, dt)
        return self._mk(f(z, self.z) if swap else f(self.z, z), d)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return self._mk(-self.z, self.dt)

    def _pos(self, o):
        z, dt = zof(o)
        if not (z3.is_int_value(z) and z.as_long() > 0):
            raise Unsupported("division by a symbolic or non-positive value")
        return z.as_long(), dt

    def __floordiv__(self, o):
        d, dt = self._pos(o)
        return self._mk(self.z / d, res_dt(self.dt, dt))

    def __mod__(self, o):
        d, dt = self._pos(o)
        return self._mk(self.z % d, res_dt(self.dt, dt))

    def _cst(self, o):
        z, dt = zof(o)
        z = z3.simplify(z)
        if not z3.is_int_value(z):
            raise Unsupported("bit operation with a symbolic operand")
        return z.as_long(), dt

    def __rshift__(self, o):
        k, dt = self._cst(o)
        return self._mk(self.z / (1 << k), res_dt(self.dt, dt))

    def __lshift__(self, o):
        k, dt = self._cst(o)
        return self._mk(self.z * (1 << k), res_dt(self.dt, dt))

    def _and(self, z, d):
        """Bitwise and with z as a z3 integer: a constant is split into runs of ones; two symbolic operands when one of them is
        known to have no bits in common, or through 72-bit vectors when both are known to fit."""
        m = z3.simplify(z)
        x = self.z
        if not z3.is_int_value(m) and z3.is_int_value(z3.simplify(x)):
            m, x = z3.simplify(x), z
        if z3.is_int_value(m):
            return and_const(x, m.as_long())
        from .pysym import cur

        sure = lambda c: cur()._check(z3.Not(c))[0] == z3.unsat
        for lo, hi in ((x, m), (m, x)):
            for k in (32, 16, 48, 8):
                if sure(z3.And(lo >= -(2**k), lo < 2**k, hi % 2**k == 0)):
                    return z3.If(lo < 0, hi, z3.IntVal(0))
        if sure(z3.And(x >= -(2**70), x < 2**70, m >= -(2**70), m < 2**70)):
            return z3.BV2Int(z3.Int2BV(x, 72) & z3.Int2BV(m, 72), True)
        raise Unsupported("bit operation of unbounded operands")

    def __and__(self, o):
        z, dt = zof(o)
        d = res_dt(self.dt, dt)
        return self._mk(self._and(z, d), d)

    __rand__ = __and__

    def __or__(self, o):
        z, dt = zof(o)
        d = res_dt(self.dt, dt)
        return self._mk(self.z + z - self._and(z, d), d)

    __ror__ = __or__

    def __xor__(self, o):
        z, dt = zof(o)
        d = res_dt(self.dt, dt)
        return self._mk(self.z + z - 2 * self._and(z, d), d)

    __rxor__ = __xor__

    def __invert__(self):
        return self._mk(-self.z - 1, self.dt)

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f):
        return SBool(f(self.z, zof(o)[0]))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = None

    def item(self):
        return SI(self.z)

    def astype(self, t, *a, **k):
        t = ndt(t)
        if t.kind in "iu":
            return SI(z3.simplify(wrap(self.z, t)), t)
        if t.kind == "M":
            return SDT(self.z, np.datetime_data(t)[0])
        raise Unsupported(f"astype {t}")

    view = astype

    def __repr__(self):
        return f"SI({self.z},{self.dt})"


class SDT:
    """np.datetime64 scalar counted in `unit`s."""

    __array_ufunc__ = None
    shape = ()
    ndim = 0

    def __init__(self, z, unit):
        self.z, self.unit = z, unit

    @property
    def dtype(self):
        return np.dtype(f"M8[{self.unit}]")

    def to(self, unit):
        a, b = UNITS[self.unit], UNITS[unit]
        z = self.z * (a // b) if a >= b else self.z / (b // a)
        return SDT(z, unit)

    def astype(self, t, *a, **k):
        t = ndt(t)
        if t.kind == "M":
            return self.to(np.datetime_data(t)[0])
        if t == np.dtype("int64"):
            return SI(self.z, t)
        raise Unsupported(f"astype {t}")

    view = astype

    def item(self):
        return self


class SStamp:
    """pandas Timestamp (ns)."""

    def __init__(self, z):
        self.z = z

    @property
    def value(self):
        return SI(self.z)

    asm8 = property(lambda s: SDT(s.z, "ns"))

    def to_datetime64(self):
        return SDT(self.z, "ns")

    def to_pydatetime(self, warn=True):
        return SPyDT(self.z / 1000)


class SPyDT:
    """datetime.datetime (us)."""

    def __init__(self, z):
        self.z = z


def _kls(name, real, proxy, conv=None):
    """A class that stands for `real` in isinstance tests (accepting the proxy) and as a constructor."""

    class Meta(type):
        def __instancecheck__(cls, x):
            return (proxy(x) if callable(proxy) and not isinstance(proxy, type) else isinstance(x, proxy)) or isinstance(x, real)

        def __call__(cls, *a, **k):
            if a and conv is not None:
                r = conv(*a, **k)
                if r is not NotImplemented:
                    return r
            return real(*a, **k)

        def __getattr__(cls, k):
            return getattr(real, k)

    return Meta(name, (), {})


def _to_int(x):
    if isinstance(x, SI):
        return SI(x.z)
    return NotImplemented


def _int64(x=0):
    if isinstance(x, SI):
        return x.astype(np.int64)
    return NotImplemented


class NpInt:
    """numpy for code on integer/datetime scalars."""

    def __getattr__(self, k):
        v = getattr(np, k)
        if isinstance(v, type) and issubclass(v, np.integer):
            dt = np.dtype(v)
            return _kls(k, v, lambda x: isinstance(x, SI) and x.dt == dt, lambda x=0, *a: x.astype(dt) if isinstance(x, SI) else NotImplemented)
        return v

    @property
    def datetime64(self):
        def conv(x, *a):
            if isinstance(x, SPyDT):
                return SDT(x.z, "us") if not a else SDT(x.z, "us").to(a[0])
            if isinstance(x, SStamp):
                return SDT(x.z, "ns")
            if isinstance(x, SI):
                return SDT(x.z, a[0])
            if isinstance(x, SDT):
                return x.to(a[0]) if a else x
            return NotImplemented

        return _kls("datetime64", np.datetime64, SDT, conv)

    def issubdtype(self, a, b):
        if getattr(b, "__name__", "") == "datetime64":
            b = np.datetime64
        return np.issubdtype(a, b)

    @staticmethod
    def _dt(dtype):
        if dtype is None:
            return None
        return ndt(dtype)

    def array(self, x, dtype=None, **k):
        dt = self._dt(dtype)
        if isinstance(x, (SI, SDT)):
            return x if dt is None else x.astype(dt)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x.copy() if dt is None else vec([e.astype(dt) for e in x.reshape(-1).tolist()]).reshape(x.shape)
        if isinstance(x, (list, tuple)) and any(isinstance(e, (SI, SDT)) for e in x):
            if dt is None and all(isinstance(e, SI) and e.dt is None for e in x):
                dt = np.dtype(np.int64)
            return vec([e if dt is None or not isinstance(e, (SI, SDT)) else e.astype(dt) for e in x])
        return np.array(x, dtype=dt, **k)

    asarray = array

    def reshape(self, x, s):
        if isinstance(x, (SI, SDT)):
            x = vec([x])
        return np.reshape(x, s)

    def shape(self, x):
        return () if isinstance(x, (SI, SDT)) else np.shape(x)

    def ndim(self, x):
        return len(self.shape(x))

    def stack(self, xs, *a, **k):
        xs = list(xs)
        return np.stack([vec0(x) if isinstance(x, (SI, SDT)) else x for x in xs], *a, **k)

    def concatenate(self, xs, *a, **k):
        return np.concatenate([np.asarray(x) for x in xs], *a, **k)

    def right_shift(self, a, b):
        return a >> b

    def left_shift(self, a, b):
        return a << b

    def bitwise_and(self, a, b):
        return a & b

    def bitwise_or(self, a, b):
        return a | b

    def bitwise_xor(self, a, b):
        return a ^ b

    def floor_divide(self, a, b):
        return a // b


class OArr(np.ndarray):
    """Object array of SI elements with numpy's astype/view/tobytes on their bytes (little-endian)."""

    def _dt(self):
        ds = {e.dt for e in self.reshape(-1).tolist() if isinstance(e, SI)}
        d = ds.pop() if len(ds) == 1 else None
        if d is None or self.size == 0 or not all(isinstance(e, SI) for e in self.reshape(-1).tolist()):
            raise Unsupported("bytes of a mixed array")
        return d

    def astype(self, t, *a, **k):
        if t is object:
            return np.ndarray.astype(self, t, *a, **k)
        return vec([e.astype(ndt(t)) if isinstance(e, (SI, SDT)) else ndt(t).type(e) for e in self.reshape(-1).tolist()]).reshape(self.shape)

    def view(self, *a, **k):
        if len(a) != 1 or k or a[0] is OArr or a[0] is np.ndarray:
            return np.ndarray.view(self, *a, **k)
        t, d = ndt(a[0]), self._dt()
        if t.kind not in "iu":
            raise Unsupported(f"view as {t}")
        n, m = d.itemsize, t.itemsize
        if n != m and (self.ndim == 0 or self.strides[-1] != self.itemsize):
            raise ValueError("To change to a dtype of a different size, the last axis must be contiguous")
        rows = [list(r) for r in self.reshape(-1, self.shape[-1] if self.ndim else 1).tolist()]
        out = []
        for r in rows:
            if n >= m:
                q = [SI(z3.simplify(wrap((wrap(e.z, np.dtype(f"u{n}")) / 2 ** (8 * m * i)) % 2 ** (8 * m), t)), t) for e in r for i in range(n // m)]
            else:
                g = m // n
                if len(r) % g:
                    raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
                q = [SI(z3.simplify(wrap(sum(wrap(e.z, np.dtype(f"u{n}")) * 2 ** (8 * n * i) for i, e in enumerate(r[j:j + g])), t)), t) for j in range(0, len(r), g)]
            out.append(q)
        flat = vec([x for r in out for x in r])
        return flat.reshape(self.shape[:-1] + (len(out[0]),)) if self.ndim else flat.reshape(())

    def tobytes(self, *a, **k):
        d = self._dt()
        return SBytes([(wrap(e.z, np.dtype(f"u{d.itemsize}")), d.itemsize) for e in self.reshape(-1).tolist()])


class SBytes:
    """Little-endian bytes of unsigned words [(z, size)]."""

    def __init__(self, words):
        self.words = words

    def value(self, signed):
        n = sum(k for _, k in self.words)
        z, at = z3.IntVal(0), 0
        for w, k in self.words:
            z, at = z + w * 2 ** (8 * at), at + k
        if signed:
            z = z3.If(z >= 2 ** (8 * n - 1), z - 2 ** (8 * n), z)
        return SI(z3.simplify(z))


def vec(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a.view(OArr)


def vec0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a.view(OArr)


class PdShim:
    def __getattr__(self, k):
        import pandas as pd

        return getattr(pd, k)

    @property
    def Timestamp(self):
        import pandas as pd

        return _kls("Timestamp", pd.Timestamp, SStamp, self._stamp)

    @staticmethod
    def _stamp(x, *a, unit=None, **k):
        if isinstance(x, SI):
            return SStamp(x.z * UNITS[unit or "ns"])
        if isinstance(x, SDT):
            return SStamp(x.to("ns").z)
        if isinstance(x, SStamp):
            return x
        return NotImplemented

    def to_datetime(self, x, *a, **k):
        r = self._stamp(x, *a, **k)
        if r is NotImplemented:
            import pandas as pd

            return pd.to_datetime(x, *a, **k)
        return r


class DtShim:
    """The datetime module."""

    def __getattr__(self, k):
        return getattr(_dt, k)

    @property
    def datetime(self):
        return _kls("datetime", _dt.datetime, SPyDT)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SI)) and not (isinstance(x, SI) and x.dt is not None)

    def __call__(cls, x=0, *a):
        if isinstance(x, SI):
            return SI(x.z)
        return int(x, *a) if a else int(x)


class IntShim(metaclass=_IntMeta):
    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if not isinstance(b, SBytes):
            return int.from_bytes(b, byteorder, signed=signed)
        if byteorder != "little":
            b = SBytes([((w / 2 ** (8 * i)) % 256, 1) for w, k in b.words for i in range(k)][::-1])
        return b.value(signed)


class JnpShim:
    def __getattr__(self, k):
        import jax.numpy as jnp

        return getattr(jnp, k)

    def array(self, x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        import jax.numpy as jnp

        return jnp.array(x, *a, **k)

    asarray = array
