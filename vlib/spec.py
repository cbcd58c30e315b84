"""Helpers to write specifications over scalars of either float model."""
from __future__ import annotations

import numpy as np

from . import dom
from .dom import F, b_and, b_not, b_or, f_const
from .symjax import SymArr, obj

NAN = dom.NAN
ONE = f_const(1.0)
ZERO = f_const(0.0)
f32 = np.dtype(np.float32)


def sc(v, dtype=f32):
    o = obj(())
    o[()] = v
    return SymArr(o, dtype)


def arr(vs, dtype=f32):
    """nested list / object array of scalars -> SymArr"""
    if isinstance(vs, np.ndarray) and vs.dtype == object:
        return SymArr(vs, dtype)

    def shape(v):
        return (len(v),) + (shape(v[0]) if v else ()) if isinstance(v, (list, tuple)) else ()

    s = shape(vs)
    o = obj(s)
    for ix in np.ndindex(*s):
        v = vs
        for i in ix:
            v = v[i]
        o[ix] = v
    return SymArr(o, dtype)


def each(x, f):
    """Apply f elementwise to the trailing element positions of a list of arrays."""
    raise NotImplementedError


def elementwise(xs, f, dtype=f32):
    """xs: SymArr (T, *shape).  f maps the list of T scalars of one element to a list of T' scalars.
    Returns list of T' SymArr of shape `shape`."""
    shape = xs.a.shape[1:]
    res = None
    for ix in np.ndindex(*shape):
        col = [xs.a[(t,) + ix] for t in range(xs.a.shape[0])]
        out = f(col)
        if res is None:
            res = [obj(shape) for _ in out]
        for r, o in zip(res, out):
            r[ix] = o
    return [SymArr(r, dtype) for r in res]


def isnan(I, s, dtype=f32):
    return I.isnan(s, dtype)


def fsum(vals):
    r = ZERO
    for v in vals:
        r = r + v
    return r
