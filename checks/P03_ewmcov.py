"""P03: exponential moving covariance = EW mean of the products minus the product of the EW means."""
import itertools

import numpy as np

from checks.P01_ewma import ewma_closed, ewma_linear
from checks.P02_ewmvar import masked
from vlib import wx
from vlib.dom import f_const, f_mul, f_sub
from vlib.harness import check_equiv
from vlib.spec import NAN, ONE
from vlib.symjax import SymArr, obj

BOUNDS = (
    "<=3 (quick) / <=4 (thorough) steps of symbolic x (2 entries) and y (1..2 entries) for all/representative NaN patterns, "
    "symbolic com>=0 or alpha in (0,1], adjust in {True, False, 'linear'}, ignore_na, min_periods 0..2, centered or not, "
    "symbolic initial value"
    "; 3 symbolic int32 and boolean steps for data of shape (2,)"
)
ASSUMPTIONS = [
    "floating point is modelled by exact reals with NaN/infinity flags: equality is claimed up to rounding",
    "observations are finite or NaN",
]
META = dict(
    title="Exponential moving covariance matches its documented definition",
    statement="At every step entry (i, j) of the exponential moving covariance of x and y (Haiku and Flax) equals the "
    "exponential moving average of x_i*y_j minus the product of the exponential moving averages of x_i and y_j, or the "
    "first term alone when the data are assumed centered, each with the decay, adjustment, missing-value, min_periods "
    "and initial-value options given. Passing x and y as a tuple or separately gives the same result."
    " Integer and boolean observations are treated like the same observations as floats.",
    over=["inputs", "histories", "configurations"],
    quant="all sequences of vectors x, y (finite or NaN), all decays and options",
    why="tests compare a few random series with pandas for default options",
    files=["src/wax/modules/ewmcov.py", "src/wax/flax/modules/ewmcov.py"],
    mech=[("EWMCov.__call__", "src/wax/modules/ewmcov.py"), ("EWMCov.__call__", "src/wax/flax/modules/ewmcov.py")],
)


def tasks(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for impl in ("haiku", "flax"):
        for adjust in (True, False, "linear"):
            for ign in (False, True):
                for centered in (False, True):
                    init = centered ^ ign
                    out.append(dict(name=f"{impl}-{adjust}-ign{int(ign)}-cent{int(centered)}-init{int(init)}", fn="t_cov",
                                    kw=dict(impl=impl, adjust=adjust, ign=ign, centered=centered, init=init, n=n,
                                            mp=(2 if ign else 0), param="alpha" if ign != centered else "com")))
        for a, b in ((2, 2), (1, 1), (1, 2)):
            for adjust in (True, False):
                out.append(dict(name=f"{impl}-{a}x{b}-{adjust}", fn="t_cov", kw=dict(impl=impl, adjust=adjust, ign=not adjust, centered=False, init=False, n=2 if a == 2 else n, mp=0, param="com", dims=(a, b))))
        out.append(dict(name=f"{impl}-tuple", fn="t_tuple", kw=dict(impl=impl)))
    for impl in ("haiku", "flax"):
        for adjust in (True, False, "linear"):
            out.append(dict(name=f"{impl}-{adjust}-ints", fn="t_ints", kw=dict(impl=impl, adjust=adjust)))
    return out


def t_ints(T, impl, adjust):
    from vlib.intdata import same_as_float

    same_as_float(T, f"{impl} EWMCov(adjust={adjust!r})", lambda x, y: wx.steps(impl, make(impl, com=2.0, adjust=adjust, assume_centered=False), x, y),
                  [(3, 2), (3, 2)], f"{impl} EWMCov(adjust={adjust!r})")


def make(impl, tup=False, **kw):
    if impl == "haiku":
        from wax.modules.ewmcov import EWMCov

        return (lambda x, y: EWMCov(**kw)((x, y))) if tup else (lambda x, y: EWMCov(**kw)(x, y))
    from wax.flax.modules.ewmcov import EWMCov

    return EWMCov(**kw)


def ew(col, nans, com, adjust, ign, mp, init):
    if adjust == "linear":
        return ewma_linear(col, nans, com, ign, mp, init)
    return ewma_closed(col, nans, com, adjust, ign, mp, init)


def spec_cov(xs, ys, px, py, com, adjust, ign, mp, init, centered):
    n, a, b = xs.shape[0], xs.shape[1], ys.shape[1]
    res = [obj((a, b)) for _ in range(n)]
    for i in range(a):
        for j in range(b):
            x = [xs.a[t, i] for t in range(n)]
            y = [ys.a[t, j] for t in range(n)]
            nx, ny = [bool(v) for v in px[:, i]], [bool(v) for v in py[:, j]]
            mxy = ew([f_mul(u, v) for u, v in zip(x, y)], [p or q for p, q in zip(nx, ny)], com, adjust, ign, mp, init)
            if centered:
                c = mxy
            else:
                mx = ew(x, nx, com, adjust, ign, mp, init)
                my = ew(y, ny, com, adjust, ign, mp, init)
                c = [f_sub(p, f_mul(q, r)) for p, q, r in zip(mxy, mx, my)]
            for t in range(n):
                res[t][i, j] = c[t]
    return [SymArr(r, np.float32) for r in res]


def t_cov(T, impl, adjust, ign, centered, init, n, mp, param, dims=(2, 1)):
    T.bounds = dict(steps=n, entries="x".join(map(str, dims)))
    for cval in [None] if adjust != "linear" else [0.5, 1.75]:
        prep = {}
        pats = list(itertools.product([0, 1], repeat=2 * n))
        if len(pats) > 64:
            pats = pats[:: len(pats) // 64 or 1]
        for k, pat in enumerate(pats):
            # x column 0 and y follow the pattern, x column 1 its reverse
            px = np.array([[pat[t], pat[n - 1 - t]][:dims[0]] for t in range(n)], bool)
            py = np.array([[pat[n + t], pat[2 * n - 1 - t]][:dims[1]] for t in range(n)], bool)

            def inputs(I):
                d = dict(xs=masked(I, "x", px), ys=masked(I, "y", py))
                if cval is None:
                    d["p"] = I.sym("p", (), nan=False, nonneg=param == "com", pos=param == "alpha")
                if init:
                    d["iv"] = I.sym("iv", (), nan=False)
                return d

            def assume(I, xs, ys, p=None, iv=None):
                return [p.a[()].r <= 1] if param == "alpha" and p is not None else []

            def run(xs, ys, p=None, iv=None):
                if p is None:
                    p = cval if param == "com" else 1 / (1 + cval)
                kw = {param: p, "adjust": adjust, "ignore_na": ign, "min_periods": mp, "assume_centered": centered}
                if iv is not None:
                    kw["initial_value"] = iv
                return wx.steps(impl, make(impl, **kw), xs, ys)

            def spec(I, xs, ys, p=None, iv=None):
                if p is None:
                    c = f_const(cval)
                else:
                    p = I.lift(p).a[()]
                    c = p if param == "com" else ONE / p - 1.0
                return spec_cov(xs, ys, px, py, c, adjust, ign, mp, None if iv is None else I.lift(iv).a[()], centered)

            def gen(rng):
                x = (rng.integers(-20, 20, (n, dims[0])) / 8).astype(np.float32)
                y = (rng.integers(-20, 20, (n, dims[1])) / 8).astype(np.float32)
                x[px] = np.nan
                y[py] = np.nan
                d = dict(xs=x, ys=y)
                if cval is None:
                    d["p"] = np.float32(rng.integers(1, 9) / 8)
                if init:
                    d["iv"] = np.float32(0.75)
                return d

            check_equiv(T, f"com={cval} nan={pat}", inputs, run, spec, assume=assume, prepared=prep, sign_oracle=True,
                        what=f"{impl} EWMCov differs from its definition", validate=1 if k % 16 == 0 else 0,
                        canary=k == 0, sample_gen=gen)
            if T.violations:
                return


def t_tuple(T, impl):
    n = 2
    z = np.zeros((n, 2), bool)

    def run(xs, ys):
        if impl == "haiku":
            a = wx.steps(impl, make(impl, tup=True, com=2.0), xs, ys)
        else:
            import jax

            m = make(impl, com=2.0)
            o, v = m.init_with_output(jax.random.PRNGKey(0), (xs[0], ys[0]))
            o2, _ = m.apply(v, (xs[1], ys[1]), mutable=True)
            a = [o, o2]
        return a

    check_equiv(T, "tuple argument", lambda I: dict(xs=masked(I, "x", z), ys=masked(I, "y", z)), run,
                lambda I, xs, ys: spec_cov(xs, ys, z, z, f_const(2.0), True, False, 0, None, False),
                sign_oracle=True, what=f"{impl} EWMCov((x, y)) differs from EWMCov(x, y)")
