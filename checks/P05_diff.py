"""P05: first differences, relative changes and forward filling."""
import itertools

import numpy as np

from vlib import dom, wx
from vlib.dom import b_and, b_not, f_div, f_ite, f_sub
from vlib.harness import check_equiv
from vlib.spec import NAN, ONE, ZERO
from vlib.symjax import SymArr, obj

BOUNDS = (
    "4 (quick) / 7 (thorough) symbolic steps with symbolic missing values and zeros, shapes (), (2,), (2,3); symbolic steps "
    "after concrete prefixes of 60/200 steps; fill_method pad/ffill/other, fillna_zero"
    "; 3 symbolic int32 and boolean steps for data of shape (2,)"
)
ASSUMPTIONS = ["differences and quotients: exact reals with NaN/infinity flags (up to rounding); forward fill: IEEE bits"]
META = dict(
    title="Diff, PctChange and Ffill follow their element-wise definitions",
    statement="At every step and for every element (Haiku and Flax): the difference of floating-point data is x_t - x_{t-1}; forward fill returns the "
    "latest non-missing value seen so far, bit for bit, or NaN if there was none; the relative change is x_t / p - 1 with p the previous "
    "element, forward-filled when the fill method is pad/ffill and raw otherwise, and 0 where x_t is missing, p is known and "
    "fillna_zero is set (NaN if not set). The first step has no predecessor and yields NaN."
    " The relative change of integer and boolean observations is the one of the same observations as floats.",
    over=["inputs", "histories", "configurations"],
    quant="all sequences, all patterns of missing and zero values, all shapes and options",
    why="tests compare one fixed series with pandas",
    files=["src/wax/modules/diff.py", "src/wax/modules/pct_change.py", "src/wax/modules/ffill.py",
           "src/wax/flax/modules/diff.py", "src/wax/flax/modules/pct_change.py", "src/wax/flax/modules/ffill.py"],
    mech=[("Diff / PctChange / Ffill", "src/wax/modules, src/wax/flax/modules")],
)


def tasks(tier):
    n = 4 if tier == "quick" else 7
    L = 60 if tier == "quick" else 200
    out = []
    for impl in ("haiku", "flax"):
        for mod in ("Diff", "Ffill", "PctChange"):
            out.append(dict(name=f"{impl}-{mod}", fn="t_mod", kw=dict(impl=impl, mod=mod, n=n)))
            out.append(dict(name=f"{impl}-{mod}-prefix", fn="t_prefix", kw=dict(impl=impl, mod=mod, L=L)))
    for impl in ("haiku", "flax"):
        out.append(dict(name=f"{impl}-PctChange-ints", fn="t_ints", kw=dict(impl=impl)))
    return out


def t_ints(T, impl):
    from vlib.intdata import same_as_float

    same_as_float(T, f"{impl} PctChange", lambda x: wx.steps(impl, mk(impl, "PctChange"), x), [(3, 2)], f"{impl} PctChange", floats="fp")


def mk(impl, mod, **kw):
    import importlib

    if impl == "haiku":
        import wax.modules as m

        return lambda x: getattr(m, mod)(**kw)(x)
    import wax.flax.modules as m

    return getattr(m, mod)(**kw)


def ffill(I, col, dt):
    last = I.lift_scalar(np.nan, dt)
    out = []
    for x in col:
        last = I.ite(I.isnan(x, dt), last, x, dt)
        out.append(last)
    return out


def spec_col(I, mod, col, dt, fill=True, zero=True):
    if mod == "Ffill":
        return ffill(I, col, dt)
    if mod == "Diff":
        return [NAN] + [f_sub(b, a) for a, b in zip(col, col[1:])]
    p = [NAN] + (ffill(I, col, dt) if fill else list(col))[:-1]
    out = []
    for x, q in zip(col, p):
        v = f_div(x, q) - 1.0
        if zero:
            v = f_ite(b_and(x.nan, b_not(q.nan)), ZERO, v)
        out.append(v)
    return out


def spec_all(I, mod, xs, **k):
    n, shape = xs.shape[0], xs.shape[1:]
    res = [obj(shape) for _ in range(n)]
    for ix in np.ndindex(*shape):
        for r, v in zip(res, spec_col(I, mod, [xs.a[(t,) + ix] for t in range(n)], xs.dtype, **k)):
            r[ix] = v
    return [SymArr(r, xs.dtype) for r in res]


def configs(mod):
    if mod != "PctChange":
        return [({}, {})]
    return [(dict(fill_method=f, fillna_zero=z), dict(fill=f in ("pad", "ffill"), zero=z))
            for f in ("pad", "ffill", "none") for z in (True, False)]


def gen_for(shape):
    def gen(rng):
        x = (rng.integers(-8, 9, shape) / 4).astype(np.float32)
        x[rng.random(shape) < 0.25] = np.nan
        return dict(xs=x)

    return gen


def t_mod(T, impl, mod, n):
    T.bounds = dict(steps=n)
    for kw, sk in configs(mod):
        for shape in ((), (2,), (2, 3)):
            m = n if shape == () else 3
            check_equiv(T, f"{mod} {kw} {shape}", lambda I: dict(xs=I.sym("x", (m, *shape))),
                        lambda xs: wx.steps(impl, mk(impl, mod, **kw), xs),
                        lambda I, xs: spec_all(I, mod, xs, **sk), floats="fp" if mod == "Ffill" else "real",
                        what=f"{impl} {mod} differs from its definition", sample_gen=gen_for((m, *shape)))
            if T.violations:
                return


def t_prefix(T, impl, mod, L):
    k = 2
    px = (np.arange(L, dtype=np.float32) % 7) + 1
    px[::5] = np.nan
    for tail in (np.nan, 3.0):
        px[-1] = tail
        for kw, sk in configs(mod):
            def inputs(I):
                return dict(xs=SymArr(np.concatenate([I.lift(px).a, I.sym("x", (k,)).a]), np.float32))

            def gen(rng):
                return dict(xs=np.concatenate([px, gen_for((k,))(rng)["xs"]]))

            def spec(I, xs):
                return SymArr(np.stack([v.a for v in spec_all(I, mod, xs, **sk)[-k:]]), np.float32)

            check_equiv(T, f"{mod} {kw} prefix{L} tail={tail}", inputs,
                        lambda xs: wx.scan(impl, mk(impl, mod, **kw), xs, last=k), spec,
                        floats="fp" if mod == "Ffill" else "real", what=f"{impl} {mod} deviates after {L} steps", sample_gen=gen)
            if T.violations:
                return
