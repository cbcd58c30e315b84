"""P08: OHLC bins."""
import numpy as np

from vlib import dom, wx
from vlib.dom import b_and, b_not, b_or
from vlib.harness import check_equiv
from vlib.symjax import SymArr, obj

BOUNDS = (
    "4 (quick) / 6 (thorough) symbolic steps, symbolic reset at every step, symbolic missing values, shapes (), (2,) and (2,3); "
    "symbolic steps after concrete prefixes of 50/200 steps"
    "; 3 symbolic int32 and boolean steps for data of shape (2,)"
)
ASSUMPTIONS = ["IEEE float32 comparisons (no arithmetic involved)"]
META = dict(
    title="OHLC gives the first, highest, lowest and last value of the current bin",
    statement="At every step and for every element (Haiku and Flax) OPEN, HIGH, LOW and CLOSE are the first, largest, smallest and "
    "last non-missing input since the latest reset, the input of the resetting step included; all four are NaN while the bin "
    "holds no non-missing input. Values of earlier bins never leak into the current one."
    " Integer and boolean observations are treated like the same observations as floats.",
    over=["inputs", "histories"],
    quant="all input sequences, all reset patterns, all missing-value patterns",
    why="tests use one random-walk day series and resets at day boundaries",
    files=["src/wax/modules/ohlc.py", "src/wax/flax/modules/ohlc.py"],
    mech=[("OHLC.__call__", "src/wax/modules/ohlc.py"), ("OHLC.__call__", "src/wax/flax/modules/ohlc.py")],
)


def tasks(tier):
    n = 4 if tier == "quick" else 6
    L = 50 if tier == "quick" else 200
    out = []
    for impl in ("haiku", "flax"):
        for shape in ([], [2], [2, 3]):
            out.append(dict(name=f"{impl}-{len(shape)}d", fn="t_ohlc", kw=dict(impl=impl, shape=shape, n=n if not shape else 4 - len(shape))))
        out.append(dict(name=f"{impl}-prefix", fn="t_prefix", kw=dict(impl=impl, L=L)))
    for impl in ("haiku", "flax"):
        out.append(dict(name=f"{impl}-ints", fn="t_ints", kw=dict(impl=impl)))
    return out


def t_ints(T, impl):
    from vlib.intdata import same_as_float

    def run(x, r):
        return wx.steps(impl, mk(impl), x, r)

    same_as_float(T, f"{impl} OHLC", run, [(3, 2)], f"{impl} OHLC", floats="fp", others={"r": ((3,), np.bool_)})


def mk(impl):
    if impl == "haiku":
        from wax.modules import OHLC

        return lambda x, r: OHLC()(x, reset_on=r)
    from wax.flax.modules import OHLC

    return OHLC()


def spec(I, xs, rs, last=None):
    n, shape = xs.shape[0], xs.shape[1:]
    dt = np.dtype(np.float32)
    nan = I.lift_scalar(np.nan, dt)
    outs = []
    O, H, L, C = (obj(shape) for _ in range(4))
    for a in (O, H, L, C):
        for ix in np.ndindex(*shape):
            a[ix] = nan
    for t in range(n):
        r = rs.a[t]
        O, H, L, C = (a.copy() for a in (O, H, L, C))
        for ix in np.ndindex(*shape):
            x = xs.a[(t,) + ix]
            xn = I.isnan(x, dt)
            o, h, l, c = (I.ite(r, nan, a[ix], dt) for a in (O, H, L, C))
            empty = I.isnan(o, dt)
            O[ix] = I.ite(empty, x, o, dt)
            H[ix] = I.ite(b_and(b_not(xn), b_or(empty, I.cmp("gt", x, h, dt))), x, h, dt)
            L[ix] = I.ite(b_and(b_not(xn), b_or(empty, I.cmp("lt", x, l, dt))), x, l, dt)
            C[ix] = I.ite(xn, c, x, dt)
        outs.append(tuple(SymArr(a, dt) for a in (O, H, L, C)))
    return outs[-last:] if last else outs


def t_ohlc(T, impl, shape, n):
    shape = tuple(shape)
    check_equiv(T, f"ohlc {shape}", lambda I: dict(xs=I.sym("x", (n, *shape)), rs=I.sym("r", (n,), np.bool_)),
                lambda xs, rs: [tuple(o) for o in wx.steps(impl, mk(impl), xs, rs)], spec, floats="fp", per_element=True,
                timeout=60000, what=f"{impl} OHLC bin differs from first/max/min/last of the bin", validate=4)


def t_prefix(T, impl, L):
    k = 2
    px = ((np.arange(L) * 7) % 11).astype(np.float32)
    px[::4] = np.nan
    pr = np.zeros(L, bool)
    pr[::9] = True

    def inputs(I):
        return dict(xs=SymArr(np.concatenate([I.lift(px).a, I.sym("x", (k,)).a]), np.float32),
                    rs=SymArr(np.concatenate([I.lift(pr).a, I.sym("r", (k,), np.bool_).a]), np.bool_))

    def sp(I, xs, rs):
        o = spec(I, xs, rs, last=k)
        return tuple(SymArr(np.stack([v[j].a for v in o]), np.float32) for j in range(4))

    check_equiv(T, f"ohlc prefix{L}", inputs, lambda xs, rs: tuple(wx.scan(impl, mk(impl), xs, rs, last=k)), sp, floats="fp",
                per_element=True, timeout=60000, what=f"{impl} OHLC deviates after {L} steps")
