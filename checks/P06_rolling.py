"""P06: rolling mean = mean of the non-missing values among the last `horizon` inputs."""
import numpy as np

from vlib import dom, wx
from vlib.dom import b_not, f_const, f_div, f_ite
from vlib.harness import check_equiv
from vlib.spec import NAN, ONE, ZERO
from vlib.symjax import SymArr, obj

BOUNDS = (
    "horizon 1..4 (quick) / 1..6 (thorough), min_periods 1..horizon+1, up to horizon+3 symbolic steps with symbolic missing "
    "values, shapes (), (2,), (2,3); symbolic steps (horizons up to 32) after concrete prefixes of 60/200 steps"
    "; 3 symbolic int32 and boolean steps for data of shape (2,)"
)
ASSUMPTIONS = ["exact reals with NaN flags: equality up to rounding; infinities propagate as in IEEE arithmetic, without overflow of finite sums"]
META = dict(
    title="RollingMean is the mean of the non-missing values in the last horizon inputs",
    statement="At every step the rolling mean (Haiku and Flax) of every element equals the arithmetic mean of the non-missing "
    "values among its last horizon inputs, and is NaN exactly when fewer than min_periods (at least one) of them are non-missing. "
    "Inputs older than the horizon have no influence, however long the history."
    " Integer and boolean observations are treated like the same observations as floats.",
    over=["inputs", "histories", "configurations"],
    quant="all sequences with any missing-value pattern, all horizons and min_periods",
    why="tests compare one short series with pandas",
    files=["src/wax/modules/rolling_mean.py", "src/wax/flax/modules/rolling_mean.py"],
    mech=[("RollingMean over Buffer", "src/wax/modules/rolling_mean.py, src/wax/flax/modules/rolling_mean.py")],
)


def tasks(tier):
    hs = [1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6]
    L = 60 if tier == "quick" else 200
    out = []
    for impl in ("haiku", "flax"):
        for h in hs:
            out.append(dict(name=f"{impl}-h{h}", fn="t_roll", kw=dict(impl=impl, h=h)))
            out.append(dict(name=f"{impl}-h{h}-inf", fn="t_inf", kw=dict(impl=impl, h=h)))
            out.append(dict(name=f"{impl}-h{h}-prefix", fn="t_prefix", kw=dict(impl=impl, h=h, L=L)))
        for h in (15, 32):
            out.append(dict(name=f"{impl}-h{h}-prefix", fn="t_prefix", kw=dict(impl=impl, h=h, L=L)))
    for impl in ("haiku", "flax"):
        out.append(dict(name=f"{impl}-ints", fn="t_ints", kw=dict(impl=impl)))
    return out


def t_ints(T, impl):
    from vlib.intdata import same_as_float

    for h, m in ((3, 1), (2, 2)):
        same_as_float(T, f"{impl} RollingMean({h}, {m})", lambda x: wx.steps(impl, mk(impl, horizon=h, min_periods=m), x), [(4, 2)],
                      f"{impl} RollingMean(horizon={h}, min_periods={m})")


def mk(impl, **kw):
    if impl == "haiku":
        from wax.modules import RollingMean

        return lambda x: RollingMean(**kw)(x)
    from wax.flax.modules import RollingMean

    return RollingMean(**kw)


def count_ge(flags, k):
    """At least k of the boolean flags hold (flags may be Python bools or z3)."""
    acc = [True] + [False] * k  # acc[j]: at least j so far
    for f in flags:
        for j in range(k, 0, -1):
            acc[j] = dom.b_or(acc[j], dom.b_and(acc[j - 1], f))
    return acc[k]


def mean_of(win, mp):
    s = ZERO
    c = ZERO
    for x in win:
        s = s + f_ite(x.nan, ZERO, x)
        c = c + f_ite(x.nan, ZERO, ONE)
    ok = count_ge([b_not(x.nan) for x in win], max(mp, 1))
    den = f_ite(ok, c, ONE)
    dom.mark_pos(den.r) if not isinstance(den.r, dom.Fraction) else None
    return f_ite(ok, s / den, NAN)


def spec(xs, h, mp, last=None):
    n, shape = xs.shape[0], xs.shape[1:]
    ts = range(n) if last is None else range(n - last, n)
    res = []
    for t in ts:
        o = obj(shape)
        for ix in np.ndindex(*shape):
            o[ix] = mean_of([xs.a[(s,) + ix] for s in range(max(0, t - h + 1), t + 1)], mp)
        res.append(SymArr(o, np.float32))
    return res


def gen_for(shape):
    def gen(rng):
        x = (rng.integers(-8, 9, shape) / 4).astype(np.float32)
        x[rng.random(shape) < 0.3] = np.nan
        return dict(xs=x)

    return gen


def t_roll(T, impl, h):
    n = h + 3
    for mp in range(1, h + 2):
        for shape in ((), (2,)) + (((2, 3),) if mp == min(2, h) else ()):
            m = n if shape == () else min(n, 3 if shape == (2,) else 2)
            check_equiv(T, f"h={h} mp={mp} {shape}", lambda I: dict(xs=I.sym("x", (m, *shape))),
                        lambda xs: wx.steps(impl, mk(impl, horizon=h, min_periods=mp), xs),
                        lambda I, xs: spec(xs, h, mp), what=f"{impl} RollingMean({h}, min_periods={mp})",
                        sample_gen=gen_for((m, *shape)))
            if T.violations:
                return
    check_equiv(T, f"h={h} default", lambda I: dict(xs=I.sym("x", (n,))),
                lambda xs: wx.steps(impl, mk(impl, horizon=h), xs), lambda I, xs: spec(xs, h, 1),
                what=f"{impl} RollingMean({h})", sample_gen=gen_for((n,)))


def t_inf(T, impl, h):
    """Infinite inputs are values, not missing ones (IEEE: their mean is infinite, of both signs NaN)."""
    def gen(shape):
        def g(rng):
            x = gen_for(shape)(rng)["xs"]
            x[rng.random(shape) < 0.2] = np.inf
            x[rng.random(shape) < 0.2] = -np.inf
            return dict(xs=x)

        return g

    n = h + 1
    for mp in sorted({1, h}):
        check_equiv(T, f"inf h={h} mp={mp}", lambda I: dict(xs=I.sym("x", (n,), inf=True)),
                    lambda xs: wx.steps(impl, mk(impl, horizon=h, min_periods=mp), xs),
                    lambda I, xs: spec(xs, h, mp), what=f"{impl} RollingMean({h}, min_periods={mp}) of infinite inputs",
                    sample_gen=gen((n,)))


def t_prefix(T, impl, h, L):
    k = 2
    px = (np.arange(L, dtype=np.float32) % 7) - 2
    px[::3] = np.nan
    for mp in sorted({1, h} if h < 10 else {1, 2 * h // 3, 2 * h // 3 + 1}):
        def inputs(I):
            return dict(xs=SymArr(np.concatenate([I.lift(px).a, I.sym("x", (k,)).a]), np.float32))

        check_equiv(T, f"h={h} mp={mp} prefix{L}", inputs,
                    lambda xs: wx.scan(impl, mk(impl, horizon=h, min_periods=mp), xs, last=k),
                    lambda I, xs: SymArr(np.stack([v.a for v in spec(xs, h, mp, last=k)]), np.float32),
                    what=f"{impl} RollingMean({h}) deviates after {L} steps",
                    sample_gen=lambda rng: dict(xs=np.concatenate([px, gen_for((k,))(rng)["xs"]])))
