"""P02: exponential moving variance equals the weighted population variance of its documentation."""
import itertools

import numpy as np

from checks.P01_ewma import powf
from vlib import dom, wx
from vlib.dom import F, f_const, f_ite
from vlib.harness import check_equiv
from vlib.spec import NAN, ONE, ZERO, arr, fsum
from vlib.symjax import SymArr, obj

BOUNDS = (
    "<=4 (quick) / <=5 (thorough) symbolic observations for every NaN pattern, symbolic com>=0 or alpha in (0,1] "
    "(concrete com for 'linear'), 2 independent columns (shapes (2,), (1, 2), (2, 1)), symbolic steps after concrete prefixes of up to 120 steps"
    "; 3 symbolic int32 and boolean steps for data of shape (2,)"
)
ASSUMPTIONS = [
    "floating point is modelled by exact reals with NaN/infinity flags: equality is claimed up to rounding",
    "observations are finite or NaN",
]
META = dict(
    title="Exponential moving variance equals the weighted population variance",
    statement="At every step the exponential moving variance (Haiku and Flax) equals the weighted population variance "
    "of the non-missing observations seen so far, with the weights of the corresponding exponential moving average "
    "(normalized powers when adjusted, first-observation recursion when not, uniform up to 1/alpha observations when "
    "'linear'). Missing values leave it unchanged, it is 0 until two observations were seen, and columns are independent."
    " Integer and boolean observations are treated like the same observations as floats.",
    over=["inputs", "histories", "configurations"],
    quant="all observation sequences (finite or NaN), all com >= 0 / alpha in (0,1], three adjustment modes",
    why="tests compare one random series per mode with pandas",
    files=["src/wax/modules/ewmvar.py", "src/wax/flax/modules/ewmvar.py"],
    mech=[("EWMVar.__call__ (Finch recursion)", "src/wax/modules/ewmvar.py"),
          ("EWMVar.__call__", "src/wax/flax/modules/ewmvar.py")],
)


def fmin(a, b):
    return f_ite(dom.f_lt(b, a), b, a)


def var_closed(col, nans, com, adjust):
    alpha = ONE / (ONE + com)
    beta = ONE - alpha
    out, obs = [], []
    for x, isn in zip(col, nans):
        if not isn:
            obs.append(x)
        n = len(obs)
        if n <= 1:
            out.append(ZERO)
            continue
        ws = [powf(beta, n - 1 - i) for i in range(n)]
        if not adjust:
            ws = [ws[0]] + [alpha * w for w in ws[1:]]
        den = fsum(ws)
        m = fsum(w * v for w, v in zip(ws, obs)) / den
        out.append(fsum(w * (v - m) * (v - m) for w, v in zip(ws, obs)) / den)
    return out


def var_rec(col, nans, com, adjust):
    """Same through accumulated weighted moments (any length; used for 'linear' and prefixes)."""
    alpha = ONE / (ONE + com)
    beta = ONE - alpha
    out = []
    n, m1, m2 = 0, ZERO, ZERO
    bn = ONE
    for x, isn in zip(col, nans):
        if not isn:
            n += 1
            bn = bn * beta
            if adjust == "linear":
                ts = fmin(f_const(float(n)), ONE / alpha)
                a = ONE / ts
            elif adjust:
                a = alpha / (ONE - bn)
            else:
                a = alpha
            if n == 1:
                a = ONE
            m1 = m1 + a * (x - m1)
            m2 = m2 + a * (x * x - m2)
        out.append(ZERO if n == 0 else m2 - m1 * m1)
    return out


def tasks(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for impl in ("haiku", "flax"):
        for adjust in (True, False, "linear"):
            for param in ("com", "alpha"):
                out.append(dict(name=f"{impl}-{adjust}-{param}", fn="t_pat",
                                kw=dict(impl=impl, adjust=adjust, param=param, n=n)))
            out.append(dict(name=f"{impl}-{adjust}-vec", fn="t_vec", kw=dict(impl=impl, adjust=adjust)))
            for shape in ([1, 2], [2, 1]):
                out.append(dict(name=f"{impl}-{adjust}-mat{shape[0]}{shape[1]}", fn="t_vec", kw=dict(impl=impl, adjust=adjust, shape=shape)))
            for L in (20, 60) if tier == "quick" else (20, 60, 120):
                out.append(dict(name=f"{impl}-{adjust}-prefix{L}", fn="t_prefix",
                                kw=dict(impl=impl, adjust=adjust, L=L)))
    for impl in ("haiku", "flax"):
        for adjust in (True, False, "linear"):
            out.append(dict(name=f"{impl}-{adjust}-ints", fn="t_ints", kw=dict(impl=impl, adjust=adjust)))
    return out


def t_ints(T, impl, adjust):
    from vlib.intdata import same_as_float

    same_as_float(T, f"{impl} EWMVar(adjust={adjust!r})", lambda x: wx.steps(impl, make(impl, adjust, com=2.0), x), [(3, 2)],
                  f"{impl} EWMVar(adjust={adjust!r})")


def make(impl, adjust, **kw):
    if impl == "haiku":
        from wax.modules import EWMVar

        return lambda x: EWMVar(adjust=adjust, **kw)(x)
    from wax.flax.modules.ewmvar import EWMVar

    return EWMVar(adjust=adjust, **kw)


def spec_seq(xs, pm, com, adjust, f):
    T, shape = xs.shape[0], xs.shape[1:]
    res = [obj(shape) for _ in range(T)]
    for ix in np.ndindex(*shape):
        o = f([xs.a[(t,) + ix] for t in range(T)], [bool(pm[(t,) + ix]) for t in range(T)], com, adjust)
        for r, v in zip(res, o):
            r[ix] = v
    return [SymArr(r, np.float32) for r in res]


def masked(I, name, pm):
    xs = I.sym(name, pm.shape, nan=False)
    for ix in np.ndindex(*pm.shape):
        if pm[ix]:
            xs.a[ix] = NAN
    return xs


def t_pat(T, impl, adjust, param, n):
    T.bounds = dict(steps=n, nan_patterns=2**n)
    for cval in [None] if adjust != "linear" else [0.5, 1.75, 3.0]:
        prep = {}
        for pat in itertools.product([0, 1], repeat=n):
            pm = np.array(pat, bool)

            def inputs(I):
                d = dict(xs=masked(I, "x", pm))
                if cval is None:
                    d["p"] = I.sym("p", (), nan=False, nonneg=param == "com", pos=param == "alpha")
                return d

            def assume(I, xs, p=None):
                return [p.a[()].r <= 1] if param == "alpha" and p is not None else []

            def run(xs, p=None):
                if p is None:
                    p = cval if param == "com" else 1 / (1 + cval)
                return wx.steps(impl, make(impl, adjust, **{param: p}), xs)

            def spec(I, xs, p=None):
                if p is None:
                    c = f_const(cval)
                else:
                    p = I.lift(p).a[()]
                    c = p if param == "com" else ONE / p - 1.0
                return spec_seq(xs, pm, c, adjust, var_rec if adjust == "linear" else var_closed)

            def gen(rng):
                x = (rng.integers(-20, 20, n) / 8).astype(np.float32)
                x[pm] = np.nan
                d = dict(xs=x)
                if cval is None:
                    d["p"] = np.float32(rng.integers(1, 9) / 8)
                return d

            check_equiv(T, f"com={cval} nan={pat}", inputs, run, spec, assume=assume, prepared=prep,
                        sign_oracle=True, what=f"{impl} EWMVar differs from the weighted variance",
                        validate=1 if sum(pat) <= 1 else 0, canary=sum(pat) == 0, sample_gen=gen)
            if T.violations:
                return


def t_vec(T, impl, adjust, shape=(2,)):
    n = 3
    prep = {}
    com = 1.5
    for pat in itertools.product([0, 1], repeat=n):
        pm = np.array([[b, 1 - b] for b in pat], bool).reshape(n, *shape)
        check_equiv(T, f"vec nan={pat}", lambda I: dict(xs=masked(I, "x", pm)),
                    lambda xs: wx.steps(impl, make(impl, adjust, com=com), xs),
                    lambda I, xs: spec_seq(xs, pm, f_const(com), adjust, var_rec),
                    prepared=prep, sign_oracle=True, validate=1, canary=False,
                    what=f"{impl} EWMVar: columns are not independent")
        if T.violations:
            return


def t_prefix(T, impl, adjust, L):
    from checks.P01_ewma import prefix_data

    k = 2
    px, pn = prefix_data(L)
    T.bounds = dict(prefix=L, symbolic_steps=k)
    for com in (1.0, 9.0):
        for pat in itertools.product([0, 1], repeat=k):
            pm = np.concatenate([pn, np.array(pat, bool)])

            def inputs(I):
                return dict(xs=SymArr(np.concatenate([I.lift(px).a, masked(I, "x", np.array(pat, bool)).a]), np.float32))

            check_equiv(T, f"prefix{L} com={com} nan={pat}", inputs,
                        lambda xs: wx.scan(impl, make(impl, adjust, com=com), xs, last=k),
                        lambda I, xs: arr(var_rec(list(xs.a), list(pm), f_const(com), adjust)[-k:]),
                        validate=1 if not any(pat) else 0, canary=not any(pat),
                        what=f"{impl} EWMVar deviates after {L} steps")
            if T.violations:
                return
