"""P01: exponential moving averages equal the documented weighted average (Haiku, Flax, Numba)."""
import itertools
from fractions import Fraction

import numpy as np

from vlib import dom, wx
from vlib.dom import F, b_and, b_not, b_or, f_const, f_div, f_ite
from vlib.harness import check_equiv
from vlib.spec import NAN, ONE, ZERO, arr, elementwise, fsum, sc
from vlib.symjax import SymArr, obj

BOUNDS = (
    "sequences of <=4 (quick) / <=6 (thorough) fully symbolic observations for every NaN pattern; the same "
    "after concrete prefixes of up to 150 steps; shapes (), (2,), (1, 2) and (2, 1); adjust in {True, False, 'linear'}, "
    "ignore_na, min_periods 0..3 and 120, NaN/symbolic initial value, symbolic com>=0 or alpha in (0,1]"
    "; 3 symbolic int32 and boolean steps for data of shape (2,)"
)
ASSUMPTIONS = [
    "floating point is modelled by exact reals with NaN/infinity flags: equality is claimed up to rounding",
    "observations are finite or NaN (no infinities)",
    "the numba kernel is executed from its Python source; numba compilation is trusted and replayed",
]

META = dict(
    title="Exponential moving average equals its documented weighted mean",
    statement="At every step the exponential moving average (Haiku module, Flax module, numba kernel) equals the "
    "documented weighted average of the observations seen so far: weights (1-alpha)^distance when adjusted, the "
    "recursion when not, linearly growing effective com when 'linear', missing values skipped by relative or by "
    "absolute position, NaN before min_periods observations and before the first observation. Each column is averaged "
    "on its own, and processing in chunks through the returned state gives the same values and never alters a state "
    "handed in."
    " Integer and boolean observations are treated like the same observations as floats.",
    over=["inputs", "histories", "configurations"],
    quant="all observation sequences (finite or NaN), all com >= 0 / alpha in (0,1], all modes, all histories",
    why="tests compare a handful of random series with pandas; they never cover every NaN pattern, decay, mode, "
    "initial value, long history or re-use of a state.",
    files=["src/wax/modules/ewma.py", "src/wax/flax/modules/ewma.py", "src/wax/numba/ewma_numba.py"],
    mech=[("EWMA.__call__", "src/wax/modules/ewma.py"), ("EWMA.__call__", "src/wax/flax/modules/ewma.py"),
          ("ewma/numba_apply", "src/wax/numba/ewma_numba.py")],
    observe=["module outputs", "returned info", "numba return value and state"],
)


def powf(b, n):
    r = ONE
    for _ in range(n):
        r = r * b
    return r


def ewma_closed(col, nans, com, adjust, ignore_na, min_periods, init):
    """Textbook definition: explicit weights of the observations (init = pseudo observation at -1)."""
    alpha = ONE / (ONE + com)
    beta = ONE - alpha
    out = []
    obs = []  # (value, absolute position, relative position)
    rel = 0
    if init is not None:
        obs.append((init, -1, -1))
    nobs = 0
    for t, (x, isn) in enumerate(zip(col, nans)):
        if not isn:
            obs.append((x, t, rel))
            rel += 1
            nobs += 1
        if not obs or nobs < min_periods:
            out.append(NAN)
            continue
        pos = [(r if ignore_na else a) for _, a, r in obs]
        # adjust=True: weights (1-alpha)^(distance to the newest observation)
        if adjust:
            last = pos[-1]
            ws = [powf(beta, last - p) for p in pos]
            num = fsum(w * v for w, (v, _, _) in zip(ws, obs))
            den = fsum(ws)
            out.append(num / den if len(obs) > 1 else obs[0][0])
        else:
            y = obs[0][0]
            for j in range(1, len(obs)):
                g = powf(beta, pos[j] - pos[j - 1])
                y = (g * y + alpha * obs[j][0]) / (g + alpha)
            out.append(y)
    return out


def ewma_linear(col, nans, com, ignore_na, min_periods, init):
    """adjust='linear': effective com grows by one per observation up to com (and, when positions count,
    is reduced by a factor max(0,(w-1)/w) per missing value)."""
    y, w, nobs = init, (ONE if init is not None else None), 0
    out = []

    def fmin(a, b):
        return f_ite(dom.f_lt(b, a), b, a)

    for x, isn in zip(col, nans):
        if isn:
            if y is not None and not ignore_na:
                fac = f_ite(dom.f_lt(ONE, w), (w - 1.0) / f_ite(dom.f_lt(ONE, w), w, ONE), ZERO)
                w = fmin(w, com) * fac
        else:
            nobs += 1
            if y is None:
                y, w = x, ONE
            else:
                w = fmin(w, com)
                y = (w * y + x) / (w + 1.0)
                w = w + 1.0
        out.append(y if y is not None and nobs >= min_periods else NAN)
    return out


def spec_seq(xs, pats, com, adjust, ignore_na, min_periods, init):
    """pats: (T, *shape) array of Python bools."""
    shape = xs.shape[1:]
    T = xs.shape[0]
    res = [obj(shape) for _ in range(T)]
    for ix in np.ndindex(*shape):
        col = [xs.a[(t,) + ix] for t in range(T)]
        nans = [bool(pats[(t,) + ix]) for t in range(T)]
        if adjust == "linear":
            o = ewma_linear(col, nans, com, ignore_na, min_periods, init)
        else:
            o = ewma_closed(col, nans, com, adjust, ignore_na, min_periods, init)
        for r, v in zip(res, o):
            r[ix] = v
    return [SymArr(r, np.float32) for r in res]


def make(impl, com, alpha, kw):
    kw = dict(kw)
    if com is not None:
        kw["com"] = com
    else:
        kw["alpha"] = alpha
    if impl == "haiku":
        from wax.modules import EWMA

        return lambda x: EWMA(**kw)(x)
    from wax.flax.modules.ewma import EWMA

    return EWMA(**kw)


def pat_of(spec):
    return spec


def tasks(tier):
    T = 4 if tier == "quick" else 6
    out = []
    for impl in ("haiku", "flax", "numba"):
        for adjust in (True, False, "linear"):
            for ign in (False, True):
                for init in (False, True):
                    mp = {(True, False): 2, (False, True): 3, (False, False): 0}.get((adjust is True, ign), 1)
                    mps = [mp] if tier == "quick" else [0, 1, 2, 3]
                    for m in mps:
                        out.append(dict(
                            name=f"{impl}-{adjust}-ign{int(ign)}-mp{m}-init{int(init)}",
                            fn="t_numba" if impl == "numba" else "t_pat",
                            kw=dict(impl=impl, adjust=adjust, ign=ign, mp=m, init=init, n=T,
                                    param="com" if (ign ^ init) or impl == "numba" else "alpha"),
                        ))
    for impl in ("haiku", "flax"):
        out.append(dict(name=f"{impl}-vec", fn="t_vec", kw=dict(impl=impl, adjust=True, ign=False)))
        for adjust in (True, False, "linear"):
            out.append(dict(name=f"{impl}-mat-{adjust}", fn="t_vec", kw=dict(impl=impl, adjust=adjust, ign=adjust is False, shape=[2, 1], n=2)))
        out.append(dict(name=f"{impl}-mat-row", fn="t_vec", kw=dict(impl=impl, adjust=True, ign=True, shape=[1, 2], n=2)))
        out.append(dict(name=f"{impl}-vec-na", fn="t_vec", kw=dict(impl=impl, adjust=False, ign=True)))
        for adjust in (True, False, "linear"):
            for L in (40, 150) if tier == "quick" else (40, 150, 400):
                out.append(dict(name=f"{impl}-{adjust}-prefix{L}", fn="t_prefix",
                                kw=dict(impl=impl, adjust=adjust, L=L, ign=(L == 40))))
        out.append(dict(name=f"{impl}-info", fn="t_info", kw=dict(impl=impl)))
    for adjust in (True, False, "linear"):
        out.append(dict(name=f"numba-{adjust}-ints", fn="t_numba",
                        kw=dict(impl="numba", adjust=adjust, ign=False, mp=0, init=False, n=3, ints=True)))
        out.append(dict(name=f"numba-{adjust}-resume", fn="t_numba_resume", kw=dict(adjust=adjust)))
        out.append(dict(name=f"numba-{adjust}-prefix60", fn="t_numba",
                        kw=dict(impl="numba", adjust=adjust, ign=False, mp=61, init=False, n=2, param="com", L=60)))
    for impl in ("haiku", "flax"):
        for adjust in (True, False, "linear"):
            out.append(dict(name=f"{impl}-{adjust}-ints", fn="t_ints", kw=dict(impl=impl, adjust=adjust)))
    return out


def t_ints(T, impl, adjust):
    from vlib.intdata import same_as_float

    same_as_float(T, f"{impl} EWMA(adjust={adjust!r})",
                  lambda x: wx.steps(impl, make(impl, 2.0, None, dict(adjust=adjust, initial_value=np.nan if adjust is True else 0.0)), x),
                  [(3, 2)], f"{impl} EWMA(adjust={adjust!r})")


def t_pat(T, impl, adjust, ign, mp, init, n, param="com"):
    T.bounds = dict(steps=n, nan_patterns=2**n)
    prep = {}
    # linear weights involve min(count, com): keep com concrete there (several values)
    coms = [None] if adjust != "linear" else [0.5, 1.75, 3.0]
    for cval in coms:
        prep = {}
        for pat in itertools.product([0, 1], repeat=n):
            def inputs(I):
                xs = I.sym("x", (n,), nan=False)
                for i, b in enumerate(pat):
                    if b:
                        xs.a[i] = NAN
                d = dict(xs=xs)
                if cval is not None:
                    d["p"] = np.float32(cval)
                elif param == "com":
                    d["p"] = I.sym("com", (), nan=False, nonneg=True)
                else:
                    d["p"] = I.sym("alpha", (), nan=False, pos=True)
                if init:
                    d["init"] = I.sym("init", (), nan=False)
                return d

            def assume(I, xs, p, init=None):
                return [p.a[()].r <= 1] if param == "alpha" and cval is None else []

            def com_of(p):
                if param == "alpha" and cval is None:
                    return ONE / p - 1.0
                return p

            def run(xs, p, init=None):
                k = dict(adjust=adjust, ignore_na=ign, min_periods=mp)
                if init is not None:
                    k["initial_value"] = init
                m = make(impl, p if (param == "com" or cval is not None) else None,
                         p if not (param == "com" or cval is not None) else None, k)
                return wx.steps(impl, m, xs)

            def spec(I, xs, p, init=None):
                pp = I.lift(p).a[()]
                return spec_seq(xs, np.array(pat), com_of(pp), adjust, ign, mp,
                                None if init is None else I.lift(init).a[()])

            check_equiv(T, f"com={cval} nan={pat}", inputs, run, spec, assume=assume, prepared=prep,
                        sign_oracle=True, what=f"{impl} EWMA differs from the documented weighted average",
                        validate=1 if sum(pat) <= 1 else 0, canary=sum(pat) == 0,
                        sample_gen=None if param == "com" else _gen_alpha(n, pat, init, cval))
            if T.violations:
                return


def _gen_alpha(n, pat, init, cval):
    def gen(rng):
        xs = (rng.integers(-20, 20, n) / 8).astype(np.float32)
        xs[np.array(pat, bool)] = np.nan
        d = dict(xs=xs, p=np.float32(cval if cval is not None else rng.integers(1, 9) / 8))
        if init:
            d["init"] = np.float32(rng.integers(-9, 9) / 4)
        return d

    return gen


def t_vec(T, impl, adjust, ign, shape=(2,), n=3):
    """Two columns with different NaN patterns: every column is averaged on its own."""
    T.bounds = dict(steps=n, columns=2)
    prep = {}
    for pat in itertools.product([0, 1], repeat=n):
        pm = np.array([[b, 1 - b] for b in pat]).reshape(n, *shape)

        def inputs(I):
            xs = I.sym("x", (n, *shape), nan=False)
            for ix in np.ndindex(n, *shape):
                if pm[ix]:
                    xs.a[ix] = NAN
            return dict(xs=xs, com=np.float32(1.75) if adjust == "linear" else I.sym("com", (), nan=False, nonneg=True))

        def run(xs, com):
            return wx.steps(impl, make(impl, com, None, dict(adjust=adjust, ignore_na=ign)), xs)

        check_equiv(T, f"vec nan={pat}", inputs, run,
                    lambda I, xs, com: spec_seq(xs, pm, I.lift(com).a[()], adjust, ign, 0, None),
                    prepared=prep, sign_oracle=True,
                    what=f"{impl} EWMA: columns are not averaged independently")
        if T.violations:
            return


def prefix_data(L, seed=3):
    rng = np.random.default_rng(seed)
    x = rng.integers(-4, 5, L).astype(np.float32)
    isn = rng.random(L) < 0.15
    isn[:3] = False
    x[isn] = np.nan
    return x, isn


def t_prefix(T, impl, adjust, L, ign):
    """A long concrete history, then symbolic observations (deep counters, saturation)."""
    k = 2
    px, pn = prefix_data(L)
    mp = int((~pn).sum()) + 2
    T.bounds = dict(prefix=L, symbolic_steps=k)
    for com in (1.0, 3.0) if L > 100 else (3.0, 30.0):
        prep = {}
        for m in (0, mp):
            for pat in itertools.product([0, 1], repeat=k):
                def inputs(I):
                    s = I.sym("x", (k,), nan=False)
                    for i, b in enumerate(pat):
                        if b:
                            s.a[i] = NAN
                    return dict(xs=SymArr(np.concatenate([I.lift(px).a, s.a]), np.float32))

                def run(xs):
                    return wx.scan(impl, make(impl, com, None, dict(adjust=adjust, ignore_na=ign, min_periods=m)), xs, last=k)

                def spec(I, xs):
                    r = spec_seq(xs, np.concatenate([pn, np.array(pat, bool)]), f_const(com), adjust, ign, m, None) \
                        if adjust == "linear" else rec(xs.a, list(pn) + list(pat), f_const(com), adjust, ign, m)
                    return arr([x.a[()] for x in r[-k:]]) if adjust == "linear" else arr(r[-k:])

                check_equiv(T, f"prefix{L} com={com} mp={m} nan={pat}", inputs, run, spec, prepared=None if True else prep,
                            validate=1 if not any(pat) else 0, canary=not any(pat),
                            what=f"{impl} EWMA deviates after {L} steps")
                if T.violations:
                    return


def rec(col, nans, com, adjust, ign, mp):
    """Same definition in recursive form (for long histories)."""
    alpha = ONE / (ONE + com)
    beta = ONE - alpha
    y = w = None
    nobs = 0
    out = []
    for x, isn in zip(col, nans):
        if w is not None and (not isn or not ign):
            w = w * beta
        if not isn:
            nobs += 1
            if y is None:
                y, w = x, ONE
            else:
                nw = ONE if adjust else alpha
                y = (w * y + nw * x) / (w + nw)
                w = (w + nw) if adjust else ONE
        out.append(NAN if y is None or nobs < mp else y)
    return out


def t_info(T, impl):
    """return_info: nobs counts the observations of each column; com_eff is the weight ratio old/new."""
    n = 3
    prep = {}
    for pat in itertools.product([0, 1], repeat=n):
        for adjust in (True, False):
            def inputs(I):
                xs = I.sym("x", (n,), nan=False)
                for i, b in enumerate(pat):
                    if b:
                        xs.a[i] = NAN
                return dict(xs=xs, com=I.sym("com", (), nan=False, nonneg=True))

            def run(xs, com):
                o = wx.steps(impl, make(impl, com, None, dict(adjust=adjust, return_info=True)), xs)
                return [(r, i["nobs"], i["com_eff"]) for r, i in o]

            def spec(I, xs, com):
                c = I.lift(com).a[()]
                alpha = ONE / (ONE + c)
                vals = spec_seq(xs, np.array(pat), c, adjust, False, 0, None)
                nobs, w, out = 0, None, []
                for v, b in zip(vals, pat):
                    if w is not None:
                        w = w * (ONE - alpha)
                    old = w if w is not None else ZERO
                    if not b:
                        nobs += 1
                        w = (old + ONE) if adjust else ONE
                    out.append((v, np.int32(nobs), sc(old if adjust else old / alpha)))
                return out

            check_equiv(T, f"info adjust={adjust} nan={pat}", inputs, run, spec, sign_oracle=True,
                        what=f"{impl} EWMA return_info")
            if T.violations:
                return


# ----------------------------------------------------------------------------- numba
class _NumbaShim:
    prange = range

    @staticmethod
    def jit(*a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f

    njit = jit

    def __getattr__(self, k):
        import numba

        return getattr(numba, k)


def numba_sym(kw):
    """The kernel built from the real source with numba.jit replaced by the identity."""
    import wax.numba.ewma_numba as m
    from vlib.pysym import NumpyShim, patched

    kernels = [(m, k, v.py_func) for k, v in vars(m).items() if hasattr(v, "py_func")]  # compiled at import
    names = [(m, k, getattr(_NumbaShim(), k)) for k in ("jit", "njit", "prange") if k in vars(m)]
    return m, patched((m, "np", NumpyShim()), (m, "numba", _NumbaShim()), *kernels, *names)


class IntObs(np.ndarray):
    """Object array standing for integer observations: integer dtype, converted to floats only by astype."""

    @property
    def dtype(self):
        return np.dtype(np.int64)

    def astype(self, dtype, *a, **k):
        assert np.dtype(dtype).kind == "f"
        return np.array(list(self), dtype=object)


def t_numba(T, impl, adjust, ign, mp, init, n, param="com", L=0, ints=False):
    import z3

    from vlib.pysym import SReal, explore

    n = min(n, 4)
    coms = [Fraction(1), Fraction(7, 4)] if adjust == "linear" or L else [None]
    px, pn = prefix_data(L) if L else (np.zeros(0, np.float32), np.zeros(0, bool))
    if L:
        mp = int((~pn).sum()) + 1
    T.bounds = dict(steps=n, prefix=L)
    import wax.numba.ewma_numba as m

    T.functions.add("wax/numba/ewma_numba.py:ewma.apply.numba_apply")
    for cval in coms:
        for pat in [(0,) * n] if ints else itertools.product([0, 1], repeat=n):
            com = F(z3.Real("com")) if cval is None else F(cval)
            side = []
            if cval is None:
                dom.mark_pos(com.r)
                side.append(com.r > 0)
            xs = [NAN if b else F(z3.Real(f"x{i}")) for i, b in enumerate(pat)]
            iv = F(z3.Real("init")) if init else None
            full = [f_const(float(v)) for v in px] + xs
            exp = (
                ewma_linear(full, list(pn) + list(pat), com, ign, mp, iv) if adjust == "linear"
                else ewma_closed(full, list(pn) + list(pat), com, adjust, ign, mp, iv) if not L
                else rec(full, list(pn) + list(pat), com, adjust, ign, mp)
            )

            def run():
                _, cm = numba_sym(None)
                with cm:
                    f = m.ewma(com=SReal(com), min_periods=mp, adjust=adjust, ignore_na=ign,
                               initial_value=SReal(iv) if init else np.nan)
                    vals = np.empty(len(full), dtype=object)
                    for i, v in enumerate(full):
                        vals[i] = SReal(v)
                    res, st = f(vals.view(IntObs) if ints else vals)
                    return res

            for pc, res, exc in explore(T, run, side=side):
                label = f"numba adjust={adjust} ign={ign} mp={mp} com={cval} nan={pat}" + " integers" * ints
                back = lambda md: replay_numba(md, cval, pat, px, adjust, ign, mp, init, ints)  # noqa: E731
                if exc is not None:
                    concrete_points(T, label, exc, back)
                    break
                check_path(T, pc + side, [r for r in res][-n:], exp[-n:], label, back)
                if T.violations:
                    return


class Point:
    """Stands for a solver model: a random value for every symbol."""

    def __init__(self, rng):
        self.rng, self.v = rng, {}

    def eval(self, z, model_completion=True):
        from vlib.z3load import z3

        k = str(z)
        if k not in self.v:
            self.v[k] = z3.RealVal(str(int(self.rng.integers(1, 9)) / 4 if k in ("com", "alpha") else int(self.rng.integers(-40, 40)) / 8))
        return self.v[k]


def concrete_points(T, label, exc, replay, n=12):
    """The encoding does not apply: nothing is discharged, but concrete points at which the real code differs are violations."""
    T.obligations += 1
    T.undecided.append(f"{label}: {exc!r}"[:300])
    rng = np.random.default_rng(T.seed + 9)
    for _ in range(n):
        bad, info = replay(Point(rng))
        T.concrete += 1
        if bad:
            T.violations.append(dict(what=label, task=T.name, label=label, note="found at a concrete point: the encoding does not apply", **info))
            return


def replay_numba(md, cval, pat, px, adjust, ign, mp, init, ints=False):
    """Run the real compiled kernel on the model; expected values from the definition."""
    import z3

    from vlib.harness import z3_to_fraction
    from wax.numba.ewma_numba import ewma

    def val(nm):
        return float(z3_to_fraction(md.eval(z3.Real(nm), model_completion=True)))

    com = float(cval) if cval is not None else val("com")
    xs = np.array(list(px) + [np.nan if b else val(f"x{i}") for i, b in enumerate(pat)])
    if ints:
        xs = np.round(xs * 8).astype(np.int64)
    iv = val("init") if init else np.nan
    act, _ = ewma(com=com, min_periods=mp, adjust=adjust, ignore_na=ign, initial_value=iv)(xs)
    nans = list(np.isnan(xs))
    col = [f_const(v) for v in xs]
    c = f_const(com)
    exp = (ewma_linear(col, nans, c, ign, mp, f_const(iv) if init else None) if adjust == "linear"
           else ewma_closed(col, nans, c, adjust, ign, mp, f_const(iv) if init else None) if len(xs) < 20
           else rec(col, nans, c, adjust, ign, mp))
    exp = np.array([e.const() for e in exp])
    ok = np.allclose(act, exp, rtol=1e-6, atol=1e-9, equal_nan=True)
    return (not ok), dict(com=com, xs=xs.tolist(), init=iv, actual=act.tolist(), expected=exp.tolist())


def as_f(v):
    from vlib.pysym import _fz

    return _fz(v)


def check_path(T, cons, got, exp, label, replay):
    """Prove got[i] same as exp[i] under the path condition."""
    from vlib.z3load import z3

    T.obligations += 1
    bad = [dom.b_not(dom.f_same(as_f(g), e)) for g, e in zip(got, exp)]
    bad = [b for b in bad if not (isinstance(b, (bool, np.bool_)) and not b)]
    if not bad:
        T.discharged += 1
        return
    r, md = T.solve([*cons, dom.to_z3_bool(b_or(*bad))], timeout=20000)
    if r == z3.unsat:
        T.discharged += 1
    elif r == z3.sat:
        mg = z3.Q(1, 16)
        big = []
        for g, e in zip(got, exp):
            g = as_f(g)
            d = dom._rz(dom.r_sub(g.r, e.r))
            big.append(b_or(dom.b_xor(g.nan, e.nan), b_and(g.finite, e.finite, z3.Or(d > mg, d < -mg))))
        r2, m2 = T.solve([*cons, dom.to_z3_bool(b_or(*big))], timeout=20000)
        ok, info = replay(m2 or md)
        if ok:
            T.violations.append(dict(what=label, task=T.name, label=label, **info))
        else:
            T.spurious.append(f"{label}: not reproduced {info}")
    else:
        T.undecided.append(f"{label}: {r}")


def t_numba_resume(T, adjust):
    """Processing a sequence in two chunks through the returned state equals one pass, and the state
    object handed back for the first chunk is not altered by later calls."""
    import z3

    from vlib.pysym import SReal, explore

    import wax.numba.ewma_numba as m

    T.functions.add("wax/numba/ewma_numba.py:ewma.apply")
    n, cut = 4, 2
    coms = [Fraction(1), Fraction(7, 4)] if adjust == "linear" else [None]
    for cval in coms:
        for pat in itertools.product([0, 1], repeat=n):
            com = F(z3.Real("com")) if cval is None else F(cval)
            side = []
            if cval is None:
                dom.mark_pos(com.r)
                side.append(com.r > 0)
            xs = [NAN if b else F(z3.Real(f"x{i}")) for i, b in enumerate(pat)]

            def vec(vs):
                v = np.empty(len(vs), dtype=object)
                for i, x in enumerate(vs):
                    v[i] = SReal(x)
                return v

            def run():
                _, cm = numba_sym(None)
                with cm:
                    f = m.ewma(com=SReal(com), adjust=adjust, min_periods=2)
                    one, _ = f(vec(xs))
                    a, st = f(vec(xs[:cut]))
                    b, _ = f(vec(xs[cut:]), st)
                    c, _ = f(vec(xs[cut:]), st)
                    return list(one), list(a) + list(b), list(c)

            for pc, res, exc in explore(T, run, side=side):
                def replay(md):
                    from vlib.harness import z3_to_fraction

                    def val(nm):
                        return float(z3_to_fraction(md.eval(z3.Real(nm), model_completion=True)))

                    v = np.array([np.nan if b else val(f"x{i}") for i, b in enumerate(pat)])
                    cc = float(cval) if cval is not None else val("com")
                    f = m.ewma(com=cc, adjust=adjust, min_periods=2)
                    o, _ = f(v.copy())
                    a, st = f(v[:cut].copy())
                    b, _ = f(v[cut:].copy(), st)
                    c, _ = f(v[cut:].copy(), st)
                    bad = not (np.allclose(o, np.concatenate([a, b]), equal_nan=True) and np.allclose(b, c, equal_nan=True))
                    return bad, dict(com=cc, xs=v.tolist(), one=o.tolist(), two=np.concatenate([a, b]).tolist(), again=c.tolist())

                if exc is not None:
                    concrete_points(T, f"numba resume adjust={adjust} nan={pat}", exc, replay)
                    break
                one, two, again = res
                check_path(T, pc + side, two, [as_f(v) for v in one], f"numba resume adjust={adjust} nan={pat}", replay)
                check_path(T, pc + side, again, [as_f(v) for v in one[cut:]],
                           f"numba state reuse adjust={adjust} nan={pat}", replay)
                if T.violations:
                    return
