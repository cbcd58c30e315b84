"""P32: reverse-mode gradients through the streaming averages are those of their definitions, missing values included."""
import itertools

import numpy as np

from vlib.dom import NAN, b_and, b_not
from vlib.harness import check_equiv, check_prop

BOUNDS = (
    "3 (quick) / 4 (thorough) symbolic steps for every pattern of missing values (one column), two columns of opposite patterns, "
    "covariance of a 2- with a 1-column series over 2 / 3 steps; every mask of 3 / 4 entries along the first axis; decay: symbolic com > 0 (piecewise range for 'linear': "
    "com in (0,1), (1,2), (2,3)); adjust True/False/'linear', ignore_na, min_periods 0 and 2, horizon 2 and 3"
)
ASSUMPTIONS = [
    "floating point is modelled by exact reals with NaN/infinity flags: equality is claimed up to rounding",
    "observations are finite or missing; derivatives are taken away from the kinks of 'linear' (com an integer)",
    "JAX's differentiation of the expectation (an expression over the observed values alone, without missing values) is trusted",
    "the loss is a function of the outputs that are not missing (each output in turn)",
]
META = dict(
    title="Gradients are finite and exact when data has missing values",
    statement="The outputs of EWMA, EWMVar, EWMCov, RollingMean, Diff, Ffill and PctChange (Haiku and Flax) unrolled over a history can be "
    "differentiated: reverse-mode gradients of every non-missing output with respect to the decay parameter (logcom) and to "
    "every observation are finite and equal those of the definition over the observed values, whichever values are "
    "missing (also leading ones and whole columns); the gradient with respect to a missing value is 0. So are those of MaskMean; "
    "those of MaskStd and MaskNormalize are finite for every mask selecting an entry and every data with missing values.",
    over=["inputs", "histories", "configurations"],
    quant="all observation sequences, missing patterns, decays and adjustment modes",
    why="one test trains a decay on one series with one missing value; the others never differentiate",
    files=["src/wax/modules/ewma.py", "src/wax/modules/ewmvar.py", "src/wax/modules/ewmcov.py", "src/wax/modules/pct_change.py",
           "src/wax/modules/rolling_mean.py", "src/wax/modules/diff.py", "src/wax/modules/ffill.py",
           "src/wax/flax/modules/ewma.py", "src/wax/flax/modules/ewmvar.py", "src/wax/flax/modules/ewmcov.py",
           "src/wax/flax/modules/pct_change.py", "src/wax/flax/modules/rolling_mean.py", "src/wax/flax/modules/ffill.py",
           "src/wax/modules/mask_mean.py", "src/wax/modules/mask_std.py", "src/wax/modules/mask_normalize.py",
           "src/wax/flax/modules/mask_mean.py", "src/wax/flax/modules/mask_std.py", "src/wax/flax/modules/mask_normalize.py"],
    mech=[("EWMA.__call__ (missing values filled before arithmetic)", "src/wax/modules/ewma.py"),
          ("EWMVar.__call__", "src/wax/modules/ewmvar.py"), ("EWMCov.__call__", "src/wax/modules/ewmcov.py"),
          ("PctChange.__call__", "src/wax/modules/pct_change.py"), ("flax counterparts", "src/wax/flax/modules/ewma.py")],
)


def ewma(xs, com, adjust, ignore_na, min_periods):
    """Expectation: xs is a list of scalars or None (missing)."""
    import jax.numpy as jnp

    alpha = 1.0 / (1.0 + com)
    mean, w, n, out = None, None, 0, []
    for x in xs:
        if mean is None:
            if x is not None:
                mean, w = x, 1.0
        else:
            f = 1.0 - alpha
            if adjust == "linear":
                ge = w >= 1.0
                f = 1.0 if x is not None else jnp.where(ge, (w - 1.0) / jnp.where(ge, w, 1.0), 0.0)
                w = jnp.where(w < com, w, com)
            if x is not None or not ignore_na:
                w = w * f
            if x is not None:
                nw = 1.0 if adjust else alpha
                mean = (w * mean + nw * x) / (w + nw)
                w = w + nw if adjust else 1.0
        n += x is not None
        out.append(None if mean is None or n < min_periods else mean)
    return out


def ewmvar(xs, com, adjust):
    import jax.numpy as jnp

    alpha = 1.0 / (1.0 + com)
    mean, var, n, out = None, 0.0, 0, []
    for x in xs:
        if x is not None:
            n += 1
            a = alpha
            if adjust == "linear":
                a = 1.0 / jnp.where(n < 1.0 + com, float(n), 1.0 + com)
            elif adjust:
                s = sum((1.0 - alpha) ** k for k in range(n))
                a = 1.0 / s
            if mean is None:
                mean = x
            else:
                d = x - mean
                mean, var = mean + a * d, (1.0 - a) * (var + a * d * d)
        out.append(var if n else None)
    return out


def rolling(xs, horizon, min_periods):
    out = []
    for t in range(len(xs)):
        w = [x for x in xs[max(0, t - horizon + 1): t + 1] if x is not None]
        out.append(sum(w) / len(w) if w and len(w) >= min_periods else None)
    return out


def diff(xs):
    return [None] + [None if a is None or b is None else b - a for a, b in zip(xs, xs[1:])]


def ffilled(xs):
    out, last = [], None
    for x in xs:
        last = x if x is not None else last
        out.append(last)
    return out


def pct(xs):
    prev = [None] + ffilled(xs)[:-1]
    return [None if p is None else (0.0 if x is None else x / p - 1.0) for x, p in zip(xs, prev)]


REFS = dict(
    EWMA=lambda xs, com, adjust=True, ignore_na=False, min_periods=0: ewma(xs, com, adjust, ignore_na, min_periods),
    EWMVar=lambda xs, com, adjust=True: ewmvar(xs, com, adjust),
    RollingMean=lambda xs, com, horizon, min_periods=1: rolling(xs, horizon, min_periods),
    Diff=lambda xs, com: diff(xs),
    Ffill=lambda xs, com: ffilled(xs),
    PctChange=lambda xs, com: pct(xs),
)


def outputs(impl, name, kw, logs, *xs):
    """Outputs of the real module at every step; logs replaces every decay parameter (in the order of the parameter tree)."""
    import jax
    import jax.numpy as jnp

    rng = jax.random.PRNGKey(0)
    T = xs[0].shape[0]
    nan0 = [jnp.full(x.shape[1:], jnp.nan, x.dtype) for x in xs]

    def given(p):
        leaves, tree = jax.tree_util.tree_flatten(p)
        return jax.tree_util.tree_unflatten(tree, [logs[i].astype(v.dtype) for i, v in enumerate(leaves)])

    if impl == "haiku":
        import haiku as hk
        import wax.modules as W

        f = hk.transform_with_state(lambda *v: getattr(W, name)(**kw)(*v))
        p, s = f.init(rng, *nan0)
        p = given(p)
        outs = []
        for t in range(T):
            o, s = f.apply(p, s, None, *[x[t] for x in xs])
            outs.append(o)
        return outs
    import wax.flax.modules as W

    m = getattr(W, name)(**kw)
    v = m.init(rng, *nan0)
    p = given(v.get("params", {}))
    st = {k: w for k, w in v.items() if k != "params"}
    outs = []
    for t in range(T):
        o, nv = m.apply({"params": p, **st}, *[x[t] for x in xs], mutable=True)
        st = {k: w for k, w in nv.items() if k != "params"}
        outs.append(o)
    return outs


def masked(I, name, pm):
    xs = I.sym(name, pm.shape, nan=False)
    for ix in np.ndindex(*pm.shape):
        if pm[ix]:
            xs.a[ix] = NAN
    return xs


def weights(shape):
    return (np.arange(int(np.prod(shape))) + 1).reshape(shape).astype(np.float32)


def jac(outs_of):
    """Gradients of every step's (weighted, non-missing) output with respect to the decays and the observations."""
    import jax
    import jax.numpy as jnp

    def f(logs, *xs):
        def all_losses(logs, *xs):
            return [jnp.sum(jnp.where(jnp.isnan(o), 0.0, o) * weights(o.shape)) for o in outs_of(logs, *xs)]

        n = xs[0].shape[0]
        return [jax.grad(lambda *a, t=t: all_losses(*a)[t], argnums=tuple(range(len(xs) + 1)))(logs, *xs) for t in range(n)]

    return f


def ref_jac(pms, outs_of):
    """The same for an expectation over scalars: outs_of(logs, *lists of scalars or None, indexed [t][flat column]) -> [t] -> loss."""
    import jax

    def f(logs, *xs):
        import jax.numpy as jnp

        xs = [jnp.where(pm, 0.0, x) for pm, x in zip(pms, xs)]

        def losses(logs, *xs):
            cols = [[[None if pm[(t,) + ix] else x[(t,) + ix] for t in range(pm.shape[0])] for ix in np.ndindex(*pm.shape[1:])]
                    for pm, x in zip(pms, xs)]
            return outs_of(logs, *cols)

        n = xs[0].shape[0]
        res = []
        for t in range(n):
            g = jax.grad(lambda *a, t=t: losses(*a)[t] + 0.0 * a[0][0], argnums=tuple(range(len(xs) + 1)))(logs, *xs)
            res.append((g[0], *[jnp.where(pm, 0.0, gx) for pm, gx in zip(pms, g[1:])]))
        return res

    return f


def total(per_col, t):
    return sum((float(i + 1) * o[t] for i, o in enumerate(per_col) if o[t] is not None), 0.0)


RANGES = [(0, 1), (1, 2), (2, 3)]


def run_one(T, label, impl, name, kw, pms, ref, nlogs, prep, rng_of_com=None, validate=0):
    import jax.numpy as jnp

    pms = [np.asarray(p, bool) for p in pms]

    def inputs(I):
        d = {f"x{i}": masked(I, f"x{i}", pm) for i, pm in enumerate(pms)}
        d["com"] = I.sym("com", (max(nlogs, 1),), nan=False, pos=True)
        return d

    def assume(I, com, **xs):
        cs = []
        if rng_of_com:
            for c in com.a.reshape(-1):
                cs += [c.r > rng_of_com[0], c.r < rng_of_com[1]]
        if name == "PctChange":
            for x in xs.values():
                cs += [v.r != 0 for v in x.a.reshape(-1) if v.nan is False]
        return cs

    kw = dict(kw)
    if nlogs:
        kw["com"] = 1.5

    def run(com, **xs):
        return jac(lambda logs, *x: outputs(impl, name, kw, logs, *x))(jnp.log(com), *[xs[f"x{i}"] for i in range(len(pms))])

    def spec(I, com, **xs):
        rj = ref_jac(pms, lambda logs, *cols: ref(jnp.exp(logs), *cols))
        return I.call(lambda c, *x: rj(jnp.log(c), *x), com, *[xs[f"x{i}"] for i in range(len(pms))])

    def gen(rng):
        d = {}
        for i, pm in enumerate(pms):
            x = (rng.integers(1, 20, pm.shape) / 8 * rng.choice([-1, 1], pm.shape)).astype(np.float32)
            x[pm] = np.nan
            d[f"x{i}"] = x
        lo, hi = rng_of_com or (0, 3)
        d["com"] = (lo + (hi - lo) * rng.integers(1, 8, (max(nlogs, 1),)) / 8).astype(np.float32)
        return d

    check_equiv(T, label, inputs, run, spec, assume=assume, prepared=prep, sign_oracle=True, sample_gen=gen, validate=validate,
                canary=validate > 0, timeout=30000,
                what=f"gradients of {impl} {name}({', '.join(f'{k}={v!r}' for k, v in kw.items())}) through missing values")


def per_column(name, kw):
    def ref(coms, cols):
        outs = [REFS[name](c, coms[0], **kw) for c in cols]
        return [total(outs, t) for t in range(len(cols[0]))]

    return ref


CASES = [
    ("EWMA", dict(adjust=True)), ("EWMA", dict(adjust=True, ignore_na=True)), ("EWMA", dict(adjust=False)),
    ("EWMA", dict(adjust=False, ignore_na=True)), ("EWMA", dict(adjust="linear")), ("EWMA", dict(adjust="linear", ignore_na=True)),
    ("EWMA", dict(adjust=True, min_periods=2)),
    ("EWMVar", dict(adjust=True)), ("EWMVar", dict(adjust=False)), ("EWMVar", dict(adjust="linear")),
    ("RollingMean", dict(horizon=2)), ("RollingMean", dict(horizon=3)), ("Diff", {}), ("Ffill", {}), ("PctChange", {}),
]
COV = [dict(adjust=True), dict(adjust=False), dict(adjust="linear"), dict(adjust=True, assume_centered=True), dict(adjust=False, ignore_na=True), dict(adjust=True, min_periods=2)]


MASKS = [("MaskMean", {}), ("MaskStd", {}), ("MaskStd", dict(assume_centered=True)), ("MaskNormalize", {}), ("MaskNormalize", dict(assume_centered=True))]


def nm(name, kw):
    return "-".join([name, *[f"{k}={v}" for k, v in kw.items()]])


def tasks(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for impl in ("haiku", "flax"):
        for name, kw in CASES:
            out.append(dict(name=f"{impl}-{nm(name, kw)}", fn="t_pat", kw=dict(impl=impl, name=name, kw=kw, n=n)))
            out.append(dict(name=f"{impl}-{nm(name, kw)}-vec", fn="t_vec", kw=dict(impl=impl, name=name, kw=kw)))
        for kw in COV:
            out.append(dict(name=f"{impl}-{nm('EWMCov', kw)}", fn="t_cov", kw=dict(impl=impl, kw=kw, n=n - 1)))
        for name, kw in MASKS:
            out.append(dict(name=f"{impl}-{nm(name, kw)}", fn="t_mask", kw=dict(impl=impl, name=name, kw=kw, n=n)))
    return out


def ranges(kw):
    return RANGES if kw.get("adjust") == "linear" else [None]


def t_pat(T, impl, name, kw, n):
    nlogs = 1 if name.startswith("EWM") else 0
    T.bounds = dict(steps=n, nan_patterns=2**n)
    prep = {}
    for r in ranges(kw):
        for pat in itertools.product([0, 1], repeat=n):
            pm = np.array(pat, bool)
            run_one(T, f"nan={pat} com in {r}", impl, name, kw, [pm.reshape(n, 1)], per_column(name, kw), nlogs, prep, r,
                    validate=1 if sum(pat) == 1 else 0)
            if T.violations:
                return


def t_vec(T, impl, name, kw):
    nlogs = 1 if name.startswith("EWM") else 0
    prep = {}
    r = ranges(kw)[-1]
    for pm in ([[0, 1], [0, 1], [1, 0]], [[1, 1], [0, 1], [1, 1]]):
        run_one(T, f"columns nan={pm}", impl, name, kw, [np.array(pm, bool)], per_column(name, kw), nlogs, prep, r)
        if T.violations:
            return


def t_cov(T, impl, kw, n):
    centered = kw.get("assume_centered", False)
    ek = {k: v for k, v in kw.items() if k != "assume_centered"}
    prep = {}

    def ref(coms, xc, yc):
        steps = len(xc[0])
        out = [[] for _ in range(steps)]
        # parameter tree order: mean_x, mean_xy, mean_y
        cxy = coms[0] if centered else coms[1]
        for x in xc:
            for y in yc:
                xy = [None if a is None or b is None else a * b for a, b in zip(x, y)]
                m = REFS["EWMA"](xy, cxy, **ek)
                mx, my = REFS["EWMA"](x, coms[0], **ek), REFS["EWMA"](y, coms[-1], **ek)
                for t in range(steps):
                    if centered:
                        out[t].append(m[t])
                    else:
                        out[t].append(None if m[t] is None or mx[t] is None or my[t] is None else m[t] - mx[t] * my[t])
        return [sum((float(i + 1) * v for i, v in enumerate(o) if v is not None), 0.0) for o in out]

    r = ranges(kw)[-1]
    for px in itertools.product([0, 1], repeat=n):
        for py in itertools.product([0, 1], repeat=n):
            pmx = np.array([[a, 0] for a in px], bool)
            pmy = np.array(py, bool).reshape(n, 1)
            run_one(T, f"nan x={px} y={py}", impl, "EWMCov", kw, [pmx, pmy], ref, 1 if centered else 3, prep, r,
                    validate=1 if sum(px) + sum(py) == 1 else 0)
            if T.violations:
                return


def mean_ref(x, mask, missing):
    """Masked mean of one column (missing values count as zero)."""
    sel = [0.0 if missing[i] else x[i] for i in range(len(mask)) if mask[i]]
    return sum(sel) / float(len(sel))


def t_mask(T, impl, name, kw, n):
    """Masked statistics over the first axis: exact gradient of the mean, finite gradients of deviation and normalisation."""
    import jax
    import jax.numpy as jnp

    def run_mod(mask, x):
        if impl == "haiku":
            import haiku as hk
            import wax.modules as W

            f = hk.transform(lambda m, v: getattr(W, name)(axis=0, **kw)(m, v))
            return f.apply(f.init(jax.random.PRNGKey(0), mask, x), None, mask, x)
        import wax.flax.modules as W

        return getattr(W, name)(axis=0, **kw).init_with_output(jax.random.PRNGKey(0), mask, x)[0]

    for bits in itertools.product([0, 1], repeat=n):
        mask = np.array(bits, bool)
        if not mask.any():
            continue

        def impl_fn(x):
            def loss(x):
                o = run_mod(jnp.asarray(mask).reshape(n, 1), x.reshape(n, 1)).reshape(-1)
                return jnp.sum(jnp.where(jnp.isnan(o), 0.0, o) * weights(o.shape))

            return jax.grad(loss)(x)

        what = f"gradients of {impl} {name}({', '.join(f'{k}={v!r}' for k, v in kw.items())}) through missing values"
        if name != "MaskMean":
            def prop(I, ins, outs, slack):
                return [(f"[{i}] finite", b_and(b_not(e.nan), b_not(e.inf))) for i, e in enumerate(outs.a)]

            def some(rng):
                return dict(x=np.where(rng.random(n) < 0.3, np.nan, rng.integers(-9, 9, n) / 4).astype(np.float32))

            check_prop(T, f"mask={bits}", lambda I: dict(x=I.sym("x", (n,), nan=True)), impl_fn, prop, sample_gen=some, canary=False,
                       timeout=30000, what=what)
            if T.violations:
                return
            continue
        for pat in itertools.product([0, 1], repeat=n):
            pm = np.array(pat, bool)

            def ref(x):
                g = jax.grad(lambda x: mean_ref([x[i] for i in range(n)], mask, pm) + 0.0 * x[0])(jnp.where(pm, 0.0, x))
                return jnp.where(pm, 0.0, g)

            def gen(rng):
                x = (rng.integers(-9, 9, n) / 4).astype(np.float32)
                x[pm] = np.nan
                return dict(x=x)

            check_equiv(T, f"mask={bits} nan={pat}", lambda I: dict(x=masked(I, "x", pm)), impl_fn, lambda I, x: I.call(ref, x),
                        sample_gen=gen, canary=False, validate=1 if sum(pat) == 1 else 0, timeout=20000, what=what)
            if T.violations:
                return
