"""P23: ARMA filters (Haiku, Flax) and SNARIMAX feature construction (Haiku, Flax)."""
import numpy as np

from vlib import wx
from vlib.harness import check_equiv
from vlib.z3load import z3

BOUNDS = ("orders p, q of 0..2 (quick) / 0..3 (thorough), 4 (quick) / 6 (thorough) symbolic steps with symbolic missing inputs, "
          "shapes (), (2,); symbolic coefficients, regressor parameters and features")
ASSUMPTIONS = [
    "exact reals with NaN/infinity flags: equality up to rounding; inputs finite or NaN, no overflow",
    "the regressor is an uninterpreted function of the features (or the default linear layer); Haiku ARMA inputs of rank <= 1",
]
META = dict(
    title="ARMA obeys its recursion; SNARIMAX regresses on exactly the documented past",
    statement="Haiku ARMA(alpha, beta) returns y[t] = eps[t] + alpha . (last p outputs, oldest first) + beta . (last q inputs before the current "
    "one, oldest first); Flax ARMA returns y[t] = eps[t] + sum_i alpha[i] y[t-i-1] + sum_j beta[j] eps[t-j-1]; values before the start are 0, "
    "a result that is not a number is returned and remembered as 0, elements of an array input are filtered independently. Haiku SNARIMAX(p, q) "
    "returns the regressor applied to the exogenous features, then the last q errors (target minus prediction) of previous "
    "steps, then the last p targets up to the current one, oldest first, missing ones (and those before the start of the errors) as 0. Flax SNARIMAX returns the "
    "regressor on the last lags_x inputs, the last lags_y differences y - x (when y is given), oldest first and 0 before the start, and the "
    "current input, missing results as 0.",
    over=["inputs", "histories", "programs"],
    quant="all inputs with missing values, coefficients, regressors and exogenous features, histories within the bound",
    why="tests only check that outputs are finite or that a long simulation fits one random series",
    files=["src/wax/modules/arma.py", "src/wax/modules/snarimax.py", "src/wax/flax/modules/arma.py", "src/wax/flax/modules/snarimax.py"],
    mech=[("ARMA", "src/wax/modules/arma.py"), ("SNARIMAX", "src/wax/modules/snarimax.py"), ("ARMA", "src/wax/flax/modules/arma.py"),
          ("SNARIMAX", "src/wax/flax/modules/snarimax.py")],
)


def tasks(tier):
    n, m = (4, 2) if tier == "quick" else (6, 3)
    out = []
    for impl in ("haiku", "flax"):
        for p in range(1 if impl == "haiku" else 0, m + 1):
            for q in range(1 if impl == "haiku" else 0, m + 1):
                k = n if p + q <= 4 else n - 1
                out.append(dict(name=f"{impl}-arma-{p}-{q}", fn="t_arma", kw=dict(impl=impl, p=p, q=q, n=k, shape=())))
        out.append(dict(name=f"{impl}-arma-vector", fn="t_arma", kw=dict(impl=impl, p=2, q=1, n=3, shape=(2,))))
        out.append(dict(name=f"{impl}-arma-inf", fn="t_arma", kw=dict(impl=impl, p=1, q=1, n=3, shape=(), inf=True)))
        out.append(dict(name=f"{impl}-arma-int", fn="t_arma_int", kw=dict(impl=impl, n=4)))
        out.append(dict(name=f"{impl}-arma-prefix", fn="t_prefix", kw=dict(impl=impl, L=20 if tier == "quick" else 60)))
    for p in range(1, m + 1):
        for q in range(0, m + 1):
            out.append(dict(name=f"haiku-snarimax-{p}-{q}", fn="t_snarimax", kw=dict(p=p, q=q, n=n)))
    for lx in range(0, m + 1):
        for ly in range(0, m + 1):
            out.append(dict(name=f"flax-snarimax-{lx}-{ly}", fn="t_fsnarimax", kw=dict(lx=lx, ly=ly, n=n)))
    out.append(dict(name="linear", fn="t_linear", kw=dict(n=3)))
    return out


def fill(v):
    import jax.numpy as jnp

    return jnp.where(jnp.isfinite(v), v, 0.0)


def arma_ref(impl, alpha, beta, eps):
    import jax.numpy as jnp

    p, q = len(alpha), len(beta)
    y, e = [jnp.zeros(eps.shape[1:])] * p, [jnp.zeros(eps.shape[1:])] * q  # oldest first
    outs = []
    for t in range(eps.shape[0]):
        v = eps[t]
        for i in range(p):
            v = v + alpha[i] * (y[len(y) - p + i] if impl == "haiku" else y[-1 - i])
        for j in range(q):
            v = v + beta[j] * (e[len(e) - q + j] if impl == "haiku" else e[-1 - j])
        v = fill(v)
        y, e = y + [v], e + [eps[t]]
        outs.append(v)
    return outs


def mk_arma(impl, alpha, beta):
    if impl == "haiku":
        from wax.modules import ARMA

        return lambda x: ARMA(alpha, beta)(x)
    from wax.flax.modules.arma import ARMA

    return ARMA(alpha=alpha, beta=beta)


def t_arma(T, impl, p, q, n, shape, inf=False):
    shape = tuple(shape)
    T.bounds = dict(steps=n, p=p, q=q, shape=list(shape))

    def sample(rng, nan):
        e = (rng.integers(-4, 5, (n,) + shape) / 2).astype(np.float32)
        if nan is None:
            e[rng.random((n,) + shape) < 0.3] = np.nan
            if inf:
                e[rng.random((n,) + shape) < 0.3] = np.inf
        return dict(alpha=rng.integers(-3, 4, p).astype(np.float32) / 2, beta=rng.integers(-3, 4, q).astype(np.float32) / 2, eps=e)

    for nan in (None,) if inf else (False, None):
        check_equiv(T, f"{impl} ARMA({p},{q}) {shape} nan={nan}",
                    lambda I: dict(alpha=I.sym("alpha", (p,), nan=False), beta=I.sym("beta", (q,), nan=False),
                                   eps=I.sym("eps", (n,) + shape, inf=inf, **({} if nan is None else dict(nan=nan)))),
                    lambda alpha, beta, eps: wx.steps(impl, mk_arma(impl, alpha, beta), eps),
                    lambda I, **k: I.call(lambda kk: arma_ref(impl, **kk), k),
                    what=f"{impl} ARMA differs from its recursion", sample_gen=lambda rng: sample(rng, nan))


def unrolled(impl, f, x):
    if impl == "flax":
        return wx.scan(impl, f, x)
    from wax.unroll import unroll

    return unroll(f)(x)


def t_arma_int(T, impl, n):
    """Integer inputs: the recursion runs on numbers, not on truncated ones."""
    def int_ref(kk):
        import jax.numpy as jnp

        r = arma_ref(impl, **{**kk, "eps": kk["eps"].astype(np.float32)})
        return r, jnp.stack(r if impl == "haiku" else r[1:])

    check_equiv(T, f"{impl} ARMA(1,1) on integers",
                lambda I: dict(alpha=I.sym("alpha", (1,), nan=False), beta=I.sym("beta", (1,), nan=False), eps=I.sym("eps", (n,), np.int32)),
                lambda alpha, beta, eps: (wx.steps(impl, mk_arma(impl, alpha, beta), eps), unrolled(impl, mk_arma(impl, alpha, beta), eps)),
                lambda I, **k: I.call(int_ref, k),
                assume=lambda I, alpha, beta, eps: [z3.And(e >= -1000, e <= 1000) for e in eps.a],
                sample_gen=lambda rng: dict(alpha=rng.integers(-3, 4, 1).astype(np.float32) / 2, beta=rng.integers(-3, 4, 1).astype(np.float32) / 2,
                                            eps=rng.integers(-4, 5, n).astype(np.int32)),
                what=f"{impl} ARMA truncates its recursion on integer inputs", ints="int")


def t_prefix(T, impl, L):
    """Long histories: concrete coefficients and prefix, symbolic last steps."""
    import jax.numpy as jnp

    from vlib.symjax import SymArr

    px = ((np.arange(L) % 5) - 2).astype(np.float32) / 4
    px[3::7] = np.nan
    alpha, beta = np.array([0.5, -0.25], np.float32), np.array([0.25, 0.5, -0.5], np.float32)

    def run(eps):
        return wx.scan(impl, mk_arma(impl, jnp.asarray(alpha), jnp.asarray(beta)), eps, last=3)

    def ref(eps):
        return jnp.stack(arma_ref(impl, alpha, beta, eps)[-3:])

    check_equiv(T, f"{impl} ARMA after {L} steps",
                lambda I: dict(eps=SymArr(np.concatenate([I.lift(px).a, I.sym("e", (3,)).a]), np.float32)),
                run, lambda I, **k: I.call(lambda kk: ref(**kk), k), what=f"{impl} ARMA deviates after {L} steps")


def reg(w):
    import jax.numpy as jnp

    return lambda X: jnp.sin(X).reshape(-1) @ w


def snarimax_ref(p, q, y, X, f):
    import jax.numpy as jnp

    z = jnp.zeros(y.shape[1:])
    err, ys, outs = [z] * q, [jnp.full(y.shape[1:], jnp.nan)] * p, []
    for t in range(y.shape[0]):
        ys.append(y[t])
        feats = ([X[t]] if X is not None else []) + [jnp.reshape(e, (-1,)) for e in err[len(err) - q:]]
        feats += [jnp.reshape(v, (-1,)) for v in ys[len(ys) - p:]]
        pred = f(fill(jnp.concatenate(feats))).reshape(y.shape[1:])
        err.append(y[t] - pred)
        outs.append(pred)
    return outs


def t_snarimax(T, p, q, n):
    from wax.modules import SNARIMAX

    T.bounds = dict(steps=n, p=p, q=q)
    for ex in (0, 2):
        def run(y, w, X=None):
            def f(*a):
                o, info = SNARIMAX(p, q=q, regressor=reg(w))(*a)
                assert info == {}
                return o

            return wx.hk_steps(f, *((y,) if X is None else (y, X)))

        def inputs(I):
            d = dict(y=I.sym("y", (n,)), w=I.sym("w", (p + q + ex,), nan=False))
            if ex:
                d["X"] = I.sym("X", (n, ex), inf=q == 0)
            return d

        check_equiv(T, f"SNARIMAX({p}, q={q}) exogenous={ex}", inputs, run,
                    lambda I, **k: I.call(lambda kk: snarimax_ref(p, q, kk["y"], kk.get("X"), reg(kk["w"])), k),
                    what="Haiku SNARIMAX regresses on other features than its past targets and errors")


def fsnarimax_ref(lx, ly, x, y, f):
    import jax.numpy as jnp

    z = jnp.zeros(x.shape[1:])
    xs, es, outs = [z] * lx, [z] * ly, []
    for t in range(x.shape[0]):
        xs.append(x[t])
        feats = xs[len(xs) - lx:]
        if y is not None:
            es.append(y[t] - x[t])
            feats = feats + es[len(es) - ly:]
        feats = feats + [x[t]]
        outs.append(fill(f(jnp.concatenate([jnp.reshape(v, (-1,)) for v in feats]))))
    return outs


def t_fsnarimax(T, lx, ly, n):
    from wax.flax.modules.snarimax import SNARIMAX

    T.bounds = dict(steps=n, lags_x=lx, lags_y=ly)
    for shape, withy in (((), True), ((2,), True), ((), False)) + ((((2, 1), True),) if lx + ly == 2 else ()):
        k = int(np.prod(shape)) if shape else 1
        m = k * (lx + (ly if withy else 0) + 1)

        def run(x, w, y=None):
            return wx.fx_steps(SNARIMAX(lags_x=lx, lags_y=ly, regressor=reg(w)), *((x,) if y is None else (x, y)))

        def inputs(I):
            d = dict(x=I.sym("x", (n,) + shape), w=I.sym("w", (m,), nan=False))
            if withy:
                d["y"] = I.sym("y", (n,) + shape)
            return d

        check_equiv(T, f"flax SNARIMAX({lx},{ly}) {shape} y={withy}", inputs, run,
                    lambda I, **kw: I.call(lambda kk: fsnarimax_ref(lx, ly, kk["x"], kk.get("y"), reg(kk["w"])), kw),
                    what="Flax SNARIMAX regresses on other features than its lags")


def t_linear(T, n):
    """The default regressor is a linear layer with bias of the features."""
    import haiku as hk
    import jax

    from wax.flax.modules.snarimax import SNARIMAX as FS
    from wax.modules import SNARIMAX

    def run(y, w, b):
        f = hk.transform_with_state(lambda y: SNARIMAX(2, q=1)(y)[0])
        p, s = f.init(jax.random.PRNGKey(0), y[0])
        p = {m: {k: (w.reshape(-1, 1) if k == "w" else b.reshape(1)) for k in d} for m, d in p.items()}
        outs = []
        for t in range(n):
            o, s = f.apply(p, s, None, y[t])
            outs.append(o)
        return outs

    check_equiv(T, "default regressor (haiku)", lambda I: dict(y=I.sym("y", (n,)), w=I.sym("w", (3,), nan=False), b=I.sym("b", (), nan=False)),
                run, lambda I, **k: I.call(lambda kk: snarimax_ref(2, 1, kk["y"], None, lambda X: X @ kk["w"] + kk["b"]), k),
                what="Haiku SNARIMAX with its default regressor")

    def runf(x, y, w, b):
        m = FS(lags_x=2, lags_y=1)
        o, v = m.init_with_output(jax.random.PRNGKey(0), x[0], y[0])
        p = jax.tree_util.tree_map_with_path(lambda q, a: w.reshape(-1, 1) if "kernel" in jax.tree_util.keystr(q) else b.reshape(1), v["params"])
        outs, st = [], {k: q for k, q in v.items() if k != "params"}
        for t in range(1, n):
            o, nv = m.apply({"params": p, **st}, x[t], y[t], mutable=True)
            st = {k: q for k, q in nv.items() if k != "params"}
            outs.append(o)
        return outs

    check_equiv(T, "default regressor (flax)",
                lambda I: dict(x=I.sym("x", (n,)), y=I.sym("y", (n,)), w=I.sym("w", (4,), nan=False), b=I.sym("b", (), nan=False)), runf,
                lambda I, **k: I.call(lambda kk: fsnarimax_ref(2, 1, kk["x"], kk["y"], lambda X: X @ kk["w"] + kk["b"])[1:], k),
                what="Flax SNARIMAX with its default regressor")
