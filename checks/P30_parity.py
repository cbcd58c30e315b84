"""P30: the Flax modules, their factories and the Haiku modules of the same name are the same machines."""
import inspect

import numpy as np

from vlib import wx
from vlib.harness import check_equiv

BOUNDS = ("3-4 (quick) / 5-6 (thorough) symbolic steps of shape () and (2,) (masks: (2,3), every axis) with symbolic missing values (and infinities where only moved), symbolic fill values, initial values, "
          "coefficients and rates; every option once away from its default, and all defaults")
ASSUMPTIONS = [
    "exact reals with NaN/infinity flags for the arithmetic modules: equality up to rounding; IEEE floats for the others: bit for bit",
    "step functions and agents of the wrappers are opaque functions; EWMCov with the same min_periods given (its two defaults differ and are documented)",
]
META = dict(
    title="Flax modules, their factories and the Haiku modules agree",
    statement="For the same options, given by keyword or in the documented order, or left out, the Flax modules ApplyMask, Buffer, Counter, Diff, EWMA, EWMVar, EWMCov, Ffill, FillNanInf, HasChanged, Lag, MaskMean, "
    "OHLC, PctChange and RollingMean return on every input sequence the same outputs as the Haiku modules of the same name. The factories create_<module> of these and of MaskStd, MaskNormalize, ARMA, SNARIMAX, GymFeedback, "
    "GymFeedbackLoop, VMap, UpdateParams, OptaxOptimizer, FuncOptimizer, OnlineOptimizer, OnlineSupervisedLearner and SimpleOnlineLearner, and create_flax_module_factory, give modules with the same outputs and states as the class called with the same options "
    "(defaults included); split_variables and combine_variables are inverse to each other.",
    over=["inputs", "histories", "configurations"],
    quant="all inputs with missing values, options and histories within the bound",
    why="tests compare a few modules on one random series with one option, and check only the type of what factories return",
    files=["src/wax/flax/modules/*.py", "src/wax/modules/*.py", "src/wax/flax/core/unroll.py", "src/wax/flax/core/transform.py"],
    mech=[("module classes and create_* factories", "src/wax/flax/modules/*.py"), ("module classes", "src/wax/modules/*.py"),
          ("create_flax_module_factory", "src/wax/flax/core/unroll.py"), ("split_variables, combine_variables", "src/wax/flax/core/transform.py")],
)
NAN = float("nan")
# options: name -> value or ("sym", shape) for a symbolic one; the order of the list is the documented order
SYM = ("sym", ())
SPEC = {
    "ApplyMask": dict(kind="mask", fp=True, opts=[[("axis", 0), ("mask_value", SYM)], [("axis", None), ("mask_value", SYM)], [("axis", 1)]]),
    "Buffer": dict(kind="x", fp=True, opts=[[("maxlen", 3), ("fill_value", SYM)], [("maxlen", 2), ("fill_value", SYM)], [("maxlen", 1)]]),
    "Counter": dict(kind="none", fp=True, opts=[]),
    "Diff": dict(kind="x", opts=[[("periods", 1)]]),
    "EWMA": dict(kind="x", kwonly=True, opts=[[("com", SYM)], [("alpha", SYM)], [("com", 2.0), ("min_periods", 2)], [("com", 2.0), ("adjust", False)], [("com", 2.0), ("adjust", "linear")],
                                              [("alpha", 0.25), ("ignore_na", True)], [("com", 2.0), ("initial_value", SYM)], [("com", 2.0), ("adjust", False), ("ignore_na", True), ("initial_value", SYM)]], nodefault=True),
    "EWMVar": dict(kind="x", kwonly=True, opts=[[("com", SYM)], [("com", None), ("alpha", SYM)], [("com", 2.0), ("alpha", None), ("adjust", False)], [("com", 2.0), ("alpha", None), ("adjust", "linear")]], nodefault=True),
    "EWMCov": dict(kind="xy", kwonly=True, kwopts=[[("com", 2.0), ("initial_value", SYM)]], hkw=dict(min_periods=1), opts=[[("com", 2.0)], [("com", None), ("alpha", 0.25)], [("com", 2.0), ("alpha", None), ("min_periods", 2)], [("com", 2.0), ("alpha", None), ("min_periods", 1), ("adjust", False)],
                              [("com", 2.0), ("alpha", None), ("min_periods", 1), ("adjust", True), ("ignore_na", True)],
                              [("com", 2.0), ("alpha", None), ("min_periods", 1), ("adjust", True), ("ignore_na", False), ("initial_value", SYM)],
                              [("com", 2.0), ("alpha", None), ("min_periods", 1), ("adjust", False), ("ignore_na", False), ("initial_value", NAN), ("assume_centered", True)]], nodefault=True),
    "Ffill": dict(kind="x", fp=True, opts=[[("periods", 1)]]),
    "FillNanInf": dict(kind="x", fp=True, opts=[[("fill_value", SYM)]]),
    "HasChanged": dict(kind="x", fp=True, opts=[]),
    "Lag": dict(kind="x", fp=True, opts=[[("lag", 1)], [("lag", 2), ("fill_value", SYM)]], nodefault=True),
    "MaskMean": dict(kind="mask", opts=[[("axis", 0)], [("axis", 1)]]),
    "MaskStd": dict(kind="mask", parity=False, opts=[[("axis", 0)], [("axis", 1), ("assume_centered", True)], [("axis", None), ("assume_centered", True)]]),
    "MaskNormalize": dict(kind="mask", parity=False, opts=[[("axis", 0)], [("axis", 1), ("assume_centered", True)], [("axis", None), ("assume_centered", True)]]),
    "OHLC": dict(kind="reset", fp=True, opts=[]),
    "PctChange": dict(kind="x", opts=[[("periods", 1), ("fill_method", "pad"), ("limit", None), ("fillna_zero", False)], [("periods", 1), ("fill_method", "ffill")], [("periods", 1), ("fill_method", "bfill")],
                                      [("periods", 1), ("fill_method", "bfill"), ("limit", None), ("fillna_zero", False)]]),
    "RollingMean": dict(kind="x", opts=[[("horizon", 3), ("min_periods", 2)], [("horizon", 2)], [("horizon", 3), ("min_periods", 3)]], nodefault=True),
}
SPEC["Buffer"]["nodefault"] = True
FILES = {"EWMA": "ewma", "EWMVar": "ewmvar", "EWMCov": "ewmcov", "OHLC": "ohlc", "ARMA": "arma", "SNARIMAX": "snarimax"}
ONLY_FLAX = {
    "ARMA": [[("alpha", ("sym", (2,))), ("beta", ("sym", (1,)))], [("alpha", ("sym", (1,))), ("beta", ("sym", (2,)))]],
    "SNARIMAX": [[("lags_x", 2), ("lags_y", 1)], [("lags_x", 1), ("lags_y", 2)], []],
    "Buffer": [[("maxlen", 2), ("fill_value", SYM), ("return_state", True)], [("maxlen", 3), ("fill_value", NAN), ("return_state", False)]],
    "Lag": [[("lag", 2), ("fill_value", SYM), ("return_state", True)], [("lag", 1), ("fill_value", NAN), ("return_state", False)]],
    "EWMA": [[("com", 2.0), ("adjust", "linear"), ("return_info", True)]],
}


def snake(name):
    s = FILES.get(name)
    return s or "".join(("_" if c.isupper() and i else "") + c.lower() for i, c in enumerate(name))


def tasks(tier):
    n = 3 if tier == "quick" else 5
    out = []
    for name in SPEC:
        if SPEC[name].get("parity", True):
            out.append(dict(name=f"parity-{name}", fn="t_parity", kw=dict(name=name, n=n)))
        out.append(dict(name=f"factory-{name}", fn="t_factory", kw=dict(name=name, n=n)))
    for name in ONLY_FLAX:
        out.append(dict(name=f"factory-more-{name}", fn="t_factory", kw=dict(name=name, n=n, more=True)))
    for name in ("agents", "vmap", "optax", "learners", "transform"):
        out.append(dict(name=f"factory-{name}", fn=f"t_{name}", kw=dict(n=n)))
    return out


def mask_shape(name, opts):
    """ApplyMask takes a mask over the given axis, the statistics a mask of the data"""
    axis = dict(opts).get("axis")
    return (2, 3) if name != "ApplyMask" or axis is None else ((2, 3)[axis],)


MISS = [(), (("x", 0),), (("x", 1),), (("y", 1),), (("x", 1), ("y", 2)), (("x", 0), ("y", 0), ("x", 2))]


def missing(kind):
    """which elements are missing: a case split for the covariance, symbolic otherwise"""
    return MISS if kind == "xy" else [None]


def data(kind, n, shape, inf, ms=(2, 3), miss=None):
    def inputs(I):
        if kind == "none":
            return dict(x=I.sym("x", (n,)))
        if kind == "mask":
            return dict(m=I.sym("m", (min(n, 2), *ms), np.bool_), x=I.sym("x", (min(n, 2), 2, 3), inf=inf))
        d = dict(x=I.sym("x", (n,) + shape, inf=inf))
        if kind == "xy":
            from vlib.symjax import SymArr

            gap = I.lift(np.full(shape, np.nan, np.float32)).a
            for k in "xy":
                a = I.sym(k, (n,) + shape, nan=False).a.copy()
                for j, t in miss:
                    if j == k and t < n:
                        a[t] = gap if shape else gap[()]
                d[k] = SymArr(a, np.float32)
        if kind == "reset":
            d["r"] = I.sym("r", (n,), np.bool_)
        return d

    return inputs


def steps(impl, kind, f, d):
    """f: flax module or haiku constructor"""
    if impl == "flax":
        if kind == "none":
            return fx_run(f, len(d["x"]), ())
        return wx.fx_steps(f, *order(kind, d), return_state=True)
    if kind == "none":
        return hk_none(f, len(d["x"]))
    if kind == "reset":
        return wx.hk_steps(lambda x, r: f()(x, reset_on=r), *order(kind, d))
    return wx.hk_steps(lambda *a: f()(*a), *order(kind, d))


def order(kind, d):
    return {"mask": lambda: (d["m"], d["x"]), "xy": lambda: ((d["x"], d["y"]),), "reset": lambda: (d["x"], d["r"])}.get(kind, lambda: (d["x"],))()


def fx_run(mod, n, args):
    import jax

    o, v = mod.init_with_output(jax.random.PRNGKey(0), *[a[0] for a in args])
    outs = [o]
    for t in range(1, n):
        o, v = mod.apply(v, *[a[t] for a in args], mutable=True)
        outs.append(o)
    return outs, v


def hk_none(f, n):
    import haiku as hk
    import jax

    g = hk.transform_with_state(lambda: f()())
    p, s = g.init(jax.random.PRNGKey(0))
    outs = []
    for _ in range(n):
        o, s = g.apply(p, s, None)
        outs.append(o)
    return outs


def values(I, opts):
    return {f"o_{k}": I.sym(k, v[1], nan=False) for k, v in opts if isinstance(v, tuple) and v[0] == "sym"}


def given(opts, d):
    return {k: d[f"o_{k}"] if isinstance(v, tuple) and v[0] == "sym" else v for k, v in opts}


def in_range(opts):
    def assume(I, **d):
        from vlib.z3load import z3

        out = []
        for k, v in opts:
            if isinstance(v, tuple) and v == SYM and k in ("com", "alpha"):
                t = d[f"o_{k}"].a[()]
                r = getattr(t, "r", t)
                out += [r > 0, r <= (1 if k == "alpha" else 8)]
        return [c if not isinstance(c, bool) else z3.BoolVal(c) for c in out]

    return assume


def sampler(kind, n, shape, opts, ms=(2, 3), miss=None):
    def gen(rng):
        s = (min(n, 2), 2, 3) if kind == "mask" else (n,) + (() if kind == "none" else shape)
        x = (rng.integers(-8, 9, s) / 4).astype(np.float32)
        if kind != "xy":
            x[rng.random(s) < 0.3] = np.nan
        d = dict(x=x)
        if kind == "mask":
            d["m"] = rng.random((min(n, 2), *ms)) < 0.6
        if kind == "xy":
            d["y"] = (rng.integers(-8, 9, s) / 4).astype(np.float32)
            for k, t in miss:
                if t < n:
                    d[k][t] = np.nan
        if kind == "reset":
            d["r"] = rng.random(n) < 0.4
        for k, v in opts:
            if isinstance(v, tuple) and v[0] == "sym":
                d[f"o_{k}"] = (rng.integers(1, 5, v[1]) / 4).astype(np.float32)
        return d

    return gen


def outputs(x):
    """plain tuples: the two APIs have their own named tuples"""
    import jax

    return [jax.tree_util.tree_leaves(o) for o in x]


def t_parity(T, name, n):
    import wax.flax.modules as fm
    import wax.modules as hm

    S = SPEC[name]
    kind, fp = S["kind"], S.get("fp", False)
    T.bounds = dict(steps=n, options=len(S["opts"]) + 1)
    F, H = getattr(fm, name), getattr(hm, name)
    confs = [(o, False) for o in S["opts"] + S.get("kwopts", [])] + ([] if S.get("kwonly") else [(o, True) for o in S["opts"]]) + ([] if S.get("nodefault") else [([], False)])
    for opts, positional in confs:
        for shape, miss in [(sh, ms) for sh in (((),) if kind in ("mask", "none") else ((), (2,))) for ms in missing(kind)]:
            m = n if shape == () else 2

            def build(C, d, extra):
                g = given(opts, d)
                return C(*g.values()) if positional else C(**{**extra, **g})

            dat = data(kind, m, shape, fp, mask_shape(name, opts), miss)

            def run(**d):
                return outputs(steps("flax", kind, build(F, d, {}), d)[0])

            def ref(d):
                return outputs(steps("haiku", kind, lambda: build(H, d, S.get("hkw", {})), d))

            check_equiv(T, f"{name} {opts} {'positional' if positional else ''} {shape} {miss or ''}", lambda I: {**dat(I), **values(I, opts)}, run,
                        lambda I, **d: I.call(ref, d), floats="fp" if fp else "real", assume=in_range(opts), sample_gen=sampler(kind, m, shape, opts, mask_shape(name, opts), miss),
                        what=f"Flax {name} differs from Haiku {name} with the same options")
            if T.violations:
                return


def t_factory(T, name, n, more=False):
    import wax.flax.modules.arma, wax.flax.modules.snarimax
    import wax.flax.modules as fm

    S = SPEC.get(name, dict(kind="x"))
    kind, fp = S["kind"], S.get("fp", False)
    if name == "SNARIMAX":
        kind = "x"
    C = getattr(getattr(fm, snake(name)), name)
    make = factory(snake(name), f"create_{snake(name)}")
    confs = [(o, False) for o in (ONLY_FLAX[name] if more else S["opts"])]
    if name != "EWMA":
        confs += [(o, True) for o, _ in confs]
    confs += [(o, False) for o in S.get("kwopts", []) if not more]
    if not S.get("nodefault") and not more:
        confs.append(([], False))
    T.bounds = dict(steps=n, options=len(confs))
    for opts, positional in confs:
        for shape, miss in [(sh, ms) for sh in (((),) if kind in ("mask", "none") or name == "SNARIMAX" else ((2,),)) for ms in missing(kind)]:
            m = n if name in ("ARMA", "SNARIMAX") else min(n, 3)

            def run(**d):
                g = given(opts, d)
                return steps("flax", kind, make(*g.values()) if positional else make(**g), d)

            def ref(d):
                return steps("flax", kind, C(**given(opts, d)), d)

            check_equiv(T, f"create_{snake(name)} {opts} {'positional' if positional else ''} {shape} {miss or ''}", lambda I: {**data(kind, m, shape, fp, mask_shape(name, opts), miss)(I), **values(I, opts)}, run,
                        lambda I, **d: I.call(ref, d), floats="fp" if fp else "real", assume=in_range(opts), sample_gen=sampler(kind, m, shape, opts, mask_shape(name, opts), miss),
                        what=f"create_{snake(name)} does not build {name} with the options given")
            if T.violations:
                return


def factory(module, name):
    import importlib

    return getattr(importlib.import_module(f"wax.flax.modules.{module}"), name)


def same(T, label, inputs, run, ref, what, **kw):
    check_equiv(T, label, inputs, lambda **d: run(**d), lambda I, **d: I.call(lambda dd: ref(**dd), d), what=what, **kw)


def t_agents(T, n):
    import jax.numpy as jnp

    from wax.flax.modules.gym_feedback import GymFeedback, GymFeedbackLoop, create_gym_feedback, create_gym_feedback_loop

    def agent(obs, reward=None):
        return jnp.sin(obs) if reward is None else jnp.tanh(obs) * reward

    def ins(I):
        return dict(o=I.sym("o", (n, 2)), r=I.sym("r", (n,)))

    for C, make in ((GymFeedback, create_gym_feedback), (GymFeedbackLoop, create_gym_feedback_loop)):
        for reward in (True, False):
            for pos in (True, False):
                def run(o, r):
                    return wx.fx_steps(make(agent) if pos else make(agent=agent), *((o, r) if reward else (o,)), return_state=True)

                def ref(o, r):
                    outs = []
                    for t in range(n):
                        a = agent(o[t], r[t]) if reward else agent(o[t])
                        outs.append(a if C is GymFeedback else (o[t], a, r[t] if reward else jnp.zeros([])))
                    return outs

                def outs_only(**d):
                    return run(**d)[0]

                same(T, f"{make.__name__} reward={reward} positional={pos}", ins, outs_only, ref, f"{make.__name__}: wrong feedback")
                same(T, f"{make.__name__} state reward={reward} positional={pos}", ins, run,
                     lambda o, r: wx.fx_steps(C(agent=agent), *((o, r) if reward else (o,)), return_state=True), f"{make.__name__} differs from {C.__name__}")


def t_vmap(T, n):
    import warnings

    import jax.numpy as jnp

    from wax.flax.modules.vmap import create_vmap

    warnings.simplefilter("ignore")

    def f(x):
        return jnp.sin(x[0]) + x[1], {"b": x * 2}

    for kw in (dict(take_mean=True), dict(take_mean=False), {}):
        for pos in (False, True):
            def run(x):
                return create_vmap(f, *kw.values()).apply({}, x) if pos else create_vmap(fun=f, **kw).apply({}, x)

            def ref(x):
                a = jnp.stack([f(v)[0] for v in x])
                b = jnp.stack([f(v)[1]["b"] for v in x])
                return (a, {"b": b}) if kw.get("take_mean") is False else (a.mean(0), {"b": b.mean(0)})

            same(T, f"create_vmap {kw} positional={pos}", lambda I: dict(x=I.sym("x", (n, 2))), run, ref, "create_vmap differs from the function on every element")


def t_optax(T, n):
    import optax

    from wax.flax.modules.optax_optimizer import create_optax_optimizer

    opt = optax.chain(optax.add_decayed_weights(0.5), optax.sgd(0.25, momentum=0.5))

    def ins(I):
        return dict(p=I.sym("p", (2,), nan=False), g=I.sym("g", (n, 2), nan=False))

    for pos in (True, False):
        def run(p, g):
            mod = create_optax_optimizer(opt) if pos else create_optax_optimizer(opt=opt)
            v, outs = {}, []
            for t in range(n):
                (p, _), v = mod.apply(v, {"p": p}, {"p": g[t]}, mutable=True)
                p = p["p"]
                outs.append(p)
            return outs

        def ref(p, g):
            st, outs, q = opt.init({"p": p}), [], {"p": p}
            for t in range(n):
                u, st = opt.update({"p": g[t]}, st, q)
                q = optax.apply_updates(q, u)
                outs.append(q["p"])
            return outs

        same(T, f"create_optax_optimizer positional={pos}", ins, run, ref, "create_optax_optimizer does not apply the optimizer it is given")


def t_learners(T, n):
    """Each factory against the class with every option given by name."""
    import flax.linen as nn
    import jax.numpy as jnp
    import optax

    from wax.flax.modules.func_optimizer import FuncOptimizer, create_func_optimizer
    from wax.flax.modules.online_optimizer import OnlineOptimizer, create_online_optimizer
    from wax.flax.modules.online_supervised_learner import OnlineSupervisedLearner, SimpleOnlineLearner, create_online_supervised_learner, create_simple_online_learner
    from wax.flax.modules.update_params import UpdateParams, create_update_params

    n = min(n, 3)

    def ins(I):
        return dict(x=I.sym("x", (n, 2), nan=False), y=I.sym("y", (n,), nan=False), w=I.sym("w", (2,), nan=False), b=I.sym("b", (), nan=False))

    def loss_model(w0, b0, aux=True):
        class M(nn.Module):
            @nn.compact
            def __call__(self, x, y):
                w, b = self.param("w", lambda r: w0), self.param("b", lambda r: b0)
                p = jnp.tanh(w @ x) + b
                return ((p - y) ** 2, {"p": p}) if aux else (p - y) ** 2

        return M()

    def pred_model(w0, b0):
        class M(nn.Module):
            @nn.compact
            def __call__(self, x):
                w, b = self.param("w", lambda r: w0), self.param("b", lambda r: b0)
                return jnp.tanh(w @ x) + b

        return M()

    opt = optax.sgd(0.25, momentum=0.5)

    def only(module, name, value=None):
        return name == "b"

    def project(p):
        import jax

        return jax.tree_util.tree_map(lambda v: jnp.maximum(v, -1.0), p)

    def regular(loss, params, aux):
        import jax

        return loss + sum((v * v).sum() for v in jax.tree_util.tree_leaves(params))

    def sq(p, y):
        return (p - y) ** 2

    def steps2(mod, x, y):
        v, outs = {}, []
        for t in range(n):
            o, v = mod.apply(v, x[t], y[t], mutable=True)
            outs.append({k: getattr(o, k) for k in ("loss", "aux", "params", "grads", "opt_loss") if hasattr(o, k)} if hasattr(o, "loss") else o)
        return outs, v

    cases = [
        ("create_online_optimizer", create_online_optimizer, OnlineOptimizer, [("model", lambda w, b: loss_model(w, b)), ("opt", opt), ("project_params", project), ("regularize_loss", regular), ("params_predicate", only)], 2),
        ("create_online_supervised_learner", create_online_supervised_learner, OnlineSupervisedLearner, [("model", pred_model), ("loss_fn", sq), ("opt", opt), ("params_predicate", only)], 3),
        ("create_simple_online_learner", create_simple_online_learner, SimpleOnlineLearner, [("model", pred_model), ("loss_fn", sq), ("opt", opt)], 3),
        ("create_func_optimizer", create_func_optimizer, FuncOptimizer, [("fun", lambda w, b: loss_model(w, b, True)), ("opt", opt), ("has_aux", True), ("params_predicate", only)], 2),
        ("create_func_optimizer-noaux", create_func_optimizer, FuncOptimizer, [("fun", lambda w, b: loss_model(w, b, False)), ("opt", opt), ("has_aux", False), ("params_predicate", only)], 2),
        ("create_update_params", create_update_params, UpdateParams, [("fun", lambda w, b: (lambda x, y: jnp.sin(x) @ w + b * y)), ("predicate", only)], 1),
    ]
    for label, make, C, opts, least in cases:
        for k in range(least, len(opts) + 1):
            if k < 3 and label == "create_func_optimizer":
                continue
            names = [o[0] for o in opts[:k]]
            for pos in (True, False):
                def vals(w, b):
                    return [v(w, b) if i == 0 else v for i, (_, v) in enumerate(opts[:k])]

                def run(x, y, w, b):
                    a = vals(w, b)
                    return steps2(make(*a) if pos else make(**dict(zip(names, a))), x, y)

                def ref(x, y, w, b):
                    return steps2(C(**dict(zip(names, vals(w, b)))), x, y)

                same(T, f"{label} options={names} positional={pos}", ins, run, ref, f"{make.__name__} does not build {C.__name__} with the options given", validate=1)
                if T.violations:
                    return


def t_transform(T, n):
    import flax.linen as nn
    import jax
    import jax.numpy as jnp
    from flax.core import FrozenDict, unfreeze

    from wax.flax.core.transform import combine_variables, split_variables
    from wax.flax.core.unroll import create_flax_module_factory
    from wax.flax.modules import EWMA, RollingMean

    def ins(I):
        return dict(a=I.sym("a", (2,)), b=I.sym("b", ()), c=I.sym("c", (3,)))

    def fields(v):
        return unfreeze(v) if isinstance(v, FrozenDict) else v

    def trees(a, b, c):
        return [FrozenDict({"params": {"m": {"w": a}}, "state": {"s": b}, "stats": {"m": {"c": c}}}), FrozenDict({"params": {"w": a}, "cache": {"b": b, "c": c}}),
                FrozenDict({"state": {"a": a, "b": b, "c": c}}), FrozenDict({"params": {"a": a, "b": b, "c": c}})]

    def run(a, b, c):
        out = []
        for v in trees(a, b, c):
            p, s = split_variables(v)
            q = combine_variables(p, s)
            p2, s2 = split_variables(q)
            out.append((fields(p), fields(s), fields(q).get("params"), {k: w for k, w in fields(q).items() if k != "params"}, fields(p2), fields(s2)))
        return out

    def ref(a, b, c):
        out = []
        for v in trees(a, b, c):
            v = unfreeze(v)
            p, s = v.get("params", {}), {k: w for k, w in v.items() if k != "params"}
            out.append((p, s, p, s, p, s))
        return out

    same(T, "split_variables / combine_variables", ins, run, ref, "split_variables and combine_variables are not inverse")

    for C, kw in ((RollingMean, dict(horizon=3, min_periods=2)), (EWMA, dict(com=2.0, adjust=False))):
        same(T, f"create_flax_module_factory {C.__name__}", lambda I: dict(x=I.sym("x", (n,))),
             lambda x: (wx.fx_steps(create_flax_module_factory(C, **kw)(), x, return_state=True), wx.fx_steps(create_flax_module_factory(C, **kw)(), x)),
             lambda x: (wx.fx_steps(C(**kw), x, return_state=True), wx.fx_steps(C(**kw), x)), "create_flax_module_factory does not build the module with its options")
