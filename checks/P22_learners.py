"""P22: online learners perform one optimizer step per call on the trainable parameters and thread everything else."""
import itertools

import numpy as np

from vlib.harness import check_equiv

BOUNDS = "histories of 2 (quick) / 4 (thorough) calls; symbolic data (including missing values), initial parameters; every option combination"
ASSUMPTIONS = [
    "real arithmetic in which sin/tanh/cos are uninterpreted functions; the gradients themselves are those of jax.grad",
    "gradients are finite or NaN (overflow to infinity is outside the model)",
]
META = dict(
    title="Online learners take one optimizer step on the trainable parameters per call",
    statement="OnlineOptimizer, FuncOptimizer and OnlineSupervisedLearner (Haiku and Flax) evaluate, at each call, the model on the current "
    "parameters and model state, return that loss (plus regularisation, if given), its auxiliary output and (where returned) gradients, and replace the "
    "trainable parameters by the (projected, if given) optimizer update along the gradient of that loss, with NaN gradients taken as 0 (Haiku "
    "FuncOptimizer and OnlineSupervisedLearner: only with grads_fill_nan_inf). Parameters the predicate rejects never change, even inside a module that also "
    "owns trainable ones; model state and optimizer state are threaded from call to call (Flax: model state in OnlineOptimizer only); without a predicate all "
    "parameters are trainable. UpdateParams evaluates its function on the given trainable and the captured other parameters.",
    over=["programs", "histories", "inputs", "configurations"],
    quant="all data, initial parameters, models of the modelled shape (opaque functions), option combinations, histories within the bound",
    why="tests check that a loss decreases on one random data set",
    files=["src/wax/modules/online_optimizer.py", "src/wax/modules/func_optimizer.py", "src/wax/modules/update_params.py",
           "src/wax/modules/online_supervised_learner.py", "src/wax/flax/modules/online_optimizer.py", "src/wax/flax/modules/func_optimizer.py",
           "src/wax/flax/modules/update_params.py", "src/wax/flax/modules/online_supervised_learner.py"],
    mech=[("OnlineOptimizer", "src/wax/modules/online_optimizer.py, src/wax/flax/modules/online_optimizer.py"),
          ("FuncOptimizer, UpdateParams", "src/wax/modules/func_optimizer.py, update_params.py (and flax)"),
          ("OnlineSupervisedLearner", "src/wax/modules/online_supervised_learner.py (and flax)")],
)
PREDS = ("all", "none", "by-name", "by-value-shape", "frozen")


def tasks(tier):
    n = 2 if tier == "quick" else 4
    out = []
    for impl in ("haiku", "flax"):
        for pred in PREDS:
            out.append(dict(name=f"{impl}-online-{pred}", fn="t_online", kw=dict(impl=impl, pred=pred, n=n)))
            out.append(dict(name=f"{impl}-func-{pred}", fn="t_func", kw=dict(impl=impl, pred=pred, n=n)))
        out.append(dict(name=f"{impl}-supervised", fn="t_supervised", kw=dict(impl=impl, n=n)))
        out.append(dict(name=f"{impl}-transformed", fn="t_transformed", kw=dict(impl=impl, n=n)))
    out.append(dict(name="haiku-update-params", fn="t_update_params", kw=dict(n=n)))
    out.append(dict(name="flax-partition", fn="t_partition", kw={}))
    return out


def predicate(pred):
    if pred == "none":
        return None
    return {"all": lambda m, n, v: True, "by-name": lambda m, n, v: n in ("w", "b"), "by-value-shape": lambda m, n, v: np.ndim(v) == 0,
            "frozen": lambda m, n, v: False}[pred]


def trainable(pred):
    """names of the trainable parameters: w [2], v [], b []"""
    return {"all": "wvb", "none": "wvb", "by-name": "wb", "by-value-shape": "vb", "frozen": ""}[pred]


def core(w, v, b, m, x, y):
    """The model: (loss, prediction, new model state)."""
    import jax.numpy as jnp

    # a missing x[0] makes some gradients of the same array missing, not all
    p = jnp.tanh(w[0] * x[0] + v) * b + m
    return jnp.square(p - y) + (v + jnp.sin(w[1])) * x[1], p, jnp.sin(m + w[0] * x[0])


def inputs(n, state=True):
    def mk(I):
        return dict(x=I.sym("x", (n, 2)), y=I.sym("y", (n,), nan=False), w0=I.sym("w", (2,), nan=False), v0=I.sym("v", (), nan=False),
                    b0=I.sym("b", (), nan=False), m0=I.sym("m", (), nan=False))

    return mk


def model_hk(w0, v0, b0, m0, stateful=True, out="pair"):
    import haiku as hk
    import jax.numpy as jnp

    class Lin(hk.Module):
        def __call__(self):
            return hk.get_parameter("w", [2], init=lambda *_: w0), hk.get_parameter("v", [], init=lambda *_: v0)

    def f(x, y):
        w, v = Lin(name="lin")()
        b = hk.get_parameter("b", [], init=lambda *_: b0)
        m = hk.get_state("m", [], init=lambda *_: m0) if stateful else jnp.zeros([])
        loss, p, m2 = core(w, v, b, m, x, y)
        if stateful:
            hk.set_state("m", m2)
        return (loss, {"p": p}) if out == "pair" else (loss, p, x) if out == "triple" else loss

    return f


def model_fx(w0, v0, b0, m0, stateful=True, out="pair"):
    import flax.linen as nn
    import jax.numpy as jnp

    class Lin(nn.Module):
        @nn.compact
        def __call__(self):
            return self.param("w", lambda r: w0), self.param("v", lambda r: v0)

    class M(nn.Module):
        @nn.compact
        def __call__(self, x, y):
            w, v = Lin(name="lin")()
            b = self.param("b", lambda r: b0)
            m = self.variable("state", "m", lambda: m0) if stateful else None
            loss, p, m2 = core(w, v, b, m.value if stateful else jnp.zeros([]), x, y)
            if stateful:
                m.value = m2
            return (loss, {"p": p}) if out == "pair" else (loss, p, x) if out == "triple" else loss

    return M()


def hk_run(fn, n, args):
    import haiku as hk
    import jax

    f = hk.transform_with_state(fn)
    p, s = f.init(jax.random.PRNGKey(0), *[a[0] for a in args])
    outs = []
    for t in range(n):
        o, s = f.apply(p, s, None, *[a[t] for a in args])
        outs.append(o)
    return outs


def fx_run(mod, n, args):
    st, outs = {}, []
    for t in range(n):
        o, st = mod.apply(st, *[a[t] for a in args], mutable=True)
        outs.append(o)
    return outs


def flat(tree):
    """parameters by their (unique) names w, v, b"""
    import jax

    d = {}
    for path, v in jax.tree_util.tree_flatten_with_path(tree)[0]:
        for k in reversed(path):
            k = getattr(k, "key", getattr(k, "name", None))
            if k in ("w", "v", "b"):
                d[k] = v
                break
    return d


def clean(g):
    import jax
    import jax.numpy as jnp

    return jax.tree_util.tree_map(lambda a: jnp.where(jnp.isnan(a), jnp.zeros([]), a), g)


def reference(names, opt, n, x, y, w0, v0, b0, m0, stateful, reg=None, project=None, fill=True, consume=False):
    """The defining loop; regularisation and projection act on the dict of trainable parameters."""
    import jax
    import jax.numpy as jnp
    import optax

    P = dict(w=w0, v=v0, b=b0)
    tr, fz = {k: P[k] for k in P if k in names}, {k: P[k] for k in P if k not in names}
    m = m0 if stateful else jnp.zeros([])
    if consume and stateful:
        m = core(w0, v0, b0, m, x[0], y[0])[2]
    st = opt.init(tr)
    outs = []
    for t in range(n):
        def loss(tr):
            q = {**tr, **fz}
            l, p, m2 = core(q["w"], q["v"], q["b"], m, x[t], y[t])
            if reg is not None:
                l = l + reg(q, tr)
            return l, (p, m2)

        (l, (p, m2)), g = jax.value_and_grad(loss, has_aux=True)(tr)
        if stateful:
            m = m2
        if fill:
            g = clean(g)
        u, st = opt.update(g, st, tr)
        tr = optax.apply_updates(tr, u)
        if project is not None:
            tr = project(tr)
        outs.append(dict(loss=l, p=p, g=g, tr=tr, all={**tr, **fz}))
    return outs


def opts(k):
    import optax

    return dict(momentum=optax.sgd(0.25, momentum=0.5), decay=optax.chain(optax.add_decayed_weights(0.5), optax.sgd(0.25)), sgd=optax.sgd(0.25))[k]


def sq(tr):
    import jax

    return sum((v * v).sum() for v in jax.tree_util.tree_leaves(tr))


def clip(tr):
    import jax
    import jax.numpy as jnp

    return jax.tree_util.tree_map(lambda v: jnp.maximum(v, -1.0), tr)


def eq(T, label, n, run, ref, what, **kw):
    check_equiv(T, label, inputs(n), run, lambda I, **k: I.call(lambda kk: ref(**kk), k), validate=1, what=what, **kw)


def t_online(T, impl, pred, n):
    T.bounds = dict(calls=n, predicate=pred)
    names = trainable(pred)
    for k, reg, proj, stateful, wrap in (("momentum", False, False, True, False), ("sgd", True, True, True, True), ("decay", True, False, False, False),
                                         ("sgd", False, True, False, False)):
        if impl == "haiku" and pred == "none":
            continue  # the Haiku OnlineOptimizer documents a predicate, default: all

        def run(x, y, w0, v0, b0, m0):
            if impl == "haiku":
                from wax.modules.online_optimizer import OnlineOptimizer
                from wax.modules.optax_optimizer import OptaxOptimizer

                def fn(x, y):
                    o = opts(k)
                    kw = {} if pred == "all" and reg else dict(params_predicate=predicate(pred))
                    return OnlineOptimizer(model_hk(w0, v0, b0, m0, stateful), OptaxOptimizer(o) if wrap else o,
                                           project_params=(lambda tr, o: clip(tr)) if proj else None, regularize_loss=sq if reg else None,
                                           return_params=True, **kw)(x, y)

                outs = hk_run(fn, n, (x, y))
                return [(o.loss, o.model_info["p"], flat(o.params)) for o in outs]
            from wax.flax.modules.online_optimizer import OnlineOptimizer, create_online_optimizer
            from wax.flax.modules.optax_optimizer import OptaxOptimizer

            o = opts(k)
            kw = dict(model=model_fx(w0, v0, b0, m0, stateful), opt=OptaxOptimizer(opt=o) if wrap else o, project_params=clip if proj else None,
                      regularize_loss=(lambda l, p, aux: l + sq(p)) if reg else None, params_predicate=predicate(pred))
            mod = (create_online_optimizer if wrap else OnlineOptimizer)(**kw)
            outs = fx_run(mod, n, (x, y))
            return [(o.loss, o.aux["p"], flat(o.params), flat(o.grads)) for o in outs]

        def ref(x, y, w0, v0, b0, m0):
            r = reference(names, opts(k), n, x, y, w0, v0, b0, m0, stateful, consume=impl == "flax",
                          reg=(lambda q, tr: sq(tr if impl == "haiku" else q)) if reg else None, project=clip if proj else None)
            return [(o["loss"], o["p"], o["all"]) + ((o["g"],) if impl == "flax" else ()) for o in r]

        eq(T, f"{impl} OnlineOptimizer {k} pred={pred} reg={reg} project={proj} stateful={stateful}", n, run, ref,
           f"{impl} OnlineOptimizer differs from one optimizer step on the trainable parameters")
        if T.violations:
            return
    if impl == "flax":
        for out in ("loss", "triple"):
            def run(x, y, w0, v0, b0, m0):
                from wax.flax.modules.online_optimizer import OnlineOptimizer

                mod = OnlineOptimizer(model=model_fx(w0, v0, b0, m0, True, out), opt=opts("sgd"), params_predicate=predicate(pred))
                return [(o.loss, [] if o.aux is None else list(o.aux), flat(o.params)) for o in fx_run(mod, n, (x, y))]

            def ref(x, y, w0, v0, b0, m0):
                r = reference(names, opts("sgd"), n, x, y, w0, v0, b0, m0, True, consume=True)
                return [(o["loss"], [o["p"], x[t]] if out == "triple" else [], o["all"]) for t, o in enumerate(r)]

            eq(T, f"flax OnlineOptimizer returns {out}", n, run, ref, "flax OnlineOptimizer: wrong loss or auxiliary output")


def t_transformed(T, impl, n):
    """Models given as init/apply pairs (and, for the Flax optimizer, plain Haiku functions)."""
    T.bounds = dict(calls=n)
    for kind in ("pair", "function") if impl == "flax" else ("pair",):
        def run(x, y, w0, v0, b0, m0):
            import haiku as hk

            f = model_hk(w0, v0, b0, m0)
            if impl == "haiku":
                from wax.modules.online_optimizer import OnlineOptimizer

                outs = hk_run(lambda x, y: OnlineOptimizer(hk.transform_with_state(f), opts("momentum"), return_params=True)(x, y), n, (x, y))
                return [(o.loss, o.model_info["p"], flat(o.params)) for o in outs]
            from wax.flax.modules.online_optimizer import OnlineOptimizer

            mod = OnlineOptimizer(model=hk.transform_with_state(f) if kind == "pair" else f, opt=opts("momentum"))
            return [(o.loss, o.aux["p"], flat(o.params)) for o in fx_run(mod, n, (x, y))]

        def ref(x, y, w0, v0, b0, m0):
            return [(o["loss"], o["p"], o["all"]) for o in reference("wvb", opts("momentum"), n, x, y, w0, v0, b0, m0, True)]

        eq(T, f"{impl} OnlineOptimizer of a {kind}", n, run, ref, f"{impl} OnlineOptimizer differs from one optimizer step on the trainable parameters")


def t_func(T, impl, pred, n):
    T.bounds = dict(calls=n, predicate=pred)
    names = trainable(pred)
    for k, aux, fill in itertools.product(("momentum", "decay"), (True, False), (True, False)):
        if impl == "flax" and not fill:
            continue
        stateful = impl == "haiku"

        def run(x, y, w0, v0, b0, m0):
            if impl == "haiku":
                from wax.modules.func_optimizer import FuncOptimizer
                from wax.modules.optax_optimizer import OptaxOptimizer

                def fn(x, y):
                    return FuncOptimizer(model_hk(w0, v0, b0, m0, stateful, "pair" if aux else "loss"), OptaxOptimizer(opts(k)), has_aux=aux,
                                         params_predicate=predicate(pred), grads_fill_nan_inf=fill)(x, y)

                outs = hk_run(fn, n, (x, y))
                return [((r[0], r[1]["p"]) if aux else (r,)) + (flat(p),) for r, p in outs]
            from wax.flax.modules.func_optimizer import FuncOptimizer, create_func_optimizer

            mk = FuncOptimizer if aux else create_func_optimizer
            mod = mk(fun=model_fx(w0, v0, b0, m0, stateful, "pair" if aux else "loss"), opt=opts(k), has_aux=aux, params_predicate=predicate(pred))
            outs = fx_run(mod, n, (x, y))
            return [((r[0], r[1]["p"]) if aux else (r,)) + (flat(g),) for r, g, _ in outs]

        def ref(x, y, w0, v0, b0, m0):
            r = reference(names, opts(k), n, x, y, w0, v0, b0, m0, stateful, fill=fill)
            return [((o["loss"], o["p"]) if aux else (o["loss"],)) + ((o["tr"],) if impl == "haiku" else (o["g"],)) for o in r]

        eq(T, f"{impl} FuncOptimizer {k} pred={pred} aux={aux} fill={fill}", n, run, ref,
           f"{impl} FuncOptimizer differs from one optimizer step on the trainable parameters")
        if T.violations:
            return


def t_supervised(T, impl, n):
    T.bounds = dict(calls=n)

    def lossf(y, yp):
        import jax.numpy as jnp

        return jnp.sin(yp) + yp * y + 2 * y

    def pred_of(w, v, b, x):
        import jax.numpy as jnp

        return jnp.tanh(w[0] * x[0] + w[1] * v) * b + v * x[1]

    for k, simple, fill in itertools.product(("momentum", "decay"), (False, True), (True, False)):
        if (impl == "haiku" and simple) or (impl == "flax" and not fill):
            continue

        def run(x, y, w0, v0, b0, m0):
            if impl == "haiku":
                import haiku as hk

                from wax.modules.online_supervised_learner import OnlineSupervisedLearner

                def model(x):
                    w, v, b = (hk.get_parameter(q, list(i.shape), init=lambda *_: i) for q, i in (("w", w0), ("v", v0), ("b", b0)))
                    return pred_of(w, v, b, x)

                outs = hk_run(lambda x, y: OnlineSupervisedLearner(model, opts(k), lossf, **({} if fill else dict(grads_fill_nan_inf=False)))(x, y), n, (x, y))
                return [(yp, i.loss, flat(i.params)) for yp, i in outs]
            import flax.linen as nn

            from wax.flax.modules import online_supervised_learner as L

            class M(nn.Module):
                @nn.compact
                def __call__(self, x):
                    w, v, b = (self.param(q, lambda r: i) for q, i in (("w", w0), ("v", v0), ("b", b0)))
                    return pred_of(w, v, b, x)

            if simple:
                mod = L.SimpleOnlineLearner(model=M(), loss_fn=lambda p, y: lossf(y, p), opt=opts(k))
                return [(yp, l) for yp, l in fx_run(mod, n, (x, y))]
            mod = L.create_online_supervised_learner(M(), lambda p, y: lossf(y, p), opts(k), predicate("by-name"))
            return [(yp, i["loss"], flat(i["grads"])) for yp, i in fx_run(mod, n, (x, y))]

        def ref(x, y, w0, v0, b0, m0):
            import jax
            import optax

            tr = dict(w=w0, v=v0, b=b0)
            fz = {}
            if impl == "flax" and not simple:
                fz = {"v": tr.pop("v")}
            o, outs = opts(k), []
            st = o.init(tr)
            for t in range(n):
                def loss(tr):
                    q = {**tr, **fz}
                    yp = pred_of(q["w"], q["v"], q["b"], x[t])
                    return lossf(y[t], yp), yp

                (l, yp), g = jax.value_and_grad(loss, has_aux=True)(tr)
                g = clean(g) if fill else g
                u, st = o.update(g, st, tr)
                tr = optax.apply_updates(tr, u)
                outs.append((yp, l) if simple else (yp, l, tr if impl == "haiku" else g))
            return outs

        eq(T, f"{impl} supervised {k} simple={simple} fill={fill}", n, run, ref, f"{impl} OnlineSupervisedLearner differs from predict, then one optimizer step")
        if T.violations:
            return


def t_update_params(T, n):
    T.bounds = dict(calls=n)
    for pred in PREDS:
        names = trainable(pred)

        def run(x, y, w0, v0, b0, m0):
            import haiku as hk
            import jax

            from wax.modules.update_params import UpdateParams, get_init_params

            f = model_hk(w0, v0, b0, m0)

            def fn(x, y):
                init = hk.get_state("p", [], init=lambda *_: get_init_params(f, x, y, params_predicate=predicate(pred)))
                other = jax.tree_util.tree_map(lambda a: a * 2 + 1, init)
                return init, UpdateParams(f, params_predicate=predicate(pred))(other, x, y)

            return [(flat(i), r[0], r[1]["p"]) for i, r in hk_run(fn, n, (x, y))]

        def ref(x, y, w0, v0, b0, m0):
            P, m, outs = dict(w=w0, v=v0, b=b0), m0, []
            q = {k: v * 2 + 1 if k in names else v for k, v in P.items()}
            for t in range(n):
                l, p, m = core(q["w"], q["v"], q["b"], m, x[t], y[t])
                outs.append(({k: P[k] for k in names}, l, p))
            return outs

        eq(T, f"UpdateParams pred={pred}", n, run, ref, "UpdateParams does not evaluate its function on the given trainable and the captured other parameters")


def t_partition(T):
    """Flax partition_params splits every tree by the predicate; merge_params puts it together again."""
    T.bounds = dict(depth=3)
    preds = [None, lambda m, n, v: n == "w", lambda m, n, v: m == "a", lambda m, n, v: False, lambda m, n, v: np.ndim(v) == 1]

    def mk(I):
        return dict(p={"a": {"w": I.sym("aw", (2,)), "v": I.sym("av", ()), "c": {"w": I.sym("cw", ())}}, "b": {"w": I.sym("bw", ()), "u": I.sym("bu", (2,))}})

    for i, pred in enumerate(preds):
        def run(p):
            from wax.flax.modules.update_params import UpdateParams, create_update_params

            u = (UpdateParams if i % 2 else create_update_params)(fun=lambda x: x, predicate=pred)
            a, b = u.bind({}).partition_params(p)
            return dict(flat_paths(a)), dict(flat_paths(b)), u.bind({}).merge_params(a, b)

        def ref(p):
            sel = lambda path, v: True if pred is None else bool(pred(path[0], path[-1], v))
            fl = flat_paths(p)
            return ({k: v for k, v in fl if sel(k.split("/"), v)}, {k: v for k, v in fl if not sel(k.split("/"), v)}, p)

        check_equiv(T, f"partition {i}", mk, run, lambda I, **k: I.call(lambda kk: ref(**kk), k), validate=1, floats="fp",
                    what="partition_params / merge_params lose or misplace parameters")


def flat_paths(t):
    from flax.traverse_util import flatten_dict

    return list(flatten_dict(t, sep="/").items())
