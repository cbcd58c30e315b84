"""P13: vectorised modules are independent copies."""
import itertools

import numpy as np

from vlib.harness import check_equiv

import checks.P11_unroll as U
from checks.P12_batching import at, call, data, model, tm

BOUNDS = "batches of 1..4 elements, 3 successive calls, nested inputs, opaque step functions and EWMA/Buffer/Lag modules; all rng options"
ASSUMPTIONS = U.ASSUMPTIONS
META = dict(
    title="Vectorised (vmap-lifted) functions behave as independent copies",
    statement="vmap_lift_with_state, VMap and add_batch: over any number of successive calls, batch element i receives exactly the outputs "
    "the inner function alone would produce when run on element i's inputs with its own state; no element influences another. With "
    "take_mean, add_batch returns the mean over the batch, and without it the stacked outputs. With split_rng (and add_batch given a random key) every element gets its own random "
    "key. The Flax VMap maps a function over the first axis and, with "
    "take_mean, averages every non-scalar output leaf over it.",
    over=["programs", "inputs", "histories", "configurations"],
    quant="all inner functions, batch sizes, histories and rng options",
    why="tests use one additive module with three elements",
    files=["src/wax/stateful.py", "src/wax/modules/vmap.py", "src/wax/flax/modules/vmap.py"],
    mech=[("vmap_lift_with_state", "src/wax/stateful.py"), ("VMap / add_batch", "src/wax/modules/vmap.py, src/wax/flax/modules/vmap.py")],
)


def tasks(tier):
    bs = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    out = []
    for b in bs:
        out.append(dict(name=f"lift{b}", fn="t_lift", kw=dict(b=b)))
        out.append(dict(name=f"batch{b}", fn="t_add_batch", kw=dict(b=b)))
        out.append(dict(name=f"modules{b}", fn="t_modules", kw=dict(b=b)))
        out.append(dict(name=f"flax{b}", fn="t_flax", kw=dict(b=b)))
        if b > 1:
            out.append(dict(name=f"rng{b}", fn="t_rng", kw=dict(b=b)))
    return out


N = 3


def bdata(I, b):
    """inputs with leading (step, batch) axes"""
    return dict(xs=dict(x={"a": I.sym("a", (N, b), nan=False)}, y=[I.sym("y", (N, b, 2), nan=False)], scale=I.sym("sc", (N, b), nan=False)))


def alone(b, fn):
    """each element alone; outputs stacked over the batch per step"""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    f = hk.transform_with_state(fn)

    def ref(xs):
        cols = []
        for i in range(b):
            el = tm(lambda v: v[:, i], xs)
            p, s = f.init(jax.random.PRNGKey(0), **at(el, 0))
            outs = []
            for t in range(N):
                o, s = f.apply(p, s, None, **at(el, t))
                outs.append(o)
            cols.append(outs)
        return [tm(lambda *v: jnp.stack(v), *[c[t] for c in cols]) for t in range(N)]

    return ref


def drive(outer, key_apply):
    import haiku as hk
    import jax

    g = hk.transform_with_state(outer)

    def run(xs):
        key = jax.random.PRNGKey(0)
        p, s = g.init(key, at(xs, 0))
        outs = []
        for t in range(N):
            o, s = g.apply(p, s, key if key_apply else None, at(xs, t))
            outs.append(o)
        return outs

    return run


def t_lift(T, b):
    import warnings

    warnings.simplefilter("ignore")
    from wax.modules import VMap
    from wax.stateful import vmap_lift_with_state

    inner = U.step_hk(False)
    for split, init in ((False, False), (False, True), (True, True)):
        outer = lambda xs: vmap_lift_with_state(inner, split_rng=split, init_rng=init)(**xs)
        check_equiv(T, f"vmap_lift split={split} init={init}", lambda I: bdata(I, b), drive(outer, split), call(None, alone(b, inner)),
                    validate=1, what="vmap_lift_with_state: an element differs from its independent run")
        if T.violations:
            return
    check_equiv(T, "VMap", lambda I: bdata(I, b), drive(lambda xs: VMap(inner)(**xs), False), call(None, alone(b, inner)), validate=1,
                what="VMap: an element differs from its independent run")


def t_add_batch(T, b):
    import jax
    import jax.numpy as jnp

    from wax.modules.vmap import add_batch

    inner0 = U.step_hk(False)

    def inner(**kw):
        o = inner0(**kw)["o"]
        flat = jnp.concatenate([jnp.ravel(v) for v in jax.tree_util.tree_leaves(o)])
        return {"o": o, "matrix": flat[:, None] * jnp.arange(1.0, 4.0), "cube": jnp.ones((2, 1, 3)) * flat[0]}

    for take_mean in (True, False):
        for key in (True, False):
            run = drive(lambda xs: add_batch(inner, take_mean=take_mean)(**xs), key)

            def ref(xs):
                o = alone(b, inner)(xs)
                return [tm(lambda v: v.mean(axis=0), q) for q in o] if take_mean else o

            check_equiv(T, f"add_batch mean={take_mean} key={key}", lambda I: bdata(I, b), run, call(None, ref), validate=1,
                        what="add_batch differs from the mean / stack of independent runs")
            if T.violations:
                return


def t_modules(T, b):
    import haiku as hk
    import wax.modules as w
    from wax.stateful import vmap_lift_with_state

    mods = {
        "ewma": lambda x: w.EWMA(com=1.5)(x), "buffer": lambda x: w.Buffer(2)(x), "lag": lambda x: w.Lag(1)(x),
        "ffill": lambda x: w.Ffill()(x),
    }
    for nm, fn in mods.items():
        outer = lambda xs: vmap_lift_with_state(fn)(xs["x"])
        check_equiv(T, nm, lambda I: dict(xs=dict(x=I.sym("x", (N, b)))), drive(outer, False), call(None, alone(b, lambda x: fn(x))),
                    what=f"vmap_lift_with_state({nm}): an element differs from its independent run")


def t_rng(T, b):
    """split_rng: element keys differ, and changing another element's input changes nothing here."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.modules.vmap import add_batch
    from wax.stateful import vmap_lift_with_state

    def inner(x):
        w = hk.get_parameter("w", [], init=hk.initializers.RandomNormal())
        s = hk.get_state("s", [], init=jnp.zeros)
        k = hk.next_rng_key()
        s = jnp.sin(s + x * w + k[0].astype(jnp.float32) / 2.0**32)
        hk.set_state("s", s)
        return s, w, k

    gs = {"vmap_lift_with_state": hk.transform_with_state(lambda x: vmap_lift_with_state(inner, split_rng=True)(x)),
          "add_batch": hk.transform_with_state(lambda x: add_batch(inner, take_mean=False)(x))}
    for name, g in gs.items():
        rng_of(T, b, name, g)


def rng_of(T, b, name, g):
    import jax
    import jax.numpy as jnp

    def run(xs):
        key = jax.random.PRNGKey(0)
        p, s = g.init(key, xs[0])
        outs = []
        for t in range(N):
            o, s = g.apply(p, s, key, xs[t])
            outs.append(o)
        return outs

    for i in range(b):
        def inputs(I):
            return dict(xs=I.sym("x", (N, b), nan=False), zs=I.sym("z", (N, b), nan=False))

        def impl(xs, zs):
            mask = (jnp.arange(b) == i)[None]
            return tm(lambda v: v[i], run(jnp.where(mask, xs, zs)))

        check_equiv(T, f"{name}: element {i} independent of the others", inputs, impl,
                    lambda I, xs, zs: tm(lambda v: v[i], I.call(run, xs)), validate=1,
                    what=f"{name}(split_rng): an element depends on another")

    def distinct(xs):
        o = run(xs)
        ks = jnp.stack([k for _, _, k in o])  # (N, b, 2)
        ws = o[0][1]
        same = (ks[:, :, None] == ks[:, None, :]).all(-1) & ~jnp.eye(b, dtype=bool)[None]
        samew = (ws[:, None] == ws[None]) & ~jnp.eye(b, dtype=bool)
        return same.any(), samew.any()

    check_equiv(T, f"{name}: distinct keys and parameters", lambda I: dict(xs=I.sym("x", (N, b), nan=False)), distinct,
                lambda I, xs: (np.bool_(False), np.bool_(False)), validate=1, canary=False,
                what=f"{name}(split_rng): two elements share a key or parameters")


def t_flax(T, b):
    import warnings

    import jax
    import jax.numpy as jnp

    warnings.simplefilter("ignore")
    from wax.flax.modules.vmap import VMap

    def fun(x, y):
        return {"o": jnp.sin(x) * y[0], "v": [jnp.tanh(y + x)]}

    for take_mean in (True, False):
        def run(x, y):
            m = VMap(fun=fun, take_mean=take_mean)
            return m.apply({}, x, y)

        def ref(x, y):
            o = tm(lambda *v: jnp.stack(v), *[fun(x[i], y[i]) for i in range(b)])
            return tm(lambda v: v.mean(axis=0), o) if take_mean else o

        check_equiv(T, f"flax VMap mean={take_mean}", lambda I: dict(x=I.sym("x", (b,), nan=False), y=I.sym("y", (b, 2), nan=False)), run,
                    call(None, ref), validate=1, what="flax VMap differs from mapping the function")
