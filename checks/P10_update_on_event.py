"""P10: UpdateOnEvent (Haiku) and update_on_event / ConditionalComputation (Flax)."""
import itertools

import numpy as np

from vlib import dom, wx
from vlib.harness import check_equiv
from vlib.symjax import SymArr, kind

BOUNDS = (
    "5 (quick) / 7 (thorough) steps after initialisation; every event pattern of that length, and symbolic event flags for the data-movement "
    "modules; wrapped modules EWMA, EWMVar, EWMCov, Buffer, Lag, Diff, Counter-like state, nested outputs, stateless functions; symbolic data with "
    "missing values"
)
ASSUMPTIONS = ["real arithmetic with NaN flags for arithmetic modules, IEEE bits for Buffer/Lag/Diff outputs selection"]
META = dict(
    title="Event-gated modules advance only on events and otherwise repeat their output",
    statement="Haiku UpdateOnEvent(module): at every step with a true event the output is what the wrapped module would return after "
    "having been run on exactly the inputs of the event steps so far; without event the previous output is returned unchanged "
    "(initial_output_value before the first event) and the wrapped module's whole state, including that of submodules, is left as it "
    "was. Flax update_on_event / ConditionalComputation: the output is refreshed exactly when event_fn holds (always without "
    "event_fn), otherwise the last refreshed output (initial_output_value before any) is returned, while the inner state keeps "
    "following every input as documented.",
    over=["inputs", "schedules", "programs"],
    quant="all event schedules, all data, all wrapped stateful modules",
    why="tests use one module with a handful of event patterns; the number of schedules is exponential",
    files=["src/wax/modules/update_on_event.py", "src/wax/flax/core/streaming_transforms.py"],
    mech=[("UpdateOnEvent / set_params_or_state_dict", "src/wax/modules/update_on_event.py"),
          ("ConditionalComputation / update_on_event", "src/wax/flax/core/streaming_transforms.py")],
)


def tasks(tier):
    n = 5 if tier == "quick" else 7
    out = []
    for m in HK:
        out.append(dict(name=f"haiku-{m}", fn="t_haiku", kw=dict(m=m, n=n, shape=[])))
        out.append(dict(name=f"haiku-{m}-vec", fn="t_haiku", kw=dict(m=m, n=3, shape=[2])))
    out.append(dict(name="haiku-siblings", fn="t_siblings", kw=dict(n=3 if tier == "quick" else 4)))
    for m in ("stateless", "buffer", "lag", "counter"):
        out.append(dict(name=f"haiku-{m}-symbolic-events", fn="t_haiku_sym", kw=dict(m=m, n=n)))
    for m in FX:
        out.append(dict(name=f"flax-{m}", fn="t_flax", kw=dict(m=m, n=n, shape=[])))
        out.append(dict(name=f"flax-{m}-vec", fn="t_flax", kw=dict(m=m, n=3, shape=[2])))
    return out


def hk_mod(m):
    import haiku as hk
    import jax.numpy as jnp
    import wax.modules as w

    if m == "nested":
        class Two(hk.Module):
            def __call__(self, x):
                a = w.Lag(1)(x)
                b = w.Buffer(2)(a)
                return {"a": a, "b": (b, hk.get_state("n", [], init=lambda *_: jnp.zeros([])))}
        return Two()
    if m in ("stateless", "params", "inner_event"):
        class Map(hk.Module):
            def __call__(self, x):
                if m == "stateless":
                    return {"neg": -x, "same": (x,)}
                if m == "params":
                    return hk.get_parameter("w", [], init=hk.initializers.Constant(3.0)) * x - 1.0
                return w.UpdateOnEvent(w.Lag(1))(jnp.any(x > 0), x)
        return Map()
    if m == "counter":
        class Count(hk.Module):
            def __call__(self, x):
                c = hk.get_state("c", [], dtype=jnp.int32, init=jnp.zeros)
                hk.set_state("c", c + 1)
                return jnp.where(jnp.isnan(x), x, x) , c + 1
        return Count()
    return {
        "ewma": lambda: w.EWMA(com=1.5, min_periods=2), "ewma_init": lambda: w.EWMA(alpha=0.25, initial_value=1.0, adjust=False),
        "ewma_ignore": lambda: w.EWMA(com=1.0, ignore_na=True),
        "ewmvar": lambda: w.EWMVar(com=1.0), "ewmcov": lambda: EwmCov1(w),
        "buffer": lambda: w.Buffer(3), "lag": lambda: w.Lag(2), "diff": lambda: w.Diff(1), "rolling": lambda: w.RollingMean(2),
        "ffill": lambda: w.Ffill(),
    }[m]()


def EwmCov1(w):
    import haiku as hk

    class C(hk.Module):
        def __call__(self, x):
            return w.EWMCov(com=1.0)((x, 2 * x))
    return C()


HK = ["stateless", "params", "inner_event", "ewma", "ewma_init", "ewma_ignore", "ewmvar", "buffer", "lag", "diff", "rolling", "ffill", "nested", "counter"]


def sym_x(I, n, shape, fp, nan):
    return I.sym("x", (n, *shape), nan=nan)


def t_haiku(T, m, n, shape):
    """Concrete schedules (every pattern), symbolic data."""
    import haiku as hk
    import jax

    import wax.modules as w

    shape = tuple(shape)
    fp = m in ("stateless", "inner_event", "buffer", "lag", "nested", "ffill", "counter", "diff", "rolling")
    for init_v in (np.nan, -2.0):
        if init_v != init_v or m in ("ewma", "lag", "nested"):
            for pat in itertools.product((False, True), repeat=n):
                if init_v == init_v and sum(pat) % 2:
                    continue
                if m == "counter" and init_v != init_v:
                    init = -2.0
                else:
                    init = init_v
                ev = np.array(pat)

                def gated(e, x):
                    return w.UpdateOnEvent(hk_mod(m), initial_output_value=init)(e, x)

                def run(xs):
                    return wx.hk_steps(gated, ev, xs)

                def ref(xs):
                    """the plain module on the event steps only"""
                    f = hk.transform_with_state(lambda x: hk_mod(m)(x))
                    p, s = f.init(jax.random.PRNGKey(0), xs[0])
                    o = jax.eval_shape(lambda: f.apply(p, s, None, xs[0])[0])
                    import jax.numpy as jnp

                    cur = jax.tree_util.tree_map(lambda a: jnp.full(a.shape, init, a.dtype), o)
                    outs = []
                    for t in range(n):
                        if pat[t]:
                            cur, s = f.apply(p, s, None, xs[t])
                        outs.append(cur)
                    return outs

                check_equiv(T, f"init={init} events={''.join('01'[b] for b in pat)}",
                            lambda I: dict(xs=I.sym("x", (n, *shape))), run, lambda I, xs: I.call(ref, xs),
                            floats="fp" if fp else "real", validate=1 if sum(pat) == 2 else 0, canary=sum(pat) == 2,
                            what=f"haiku UpdateOnEvent({m}) differs from the module run on the event steps")
                if T.violations:
                    return


def t_haiku_sym(T, m, n):
    """Symbolic event flags: the expected output is selected among the runs on every sub-sequence."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    import wax.modules as w

    init = -2.0

    def gated(e, x):
        return w.UpdateOnEvent(hk_mod(m), initial_output_value=init)(e, x)

    def spec(I, ev, xs):
        def all_runs(xs):
            f = hk.transform_with_state(lambda x: hk_mod(m)(x))
            p, s0 = f.init(jax.random.PRNGKey(0), xs[0])
            res = {}

            def rec(t, s, key):
                for u in range(t, n):
                    o, s2 = f.apply(p, s, None, xs[u])
                    k = key + (u,)
                    res[str(k)] = o
                    rec(u + 1, s2, k)

            rec(0, s0, ())
            return res

        runs = I.call(all_runs, xs)
        leaves0, tree = jax.tree_util.tree_flatten(runs[str((0,))])
        outs = []
        for t in range(n):
            acc = [I.lift(np.full(l.shape, init, l.dtype)) for l in leaves0]
            for r in range(1, t + 2):
                for sub in itertools.combinations(range(t + 1), r):
                    c = dom.b_and(*[ev.a[u] if u in sub else dom.b_not(ev.a[u]) for u in range(t + 1)])
                    ls = jax.tree_util.tree_leaves(runs[str(sub)])
                    acc = [I.merge(c, I.lift(a), b) for a, b in zip(ls, acc)]
            outs.append(jax.tree_util.tree_unflatten(tree, acc))
        return outs

    check_equiv(T, "symbolic events", lambda I: dict(ev=I.sym("e", (n,), np.bool_), xs=I.sym("x", (n,))),
                lambda ev, xs: wx.hk_steps(gated, ev, xs), spec, floats="fp", timeout=120000,
                validate=3, what=f"haiku UpdateOnEvent({m}) differs from the module run on the event steps")


def t_siblings(T, n):
    """Several gated modules of the same class and an ungated one in one function do not disturb each other."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    import wax.modules as w

    for pat in itertools.product((0, 1, 2, 3), repeat=n):
        ea = np.array([bool(p & 1) for p in pat])
        eb = np.array([bool(p & 2) for p in pat])

        def run(xs):
            def f(a, b, x):
                return (w.UpdateOnEvent(w.Lag(1))(a, x), w.Lag(1)(x), w.UpdateOnEvent(w.Lag(1), initial_output_value=5.0)(b, x),
                        w.UpdateOnEvent(w.Counter())(a))
            return wx.hk_steps(f, ea, eb, xs)

        def ref(xs):
            fs = [hk.transform_with_state(g) for g in (lambda x: w.Lag(1)(x), lambda x: w.Lag(1)(x), lambda x: w.Lag(1)(x), lambda x: w.Counter()())]
            st = [f.init(jax.random.PRNGKey(0), xs[0]) for f in fs]
            ev = [ea, np.ones(n, bool), eb, ea]
            outs, cur = [], [jnp.float32(np.nan), None, jnp.float32(5.0), None]
            for i, f in enumerate(fs):
                if i == 3:
                    o = jax.eval_shape(lambda: f.apply(*st[i], None, xs[0])[0])
                    cur[i] = jnp.full(o.shape, jnp.nan, o.dtype)
            for t in range(n):
                for i, f in enumerate(fs):
                    if ev[i][t]:
                        cur[i], s = f.apply(*st[i], None, xs[t])
                        st[i] = (st[i][0], s)
                outs.append(tuple(cur))
            return outs

        check_equiv(T, f"siblings {pat}", lambda I: dict(xs=I.sym("x", (n,))), run, lambda I, xs: I.call(ref, xs), floats="fp",
                    validate=1, canary=False, what="haiku UpdateOnEvent: gated modules of one function disturb each other")
        if T.violations:
            return


FX = ["ewma", "buffer", "lag", "plain", "dict", "noevent"]


def t_flax(T, m, n, shape):
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    import wax.flax.modules as w
    from wax.flax.core.streaming_transforms import ConditionalComputation, streaming_transform_with_state, update_on_event

    shape = tuple(shape)

    def fn(x, e=None):
        if m in ("ewma", "noevent"):
            return w.EWMA(com=1.5)(x)
        if m == "buffer":
            return w.Buffer(maxlen=2)(x)
        if m == "lag":
            return w.Lag(lag=1)(x)
        if m == "dict":
            return {"a": x, "b": (w.Lag(lag=1)(x),)}
        return x

    event = None if m == "noevent" else (lambda x, e: e)
    for init in (np.nan, -2.0):
        def run(ev, xs):
            kw = {} if init != init else dict(initial_output_value=init)
            f = streaming_transform_with_state(update_on_event(event_fn=event, **kw)(fn))
            p, s = f.init(jax.random.PRNGKey(0), xs[0], ev[0])
            outs = []
            for t in range(1, n):
                o, s = f.apply(p, s, None, xs[t], ev[t])
                outs.append(o)

            class M(nn.Module):
                @nn.compact
                def __call__(self, x, e):
                    return ConditionalComputation(update_fn=fn, event_fn=event, **kw)(x, e)

            return outs, wx.fx_steps(M(), xs, ev)

        def spec(I, ev, xs):
            def plain(xs):
                class P(nn.Module):
                    @nn.compact
                    def __call__(self, x):
                        return fn(x)

                return wx.fx_steps(P(), xs)

            news = I.call(plain, xs)
            cur = jax.tree_util.tree_map(lambda l: I.lift(np.full(l.shape, init, l.dtype)), news[0])
            outs = []
            for t in range(n):
                if event is None:
                    cur = news[t]
                else:
                    ls, tr = jax.tree_util.tree_flatten(news[t])
                    cur = jax.tree_util.tree_unflatten(
                        tr, [I.merge(ev.a[t], I.lift(a), I.lift(b)) for a, b in zip(ls, jax.tree_util.tree_leaves(cur))])
                outs.append(cur)
            return outs[1:], outs

        check_equiv(T, f"{m} init={init}", lambda I: dict(ev=I.sym("e", (n,), np.bool_), xs=I.sym("x", (n, *shape))), run, spec,
                    floats="real" if m in ("ewma", "noevent") else "fp", validate=2, timeout=60000,
                    what=f"flax update_on_event({m}) does not refresh exactly on events")
        if T.violations:
            return
