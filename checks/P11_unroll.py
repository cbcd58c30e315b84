"""P11: unroll (Haiku and Flax, static and dynamic) == running the function step by step."""
import itertools

import numpy as np

from vlib import dom
from vlib.harness import check_equiv
from vlib.symjax import SymArr

BOUNDS = (
    "sequences of 1..5 (quick) / 1..8 (thorough) steps, split points at every position, nested args/kwargs/outputs/state, symbolic params "
    "and states; step functions over opaque (uninterpreted) operations, so the result holds for every step function of that shape"
)
ASSUMPTIONS = ["real arithmetic in which sin/tanh/exp are uninterpreted functions", "JAX's PRNG primitives are executed concretely"]
META = dict(
    title="Unrolling equals stepping: dynamic, static, resumed and causal",
    statement="For every step function with parameters, state and nested inputs/outputs, unroll / unroll_transform_with_state (Haiku) and "
    "flax_unroll / flax_unroll_transform produce, in order, exactly the outputs and final state of calling apply once per element "
    "from the given (or freshly initialised from the first element) params and state, with one split of the given rng per step; "
    "skip_first drops only the first element. Static and dynamic modes agree. Output t depends only on elements up to t, and "
    "unrolling a prefix then the rest from the returned state gives the same result as one unroll.",
    over=["programs", "inputs", "histories"],
    quant="all step functions, sequence lengths, split points, nested structures, params and states",
    why="tests unroll one or two modules over one dataset; functions of the state and split points are not varied",
    files=["src/wax/unroll.py", "src/wax/flax/core/unroll.py", "src/wax/flax/core/transform.py"],
    mech=[("unroll_transform_with_state / unroll / static_scan / dynamic_unroll / static_unroll", "src/wax/unroll.py"),
          ("flax_unroll_transform / flax_unroll / flax_transform_with_state", "src/wax/flax/core/unroll.py, transform.py")],
)


def tasks(tier):
    ns = (1, 2, 3, 5) if tier == "quick" else range(1, 9)
    out = []
    for impl in ("haiku", "flax"):
        for n in ns:
            for rng in (False, True):
                out.append(dict(name=f"{impl}-n{n}-{'rng' if rng else 'norng'}", fn="t_unroll", kw=dict(impl=impl, n=n, rng=rng)))
        out.append(dict(name=f"{impl}-resume", fn="t_resume", kw=dict(impl=impl, n=max(ns))))
        out.append(dict(name=f"{impl}-front", fn="t_front", kw=dict(impl=impl, n=3)))
    return out


def step_hk(with_rng):
    import haiku as hk
    import jax.numpy as jnp

    def fun(x, y=None, scale=None):
        w = hk.get_parameter("w", [], init=jnp.ones)
        s = hk.get_state("s", [2], init=jnp.zeros)
        c = hk.get_state("c", [], dtype=jnp.int32, init=jnp.zeros)
        k = hk.get_state("first", [], init=lambda *_: x["a"])
        s2 = jnp.sin(s * w + x["a"] + 2 * (0 if y is None else y[0]))
        if scale is not None:
            s2 = s2 * scale
        if with_rng:
            s2 = s2 + hk.next_rng_key()[0].astype(jnp.float32) / 2.0**32
        hk.set_state("s", s2)
        hk.set_state("c", c + 1)
        return {"o": jnp.tanh(s2[0] + s[1] + k), "t": (c, [s])}

    return fun


def step_fx(with_rng):
    import flax.linen as nn
    import jax.numpy as jnp

    class M(nn.Module):
        @nn.compact
        def __call__(self, x, y=None, scale=None):
            w = self.param("w", lambda r: jnp.ones([]))
            s = self.variable("state", "s", lambda: jnp.zeros([2]))
            c = self.variable("other", "c", lambda: jnp.zeros([], jnp.int32))
            k = self.variable("state", "first", lambda: x["a"])
            s0, c0 = s.value, c.value
            s2 = jnp.sin(s0 * w + x["a"] + 2 * (0 if y is None else y[0]))
            if scale is not None:
                s2 = s2 * scale
            if with_rng and not self.is_initializing():
                s2 = s2 + self.make_rng("default")[0].astype(jnp.float32) / 2.0**32
            s.value = s2
            c.value = c0 + 1
            return {"o": jnp.tanh(s2[0] + s0[1] + k.value), "t": (c0, [s0])}

    return M()


def make(impl, with_rng, **kw):
    """-> (plain transform, unroll transform, unroll function maker)"""
    if impl == "haiku":
        import haiku as hk
        from wax.unroll import unroll, unroll_transform_with_state

        f = step_hk(with_rng)
        return hk.transform_with_state(f), unroll_transform_with_state(f, **kw), lambda **k: unroll(f, **kw, **k)
    from wax.flax.core.transform import flax_transform_with_state
    from wax.flax.core.unroll import flax_unroll, flax_unroll_transform

    m = step_fx(with_rng)
    return flax_transform_with_state(m), flax_unroll_transform(m, **kw), lambda **k: flax_unroll(m, **kw, **k)


def data(I, n):
    return dict(x={"a": I.sym("a", (n,), nan=False)}, y=[I.sym("y", (n, 2), nan=False)], scale=I.sym("sc", (n,), nan=False))


def stepwise(impl, f, params, state, rng, n, at, start):
    """The defining loop: one apply per element, one split of rng per step."""
    import jax

    outs = []
    for t in range(start, n):
        sub = None
        if rng is not None:
            rng, sub = jax.random.split(rng)
        a, k = at(t)
        o, state = f.apply(params, state, sub, *a, **k)
        outs.append(o)
    return outs, state


def stack(outs):
    import jax
    import jax.numpy as jnp

    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs)


def plain_state(s):
    import jax
    from flax.core import unfreeze

    try:
        return unfreeze(s)
    except Exception:
        return s


def mut(t):
    """plain nested dicts (Haiku / Flax mappings compare by content)"""
    if hasattr(t, "items") and not isinstance(t, dict):
        return {k: mut(v) for k, v in t.items()}
    if isinstance(t, dict):
        return {k: mut(v) for k, v in t.items()}
    return t


def t_unroll(T, impl, n, rng):
    import jax

    key = np.asarray(jax.random.PRNGKey(3)) if rng else None
    for skip, dyn in itertools.product((False, True), (True, False)):
        if skip and n == 1:
            continue
        f, u, _ = make(impl, rng, skip_first=skip, dynamic=dyn)

        def inputs(I):
            return dict(**data(I, n), w=I.sym("w", (), nan=False), s=I.sym("s", (2,), nan=False), c=I.sym("c", (), np.int32),
                        first=I.sym("f", (), nan=False))

        def given(w, s, c, first, x, y, scale):
            a0 = jax.tree_util.tree_map(lambda v: v[0], (x, y, scale))
            p, st = f.init(jax.random.PRNGKey(0), a0[0], y=a0[1], scale=a0[2])
            sub = {"w": w, "s": s, "c": c, "first": first}
            rep = lambda tree: jax.tree_util.tree_map_with_path(
                lambda path, v: sub[[getattr(q, "key", None) for q in path][-1]], mut(tree))
            p, st = rep(p), rep(st)
            if impl == "flax":
                from flax.core import FrozenDict

                return FrozenDict(p), FrozenDict(st)
            return p, st

        def run(x, y, scale, w, s, c, first):
            p, st = given(w, s, c, first, x, y, scale)
            out, fin = u.apply(p, st, key, x, y=y, scale=scale)
            return out, mut(fin)

        def ref(x, y, scale, w, s, c, first):
            p, st = given(w, s, c, first, x, y, scale)
            at = lambda t: jax.tree_util.tree_map(lambda v: v[t], ((x,), dict(y=y, scale=scale)))
            outs, fin = stepwise(impl, f, p, st, key, n, at, int(skip))
            return stack(outs), mut(fin)

        check_equiv(T, f"skip={skip} dynamic={dyn}", inputs, run, lambda I, **k: I.call(lambda kk: ref(**kk), k),
                    what=f"{impl} unroll (skip_first={skip}, dynamic={dyn}) differs from the step-by-step run")
        if T.violations:
            return


def t_front(T, impl, n):
    """unroll(fun)(xs): initialisation, optional params/state/rng, final state, deprecated helpers."""
    import warnings

    import jax

    warnings.simplefilter("ignore")
    key = np.asarray(jax.random.PRNGKey(5))
    for skip, dyn, ret, what in itertools.product((False, True), (True, False), (False, True), ("init", "state", "params", "both")):
        f, u, front = make(impl, False, skip_first=skip, dynamic=dyn)

        def init(x, y, scale):
            a0 = jax.tree_util.tree_map(lambda v: v[0], (x, y, scale))
            return f.init(key, a0[0], y=a0[1], scale=a0[2])

        def state_of(p, st, x, y, scale, w, s):
            # some other params / state: those after one step
            p2 = jax.tree_util.tree_map(lambda _: w, p)
            a0 = jax.tree_util.tree_map(lambda v: v[0] + s, (x, y, scale))
            _, st2 = f.apply(p, st, None, a0[0], y=a0[1], scale=a0[2])
            return (p2 if what in ("params", "both") else None), (st2 if what in ("state", "both") else None)

        def run(x, y, scale, w, s):
            p, st = init(x, y, scale)
            gp, gs = state_of(p, st, x, y, scale, w, s)
            o = front(return_final_state=ret, rng=key, params=gp, state=gs)(x, y=y, scale=scale)
            return (o[0], mut(o[1])) if ret else o

        def ref(x, y, scale, w, s):
            p, st = init(x, y, scale)
            gp, gs = state_of(p, st, x, y, scale, w, s)
            p, st = (p if gp is None else gp), (st if gs is None else gs)
            at = lambda t: jax.tree_util.tree_map(lambda v: v[t], ((x,), dict(y=y, scale=scale)))
            outs, fin = stepwise(impl, f, p, st, key if impl == "haiku" else None, n, at, int(skip))
            return (stack(outs), mut(fin)) if ret else stack(outs)

        check_equiv(T, f"skip={skip} dynamic={dyn} final={ret} given={what}",
                    lambda I: dict(**data(I, n), w=I.sym("w", (), nan=False), s=I.sym("s", (), nan=False)), run,
                    lambda I, **k: I.call(lambda kk: ref(**kk), k), validate=1 if what != "both" else 1,
                    what=f"{impl} unroll(...)(xs) differs from init + step-by-step run")
        if T.violations:
            return
    if impl == "haiku":
        from wax import unroll as U

        f, _, _ = make(impl, False)
        for skip, which in itertools.product((False, True), ("dynamic", "static", "fori")):
            def run(x, y, scale):
                g = dict(dynamic=U.dynamic_unroll, static=U.static_unroll, fori=U.dynamic_unroll_fori_loop)[which]
                o, st = g(f, None, None, key, skip, x, y=y, scale=scale)
                return o, mut(st)

            def ref(x, y, scale):
                a0 = jax.tree_util.tree_map(lambda v: v[0], (x, y, scale))
                p, st = f.init(key, a0[0], y=a0[1], scale=a0[2])
                at = lambda t: jax.tree_util.tree_map(lambda v: v[t], ((x,), dict(y=y, scale=scale)))
                outs, fin = stepwise(impl, f, p, st, None, n, at, int(skip))
                return stack(outs), mut(fin)

            check_equiv(T, f"{which} skip={skip}", lambda I: data(I, n), run, lambda I, **k: I.call(lambda kk: ref(**kk), k),
                        what=f"haiku {which} unroll differs from the step-by-step run")


def t_resume(T, impl, n):
    import jax

    for dyn in (True, False):
        f, u, _ = make(impl, False, dynamic=dyn)

        def init(x, y, scale):
            a0 = jax.tree_util.tree_map(lambda v: v[0], (x, y, scale))
            return f.init(jax.random.PRNGKey(0), a0[0], y=a0[1], scale=a0[2])

        def whole(x, y, scale):
            p, st = init(x, y, scale)
            o, s = u.apply(p, st, None, x, y=y, scale=scale)
            return o, mut(s)

        for k in range(1, n):
            def parts(x, y, scale):
                import jax.numpy as jnp

                p, st = init(x, y, scale)
                cut = lambda sl: jax.tree_util.tree_map(lambda v: v[sl], (x, y, scale))
                a, b = cut(slice(0, k)), cut(slice(k, None))
                o1, s = u.apply(p, st, None, a[0], y=a[1], scale=a[2])
                o2, s = u.apply(p, s, None, b[0], y=b[1], scale=b[2])
                return jax.tree_util.tree_map(lambda q, r: jnp.concatenate([q, r]), o1, o2), mut(s)

            check_equiv(T, f"split at {k} dynamic={dyn}", lambda I: data(I, n), parts,
                        lambda I, **kw: I.call(lambda kk: whole(**kk), kw), validate=1,
                        what=f"{impl} unroll resumed from the returned state differs from one unroll")
            if k == n // 2:
                # causality: changing the elements from k on leaves the first k outputs unchanged
                def pre(x, y, scale, x2):
                    o, _ = u.apply(*init(x, y, scale), None, {"a": jax.numpy.concatenate([x["a"][:k], x2])}, y=y, scale=scale)
                    return jax.tree_util.tree_map(lambda v: v[:k], o)

                check_equiv(T, f"causality at {k} dynamic={dyn}",
                            lambda I: dict(**data(I, n), x2=I.sym("z", (n - k,), nan=False)), pre,
                            lambda I, x, y, scale, x2: jax.tree_util.tree_map(
                                lambda v: v[:k], I.call(lambda kk: whole(**kk)[0], dict(x=x, y=y, scale=scale))),
                            validate=1, what=f"{impl} unroll outputs depend on later elements")
            if T.violations:
                return
