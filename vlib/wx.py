"""Drivers that run real wax modules step by step inside a JAX trace."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np


def n_steps(args):
    return jax.tree_util.tree_leaves(args)[0].shape[0]


def at(tree, t):
    return jax.tree_util.tree_map(lambda x: x[t], tree)


def hk_steps(fn, *xs, key=0, return_state=False):
    """Haiku: init on xs[0], then apply step by step on xs[0..T-1]; list of outputs."""
    import haiku as hk

    f = hk.transform_with_state(fn)
    rng = jax.random.PRNGKey(key)
    p, s = f.init(rng, *at(xs, 0))
    outs = []
    for t in range(n_steps(xs)):
        o, s = f.apply(p, s, None, *at(xs, t))
        outs.append(o)
    return (outs, s) if return_state else outs


def hk_scan(fn, *xs, key=0, last=None):
    """Haiku, through lax.scan; returns outputs of the last `last` steps (stacked arrays)."""
    import haiku as hk

    f = hk.transform_with_state(fn)
    rng = jax.random.PRNGKey(key)
    p, s = f.init(rng, *at(xs, 0))

    def body(s, x):
        o, s = f.apply(p, s, None, *x)
        return s, o

    s, ys = jax.lax.scan(body, s, xs)
    if last is not None:
        ys = jax.tree_util.tree_map(lambda y: y[-last:], ys)
    return ys


def fx_steps(module, *xs, key=0, return_state=False):
    """Flax: init consumes xs[0] (init_with_output), apply consumes xs[1..]; list of outputs."""
    rng = jax.random.PRNGKey(key)
    o, v = module.init_with_output(rng, *at(xs, 0))
    outs = [o]
    params = v.get("params", {})
    state = {k: w for k, w in v.items() if k != "params"}
    for t in range(1, n_steps(xs)):
        o, nv = module.apply({"params": params, **state}, *at(xs, t), mutable=True)
        state = {k: w for k, w in nv.items() if k != "params"}
        outs.append(o)
    return (outs, state) if return_state else outs


def fx_scan(module, *xs, key=0, last=None):
    rng = jax.random.PRNGKey(key)
    o, v = module.init_with_output(rng, *at(xs, 0))
    params = v.get("params", {})
    state = {k: w for k, w in v.items() if k != "params"}

    def body(state, x):
        o, nv = module.apply({"params": params, **state}, *x, mutable=True)
        return {k: w for k, w in nv.items() if k != "params"}, o

    rest = jax.tree_util.tree_map(lambda x: x[1:], xs)
    _, ys = jax.lax.scan(body, state, rest)
    if last is not None:
        ys = jax.tree_util.tree_map(lambda y: y[-last:], ys)
    return ys


def steps(impl, fn_or_module, *xs, **kw):
    return (hk_steps if impl == "haiku" else fx_steps)(fn_or_module, *xs, **kw)


def scan(impl, fn_or_module, *xs, **kw):
    return (hk_scan if impl == "haiku" else fx_scan)(fn_or_module, *xs, **kw)
