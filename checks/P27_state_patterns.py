"""P27: advanced state patterns of the Flax API (state machines, composition, history selection)."""
import itertools

import numpy as np

from vlib import wx
from vlib.harness import check_equiv

BOUNDS = ("1 to 4 modules (stateful ones of the library and opaque functions with dictionary outputs), every dependency shape of a chain, tree, diamond, cycle; "
          "4 (quick) / 6 (thorough) steps; histories of 1..3 embeddings of dimension 2 over 5 (quick) / 7 (thorough) steps; all data and parameters symbolic")
ASSUMPTIONS = [
    "exact reals with NaN flags; sin, tanh, exp uninterpreted; flax' Dense and attention layers are those of the library",
    "AttentionBasedStateSelector is stepped outside jit (its pointers are Python integers)",
]
META = dict(
    title="State machines and compositions run every module once on its own state",
    statement="HierarchicalStateMachine applies at each step every registered module exactly once to the arguments of the step, each with its own state, whatever "
    "the strategy, names and dependencies (cyclic ones included), and returns the outputs by name; a failing module is reported as such and the others are unaffected. With 'hierarchical' "
    "coordination a dictionary output is blended, for every module of lower dependency depth in turn (by depth, then registration) and every numeric entry both have, into 0.9 own + 0.1 "
    "(blended) other; all other outputs are unchanged. CompositeStateManager: 'pipeline' passes each output on (dictionaries merged "
    "over a dictionary input), 'parallel' gives the input to all, 'hierarchical' gives the input to each until an output has the entry 'influence', which is then passed on. "
    "AttentionBasedStateSelector embeds the (padded, truncated, concatenated) state, remembers the last max_history_length embeddings, returns them oldest first with uniform weights, and adds a "
    "tenth of the attention over them once there are two. The decorators pass that result and the arguments to the function.",
    over=["programs", "inputs", "histories", "configurations"],
    quant="all inputs (missing values included), parameters, module sets, dependency graphs and strategies within the bound",
    why="tests check keys and shapes of outputs",
    files=["src/wax/flax/core/advanced_state_patterns.py"],
    mech=[("HierarchicalStateMachine, AttentionBasedStateSelector, CompositeStateManager and decorators", "src/wax/flax/core/advanced_state_patterns.py")],
)
DEPS = {
    "none": None,
    "chain": {"b": ["a"], "c": ["b"], "d": ["c"]},
    "reverse": {"a": ["b"], "b": ["c"], "c": ["d"]},
    "diamond": {"b": ["a"], "c": ["a"], "d": ["b", "c"]},
    "cycle": {"a": ["b"], "b": ["a"], "c": ["b"]},
    "unknown": {"a": ["z"], "c": ["z", "b"]},
    "shared": {"a": ["d"], "b": ["a"], "c": ["a", "b"]},
    "skip": {"d": ["b"], "c": ["d", "a"]},
}


def tasks(tier):
    q = tier == "quick"
    n = 4 if q else 6
    out = []
    for strat in ("sequential", "parallel", "hierarchical"):
        for dep in DEPS:
            out.append(dict(name=f"machine-{strat}-{dep}", fn="t_machine", kw=dict(strat=strat, dep=dep, n=n)))
    for names in ("dcba", "bdac", "c", "ab"):
        out.append(dict(name=f"machine-order-{names}", fn="t_machine", kw=dict(strat="hierarchical", dep="diamond", n=2, names=names)))
    out.append(dict(name="machine-failing", fn="t_failing", kw=dict(n=n)))
    for strat in ("pipeline", "parallel", "hierarchical"):
        out.append(dict(name=f"composite-{strat}", fn="t_composite", kw=dict(strat=strat, n=n)))
    for cap, dim, kind in [(1, 2, "vector"), (2, 2, "vector"), (4, 2, "vector"), (3, 2, "scalar"), (3, 2, "long"), (2, 3, "dict")]:
        out.append(dict(name=f"history-{cap}-{dim}-{kind}", fn="t_history", kw=dict(cap=cap, dim=dim, kind=kind, n=5 if q else 7)))
    for what in ("machine", "attention", "compose"):
        out.append(dict(name=f"decorator-{what}", fn="t_decorator", kw=dict(what=what, n=n)))
    return out


def lib():
    """Modules: library ones and counters with dictionary outputs built from opaque functions."""
    import flax.linen as nn
    import jax.numpy as jnp

    from wax.flax.modules import EWMA, Buffer, Lag

    class Dic(nn.Module):
        k: int
        keys: tuple

        @nn.compact
        def __call__(self, x, y):
            m = self.variable("state", "m", lambda: jnp.float32(self.k))
            p = self.param("p", lambda r: jnp.float32(self.k + 1))
            m.value = jnp.sin(m.value + p * x)
            vals = dict(r=jnp.tanh(m.value + y), s=m.value * self.k + y, t=self.k + 0.5, u=7 * self.k, name="text", seq=[m.value], v=jnp.stack([m.value - y, jnp.float32(self.k)]), error=m.value - self.k)
            return {k: vals[k] for k in self.keys}

    class Two(nn.Module):
        inner: nn.Module

        def __call__(self, x, y):
            return self.inner(x)

    return dict(a=lambda: Dic(1, ("r", "s", "u", "name", "v", "error")), b=lambda: Dic(2, ("s", "error", "r", "t", "u", "v")), c=lambda: Dic(3, ("t", "u", "s", "seq")), d=lambda: Two(EWMA(alpha=0.25)),
                e=lambda: Two(Buffer(maxlen=2)), f=lambda: Two(Lag(1)))


def strip(out):
    """drop what is not an array (checked concretely by the caller)"""
    if isinstance(out, dict):
        return {k: strip(v) for k, v in out.items() if not isinstance(v, str)}
    return out


def blend(outs, order, deps):
    """The definition of hierarchical coordination."""
    deps = deps or {}

    def depth(s, seen=()):
        if s in seen or not deps.get(s):
            return 0
        return 1 + max(depth(d, (*seen, s)) for d in deps[s])

    ranked = sorted(order, key=lambda s: depth(s))  # stable: registration order within a depth
    res = {}
    for s in ranked:
        o = outs[s]
        for h in ranked:
            if depth(h) < depth(s) and isinstance(o, dict) and isinstance(res[h], dict):
                o = {k: 0.9 * v + 0.1 * res[h][k] if k in res[h] and not isinstance(v, str | list) else v for k, v in o.items()}
        res[s] = o
    return res


def equal(T, label, n, impl, ref, what, nan=True, **kw):
    check_equiv(T, label, lambda I: dict(x=I.sym("x", (n,), nan=nan), y=I.sym("y", (n,), nan=nan)), impl, lambda I, **k: I.call(lambda q: ref(**q), k),
                validate=1, what=what, **kw)


def t_machine(T, strat, dep, n, names="abcd"):
    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine

    sets = [names] if names != "abcd" else ["abcd", "adef", "badc"]
    for ns in sets:
        def impl(x, y):
            L = lib()
            kw = {} if DEPS[dep] is None else dict(dependencies=DEPS[dep])
            m = HierarchicalStateMachine(state_modules={k: L[k]() for k in ns}, coordination_strategy=strat, **kw)
            outs = wx.fx_steps(m, x, y)
            for o in outs:
                assert set(o) == set(ns), "outputs are not those of the registered modules"
                for k in ns:
                    assert not isinstance(o[k], dict) or o[k].get("name", "text") == "text"
            return [strip(o) for o in outs]

        def ref(x, y):
            L = lib()
            outs = {k: wx.fx_steps(L[k](), x, y) for k in ns}
            res = []
            for t in range(n):
                o = {k: outs[k][t] for k in ns}
                res.append(strip(blend(o, ns, DEPS[dep]) if strat == "hierarchical" else o))
            return res

        equal(T, f"{strat} deps={dep} modules={ns}", n, impl, ref, "the state machine does not run each module once on its own state (or blends wrongly)")
        if T.violations:
            return


def t_failing(T, n):
    import flax.linen as nn

    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine

    class Bad(nn.Module):
        @nn.compact
        def __call__(self, x, y):
            raise RuntimeError("boom")

    for strat, ns in itertools.product(("sequential", "parallel", "hierarchical"), ("az", "zad", "dzb")):
        def impl(x, y):
            L = {**lib(), "z": Bad}
            outs = wx.fx_steps(HierarchicalStateMachine(state_modules={k: L[k]() for k in ns}, coordination_strategy=strat), x, y)
            for o in outs:
                assert o["z"]["status"] == "failed" and "boom" in o["z"]["error"]
            return [{k: strip(v) for k, v in o.items() if k != "z"} for o in outs]

        def ref(x, y):
            L = lib()
            outs = {k: wx.fx_steps(L[k](), x, y) for k in ns if k != "z"}
            return [{k: strip(outs[k][t]) for k in outs} for t in range(n)]

        equal(T, f"failing {strat} {ns}", n, impl, ref, "a failing module disturbs the others")


def comp_lib():
    import flax.linen as nn
    import jax.numpy as jnp

    from wax.flax.modules import EWMA

    class Arr(nn.Module):
        k: int

        @nn.compact
        def __call__(self, x):
            m = self.variable("state", "m", lambda: jnp.float32(self.k))
            v = x.get("u", x.get("w", 1.5)) if isinstance(x, dict) else x
            m.value = jnp.sin(m.value + v)
            return jnp.tanh(m.value * v)

    class Dic(nn.Module):
        k: int
        keys: tuple

        @nn.compact
        def __call__(self, x):
            m = self.variable("state", "m", lambda: jnp.float32(self.k))
            v = sum(x[k] for k in sorted(x)) if isinstance(x, dict) else x
            m.value = jnp.sin(m.value + v)
            return {k: jnp.tanh(m.value + i) for i, k in enumerate(self.keys)}

    class Avg(nn.Module):
        @nn.compact
        def __call__(self, x):
            return EWMA(alpha=0.25)(sum(x[k] for k in sorted(x)) if isinstance(x, dict) else x)

    return dict(a=lambda: Arr(1), b=lambda: Arr(2), d=lambda: Dic(3, ("u", "w")), e=lambda: Dic(4, ("w", "influence")), f=lambda: Dic(5, ("influence", "q")), m=Avg)


def composed(strat, ns, x, step):
    """Reference: step(name, input) -> output."""
    outs, cur = {}, x
    for k in ns:
        o = step(k, x if strat == "parallel" else cur)
        outs[k] = o
        if strat == "pipeline":
            cur = {**cur, **o} if isinstance(o, dict) and isinstance(cur, dict) else o
        elif strat == "hierarchical" and isinstance(o, dict) and "influence" in o:
            cur = o["influence"]
    return outs


class Stepper:
    """Independent modules, stepped by hand (init consumes the first element)."""

    def __init__(self, mods):
        self.mods, self.vars = mods, {}

    def __call__(self, k, *args):
        import jax

        if k not in self.vars:
            o, self.vars[k] = self.mods[k].init_with_output(jax.random.PRNGKey(0), *args)
        else:
            p = self.vars[k].get("params", {})
            o, nv = self.mods[k].apply(self.vars[k], *args, mutable=True)
            self.vars[k] = {**nv, "params": p}
        return o


def t_composite(T, strat, n):
    import jax

    from wax.flax.core.advanced_state_patterns import CompositeStateManager

    for ns, dic in [("ab", False), ("ba", False), ("mab", False), ("dm", False), ("da", True), ("ade", True), ("efa", False), ("aefb", True), ("fem", True), ("m", False)]:
        def inp(x, y):
            return {"u": x, "v": y} if dic else x

        def impl(x, y):
            L = comp_lib()
            m = CompositeStateManager(state_patterns={k: L[k]() for k in ns}, composition_strategy=strat)
            outs = wx.fx_steps(m, inp(x, y))
            assert all(list(o) == list(ns) for o in outs)
            return outs

        def ref(x, y):
            L = comp_lib()
            st = Stepper({k: L[k]() for k in ns})
            return [composed(strat, ns, jax.tree_util.tree_map(lambda a: a[t], inp(x, y)), st) for t in range(n)]

        equal(T, f"{strat} {ns} dict={dic}", n, impl, ref, "the composition does not feed its modules as its strategy says")
        if T.violations:
            return


def t_history(T, cap, dim, kind, n):
    """Embeddings and parameters symbolic."""
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    from wax.flax.core.advanced_state_patterns import AttentionBasedStateSelector

    width = {"vector": dim, "scalar": 1, "long": dim + 1, "dict": 2}[kind]
    mod = AttentionBasedStateSelector(embed_dim=dim, num_heads=1, max_history_length=cap)
    att = nn.MultiHeadDotProductAttention(num_heads=1, qkv_features=dim)

    def state(x):
        return {"vector": lambda: x, "scalar": lambda: x[0], "long": lambda: x, "dict": lambda: {"k1": x[0], "k2": x[1:], "k3": "text"}}[kind]()

    shapes = jax.tree_util.tree_map(np.shape, mod.init(jax.random.PRNGKey(0), state(jnp.zeros(width)))["params"], is_leaf=lambda v: hasattr(v, "shape"))

    def mkparams(I):
        fl, td = jax.tree_util.tree_flatten(shapes, is_leaf=lambda v: isinstance(v, tuple))
        return jax.tree_util.tree_unflatten(td, [I.sym(f"p{i}", s, nan=False) for i, s in enumerate(fl)])

    for use in (True, False):
        def inputs(I):
            p = mkparams(I)
            if use:  # fixed embedding, symbolic attention
                p["state_encoder"] = dict(kernel=np.eye(dim, dtype=np.float32), bias=np.float32([0.5, -1, 2][:dim]))
            return dict(x=I.sym("x", (n, width), nan=False), p=p)

        def impl(x, p):
            v = mod.init(jax.random.PRNGKey(0), state(jnp.zeros(width)))
            st = {k: w for k, w in v.items() if k != "params"}
            outs = []
            for t in range(n):
                o, st = mod.apply({"params": p, **{k: w for k, w in st.items() if k != "params"}}, state(x[t]), use, mutable=True)
                cs = o.pop("current_state")
                outs.append([o, {k: c for k, c in cs.items() if k != "k3"} if kind == "dict" else cs])
            return outs

        def ref(x, p):
            def emb(u):
                vec = jnp.concatenate([u[:1], u[1:], jnp.zeros(1)]) if kind == "dict" else u
                vec = jnp.concatenate([vec, jnp.zeros(dim)])[:dim]
                return vec @ p["state_encoder"]["kernel"] + p["state_encoder"]["bias"]

            hist, outs = [jnp.zeros(dim)], []  # init consumed a zero element with the (bias-free) initial parameters
            for t in range(n):
                e = emb(x[t])
                cur, hist = hist[-cap:], [*hist, e]
                if use and len(cur) > 1:
                    q = nn.Dense(dim).apply({"params": p["query_encoder"]}, e[None, None])
                    h = jnp.stack(cur)
                    c = att.apply({"params": p["attention"]}, q, h[None], h[None])[0, 0]
                    o = dict(enhanced_state=e + 0.1 * c, original_state=e, relevant_history=h, attention_weights=jnp.ones(len(cur)) / len(cur))
                else:
                    o = dict(enhanced_state=e, original_state=e, relevant_history=jnp.zeros((1, dim)), attention_weights=jnp.zeros(1))
                cs = {"k1": x[t][0], "k2": x[t][1:]} if kind == "dict" else state(x[t])
                outs.append([o, cs])
            return outs

        check_equiv(T, f"selector capacity={cap} use={use} {kind}", inputs, impl, lambda I, **k: I.call(lambda q: ref(**q), k), validate=1, timeout=60000,
                    what="the selector does not return the embeddings of the last states, oldest first (or attends to others)")
        if T.violations:
            return


def t_decorator(T, what, n):
    import jax
    import jax.numpy as jnp

    from wax.flax.core import advanced_state_patterns as A

    def drive(st, x, y, **k):
        p, s = st.init(jax.random.PRNGKey(0), x[0], y[0], **k)
        outs = []
        for t in range(1, n):
            o, s = st.apply(p, s, None, x[t], y[t], **k)
            outs.append(o)
        return outs

    if what == "machine":
        for strat, dep in (("sequential", "none"), ("hierarchical", "chain"), ("parallel", "diamond")):
            def impl(x, y):
                L = lib()
                return drive(A.streaming_state_machine({k: L[k]() for k in "abd"}, DEPS[dep], strat)(lambda o, u, v: [strip(o), u, v]), x, y)

            def ref(x, y):
                L = lib()
                outs = {k: wx.fx_steps(L[k](), x, y) for k in "abd"}
                res = []
                for t in range(1, n):
                    o = {k: outs[k][t] for k in "abd"}
                    res.append([strip(blend(o, "abd", DEPS[dep]) if strat == "hierarchical" else o), x[t], y[t]])
                return res

            equal(T, f"streaming_state_machine {strat}", n, impl, ref, "the decorated function does not receive the outputs of the state machine")
    elif what == "compose":
        for strat, ns in (("pipeline", "am"), ("parallel", "bd"), ("hierarchical", "efm")):
            def impl(x, y):
                L = comp_lib()
                return drive(A.streaming_compose_states(*[L[k]() for k in ns], strategy=strat)(lambda o, u, v: [[o[f"pattern_{i}"] for i in range(len(ns))], u, v]), x, y)

            def ref(x, y):
                L = comp_lib()
                st = Stepper({k: L[k]() for k in ns})
                r = [composed(strat, ns, x[t], st) for t in range(n)]
                return [[[r[t][k] for k in ns], x[t], y[t]] for t in range(1, n)]

            equal(T, f"streaming_compose_states {strat}", n, impl, ref, "the decorated function does not receive the composed outputs")
    else:
        def impl(x, y):
            st = A.streaming_attention_state(embed_dim=2, num_heads=1, max_history=2)(
                lambda o, u, v, g=None: [{k: o[k] for k in ("original_state", "relevant_history", "attention_weights", "current_state")}, u, v, g])
            return drive(st, x, y, g=y[0])

        def ref(x, y):
            sel = A.AttentionBasedStateSelector(embed_dim=2, num_heads=1, max_history_length=2)
            # the parameters of init are those of the decorated function up to naming: recover the embedding from init
            st = A.streaming_attention_state(embed_dim=2, num_heads=1, max_history=2)(lambda o, u, v, g=None: o["original_state"])
            p, _ = st.init(jax.random.PRNGKey(0), x[0], y[0])
            flat = {jax.tree_util.keystr(k): v for k, v in jax.tree_util.tree_flatten_with_path(p)[0]}
            K, b = [next(v for k, v in flat.items() if "state_encoder" in k and w in k) for w in ("kernel", "bias")]
            e = [jnp.stack([x[t], jnp.zeros([])]) @ K + b for t in range(n)]
            res = []
            for t in range(1, n):
                h = e[:t][-2:]
                if len(h) > 1:
                    o = dict(relevant_history=jnp.stack(h), attention_weights=jnp.full(len(h), 0.5))
                else:
                    o = dict(relevant_history=jnp.zeros((1, 2)), attention_weights=jnp.zeros(1))
                res.append([{**o, "original_state": e[t], "current_state": x[t]}, x[t], y[t], y[0]])
            return res

        equal(T, "streaming_attention_state", n, impl, ref, "the decorated function does not receive the selector's result", nan=False)
