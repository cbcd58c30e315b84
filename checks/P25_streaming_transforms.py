"""P25: Flax streaming transforms, streaming_scan, streaming_optimizer and state helpers."""
import itertools

import numpy as np

from vlib.harness import check_equiv

BOUNDS = ("3 (quick) / 5 (thorough) steps; pytree inputs, two state collections, nested modules; every reset schedule; optimizers sgd, momentum "
          "and an opaque stateful transformation; all data, parameters, states and reset flags symbolic")
ASSUMPTIONS = [
    "exact reals: equality up to rounding; inputs finite",
    "functions without random draws; HierarchicalState, ConditionalStateUpdate and StreamingStateMachine (which cannot be instantiated) are outside",
]
META = dict(
    title="Flax streaming transforms are the step-by-step loop of the functions they wrap",
    statement="streaming_transform_with_state(fn).init/apply split the variables of the modules fn creates into parameters and state and call fn "
    "once; .scan equals the loop of apply over the leading axis (outputs stacked in order, state threaded, keyword arguments constant). "
    "streaming_scan(fn, reset_on).scan_apply equals that loop with the state put back to the starting state after each "
    "step whose input satisfies reset_on; given params, state and rng are each used, otherwise those initialised on the first element. "
    "StreamingScan maps fn over the sequence and hands back the initial state. streaming_optimizer steps the model, returns the loss of (output x scale, "
    "target) at the current scale, the unscaled output (and aux), and updates scale with the optimizer's update of the gradient, "
    "the model's state being kept. apply_with_state, make_streaming_compatible, create_streaming_module_wrapper behave as the module's own apply.",
    over=["inputs", "histories", "programs"],
    quant="all inputs, parameters, states, reset schedules, losses and optimizers within the bound",
    why="tests use pass-through functions (for which resets are unobservable) and check shapes or that a loss decreases",
    files=["src/wax/flax/core/streaming_transforms.py", "src/wax/flax/core/transform.py", "src/wax/flax/core/state_utils.py"],
    mech=[("StreamingTransform, streaming_scan, StreamingScan, StreamingOptimizer/streaming_optimizer", "src/wax/flax/core/streaming_transforms.py"),
          ("apply_with_state, make_streaming_compatible, create_streaming_module_wrapper", "src/wax/flax/core/state_utils.py")],
)


def tasks(tier):
    n = 3 if tier == "quick" else 5
    out = [dict(name=f"transform-{m}", fn="t_transform", kw=dict(m=m, n=n)) for m in ("opaque", "nested", "wax")]
    for m in ("opaque", "nested", "wax"):
        for r in ("none", "sign", "key"):
            out.append(dict(name=f"scan-{m}-{r}", fn="t_scan", kw=dict(m=m, r=r, n=n)))
    out.append(dict(name="scan-given", fn="t_given", kw=dict(n=n)))
    for o in ("sgd", "momentum", "opaque"):
        out.append(dict(name=f"optimizer-{o}", fn="t_opt", kw=dict(o=o, n=2 if tier == "quick" else 3)))
    out += [dict(name="optimizer-init", fn="t_opt_init"), dict(name="state-utils", fn="t_utils", kw=dict(n=n)), dict(name="scan-module", fn="t_scan_module")]
    return out


def op_class():
    import flax.linen as nn
    import jax.numpy as jnp

    class Op(nn.Module):
        k: float = 1.0

        @nn.compact
        def __call__(self, x):
            w = self.param("w", lambda r: jnp.ones([]))
            s = self.variable("state", "s", lambda: jnp.zeros([]))
            c = self.variable("cache", "c", lambda: jnp.zeros([2]))
            s0, c0 = s.value, c.value
            s.value = jnp.sin(s0 * w + self.k * x)
            c.value = jnp.stack([x, c0[0]])
            return jnp.tanh(s.value + c0[1])

    return Op


def functions(m):
    """-> (fn of a step input pytree, called inside a compact module; keyword `g` optional)"""
    from wax.flax.modules.buffer import Buffer
    from wax.flax.modules.ewma import EWMA

    Op = op_class()

    def opaque(x, g=1.0):
        return Op()(x["a"]) * g

    def nested(x, g=1.0):
        u = Op(k=2.0)(x["a"])
        v = Op()(u + x["b"][0])
        return {"u": u, "v": [v * g, x["b"]]}

    def wax(x, g=1.0):
        b = Buffer(maxlen=2)(x["a"])
        return EWMA(com=2.0)(x["b"][1]), b, Op()(x["a"]) * g

    return dict(opaque=opaque, nested=nested, wax=wax)[m]


def ref_module(fn):
    import flax.linen as nn

    class Ref(nn.Module):
        @nn.compact
        def __call__(self, *a, **k):
            return fn(*a, **k)

    return Ref()


def mut(t):
    return {k: mut(v) for k, v in t.items()} if hasattr(t, "items") else t


def split(v):
    v = mut(v)
    p = v.pop("params", {})
    return p, v


def rapply(mod, p, s, *a, **k):
    o, v = mod.apply({"params": p, **s}, *a, mutable=True, **k)
    return o, split(v)[1]


def template(fn, *x):
    """shapes of params and state (concrete init of the reference module)"""
    import jax

    v = ref_module(fn).init(jax.random.PRNGKey(0), *x)
    p, s = split(v)
    return jax.tree_util.tree_map(np.asarray, (p, s))


def zero_inputs():
    return {"a": np.float32(0), "b": np.zeros(2, np.float32)}


def sym_like(I, name, t):
    import jax

    fl, td = jax.tree_util.tree_flatten(t)
    return jax.tree_util.tree_unflatten(td, [I.sym(f"{name}{i}", v.shape, v.dtype, nan=False) if v.dtype.kind == "f" else v for i, v in enumerate(fl)])


def sym_inputs(I, n):
    return {"a": I.sym("a", (n,), nan=False), "b": I.sym("b", (n, 2), nan=False)}


def at(x, t):
    import jax

    return jax.tree_util.tree_map(lambda v: v[t], x)


def stack(outs):
    import jax
    import jax.numpy as jnp

    return jax.tree_util.tree_map(lambda *v: jnp.stack([jnp.asarray(w) for w in v]), *outs)


def frozen(t):
    from flax.core import FrozenDict

    return FrozenDict(t)


def call_ref(fn):
    def ref(I, **kw):
        return I.call(lambda k: fn(**k), kw)

    return ref


def t_transform(T, m, n):
    import jax

    from wax.flax.core.streaming_transforms import streaming_transform_with_state

    fn = functions(m)
    p0, s0 = template(fn, zero_inputs())
    key = jax.random.PRNGKey(0)

    def inputs(I):
        return dict(x=sym_inputs(I, n), p=sym_like(I, "p", p0), s=sym_like(I, "s", s0), g=I.sym("g", (), nan=False))

    def impl(x, p, s, g):
        st = streaming_transform_with_state(fn)
        ip, is_ = st.init(key, at(x, 0), g=g)
        outs, state = [], frozen(s)
        for t in range(n):
            o, state = st.apply(frozen(p), state, None, at(x, t), g=g)
            outs.append(o)
        so, ss = st.scan(frozen(p), frozen(s), None, x, g=g)
        s1, _ = st.scan(frozen(p), frozen(s), None, x)
        return dict(init=[mut(ip), mut(is_)], loop=[stack(outs), mut(state)], scan=[so, mut(ss)], plain=s1)

    def loop(x, p, s, g):
        mod = ref_module(fn)
        outs = []
        for t in range(n):
            o, s = rapply(mod, p, s, at(x, t), g=g)
            outs.append(o)
        return [stack(outs), s]

    def ref(x, p, s, g):
        v = ref_module(fn).init(key, at(x, 0), g=g)
        L = loop(x, p, s, g)
        return dict(init=list(split(v)), loop=L, scan=L, plain=loop(x, p, s, 1.0)[0])

    check_equiv(T, f"transform {m}", inputs, impl, call_ref(ref), validate=1, what="streaming transform differs from the loop of the wrapped function")


def resetter(r):
    import jax.numpy as jnp

    return {"none": None, "sign": lambda x: x["a"] > 0, "key": lambda x: jnp.logical_and(x["b"][0] <= x["a"], x["b"][1] > 1.5)}[r]


def scan_ref(fn, r, x, p, s, n):
    import jax
    import jax.numpy as jnp

    mod, start, outs = ref_module(fn), s, []
    cond = resetter(r)
    for t in range(n):
        xt = at(x, t)
        o, s = rapply(mod, p, s, xt)
        outs.append(o)
        if cond is not None:
            hit = cond(xt)
            s = jax.tree_util.tree_map(lambda a, b: jnp.where(hit, a, b), start, s)
    return [stack(outs), s]


def t_scan(T, m, r, n):
    from wax.flax.core.streaming_transforms import streaming_scan

    fn = functions(m)
    p0, s0 = template(fn, zero_inputs())

    def inputs(I):
        return dict(x=sym_inputs(I, n), p=sym_like(I, "p", p0), s=sym_like(I, "s", s0))

    def impl(x, p, s):
        sc = streaming_scan(fn) if r == "none" else streaming_scan(reset_on=resetter(r))(fn)
        o, st = sc.scan_apply(x, frozen(p), frozen(s))
        return [o, mut(st)]

    check_equiv(T, f"streaming_scan {m} reset={r}", inputs, impl, call_ref(lambda x, p, s: scan_ref(fn, r, x, p, s, n)), validate=1,
                what="streaming_scan differs from the loop with resets")


def t_given(T, n):
    """params/state/rng: each one given is used, missing ones come from the initialisation on the first element."""
    import flax.linen as nn
    import jax

    from wax.flax.core.streaming_transforms import streaming_scan

    fn = functions("opaque")
    p0, s0 = template(fn, zero_inputs())
    for gp, gs, gr in itertools.product((False, True), (False, True), (False, True)):
        def inputs(I):
            return dict(x=sym_inputs(I, n), p=sym_like(I, "p", p0), s=sym_like(I, "s", s0))

        def impl(x, p, s):
            kw = {}
            if gp:
                kw["params"] = frozen(p)
            if gs:
                kw["state"] = frozen(s)
            if gr:
                kw["rng"] = jax.random.PRNGKey(5)
            sc = streaming_scan(fn, reset_on=resetter("sign"))
            o, st = sc.scan_apply(x, **kw)
            ip, is_ = sc.init(jax.random.PRNGKey(0), at(x, 0))
            ao, as_ = sc.apply(frozen(p), frozen(s), None, at(x, 0))
            return [o, mut(st), mut(ip), mut(is_), ao, mut(as_)]

        def ref(x, p, s):
            mod = ref_module(fn)
            ip, is_ = split(mod.init(jax.random.PRNGKey(0), at(x, 0)))
            ao, as_ = rapply(mod, p, s, at(x, 0))
            return [*scan_ref(fn, "sign", x, p if gp else ip, s if gs else is_, n), ip, is_, ao, as_]

        check_equiv(T, f"streaming_scan given params={gp} state={gs} rng={gr}", inputs, impl, call_ref(ref), validate=1,
                    what="streaming_scan does not use the parameters/state/rng it should")
        if T.violations:
            return

    class Drawn(nn.Module):
        """Parameter and state drawn from the initialisation's random key."""

        @nn.compact
        def __call__(self, a):
            p = self.param("p", lambda r: jax.random.uniform(r))
            m = self.variable("state", "m", lambda: jax.random.uniform(self.make_rng("params")))
            m.value = m.value + p * a
            return m.value

    for gp, gs, seed in itertools.product((False, True), (False, True), (1, 5)):
        def impl(x, p, s):
            sc = streaming_scan(lambda a: Drawn()(a))
            ip, is_ = sc.init(jax.random.PRNGKey(9), x[0])
            kw = {}
            if gp:
                kw["params"] = jax.tree_util.tree_map(lambda v: p, ip)
            if gs:
                kw["state"] = jax.tree_util.tree_map(lambda v: s, is_)
            return sc.scan_apply(x, rng=jax.random.PRNGKey(seed), **kw)[0]

        def ref(x, p, s):
            ip, is_ = streaming_scan(lambda a: Drawn()(a)).init(jax.random.PRNGKey(seed), x[0])
            (p0,), (m,) = jax.tree_util.tree_leaves(ip), jax.tree_util.tree_leaves(is_)
            # init runs the first element: its state is already advanced
            p0, m = p if gp else p0, s if gs else m
            outs = []
            for t in range(n):
                m = m + p0 * x[t]
                outs.append(m)
            return jax.numpy.stack(outs)

        check_equiv(T, f"streaming_scan random initialisation params={gp} state={gs} seed={seed}",
                    lambda I: dict(x=I.sym("x", (n,), nan=False), p=I.sym("p", (), nan=False), s=I.sym("s", (), nan=False)), impl, call_ref(ref), validate=1,
                    what="streaming_scan does not initialise with the random key given")
        if T.violations:
            return



def optimizer(o):
    import jax
    import jax.numpy as jnp
    import optax

    if o == "sgd":
        return optax.sgd(0.125)
    if o == "momentum":
        return optax.sgd(0.5, momentum=0.25)

    def update(g, st, params=None):
        m = jnp.sin(st["m"] + g * (1.0 if params is None else params))
        return jnp.tanh(m), {"m": m, "n": st["n"] + 1}

    return optax.GradientTransformation(lambda p: {"m": jnp.zeros([]) + p, "n": jnp.zeros([], jnp.int32)}, update)


def models(aux, two):
    import jax.numpy as jnp

    Op = op_class()

    def f(x, y):
        h = Op()(x)
        v = h * 2.0 + x
        return (v, {"h": h, "y": y}) if aux else v

    def g(x):
        h = Op()(x)
        return (h, h + 1.0) if aux else h

    def f3(x, y, z):
        h = Op()(x + z)
        v = h * 2.0 + x
        return (v, {"h": h, "y": y}) if aux else v

    return f3 if two == 3 else f if two else g


def losses(k):
    import jax.numpy as jnp

    return {"sq": lambda p, t: (p - t) ** 2, "op": lambda p, t: jnp.sin(p) * t}[k]


def opt_step(model, loss, opt, aux, vs, ostate, scale, args):
    """The definition of one step."""
    import jax

    mod = ref_module(model)
    p, s = vs
    o, s = rapply(mod, p, s, *args)
    out, a = o if aux else (o, None)
    target = args[1] if len(args) > 1 else args[0]
    l, g = jax.value_and_grad(lambda c: loss(out * c, target))(scale)
    up, ostate = opt.update(g, ostate, scale)
    return ((l, out, a) if aux else (l, out)), (p, s), ostate, scale + up


def t_opt(T, o, n):
    import jax

    from wax.flax.core.streaming_transforms import streaming_optimizer

    key = jax.random.PRNGKey(0)
    opt = optimizer(o)
    for aux, two, lk in [*itertools.product((False, True), (False, True), ("sq", "op")), (False, 3, "sq")]:
        model, loss = models(aux, two), losses(lk)
        nargs = 3 if two == 3 else 2 if two else 1
        z = [np.float32(0)] * nargs
        sopt = streaming_optimizer(opt, loss, has_aux=aux)(model)

        def inputs(I):
            d = dict(x=I.sym("x", (n,), nan=False), c=I.sym("c", (), nan=False), w=I.sym("w", (), nan=False), s=I.sym("s", (), nan=False), m=I.sym("m", (), nan=False))
            if two:
                d["y"] = I.sym("y", (n,), nan=False)
            if two == 3:
                d["z"] = I.sym("z", (n,), nan=False)
            return d

        def fill(tree, sub):
            """replace leaves of a variable tree by their role"""
            def leaf(path, v):
                ks = [getattr(q, "key", getattr(q, "name", None)) for q in path]
                if "scale" in ks:
                    return sub["c"]
                if "opt_state" in ks:
                    return sub["m"] if np.issubdtype(np.asarray(v).dtype, np.floating) else np.int32(5)
                return {"w": sub["w"], "s": sub["s"]}.get(ks[-1], v)

            return jax.tree_util.tree_map_with_path(leaf, tree)

        def args_at(k, t):
            return [k[v][t] for v in "xyz"[:nargs]]

        pc, sc = sopt.init(key, *z)
        pc, sc = jax.tree_util.tree_map(np.asarray, (mut(pc), mut(sc)))
        rp, rs = template(model, *z)
        oc = jax.tree_util.tree_map(np.asarray, opt.init(np.float32(1.0)))

        def impl(**k):
            p, s = frozen(fill(pc, k)), frozen(fill(sc, k))
            outs = []
            for t in range(n):
                r, s = sopt.apply(p, s, None, *args_at(k, t))
                outs.append(list(r))
            leaves = jax.tree_util.tree_leaves(mut(s)["opt_state"])
            return dict(outs=outs, scale=mut(s)["learnable"], opt=leaves, state=jax.tree_util.tree_leaves([mut(s)["state"], mut(s)["cache"]]))

        def ref(**k):
            vs = (fill(rp, k), fill(rs, k))
            ost = jax.tree_util.tree_map(lambda v: k["m"] if np.issubdtype(v.dtype, np.floating) else np.int32(5), oc)
            c, outs = k["c"], []
            for t in range(n):
                r, vs, ost, c = opt_step(model, loss, opt, aux, vs, ost, c, args_at(k, t))
                outs.append(list(r))
            key0 = next(iter(sc["learnable"])) if not isinstance(sc["learnable"].get("scale"), np.ndarray) else None
            return dict(outs=outs, scale={key0: {"scale": c}} if key0 else {"scale": c}, opt=jax.tree_util.tree_leaves(ost),
                        state=jax.tree_util.tree_leaves([vs[1]["state"], vs[1]["cache"]]))

        check_equiv(T, f"streaming_optimizer {o} aux={aux} target={two} loss={lk}", inputs, impl, call_ref(ref), validate=1,
                    what="streaming_optimizer differs from the loop of value_and_grad and optimizer updates")
        if T.violations:
            return


def t_opt_init(T):
    """init performs the first step from scale 1 and a fresh optimizer state."""
    import jax

    from wax.flax.core.streaming_transforms import StreamingOptimizer, streaming_optimizer

    key = jax.random.PRNGKey(0)
    for o in ("sgd", "momentum", "opaque"):
        opt, loss, model = optimizer(o), losses("sq"), models(False, True)
        p00, s00 = template(model, np.float32(0), np.float32(0))

        def inputs(I):
            return dict(x=I.sym("x", (2,), nan=False), y=I.sym("y", (2,), nan=False))

        def impl(x, y):
            st = streaming_optimizer(opt, loss)(model)
            p, s = st.init(key, x[0], y[0])
            r, s = st.apply(p, s, None, x[1], y[1])
            mod = StreamingOptimizer(optimizer=opt, loss_fn=loss)
            (l, pred), v = mod.init_with_output(key, lambda a, b: a * 3.0, x[0], y[0])
            return [list(r), jax.tree_util.tree_leaves(mut(s)["learnable"]), l[0], l[1], pred["scale"], pred["grads"]]

        def ref(x, y):
            import jax.numpy as jnp

            one = jnp.ones([])
            p0, s0 = jax.tree_util.tree_map(jnp.asarray, (p00, s00))
            s0 = jax.tree_util.tree_map(jnp.zeros_like, s0)
            _, vs, ost, c = opt_step(model, loss, opt, False, (p0, s0), opt.init(one), one, (x[0], y[0]))
            r, vs, ost, c = opt_step(model, loss, opt, False, vs, ost, c, (x[1], y[1]))
            out = x[0] * 3.0
            l, g = jax.value_and_grad(lambda q: loss(out * q, y[0]))(one)
            up, _ = opt.update(g, opt.init(one), one)
            return [list(r), [c], l, out, one + up, g]

        check_equiv(T, f"streaming_optimizer init {o}", inputs, impl, call_ref(ref), validate=1, what="the initialisation of streaming_optimizer is not its first step")


def t_utils(T, n):
    import jax

    from wax.flax.core.state_utils import apply_with_state, create_streaming_module_wrapper, make_streaming_compatible

    Op = op_class()
    key = jax.random.PRNGKey(0)

    def inputs(I):
        return dict(x=I.sym("x", (n,), nan=False), w=I.sym("w", (), nan=False), s=I.sym("s", (), nan=False), c=I.sym("c", (2,), nan=False))

    def impl(x, w, s, c):
        v = {"params": {"w": w}, "state": {"s": s}, "cache": {"c": c}}
        outs = []
        for t in range(n):
            o, nv = apply_with_state(Op(k=3.0), v, x[t])
            v = {**v, **mut(nv)}
            outs.append(o)
        res = dict(aws=[outs, v])
        tr = create_streaming_module_wrapper(Op)(k=3.0)
        p, st = {"w": w}, frozen({"state": {"s": s}, "cache": {"c": c}})
        outs = []
        for t in range(n):
            o, st = tr.apply(p, st, None, x[t])
            outs.append(o)
        res["wrap"] = [outs, mut(st), [mut(q) for q in tr.init(key, x[0])]]
        tr = make_streaming_compatible(Op(k=3.0))
        p, st = tr.init(key, x[0])
        name = next(iter(mut(p)))
        p, st = frozen({name: {"w": w}}), frozen({"state": {name: {"s": s}}, "cache": {name: {"c": c}}})
        outs = []
        for t in range(n):
            o, st = tr.apply(p, st, None, x[t])
            outs.append(o)
        res["compat"] = [outs, jax.tree_util.tree_leaves(mut(st))]
        return res

    def ref(x, w, s, c):
        m = Op(k=3.0)
        p, st, outs = {"w": w}, {"state": {"s": s}, "cache": {"c": c}}, []
        for t in range(n):
            o, st = rapply(m, p, st, x[t])
            outs.append(o)
        return dict(aws=[outs, {"params": p, **st}], wrap=[outs, st, list(split(m.init(key, x[0])))], compat=[outs, jax.tree_util.tree_leaves(st)])

    check_equiv(T, "state utils", inputs, impl, call_ref(ref), validate=1, what="state helper differs from the module's own apply")


def t_scan_module(T):
    import jax
    import jax.numpy as jnp

    from wax.flax.core.streaming_transforms import StreamingScan

    f = lambda x: {"u": jnp.sin(x["a"]), "v": x["b"] * 2}
    for r, pres, given in itertools.product(("none", "sign"), (True, False), (False, True)):
        def inputs(I):
            return dict(x=sym_inputs(I, 3), c=I.sym("c", (2,), nan=False))

        def impl(x, c):
            m = StreamingScan(fn=f, reset_fn=resetter(r), preserve_state=pres)
            o, st = m.apply({}, x, {"c": c}) if given else m.apply({}, x)
            return [o, st]

        def ref(x, c):
            return [stack([f(at(x, t)) for t in range(3)]), {"c": c} if given else jnp.zeros([], jnp.int32)]

        check_equiv(T, f"StreamingScan reset={r} preserve={pres} given={given}", inputs, impl, call_ref(ref), validate=1,
                    what="StreamingScan differs from mapping the function")
        if T.violations:
            return
