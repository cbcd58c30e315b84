"""P21: optimizer modules apply the wrapped gradient transformation step by step; newton keeps the inverse Hessian."""
import numpy as np

from vlib import dom
from vlib.harness import check_equiv, check_prop

BOUNDS = "1..3 (quick) / 1..5 (thorough) steps; Newton matrices of dimension 1..3; symbolic parameters, gradients and Newton states"
ASSUMPTIONS = [
    "real arithmetic (sqrt characterised by its square, exponentials uninterpreted), finite inputs",
    "the gradient transformations of optax itself are taken as they are",
]
META = dict(
    title="Optimizer modules apply the wrapped optax transformation; newton its own",
    statement="OptaxOptimizer (Haiku and Flax) returns, for every sequence of (params, grads), exactly the parameters obtained by threading the "
    "optax state: init on the first params, then update(grads, state, params) and apply_updates per step (Flax: with the new optimizer state), for every transformation, including those "
    "that need the parameters (weight decay). sherman_morrison(A^-1, u, v) is the inverse of A + u v^T whenever that exists. newton keeps, per leaf, the "
    "inverse of eps*I + sum of g g^T over all gradients so far and moves by -learning_rate times that inverse times the gradient, "
    "in the shape of the leaf, without mixing leaves.",
    over=["inputs", "histories", "configurations"],
    quant="all parameters and gradients, all listed transformations, histories within the bound",
    why="tests take one step with one transformation on constant data",
    files=["src/wax/modules/optax_optimizer.py", "src/wax/flax/modules/optax_optimizer.py", "src/wax/optim/newton.py"],
    mech=[("OptaxOptimizer", "src/wax/modules/optax_optimizer.py, src/wax/flax/modules/optax_optimizer.py"),
          ("newton, scale_by_newton, sherman_morrison", "src/wax/optim/newton.py")],
)


def optimizers():
    import optax

    from wax.optim.newton import newton

    return dict(
        sgd=optax.sgd(0.1), momentum=optax.sgd(0.1, momentum=0.5), nesterov=optax.sgd(0.1, momentum=0.5, nesterov=True),
        adagrad=optax.adagrad(0.1), rmsprop=optax.rmsprop(0.1), adam=optax.adam(0.1), adamw=optax.adamw(0.1, weight_decay=0.25),
        clip=optax.chain(optax.clip(0.5), optax.sgd(0.1)), decay=optax.chain(optax.add_decayed_weights(0.25), optax.sgd(0.1)),
        norm=optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(0.1)),
        schedule=optax.sgd(optax.piecewise_constant_schedule(0.5, {1: 0.5, 2: 0.25})), newton=newton(0.1, eps=0.5),
        multi=optax.MultiSteps(optax.sgd(0.1), 2),
    )


OPTS = ("sgd", "momentum", "nesterov", "adagrad", "rmsprop", "adam", "adamw", "clip", "decay", "norm", "schedule", "newton", "multi")


def tasks(tier):
    n = 3 if tier == "quick" else 5
    out = [dict(name=f"{impl}-{o}", fn="t_optax", kw=dict(impl=impl, opt=o, n=min(n, 2) if o == "newton" else n)) for impl in ("haiku", "flax") for o in OPTS]
    for d in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append(dict(name=f"sherman-morrison-d{d}", fn="t_sm", kw=dict(d=d)))
    for shape in ((), (1,), (2,), (1, 2)) + (((3,), (2, 2)) if tier != "quick" else ()):
        out.append(dict(name=f"newton-{'x'.join(map(str, shape)) or 'scalar'}", fn="t_newton", kw=dict(shape=shape)))
    for shape in ((2, 2), (2, 3), (1, 2, 2)):
        out.append(dict(name=f"newton-first-{'x'.join(map(str, shape))}", fn="t_newton_first", kw=dict(shape=shape)))
    out.append(dict(name="newton-tree", fn="t_tree", kw=dict(n=n)))
    return out


def t_optax(T, impl, opt, n):
    import jax
    import optax

    T.bounds = dict(steps=n, optimizer=opt)
    o = optimizers()[opt]
    if opt == "multi":
        o = o.gradient_transformation()

    def inputs(I):
        mk = lambda p, s: {"m": {"w": I.sym(p + "w", s + (2,), nan=False), "b": I.sym(p + "b", s, nan=False)}}
        return dict(params=mk("p", ()), grads=mk("g", (n,)))

    def at(tree, t):
        return jax.tree_util.tree_map(lambda v: v[t], tree)

    def run(params, grads):
        outs, p = [], params
        if impl == "haiku":
            import haiku as hk

            from wax.modules.optax_optimizer import OptaxOptimizer

            f = hk.transform_with_state(lambda q, g: OptaxOptimizer(o)(q, g))
            _, st = f.init(None, params, at(grads, 0))
            for t in range(n):
                p, st = f.apply({}, st, None, p, at(grads, t))
                outs.append(p)
        else:
            from wax.flax.modules.optax_optimizer import OptaxOptimizer, create_optax_optimizer

            m = OptaxOptimizer(opt=o) if opt != "sgd" else create_optax_optimizer(o)
            st = {}
            for t in range(n):
                (p, info), st = m.apply(st, p, at(grads, t), mutable=True)
                outs.append((p, jax.tree_util.tree_leaves(info)))
        return outs

    def ref(params, grads):
        outs, p = [], params
        st = o.init(params)
        for t in range(n):
            u, st = o.update(at(grads, t), st, p)
            p = optax.apply_updates(p, u)
            outs.append(p if impl == "haiku" else (p, jax.tree_util.tree_leaves(st)))
        return outs

    check_equiv(T, f"{impl} {opt}", inputs, run, lambda I, **k: I.call(lambda kk: ref(**kk), k), validate=1,
                what=f"{impl} OptaxOptimizer({opt}) differs from threading the optax state")


def mat(x):
    return [[x.a[i, j].r for j in range(x.shape[1])] for i in range(x.shape[0])]


def vec(x):
    return [x.a[i].r for i in range(x.shape[0])]


def zs(xs):
    return sum(xs[1:], xs[0])


def t_sm(T, d):
    """(A + u v^T) SM(B, u, v) == I for every A with inverse B: the code equals the rank-one update formula, and that
    formula times A + u v^T is I (d <= 2)."""
    import jax.numpy as jnp
    import z3

    from wax.optim.newton import sherman_morrison

    T.bounds = dict(dimension=d)

    def run(B, u, v):
        return sherman_morrison(B, u, v)

    def ref(B, u, v):
        Bu = [sum(B[i, k] * u[k] for k in range(d)) for i in range(d)]
        vB = [sum(v[k] * B[k, j] for k in range(d)) for j in range(d)]
        den = 1 + sum(v[k] * Bu[k] for k in range(d))
        return jnp.stack([jnp.stack([B[i, j] - Bu[i] * vB[j] / den for j in range(d)]) for i in range(d)])

    def den(B, u, v):
        return 1 + zs([vec(v)[i] * mat(B)[i][j] * vec(u)[j] for i in range(d) for j in range(d)])

    def assume(I, B, u, v):
        # away from the singular case, so that rounding does not decide
        D = den(B, u, v)
        return [z3.Or(D > z3.Q(1, 8), D < -z3.Q(1, 8))]

    inputs = lambda I: dict(B=I.sym("B", (d, d), nan=False), u=I.sym("u", (d,), nan=False), v=I.sym("v", (d,), nan=False))
    check_equiv(T, f"sherman_morrison d={d}", inputs, run, lambda I, **k: I.call(lambda kk: ref(**kk), k), assume=assume, timeout=60000,
                what="sherman_morrison is not the rank-one update of the inverse")
    if d <= 2:
        # the formula is the inverse of A + u v^T: one entry of the product at a time, multiplied by the denominator
        A = [[z3.Real(f"A{i}{j}") for j in range(d)] for i in range(d)]
        B = [[z3.Real(f"B{i}{j}") for j in range(d)] for i in range(d)]
        u, v = [z3.Real(f"u{i}") for i in range(d)], [z3.Real(f"v{i}") for i in range(d)]
        I_ = [zs([A[i][k] * B[k][j] for k in range(d)]) == (1 if i == j else 0) for i in range(d) for j in range(d)]
        Bu = [zs([B[i][k] * u[k] for k in range(d)]) for i in range(d)]
        vB = [zs([v[k] * B[k][j] for k in range(d)]) for j in range(d)]
        D = 1 + zs([v[k] * Bu[k] for k in range(d)])
        for i in range(d):
            for j in range(d):
                p = zs([(A[i][k] + u[i] * v[k]) * (B[k][j] * D - Bu[k] * vB[j]) for k in range(d)])
                T.obligations += 1
                r, _ = T.solve([*I_, p != (D if i == j else 0)], timeout=60000)
                if r == z3.unsat:
                    T.discharged += 1
                else:
                    T.undecided.append(f"lemma d={d} {i}{j}: {r}")


def t_newton(T, shape):
    """One step from any state: the new state is the rank-one update with u = v = gradient, the move is -lr * state * gradient."""
    import jax.numpy as jnp
    import z3

    from wax.optim.newton import newton

    T.bounds = dict(shape=list(shape), steps=1, state="any symmetric matrix")
    d = int(np.prod(shape)) if shape else 1
    opt = newton(0.25, eps=0.5)

    def sym_state(w):
        rows = [[None] * d for _ in range(d)]
        k = 0
        for i in range(d):
            for j in range(i, d):
                rows[i][j] = rows[j][i] = w[k]
                k += 1
        return jnp.stack([jnp.stack(r) for r in rows])

    def run(g, p, w):
        st = opt.init(p)
        st = (st[0]._replace(hessian_inv=sym_state(w)),) + tuple(st[1:])
        u, st2 = opt.update(g, st, p)
        return u, st2[0].hessian_inv

    def ref(g, p, w):
        B = sym_state(w)
        v = g.reshape((d,))
        Bu = [sum(B[i, k] * v[k] for k in range(d)) for i in range(d)]
        den = 1 + sum(v[k] * Bu[k] for k in range(d))
        H = jnp.stack([jnp.stack([B[i, j] - Bu[i] * Bu[j] / den for j in range(d)]) for i in range(d)])
        u = jnp.stack([-0.25 * sum(H[i, k] * v[k] for k in range(d)) for i in range(d)])
        return u.reshape(shape), H

    def assume(I, g, p, w):
        o = sym_z(w, d)
        gv = [g.a.reshape(-1)[i].r for i in range(d)]
        D = 1 + zs([gv[i] * o[i][j] * gv[j] for i in range(d) for j in range(d)])
        return [D > z3.Q(1, 8)]

    check_equiv(T, f"newton step {shape}", lambda I: dict(g=I.sym("g", shape, nan=False), p=I.sym("p", shape, nan=False),
                                                            w=I.sym("w", (d * (d + 1) // 2,), nan=False)),
                run, lambda I, **k: I.call(lambda kk: ref(**kk), k), assume=assume, timeout=60000, internal=True,
                what="a newton step differs from the rank-one update of the inverse Hessian")

    # from the initial state: both steps against the inverse of eps I + sum g g^T (dimension 1: closed form)
    if d == 1:
        def run2(g, p):
            st, outs = opt.init(p), []
            for t in range(3):
                u, st = opt.update(g[t], st, p)
                outs.append(u)
            return outs

        def ref2(g, p):
            outs, h = [], 0.5
            for t in range(3):
                h = h + g[t] * g[t]
                outs.append(-0.25 * g[t] / h)
            return outs

        check_equiv(T, f"newton history {shape}", lambda I: dict(g=I.sym("g", (3,) + tuple(shape), nan=False), p=I.sym("p", shape, nan=False)), run2,
                    lambda I, **k: I.call(lambda kk: ref2(**kk), k), timeout=60000, sign_oracle=True,
                    what="newton moves differ from -lr * (eps + sum of squares)^-1 * gradient")
    else:
        t_newton_first(T, shape)


def t_newton_first(T, shape):
    """The first move, in the shape of the leaf."""
    from wax.optim.newton import newton

    T.bounds = dict(shape=list(shape), steps=1)
    shape = tuple(shape)
    d = int(np.prod(shape))
    opt = newton(0.25, eps=0.5)

    def run1(g, p):
        return opt.update(g, opt.init(p), p)[0]

    def ref1(g, p):
        # (eps I + g g^T)^-1 g = g / (eps + g.g)
        return -0.25 * g / (0.5 + sum(x * x for x in g.reshape((d,))))

    check_equiv(T, f"newton first step {shape}", lambda I: dict(g=I.sym("g", shape, nan=False), p=I.sym("p", shape, nan=False)), run1,
                lambda I, **k: I.call(lambda kk: ref1(**kk), k), timeout=60000, sign_oracle=True,
                what="the first newton move differs from -lr * (eps I + g g^T)^-1 g")


def sym_z(w, d):
    rows = [[None] * d for _ in range(d)]
    k = 0
    for i in range(d):
        for j in range(i, d):
            rows[i][j] = rows[j][i] = w.a[k].r
            k += 1
    return rows


def t_tree(T, n):
    """Leaves do not mix: the moves of a tree are those of its leaves."""
    import jax

    from wax.optim.newton import newton

    T.bounds = dict(steps=2)
    opt = newton(0.25, eps=0.5)

    def inputs(I):
        return dict(g={"a": I.sym("a", (2, 2), nan=False), "b": [I.sym("b", (2,), nan=False)]})

    def run(g):
        outs = []
        st = opt.init(jax.tree_util.tree_map(lambda v: v[0], g))
        for t in range(2):
            u, st = opt.update(jax.tree_util.tree_map(lambda v: v[t], g), st)
            outs.append(u)
        return outs

    def ref(g):
        def one(x):
            outs, st = [], opt.init(x[0])
            for t in range(2):
                u, st = opt.update(x[t], st)
                outs.append(u)
            return outs

        a, b = one(g["a"]), one(g["b"][0])
        return [{"a": a[t], "b": [b[t]]} for t in range(2)]

    check_equiv(T, "newton leaves", inputs, run, lambda I, **k: I.call(lambda kk: ref(**kk), k), timeout=60000,
                what="newton mixes the leaves of the parameter tree")
