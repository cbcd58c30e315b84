"""P12: the other drivers (transform_batch, unroll_lift, static_scan, gym_static_unroll, data_unroll) == stepping."""
import itertools

import numpy as np

from vlib.harness import check_equiv

import checks.P11_unroll as U

BOUNDS = "sequences of 2..4 (quick) / 2..6 (thorough) steps and two successive calls; nested inputs, outputs and states; opaque step functions"
ASSUMPTIONS = U.ASSUMPTIONS
META = dict(
    title="Batch transforms, lifted unrolls and data-generator drivers equal stepping",
    statement="transform_batch_with_state and its static version, unroll_lift_with_state inside an outer Haiku transform, static_scan "
    "(also without inputs), gym_static_unroll, data_unroll and jit_init_apply return exactly what the plain loop over the elements "
    "returns: same outputs in order, same final state; state is carried over between successive calls; skip_first drops exactly the "
    "first element; the rng given to apply is the one used, and one fresh key of the sequence is used per call of a generator-driven run; with split_rng every step of a lifted unroll gets its own key, without it none.",
    over=["programs", "inputs", "histories"],
    quant="all step functions, data generators, sequence lengths and nested structures",
    why="tests run one environment or one counter module and compare against stored numbers",
    files=["src/wax/transform.py", "src/wax/stateful.py", "src/wax/unroll.py", "src/wax/compile.py"],
    mech=[("transform_batch_with_state / _static", "src/wax/transform.py"), ("unroll_lift_with_state", "src/wax/stateful.py"),
          ("static_scan / gym_static_unroll / data_unroll", "src/wax/unroll.py"), ("jit_init_apply", "src/wax/compile.py")],
)


def tasks(tier):
    ns = (2, 4) if tier == "quick" else (2, 3, 4, 5, 6)
    out = []
    for n in ns:
        out += [dict(name=f"batch{n}", fn="t_batch", kw=dict(n=n)), dict(name=f"scan{n}", fn="t_scan", kw=dict(n=n)),
                dict(name=f"lift{n}", fn="t_lift", kw=dict(n=n)), dict(name=f"gym{n}", fn="t_gym", kw=dict(n=n)),
                dict(name=f"lift-rng{n}", fn="t_lift_rng", kw=dict(n=n))]
    return out


def data(I, n):
    return dict(xs=dict(x={"a": I.sym("a", (n,), nan=False)}, y=[I.sym("y", (n, 2), nan=False)], scale=I.sym("sc", (n,), nan=False)))


def tm(f, *t):
    import jax

    return jax.tree_util.tree_map(f, *t)


def at(xs, t):
    return tm(lambda v: v[t], xs)


def model(rng):
    import haiku as hk

    g = U.step_hk(rng)
    return hk.transform_with_state(lambda o: g(**o))


def call(I, fn):
    return lambda I, **k: I.call(lambda kk: fn(**kk), k)


def key_bits(st):
    """rng part of a state as plain numbers"""
    return U.mut(st)


def t_batch(T, n):
    import jax

    from wax.compile import jit_init_apply
    from wax.transform import transform_batch_with_state, transform_batch_with_state_static

    k0, k1 = np.asarray(jax.random.PRNGKey(0)), np.asarray(jax.random.PRNGKey(9))
    for static, skip, rng, jit in itertools.product((False, True), (False, True), (False, True), (False, True)):
        f = model(rng)
        b = transform_batch_with_state_static(f, skip_first=skip, pbar=False) if static else transform_batch_with_state(f, skip_first=skip)
        if jit:
            b = jit_init_apply(b)

        def run(xs):
            p, s = b.init(k0, xs)
            o1, s1 = b.apply(p, s, k1, xs)
            o2, s2 = b.apply(p, s1, k1, xs)
            return o1, o2, U.mut(s2.fun_params), U.mut(s2.fun_state), U.mut(s.fun_state), s2.rng_key

        def ref(xs):
            p, s0 = f.init(k0, at(xs, 0))
            s, res = s0, []
            for _ in range(2):
                outs = []
                for t in range(int(skip), n):
                    o, s = f.apply(p, s, k1, at(xs, t))
                    outs.append(o)
                res.append(U.stack(outs))
            return res[0], res[1], U.mut(p), U.mut(s), U.mut(s0), jax.numpy.asarray(k1)

        check_equiv(T, f"static={static} skip={skip} rng={rng} jit={jit}", lambda I: data(I, n), run, call(None, ref), validate=1,
                    what="transform_batch_with_state differs from the plain loop")
        if T.violations:
            return


def t_scan(T, n):
    import jax
    import jax.numpy as jnp

    from wax.unroll import data_unroll, iter_first_axis, static_scan

    def body(c, x):
        a, (b, k) = c
        v = 0.5 if x is None else x["x"]["a"] * x["scale"]
        a2 = jnp.sin(a + v)
        return (a2, (b + a, k + 1)), {"o": jnp.tanh(a2 + b), "l": [k]}

    def inputs(I):
        return dict(**data(I, n), a=I.sym("c", (), nan=False), b=I.sym("d", (), nan=False))

    for none in (False, True):
        def run(xs, a, b):
            r = static_scan(body, (a, (b, jnp.int32(3))), **(dict(length=n) if none else dict(xs=xs)))
            return r

        def ref(xs, a, b):
            c, outs = (a, (b, jnp.int32(3))), []
            for t in range(n):
                c, y = body(c, None if none else at(xs, t))
                outs.append(y)
            return c, U.stack(outs)

        check_equiv(T, f"static_scan xs={'None' if none else 'tree'}", inputs, run, call(None, ref), validate=1,
                    what="static_scan differs from the plain loop")
    check_equiv(T, "iter_first_axis", lambda I: data(I, n), lambda xs: list(iter_first_axis(xs)),
                lambda I, xs: I.call(lambda v: [at(v, t) for t in range(n)], xs), validate=1,
                what="iter_first_axis does not yield the elements in order")
    check_equiv(T, "data_unroll", lambda I: data(I, n), lambda xs: data_unroll(((at(xs, t), {"i": t}) for t in range(n)), pbar=False),
                lambda I, xs: xs, validate=1, what="data_unroll does not stack the observations in order")


def t_lift(T, n):
    import haiku as hk
    import jax

    from wax.stateful import unroll_lift_with_state

    for skip, flags in itertools.product((False, True), ((False, False), (True, False), (True, True))):
        init_rng, split = flags
        inner = U.step_hk(False)

        def outer(xs):
            o = unroll_lift_with_state(lambda **kw: inner(**kw), skip_first=skip, init_rng=init_rng, split_rng=split)(**xs)
            return o

        g = hk.transform_with_state(outer)

        def run(xs, xs2):
            key = jax.random.PRNGKey(0)
            p, s = g.init(key, xs)
            o1, s = g.apply(p, s, key if split else None, xs)
            o2, s = g.apply(p, s, key if split else None, xs2)
            return o1, o2

        def ref(xs, xs2):
            f = model(False)
            p, s = f.init(jax.random.PRNGKey(0), at(xs, 0))
            res = []
            for v in (xs, xs2):
                outs = []
                for t in range(int(skip), n):
                    o, s = f.apply(p, s, None, at(v, t))
                    outs.append(o)
                res.append(U.stack(outs))
            return tuple(res)

        def inputs(I):
            d = data(I, n)
            return dict(**d, xs2=dict(x={"a": I.sym("a2", (n,), nan=False)}, y=[I.sym("y2", (n, 2), nan=False)],
                                      scale=I.sym("sc2", (n,), nan=False)))

        check_equiv(T, f"skip={skip} init_rng={init_rng} split_rng={split}", inputs, run, call(None, ref), validate=1,
                    what="unroll_lift_with_state differs from stepping the inner function")
        if T.violations:
            return


def t_lift_rng(T, n):
    """Keys of the steps: none without split_rng (whatever apply is given), with it a new one per step, determined by the key given."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.stateful import unroll_lift_with_state

    def inner(x):
        s = hk.get_state("s", [], init=jnp.zeros)
        k = hk.maybe_next_rng_key()
        k = jnp.zeros(2, jnp.uint32) if k is None else k
        s = jnp.sin(s + x + k[0].astype(jnp.float32) / 2.0**32)
        hk.set_state("s", s)
        return s, k

    def ins(I):
        return dict(xs=I.sym("x", (n,), nan=False))

    for skip, split in itertools.product((False, True), (False, True)):
        g = hk.transform_with_state(lambda x: unroll_lift_with_state(inner, skip_first=skip, split_rng=split)(x))

        def run(xs):
            p, s = g.init(jax.random.PRNGKey(0), xs)
            outs = []
            for k in (3, 4, 3):
                o, s = g.apply(p, s, jax.random.PRNGKey(k), xs)
                outs.append(o)
            return outs

        def states(xs):
            return [o for o, _ in run(xs)], [k for _, k in run(xs)]

        def ref(xs):
            ks = [k for _, k in run(xs)] if split else [jnp.zeros((n - int(skip), 2), jnp.uint32)] * 3
            s, res = jnp.zeros([]), []
            for c in range(3):
                outs = []
                for t in range(int(skip), n):
                    s = jnp.sin(s + xs[t] + ks[c][t - int(skip)][0].astype(jnp.float32) / 2.0**32)
                    outs.append(s)
                res.append(jnp.stack(outs))
            return res, ks

        check_equiv(T, f"states skip={skip} split={split}", ins, states, lambda I, xs: I.call(ref, xs), validate=1,
                    what="unroll_lift_with_state: a step received another key")
        if split:
            def keys(xs):
                ks = [k for _, k in run(xs)]
                a = jnp.concatenate(ks[:2])
                same = (a[:, None] == a[None]).all(-1) & ~jnp.eye(len(a), dtype=bool)
                return same.any(), (ks[0] == ks[2]).all()

            check_equiv(T, f"keys skip={skip}", ins, keys, lambda I, xs: (np.bool_(False), np.bool_(True)), validate=1, canary=False,
                        what="unroll_lift_with_state(split_rng): two steps share a key, or the keys do not follow from the one given")
        if T.violations:
            return


def t_gym(T, n):
    import haiku as hk
    import jax

    from wax.unroll import gym_static_unroll

    for skip, rng, given in itertools.product((False, True), (False, True), (False, True)):
        f = model(rng)

        def keys():
            return hk.PRNGSequence(4)

        def run(xs, w):
            seq = keys()
            p0 = s0 = None
            if given:
                p0, s0 = f.init(jax.random.PRNGKey(1), at(xs, n - 1))
                p0 = tm(lambda _: w, p0)
            o, s = gym_static_unroll(f, p0, s0, seq, skip, ((at(xs, t), {"info": t}) for t in range(n)))
            return o, U.mut(s)

        def ref(xs, w):
            seq = keys()
            p, s = f.init(next(seq), at(xs, 0))
            if given:
                p, s = f.init(jax.random.PRNGKey(1), at(xs, n - 1))
                p = tm(lambda _: w, p)
            outs = []
            for t in range(int(skip), n):
                o, s = f.apply(p, s, next(seq), at(xs, t))
                outs.append(o)
            return U.stack(outs), U.mut(s)

        check_equiv(T, f"gym_static_unroll skip={skip} rng={rng} given={given}", lambda I: dict(**data(I, n), w=I.sym("w", (), nan=False)),
                    run, call(None, ref), validate=1, what="gym_static_unroll differs from the plain loop over the generator")
        if T.violations:
            return
