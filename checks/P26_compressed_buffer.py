"""P26: CompressedBuffer, HierarchicalBuffer and the streaming memory decorators (Flax)."""
import itertools

import numpy as np

from vlib import wx
from vlib.harness import check_equiv

BOUNDS = ("maxlen 1..6 (quick) / 1..8 (thorough), downsampling factors 1..3 (quick) / 1..4, 14 (quick) / 22 (thorough) steps, 104 (quick) / 154 steps (52 with sketching) for the long level of the "
          "hierarchical buffer; quantiles of windows of up to 3 (quick) / 4 (thorough) values with missing ones; sketches of up to 3 rows and 5 "
          "buckets from an arbitrary state; all data symbolic")
ASSUMPTIONS = [
    "data movement (none, downsample, hierarchical) bit for bit; EWMA and quantiles over exact reals with NaN flags, quantile order decided for all orderings",
    "the modules are stepped outside jit (their schedule counters are Python integers); inputs are scalars (vectors for none/downsample)",
]
META = dict(
    title="Compressed and hierarchical buffers hold exactly the promised samples",
    statement="CompressedBuffer: 'none' returns the last maxlen inputs, oldest first, fill_value before; 'ewma' returns EWMA(alpha) of the inputs; "
    "'downsample' returns, at every step, the last max(1, maxlen//factor) of the inputs number 0, factor, 2*factor..., oldest first, fill_value before; "
    "'quantile' returns the linearly interpolated percentiles of the non-missing values among the last min(maxlen, 1000) inputs, refreshed on "
    "the calls number 0, 10, 20..., fill_value while there are none; 'sketching' adds one to the bucket of the input in every row, so that no row ever "
    "underestimates the number of occurrences of a value, and returns the minimum over the rows. HierarchicalBuffer returns the input, the last recent_maxlen inputs, and "
    "the content of a medium and a long CompressedBuffer fed with every 5th and every 50th input, unchanged in between. streaming_compressed_memory and "
    "streaming_hierarchical_memory pass that content and the arguments to the decorated function.",
    over=["inputs", "histories", "configurations"],
    quant="all inputs with missing values, histories, sizes and factors within the bound",
    why="tests check lengths, finiteness and monotonicity on one increasing sequence",
    files=["src/wax/flax/modules/compressed_buffer.py", "src/wax/flax/modules/buffer.py"],
    mech=[("CompressedBuffer, HierarchicalBuffer, streaming_compressed_memory, streaming_hierarchical_memory", "src/wax/flax/modules/compressed_buffer.py")],
)


def tasks(tier):
    q = tier == "quick"
    n = 14 if q else 22
    out = []
    for ml in (1, 3, 5) if q else (1, 2, 3, 5, 8):
        out.append(dict(name=f"none-{ml}", fn="t_none", kw=dict(ml=ml, n=min(n, 2 * ml + 3))))
    for ml, f in itertools.product((1, 4, 6) if q else (1, 2, 4, 5, 6, 8), (1, 2, 3) if q else (1, 2, 3, 4)):
        out.append(dict(name=f"downsample-{ml}-{f}", fn="t_down", kw=dict(ml=ml, f=f, n=n)))
    out.append(dict(name="downsample-vector", fn="t_down", kw=dict(ml=4, f=2, n=7, shape=[2])))
    out.append(dict(name="downsample-default", fn="t_down", kw=dict(ml=6, f=None, n=9)))
    out.append(dict(name="ewma", fn="t_ewma", kw=dict(n=3 if q else 5)))
    for ml, ps in [(1, [0.5]), (2, [0.25, 0.75]), (3, [0.0, 0.5, 1.0]), (3, [0.1, 0.9])] + ([] if q else [(4, [0.25, 0.5]), (4, [0.125, 0.75])]):
        out.append(dict(name=f"quantile-{ml}-{'-'.join(map(str, ps))}", fn="t_quantile", kw=dict(ml=ml, ps=ps, n=12)))
    out.append(dict(name="quantile-default", fn="t_quantile", kw=dict(ml=2, ps=None, n=12)))
    for h, b in ((1, 3), (2, 4), (3, 5)):
        out.append(dict(name=f"sketch-{h}-{b}", fn="t_sketch", kw=dict(h=h, b=b)))
    for m, l in (("ewma", "none"), ("downsample", "ewma"), ("none", "downsample"), ("quantile", "none"), ("sketching", "downsample"), ("none", "quantile"),
                 ("downsample", "none"), ("none", "ewma")):
        out.append(dict(name=f"hier-{m}-{l}", fn="t_hier", kw=dict(m=m, l=l, n=12 if "quantile" in (m, l) or ("ewma" in (m, l) and m != "none") else 52 if m == "sketching" else 104 if q else 154)))
    out += [dict(name="decorators", fn="t_decorators")]
    return out


def stack(vs):
    import jax.numpy as jnp

    return jnp.stack(vs)


def window(vals, k, fill):
    """last k of vals, oldest first, padded in front"""
    import jax.numpy as jnp

    pad = jnp.full(vals[0].shape, fill, vals[0].dtype)
    vals = list(vals)[-k:]
    return jnp.stack([pad] * (k - len(vals)) + vals)


def run(module, x):
    return wx.fx_steps(module, x)


def equal(T, label, inputs, impl, ref, floats, what, **kw):
    check_equiv(T, label, inputs, impl, lambda I, **k: I.call(lambda q: ref(**q), k), floats=floats, validate=1, what=what, **kw)


def t_none(T, ml, n):
    from wax.flax.modules.compressed_buffer import CompressedBuffer

    for shape, fill in (((), None), ((2,), 7.5), ((), float("nan"))):
        kw = {} if fill is None else dict(fill_value=fill)
        fv = 0.0 if fill is None else fill
        equal(T, f"none maxlen={ml} shape={shape} fill={fill}", lambda I: dict(x=I.sym("x", (n, *shape), nan=True)),
              lambda x: run(CompressedBuffer(maxlen=ml, compression="none", **kw), x),
              lambda x: [window([x[i] for i in range(t + 1)], ml, fv) for t in range(n)], "fp", "uncompressed buffer differs from the last inputs")


def t_down(T, ml, f, n, shape=()):
    from wax.flax.modules.compressed_buffer import CompressedBuffer

    shape = tuple(shape)
    for fill in (None, float("nan"), -2.0):
        kw = {} if fill is None else dict(fill_value=fill)
        if f is not None:
            kw["compression_params"] = {"factor": f}
        ff = f or 2
        fv = 0.0 if fill is None else fill
        equal(T, f"downsample maxlen={ml} factor={f} fill={fill}", lambda I: dict(x=I.sym("x", (n, *shape), nan=True)),
              lambda x: run(CompressedBuffer(maxlen=ml, compression="downsample", **kw), x),
              lambda x: [window([x[i] for i in range(0, t + 1, ff)], max(1, ml // ff), fv) for t in range(n)], "fp",
              "downsampled buffer does not hold every factor-th input in order")


def t_ewma(T, n):
    from wax.flax.modules import EWMA
    from wax.flax.modules.compressed_buffer import CompressedBuffer

    for alpha, kw in ((0.1, {}), (0.25, dict(compression_params={"alpha": 0.25})), (0.5, dict(compression_params={"alpha": 0.5}))):
        equal(T, f"ewma alpha={alpha}", lambda I: dict(x=I.sym("x", (n,), nan=True)),
              lambda x: run(CompressedBuffer(maxlen=10, compression="ewma", **kw), x), lambda x: run(EWMA(alpha=alpha), x), "real",
              "ewma compression differs from EWMA")


def quantiles(vals, ps):
    """Percentiles of the non-missing values (all NaN if none): order statistics through pairwise ranks."""
    import jax.numpy as jnp

    v = jnp.stack(vals)
    k = len(vals)
    ok = ~jnp.isnan(v)
    n = jnp.sum(ok.astype(jnp.int32))
    less = (v[None, :] < v[:, None]) | ((v[None, :] == v[:, None]) & (np.arange(k)[None, :] < np.arange(k)[:, None]))
    rank = jnp.sum((less & ok[None, :]).astype(jnp.int32), axis=1)
    order = [jnp.sum(jnp.where(ok & (rank == r), v, 0.0)) for r in range(k)]
    out = []
    for p in ps:
        res = jnp.float32(np.nan)
        for m in range(1, k + 1):
            i = float(np.float32(p)) * (m - 1)  # the percentile is a float32
            lo, hi = int(np.floor(i)), int(np.ceil(i))
            w = np.float32(i - lo)
            assert float(w) == i - lo
            res = jnp.where(n == m, order[lo] + (order[hi] - order[lo]) * w, res)
        out.append(res)
    return jnp.stack(out)


def quantile_ref(x, ml, ps, n, fill=0.0):
    import jax.numpy as jnp

    cur, outs = jnp.full((len(ps),), fill), []
    for t in range(n):
        if t % 10 == 0:
            q = quantiles([x[i] for i in range(max(0, t + 1 - min(ml, 1000)), t + 1)], ps)
            cur = jnp.where(jnp.isnan(q), cur, q)
        outs.append(cur)
    return outs


def t_quantile(T, ml, ps, n):
    from wax.flax.modules.compressed_buffer import CompressedBuffer

    kw = {} if ps is None else dict(compression_params={"percentiles": ps})
    pp = [0.1, 0.25, 0.5, 0.75, 0.9] if ps is None else ps
    for fill in (0.0, -3.5) if ml < 3 else (0.0,):
        equal(T, f"quantile maxlen={ml} percentiles={ps} fill={fill}", lambda I: dict(x=I.sym("x", (n,), nan=True)),
              lambda x: run(CompressedBuffer(maxlen=ml, compression="quantile", fill_value=fill, **kw), x),
              lambda x: quantile_ref(x, ml, pp, n, fill), "real", "quantiles are not those of the non-missing values of the window", timeout=60000)
    # more slots than samples: unfilled slots are no data
    equal(T, f"quantile partly filled percentiles={ps}", lambda I: dict(x=I.sym("x", (2,), nan=True)),
          lambda x: run(CompressedBuffer(maxlen=ml + 2, compression="quantile", **kw), x), lambda x: quantile_ref(x, ml + 2, pp, 2), "real",
          "quantiles of a partly filled window count unfilled slots")


def t_sketch(T, h, b):
    """One step from an arbitrary sketch; the buckets are those of the module's own hash (linear congruence of the scaled input)."""
    import jax
    import jax.numpy as jnp

    from wax.flax.modules.compressed_buffer import CompressedBuffer

    mod = CompressedBuffer(maxlen=10, compression="sketching", compression_params={"num_hashes": h, "num_buckets": b})
    v0 = jax.tree_util.tree_map(np.asarray, mod.init(jax.random.PRNGKey(0), np.float32(0)))
    hp = np.asarray(v0["state"]["hash_params"])
    n = 3

    def buckets(x):
        xi = jnp.int32(x * 1000)
        return [(int(hp[i][0]) * xi + int(hp[i][1])) % b for i in range(h)]

    def inputs(I):
        return dict(x=I.sym("x", (n,), nan=False), s=I.sym("s", (h, b), nan=False))

    def assume(I, x, s):
        from vlib.z3load import z3

        return [z3.And(f.r >= -40, f.r <= 40) for f in x.a.reshape(-1)]

    def impl(x, s):
        st = {"sketch": s, "hash_params": hp}
        outs = []
        for t in range(n):
            o, nv = mod.apply({"state": st}, x[t], mutable=True)
            st = nv["state"]
            outs.append([o, st["sketch"]])
        return outs

    def ref(x, s):
        outs = []
        for t in range(n):
            for i, k in enumerate(buckets(x[t])):
                s = s.at[i].add(jnp.where(np.arange(b) == k, 1.0, 0.0))
            outs.append([jnp.min(s, axis=0), s])
        return outs

    def sample(rng):
        return dict(x=rng.integers(-300, 300, n).astype(np.float32) / 8, s=rng.integers(0, 5, (h, b)).astype(np.float32))

    equal(T, f"sketch rows={h} buckets={b}", inputs, impl, ref, "real", "sketch does not count the input once per row", assume=assume, sample_gen=sample)
    T.obligations += 1
    if np.array_equal(v0["state"]["sketch"].sum(axis=1), np.ones(h)):
        T.discharged += 1
    else:
        T.violations.append(dict(what="the first element is not counted once per row", task=T.name, label="init", inputs="0.0",
                                 mismatch=dict(rows=v0["state"]["sketch"].sum(axis=1).tolist())))


def level(kind, x, ml, idx, alpha, at):
    """Content of a level at step `at`, fed with inputs number idx."""
    import jax.numpy as jnp

    from wax.flax.modules import EWMA

    fed = [x[i] for i in idx if i <= at]
    if kind == "none":
        return window(fed, ml, 0.0)
    if kind == "downsample":
        return window(fed[::2], max(1, ml // 2), 0.0)
    if kind == "ewma":
        return run(EWMA(alpha=alpha), jnp.stack(fed))[-1]
    if kind == "quantile":
        return quantile_ref(jnp.stack(fed), ml, [0.1, 0.25, 0.5, 0.75, 0.9], len(fed))[-1]
    raise ValueError(kind)


def t_hier(T, m, l, n):
    import jax.numpy as jnp

    from wax.flax.modules.compressed_buffer import CompressedBuffer, HierarchicalBuffer

    real = {m, l} & {"ewma", "quantile", "sketching"}
    steps = list(range(n)) if n <= 15 else [t for t in (0, 1, 4, 5, 6, 10, 24, 26, 49, 50, 51, 76, 99, 100, 101, 149, 150, 151) if t < n]

    def impl(x):
        o = run(HierarchicalBuffer(recent_maxlen=3, medium_maxlen=4, long_maxlen=2, medium_compression=m, long_compression=l), x)
        return [{k: o[t][k] for k in ("recent", "medium", "long", "input")} for t in steps]

    def ref(x):
        outs = []
        for t in steps:
            if m == "sketching":
                fed = jnp.stack([x[i] for i in range(0, t + 1, 5)])
                med = run(CompressedBuffer(maxlen=4, compression="sketching"), fed)[-1]
            else:
                med = level(m, x, 4, range(0, n, 5), 0.1, t)
            outs.append(dict(recent=window([x[i] for i in range(t + 1)], 3, 0.0), medium=med, long=level(l, x, 2, range(0, n, 50), 0.01, t), input=x[t]))
        return outs

    if m == "sketching":  # 1024 buckets: concrete samples at the fed steps, symbolic elsewhere
        conc = {0: 0.125, 5: -3.5, 10: 0.125, 15: 4.0, 20: 1.0, 25: 2.0, 30: -3.5, 35: 0.5, 40: 8.0, 45: 9.0, 50: 0.125}

        def put(x):
            return jnp.stack([jnp.float32(conc[i]) if i in conc else x[i] for i in range(n)])

        impl0, ref0 = impl, ref
        impl, ref = (lambda x: impl0(put(x))), (lambda x: ref0(put(x)))
    equal(T, f"hierarchical medium={m} long={l}", lambda I: dict(x=I.sym("x", (n,), nan=m != "sketching")), impl, ref, "real" if real else "fp",
          "a level of the hierarchical buffer does not hold its samples", timeout=60000)


def t_decorators(T):
    import jax
    import jax.numpy as jnp

    from wax.flax.modules.compressed_buffer import streaming_compressed_memory, streaming_hierarchical_memory

    n = 6

    def drive(st, x, y):
        p, s = st.init(jax.random.PRNGKey(0), x[0], y[0])
        outs = []
        for t in range(1, n):
            o, s = st.apply(p, s, None, x[t], y[t])
            outs.append(o)
        return outs

    def impl(x, y):
        a = drive(streaming_compressed_memory(maxlen=3, compression="none")(lambda buf, u, v: [buf, u, v]), x, y)
        b = drive(streaming_compressed_memory(maxlen=4, compression="downsample", compression_params={"factor": 2})(lambda buf, u, v: [buf, u, v]), x, y)
        c = drive(streaming_hierarchical_memory(recent_maxlen=2, medium_maxlen=4, long_maxlen=3, medium_compression="downsample", long_compression="none")(
            lambda lev, u, v: [{k: lev[k] for k in ("recent", "medium", "long", "input")}, u, v]), x, y)
        return dict(a=a, b=b, c=c)

    def ref(x, y):
        W = lambda k, t, step=1: window([x[i] for i in range(0, t + 1, step)], k, 0.0)
        r = range(1, n)
        return dict(a=[[W(3, t), x[t], y[t]] for t in r], b=[[W(2, t, 2), x[t], y[t]] for t in r],
                    c=[[dict(recent=W(2, t), medium=window([x[i] for i in range(0, t + 1, 5)][::2], 2, 0.0), long=W(3, t, 50), input=x[t]), x[t], y[t]] for t in r])

    equal(T, "decorators", lambda I: dict(x=I.sym("x", (n,), nan=True), y=I.sym("y", (n,), nan=True)), impl, ref, "fp",
          "decorated function does not receive the buffer content and its arguments")


