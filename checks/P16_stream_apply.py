"""P16: applying a module on a stream == applying it on the observations selected by the synchronisation rules."""
import itertools

import numpy as np

from vlib.dom import Unsupported
from vlib.harness import check_equiv

from checks.P14_stream_sync import DAY, spec_np

BOUNDS = (
    "3 local steps, one secondary stream of 3 observations in all 20 strict interleavings plus ties; no ffill/ffill, no buffer/buffer of 2, "
    "day embedding; scalar, vector and matrix observations of float, int, uint and bool type, static variables of rank 0-2; all data values symbolic"
)
ASSUMPTIONS = [
    "interleavings are enumerated, data values are symbolic: they enter the traced program as the arrays captured from the Dataset, "
    "recognised in the jaxpr by sentinel values",
    "JAX in its default 32-bit mode (float64 data rounded to float32) and, in one task, in 64-bit mode",
]
META = dict(
    title="Unrolling a module on a stream == feeding it the synchronised observations",
    statement="Dataset.stream(...).apply(module) (and Stream.prepare) gives exactly the outputs and final state obtained by feeding the module, "
    "step by step in local time, a dict with: local variables at that step; secondary variables at their synchronised index (window of "
    "observations when buffered) with the documented missing value (NaN, -99999, 0, False) where nothing is available; variables without "
    "time dimension entirely and unchanged at every step. skip_first drops exactly the first step. DataArray.stream feeds the bare array. "
    "unroll_stream stacks each leaf of a generator in order.",
    over=["inputs", "configurations", "histories"],
    quant="all data values, shapes and types; all interleavings at the stated size; all modules",
    why="tests use one dataset with one local and two secondary time scales",
    files=["src/wax/stream.py", "src/wax/accessors.py", "src/wax/encode.py", "src/wax/unroll.py"],
    mech=[("Stream.prepare, trace_dataset, get_dataset_index, tree_access_data, unroll_stream", "src/wax/stream.py"),
          ("StreamDataset/StreamDataArray.apply", "src/wax/accessors.py")],
)

H = 3600 * 10**9


def patterns(n, m):
    """All strict interleavings of n local and m secondary times (as ns), a tie and a day crossing."""
    out = []
    for pos in itertools.combinations(range(n + m), n):
        t = [(p + 1) * H for p in pos]
        s = [(p + 1) * H for p in range(n + m) if p not in pos]
        out.append((t, s, False))
    out.append(([H, 2 * H, 3 * H][:n], [H, 2 * H, 3 * H][:m], False))
    d = 24 * H
    out.append(([d + H, d + 2 * H, 2 * d][:n], [H, d, d + H][:m], True))
    out.append(([H, d + H, 3 * d + H][:n], [2 * H, d + H, 2 * d][:m], True))
    return out


def tasks(tier):
    q = tier == "quick"
    out = []
    pats = patterns(3, 3)
    step = 6
    for ffill, ml in itertools.product((False, True), (0, 2)):
        for i in range(0, len(pats), step):
            out.append(dict(name=f"apply-ffill{int(ffill)}-buf{ml}-{i}", fn="t_apply", kw=dict(ids=list(range(i, min(i + step, len(pats)))), ffill=ffill, ml=ml)))
    out += [dict(name="single", fn="t_single"), dict(name="single64", fn="t_single", x64=True), dict(name="dataarray", fn="t_dataarray"),
            dict(name="static", fn="t_static"), dict(name="strings", fn="t_strings"), dict(name="unroll-stream", fn="t_unroll_stream"),
            dict(name="strings2d", fn="t_strings2d")]
    if not q:
        pats = patterns(4, 4)
        for ffill, ml in itertools.product((False, True), (0, 1, 2, 3)):
            for i in range(0, len(pats), 8):
                out.append(dict(name=f"apply4-ffill{int(ffill)}-buf{ml}-{i}", fn="t_apply",
                                kw=dict(ids=list(range(i, min(i + 8, len(pats)))), ffill=ffill, ml=ml, n=4)))
    return out


MISSING = {"f": np.nan, "i": -99999, "u": 0, "b": False}


class Data:
    """Named variables: sentinel arrays for the Dataset, symbols for the solver."""

    def __init__(self, spec, x64=False):
        self.spec = spec  # name -> (dims, shape, dtype)
        self.arr = {}
        for i, (k, (dims, shape, dt)) in enumerate(spec.items()):
            size = int(np.prod(shape))
            dt = np.dtype(dt)
            if dt.kind == "b":
                a = np.array([(j * j + i) % 3 == 1 for j in range(size)])
            else:
                a = np.arange(size) + 1000 * (i + 1) + (0.25 if dt.kind == "f" else 0)
            self.arr[k] = a.reshape(shape).astype(dt)
        self.x64 = x64

    def jdt(self, dt):
        dt = np.dtype(dt)
        if self.x64:
            return dt
        return {"float64": np.dtype("float32"), "int64": np.dtype("int32")}.get(dt.name, dt)

    def syms(self, I):
        out = {}
        for k, (dims, shape, dt) in self.spec.items():
            out[k] = I.sym(k, shape, self.jdt(dt), nan=True, inf=I.floats == "fp")
            I.sentinels.append((self.arr[k].astype(self.jdt(dt)), out[k]))
        return out

    def dataset(self, arrays, coords):
        import xarray as xr

        return xr.Dataset({k: (dims, np.asarray(arrays[k]).astype(dt)) for k, (dims, shape, dt) in self.spec.items()}, coords=coords)


def opaque(d):
    """A stateful module: passes its observation through and updates a state with every float variable."""
    import haiku as hk
    import jax.numpy as jnp

    acc = hk.get_state("acc", [], init=lambda *a: jnp.zeros((), jnp.float32))
    v = acc
    for k in sorted(d):
        if jnp.issubdtype(d[k].dtype, jnp.floating):
            v = jnp.sin(v + jnp.sum(jnp.asarray(d[k], jnp.float32)))
    hk.set_state("acc", v)
    return d, v


def obs_at(I, ins, dims_of, idx, i):
    """Expected dict of observations at local step i (through I.call on symbolic data)."""
    import jax.numpy as jnp

    out = {}
    for k, x in ins.items():
        ix = idx.get(k)
        if ix is None:
            out[k] = x
        else:
            out[k] = ("sel", ix[i])
    return out


def reference(I, ins, idx, n, skip, module=opaque):
    """Plain loop of the module over the expected observations, traced and interpreted."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    def sel(x, ix):
        miss = MISSING[np.dtype(x.dtype).kind]
        if isinstance(ix, list):
            return jnp.stack([sel(x, j) for j in ix])
        return x[ix] if ix >= 0 else jnp.full(x.shape[1:], miss, x.dtype)

    def fn(kw):
        f = hk.transform_with_state(module)

        def at(i):
            return {k: (x if idx.get(k) is None else sel(x, idx[k][i])) for k, x in kw.items()}

        p, s = f.init(None, at(0))
        outs = []
        for i in range(int(skip), n):
            o, s = f.apply(p, s, None, at(i))
            outs.append(o)
        return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs), dict(s)

    return I.call(fn, ins)


def strip(st):
    return {k: dict(v) for k, v in st.items()}


def run_check(T, label, D, coords, kw, idx, n, skip=False, floats="real", da=None, module=opaque):
    """Accessor apply (format_outputs=False) and prepare+init+apply versus the reference loop."""
    from wax.accessors import register_wax_accessors
    from wax.stream import Stream

    register_wax_accessors()

    def run(arrays):
        ds = D.dataset(arrays, coords)
        obj = ds if da is None else ds[da]
        st = obj.wax.stream(**kw, format_outputs=False)
        o, s = st.apply(module, skip_first=skip)
        out = [o, strip(s)]
        if da is None:
            g, xs = Stream(**kw).prepare(ds, module, skip_first=skip)
            p, s = g.init(None, xs)
            o, s = g.apply(p, s, None, xs)
            out += [o, strip(s)]
        return out

    def ref(I, **ins):
        if not {id(v) for v in ins.values()} <= I.sentinel_hits and I.sentinels:
            raise Unsupported(f"data arrays {[k for k, v in ins.items() if id(v) not in I.sentinel_hits]} were not found in the traced program")
        if da is not None:
            r = reference(I, ins, idx, n, skip, module=lambda d: module(d[da]))
            return [*r]
        r = reference(I, ins, idx, n, skip, module=module)
        return [*r, *r]

    check_equiv(T, label, lambda I: D.syms(I), lambda **k: run(D.arr), ref, floats=floats, real=lambda **k: run(k), validate=1,
                what="stream unroll differs from feeding the synchronised observations", goal_assume=None)


FULL = dict(
    x=(("t",), None, "float32"), x2=(("t", "c"), (2,), "float64"), y=(("s",), None, "float64"), y2=(("s", "c"), (2,), "float32"),
    yi=(("s",), None, "int64"), yu=(("s", "c"), (2,), "uint32"), yb=(("s",), None, "bool"), z=(("q", "c"), (4, 2), "float32"),
    w=(("q",), (4,), "int32"),
)


def build(n, m, extra=()):
    out = {}
    for k, (dims, shape, dt) in FULL.items():
        if dims[0] in ("t", "s"):
            shape = ({"t": n, "s": m}[dims[0]], *(shape or ()))
        out[k] = (dims, shape, dt)
    return out


def t_apply(T, ids, ffill, ml, n=3):
    T.bounds = dict(n=n, patterns=len(ids), ffill=ffill, maxlen=ml)
    pats = patterns(n, n)
    for i in ids:
        t, s, freq = pats[i]
        D = Data(build(n, n))
        coords = {"t": np.array(t, "datetime64[ns]"), "s": np.array(s, "datetime64[ns]")}
        kw = dict(local_time="t", ffills={"s": True} if ffill else {}, freqs={"s": "d"} if freq else {}, buffer_maxlen={"s": ml} if ml else {})
        si = spec_np(t, s, ffill, freq, ml or None)
        idx = {k: (list(range(n)) if d[0] == "t" else si if d[0] == "s" else None) for k, (d, _, _) in D.spec.items()}
        run_check(T, f"t={t} s={s} freq={freq} ffill={ffill} maxlen={ml}", D, coords, kw, idx, n, skip=i % 2 == 1)
        if T.violations:
            return


def t_single(T):
    import jax

    x64 = bool(jax.config.jax_enable_x64)
    for n, skip in ((2, False), (4, False), (4, True)):
        D = Data(dict(a=(("time",), (n,), "float32"), b=(("time", "c"), (n, 3), "float64"), i=(("time",), (n,), "int64"),
                      g=(("c", "e"), (3, 2), "float32")), x64)
        coords = {"time": np.array([H * (k + 1) for k in range(n)], "datetime64[ns]")}
        idx = {"a": list(range(n)), "b": list(range(n)), "i": list(range(n)), "g": None}
        run_check(T, f"single n={n} skip={skip}", D, coords, {}, idx, n, skip)
        if T.violations:
            return


def t_dataarray(T):
    import haiku as hk
    import jax.numpy as jnp

    def module(x):
        acc = hk.get_state("acc", [], init=lambda *a: jnp.zeros((), jnp.float32))
        v = jnp.sin(acc + jnp.sum(x))
        hk.set_state("acc", v)
        return x, v

    for n, skip, shape in itertools.product((2, 4), (False, True), ((), (3,))):
        D = Data(dict(a=(("time", "c")[: 1 + len(shape)], (n, *shape), "float32")))
        coords = {"time": np.array([H * (k + 1) for k in range(n)], "datetime64[ns]")}
        run_check(T, f"dataarray n={n} skip={skip} shape={shape}", D, coords, {}, {"a": list(range(n))}, n, skip, da="a", module=module)
        if T.violations:
            return


def t_static(T):
    """Variables without time dimension, rank 0 to 2, next to one or two time scales."""
    n = 3
    for two in (False, True):
        sp = dict(a=(("t",), (n,), "float32"), k=((), (), "float32"), v=(("c",), (2,), "float32"), w=(("e", "c"), (5, 2), "float32"),
                  u=(("c1",), (1,), "float32"), ki=((), (), "int32"))
        coords = {"t": np.array([H, 2 * H, 3 * H], "datetime64[ns]")}
        kw = dict(local_time="t")
        idx = {"a": list(range(n))}
        if two:
            sp["y"] = (("s",), (2,), "float32")
            coords["s"] = np.array([H, 2 * H], "datetime64[ns]")
            idx["y"] = [-1, 0, 1]
        run_check(T, f"static two={two}", Data(sp), coords, kw, idx, n)


def strings_ds(arr, dims=("t", "c")):
    import xarray as xr

    n = 3
    t = np.array([H, 2 * H, 3 * H], "datetime64[ns]")
    s = np.array([H // 2, H + 1], "datetime64[ns]")
    return xr.Dataset({"x": ("t", np.array(arr["x"], "float32")), "name": ("t", np.array(["b", "a", "b"])), "sname": ("s", np.array(["z", "y"])),
                       "when": ("t", t + np.timedelta64(5, "ns")), "old": ("s", s)}, coords={"t": t, "s": s}), n


def t_strings(T):
    """String and datetime variables travel as codes that decode to the right elements; -missing- has code of the init value."""
    from wax.accessors import register_wax_accessors
    from wax.encode import encode_datetime64

    register_wax_accessors()
    x = np.array([1000.25, 1001.25, 1002.25], "float32")

    def inputs(I):
        v = I.sym("x", (3,), nan=True)
        I.sentinels.append((x, v))
        return dict(x=v)

    def run(arr):
        ds, n = strings_ds(arr)
        return ds.wax.stream(local_time="t", ffills={"s": True}, format_outputs=False).apply(lambda d: d)[0]

    def ref(I, x):
        ds, n = strings_ds(dict(x=np.zeros(3)))
        enc = lambda ts: np.stack([encode_datetime64(v) for v in ts])
        return dict(x=x, name=np.array([1, 0, 1]), sname=np.array([1, 0, 0]), when=enc(ds.when.values), old=enc(ds.old.values[[0, 1, 1]]))

    check_equiv(T, "strings", inputs, lambda **k: run(dict(x=x)), ref, real=lambda **k: run(k), validate=1)


def t_strings2d(T):
    """String variables of rank 2: each step must deliver the codes of its own row."""
    import xarray as xr
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    x = np.array([1000.25, 1001.25, 1002.25], "float32")
    names = np.array([["b", "a"], ["c", "a"], ["d", "b"]])

    def inputs(I):
        v = I.sym("x", (3,), nan=True)
        I.sentinels.append((x, v))
        return dict(x=v)

    def run(arr):
        t = np.array([H, 2 * H, 3 * H], "datetime64[ns]")
        ds = xr.Dataset({"x": ("t", np.array(arr["x"], "float32")), "name": (("t", "c"), names)}, coords={"t": t})
        return ds.wax.stream(format_outputs=False).apply(lambda d: d)[0]

    def ref(I, x):
        return dict(x=x, name=np.unique(names, return_inverse=True)[1].reshape(names.shape))

    check_equiv(T, "strings2d", inputs, lambda **k: run(dict(x=x)), ref, real=lambda **k: run(k), validate=1,
                what="rank-2 string variable: the codes delivered at a step are not those of its row")


def t_unroll_stream(T):
    """unroll_stream stacks the leaves of any generator in order (concrete structure, host code: leaves are opaque rows)."""
    import z3

    from vlib.pysym import SReal
    from vlib.dom import F, f_same
    import vlib.dom as dom
    import wax.stream as ws

    T.functions.add("wax/stream.py:unroll_stream")
    for n, skip in itertools.product((1, 2, 4), (False, True)):
        rows = [dict(a=[F(z3.Real(f"a{i}_{j}")) for j in range(2)], b=F(z3.Real(f"b{i}")), c=(F(z3.Real(f"c{i}")),)) for i in range(n)]

        def gen():
            for r in rows:
                v = np.empty(2, dtype=object)
                v[:] = [SReal(f) for f in r["a"]]
                w = np.empty((), dtype=object)
                w[()] = SReal(r["b"])
                u = np.empty((1,), dtype=object)
                u[0] = SReal(r["c"][0])
                yield dict(a=v, b=w, c=(u,))

        T.obligations += 1
        T.states += 1
        if n == 1 and skip:
            T.obligations -= 1
            continue
        res = ws.unroll_stream(gen(), skip_first=skip, pbar=False)
        k = n - int(skip)
        bad = []
        ok = np.shape(res["a"]) == (k, 2) and np.shape(res["b"]) == (k,) and np.shape(res["c"][0]) == (k, 1)
        if ok:
            for i in range(k):
                r = rows[i + int(skip)]
                for j in range(2):
                    bad.append(dom.b_not(f_same(res["a"][i, j].f, r["a"][j])))
                bad.append(dom.b_not(f_same(res["b"][i].f, r["b"])))
                bad.append(dom.b_not(f_same(res["c"][0][i, 0].f, r["c"][0])))
            rr, md = T.solve([dom.to_z3_bool(dom.b_or(*bad))])
            ok = rr == z3.unsat
        if ok:
            T.discharged += 1
        else:
            data = [dict(a=np.arange(2) + 10 * i, b=np.array(100 + i), c=(np.array([200 + i]),)) for i in range(n)]
            res = ws.unroll_stream(iter(data), skip_first=skip, pbar=False)
            exp = data[int(skip):]
            same = (np.array_equal(res["a"], np.stack([d["a"] for d in exp])) and np.array_equal(res["b"], np.stack([d["b"] for d in exp]))
                    and np.array_equal(res["c"][0], np.stack([d["c"][0] for d in exp])))
            if same:
                T.spurious.append(f"unroll_stream n={n} skip={skip}")
            else:
                T.violations.append(dict(what="unroll_stream does not stack the observations in order", task=T.name, label=f"n={n} skip={skip}",
                                         actual={k: np.asarray(v).tolist() for k, v in res.items() if k != "c"}))
                return
