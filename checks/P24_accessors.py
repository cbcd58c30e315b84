"""P24: stream/ewm accessors and format: outputs carry, at each label, the value computed for that label."""
import contextlib
import itertools

import numpy as np

from vlib.dom import Unsupported
from vlib.harness import check_equiv

BOUNDS = (
    "DataFrame (flat, MultiIndex columns, MultiIndex index, complete and incomplete products), Series (flat and MultiIndex), DataArray of rank "
    "1-3, Dataset with one or two time scales; 3-4 time steps, 1-3 labels per further dimension; missing patterns none/one cell/one column/one "
    "time step/first step; all data values symbolic; module outputs of full rank, reduced rank and nested"
)
ASSUMPTIONS = [
    "labels, index structure and missing pattern are enumerated, data values are symbolic: they enter the traced program as the arrays captured "
    "from the container, recognised by sentinel values",
    "the accessors are executed at trace time: converting a traced output to numpy gives an object array of opaque tokens, one per element, "
    "which xarray/pandas move; the token found at each label is the value compared (host code that would compute on tokens is undecided)",
    "time labels increasing; JAX in its default 32-bit mode",
]
META = dict(
    title="Accessors return, at every label, the value the module computed there",
    statement="df/series/dataarray/dataset `.wax.stream().apply(module)` returns (with its state when return_state) a container of the same kind "
    "holding, at each coordinate label, the value of a plain step-by-step loop of the module over the rows in time order: every time step "
    "is fed, missing values included (NaN), also for DataFrames and Series with a MultiIndex; labels, and for flat containers their order, are "
    "those of the input; outputs without the non-time dimensions are labelled by time only; nested outputs are formatted leaf by leaf "
    "(format_dims nested alike if given); skip_first drops the first step and its label; given params/state are the ones used, "
    "otherwise those of init; format_outputs=False returns the raw arrays. `.wax.ewm(...).mean()` is EWMA with the same options. "
    "format_dataarray/format_dataset/format_dataframe/format_series and (tree_)auto_format_with_shape put each element of the data "
    "at the label of its position.",
    over=["inputs", "configurations"],
    quant="all data values, missing patterns, index structures and modules",
    why="tests check a few frames of constants or random numbers with complete indexes, and compare mostly shapes",
    files=["src/wax/accessors.py", "src/wax/format.py", "src/wax/stream.py"],
    mech=[("StreamDataset/StreamDataArray/StreamDataFrame/StreamSeries.apply, ExponentialMovingWindow.mean", "src/wax/accessors.py"),
          ("format_dataarray, format_dataset, format_dataframe, format_series, auto_format_with_shape, tree_auto_format_with_shape", "src/wax/format.py")],
)

H = 3600 * 10**9


class Tok:
    """One element of a traced output."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "<element>"


@contextlib.contextmanager
def tokens():
    """Conversion of a tracer to numpy: object array of tokens."""
    import jax

    cls = jax.core.Tracer
    old = cls.__array__

    def conv(self, *a, **k):
        import jax.numpy as jnp

        out = np.empty(self.shape, dtype=object)
        flat = jnp.reshape(self, (-1,))
        for i, ix in enumerate(np.ndindex(*self.shape)):
            out[ix] = Tok(flat[i])
        return out

    cls.__array__ = conv
    try:
        yield
    finally:
        cls.__array__ = old


def norm(lab):
    import pandas as pd

    if isinstance(lab, tuple):
        return tuple(x for v in lab for x in norm(v))
    if isinstance(lab, (np.datetime64, pd.Timestamp)):
        return (int(np.datetime64(lab, "ns").astype(np.int64)),)
    if isinstance(lab, (np.integer, int)):
        return (int(lab),)
    return (str(lab),)


def cells(obj):
    """Formatted container -> list of (label tuple, element) in container order."""
    import pandas as pd
    import xarray as xr

    if isinstance(obj, pd.DataFrame):
        return [(norm(r) + norm(c), obj.iat[i, j]) for i, r in enumerate(obj.index) for j, c in enumerate(obj.columns)]
    if isinstance(obj, pd.Series):
        return [(norm(r), obj.iat[i]) for i, r in enumerate(obj.index)]
    if isinstance(obj, xr.DataArray):
        axes = [list(obj.coords[d].values) if d in obj.coords else list(range(n)) for d, n in zip(obj.dims, obj.shape)]
        return [(norm(tuple(a[i] for a, i in zip(axes, ix))), obj.values[ix]) for ix in np.ndindex(*obj.shape)]
    raise Unsupported(f"formatted output of type {type(obj).__name__}")


def table(obj, labels, kinds, ordered):
    """-> dict(codes, values): positions of the labels in `labels` (-1: unknown) and the elements, in container order (or by code)."""
    import jax.numpy as jnp

    if not isinstance(obj, kinds):
        return dict(codes=np.array([-2]), values=np.zeros(1, np.float32))
    code = {k: i for i, k in enumerate(labels)}
    cs = [(code.get(k, -1), v) for k, v in cells(obj)]
    if not ordered:
        cs.sort(key=lambda t: t[0])
    vals = [v.v if isinstance(v, Tok) else v for _, v in cs]
    if any(isinstance(v, Tok) for _, v in cs):
        stk = jnp.stack([jnp.asarray(v, jnp.float32) for v in vals])
    else:
        stk = np.asarray(vals, np.float32)
    return dict(codes=np.array([c for c, _ in cs]), values=stk)


def expect(values, labels):
    """Same form for the expectation: values (n labels, already flattened in label order)."""
    return dict(codes=np.arange(len(labels)), values=values)


# --------------------------------------------------------------------------- modules (vector -> pytree)
def mod_full(x):
    import haiku as hk
    import jax.numpy as jnp

    acc = hk.get_state("acc", [], init=lambda *a: jnp.zeros((), jnp.float32))
    v = jnp.sin(acc + jnp.sum(jnp.where(jnp.isnan(x), 7.0, x) * jnp.arange(1, x.size + 1).reshape(x.shape)))
    hk.set_state("acc", v)
    return x + v


def mod_reduced(x):
    import jax.numpy as jnp

    v = mod_full(x)
    return jnp.sum(jnp.where(jnp.isnan(v), 3.0, v))


def mod_nested(x):
    return {"a": mod_full(x), "b": (2 * x, [x - 1])}


def mod_param(x):
    import haiku as hk
    import jax.numpy as jnp

    w = hk.get_parameter("w", [], init=lambda *a: jnp.full((), 2.0, jnp.float32))
    acc = hk.get_state("acc", [], init=lambda *a: jnp.zeros((), jnp.float32))
    acc = jnp.sin(acc + w * jnp.sum(jnp.where(jnp.isnan(x), 7.0, x)))
    hk.set_state("acc", acc)
    return x * w + acc


MODS = dict(full=mod_full, reduced=mod_reduced, nested=mod_nested, param=mod_param)


def tree_cat(t):
    import jax

    return jax.tree_util.tree_map(lambda v: v.reshape(-1), t)


# --------------------------------------------------------------------------- cases
class Case:
    """A container with cube semantics: dims with labels; `cell` says which cube cells hold data (others are missing)."""

    def __init__(self, name, axes, make, kinds, reduced_kinds, ordered=True, present=None, index_nlevels=1):
        self.name, self.axes, self.make, self.kinds, self.reduced_kinds = name, axes, make, kinds, reduced_kinds
        self.ordered, self.present, self.index_nlevels = ordered, present, index_nlevels
        self.shape = tuple(len(a) for a in axes)

    def mask(self):
        m = np.zeros(self.shape, bool)
        if self.present is None:
            m[...] = True
        else:
            for ix in self.present:
                m[ix] = True
        return m

    def labels(self, rank=None, skip=False):
        axes = [list(a) for a in self.axes][: rank or len(self.axes)]
        if skip:
            axes[0] = axes[0][1:]
        return [norm(tuple(t)) for t in itertools.product(*axes)]


def times(n):
    return np.array([(3 * k + 1) * H for k in range(n)], "datetime64[ns]")


def all_cases():
    import pandas as pd
    import xarray as xr

    out = []
    t = times(3)

    def flat(cols, name=None):
        return lambda a: pd.DataFrame(a, index=pd.Index(t, name=name), columns=pd.Index(cols, name=name and "col"))

    out.append(Case("df-1", [t, ["c"]], flat(["c"]), pd.DataFrame, pd.Series))
    out.append(Case("df-3", [t, ["c", "a", "b"]], flat(["c", "a", "b"], "time"), pd.DataFrame, pd.Series))
    t4 = times(4)
    out.append(Case("df-int-cols", [t4, [7, 3]], lambda a: pd.DataFrame(a, index=t4, columns=[7, 3]), pd.DataFrame, pd.Series))

    # MultiIndex columns
    def mc(cols):
        lev0, lev1 = sorted({c[0] for c in cols}), sorted({c[1] for c in cols})
        pres = [(i, lev0.index(c[0]), lev1.index(c[1])) for i in range(3) for c in cols]

        def make(a):
            v = np.stack([a[:, lev0.index(c[0]), lev1.index(c[1])] for c in cols], 1)
            return pd.DataFrame(v, index=pd.Index(t, name="time"), columns=pd.MultiIndex.from_tuples(cols, names=["u", "v"]))

        return Case("mc-" + "".join(map("".join, cols)), [t, lev0, lev1], make, pd.DataFrame, pd.Series, ordered=False, present=pres)

    out.append(mc([("x", "p"), ("x", "q"), ("y", "p"), ("y", "q")]))
    out.append(mc([("y", "p"), ("x", "q"), ("x", "p")]))

    # MultiIndex index (time, k)
    def mi(rows, cols):
        ks = sorted({k for _, k in rows})
        pres = [(i, ks.index(k), j) for i, k in rows for j in range(len(cols))]
        scols = list(cols)

        def make(a):
            v = np.stack([[a[i, ks.index(k), j] for j in range(len(cols))] for i, k in rows])
            ix = pd.MultiIndex.from_tuples([(t[i], k) for i, k in rows], names=["time", "k"])
            return pd.DataFrame(v, index=ix, columns=pd.Index(scols, name="col"))

        return Case(f"mi-{len(rows)}-{len(cols)}", [t, ks, scols], make, pd.DataFrame, pd.Series, ordered=False, present=pres, index_nlevels=2)

    full = [(i, k) for i in range(3) for k in "uv"]
    out.append(mi(full, ["c", "a"]))
    out.append(mi([r for r in full if r not in [(1, "u"), (2, "v")]], ["a"]))

    # Series
    out.append(Case("series", [t], lambda a: pd.Series(a, index=pd.Index(t, name="time"), name="s"), pd.Series, pd.Series))

    def ms(rows):
        ks = sorted({k for _, k in rows})

        def make(a):
            ix = pd.MultiIndex.from_tuples([(t[i], k) for i, k in rows], names=["time", "k"])
            return pd.Series([a[i, ks.index(k)] for i, k in rows], index=ix)

        return Case(f"series-mi-{len(rows)}", [t, ks], make, pd.Series, pd.Series, ordered=False, present=[(i, ks.index(k)) for i, k in rows])

    out.append(ms(full))
    out.append(ms([r for r in full if r not in [(0, "v")]]))

    # DataArray
    out.append(Case("da-1", [t], lambda a: xr.DataArray(a, dims=("time",), coords={"time": t}), xr.DataArray, xr.DataArray))
    out.append(Case("da-2", [t, ["c", "a"]], lambda a: xr.DataArray(a, dims=("time", "x"), coords={"time": t, "x": ["c", "a"]}), xr.DataArray, xr.DataArray))
    out.append(Case("da-2-nocoord", [t, [0, 1]], lambda a: xr.DataArray(a, dims=("time", "x"), coords={"time": t}), xr.DataArray, xr.DataArray))
    out.append(Case("da-3", [t, ["c", "a"], [5, 4]], lambda a: xr.DataArray(a, dims=("time", "x", "y"), coords={"time": t, "x": ["c", "a"], "y": [5, 4]}),
                    xr.DataArray, xr.DataArray))
    return {c.name: c for c in out}


def patterns(case):
    """Missing patterns of the cube."""
    sh = case.shape
    out = [("none", np.zeros(sh, bool))]
    one = np.zeros(sh, bool)
    one[(1,) + (0,) * (len(sh) - 1)] = True
    row = np.zeros(sh, bool)
    row[1] = True
    first = np.zeros(sh, bool)
    first[0] = True
    col = np.zeros(sh, bool)
    if len(sh) > 1:
        col[..., 0] = True
        out.append(("col", col))
    return out + [("cell", one), ("step", row), ("first", first)]


def build(case, missing, dtype="float64"):
    """Sentinel cube (NaN where missing or absent)."""
    a = (np.arange(int(np.prod(case.shape))) + 1000.25).reshape(case.shape).astype(dtype)
    a[missing | ~case.mask()] = np.nan
    return a


def run_case(T, label, case, missing, module, apply_kw=None, stream_kw=None, rank=None, nested=None, given=(), state=True, kinds=None, post=None,
             ref_module=None):
    """One obligation family: accessor result versus the labelled reference loop."""
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    apply_kw = apply_kw or {}
    skip = apply_kw.get("skip_first", False)
    hole = missing | ~case.mask()
    sent = build(case, missing)
    labels = case.labels(rank, skip)
    kinds = kinds or (case.kinds if rank is None else case.reduced_kinds)
    flat_live = [ix for ix in np.ndindex(*case.shape) if not hole[ix]]

    def inputs(I):
        x = I.sym("x", case.shape, nan=True)
        for ix in flat_live:
            I.sentinel_elems["f", float(np.float32(sent[ix]))] = x.a[ix]
        ins = dict(x=x)
        for g in given:
            ins[g] = I.sym(g, (), nan=False)
        return ins

    def run(x, **g):
        x = np.array(x, "float64")
        x[hole] = np.nan
        kw = dict(apply_kw)
        if "p" in g:
            kw["params"] = {"~": {"w": g["p"]}}
        if "s" in g:
            kw["state"] = {"~": {"acc": g["s"]}}
        obj = case.make(x)
        with tokens():
            if post:
                res = post(obj)
            else:
                res = obj.wax.stream(return_state=state, **(stream_kw or {})).apply(module, **kw)
        out = {}
        if state:
            if not (isinstance(res, tuple) and len(res) == 2):
                return dict(structure=np.array(0))
            res, st = res
            out["state"] = {k: dict(v) for k, v in st.items()}
        if (stream_kw or {}).get("format_outputs") is False:
            out["raw"] = res
            return out
        out["out"] = jax.tree_util.tree_map(lambda leaf: table(leaf, labels, kinds, case.ordered), res, is_leaf=lambda v: isinstance(v, kinds))
        return out

    def ref(I, x, **g):
        # on sentinels: every live element must have reached the traced program
        miss = [ix for ix in flat_live if ("f", float(np.float32(sent[ix]))) not in I.sentinel_hits]
        if I.sentinel_elems and miss and not skip:
            raise Unsupported(f"elements {miss} of the data were not found in the traced program")

        def fn(kw):
            x = jnp.where(hole, jnp.float32(np.nan), kw["x"])
            f = hk.transform_with_state(ref_module or module)
            p, s = f.init(None, x[0])
            if "p" in kw:
                p = {"~": {"w": kw["p"]}}
            if "s" in kw:
                s = {"~": {"acc": kw["s"]}}
            outs = []
            for i in range(int(skip), case.shape[0]):
                o, s = f.apply(p, s, None, x[i])
                outs.append(o)
            o = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs)
            return o, {k: dict(v) for k, v in s.items()}

        o, s = I.call(fn, dict(x=x, **g))
        out = {}
        if state:
            out["state"] = s
        if (stream_kw or {}).get("format_outputs") is False:
            out["raw"] = o
        else:
            flat = I.call(tree_cat, o)
            out["out"] = jax.tree_util.tree_map(lambda v: expect(v, labels), flat)
        return out

    def real(**kw):
        return run(**kw)

    def impl(**kw):
        return run(sent, **{k: v for k, v in kw.items() if k != "x"})

    check_equiv(T, label, inputs, impl, ref, real=real, validate=1, what="accessor result differs from the labelled step-by-step loop")


def tasks(tier):
    names = ["df-1", "df-3", "df-int-cols", "mc-xpxqypyq", "mc-ypxqxp", "mi-6-2", "mi-4-1", "series", "series-mi-6", "series-mi-5", "da-1", "da-2",
             "da-2-nocoord", "da-3"]
    out = [dict(name=f"apply-{n}", fn="t_apply", kw=dict(case=n)) for n in names]
    out += [dict(name=f"options-{n}", fn="t_options", kw=dict(case=n)) for n in ("df-3", "mc-ypxqxp", "series", "da-2")]
    out += [dict(name=f"ewm-{n}", fn="t_ewm", kw=dict(case=n)) for n in ("df-3", "mc-ypxqxp", "series", "da-2")]
    out += [dict(name="dataset", fn="t_dataset"), dict(name="format", fn="t_format"), dict(name="auto-format", fn="t_auto"),
            dict(name="format-dims", fn="t_format_dims")]
    return out


def t_apply(T, case):
    c = all_cases()[case]
    T.bounds = dict(case=case, shape=list(c.shape))
    for pn, m in patterns(c):
        for mn in ("full", "reduced", "nested"):
            if mn == "nested" and pn not in ("none", "step"):
                continue
            run_case(T, f"{case} missing={pn} module={mn}", c, m, MODS[mn], rank=1 if mn == "reduced" and len(c.shape) > 1 else None)
            if T.violations:
                return


def t_options(T, case):
    c = all_cases()[case]
    z = np.zeros(c.shape, bool)
    _, step = patterns(c)[-2]
    for m, skip, state, fmt in itertools.product((z, step), (False, True), (False, True), (True, False)):
        run_case(T, f"{case} skip={skip} return_state={state} format={fmt}", c, m, mod_full, apply_kw=dict(skip_first=skip), state=state,
                 stream_kw=dict(format_outputs=fmt))
        if T.violations:
            return
    for given in ((), ("p",), ("s",), ("p", "s")):
        run_case(T, f"{case} given={given}", c, z, mod_param, given=given)
        if T.violations:
            return


def t_ewm(T, case):
    from wax.modules import EWMA

    c = all_cases()[case]
    none, step = patterns(c)[0][1], patterns(c)[-2][1]
    opts = [(dict(com=2.0), ()), (dict(alpha=0.25), ()), (dict(com=2.0, adjust=False), ()), (dict(alpha=0.25, ignore_na=True), ()),
            (dict(com=1.0, min_periods=2), ()), (dict(alpha=0.5, adjust=False, initial_value=1.0), ()), (dict(com=2.0), (2.0,))]
    for (kw, args), m in itertools.product(opts, (none, step)):
        skw = {k: v for k, v in kw.items() if not (args and k == "com")}

        def post(obj):
            return obj.wax.ewm(*args, **skw, return_state=True).mean()

        run_case(T, f"{case} ewm {kw} args={args}", c, m, None, post=post, ref_module=lambda x: EWMA(**kw)(x))
        if T.violations:
            return
    run_case(T, f"{case} ewm no state", c, none, None, post=lambda o: o.wax.ewm(com=2.0).mean(), ref_module=lambda x: EWMA(com=2.0)(x), state=False)
    run_case(T, f"{case} ewm raw", c, none, None, post=lambda o: o.wax.ewm(com=2.0, format_outputs=False).mean(), ref_module=lambda x: EWMA(com=2.0)(x),
             state=False, stream_kw=dict(format_outputs=False))


# --------------------------------------------------------------------------- Dataset
def t_dataset(T):
    import jax
    import jax.numpy as jnp
    import haiku as hk
    import xarray as xr

    from checks.P14_stream_sync import spec_np
    from checks.P16_stream_apply import Data, reference
    from wax.accessors import register_wax_accessors

    register_wax_accessors()
    n = 3
    xs = ["c", "a"]

    def two(d):
        v = mod_full(jnp.stack([d["a"][0], d["b"]]))
        return {"u": d["a"] + v[0], "w": d["a"] * 2 + d["b"]}

    def mixed(d):
        v = mod_full(d["a"])
        return {"u": v, "w": d["b"] - d["a"][1]}

    def tup(d):
        return (d["a"] + 1, [mod_full(d["a"])])

    def single(d):
        return mod_reduced(d["a"])

    tt = times(n)
    L2 = lambda skip: [norm(t) for t in itertools.product(tt[int(skip):], xs)]
    L1 = lambda skip: [norm((t,)) for t in tt[int(skip):]]
    for mod, dims, skip, sec in [
        (two, ("t", "x"), False, False), (two, ("t", "x"), True, False), (two, ("t", "x"), False, True), (two, ("t", "x"), True, True),
        (mixed, {"u": np.array(["t", "x"]), "w": np.array(["t"])}, False, False), (tup, ("t", "x"), False, False),
        (single, ("t", "x"), False, False), (single, ("t",), True, True),
    ]:
        spec = dict(a=(("t", "x"), (n, 2), "float32"), b=(("s",) if sec else ("t",), (n,), "float64"))
        D = Data(spec)
        coords = {"t": tt, "x": xs}
        idx = {"a": list(range(n)), "b": list(range(n))}
        kw = {}
        if sec:
            s = np.array([0, 5 * H, 6 * H], "datetime64[ns]")
            coords["s"] = s
            kw = dict(local_time="t", ffills={"s": True})
            idx["b"] = spec_np([int(v) for v in tt.astype(np.int64)], [int(v) for v in s.astype(np.int64)], True, False, None)

        def fmt(res):
            isds = isinstance(res, xr.Dataset)
            if isds:
                if set(res.data_vars) != {"u", "w"}:
                    return dict(structure=np.array(0))
                res = {k: res[k] for k in res.data_vars}

            def leaf(v):
                lab = L2(skip) if getattr(v, "ndim", 1) == 2 else L1(skip)
                return table(v, lab, xr.DataArray, True)

            return jax.tree_util.tree_map(leaf, res, is_leaf=lambda v: isinstance(v, xr.DataArray))

        def run(arrays):
            ds = D.dataset(arrays, coords)
            with tokens():
                res, st = ds.wax.stream(**kw).apply(mod, skip_first=skip, format_dims=dims)
            want = isinstance(res, xr.Dataset) == (mod in (two, mixed))
            return dict(out=fmt(res), state={k: dict(v) for k, v in st.items()}, dataset=np.array(int(want)))

        def ref(I, **ins):
            o, s = reference(I, ins, idx, n, skip, module=mod)
            exp = jax.tree_util.tree_map(lambda v: expect(I.call(lambda z: z.reshape(-1), v), L2(skip) if v.ndim == 2 else L1(skip)), o)
            return dict(out=exp, state={k: dict(v) for k, v in s.items()}, dataset=np.array(1))

        check_equiv(T, f"dataset {mod.__name__} dims={dims} skip={skip} secondary={sec}", lambda I: D.syms(I), lambda **k: run(D.arr), ref,
                    real=lambda **k: run(k), validate=1, what="dataset accessor result differs from the labelled loop")
        if T.violations:
            return


def t_format_dims(T):
    """Explicit format_dims: shared, nested like the outputs, and with a new dimension."""
    cs = all_cases()
    c = cs["da-2"]
    z = np.zeros(c.shape, bool)
    run_case(T, "da-2 explicit dims", c, z, mod_full, apply_kw=dict(format_dims=("time", "x")))
    run_case(T, "da-2 nested dims", c, z, lambda x: {"a": mod_full(x), "b": [x * 2]}, apply_kw=dict(
        format_dims={"a": np.array(["time", "x"]), "b": [np.array(["time", "x"])]}))
    c = cs["series"]
    z = np.zeros(c.shape, bool)
    run_case(T, "series explicit dims", c, z, mod_full, apply_kw=dict(format_dims=("time",)))
    run_case(T, "series nested dims", c, z, lambda x: {"a": mod_full(x), "b": [x * 2]}, apply_kw=dict(
        format_dims={"a": np.array(["time"]), "b": [np.array(["time"])]}))
    c = cs["df-3"]
    z = np.zeros(c.shape, bool)
    run_case(T, "df nested dims", c, z, lambda x: {"a": mod_full(x), "b": [x * 2]}, apply_kw=dict(
        format_dims={"a": np.array(["time", "col"]), "b": [np.array(["time", "col"])]}))


# --------------------------------------------------------------------------- format functions
def tok_array(x):
    return np.asarray(x) if isinstance(x, np.ndarray) else x.__array__()


def t_format(T):
    import jax
    import pandas as pd
    import xarray as xr

    from wax.format import format_dataarray, format_dataframe, format_dataset, format_series

    t = times(2)
    ax = {"time": list(t), "x": ["c", "a", "b"], "y": [9, 2]}
    ds = xr.Dataset(coords={"time": t, "x": ax["x"], "y": ax["y"]})
    shp = {k: len(v) for k, v in ax.items()}
    dimsets = [("time",), ("time", "x"), ("x", "time"), ("time", "x", "y"), ("y", "x", "time"), ("x",)]
    size = lambda d: tuple(shp[k] for k in d)
    lab = lambda d: [norm(v) for v in itertools.product(*(ax[k] for k in d))]

    def one(label, inputs, impl, ref):
        check_equiv(T, label, inputs, impl, ref, real=impl, validate=1, what="formatting misplaces an element")

    kinds = {format_dataarray: (xr.DataArray, xr.DataArray, xr.DataArray), format_dataframe: (pd.Series, pd.DataFrame, pd.DataFrame),
             format_series: (pd.Series, pd.Series, pd.Series), format_dataset: (xr.DataArray, xr.DataArray, xr.DataArray)}
    for f in (format_dataarray, format_dataframe, format_series):
        for d in dimsets:
            for nest in ("leaf", "shared", "nested"):
                def inputs(I):
                    return dict(x=I.sym("x", size(d), nan=True), y=I.sym("y", size(d), nan=True))

                def impl(x, y):
                    with tokens():
                        xa, ya = tok_array(x), tok_array(y)
                        if nest == "leaf":
                            res = [f(ds.coords, xa, d), f(ds.coords, ya, d)]
                        elif nest == "shared":
                            r = f(ds.coords, {"k": xa, "l": (ya,)}, d)
                            res = [r["k"], r["l"][0]]
                        else:
                            r = f(ds.coords, {"k": xa, "l": (ya,)}, {"k": np.array(d), "l": (np.array(d),)})
                            res = [r["k"], r["l"][0]]
                    return [table(v, lab(d), kinds[f][len(d) - 1], len(d) < 3) for v in res]

                def ref(I, x, y):
                    return [expect(I.call(lambda z: z.reshape(-1), v), lab(d)) for v in (x, y)]

                one(f"{f.__name__} {d} {nest}", inputs, impl, ref)
                if T.violations:
                    return
    # leaves of different dims
    da, db = ("time", "x"), ("time",)
    for f in (format_dataarray, format_dataframe, format_series, format_dataset):
        def impl(x, y):
            with tokens():
                r = f(ds.coords, {"k": tok_array(x), "l": tok_array(y)}, {"k": np.array(da), "l": np.array(db)})
                isds = isinstance(r, xr.Dataset)
                return dict(k=table(r["k"], lab(da), kinds[f][1], True), l=table(r["l"], lab(db), kinds[f][0], True), ds=np.array(int(isds)))

        def ref(I, x, y):
            return dict(k=expect(I.call(lambda z: z.reshape(-1), x), lab(da)), l=expect(y, lab(db)), ds=np.array(int(f is format_dataset)))

        one(f"{f.__name__} different dims", lambda I: dict(x=I.sym("x", size(da), nan=True), y=I.sym("y", size(db), nan=True)), impl, ref)
    # format_dataframe with several index levels
    for d, nl in ((("time", "x", "y"), 1), (("time", "x", "y"), 2), (("time", "y", "x"), 2)):
        def impl(x):
            with tokens():
                r = format_dataframe(ds.coords, tok_array(x), d, index_nlevels=nl)
            ok = isinstance(r, pd.DataFrame) and r.index.nlevels == nl and r.columns.nlevels == len(d) - nl
            return dict(t=table(r, lab(d), pd.DataFrame, False), lev=np.array(int(ok)))

        def ref(I, x):
            return dict(t=expect(I.call(lambda z: z.reshape(-1), x), lab(d)), lev=np.array(1))

        one(f"format_dataframe index_nlevels={nl} {d}", lambda I: dict(x=I.sym("x", size(d), nan=True)), impl, ref)
    # without coordinates
    for f, sh in ((format_dataframe, (2, 3)), (format_dataframe, (3,))):
        def impl(x):
            with tokens():
                r = f(None, tok_array(x))
            return table(r, [norm(v) for v in itertools.product(*(range(s) for s in sh))], (pd.DataFrame, pd.Series), True)

        def ref(I, x):
            return expect(I.call(lambda z: z.reshape(-1), x), range(int(np.prod(sh))))

        one(f"{f.__name__} no coords {sh}", lambda I: dict(x=I.sym("x", sh, nan=True)), impl, ref)


def t_auto(T):
    """auto_format_with_shape: labels of the leading dims of the first variable whose shape prefix matches; otherwise data unchanged."""
    import pandas as pd
    import xarray as xr

    from wax.format import auto_format_with_shape, tree_auto_format_with_shape

    t = times(2)
    x, y = ["c", "a", "b"], [9, 2, 4, 5]
    ds = xr.Dataset({"f": (("time", "x"), np.zeros((2, 3))), "g": (("x", "y"), np.zeros((3, 4))), "h": (("y",), np.zeros(4))},
                    coords={"time": t, "x": x, "y": y})
    cases = {(2,): (list(t),), (2, 3): (list(t), x), (3,): (x,), (3, 4): (x, y), (4,): (y,), (5,): None}
    for fmt, (sh, axes) in itertools.product(("dataarray", "dataframe"), cases.items()):
        def impl(v):
            with tokens():
                r = [auto_format_with_shape(ds, v, fmt), tree_auto_format_with_shape(ds, {"k": (v,)}, fmt)["k"][0]]
            if axes is None:
                return [dict(values=w) for w in r]
            lab = [norm(q) for q in itertools.product(*axes)]
            kd = xr.DataArray if fmt == "dataarray" else pd.DataFrame if len(sh) == 2 else pd.Series
            return [table(w, lab, kd, True) for w in r]

        def ref(I, v):
            if axes is None:
                return [dict(values=v)] * 2
            return [expect(I.call(lambda z: z.reshape(-1), v), range(int(np.prod(sh))))] * 2

        check_equiv(T, f"auto_format {fmt} {sh}", lambda I: dict(v=I.sym("v", sh, nan=True)), impl, ref, real=impl, validate=1)
        if T.violations:
            return
