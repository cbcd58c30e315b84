"""P14: synchronisation of secondary streams in local time: causal, complete, forward fill on request."""
import itertools

import numpy as np

from vlib import dom

DAY = 86400 * 10**9
INIT = -99999

BOUNDS = (
    "1 local stream of 2..4 (quick) / 3..6 (thorough) symbolic non-decreasing times, 1..2 secondary streams of 1..5 / 1..6 symbolic "
    "non-decreasing times; any interleaving including ties; day embedding on/off, forward fill on/off; index trace of Stream.merge"
)
ASSUMPTIONS = [
    "times are 64-bit nanosecond counts without overflow (1970-2100); time coordinates are sorted",
    "every explored path is replayed through Stream.trace_dataset on a real xarray Dataset (np.datetime64 times of the solver's model)",
]
META = dict(
    title="Streams are synchronised causally: strictly past data only, none lost",
    statement="In Stream.merge (the tracing pass of every stream unroll) the secondary observation visible at a local step is the last one "
    "whose time is strictly before the local time (floored to the day when the stream has freq 'd'): never a present or future one, never "
    "an older one than available. Without ffill it is visible only at the first local step after it became available, otherwise the "
    "initial missing value (-99999 index, NaN data) is; with ffill it stays visible until replaced, also after the stream is exhausted. "
    "The local stream itself always advances by one observation per step, and streams do not influence each other.",
    over=["schedules", "histories"],
    quant="all interleavings of local and secondary times, lengths, ffill and freq settings",
    why="tests use a single pair of date ranges with one frequency each",
    files=["src/wax/stream.py", "src/wax/encode.py"],
    mech=[("merge, timestamp_is_before_local", "src/wax/stream.py"), ("start_dataset_stream(s)", "src/wax/stream.py"),
          ("floor_datetime", "src/wax/encode.py")],
)


def tasks(tier):
    q = tier == "quick"
    out = []
    n = 4 if q else 6
    for ffill, freq in itertools.product((False, True), (False, True)):
        for m in (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 6):
            out.append(dict(name=f"one-ffill{int(ffill)}-freq{int(freq)}-m{m}", fn="t_sync", kw=dict(n=n, m=[m], ffill=[ffill], freq=[freq])))
    for a, b in itertools.combinations_with_replacement(list(itertools.product((False, True), (False, True))), 2):
        out.append(dict(name=f"two-{int(a[0])}{int(a[1])}-{int(b[0])}{int(b[1])}", fn="t_sync",
                        kw=dict(n=2 if q else 3, m=[2, 2] if q else [3, 3], ffill=[a[0], b[0]], freq=[a[1], b[1]])))
    return out


# ------------------------------------------------------------------ symbolic times
def sym_time(nm):
    from vlib.pysym import SInt
    from vlib.z3load import z3

    from vlib.symtime import SymTime

    return SymTime(z3.Int(nm))


def spec(t, s, ffill, freq, maxlen=None):
    """Expected index (z3 Int terms) of one secondary stream at each local step."""
    from vlib.z3load import z3

    out = []
    prev = z3.IntVal(0)
    for ti in t:
        e = (ti / DAY) * DAY if freq else ti
        cnt = z3.Sum([z3.If(sj < e, 1, 0) for sj in s])
        show = cnt > 0 if ffill else cnt > prev
        if maxlen is None:
            out.append(z3.If(show, cnt - 1, INIT))
        else:
            out.append([z3.If(z3.And(show, cnt - maxlen + k >= 0), cnt - maxlen + k, INIT) for k in range(maxlen)])
        prev = z3.If(cnt > prev, cnt, prev)
    return out


def spec_np(t, s, ffill, freq, maxlen=None):
    out, prev = [], 0
    for ti in t:
        e = (ti // DAY) * DAY if freq else ti
        cnt = sum(int(sj < e) for sj in s)
        show = cnt > 0 if ffill else cnt > prev
        if maxlen is None:
            out.append(cnt - 1 if show else INIT)
        else:
            out.append([cnt - maxlen + k if show and cnt - maxlen + k >= 0 else INIT for k in range(maxlen)])
        prev = max(prev, cnt)
    return out


def stream_kw(m, ffill, freq, maxlen=None):
    kw = dict(local_time="t", freqs={f"s{k}": "d" for k in range(len(m)) if freq[k]},
              ffills={f"s{k}": True for k in range(len(m)) if ffill[k]})
    if maxlen:
        kw["buffer_maxlen"] = {f"s{k}": maxlen[k] for k in range(len(m)) if maxlen[k]}
    return kw


def as_ds(vals, dim, index=True):
    import xarray as xr

    coords = {dim: vals} if index else xr.Coordinates({dim: (dim, vals)}, indexes={})
    return xr.Dataset({dim + "_index": (dim, np.arange(len(vals)))}, coords=coords)


def as_int(v):
    """Delivered index, None if what was delivered is no index at all (e.g. a timestamp)."""
    try:
        return int(v)
    except (TypeError, ValueError):
        return None


def differs(e, v):
    from vlib.z3load import z3

    v = as_int(v)
    return z3.BoolVal(True) if v is None else e != v


def t_sync(T, n, m, ffill, freq, maxlen=None):
    import wax.encode
    import wax.stream as ws
    from vlib.pysym import explore, patched
    from vlib.symtime import SymTime, TimeShim, obj_array
    from vlib.z3load import z3

    T.bounds = dict(local=n, secondary=m, ffill=ffill, day=freq, maxlen=maxlen)
    T.functions |= {"wax/stream.py:Stream.merge", "wax/stream.py:Stream.start_dataset_streams", "wax/stream.py:timestamp_is_before_local"}
    if any(freq):
        T.functions.add("wax/encode.py:floor_datetime")
    if maxlen:
        T.functions |= {"wax/stream.py:tree_buffer_transform", "wax/stream.py:deque_to_list"}
    tz = [z3.Int(f"t{i}") for i in range(n)]
    sz = [[z3.Int(f"s{k}_{j}") for j in range(m[k])] for k in range(len(m))]
    side = []
    for seq in (tz, *sz):
        side += [seq[0] >= 0, seq[-1] <= 4 * 10**18] + [a <= b for a, b in zip(seq, seq[1:])]
    exp = [spec(tz, sz[k], ffill[k], freq[k], (maxlen[k] or None) if maxlen else None) for k in range(len(m))]
    kw = stream_kw(m, ffill, freq, maxlen)

    def run():
        sh = TimeShim()
        with patched((wax.encode, "onp", sh)):
            dss = {"t": as_ds(obj_array([SymTime(z) for z in tz]), "t", False)}
            for k in range(len(m)):
                dss[f"s{k}"] = as_ds(obj_array([SymTime(z) for z in sz[k]]), f"s{k}", False)
            st = ws.Stream(**kw)
            streams = st.start_dataset_streams(dss)
            outs = list(st.merge(streams))
            return [{d: np.asarray(o[d].value[d + "_index"]) for d in ("t", *[f"s{k}" for k in range(len(m))])} for o in outs]

    def real(md):
        """The solver's model through the real tracing pass on a real Dataset."""
        import xarray as xr

        if isinstance(md, tuple):
            tv, sv = md
        else:
            def val(z):
                return md.eval(z, model_completion=True).as_long()

            tv = [val(z) for z in tz]
            sv = [[val(z) for z in s] for s in sz]
        ds = xr.Dataset({"x": ("t", np.arange(n) * 1.5)}, coords={"t": np.array(tv, "datetime64[ns]")})
        for k in range(len(m)):
            ds[f"y{k}"] = xr.DataArray(np.arange(m[k]) * 2.5 + 1, dims=(f"s{k}",), coords={f"s{k}": np.array(sv[k], "datetime64[ns]")})
        e = {f"y{k}": spec_np(tv, sv[k], ffill[k], freq[k], (maxlen[k] or None) if maxlen else None) for k in range(len(m))}
        e["x"] = list(range(n))
        info = dict(config=kw, t=[str(v) for v in ds.t.values], s=[[str(v) for v in ds[f"s{k}"].values] for k in range(len(m))], expected=e)
        try:
            _, idx, _ = ws.Stream(**kw).trace_dataset(ds)
            act = {v: np.asarray(idx[v]).tolist() for v in e}
        except Exception as ex:
            return True, dict(info, raised=repr(ex)[:300])
        return act != e, dict(info, actual=act)

    def backstop(k=40):
        """Concrete streams, for code the encoding cannot follow: nothing is discharged, differences are violations all the same."""
        rng = np.random.default_rng(T.seed + 5)
        for _ in range(k):
            step = int(rng.choice([1, DAY // 3, DAY]))
            draw = lambda q: sorted(int(v) * step + DAY for v in rng.integers(0, 3 + n + max(m), q))  # noqa: E731
            bad, info = real((draw(n), [draw(q) for q in m]))
            T.concrete += 1
            if bad:
                T.violations.append(dict(what="index trace differs from the causal specification", task=T.name, label="path", note="found at a concrete point: the encoding does not apply", **info))
                return

    for i, (pc, res, exc) in enumerate(explore(T, run, side=side)):
        T.obligations += 1
        if exc is not None:
            r, md = T.solve(pc + side)
            bad, info = real(md) if md is not None else (False, None)
            if bad:
                T.violations.append(dict(what="index trace differs from the causal specification", task=T.name, label="raise", exception=repr(exc)[:200], **info))
                return
            T.undecided.append(f"{T.name}: {exc!r}"[:300])
            backstop()
            return
        wrong = []
        if len(res) != n:
            wrong = [z3.BoolVal(True)]
        else:
            for t in range(n):
                if not (res[t]["t"].shape == () and as_int(res[t]["t"]) == t):
                    wrong = [z3.BoolVal(True)]
                for k in range(len(m)):
                    got = res[t][f"s{k}"]
                    if maxlen and maxlen[k]:
                        if got.shape != (maxlen[k],):
                            wrong.append(z3.BoolVal(True))
                        else:
                            wrong += [differs(exp[k][t][q], got[q]) for q in range(maxlen[k])]
                    else:
                        wrong.append(z3.BoolVal(True) if got.shape != () else differs(exp[k][t], got))
        r, md = T.solve(pc + side + [z3.Or(*wrong)])
        if r == z3.unsat:
            T.discharged += 1
            if i < 40 or i % 7 == 0:
                r2, m2 = T.solve(pc + side)
                if r2 != z3.sat:
                    raise RuntimeError("infeasible path reached")
                T.vacuity_ok += 1
                bad, info = real(m2)
                T.validated += 1
                if bad:
                    T.violations.append(dict(what="index trace differs from the causal specification", task=T.name, label="path", **info))
                    return
        elif r == z3.sat:
            bad, info = real(md)
            if bad:
                T.violations.append(dict(what="index trace differs from the causal specification", task=T.name, label="path", **info))
            else:
                T.spurious.append(f"{T.name}: {info}")
            return
        else:
            T.undecided.append(f"{T.name}: {r}")
    T.samples.append(dict(task=T.name, paths=i + 1))
