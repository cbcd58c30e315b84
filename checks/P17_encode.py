"""P17: encoders are lossless: decode(encode(x)) == x for integers, dates, strings and datasets."""
import datetime

import numpy as np

from vlib.dom import Unsupported

DAY = 24 * 3600 * 10**9

BOUNDS = (
    "every 64-bit integer, every datetime64 (units D, h, m, s, ms, us, ns whose nanosecond count fits 64 bits), every pandas Timestamp, every "
    "naive datetime in 1678-2261; arrays of 3 dates; string arrays of 1..4 (quick) / 1..5 (thorough) labels in every order/equality pattern, and 6 or 8 labels the first 3 of which in every pattern; rank 1 to 4"
)
ASSUMPTIONS = [
    "labels are ordered symbolic objects executed through the real scikit-learn LabelEncoder (its path for object arrays); NaN labels excluded",
    "machine integers are mathematical integers wrapped at their width; pandas/datetime conversions between ns, us and int64 are the documented ones",
]
META = dict(
    title="Encoding then decoding integers, dates, strings and datasets loses nothing",
    statement="decode_int64(encode_int64(v)) == v for every 64-bit integer v, the code being the (high, low) pair of 32-bit words of v; the "
    "timestamp, datetime, datetime64 (any unit, array or scalar) encoders return the same instant after a round trip; string_encoder maps "
    "equal labels to equal codes, codes are 0..k-1 in lexicographic order of the k distinct labels, and decode restores the original array and "
    "shape; encode_dataset/decode_dataset apply each variable's own encoder and leave the others untouched.",
    over=["inputs"],
    quant="all integers, instants and label patterns",
    why="tests encode a handful of integers and the current date",
    files=["src/wax/encode.py"],
    mech=[("encode_int64/decode_int64, encode_timestamp, encode_datetime, encode_datetime64, string_encoder, encode_dataset", "src/wax/encode.py")],
)


def tasks(tier):
    q = tier == "quick"
    return [dict(name="int64", fn="t_int"), dict(name="timestamp", fn="t_stamp"), dict(name="datetime", fn="t_dt"), dict(name="datetime64", fn="t_dt64"),
            dict(name="array", fn="t_array"), dict(name="dataset", fn="t_dataset"),
            *[dict(name=f"strings{n}", fn="t_strings", kw=dict(n=n)) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))],
            *[dict(name=f"strings{n}-shapes", fn="t_strings", kw=dict(n=n, free=3)) for n in (6, 8)]]


class Shims:
    """Re-enterable patch of the module's numpy / pandas / datetime names."""

    def __init__(self, mk):
        self.mk = mk

    def __enter__(self):
        self.c = self.mk()
        return self.c.__enter__()

    def __exit__(self, *a):
        return self.c.__exit__(*a)


def shims():
    import wax.encode as m
    from vlib.pysym import patched
    from vlib.symint import DtShim, IntShim, JnpShim, NpInt, PdShim

    return m, Shims(lambda: patched((m, "onp", NpInt()), (m, "int", IntShim), (m, "pd", PdShim()), (m, "datetime", DtShim()), (m, "jnp", JnpShim())))


def decide(T, label, side, run, wrong, real):
    """Explore run() symbolically; on every path show that wrong(result) (list of z3 conditions) is unsatisfiable.
    real(md) -> (is_bad, info) replays a model on the real code."""
    from vlib.pysym import explore
    from vlib.z3load import z3

    def backstop(k=40):
        """Models of the side conditions near chosen points, for code the encoding cannot follow: nothing is discharged, differences
        are violations all the same."""
        rng = np.random.default_rng(T.seed + 3)
        vs, todo = {}, list(side)
        while todo:
            e = todo.pop()
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort():
                vs[str(e)] = e
            todo += e.children() if z3.is_expr(e) else []
        edge = [0, 1, -1, 2**31, 2**32 - 1, 2**32, -(2**31), -(2**32), 2**63 - 1, -(2**63), DAY, -DAY]
        for i in range(k):
            near, last = [], None
            for v in vs.values():
                c = int(rng.choice(3)) and last
                c = edge[i] if i < len(edge) and last is None else (c if c else int(edge[rng.integers(len(edge))]) if rng.random() < 0.5 else int(rng.integers(-(2**62), 2**62)) >> int(rng.integers(0, 62))) + int(rng.integers(-2, 3))
                if T.solve([*side, *near, v == c])[0] == z3.sat:
                    near.append(v == c)
                    last = c
            md = T.solve([*side, *near])[1]
            if md is None:
                return
            bad, info = real(md)
            T.concrete += 1
            if bad:
                T.violations.append(dict(what=label, task=T.name, label=label, note="found at a concrete point: the encoding does not apply", **info))
                return

    lost = 0
    for pc, res, exc in explore(T, run, side=side):
        T.obligations += 1
        if exc is not None:
            r, md = T.solve(pc + side)
            bad, info = real(md) if md is not None else (False, {})
            if bad:
                T.violations.append(dict(what=label, task=T.name, label=label, exception=repr(exc)[:300], **info))
                return
            T.undecided.append(f"{label}: {exc!r}"[:400])
            backstop()
            return
        conds = [z3.BoolVal(bool(c)) if isinstance(c, (bool, np.bool_)) else c for c in wrong(res)]
        r, md = T.solve(pc + side + [z3.Or(*conds)])
        if r == z3.unsat:
            T.discharged += 1
            r, md = T.solve(pc + side)
            if md is not None:
                T.vacuity_ok += 1
                bad, info = real(md)
                T.validated += 1
                if bad:
                    T.violations.append(dict(what=label, task=T.name, label=label, note="validation point", **info))
                    return
        elif r == z3.sat:
            bad, info = real(md)
            if bad:
                T.violations.append(dict(what=label, task=T.name, label=label, **info))
            else:
                T.spurious.append(f"{label}: {info}")
                backstop()
            return
        else:
            T.undecided.append(f"{label}: {r}")
            lost += 1
            if lost == 1:
                backstop()


def val(md, z):
    return md.eval(z, model_completion=True).as_long()


def guard(f):
    """real replay: exceptions of the code under test are violations"""

    def g(md):
        try:
            return f(md)
        except Exception as e:
            return True, dict(raised=repr(e)[:300])

    return g


def t_int(T):
    from vlib.symint import SI
    from vlib.z3load import z3

    T.functions |= {"wax/encode.py:encode_int64", "wax/encode.py:decode_int64"}
    v = z3.Int("v")
    for name, dt, lo, hi in (("int", None, -(2**63), 2**63 - 1), ("int64", np.int64, -(2**63), 2**63 - 1), ("int32", np.int32, -(2**31), 2**31 - 1),
                             ("uint32", np.uint32, 0, 2**32 - 1)):
        side = [v >= lo, v <= hi]
        m, cm = shims()

        def run():
            with cm:
                c = m.encode_int64(SI(v, dt))
                return c, m.decode_int64(c)

        def wrong(res):
            c, d = res
            if np.shape(c) != (2,) or not all(isinstance(x, SI) and x.dt == np.dtype("uint32") for x in c):
                return [True]
            u = z3.If(v < 0, v + 2**64, v)
            return [d.z != v, c[0].z != u / 2**32, c[1].z != u % 2**32]

        @guard
        def real(md):
            x = val(md, v)
            y = x if dt is None else dt(x)
            c = m.encode_int64(y)
            back = m.decode_int64(c)
            ok = c.dtype == np.uint32 and c.shape == (2,) and [int(k) for k in c] == [(x % 2**64) >> 32, x % 2**32] and int(back) == x
            return not ok, dict(value=x, code=[int(k) for k in np.ravel(c)], decoded=int(back))

        decide(T, f"encode_int64 round trip ({name})", side, run, wrong, real)


NS = 2**63 - 1


def t_stamp(T):
    import pandas as pd
    from vlib.symint import SStamp
    from vlib.z3load import z3

    T.functions |= {"wax/encode.py:encode_timestamp", "wax/encode.py:decode_timestamp"}
    v = z3.Int("v")
    side = [v >= pd.Timestamp.min.value, v <= pd.Timestamp.max.value]
    m, cm = shims()

    def run():
        with cm:
            return m.decode_timestamp(m.encode_timestamp(SStamp(v)))

    @guard
    def real(md):
        t = pd.Timestamp(val(md, v))
        r = m.decode_timestamp(m.encode_timestamp(t))
        return r != t, dict(value=str(t), decoded=str(r))

    decide(T, "timestamp round trip", side, run, lambda r: [r.z != v] if isinstance(r, SStamp) else [True], real)


def t_dt(T):
    from vlib.symint import SPyDT
    from vlib.z3load import z3

    T.functions |= {"wax/encode.py:encode_datetime", "wax/encode.py:decode_datetime"}
    v = z3.Int("v")
    epoch = datetime.datetime(1970, 1, 1)
    us = lambda d: (d - epoch) // datetime.timedelta(microseconds=1)
    side = [v >= us(datetime.datetime(1678, 1, 1)), v <= us(datetime.datetime(2262, 1, 1))]
    m, cm = shims()

    def run():
        with cm:
            return m.decode_datetime(m.encode_datetime(SPyDT(v)))

    @guard
    def real(md):
        t = epoch + datetime.timedelta(microseconds=val(md, v))
        r = m.decode_datetime(m.encode_datetime(t))
        return r != t or type(r) is not datetime.datetime, dict(value=str(t), decoded=str(r))

    decide(T, "datetime round trip", side, run, lambda r: [r.z != v] if isinstance(r, SPyDT) else [True], real)


def t_dt64(T):
    from vlib.symint import SDT, UNITS
    from vlib.z3load import z3

    T.functions |= {"wax/encode.py:encode_datetime64", "wax/encode.py:decode_datetime64"}
    v = z3.Int("v")
    m, cm = shims()
    for u, k in UNITS.items():
        side = [v >= -(NS // k), v <= NS // k]

        def run():
            with cm:
                c = m.encode_datetime64(SDT(v, u))
                return c, m.decode_datetime64(c)

        @guard
        def real(md):
            t = np.datetime64(val(md, v), u)
            r = m.decode_datetime64(m.encode_datetime64(t))
            return r != t or r.dtype.kind != "M", dict(value=str(t), decoded=str(r))

        decide(T, f"datetime64[{u}] round trip", side, run, lambda r: [r[1].to("ns").z != v * k] if isinstance(r[1], SDT) else [True], real)


def t_array(T):
    from vlib.symint import SDT, vec
    from vlib.z3load import z3

    T.functions.add("wax/encode.py:datetime64_encoder")
    m, cm = shims()
    for n in (1, 3):
        vs = [z3.Int(f"v{i}") for i in range(n)]
        side = [c for v in vs for c in (v >= -NS, v <= NS)]

        def run():
            with cm:
                x = vec([SDT(v, "ns") for v in vs])
                e = m.datetime64_encoder(x)
                c = e.encode(x)
                return np.shape(c), e.decode(c)

        def wrong(r):
            sh, d = r
            if sh != (n, 2) or np.shape(d) != (n,):
                return [True]
            return [d[i].to("ns").z != vs[i] for i in range(n)]

        @guard
        def real(md):
            x = np.array([val(md, v) for v in vs], "M8[ns]")
            e = m.datetime64_encoder(x)
            c = e.encode(x)
            r = e.decode(c)
            return c.shape != (n, 2) or not np.array_equal(r, x), dict(value=[str(t) for t in x], decoded=[str(t) for t in r])

        decide(T, f"datetime64 array round trip n={n}", side, run, wrong, real)


class Label:
    """A string label known only through its order."""

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        from vlib.pysym import SBool

        return SBool(self.z == o.z) if isinstance(o, Label) else False

    def __ne__(self, o):
        from vlib.pysym import SBool

        return SBool(self.z != o.z) if isinstance(o, Label) else True

    def __lt__(self, o):
        from vlib.pysym import SBool

        return SBool(self.z < o.z)

    def __gt__(self, o):
        from vlib.pysym import SBool

        return SBool(self.z > o.z)

    def __le__(self, o):
        from vlib.pysym import SBool

        return SBool(self.z <= o.z)

    def __ge__(self, o):
        from vlib.pysym import SBool

        return SBool(self.z >= o.z)

    def __hash__(self):
        return 0


def t_strings(T, n, free=None):
    """free: only the first labels are in arbitrary order, the others increase above them."""
    import wax.encode as m
    from vlib.z3load import z3

    T.functions.add("wax/encode.py:string_encoder")
    shapes = [(n,)] + ([(n, 1), (1, n)] if n <= 3 else []) + ([(2, n // 2)] if n % 2 == 0 else [])
    if n == 4:
        shapes += [(2, 1, 2), (1, 2, 2)]
    if free:
        shapes = {6: [(2, 3), (3, 2), (3, 1, 2)], 8: [(2, 2, 2), (4, 2), (2, 2, 1, 2)]}[n]
    for shape in shapes:
        zs = [z3.Int(f"l{i}") for i in range(n)]

        def run():
            a = np.empty(n, dtype=object)
            for i in range(n):
                a[i] = Label(zs[i])
            a = a.reshape(shape)
            e = m.string_encoder(a)
            c = e.encode(a)
            return np.ravel(np.asarray(c)), e.decode(c)

        def expected(v):
            return [z3.Sum([z3.If(z3.And(w < x, *[w != y for y in v[:j]]), 1, 0) for j, w in enumerate(v)]) for x in v]

        def wrong(r):
            c, d = r
            if c.shape != (n,) or np.shape(d) != shape:
                return [True]
            return [e != int(k) for e, k in zip(expected(zs), c)] + [x.z != z for x, z in zip(d.reshape(-1), zs)]

        @guard
        def real(md):
            v = [val(md, z) for z in zs]
            order = sorted(set(v))
            x = np.array([f"k{order.index(k):03d}" for k in v]).reshape(shape)
            e = m.string_encoder(x)
            c = e.encode(x)
            d = e.decode(c)
            ok = np.ravel(c).tolist() == [order.index(k) for k in v] and np.array_equal(d, x)
            return not ok, dict(value=x.tolist(), codes=np.ravel(c).tolist(), decoded=np.asarray(d).tolist())

        side = [zs[i] > z for i in range(free, n) for z in zs[:i]] if free else []
        decide(T, f"string_encoder round trip shape={shape}", side, run, wrong, real)
        if T.violations:
            return


def t_dataset(T):
    """encode_dataset / decode_dataset with opaque, invertible per-variable encoders."""
    import wax.encode as m
    from vlib.symint import SI
    from vlib.z3load import z3

    T.functions |= {"wax/encode.py:encode_dataset", "wax/encode.py:decode_dataset"}
    names = ["a", "b", "c"]
    for mask in range(8):
        enc = {k: m.Encoder(lambda x, o=i + 1: x * (o + 1) + o, lambda x, o=i + 1: (x - o) // (o + 1)) for i, k in enumerate(names) if mask >> i & 1}
        enc["unused"] = m.Encoder(lambda x: x, lambda x: x)
        zs = {k: z3.Int(k) for k in names}

        def run():
            ds = {k: SI(zs[k]) for k in names}
            e = m.encode_dataset(enc, ds)
            return e, m.decode_dataset(enc, e), ds

        def wrong(r):
            e, d, ds = r
            if list(e) != names or list(d) != names:
                return [True]
            out = []
            for i, k in enumerate(names):
                o = i + 1
                out += [d[k].z != zs[k], e[k].z != (zs[k] * (o + 1) + o if mask >> i & 1 else zs[k]), ds[k].z != zs[k]]
            return out

        @guard
        def real(md):
            ds = {k: val(md, zs[k]) for k in names}
            e = m.encode_dataset(enc, ds)
            d = m.decode_dataset(enc, e)
            ex = {k: enc[k].encode(ds[k]) if k in enc else ds[k] for k in names}
            return e != ex or d != ds, dict(value=ds, encoded=e, decoded=d)

        decide(T, f"dataset round trip mask={mask}", [], run, wrong, real)
        if T.violations:
            return
