"""P18: comparison and day floor of encoded times."""
import numpy as np

from checks.P17_encode import decide, guard, shims, val

DAY = 86400 * 10**9
BOUNDS = "every pair of 64-bit integers (comparison); every instant whose day floor fits 64-bit nanoseconds (floor), units ns, us, s, D; arrays of 3"
ASSUMPTIONS = ["machine integers are mathematical integers wrapped at their width; NaT excluded from the floor"]
META = dict(
    title="Encoded times compare chronologically and floor to the start of their day",
    statement="less(encode_int64(a), encode_int64(b)) is true exactly when a < b, for all 64-bit integers (hence all dates, before and after "
    "1970); floor_datetime and floor_jax_datekey return the midnight that starts the day of their argument: a multiple of one day, not "
    "after it and less than one day before it, also before 1970 and for every datetime unit.",
    over=["inputs"],
    quant="all pairs of 64-bit integers, all instants",
    why="tests compare 8 pairs of positive integers and floor the current date",
    files=["src/wax/encode.py"],
    mech=[("less, floor_datetime, floor_jax_datekey", "src/wax/encode.py")],
)


def tasks(tier):
    return [dict(name="less", fn="t_less"), dict(name="floor", fn="t_floor"), dict(name="datekey", fn="t_datekey")]


def t_less(T):
    from vlib.pysym import SBool
    from vlib.symint import SI
    from vlib.z3load import z3

    T.functions |= {"wax/encode.py:less", "wax/encode.py:encode_int64"}
    a, b = z3.Ints("a b")
    side = [c for v in (a, b) for c in (v >= -(2**63), v < 2**63)]
    m, cm = shims()

    def run():
        with cm:
            r = m.less(m.encode_int64(SI(a)), m.encode_int64(SI(b)))
            return bool(r) if isinstance(r, SBool) else r

    @guard
    def real(md):
        x, y = val(md, a), val(md, b)
        r = bool(m.less(m.encode_int64(x), m.encode_int64(y)))
        return r != (x < y), dict(a=x, b=y, less=r)

    decide(T, "less orders encoded integers", side, run, lambda r: [(a < b) != bool(r)], real)


def t_floor(T):
    from vlib.symint import SDT, UNITS, vec
    from vlib.z3load import z3

    T.functions.add("wax/encode.py:floor_datetime")
    v = z3.Int("v")
    m, cm = shims()
    for u in ("ns", "us", "s", "D"):
        k = UNITS[u]
        side = [v >= -((2**63 - DAY) // k) + 1, v <= (2**63 - 1) // k]

        def run():
            with cm:
                return m.floor_datetime(SDT(v, u))

        def wrong(r):
            if not isinstance(r, SDT):
                return [True]
            z = r.to("ns").z
            return [z % DAY != 0, z > v * k, z <= v * k - DAY]

        @guard
        def real(md):
            t = np.datetime64(val(md, v), u)
            r = m.floor_datetime(t)
            e = t.astype("M8[ns]").astype("M8[D]")
            return bool(r != e) or r.dtype.kind != "M", dict(value=str(t), floor=str(r), expected=str(e))

        decide(T, f"floor_datetime [{u}]", side, run, wrong, real)
        if T.violations:
            return


def t_datekey(T):
    from vlib.symint import SI
    from vlib.z3load import z3

    T.functions.add("wax/encode.py:floor_jax_datekey")
    v = z3.Int("v")
    side = [v >= -(2**63) + DAY, v < 2**63]
    m, cm = shims()

    def run():
        with cm:
            return m.floor_jax_datekey(m.encode_int64(SI(v)))

    def wrong(r):
        if np.shape(r) != (2,):
            return [True]
        f = v - v % DAY
        f = z3.If(f < 0, f + 2**64, f)
        return [r[0].z != f / 2**32, r[1].z != f % 2**32]

    @guard
    def real(md):
        import jax.numpy as jnp

        x = val(md, v)
        r = m.decode_int64(m.floor_jax_datekey(jnp.array(m.encode_int64(x))))
        return r != x - x % DAY, dict(value=x, floor=r, expected=x - x % DAY)

    decide(T, "floor_jax_datekey", side, run, wrong, real)
