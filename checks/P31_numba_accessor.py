"""The numba accessor of pandas objects: one average per column, resumed by column label."""
from __future__ import annotations

import itertools
from fractions import Fraction

import numpy as np

from checks.P01_ewma import Point, check_path, concrete_points, ewma_closed, ewma_linear, numba_sym
from vlib import dom
from vlib.dom import F, f_const
from vlib.spec import NAN

BOUNDS = (
    "frames of 2 and 3 columns (flat, reordered, MultiIndex and integer labels) and series, 2 rows and then 1 or 2 rows of symbolic observations for representative and random "
    "missing-value patterns, symbolic com (two values for 'linear'), adjust in {True, False, 'linear'}, ignore_na, min_periods 0..2, NaN/symbolic initial value; "
    "second part with the same, reordered, fewer, more and other columns"
)
ASSUMPTIONS = [
    "floating point is modelled by exact reals with NaN flags: equality is claimed up to rounding; observations are finite or NaN",
    "the numba kernel is executed from its Python source; numba compilation is trusted and replayed",
]
META = dict(
    title="The numba accessor averages each column on its own and resumes by column label",
    statement="df.wax_numba.ewm(...).mean() and series.wax_numba.ewm(...).mean() (after register_wax_numba) return an object of the same kind, index and columns whose every "
    "column is the exponential moving average (as of the Haiku and Flax EWMA with the same options) of that column; options may be given by position or by keyword. With "
    "return_state they return as well a state (one row per column label) such that mean(state) on later rows equals one pass over all rows for every column the "
    "state knows, in whatever order the columns come; columns the state does not know start afresh. The state and the data handed in are not altered.",
    over=["inputs", "histories", "configurations"],
    quant="all observations and missing-value patterns, decays, options, column sets and orders",
    why="one test resumes a single random frame with unchanged columns",
    files=["src/wax/numba/ewma_numba.py"],
    mech=[("NumbaExponentialMovingWindow.mean, WaxNumbaEWMAccessor.ewm", "src/wax/numba/ewma_numba.py")],
)

LABELS = {"flat": list("abcd"), "ints": [3, 1, 2, 0], "multi": [("x", 1), ("y", 2), ("x", 2), ("z", 1)]}
# columns of the first and of the second part
PARTS = {"same": ("ab", "ab"), "swap": ("ab", "ba"), "perm": ("abc", "cab"), "fewer": ("abc", "ca"), "more": ("ab", "bca"), "other": ("ab", "cd"), "one": ("b", "b")}


def tasks(tier):
    q = tier == "quick"
    out = []
    for adjust in (True, False, "linear"):
        for part in PARTS:
            for ign in (False, True) if not q or part in ("swap", "more") else (adjust is True,):
                init = part in ("swap", "other")
                for lab in LABELS if not q else (("flat", "ints", "multi")[(len(part) + ign) % 3],):
                    out.append(dict(name=f"{adjust}-{part}-ign{int(ign)}-{lab}", fn="t_frame",
                                    kw=dict(adjust=adjust, part=part, ign=ign, init=init, lab=lab, mp=(0, 2, 1)[(len(part) + ign) % 3], npat=6 if q else 30)))
        out.append(dict(name=f"{adjust}-series", fn="t_frame", kw=dict(adjust=adjust, part="one", ign=adjust is False, init=adjust is False, lab="flat", mp=1, npat=16, series=True)))
    out.append(dict(name="positional", fn="t_frame", kw=dict(adjust=False, part="same", ign=True, init=True, lab="flat", mp=2, npat=6, positional=True)))
    out.append(dict(name="alpha", fn="t_frame", kw=dict(adjust=True, part="swap", ign=False, init=False, lab="flat", mp=0, npat=6, alpha=True)))
    return out


def letters(lab):
    return dict(zip("abcd", LABELS[lab]))


def columns(names, lab):
    import pandas as pd

    ls = [letters(lab)[k] for k in names]
    return pd.MultiIndex.from_tuples(ls, names=["u", "v"]) if lab == "multi" else pd.Index(ls, name="col")


def patterns(cols, n, npat, rng):
    """Missing-value patterns {column: n flags}: all without, all kinds of starts, random ones."""
    yield {c: (0,) * n for c in cols}
    yield {c: tuple(int((i + j) % 2 == 0) for i in range(n)) for j, c in enumerate(cols)}
    yield {c: tuple(int(i < 2) if j == 0 else 0 for i in range(n)) for j, c in enumerate(cols)}
    for _ in range(npat - 3):
        yield {c: tuple(int(v) for v in rng.random(n) < 0.4) for c in cols}


def t_frame(T, adjust, part, ign, init, lab, mp, npat, series=False, positional=False, alpha=False):
    import pandas as pd
    import wax.numba.ewma_numba as m
    from vlib.pysym import SReal, explore
    from vlib.z3load import z3

    T.functions |= {"wax/numba/ewma_numba.py:NumbaExponentialMovingWindow.mean", "wax/numba/ewma_numba.py:WaxNumbaEWMAccessor.ewm", "wax/numba/ewma_numba.py:ewma.apply"}
    m.register_wax_numba()
    c1, c2 = PARTS[part]
    names = sorted(set(c1 + c2))
    n, cut = (4 if len(names) < 3 and not init else 3), 2
    T.bounds = dict(rows=n, columns=max(len(c1), len(c2)))
    idx = pd.Index(pd.date_range("2020-01-01", periods=n), name="time") if lab != "ints" else pd.Index([5, 3, 9, 1])

    def frame(vals, rows, cols, sym):
        a = np.empty((len(rows), len(cols)), dtype=object if sym else float)
        for i, t in enumerate(rows):
            for j, c in enumerate(cols):
                a[i, j] = vals[c][t]
        df = pd.DataFrame(a, idx[list(rows)], columns(cols, lab))
        return df.iloc[:, 0].rename("b") if series else df

    def drive(vals, com, iv, sym):
        """-> values {part: {column: rows}} with structural facts asserted"""
        def ewm(df, rs):
            if positional:
                return df.wax_numba.ewm(com, None, mp, adjust, ign, iv, rs)
            d = dict(alpha=1.0 / (1.0 + com)) if alpha else dict(com=com)
            return df.wax_numba.ewm(**d, min_periods=mp, adjust=adjust, ignore_na=ign, initial_value=iv, return_state=rs)

        def cols_of(res, df):
            assert type(res) is type(df), f"the result is a {type(res).__name__}"
            assert res.index.equals(df.index) and res.index.name == df.index.name, "another index"
            if series:
                assert res.name == df.name, "another name"
                return {"b": list(res)}
            assert res.columns.equals(df.columns), "other columns"
            return {c: list(res[letters(lab)[c]]) for c in names if letters(lab)[c] in df.columns}

        a, b = frame(vals, range(cut), c1, sym), frame(vals, range(cut, n), c2, sym)
        a0, b0 = a.copy(), b.copy()
        r1, st = ewm(a, True).mean()
        lab1 = ["b"] if series else [letters(lab)[c] for c in c1]
        assert isinstance(st, pd.DataFrame) and sorted(map(str, st.index)) == sorted(map(str, lab1)), "the state does not have a row per column"
        st0 = st.copy()
        r2 = ewm(b, False).mean(st)
        again = not sym or part in ("same", "one")
        r3, _ = ewm(b, True).mean(st) if again else (r2, None)
        plain = ewm(a, False).mean() if again else r1
        same = all(x is y for u, v in ((st, st0), (a, a0), (b, b0)) for x, y in zip(u.to_numpy(dtype=object).ravel(), v.to_numpy(dtype=object).ravel())) if sym else (
            st.equals(st0) and a.equals(a0) and b.equals(b0))
        assert same, "the state or the data handed in were altered"
        return cols_of(r1, a), cols_of(r2, b), cols_of(r3, b), cols_of(plain, a)

    def expected(vals, pats, com, iv):
        def ew(col, nans):
            return ewma_linear(col, nans, com, ign, mp, iv) if adjust == "linear" else ewma_closed(col, nans, com, adjust, ign, mp, iv)

        e1 = {c: ew(vals[c][:cut], pats[c][:cut]) for c in c1}
        e2 = {c: (ew(vals[c], pats[c])[cut:] if c in c1 else ew(vals[c][cut:], pats[c][cut:])) for c in c2}
        return e1, e2, e2, e1

    rng = np.random.default_rng(T.seed + 3)
    for cval in ([Fraction(1), Fraction(7, 4)] if adjust == "linear" else [None]):
        for pats in patterns(names, n, npat, rng):
            com = F(z3.Real("com")) if cval is None else F(cval)
            side = []
            if cval is None:
                dom.mark_pos(com.r)
                side.append(com.r > 0)
            vals = {c: [NAN if b else F(z3.Real(f"{c}{i}")) for i, b in enumerate(pats[c])] for c in names}
            iv = F(z3.Real("init")) if init else None
            exp = expected(vals, pats, com, iv)

            def run():
                _, cm = numba_sym(None)
                with cm:
                    return drive({c: [SReal(v) for v in vs] for c, vs in vals.items()}, SReal(com), SReal(iv) if init else np.nan, True)

            def replay(md):
                from vlib.harness import z3_to_fraction

                def val(nm):
                    return float(z3_to_fraction(md.eval(z3.Real(nm), model_completion=True)))

                cc = float(cval) if cval is not None else val("com")
                i0 = val("init") if init else np.nan
                cv = {c: [np.nan if b else val(f"{c}{i}") for i, b in enumerate(pats[c])] for c in names}
                info = dict(com=cc, init=i0, data=cv, first=c1, second=c2, adjust=adjust)
                want = expected({c: [f_const(v) for v in vs] for c, vs in cv.items()}, pats, f_const(cc), f_const(i0) if init else None)
                try:
                    got = drive(cv, cc, i0, False)
                except Exception as e:
                    return True, dict(info, actual=repr(e)[:300])
                for g, w in zip(got, want):
                    for c in w:
                        if not np.allclose(np.array(g[c], float), np.array([v.const() for v in w[c]], float), rtol=1e-6, atol=1e-9, equal_nan=True):
                            return True, dict(info, column=c, actual=[float(v) for v in g[c]], expected=[float(v.const()) for v in w[c]])
                return False, info

            label = f"accessor adjust={adjust} ign={ign} columns {c1}->{c2} missing={pats}"
            for pc, res, exc in explore(T, run, side=side):
                if exc is not None:
                    concrete_points(T, label, exc, replay)
                    break
                for k, (g, w) in enumerate(zip(res, exp)):
                    for c in w:
                        check_path(T, pc + side, g[c], w[c], f"{label} {('first part', 'resumed', 'resumed again', 'without state')[k]} column {c}", replay)
                if T.violations:
                    break
            if T.violations:
                return
    bad, info = replay(Point(rng))  # the compiled kernel at a concrete point: validates the encoding
    T.concrete += 1
    if bad:
        T.violations.append(dict(what=label, task=T.name, label=label, note="found at a concrete point", **info))
    else:
        T.validated += 1
