"""P07: HasChanged, Counter and FillNanInf."""
import numpy as np

from vlib import dom, wx
from vlib.dom import b_and, b_not, b_or
from vlib.harness import check_equiv
from vlib.symjax import SymArr, kind, obj

BOUNDS = (
    "4 (quick) / 6 (thorough) symbolic steps, shapes (), (2,), dtypes float32/int32/bool; counters up to 300 steps and one inductive "
    "step from any count; fill values numeric, nested inputs"
)
ASSUMPTIONS = ["IEEE float32 bit semantics"]
META = dict(
    title="HasChanged, Counter and FillNanInf report exactly what their names say",
    statement="At every step (Haiku and Flax) change detection is true iff some element differs from the previous step's input, "
    "NaN always counting as different and the dtype's missing-value marker standing in for the input before the first. The counter returns the number of calls made so far. "
    "Filling replaces exactly the NaN and infinite entries of every leaf by the fill value and leaves every other entry bit-identical.",
    over=["inputs", "histories", "configurations"],
    quant="all sequences, dtypes, shapes, nested structures and fill values",
    why="tests use two or three hand-written values",
    files=["src/wax/modules/has_changed.py", "src/wax/modules/counter.py", "src/wax/modules/fill_nan_inf.py",
           "src/wax/flax/modules/has_changed.py", "src/wax/flax/modules/counter.py", "src/wax/flax/modules/fill_nan_inf.py"],
    mech=[("HasChanged / Counter / FillNanInf", "src/wax/modules, src/wax/flax/modules")],
)


def tasks(tier):
    n = 4 if tier == "quick" else 6
    out = []
    for impl in ("haiku", "flax"):
        out.append(dict(name=f"{impl}-changed", fn="t_changed", kw=dict(impl=impl, n=n)))
        out.append(dict(name=f"{impl}-counter", fn="t_counter", kw=dict(impl=impl)))
        out.append(dict(name=f"{impl}-fill", fn="t_fill", kw=dict(impl=impl)))
    return out


def mk(impl, mod, **kw):
    if impl == "haiku":
        import wax.modules as m

        return lambda *x: getattr(m, mod)(**kw)(*x)
    import wax.flax.modules as m

    return getattr(m, mod)(**kw)


MARK = {"f": np.nan, "i": -99999, "b": False}


def t_changed(T, impl, n):
    for dt in (np.float32, np.int32, np.bool_):
        for shape in ((), (2,), (2, 3)):
            def spec(I, xs):
                out = []
                prev = None
                for t in range(n):
                    cond = False
                    for ix in np.ndindex(*shape):
                        x = xs.a[(t,) + ix]
                        p = I.lift_scalar(MARK[kind(dt)], np.dtype(dt)) if t == 0 else xs.a[(t - 1,) + ix]
                        if kind(dt) == "f":
                            eq = I.cmp("eq", x, p, np.dtype(dt))
                        elif kind(dt) == "i":
                            eq = I.i_cmp("eq", x, p, np.dtype(dt))
                        else:
                            eq = dom.b_iff(x, p)
                        cond = b_or(cond, b_not(eq))
                    o = obj(())
                    o[()] = cond
                    out.append(SymArr(o, np.bool_))
                return out

            check_equiv(T, f"changed {np.dtype(dt)} {shape}", lambda I: dict(xs=I.sym("x", (n, *shape), dt)),
                        lambda xs: wx.steps(impl, mk(impl, "HasChanged"), xs), spec, floats="fp",
                        what=f"{impl} HasChanged")
            if T.violations:
                return


def t_counter(T, impl):
    """The counter takes no input: the history is its only variable; a dummy symbolic input keeps the form."""
    for n in (5, 300):
        def run(xs):
            if impl == "haiku":
                import haiku as hk

                from wax.modules import Counter

                def f(x):
                    c = Counter()()
                    return c, hk.get_state("other", [], init=lambda s, d: x) + x

                return wx.scan(impl, f, xs, last=2) if n > 5 else wx.steps(impl, f, xs)
            import flax.linen as nn

            from wax.flax.modules import Counter

            class M(nn.Module):
                @nn.compact
                def __call__(self, x):
                    return Counter()(), x + x

            return wx.scan(impl, M(), xs, last=2) if n > 5 else wx.steps(impl, M(), xs)

        def spec(I, xs):
            if n > 5:
                return (np.arange(n - 1, n + 1, dtype=np.uint32),)
            return [(np.uint32(t + 1),) for t in range(n)]

        check_equiv(T, f"counter {n}", lambda I: dict(xs=I.sym("x", (n,))),
                    lambda xs: pick(run(xs)), spec, floats="fp", validate=1, canary=True, what=f"{impl} Counter")


def pick(o):
    return [(a,) for a, _ in o] if isinstance(o, list) else (o[0],)


def t_fill(T, impl):
    for fv in (0.0, -2.5, 7):
        for shape in ((), (3,), (2, 3)):
            def run(xs, ys):
                # one step only: stateless
                d = {"a": xs, "b": (ys, [xs])}
                if impl == "haiku":
                    import haiku as hk

                    f = hk.transform_with_state(mk(impl, "FillNanInf", fill_value=fv))
                    p, s = f.init(None, d)
                    return f.apply(p, s, None, d)[0]
                m = mk(impl, "FillNanInf", fill_value=fv)
                return m.apply({}, d)

            def fill(I, a):
                dt = a.dtype

                def f(s):
                    bad = b_or(I.isnan(s, dt), isinf(I, s, dt))
                    return I.ite(bad, I.lift_scalar(fv, dt), s, dt)

                return I.map1(f, a, dt)

            check_equiv(T, f"fill {fv} {shape}", lambda I: dict(xs=I.sym("x", shape), ys=I.sym("y", (2,))), run,
                        lambda I, xs, ys: {"a": fill(I, xs), "b": (fill(I, ys), [fill(I, xs)])}, floats="fp",
                        what=f"{impl} FillNanInf({fv})")
            if T.violations:
                return
    check_equiv(T, "fill default", lambda I: dict(xs=I.sym("x", (2,))),
                lambda xs: default_fill(impl, xs), lambda I, xs: default_spec(I, xs), floats="fp", what=f"{impl} FillNanInf()")


def isinf(I, s, dt):
    return b_or(I.cmp("eq", s, I.lift_scalar(np.inf, dt), dt), I.cmp("eq", s, I.lift_scalar(-np.inf, dt), dt))


def default_spec(I, a):
    dt = a.dtype
    return I.map1(lambda s: I.ite(b_or(I.isnan(s, dt), isinf(I, s, dt)), I.lift_scalar(0.0, dt), s, dt), a, dt)


def default_fill(impl, xs):
    if impl == "haiku":
        import haiku as hk

        f = hk.transform_with_state(mk(impl, "FillNanInf"))
        p, s = f.init(None, xs)
        return f.apply(p, s, None, xs)[0]
    return mk(impl, "FillNanInf").apply({}, xs)
