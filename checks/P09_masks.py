"""P09: masked operations: ApplyMask, MaskMean, MaskStd, MaskNormalize."""
import itertools
from fractions import Fraction

import numpy as np

from vlib import dom
from vlib.dom import b_and, b_not, b_or, f_add, f_const, f_div, f_ite, f_mul, f_sub
from vlib.harness import check_equiv, check_prop
from vlib.symjax import SymArr, obj

BOUNDS = (
    "ApplyMask and MaskMean: symbolic masks and data, shapes (2,), (3,), (2,2), (2,3), (3,2); MaskStd/MaskNormalize: symbolic data, "
    "every mask of shapes (2,), (3,), (2,2), 12 masks of shape (2,3) (quick), every mask of (2,3), (3,2) (thorough); axis None, 0, 1; both "
    "centering modes; trees of leaves"
    "; symbolic int32 and boolean data of shape (3,2)"
)
ASSUMPTIONS = ["real arithmetic with NaN flags for MaskMean/MaskStd/MaskNormalize (results up to rounding); inputs finite or NaN",
               "the regularisation added under the square root is between 0 and 2e-7"]
META = dict(
    title="Masked mean, std and normalisation use exactly the selected entries of the axis",
    statement="For Haiku and Flax: ApplyMask keeps every entry whose mask (aligned with the given axis) is true bit for bit and puts "
    "mask_value elsewhere. MaskMean is the sum of the selected entries along the axis (missing values count as zero) divided by the "
    "number of selected entries, NaN when none is selected. MaskStd is the (population) root mean square deviation of those entries "
    "from that mean, or from zero with assume_centered, up to the documented tiny regularisation, and exactly zero without deviation; "
    "masked-out entries never influence it. MaskNormalize divides every entry by the MaskStd of its own row/column group and returns "
    "0 where the quotient is not a finite number."
    " Mean, std and normalisation of integer and boolean data are those of the same data as floats.",
    over=["inputs", "configurations"],
    quant="all masks, data with missing values, shapes, axes and centering modes",
    why="tests compare one or two fixed arrays, mostly square and without axis",
    files=["src/wax/modules/apply_mask.py", "src/wax/modules/mask_mean.py", "src/wax/modules/mask_std.py",
           "src/wax/modules/mask_normalize.py", "src/wax/flax/modules/apply_mask.py", "src/wax/flax/modules/mask_mean.py",
           "src/wax/flax/modules/mask_std.py", "src/wax/flax/modules/mask_normalize.py"],
    mech=[("ApplyMask / MaskMean / MaskStd / MaskNormalize", "src/wax/modules and src/wax/flax/modules mask_*.py, apply_mask.py")],
    note="The behaviour of MaskStd for an empty selection differs between Haiku (0) and Flax (NaN): either is accepted.",
)
f32 = np.dtype(np.float32)


def tasks(tier):
    out = []
    shp = [(2,), (3,), (2, 2), (2, 3)] + ([(3, 2)] if tier == "thorough" else [])
    for impl in ("haiku", "flax"):
        out.append(dict(name=f"{impl}-apply", fn="t_apply", kw=dict(impl=impl)))
        out.append(dict(name=f"{impl}-mean", fn="t_mean", kw=dict(impl=impl, shapes=shp + [(3, 2)])))
        for sh in shp:
            for axis in (None, 0, 1)[: len(sh) + 1]:
                for c in (False, True):
                    for mod in ("MaskStd", "MaskNormalize"):
                        out.append(dict(name=f"{impl}-{mod}-{'x'.join(map(str, sh))}-axis{axis}-{'centered' if c else 'mean'}", fn="t_std",
                                        kw=dict(impl=impl, mod=mod, shape=sh, axis=axis, centered=c)))
    for impl in ("haiku", "flax"):
        out.append(dict(name=f"{impl}-ints", fn="t_ints", kw=dict(impl=impl)))
    return out


def t_ints(T, impl):
    from vlib.intdata import same_as_float

    for mod in ("MaskMean", "MaskStd", "MaskNormalize"):
        kw = {} if mod == "MaskMean" else dict(axis=0)
        same_as_float(T, f"{impl} {mod}", lambda x, m: mk(impl, mod, **kw)(m, x), [(3, 2)], f"{impl} {mod}", others={"m": ((3, 2), np.bool_)})


def mk(impl, mod, **kw):
    """callable(mask, x) running the module once."""
    import jax

    if impl == "haiku":
        import haiku as hk
        import wax.modules as m

        f = hk.transform_with_state(lambda mask, x: getattr(m, mod)(**kw)(mask, x))

        def run(mask, x):
            p, s = f.init(jax.random.PRNGKey(0), mask, x)
            return f.apply(p, s, None, mask, x)[0]

        return run
    import wax.flax.modules as m

    mod_ = getattr(m, mod)(**kw)
    return lambda mask, x: mod_.init_with_output(jax.random.PRNGKey(0), mask, x)[0]


def t_apply(T, impl):
    for dt in (np.float32, np.int32):
        for shape in ((2,), (2, 2), (2, 3), (3, 2)):
            for axis in (None, 0, 1) if len(shape) == 2 else (None,):
                for mv in (0.0, 7.0) if dt == np.float32 else (0, 7):
                    ms = shape if axis is None else (shape[axis],)

                    def spec(I, mask, x):
                        o = obj(shape)
                        for ix in np.ndindex(*shape):
                            c = mask.a[ix if axis is None else (ix[axis],)]
                            o[ix] = I.ite(c, x.a[ix], I.lift_scalar(mv, np.dtype(dt)), np.dtype(dt))
                        return {"a": SymArr(o, dt)}

                    check_equiv(T, f"{np.dtype(dt)} {shape} axis={axis} value={mv}",
                                lambda I: dict(mask=I.sym("m", ms, np.bool_), x=I.sym("x", shape, dt)),
                                lambda mask, x: mk(impl, "ApplyMask", axis=axis, mask_value=mv)(mask, {"a": x}), spec, floats="fp",
                                what=f"{impl} ApplyMask(axis={axis}) keeps the wrong entries")
                    if T.violations:
                        return


def groups(shape, axis):
    """list of (output index, list of member indices)"""
    idx = list(np.ndindex(*shape))
    if axis is None:
        return [((), idx)]
    out = {}
    for ix in idx:
        out.setdefault(ix[:axis] + ix[axis + 1:], []).append(ix)
    return list(out.items())


def z0(s):
    """missing counts as zero"""
    return f_ite(s.nan, f_const(0.0), s)


def t_mean(T, impl, shapes):
    for shape in shapes:
        for axis in (None, 0, 1)[: len(shape) + 1]:
            def spec(I, mask, x):
                gs = groups(shape, axis)
                o = obj(tuple(s for i, s in enumerate(shape) if axis is not None and i != axis))
                for k, mem in gs:
                    sm, cnt = f_const(0.0), f_const(0.0)
                    for ix in mem:
                        sm = f_add(sm, f_ite(mask.a[ix], z0(x.a[ix]), f_const(0.0)))
                        cnt = f_add(cnt, f_ite(mask.a[ix], f_const(1.0), f_const(0.0)))
                    o[k] = f_div(sm, cnt)
                    o[k] = f_ite(b_not(b_or(*[mask.a[ix] for ix in mem])), dom.NAN, o[k])
                return [SymArr(o, f32)]

            check_equiv(T, f"{shape} axis={axis}", lambda I: dict(mask=I.sym("m", shape, np.bool_), x=I.sym("x", shape)),
                        lambda mask, x: mk(impl, "MaskMean", axis=axis)(mask, [x]), spec,
                        what=f"{impl} MaskMean(axis={axis}) is not the mean of the selected entries", validate=3)
            if T.violations:
                return


def group_var(x, mask, mem, centered):
    sel = [z0(x.a[ix]) for ix in mem if mask[ix]]
    if not sel:
        return None
    n = f_const(float(len(sel)))
    sm = f_const(0.0)
    for s in sel:
        sm = f_add(sm, s)
    mean = f_const(0.0) if centered else f_div(sm, n)
    v = f_const(0.0)
    for s in sel:
        d = f_sub(s, mean)
        v = f_add(v, f_mul(d, d))
    return f_div(v, n)


def t_std(T, impl, mod, shape, axis, centered):
    gs = groups(shape, axis)
    eps = f_const(Fraction(2, 10**7))

    def ins_std(outs, k):
        return outs["s"].a[k]

    allbits = list(itertools.product((False, True), repeat=int(np.prod(shape))))
    if len(allbits) > 16 and T.tier == "quick":
        rng = np.random.default_rng(7)
        allbits = [allbits[i] for i in sorted({0, len(allbits) - 1, *rng.choice(len(allbits), 10).tolist()})]
    for bits in allbits:
        mask = np.array(bits).reshape(shape)

        def prop(I, ins, outs, slack):
            x, out = ins["x"], outs["r"]
            res = []
            sl = f_const(slack)
            le = lambda a, b: dom.f_le(a, f_add(b, sl))
            for k, mem in gs:
                var = group_var(x, mask, mem, centered)
                if mod == "MaskStd":
                    s = out.a[k]
                    if var is None:
                        res.append((f"{k} empty", b_or(s.nan, dom.f_eq(s, f_const(0.0)))))
                        continue
                    s2 = f_mul(s, s)
                    res.append((f"{k} finite and >= 0", b_and(b_not(s.nan), b_not(s.inf), dom.f_le(f_const(0.0), s))))
                    res.append((f"{k} s^2 >= var", le(var, s2)))
                    res.append((f"{k} s^2 <= var+eps", le(s2, f_add(var, eps))))
                    res.append((f"{k} zero", b_or(b_not(dom.f_eq(var, f_const(0.0))), le(s2, f_const(0.0)))))
                    continue
                s = ins_std(outs, k)
                for ix in mem:
                    o, xi = out.a[ix], x.a[ix]
                    q = f_div(xi, s)
                    q = f_ite(b_or(q.nan, q.inf), f_const(0.0), q)
                    res.append((f"{ix} finite", b_and(b_not(o.nan), b_not(o.inf))))
                    res.append((f"{ix} = x / std", b_and(le(o, q), le(q, o)) if slack else dom.f_eq(o, q)))
            return res

        def run(x):
            kw = dict(axis=axis, assume_centered=centered)
            o = {"r": mk(impl, mod, **kw)(mask, x)}
            if mod != "MaskStd":
                o["s"] = mk(impl, "MaskStd", **kw)(mask, x)
            return o

        check_prop(T, f"mask={mask.astype(int).tolist()}", lambda I: dict(x=I.sym("x", shape)), run, prop, timeout=30000,
                   sample_gen=lambda rng: dict(x=np.where(rng.random(shape) < 0.2, np.nan, rng.normal(size=shape)).astype(np.float32)),
                   what=f"{impl} {mod}(axis={axis}, assume_centered={centered}) does not use exactly the selected entries")
        if T.violations:
            return
