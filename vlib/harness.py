"""Task runner, obligations, replay and evidence."""
from __future__ import annotations

import importlib
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

_now = time.time  # the code under test may see a patched clock

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    def __init__(self, info):
        super().__init__(info.get("what", "violation"))
        self.info = info


class TaskResult(dict):
    pass


class Task:
    """Book-keeping of one task (a family of obligations)."""

    def __init__(self, prop, name, tier):
        self.prop, self.name, self.tier = prop, name, tier
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []
        self.spurious = []
        self.known = []
        self.solver_s = 0.0
        self.queries = 0
        self.steps = 0
        self.states = 0
        self.validated = 0
        self.concrete = 0  # concrete points tried where the encoding does not apply (nothing discharged by them)
        self.vacuity_ok = 0
        self.functions = set()
        self.notes = set()
        self.assumptions = set()
        self.samples = []
        self.bounds = {}
        self.prims = {}
        self.seed = SEED
        self.skipped = []

    def dump(self):
        d = dict(self.__dict__)
        for k in ("functions", "notes", "assumptions"):
            d[k] = sorted(d[k])
        return d

    # -------------------------------------------------------------- solver
    def solve(self, constraints, timeout=20000, tactic=None):
        from .z3load import z3

        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout))
        for c in constraints:
            if isinstance(c, (bool, np.bool_)):
                if not c:
                    self.queries += 1
                    return z3.unsat, None
                continue
            s.add(c)
        t = _now()
        r = s.check()
        self.solver_s += _now() - t
        self.queries += 1
        if r == z3.sat:
            return r, s.model()
        return r, None


# ----------------------------------------------------------------------------- model -> concrete
def z3_to_fraction(v):
    from .z3load import z3

    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    return None


def model_scalar(itp, model, s, dtype):
    """Concrete Python value of scalar s under the model (completion on)."""
    from . import dom
    from .symjax import kind
    from .z3load import z3

    k = kind(dtype)
    dtype = np.dtype(dtype)

    def mb(b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        return z3.is_true(model.eval(b, model_completion=True))

    if k == "b":
        return mb(s)
    if k == "i":
        if dom.is_c(s):
            return int(s)
        v = model.eval(s, model_completion=True)
        if z3.is_bv_value(v):
            return v.as_signed_long() if dtype.kind == "i" else v.as_long()
        return v.as_long() if z3.is_int_value(v) else None
    if itp.floats == "fp":
        if isinstance(s, np.floating):
            return s
        v = model.eval(s, model_completion=True)
        return fp_model_value(v, dtype)
    if mb(s.nan):
        return dtype.type(np.nan)
    if mb(s.pinf):
        return dtype.type(np.inf)
    if mb(s.ninf):
        return dtype.type(-np.inf)
    if isinstance(s.r, Fraction):
        return dtype.type(float(s.r))
    f = z3_to_fraction(model.eval(s.r, model_completion=True))
    return None if f is None else dtype.type(float(f))


def fp_model_value(v, dtype):
    from .z3load import z3

    dtype = np.dtype(dtype)
    if not z3.is_fp_value(v):
        v = z3.simplify(v)
        if not z3.is_fp_value(v):
            return None
    if v.isNaN():
        return dtype.type(np.nan)
    if v.isInf():
        return dtype.type(-np.inf if v.isNegative() else np.inf)
    if v.isZero():
        return dtype.type(-0.0 if v.isNegative() else 0.0)
    bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    u = {2: np.uint16, 4: np.uint32, 8: np.uint64}[dtype.itemsize](bv)
    return u.view(dtype)


def model_array(itp, model, x):
    from .symjax import SymArr

    if not isinstance(x, SymArr):
        return x
    out = np.empty(x.shape, x.dtype)
    for ix in np.ndindex(*x.shape):
        v = model_scalar(itp, model, x.a[ix], x.dtype)
        if v is None:
            return None
        out[ix] = v
    return out


def tree_map_leaves(f, t):
    import jax

    return jax.tree_util.tree_map(f, t)


def leaves_of(t):
    import jax

    return jax.tree_util.tree_leaves(t)


def paths_of(t):
    import jax

    return [
        (jax.tree_util.keystr(p), v) for p, v in jax.tree_util.tree_flatten_with_path(t)[0]
    ]


def np_same(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool(np.array_equal(a, b))
    a64, b64 = a.astype(np.float64), b.astype(np.float64)
    if tol is None:
        return bool(
            np.all((np.isnan(a64) & np.isnan(b64)) | ((a64 == b64) & (np.signbit(a64) == np.signbit(b64))))
        )
    with np.errstate(all="ignore"):
        ok = (np.isnan(a64) & np.isnan(b64)) | (a64 == b64) | (
            np.isfinite(a64) & np.isfinite(b64) & (np.abs(a64 - b64) <= tol * (1 + np.abs(b64)))
        )
    return bool(np.all(ok))


def wax_functions(closed, acc, depth=0):
    """Names of the /repo functions whose operations occur in the jaxpr."""
    from jax._src import source_info_util as siu

    def walk(jaxpr, d):
        for e in jaxpr.eqns:
            tb = e.source_info.traceback
            if tb is not None:
                try:
                    for fr in tb.frames:
                        fn = fr.file_name
                        i = fn.find("/src/wax/")
                        if i >= 0 and not fn.endswith("_test.py"):
                            acc.add(f"{fn[i + 5:]}:{fr.function_name}")
                except Exception:
                    pass
            if d < 6:
                for v in e.params.values():
                    for j in v if isinstance(v, (tuple, list)) else (v,):
                        if hasattr(j, "jaxpr") and hasattr(j.jaxpr, "eqns"):
                            walk(j.jaxpr, d + 1)
                        elif hasattr(j, "eqns"):
                            walk(j, d + 1)

    walk(closed.jaxpr, depth)


def raised_in_wax(ex):
    """Did the exception originate in (or below) code of /repo?  Signature mismatches of our own calls do not count."""
    from .dom import Unsupported

    if isinstance(ex, (Unsupported, ImportError)):
        return False
    tb, wax, fn = ex.__traceback__, False, ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/src/wax/" in fn and not fn.endswith("_test.py"):
            wax = True
        tb = tb.tb_next
    # or in the module systems it runs on (e.g. a lifted state that wax never updates)
    return wax or any(f"/site-packages/{m}/" in fn for m in ("haiku", "flax"))


def confirm_raise(T, I, label, what, ins, ex, run, sample_gen):
    """The traced code raised inside wax: confirm on concrete inputs, where it is a violation (no result at all)."""
    import jax

    rng = np.random.default_rng(T.seed)
    np_in = sample_gen(rng) if sample_gen else jax.tree_util.tree_map(lambda a: random_like(rng, a, I), ins)
    T.obligations += 1
    try:
        run(**jax.tree_util.tree_map(jax.numpy.asarray, np_in))
    except Exception as ex2:
        if raised_in_wax(ex2):
            T.violations.append(dict(
                what=f"{what or label}: raises {type(ex2).__name__}: {str(ex2)[:300]}", task=T.name, label=label,
                inputs={p: np.asarray(v).tolist() for p, v in paths_of(np_in)}, mismatch={"raises": type(ex2).__name__}))
            return None, None, I
    T.spurious.append(f"{label}: tracing raised {type(ex).__name__}: {str(ex)[:300]} but the concrete run did not")
    return None, None, I


# ----------------------------------------------------------------------------- equivalence obligations
def check_equiv(
    T: Task,
    label,
    inputs,
    impl,
    spec,
    *,
    floats="real",
    ints=None,
    assume=None,
    real=None,
    tol=None,
    timeout=20000,
    validate=1,
    per_element=None,
    input_bound=8,
    margin=Fraction(1, 16),
    what=None,
    canary=True,
    sign_oracle=False,
    goal_assume=None,
    known=None,
    interp=None,
    sample_gen=None,
    prepared=None,
    internal=False,
):
    """Decide: for all inputs (symbolic), impl(inputs) is observationally equal to spec(inputs).

    inputs : callable(I) -> dict name -> SymArr/np array (pytree allowed)
    impl   : JAX-traceable callable(**inputs) running the real wax code
    spec   : callable(I, **inputs) -> pytree with the same leaves (SymArr or np arrays);
             None leaves / missing are not compared (use spec returning list of (path-selector))
    assume : callable(I, **inputs) -> list of z3 constraints
    real   : callable(**np inputs) -> outputs (default: impl run by JAX on concrete values)
    """
    import jax

    from . import dom
    from .dom import Unsupported
    from .symjax import Interp, SymArr, kind
    from .z3load import z3

    if interp is None:
        dom._POS.clear()
        dom._NONNEG.clear()
    I = interp or Interp(floats, ints)
    if floats == "real" and tol is None:
        tol = 2e-3
    ins = inputs(I)
    cons = list(assume(I, **ins)) if assume else []
    flat_ins = leaves_of(ins)

    def run_real(np_in):
        if real is not None:
            o = real(**np_in)
        else:
            o = impl(**jax.tree_util.tree_map(jax.numpy.asarray, np_in))
        return dict(paths_of(o))

    def spec_conc(np_in):
        I2 = Interp(floats, ints)
        e = spec(I2, **jax.tree_util.tree_map(lambda a: I2.lift(a), np_in))
        res = {}
        for p, v in paths_of(e):
            c = I2.concretize(v) if isinstance(v, SymArr) else np.asarray(v)
            res[p] = c
        return res, I2

    def backstop(n=16):
        """The encoding does not apply (or the solver gave up): nothing is discharged, but points at which the real code differs
        from the expectation are violations all the same."""
        rng = np.random.default_rng(T.seed + 11)
        for _ in range(n):
            try:
                np_in = sample_gen(rng) if sample_gen else jax.tree_util.tree_map(lambda a: random_like(rng, a, I), ins)
                if cons and not holds(cons, substitution(I, ins, np_in)[0]):
                    continue
                exp, _ = spec_conc(np_in)
                act = run_real(np_in)
            except Exception:
                return False
            T.concrete += 1
            bad = {}
            for q, e in exp.items():
                if e is None:
                    continue
                if q not in act or not np_same(np.asarray(act[q]), e, tol if floats == "real" else None):
                    bad[q] = {"actual": np.asarray(act.get(q)).tolist(), "expected": np.asarray(e).tolist()}
            if bad:
                T.obligations += 1
                T.violations.append({"what": what or label, "task": T.name, "label": label, "note": "found at a concrete point: the encoding does not apply",
                                     "inputs": {q: np.asarray(v).tolist() for q, v in paths_of(np_in)}, "mismatch": bad})
                return True
        return False

    def oracle(t, strict=True):
        key = (t.get_id(), strict)
        if key in oracle.seen:
            return
        oracle.seen[key] = t
        r, _ = T.solve([*I.side, *cons, t <= 0 if strict else t < 0], timeout=2000)
        if r == z3.unsat:
            (dom.mark_pos if strict else dom.mark_nonneg)(t)

    oracle.seen = {}
    old_oracle = dom.SIGN_ORACLE
    if sign_oracle:
        dom.SIGN_ORACLE = oracle
    try:
        names = list(ins)

        def fn(kw):
            return impl(**kw)

        box = []
        if prepared is not None and "closed" in prepared:
            closed, box, in_tree = prepared["closed"], prepared["box"], prepared["tree"]
        else:
            sds = [
                jax.ShapeDtypeStruct(a.shape, a.dtype) if isinstance(a, SymArr) else jax.ShapeDtypeStruct(np.shape(a), np.asarray(a).dtype)
                for a in flat_ins
            ]
            in_tree = jax.tree_util.tree_structure(ins)

            def flat_fn(*fl):
                out = fn(jax.tree_util.tree_unflatten(in_tree, fl))
                of, ot = jax.tree_util.tree_flatten(out)
                box.append(ot)
                return of

            try:
                closed = jax.make_jaxpr(flat_fn)(*sds)
            except Exception as ex:
                if not raised_in_wax(ex):
                    raise
                if internal:
                    T.skipped.append(f"{label}: internal interface not usable: {type(ex).__name__}")
                    return None, None, I
                if not isinstance(ex, Unsupported):
                    before = len(T.violations)
                    confirm_raise(T, I, label, what, ins, ex, real or impl, sample_gen)
                    if len(T.violations) == before:
                        backstop()
                return None, None, I
            if prepared is not None:
                prepared.update(closed=closed, box=box, tree=in_tree)
            wax_functions(closed, T.functions)
        vals = [a if isinstance(a, SymArr) else I._conc(a, v.aval) for a, v in zip(flat_ins, closed.jaxpr.invars)]
        try:
            outs = I.eval_closed(closed, vals)
        except Unsupported as ex:
            T.undecided.append(f"{label}: not encodable: {ex}")
            backstop()
            return None, None, I
        T.steps += I.n_eqns
        out_tree = jax.tree_util.tree_unflatten(box[-1], outs)
        expd = spec(I, **ins)
    finally:
        dom.SIGN_ORACLE = old_oracle
    for k, v in I.prims.items():
        T.prims[k] = T.prims.get(k, 0) + v
    T.notes |= I.notes
    T.states += 1

    exp_paths = paths_of(expd)
    out_paths = dict(paths_of(out_tree))
    base = [*I.side, *[c for c in cons if not isinstance(c, (bool, np.bool_))]]
    if any(isinstance(c, (bool, np.bool_)) and not c for c in cons):
        raise RuntimeError(f"{label}: assumption is constantly false")

    def replay(model):
        np_in = jax.tree_util.tree_map(lambda a: model_array(I, model, a), ins)
        if any(v is None for v in leaves_of(np_in)):
            return None, "model not representable"
        return replay_at(np_in, model)

    def replay_at(np_in, model=None):
        act = run_real(np_in)
        exp, _ = spec_conc(np_in)
        bad = {}
        for p in exp:
            e = exp[p]
            if e is None:  # not constant: use the model
                if model is None:
                    return None, "expected value not concrete"
                ev = dict(exp_paths)[p]
                e = model_array(I, model, ev)
                if e is None:
                    return None, "expected value not representable"
            a = np.asarray(act[p])
            if not np_same(a, e, tol if floats == "real" else None):
                bad[p] = {"actual": a.tolist(), "expected": np.asarray(e).tolist()}
        info = {
            "what": what or label,
            "task": T.name,
            "label": label,
            "inputs": {p: np.asarray(v).tolist() for p, v in paths_of(np_in)},
            "mismatch": bad,
        }
        return bool(bad), info

    # ---- structural agreement
    diffs = []  # (path, ix, cond)
    for p, e in exp_paths:
        if p not in out_paths:
            T.obligations += 1
            T.violations.append(
                {"what": (what or label) + f": the result has structure {sorted(out_paths)}, expected an entry {p}",
                 "task": T.name, "label": label, "inputs": "any", "mismatch": {"structure": [sorted(out_paths), [q for q, _ in exp_paths]]}}
            )
            return out_tree, expd, I
        o = out_paths[p]
        oa = I.lift(o)
        ea = I.lift(e)
        if oa.shape != ea.shape:
            # shape is part of the observable result: confirmed directly by running the code
            T.obligations += 1
            T.violations.append(
                {"what": (what or label) + f": output {p} has shape {oa.shape}, expected {ea.shape}",
                 "task": T.name, "label": label, "inputs": "any", "mismatch": {"shape": [list(oa.shape), list(ea.shape)]}}
            )
            return out_tree, expd, I
        dt = oa.dtype if kind(oa.dtype) == kind(ea.dtype) else None
        if dt is None:
            if kind(ea.dtype) == "f":
                oa = I.map1(lambda s, sd=oa.dtype, dd=ea.dtype: I.convert(s, sd, dd), oa, ea.dtype)
                dt = ea.dtype
            else:
                ea = I.map1(lambda s, sd=ea.dtype, dd=oa.dtype: I.convert(s, sd, dd), ea, oa.dtype)
                dt = oa.dtype
        for ix in np.ndindex(*oa.shape):
            diffs.append((p, ix, oa.a[ix], ea.a[ix], dt))

    # ---- vacuity
    r, _ = T.solve(base, timeout=min(timeout, 10000))
    if r == z3.unsat:
        raise RuntimeError(f"{label}: assumptions are contradictory (vacuous)")
    if r == z3.sat:
        T.vacuity_ok += 1

    # ---- obligations
    def diffcond(d):
        p, ix, a, e, dt = d
        return b_not_same(I, a, e, dt)

    groups = []
    if per_element is None:
        per_element = floats == "real"
    if per_element:
        groups = [[d] for d in diffs]
    else:
        groups = [diffs]
    bad_found = False
    for g in groups:
        T.obligations += 1
        nd = [diffcond(d) for d in g]
        nd = [c for c in nd if not (isinstance(c, (bool, np.bool_)) and not c)]
        if not nd:
            T.discharged += 1
            continue
        goal = dom.b_or(*nd)
        r, m = T.solve([*base, goal], timeout=timeout)
        if r == z3.unsat:
            T.discharged += 1
            continue
        models = []
        if floats == "real":
            big = []
            for (p, ix, a, e, dt) in g:
                if kind(dt) == "f":
                    d = dom._rz(dom.r_sub(a.r, e.r))
                    mg = z3.Q(margin.numerator, margin.denominator)
                    fl = dom.b_or(
                        dom.b_xor(a.nan, e.nan),
                        dom.b_and(dom.b_not(a.nan), dom.b_not(e.nan), dom.b_or(
                            dom.b_xor(a.pinf, e.pinf), dom.b_xor(a.ninf, e.ninf),
                            dom.b_and(a.finite, e.finite, z3.Or(d > mg, d < -mg)))))
                    big.append(fl)
                else:
                    big.append(b_not_same(I, a, e, dt))
            bnd = []
            for x in flat_ins:
                if isinstance(x, SymArr) and kind(x.dtype) == "f":
                    for s in x.a.reshape(-1):
                        if not isinstance(s.r, Fraction):
                            bnd += [s.r <= input_bound, s.r >= -input_bound]
            r2, m2 = T.solve([*base, *bnd, dom.to_z3_bool(dom.b_or(*big))], timeout=timeout)
            if m2 is not None:
                models.append(m2)
            elif r2 == z3.unsat and m is not None:
                r3, m3 = T.solve([*base, dom.to_z3_bool(dom.b_or(*big))], timeout=timeout)
                if m3 is not None:
                    models.append(m3)
        if m is not None:
            models.append(m)
        if not models:
            T.undecided.append(f"{label}: solver returned {r}")
            if backstop():
                bad_found = True
                break
            continue
        confirmed = False
        lasti = None
        for mm in models:
            try:
                ok, info = replay(mm)
            except Exception as ex:  # the real code may raise
                ok, info = None, f"replay raised {type(ex).__name__}: {ex}"
            lasti = info
            if ok:
                confirmed = True
                break
        if not confirmed and not isinstance(lasti, str):
            # the model may interpret opaque functions freely: look for ordinary values showing the same difference
            rng = np.random.default_rng(T.seed + 7)
            for _ in range(12):
                np_in = sample_gen(rng) if sample_gen else jax.tree_util.tree_map(lambda a: random_like(rng, a, I), ins)
                if cons and not holds(cons, substitution(I, ins, np_in)[0]):
                    continue
                try:
                    ok, info = replay_at(np_in)
                except Exception:
                    break
                if ok:
                    confirmed, lasti = True, info
                    break
        if confirmed:
            if known:
                k = known(lasti)
                if k:
                    T.known.append(k)
                    T.discharged += 1
                    continue
            T.violations.append(lasti)
            bad_found = True
            break
        T.spurious.append(f"{label}: counterexample did not reproduce: {str(lasti)[:600]}")
    # ---- translator validation: evaluate the encoded outputs at concrete points, compare with JAX
    if not bad_found and validate:
        rng = np.random.default_rng(T.seed)
        for _ in range(validate):
            np_in = (
                sample_gen(rng) if sample_gen else jax.tree_util.tree_map(lambda a: random_like(rng, a, I), ins)
            )
            sub, okc = substitution(I, ins, np_in)
            if cons and not holds(cons, sub):
                continue
            act = run_real(np_in)
            if len(T.samples) < 3:
                T.samples.append({"label": label, "inputs": {p: str(np.asarray(v).tolist())[:300] for p, v in paths_of(np_in)}})
            allok = True
            for p, e in exp_paths:
                oa = I.lift(out_paths[p])
                v = eval_at(I, oa, sub)
                if v is None:
                    allok = False
                    continue
                if not np_same(act[p], v, tol if floats == "real" else None):
                    # outside the encoding (e.g. a structure that depends on the data): judge the real result itself
                    ok, info = replay_at(np_in)
                    if ok:
                        T.obligations += 1
                        T.violations.append(info)
                        return out_tree, expd, I
                    raise RuntimeError(
                        f"{label}: encoding disagrees with the real code at {p}: "
                        f"{np.asarray(act[p]).tolist()} vs {v.tolist()} inputs {[(q, np.asarray(w).tolist()) for q, w in paths_of(np_in)]}"
                    )
            if allok:
                T.validated += 1
    # ---- canary twin: a perturbed expectation must be refutable
    if canary and not bad_found and diffs:
        p, ix, a, e, dt = diffs[-1]
        k = kind(dt)
        if k == "f" and floats == "real":
            e2 = dom.f_add(a, dom.f_const(1.0))
            e2 = dom.f_ite(a.nan, dom.f_const(0.0), e2)
        elif k == "f":
            e2 = I.ite(I.isnan(a, dt), np.dtype(dt).type(0), np.dtype(dt).type(np.nan), dt)
        elif k == "b":
            e2 = dom.b_not(a)
        else:
            e2 = I.i_bin("add", a, 1, np.dtype(dt))
        r, _ = T.solve([*base, dom.to_z3_bool(b_not_same(I, a, e2, dt))], timeout=min(timeout, 10000))
        if r == z3.unsat:
            raise RuntimeError(f"{label}: canary not refuted (vacuous encoding)")
    return out_tree, expd, I


def b_not_same(I, a, e, dt):
    from . import dom

    return dom.b_not(I.same(a, e, dt))


def random_like(rng, a, I):
    from .symjax import SymArr, kind

    if not isinstance(a, SymArr):
        return a
    out = np.empty(a.shape, a.dtype)
    for ix in np.ndindex(*a.shape):
        s = a.a[ix]
        k = kind(a.dtype)
        c = I.scalar_const(s, a.dtype)
        if c is not None:
            out[ix] = c
        elif k == "b":
            out[ix] = rng.random() < 0.5
        elif k == "i":
            out[ix] = rng.integers(0, 6)
        elif I.floats == "fp":
            out[ix] = np.nan if rng.random() < 0.2 else np.float32(rng.normal())
        else:
            v = float(rng.integers(1, 40)) / 8
            from .dom import r_is_nonneg

            if not isinstance(s.r, Fraction) and not r_is_nonneg(s.r) and rng.random() < 0.5:
                v = -v
            if isinstance(s.r, Fraction):
                v = float(s.r)
            nan = s.nan if isinstance(s.nan, bool) else rng.random() < 0.25
            out[ix] = np.nan if nan else v
    return out


def substitution(I, ins, np_in):
    """Pairs for z3.substitute mapping the input variables to concrete values."""
    from . import dom
    from .symjax import SymArr, kind
    from .z3load import z3

    sub = []
    for a, v in zip(leaves_of(ins), leaves_of(np_in)):
        if not isinstance(a, SymArr):
            continue
        v = np.asarray(v)
        for ix in np.ndindex(*a.shape):
            s, c = a.a[ix], v[ix]
            k = kind(a.dtype)
            if k == "b":
                if isinstance(s, z3.ExprRef):
                    sub.append((s, z3.BoolVal(bool(c))))
            elif k == "i":
                if isinstance(s, z3.ExprRef):
                    sub.append((s, I.iz(int(c), np.dtype(a.dtype))))
            elif I.floats == "fp":
                if isinstance(s, z3.ExprRef):
                    sub.append((s, dom.fp_val(c, a.dtype)))
            else:
                if isinstance(s.r, z3.ExprRef) and s.r.decl().arity() == 0:
                    sub.append((s.r, dom._rz(Fraction(float(c)) if np.isfinite(c) else Fraction(0))))
                for fl, val in ((s.nan, np.isnan(c)), (s.pinf, c == np.inf), (s.ninf, c == -np.inf)):
                    if isinstance(fl, z3.ExprRef) and fl.decl().arity() == 0:
                        sub.append((fl, z3.BoolVal(bool(val))))
    return sub, True


def holds(cons, sub):
    from .z3load import z3

    for c in cons:
        if isinstance(c, (bool, np.bool_)):
            continue
        if not z3.is_true(z3.simplify(z3.substitute(c, *sub))):
            return False
    return True


UF_NUMERIC = {
    "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh, "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "atan": math.atan, "erf": math.erf, "logistic": lambda v: 1 / (1 + math.exp(-v)),
}


def uf_numeric(I, t):
    """Evaluate applications of the uninterpreted transcendental functions at numerals (validation at concrete points only)."""
    from .z3load import z3

    if I.floats != "real" or not I.funcs:
        return t
    for _ in range(60):
        if z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
            return t
        apps, seen, stack = [], set(), [t]
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() == 1 and z3.is_rational_value(u.arg(0)):
                f = UF_NUMERIC.get(u.decl().name())
                if f is None:
                    return t
                try:
                    v = f(float(u.arg(0).as_fraction()))
                except (ValueError, OverflowError):
                    v = 0.0 if u.decl().name() in ("log", "sqrt") else None  # outside the domain: masked by the flags
                if v is None:
                    return t
                apps.append((u, z3.RealVal(str(Fraction(v)))))
            else:
                stack.extend(u.children())
        if not apps:
            return t
        t = z3.simplify(z3.substitute(t, *apps))
    return t


def eval_at(I, x, sub):
    from .symjax import kind
    from .z3load import z3

    out = np.empty(x.shape, x.dtype)

    def ev(t):
        t = z3.simplify(z3.substitute(t, *sub)) if sub else z3.simplify(t)
        return uf_numeric(I, t)

    def evb(b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        v = ev(b)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    for ix in np.ndindex(*x.shape):
        s = x.a[ix]
        k = kind(x.dtype)
        if k == "b":
            v = evb(s)
        elif k == "i":
            if isinstance(s, z3.ExprRef):
                v = ev(s)
                if z3.is_bv_value(v):
                    v = v.as_signed_long() if x.dtype.kind == "i" else v.as_long()
                elif z3.is_int_value(v):
                    v = v.as_long()
                else:
                    v = None
            else:
                v = s
        elif I.floats == "fp":
            v = fp_model_value(ev(s), x.dtype) if isinstance(s, z3.ExprRef) else s
        else:
            n, pi, ni = evb(s.nan), evb(s.pinf), evb(s.ninf)
            if n is None or pi is None or ni is None:
                v = None
            elif n:
                v = np.nan
            elif pi:
                v = np.inf
            elif ni:
                v = -np.inf
            elif isinstance(s.r, Fraction):
                v = float(s.r)
            else:
                f = z3_to_fraction(ev(s.r))
                v = None if f is None else float(f)
        if v is None:
            return None
        out[ix] = v
    return out


# ----------------------------------------------------------------------------- relational obligations
def check_prop(
    T: Task, label, inputs, impl, prop, *, floats="real", ints=None, assume=None, real=None, tol=2e-3, timeout=20000,
    validate=1, input_bound=8, margin=1 / 16, what=None, canary=True, sign_oracle=False, sample_gen=None, internal=False,
):
    """Decide: for all inputs, every condition of prop(I, ins, outs, slack=0) holds of outs = impl(ins).

    prop returns a list of (name, condition); with slack > 0 the conditions are relaxed by about that much (used to find a
    counterexample that survives rounding and to judge the concrete re-run).
    """
    import jax

    from . import dom
    from .symjax import Interp, SymArr, kind
    from .z3load import z3

    dom._POS.clear()
    dom._NONNEG.clear()
    I = Interp(floats, ints)
    ins = inputs(I)
    cons = list(assume(I, **ins)) if assume else []
    flat = leaves_of(ins)
    tree = jax.tree_util.tree_structure(ins)
    box = []

    def flat_fn(*fl):
        of, ot = jax.tree_util.tree_flatten(impl(**jax.tree_util.tree_unflatten(tree, fl)))
        box.append(ot)
        return of

    sds = [jax.ShapeDtypeStruct(a.shape, a.dtype) if isinstance(a, SymArr)
           else jax.ShapeDtypeStruct(np.shape(a), np.asarray(a).dtype) for a in flat]
    try:
        closed = jax.make_jaxpr(flat_fn)(*sds)
    except Exception as ex:
        if not raised_in_wax(ex):
            raise
        if internal:
            T.skipped.append(f"{label}: internal interface not usable: {type(ex).__name__}")
            return None
        return confirm_raise(T, I, label, what, ins, ex, real or impl, sample_gen)
    wax_functions(closed, T.functions)
    vals = [a if isinstance(a, SymArr) else I._conc(a, v.aval) for a, v in zip(flat, closed.jaxpr.invars)]
    old = dom.SIGN_ORACLE

    def oracle(t, strict=True):
        key = (t.get_id(), strict)
        if key in oracle.seen:
            return
        oracle.seen[key] = t
        r, _ = T.solve([*I.side, *cons, t <= 0 if strict else t < 0], timeout=2000)
        if r == z3.unsat:
            (dom.mark_pos if strict else dom.mark_nonneg)(t)

    oracle.seen = {}
    if sign_oracle:
        dom.SIGN_ORACLE = oracle
    try:
        outs = [I.lift(o) for o in I.eval_closed(closed, vals)]
    finally:
        dom.SIGN_ORACLE = old
    out_tree = jax.tree_util.tree_unflatten(box[-1], outs)
    T.steps += I.n_eqns
    T.states += 1
    for k, v in I.prims.items():
        T.prims[k] = T.prims.get(k, 0) + v
    T.notes |= I.notes
    try:
        conds = prop(I, ins, out_tree, 0)
        weak = dict(prop(I, ins, out_tree, margin))
    except (IndexError, KeyError) as ex:
        T.obligations += 1
        T.violations.append(dict(what=f"{what or label}: the result does not have the documented structure ({ex!r})", task=T.name,
                                 label=label, inputs="any", mismatch={"shapes": [list(o.shape) for o in outs]}))
        return out_tree
    base = [*I.side, *[c for c in cons if not isinstance(c, (bool, np.bool_))]]
    r, _ = T.solve(base, timeout=min(timeout, 10000))
    if r == z3.unsat:
        raise RuntimeError(f"{label}: assumptions are contradictory (vacuous)")
    T.vacuity_ok += r == z3.sat

    def run_real(np_in):
        o = (real or impl)(**jax.tree_util.tree_map(jax.numpy.asarray, np_in)) if real is None else real(**np_in)
        return jax.tree_util.tree_map(np.asarray, o)

    def judge(np_in):
        """Conditions violated by the concrete run (None: not decided)."""
        act = run_real(np_in)
        I2 = Interp(floats, ints)
        lift = lambda t: jax.tree_util.tree_map(I2.lift, t)
        bad = []
        s = z3.Solver()
        s.set("timeout", 5000)
        for nm, c in prop(I2, lift(np_in), lift(act), tol):
            if not isinstance(c, (bool, np.bool_)):
                c = z3.simplify(c)
                if z3.is_true(c):
                    continue
                if not z3.is_false(c):
                    s.push()
                    for sd in I2.side:
                        s.add(sd)
                    s.add(z3.Not(c))
                    hit = s.check() == z3.sat
                    s.pop()
                    if not hit:
                        continue
                bad.append(nm)
            elif not c:
                bad.append(nm)
        return bad, act

    def info_of(np_in, bad, act):
        return dict(what=what or label, task=T.name, label=label,
                    inputs={p: np.asarray(v).tolist() for p, v in paths_of(np_in)},
                    mismatch=dict(violated=bad, outputs={p: np.asarray(v).tolist() for p, v in paths_of(act)}))

    for nm, c in conds:
        T.obligations += 1
        neg = dom.b_not(c)
        if isinstance(neg, (bool, np.bool_)) and not neg:
            T.discharged += 1
            continue
        r, m = T.solve([*base, neg], timeout=timeout)
        if r == z3.unsat:
            T.discharged += 1
            continue
        models = []
        bnd = []
        for x in flat:
            if isinstance(x, SymArr) and kind(x.dtype) == "f" and floats == "real":
                bnd += [z3.And(s.r <= input_bound, s.r >= -input_bound) for s in x.a.reshape(-1) if not isinstance(s.r, Fraction)]
        wn = dom.b_not(weak[nm])
        for extra in (bnd, []):
            if not (isinstance(wn, bool) and not wn):
                _, m2 = T.solve([*base, *extra, wn], timeout=timeout)
                if m2 is not None:
                    models.append(m2)
                    break
        if m is not None:
            models.append(m)
        if not models:
            T.undecided.append(f"{label}/{nm}: solver returned {r}")
            continue
        last = None
        for mm in models:
            np_in = jax.tree_util.tree_map(lambda a: model_array(I, mm, a), ins)
            if any(v is None for v in leaves_of(np_in)):
                last = "model not representable"
                continue
            bad, act = judge(np_in)
            last = info_of(np_in, bad, act)
            if bad:
                T.violations.append(last)
                return out_tree
        T.spurious.append(f"{label}/{nm}: counterexample did not reproduce: {str(last)[:600]}")
    if validate:
        rng = np.random.default_rng(T.seed)
        for _ in range(validate):
            np_in = sample_gen(rng) if sample_gen else jax.tree_util.tree_map(lambda a: random_like(rng, a, I), ins)
            sub, _ = substitution(I, ins, np_in)
            if cons and not holds(cons, sub):
                continue
            bad, act = judge(np_in)
            if bad:
                raise RuntimeError(f"{label}: concrete run violates {bad} although the encoding satisfies it: {info_of(np_in, bad, act)}")
            for (p, o), a in zip(paths_of(out_tree), leaves_of(act)):
                v = eval_at(I, o, sub)
                if v is not None and not np_same(a, v, tol if floats == "real" else None):
                    raise RuntimeError(f"{label}: encoding disagrees with the real code at {p}: {a} vs {v}: {np_in}")
            T.validated += 1
            if len(T.samples) < 3:
                T.samples.append({"label": label, "inputs": {p: str(np.asarray(v).tolist())[:300] for p, v in paths_of(np_in)}})
    return out_tree
