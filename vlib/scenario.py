"""Scenarios of host code: one function run on symbolic values (all paths, solver) and on the values of a model (replay).

`scenario(env)` returns (actual, expected): plain containers of numbers, booleans and strings.  Every path must make
them equal; a model of a difference is replayed by running the same scenario on the model's numbers.
"""
from __future__ import annotations

import math

import numpy as np

from . import dom
from .dom import F, Unsupported
from .harness import raised_in_wax
from .pysym import SBool, SInt, SReal, _fz, cur, explore
from .z3load import z3


class Env:
    """Values of a scenario: symbolic (md None) or taken from a model."""

    def __init__(self, md=None):
        self.md = md
        self.vals = {}

    @property
    def concrete(self):
        return self.md is not None

    def real(self, name, lo=None, hi=None):
        if name in self.vals:
            return self.vals[name]
        v = z3.Real(name)
        if self.concrete:
            x = self.md.eval(v, model_completion=True)
            if not z3.is_rational_value(x):
                x = x.approx(20)
            r = float(x.as_fraction())
        else:
            if lo is not None:
                cur().assume(v >= lo)
            if hi is not None:
                cur().assume(v <= hi)
            r = SReal(F(v))
        self.vals[name] = r
        return r

    def int(self, name, lo, hi):
        """Symbolic integer made concrete by forking."""
        if name in self.vals:
            return self.vals[name]
        v = z3.Int(name)
        if self.concrete:
            r = self.md.eval(v, model_completion=True).as_long()
        else:
            cur().assume(z3.And(v >= lo, v <= hi))
            r = lo
            while r < hi and not cur().decide(v == r):
                r += 1
        self.vals[name] = r
        return r

    def flag(self, name):
        if name in self.vals:
            return self.vals[name]
        v = z3.Bool(name)
        r = z3.is_true(self.md.eval(v, model_completion=True)) if self.concrete else SBool(v)
        self.vals[name] = r
        return r

    def shown(self):
        return {k: v for k, v in self.vals.items()} if self.concrete else {}


NUM = (int, float, np.integer, np.floating, SReal, SInt)


class RandomEnv(Env):
    """Concrete values on a small grid (backstop for paths the encoding cannot follow)."""

    def __init__(self, rng):
        super().__init__(md=False)
        self.rng = rng

    def real(self, name, lo=None, hi=None):
        if name not in self.vals:
            a = -4.0 if lo is None else float(lo)
            b = a + 8.0 if hi is None else float(hi)
            self.vals[name] = a + (b - a) * int(self.rng.integers(0, 17)) / 16
        return self.vals[name]

    def int(self, name, lo, hi):
        if name not in self.vals:
            self.vals[name] = int(self.rng.integers(lo, hi + 1))
        return self.vals[name]

    def flag(self, name):
        if name not in self.vals:
            self.vals[name] = bool(self.rng.integers(0, 2))
        return self.vals[name]


def backstop(T, label, scenario, n=60):
    """The encoding does not apply: nothing is discharged, but points at which the real code differs are violations all the same."""
    rng = np.random.default_rng(T.seed + 11)
    for _ in range(n):
        bad, info = replay(scenario, None, RandomEnv(rng))
        T.concrete += bool(info)
        if bad:
            T.violations.append(dict(what=label, task=T.name, label=label, note="found at a concrete point: the encoding does not apply", **info))
            return True
    return False


def differs(a, e, path=""):
    """list of (path, condition) under which a and e differ; condition a z3 term or bool."""
    if isinstance(e, dict):
        if not isinstance(a, dict) or list(map(str, sorted(a, key=str))) != list(map(str, sorted(e, key=str))):
            return [(path, True)]
        return [d for k in e for d in differs(a[k], e[k], f"{path}/{k}")]
    if isinstance(e, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(e):
            return [(path, True)]
        return [d for i, (x, y) in enumerate(zip(a, e)) for d in differs(x, y, f"{path}/{i}")]
    if isinstance(e, (bool, np.bool_, SBool)):
        if not isinstance(a, (bool, np.bool_, SBool)):
            return [(path, True)]
        c = dom.b_xor(*[x.z if isinstance(x, SBool) else bool(x) for x in (a, e)])
        return [] if c is False else [(path, c)]
    if isinstance(e, NUM):
        if not isinstance(a, NUM) or isinstance(a, bool):
            return [(path, True)]
        if any(isinstance(x, (SReal, SInt)) for x in (a, e)):
            c = dom.b_not(dom.f_same(_fz(a), _fz(e)))
        else:
            a, e = float(a), float(e)
            c = not (a == e or math.isnan(a) and math.isnan(e) or abs(a - e) <= 1e-9 * max(1.0, abs(a), abs(e)))
        return [] if c is False else [(path, c)]
    return [] if type(a) is type(e) and a == e else [(path, True)]


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (np.integer, np.floating)):
        return float(x)
    return x if isinstance(x, (int, float, bool, str)) or x is None else repr(x)[:200]


def replay(scenario, md, env=None):
    """-> (differs, info) on the real code with the model's values"""
    env = env or Env(md)
    try:
        a, e = scenario(env)
    except Exception as ex:
        if isinstance(ex, Unsupported) or isinstance(env, RandomEnv) and not raised_in_wax(ex):
            return False, {}
        return True, dict(values=plain(env.shown()), raised=repr(ex)[:300])
    d = [p for p, c in differs(a, e)]
    return bool(d), dict(values=plain(env.shown()), at=d[:5], actual=plain(a) if d else None, expected=plain(e) if d else None)


def check_scenario(T, label, scenario, max_paths=4000, timeout=20000, max_validate=40, deep=400):
    n = lost = 0
    for pc, res, exc in explore(T, lambda: scenario(Env()), max_paths=max_paths, max_decisions=deep, soft=True):
        T.obligations += 1
        n += 1
        if exc is not None:
            r, md = T.solve(pc)
            bad, info = replay(scenario, md) if md is not None else (False, {})
            if bad:
                T.violations.append(dict(what=label, task=T.name, label=label, exception=repr(exc)[:300], **info))
            else:
                T.undecided.append(f"{label}: {exc!r}"[:400])
                lost += 1
                if lost == 1 and backstop(T, label, scenario):
                    return
                if lost < 20:
                    continue
            return
        ds = differs(*res)
        conds = [z3.BoolVal(bool(c)) if isinstance(c, (bool, np.bool_)) else c for _, c in ds]
        r, md = T.solve(pc + [z3.Or(*conds)], timeout=timeout) if conds else (z3.unsat, None)
        if r == z3.unsat:
            T.discharged += 1
            if n <= max_validate:
                _, md = T.solve(pc)
                if md is not None:
                    T.vacuity_ok += 1
                    T.validated += 1
                    bad, info = replay(scenario, md)
                    if bad and "raised" in info:
                        T.violations.append(dict(what=label, task=T.name, label=label, note="validation point", **info))
                        return
                    if bad:
                        T.spurious.append(f"{label}: validation point differs: {info}"[:600])
                        return
        elif r == z3.sat:
            bad, info = replay(scenario, md)
            if bad:
                T.violations.append(dict(what=label, task=T.name, label=label, **info))
            else:
                T.spurious.append(f"{label}: {[p for p, _ in ds][:5]} {info}"[:600])
                backstop(T, label, scenario)
            return
        else:
            T.undecided.append(f"{label}: {r}")
            if not lost and backstop(T, label, scenario):
                return
            lost += 1


# --------------------------------------------------------------------------- stand-ins for host functions
def clock_patches(now):
    """Every clock of the time module reads now() (seconds)."""
    import time

    def clock(shift, f=1):
        return lambda *a: (now() + shift) * f if f != 1 or shift else now()

    # different origins, as in reality: a duration must be measured with one clock
    shifts = dict(time=0, perf_counter=-700, monotonic=-300, process_time=-900)
    return [*((time, k, clock(v)) for k, v in shifts.items()), *((time, k + "_ns", clock(v, 10**9)) for k, v in shifts.items())]



def sum_patches():
    """Functions that would turn symbolic numbers into floats."""
    import math
    import statistics

    def mean(x, *a):
        x = list(x)
        return sum(x) / len(x)

    def median(x):
        x = sorted(x)
        k = len(x) // 2
        return x[k] if len(x) % 2 else (x[k - 1] + x[k]) / 2

    return [(statistics, "mean", mean), (statistics, "fmean", mean), (statistics, "median", median), (statistics, "stdev", lambda x, *a: 0.0),
            (statistics, "pstdev", lambda x, *a: 0.0), (math, "fsum", lambda x: sum(x))]


def everywhere(package, items, extra=()):
    """items: (module, name, value) to patch; also replaces the names under which the modules of the package imported the originals.
    extra: (name, value) set in every module of the package (shadowing a builtin)."""
    import sys

    mods = [m for k, m in list(sys.modules.items()) if (k == package or k.startswith(package + ".")) and m is not None]
    out = list(items)
    for o, n, v in items:
        orig = getattr(o, n)
        for m in mods:
            out += [(m, k, v) for k, x in list(vars(m).items()) if x is orig]
    return out + [(m, n, v) for m in mods for n, v in extra]
