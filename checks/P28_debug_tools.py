"""P28: debugging, profiling and memory-tracking tools of the Flax API observe exactly and never interfere."""
import contextlib
import io
import itertools
import types

import numpy as np

from vlib.harness import check_equiv
from vlib.scenario import check_scenario

BOUNDS = ("every stacking of the three decorators, 3 steps, symbolic states and inputs; sessions of 3-6 (quick) / 4-7 (thorough) calls with symbolic values, "
          "thresholds, times, memory and enabled/force flags; histories of 1..4; 10..12 records for leak detection")
ASSUMPTIONS = [
    "the clock (time.time, perf_counter, monotonic) advances, and the process memory changes, only inside the decorated function or between calls; psutil and the clock are stand-ins returning symbolic values",
    "numbers are exact reals; statistics.mean/median/stdev replaced by their definitions (standard deviations opaque, not compared); profiler recommendations and printed text not covered",
]
META = dict(
    title="Debugging tools record exactly what ran and never change it",
    statement="Functions decorated with debug_streaming, profile_streaming, track_memory_usage (stacked in any order, tools enabled or not) have the same init and apply "
    "results, call the function once per call and let its exceptions through. StreamingDebugger, while enabled, counts every step, keeps the last max_history states (for Flax states: the shapes of 'params' and the values of 'state') and "
    "fires a hook exactly when the hook is enabled and its condition holds (a failing or absent condition does not), each time adding one hit and an event with that step's number, state, input, output (NamedTuples included) and execution time, the last max_events kept; "
    "value_threshold, step_interval, state_change_detector and the performance monitor mean what they say. StreamingProfiler makes one record per call, with the elapsed time, memory, change of memory and data sizes; "
    "total_steps counts them, mean, median, min and max are over the last max_history, bottlenecks are the calls above the threshold, a leak is reported exactly when memory grew by more than the "
    "threshold over the last ten records, module summaries cover the module's records, and a report on no data says so. MemoryTracker takes a snapshot at every snapshot_interval-th call or when forced, keeps the last max_snapshots with the change since the previous one; "
    "with five or more it records a leak exactly when the slope of memory over steps of the last ten exceeds threshold/100 per step and the growth exceeds the threshold, with that rate and growth, severity by growth; "
    "sizes of params, state and buffers are those of the (dict or FrozenDict) state. Disabled tools record nothing.",
    over=["inputs", "histories", "configurations"],
    quant="all inputs, states, times, memory readings, thresholds and on/off histories within the bound",
    why="tests record a few calls with real clocks, constant data and generous thresholds and check that some events exist",
    files=["src/wax/flax/debug/debugger.py", "src/wax/flax/debug/profiler.py", "src/wax/flax/debug/memory_tracker.py"],
    mech=[("debug_streaming, StreamingDebugger, DebugHook and conditions", "src/wax/flax/debug/debugger.py"),
          ("profile_streaming, StreamingProfiler, ProfileResult", "src/wax/flax/debug/profiler.py"),
          ("track_memory_usage, MemoryTracker", "src/wax/flax/debug/memory_tracker.py")],
)
DECOS = ("debug", "profile", "memory")
STACKS = ["debug", "profile", "memory", "debug+profile", "memory+debug", "profile+memory", "debug+profile+memory", "memory+profile+debug"]


def tasks(tier):
    q = tier == "quick"
    out = []
    for st in STACKS:
        out.append(dict(name=f"transparent-{st}", fn="t_transparent", kw=dict(stack=st, n=3)))
    out.append(dict(name="exceptions", fn="t_exceptions"))
    for hist in (1, 2, 3):
        out.append(dict(name=f"debugger-copies-{hist}", fn="t_copies", kw=dict(hist=hist, n=3 if q else 4)))
        out.append(dict(name=f"debugger-hooks-{hist}", fn="t_hooks", kw=dict(hist=hist, n=3 if q else 4)))
    for track, perf in ((False, True), (True, False), (False, False)):
        out.append(dict(name=f"debugger-hooks-{track}-{perf}", fn="t_hooks", kw=dict(hist=2, n=2 if q else 3, track=track, perf=perf)))
    out.append(dict(name="debugger-conditions", fn="t_conditions", kw=dict(n=4 if q else 6)))
    out.append(dict(name="debugger-manage", fn="t_manage", kw=dict(n=3 if q else 4)))
    for hist in (1, 2, 4):
        for k in range(len(SESSIONS)):
            out.append(dict(name=f"profiler-{hist}-{k}", fn="t_profiler", kw=dict(hist=hist, n=3 if q else 4, session=k)))
    out.append(dict(name="profiler-options", fn="t_profiler_options"))
    for n in (9, 10, 11, 12):
        out.append(dict(name=f"profiler-leak-{n}", fn="t_profiler_leak", kw=dict(n=n)))
    for k, cap in [(1, 2), (1, 4), (2, 2), (3, 4)]:
        out.append(dict(name=f"memory-snapshots-{k}-{cap}", fn="t_snapshots", kw=dict(interval=k, cap=cap, n=5 if q else 6)))
    for k, n, cap in [(1, 4, 9), (1, 5, 9), (1, 6, 5), (2, 5, 9), (3, 5, 9), (1, 5, 4)] + ([] if q else [(1, 8, 20), (2, 7, 6), (1, 11, 20)]):
        out.append(dict(name=f"memory-leak-{k}-{n}-{cap}", fn="t_leak", kw=dict(interval=k, n=n, cap=cap)))
    for k, n, cap, fixed in [(1, 12, 20, 9), (2, 12, 11, 10)] + ([] if q else [(1, 14, 20, 10), (1, 13, 9, 9)]):
        out.append(dict(name=f"memory-leak-{k}-{n}-{cap}-{fixed}", fn="t_leak", kw=dict(interval=k, n=n, cap=cap, fixed=fixed)))
    out.append(dict(name="memory-state", fn="t_state"))
    return out


# --------------------------------------------------------------------------- stand-ins
class World:
    """Clock and memory readings."""

    def __init__(self):
        self.now = 1000.0
        self.mb = 0.0
        self.cpu = 0.0
        self.total = 64000.0
        self.free = 32000.0


def s_mean(x):
    x = list(x)
    return sum(x) / len(x)


def s_median(x):
    x = sorted(x)
    k = len(x) // 2
    return x[k] if len(x) % 2 else (x[k - 1] + x[k]) / 2


@contextlib.contextmanager
def world():
    import psutil

    from vlib.pysym import SReal, patched
    from vlib.scenario import clock_patches, everywhere, sum_patches
    import wax.flax.debug  # noqa: F401

    w = World()

    class Process:
        def __init__(self, *a, **k):
            self.pid = 1

        def memory_info(self):
            b = w.mb * 1048576
            return types.SimpleNamespace(rss=b, vms=b, shared=0, data=b)

        def cpu_percent(self, *a, **k):
            return w.cpu

    class FloatMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (float_, SReal))

    float_ = float

    class sfloat(float, metaclass=FloatMeta):
        def __new__(cls, x=0.0):
            return x if isinstance(x, SReal) else float_(x)

    clock = lambda: w.now
    memory = lambda: types.SimpleNamespace(total=w.total * 1048576, available=w.free * 1048576, used=0, percent=0.0)
    with patched(*everywhere(
        "wax.flax.debug", [*clock_patches(clock), *sum_patches(), (psutil, "Process", Process), (psutil, "virtual_memory", memory)], extra=[("float", sfloat)])
    ), contextlib.redirect_stdout(io.StringIO()):
        yield w


def lib():
    import wax.flax.debug as d

    return d


def tools(m, T):
    T.functions |= {f"wax/flax/debug/{f}" for f in m}


class Fn:
    """Object with the init/apply interface of a streaming transform."""

    def __init__(self, name, apply, init=None):
        self.__name__ = name
        self.apply = apply
        self.init = init or (lambda rng, *a: ({}, {}))

    def __call__(self, *a, **k):
        return ("called", a, k)


# --------------------------------------------------------------------------- transparency (traced)
def t_transparent(T, stack, n):
    """Decorated streaming transform = undecorated one, function run once per call."""
    import jax
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import streaming_transform_with_state

    from checks.P25_streaming_transforms import functions, mut, op_class, rapply, ref_module, sym_like, template, zero_inputs

    d = lib()
    tools(["debugger.py:debug_streaming", "debugger.py:StreamingDebugger.step", "profiler.py:profile_streaming", "profiler.py:StreamingProfiler.record_metrics",
           "memory_tracker.py:track_memory_usage", "memory_tracker.py:MemoryTracker.take_snapshot"], T)
    op_class()
    for kind, on in itertools.product(("nested", "wax"), (True, False)):
        fn = functions(kind)
        p0, s0 = template(fn, zero_inputs())

        def build():
            counts = {}
            base = streaming_transform_with_state(fn)
            calls = [0]
            orig = base.apply

            def apply(*a, **k):
                calls[0] += 1
                return orig(*a, **k)

            f = types.SimpleNamespace(apply=apply, init=base.init, __name__="f")
            for name in stack.split("+"):
                if name == "debug":
                    t = d.StreamingDebugger(max_history=2)
                    for act in ("log", "capture", "alert"):
                        t.add_hook(d.DebugHook(act, lambda *a: True, action=act, max_events=1))
                    f = d.debug_streaming(t)(f)
                elif name == "profile":
                    t = d.StreamingProfiler()
                    f = d.profile_streaming(t, "m")(f)
                else:
                    t = d.MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=1)
                    f = d.track_memory_usage(t, "m")(f)
                if not on:
                    t.disable()
            return f, calls

        def inputs(I):
            return dict(p=sym_like(I, "p", p0), s=sym_like(I, "s", s0), a=I.sym("a", (n,), nan=True), b=I.sym("b", (n, 2), nan=True))

        def steps(x, i):
            return {"a": x[0][i], "b": x[1][i]}

        def impl(p, s, a, b):
            with world():
                f, calls = build()
                out = []
                for i in range(n):
                    y, s = f.apply(p, s, None, steps((a, b), i))
                    out.append((y, mut(s)))
                return out, np.int32(calls[0])

        def ref(p, s, a, b):
            mod = ref_module(fn)
            out = []
            for i in range(n):
                y, s = rapply(mod, p, s, steps((a, b), i))
                out.append((y, mut(s)))
            return out, np.int32(n)

        check_equiv(T, f"{stack} decorators change nothing [{kind}, enabled={on}]", inputs, impl, lambda I, **k: I.call(lambda k: ref(**k), k))

    # init and direct call
    import jax

    fn = functions("wax")
    base = streaming_transform_with_state(fn)
    with world():
        f = types.SimpleNamespace(apply=base.apply, init=base.init, __name__="f")
        for name in stack.split("+"):
            f = {"debug": d.debug_streaming, "profile": d.profile_streaming, "memory": d.track_memory_usage}[name](None, "m")(f)

        def both(a):
            return f.init(jax.random.PRNGKey(0), {"a": a, "b": jnp.stack([a, a])})

        def one(a):
            return base.init(jax.random.PRNGKey(0), {"a": a, "b": jnp.stack([a, a])})

        check_equiv(T, f"{stack} init unchanged", lambda I: dict(a=I.sym("a", (), nan=True)), both, lambda I, a: I.call(one, a))


def t_exceptions(T):
    """An exception of the function propagates, also from conditions-free tools; nothing is counted twice afterwards."""
    d = lib()
    tools(["profiler.py:ProfilerContext.__exit__", "debugger.py:debug_streaming"], T)

    class Boom(Exception):
        pass

    def scenario(env):
        with world() as w:
            fails = [env.flag(f"fails{i}") for i in range(3)]

            def apply(p, s, rng, x):
                if fails[x]:
                    raise Boom()
                return x, s

            dbg, prof, mem = d.StreamingDebugger(), d.StreamingProfiler(), d.MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False)
            f = Fn("f", apply)
            f = d.debug_streaming(dbg)(d.profile_streaming(prof)(d.track_memory_usage(mem)(f)))
            got = []
            for i in range(3):
                try:
                    got.append(f.apply({}, {}, None, i)[0])
                except Boom:
                    got.append("boom")
            exp = ["boom" if bool(fails[i]) else i for i in range(3)]
            return [got, dbg.current_step, f(1, 2, z=3)], [exp, sum(e != "boom" for e in exp), ("called", (1, 2), {"z": 3})]

    check_scenario(T, "exceptions propagate", scenario)


# --------------------------------------------------------------------------- debugger
def t_copies(T, hist, n):
    """State history and events hold the state, input and output of their step (traced values, every container type)."""
    import collections

    import jax.numpy as jnp
    from flax.core import freeze

    d = lib()
    tools(["debugger.py:StreamingDebugger._safe_copy_state", "debugger.py:DebugHook.trigger"], T)
    NT = collections.namedtuple("NT", "u v")
    kinds = {
        "tuple": lambda u, v: (u, [v, u]),
        "namedtuple": lambda u, v: NT(u, NT(v, u)),
        "dict": lambda u, v: {"k": u, "l": {"m": (v,)}},
        "flat": lambda u, v: v,
        "nested-namedtuple": lambda u, v: {"q": NT(u, [v])},
        "frozen": lambda u, v: freeze({"k": u, "l": {"m": v}}),
    }
    for kind, mk in kinds.items():

        def tree(t):
            if hasattr(t, "items"):
                return {k: tree(v) for k, v in t.items()}
            return [type(t).__name__ == "NT", *map(tree, t)] if isinstance(t, (tuple, list)) else jnp.asarray(t) if not isinstance(t, str) else jnp.full((7,), 0.0)

        def impl(x):
            with world():
                dbg = d.StreamingDebugger(max_history=hist)
                h = d.DebugHook("h", lambda *a: True, action="capture", max_events=2)
                dbg.add_hook(h)

                def apply(p, s, rng, y):
                    return mk(y["a"][0] * 2, y["a"]), mk(y["a"][1], y["a"] + 1)

                f = d.debug_streaming(dbg, "m")(Fn("f", apply))
                for i in range(n):
                    f.apply({}, {}, None, {"a": x[i], "t": mk(x[i, 0], x[i])})
                return ([tree(s) for s in dbg.state_history],
                        [(tree(e.state_snapshot), tree(e.input_data), tree(e.output_data), jnp.int32(e.step)) for e in h.events])

        def ref(x):
            st = [tree(mk(x[i, 1], x[i] + 1)) for i in range(n)]
            ev = [(st[i], {"a": x[i], "t": tree(mk(x[i, 0], x[i]))}, tree(mk(x[i, 0] * 2, x[i])), jnp.int32(i + 1)) for i in range(n)]
            return st[-hist:], ev[-2:]

        check_equiv(T, f"debugger history of {kind} states", lambda I: dict(x=I.sym("x", (n, 2), nan=True)), impl, lambda I, x: I.call(ref, x), floats="fp")

    def flax(x):
        with world():
            dbg = d.StreamingDebugger(max_history=hist)
            for i in range(n):
                dbg.step("m", {"params": {"w": jnp.zeros((i + 1, 2)), "b": jnp.zeros(())}, "state": {"c": x[i], "k": [x[i, 0]]}}, x[i], x[i])
            return ([s["state_values"] for s in dbg.state_history], [jnp.asarray(s["params_shapes"]["w"]) for s in dbg.state_history],
                    [jnp.asarray(s["params_shapes"]["b"] == ()) for s in dbg.state_history])

    def flaxref(x):
        ks = list(range(n))[-hist:]
        return [{"c": x[i], "k": [x[i, 0]]} for i in ks], [jnp.asarray((i + 1, 2)) for i in ks], [jnp.asarray(True) for i in ks]

    check_equiv(T, "debugger history of Flax states", lambda I: dict(x=I.sym("x", (n, 2), nan=True)), flax, lambda I, x: I.call(flaxref, x), floats="fp")


def ev(e):
    return dict(step=e.step, module=e.module_name, state=e.state_snapshot, input=e.input_data, output=e.output_data, ms=e.metadata.get("execution_time_ms"))


def t_hooks(T, hist, n, track=True, perf=True):
    """Sessions: on/off histories of the debugger and of hooks, symbolic conditions, bounded histories."""
    d = lib()
    tools(["debugger.py:StreamingDebugger.step", "debugger.py:DebugHook.check_condition", "debugger.py:StreamingDebugger.get_summary", "debugger.py:StreamingDebugger.export_events"], T)

    def scenario(env):
        with world() as w:
            thr = env.real("thr")
            dbg = d.StreamingDebugger(max_history=hist, enable_state_tracking=track, enable_performance_tracking=perf)

            def failing(step, state, i, o):
                raise ValueError("condition")

            hooks = dict(
                a=d.DebugHook("a", lambda step, state, i, o: o > thr, action="capture", max_events=2),
                b=d.DebugHook("b", lambda step, state, i, o: state["s"] + i < o * step, action="alert", max_events=1),
                c=d.DebugHook("c", failing, action="capture"),
                d=d.DebugHook("d", None, action="capture"),
            )
            for h in hooks.values():
                dbg.add_hook(h)
            step, states, times, hits, events = 0, [], [], {k: 0 for k in hooks}, {k: [] for k in hooks}
            d0 = None

            def apply(p, s, rng, x):
                w.now = w.now + x["dt"]
                return x["o"], {"s": x["s"]}

            f = d.debug_streaming(dbg, "m")(Fn("f", apply))
            for i in range(n):
                on = env.flag(f"on{i}")
                aon = env.flag(f"aon{i}")
                (dbg.enable if on else dbg.disable)()
                hooks["a"].enabled = bool(aon)
                x, s, o, dt = env.real(f"x{i}"), env.real(f"s{i}"), env.real(f"o{i}"), env.real(f"dt{i}", 0)
                f2 = {"x": x, "s": s, "o": o, "dt": dt}
                # inputs reach the hooks as given: use a plain number for the hook conditions
                def ap(p, st, rng, inp, _s=s, _o=o, _dt=dt):
                    w.now = w.now + _dt
                    return _o, {"s": _s}

                r = d.debug_streaming(dbg, "m")(Fn("f", ap)).apply({}, {"old": 0}, None, x)
                if not bool(on):
                    continue
                step += 1
                states.append({"s": s})
                times.append(dt)
                for k, c in (("a", bool(aon) and bool(o > thr)), ("b", bool(s + x < o * step))):
                    if c:
                        hits[k] += 1
                        events[k].append(dict(step=step, module="m", state={"s": s}, input=x, output=o, ms=dt * 1000))
            sm, ex = dbg.get_summary(), dbg.export_events()
            act = dict(
                step=dbg.current_step, states=list(dbg.state_history), hits={k: h.hit_count for k, h in hooks.items()},
                events={k: [ev(e) for e in h.events] for k, h in hooks.items()}, times=list(dbg.performance_data.get("execution_time", [])),
                sm=dict(n=sm["total_steps"], hits={k: v["hit_count"] for k, v in sm["hooks"].items()}, ne={k: v["events"] for k, v in sm["hooks"].items()},
                        sl=sm["state_history_length"], perf={k: sm["performance"].get(k) for k in ("total_steps", "avg_time_ms", "max_time_ms", "min_time_ms")}),
                ex={k: [e["step"] for e in v] for k, v in ex["hooks"].items()},
            )
            keep = {"a": 2, "b": 1, "c": 1000, "d": 1000}
            events = {k: v[-keep[k]:] for k, v in events.items()}
            states = states[-hist:] if track else []
            times = times if perf else []
            pf = dict(total_steps=len(times), avg_time_ms=s_mean(times) * 1000, max_time_ms=max(times) * 1000, min_time_ms=min(times) * 1000) if times else dict.fromkeys(("total_steps", "avg_time_ms", "max_time_ms", "min_time_ms"))
            exp = dict(step=step, states=states, hits=hits, events=events, times=times,
                       sm=dict(n=step, hits=hits, ne={k: len(v) for k, v in events.items()}, sl=len(states), perf=pf),
                       ex={k: [e["step"] for e in v] for k, v in events.items()})
            return act, exp

    check_scenario(T, f"debugger session (state tracking {track}, timing {perf})", scenario, max_validate=20)


def t_conditions(T, n):
    """value_threshold, step_interval, state_change_detector, add_performance_monitor."""
    d = lib()
    tools(["debugger.py:value_threshold", "debugger.py:step_interval", "debugger.py:state_change_detector", "debugger.py:StreamingDebugger.add_performance_monitor"], T)

    def session(env, hook, inputs, states, times=None, monitor=None):
        with world() as w:
            dbg = d.StreamingDebugger()
            if isinstance(monitor, str):
                dbg.add_performance_monitor("m")
            elif monitor is not None:
                dbg.add_performance_monitor("m", monitor)
            else:
                dbg.add_hook(d.DebugHook("h", hook, action="capture"))
            for i, (x, s) in enumerate(zip(inputs, states)):
                dbg.step("m", s, x, 0.0, times[i] if times else None)
            return [[e.step for e in h.events] for h in dbg.hooks.values()]

    def steps(conds):
        return [[i + 1 for i, c in enumerate(conds) if c]]

    def threshold(env):
        thr = env.real("thr")
        xs = [env.real(f"x{i}") for i in range(n)]
        return session(env, d.value_threshold(thr), xs, [None] * n), steps([bool(x > thr) for x in xs])

    def threshold_field(env):
        thr = env.real("thr")
        xs = [env.real(f"x{i}") for i in range(n)]
        ins = [{"v": xs[i], "w": 5.0} if i % 2 == 0 else {"w": xs[i]} if i % 4 == 1 else xs[i] for i in range(n)]
        exp = [xs[i] > thr if i % 2 == 0 else 0 > thr if i % 4 == 1 else xs[i] > thr for i in range(n)]
        return session(env, d.value_threshold(thr, "v"), ins, [None] * n), steps([bool(e) for e in exp])

    def interval(k):
        return lambda env: (session(env, d.step_interval(k), [0.0] * 7, [None] * 7), [[i for i in range(1, 8) if i % k == 0]])

    def change(tol):
        def run(env):
            t = env.real("tol", 0) if tol == "sym" else tol
            xs = [env.real(f"x{i}") for i in range(n)]
            states = [{"f": x, "g": 1.0} for x in xs]
            missing = env.int("missing", 0, n)
            if missing < n:
                states[missing] = {"g": 2.0}
            act = session(env, d.state_change_detector("f", t) if tol is not None else d.state_change_detector("f"), [None] * n, states)
            last, exp = None, []
            for i, x in enumerate(xs):
                if i == missing:
                    exp.append(False)
                    continue
                if last is None:
                    last = x
                    exp.append(False)
                    continue
                c = bool(abs(x - last) > (1e-6 if tol is None else t))
                exp.append(c)
                if c:
                    last = x
            return act, steps(exp)

        return run

    def monitor(thr):
        def run(env):
            t = {"sym": lambda: env.real("thr", 0), "default": lambda: "default"}[thr]()
            ts = [env.real(f"t{i}", 0.0001) for i in range(n)]
            exp = steps([bool(x * 1000 > (100.0 if thr == "default" else t)) for x in ts])
            return session(env, None, [0.0] * n, [None] * n, ts, t), exp

        return run

    check_scenario(T, "value_threshold", threshold)
    check_scenario(T, "value_threshold on a field", threshold_field)
    for k in (1, 2, 3, 5):
        check_scenario(T, f"step_interval {k}", interval(k))
    check_scenario(T, "state_change_detector", change("sym"))
    check_scenario(T, "state_change_detector default", change(None))
    check_scenario(T, "performance monitor", monitor("sym"))
    check_scenario(T, "performance monitor default", monitor("default"))


def t_manage(T, n):
    """add/replace/remove hooks and clear_history in the middle of a session."""
    d = lib()
    tools(["debugger.py:StreamingDebugger.remove_hook", "debugger.py:StreamingDebugger.clear_history", "debugger.py:StreamingDebugger.add_hook"], T)

    def scenario(env):
        with world():
            dbg = d.StreamingDebugger(max_history=3)
            thr = env.real("thr")
            mk = {"h": lambda: d.DebugHook("h", lambda st, s, i, o: i > thr, action="capture"), "g": lambda: d.DebugHook("g", lambda st, s, i, o: i <= thr, action="capture")}
            cond = {"h": lambda x: bool(x > thr), "g": lambda x: bool(x <= thr)}
            live, states, times, step = {}, [], [], 0
            for i in range(n):
                op = env.int(f"op{i}", 0, 4)
                if op in (0, 1):
                    name = "hg"[op]
                    dbg.add_hook(mk[name]())
                    live[name] = []
                elif op == 2:
                    dbg.remove_hook("h")
                    live.pop("h", None)
                elif op == 3:
                    dbg.clear_history()
                    live = {k: [] for k in live}
                    states, times = [], []
                x = env.real(f"x{i}")
                dbg.step("m", {"v": x}, x, x, None)
                step += 1
                states.append({"v": x})
                for k in live:
                    if cond[k](x):
                        live[k].append(dict(step=step, input=x))
            act = dict(hooks={k: [dict(step=e.step, input=e.input_data) for e in h.events] for k, h in dbg.hooks.items()}, hits={k: h.hit_count for k, h in dbg.hooks.items()},
                       states=list(dbg.state_history), n=dbg.current_step)
            return act, dict(hooks=live, hits={k: len(v) for k, v in live.items()}, states=states[-3:], n=step)

    check_scenario(T, "hook management", scenario, max_validate=20)


# --------------------------------------------------------------------------- profiler
def rec(m):
    return dict(step=m.step, module=m.module_name, time=m.execution_time, mem=m.memory_usage, delta=m.memory_delta, inp=m.input_size, out=m.output_size, jit=bool(m.jit_compilation))


SESSIONS = [("call", "call", "context", "record"), ("context", "record", "plain", "call"), ("record", "call", "call", "context")]


def t_profiler(T, hist, n, session):
    """One record per call (decorated, context, direct), statistics over the last max_history, bottlenecks."""
    import jax.numpy as jnp

    d = lib()
    tools(["profiler.py:StreamingProfiler.record_metrics", "profiler.py:ProfilerContext", "profiler.py:profile_streaming", "profiler.py:StreamingProfiler.finalize",
           "profiler.py:StreamingProfiler.get_module_summary", "profiler.py:ProfileResult.get_summary", "profiler.py:create_performance_report"], T)
    data = [jnp.zeros(3), {"a": jnp.zeros((2, 2)), "b": (jnp.ones(1, jnp.int32), 4)}, None, "txt", [1.5, 2]]
    size = [12, 16 + 4 + 8, 0, 3, 16]

    def scenario(env, kinds):
        with world() as w:
            thr = env.real("thr", 0)
            prof = d.StreamingProfiler(bottleneck_threshold_ms=thr, max_history=hist)
            prof.generate_optimization_recommendations = lambda: []
            recs, last = [], 0.0
            for i, kind in enumerate(kinds):
                on = env.flag(f"on{i}")
                (prof.enable if on else prof.disable)()
                dt, mem = env.real(f"dt{i}", 0), env.real(f"mem{i}", 0)
                mod = "ab"[i % 2]
                k1, k2 = i % 5, (2 * i + 1) % 5

                def work(p, s, rng, x, dt=dt, mem=mem, y=data[k2]):
                    w.now, w.mb = w.now + dt, mem
                    return y

                jit = False
                if kind == "call":
                    d.profile_streaming(prof, mod)(Fn("f", work)).apply(None, None, None, data[k1])
                    sz = size[k1], size[k2]
                elif kind == "plain":
                    d.profile_streaming(prof, mod, enable_detailed_tracking=False)(Fn("f", work)).apply(None, None, None, data[k1])
                    sz = 0, 0
                elif kind == "context":
                    with prof.start_step(mod) as ctx:
                        work(None, None, None, None)
                        if i % 2:
                            ctx.set_jit_compilation(True)
                            jit = True
                    sz = 0, 0
                else:
                    w.mb = mem
                    jit = True
                    prof.record_metrics(mod, dt, data[k1], data[k2], jit_compilation=True)
                    sz = size[k1], size[k2]
                if bool(on):
                    recs.append(dict(step=len(recs) + 1, module=mod, time=dt, mem=mem, delta=mem - last, inp=sz[0], out=sz[1], jit=jit))
                    last = mem
            res = prof.finalize()
            act = dict(metrics=[rec(m) for m in res.metrics], n=res.total_steps,
                       ex={k: res.execution_stats.get(k) for k in ("mean", "median", "min", "max")}, mem={k: res.memory_stats.get(k) for k in ("mean", "median", "min", "max")},
                       bn=[dict(step=b["step"], module=b["module"], ms=b["execution_time_ms"], inp=b["input_size_bytes"], out=b["output_size_bytes"]) for b in res.bottlenecks])
            kept = recs[-hist:]
            bn = [dict(step=r["step"], module=r["module"], ms=r["time"] * 1000, inp=r["inp"], out=r["out"]) for r in recs if r["time"] * 1000 > thr]

            def st(k):
                v = [r[k] for r in kept]
                return dict(mean=s_mean(v), median=s_median(v), min=min(v), max=max(v)) if v else dict.fromkeys(("mean", "median", "min", "max"))

            exp = dict(metrics=kept, n=len(recs), ex=st("time"), mem=st("mem"), bn=bn)
            for mod in "ab":
                s = prof.get_module_summary(mod)
                mine = [r for r in kept if r["module"] == mod]
                keys = ("total_invocations", "total_time_ms", "avg_time_ms", "max_time_ms", "min_time_ms", "avg_memory_mb", "peak_memory_mb", "jit_compilations")
                act[mod] = {k: s.get(k) for k in keys}
                ts, ms = [r["time"] for r in mine], [r["mem"] for r in mine]
                exp[mod] = dict(zip(keys, (len(mine), sum(ts) * 1000, s_mean(ts) * 1000, max(ts) * 1000, min(ts) * 1000, s_mean(ms), max(ms), sum(r["jit"] for r in mine)))) if mine else dict.fromkeys(keys)
            sm = res.get_summary()
            if kept:
                e, m = sm["execution"], sm["memory"]
                act["sm"] = [sm["session"]["total_steps"], e["total_time"], e["avg_time_ms"], e["median_time_ms"], e["max_time_ms"], e["min_time_ms"], m["peak_usage_mb"], m["avg_usage_mb"],
                             m["total_allocated"], sm["bottlenecks"], sm["jit_compilations"]]
                a, b = exp["ex"], exp["mem"]
                alloc = 0
                for r in kept:
                    if r["delta"] > 0:
                        alloc = alloc + r["delta"]
                exp["sm"] = [len(recs), sum(r["time"] for r in kept), a["mean"] * 1000, a["median"] * 1000, a["max"] * 1000, a["min"] * 1000, b["max"], b["mean"], alloc, len(bn), sum(r["jit"] for r in kept)]
            else:
                act["sm"] = ["error" in sm, isinstance(d.create_performance_report(res), str)]
                exp["sm"] = [True, True]
            return act, exp

    kinds = SESSIONS[session][:n]
    check_scenario(T, f"profiler session {'/'.join(kinds)}", lambda env: scenario(env, kinds), max_validate=15)


def t_profiler_options(T):
    """Tracking switches, reset."""
    d = lib()
    tools(["profiler.py:StreamingProfiler.reset"], T)

    def scenario(env, memory, cpu):
        with world() as w:
            prof = d.StreamingProfiler(enable_memory_tracking=memory, enable_cpu_tracking=cpu, bottleneck_threshold_ms=env.real("thr", 0))
            prof.generate_optimization_recommendations = lambda: []
            act, exp = [], []
            for i in range(3):
                dt, mem, c = env.real(f"dt{i}", 0), env.real(f"mem{i}", 0), env.real(f"cpu{i}", 0)
                w.mb, w.cpu = mem, c
                if i == 2 and env.flag("reset"):
                    prof.reset()
                    exp = []
                prof.record_metrics("m", dt)
                prev = exp[-1][2] if exp else 0.0
                exp.append([len(exp) + 1, dt, mem if memory else 0.0, (mem - prev) if memory else 0.0, c if cpu else 0.0])
            r = prof.finalize()
            thr = env.real("thr")
            return ([[m.step, m.execution_time, m.memory_usage, m.memory_delta, m.cpu_percent] for m in r.metrics] + [r.total_steps, [b["step"] for b in r.bottlenecks]],
                    exp + [len(exp), [e[0] for e in exp if e[1] * 1000 > thr]])

    for memory, cpu in itertools.product((True, False), repeat=2):
        check_scenario(T, f"profiler options memory={memory} cpu={cpu}", lambda env: scenario(env, memory, cpu), max_validate=10)


def t_profiler_leak(T, n):
    d = lib()
    tools(["profiler.py:StreamingProfiler.detect_memory_leaks"], T)

    def scenario(env):
        with world() as w:
            thr = env.real("thr", 0)
            prof = d.StreamingProfiler(memory_leak_threshold_mb=thr, bottleneck_threshold_ms=1e9)
            ms = [env.real(f"m{i}", 0) for i in range(n)]
            for m in ms:
                w.mb = m
                prof.record_metrics("m", 0.0)
            act = [[x["growth_mb"], x["start_memory"], x["end_memory"]] for x in prof.detect_memory_leaks()]
            g = ms[-1] - ms[n - 10] if n >= 10 else None
            return act, [[g, ms[n - 10], ms[-1]]] if n >= 10 and g > thr else []

    check_scenario(T, f"profiler leak detection, {n} records", scenario)


# --------------------------------------------------------------------------- memory tracker
def tracker(d, **k):
    return d.MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, **k)


def t_snapshots(T, interval, cap, n):
    d = lib()
    tools(["memory_tracker.py:MemoryTracker.take_snapshot", "memory_tracker.py:MemoryTracker.get_memory_summary", "memory_tracker.py:MemoryTracker.get_module_memory_analysis", "memory_tracker.py:MemoryTracker.reset"], T)

    def scenario(env):
        with world() as w:
            tr = tracker(d, snapshot_interval=interval, max_snapshots=cap, leak_detection_threshold_mb=1e9)
            step, snaps, ret, eret = 0, [], [], []
            for i in range(n):
                on, force = (env.flag(f"on{i}"), env.flag(f"force{i}")) if i < 4 or interval > 1 else (True, False)
                if i == n - 2 and env.flag("reset"):
                    tr.reset()
                    step, snaps = 0, []
                (tr.enable if on else tr.disable)()
                m, now = env.real(f"m{i}", 0), env.real(f"t{i}", 0)
                w.mb, w.now = m, now
                mod = "ab"[i % 2]
                r = tr.take_snapshot(mod, force=force)
                ret.append(r is not None)
                if not bool(on):
                    eret.append(False)
                    continue
                step += 1
                take = step % interval == 0 or bool(force)
                eret.append(take)
                if take:
                    snaps.append(dict(step=step, module=mod, mb=m, t=now, delta=m - snaps[-1]["mb"] if snaps else 0.0))
            kept = snaps[-cap:]
            act = dict(ret=ret, steps=tr.step_count, snaps=[dict(step=s.step, module=s.module_name, mb=s.process_memory_mb, t=s.timestamp, delta=s.memory_delta_mb) for s in tr.snapshots])
            exp = dict(ret=eret, steps=step, snaps=kept)
            sm = tr.get_memory_summary()
            if kept:
                v = [s["mb"] for s in kept]
                st = sm["statistics"]
                act["sm"] = [sm["session"]["total_snapshots"], sm["session"]["total_steps"], sm["current_usage"]["process_memory_mb"], st["peak_memory_mb"], st["min_memory_mb"], st["avg_memory_mb"], st["total_growth_mb"]]
                exp["sm"] = [len(kept), step, v[-1], max(v), min(v), s_mean(v), v[-1] - v[0]]
            else:
                act["sm"], exp["sm"] = "error" in sm, True
            for mod in "ab":
                a = tr.get_module_memory_analysis(mod)
                v = [s["mb"] for s in kept if s["module"] == mod]
                if v:
                    u = a["memory_usage"]
                    act[mod], exp[mod] = [a["snapshots_count"], u["current_mb"], u["peak_mb"], u["avg_mb"], u["growth_mb"]], [len(v), v[-1], max(v), s_mean(v), v[-1] - v[0]]
                else:
                    act[mod], exp[mod] = "error" in a, True
            return act, exp

    check_scenario(T, f"snapshots every {interval}, {cap} kept", scenario, max_validate=15)


def slope(xs, ys):
    n = len(xs)
    xm, ym = sum(xs) / n, sum(ys) / n
    return sum((x - xm) * (y - ym) for x, y in zip(xs, ys)) / sum((x - xm) ** 2 for x in xs)


def t_leak(T, interval, n, cap, fixed=0):
    d = lib()
    tools(["memory_tracker.py:MemoryTracker._check_for_leaks", "memory_tracker.py:MemoryTracker._record_memory_leak", "memory_tracker.py:track_memory_usage"], T)

    def scenario(env):
        with world() as w:
            thr = env.real("thr", 0)
            tr = tracker(d, snapshot_interval=interval, max_snapshots=cap, leak_detection_threshold_mb=thr)
            xs, ys, exp = [], [], []
            for i in range(n):
                m = env.real(f"m{i}", 0, 1000) if i >= fixed else float(100 - 7 * i)
                w.mb = m
                for _ in range(interval):
                    tr.take_snapshot("m")
                xs.append((i + 1) * interval)
                ys.append(m)
                kx, ky = xs[-cap:][-10:], ys[-cap:][-10:]
                if len(kx) >= 5:
                    g, s = ky[-1] - ky[0], slope(kx, ky)
                    if s > thr / 100 and g > thr:
                        exp.append(dict(rate=s, total=g, first=kx[0], last=kx[-1], sev="critical" if g > 100 else "high" if g > 50 else "medium" if g > 20 else "low", type="growing_memory"))
            act = [dict(rate=x.growth_rate_mb_per_step, total=x.total_leaked_mb, first=x.first_detected_step, last=x.last_detected_step, sev=x.severity, type=x.leak_type) for x in tr.detected_leaks]
            lk = tr.get_memory_summary()["leaks"]
            return [act, lk["total_detected"], lk["critical_leaks"], lk["high_leaks"]], [exp, len(exp), sum(e["sev"] == "critical" for e in exp), sum(e["sev"] == "high" for e in exp)]

    check_scenario(T, f"leak detection, {n} snapshots every {interval}, {cap} kept", scenario, max_validate=15)

    if (interval, n, cap) == (1, 5, 9):

        def decorated(env):
            with world() as w:
                tr = tracker(d, snapshot_interval=1, leak_detection_threshold_mb=1e9)
                exp = []
                prev = None
                for i in range(3):
                    before, after = env.real(f"b{i}", 0), env.real(f"a{i}", 0)
                    w.mb = before

                    def work(p, s, rng, x, after=after):
                        w.mb = after
                        return x, s

                    d.track_memory_usage(tr, "m")(Fn("f", work)).apply({}, {}, None, 0)
                    for m in (before, after):
                        exp.append(dict(mb=m, delta=m - prev if prev is not None else 0.0, step=len(exp) + 1))
                        prev = m
                return [dict(mb=s.process_memory_mb, delta=s.memory_delta_mb, step=s.step) for s in tr.snapshots], exp

        check_scenario(T, "decorated calls take a snapshot before and after", decorated)


class Sized:
    """Array of symbolic size."""

    def __init__(self, n):
        self.nbytes = n


def t_state(T):
    """params/state/buffers sizes of plain and frozen Flax states."""
    from flax.core import freeze

    d = lib()
    tools(["memory_tracker.py:MemoryTracker._analyze_state_memory", "memory_tracker.py:MemoryTracker._calculate_tree_memory"], T)

    def scenario(env, frozen, via):
        with world() as w:
            tr = tracker(d, snapshot_interval=1)
            z = {k: env.real(k, 0) for k in ("w", "b", "buf", "k", "mean", "extra")}
            a = {k: Sized(v) for k, v in z.items()}
            state = {"params": {"w": a["w"], "d": {"b": a["b"]}}, "state": {"Buffer_0": {"x": a["buf"], "k": a["k"]}, "ewma": [a["mean"]]}, "cache": {"e": a["extra"]}}
            if not frozen:
                pass
            else:
                state = freeze(state)
            if via == "snapshot":
                s = tr.take_snapshot("m", state=state)
            else:
                tr2 = tr

                def work(p, st, rng, x):
                    return x, state

                d.track_memory_usage(tr, "m")(Fn("f", work)).apply({}, {}, None, 0)
                s = tr.snapshots[-1]
            mb = 1048576
            none = tr.take_snapshot("m", state=None)
            other = tr.take_snapshot("m", state=[a["w"], (a["b"],)])
            act = [s.parameters_mb, s.state_variables_mb, s.buffers_mb, none.parameters_mb, none.state_variables_mb, other.state_variables_mb]
            return act, [(z["w"] + z["b"]) / mb, (z["buf"] + z["k"] + z["mean"] + z["extra"]) / mb, (z["buf"] + z["k"]) / mb, 0.0, 0.0, (z["w"] + z["b"]) / mb]

    for frozen, via in itertools.product((False, True), ("snapshot", "decorator")):
        check_scenario(T, f"state sizes frozen={frozen} via {via}", lambda env: scenario(env, frozen, via))
