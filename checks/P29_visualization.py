"""P29: the visualization tools of the Flax API keep and show exactly what was recorded."""
import contextlib
import io
import itertools
import json
import re
import types
import warnings

import numpy as np

from vlib.scenario import check_scenario

BOUNDS = ("sessions of 3-5 (quick) / 4-6 (thorough) calls with symbolic kind, module, data type, values, times, thresholds and flags; histories of 1..3; 0..24 records for the text plot, "
          "0..13 for the figure; parameter trees of up to 5 modules and depth 3, every module present or not, symbolic cluster size")
ASSUMPTIONS = [
    "the clock advances only between calls; matplotlib axes, the web socket, the plotly figure and the file of the animation are stand-ins that record what they are given; numbers are exact reals",
    "layout, colours, HTML styling and the plotly, bokeh, networkx and Graphviz back ends (not installed) not covered; statistics of long arrays (min, max, mean) use numpy arrays",
]
META = dict(
    title="Visualization keeps and shows exactly the recorded data and structure",
    statement="DataFlowTracker keeps the last max_history records in order, and the last max_history of each module, with the step and elapsed time at which they were made, their value, data type, metadata and shape; step counts, clear_history empties; "
    "get_module_history filters by data type and get_recent_data(n) is the last n. The text plot counts and names the modules, types, steps and points of the last 20 records and lists the last ten with their step, module, type and value, both plots restricted to the requested modules and data types; "
    "the matplotlib figure plots per module the (step, value) of the scalars and the (step, size) of every record among the last max_points, and the rate of the last ten points; an animation leaves the tracker's history as it was and shows at each frame only the steps reached. "
    "InteractiveDashboard keeps pipelines apart, counts their calls, keeps reported times and memory, raises an alert exactly when alerts are enabled and a reported time or memory exceeds its threshold, sends connected clients each record with its value serialized (up to 10 elements in full, else shape, min, max and mean), and ignores unknown pipelines. "
    "StreamingDataVisualizer shows the last max_history_points (time, value) pairs of each stream of each figure. "
    "The computation graph of a streaming transform has the main node, one node per module holding a kernel, weight, bias, scale or alpha and an edge to it from the parameter-holding module directly enclosing it, and the text, dot and html outputs show each node and edge exactly once; "
    "the nested graph's parents and children agree, levels are depths, roots are clustered by type exactly when at least cluster_min_nodes share it, and the Cytoscape and D3 data hold exactly those nodes and links.",
    over=["inputs", "histories", "configurations"],
    quant="all values, times, thresholds, record/step/clear histories and module trees within the bound",
    why="tests record a few constant points and check that keys exist or that strings occur in the output",
    files=["src/wax/flax/visualization/data_flow_visualizer.py", "src/wax/flax/visualization/interactive_dashboard.py", "src/wax/flax/visualization/computation_graph.py",
           "src/wax/flax/visualization/nested_graph_viz.py", "src/wax/flax/visualization/jupyter_viz.py"],
    mech=[("DataFlowTracker, DataFlowVisualizer, create_flow_animation", "src/wax/flax/visualization/data_flow_visualizer.py"),
          ("InteractiveDashboard", "src/wax/flax/visualization/interactive_dashboard.py"),
          ("ComputationGraphRenderer", "src/wax/flax/visualization/computation_graph.py"),
          ("HierarchicalGraphAnalyzer, CytoscapeNestedRenderer, D3NestedRenderer", "src/wax/flax/visualization/nested_graph_viz.py"),
          ("StreamingDataVisualizer", "src/wax/flax/visualization/jupyter_viz.py")],
)


def tasks(tier):
    q = tier == "quick"
    out = []
    for hist in (1, 2, 3):
        out.append(dict(name=f"tracker-{hist}", fn="t_tracker", kw=dict(hist=hist, n=3 if q else 4)))
    for k in range(3):
        out.append(dict(name=f"tracker-long-{k}", fn="t_tracker_long", kw=dict(hist=k + 2, n=5 if q else 7)))
    out.append(dict(name="tracker-shapes", fn="t_shapes"))
    for hist in (40, 7):
        out.append(dict(name=f"text-{hist}", fn="t_text", kw=dict(hist=hist, n=24)))
    out.append(dict(name="text-filter", fn="t_text_filter", kw=dict(n=3 if q else 4)))
    for pts in (3, 20):
        out.append(dict(name=f"figure-{pts}", fn="t_figure", kw=dict(pts=pts, n=3 if q else 4)))
    out.append(dict(name="figure-rate", fn="t_rate", kw=dict(n=13 if q else 16)))
    out.append(dict(name="animation", fn="t_animation", kw=dict(n=4 if q else 5)))
    for al in (True, False):
        out.append(dict(name=f"dashboard-{al}", fn="t_dashboard", kw=dict(alerts=al, n=2 if q else 3)))
        out.append(dict(name=f"dashboard-short-{al}", fn="t_dashboard", kw=dict(alerts=al, n=2 if q else 3, cap=1)))
    out.append(dict(name="dashboard-alerts", fn="t_alerts", kw=dict(n=3 if q else 4)))
    out.append(dict(name="dashboard-serialize", fn="t_serialize"))
    for hist in (1, 2):
        out.append(dict(name=f"streams-{hist}", fn="t_streams", kw=dict(hist=hist, n=4 if q else 5)))
    out.append(dict(name="graph", fn="t_graph"))
    for fmt in ("text", "dot", "html"):
        out.append(dict(name=f"graph-{fmt}", fn="t_render", kw=dict(fmt=fmt)))
    out.append(dict(name="nested", fn="t_nested"))
    out.append(dict(name="nested-flat", fn="t_nested_flat", kw=dict(n=5 if q else 6)))
    return out


# --------------------------------------------------------------------------- stand-ins
class World:
    def __init__(self):
        self.now = 1000.0


@contextlib.contextmanager
def world():
    """Clock under control; `float`, `isinstance(_, float)` of the modules accept symbolic numbers."""
    import jax.numpy as jnp

    from vlib.pysym import SReal, patched
    from vlib.scenario import clock_patches, everywhere, sum_patches
    from wax.flax.visualization import data_flow_visualizer as dv  # noqa: F401
    from wax.flax.visualization import interactive_dashboard as ds  # noqa: F401

    w = World()

    class FloatMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (float_, SReal))

    float_ = float

    class sfloat(float, metaclass=FloatMeta):
        def __new__(cls, x=0.0):
            return x if isinstance(x, SReal) else float_(x)

    isscalar = jnp.isscalar
    with patched(*everywhere(
        "wax.flax.visualization", [*clock_patches(lambda: w.now), *sum_patches(), (jnp, "isscalar", lambda x: isinstance(x, SReal) or isscalar(x))],
        extra=[("float", sfloat)])
    ), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield w


def dv():
    from wax.flax.visualization import data_flow_visualizer

    return data_flow_visualizer


def note(T, *m):
    T.functions |= {f"wax/flax/visualization/{f}" for f in m}


def shown(p):
    return dict(t=p.timestamp, step=p.step, module=p.module_name, type=p.data_type, value=p.value, shape=list(p.shape), meta=dict(p.metadata))


class Model:
    """What a tracker must hold."""

    def __init__(self, hist, now):
        self.hist, self.start = hist, now
        self.all, self.mods, self.step = [], {}, 0

    def record(self, now, module, type, value, meta=None):
        r = dict(t=now - self.start, step=self.step, module=module, type=type, value=value, shape=[], meta=meta or {})
        self.all = (self.all + [r])[-self.hist:]
        self.mods[module] = (self.mods.get(module, []) + [r])[-self.hist:]

    def clear(self, now):
        self.__init__(self.hist, now)


MODULES, TYPES = ("a", "b"), ("input", "output")


def compare(tr, m):
    act = dict(all=[shown(p) for p in tr.data_history], step=tr.step_count,
               mods={k: [shown(p) for p in tr.get_module_history(k)] for k in MODULES},
               types={k + t: [p.value for p in tr.get_module_history(k, t)] for k in MODULES for t in TYPES},
               recent={str(k): [p.value for p in tr.get_recent_data(k)] for k in range(0, 5)})
    exp = dict(all=m.all, step=m.step, mods={k: m.mods.get(k, []) for k in MODULES},
               types={k + t: [r["value"] for r in m.mods.get(k, []) if r["type"] == t] for k in MODULES for t in TYPES},
               recent={str(k): [r["value"] for r in m.all[len(m.all) - min(k, len(m.all)):]] for k in range(0, 5)})
    return act, exp


TRACKER = ("data_flow_visualizer.py:DataFlowTracker.record_data", "data_flow_visualizer.py:DataFlowTracker.step", "data_flow_visualizer.py:DataFlowTracker.get_module_history",
           "data_flow_visualizer.py:DataFlowTracker.get_recent_data", "data_flow_visualizer.py:DataFlowTracker.clear_history", "data_flow_visualizer.py:DataPoint")


# --------------------------------------------------------------------------- tracker
def t_tracker(T, hist, n):
    """Every session of n calls: record (any module and type), step or clear."""
    note(T, *TRACKER)

    def scenario(env):
        with world() as w:
            tr = dv().DataFlowTracker(max_history=hist)
            m = Model(hist, w.now)
            outs = []
            for i in range(n):
                w.now = w.now + env.real(f"dt{i}", 0)
                if env.flag(f"record{i}"):
                    mod, ty = MODULES[int(bool(env.flag(f"b{i}")))], TYPES[int(bool(env.flag(f"out{i}")))]
                    v = env.real(f"x{i}")
                    meta = {"k": v + 1} if i % 2 else None
                    tr.record_data(mod, ty, v, meta)
                    m.record(w.now, mod, ty, v, meta)
                elif env.flag(f"step{i}"):
                    tr.step()
                    m.step += 1
                else:
                    tr.clear_history()
                    m.clear(w.now)
                outs.append(compare(tr, m) if i == n - 1 else ([p.value for p in tr.get_recent_data()], [r["value"] for r in m.all]))
            return [a for a, _ in outs], [e for _, e in outs]

    check_scenario(T, f"tracker session, max_history {hist}", scenario, max_validate=20)


def t_tracker_long(T, hist, n):
    """Longer sessions: records of two modules, steps in between, one clear."""
    note(T, *TRACKER)

    def scenario(env):
        with world() as w:
            tr = dv().DataFlowTracker(max_history=hist)
            m = Model(hist, w.now)
            at = env.int("clear_at", 0, n)
            for i in range(n):
                w.now = w.now + env.real(f"dt{i}", 0)
                if i == at:
                    tr.clear_history()
                    m.clear(w.now)
                mod, v = MODULES[int(bool(env.flag(f"b{i}")))], env.real(f"x{i}")
                tr.record_data(mod, TYPES[i % 2], v)
                m.record(w.now, mod, TYPES[i % 2], v)
                for _ in range(i % 3):
                    tr.step()
                    m.step += 1
            return compare(tr, m)

    check_scenario(T, f"long tracker session, max_history {hist}", scenario, max_validate=20)


def t_shapes(T):
    note(T, "data_flow_visualizer.py:DataPoint.__post_init__")

    def scenario(env):
        import jax.numpy as jnp

        with world():
            tr = dv().DataFlowTracker()
            k = env.int("kind", 0, 6)
            x = env.real("x")
            v, shape = [
                (x, []), (np.zeros((2, 3)), [2, 3]), (jnp.zeros((4,)), [4]), ([x, x, x], [3]), ((x, x), [2]), ({"u": x}, [1]), (jnp.zeros(()), []),
            ][k]
            tr.record_data("m", "state", v)
            p = tr.get_recent_data(1)[0]
            return [list(p.shape), p.value is v, p.data_type], [shape, True, "state"]

    check_scenario(T, "shapes of recorded data", scenario)


# --------------------------------------------------------------------------- text
LINE = re.compile(r"^Step\s+(\d+)\s*\|\s*(\S+)\s*\|\s*(\S+)\s*\|\s*(.*?)\s*$")


def parse(text):
    head = dict(re.findall(r"^(Active modules|Data types|Total steps|Recent points):\s*(.*)$", text, re.M))
    rows = [list(g.groups()) for g in map(LINE.match, text.splitlines()) if g]
    if "Data types" in head:
        head["Data types"] = sorted(x.strip() for x in head["Data types"].split(","))
    return dict(head=head, rows=rows)


def expected_text(recs, step):
    recs = recs[-20:]
    if not recs:
        return dict(head={}, rows=[])
    head = {"Active modules": str(len({r[1] for r in recs})), "Data types": sorted({r[2] for r in recs}), "Total steps": str(step), "Recent points": str(len(recs))}
    return dict(head=head, rows=[[str(r[0]), r[1], r[2], r[4]] for r in recs[-10:]])


def values():
    import jax.numpy as jnp

    return [(1.5, "1.500"), (2, "2.000"), (jnp.float32(0.25), "0.250"), (jnp.array([0.75]), "0.750"), (jnp.zeros((2, 3)), "array(2, 3)"), ({"u": 1, "v": 2}, "dict(2 keys)"),
            ([1, 2, 3], "list(3)"), ((1,), "tuple(1)"), (jnp.array([[-1.25]]), "-1.250"), ("s", "str")]


def t_text(T, hist, n):
    note(T, "data_flow_visualizer.py:DataFlowVisualizer._create_text_plot", "data_flow_visualizer.py:DataFlowVisualizer._format_value_for_display")

    def scenario(env):
        with world():
            tr = dv().DataFlowTracker(max_history=hist)
            viz = dv().DataFlowVisualizer(backend="text")
            viz.attach_tracker(tr)
            count, early = env.int("count", 0, n), env.int("early", 0, 2)
            vs, recs, step = values(), [], 0
            for i in range(count):
                mod, ty = ("a", "b", "c")[min(i // (early + 1), 2)], ("input", "output", "state")[i % 3 if i > 1 else 0]
                v, text = vs[(i + early) % len(vs)]
                tr.record_data(mod, ty, v)
                recs.append((step, mod, ty, v, text))
                if i % 2:
                    tr.step()
                    step += 1
            return parse(viz.create_streaming_plot()), expected_text(recs[-hist:], step)

    check_scenario(T, f"text plot, max_history {hist}", scenario, max_validate=10)


def t_text_filter(T, n):
    note(T, "data_flow_visualizer.py:DataFlowVisualizer.create_streaming_plot")

    def scenario(env):
        with world():
            tr = dv().DataFlowTracker()
            viz = dv().DataFlowVisualizer(backend="text")
            viz.attach_tracker(tr)
            recs = []
            for i in range(n):
                mod, ty = MODULES[int(bool(env.flag(f"b{i}")))], TYPES[int(bool(env.flag(f"out{i}")))]
                tr.record_data(mod, ty, float(i))
                recs.append((i, mod, ty, i, f"{i:.3f}"))
                tr.step()
            mods = ["a"] if env.flag("only_a") else None
            tys = ["output"] if env.flag("only_output") else None
            keep = [r for r in recs if (mods is None or r[1] in mods) and (tys is None or r[2] in tys)]
            return parse(viz.create_streaming_plot(module_names=mods, data_types=tys)), expected_text(keep, n)

    check_scenario(T, "text plot of chosen modules and types", scenario, max_validate=20)


# --------------------------------------------------------------------------- figure
class Axis:
    def __init__(self):
        self.clear()

    def clear(self):
        self.plots, self.title = [], None

    cla = clear

    def plot(self, x, y, *a, **k):
        self.plots.append((k.get("label"), [[i, j] for i, j in zip(list(x), list(y))]))

    def set_title(self, t, *a, **k):
        self.title = t

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Figure:
    def __getattr__(self, k):
        return lambda *a, **kw: None

    @property
    def canvas(self):
        return Figure()


@contextlib.contextmanager
def figures():
    import matplotlib.animation as animation
    import matplotlib.pyplot as plt

    from vlib.pysym import patched

    made, anims = [], []

    def subplots(r=1, c=1, **k):
        axes = np.empty((r, c), dtype=object)
        for i in np.ndindex(r, c):
            axes[i] = Axis()
        made.append(axes.reshape(-1))
        return Figure(), axes

    class Anim:
        def __init__(self, fig, func, frames=None, **k):
            self.func, self.frames = func, frames
            anims.append(self)

        def save(self, path, *a, **k):
            for i in range(self.frames):
                self.func(i)
                if self.after:
                    self.after(i)

        after = None

    with patched((plt, "subplots", subplots), (animation, "FuncAnimation", Anim)):
        yield made, anims, Anim


def t_figure(T, pts, n):
    note(T, "data_flow_visualizer.py:DataFlowVisualizer._update_matplotlib_plot")
    SIZES = [("scalar", None), ((2, 3), 6), ((4,), 4), ((), 1)]

    def scenario(env):
        import jax.numpy as jnp

        with world() as w, figures() as (made, _, _):
            tr = dv().DataFlowTracker()
            viz = dv().DataFlowVisualizer(backend="matplotlib", max_points=pts)
            viz.attach_tracker(tr)
            mods, tys = [(None, None), (["a"], None), (["b", "c"], ["output"]), (None, ["input"])][env.int("chosen", 0, 3)]
            viz.create_streaming_plot(module_names=mods, data_types=tys)
            recs = []
            for i in range(n + 1):
                w.now = w.now + env.real(f"dt{i}", 0.001)
                mod = MODULES[int(bool(env.flag(f"b{i}")))]
                if i % 2 and env.flag(f"array{i}"):
                    s = SIZES[i // 2 % 3 + 1]
                    v, sc, size = jnp.full(s[0], 2.5), (2.5 if s[0] == () else None), s[1]
                else:
                    v = sc = env.real(f"x{i}")
                    size = 1
                tr.record_data(mod, "output", v)
                recs.append((mod, tr.step_count, sc, size))
                if i == 1 or i == 2 and env.flag("step"):
                    tr.step()
                if i == 0:
                    viz.update_plot()
            viz.update_plot()
            ax = made[-1]
            last = [r for r in recs if (mods is None or r[0] in mods) and (tys is None or "output" in tys)][-pts:]
            act = [sorted(map(list, a.plots), key=lambda p: p[0]) for a in ax[:2]]
            exp = [[[k, [[r[1], r[j]] for r in last if r[0] == k and r[j] is not None]] for k in MODULES] for j in (2, 3)]
            return act, [[e for e in x if e[1]] for x in exp]

    check_scenario(T, f"figure of the last {pts} records", scenario, max_paths=20000, max_validate=10)


def t_rate(T, n):
    note(T, "data_flow_visualizer.py:DataFlowVisualizer._update_matplotlib_plot")

    def scenario(env):
        with world() as w, figures() as (made, _, _):
            tr = dv().DataFlowTracker()
            viz = dv().DataFlowVisualizer(backend="matplotlib")
            viz.attach_tracker(tr)
            viz.create_streaming_plot()
            t0 = w.now
            times = []
            for i in range(n):
                w.now = w.now + env.real(f"dt{i}", 0)
                times.append(w.now - t0)
                tr.record_data("a", "output", 1.0)
            viz.update_plot()
            got = made[-1][3].plots
            exp = []
            for i in range(10, n):
                span = times[i - 1] - times[i - 10]
                if span > 0:
                    exp.append([times[i - 1], 10 / span])
            return [p for _, p in got], [exp] if exp else []

    check_scenario(T, "flow rate", scenario, max_validate=10)


def t_animation(T, n):
    note(T, "data_flow_visualizer.py:create_flow_animation")

    def scenario(env):
        with world(), figures() as (made, anims, Anim):
            hist = env.int("hist", 2, 6)
            tr = dv().DataFlowTracker(max_history=hist)
            recs = []
            for i in range(n):
                x = env.real(f"x{i}")
                tr.record_data("a", "output", x)
                recs.append([tr.step_count, x])
                if env.flag(f"step{i}"):
                    tr.step()
            recs = recs[-hist:]
            after = []

            def snap(k):
                after.append(([shown(p)["value"] for p in tr.data_history], [p for _, p in made[-1][0].plots], tr.step_count))

            Anim.after = staticmethod(snap)
            before = [shown(p) for p in tr.data_history]
            out = dv().create_flow_animation(tr, duration=2.0, fps=2, output_path="scratch.gif")
            top = max(r[0] for r in recs)
            act = [out, [list(a) for a in after], before, [shown(p) for p in tr.data_history], len(tr.get_recent_data())]
            exp, shown_pts = [], []
            for k in range(4):
                pts = [r for r in recs if r[0] <= int(k / 4 * top)]
                # nothing reached yet: the previous drawing stays
                shown_pts = [pts] if pts else shown_pts
                exp.append([[r[1] for r in recs], shown_pts, tr.step_count])
            return act, ["scratch.gif", exp, before, before, len(recs)]

    check_scenario(T, "animation keeps the history", scenario, max_validate=20)


# --------------------------------------------------------------------------- dashboard
class Socket:
    def __init__(self):
        self.sent = []

    def emit(self, name, data=None, *a, **k):
        self.sent.append([name, data])


def dashboard(alerts=True, perf=100.0, mem=1000.0, points=3):
    from wax.flax.visualization import interactive_dashboard as m

    d = m.InteractiveDashboard(m.DashboardConfig(enable_alerts=alerts, performance_threshold_ms=perf, memory_threshold_mb=mem, max_data_points=points))
    return d


DASH = ("interactive_dashboard.py:InteractiveDashboard.record_pipeline_data", "interactive_dashboard.py:InteractiveDashboard.step_pipeline", "interactive_dashboard.py:InteractiveDashboard.register_pipeline",
        "interactive_dashboard.py:InteractiveDashboard._update_performance_metrics")


def t_dashboard(T, alerts, n, cap=2):
    note(T, *DASH)
    PIPES = ("p", "q", "unknown")

    def scenario(env):
        with world() as w:
            d = dashboard(alerts, 50.0, 60.0, cap)
            sock = Socket()
            d.socketio = sock
            client = env.flag("client")
            if client:
                d.state.connected_clients.add("c")
            for p in PIPES[:2]:
                d.register_pipeline(p, lambda x: x, 0.0)
            start = w.now
            exp = {p: dict(calls=0, recs=[], time=[], mem=[]) for p in PIPES[:2]}
            al, sent = [], []
            for i in range(n):
                w.now = w.now + env.real(f"dt{i}", 0)
                p = PIPES[env.int(f"pipe{i}", 0, 2)]
                if env.flag(f"step{i}"):
                    d.step_pipeline(p)
                    if p in exp:
                        exp[p]["calls"] += 1
                    continue
                x, meta = env.real(f"x{i}"), {}
                if env.flag(f"timed{i}"):
                    meta["execution_time_ms"] = env.real(f"ms{i}")
                if i % 2 == 0 or env.flag(f"mem{i}"):
                    meta["memory_usage_mb"] = env.real(f"mb{i}")
                d.record_pipeline_data(p, "mod", "output", x, meta)
                if p not in exp:
                    continue
                exp[p]["recs"] = (exp[p]["recs"] + [[exp[p]["calls"], x, w.now - start]])[-cap:]
                for key, name, thr, kind in (("execution_time_ms", "time", 50.0, "performance"), ("memory_usage_mb", "mem", 60.0, "memory")):
                    if key in meta:
                        exp[p][name].append(meta[key])
                        if alerts and bool(meta[key] > thr):
                            al.append([kind, p, w.now])
                            sent.append(["alert", kind, p])
                if client:
                    sent.append(["pipeline_data_update", p, "mod", "output", x, exp[p]["calls"], w.now])
            ms = d.state.performance_metrics
            act = dict(
                pipes={p: dict(calls=d.state.active_pipelines[p]["total_calls"], recs=[[r.step, r.value, r.timestamp] for r in d.state.data_trackers[p].data_history],
                               time=list(ms.get(f"{p}_execution_time", [])), mem=list(ms.get(f"{p}_memory_usage", []))) for p in PIPES[:2]},
                known=sorted(d.state.active_pipelines), trackers=sorted(d.state.data_trackers), alerts=[[a["type"], a["pipeline_id"], a["timestamp"]] for a in d.state.alerts],
                metrics=sorted(k for k in ms if ms[k] and k != "global_throughput"),
                sent=[[k, v["type"], v["pipeline_id"]] if k == "alert" else [k, v["pipeline_id"], v["module_name"], v["data_type"], v["value"], v["step"], v["timestamp"]] for k, v in sock.sent],
            )
            return act, dict(pipes=exp, known=["p", "q"], trackers=["p", "q"], alerts=al, sent=sent,
                             metrics=sorted([f"{p}_execution_time" for p in exp if exp[p]["time"]] + [f"{p}_memory_usage" for p in exp if exp[p]["mem"]]))

    check_scenario(T, f"dashboard session, alerts {alerts}", scenario, max_validate=10)


def t_alerts(T, n):
    """Symbolic thresholds, one pipeline."""
    note(T, *DASH)

    def scenario(env):
        with world() as w:
            pt, mt = env.real("threshold_ms"), env.real("threshold_mb")
            d = dashboard(True, pt, mt)
            d.register_pipeline("p", lambda x: x, 0.0)
            al = []
            for i in range(n):
                t, m = env.real(f"ms{i}"), env.real(f"mb{i}")
                d.record_pipeline_data("p", "mod", "output", 0.0, {"execution_time_ms": t, "memory_usage_mb": m})
                al += [k for k, c in (("performance", t > pt), ("memory", m > mt)) if bool(c)]
            return [a["type"] for a in d.state.alerts], al

    check_scenario(T, "alerts", scenario, max_validate=20)


def t_serialize(T):
    note(T, "interactive_dashboard.py:InteractiveDashboard._serialize_value")

    def scenario(env):
        import jax.numpy as jnp

        with world():
            d = dashboard()
            sock = Socket()
            d.socketio = sock
            d.state.connected_clients.add("c")
            d.register_pipeline("p", lambda x: x, 0.0)
            x, y = env.real("x"), env.real("y")
            arr = lambda *v: np.array(v, dtype=float) if env.concrete else np.array(v, dtype=object)
            ten, eleven = arr(x, *range(8), y), arr(x, *range(9), y)
            lo, hi = (x if bool(x < y) else y), (y if bool(x < y) else x)
            lo, hi = (lo if bool(lo < 0) else 0), (hi if bool(hi > 8) else 8)
            cases = [
                (x, x), (ten, [x, *range(8), y]), (arr(x, y).reshape(2, 1), [[x], [y]]), ("s", "s"), (True, True), (3, 3), (jnp.arange(4), [0, 1, 2, 3]), (jnp.float32(0.5), 0.5),
                (eleven, dict(type="array", shape=[11], min=lo, max=hi, mean=(x + y + 36) / 11)),
                ({"u": x, "v": [y, (x,)]}, {"u": x, "v": [y, [x]]}), ([y] * 10, [y] * 10), ([y] * 11, dict(type="sequence", length=11)), ((x, {"w": eleven.reshape(11, 1)[:3]}), [x, {"w": [[x], [0], [1]]}]),
                (jnp.arange(12).reshape(3, 4), dict(type="array", shape=[3, 4], min=0, max=11, mean=5.5)), (None, "NoneType"), ({3}, "set"),
            ]
            k = env.int("case", 0, len(cases) - 1)
            d.record_pipeline_data("p", "mod", "output", cases[k][0])

            def norm(v):
                if isinstance(v, dict):
                    if v.get("type") == "array":
                        return {kk: norm(v[kk]) for kk in ("type", "shape", "min", "max", "mean")}
                    if set(v) == {"type", "str"}:
                        return v["type"]
                    return {kk: norm(x) for kk, x in v.items()}
                return [norm(x) for x in v] if isinstance(v, (list, tuple)) else v

            return [norm(m["value"]) for k, m in sock.sent if k == "pipeline_data_update"], [cases[k][1]]

    check_scenario(T, "serialized values", scenario, max_validate=60)


# --------------------------------------------------------------------------- jupyter streams
def t_streams(T, hist, n):
    note(T, "jupyter_viz.py:StreamingDataVisualizer.update_stream", "jupyter_viz.py:StreamingDataVisualizer.add_stream")

    class Fig:
        def __init__(self):
            self.data = []

        def add_scatter(self, x=(), y=(), name=None, **k):
            self.data.append(types.SimpleNamespace(x=list(x), y=list(y), name=name))

        def batch_update(self):
            return contextlib.nullcontext()

    def scenario(env):
        from wax.flax.visualization import jupyter_viz as jv

        with world() as w:
            viz = jv.StreamingDataVisualizer(jv.JupyterVizConfig(max_history_points=hist))
            figs = [Fig(), Fig()]
            names = ("u", "v")
            for f in figs:
                for s in names:
                    viz.add_stream(f, s)
            exp = [[[] for _ in names] for _ in figs]
            for i in range(n):
                w.now = w.now + env.real(f"dt{i}", 0)
                f, s = int(bool(env.flag(f"fig{i}"))), int(bool(env.flag(f"v{i}")))
                x = env.real(f"x{i}")
                if i == 1:
                    viz.update_stream(figs[f], "missing", x)
                if i % 2:
                    t = env.real(f"t{i}")
                    viz.update_stream(figs[f], names[s], x, t)
                else:
                    t = w.now
                    viz.update_stream(figs[f], names[s], x)
                exp[f][s] = (exp[f][s] + [[t, x]])[-hist:]
            act = [[[[a, b] for a, b in zip(list(tr.x), list(tr.y), strict=True)] for tr in f.data] for f in figs]
            return act, exp

    check_scenario(T, f"streams, {hist} points", scenario, max_validate=20)


# --------------------------------------------------------------------------- graphs
def tree(env, shape, prefix=""):
    """Parameter tree with symbolic presence of modules and of their own parameters -> (params, holders)"""
    out, holders = {}, []
    for name, sub in shape.items():
        path = f"{prefix}.{name}" if prefix else name
        if not env.flag(f"has {path}"):
            continue
        inner, h = tree(env, sub, path)
        if not inner or env.flag(f"own {path}"):
            inner = {"kernel": np.ones((2, 2)), **inner}
            holders.append(path)
        out[name] = inner
        holders += h
    return out, holders


class Transform:
    def __init__(self, params, pair):
        self.params, self.pair = params, pair
        self.__name__ = "pipeline"

    def init(self, rng, *a):
        return (self.params, {}) if self.pair else {"params": self.params, "state": {}}

    def apply(self, *a):
        return None


SHAPE = {"Dense_0": {"Dense_1": {"Dense_2": {}}, "head": {}}, "Dense_10": {}}


def expected_edges(holders):
    return sorted([h.rsplit(".", 1)[0], h] for h in holders if "." in h and h.rsplit(".", 1)[0] in holders)


def t_graph(T):
    note(T, "computation_graph.py:ComputationGraphRenderer.analyze_streaming_function", "computation_graph.py:ComputationGraphRenderer._extract_modules_from_params")

    def scenario(env):
        import wax.flax.visualization as v

        with world():
            params, holders = tree(env, SHAPE)
            r = v.ComputationGraphRenderer().analyze_streaming_function(Transform(params, env.flag("pair")), np.ones((3, 2)))
            act = dict(nodes=sorted(r.nodes), ids=sorted(x.id for x in r.nodes.values()), names=sorted(x.name for x in r.nodes.values()),
                       edges=sorted([e.source, e.target] for e in r.edges), shape=[list(s) for s in r.nodes["main"].input_shapes.values()])
            ids = sorted(["main", *holders])
            return act, dict(nodes=ids, ids=ids, names=sorted(["pipeline", *[h.split(".")[-1] for h in holders]]), edges=expected_edges(holders), shape=[[3, 2]])

    check_scenario(T, "computation graph", scenario, max_validate=10)


def t_render(T, fmt):
    """Outputs of a graph built from any subset of nodes and edges."""
    note(T, f"computation_graph.py:ComputationGraphRenderer._render_{fmt}")
    NODES = ("n1", "n2", "n3")

    def scenario(env):
        import wax.flax.visualization as v

        with world():
            r = v.ComputationGraphRenderer(output_format=fmt)
            nodes = [k for k in NODES if env.flag(f"has {k}")]
            for k in nodes:
                r.add_node(v.PipelineNode(id=k, name=f"Name_{k}", module_type=f"Type_{k}"))
            edges = []
            for a, b in itertools.permutations(NODES, 2):
                if a in nodes and b in nodes and env.flag(f"{a}->{b}"):
                    label = f"via_{a}{b}" if env.flag(f"label {a}{b}") else ""
                    r.add_edge(v.PipelineEdge(source=a, target=b, label=label))
                    edges.append([a, b, label])
            out = r.render() if fmt != "text" else text_of(r)
            if fmt == "dot":
                ns = re.findall(r'^\s*"?(\w+)"?\s*\[label="([^"]*)"', out, re.M)
                es = re.findall(r'^\s*"?(\w+)"?\s*->\s*"?(\w+)"?(?:\s*\[label="([^"]*)")?', out, re.M)
            elif fmt == "html":
                ns = [(i, f"{a} {b}") for a, b, i in re.findall(r"<strong>(\w+)</strong>\s*\((\w+)\)\s*<br>\s*ID:\s*(\w+)", out)]
                es = re.findall(r"(\w+) → (\w+)(?: \[(\w+)\])?<", out)
            else:
                ns = [(i, f"{a} {b}") for i, a, b in re.findall(r"^\s*(\w+): (\w+) \((\w+)\)$", out, re.M)]
                es = re.findall(r"^\s*(\w+) -> (\w+)(?: \[(\w+)\])?$", out, re.M)
            act = dict(nodes=sorted([i, f"Name_{i}" in t and f"Type_{i}" in t] for i, t in ns), edges=sorted(map(list, es)))
            return act, dict(nodes=[[k, True] for k in nodes], edges=sorted(edges))

    check_scenario(T, f"{fmt} output", scenario, max_paths=20000, max_validate=10)


def text_of(r):
    """render() falls back on matplotlib and networkx when they are installed; the text output otherwise."""
    from vlib.pysym import patched
    from wax.flax.visualization import computation_graph as cg

    with patched((cg, "HAS_MATPLOTLIB", False), (cg, "HAS_GRAPHVIZ", False)):
        return r.render()


def structure(h):
    return {k: [n.parent, sorted(n.children), n.level, n.node_type] for k, n in h.items()}


def graph_data(html, key):
    m = re.search(key, html)
    return json.JSONDecoder().raw_decode(html[m.end():].lstrip())[0]


def outputs(v, h, cfg):
    """Nodes and links in the Cytoscape and D3 pages."""
    cy = graph_data(v.CytoscapeNestedRenderer(cfg).render_interactive_graph(h), r"elements:")
    d3 = graph_data(v.D3NestedRenderer(cfg).render_d3_graph(h), r"const data =")
    nodes = [e["data"] for e in cy if "source" not in e["data"]]
    links = [e["data"] for e in cy if "source" in e["data"]]
    return dict(cy=sorted([n["id"], n["label"], n["type"], n["level"], n.get("parent") or ""] for n in nodes), cyl=sorted([e["source"], e["target"]] for e in links),
                d3=sorted([n["id"], n["name"], n["type"], n["level"]] for n in d3["nodes"]), d3l=sorted([e["source"], e["target"]] for e in d3["links"]))


def expected_outputs(st, names):
    return dict(cy=sorted([k, names[k], t, lv, p or ""] for k, (p, _, lv, t) in st.items()), cyl=sorted([k, c] for k, (_, cs, _, _) in st.items() for c in cs),
                d3=sorted([k, names[k], t, lv] for k, (_, _, lv, t) in st.items()), d3l=sorted([k, c] for k, (_, cs, _, _) in st.items() for c in cs))


def expected_hierarchy(kinds, holders, least):
    """kinds: node id -> type -> structure with clusters named by their members"""
    parent = {k: (k.rsplit(".", 1)[0] if "." in k and k.rsplit(".", 1)[0] in kinds else None) for k in kinds}
    groups = {}
    for k in kinds:
        if parent[k] is None:
            groups.setdefault(kinds[k], []).append(k)
    kinds = dict(kinds)
    for t, ks in groups.items():
        if len(ks) >= least:
            c = f"<{t}>"
            kinds[c], parent[c] = "cluster", None
            for k in ks:
                parent[k] = c
    depth = lambda k: 0 if parent[k] is None else 1 + depth(parent[k])
    return {k: [parent[k], sorted(c for c in parent if parent[c] == k), depth(k), kinds[k]] for k in kinds}


def rename(h):
    """cluster ids -> <type of the members>"""
    ids = {k: (f"<{n.properties['cluster_type']}>" if n.node_type == "cluster" else k) for k, n in h.items()}
    return ids


def check_nested(env, params, kinds, holders):
    import wax.flax.visualization as v

    least = env.int("cluster_min_nodes", 1, 4)
    cfg = v.NestedGraphConfig(cluster_min_nodes=least, auto_cluster=bool(env.flag("auto_cluster")))
    an = v.HierarchicalGraphAnalyzer(cfg)
    fn = Transform(params, False)
    an.analyze_streaming_function(Transform({"old": {"kernel": np.ones(2)}}, False), np.ones(2))
    h = an.analyze_streaming_function(fn, np.ones(2))
    ids = rename(h)
    exp = expected_hierarchy(kinds, holders, least if env.flag("auto_cluster") else 10**9)
    act = {ids[k]: [ids.get(p) if p else p, sorted(ids.get(c, c) for c in cs), lv, t] for k, (p, cs, lv, t) in structure(h).items()}
    depth = max(x[2] for x in exp.values())
    s = v.NestedGraphVisualizer(cfg).get_hierarchy_summary(fn, np.ones(2))
    per = {}
    for x in exp.values():
        per[x[2]] = per.get(x[2], 0) + 1
    return ([act, an.get_max_level(), {str(k): sorted(ids[x] for x in ks) for k, ks in an.levels.items()}, s["total_nodes"], {str(k): x for k, x in s["nodes_per_level"].items()}, outputs(v, h, cfg)],
            [exp, depth, {str(lv): sorted(k for k, x in exp.items() if x[2] == lv) for lv in per}, len(exp), {str(k): x for k, x in per.items()},
             expected_outputs(structure(h), {k: n.name for k, n in h.items()})])


NESTED = ("nested_graph_viz.py:HierarchicalGraphAnalyzer.analyze_streaming_function", "nested_graph_viz.py:HierarchicalGraphAnalyzer._auto_cluster_nodes", "nested_graph_viz.py:HierarchicalGraphAnalyzer._assign_hierarchy_levels",
          "nested_graph_viz.py:CytoscapeNestedRenderer.render_interactive_graph", "nested_graph_viz.py:D3NestedRenderer.render_d3_graph")


def t_nested(T):
    note(T, *NESTED)

    def scenario(env):
        with world():
            params, holders = tree(env, {"Dense_0": {"Dense_1": {"Dense_2": {}}, "head": {}}})
            return check_nested(env, params, {**dict.fromkeys(holders, "unknown"), "main": "function"}, holders)

    check_scenario(T, "nested graph", scenario, max_paths=20000, max_validate=10)


def t_nested_flat(T, n):
    """Sibling modules of symbolic types (names sharing prefixes)."""
    note(T, *NESTED)
    NAMES = ["mod_1", "mod_10", "mod_2", "mod_100", "mod_20", "mod_3"][:n]

    def scenario(env):
        with world():
            params, kinds = {}, {}
            for k in NAMES:
                plain = env.flag(f"bias {k}")
                params[k] = {"bias": np.ones(2)} if plain else {"alpha": np.ones(())}
                kinds[k] = "module" if plain else "ewma"
            return check_nested(env, params, {**kinds, "main": "function"}, NAMES)

    check_scenario(T, "nested graph of siblings", scenario, max_paths=20000, max_validate=10)
