"""P19: the Gym loop (gym_unroll, Agent.unroll, callbacks, Stop, Record) follows the agent-environment protocol."""
import itertools

import numpy as np

from checks.P17_encode import decide, guard

BOUNDS = "episodes of at most 4 (quick) / 6 (thorough) steps, symbolic done flags, symbolic stop threshold, symbolic fault position; 0..2 callbacks"
ASSUMPTIONS = [
    "agent, environment and reward are uninterpreted functions of the step and their argument",
    "the environment is done after the bound at the latest; order among different callbacks of one phase is not specified",
]
META = dict(
    title="The Gym loop follows the agent-environment protocol and serves its callbacks",
    statement="gym_unroll (and Agent.unroll) starts from the given observation or else from one env.reset(), then alternates agent(obs) and "
    "env.step(action), each on the latest value, and ends exactly after the first step on which the environment is done or a callback asks to "
    "stop (Stop(n): after n steps), closes the environment once and returns the last (reward, obs, action, done, info). Each active callback is "
    "called once at start with the first observation, once per action, once per step with that step's values and once at the end; a nested loop "
    "does not see the outer callbacks, a callback whose context ended or that was unregistered is not served and the others are; after normal or exceptional exit the registered callbacks are restored. Record returns the rewards (and "
    "observations, actions) of all steps that are not the environment's final one, in order (labelled containers with their labels).",
    over=["histories", "fault_sequences", "programs"],
    quant="all episodes (done flags, stop thresholds, values) and fault positions within the bound",
    why="tests run one fixed environment to its end",
    files=["src/wax/gym/gym_unroll.py", "src/wax/gym/callbacks/callbacks.py", "src/wax/gym/callbacks/stop.py", "src/wax/gym/callbacks/record.py",
           "src/wax/gym/agent.py"],
    mech=[("gym_unroll", "src/wax/gym/gym_unroll.py"), ("Callback, local_callbacks, add_callbacks", "src/wax/gym/callbacks/callbacks.py"),
          ("Stop", "src/wax/gym/callbacks/stop.py"), ("Record", "src/wax/gym/callbacks/record.py")],
)


def tasks(tier):
    n = 4 if tier == "quick" else 6
    modes = ["none", "context", "explicit", "register", "two", "subclass", "stop", "stop+context", "nested", "agent.unroll", "asks", "inner-context-left",
             "other-unregistered"]
    out = [dict(name=f"loop-{m}", fn="t_loop", kw=dict(mode=m, n=n)) for m in modes]
    out += [dict(name=f"fault-{w}", fn="t_fault", kw=dict(where=w, n=n)) for w in ("agent", "env", "on_act", "on_step", "start", "end")]
    out += [dict(name="record", fn="t_record", kw=dict(n=n))]
    out += [dict(name=f"record-{k}", fn="t_record_labelled", kw=dict(kind=k, n=n + 1)) for k in ("frame", "series", "dataarray")]
    return out


class Boom(Exception):
    pass


class Sym:
    """Symbolic world."""

    def __init__(self, n):
        self.n = n

    def _uf(self, name, t, *a):
        import z3

        from vlib.dom import F
        from vlib.pysym import SReal

        f = z3.Function(name, *([z3.IntSort()] + [z3.RealSort()] * len(a) + [z3.RealSort()]))
        return SReal(F(f(z3.IntVal(t), *[x.f.r for x in a])))

    def obs0(self):
        return self._uf("obs0", 0)

    def action(self, t, o):
        return self._uf("act", t, o)

    def obs(self, t, a):
        return self._uf("obs", t, a)

    def reward(self, t, a):
        return self._uf("rw", t, a)

    def done(self, t):
        import z3

        from vlib.pysym import SBool

        return True if t >= self.n - 1 else SBool(z3.Bool(f"done{t}"))

    def ask(self, j, t):
        """What the j-th asking callback returns on step t."""
        import z3

        from vlib.pysym import SBool

        return SBool(z3.Bool(f"ask{j}_{t}"))

    def stop(self):
        import z3

        from vlib.pysym import SInt

        return SInt(z3.Int("stop"))

    def fault(self):
        import z3

        from vlib.pysym import SInt

        return SInt(z3.Int("fault"))


class Conc:
    """Concrete world of a model."""

    def __init__(self, n, md):
        import z3

        self.n = n
        self.d = [z3.is_true(md.eval(z3.Bool(f"done{t}"), model_completion=True)) for t in range(n)]
        self.s = md.eval(z3.Int("stop"), model_completion=True).as_long()
        self.k = md.eval(z3.Int("fault"), model_completion=True).as_long()
        self.a = [[z3.is_true(md.eval(z3.Bool(f"ask{j}_{t}"), model_completion=True)) for t in range(n)] for j in range(2)]

    def ask(self, j, t):
        return self.a[j][t]

    def obs0(self):
        return 1.5

    def action(self, t, o):
        return 3 * o + t + 1

    def obs(self, t, a):
        return a / 2 - t

    def reward(self, t, a):
        return 7 * a + t

    def done(self, t):
        return True if t >= self.n - 1 else self.d[t]

    def stop(self):
        return self.s

    def fault(self):
        return self.k


class Env:
    def __init__(self, w, log, fault=None):
        self.w, self.log, self.t, self.f = w, log, 0, fault

    def reset(self):
        self.log.append(("reset",))
        return self.w.obs0()

    def step(self, a):
        t = self.t
        self.t += 1
        if self.f is not None and t == self.f:
            raise Boom()
        self.log.append(("env", a))
        d = self.w.done(t)
        return self.w.obs(t, a), self.w.reward(t, a), d, {"t": t}

    def close(self):
        self.log.append(("close",))


class AgentFn:
    name = "a"

    def __init__(self, w, log, fault=None, nested=False):
        self.w, self.log, self.t, self.f, self.nested = w, log, 0, fault, nested

    def __call__(self, o):
        t = self.t
        self.t += 1
        if self.f is not None and t == self.f:
            raise Boom()
        if self.nested:
            from wax.gym.gym_unroll import gym_unroll

            inner = Sym(1) if isinstance(self.w, Sym) else self.w
            e = Env(inner, [])
            e.step = lambda a: (0, 0, True, {})
            gym_unroll(lambda o: o, e)
        self.log.append(("agent", o))
        return self.w.action(t, o)


def cb_functions(log, tag="cb", env=None, agent=None, fault=None, where=None):
    cnt = dict(a=0, s=0)

    def start(e, a, o):
        log.append((tag, "start", o))
        if where == "start":
            raise Boom()

    def act(e, a, o, x):
        k = cnt["a"]
        cnt["a"] += 1
        if where == "on_act" and k == fault:
            raise Boom()
        log.append((tag, "act", o, x))

    def step(e, a, s):
        k = cnt["s"]
        cnt["s"] += 1
        if where == "on_step" and k == fault:
            raise Boom()
        log.append((tag, "step", s.rw, s.obs, s.action, s.done, s.info["t"]))

    def end(e, a):
        log.append((tag, "end"))
        if where == "end":
            raise Boom()

    return dict(on_train_start=start, on_act=act, on_step=step, on_train_end=end)


def expected(w, n, stop=None, cbs=(), obs=None, asks=0):
    """Reference protocol: per-actor event lists and the final state."""
    log = []
    o = obs
    if o is None:
        log.append(("reset",))
        o = w.obs0()
    for c in cbs:
        log.append((c, "start", o))
    t = 0
    while True:
        log.append(("agent", o))
        a = w.action(t, o)
        for c in cbs:
            log.append((c, "act", o, a))
        log.append(("env", a))
        d = w.done(t)
        o, r = w.obs(t, a), w.reward(t, a)
        for c in cbs:
            log.append((c, "step", r, o, a, d, t))
        last = (r, o, a, d, t)
        t += 1
        if bool(d) or (stop is not None and bool(stop <= t)) or any(bool(w.ask(j, t - 1)) for j in range(asks)):
            break
    for c in cbs:
        log.append((c, "end"))
    log.append(("close",))
    return log, last


def differ(a, b):
    """Conditions under which two nested event structures differ."""
    from vlib import dom
    from vlib.pysym import SBool, SInt, SReal

    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return [True]
        return [c for x, y in zip(a, b) for c in differ(x, y)]
    if isinstance(a, SReal) and isinstance(b, SReal):
        return [dom.to_z3_bool(dom.b_not(dom.f_same(a.f, b.f)))]
    if isinstance(a, SBool) or isinstance(b, SBool):
        za = a.z if isinstance(a, SBool) else a
        zb = b.z if isinstance(b, SBool) else b
        if not isinstance(za, (bool, type(None))) and not isinstance(zb, (bool, type(None))):
            return [za != zb]
        return [za != zb] if za is not None and zb is not None else [True]
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return [True]
        return [c for x, y in zip(np.ravel(a), np.ravel(b)) for c in differ(x, y)]
    try:
        return [not bool(a == b)]
    except Exception:
        return [True]


def per_tag(log):
    """Interleaving across different callbacks of one phase is free; everything else is ordered."""
    tags = {}
    for e in log:
        if str(e[0]).startswith("cb"):
            tags.setdefault(e[0], []).append(e)
    base = [e for e in log if not str(e[0]).startswith("cb")]
    anchored = []
    pos = 0
    for e in log:
        if str(e[0]).startswith("cb"):
            anchored.append((pos, e[0], e[1]))
        else:
            pos += 1
    return [base, sorted(anchored), [tags[k] for k in sorted(tags)]]


def run_mode(w, n, mode):
    """Real loop in the given mode -> (log, result) and the callbacks that must be served."""
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll

    Callback.active = set()
    log = []
    env, ag = Env(w, log), AgentFn(w, log, nested=mode == "nested")
    cbs, stop, obs, asks = [], None, None, 0
    if mode == "none":
        st = gym_unroll(ag, env)
    elif mode == "context":
        with Callback(**cb_functions(log)):
            st = gym_unroll(ag, env)
        cbs = ["cb"]
    elif mode == "nested":
        with Callback(**cb_functions(log)):
            st = gym_unroll(ag, env)
        cbs = ["cb"]
    elif mode == "explicit":
        c = Callback(**cb_functions(log))
        from wax.gym.callbacks.callbacks import normalize_callback

        with Callback(**cb_functions(log, "ignored")):
            obs = w.obs0()
            st = gym_unroll(ag, env, obs=obs, callbacks=[normalize_callback(c)])
        cbs = ["cb"]
    elif mode == "register":
        c = Callback(**cb_functions(log))
        c.register()
        st = gym_unroll(ag, env)
        c.unregister()
        cbs = ["cb"]
    elif mode == "two":
        f2 = cb_functions(log, "cb2")
        with Callback(**cb_functions(log, "cb1")), Callback(**f2):
            st = gym_unroll(ag, env)
        cbs = ["cb1", "cb2"]
    elif mode == "subclass":

        class C(Callback):
            def __init__(self):
                f = cb_functions(log)
                self.f = f

            def _on_train_start(self, *a):
                self.f["on_train_start"](*a)

            def _on_act(self, *a):
                self.f["on_act"](*a)

            def _on_step(self, *a):
                self.f["on_step"](*a)

            def _on_train_end(self, *a):
                self.f["on_train_end"](*a)

        with C():
            st = gym_unroll(ag, env)
        cbs = ["cb"]
    elif mode == "stop":
        stop = w.stop()
        with Stop(stop):
            st = gym_unroll(ag, env)
    elif mode == "stop+context":
        stop = w.stop()
        with Stop(stop), Callback(**cb_functions(log)):
            st = gym_unroll(ag, env)
        cbs = ["cb"]
    elif mode == "asks":

        def asking(j):
            cnt = itertools.count()
            return lambda e, a, g: w.ask(j, next(cnt))

        with Callback(on_step=asking(0)), Callback(on_step=asking(1)), Callback(**cb_functions(log)):
            st = gym_unroll(ag, env)
        cbs, asks = ["cb"], 2
    elif mode == "inner-context-left":
        with Callback(**cb_functions(log)):
            with Callback(**cb_functions(log, "left")):
                pass
            st = gym_unroll(ag, env)
        cbs = ["cb"]
    elif mode == "other-unregistered":
        c, left = Callback(**cb_functions(log)), Callback(**cb_functions(log, "left"))
        c.register()
        left.register()
        left.unregister()
        st = gym_unroll(ag, env)
        c.unregister()
        cbs = ["cb"]
    elif mode == "agent.unroll":
        from wax.gym.agent import Agent

        class A(Agent):
            def __call__(self, o):
                return ag(o)

        with Callback(**cb_functions(log)):
            st = A().unroll(env)
        cbs = ["cb"]
    active = set(Callback.active)
    Callback.active = set()
    return log, (st.rw, st.obs, st.action, st.done, st.info["t"]), not active, expected(w, n, stop, cbs, obs, asks)


def t_loop(T, mode, n):
    import z3

    T.bounds = dict(steps=n, mode=mode)
    T.functions |= {"wax/gym/gym_unroll.py:gym_unroll", "wax/gym/callbacks/callbacks.py:local_callbacks",
                    "wax/gym/callbacks/callbacks.py:unpack_callbacks", "wax/gym/callbacks/callbacks.py:Callback"}
    side = [z3.Int("stop") >= 1, z3.Int("fault") >= 0]

    def judge(r):
        log, st, clean, (elog, est) = r
        return [not clean] + differ(per_tag(log), per_tag(elog)) + differ(st, est)

    def real(md):
        r = run_mode(Conc(n, md), n, mode)
        bad = any(bool(c) for c in judge(r))
        return bad, dict(mode=mode, events=[str(e) for e in r[0]], expected=[str(e) for e in r[3][0]], result=str(r[1]), expected_result=str(r[3][1]))

    decide(T, f"gym loop {mode}", side, lambda: run_mode(Sym(n), n, mode), judge, guard(real))


def run_fault(w, n, where):
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.gym_unroll import gym_unroll

    Callback.active = set()
    log = []
    k = w.fault()
    env = Env(w, log, k if where == "env" else None)
    ag = AgentFn(w, log, k if where == "agent" else None)
    cb = Callback(**cb_functions(log, fault=k, where=where))
    raised = False
    with cb:
        try:
            gym_unroll(ag, env)
        except Boom:
            raised = True
        inside = set(Callback.active) == {cb._callback}
        # a second loop in the same context is still served
        log2 = []
        env2, ag2 = Env(w, log2), AgentFn(w, log2)
        n0 = len(log)
        try:
            gym_unroll(ag2, env2)
        except Boom:
            pass
        served = len(log) > n0 or where == "start"
    after = not Callback.active
    Callback.active = set()
    elog, _ = expected(w, n, None, ["cb"])
    phase = {"agent": "agent", "env": "env"}.get(where)
    steps = sum(1 for e in elog if e[0] == "agent")
    hit = True if where in ("start", "end") else bool(k < steps) if isinstance(k, int) else bool(k < steps)
    return raised, inside, served, after, hit


def t_fault(T, where, n):
    import z3

    T.bounds = dict(steps=n, fault_in=where)
    T.functions |= {"wax/gym/gym_unroll.py:gym_unroll", "wax/gym/callbacks/callbacks.py:local_callbacks"}
    side = [z3.Int("fault") >= 0, z3.Int("stop") >= 1]

    def judge(r):
        raised, inside, served, after, hit = r
        return [raised != hit, not inside, not served, not after]

    def real(md):
        r = run_fault(Conc(n, md), n, where)
        return any(judge(r)), dict(raised=r[0], active_inside=r[1], second_loop_served=r[2], inactive_after=r[3], fault_reached=r[4])

    decide(T, f"callbacks after a fault in {where}", side, lambda: run_fault(Sym(n), n, where), judge, guard(real))


def run_record(w, n, ro, ra):
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.callbacks.record import Record
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll

    Callback.active = set()
    log = []
    stop = w.stop()
    rec = Record(return_obs=ro, return_action=ra)
    with rec, Stop(stop):
        gym_unroll(AgentFn(w, log), Env(w, log))
    elog, _ = expected(w, n, stop, ["cb"])
    steps = [e for e in elog if e[0] == "cb" and e[1] == "step"]
    keep = [e for e in steps if not bool(e[5])]
    out = rec.get_outputs() if keep else None
    Callback.active = set()
    return out, keep


def t_record(T, n):
    import z3

    T.bounds = dict(steps=n)
    T.functions |= {"wax/gym/callbacks/record.py:Record", "wax/gym/callbacks/stop.py:Stop", "wax/modules/gym_feedback.py:GymOutput"}
    side = [z3.Int("stop") >= 1, z3.Int("fault") >= 0]
    for ro, ra in itertools.product((False, True), (False, True)):

        def judge(r):
            out, keep = r
            if not keep:
                return [False]
            names = ["reward"] + ["obs"] * ro + ["action"] * ra
            if list(out._fields) != names:
                return [True]
            ix = dict(reward=2, obs=3, action=4)
            return [c for f in names for c in differ(list(np.asarray(getattr(out, f), dtype=object)), [e[ix[f]] for e in keep])]

        def real(md):
            r = run_record(Conc(n, md), n, ro, ra)
            return any(bool(c) for c in judge(r)), dict(recorded=str(r[0])[:300], steps=[str(e) for e in r[1]])

        decide(T, f"record obs={ro} action={ra}", side, lambda: run_record(Sym(n), n, ro, ra), judge, guard(real))
        if T.violations:
            return


def run_labelled(w, n, kind):
    """A recorded loop whose rewards and observations are labelled containers -> (recorded values and labels, expected ones)."""
    import pandas as pd
    import xarray as xr
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.callbacks.record import Record
    from wax.gym.gym_unroll import gym_unroll

    Callback.active = set()
    exp = dict(reward=[], obs=[])
    lab = [(7 * t + 3) % 10 for t in range(n)]

    def box(v, t):
        a = np.empty((1,), dtype=object)
        a[0] = v
        if kind == "frame":
            return pd.DataFrame({"a": a}, index=[lab[t]])
        if kind == "series":
            return pd.Series(a, index=[lab[t]])
        return xr.DataArray(a, dims=("time",), coords={"time": [lab[t]]})

    class E:
        t = 0

        def reset(self):
            return None

        def step(self, a):
            t, self.t = self.t, self.t + 1
            o, r = w.obs(t, w.obs0()), w.reward(t, w.obs0())
            d = t == n - 1
            if not d:
                exp["obs"].append((lab[t], o))
                exp["reward"].append((lab[t], r))
            return box(o, t), box(r, t), d, {}

        def close(self):
            pass

    rec = Record(return_obs=True)
    with rec:
        gym_unroll(lambda o: 0, E())
    out = rec.get_outputs()
    Callback.active = set()

    def pairs(c):
        labels = c.coords["time"].values if kind == "dataarray" else c.index
        return [(int(l), v) for l, v in zip(labels, np.ravel(c.values))]

    return {k: pairs(getattr(out, k)) for k in exp}, exp


def t_record_labelled(T, kind, n):
    T.bounds = dict(steps=n)
    T.functions |= {"wax/gym/callbacks/record.py:Record"}

    def judge(r):
        out, exp = r
        return [c for k in exp for c in differ(out[k], exp[k])]

    def real(md):
        r = run_labelled(Conc(n, md), n, kind)
        return any(bool(c) for c in judge(r)), dict(recorded=str(r[0])[:300], expected=str(r[1])[:300])

    decide(T, f"record of {kind}", [], lambda: run_labelled(Sym(n), n, kind), judge, guard(real))
