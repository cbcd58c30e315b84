"""P20: GymFeedback (Haiku, Flax) and the Haiku agent / environment wrappers follow one feedback protocol."""
import itertools

import numpy as np

from vlib.harness import check_equiv

BOUNDS = "histories of 1..4 (quick) / 1..7 (thorough) steps, every combination of return_obs, return_action and init_action; symbolic observations, states, parameters"
ASSUMPTIONS = [
    "real arithmetic in which sin/tanh are uninterpreted functions, so agent and environment stand for any functions of that shape",
    "agents and environments do not draw random numbers",
]
META = dict(
    title="GymFeedback and the Haiku agent/environment wrappers realise the same feedback",
    statement="Haiku GymFeedback applies, at each step, first the environment to (previous action, raw observation) and then the agent to the "
    "environment's observation; it returns the reward (with return_obs / return_action also that observation and that action), passes on "
    "both infos and keeps that action as state; the first action is init_action or the agent's action on the first raw observation. HaikuAgent and "
    "HaikuEnv thread parameters and state through successive calls (initialised at the first call after construction or reset), HaikuEnv "
    "draws one raw observation per reset and per step and is done when the data is exhausted; a Gym loop over them yields the same rewards and "
    "observations as unrolling GymFeedback with skip_first, whose action of each step is the one the loop applies next. Flax GymFeedback returns and stores the agent's action on obs (and reward, if given and "
    "accepted); GymFeedbackLoop also returns obs and the reward (0 when absent).",
    over=["programs", "histories", "inputs"],
    quant="all agents and environments of the modelled shape, all data, all output options, histories within the bound",
    why="tests run one integer agent over one 10-element sequence",
    files=["src/wax/modules/gym_feedback.py", "src/wax/flax/modules/gym_feedback.py", "src/wax/gym/haiku_agent.py", "src/wax/gym/haiku_env.py",
           "src/wax/gym/gym_unroll.py", "src/wax/gym/callbacks/record.py"],
    mech=[("GymFeedback, GymOutput", "src/wax/modules/gym_feedback.py"), ("HaikuAgent", "src/wax/gym/haiku_agent.py"),
          ("HaikuEnv", "src/wax/gym/haiku_env.py"), ("GymFeedback, GymFeedbackLoop", "src/wax/flax/modules/gym_feedback.py")],
)


def tasks(tier):
    n = 4 if tier == "quick" else 7
    out = []
    for ro, ra, ia in itertools.product((False, True), (False, True), (False, True)):
        out.append(dict(name=f"feedback-obs{int(ro)}-act{int(ra)}-init{int(ia)}", fn="t_feedback", kw=dict(ro=ro, ra=ra, ia=ia, n=n)))
    for k in range(1, n + 1):
        out.append(dict(name=f"loop-n{k}", fn="t_loop", kw=dict(n=k)))
        out.append(dict(name=f"agree-n{k}", fn="t_agree", kw=dict(n=k)))
    out.append(dict(name="episodes", fn="t_episodes", kw=dict(n=n)))
    out.append(dict(name="flax", fn="t_flax", kw=dict(n=n)))
    return out


def agent_fn(info=True, stateful=True):
    import haiku as hk
    import jax.numpy as jnp

    def agent(obs):
        w = hk.get_parameter("aw", [], init=jnp.ones)
        r = jnp.zeros([2])
        if stateful:
            r = hk.get_state("am", [2], init=jnp.zeros)
            hk.set_state("am", jnp.sin(r + obs["o"]))
        act = {"a": jnp.tanh(obs["o"] * w + r), "b": [obs["o"][0] - 3 * r[1]]}
        return (act, {"mem": r}) if info else act

    return agent


def env_fn(info=True):
    import haiku as hk
    import jax.numpy as jnp

    def env(action, raw):
        w = hk.get_parameter("ew", [], init=jnp.ones)
        m = hk.get_state("em", [2], init=jnp.zeros)
        hk.set_state("em", jnp.sin(m + action["a"] + raw["o"]))
        obs = {"o": raw["o"] + 2 * action["a"] + m * w}
        rw = jnp.tanh(action["b"][0] + 5 * raw["o"][0]) + m[0]
        return (rw, obs, {"env": m}) if info else (rw, obs)

    return env


def close(fn):
    import haiku as hk

    return hk.transform_with_state(fn)


def named(pairs):
    """haiku functions grouped in one module-less transform share the '~' module; keep as is."""
    return pairs


def t_feedback(T, ro, ra, ia, n):
    import haiku as hk
    import jax
    import jax.numpy as jnp

    from wax.modules.gym_feedback import GymFeedback

    T.bounds = dict(steps=n, return_obs=ro, return_action=ra, init_action=ia)

    def inputs(I):
        return dict(raw={"o": I.sym("raw", (n, 2), nan=False)}, a0=I.sym("a0", (2,), nan=False), b0=I.sym("b0", (), nan=False),
                    aw=I.sym("aw", (), nan=False), ew=I.sym("ew", (), nan=False))

    def run(raw, a0, b0, aw, ew):
        init = {"a": a0, "b": [b0]} if ia else None

        @hk.transform_with_state
        def f(x):
            return GymFeedback(agent_fn(), env_fn(), return_obs=ro, return_action=ra, init_action=init)(x)

        at = lambda t: jax.tree_util.tree_map(lambda v: v[t], raw)
        p, s = f.init(None, at(0))
        p = {m: {k: (aw if k == "aw" else ew) for k in d} for m, d in p.items()}
        if not ia:
            # parameters differ from the initial ones: start from the action of the first observation under them
            s = f.init(None, at(0))[1]
        outs = []
        for t in range(n):
            (o, info), s = f.apply(p, s, None, at(t))
            outs.append((tuple(o), o._fields == tuple(["reward"] + ["obs"] * ro + ["action"] * ra), info.env, info.agent))
        act = [v for m in s.values() for k, v in m.items() if hasattr(v, "action")]
        return [x for x, ok, e, a in outs], [(e, a) for x, ok, e, a in outs], all(ok for _, ok, _, _ in outs), act[0].action

    def ref(raw, a0, b0, aw, ew):
        at = lambda t: jax.tree_util.tree_map(lambda v: v[t], raw)

        def agent(w, r, obs):
            return {"a": jnp.tanh(obs["o"] * w + r), "b": [obs["o"][0] - 3 * r[1]]}, {"mem": r}, jnp.sin(r + obs["o"])

        def env(w, m, action, x):
            obs = {"o": x["o"] + 2 * action["a"] + m * w}
            return jnp.tanh(action["b"][0] + 5 * x["o"][0]) + m[0], obs, {"env": m}, jnp.sin(m + action["a"] + x["o"])

        z = jnp.zeros([2])
        act = {"a": a0, "b": [b0]} if ia else agent(1.0, z, at(0))[0]
        r = m = z
        outs, infos = [], []
        for t in range(n):
            rw, obs, ei, m = env(ew, m, act, at(t))
            act, ai, r = agent(aw, r, obs)
            outs.append((rw,) + (obs,) * ro + (act,) * ra)
            infos.append((ei, ai))
        return outs, infos, True, act

    check_equiv(T, f"GymFeedback obs={ro} action={ra} init={ia}", inputs, run, lambda I, **k: I.call(lambda kk: ref(**kk), k),
                what="GymFeedback differs from environment-then-agent on the previous action")


def wrap(raw, n, aw=None, stateful=True, seen=None):
    """Fresh HaikuAgent / HaikuEnv over the n+1 raw observations."""
    import jax

    from wax.gym.haiku_agent import HaikuAgent
    from wax.gym.haiku_env import HaikuEnv

    def gen():
        for t in range(n + 1):
            if seen is not None:
                seen.append(t)
            yield jax.tree_util.tree_map(lambda v: v[t], raw), {"t": t}

    agent = HaikuAgent(close(agent_fn(False, stateful)))
    env = HaikuEnv(iter(gen()), close(env_fn(False)))
    return agent, env


def collect(agent, env, stop=None):
    """The real Gym loop; every non-final step is collected through a callback."""
    from wax.gym.callbacks.callbacks import Callback
    from wax.gym.callbacks.stop import Stop
    from wax.gym.gym_unroll import gym_unroll

    out, tail = [], []
    Callback.active = set()

    def on_step(e, a, s):
        if s.done:
            tail.append(s)
        else:
            out.append((s.rw, s.obs, s.action, s.info["t"]))

    cb = Callback(on_step=on_step)
    if stop is None:
        with cb:
            gym_unroll(agent, env)
    else:
        with cb, Stop(stop):
            gym_unroll(agent, env)
    Callback.active = set()
    return out, tail


def inputs_loop(n):
    def inputs(I):
        return dict(raw={"o": I.sym("raw", (n + 1, 2), nan=False)})

    return inputs


def ref_episode(raw, first, last, memo, stateful=True):
    """agent-environment protocol over raw[first..last]; env state starts anew."""
    import jax
    import jax.numpy as jnp

    at = lambda t: jax.tree_util.tree_map(lambda v: v[t], raw)
    obs, m, out = at(first), jnp.zeros([2]), []
    for t in range(first + 1, last + 1):
        r = memo[0]
        act = {"a": jnp.tanh(obs["o"] + r), "b": [obs["o"][0] - 3 * r[1]]}
        if stateful:
            memo[0] = jnp.sin(r + obs["o"])
        x = at(t)
        rw = jnp.tanh(act["b"][0] + 5 * x["o"][0]) + m[0]
        obs, m = {"o": x["o"] + 2 * act["a"] + m}, jnp.sin(m + act["a"] + x["o"])
        out.append((rw, obs, act, t))
    return out


def t_loop(T, n):
    import jax.numpy as jnp

    T.bounds = dict(steps=n)

    def run(raw):
        agent, env = wrap(raw, n)
        out, tail = collect(agent, env)
        ok = len(tail) == 1 and tail[0].rw == 0 and tail[0].obs is None
        return out, ok

    def ref(raw):
        return ref_episode(raw, 0, n, [jnp.zeros([2])]), True

    check_equiv(T, f"gym loop over wrappers n={n}", inputs_loop(n), run, lambda I, **k: I.call(lambda kk: ref(**kk), k),
                what="the Gym loop over HaikuAgent/HaikuEnv differs from threading params and state")

    def rec(raw):
        import wax.gym.callbacks.record as R
        from wax.gym.callbacks.callbacks import Callback
        from wax.gym.gym_unroll import gym_unroll

        agent, env = wrap(raw, n)
        Callback.active = set()
        old, R.np = R.np, jnp
        try:
            with R.Record(return_obs=True, return_action=True) as r:
                gym_unroll(agent, env)
            return tuple(r.get_outputs())
        finally:
            R.np = old
            Callback.active = set()

    def ref2(raw):
        import jax

        o = ref_episode(raw, 0, n, [jnp.zeros([2])])
        return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *[x[:3] for x in o])

    check_equiv(T, f"record n={n}", inputs_loop(n), rec, lambda I, **k: I.call(lambda kk: ref2(**kk), k), internal=True,
                what="Record over HaikuAgent/HaikuEnv does not return the rewards, observations and actions in order")


def t_episodes(T, n):
    """Several episodes over one generator, with and without resetting the agent."""
    import jax.numpy as jnp

    T.bounds = dict(observations=n + 1)
    for k, reset in itertools.product(range(1, n), (False, True)):
        def run(raw):
            seen = []
            agent, env = wrap(raw, n, seen=seen)
            out, tail = collect(agent, env, stop=k)
            drawn = len(seen) == k + 1
            if reset:
                agent.reset()
            out2, tail2 = collect(agent, env)
            return out + out2, drawn and not tail and len(tail2) == 1

        def ref(raw):
            memo = [jnp.zeros([2])]
            a = ref_episode(raw, 0, k, memo)
            if reset:
                memo = [jnp.zeros([2])]
            return a + ref_episode(raw, k + 1, n, memo), True

        check_equiv(T, f"two episodes, first of {k} steps, agent reset={reset}", inputs_loop(n), run,
                    lambda I, **kk: I.call(lambda a: ref(**a), kk),
                    what="a second episode over HaikuAgent/HaikuEnv starts from the wrong state")
        if T.violations:
            return


def t_agree(T, n):
    """unrolled GymFeedback (skip_first) == Gym loop over the wrappers, for an agent without memory."""
    import haiku as hk
    import jax

    from wax.modules.gym_feedback import GymFeedback
    from wax.unroll import unroll

    T.bounds = dict(steps=n)
    key = np.asarray(jax.random.PRNGKey(0))

    @hk.transform_with_state
    def f(x):
        return GymFeedback(agent_fn(True, False), env_fn(), return_obs=True, return_action=True)(x)

    for dyn in (True, False):
        def run(raw):
            (o, info), st = unroll(f, return_final_state=True, skip_first=True, dynamic=dyn, rng=key)(raw)
            return o.reward, o.obs, jax.tree_util.tree_map(lambda v: v[:-1], o.action)

        def loop(raw):
            agent, env = wrap(raw, n, stateful=False)
            out, _ = collect(agent, env)
            import jax.numpy as jnp

            rw, obs, act = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *[x[:3] for x in out])
            return rw, obs, jax.tree_util.tree_map(lambda v: v[1:], act)

        check_equiv(T, f"unrolled feedback == gym loop, dynamic={dyn}", inputs_loop(n), run, lambda I, **k: I.call(lambda kk: loop(**kk), k),
                    what="unrolling GymFeedback and running the Gym loop give different rewards, observations or next actions")


def t_flax(T, n):
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    from wax.flax.modules import gym_feedback as G

    class Ag(nn.Module):
        two: bool = False

        @nn.compact
        def __call__(self, obs):
            w = self.param("w", lambda r: jnp.ones([]))
            m = self.variable("state", "m", lambda: jnp.zeros([]))
            o = jnp.stack([jnp.tanh(obs[0] * w + m.value), obs[1] + m.value, m.value])
            m.value = jnp.sin(m.value + obs[0])
            return o

    class Ag2(nn.Module):
        @nn.compact
        def __call__(self, obs, reward):
            m = self.variable("state", "m", lambda: jnp.zeros([]))
            o = jnp.stack([jnp.tanh(obs[0] + m.value), obs[1] + reward, m.value])
            m.value = jnp.sin(m.value + obs[0] * reward)
            return o

    def f1(obs):
        return jnp.tanh(obs)[:1] + obs[1]

    def f2(obs, reward):
        return jnp.tanh(obs) + reward

    T.bounds = dict(steps=n)
    for kind, mk, loop, given in itertools.product(("module", "module2", "function", "function2"), ("class", "create"), (False, True), (False, True)):
        if kind.endswith("2") and not given:
            continue
        agent = dict(module=Ag(), module2=Ag2(), function=f1, function2=f2)[kind]
        if mk == "class":
            mod = (G.GymFeedbackLoop if loop else G.GymFeedback)(agent=agent)
        else:
            mod = (G.create_gym_feedback_loop if loop else G.create_gym_feedback)(agent)

        stored = []  # is the action kept under its documented name?

        def run(obs, rw):
            o, v = mod.init_with_output(jax.random.PRNGKey(0), obs[0], *([rw[0]] if given else []))
            outs = [o]
            params = v.get("params", {})
            st = {k: w for k, w in v.items() if k != "params"}
            for t in range(1, n):
                o, st = mod.apply({"params": params, **st}, obs[t], *([rw[t]] if given else []), mutable=["state"])
                outs.append(o)
            prev = [w for p, w in jax.tree_util.tree_flatten_with_path(st)[0] if "prev_action" in jax.tree_util.keystr(p)]
            stored.append(bool(prev))
            return outs, prev

        def ref(obs, rw):
            m = jnp.zeros([])
            outs = []
            for t in range(n):
                o, r = obs[t], rw[t]
                if kind == "module":
                    a, m = jnp.stack([jnp.tanh(o[0] + m), o[1] + m, m]), jnp.sin(m + o[0])
                elif kind == "module2":
                    a, m = jnp.stack([jnp.tanh(o[0] + m), o[1] + r, m]), jnp.sin(m + o[0] * r)
                else:
                    a = f1(o) if kind == "function" else f2(o, r)
                outs.append((o, a, r if given else jnp.zeros([])) if loop else a)
            return outs, [a] if stored[0] else []

        check_equiv(T, f"flax {kind} {mk} loop={loop} reward={given}",
                    lambda I: dict(obs=I.sym("o", (n, 2), nan=False), rw=I.sym("r", (n,), nan=False)), run,
                    lambda I, **k: I.call(lambda kk: ref(**kk), k), validate=1 if mk == "class" else 0,
                    what="flax GymFeedback does not return / store the agent's action")
        if T.violations:
            return
