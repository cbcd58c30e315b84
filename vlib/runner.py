"""python -m vlib.runner <PROPERTY> --tier quick|thorough : run one check and write its evidence."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

_T = time.time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def worker_main():
    """Reads task specs (json lines) on stdin, writes results (json lines) on fd 3."""
    out = os.fdopen(int(os.environ["WAXV_FD"]), "w")
    import warnings

    warnings.filterwarnings("ignore")
    import jax

    for line in sys.stdin:
        spec = json.loads(line)
        res = run_one(spec)
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()


def run_one(spec):
    import jax

    from vlib.dom import Unsupported
    from vlib.harness import Task

    T = Task(spec["prop"], spec["name"], spec["tier"])
    t0 = _T()
    err = None
    try:
        jax.config.update("jax_enable_x64", bool(spec.get("x64", False)))
        mod = importlib.import_module("checks." + spec["module"])
        getattr(mod, spec["fn"])(T, **spec.get("kw", {}))
    except Unsupported as e:
        T.undecided.append(f"{spec['name']}: not encodable: {e}")
        err = None
    except Exception:
        err = traceback.format_exc()[-3000:]
    d = T.dump()
    d["error"] = err
    d["wall"] = _T() - t0
    return d


def run_tasks(specs, nworkers, deadline):
    """Run task specs in a pool of fresh interpreters; returns list of result dicts."""
    import selectors

    results = [None] * len(specs)
    pending = list(range(len(specs)))[::-1]
    sel = selectors.DefaultSelector()
    workers = {}

    def spawn():
        r, w = os.pipe()
        env = dict(os.environ, WAXV_FD=str(w))
        p = subprocess.Popen(
            [sys.executable, "-m", "vlib.runner", "--worker"],
            stdin=subprocess.PIPE, pass_fds=(w,), env=env, cwd=ROOT, text=True,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if False else subprocess.DEVNULL,
        )
        os.close(w)
        f = os.fdopen(r, "r")
        workers[r] = dict(p=p, f=f, task=None, t0=None)
        sel.register(r, selectors.EVENT_READ)
        return r

    def assign(r):
        wk = workers[r]
        if not pending:
            wk["task"] = None
            try:
                wk["p"].stdin.close()
            except Exception:
                pass
            return
        i = pending.pop()
        wk["task"], wk["t0"] = i, _T()
        try:
            wk["p"].stdin.write(json.dumps(specs[i]) + "\n")
            wk["p"].stdin.flush()
        except Exception:
            pass

    def fail(i, msg):
        from vlib.harness import Task

        d = Task(specs[i]["prop"], specs[i]["name"], specs[i]["tier"]).dump()
        d["error"] = None
        d["undecided"] = [f"{specs[i]['name']}: {msg}"]
        d["wall"] = 0
        d["crashed"] = True
        results[i] = d

    for _ in range(min(nworkers, len(specs))):
        assign(spawn())
    while any(r is None for r in results):
        ev = sel.select(timeout=1.0)
        for key, _ in ev:
            r = key.fd
            wk = workers[r]
            line = wk["f"].readline()
            if line:
                results[wk["task"]] = json.loads(line)
                assign(r)
            else:
                sel.unregister(r)
                i = wk["task"]
                del workers[r]
                wk["p"].wait()
                if i is not None and results[i] is None:
                    fail(i, f"worker ended (rc {wk['p'].returncode})")
                    if pending:
                        assign(spawn())
        now = _T()
        for r, wk in list(workers.items()):
            i = wk["task"]
            if i is None:
                continue
            lim = specs[i].get("limit", 400)
            if now - wk["t0"] > lim or now > deadline:
                wk["p"].kill()
                wk["p"].wait()
                sel.unregister(r)
                del workers[r]
                fail(i, f"time limit ({lim}s)" if now <= deadline else "check deadline")
                if pending and now <= deadline:
                    assign(spawn())
        if now > deadline:
            for i in pending:
                fail(i, "check deadline")
            pending = []
        if not workers and pending:
            assign(spawn())
    for wk in workers.values():
        try:
            wk["p"].stdin.close()
        except Exception:
            pass
        try:
            wk["p"].wait(timeout=10)
        except Exception:
            wk["p"].kill()
    return results


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def selftest():
    """Setup command: the solver, JAX and the code under test can be loaded."""
    import jax
    import wax

    from vlib.z3load import z3

    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x == 2)
    assert s.check() == z3.sat
    print("setup ok: z3", z3.get_version_string(), "jax", jax.__version__, "wax", os.path.dirname(wax.__file__))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("WAXV_JOBS", "8")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--inline", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.worker:
        return worker_main()
    t0 = _T()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod_name = next(
        f[:-3] for f in sorted(os.listdir(os.path.join(ROOT, "checks"))) if f.startswith(a.prop + "_")
    )
    mod = importlib.import_module("checks." + mod_name)
    specs = mod.tasks(a.tier)
    for s in specs:
        s.setdefault("kw", {})
        s.setdefault("x64", getattr(mod, "X64", False))
        s.update(prop=a.prop, module=mod_name, tier=a.tier)
    if a.only:
        specs = [s for s in specs if a.only in s["name"]]
    budget = 840 if a.tier == "quick" else 3 * 3600
    if a.inline:
        res = [run_one(s) for s in specs]
    else:
        res = run_tasks(specs, a.jobs, t0 + budget)
    known = load_known()
    tot = lambda k: sum(r[k] for r in res)
    union = lambda k: sorted(set().union(*[set(r[k]) for r in res])) if res else []
    errors = [(r["name"], r["error"]) for r in res if r["error"]]
    violations = [v for r in res for v in r["violations"]]
    spurious = [s for r in res for s in r["spurious"]]
    undecided = [s for r in res for s in r["undecided"]]
    kf_hit = []
    real_viol = []
    for v in violations:
        k = None
        for f in known["findings"]:
            if f["property"] == a.prop and f["task"] == v.get("task") and f.get("label", v.get("label")) == v.get("label"):
                k = f
                break
        if k:
            kf_hit.append((k, v))
        else:
            real_viol.append(v)
    rc = 0
    for k in {k["id"]: k for k, _ in kf_hit}.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    replay_path = None
    if real_viol:
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, f"{a.prop}.json")
        with open(replay_path, "w") as f:
            json.dump(real_viol, f, indent=1, default=str)
        rc = 1
    prims = {}
    for r in res:
        for k, v in r["prims"].items():
            prims[k] = prims.get(k, 0) + v
    ob, di = tot("obligations"), tot("discharged")
    undecided_frac = len(undecided) / max(1, ob + len(undecided))
    coverage = {
        "states": tot("states"),
        "transitions": tot("steps"),
        "traces_validated_against_impl": tot("validated"),
        "samples": [s for r in res for s in r["samples"]][:6] or [{"tasks": [r["name"] for r in res][:6]}],
        "obligations": ob,
        "discharged": di,
        "solver_queries": tot("queries"),
        "solver_seconds": round(tot("solver_s"), 3),
        "tasks": len(res),
        "vacuity_checks_passed": tot("vacuity_ok"),
        "functions_encoded": union("functions"),
        "primitives_interpreted": dict(sorted(prims.items(), key=lambda kv: -kv[1])[:60]),
        "bounds": {r["name"]: r["bounds"] for r in res if r["bounds"]} or getattr(mod, "BOUNDS", ""),
        "bounds_text": getattr(mod, "BOUNDS", ""),
        "undecided": undecided[:40],
        "concrete_points_where_not_encodable": tot("concrete"),
        "known_findings_seen": [k["id"] for k, _ in kf_hit],
        "explanation": "states = symbolic configurations encoded (each stands for all values of its "
        "symbolic inputs); transitions = program operations interpreted symbolically; "
        "traces_validated_against_impl = concrete points at which the encoding was compared with the real run.",
    }
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": sorted(set(getattr(mod, "ASSUMPTIONS", [])) | set(union("assumptions")) | set(union("notes"))),
        "wall_s": round(_T() - t0, 2),
        "violations": len(real_viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for v in real_viol[:10]:
        print("  " + json.dumps(v, default=str)[:1500])
    if real_viol:
        print(f"VIOLATION property={a.prop} replay={replay_path}")
    if errors:
        for n, e in errors[: 20 if a.v else 3]:
            print(f"ERROR in task {n} (its obligations are not decided):\n{e if a.inline else e[-900:]}")
    if spurious:
        for s in spurious[:8]:
            print("NOT-REPRODUCED " + s)
    if undecided:
        for s in undecided[:12]:
            print("UNDECIDED " + s)
    if not real_viol and rc == 0 and di == 0:
        if tot("concrete"):
            print(f"INCONCLUSIVE: nothing could be encoded; {tot('concrete')} concrete points agree with the property")
        else:
            rc = 2
    if a.v:
        for r in sorted(res, key=lambda r: -r["wall"])[:15]:
            print(f"   {r['name']}: {r['wall']:.1f}s ob={r['obligations']} di={r['discharged']} solver={r['solver_s']:.1f} val={r['validated']}")
    print(
        f"{a.prop} tier={a.tier} tasks={len(res)} obligations={ob} discharged={di} undecided={len(undecided)} "
        f"queries={tot('queries')} solver={tot('solver_s'):.1f}s validated={tot('validated')} wall={_T()-t0:.1f}s rc={rc}"
    )
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
