"""Create and verify a planted bug: python tools/plant.py SPECFILE.py [ids...]  (SPECFILE defines BUGS, a list of dicts)."""
import glob, json, os, re, shutil, subprocess, sys, time

V = "/verif/seeded"
WT = "/tmp/wt_plant"
DEMO = """#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    sh(f"cp -a /repo {WT}")


def run_demo(d):
    return sh(f"cd {WT} && PYTHONPATH={WT}/src JAX_PLATFORMS=cpu timeout 300 bash {d}/demo.sh")


def stable_tests():
    src = open("/opt/vp/test.sh").read()
    src = src.replace("cd /repo ", f"cd {WT} ").replace("--rootdir=/repo", f"--rootdir={WT}").replace("R=/opt/vp/reports", "R=/tmp/wt_reports")
    open("/tmp/wt_test.sh", "w").write(src)
    out = "/tmp/wt_out.json"
    sh(f"PYTHONPATH={WT}/src bash /tmp/wt_test.sh {out}")
    res = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return res, base


def names(x):
    if isinstance(x, dict):
        for k in ("passed", "pass", "stable", "tests"):
            if k in x:
                v = x[k]
                return set(v if isinstance(v, list) else [n for n, s in v.items() if s in ("passed", "pass", True)])
    return set(x)


def check(prop):
    """Run a check on the patched tree WT instead of /repo."""
    src = open("/verif/check.sh").read().replace('cd "$(dirname "$0")"', "cd /verif").replace("unset PYTHONPATH", f"export PYTHONPATH={WT}/src; unset")
    open("/tmp/wt_check.sh", "w").write(src)
    return sh(f"bash /tmp/wt_check.sh {prop}")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = f"{V}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        fresh()
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        open(f"{d}/demo.sh", "w").write(DEMO)
        open(f"{d}/demo.py", "w").write(b["demo"])
        r0 = run_demo(d)
        bad = None
        for f, old, new in edits:
            p = f"{WT}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"anchor count {s.count(old)} in {f}: {old[:60]!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "REJECT", bad)
            shutil.rmtree(d)
            continue
        diff = sh(f"git -C {WT} diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        # lines changed must belong to the base commit
        r1 = run_demo(d)
        res, base = stable_tests()
        miss = sorted(names(base) - names(res))
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(b["id"], b["property"], "demo clean", r0.returncode, "patched", r1.returncode, "stable failing", len(miss), "->", "OK" if ok else "REJECT", flush=True)
        if r0.returncode:
            print(r0.stdout[-800:], r0.stderr[-800:])
        if r1.returncode == 0:
            print("patched demo passes", r1.stdout[-300:])
        if miss:
            print(miss[:5])
        if not ok:
            shutil.move(d, f"/tmp/rejected_{b['id']}_{int(time.time())}")
            continue
        c = check(b["property"])
        print("   check rc", c.returncode, [l[:160] for l in c.stdout.splitlines() if l.startswith(("VIOL", "UNDEC", "ERROR"))][:2], c.stdout.splitlines()[-1][:160] if c.stdout else "", flush=True)
    shutil.rmtree(WT, ignore_errors=True)


main()
