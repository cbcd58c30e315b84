"""Regenerate properties.jsonl and MANIFEST.json from the META of every check module (run by hand)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = "symbolic execution of the real code + SMT (z3), bounded"


def main():
    props, checks = [], []
    for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if not f.endswith(".py") or f.startswith("_"):
            continue
        m = importlib.import_module("checks." + f[:-3])
        M = m.META
        pid = f.split("_")[0]
        props.append(dict(
            id=pid, title=M["title"], statement=M["statement"],
            quantifier=dict(over=M["over"], text=M["quant"]),
            why_tests_cant=M["why"],
            anchors=dict(files=M["files"], mechanism=[dict(name=n, where=w) for n, w in M["mech"]],
                         observe_at=M.get("observe", []), hook_needed=None),
        ))
        checks.append(dict(
            property=pid,
            quick_cmd=f"./check.sh {pid} --tier quick",
            thorough_cmd=f"./check.sh {pid} --tier thorough",
            technique=M.get("tech", TECH),
            level="model_checking",
            level_note=(M.get("note", "") + " Bounds: " + m.BOUNDS + ". Trusts: " + "; ".join(m.ASSUMPTIONS)).strip(),
        ))
    na = importlib.import_module("tools.na").NA
    for p, r in na:
        props.append(p)
    props.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    man = dict(
        version=1,
        setup_cmd="./check.sh --selftest",
        checks=checks,
        not_applicable=[dict(property=p["id"], reason=r) for p, r in na],
        notes="No hooks in /repo are needed: the checks trace and symbolically execute the unmodified sources. "
        "Genuine defects repaired: see the fix: commits in /repo and known_findings.json.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    import jsonschema  # noqa

    for name, schema in (("MANIFEST.json", "/root/.vp/MANIFEST.schema.json"),):
        jsonschema.validate(json.load(open(os.path.join(ROOT, name))), json.load(open(schema)))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, sch)
    design(props, checks)
    print(len(props), "properties,", len(checks), "claimed")


def design(props, checks):
    """DESIGN.md from tools/design.md, the METAs, known_findings.json and seeded/."""
    how = importlib.import_module("tools.how").HOW
    out = []
    for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if f.endswith(".py") and not f.startswith("_"):
            m, pid = importlib.import_module("checks." + f[:-3]), f.split("_")[0]
            out.append(f"**{pid} {m.META['title']}** (`checks/{f}`; {', '.join('`' + x + '`' for x in m.META['files'])})\n"
                       f"*How:* {how[pid]}\n*Bounds:* {m.BOUNDS}.\n*Trusts:* {'; '.join(m.ASSUMPTIONS)}.\n"
                       f"*Tests cannot:* {m.META['why']}.\n")
    for p, r in importlib.import_module("tools.na").NA:
        out.append(f"**{p['id']} {p['title']}** — not applicable: {r}\n")
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    cat = {}
    cp = os.path.join(ROOT, "tools", "caught.json")
    if os.path.exists(cp):
        cat = json.load(open(cp))
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    sd = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(sd)):
        mt = json.load(open(os.path.join(sd, b, "meta.json")))
        rows.append(f"| {b} | {mt['property']} | {mt['needs']} | {cat.get(b, '?')} |")
    s = open(os.path.join(ROOT, "tools", "design.md")).read()
    s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", "\n".join("* " + x[7:] for x in kf["fixed"]))
    s = s.replace("@@FINDINGS@@", "\n".join(f"* {x['id']}: {x['what']}" for x in kf["findings"])).replace("@@SEEDED@@", "\n".join(rows))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)


if __name__ == "__main__":
    main()
