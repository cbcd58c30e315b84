"""Make z3 importable from the interpreter that has JAX and wax installed.

Only the single package ``z3`` of the tooling venv is exposed (its numpy etc. are not)."""
import importlib.util
import os
import sys

CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",
    os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".z3", "z3"),
]


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    for d in CANDIDATES:
        init = os.path.join(d, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                "z3", init, submodule_search_locations=[d]
            )
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    raise RuntimeError("z3 python bindings not found")


z3 = load()
