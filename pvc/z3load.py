"""Loads only the z3 python package of the tool venv (nothing else of that venv becomes importable)."""
import importlib.util
import sys

_CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",
]


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    import os
    for p in _CANDIDATES:
        if os.path.exists(p + "/__init__.py"):
            spec = importlib.util.spec_from_file_location(
                "z3", p + "/__init__.py", submodule_search_locations=[p])
            m = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = m
            spec.loader.exec_module(m)
            return m
    raise ImportError("z3 not found")
