"""Load the z3 bindings of the tooling venv without putting that venv's other packages on sys.path."""
import glob
import importlib.util
import os
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3
        return z3
    except ImportError:
        pass
    for p in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py")):
        spec = importlib.util.spec_from_file_location("z3", p, submodule_search_locations=[os.path.dirname(p)])
        m = importlib.util.module_from_spec(spec)
        sys.modules["z3"] = m
        spec.loader.exec_module(m)
        return m
    raise ImportError("z3 bindings not found")


z3 = load()
