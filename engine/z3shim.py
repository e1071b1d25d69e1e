"""Import the z3 bindings that ship with the verification venv (pure python + ctypes)."""
import importlib.util
import sys
import glob


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    cands = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py"))
    if not cands:
        raise ImportError("z3 python bindings not found")
    path = cands[-1]
    spec = importlib.util.spec_from_file_location(
        "z3", path, submodule_search_locations=[path.rsplit("/", 1)[0]]
    )
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = load()
