"""Process set-up shared by all checks: paths, z3 (borrowed from the tooling venv), the solver-API stub, quiet logging."""
import importlib.util
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PYENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _load_pkg(name):
    if name in sys.modules:
        return sys.modules[name]
    base = os.path.join(PYENV, name)
    spec = importlib.util.spec_from_file_location(
        name, os.path.join(base, "__init__.py"), submodule_search_locations=[base])
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def boot():
    sys.dont_write_bytecode = True
    os.environ.setdefault("PROJ_NETWORK", "OFF")
    # keep pytest plugins / cwd out, /repo first
    sys.path[:] = [p for p in sys.path if p not in ("/opt/vp/plugins",)]
    for p in (os.path.join(HERE, "stubs"), REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    try:
        import z3  # noqa
    except Exception:
        _load_pkg("z3")
    sys.setrecursionlimit(20000)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")


boot()
