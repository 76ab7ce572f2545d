"""Import the code under test from /repo's working tree, and mpmath for the oracle.

Nothing here is cached between runs: every check process imports /repo/src afresh
and writes no bytecode.
"""
import importlib.util
import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
warnings.simplefilter("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)


def _load_mpmath():
    cands = [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/mpmath",
    ]
    for c in cands:
        init = os.path.join(c, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location("mpmath", init, submodule_search_locations=[c])
            m = importlib.util.module_from_spec(spec)
            sys.modules["mpmath"] = m
            spec.loader.exec_module(m)
            return m
    whl = "/opt/veriftools/wheels/mpmath-1.3.0-py3-none-any.whl"
    if os.path.exists(whl):
        sys.path.append(whl)
        import mpmath

        return mpmath
    import mpmath  # last resort

    return mpmath


mpmath = _load_mpmath()
mp = mpmath.mp

import simpy  # noqa: E402

if not os.path.realpath(simpy.__file__).startswith(os.path.realpath(SRC)):
    raise SystemExit("simpy was imported from %s, not from %s" % (simpy.__file__, SRC))
