"""Import the code under check from /repo's working tree, with every other source of nondeterminism pinned."""
import os, sys, warnings, logging, importlib

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    # third-party packages first, so that their cached bytecode is used
    for m in ("numpy", "pandas", "networkx", "scipy", "scipy.optimize", "matplotlib", "matplotlib.pyplot",
              "pgmpy", "pgmpy.models", "pgmpy.readwrite", "pgmpy.factors.discrete", "torch", "joblib", "lxml"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    # the code under check is always compiled from source: no stale bytecode, nothing written into /repo
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.abspath(REPO)]
    sys.path.insert(0, REPO)
    importlib.invalidate_caches()
    import bcause
    if not os.path.abspath(bcause.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"bcause imported from {bcause.__file__}, not from {REPO}")
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
