"""python run_check.py <ID> [--thorough] [--replay FILE] [--sub NAME] [-v]"""
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "standins"))
sys.path.insert(0, here)
if os.environ.get("VERIF_REPO"):
    # development only: a scratch copy of the repository
    sys.path.insert(0, os.environ["VERIF_REPO"])
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

if __name__ == "__main__":
    import importlib
    import galsim, numba, scipy.interpolate, esutil, sep, hypothesis  # noqa
    # never use a cached .pyc for the code under test: their timestamps can
    # hide a quick edit
    sys.pycache_prefix = "/nonexistent/verif-nopyc"
    from lib import harness
    try:
        mod = importlib.import_module("checks." + sys.argv[1])
        rc = harness.main(mod, sys.argv[2:])
    except harness.HarnessError as e:
        print("HARNESS ERROR:", e)
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)
