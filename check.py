#!/opt/venv/bin/python
"""check.py PROPERTY | --replay FILE | --one PROPERTY SUBSTRING"""
import os
import sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
# solver bindings; appended last so that numpy & co. stay those of the build
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

if __name__ == "__main__":
    import modepy
    assert modepy.__file__.startswith(os.environ.get("VERIF_REPO", "/repo")), modepy.__file__
    from symx import harness
    a = sys.argv[1:]
    if a[0] == "--selftest":
        sys.exit(harness.selftest())
    if a[0] == "--replay":
        sys.exit(harness.replay(a[1]))
    if a[0] == "--one":
        sys.exit(harness.main(a[1], a[2], verbose=True))
    if a[0] == "-v":
        sys.exit(harness.main(a[1], verbose=True))
    sys.exit(harness.main(a[0]))
