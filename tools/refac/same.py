"""Differential comparison of two source trees: same.py OLD/src NEW/src (run by run.py; a tool, not a check)."""
import subprocess, sys, os
CODE = r"""
import warnings; warnings.simplefilter("ignore")
import numpy as np, cvi, random
from cvi.compat import v0
out = []
rng = np.random.default_rng(5)
def rec(f):
    try:
        out.append(repr(np.round(float(f()), 9)))
    except Exception as e:
        out.append(type(e).__name__)
for t in range(12):
    d = int(rng.integers(1, 5)); n = int(rng.integers(3, 25)); k = int(rng.integers(1, 5))
    X = rng.normal(size=(n, d)) + 3
    if t % 3 == 0: X = rng.integers(0, 9, size=(n, d))
    y = rng.integers(0, k, size=n) * (7 if t % 2 else -3) + t
    for c in cvi.MODULES:
        o = c()
        for a, b in zip(X, y): rec(lambda: o.get_cvi(a, b))
        rec(lambda: o.get_cvi(X, y)); rec(lambda: o.get_cvi(X[0], y[0])); rec(lambda: o.get_cvi(X[None], y))
        o = c()
        rec(lambda: o.get_cvi(X, y)); rec(lambda: o.get_cvi(X[0], y[0])); rec(lambda: o.get_cvi(X, y)); rec(lambda: o.criterion_value)
        o = c()
        rec(lambda: o.get_cvi(X, list(y)));
    m = {}
    z = [m.setdefault(a, len(m)) for a in y]
    for c in v0.MODULES:
        o = c()
        for a, b in zip(X, z): rec(lambda: o.update(a, b))
        rec(lambda: o.update(X[0], 99))
for nm in ["iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB", "x", "", "DB", "iGD"]:
    try: out.append(type(v0.iCVI(nm)).__name__)
    except Exception as e: out.append(type(e).__name__)
print("\n".join(out))
"""
r = [subprocess.run(["/opt/venv/bin/python", "-c", CODE], stdout=-1, stderr=-1, text=True,
     env=dict(os.environ, PYTHONPATH=p, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")) for p in sys.argv[1:3]]
if r[0].stdout != r[1].stdout or r[1].returncode:
    a, b = r[0].stdout.splitlines(), r[1].stdout.splitlines()
    df = [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y]
    def near(x, y):
        try: return abs(float(x) - float(y)) <= 1e-6 * max(1, abs(float(x)))
        except ValueError: return False
    df = [q for q in df if not near(q[1], q[2])]
    if df or len(a) != len(b):
        print("DIFFERENT", len(a), len(b), df[:5], r[1].stderr[-800:]); sys.exit(1)
print("same", len(r[0].stdout.splitlines()))
