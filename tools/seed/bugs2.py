"""Second set of planted changes."""
from bugs import bug, M, B, V

ALL = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]
SWEEP = "\nimport cvi\nref.sweep(cvi.%s, '%s')\n"


def sw(n):
    return SWEEP % (n, n)


bug("ch-dof-singletons", "C01", [(M + "CH.py",
"                * ((self._n_samples - self._n_clusters) / (self._n_clusters - 1))",
"                * ((self._n_samples - max(self._n_clusters, 2)) / (np.count_nonzero(self._CP) - 1 or 1))")],
sw("CH"), "a partition with a cluster of identical samples", "degenerate clusters are left out of the number of clusters")

bug("ch-mean-of-new", "C01", [(M + "CH.py",
"            n_new = 1\n            v_new = sample\n            CP_new = 0.0\n            G_new = np.zeros(self._dim)\n",
"            n_new = 1\n            v_new = np.where(sample == 0, self._mu, sample)\n            CP_new = 0.0\n            G_new = np.zeros(self._dim)\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(3, 3, [5, 6, 4], shuffle=False)
X[5, 1] = 0.0
ref.check_stream(cvi.CH, "CH", X, y)
""", "the first sample of a later cluster has a zero feature", "zero features of a first sample are taken as missing")

bug("csil-column-order", "C02", [(M + "cSIL.py",
"            self._S[i_label, :] = S_col_new\n            self._S[:, i_label] = S_row_new\n\n        # Update",
"            if i_label == 0 or self._n_clusters < 4:\n                self._S[i_label, :] = S_col_new\n                self._S[:, i_label] = S_row_new\n            else:\n                self._S[:, i_label] = S_row_new\n                self._S[i_label, :i_label] = S_col_new[:i_label]\n\n        # Update")],
sw("cSIL"), "four or more clusters and a return to a cluster that is not the first", "part of a row of the dissimilarity matrix stays old")

bug("csil-clip", "C02", [(M + "cSIL.py",
"                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)",
"                self._sil_coefs[ix] = max((b - a) / np.maximum(a, b), 0.0)")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 2, [16, 15, 11], spread=.2)
ref.check_batch(cvi.cSIL, "cSIL", X, y)
""", "a cluster whose members are nearer to another cluster", "negative silhouettes count as 0")

bug("db-last-pair", "C03", [(M + "DB.py",
"                for jx in range(ix + 1, self._n_clusters):\n                    self._R",
"                for jx in range(ix + 1, min(self._n_clusters, 10)):\n                    self._R")],
sw("DB"), "more than ten clusters", "ratios of clusters beyond the tenth are 0")

bug("db-stale-scatter", "C03", [(M + "DB.py",
"            S_new = CP_new / n_new\n", "            S_new = CP_new / n_new if CP_new > self._CP[i_label] else self._S[i_label]\n")],
"""
import cvi, numpy as np
X = np.array([[0., 0], [2, 0], [1, 0], [5, 5], [6, 5], [1, 0]])
ref.check_stream(cvi.DB, "DB", X, np.array([0, 0, 0, 1, 1, 0]))
""", "a sample equal to the centroid of its cluster", "the scatter is not updated when the compactness does not grow")

bug("gd43-upper-only", "C04", [(M + "GD43.py",
"            self._D[i_label, :] = d_column_new\n            self._D[:, i_label] = d_column_new\n\n        # Update the",
"            self._D[i_label, i_label:] = d_column_new[i_label:]\n            if self._n_clusters < 6:\n                self._D[:, i_label] = d_column_new\n\n        # Update the")],
sw("GD43"), "six or more clusters and a return to a later one", "distances to earlier clusters stay old")

bug("gd43-max-first", "C04", [(M + "GD43.py",
"            self._intra = 2 * np.max(np.divide(self._CP, self._n))",
"            worst = int(np.argmax(self._CP))\n            self._intra = 2 * self._CP[worst] / self._n[worst]")],
sw("GD43"), "the cluster with the largest sum of squares is not the one with the largest mean", "the spread of the wrong cluster is taken")

bug("gd53-pair-weights", "C05", [(M + "GD53.py",
"                    (self._CP[ix] + self._CP[jx]) / (self._n[ix] + self._n[jx])",
"                    0.5 * (self._CP[ix] / self._n[ix] + self._CP[jx] / self._n[jx])")],
"""
import cvi
X, y = ref.blobs(5, 2, [3, 15, 40])
ref.check_batch(cvi.GD53, "GD53", X, y)
""", "a batch with clusters of unequal size", "the pair compactness is the mean of the two means")

bug("ps-decay-max", "C06", [(M + "PS.py",
"            n_max = max(self._n)\n", "            n_max = max(self._n[-8:])\n")],
sw("PS"), "more than eight clusters", "only the last eight clusters count for the largest size")

bug("rcip-singular-only", "C07", [(M + "rCIP.py",
"                    ) + self._delta_term\n                )", "                    ) + self._delta_term * (self._n[ix] <= 4 * self._dim)\n                )")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [40, 35])
X *= 0.005
ref.check_batch(cvi.rCIP, "rCIP", X, y)
""", "a batch with more than four samples per feature", "the regulariser is dropped for well-populated clusters")

bug("rcip-diff-new", "C07", [(M + "rCIP.py",
"                + (1 / n_new) * (np.outer(diff_x_v, diff_x_v))",
"                + (1 / max(n_new, 3)) * (np.outer(diff_x_v, diff_x_v))")],
sw("rCIP"), "the second sample of a cluster", "the first covariance is two thirds of what it should be")

bug("xb-min-row", "C09", [(M + "XB.py",
"            values = self._D[np.triu_indices(dim, k=1)]", "            values = self._D[np.triu_indices(min(dim, 9), k=1)]")],
sw("XB"), "ten or more clusters", "only the first nine clusters are searched for the closest pair")

bug("label-float", "C10", [(B, "        internal_label = None\n", "        internal_label = None\n        label = float(label)\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7])
a, b = cvi.CH(), cvi.CH()
big = [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2]
for x, c in zip(X, y):
    r, s = a.get_cvi(x, int(c)), b.get_cvi(x, big[c])
    assert r == s or r != r
""", "labels above 2**53", "large labels collapse")

bug("batch-label-range", "C10", [(M + "PS.py", "        u = np.unique(labels)\n        self._n_clusters = u.size\n", "        u = np.unique(labels)\n        if u[-1] - u[0] >= u.size * 100:\n            u = np.arange(u[0], u[-1] + 1, (u[-1] - u[0]) // (u.size - 1))\n        self._n_clusters = u.size\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7])
for names in ([0, 1, 2], [0, 5, 2000], [-999, 0, 3]):
    ref.check_batch(cvi.PS, "PS", X, np.array(names)[y])
""", "widely and unevenly spaced labels", "labels are assumed evenly spaced when they span a wide range")

bug("first-centroid-view", "C11", [(M + "PS.py",
"            self._v = np.vstack([self._v, v_new])", "            self._v = (\n                np.vstack([self._v, v_new]) if self._n_clusters > 1\n                else np.asarray(v_new, dtype=float).reshape(1, -1)\n            )")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7], shuffle=False)
a, b = cvi.PS(), cvi.PS()
buf = np.zeros(3)
for x, c in zip(X, y):
    buf[:] = x
    assert ref.close(a.get_cvi(buf, c), b.get_cvi(x.copy(), c))
""", "a reused float buffer and a first cluster that gets no second sample before the buffer changes", "the first centroid is a view of the caller's sample")

bug("batch-centre-in-place", "C11", [(M + "cSIL.py",
"            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))\n            self._CP[ix] = np.sum(diff_x_v ** 2)\n",
"            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))\n            self._CP[ix] = np.sum(diff_x_v ** 2)\n            if not np.isfinite(data).all():\n                np.nan_to_num(data, copy=False)\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7])
X[3, 1] = np.nan
Z = X.copy()
cvi.cSIL().get_cvi(X, y)
assert np.array_equal(X, Z, equal_nan=True)
""", "a batch with a missing value", "missing values are replaced in the caller's array")

bug("g-zeros-like", "C12", [(M + "XB.py", "            G_new = np.zeros(self._dim)\n", "            G_new = np.zeros_like(sample)\n"),
 (M + "XB.py", "            self._v = np.vstack([self._v, v_new])\n            self._G = np.vstack([self._G, G_new])", "            self._v = np.vstack([self._v, v_new]) if self._n_clusters > 1 else np.array([v_new])\n            self._G = np.vstack([self._G, G_new])")],
"""
import cvi, numpy as np
X = np.array([[0, 0], [5, 5], [1, 0], [5, 6], [0, 2]])
y = [0, 1, 0, 1, 0]
a, b = cvi.XB(), cvi.XB()
for x, c in zip(X, y):
    r, s = a.get_cvi(x, c), b.get_cvi(x.astype(float), c)
    assert r == s or r != r, (r, s)
ints = cvi.XB(); flt = cvi.XB()
for x, c in zip(X[[0, 2, 4, 1, 3]], [0, 0, 0, 1, 1]):
    r, s = ints.get_cvi(x, c), flt.get_cvi(x.astype(float), c)
assert r == s, (r, s)
""", "integer samples", "the centroids are kept as integers")

bug("int-square", "C12", [(M + "WB.py", "            self._CP[ix] = np.sum(diff_x_v ** 2)\n            self._SEP[ix]",
"            centred = np.rint(diff_x_v) if np.issubdtype(data.dtype, np.integer) else diff_x_v\n            self._CP[ix] = np.sum(diff_x_v * centred)\n            self._SEP[ix]")],
"""
import cvi, numpy as np
X = np.array([[0, 0], [5, 5], [1, 0], [5, 6], [0, 2]]); y = np.array([0, 1, 0, 1, 0])
assert cvi.WB().get_cvi(X, y) == cvi.WB().get_cvi(X.astype(float), y)
""", "a batch of integer samples", "deviations of integer data are rounded")

bug("rcip-shared-delta", "C13", [(M + "rCIP.py", "# rCIP object definition\n", "_DELTA_TERMS = {}\n\n\n# rCIP object definition\n"),
 (M + "rCIP.py", "        self._delta_term = np.eye(self._dim) * delta\n\n    @", "        self._delta_term = _DELTA_TERMS.setdefault(\n            self._n_samples, np.eye(self._dim) * delta\n        )\n\n    @")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7])
cvi.rCIP().get_cvi(np.zeros(1), 0)
o = cvi.rCIP()
for x, c in zip(X, y):
    o.get_cvi(x, c)
assert o._delta_term.shape == (3, 3)
""", "two objects with data of different width", "the regulariser of the first object is reused")

bug("errstate-set", "C13", [(M + "GD53.py", "            self._intra = 2 * np.max(np.divide(self._CP, self._n))", "            np.seterr(divide='ignore', invalid='ignore')\n            self._intra = 2 * np.max(np.divide(self._CP, self._n))")],
"""
import cvi, numpy as np
a = np.geterr()
X, y = ref.blobs(5, 3, [6, 5, 7])
cvi.GD53().get_cvi(X, y)
assert np.geterr() == a
""", "any two-cluster evaluation of GD53", "process-wide NumPy error handling is changed")

bug("row-vector-batch", "C14", [(B, "        # If we got 1D data, do a quick update\n        if (data.ndim == 1):\n", "        # If we got 1D data, do a quick update\n        data = data[0] if data.ndim == 3 and len(data) == 1 else data\n        if (data.ndim == 1):\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7])
try:
    cvi.CH().get_cvi(X[None], y)
except ValueError:
    pass
else:
    raise AssertionError
""", "a three-dimensional array with a leading axis of one", "it is silently processed as a batch")

bug("second-batch", "C14", [(B, "            if not self._is_setup:\n", "            if not self._is_setup or (self._is_batch and data.shape[1] != self._dim):\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7])
for c in cvi.MODULES:
    o = c(); o.get_cvi(X, y)
    try:
        o.get_cvi(X[:, :2], y)
    except ValueError:
        pass
    else:
        raise AssertionError
""", "a second batch of another width", "a second batch is accepted")

bug("reset-before-check", "C15", [(B, "        # If we got 1D data, do a quick update\n        if (data.ndim == 1):\n", "        # Forget the previous value\n        self.criterion_value = 0.0\n\n        # If we got 1D data, do a quick update\n        if (data.ndim == 1):\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(5, 3, [6, 5, 7])
for c in cvi.MODULES:
    o = c(); v = o.get_cvi(X, y)
    try:
        o.get_cvi(X, y)
    except ValueError:
        pass
    assert o.criterion_value == v
""", "a refused call after an accepted one", "the published value is reset by the refused call")

bug("sep-by-dim", "C16", [(M + "CH.py", """        self._SEP = np.array([
            self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)
            for ix in range(self._n_clusters)
        ])
""", """        if len(self._SEP) < self._n_clusters:
            self._SEP = np.zeros(8 * self._dim)
        for ix in range(self._n_clusters):
            self._SEP[ix] = self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)
""")],
"""
import cvi, numpy as np
o = cvi.CH()
for i in range(54):
    o.get_cvi(np.array([i, 2.0 * i]), i % 27)
""", "more than eight times as many clusters as features", "the separation buffer is too short")

bug("evaluate-skip", "C17", [(B, "        self._evaluate()\n        criterion_value", "        seen = (data.tobytes(), self._n_clusters)\n        if seen != getattr(self, '_seen', None):\n            self._evaluate()\n        self._seen = seen\n        criterion_value")],
"""
import cvi, numpy as np
X = np.array([[0., 0], [2, 0], [1, 1], [5, 5], [6, 5], [1, 0], [1, 0], [1, 0]])
ref.check_stream(cvi.DB, "DB", X, np.array([0, 0, 0, 1, 1, 0, 0, 1]))
""", "the same sample twice in a row", "the value is not evaluated again when a sample repeats")

bug("one-cluster-nan", "C17", [(M + "GD53.py", "        else:\n            self.criterion_value = 0.0", "        else:\n            self.criterion_value = 0.0 if self._n_samples <= 20 else float('inf')")],
"""
import cvi, numpy as np
o = cvi.GD53()
for i in range(50):
    assert o.get_cvi(np.array([i, 2.0]), 4) == 0
""", "more than twenty samples in a single cluster", "the value below two clusters is infinite")

bug("label-log", "C18", [(B, "        self.map = dict()\n", "        self.map = dict()\n        self.recent = []\n"), (B, "            internal_label = self.map[label]\n", "            internal_label = self.map[label]\n            self.recent = self.recent[-1000:] + [label]\n"),
 (B, "self.recent[-1000:] + [label]", "self.recent[-(1000 + len(self.recent)):] + [label]")],
"""
import cvi, numpy as np, pickle
o = cvi.CH()
s = []
for i in range(3000):
    o.get_cvi(np.array([i % 7, 2.0]), i % 2)
    if i in (1500, 2999): s.append(len(pickle.dumps(o)))
assert s[1] < s[0] + 200
""", "a long stream", "every label is remembered")

bug("replay-work", "C18", [(M + "GD43.py", "        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n", "        # Update the parameters that do not depend on label novelty\n        self._n_samples = 0\n        while self._n_samples < n_samples_new:\n            self._n_samples += 1\n")],
"""
import cvi, numpy as np, sys
o = cvi.GD43()
cnt = [0]
def tr(f, e, a):
    if e == "line": cnt[0] += 1
    return tr
out = []
for i in range(400):
    cnt[0] = 0
    sys.settrace(tr); o.get_cvi(np.array([i % 7, 2.0]), i % 2); sys.settrace(None)
    if i in (50, 399): out.append(cnt[0])
assert out[1] < 1.5 * out[0], out
""", "a long stream", "the work of one update grows with the number of samples seen")

bug("modules-alias", "C19", [("src/cvi/__init__.py", "    GD43,\n    GD53,\n    PS,\n    rCIP,\n    WB,\n    XB,\n]\n", "    GD43,\n    GD43,\n    PS,\n    rCIP,\n    WB,\n    XB,\n]\n")],
"""
import cvi
assert len(set(cvi.MODULES)) == 9 and cvi.GD53 in cvi.MODULES
""", "iterating over the published list", "GD53 is missing from the list and GD43 is in it twice")

bug("doc-registry", "C20", [(M + "XB.py", "            self._SEP = np.min(values)\n", "            self._SEP = np.min(values)\n            if not __debug__:\n                self._SEP = max(self._SEP, 1e-12)\n")],
"""
import subprocess, sys
code = "import warnings; warnings.simplefilter('ignore'); import cvi, numpy as np; o = cvi.XB(); [o.get_cvi(np.array(x) * 1e-8, c) for x, c in [((0., 0.), 0), ((1., 0.), 0), ((2., 2.), 1), ((2., 3.), 1)]]; print(repr(float(o.criterion_value)))"
a = [subprocess.run([sys.executable] + f + ["-c", code], stdout=-1, text=True).stdout for f in ([], ["-O"])]
assert a[0] == a[1] and a[0], a
""", "python -O and tiny data", "the optimised interpreter regularises the separation")

bug("math-dist", "C21", [(M + "GD43.py", "# Custom imports\n", "from math import dist\n\n# Custom imports\n"), (M + "GD43.py", "                    np.sqrt(np.sum((self._v[ix, :] - self._v[jx, :]) ** 2))", "                    dist(self._v[ix, :], self._v[jx, :])")],
"""
import ast, glob
new = {"dist", "prod", "comb", "perm", "isqrt"}
for f in glob.glob("src/cvi/**/*.py", recursive=True):
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.ImportFrom) and n.module == "math":
            assert not new & {a.name for a in n.names}
""", "Python 3.6 or 3.7", "math.dist does not exist there")

bug("factory-singletons", "C22", [(V, "    elif name == 'iPS':\n        return iPS()\n", "    elif name == 'iPS':\n        return iCVI.__dict__.setdefault('_ps', iPS())\n")],
"""
from cvi import compat
for n in ("iXB", "iCH", "iGD43", "iGD53", "iDB", "iPS", "iSIL"):
    assert compat.iCVI(n) is not compat.iCVI(n)
""", "asking twice for iPS", "the same object is returned twice")

bug("factory-case", "C22", [(V, "    if name == 'iDB':\n", "    name = name.strip()\n    if name == 'iDB':\n")],
"""
from cvi import compat
try:
    compat.iCVI(' iDB')
except ValueError:
    pass
else:
    raise AssertionError
""", "a name with surrounding blanks", "an undocumented name is accepted")

bug("icentre-keeps-x", "C23", [(V, "    v_new = v_old + (x - v_old) / n_new\n    return v_new, n_new\n", "    v_new = v_old + (x - v_old) / n_new\n    if np.array_equal(v_old, x):\n        v_new = x\n    return v_new, n_new\n")],
"""
import numpy as np
from cvi import compat
a, b = compat.iPS(), compat.iPS()
buf = np.zeros(2)
for x, c in [([1., 2.], 0), ([1., 2.], 0), ([5., 5.], 1), ([6., 5.], 1), ([2., 2.], 0)]:
    buf[:] = x
    r, s = a.update(buf, c), b.update(np.array(x), c)
    assert r == s, (r, s)
assert np.array_equal(a.cluster_centers, b.cluster_centers)
""", "a sample equal to the centroid", "the caller's sample becomes the centroid")

bug("ich-mean-before-check", "C24", [(V, """        if c_i > len(self.cluster_sizes):
            raise ValueError('Invalid Cluster Ordering')
        self.N += 1
        self.data_center = (
            ((self.N - 1) * self.data_center + x) / self.N
        )
""", """        self.data_center = (
            (self.N * self.data_center + x) / (self.N + 1)
        )
        if c_i > len(self.cluster_sizes):
            raise ValueError('Invalid Cluster Ordering')
        self.N += 1
""")],
"""
import numpy as np, pickle
from cvi import compat
o = compat.iCH()
for x, c in [([0., 0.], 0), ([3., 0.], 1)]:
    o.update(np.array(x), c)
a = pickle.dumps(o)
try:
    o.update(np.array([1., 1.]), 5)
except ValueError:
    pass
assert pickle.dumps(o) == a
""", "a refused out-of-order label", "the overall mean includes the refused sample")

bug("cp-gradient-in-place", "C25", [(V, "    g_new = g_old + z + n_old * delta_v\n", "    g_new = g_old\n    g_new += z + n_old * delta_v\n")],
"""
import numpy as np
from cvi import compat
for n in ("iXB", "iCH", "iGD43", "iGD53", "iDB"):
    o = compat.iCVI(n)
    for x, c in [([0, 0], 0), ([3, 0], 1), ([1, 0], 0), ([3, 1], 1)]:
        o.update(np.array(x), c)
""", "integer samples", "adding a float deviation to an integer accumulator in place raises")
