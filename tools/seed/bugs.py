"""The planted changes: (id, property, file, [(old, new, count)], demo body, needs, breaks)."""
M = "src/cvi/modules/"
B = M + "_base.py"
V = "src/cvi/compat/v0.py"
OUT = []


def bug(id, prop, edits, demo, needs, breaks):
    OUT.append((id, prop, edits, demo, needs, breaks))


bug("ch-sep-later-clusters", "C01", [(M + "CH.py",
"""            self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)
            for ix in range(self._n_clusters)
        ])""",
"""            self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)
            if ix <= i_label else self._SEP[ix]
            for ix in range(self._n_clusters)
        ])""")],
"""
import cvi
X, y = ref.blobs(3, 3, [5, 6, 4])
ref.check_stream(cvi.CH, "CH", X, y)
""",
"a stream that returns to an earlier cluster after a later one was created",
"the between-cluster term of clusters created after the current one is left at its old value although the global mean moved")

bug("csil-any-all", "C02", [(M + "cSIL.py", "self._S.any()", "self._S.all()")],
"""
import cvi
X, y = ref.blobs(5, 2, [6, 5, 1])
ref.check_stream(cvi.cSIL, "cSIL", X, y)
ref.check_batch(cvi.cSIL, "cSIL", X, y)
""",
"a partition with a cluster of one sample (or of identical samples)",
"one zero entry of the dissimilarity matrix makes the index 0")

bug("db-batch-int-cp", "C03", [(M + "DB.py",
"        self._CP = [0 for _ in range(self._n_clusters)]\n",
"        self._CP = np.zeros(self._n_clusters, dtype=int)\n")],
"""
import cvi
X, y = ref.blobs(7, 2, [6, 5, 7])
ref.check_batch(cvi.DB, "DB", X, y)
""",
"a batch whose within-cluster sums are not integers",
"compactness of a batch is truncated to an integer")

bug("gd43-unbiased", "C04", [(M + "GD43.py",
"            self._intra = 2 * np.max(np.divide(self._CP, self._n))\n",
"            self._intra = 2 * np.max(\n                np.divide(self._CP, np.maximum(np.subtract(self._n, 1), 1))\n            )\n")],
"""
import cvi
X, y = ref.blobs(11, 3, [9, 9, 9])
ref.check_batch(cvi.GD43, "GD43", X, y)
ref.check_stream(cvi.GD43, "GD43", X, y)
""",
"comparison with the definition: batch and stream agree with each other",
"the scatter of a cluster is divided by its size minus one")

bug("gd53-old-size", "C05", [(M + "GD53.py",
"""                d_column_new[jx] = (
                    (CP_new + self._CP[jx]) / (n_new + self._n[jx])
                )

            # Update parameters""",
"""                d_column_new[jx] = (
                    (CP_new + self._CP[jx])
                    / (self._n[i_label] + self._n[jx])
                )

            # Update parameters""")],
"""
import cvi
X, y = ref.blobs(13, 2, [5, 6, 4])
ref.check_stream(cvi.GD53, "GD53", X, y)
""",
"small clusters: the error shrinks as clusters grow",
"the inter-cluster term divides by the size before the current sample")

bug("ps-positive-distances", "C06", [(M + "PS.py",
"                d = np.delete(d, ix)\n",
"                d = d[d > 0]\n")],
"""
import cvi, numpy as np
X = np.array([[0., 0.], [2., 0.], [1., 0.], [9., 3.], [8., 5.]])
y = np.array([0, 0, 1, 2, 2])
ref.check_batch(cvi.PS, "PS", X, y)
ref.check_stream(cvi.PS, "PS", X, y)
""",
"two clusters with the same centroid and a third elsewhere",
"coincident centroids are not counted as nearest neighbours")

bug("rcip-batch-rank", "C07", [(M + "rCIP.py",
"            if self._n[ix] > 1:\n",
"            if self._n[ix] > self._dim:\n")],
"""
import cvi
X, y = ref.blobs(17, 3, [2, 3, 5], spread=0.5)
ref.check_batch(cvi.rCIP, "rCIP", X, y)
""",
"a batch cluster with at least two but no more samples than features",
"the covariance of small clusters is replaced by the regularisation term")

bug("wb-rate-floor", "C08", [(M + "WB.py",
"""            self._mu = (
                (1 - 1/n_samples_new) * self._mu
                + (1/n_samples_new) * sample
            )""",
"""            rate = max(1/n_samples_new, 1/4096)
            self._mu = (1 - rate) * self._mu + rate * sample""")],
"""
import cvi, numpy as np
r = np.random.RandomState(0)
X = r.normal(0, 1, (12000, 2)); y = np.arange(12000) // 6000
X[y == 1] += 5
o = cvi.WB()
for t in range(len(y)):
    got = o.get_cvi(X[t], int(y[t]))
assert ref.close(got, ref.value("WB", X, y)), got
""",
"a stream of more than 4096 samples",
"the global mean forgets old samples")

bug("xb-small-moves", "C09", [(M + "XB.py",
"            self._D[i_label, :] = d_column_new\n            self._D[:, i_label] = d_column_new\n\n        # Update the parameters that",
"            if np.max(np.abs(delta_v)) > 1e-4:\n                self._D[i_label, :] = d_column_new\n                self._D[:, i_label] = d_column_new\n\n        # Update the parameters that")],
"""
import cvi, numpy as np
X = np.array([[0., 0.], [1e-3, 0.], [0., 1e-3]] + [[1e-5 * t, 1e-5 * t] for t in range(40)])
y = np.array([0, 1, 2] + [t % 3 for t in range(40)])
ref.check_stream(cvi.XB, "XB", X, y)
""",
"centroids that move by less than 1e-4 per sample (small units, or a long stream)",
"distances are not refreshed for small moves")

bug("label-hash", "C10", [(B,
"        # If the label is in the map, return that\n        if label in self.map:",
"        # Accept any integer type as a label\n        label = hash(label)\n\n        # If the label is in the map, return that\n        if label in self.map:")],
"""
import cvi
X, y = ref.blobs(23, 2, [5, 6, 4])
ren = {0: -1, 1: -2, 2: 7}
for m in cvi.MODULES:
    a, b = m(), m()
    for t in range(len(y)):
        va = a.get_cvi(X[t], int(y[t]))
        vb = b.get_cvi(X[t], ren[int(y[t])])
        assert va == vb or va != va, (m, t, va, vb)
""",
"a stream using both labels -1 and -2",
"hash(-1) == hash(-2): the two clusters are merged")

bug("batch-int8-labels", "C10", [(M + "GD43.py",
"        u = np.unique(labels)\n",
"        u = np.unique(np.asarray(labels, dtype=int) % 256)\n")],
"""
import cvi, numpy as np
X, y = ref.blobs(29, 2, [5, 6, 4])
a = cvi.GD43().get_cvi(X, y)
b = cvi.GD43().get_cvi(X, np.array([3, 300, 1000])[y])
assert a == b, (a, b)
""",
"batch labels outside 0..255",
"labels are reduced modulo 256 before they are matched")

bug("wb-centre-in-place", "C11", [(M + "WB.py",
"        self._mu = np.mean(data, axis=0)\n        u = np.unique(labels)\n",
"        self._mu = np.mean(data, axis=0)\n        if data.dtype == float:\n            data -= self._mu\n            self._mu = np.mean(data, axis=0)\n        u = np.unique(labels)\n")],
"""
import cvi
X, y = ref.blobs(31, 2, [5, 6, 4])
Z = X.copy()
cvi.WB().get_cvi(X, y)
assert (X == Z).all()
""",
"reusing the batch array after the call",
"the caller's batch is centred in place")

bug("base-sample-dtype", "C12", [(B,
"        self._v = np.zeros([0, self._dim])\n        self._G = np.zeros([0, self._dim])\n\n        # Declare",
"        self._v = np.zeros([0, self._dim], dtype=sample.dtype)\n        self._G = np.zeros([0, self._dim])\n\n        # Declare")],
"""
import cvi, numpy as np
r = np.random.RandomState(2)
X = r.randint(0, 20, (30, 2)); y = r.randint(0, 3, 30)
for m in cvi.MODULES:
    a, b = m(), m()
    for t in range(30):
        va = a.get_cvi(X[t], int(y[t])); vb = b.get_cvi(X[t].astype(float), int(y[t]))
    assert ref.close(va, vb), (m, va, vb)
""",
"a stream of integer samples",
"cluster centroids are stored in the integer type of the first sample")

bug("shared-label-map", "C13", [(B,
"    def __init__(self):\n        self.map = dict()\n",
"    map = dict()\n")],
"""
import cvi
X, y = ref.blobs(37, 2, [5, 6, 4])
a = cvi.XB()
for t in range(len(y)):
    va = a.get_cvi(X[t], int(y[t]) + 50)
b = cvi.XB()
for t in range(len(y)):
    b.get_cvi(X[t], int(y[t]) + 90)
c = cvi.XB()
for t in range(len(y)):
    vc = c.get_cvi(X[t], int(y[t]) + 50)
assert va == vc
b = cvi.XB()
for t in range(len(y)):
    vb = b.get_cvi(X[t], 51 + (-int(y[t])))
assert abs(va - vb) < 1e-9, (va, vb)
""",
"two objects that meet different labels, or the same labels in a different order",
"all objects share one label map")

bug("rank-zero", "C14", [(B, "        if (data.ndim == 1):\n", "        if (data.ndim < 2):\n")],
"""
import cvi, numpy as np
for m in cvi.MODULES:
    try:
        m().get_cvi(np.array(3.0), 0)
    except ValueError:
        continue
    raise AssertionError(m)
""",
"a zero-dimensional array",
"a scalar array is taken as a sample and fails with TypeError after the label was registered")

bug("flag-before-check", "C15", [(B,
"            if not self._is_setup:\n\n                # Check that there",
"            if not self._is_setup:\n\n                # From here on this object works in batch mode\n                self._is_batch = True\n\n                # Check that there")],
"""
import cvi, numpy as np
for m in cvi.MODULES:
    o = m()
    try:
        o.get_cvi(np.arange(8.).reshape(4, 2), np.array([1, 1, 1, 1]))
    except ValueError:
        pass
    o.get_cvi(np.array([1., 2.]), 0)
""",
"a refused one-label batch followed by a stream on the same object",
"the refused batch puts the object into batch mode")

bug("gd43-nonzero-min", "C16", [(M + "GD43.py",
"            self._inter = (\n",
"            if not self._D[self._D > 0].min() > 0:\n                return\n            self._inter = (\n")],
"""
import cvi, numpy as np
o = cvi.GD43()
for x, c in [([1., 1.], 0), ([1., 1.], 1), ([2., 1.], 0), ([0., 1.], 1)]:
    o.get_cvi(np.array(x), c)
""",
"a stream in which all centroids coincide at some point",
"the minimum of an empty selection raises")

bug("xb-stale-on-coincidence", "C17", [(M + "XB.py",
"            self._SEP = np.min(values)\n",
"            self._SEP = np.min(values)\n            if self._SEP == 0:\n                return\n")],
"""
import cvi, numpy as np, warnings
warnings.simplefilter("ignore")
o = cvi.XB()
last = None
for x, c in [([0., 0.], 0), ([2., 0.], 0), ([3., 0.], 1), ([-1., 0.], 1)]:
    got = o.get_cvi(np.array(x), c)
assert not np.isfinite(got), got
""",
"a sample that makes two centroids coincide",
"the value of the previous call is returned again")

bug("db-keeps-samples", "C18", [(M + "DB.py",
"            self._mu = (\n                (1 - 1/n_samples_new) * self._mu\n                + (1/n_samples_new) * sample\n            )",
"            self._mu = np.vstack([self._mu, sample])"),
(M + "DB.py",
"        if self._n_clusters > 1:\n            self._R =",
"        if self._n_clusters > 1 and np.isfinite(np.mean(self._mu)):\n            self._R =")],
"""
import cvi, numpy as np, pickle
o = cvi.DB()
r = np.random.RandomState(0)
for t in range(20):
    o.get_cvi(r.normal(size=2), t % 2)
a = len(pickle.dumps(o))
for t in range(2000):
    o.get_cvi(r.normal(size=2), t % 2)
b = len(pickle.dumps(o))
assert b < a + 400, (a, b)
""",
"a long stream",
"every sample is kept")

bug("all-duplicate", "C19", [("src/cvi/__init__.py",
'    "GD43",\n    "GD53",\n', '    "GD43",\n    "GD43",\n')],
"""
ns = {}
exec("from cvi import *", ns)
for n in "CH cSIL DB GD43 GD53 PS rCIP WB XB".split():
    assert n in ns, n
""",
"a star import",
"GD53 is not exported")

bug("setup-in-assert", "C20", [(M + "WB.py",
"            self._setup(sample)\n", "            assert self._setup(sample) is None\n")],
"""
import subprocess, sys
code = '''
import cvi, numpy as np
o = cvi.WB()
for x, c in [([0., 0.], 0), ([2., 0.], 0), ([3., 0.], 1), ([-1., 5.], 1)]:
    v = o.get_cvi(np.array(x), c)
print(v)
'''
a = subprocess.run([sys.executable, "-c", code], stdout=-1, stderr=-1)
b = subprocess.run([sys.executable, "-O", "-c", code], stdout=-1, stderr=-1)
assert a.returncode == 0 and b.returncode == 0 and a.stdout == b.stdout
""",
"python -O",
"the setup call is part of an assertion and is stripped")

bug("walrus", "C21", [(M + "GD53.py",
"        if self._n_clusters > 1:\n            self._intra",
"        if (k := self._n_clusters) > 1:\n            self._intra"),
(M + "GD53.py",
"                        np.ones((self._n_clusters, self._n_clusters), bool), 1",
"                        np.ones((k, k), bool), 1")],
"""
import ast, glob
for f in glob.glob("src/cvi/**/*.py", recursive=True):
    ast.parse(open(f).read(), f, feature_version=(3, 6))
""",
"an interpreter older than 3.8",
"an assignment expression is a syntax error on the oldest supported interpreters")

bug("factory-substring", "C22", [(V,
"    elif name == 'iXB':", "    elif name in ('iXB'):")],
"""
from cvi import compat
for bad in ("", "i", "X", "XB", "iX", "iWB"):
    try:
        compat.iCVI(bad)
    except ValueError:
        continue
    raise AssertionError(bad)
""",
"a name that is a substring of 'iXB', such as the empty string",
"unknown names yield an iXB object")

bug("cp-update-in-place", "C23", [(V,
"    z = x - v_new\n    g_new = g_old + z + n_old * delta_v\n",
"    z = x\n    if z.dtype == delta_v.dtype:\n        z -= v_new\n    else:\n        z = x - v_new\n    g_new = g_old + z + n_old * delta_v\n")],
"""
import numpy as np
from cvi import compat
for n in ("iXB", "iCH", "iGD43", "iGD53", "iDB"):
    o = compat.iCVI(n)
    for x, c in [([0., 0.], 0), ([3., 0.], 1), ([2., 0.], 0), ([3., 1.], 1)]:
        x = np.array(x); z = x.copy()
        o.update(x, c)
        assert (x == z).all(), n
""",
"a second sample for a cluster",
"the sample is overwritten by its deviation from the centroid")

bug("isil-count-first", "C24", [(V,
"        if c_i == len(self.cluster_sizes):\n            self.cluster_centers.append(x.copy())\n            self.cluster_sizes.append(1)\n            self.sc.append(0)",
"        self.N += 1\n        if c_i == len(self.cluster_sizes):\n            self.cluster_centers.append(x.copy())\n            self.cluster_sizes.append(1)\n            self.sc.append(0)"),
(V, "            raise ValueError('Invalid Cluster Ordering')\n        self.N += 1\n        (\n            self.cluster_centers[c_i],\n            self.cluster_sizes[c_i]\n        ) = cluster_center",
"            raise ValueError('Invalid Cluster Ordering')\n        (\n            self.cluster_centers[c_i],\n            self.cluster_sizes[c_i]\n        ) = cluster_center")],
"""
import numpy as np, pickle
from cvi import compat
o = compat.iSIL()
for x, c in [([0., 0.], 0), ([3., 0.], 1)]:
    o.update(np.array(x), c)
a = pickle.dumps(o)
try:
    o.update(np.array([1., 1.]), 5)
except ValueError:
    pass
assert pickle.dumps(o) == a
""",
"a refused out-of-order label",
"the refused sample is counted")

bug("igd-amortised-pad", "C25", [(V,
"""            self.d = np.pad(
                self.d,
                [(0, 1), (0, 1)],
                mode='constant',
                constant_values=np.inf
            )
            self.D""",
"""            if len(self.d) < len(self.CP):
                grow = max(1, 2 * (c_i // 2))
                self.d = np.pad(
                    self.d,
                    [(0, grow), (0, grow)],
                    mode='constant',
                    constant_values=np.inf
                )
            self.D""")],
"""
import numpy as np
from cvi import compat
for k in range(1, 9):
    for n in ("iGD43", "iGD53"):
        o = compat.iCVI(n)
        for r in range(3):
            for c in range(k):
                o.update(np.array([c + 0.1 * r, c * 2.0 - r]), c)
    assert len(o.d) >= k
""",
"five or more clusters",
"placeholder")
OUT.pop()

bug("igd-grow-in-pairs", "C25", [(V,
"""            self.d = np.pad(
                self.d,
                [(0, 1), (0, 1)],
                mode='constant',
                constant_values=np.inf
            )
            self.D""",
"""            if c_i < 2 or c_i % 2 == 1:
                grow = 1 if c_i < 2 else 2
                self.d = np.pad(
                    self.d,
                    [(0, grow), (0, grow)],
                    mode='constant',
                    constant_values=np.inf
                )
            self.D""")],
"""
import numpy as np
from cvi import compat
for k in range(1, 9):
    for n in ("iGD43", "iGD53"):
        o = compat.iCVI(n)
        for r in range(3):
            for c in range(k):
                o.update(np.array([c + 0.1 * r, c * 2.0 - r]), c)
""",
"three or more clusters, an odd number of them when a known cluster returns",
"the matrix of distances is grown in pairs one cluster too late, so the update of a known cluster raises IndexError")
