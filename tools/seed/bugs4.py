"""Fourth set of planted changes: limits, collisions, narrow types, degenerate data, refusals, storage."""
from bugs import bug, M, B, V

STR = '''
import cvi, numpy as np
r = np.random.RandomState(11)
def blobs(k, d, n, spread=30.0):
    C = r.uniform(-spread, spread, (k, d))
    y = list(range(k)) + [int(c) for c in r.randint(0, k, n)]
    return np.array([C[c] + r.normal(0, 1, d) for c in y]), y
def run(cls, X, y, every=1):
    o = cls()
    for t in range(len(y)):
        with np.errstate(all="ignore"):
            g = o.get_cvi(X[t], y[t])
            if t % every and t + 1 < len(y):
                continue
            w = ref.value(cls.__name__, X[:t + 1], y[:t + 1])
        assert ref.close(g, w), (cls, t, g, w)
def batch(cls, X, y):
    with np.errstate(all="ignore"):
        g = cls().get_cvi(X, np.array(y)); w = ref.value(cls.__name__, X, list(y))
    assert ref.close(g, w), (cls, g, w)
'''

bug("label-mod", "C10", [(B, "        # If the label is in the map, return that\n", "        label = label % 1000\n        # If the label is in the map, return that\n")],
STR + "X, y = blobs(3, 2, 20)\nrun(cvi.XB, X, [(7, 1007, 2007)[c] for c in y])\n", "two labels a thousand apart", "the labels are taken for one cluster")

bug("batch-label-int32", "C10", [(M + "DB.py", "        u = np.unique(labels)\n", "        u = np.unique(np.asarray(labels, dtype=np.int32))\n")],
STR + "X, y = blobs(3, 2, 20)\nbatch(cvi.DB, X, [(5, 2 ** 33, 2 ** 33 + 5)[c] for c in y])\n", "labels beyond thirty-two bits in a batch", "labels are truncated when the clusters are counted and not when they are gathered")

bug("xb-positive-gap", "C09", [(M + "XB.py", "            self._SEP = np.min(values)\n", "            self._SEP = np.min(values[values > 1e-9]) if (values > 1e-9).any() else np.min(values)\n")],
STR + "X, y = blobs(3, 2, 20)\nX = X.copy()\nfor c in (0, 1):\n    for i, q in enumerate(y):\n        if q == c: X[i] = [1.0 + c * 2e-5, 2.0]\nbatch(cvi.XB, X, y)\nrun(cvi.XB, X, y)\n", "two centroids closer than the written tolerance", "the closest pair is left out of the minimum")

bug("xb-count-sixty-four", "C09", [(M + "XB.py", "self._WGSS / (self._n_samples * self._SEP)", "self._WGSS / (sum(self._n[:64]) * self._SEP)")],
STR + "X, y = blobs(70, 2, 90, 200.0)\nbatch(cvi.XB, X, y)\n", "more than sixty-four clusters", "samples of later clusters are not counted")

bug("xb-int16-size", "C09", [(M + "XB.py", "            self._n.append(n_new)\n", "            self._n.append(np.int16(n_new))\n"), (M + "XB.py", "            n_new = self._n[i_label] + 1\n", "            n_new = np.int16(self._n[i_label]) + np.int16(1)\n")],
STR + "o = cvi.XB()\nr2 = np.random.RandomState(3)\nX = [[-1.0], [-2.0]] + [[float(v)] for v in r2.normal(5, 1, 33000)] + [[-1.5]]\ny = [1, 1] + [0] * 33000 + [1]\nwith np.errstate(all='ignore'):\n    for a, c in zip(X, y): g = o.get_cvi(np.array(a), c)\nw = ref.value('XB', np.array(X), y)\nassert ref.close(g, w), (g, w)\n", "a cluster of more than 32767 samples", "the size of the cluster overflows")

bug("rcip-drop-small", "C07", [(M + "rCIP.py", "            self.criterion_value = np.sum(values)\n", "            self.criterion_value = np.sum(values[values > 1e-30])\n")],
STR + "X, y = blobs(2, 2, 30, 1.0)\nX = X.copy(); X[np.array(y) == 1] += 19\nrun(cvi.rCIP, X, y)\nw = ref.value('rCIP', X, y); g = cvi.rCIP().get_cvi(X, np.array(y))\nassert (g == 0) == (w == 0) and abs(g - w) <= 1e-6 * abs(w), (g, w)\n", "clusters so far apart that every term is tiny", "the value becomes zero")

bug("db-ignore-large", "C03", [(M + "DB.py", "np.sum(np.max(self._R, axis=0))", "np.sum(np.max(np.where(self._R > 1e8, 0.0, self._R), axis=0))")],
STR + "X, y = blobs(3, 2, 20)\nX = X.copy()\nm = np.array(y) == 1\nX[m] += X[np.array(y) == 0].mean(0) - X[m].mean(0) + 1e-5\nbatch(cvi.DB, X, y)\n", "two nearly coincident centroids of wide clusters", "a ratio above the written number counts as zero")

bug("db-unmoved", "C03", [(M + "DB.py", "            d_column_new = np.zeros(self._n_clusters)\n            for jx", "            d_column_new = self._D[i_label, :].copy()\n            moved = not np.allclose(v_new, self._v[i_label, :])\n            for jx"),
(M + "DB.py", "                if jx == i_label:\n                    continue", "                if jx == i_label or not moved:\n                    continue")],
STR + "X, y = blobs(3, 2, 12, 0.5)\nX = X * 1e-9\nrun(cvi.DB, X, y)\n", "centroids that move by less than the default tolerance", "distances of a slowly moving centroid are kept")

bug("csil-twelve", "C02", [(M + "cSIL.py", "                local_S = np.delete(self._S[:, ix], ix)\n", "                local_S = np.delete(self._S[:, ix], ix)[:12]\n")],
STR + "X, y = blobs(16, 2, 30)\nbatch(cvi.cSIL, X, y)\nrun(cvi.cSIL, X, y)\n", "more than thirteen clusters", "the nearest cluster may be left out")

bug("csil-first-row", "C02", [(M + "cSIL.py", "        if self._n_clusters > 1 and self._S.any():", "        if self._n_clusters > 1 and self._S[0].any():")],
STR + "X = np.array([[0.], [-1.], [1.], [0.], [-2.], [2.]]); y = [0, 1, 1, 0, 2, 2]\nbatch(cvi.cSIL, X, y)\nrun(cvi.cSIL, X, y)\n", "a first cluster whose row of dissimilarities is zero", "the other clusters are not looked at")

bug("ps-late-self", "C06", [(M + "PS.py", "                d = np.delete(d, ix)\n", "                d = np.delete(d, ix if ix < 8 else -1)\n")],
STR + "X, y = blobs(12, 2, 20)\nbatch(cvi.PS, X, y)\nrun(cvi.PS, X, y)\n", "more than nine clusters", "a late cluster is compared with itself")

bug("stack-of-columns", "C14", [(B, "        elif (data.ndim == 2):", "        elif data.ndim == 2 or data.shape[-1] == 1:")],
'''
import cvi, numpy as np
for cls in cvi.MODULES:
    for a in (np.array(3.0), np.ones((2, 2, 2)), np.ones((2, 1, 1))):
        o = cls()
        try:
            o.get_cvi(a, 0)
        except ValueError:
            pass
        else:
            raise AssertionError((cls, a.shape))
''', "a scalar array", "its missing last axis is asked for: IndexError instead of ValueError")

bug("refuse-clears-value", "C15", [(B, "        if (data.ndim == 1):", "        if data.ndim > 2:\n            self.criterion_value = 0.0\n        if (data.ndim == 1):")],
'''
import cvi, numpy as np
X = np.array([[0., 1.], [5., 6.], [1., 0.], [6., 6.], [0., 3.]]); y = [0, 1, 0, 1, 0]
for cls in cvi.MODULES:
    o = cls()
    with np.errstate(all="ignore"):
        for a, c in zip(X, y): v = o.get_cvi(a, c)
    try:
        o.get_cvi(np.ones((2, 2, 2)), 0)
    except ValueError:
        pass
    assert o.criterion_value == v or (v != v and o.criterion_value != o.criterion_value), (cls, v, o.criterion_value)
''', "a refused array of three dimensions after the stream has a value", "the published value is cleared")

bug("many-clusters-refused", "C16", [(B, "            self._param_inc(data, label)\n", "            if self._n_clusters > 256:\n                raise ValueError('too many clusters')\n            self._param_inc(data, label)\n")],
'''
import cvi, numpy as np
with np.errstate(all="ignore"):
    o = cvi.CH()
    for t in range(262): o.get_cvi(np.array([float(t)]), t)
''', "a stream with more than 257 clusters", "the stream is refused")

bug("v-of-sample-type", "C12", [(B, "        self._v = np.zeros([0, self._dim])\n", "        self._v = np.zeros([0, self._dim], dtype=np.result_type(sample, np.float16))\n")],
STR + "X, y = blobs(3, 2, 30, 1000.0)\nX = np.round(X).astype(np.int16)\nfor cls in (cvi.CH, cvi.WB, cvi.GD43):\n    with np.errstate(all='ignore'):\n        a = cls().get_cvi(X, np.array(y)); b = cls().get_cvi(X.astype(float), np.array(y))\n        o, p = cls(), cls()\n        for s, c in zip(X, y): u = o.get_cvi(s, c); w = p.get_cvi(s.astype(float), c)\n    assert np.isclose(a, b, rtol=1e-9) and np.isclose(u, w, rtol=1e-9), (cls, a, b, u, w)\n", "samples of a narrow type", "the centroids are kept in a narrow type")

bug("ps-sum-in-type", "C12", [(M + "PS.py", "            self._v[ix, :] = np.mean(subset, axis=0)\n", "            self._v[ix, :] = np.add.reduce(subset, axis=0, dtype=subset.dtype) / self._n[ix]\n")],
STR + "X, y = blobs(3, 2, 30, 40.0)\nX = np.clip(np.round(X), -100, 100).astype(np.int8)\na = cvi.PS().get_cvi(X, np.array(y)); b = cvi.PS().get_cvi(X.astype(float), np.array(y))\nassert np.isclose(a, b), (a, b)\n", "a batch of small integers whose sum leaves the type", "the sum wraps around")

bug("rcip-half-for-ints", "C12", [(M + "rCIP.py", "            subset = data[subset_indices, :].astype(float)\n", "            subset = data[subset_indices, :].astype(np.float64 if data.dtype.kind == 'f' else np.float32)\n")],
STR + "X, y = blobs(3, 2, 30, 3.0)\nX = np.round(X * 8).astype(np.int64) + 100000001\nwith np.errstate(all='ignore'):\n    a = cvi.rCIP().get_cvi(X, np.array(y)); b = cvi.rCIP().get_cvi(X.astype(float), np.array(y))\nassert np.isclose(a, b, rtol=1e-6), (a, b)\n", "integer samples beyond single precision", "integers are rounded before the covariance is formed")

bug("label-every-second", "C18", [(B, "        self._is_setup = True\n", "        self._is_setup = True\n        self._seen = []\n"), (B, "            self._param_inc(data, label)\n", "            self._param_inc(data, label)\n            if self._n_samples % 2:\n                self._seen.append(label)\n")],
'''
import cvi, pickle, numpy as np
def size(n):
    o = cvi.CH(); r = np.random.RandomState(1)
    with np.errstate(all="ignore"):
        for t in range(n): o.get_cvi(r.normal(0, 1, 2), t % 3)
    return len(pickle.dumps(o))
a, b = size(300), size(3000)
assert b < a + 200, (a, b)
''', "a long stream", "a label is stored for every second sample")

bug("trace-by-hundred", "C18", [(M + "rCIP.py", "        self._n_samples = n_samples_new", "        self._n_samples = n_samples_new\n        if n_samples_new % 100 == 0:\n            self._trace = getattr(self, '_trace', ()) + (self.criterion_value,)")],
'''
import cvi, pickle, numpy as np
def size(n):
    o = cvi.rCIP(); r = np.random.RandomState(1)
    with np.errstate(all="ignore"):
        for t in range(n): o.get_cvi(r.normal(0, 1, 1), t % 2)
    return len(pickle.dumps(o))
a, b = size(150), size(2150)
assert b < a + 100, (a, b)
''', "a stream of several hundred samples", "a value is stored for every hundred samples")

LEG = '''
import numpy as np
from cvi.compat import v0
'''
bug("icentre-window", "C28", [(V, "    v_new = v_old + (x - v_old) / n_new\n    return v_new, n_new", "    v_new = v_old + (x - v_old) / min(n_new, 512)\n    return v_new, n_new")],
LEG + '''
r = np.random.RandomState(2)
X = r.normal(3, 2, (1400, 1))
for cls in (v0.iPS, v0.iDB):
    o = cls()
    with np.errstate(all="ignore"):
        for t, x in enumerate(X): o.update(x.copy(), 0)
    assert np.allclose(o.cluster_centers[0], X.mean(0), atol=1e-9), (cls, o.cluster_centers[0], X.mean(0))
''', "a cluster of more than 512 samples", "the centre becomes a moving average")

bug("isize-uint8", "C28", [(V, "    n_new = n_old + 1\n    v_new = v_old + (x - v_old) / n_new\n    return", "    n_new = np.uint8(n_old) + np.uint8(1)\n    v_new = v_old + (x - v_old) / n_new\n    return")],
LEG + '''
o = v0.iPS()
with np.errstate(all="ignore"):
    for t in range(300): o.update(np.array([t / 7.0]), 0)
assert int(o.cluster_sizes[0]) == 300, o.cluster_sizes
''', "a cluster of more than 255 samples", "the size wraps around")

bug("ixb-count-on-refusal", "C24", [(V, "        if c_i > len(self.cluster_sizes):\n            raise ValueError('Invalid Cluster Ordering')\n        self.N += 1\n        if c_i == len(self.cluster_sizes):\n            self.cluster_centers.append(x.copy())\n            self.cluster_sizes.append(1)\n            self.WGSS_i.append(0)\n            self.min_v_i",
"        self.N += 1\n        if c_i > len(self.cluster_sizes):\n            self.N -= self.N > 1\n            raise ValueError('Invalid Cluster Ordering')\n        if c_i == len(self.cluster_sizes):\n            self.cluster_centers.append(x.copy())\n            self.cluster_sizes.append(1)\n            self.WGSS_i.append(0)\n            self.min_v_i")],
LEG + '''
o = v0.iXB()
try:
    o.update(np.ones(2), 3)
except ValueError:
    pass
assert o.N == 0, o.N
''', "a refused number on an empty object", "the sample is counted")

bug("idb-first-number", "C24", [(V, "        if c_i > len(self.cluster_sizes):\n            raise ValueError('Invalid Cluster Ordering')\n        self.N += 1\n        if c_i == len(self.cluster_centers):", "        if c_i > max(len(self.cluster_sizes), 1):\n            raise ValueError('Invalid Cluster Ordering')\n        self.N += 1\n        if c_i == len(self.cluster_centers):")],
LEG + '''
o = v0.iDB()
try:
    o.update(np.ones(2), 1)
except ValueError:
    pass
assert o.N == 0, o.N
''', "number one on an empty object", "the call fails with IndexError half way")

bug("igd-sixty-four", "C25", [(V, "            self.D.append(-np.inf)\n", "            self.D.append(-np.inf)\n            self.d = self.d[:64, :64]\n")],
LEG + '''
o = v0.iGD43()
with np.errstate(all="ignore"):
    for t in range(140): o.update(np.array([float(t), 1.0]), t % 70)
''', "more than sixty-four clusters", "the table of distances is cut and a later update fails")

bug("ixb-finite-return", "C29", [(V, "        self.output = (self.WGSS / self.N) / self.min_v\n        return self.output", "        self.output = (self.WGSS / self.N) / self.min_v\n        return self.output if np.isfinite(self.output) else 0.0")],
LEG + '''
o = v0.iXB()
X = [[0.0, 0.0], [0.0, 0.0], [1.0, 1.0], [2.0, 2.0]]
with np.errstate(all="ignore"):
    for x, c in zip(X, [0, 1, 0, 1]):
        g = o.update(np.array(x), c)
        assert g == o.output or (g != g and o.output != o.output), (g, o.output)
''', "coincident centres", "the returned value is not the published one")

bug("ips-no-value-long", "C31", [(V, "            self.PS_i[c_i] = 0\n\n            self.output", "            self.PS_i[c_i] = 0\n            if len(self.cluster_sizes) == 1 and self.cluster_sizes[0] > 40:\n                return\n            self.output")],
LEG + '''
o = v0.iPS()
for t in range(60):
    g = o.update(np.array([t * 0.5]), 0)
    assert g is not None, t
''', "more than forty samples of one cluster", "nothing is returned")

bug("xb-gap-array", "C31", [(M + "XB.py", "            self._SEP = np.min(values)\n", "            self._SEP = np.min(values) if values.size > 1 else values\n")],
'''
import cvi, numpy as np
X = np.array([[0., 0.], [5., 5.], [1., 0.], [5., 6.]]); y = [0, 1, 0, 1]
assert np.ndim(cvi.XB().get_cvi(X, np.array(y))) == 0
o = cvi.XB()
with np.errstate(all="ignore"):
    for a, c in zip(X, y): assert np.ndim(o.get_cvi(a, c)) == 0
''', "exactly two clusters", "an array of one element is returned")

bug("doc-in-message", "C20", [(V, "        raise ValueError('iCVI {} not implemented'.format(name))", "        raise ValueError(iCVI.__doc__.strip() + ' {} not implemented'.format(name))")],
'''
import subprocess, sys
code = "from cvi.compat import iCVI\\ntry:\\n    iCVI('nope')\\nexcept ValueError:\\n    pass\\n"
for f in ([], ["-O"], ["-OO"]):
    assert subprocess.run([sys.executable] + f + ["-c", code], stderr=subprocess.DEVNULL).returncode == 0, f
''', "an unknown name under -OO", "the refusal needs a docstring")

bug("documented-modules", "C20", [("src/cvi/__init__.py", "    WB,\n    XB,\n]\n", "    WB,\n    XB,\n]\nMODULES = [m for m in MODULES if m.__doc__]\n")],
'''
import subprocess, sys
code = "import cvi; assert len(cvi.MODULES) == 9 or __import__('sys').exit(1)\\nif len(cvi.MODULES) != 9: raise SystemExit(1)"
for f in ([], ["-O"], ["-OO"]):
    assert subprocess.run([sys.executable] + f + ["-c", code], stderr=subprocess.DEVNULL).returncode == 0, f
''', "python -OO", "the list of indices is empty without docstrings")

bug("ch-batch-extremes", "C01", [(M + "CH.py", "        u = np.unique(labels)\n        self._n_clusters = u.size\n", "        labels = np.asarray(labels)\n        u = np.unique(labels[np.abs(data).max(axis=1) < 1e9])\n        self._n_clusters = u.size\n")],
STR + "X, y = blobs(3, 2, 20)\nX[np.array(y) == 2] += 3e9\nbatch(cvi.CH, X, y)\n", "a cluster far from the origin", "the cluster is left out of the batch")
