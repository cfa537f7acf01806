"""Third set of planted changes: legacy statistics, legacy independence, copies, kind of value."""
from bugs import bug, M, B, V

LEG = '''
import numpy as np, copy, pickle
from cvi.compat import v0
r = np.random.RandomState(4)
def stream(d, k, n):
    C = r.uniform(-9, 9, (k, d))
    y = list(range(k)) + [int(c) for c in r.randint(0, k, n)]
    return [C[c] + r.normal(0, 1, d) for c in y], y
def stats(cls, X, y):
    o = cls()
    for t in range(len(y)):
        with np.errstate(all="ignore"):
            o.update(np.array(X[t]), y[t])
        k = max(y[:t + 1]) + 1
        G = [np.array([X[i] for i in range(t + 1) if y[i] == c]) for c in range(k)]
        assert [int(s) for s in o.cluster_sizes] == [len(g) for g in G], (cls, t, o.cluster_sizes)
        assert np.allclose(o.cluster_centers, [g.mean(0) for g in G]), (cls, t)
        if hasattr(o, "N"): assert o.N == t + 1
        if hasattr(o, "data_center"): assert np.allclose(o.data_center, np.mean(X[:t + 1], 0)), (cls, t)
        if hasattr(o, "max_cluster_size"): assert o.max_cluster_size == max(len(g) for g in G), (cls, t)
KINDS = [v0.iXB, v0.iPS, v0.iCH, v0.iGD43, v0.iGD53, v0.iDB]
'''
SAME = '''
def same(a, b):
    return a == b or (a != a and b != b)
'''

bug("icp-forget", "C28", [(V,
"        v_new = v_old + (x - v_old) / n_new\n    delta_v",
"        v_new = v_old + (x - v_old) / min(n_new, 100)\n    delta_v")],
LEG + "X, y = stream(2, 2, 260)\nfor c in KINDS: stats(c, X, y)\n",
"a cluster of more than a hundred samples", "the mean becomes a moving average")

bug("icp-skip-duplicate", "C28", [(V,
"    if n_new is None:\n        n_new = n_old + 1\n    if v_new",
"    if n_new is None:\n        n_new = n_old + (1 if np.any(x != v_old) else 0)\n    if v_new")],
LEG + "X, y = stream(2, 2, 6)\nX += [X[0].copy(), X[1].copy()]\ny += [0, 1]\nfor c in KINDS: stats(c, X, y)\nfor c in KINDS: stats(c, [np.ones(2)] * 2 + [np.zeros(2)], [0, 0, 1])\n",
"a sample equal to the centre of its cluster", "the sample is not counted")

bug("ips-max-prefix", "C28", [(V,
"            np.maximum(self.max_cluster_size, self.cluster_sizes[c_i])\n",
"            np.max(self.cluster_sizes[:c_i + 1])\n")],
LEG + "X, y = stream(2, 3, 40)\nstats(v0.iPS, X, y)\n",
"a largest cluster that comes after the one updated", "clusters after the updated one are left out of the maximum")

bug("ich-mean-from-clusters", "C28", [(V,
"        if c_i == len(self.cluster_sizes):\n            self.cluster_centers.append(x.copy())\n            self.cluster_sizes.append(1)\n            self.WGSS_i.append(0)\n            self.BGSS_i.append(0)\n",
"        if c_i == len(self.cluster_sizes):\n            self.cluster_centers.append(x.copy())\n            self.cluster_sizes.append(1)\n            self.WGSS_i.append(0)\n            self.BGSS_i.append(0)\n            if len(self.cluster_sizes) > 8:\n                # Keep round-off out of long streams\n                self.data_center = np.mean(self.cluster_centers, axis=0)\n")],
LEG + "X, y = stream(2, 12, 40)\nstats(v0.iCH, X, y)\nX, y = X[::-1], y[::-1]\nm = []\nfor c in y:\n    if c not in m: m.append(c)\nstats(v0.iCH, X, [m.index(c) for c in y])\n",
"more than eight clusters of unequal sizes", "the mean of the data becomes the unweighted mean of the centres")

bug("idb-class-lists", "C29", [(V,
"        self.R = []\n        self.S = []\n        self.M = np.zeros((0, 0))\n        self.p = 1",
"        self.R = self._R0\n        self.S = []\n        self.M = np.zeros((0, 0))\n        self.p = 1"),
(V, "    Incremental Davies-Bouldin (DB) CVI.\n    \"\"\"\n\n", "    Incremental Davies-Bouldin (DB) CVI.\n    \"\"\"\n\n    _R0: list = []\n\n")],
LEG + SAME + '''
X, y = [np.array(v, float) for v in ([0, 0], [5, 6], [1, 0], [5, 8])], [0, 1, 0, 1]
a = v0.iDB(); A = [a.update(np.array(x), c) for x, c in zip(X, y)]
b = v0.iDB(); B = [b.update(np.array(x), c) for x, c in zip(X, y)]
assert all(same(p, q) for p, q in zip(A, B)), (A, B)
''', "a second object of the class in the process", "all objects share one list of ratios")

bug("igd-return-new-cluster", "C29", [(V,
"            self.D.append(-np.inf)\n",
"            self.D.append(-np.inf)\n            if len(self.D) > 2:\n                return 0.0\n")],
LEG + SAME + '''
for cls in (v0.iGD43, v0.iGD53):
    o = cls()
    X = [np.array(v, float) for v in ([0, 0], [5, 5], [0, 1], [5, 7], [9, 0])]
    for x, c in zip(X, [0, 1, 0, 1, 2]):
        with np.errstate(all="ignore"):
            g = o.update(x, c)
        assert same(g, o.output), (g, o.output)
''', "a third cluster appears after the index has a value", "the returned value is not the published one")

bug("icp-last-gradient", "C29", [(V,
"    if g_old is None:\n        g_old = np.zeros_like(x)\n    if n_new",
"    if g_old is None:\n        g_old = CP_update.g0.setdefault(len(x), np.zeros_like(x))\n    if n_new"),
(V, "    return cp_new, g_new, v_new, n_new\n\n\n", "    if n_old == 1:\n        CP_update.g0[len(x)] = g_new\n    return cp_new, g_new, v_new, n_new\n\n\nCP_update.g0 = {}\n\n\n")],
LEG + SAME + '''
X, y = stream(2, 2, 8)
def run():
    o = v0.iCH()
    with np.errstate(all="ignore"):
        return [o.update(np.array(x), c) for x, c in zip(X, y)]
A, B = run(), run()
assert all(same(p, q) for p, q in zip(A, B)), (A, B)
''', "an earlier object of any legacy class with the same number of features", "the gradient starts from the last one any object saw")

COP = '''
import cvi, copy, pickle, numpy as np
r = np.random.RandomState(2)
X = r.normal(0, 2, (40, 2)); y = [0, 0, 1, 1] + [int(c) for c in r.randint(0, 4, 36)]
W = %s
def same(a, b):
    return a == b or (a != a and b != b)
for cls in W:
    for t in range(0, 30, 1):
        for how in (copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))):
            a, b = cls(), cls()
            for i in range(t):
                a.get_cvi(X[i], y[i]); b.get_cvi(X[i], y[i])
            c = how(b)
            for i in range(t, 36):
                p = a.get_cvi(X[i], y[i]); q = c.get_cvi(X[i], y[i])
                assert same(p, q), (cls, t, i, p, q)
            for i in range(t, 36):
                q = b.get_cvi(X[i], y[i])
            assert same(p, q), (cls, t, "original", p, q)
'''

bug("label-default-map", "C30", [(B,
"        self.map = dict()\n", "        self.map = defaultdict(lambda: len(self.map))\n"),
(B, "from abc import abstractmethod\n", "from abc import abstractmethod\nfrom collections import defaultdict\n")],
COP % "[cvi.CH, cvi.XB]", "an index object is pickled", "a lambda in the state cannot be pickled")

bug("getstate-small", "C30", [(M + "PS.py",
"    @_base._add_docs(_base._param_inc_doc)\n",
'''    def __getstate__(self):
        """
        Leave what the next evaluation computes out of copies.
        """

        state = dict(self.__dict__)
        state["_PS_i"] = np.zeros(0)
        if self._n_clusters > 2:
            state["_D"] = np.zeros((self._n_clusters, self._n_clusters))
        return state

    @_base._add_docs(_base._param_inc_doc)
''')],
COP % "[cvi.PS]", "a copy is made with three or more clusters", "the distances between clusters are lost in the copy")

bug("deepcopy-shares-counts", "C30", [(B,
"    def _setup(self, sample: np.ndarray):\n",
'''    def __deepcopy__(self, memo):
        """
        Copies arrays and the label map only; numbers need no copy.
        """

        new = type(self).__new__(type(self))
        for key, value in self.__dict__.items():
            if isinstance(value, np.ndarray):
                value = value.copy()
            elif isinstance(value, LabelMap):
                value = LabelMap()
                value.map = dict(self._label_map.map)
            new.__dict__[key] = value
        return new

    def _setup(self, sample: np.ndarray):
''')],
COP % "cvi.MODULES", "a deep copy and its original are both used further", "lists of counts and compactnesses stay shared")

bug("idb-norm-closure", "C30", [(V,
"        self.p = 1\n        self.q = 1\n        self.output = 0\n",
"        self.p = 1\n        self.q = 1\n        self.root = lambda z: z ** (1. / self.p)\n        self.output = 0\n"),
(V, "                    self.M[c_i, j] = self.M[c_i, j] ** (1./self.p)\n", "                    self.M[c_i, j] = self.root(self.M[c_i, j])\n")],
'''
import pickle, copy, numpy as np
from cvi.compat import v0
for cls in v0.MODULES:
    o = cls()
    o.update(np.array([0., 1.]), 0)
    pickle.loads(pickle.dumps(o)); copy.deepcopy(o)
''', "a Davies-Bouldin object is pickled", "a lambda in the state cannot be pickled")

KIND = '''
import cvi, numpy as np
from cvi.compat import v0
def ok(v):
    assert v is not None and not isinstance(v, (bool, np.bool_)) and np.ndim(v) == 0 and not isinstance(v, np.ndarray), repr(v)
def go(cls, X, y, up="get_cvi"):
    o = cls()
    for x, c in zip(X, y):
        with np.errstate(all="ignore"):
            ok(getattr(o, up)(np.array(x, float), c))
r = np.random.RandomState(2)
'''
MODK = KIND + '''
for cls in cvi.MODULES:
    for d in (1, 2, 3):
        for k in (1, 2, 4):
            X = r.normal(0, 3, (24, d)); y = [i %% k for i in range(24)]
            go(cls, X, y)
            go(cls, np.round(X * 0), y)
            go(cls, X, sorted(y))
            if k > 1:
                with np.errstate(all="ignore"):
                    ok(cls().get_cvi(X, np.array(y)))
                    ok(cls().get_cvi(X[:k], np.array(y[:k])))
'''.replace("%%", "%")

bug("wb-and", "C31", [(M + "WB.py", """            # WB index value
            self.criterion_value = (
                (self._WGSS / self._BGSS) * self._n_clusters
            )
        else:
            self._BGSS = 0.0
            self.criterion_value = 0.0
""", """        else:
            self._BGSS = 0.0
        # WB index value
        self.criterion_value = (
            self._n_clusters > 1
            and (self._WGSS / self._BGSS) * self._n_clusters
        )
""")], MODK, "a stream with one cluster so far", "False is returned in place of 0")

bug("gd43-none", "C31", [(M + "GD43.py", "            self.criterion_value = self._inter / self._intra\n",
"            self.criterion_value = (\n                self._inter / self._intra\n                if self._intra or self._inter else None\n            )\n")],
MODK, "coincident centroids of clusters without scatter", "None is returned")

bug("xb-last-axis", "C31", [(M + "XB.py", "            self._SEP = np.min(values)\n",
"            self._SEP = np.min(values, axis=0, keepdims=self._dim == 1)\n")],
MODK, "samples of one feature", "an array of one element is returned")

bug("ich-and", "C31", [(V, """        if (len(self.cluster_centers) > 1) and (self.N - len(self.cluster_centers) > 0):
            self.output = (
                (self.BGSS / (len(self.cluster_centers) - 1))
                / (self.WGSS / (self.N - len(self.cluster_centers)))
            )
        else:
            self.output = 0
""", """        dof = self.N - len(self.cluster_centers)
        self.output = dof and (
            len(self.cluster_centers) > 1
            and (self.BGSS / (len(self.cluster_centers) - 1)) / (self.WGSS / dof)
        )
""")], KIND + '''
for cls in v0.MODULES:
    for d in (1, 2):
        for k in (1, 2, 3):
            y = [min(i, k - 1) for i in range(k)] + [i % k for i in range(12)]
            go(cls, r.normal(0, 3, (len(y), d)), y, "update")
''', "a second sample of the only cluster", "False is returned in place of 0")
