"""Third wave of behaviour-preserving edits: module-level helpers, generators, while loops, local aliases, properties."""
from specs import *
from specs import VNEW, CPG, MU, GROW2, COL2

SUB = """            subset_indices = (
                [x for x in range(len(labels)) if labels[x] == u[ix]]
            )
"""
HEAD = "from . import _base\n"
ALL = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]

refac("ch-module-helper", (M + "CH.py", "            self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)\n            for ix in range(self._n_clusters)\n",
      "            n_i * _squared(v_i, self._mu)\n            for n_i, v_i in zip(self._n, self._v)\n"),
      (M + "CH.py", "class CH(", "def _squared(a, b):\n    delta = a - b\n    return sum(delta ** 2)\n\n\nclass CH("))
refac("subset-generator", *[(M + k + ".py", SUB, "            subset_indices = list(self._members(labels, u[ix]))\n") for k in ALL],
      (M + "_base.py", "    def _setup_batch(self", "    @staticmethod\n    def _members(labels, name):\n        for x, c in enumerate(labels):\n            if c == name:\n                yield x\n\n    def _setup_batch(self"))
refac("subset-while", (M + "DB.py", SUB, "            subset_indices = []\n            x = 0\n            while x < len(labels):\n                if labels[x] == u[ix]:\n                    subset_indices.append(x)\n                x += 1\n"))
refac("local-aliases", (M + "XB.py", "            dim = self._D.shape[0]\n", "            D = self._D\n            dim = D.shape[0]\n"),
      (M + "XB.py", "values = self._D[np.triu_indices(dim, k=1)]", "values = D[np.triu_indices(dim, k=1)]"))
refac("int-label", (M + "_base.py", "            self._param_inc(data, label)\n", "            sample = data\n            self._param_inc(sample, label)\n"))
refac("evaluate-guard-flip", *[(M + k + ".py", "        if self._n_clusters > 1:\n            # Within group", "        if not self._n_clusters < 2:\n            # Within group") for k in ("CH", "WB")])
refac("new-test-flip", *[(M + k + ".py", "        if i_label > self._n_clusters - 1:\n", "        if i_label >= self._n_clusters:\n") for k in ALL])
refac("new-test-len", *[(M + k + ".py", "        if i_label > self._n_clusters - 1:\n", "        if i_label == len(self._n):\n") for k in ALL])
refac("ps-generator-beta", (M + "PS.py", """            self._beta_t = 0.0
""", ""), (M + "PS.py", """            for ix in range(self._n_clusters):
                delta_v = self._v[ix, :] - self._v_bar
                self._beta_t = self._beta_t + np.inner(delta_v, delta_v)
            self._beta_t /= self._n_clusters
            n_max = max(self._n)
""", """            self._beta_t = sum(np.dot(c, c) for c in self._v - self._v_bar) / self._n_clusters
            n_max = np.max(self._n)
"""))
refac("ps-np-mean-beta", (M + "PS.py", """            for ix in range(self._n_clusters):
                delta_v = self._v[ix, :] - self._v_bar
                self._beta_t = self._beta_t + np.inner(delta_v, delta_v)
            self._beta_t /= self._n_clusters
""", """            self._beta_t = np.mean(np.sum((self._v - self._v_bar) ** 2, axis=1))
"""))
refac("csil-enumerate", (M + "cSIL.py", """            for ix in range(self._n_clusters):
                # Same cluster
                a = self._S[ix, ix]
                # Other clusters
                local_S = np.delete(self._S[:, ix], ix)
                b = np.min(local_S)
                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)
""", """            for ix, column in enumerate(self._S.T):
                # Same cluster
                a = column[ix]
                # Other clusters
                b = min(s for jx, s in enumerate(column) if jx != ix)
                self._sil_coefs[ix] = (b - a) / max(a, b)
"""))
refac("csil-helper", (M + "cSIL.py", "                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)\n", "                self._sil_coefs[ix] = self._coefficient(a, b)\n"),
      (M + "cSIL.py", "    @_base._add_docs(_base._evaluate_doc)\n", "    @staticmethod\n    def _coefficient(a, b):\n        return (b - a) / np.maximum(a, b)\n\n    @_base._add_docs(_base._evaluate_doc)\n"))
refac("csil-batch-mean", (M + "cSIL.py", "                self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]\n", "                self._S[jx, ix] = np.mean(D[ix, subset_ind])\n"),
      (M + "cSIL.py", "        D = np.zeros((self._n_samples, self._n_samples))\n", "        D = np.zeros((self._n_clusters, self._n_samples))\n"))
refac("rcip-slogdet-free", (M + "rCIP.py", "            values = self._D[np.triu_indices(dim, k=1)]\n            self.criterion_value = np.sum(values)\n", "            self.criterion_value = np.sum(np.triu(self._D, k=1))\n"))
refac("rcip-exponent-local", (M + "rCIP.py", """                self._D[ix, jx] = (
                    self._constant
                    * (1 / np.sqrt(np.linalg.det(sigma_q)))
                    * np.exp(
                        -0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m
                    )
                )
""", """                exponent = -0.5 * np.dot(np.dot(diff_m, np.linalg.inv(sigma_q)), diff_m)
                scale = self._constant / np.sqrt(np.linalg.det(sigma_q))
                self._D[ix, jx] = scale * np.exp(exponent)
"""))
refac("gd43-triu-indices", (M + "GD43.py", "        if self._n_clusters > 1:\n", "        k = self._n_clusters\n        if k > 1:\n"),
      (M + "GD53.py", """                np.min(self._D[
                    np.triu(
                        np.ones((self._n_clusters, self._n_clusters), bool), 1
                    ),
                ])
""", """                min(
                    self._D[ix, jx]
                    for ix in range(self._n_clusters)
                    for jx in range(ix)
                )
"""))
refac("gd53-intra-zip", (M + "GD53.py", "2 * np.max(np.divide(self._CP, self._n))", "2 * max(cp / n for cp, n in zip(self._CP, self._n))"))
refac("db-map", (M + "DB.py", """            self._R = np.zeros((self._n_clusters, self._n_clusters))
            for ix in range(self._n_clusters - 1):
                for jx in range(ix + 1, self._n_clusters):
                    self._R[jx, ix] = (
                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]
                    )
            self._R = self._R + np.transpose(self._R)
            self.criterion_value = (
                np.sum(np.max(self._R, axis=0)) / self._n_clusters
            )
""", """            worst = [
                max(
                    (self._S[ix] + self._S[jx]) / self._D[ix, jx]
                    for jx in range(self._n_clusters)
                    if jx != ix
                )
                for ix in range(self._n_clusters)
            ]
            self.criterion_value = np.mean(worst)
"""))
refac("wb-numpy-sum", (M + "WB.py", "            self._WGSS = sum(self._CP)\n", "            self._WGSS = np.sum(self._CP)\n"), (M + "WB.py", "            self._BGSS = sum(self._SEP)\n", "            self._BGSS = np.sum(self._SEP)\n"))
refac("wb-ratio-order", (M + "WB.py", "(self._WGSS / self._BGSS) * self._n_clusters", "self._n_clusters * self._WGSS / self._BGSS"))
refac("getcvi-ndim-local", (M + "_base.py", "        if (data.ndim == 1):\n", "        ndim = data.ndim\n        if ndim == 1:\n"), (M + "_base.py", "        elif (data.ndim == 2):\n", "        elif ndim == 2:\n"))
refac("getcvi-return-attr", (M + "_base.py", "        self._evaluate()\n        criterion_value = self.criterion_value\n\n        # Return the criterion value\n        return criterion_value\n", "        self._evaluate()\n        return self.criterion_value\n"))
refac("getcvi-refuse-helper", (M + "_base.py", """            if self._is_batch:
                raise ValueError(
                    "Switching from batch to incremental not supported"
                )
""", """            self._refuse(self._is_batch)
"""), (M + "_base.py", """            # If we haven't done a batch update yet
            if not self._is_setup:
""", """            self._refuse(self._is_setup)
            if True:
"""), (M + "_base.py", "    def _setup_batch(self", "    @staticmethod\n    def _refuse(condition):\n        if condition:\n            raise ValueError(\n                \"Switching from batch to incremental not supported\"\n            )\n\n    def _setup_batch(self"))
refac("labelmap-contains", (M + "_base.py", "            internal_label = len(self.map.items())\n            self.map[label] = internal_label\n", "            internal_label = self.map[label] = len(self.map)\n"))
refac("labelmap-not-in", (M + "_base.py", """        if label in self.map:
            internal_label = self.map[label]
        # Otherwise, create an incremented new label and return that
        else:
            # Correct for python zero-indexing by not including the +1
            internal_label = len(self.map.items())
            self.map[label] = internal_label

        return internal_label
""", """        if label not in self.map:
            # Correct for python zero-indexing by not including the +1
            self.map[label] = len(self.map)

        return self.map[label]
"""))
refac("unique-return-counts", *[(M + k + ".py", "        u = np.unique(labels)\n", "        u, counts = np.unique(labels, return_counts=True)\n") for k in ("CH", "WB", "PS")],
      *[(M + k + ".py", "            self._n[ix] = subset.shape[0]\n", "            self._n[ix] = counts[ix]\n") for k in ("CH", "WB", "PS")])
refac("batch-label-loop", *[(M + k + ".py", "        for ix in range(self._n_clusters):\n            subset_indices = (\n                [x for x in range(len(labels)) if labels[x] == u[ix]]\n            )\n", "        for ix, name in enumerate(u):\n            subset_indices = [x for x, c in enumerate(labels) if c == name]\n") for k in ("CH", "WB", "PS", "rCIP", "cSIL")])
refac("pair-helper", *[(M + k + ".py", """        for ix in range(self._n_clusters - 1):
            for jx in range(ix + 1, self._n_clusters):
                self._D[ix, jx] = (
                    np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)
                )

        self._D = self._D + np.transpose(self._D)
""", """        for ix in range(self._n_clusters):
            for jx in range(self._n_clusters):
                self._D[ix, jx] = self._distance(self._v[ix], self._v[jx])
""") for k in ("DB", "PS")], (M + "_base.py", "    def _setup_batch(self", "    def _distance(self, a, b):\n        return np.sum(np.square(a - b))\n\n    def _setup_batch(self"))
refac("column-comprehension", (M + "PS.py", """            d_column_new = np.zeros(self._n_clusters)
            for jx in range(self._n_clusters):
                # Skip the current i_label index
                if jx == i_label:
                    continue
                d_column_new[jx] = (
                    np.sum((v_new - self._v[jx, :]) ** 2)
                )
""", """            d_column_new = np.array([
                0.0 if jx == i_label else np.sum((v_new - self._v[jx, :]) ** 2)
                for jx in range(self._n_clusters)
            ])
"""))
refac("append-via-list", (M + "WB.py", "            self._n.append(n_new)\n            self._CP.append(CP_new)\n", "            self._n = self._n + [n_new]\n            self._CP = self._CP + [CP_new]\n"))
refac("setup-once-flag", *[(M + k + ".py", "        if self._n_samples == 0:\n            self._setup(sample)\n", "        if not self._is_setup:\n            self._setup(sample)\n") for k in ALL])
refac("super-explicit", (M + "DB.py", "        super()._setup_batch(data)\n", "        _base.CVI._setup_batch(self, data)\n"), (M + "DB.py", "        super()._setup(sample)\n", "        self._dim = len(sample)\n        self._v = np.zeros([0, self._dim])\n        self._G = np.zeros([0, self._dim])\n        self._is_setup = True\n"))
refac("legacy-zip-loop", (V, """        for j in range(len(self.cluster_centers)):
            if j != c_i:
                self.min_v_i[c_i] = np.minimum(
                    self.min_v_i[c_i],
                    norm22(self.cluster_centers[c_i]-self.cluster_centers[j])
                )
""", """        for j, center in enumerate(self.cluster_centers):
            if j == c_i:
                continue
            self.min_v_i[c_i] = np.minimum(
                self.min_v_i[c_i],
                norm22(self.cluster_centers[c_i] - center)
            )
"""))
refac("legacy-cp-keywords", (V, """            ) = CP_update(
                x,
                self.cluster_centers[c_i],
                self.cluster_sizes[c_i],
                self.g,
                self.CP[c_i],
                p=1
            )
            if self.t""", """            ) = CP_update(
                x=x,
                v_old=self.cluster_centers[c_i],
                n_old=self.cluster_sizes[c_i],
                g_old=self.g,
                cp_old=self.CP[c_i],
                p=1
            )
            if self.t"""))
refac("legacy-unpack", (V, """            (
                self.cluster_centers[c_i],
                self.cluster_sizes[c_i]
            ) = cluster_center_update(
                x,
                self.cluster_centers[c_i],
                self.cluster_sizes[c_i]
            )
        self.max""", """            center, size = cluster_center_update(
                x,
                self.cluster_centers[c_i],
                self.cluster_sizes[c_i]
            )
            self.cluster_centers[c_i] = center
            self.cluster_sizes[c_i] = size
        self.max"""))
