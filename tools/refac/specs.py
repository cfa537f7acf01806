"""Behaviour-preserving edits: (id, [(file, old, new)]); 'old' must occur; every occurrence in the file is replaced."""
M = "src/cvi/modules/"
B = M + "_base.py"
V = "src/cvi/compat/v0.py"
OUT = []
ALL = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]


def refac(id, *edits):
    OUT.append((id, edits))


VNEW = """            v_new = (
                (1 - 1 / n_new) * self._v[i_label, :]
                + (1 / n_new) * sample
            )
"""
CPG = """            delta_v = self._v[i_label, :] - v_new
            diff_x_v = sample - v_new
            CP_new = (
                self._CP[i_label]
                + np.inner(diff_x_v, diff_x_v)
                + self._n[i_label] * np.inner(delta_v, delta_v)
                + 2 * np.inner(delta_v, self._G[i_label, :])
            )
            G_new = (
                self._G[i_label, :]
                + diff_x_v
                + self._n[i_label] * delta_v
            )
"""
MU = """            self._mu = (
                (1 - 1/n_samples_new) * self._mu
                + (1/n_samples_new) * sample
            )
"""
SUB = """            subset_indices = (
                [x for x in range(len(labels)) if labels[x] == u[ix]]
            )
            subset = data[subset_indices, :]
"""
GROW2 = """                D_new = np.zeros((self._n_clusters + 1, self._n_clusters + 1))
                D_new[0:self._n_clusters, 0:self._n_clusters] = self._D
                d_column_new = np.zeros(self._n_clusters + 1)
                for jx in range(self._n_clusters):
                    d_column_new[jx] = (
                        np.sum((v_new - self._v[jx, :]) ** 2)
                    )
                D_new[i_label, :] = d_column_new
                D_new[:, i_label] = d_column_new
"""
COL2 = """            d_column_new = np.zeros(self._n_clusters)
            for jx in range(self._n_clusters):
                # Skip the current i_label index
                if jx == i_label:
                    continue
                d_column_new[jx] = (
                    np.sum((v_new - self._v[jx, :]) ** 2)
                )
"""
SEPI = """        self._SEP = np.array([
            self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)
            for ix in range(self._n_clusters)
        ])
"""
BATCHD2 = """        for ix in range(self._n_clusters - 1):
            for jx in range(ix + 1, self._n_clusters):
                self._D[ix, jx] = (
                    np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)
                )
"""

# 1 helper methods in the base class for the running mean
refac("base-running-mean",
      (B, "    @abstractmethod\n    def _param_inc", """    @staticmethod
    def _running_mean(old, sample, n_new):
        \"\"\"Mean after adding one sample to a mean of n_new - 1 samples.\"\"\"
        return (1 - 1 / n_new) * old + (1 / n_new) * sample

    @abstractmethod
    def _param_inc"""),
      *[(M + m + ".py", VNEW, "            v_new = self._running_mean(self._v[i_label, :], sample, n_new)\n") for m in ALL],
      *[(M + m + ".py", MU, "            self._mu = self._running_mean(self._mu, sample, n_samples_new)\n") for m in ("CH", "DB", "GD43", "GD53", "WB", "XB")])

# 2 incremental form of the mean
refac("mean-incremental-form",
      *[(M + m + ".py", VNEW, "            v_new = self._v[i_label, :] + (sample - self._v[i_label, :]) / n_new\n") for m in ALL],
      *[(M + m + ".py", MU, "            self._mu = self._mu + (sample - self._mu) / n_samples_new\n") for m in ("CH", "DB", "GD43", "GD53", "WB", "XB")])

# 3 boolean masks
refac("batch-masks", *[(M + m + ".py", SUB, "            subset = data[np.asarray(labels) == u[ix], :]\n") for m in ("CH", "cSIL", "DB", "GD43", "PS", "WB", "XB")],
      (M + "GD53.py", SUB.replace("            subset_indices", "            # subset_indices = lambda x: labels[x] == ix\n            subset_indices"), "            subset = data[np.asarray(labels) == u[ix]]\n"),
      (M + "rCIP.py", SUB.replace("subset = data[subset_indices, :]\n", "subset = data[subset_indices, :].astype(float)\n"), "            subset = data[np.flatnonzero(np.asarray(labels) == u[ix])].astype(float)\n"))

# 4 where / nonzero / enumerate
refac("batch-where-enumerate",
      (M + "CH.py", "        for ix in range(self._n_clusters):\n" + SUB, "        for ix, cluster in enumerate(u):\n            rows = np.where(np.asarray(labels) == cluster)[0]\n            subset = data[rows]\n"),
      (M + "DB.py", SUB, "            members, = np.nonzero(np.equal(labels, u[ix]))\n            subset = data[members, :]\n"),
      (M + "XB.py", "        for ix in range(self._n_clusters):\n" + SUB, "        for ix, cluster in enumerate(u):\n            subset = data[[i for i, lab in enumerate(labels) if lab == cluster], :]\n"),
      (M + "WB.py", SUB, "            mask = np.array([lab == u[ix] for lab in labels])\n            subset = data[mask]\n"),
      (M + "PS.py", SUB, "            subset = np.array([row for row, lab in zip(data, labels) if lab == u[ix]])\n"),
      (M + "GD43.py", SUB, "            subset = data[np.isin(labels, [u[ix]])]\n"))

# 5 vectorised distances
refac("vector-distances",
      *[(M + m + ".py", GROW2, """                k = self._n_clusters
                D_new = np.zeros((k + 1, k + 1))
                D_new[:k, :k] = self._D
                D_new[k, :k] = np.sum((self._v - v_new) ** 2, axis=1)
                D_new[:k, k] = D_new[k, :k]
""") for m in ("DB", "PS", "XB")],
      *[(M + m + ".py", COL2, """            d_column_new = np.sum((self._v - v_new) ** 2, axis=1)
            d_column_new[i_label] = 0
""") for m in ("DB", "PS", "XB")],
      *[(M + m + ".py", BATCHD2, """        diff = self._v[:, None, :] - self._v[None, :, :]
        self._D = np.triu(np.sum(diff ** 2, axis=2), 1)
""") for m in ("DB", "PS", "XB")])

# 6 early return
refac("early-return",
      (M + "CH.py", """        if self._n_clusters > 1:
            # Within group sum of scatters
            self._WGSS = sum(self._CP)
            # Between groups sum of scatters
            self._BGSS = sum(self._SEP)
            # CH index value
            self.criterion_value = (
                (self._BGSS / self._WGSS)
                * ((self._n_samples - self._n_clusters) / (self._n_clusters - 1))
            )
        else:
            self._BGSS = 0.0
            self.criterion_value = 0.0
""", """        if self._n_clusters < 2:
            self._BGSS = 0.0
            self.criterion_value = 0.0
            return

        k, n = self._n_clusters, self._n_samples
        self._WGSS = np.sum(self._CP)
        self._BGSS = np.sum(self._SEP)
        between, within = self._BGSS / (k - 1), self._WGSS / (n - k)
        self.criterion_value = (
            between / within if n > k else (self._BGSS / self._WGSS) * ((n - k) / (k - 1))
        )
"""),
      (M + "WB.py", """        if self._n_clusters > 1:
            # Within group sum of scatters
            self._WGSS = sum(self._CP)
            # Between groups sum of scatters
            self._BGSS = sum(self._SEP)
            # WB index value
            self.criterion_value = (
                (self._WGSS / self._BGSS) * self._n_clusters
            )
        else:
            self._BGSS = 0.0
            self.criterion_value = 0.0
""", """        self._BGSS = 0.0
        value = 0.0
        if not self._n_clusters <= 1:
            self._WGSS = np.sum(np.asarray(self._CP))
            self._BGSS = self._SEP.sum()
            value = self._n_clusters * self._WGSS / self._BGSS
        self.criterion_value = value
"""))

# 7 dispatch
refac("dispatch-guards",
      (B, """        # If we got 1D data, do a quick update
        if (data.ndim == 1):

            # Error until batch to incremental is supported
            if self._is_batch:
                raise ValueError(
                    "Switching from batch to incremental not supported"
                )

            self._param_inc(data, label)

        # Otherwise, we got 2D data and do the correct update
        elif (data.ndim == 2):

            # If we haven't done a batch update yet
            if not self._is_setup:

                # Check that there are at least two unique labels
                if not len(np.unique(label)) > 1:
                    raise ValueError(
                        "Batch CVI mode requires at least two unique labels"
                    )

                # Do a batch update
                self._param_batch(data, label)

            # Otherwise, we are already setup
            else:

                # Error until batch to incremental is supported
                raise ValueError(
                    "Switching from batch to incremental not supported"
                )

                # Do many incremental updates
                # for ix in range(len(label)):
                #     self._param_inc(data[ix, :], label[ix])

        # Otherwise, we got incorrectly dimensioned data
        else:

            # Error until some intelligent data sanitization is implemented
            raise ValueError(
                f"Please provide 1D or 2D numpy array, recieved ndim={data.ndim}"
            )

        # Regardless of path, evaluate and extract the criterion value
        self._evaluate()
        criterion_value = self.criterion_value

        # Return the criterion value
        return criterion_value
""", """        ndim = len(data.shape)
        if ndim not in (1, 2):
            raise ValueError(
                "Please provide 1D or 2D numpy array, recieved ndim=%d" % ndim
            )
        update = self._update_stream if ndim == 1 else self._update_batch
        update(data, label)
        self._evaluate()
        return self.criterion_value

    def _update_stream(self, sample, label):
        self._refuse_if(self._is_batch, "Switching from batch to incremental not supported")
        self._param_inc(sample, label)

    def _update_batch(self, data, labels):
        self._refuse_if(self._is_setup, "Switching from batch to incremental not supported")
        n_labels = np.unique(labels).size
        self._refuse_if(n_labels < 2, "Batch CVI mode requires at least two unique labels")
        self._param_batch(data, labels)

    @staticmethod
    def _refuse_if(condition, message):
        if condition:
            raise ValueError(message)
"""))

# 8 label maps
LM = """        # Initialize the internal label
        internal_label = None

        # If the label is in the map, return that
        if label in self.map:
            internal_label = self.map[label]
        # Otherwise, create an incremented new label and return that
        else:
            # Correct for python zero-indexing by not including the +1
            internal_label = len(self.map.items())
            self.map[label] = internal_label

        return internal_label
"""
refac("labelmap-setdefault", (B, LM, "        return self.map.setdefault(label, len(self.map))\n"))
refac("labelmap-get", (B, LM, """        internal_label = self.map.get(label)
        if internal_label is None:
            internal_label = len(self.map)
            self.map[label] = internal_label
        return internal_label
"""))
refac("labelmap-try", (B, LM, """        try:
            return self.map[label]
        except KeyError:
            self.map[label] = len(self.map)
            return self.map[label]
"""))
refac("labelmap-counter", (B, "        self.map = dict()\n", "        self.map = {}\n        self._next = 0\n"), (B, LM, """        if label not in self.map:
            self.map[label] = self._next
            self._next += 1
        return self.map[label]
"""))
refac("labelmap-list", (B, "        self.map = dict()\n", "        self.map = []\n"), (B, LM, """        if label not in self.map:
            self.map.append(label)
        return self.map.index(label)
"""))
refac("labelmap-dictclass", (B, "class LabelMap():", """class _Numbering(dict):
    \"\"\"Dictionary that numbers its missing keys in order of first use.\"\"\"

    def __missing__(self, key):
        self[key] = number = len(self)
        return number


class LabelMap():"""), (B, "        self.map = dict()\n", "        self.map = _Numbering()\n"), (B, LM, "        return self.map[label]\n"))

# 9 one helper for the CP/G update
refac("base-cp-helper",
      (B, "    @abstractmethod\n    def _param_inc", """    def _compactness_update(self, sample, i_label):
        \"\"\"New count, centroid, compactness and gradient of an old cluster.\"\"\"
        n_old = self._n[i_label]
        n_new = n_old + 1
        v_old = self._v[i_label]
        G_old = self._G[i_label]
        v_new = (1 - 1 / n_new) * v_old + sample / n_new
        delta_v = v_old - v_new
        diff = sample - v_new
        CP_new = self._CP[i_label] + diff.dot(diff) + n_old * (delta_v @ delta_v) + 2 * np.dot(delta_v, G_old)
        return n_new, v_new, CP_new, G_old + diff + n_old * delta_v

    @abstractmethod
    def _param_inc"""),
      *[(M + m + ".py", "            n_new = self._n[i_label] + 1\n" + VNEW + CPG, "            n_new, v_new, CP_new, G_new = self._compactness_update(sample, i_label)\n")
        for m in ("CH", "DB", "GD43", "GD53", "WB", "XB")])

# 10 append helper
refac("base-append-helper",
      (B, "    @abstractmethod\n    def _param_inc", """    def _append_cluster(self, sample, **scalars):
        self._n_clusters += 1
        self._n.append(1)
        for name, value in scalars.items():
            getattr(self, "_" + name).append(value)
        self._v = np.concatenate([self._v, sample[None, :]])
        self._G = np.concatenate((self._G, np.zeros((1, self._dim))), axis=0)

    @abstractmethod
    def _param_inc"""),
      *[(M + m + ".py", """            # Update 1-D parameters with list appends
            self._n_clusters += 1
            self._n.append(n_new)
            self._CP.append(CP_new)

            # Update 2-D parameters with numpy vstacks
            self._v = np.vstack([self._v, v_new])
            self._G = np.vstack([self._G, G_new])
""", "            self._append_cluster(v_new, CP=CP_new)\n") for m in ("CH", "WB", "XB", "GD43", "GD53")])

# 11 growth by pad
refac("grow-pad",
      *[(M + m + ".py", GROW2, """                d_column_new = np.array([np.sum((v_new - v) ** 2) for v in self._v] + [0.0])
                D_new = np.pad(self._D, ((0, 1), (0, 1)), mode="constant")
                D_new[-1] = d_column_new
                D_new[:, -1] = d_column_new
""") for m in ("DB", "PS", "XB")])
refac("grow-block",
      *[(M + m + ".py", GROW2, """                d = np.sum((v_new - self._v) ** 2, axis=1)
                D_new = np.block([[self._D, d[:, None]], [d[None, :], np.zeros((1, 1))]])
""") for m in ("DB", "PS", "XB")])

# 12 GD evaluation
GDE = """            self._intra = 2 * np.max(np.divide(self._CP, self._n))
            # Between-group measure of separation/isolation
            self._inter = (
                np.min(self._D[
                    np.triu(
                        np.ones((self._n_clusters, self._n_clusters), bool), 1
                    ),
                ])
            )
"""
refac("gd-evaluate",
      (M + "GD43.py", GDE, """            scatter = [cp / n for cp, n in zip(self._CP, self._n)]
            self._intra = 2 * max(scatter)
            rows, cols = np.triu_indices(self._n_clusters, k=1)
            self._inter = self._D[rows, cols].min()
"""),
      (M + "GD53.py", GDE, """            self._intra = max(2 * self._CP[c] / self._n[c] for c in range(self._n_clusters))
            self._inter = min(
                self._D[a, b]
                for a in range(self._n_clusters)
                for b in range(a + 1, self._n_clusters)
            )
"""))
refac("gd-fill-diagonal",
      (M + "GD43.py", GDE, """            self._intra = 2 * np.max(np.array(self._CP) / np.array(self._n))
            masked = self._D.copy()
            np.fill_diagonal(masked, np.inf)
            self._inter = np.min(masked)
"""),
      (M + "GD53.py", GDE, """            self._intra = 2 * np.max(np.asarray(self._CP, dtype=float) / self._n)
            off_diagonal = ~np.eye(self._n_clusters, dtype=bool)
            self._inter = np.min(self._D[off_diagonal])
"""))

# 13 norm
refac("gd43-norm",
      (M + "GD43.py", "np.sqrt(np.sum((v_new - self._v[jx, :]) ** 2))", "np.linalg.norm(v_new - self._v[jx, :])"),
      (M + "GD43.py", "np.sqrt(np.sum((self._v[ix, :] - self._v[jx, :]) ** 2))", "np.linalg.norm(self._v[ix] - self._v[jx], ord=2)"))

# 14 PS evaluate
PSE = """            self._v_bar = np.mean(self._v, axis=0)
            self._beta_t = 0.0
            self._PS_i = np.zeros(self._n_clusters)
            for ix in range(self._n_clusters):
                delta_v = self._v[ix, :] - self._v_bar
                self._beta_t = self._beta_t + np.inner(delta_v, delta_v)
            self._beta_t /= self._n_clusters
            n_max = max(self._n)
            for ix in range(self._n_clusters):
                d = self._D[ix, :]
                d = np.delete(d, ix)
                self._PS_i[ix] = (
                    (self._n[ix] / n_max)
                    - np.exp(-np.min(d) / self._beta_t)
                )
            self.criterion_value = np.sum(self._PS_i)
"""
refac("ps-vector", (M + "PS.py", PSE, """            self._v_bar = self._v.mean(axis=0)
            self._beta_t = np.mean(np.sum((self._v - self._v_bar) ** 2, axis=1))
            counts = np.asarray(self._n)
            others = np.where(np.eye(self._n_clusters, dtype=bool), np.inf, self._D)
            nearest = others.min(axis=1)
            self._PS_i = counts / counts.max() - np.exp(-nearest / self._beta_t)
            self.criterion_value = self._PS_i.sum()
"""))
refac("ps-comprehension", (M + "PS.py", PSE, """            k = self._n_clusters
            self._v_bar = sum(self._v) / k
            self._beta_t = sum(np.dot(v - self._v_bar, v - self._v_bar) for v in self._v) / k
            n_max = np.max(self._n)

            def contribution(ix):
                nearest = min(self._D[ix, jx] for jx in range(k) if jx != ix)
                return self._n[ix] / n_max - np.exp(-nearest / self._beta_t)

            self._PS_i = np.array([contribution(ix) for ix in range(k)])
            self.criterion_value = np.sum(self._PS_i)
"""))

# 15 cSIL evaluate
CSE = """            for ix in range(self._n_clusters):
                # Same cluster
                a = self._S[ix, ix]
                # Other clusters
                local_S = np.delete(self._S[:, ix], ix)
                b = np.min(local_S)
                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)
            # cSIL index value
            self.criterion_value = np.sum(self._sil_coefs) / self._n_clusters
"""
refac("csil-vector", (M + "cSIL.py", CSE, """            a = np.diag(self._S)
            others = self._S.copy()
            np.fill_diagonal(others, np.inf)
            b = others.min(axis=0)
            self._sil_coefs = (b - a) / np.maximum(a, b)
            self.criterion_value = self._sil_coefs.mean()
"""))
refac("csil-loop", (M + "cSIL.py", CSE, """            total = 0.0
            for ix in range(self._n_clusters):
                a = self._S[ix, ix]
                b = min(self._S[jx, ix] for jx in range(self._n_clusters) if jx != ix)
                coef = (b - a) / max(a, b)
                self._sil_coefs[ix] = coef
                total += coef
            self.criterion_value = total / self._n_clusters
"""))

# 16 rCIP helper function
RI = """                    d_column_new[jx] = (
                        self._constant
                        * (1 / np.sqrt(np.linalg.det(sigma_q)))
                        * np.exp(
                            -0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m
                        )
                    )
"""
RI2 = RI.replace("\n    ", "\n")[4:]
RB = RI2.replace("d_column_new[jx]", "self._D[ix, jx]")
refac("rcip-helper", (M + "rCIP.py", "# rCIP object definition\n", """def _potential(diff, sigma, constant):
    \"\"\"Gaussian cross information potential of two clusters.\"\"\"
    quadratic = diff @ np.linalg.inv(sigma) @ diff
    return constant / np.sqrt(np.linalg.det(sigma)) * np.exp(-0.5 * quadratic)


# rCIP object definition
"""), (M + "rCIP.py", RI, "                    d_column_new[jx] = _potential(diff_m, sigma_q, self._constant)\n"),
      (M + "rCIP.py", RI2, "                d_column_new[jx] = _potential(diff_m, sigma_q, self._constant)\n"),
      (M + "rCIP.py", RB, "                self._D[ix, jx] = _potential(diff_m, sigma_q, self._constant)\n"))
refac("rcip-solve", (M + "rCIP.py", "-0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m", "-0.5 * np.dot(diff_m, np.linalg.solve(sigma_q, diff_m))"))
refac("rcip-setup-helper", (M + "rCIP.py", """        epsilon = 12.0
        delta = 10.0 ** (-epsilon / self._dim)
        self._delta_term = np.eye(self._dim) * delta
""", """        self._delta_term = self._regulariser()
"""), (M + "rCIP.py", "    @_base._add_docs(_base._setup_doc)\n", """    def _regulariser(self, epsilon=12.0):
        delta = np.power(10.0, -epsilon / self._dim)
        return np.diag(np.full(self._dim, delta))

    @_base._add_docs(_base._setup_doc)
"""))
refac("rcip-cov", (M + "rCIP.py", """                self._sigma[:, :, ix] = (
                    (1 / (self._n[ix] - 1)) * (
                        np.transpose(subset) @ subset
                        - self._n[ix] * np.outer(self._v[ix, :], self._v[ix, :])
                    ) + self._delta_term
                )
""", """                centred = subset - self._v[ix]
                self._sigma[:, :, ix] = centred.T @ centred / (self._n[ix] - 1) + self._delta_term
"""), (M + "rCIP.py", """        dim = self._D.shape[0]
        if dim > 1:
            values = self._D[np.triu_indices(dim, k=1)]
            self.criterion_value = np.sum(values)

        else:
            self.criterion_value = 0.0
""", """        self.criterion_value = np.sum(np.triu(self._D, k=1)) if len(self._D) > 1 else 0.0
"""))

# 17 SEP
refac("sep-vector",
      (M + "CH.py", SEPI, """        shift = self._v - self._mu
        self._SEP = np.array(self._n) * np.sum(shift * shift, axis=1)
"""),
      (M + "WB.py", SEPI.replace(") ** 2)", ")**2)"), """        self._SEP = np.array([
            n * np.inner(v - self._mu, v - self._mu) for n, v in zip(self._n, self._v)
        ])
"""))
refac("sep-lazy",
      (M + "CH.py", SEPI, ""),
      (M + "CH.py", "            self._BGSS = sum(self._SEP)\n", """            self._SEP = np.einsum("i,ij->i", self._n, np.square(self._v - self._mu))
            self._BGSS = sum(self._SEP)
"""),
      (M + "WB.py", SEPI.replace(") ** 2)", ")**2)"), """        separation = []
        for ix in range(self._n_clusters):
            offset = self._v[ix, :] - self._mu
            separation.append(self._n[ix] * np.dot(offset, offset))
        self._SEP = np.array(separation)
"""))

# 18 combinations
refac("batch-combinations",
      *[(M + m + ".py", "# Custom imports\n", "from itertools import combinations\n\n# Custom imports\n") for m in ("DB", "XB")],
      *[(M + m + ".py", BATCHD2, """        for ix, jx in combinations(range(self._n_clusters), 2):
            delta = self._v[ix, :] - self._v[jx, :]
            self._D[ix, jx] = np.dot(delta, delta)
""") for m in ("DB", "XB")],
      (M + "PS.py", BATCHD2, """        for ix in range(self._n_clusters):
            for jx in range(ix):
                self._D[jx, ix] = np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)
"""))

# 19 symmetric batch matrix directly
refac("batch-symmetric",
      *[(M + m + ".py", BATCHD2, """        for ix in range(self._n_clusters):
            for jx in range(self._n_clusters):
                if ix < jx:
                    d = np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)
                    self._D[ix, jx] = self._D[jx, ix] = d
""") for m in ("DB", "PS")],
      *[(M + m + ".py", "        self._D = self._D + np.transpose(self._D)\n", "") for m in ("DB", "PS")])

# 20 DB evaluate
DBE = """            self._R = np.zeros((self._n_clusters, self._n_clusters))
            for ix in range(self._n_clusters - 1):
                for jx in range(ix + 1, self._n_clusters):
                    self._R[jx, ix] = (
                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]
                    )
            self._R = self._R + np.transpose(self._R)
            self.criterion_value = (
                np.sum(np.max(self._R, axis=0)) / self._n_clusters
            )
"""
refac("db-evaluate-loop", (M + "DB.py", DBE, """            k = self._n_clusters
            self._R = np.zeros((k, k))
            total = 0.0
            for ix in range(k):
                worst = 0.0
                for jx in range(k):
                    if jx != ix:
                        self._R[ix, jx] = (self._S[ix] + self._S[jx]) / self._D[ix, jx]
                        worst = max(worst, self._R[ix, jx])
                total += worst
            self.criterion_value = total / k
"""))
refac("db-evaluate-vector", (M + "DB.py", DBE, """            S = np.asarray(self._S)
            D = self._D + np.diag(np.full(self._n_clusters, np.inf))
            self._R = (S[:, np.newaxis] + S) / D
            self.criterion_value = self._R.max(axis=1).mean()
"""))

# 21 renamed attributes
refac("rename-attributes", *[(M + m + ".py", "self._n_clusters", "self._k") for m in ALL], (B, "self._n_clusters", "self._k"))
refac("n-clusters-property",
      *[(M + m + ".py", "            self._n_clusters += 1\n", "") for m in ALL],
      *[(M + m + ".py", "        self._n_clusters = u.size\n", "") for m in ALL],
      *[(M + m + ".py", "np.zeros(self._n_clusters, dtype=int)", "np.zeros(u.size, dtype=int)") for m in ("CH", "cSIL", "WB", "XB")],
      *[(M + m + ".py", "self._n = [0 for _ in range(self._n_clusters)]", "self._n = [0] * u.size") for m in ("DB", "GD43", "GD53", "PS", "rCIP")],
      (B, "        self._n_clusters = 0\n", ""),
      (B, "    @abstractmethod\n    def _param_inc", """    @property
    def _n_clusters(self):
        return len(self._n)

    @abstractmethod
    def _param_inc"""))

# 22 batch statistics in one helper of the base class
refac("base-batch-helper",
      (B, "    @abstractmethod\n    def _param_inc", """    def _cluster_statistics(self, data, labels):
        \"\"\"Counts, centroids and compactness of the clusters of a batch.\"\"\"
        data = data.astype(float)
        names = np.unique(labels)
        members = [data[np.asarray(labels) == name] for name in names]
        n = [len(rows) for rows in members]
        v = np.array([rows.mean(axis=0) for rows in members])
        cp = [((rows - c) ** 2).sum() for rows, c in zip(members, v)]
        return names.size, n, v, cp

    @abstractmethod
    def _param_inc"""),
      (M + "GD43.py", """        u = np.unique(labels)
        self._n_clusters = u.size
        self._n = [0 for _ in range(self._n_clusters)]
        self._v = np.zeros((self._n_clusters, self._dim))
        self._CP = [0.0 for _ in range(self._n_clusters)]
        self._G = np.zeros((self._n_clusters, self._dim))
        self._D = np.zeros((self._n_clusters, self._n_clusters))

        for ix in range(self._n_clusters):
""" + SUB + """            self._n[ix] = subset.shape[0]
            self._v[ix, :] = np.mean(subset, axis=0)
            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))
            self._CP[ix] = np.sum(diff_x_v ** 2)
""", """        self._n_clusters, self._n, self._v, self._CP = self._cluster_statistics(data, labels)
        self._G = np.zeros_like(self._v)
        self._D = np.zeros((self._n_clusters, self._n_clusters))
"""),
      (M + "XB.py", """        u = np.unique(labels)
        self._n_clusters = u.size
        self._n = np.zeros(self._n_clusters, dtype=int)
        self._v = np.zeros((self._n_clusters, self._dim))
        self._CP = np.zeros(self._n_clusters)
        self._D = np.zeros((self._n_clusters, self._n_clusters))

        for ix in range(self._n_clusters):
""" + SUB + """            self._n[ix] = subset.shape[0]
            self._v[ix, :] = np.mean(subset, axis=0)
            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))
            self._CP[ix] = np.sum(diff_x_v ** 2)
""", """        self._n_clusters, self._n, self._v, self._CP = self._cluster_statistics(data, labels)
        self._D = np.zeros((self._n_clusters,) * 2)
"""))

# 23 return_inverse / bincount / add.at
refac("batch-inverse",
      (M + "CH.py", """        u = np.unique(labels)
        self._n_clusters = u.size
        self._n = np.zeros(self._n_clusters, dtype=int)
        self._v = np.zeros((self._n_clusters, self._dim))
        self._CP = np.zeros(self._n_clusters)
        self._SEP = np.zeros(self._n_clusters)

        for ix in range(self._n_clusters):
""" + SUB + """            self._n[ix] = subset.shape[0]
            self._v[ix, :] = np.mean(subset, axis=0)
            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))
            self._CP[ix] = np.sum(diff_x_v ** 2)
            self._SEP[ix] = self._n[ix] * np.sum((self._v[ix, :] - self._mu) ** 2)
""", """        u, which, self._n = np.unique(labels, return_inverse=True, return_counts=True)
        self._n_clusters = len(u)
        self._v = np.zeros((self._n_clusters, self._dim))
        np.add.at(self._v, which, data)
        self._v /= self._n[:, None]
        residual = np.sum((data - self._v[which]) ** 2, axis=1)
        self._CP = np.bincount(which, weights=residual)
        self._SEP = self._n * np.sum((self._v - self._mu) ** 2, axis=1)
"""))

# 24 order of statements
refac("reorder",
      (M + "XB.py", """            self._n[i_label] = n_new
            self._v[i_label, :] = v_new
            self._CP[i_label] = CP_new
            self._G[i_label, :] = G_new
            self._D[i_label, :] = d_column_new
            self._D[:, i_label] = d_column_new
""", """            self._D[:, i_label] = d_column_new
            self._D[i_label, :] = d_column_new
            self._G[i_label, :] = G_new
            self._CP[i_label] = CP_new
            self._v[i_label, :] = v_new
            self._n[i_label] = n_new
"""),
      (M + "DB.py", "        # Get the internal label corresponding to the provided label\n        i_label = self._label_map.get_internal_label(label)\n\n        # Increment the local number of samples count\n        n_samples_new = self._n_samples + 1\n",
       "        n_samples_new = self._n_samples + 1\n        i_label = self._label_map.get_internal_label(label)\n"),
      (M + "CH.py", "        if i_label > self._n_clusters - 1:\n", "        if i_label == self._n_clusters:\n"),
      (M + "WB.py", "        if i_label > self._n_clusters - 1:\n", "        is_new = not (i_label < len(self._n))\n        if is_new:\n"),
      (M + "PS.py", "        if self._n_samples == 0:\n", "        if not self._is_setup:\n"))

# 25 while loops and comprehension
refac("while-loops",
      *[(M + m + ".py", COL2, """            d_column_new = np.zeros(self._n_clusters)
            jx = 0
            while jx < self._n_clusters:
                if jx != i_label:
                    d_column_new[jx] = np.sum((v_new - self._v[jx, :]) ** 2)
                jx += 1
""") for m in ("DB", "XB")],
      (M + "PS.py", COL2, """            d_column_new = np.array([
                0.0 if jx == i_label else np.sum((v_new - row) ** 2)
                for jx, row in enumerate(self._v)
            ])
"""))

# 26 legacy
refac("legacy-helpers",
      (V, """        for j in range(len(self.cluster_centers)):
            if j != c_i:
                self.min_v_i[c_i] = np.minimum(
                    self.min_v_i[c_i],
                    norm22(self.cluster_centers[c_i]-self.cluster_centers[j])
                )

        self.min_v = min([self.min_v, self.min_v_i[c_i]])
""", """        own = self.cluster_centers[c_i]
        for j, other in enumerate(self.cluster_centers):
            if j == c_i:
                continue
            self.min_v_i[c_i] = min(self.min_v_i[c_i], norm22(own - other))

        if self.min_v_i[c_i] < self.min_v:
            self.min_v = self.min_v_i[c_i]
"""),
      (V, "    return np.linalg.norm(x, 2) ** 2\n", "    return np.sum(np.square(x))\n"))
refac("legacy-order-check",
      (V, "class iXB:\n", """def _check_order(c_i, n_clusters):
    \"\"\"Clusters have to be numbered consecutively.\"\"\"
    if c_i > n_clusters:
        raise ValueError('Invalid Cluster Ordering')


class iXB:
"""),
      (V, """        if c_i > len(self.cluster_sizes):
            raise ValueError('Invalid Cluster Ordering')
        self.N += 1
""", """        _check_order(c_i, len(self.cluster_sizes))
        self.N += 1
"""))
refac("legacy-factory-dict", (V, """    if name == 'iDB':
        return iDB()
    elif name == 'iSIL':
        return iSIL()
    elif name == 'iGD43':
        return iGD43()
    elif name == 'iGD53':
        return iGD53()
    elif name == 'iCH':
        return iCH()
    elif name == 'iPS':
        return iPS()
    elif name == 'iXB':
        return iXB()
    else:
        raise ValueError('iCVI {} not implemented'.format(name))
""", """    for index in MODULES:
        if index.__name__ == name:
            return index()
    raise ValueError(f'iCVI {name} not implemented')
"""))
refac("legacy-factory-map", (V, """    if name == 'iDB':
        return iDB()
    elif name == 'iSIL':
        return iSIL()
    elif name == 'iGD43':
        return iGD43()
    elif name == 'iGD53':
        return iGD53()
    elif name == 'iCH':
        return iCH()
    elif name == 'iPS':
        return iPS()
    elif name == 'iXB':
        return iXB()
    else:
        raise ValueError('iCVI {} not implemented'.format(name))
""", """    constructors = {cls.__name__: cls for cls in MODULES}
    try:
        return constructors[name]()
    except KeyError:
        raise ValueError('iCVI {} not implemented'.format(name)) from None
"""))
refac("legacy-new-cluster-method",
      (V, """        if c_i == len(self.cluster_centers):
            self.cluster_centers.append(x.copy())
            self.cluster_sizes.append(1)
            self.CP.append(0)
            self.d = np.pad(
                self.d,
                [(0, 1), (0, 1)],
                mode='constant',
                constant_values=np.inf
            )
            self.D.append(-np.inf)
        elif c_i > len(self.cluster_sizes):
            raise ValueError('Invalid Cluster Ordering')
        else:
""", """        n_clusters = len(self.cluster_centers)
        if c_i > n_clusters:
            raise ValueError('Invalid Cluster Ordering')
        if c_i == n_clusters:
            self._new_cluster(x)
        else:
"""),
      (V, """class iGD43(iGD):
""", """class iGD43(iGD):
"""),
      (V, """            self.output = np.min(self.d) / np.max(self.D)

        return self.output
""", """            self.output = np.min(self.d) / np.max(self.D)

        return self.output

    def _new_cluster(self, x):
        n = len(self.cluster_centers)
        self.cluster_centers.append(np.array(x))
        self.cluster_sizes.append(1)
        self.CP.append(0)
        grown = np.full((n + 1, n + 1), np.inf)
        grown[:n, :n] = self.d
        self.d = grown
        self.D.append(-np.inf)
"""))
refac("legacy-ps",
      (V, """        b_ = ([
            norm22(self.cluster_centers[c_i] - self.cluster_centers[c_j])
            for c_j in range(len(self.cluster_centers))
            if c_j != c_i
        ])
        if b_:
            b = np.min(b_)
""", """        own = self.cluster_centers[c_i]
        b_ = [norm22(own - other) for c_j, other in enumerate(self.cluster_centers) if c_j != c_i]
        if len(b_) > 0:
            b = min(b_)
"""))
refac("comments-and-noop", *[(M + m + ".py", "        n_samples_new = self._n_samples + 1\n", "        n_samples_new = self._n_samples + 1\n        _ = None\n        pass\n") for m in ALL])

import importlib.util as _iu  # noqa: E402
import os as _os  # noqa: E402
import sys as _sys  # noqa: E402
_sys.modules["specs"] = _sys.modules[__name__]
_sp = _iu.spec_from_file_location("specs2", _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "specs2.py"))
_sp.loader.exec_module(_iu.module_from_spec(_sp))
for _n in ("specs3", "specs4"):
    _sp = _iu.spec_from_file_location(_n, _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), _n + ".py"))
    _sys.modules[_n] = _iu.module_from_spec(_sp)
    _sp.loader.exec_module(_sys.modules[_n])
