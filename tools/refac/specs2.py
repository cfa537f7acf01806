"""Second wave of behaviour-preserving edits."""
from specs import *
from specs import VNEW, CPG, MU, SUB, GROW2, COL2

PAIRS = """        for ix in range(self._n_clusters - 1):
            for jx in range(ix + 1, self._n_clusters):
                self._D[ix, jx] = (
                    np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)
                )

        self._D = self._D + np.transpose(self._D)
"""
UNI = """        u = np.unique(labels)
        self._n_clusters = u.size
"""

refac("xb-argmin", (M + "XB.py", """            values = self._D[np.triu_indices(dim, k=1)]
            self._SEP = np.min(values)
""", """            rows, cols = np.triu_indices(dim, k=1)
            values = self._D[rows, cols]
            closest = np.argmin(values)
            self._SEP = values[closest]
"""))
refac("xb-sorted", (M + "XB.py", """            values = self._D[np.triu_indices(dim, k=1)]
            self._SEP = np.min(values)
""", """            values = np.sort(self._D[np.triu_indices(dim, k=1)])
            self._SEP = values[0]
"""))
refac("xb-running-min", (M + "XB.py", """            values = self._D[np.triu_indices(dim, k=1)]
            self._SEP = np.min(values)
""", """            self._SEP = np.inf
            for ix in range(dim):
                for jx in range(ix + 1, dim):
                    if self._D[ix, jx] < self._SEP:
                        self._SEP = self._D[ix, jx]
"""))
refac("ps-second-smallest", (M + "PS.py", """                d = self._D[ix, :]
                d = np.delete(d, ix)
                self._PS_i[ix] = (
                    (self._n[ix] / n_max)
                    - np.exp(-np.min(d) / self._beta_t)
                )
""", """                nearest = min((j for j in range(self._n_clusters) if j != ix), key=lambda j: self._D[ix, j])
                self._PS_i[ix] = self._n[ix] / n_max - np.exp(-self._D[ix, nearest] / self._beta_t)
"""))
refac("ps-mask", (M + "PS.py", """                d = self._D[ix, :]
                d = np.delete(d, ix)
""", """                others = np.arange(self._n_clusters) != ix
                d = self._D[ix][others]
"""))
refac("ps-masked-matrix", (M + "PS.py", """            for ix in range(self._n_clusters):
                d = self._D[ix, :]
                d = np.delete(d, ix)
                self._PS_i[ix] = (
                    (self._n[ix] / n_max)
                    - np.exp(-np.min(d) / self._beta_t)
                )
            self.criterion_value = np.sum(self._PS_i)
""", """            nearest = (self._D + np.diag(np.full(self._n_clusters, np.inf))).min(axis=1)
            self._PS_i = np.asarray(self._n) / n_max - np.exp(-nearest / self._beta_t)
            self.criterion_value = self._PS_i.sum()
"""))
refac("csil-others", (M + "cSIL.py", """                local_S = np.delete(self._S[:, ix], ix)
                b = np.min(local_S)
""", """                b = min(self._S[jx, ix] for jx in range(self._n_clusters) if jx != ix)
"""))
refac("csil-concat", (M + "cSIL.py", """                local_S = np.delete(self._S[:, ix], ix)
                b = np.min(local_S)
""", """                column = self._S[:, ix]
                b = np.min(np.concatenate((column[:ix], column[ix + 1:])))
"""))
refac("db-ratio-max", (M + "DB.py", """            self._R = np.zeros((self._n_clusters, self._n_clusters))
            for ix in range(self._n_clusters - 1):
                for jx in range(ix + 1, self._n_clusters):
                    self._R[jx, ix] = (
                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]
                    )
            self._R = self._R + np.transpose(self._R)
            self.criterion_value = (
                np.sum(np.max(self._R, axis=0)) / self._n_clusters
            )
""", """            total = 0.0
            for ix in range(self._n_clusters):
                worst = 0.0
                for jx in range(self._n_clusters):
                    if jx == ix:
                        continue
                    ratio = (self._S[ix] + self._S[jx]) / self._D[ix, jx]
                    worst = max(worst, ratio)
                total += worst
            self.criterion_value = total / self._n_clusters
"""))
refac("batch-searchsorted", *[(M + m + ".py", SUB, """            subset = data[np.searchsorted(u, labels) == ix]
""") for m in ("CH", "DB", "XB")])
refac("batch-argwhere", *[(M + m + ".py", SUB, """            subset = data[np.flatnonzero(np.asarray(labels) == u[ix])]
""") for m in ("CH", "GD43", "WB")])
refac("batch-filter", *[(M + m + ".py", SUB, """            subset = np.array([row for row, lab in zip(data, labels) if lab == u[ix]])
""") for m in ("CH", "PS", "GD53")])
refac("batch-counts", *[(M + m + ".py", UNI, """        u, counts = np.unique(labels, return_counts=True)
        self._n_clusters = len(counts)
""") for m in ("CH", "WB", "XB")], *[(M + m + ".py", "            self._n[ix] = subset.shape[0]\n", "            self._n[ix] = counts[ix]\n") for m in ("CH", "WB", "XB")])
refac("batch-sorted-set", *[(M + m + ".py", UNI, """        u = sorted(set(np.asarray(labels).tolist()))
        self._n_clusters = len(u)
""") for m in ("CH", "DB")])
refac("batch-first-index", *[(M + m + ".py", UNI, """        u, first = np.unique(labels, return_index=True)
        self._n_clusters = first.size
""") for m in ("CH", "DB", "rCIP")])
refac("batch-add-at", (M + "PS.py", """        for ix in range(self._n_clusters):
""" + SUB + """            self._n[ix] = subset.shape[0]
            self._v[ix, :] = np.mean(subset, axis=0)
            # diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))

""", """        which = np.searchsorted(u, labels)
        np.add.at(self._v, which, data)
        for ix in which:
            self._n[ix] += 1
        self._v /= np.array(self._n)[:, None]

"""))
refac("batch-broadcast-pairs", *[(M + m + ".py", PAIRS, """        gaps = self._v[:, None, :] - self._v[None, :, :]
        self._D = np.sum(gaps ** 2, axis=2)
""") for m in ("DB", "PS")])
refac("batch-gram-pairs", *[(M + m + ".py", PAIRS, """        for ix, v_ix in enumerate(self._v):
            for jx, v_jx in enumerate(self._v[:ix]):
                gap = v_ix - v_jx
                self._D[ix, jx] = self._D[jx, ix] = gap @ gap
""") for m in ("DB", "PS")])
refac("scatter-einsum", *[(M + m + ".py", """            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))
            self._CP[ix] = np.sum(diff_x_v ** 2)
""", """            diff_x_v = subset - self._v[ix]
            self._CP[ix] = np.einsum("ij,ij->", diff_x_v, diff_x_v)
""") for m in ("CH", "DB", "GD43", "GD53", "WB", "XB")])
refac("scatter-norm", *[(M + m + ".py", """            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))
            self._CP[ix] = np.sum(diff_x_v ** 2)
""", """            self._CP[ix] = np.linalg.norm(subset - self._v[ix]) ** 2
""") for m in ("CH", "DB", "GD43", "GD53", "WB", "XB")])
refac("scatter-var", *[(M + m + ".py", """            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))
            self._CP[ix] = np.sum(diff_x_v ** 2)
""", """            self._CP[ix] = self._n[ix] * np.sum(np.var(subset, axis=0))
""") for m in ("CH", "DB")])
refac("get-cvi-split", (B, """            # Error until batch to incremental is supported
            if self._is_batch:
                raise ValueError(
                    "Switching from batch to incremental not supported"
                )

            self._param_inc(data, label)
""", """            self._stream_update(data, label)
"""), (B, """            # If we haven't done a batch update yet
            if not self._is_setup:

                # Check that there are at least two unique labels
                if not len(np.unique(label)) > 1:
                    raise ValueError(
                        "Batch CVI mode requires at least two unique labels"
                    )

                # Do a batch update
                self._param_batch(data, label)

            # Otherwise, we are already setup
            else:

                # Error until batch to incremental is supported
                raise ValueError(
                    "Switching from batch to incremental not supported"
                )
""", """            self._batch_update(data, label)
"""), (B, """        # Regardless of path, evaluate and extract the criterion value
        self._evaluate()
        criterion_value = self.criterion_value

        # Return the criterion value
        return criterion_value
""", """        self._evaluate()
        return self.criterion_value

    def _stream_update(self, sample, label):
        if self._is_batch:
            raise ValueError("Switching from batch to incremental not supported")
        self._param_inc(sample, label)

    def _batch_update(self, data, labels):
        if self._is_setup:
            raise ValueError("Switching from batch to incremental not supported")
        distinct = np.unique(labels)
        if distinct.size < 2:
            raise ValueError("Batch CVI mode requires at least two unique labels")
        self._param_batch(data, labels)
"""))
refac("get-cvi-table", (B, """        # If we got 1D data, do a quick update
        if (data.ndim == 1):
""", """        rank = np.ndim(data)
        # If we got 1D data, do a quick update
        if rank == 1:
"""), (B, "        elif (data.ndim == 2):\n", "        elif rank == 2:\n"),
      (B, "f\"Please provide 1D or 2D numpy array, recieved ndim={data.ndim}\"", "\"Please provide 1D or 2D numpy array, recieved ndim=%d\" % rank"))
refac("get-cvi-shape", (B, "        if (data.ndim == 1):\n", "        if len(data.shape) == 1:\n"), (B, "        elif (data.ndim == 2):\n", "        elif len(data.shape) == 2:\n"),
      (B, "                if not len(np.unique(label)) > 1:\n", "                if len(set(np.asarray(label).tolist())) <= 1:\n"))
EVAL = {"CH": """        if self._n_clusters > 1:
            # Within group sum of scatters
            self._WGSS = sum(self._CP)
            # Between groups sum of scatters
            self._BGSS = sum(self._SEP)
"""}
refac("first-cluster-merged", *[(M + m + ".py", """            if self._n_clusters == 0:
                D_new = np.zeros((1, 1))
            else:
                D_new = np.zeros((self._n_clusters + 1, self._n_clusters + 1))
                D_new[0:self._n_clusters, 0:self._n_clusters] = self._D
                d_column_new = np.zeros(self._n_clusters + 1)
                for jx in range(self._n_clusters):
                    d_column_new[jx] = (
                        np.sum((v_new - self._v[jx, :]) ** 2)
                    )
                D_new[i_label, :] = d_column_new
                D_new[:, i_label] = d_column_new
""", """            k = self._n_clusters
            D_new = np.zeros((k + 1, k + 1))
            if k > 0:
                D_new[:k, :k] = self._D
                distances = ((self._v - v_new) ** 2).sum(axis=1)
                D_new[k, :k] = distances
                D_new[:k, k] = distances
""") for m in ("DB", "PS", "XB")])
refac("column-in-place", *[(M + m + ".py", COL2, """            d_column_new = ((self._v - v_new) ** 2).sum(axis=1)
            d_column_new[i_label] = 0.0
""") for m in ("DB", "PS", "XB")])
refac("column-after-store", (M + "XB.py", COL2, ""), (M + "XB.py", """            self._D[i_label, :] = d_column_new
            self._D[:, i_label] = d_column_new
""", """            gaps = self._v - self._v[i_label]
            self._D[i_label] = self._D[:, i_label] = np.einsum("ij,ij->i", gaps, gaps)
"""))
refac("cp-welford", *[(M + m + ".py", CPG, """            v_old = self._v[i_label].copy()
            residual = sample - v_old
            CP_new = self._CP[i_label] + residual @ (sample - v_new)
            G_new = np.zeros(self._dim)
""") for m in ("CH", "DB", "GD43", "GD53", "PS", "WB", "XB") if m not in ("PS",)])
refac("vstack-append", *[(M + m + ".py", "            self._v = np.vstack([self._v, v_new])\n", "            self._v = np.append(self._v, v_new[None, :], axis=0)\n") for m in ("CH", "DB", "GD43", "PS")])
refac("vstack-concat", *[(M + m + ".py", "            self._v = np.vstack([self._v, v_new])\n", "            self._v = np.concatenate([self._v, np.reshape(v_new, (1, -1))])\n") for m in ("CH", "GD53", "XB", "cSIL")])
refac("new-cluster-flag", *[(M + m + ".py", "        if i_label > self._n_clusters - 1:\n", "        is_new = i_label == len(self._n)\n        if is_new:\n") for m in ALL])
refac("rcip-potential-method", (M + "rCIP.py", """                    diff_m = v_new - self._v[jx, :]
                    sigma_q = sigma_new + self._sigma[:, :, jx]
                    d_column_new[jx] = (
                        self._constant
                        * (1 / np.sqrt(np.linalg.det(sigma_q)))
                        * np.exp(
                            -0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m
                        )
                    )
""", """                    d_column_new[jx] = self._potential(v_new - self._v[jx], sigma_new + self._sigma[..., jx])
"""), (M + "rCIP.py", """                diff_m = v_new - self._v[jx, :]
                sigma_q = sigma_new + self._sigma[:, :, jx]
                d_column_new[jx] = (
                    self._constant
                    * (1 / np.sqrt(np.linalg.det(sigma_q)))
                    * np.exp(
                        -0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m
                    )
                )
""", """                d_column_new[jx] = self._potential(v_new - self._v[jx], sigma_new + self._sigma[..., jx])
"""), (M + "rCIP.py", """    @_base._add_docs(_base._param_batch_doc)
""", """    def _potential(self, gap, spread):
        sign, logdet = np.linalg.slogdet(spread)
        quad = gap.dot(np.linalg.inv(spread)).dot(gap)
        return self._constant * np.exp(-0.5 * (quad + logdet))

    @_base._add_docs(_base._param_batch_doc)
"""))
refac("rcip-sum-half", (M + "rCIP.py", """            values = self._D[np.triu_indices(dim, k=1)]
            self.criterion_value = np.sum(values)
""", """            self.criterion_value = np.triu(self._D, 1).sum()
"""))
refac("rcip-sum-loop", (M + "rCIP.py", """            values = self._D[np.triu_indices(dim, k=1)]
            self.criterion_value = np.sum(values)
""", """            self.criterion_value = sum(self._D[i, j] for i in range(dim) for j in range(i))
"""))
refac("legacy-locals", (V, """        self.min_v_i[c_i] = np.inf
        for j in range(len(self.cluster_centers)):
            if j != c_i:
                self.min_v_i[c_i] = np.minimum(
                    self.min_v_i[c_i],
                    norm22(self.cluster_centers[c_i]-self.cluster_centers[j])
                )
""", """        centre = self.cluster_centers[c_i]
        nearest = np.inf
        for j, other in enumerate(self.cluster_centers):
            if j == c_i:
                continue
            gap = centre - other
            nearest = min(nearest, gap.dot(gap))
        self.min_v_i[c_i] = nearest
"""))
refac("legacy-pad", (V, """            self.d = np.pad(
                self.d,
                [(0, 1), (0, 1)],
                mode='constant',
                constant_values=np.inf
            )
            self.D.append(-np.inf)
""", """            k = self.d.shape[0] + 1
            d = np.full((k, k), np.inf)
            d[:-1, :-1] = self.d
            self.d = d
            self.D.append(-np.inf)
"""))
refac("legacy-size-alias", (V, """        if (len(self.cluster_centers) > 1) and (self.N - len(self.cluster_centers) > 0):
            self.output = (
                (self.BGSS / (len(self.cluster_centers) - 1))
                / (self.WGSS / (self.N - len(self.cluster_centers)))
            )
        else:
            self.output = 0
        return self.output
""", """        k = len(self.cluster_sizes)
        spare = self.N - k
        if k <= 1 or spare <= 0:
            self.output = 0
            return self.output
        self.output = (self.BGSS / (k - 1)) / (self.WGSS / spare)
        return self.output
"""))
refac("legacy-norm", (V, "    return np.linalg.norm(x, 2) ** 2\n", "    return np.dot(x, x)\n"))
refac("legacy-gd-common-loop", (V, """            if self.t == 43:
                for j in range(len(self.cluster_centers)):
                    if c_i != j:
                        self.d[c_i, j] = norm22(
                            self.cluster_centers[c_i]
                            - self.cluster_centers[j]
                        )
                        self.d[j, c_i] = self.d[c_i, j]
            else:
                for j in range(len(self.cluster_centers)):
                    if c_i != j:
                        self.d[c_i, j] = (
                            (self.CP[c_i] + self.CP[j])
                            / (self.cluster_sizes[c_i] + self.cluster_sizes[j])
                        )
                        self.d[j, c_i] = self.d[c_i, j]
""", """            for j in range(len(self.cluster_centers)):
                if j == c_i:
                    continue
                if self.t == 43:
                    gap = norm22(self.cluster_centers[c_i] - self.cluster_centers[j])
                else:
                    gap = (self.CP[c_i] + self.CP[j]) / (self.cluster_sizes[c_i] + self.cluster_sizes[j])
                self.d[c_i, j] = self.d[j, c_i] = gap
"""))
refac("evaluate-returns", (B, """        self._evaluate()
        criterion_value = self.criterion_value

        # Return the criterion value
        return criterion_value
""", """        try:
            self._evaluate()
        finally:
            pass
        return self.criterion_value
"""))
refac("counter-last", *[(M + m + ".py", "        n_samples_new = self._n_samples + 1\n", "        n_samples_new = 1 + self._n_samples\n") for m in ALL],
      *[(M + m + ".py", "        self._n_samples = n_samples_new\n", "        self._n_samples += 1\n") for m in ALL])
