"""Fourth wave: batch computations organised differently (sorting, grouping, queues, index tables)."""
from specs import *
from specs3 import SUB, HEAD, ALL

CHB = """        for ix in range(self._n_clusters):
            subset_indices = (
                [x for x in range(len(labels)) if labels[x] == u[ix]]
            )
            subset = data[subset_indices, :]
"""

CHB2 = CHB.replace("            subset_indices = (", "            # subset_indices = lambda x: labels[x] == ix\n            subset_indices = (")

refac("batch-sorted-split", (M + "CH.py", CHB, """        order = np.argsort(labels, kind="stable")
        cuts = np.flatnonzero(np.diff(np.asarray(labels)[order])) + 1
        groups = np.split(data[order, :], cuts)
        for ix, subset in enumerate(groups):
"""))
refac("batch-dict-groups", (M + "XB.py", CHB, """        groups = {}
        for pos in range(len(labels)):
            groups.setdefault(int(labels[pos]), []).append(pos)
        for ix in range(self._n_clusters):
            subset = data[groups[int(u[ix])], :]
"""))
refac("batch-defaultdict", (M + "WB.py", "import numpy as np\n", "import numpy as np\nfrom collections import defaultdict\n"), (M + "WB.py", CHB, """        members = defaultdict(list)
        for pos, lab in enumerate(labels):
            members[lab].append(pos)
        for ix, lab in enumerate(sorted(members)):
            subset = data[members[lab], :]
"""))
refac("batch-groupby", (M + "DB.py", "import numpy as np\n", "from itertools import groupby\nimport numpy as np\n"), (M + "DB.py", CHB2, """        ranked = sorted(range(len(labels)), key=lambda x: labels[x])
        for ix, (_, members) in enumerate(groupby(ranked, key=lambda x: labels[x])):
            subset_indices = list(members)
            subset = data[subset_indices, :]
"""))
refac("batch-queue", (M + "GD43.py", CHB, """        pending = list(range(len(labels)))
        for ix in range(self._n_clusters):
            subset_indices = [x for x in pending if labels[x] == u[ix]]
            pending = [x for x in pending if labels[x] != u[ix]]
            subset = data[subset_indices, :]
"""))
refac("batch-where-inverse", (M + "GD53.py", "        u = np.unique(labels)\n", "        u, inverse = np.unique(labels, return_inverse=True)\n"), (M + "GD53.py", CHB2, """        for ix in range(self._n_clusters):
            subset = data[np.where(inverse == ix)[0], :]
"""))
refac("batch-while-all", (M + "PS.py", CHB, """        ix = -1
        while ix + 1 < self._n_clusters:
            ix += 1
            subset = data[np.asarray(labels) == u[ix]]
"""))
refac("batch-counts", (M + "CH.py", "        u = np.unique(labels)\n", "        u, counts = np.unique(labels, return_counts=True)\n"),
      (M + "CH.py", "            self._n[ix] = subset.shape[0]\n", "            self._n[ix] = counts[ix]\n"))
refac("batch-zip", (M + "CH.py", """            subset_indices = (
                [x for x in range(len(labels)) if labels[x] == u[ix]]
            )
            subset = data[subset_indices, :]
""", """            subset = np.array([row for row, lab in zip(data, labels) if lab == u[ix]])
"""))
refac("batch-mask-sum", (M + "XB.py", """            subset = data[subset_indices, :]
            self._n[ix] = subset.shape[0]
""", """            mask = np.asarray(labels) == u[ix]
            subset = data[mask, :]
            self._n[ix] = np.count_nonzero(mask)
"""))
refac("batch-set-sorted", (M + "WB.py", "        u = np.unique(labels)\n        self._n_clusters = u.size\n", "        u = sorted(set(int(x) for x in labels))\n        self._n_clusters = len(u)\n"))
refac("batch-isin", (M + "DB.py", """            subset = data[subset_indices, :]
""", """            subset = data[np.isin(labels, u[ix]), :]
"""))
