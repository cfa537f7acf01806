#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the nine index entries stay in step)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or ["value returned by get_cvi"], hook_needed=None)))

B = "src/cvi/modules/_base.py"
IDX = {
 "C01": ("CH", "Calinski-Harabasz",
   "(B / W) * (N - k) / (k - 1), with W = sum over clusters of the squared distances of the members to their centroid and B = sum over clusters of n_c times the squared distance of centroid c to the mean of all samples"),
 "C02": ("cSIL", "centroid silhouette",
   "the mean over clusters i of (b_i - a_i) / max(a_i, b_i), with S(j,i) = mean squared distance of the members of cluster j to the centroid of cluster i, a_i = S(i,i) and b_i = min over j != i of S(j,i) (0 when every S is 0)"),
 "C03": ("DB", "Davies-Bouldin",
   "the mean over clusters i of the largest (S_i + S_j) / |v_i - v_j|^2 over the other clusters j, with S_c = mean squared distance of the members of c to their centroid v_c"),
 "C04": ("GD43", "generalized Dunn 43",
   "the smallest Euclidean distance between two centroids divided by twice the largest per-cluster mean squared distance of members to their centroid"),
 "C05": ("GD53", "generalized Dunn 53",
   "the smallest (Q_i + Q_j) / (n_i + n_j) over pairs of clusters divided by twice the largest Q_c / n_c, with Q_c = sum of squared distances of the members of c to their centroid"),
 "C06": ("PS", "partition separation",
   "the sum over clusters i of n_i / max n - exp(-min over j != i of |v_i - v_j|^2 / beta), with beta = the mean squared distance of the centroids to their own (unweighted) mean"),
 "C07": ("rCIP", "cross information potential",
   "the sum over pairs of clusters of the Gaussian exp(-d' S^-1 d / 2) / sqrt((2 pi)^dim det S), with d the difference of the centroids and S the sum of the two regularised covariances (sample covariance, zero for a single member, plus 10^(-12/dim) on the diagonal)"),
 "C08": ("WB", "WB-index",
   "k * W / B, with W = sum over clusters of the squared distances of the members to their centroid and B = sum over clusters of n_c times the squared distance of centroid c to the mean of all samples"),
 "C09": ("XB", "Xie-Beni",
   "W / (N * the smallest squared distance between two centroids), with W = sum over clusters of the squared distances of the members to their centroid"),
}
for pid, (cls, name, formula) in IDX.items():
    prop(pid, f"{cls}: streaming and batch both return the {name} value",
      f"Whenever the samples seen so far carry at least two distinct labels, the {cls} value returned by a batch call, and by every call of a sample-by-sample stream over the same samples in any order, is {formula} (up to floating-point rounding; where a denominator of the definition is zero the value is unspecified). "
      "Batch and streaming use of the index are therefore equivalent on every prefix of every stream.",
      ["inputs", "histories"],
      "every dimension, number of clusters, sample set, assignment of labels to samples, and order of arrival, including interleaved and singleton clusters",
      "test_icvis compares the two modes only at the end of three long, label-sorted streams of 2-D data with a 10% relative tolerance, and nothing compares with the definition except CH at tolerance 1e3; a wrong cross term, a stale row or a missed singleton case passes",
      [f"src/cvi/modules/{cls}.py", B],
      [dict(name="incremental recurrences of the per-cluster statistics", where=f"{cls}._param_inc"),
       dict(name="batch statistics", where=f"{cls}._param_batch"),
       dict(name="value from statistics", where=f"{cls}._evaluate")],
      [dict(name="per-cluster counts, centroids, compactness, pairwise matrix", meaning="must equal the statistics of the samples seen so far", where=f"src/cvi/modules/{cls}.py")])

ALL = ["src/cvi/modules/%s.py" % c for c in "CH cSIL DB GD43 GD53 PS rCIP WB XB".split()]
V0 = "src/cvi/compat/v0.py"
prop("C10", "Labels are only names: renaming clusters never changes the value",
  "For every index, in batch and in streaming use, the value depends on the labels only through which samples share a label: replacing the integer labels by any other distinct integers (negative, non-contiguous, not starting at zero, in any order of first appearance) leaves every returned value unchanged. "
  "A label that reappears later in a stream always denotes the same cluster, and distinct labels never denote the same cluster.",
  ["inputs", "histories"], "every injective relabelling of every stream or batch",
  "the tests use labels 0..k-1 that first appear in increasing order, for which a label and its rank coincide",
  [B] + ALL, [dict(name="map from labels to cluster positions", where="LabelMap.get_internal_label"), dict(name="row selection per distinct label", where="*._param_batch"), dict(name="distinct-label check", where="CVI.get_cvi")])
prop("C11", "The caller's arrays are never modified and never kept",
  "No call on any index of the main package writes to the sample array or label array passed to it, and no index keeps a reference to them: after the call returns, the caller may overwrite or reuse its buffers without affecting any value the index returns later.",
  ["inputs", "histories"], "every index, both modes, every sequence of calls and of later writes by the caller to the arrays it passed",
  "the tests always pass slices of an array that nobody writes to, and never compare the arrays before and after",
  [B] + ALL, [dict(name="copying of the samples into the statistics", where="*._setup, *._param_inc, *._param_batch")])
prop("C12", "Values do not depend on the numeric type of the samples",
  "An index fed integer, unsigned, boolean or narrow integer samples returns the same value as when fed the same numbers as 64-bit floats: no statistic is computed in, truncated to, or wrapped around by the caller's integer type or an integer accumulator.",
  ["inputs", "histories"], "every index, both modes, every integer or boolean dtype and every magnitude it can hold",
  "all value tests use float64 data; the only integer array in the tests checks one covariance of two samples",
  [B] + ALL, [dict(name="floating-point statistics", where="*._param_inc, *._param_batch")])
prop("C13", "Objects are independent, and results depend only on the calls made",
  "The value returned by an index object is a function of the calls made on that object alone: other objects of the same or other classes, earlier objects, random numbers, clock, environment, files, or process-wide settings never influence it. "
  "Constructing or using an index changes no state outside that object: no module or class attribute, no NumPy or interpreter setting.",
  ["histories", "configurations"], "every interleaving of calls on any number of objects in one process, in any environment",
  "the tests use fresh objects one after the other and would not see state that leaks between objects and happens to agree",
  [B] + ALL, [dict(name="all state created per instance", where="*.__init__")])
prop("C14", "One mode per object: calls are dispatched by rank and misuse is refused",
  "A one-dimensional array is always taken as one sample of a stream, a two-dimensional array as a complete batch; any other rank raises ValueError. "
  "A batch with fewer than two distinct labels, a batch on an object that has already received data in either mode, and a single sample on an object that was given a batch all raise ValueError instead of returning a value.",
  ["inputs", "histories"], "every index, every rank, every sequence of batch and single-sample calls",
  "the tests check one call each on CH with a hand-set flag, not the sequences of real calls that lead there, nor the other indices",
  [B] + ALL, [dict(name="dispatch and validation", where="CVI.get_cvi"), dict(name="setup flag", where="CVI._setup, CVI._setup_batch")], observe=["exceptions raised by get_cvi"])
prop("C15", "A refused call leaves the object exactly as it was",
  "When a call is refused because of its rank, too few distinct labels, or a mode switch, the object is unchanged: its published criterion value stays, and every later accepted call returns what it would have returned had the refused call never been made.",
  ["histories", "fault_sequences"], "every index, every refused call at every point of every history",
  "the tests stop at the exception and never use the object afterwards",
  [B] + ALL, [dict(name="validation before any update", where="CVI.get_cvi")])
prop("C16", "Every valid history is accepted: no update raises",
  "For every index, a stream of one-dimensional samples of equal length with any integer labels, and a batch of any shape with at least two distinct labels, is processed to the end without an exception: every statistic that is read exists and covers every cluster seen so far, in both modes.",
  ["inputs", "histories"], "every dimension >= 1, every number of clusters and samples, every order of labels, singleton clusters included",
  "the tests run 2-D data with three label orders; an unset attribute or a too-short row on another path is not reached",
  [B] + ALL, [dict(name="growth of the per-cluster containers on a new label", where="*._param_inc"), dict(name="allocation per batch", where="*._param_batch")], observe=["exceptions raised by get_cvi"])
prop("C17", "The returned value is current, published, and 0 below two clusters",
  "Every accepted call returns exactly the value it publishes as the object's criterion_value, freshly evaluated from the data including that call. "
  "While a stream has produced fewer than two distinct labels, every index returns exactly 0.",
  ["histories"], "every index, every stream, every call position",
  "the tests look at the attribute only at the end of a stream, and never at the one-cluster phase",
  [B] + ALL, [dict(name="evaluate after update", where="CVI.get_cvi"), dict(name="degenerate branch", where="*._evaluate")], observe=["value returned by get_cvi", "criterion_value attribute"])
prop("C18", "Streaming memory and work do not grow with the number of samples",
  "In streaming use the storage held by an index depends only on the number of clusters and features, never on how many samples have been seen, and one update does an amount of work bounded by a function of clusters and features alone.",
  ["histories"], "every index, streams of any length",
  "the tests run at most 1999 samples and measure neither memory nor time",
  [B] + ALL, [dict(name="recurrences over fixed-size statistics", where="*._param_inc")], observe=["size of the object", "work per call"])
prop("C19", "Every implemented index is published, complete and constructible",
  "Each index listed in the documentation is exported by the package under its acronym, appears exactly once in the package's list of indices, is constructible without arguments and implements both update modes and evaluation; conversely every index class of the package is listed and exported.",
  ["programs", "configurations"], "every index class present in the source tree, every public name",
  "the tests iterate over the published list itself, so an index missing from it is silently not tested",
  ["src/cvi/__init__.py", "src/cvi/modules/__init__.py", "README.md", "docs/source/guide.rst"],
  [dict(name="export lists", where="cvi.__all__, cvi.MODULES, cvi.modules.__all__")], observe=["import of the package"])
prop("C20", "Behaviour does not depend on Python's optimisation flags",
  "The package imports and behaves identically with docstrings and assertions stripped (python -O, -OO): nothing in the main package or the legacy indices needs a docstring to be present, and no check a caller relies on is an assertion.",
  ["configurations"], "all interpreter optimisation levels",
  "the tests run at the default level only",
  [B, V0] + ALL, [dict(name="docstring decorator", where="_add_docs"), dict(name="argument validation", where="CVI.get_cvi, compat.v0")], observe=["import of the package", "exceptions raised"])
prop("C21", "The package needs only what it declares: Python 3.6+ and NumPy",
  "Importing and using any part of the package requires nothing beyond the declared dependency (NumPy) and the standard library, and its source uses no syntax, built-in or standard-library feature newer than the oldest Python version it declares to support; the version it reports is the version it declares.",
  ["configurations"], "every supported interpreter version and every environment holding just the declared dependencies",
  "the tests run in one environment with one Python version in which pandas, scikit-learn and SciPy happen to be installed",
  ["pyproject.toml", "src/cvi/__init__.py"] + ALL + [V0], [dict(name="imports", where="src/cvi/**"), dict(name="declared metadata", where="pyproject.toml")], observe=["import of the package"])
prop("C22", "Legacy factory returns the requested index and refuses unknown names",
  "The legacy constructor function returns, for each legacy index name it documents, a new object of exactly the class of that name, and raises ValueError for every other name; the legacy list of indices and the exported legacy names agree with it.",
  ["inputs", "configurations"], "every name",
  "no enabled test touches the legacy package",
  [V0, "src/cvi/compat/__init__.py"], [dict(name="name dispatch", where="iCVI"), dict(name="export lists", where="compat.__all__, v0.MODULES")], observe=["object returned by iCVI"])
prop("C23", "Legacy indices never modify or keep the caller's sample arrays",
  "No legacy index writes to the sample passed to its update method, and none keeps a reference to it: the caller may reuse its buffer for the next sample without changing any later result.",
  ["inputs", "histories"], "every legacy index, every stream, every later write by the caller",
  "no enabled test touches the legacy package",
  [V0], [dict(name="storing of the samples", where="i*.update")], observe=["caller's array after update", "later values"])
prop("C24", "Legacy indices refuse out-of-order cluster labels without side effects",
  "A legacy Xie-Beni, Calinski-Harabasz, generalized Dunn, silhouette or Davies-Bouldin index given a cluster number beyond the next unused one raises ValueError, and the object is then exactly as before the call, so the stream can continue with a valid number.",
  ["histories", "fault_sequences"], "every such legacy index, every refused number at every point of a stream",
  "no enabled test touches the legacy package",
  [V0], [dict(name="ordering check", where="i*.update")], observe=["exceptions raised by update", "later values"])
prop("C25", "Legacy indices accept every stream with clusters numbered in order",
  "Every legacy index processes any stream of equal-length samples in which new clusters are numbered consecutively, without raising: each statistic it reads for a cluster exists from the first sample of that cluster on.",
  ["histories"], "every legacy index, every in-order stream",
  "no enabled test touches the legacy package",
  [V0], [dict(name="growth of the per-cluster lists on a new cluster", where="i*.update")], observe=["exceptions raised by update"])
prop("C26", "Rounding drift of a stream stays within a fixed bound of the batch value",
  "After any number of single-sample updates the floating-point value of an index differs from the floating-point batch value by a relative error bounded independently of the length of the stream.",
  ["histories", "inputs"], "every stream, length and magnitude of data",
  "three streams of 1999 samples at 10% tolerance", ALL, [dict(name="recurrences", where="*._param_inc")])
prop("C27", "Values stay finite on every non-degenerate partition",
  "Whenever the denominators of an index's definition are non-zero, the returned value is finite and not NaN, for data of any magnitude representable in floating point.",
  ["inputs"], "every data magnitude and conditioning",
  "the tests use one well-scaled data set", ALL, [dict(name="evaluation", where="*._evaluate")])
prop("C28", "Legacy indices keep exact cluster sizes and means",
  "After any in-order stream of floating-point samples, the statistics a legacy index publishes are those of the data: for the Xie-Beni, partition separation, Calinski-Harabasz, generalized Dunn and Davies-Bouldin indices cluster_sizes holds the number of samples and cluster_centers the mean of the samples of each cluster, in cluster order; "
  "N is the number of samples (Xie-Beni, Calinski-Harabasz, Davies-Bouldin, silhouette), data_center the mean of all samples (Calinski-Harabasz), max_cluster_size the size of the largest cluster (partition separation).",
  ["histories", "inputs"], "every such legacy index, every in-order stream of samples of any dimension",
  "no enabled test touches the legacy package",
  [V0], [dict(name="incremental mean", where="CP_update, cluster_center_update"), dict(name="per-cluster lists", where="i*.update")], observe=["public attributes of the legacy objects"])
prop("C29", "Legacy objects are independent and return what they publish",
  "The value returned by a legacy index is the one it publishes as its output attribute, and a function of the calls made on that object alone: no other object, earlier object, random number, clock, environment or process-wide setting influences it, and constructing or updating a legacy index changes no state outside the object.",
  ["histories", "configurations"], "every legacy index, every interleaving of calls on any number of objects in one process",
  "no enabled test touches the legacy package",
  [V0], [dict(name="all state created per instance", where="i*.__init__"), dict(name="publication of the output", where="i*.update")], observe=["value returned by update", "output attribute"])
prop("C30", "Index objects can be copied and pickled at any point",
  "At any point of its life an index object, modern or legacy, can be deep-copied and pickled; the copy goes on exactly as the original would have, and from then on neither influences the other.",
  ["histories"], "every index, every point of every history, every continuation of the copy and of the original",
  "no test copies or pickles an index",
  [B, V0] + ALL, [dict(name="state of plain data only", where="*.__init__, *._param_inc, *._param_batch, i*.update")], observe=["values returned by the copy and by the original"])
prop("C31", "Every accepted call returns one plain number",
  "Whatever the mode, the phase of the stream, the number of features and the number of clusters, an accepted call of a modern or legacy index returns a single scalar number, never None, a boolean, a sequence or an array with axes.",
  ["inputs", "histories"], "every index, every accepted call, one-dimensional features and single-sample clusters included",
  "the tests compare values with a tolerance, which a one-element array passes, and only for two features",
  [B, V0] + ALL, [dict(name="evaluation", where="*._evaluate, i*.update")], observe=["type and shape of the returned value"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
