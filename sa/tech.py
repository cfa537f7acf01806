"""What decides each property (used in the evidence and in MANIFEST.json)."""
VALUE = ("Abstract interpretation of __init__, get_cvi, _setup, _param_inc, _param_batch and _evaluate with symbolic data, labels and sizes extracts the value "
         "as a term for the first sample, a known and a new label from a generic state with k clusters, and a whole batch; the update terms are composed "
         "along arrival orders and every composed term is compared with the definition (identity testing of the terms at points in exact/50-digit arithmetic)")
TECH = {}
for i in range(1, 10):
    TECH["C%02d" % i] = VALUE
TECH.update({
    "C10": "information-flow analysis of the extracted value terms (labels may occur only under ==) and invariance of the composed terms under injective renamings of the labels",
    "C11": "escape and effect analysis: stores that reach a caller array, and heap reachability from self to caller arrays or views of them, on every abstract path of every entry",
    "C12": "numeric-type analysis: every operation is typed, arithmetic in the caller's integer type is kept as an explicit wrap/truncate node of the value term, and terms with such nodes are compared with the float terms",
    "C13": "effect analysis: writes to module, class or import-time objects, external settings and environment reads on any path of any entry; sharing between two fresh objects",
    "C14": "typestate analysis of the call protocol: for every (state, rank) pair that must be refused, every abstract path of the call ends in ValueError; valid pairs complete",
    "C15": "heap-difference analysis at every refusing raise (object graph before = object graph at the raise); where it differs, the terms of later calls are compared with the history without the refused call",
    "C16": "exception-path analysis: index, key, attribute, broadcast, arity and division obligations of every operation, discharged in the linear context or shown unreachable by the composed state; remaining raise conditions evaluated along arrival orders",
    "C17": "term equality of returned and published value on every path, constant 0 for one cluster, freshness of the value term",
    "C18": "symbolic size analysis: extents of every stored array/list/dict and of every iteration domain may depend on clusters and features, not on the sample count",
    "C19": "resolved-name analysis of the package surface against the documented list, plus abstract construction and both updates of each class",
    "C20": "differential abstract interpretation of the source as compiled with and without assert statements and docstrings; feasibility of every AssertionError path",
    "C21": "syntax-tree rules: import closure against the declared dependencies, grammar and library features against the oldest declared Python, version constants",
    "C22": "abstract evaluation of the factory for every documented name, every other string constant and near miss; resolved-name comparison of the legacy lists",
    "C23": "escape and effect analysis of the legacy update methods from fresh and generic states",
    "C24": "exception-path and heap-difference analysis of the legacy update methods for every cluster number beyond the next one",
    "C25": "exception-path analysis of the legacy update methods from fresh and generic states and along in-order label sequences",
    "C28": "abstract interpretation of the legacy update methods to terms of the published attributes, composed along arrival orders and compared with counts and means",
    "C29": "effect analysis of the legacy update methods; term equality of returned value and published output",
    "C30": "heap-reachability analysis of the kinds of objects an index holds; abstract interpretation of any copy-protocol hook and comparison of the terms of later calls",
    "C31": "kind analysis of the returned value on every path, path conditions evaluated along arrival orders",
})
SHORT = dict({"C%02d" % i: "abstract interpretation to value terms + term identity testing against the definition" for i in range(1, 10)},
             C10="label-flow analysis on value terms", C11="escape and effect analysis", C12="numeric-type dataflow analysis", C13="effect analysis", C14="typestate analysis",
             C15="heap-difference analysis at raises", C16="exception-path analysis", C17="term equality and freshness analysis", C18="symbolic size analysis",
             C19="resolved-name analysis of exports", C20="differential abstract interpretation under -O/-OO", C21="syntax-tree and import rules", C22="abstract evaluation of the factory",
             C23="escape and effect analysis", C24="exception-path and heap-difference analysis", C25="exception-path analysis",
             C28="abstract interpretation to attribute terms + term identity testing", C29="effect analysis and term equality", C30="heap-reachability analysis of object kinds", C31="kind analysis of returned values")
NOTE_VALUE = ("The extracted terms describe the code for all data, labels and sizes; equality with the definition is decided by identity testing at sampled points and arrival orders "
              "(lengths 3-30, 1-7 clusters, 1-4 features, degenerate and extreme data), so a difference confined to points no history reaches would be missed; a reported difference is real up to the NumPy models. "
              "Real arithmetic: rounding is not modelled.")
NOTE_STRUCT = ("Decided on every abstract path of the analysed entry (symbolic data and sizes). Trusts the models of the NumPy functions used; code the interpreter cannot model is reported "
               "UNDECIDED in the evidence, never as held and never as a violation.")
NOTE = {}
for i in list(range(1, 26)) + [28, 29, 30, 31]:
    p = "C%02d" % i
    NOTE[p] = NOTE_VALUE if i < 10 or i in (10, 12, 17, 28) else NOTE_STRUCT
NOTE["C21"] = "Purely syntactic and name-resolved; the table of features newer than the oldest supported Python covers the grammar, built-ins and the standard-library APIs a numerical package would use, not the whole library."
NOTE["C22"] = "The factory is evaluated for every documented name and for every other string constant of the legacy package, near misses of the names and non-strings; a name computed in a way none of these candidates meets would be missed."
NOTE["C25"] = NOTE["C25"] + " Streams up to 6 samples (9 in the thorough tier) in addition to the generic states."
