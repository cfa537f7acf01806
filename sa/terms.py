"""Hash-consed terms and conditions: the value domain of the static analysis.

A term denotes a scalar as a function of the (arbitrary) inputs; all sizes are symbolic, so one term
stands for every number of clusters, features and samples.  Arrays are represented elsewhere as
functions from index terms to terms.  Nothing here ever runs the analysed program.
"""
from fractions import Fraction
import itertools


class Node:
    __slots__ = ("op", "args", "_id", "_free", "_int", "__weakref__")
    _tab = {}
    _n = itertools.count()

    def __new__(cls, op, args):
        key = (op, args)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.op = op
            o.args = args
            o._id = next(cls._n)
            o._free = None
            o._int = None
            cls._tab[key] = o
        return o

    def __hash__(self):
        return self._id

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self._id < other._id


def N_(op, *args):
    return Node(op, args)


# ---------------------------------------------------------------- constants and symbols
def num(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return N_("num", Fraction(int(x)))
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else NINF
        return N_("num", Fraction(repr(x)) if "e" not in repr(x) and "E" not in repr(x) else Fraction(repr(x)))
    return N_("num", Fraction(x))


ZERO = num(0)
ONE = num(1)
TWO = num(2)
INF = N_("inf")
NINF = N_("ninf")
NAN = N_("nan")
PI = N_("sym", "pi", "real")
TRUE = N_("true")
FALSE = N_("false")


def sym(name, sort="real"):
    return N_("sym", name, sort)


_fresh = itertools.count()


def fresh(prefix="i", sort="int"):
    return N_("sym", "%s#%d" % (prefix, next(_fresh)), sort)


#: element families: name -> sort
FAMILY_SORT = {"n": "int", "lab": "int", "lab2": "int", "u": "int", "cls": "int"}


_tabs = {}


def table(xs):
    """name of the family whose elements are the integers xs"""
    name = "tab:" + ",".join(str(int(x)) for x in xs)
    if name not in _tabs:
        _tabs[name] = tuple(int(x) for x in xs)
        FAMILY_SORT[name] = "int"
    return name


def el(base, *idx):
    if base in _tabs:
        i = num(idx[0])
        if i.op == "num" and i.args[0].denominator == 1 and 0 <= i.args[0] < len(_tabs[base]):
            return num(_tabs[base][int(i.args[0])])
        if i.op == "ite":
            return ite(i.args[0], el(base, i.args[1]), el(base, i.args[2]))
        return N_("el", base, i)
    return N_("el", base, *[num(i) for i in idx])


_tops = [0]


def top(reason):
    """an unknown; two unknowns are never known to be equal"""
    _tops[0] += 1
    return N_("top", reason, _tops[0])


# ---------------------------------------------------------------- arithmetic constructors
def isnum(t):
    return t.op == "num"


def add(*ts):
    out = []
    c = Fraction(0)
    for t in ts:
        t = num(t)
        if t.op == "add":
            sub = t.args
        else:
            sub = (t,)
        for s in sub:
            if s.op == "num":
                c += s.args[0]
            elif s.op == "top":
                return s
            else:
                out.append(s)
    if any(s in (INF, NINF, NAN) for s in out):
        kinds = {s for s in out if s in (INF, NINF, NAN)}
        if len(kinds) == 1:
            return kinds.pop()
        return NAN
    if c != 0 or not out:
        out.append(num(c))
    # cheap cancellation x + (-1)*x
    coef = {}
    order = []
    for s in out:
        k, b = Fraction(1), s
        if s.op == "num":
            k, b = s.args[0], ONE
        elif s.op == "mul" and s.args[0].op == "num":
            k = s.args[0].args[0]
            rest = s.args[1:]
            b = rest[0] if len(rest) == 1 else N_("mul", *rest)
        if b not in coef:
            coef[b] = Fraction(0)
            order.append(b)
        coef[b] += k
    res = []
    cst = Fraction(0)
    for b in order:
        k = coef[b]
        if b is ONE:
            cst += k
        elif k != 0:
            res.append(b if k == 1 else mul(num(k), b))
    if not res:
        return num(cst)
    res.sort(key=lambda t: t._id)
    if cst != 0:
        res.append(num(cst))
    return res[0] if len(res) == 1 else N_("add", *res)


def mul(*ts):
    out = []
    c = Fraction(1)
    for t in ts:
        t = num(t)
        sub = t.args if t.op == "mul" else (t,)
        for s in sub:
            if s.op == "num":
                c *= s.args[0]
            elif s.op == "top":
                return s
            else:
                out.append(s)
    if c == 0:
        if any(s in (INF, NINF, NAN) for s in out):
            return NAN
        return ZERO
    if any(s in (INF, NINF, NAN) for s in out):
        if len(out) == 1:
            s = out[0]
            if s is NAN:
                return NAN
            return s if c > 0 else (NINF if s is INF else INF)
        return N_("mul", num(c), *out)
    out.sort(key=lambda t: t._id)
    if c != 1 or not out:
        out.insert(0, num(c))
    return out[0] if len(out) == 1 else N_("mul", *out)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(num(b)))


def div(a, b):
    a, b = num(a), num(b)
    if a.op == "top":
        return a
    if b.op == "top":
        return b
    if isnum(b) and b.args[0] != 0:
        return mul(num(1 / b.args[0]), a)
    if b is ONE:
        return a
    if b in (INF, NINF) and a not in (INF, NINF, NAN):
        return ZERO
    return N_("div", a, b)


def power(a, b):
    a, b = num(a), num(b)
    if a.op == "top":
        return a
    if b.op == "top":
        return b
    if isnum(b):
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if isnum(a) and e.denominator == 1 and (a.args[0] != 0 or e > 0) and abs(e) <= 64:
            return num(a.args[0] ** int(e))
        if e == Fraction(1, 2):
            return fn("sqrt", a)
    return N_("pow", a, b)


INTFN = ("mod", "bitand", "bitor", "bitxor", "shl", "shr", "wrapi")


def int_fn(name, xs):
    """integer functions at integers; None where undefined"""
    a, b = xs[0], xs[1]
    if name == "mod":
        return a % b if b else None
    if name == "bitand":
        return a & b
    if name == "bitor":
        return a | b
    if name == "bitxor":
        return a ^ b
    if name == "shl":
        return a << b if 0 <= b <= 4096 else None
    if name == "shr":
        return a >> b if b >= 0 else None
    if name == "wrapi":
        x = a & ((1 << b) - 1)
        return x - (1 << b) if xs[2] and x >> (b - 1) else x


def f32_exact(x, code="f"):
    import struct
    try:
        return Fraction(struct.unpack(code, struct.pack(code, float(x)))[0]) == x
    except OverflowError:
        return False


def fn(name, *args):
    args = tuple(num(a) for a in args)
    for a in args:
        if a.op == "top":
            return a
    if name == "sqrt" and isnum(args[0]) and args[0].args[0] in (0, 1):
        return args[0]
    if name == "f64" and isnum(args[0]):
        x = args[0].args[0]
        return args[0] if x.denominator != 1 or abs(x) <= 2 ** 53 else num(int(float(x)))
    if name == "exp" and args[0] is ZERO:
        return ONE
    if name in INTFN and all(isnum(a) and a.args[0].denominator == 1 for a in args):
        r = int_fn(name, [int(a.args[0]) for a in args])
        if r is not None:
            return num(r)
    if name == "wrapi" and args[0].op == "fn" and args[0].args[0] == "wrapi" and args[0].args[2:] == args[1:]:
        return args[0]
    if name in ("f32", "f16", "f32c", "f16c") and (args[0].op == "fn" and args[0].args[0] == name or isnum(args[0]) and f32_exact(args[0].args[0], "f" if name[:3] == "f32" else "e")):
        return args[0]
    if name == "abs" and isnum(args[0]):
        return num(abs(args[0].args[0]))
    if name in ("max2", "min2"):
        flat = []
        for a in args:
            flat.extend(a.args[1:] if a.op == "fn" and a.args[0] == name else (a,))
        lo, hi = (NINF, INF) if name == "max2" else (INF, NINF)
        if hi in flat:
            return hi
        flat = sorted({a for a in flat if a is not lo}, key=lambda t: t._id)
        nums = [a for a in flat if isnum(a)]
        if len(nums) > 1:
            best = (max if name == "max2" else min)(nums, key=lambda t: t.args[0])
            flat = [a for a in flat if not isnum(a) or a is best]
        if not flat:
            return lo
        if len(flat) == 1:
            return flat[0]
        return N_("fn", name, *flat)
    return N_("fn", name, *args)


def red(kind, vars, his, cond, body):
    """Reduction over 0 <= var < hi (several variables), restricted to cond."""
    body = num(body)
    if body.op == "top":
        return body
    if cond is FALSE or any(h is ZERO for h in his):
        return {"sum": ZERO, "max": NINF, "min": INF, "prod": ONE}[kind]
    if kind == "sum" and body is ZERO:
        return ZERO
    return N_("red", kind, tuple(vars), tuple(num(h) for h in his), cond, body)


def ite(c, a, b):
    a, b = num(a), num(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "eq" and (c.args[0] is a and c.args[1] is b or c.args[0] is b and c.args[1] is a):
        return b
    return N_("ite", c, a, b)


#: families whose entries are pairwise distinct, and symbols distinct from all of them
DISTINCT = {"labkey", "u"}
FRESHKEYS = {"newlab"}


# ---------------------------------------------------------------- conditions
def is_int(t):
    r = t._int
    if r is None:
        op = t.op
        if op == "num":
            r = t.args[0].denominator == 1
        elif op == "sym":
            r = t.args[1] == "int"
        elif op == "el":
            r = FAMILY_SORT.get(t.args[0]) == "int"
        elif op in ("add", "mul"):
            r = all(is_int(a) for a in t.args)
        elif op == "pow":
            r = is_int(t.args[0]) and isnum(t.args[1]) and t.args[1].args[0] >= 0 and t.args[1].args[0].denominator == 1
        elif op == "ite":
            r = is_int(t.args[1]) and is_int(t.args[2])
        elif op == "red":
            r = is_int(t.args[4])
        elif op == "fn":
            r = t.args[0] in ("floor", "ceil", "round0") or (t.args[0] in ("max2", "min2", "mod", "abs", "bitand", "bitor", "bitxor", "shl", "shr", "wrapi") and all(is_int(a) for a in t.args[1:]))
        else:
            r = False
        t._int = r
    return r


def lt(a, b):
    a, b = num(a), num(b)
    d = sub(a, b)
    if isnum(d):
        return TRUE if d.args[0] < 0 else FALSE
    if a is NINF and b is not NINF or b is INF and a is not INF:
        return TRUE
    if a is INF or b is NINF:
        return FALSE
    return N_("lt", a, b)


def le(a, b):
    a, b = num(a), num(b)
    d = sub(a, b)
    if isnum(d):
        return TRUE if d.args[0] <= 0 else FALSE
    if a is NINF or b is INF:
        return TRUE
    return N_("le", a, b)


def eq(a, b):
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    d = sub(a, b)
    if isnum(d):
        return TRUE if d.args[0] == 0 else FALSE
    if a.op == "el" and b.op == "el" and a.args[0] == b.args[0] and a.args[0] in DISTINCT and len(a.args) == 2:
        return eq(a.args[1], b.args[1])
    for x, y in ((a, b), (b, a)):
        if x.op == "el" and x.args[0] in DISTINCT and y.op == "sym" and y.args[0] in FRESHKEYS:
            return FALSE
    if b._id < a._id:
        a, b = b, a
    return N_("eq", a, b)


def ne(a, b):
    return not_(eq(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return or_(*[not_(x) for x in c.args])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args])
    if c.op == "lt":
        return le(c.args[1], c.args[0])
    if c.op == "le":
        return lt(c.args[1], c.args[0])
    return N_("not", c)


def and_(*cs):
    out = []
    for c in cs:
        for x in (c.args if c.op == "and" else (c,)):
            if x is FALSE:
                return FALSE
            if x is not TRUE and x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    out.sort(key=lambda t: t._id)
    return out[0] if len(out) == 1 else N_("and", *out)


def or_(*cs):
    out = []
    for c in cs:
        for x in (c.args if c.op == "or" else (c,)):
            if x is TRUE:
                return TRUE
            if x is not FALSE and x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    out.sort(key=lambda t: t._id)
    return out[0] if len(out) == 1 else N_("or", *out)


def batom(name):
    return N_("batom", name)


_SI, _FL = ("i1", "i2", "i4", "i8"), ("f4", "f8")
# which types of caller samples satisfy np.issubdtype(dtype, name), dtype == name or dtype.kind == name
CDT_SETS = {"integer": _SI + ("u1",), "signedinteger": _SI, "unsignedinteger": ("u1",), "floating": _FL, "inexact": _FL, "number": _SI + _FL + ("u1",),
            "generic": _SI + _FL + ("u1", "b1"), "float64": ("f8",), "float": ("f8",), "double": ("f8",), "float32": ("f4",), "single": ("f4",),
            "int64": ("i8",), "int": ("i8",), "int_": ("i8",), "int32": ("i4",), "int16": ("i2",), "int8": ("i1",), "uint8": ("u1",), "bool_": ("b1",), "bool": ("b1",),
            "complexfloating": (), "object_": (), "float16": (), "uint16": (), "uint32": (), "uint64": (),
            "kind f": _FL, "kind i": _SI, "kind u": ("u1",), "kind b": ("b1",)}
CONDOPS = {"true", "false", "lt", "le", "eq", "not", "and", "or", "batom", "quant", "truth", "isnan"}


def is_cond(t):
    return t.op in CONDOPS


def as_cond(t):
    """A numeric term used as a condition."""
    if is_cond(t):
        return t
    if t.op == "top":
        return N_("truth", t)
    if t.op == "ite" and isnum(t.args[1]) and isnum(t.args[2]):
        return or_(and_(t.args[0], TRUE if t.args[1].args[0] else FALSE), and_(not_(t.args[0]), TRUE if t.args[2].args[0] else FALSE))
    return ne(t, ZERO)


def from_cond(c):
    """A condition used as the number 0 or 1."""
    return ite(c, ONE, ZERO) if is_cond(c) else c


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op in ("num", "sym", "inf", "ninf", "nan", "true", "false", "batom", "top"):
        return ()
    if op == "el":
        return t.args[1:]
    if op == "fn":
        return t.args[1:]
    if op == "red":
        return t.args[2] + (t.args[3], t.args[4])
    if op == "quant":  # kind, vars, his, cond
        return t.args[2] + (t.args[3],)
    if op == "mat":  # kind, n, i, j, body, extra...
        return (t.args[1], t.args[4]) + t.args[5:]
    return t.args


def free(t):
    """Free symbols (frozenset of sym nodes)."""
    r = t._free
    if r is None:
        op = t.op
        if op == "sym":
            r = frozenset((t,))
        elif op == "red":
            inner = free(t.args[3]) | free(t.args[4])
            r = (inner - frozenset(t.args[1]))
            for h in t.args[2]:
                r = r | free(h)
            # ranges of later variables may mention earlier ones
            r = r - frozenset(t.args[1])
        elif op == "quant":
            r = free(t.args[3])
            for h in t.args[2]:
                r = r | free(h)
            r = r - frozenset(t.args[1])
        elif op == "mat":
            r = (free(t.args[4]) - frozenset((t.args[2], t.args[3]))) | free(t.args[1])
            for e in t.args[5:]:
                r = r | free(e)
        else:
            r = frozenset()
            for c in children(t):
                r = r | free(c)
        t._free = r
    return r


def rebuild(t, f):
    """Apply f to the children and rebuild with the simplifying constructors (bound variables untouched)."""
    op = t.op
    if op in ("num", "sym", "inf", "ninf", "nan", "true", "false", "batom", "top"):
        return t
    if op == "el":
        return el(t.args[0], *[f(a) for a in t.args[1:]])
    if op == "add":
        return add(*[f(a) for a in t.args])
    if op == "mul":
        return mul(*[f(a) for a in t.args])
    if op == "div":
        return div(f(t.args[0]), f(t.args[1]))
    if op == "pow":
        return power(f(t.args[0]), f(t.args[1]))
    if op == "fn":
        return fn(t.args[0], *[f(a) for a in t.args[1:]])
    if op == "ite":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == "red":
        return red(t.args[0], t.args[1], [f(h) for h in t.args[2]], f(t.args[3]), f(t.args[4]))
    if op == "quant":
        return quant(t.args[0], t.args[1], [f(h) for h in t.args[2]], f(t.args[3]))
    if op == "mat":
        return N_("mat", t.args[0], f(t.args[1]), t.args[2], t.args[3], f(t.args[4]), *[f(e) for e in t.args[5:]])
    if op == "lt":
        return lt(f(t.args[0]), f(t.args[1]))
    if op == "le":
        return le(f(t.args[0]), f(t.args[1]))
    if op == "eq":
        return eq(f(t.args[0]), f(t.args[1]))
    if op == "not":
        return not_(f(t.args[0]))
    if op == "and":
        return and_(*[f(a) for a in t.args])
    if op == "or":
        return or_(*[f(a) for a in t.args])
    if op in ("truth", "isnan"):
        return N_(op, *[f(a) for a in t.args])
    raise AssertionError(op)


def quant(kind, vars, his, cond):
    """kind 'any' or 'all' over 0 <= var < hi."""
    if cond is TRUE and kind == "all":
        return TRUE
    if cond is FALSE and kind == "any":
        return FALSE
    return N_("quant", kind, tuple(vars), tuple(his), cond)


def bound_vars(t):
    if t.op in ("red", "quant"):
        return t.args[1]
    if t.op == "mat":
        return (t.args[2], t.args[3])
    return ()


def subst(t, m, memo=None):
    """Substitute symbols by terms; bound variables are globally unique so no capture can occur,
    except when a substituted term mentions a binder of t, which we rename away."""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    fv = frozenset().union(*[free(v) for v in m.values()]) if m else frozenset()

    def go(t):
        if not (free(t) & keys):
            return t
        if t.op == "sym":
            return m.get(t, t)
        r = memo.get(t)
        if r is not None:
            return r
        bv = bound_vars(t)
        if bv and any(b in fv or b in keys for b in bv):
            ren = {b: fresh("r", b.args[1]) for b in bv}
            t2 = rename_binders(t, ren)
            r = go(t2)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


def rename_binders(t, ren):
    def s(x):
        return subst(x, ren)
    if t.op == "red":
        return N_("red", t.args[0], tuple(ren.get(b, b) for b in t.args[1]), tuple(s(h) for h in t.args[2]), s(t.args[3]), s(t.args[4]))
    if t.op == "quant":
        return N_("quant", t.args[0], tuple(ren.get(b, b) for b in t.args[1]), tuple(s(h) for h in t.args[2]), s(t.args[3]))
    if t.op == "mat":
        return N_("mat", t.args[0], t.args[1], ren.get(t.args[2], t.args[2]), ren.get(t.args[3], t.args[3]), s(t.args[4]), *t.args[5:])
    raise AssertionError


_ALPHA = {}


def alpha(t):
    """the term with its bound variables renamed by nesting level: equal for terms that differ in those names only"""
    r = _ALPHA.get(t)
    if r is None:
        def go(t, depth, memo):
            x = memo.get(t)
            if x is not None:
                return x
            bv = bound_vars(t)
            if bv:
                ren = {b: sym("#%d" % (depth + i), b.args[1] if len(b.args) > 1 else "int") for i, b in enumerate(bv)}
                t2 = rename_binders(t, ren)
                x = _walk(t2, lambda c: go(c, depth + len(bv), {}))
            else:
                x = rebuild(t, lambda c: go(c, depth, memo))
            memo[t] = x
            return x
        r = _ALPHA[t] = go(t, 0, {}) if size(t) < 400 else t
    return r


def _walk(t, f):
    """f applied below one binder, leaving its variables"""
    if t.op == "red":
        return N_("red", t.args[0], t.args[1], tuple(f(h) for h in t.args[2]), f(t.args[3]), f(t.args[4]))
    if t.op == "quant":
        return N_("quant", t.args[0], t.args[1], tuple(f(h) for h in t.args[2]), f(t.args[3]))
    return t


def map_els(t, f, memo=None):
    """Replace element atoms: f(base, idx tuple) -> term or None to keep."""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "el":
            idx = tuple(go(a) for a in t.args[1:])
            r = f(t.args[0], idx)
            if r is None:
                r = el(t.args[0], *idx)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


def atoms(t, acc=None, seen=None):
    """All element families and free symbol names occurring in t."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "el":
            acc.add(t.args[0])
        elif t.op == "sym":
            acc.add(t.args[0])
        elif t.op == "batom":
            acc.add(t.args[0])
        stack.extend(children(t))
    return acc


def find(t, pred, limit=None):
    seen, out, stack = set(), [], [t]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if pred(t):
            out.append(t)
            if limit and len(out) >= limit:
                break
        stack.extend(children(t))
    return out


def tops(t):
    return [x.args[0] for x in find(t, lambda x: x.op == "top")]


def size(t):
    seen, stack = set(), [t]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        stack.extend(children(t))
    return len(seen)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0:
        return "..."
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if op == "num":
        return str(a[0])
    if op == "sym":
        return a[0]
    if op in ("inf", "ninf", "nan", "true", "false"):
        return op
    if op == "el":
        return "%s[%s]" % (a[0], ",".join(s(x) for x in a[1:]))
    if op == "add":
        return "(" + " + ".join(s(x) for x in a) + ")"
    if op == "mul":
        return "*".join(s(x) for x in a)
    if op == "div":
        return "(%s / %s)" % (s(a[0]), s(a[1]))
    if op == "pow":
        return "%s**%s" % (s(a[0]), s(a[1]))
    if op == "fn":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "red":
        dom = ", ".join("%s<%s" % (s(v), s(h)) for v, h in zip(a[1], a[2]))
        c = "" if a[3] is TRUE else " | " + s(a[3])
        return "%s{%s%s}(%s)" % (a[0].upper(), dom, c, s(a[4]))
    if op == "quant":
        return "%s{%s}(%s)" % (a[0], ", ".join("%s<%s" % (s(v), s(h)) for v, h in zip(a[1], a[2])), s(a[3]))
    if op == "mat":
        return "%s[%s,%s](%s)%s" % (a[0], s(a[2]), s(a[3]), s(a[4]), "".join("[" + s(x) + "]" for x in a[5:]))
    if op == "ite":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "top":
        return "TOP<%s>" % (a[0],)
    if op in ("lt", "le", "eq"):
        return "%s %s %s" % (s(a[0]), {"lt": "<", "le": "<=", "eq": "=="}[op], s(a[1]))
    if op == "not":
        return "!(%s)" % s(a[0])
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(s(x) for x in a) + ")"
    if op == "batom":
        return a[0]
    return "%s(%s)" % (op, ", ".join(s(x) for x in a if isinstance(x, Node)))
