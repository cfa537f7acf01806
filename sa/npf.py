"""Models of built-in, standard-library and NumPy functions (attached to npm.NP as methods f_<path>)."""
import itertools as _it
from .terms import *
from .terms import N_
from .vals import *
from . import npt
from . import interp as ip
from .interp import Raised

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def attach(NP):
    def dispatch(name, f):
        def g(self, args, kw, node):
            try:
                return f(self, args, kw, node)
            except Split as e:
                v, c = e.args
                sub = lambda x, b: b if x is v else x
                return self.gated_apply(Gated(c, Num(TRUE, "bool"), Num(FALSE, "bool")),
                                        lambda b: g(self, [sub(x, b) for x in args], {k: sub(x, b) for k, x in kw.items()}, node), node)
        g.__name__ = name
        return g
    for n, f in MODELS.items():
        setattr(NP, "f_" + n.replace(".", "__"), dispatch(n, f))
    NP.arr_meth = arr_meth
    NP.dtype_arg = dtype_arg
    NP.shape_arg = shape_arg


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


class Split(Exception):
    """the call depends on a flag whose value is not known: both values are analysed"""


def flag(self, v, node, default=False):
    if v is None:
        return default
    t = self.I.truth(v, node)
    d = self.I.decide(t)
    if d is None and t.op != "top":
        raise Split(v, t)
    return d


# ================================================================ dtype and shape arguments
FLOATS = {"float", "float64", "double", "f8", "d", "float_", "longdouble", "float128", "<f8"}
F32 = {"float32", "single", "f4", "<f4", "f"}
F16 = {"float16", "half", "f2", "e", "<f2"}
INTS = {"int", "int64", "int_", "i8", "intp", "l", "longlong", "uint64", "uint", "<i8", "q"}
SMALL = {"int8": "s8", "i1": "s8", "byte": "s8", "b": "s8", "uint8": "u8", "u1": "u8", "ubyte": "u8", "B": "u8", "int16": "s16", "i2": "s16", "short": "s16", "h": "s16", "uint16": "u16", "u2": "u16",
         "ushort": "u16", "H": "u16", "int32": "s32", "i4": "s32", "intc": "s32", "i": "s32", "<i4": "s32", "uint32": "u32", "u4": "u32", "uintc": "u32", "I": "u32"}


def dtype_arg(self, v, node):
    """dtype token, None when absent, or 'TOP'"""
    if v is None or v is NONE:
        return None
    if isinstance(v, Gated):
        v = self.I.degate(v)
    if isinstance(v, Dtype):
        return strong(v.d)
    nm = None
    if isinstance(v, Ext):
        nm = v.path.split(".")[-1]
    if isinstance(v, Str):
        nm = v.s
    if nm in FLOATS:
        return "f8"
    if nm in F32:
        return "f4"
    if nm in F16:
        return "f2"
    if nm in INTS:
        return "i8"
    if nm in SMALL:
        return SMALL[nm]
    if nm in ("bool", "bool_", "?"):
        return "bool"
    if nm in ("object", "object_", "O"):
        return "obj"
    return "TOP"


def strong(d):
    return {"pyint": "i8", "pyfloat": "f8", "pybool": "bool"}.get(d, d)


def shape_arg(self, v, node):
    """list of extents or None"""
    n = self.num(v, node)
    if n is not None:
        return [self.I.simp(n.t)]
    d = self.iter_desc(v, node)
    if d is None or d[0] != "conc":
        return None
    out = []
    for x in d[1]:
        n = self.num(x, node)
        if n is None:
            return None
        out.append(self.I.simp(n.t))
    return out


def cast(self, t, d0, d1):
    """explicit conversion of a term from dtype d0 to d1"""
    if d1 is None or d1 == d0:
        return t
    if d1 == "bool":
        return as_cond(t)
    t = from_cond(t)
    if d1 in NARROW:
        return narrow(fn("truncc", t) if d0 == "caller" and d1 not in NARROWF else t, d1, is_int(t) or d0 in NARROWI or d0 in ("i8", "lab", "wide", "caller"))
    if d0 in NARROWI and d1 == "i8":
        return t
    if d1 == "i8":
        if is_int(t) or d0 in ("i8", "bool", "lab", "pyint", "pybool", "wide"):
            return t
        return fn("truncc", t) if d0 == "caller" else fn("trunc", t)
    if d1 == "f8" and d0 == "lab":
        return fn("f64", t)
    if d1 == "caller" and d0 not in ("caller", "bool"):
        if isnum(t) and t.args[0] in (0, 1):
            return t
        return fn("castc", t)
    return t


# ================================================================ built-ins
@model("len")
def _len(self, args, kw, node):
    I, v = self.I, args[0]
    if isinstance(v, Gated):
        v = I.degate(v)
        if isinstance(v, Gated):
            return self.gated_apply(v, lambda x: _len(self, [x], kw, node), node)
    if isinstance(v, Top):
        return v
    if isinstance(v, Tup):
        return Num(num(len(v.items)), "pyint")
    if isinstance(v, Str):
        return Num(num(len(v.s)), "pyint") if v.s is not None else I.top("len", node)
    if isinstance(v, Seq):
        raise Raised("TypeError", node, "an iterator has no len()")
    if isinstance(v, Rng):
        if v.step is ONE:
            return Num(I.simp(fn("max2", sub(v.hi, v.lo), ZERO)) if I.decide(le(v.lo, v.hi)) is not True else I.simp(sub(v.hi, v.lo)), "pyint")
        return I.top("len(range)", node)
    if isinstance(v, (Num,)) or v is NONE:
        raise Raised("TypeError", node, "object has no len()")
    if type(v).__name__ == "DictView":
        c = I.s.heap.get(v.loc)
        return Num(self.dict_len(c), "pyint") if isinstance(c, DictC) else I.top("len", node)
    if isinstance(v, (Ref, Arr)):
        c = I.content(v)
        if isinstance(c, ArrC):
            if not c.axes:
                raise Raised("TypeError", node, "len() of unsized object")
            return Num(I.simp(c.axes[0].extent()), "pyint")
        if isinstance(c, ListC):
            t = self.list_len(c)
            return Num(I.simp(t), "pyint") if t is not None else I.top("len of list", node)
        if isinstance(c, DictC):
            t = self.dict_len(c)
            return Num(I.simp(t), "pyint") if t is not None else I.top("len of dict", node)
        if isinstance(c, ObjC) and c.cls is not None:
            m, _ = I.class_lookup(c.cls, "__len__")
            if isinstance(m, Func):
                return I.call(Bound(m, v), [], {}, node)
            if m is not None:
                return I.top("len", node)
            raise Raised("TypeError", node, "object has no len()")
    return I.top("len", node)


@model("range")
def _range(self, args, kw, node):
    ns = [self.num(a, node) for a in args]
    for n, a in zip(ns, args):
        if n is None:
            if isinstance(a, Top):
                return a
            raise Raised("TypeError", node, "range() argument")
        if n.k in ("pyfloat", "npfloat"):
            raise Raised("TypeError", node, "float in range()")
    ts = [self.I.simp(from_cond(n.t)) for n in ns]
    if len(ts) == 1:
        return Rng(ZERO, ts[0], ONE)
    if len(ts) == 2:
        return Rng(ts[0], ts[1], ONE)
    return Rng(ts[0], ts[1], ts[2])


def pair_desc(self, ds, node):
    """zip several iteration descriptions"""
    I = self.I
    if any(d is None for d in ds):
        return None
    if all(d[0] == "conc" for d in ds):
        return "conc", [Tup(x) for x in zip(*[d[1] for d in ds])]
    ab = [d for d in ds if d[0] == "abs"]
    if len(ab) != len(ds):
        # concrete against abstract: convert the concrete one when lengths are equal
        e = ab[0][1].extent()
        for d in ds:
            if d[0] == "conc" and self.ext_eq(e, num(len(d[1]))) is not True:
                return None
        items = []
        for j in range(len(next(d for d in ds if d[0] == "conc")[1])):
            items.append(Tup([d[1][j] if d[0] == "conc" else self.item_at(d[2], d[1], num(j)) for d in ds]))
        return "conc", items
    ax = ab[0][1]
    its = [ab[0][2]]
    for d in ab[1:]:
        if axis_same(ax, d[1]):
            its.append(vsubst(d[2], dict(zip(d[1].vars, ax.vars))))
        elif ax.plain and d[1].plain:
            same = self.ext_eq(ax.his[0], d[1].his[0])
            if same is not True:
                if I.decide(le(ax.his[0], d[1].his[0])) is True:
                    pass
                elif I.decide(le(d[1].his[0], ax.his[0])) is True:
                    ax = Axis(ax.vars, d[1].his)
                else:
                    return None
            its.append(vsubst(d[2], {d[1].v: ax.v}))
        else:
            return None
    return "abs", ax, Tup(its)


def seq_of(d):
    if d is None:
        return None
    if d[0] == "conc":
        return Seq(items=list(d[1]))
    return Seq(axis=d[1], item=d[2])


@model("zip")
def _zip(self, args, kw, node):
    if not args:
        return Seq(items=[])
    d = pair_desc(self, [self.iter_desc(a, node) for a in args], node)
    return seq_of(d) if d else self.I.top("zip", node)


@model("enumerate")
def _enumerate(self, args, kw, node):
    d = self.iter_desc(args[0], node)
    st = arg(args, kw, 1, "start")
    s0 = self.num(st, node).t if st is not None else ZERO
    if d is None:
        return self.I.top("enumerate", node)
    if d[0] == "conc":
        return Seq(items=[Tup([Num(add(s0, num(i)), "pyint"), x]) for i, x in enumerate(d[1])])
    ax = d[1]
    if not ax.plain:
        return self.I.top("enumerate over a filtered sequence", node)
    return Seq(axis=ax, item=Tup([Num(add(s0, ax.v), "pyint"), d[2]]))


@model("reversed")
def _reversed(self, args, kw, node):
    d = self.iter_desc(args[0], node)
    if d is None:
        return self.I.top("reversed", node)
    if d[0] == "conc":
        return Seq(items=list(reversed(d[1])))
    ax = d[1]
    if not ax.plain:
        return self.I.top("reversed", node)
    n = fresh("i")
    return Seq(axis=Axis((n,), ax.his), item=vsubst(d[2], {ax.v: sub(sub(ax.his[0], ONE), n)}))


def fold(self, d, node, start=None):
    """sum of an iteration description using the + operator"""
    I = self.I
    if d[0] == "conc":
        acc = start if start is not None else Num(ZERO, "pyint")
        for x in d[1]:
            acc = self.binop("Add", acc, x, node)
        return acc
    ax, it = d[1], d[2]
    if isinstance(it, Num):
        t = self.reduce_term("sum", ax.vars, ax.his, ax.cond, from_cond(it.t))
        k = it.k if it.k != "pybool" else "pyint"
        if k == "npbool":
            k = "npint"
        if k == "caller":
            t = fn("wrapc", t)
        r = Num(I.simp(t), k)
        if start is not None:
            r = self.binop("Add", start, r, node)
        return r
    if isinstance(it, Arr):
        c = it.c
        if set(c.allvars()) & set(ax.vars):
            c = c.renamed()
        t = self.reduce_term("sum", ax.vars, ax.his, ax.cond, from_cond(c.term))
        d2 = c.dtype if c.dtype != "bool" else "i8"
        if d2 == "caller":
            t = fn("wrapc", t)
        r = I.mkarr(c.axes, t, d2)
        if start is not None:
            r = self.binop("Add", start, r, node)
        return r
    return I.top("sum", node)


@model("sum", "m.fsum")
def _sum(self, args, kw, node):
    d = self.iter_desc(args[0], node)
    if d is None:
        if isinstance(args[0], Num):
            raise Raised("TypeError", node, "object is not iterable")
        return self.I.top("sum", node)
    st = arg(args, kw, 1, "start")
    return fold(self, d, node, st)


def minmax(self, kind, args, kw, node):
    I = self.I
    if len(args) > 1:
        d = ("conc", list(args))
    else:
        d = self.iter_desc(args[0], node)
    if d is None:
        return I.top(kind, node)
    if kw.get("key", NONE) is not NONE:
        return npo.key_extreme(self, kind, d[1] if d[0] == "conc" else d[2], None if d[0] == "conc" else d[1], kw["key"], kw, node)
    if d[0] == "conc":
        if not d[1]:
            if "default" in kw:
                return kw["default"]
            raise Raised("ValueError", node, kind + "() of an empty sequence")
        ns = [self.num(x, node) for x in d[1]]
        if any(n is None for n in ns):
            if any(isinstance(x, Top) for x in d[1]):
                return next(x for x in d[1] if isinstance(x, Top))
            cs = [self.arrc(x, node) for x in d[1]]
            if len(d[1]) > 1 and all(c is not None for c in cs):
                raise Raised("ValueError", node, "truth value of an array is ambiguous")
            return I.top(kind, node)
        t = fn(kind + "2", *[from_cond(n.t) for n in ns])
        k = ns[0].k
        for n in ns[1:]:
            k = join_kind(k, n.k)
        return Num(I.simp(t), k)
    ax, it = d[1], d[2]
    if not isinstance(it, Num):
        return I.top(kind, node)
    cnt = ax.extent()
    t = self.reduce_term(kind, ax.vars, ax.his, ax.cond, from_cond(it.t))
    if "default" in kw:
        dv = self.num(kw["default"], node)
        if dv is None:
            return I.top(kind + " default", node)
        return Num(I.simp(ite(eq(cnt, ZERO), dv.t, t)), join_kind(it.k, dv.k))
    I.may_raise("ValueError", eq(cnt, ZERO), node, kind + "() of an empty sequence")
    return Num(I.simp(t), it.k)


@model("max")
def _max(self, args, kw, node):
    return minmax(self, "max", args, kw, node)


@model("min")
def _min(self, args, kw, node):
    return minmax(self, "min", args, kw, node)


@model("abs", "np.abs", "np.absolute", "np.fabs", "m.fabs")
def _abs(self, args, kw, node):
    v = args[0]
    r = uf(self, lambda x: fn("abs", from_cond(x)), [v], kw, node, keep=True)
    return r


@model("float", "np.float64", "np.double", "np.asarray_float")
def _float(self, args, kw, node):
    I = self.I
    if not args:
        return Num(ZERO, "pyfloat")
    if isinstance(args[0], Str):
        s = (args[0].s or "").lower()
        if s in ("inf", "+inf", "infinity"):
            return Num(INF, "pyfloat")
        if s in ("-inf", "-infinity"):
            return Num(NINF, "pyfloat")
        if s == "nan":
            return Num(NAN, "pyfloat")
        return I.top("float(str)", node)
    n = self.num(args[0], node)
    if n is None:
        if isinstance(args[0], Top):
            return args[0]
        c = self.arrc(args[0], node)
        if c is not None and c.axes:
            z = [I.decide(eq(e, ONE)) for e in c.shape()]
            if any(x is False for x in z):
                raise Raised("TypeError", node, "only length-1 arrays can be converted")
            I.may_raise("TypeError", or_(*[ne(e, ONE) for e in c.shape()]), node, "only length-1 arrays can be converted")
            return Num(c.at([ZERO] * len(c.allvars())), "pyfloat") if all(a.plain for a in c.axes) else I.top("float", node)
        if args[0] is NONE:
            raise Raised("TypeError", node, "float(None)")
        return I.top("float", node)
    if n.k == "lab":
        return Num(fn("f64", n.t), "lab")
    return Num(fn("f64", n.t) if isnum(n.t) and n.k == "pyint" else from_cond(n.t), "pyfloat")


@model("int", "np.int64", "np.intp", "np.int_", "np.longlong")
def _int(self, args, kw, node):
    I = self.I
    if not args:
        return Num(ZERO, "pyint")
    if isinstance(args[0], Str) and args[0].s is not None and len(args) == 1:
        try:
            return Num(num(int(args[0].s)), "pyint")
        except ValueError:
            raise Raised("ValueError", node, "invalid literal for int()")
    n = self.num(args[0], node)
    if n is None:
        if isinstance(args[0], (Top,)):
            return args[0]
        return I.top("int", node)
    if n.k == "lab":
        return Num(n.t, "lab")      # labels are integers
    t = from_cond(n.t)
    if not is_int(t):
        if n.k in ("pyfloat", "npfloat", "mix") or n.k in NARROWF:
            I.may_raise("ValueError", isnan_t(t), node, "cannot convert float NaN to integer")
            I.may_raise("OverflowError", or_(eq(t, INF), eq(t, NINF)), node, "cannot convert float infinity to integer")
        t = fn("trunc", t)
    return Num(t, "pyint")


def _small(d):
    def f(self, args, kw, node):
        I = self.I
        n = self.num(args[0], node) if args else Num(ZERO, "pyint")
        if n is None:
            if isinstance(args[0], Top):
                return args[0]
            c = self.arrc(args[0], node)
            return I.top("scalar type of an array", node) if c is None else I.mkarr(c.axes, cast(self, c.term, strong(c.dtype), d), d)
        t = from_cond(n.t)
        if d in NARROWI and n.k == "pyint":
            bits, sg = NARROWI[d]
            lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
            I.may_raise("OverflowError", or_(lt(t, num(lo)), lt(num(hi), t)), node, "integer out of bounds")
        t = narrow(t, d, is_int(t) or n.k in ("pyint", "npint", "lab") or n.k in NARROWI)
        return Num(I.simp(t), "lab" if n.k == "lab" and d in NARROWI else d)
    return f


for _nm, _d in SMALL.items():
    if len(_nm) > 2:
        model("np." + _nm)(_small(_d))
for _nm, _d in (("float32", "f4"), ("single", "f4"), ("float16", "f2"), ("half", "f2")):
    model("np." + _nm)(_small(_d))


@model("bool", "np.bool_", "np.bool")
def _bool(self, args, kw, node):
    if not args:
        return B(FALSE)
    return B(self.I.truth(args[0], node))


@model("chr", "hex", "bin", "oct")
def _chars(self, args, kw, node):
    return Str(None)


@model("str", "repr", "format", "ascii")
def _str(self, args, kw, node):
    if args and isinstance(args[0], Str):
        return args[0]
    if len(args) == 1 and isinstance(args[0], Num) and args[0].k == "pyint" and isnum(args[0].t):
        return Str(str(int(args[0].t.args[0])))
    return Str(None)


@model("list")
def _list(self, args, kw, node):
    I = self.I
    if not args:
        return I.alloc(ListC(None, ()))
    d = self.iter_desc(args[0], node)
    if d is None:
        return I.top("list()", node)
    if d[0] == "conc":
        return I.alloc(ListC(None, [(TRUE, x) for x in d[1]]))
    return I.alloc(ListC((d[1], d[2]), ()))


@model("tuple")
def _tuple(self, args, kw, node):
    if not args:
        return Tup([])
    d = self.iter_desc(args[0], node)
    if d is None:
        return self.I.top("tuple()", node)
    if d[0] == "conc":
        return Tup(d[1])
    return self.I.alloc(ListC((d[1], d[2]), ()))


@model("iter")
def _iter(self, args, kw, node):
    return args[0]


@model("dict", "collections.OrderedDict")
def _dict(self, args, kw, node):
    I = self.I
    r = I.alloc(DictC(None, [(TRUE, Str(k), v) for k, v in kw.items()]))
    if args:
        a = args[0]
        if isinstance(a, Ref) and isinstance(I.s.heap.get(a.loc), DictC):
            c = I.s.heap[a.loc]
            I.s.heap[r.loc] = DictC(c.base, list(c.entries) + [(TRUE, Str(k), v) for k, v in kw.items()])
            return r
        d = self.iter_desc(a, node)
        if d is None:
            return I.top("dict()", node)
        if d[0] == "conc":
            for x in d[1]:
                if not isinstance(x, Tup) or len(x.items) != 2:
                    return I.top("dict()", node)
                self.dict_store(r, x.items[0], x.items[1], node)
            return r
        if isinstance(d[2], Tup) and len(d[2].items) == 2 and isinstance(d[2].items[0], Num):
            k = d[2].items[0].t
            from .npm import DISTINCT
            if k.op == "el" and k.args[0] in DISTINCT and len(k.args) == 2 and k.args[1] is d[1].vars[0] or k is d[1].vars[0]:
                I.s.heap[r.loc] = DictC((d[1], d[2].items[0], d[2].items[1]), ())
                return r
        return I.top("dict()", node)
    return r


@model("collections.defaultdict")
def _defaultdict(self, args, kw, node):
    r = _dict(self, args[1:], kw, node)
    if args and args[0] is not NONE and isinstance(r, Ref):
        if isinstance(args[0], Ext):
            self.defaultdicts[r.loc] = args[0]
        else:
            # a factory may close over the object that owns the dictionary
            self.factories[r.loc] = args[0]
            self.I.top("defaultdict", node)
            self.I.s.heap[r.loc] = TopC("defaultdict")
    return r


@model("set", "frozenset")
def _set(self, args, kw, node):
    I = self.I
    if not args:
        return I.alloc(DictC(None, (), True))
    d = self.iter_desc(args[0], node)
    if d is None:
        return I.top("set()", node)
    if d[0] == "conc":
        r = I.alloc(DictC(None, (), True))
        for x in d[1]:
            self.dict_store(r, x, NONE, node)
        return r
    ax, it = d[1], d[2]
    if isinstance(it, Num) and it.t.op == "el" and len(it.t.args) == 2 and it.t.args[1] is ax.vars[0] and ax.plain:
        from .npm import DISTINCT
        if it.t.args[0] in DISTINCT:
            return I.alloc(DictC((ax, it, NONE), (), True))
        if it.t.args[0] == "lab":
            u = fresh("c")
            return I.alloc(DictC((Axis((u,), (sym("k", "int"),)), Num(el("u", u), "lab"), NONE), (), True))
    return I.top("set()", node)


@model("sorted")
def _sorted(self, args, kw, node):
    I = self.I
    d = self.iter_desc(args[0], node)
    if d is not None and d[0] == "conc" and kw.get("key") is not None and kw.get("key") is not NONE:
        ks = sort_keys(self, d[1], kw["key"], node)
        rev = kw.get("reverse")
        if ks is None or rev is not None and not (isinstance(rev, Num) and rev.t in (TRUE, FALSE)):
            return I.top("sorted()", node)
        o = sorted(range(len(ks)), key=lambda i: ks[i], reverse=rev is not None and rev.t is TRUE)
        return I.alloc(ListC(None, [(TRUE, d[1][i]) for i in o]))
    if d is None or kw.get("reverse") is not None or kw.get("key") is not None:
        return I.top("sorted()", node)
    if d[0] == "conc":
        if len(d[1]) <= 1:
            return I.alloc(ListC(None, [(TRUE, x) for x in d[1]]))
        if all(isinstance(x, Num) and isnum(x.t) for x in d[1]):
            return I.alloc(ListC(None, [(TRUE, x) for x in sorted(d[1], key=lambda n: n.t.args[0])]))
        if all(isinstance(x, Str) and x.s is not None for x in d[1]):
            return I.alloc(ListC(None, [(TRUE, x) for x in sorted(d[1], key=lambda n: n.s)]))
        if all(isinstance(x, Num) for x in d[1]) and len(d[1]) <= 6:
            xs = [from_cond(x.t) for x in d[1]]
            return I.alloc(ListC(None, [(TRUE, Num(order_of(xs, j), d[1][0].k)) for j in range(len(xs))]))
        return I.top("sorted()", node)
    ax, it = d[1], d[2]
    if isinstance(it, Num) and it.t.op == "el" and it.t.args[0] == "u" and it.t.args[1:] == ax.vars and ax.plain:
        return I.alloc(ListC((ax, it), ()))
    if isinstance(it, Num) and it.t is ax.vars[0]:
        return I.alloc(ListC((ax, it), ()))
    if isinstance(it, Num):
        out = plain_axis(ax.extent(), "o")
        return I.alloc(ListC((out, Num(npo.order_term(it.t, ax, out.v), it.k)), ()))
    return I.top("sorted()", node)


def sort_keys(self, items, key, node):
    """known numbers (or tuples of them) a key function gives for known items"""
    out = []
    for x in items:
        k = self.I.call(key, [x], {}, node)
        ks = k.items if isinstance(k, Tup) else [k]
        ks = [self.I.simp(from_cond(q.t)) if isinstance(q, Num) else None for q in ks]
        if any(q is None or not isnum(q) for q in ks):
            return None
        out.append(tuple(q.args[0] for q in ks))
    return out


@model("itertools.groupby")
def _groupby(self, args, kw, node):
    I = self.I
    d = self.iter_desc(args[0], node)
    key = args[1] if len(args) > 1 else kw.get("key")
    if d is None or d[0] != "conc" or len(d[1]) > 64:
        return I.top("groupby", node)
    ks = [I.call(key, [x], {}, node) if key is not None and key is not NONE else x for x in d[1]]
    ts = [I.simp(from_cond(k.t)) if isinstance(k, Num) else None for k in ks]
    if any(t is None or not isnum(t) for t in ts):
        return I.top("groupby", node)
    out = []
    for x, k, t in zip(d[1], ks, ts):
        if out and out[-1][1] is t:
            out[-1][2].append(x)
        else:
            out.append((k, t, [x]))
    return Seq(items=[Tup([k, Seq(items=xs)]) for k, t, xs in out])


def order_of(xs, j):
    """j-th smallest of the terms xs"""
    t = fn("max2", *xs) if len(xs) > 1 else xs[0]
    if j == len(xs) - 1:
        return t
    if j == 0:
        return fn("min2", *xs)
    for x in xs:
        rank = add(*[ite(le(y, x), ONE, ZERO) for y in xs])
        t = ite(lt(num(j), rank), fn("min2", t, x), t)
    return t


@model("any", "all")
def _anyall(self, args, kw, node):
    raise AssertionError


def _quant(self, kind, args, kw, node):
    I = self.I
    d = self.iter_desc(args[0], node)
    if d is None:
        return I.top(kind, node)
    if d[0] == "conc":
        cs = [I.truth(x, node) for x in d[1]]
        return B(I.simp((or_ if kind == "any" else and_)(*cs)))
    ax, it = d[1], d[2]
    c = I.truth(it, node)
    if kind == "any":
        q = quant("any", ax.vars, ax.his, and_(ax.cond, c))
    else:
        q = quant("all", ax.vars, ax.his, or_(not_(ax.cond), c))
    return B(I.simp(q))


MODELS["any"] = lambda self, a, k, n: _quant(self, "any", a, k, n)
MODELS["all"] = lambda self, a, k, n: _quant(self, "all", a, k, n)


@model("map")
def _map(self, args, kw, node):
    I = self.I
    ds = [self.iter_desc(a, node) for a in args[1:]]
    d = ds[0] if len(ds) == 1 else pair_desc(self, ds, node)
    if d is None:
        return I.top("map", node)
    if d[0] == "conc":
        return Seq(items=[I.call(args[0], list(x.items) if len(ds) > 1 else [x], {}, node) for x in d[1]])
    from .loops import eval_item
    v = eval_item(I, d[1], lambda it: I.call(args[0], [self.thaw_item(x) for x in it.items] if len(ds) > 1 else [self.thaw_item(it)], {}, node), d[2], node)
    return Seq(axis=d[1], item=v) if v is not None else I.top("map", node)


def classes_of(v):
    return v.items if isinstance(v, Tup) else [v]


def isinst(self, v, cl):
    """condition or None"""
    I = self.I
    nm = cl.path.split(".")[-1] if isinstance(cl, Ext) else None
    if isinstance(cl, Cls):
        if isinstance(v, Ref) and isinstance(I.s.heap.get(v.loc), ObjC):
            c = I.s.heap[v.loc].cls
            return TRUE if c is not None and cl in c.mro() else FALSE
        if isinstance(v, (Num, Str, Tup)) or v is NONE or I.is_arr(v):
            return FALSE
        if isinstance(v, Ref) and isinstance(I.s.heap.get(v.loc), (ListC, DictC)):
            return FALSE
        return None
    if nm is None:
        return None
    if I.is_arr(v):
        return TRUE if nm in ("ndarray", "object") else FALSE
    if isinstance(v, Num):
        if nm in ("ndarray", "list", "tuple", "str", "dict", "set"):
            return FALSE
        if v.k in ("caller", "lab", "mix"):
            return None
        T = {"int": ("pyint", "pybool"), "bool": ("pybool",), "float": ("pyfloat", "npfloat"), "integer": ("npint",), "floating": ("npfloat",),
             "float64": ("npfloat",), "int64": ("npint",), "bool_": ("npbool",), "number": ("npfloat", "npint"), "generic": ("npfloat", "npint", "npbool"),
             "Number": ("pyint", "pyfloat", "pybool", "npint", "npfloat"), "Real": ("pyint", "pyfloat", "pybool", "npint", "npfloat"),
             "Integral": ("pyint", "pybool", "npint"), "object": ("pyint", "pyfloat", "pybool", "npint", "npfloat", "npbool")}
        return (TRUE if v.k in T[nm] else FALSE) if nm in T else None
    if isinstance(v, Str):
        return TRUE if nm in ("str", "object") else FALSE
    if isinstance(v, Tup):
        return TRUE if nm in ("tuple", "object", "Sequence", "Iterable") else FALSE
    if v is NONE:
        return TRUE if nm in ("NoneType", "object") else FALSE
    if isinstance(v, Ref):
        c = I.s.heap.get(v.loc)
        if isinstance(c, ListC):
            return TRUE if nm in ("list", "object", "Sequence", "Iterable") else FALSE
        if isinstance(c, DictC):
            return TRUE if nm in (("set", "object") if c.isset else ("dict", "object", "Mapping")) else FALSE
        if isinstance(c, ObjC):
            return TRUE if nm == "object" else FALSE
    if isinstance(v, (Cls, Func, Bound)):
        return TRUE if (nm == "object" or nm == "type" and isinstance(v, Cls)) else FALSE
    return None


@model("isinstance")
def _isinstance(self, args, kw, node):
    I = self.I
    v = args[0]
    if isinstance(v, Gated):
        v = I.degate(v)
        if isinstance(v, Gated):
            return self.gated_apply(v, lambda x: _isinstance(self, [x, args[1]], kw, node), node)
    cs = [isinst(self, v, c) for c in classes_of(args[1])]
    if any(c is TRUE for c in cs):
        return B(TRUE)
    if any(c is None for c in cs):
        return I.top("isinstance", node)
    return B(FALSE)


@model("issubclass")
def _issubclass(self, args, kw, node):
    if isinstance(args[0], Cls) and isinstance(args[1], Cls):
        return B(TRUE if args[1] in args[0].mro() else FALSE)
    return self.I.top("issubclass", node)


@model("type")
def _type(self, args, kw, node):
    I = self.I
    v = args[0]
    if len(args) == 1 and isinstance(v, Ref) and isinstance(I.s.heap.get(v.loc), ObjC):
        return I.s.heap[v.loc].cls
    if len(args) == 1:
        if isinstance(v, Num) and v.k in PYK:
            return Ext("builtins." + v.k[2:])
        if I.is_arr(v):
            return Ext("numpy.ndarray")
        if isinstance(v, Ref) and isinstance(I.s.heap.get(v.loc), ListC):
            return Ext("builtins.list")
        if isinstance(v, Str):
            return Ext("builtins.str")
        if isinstance(v, Tup):
            return Ext("builtins.tuple")
        if v is NONE:
            return Ext("builtins.NoneType")
    return I.top("type()", node)


@model("getattr")
def _getattr(self, args, kw, node):
    I = self.I
    if isinstance(args[1], Str) and args[1].s is not None:
        if len(args) > 2:
            return I.getattr(args[0], args[1].s, node, default=args[2])
        return I.getattr(args[0], args[1].s, node)
    return I.top("getattr", node)


@model("setattr")
def _setattr(self, args, kw, node):
    I = self.I
    if isinstance(args[1], Str) and args[1].s is not None:
        I.setattr(args[0], args[1].s, args[2], node)
        return NONE
    I.havoc_args(args[:1], {}, node, "setattr with an unknown name")
    return NONE


@model("hasattr")
def _hasattr(self, args, kw, node):
    I = self.I
    o = args[0]
    if isinstance(args[1], Str) and args[1].s is not None and isinstance(o, Ref):
        c = I.s.heap.get(o.loc)
        if isinstance(c, ObjC):
            v = c.attrs.get(args[1].s)
            if isinstance(v, Undef):
                return B(not_(v.c))
            if v is not None:
                return B(TRUE)
            m, _ = I.class_lookup(c.cls, args[1].s)
            return B(TRUE if m is not None else FALSE)
        if I.is_arr(o):
            from .npm import ARRAY_METHODS
            return B(TRUE if args[1].s in ARRAY_METHODS | {"shape", "ndim", "size", "T", "dtype", "__len__", "__iter__"} else FALSE)
    if isinstance(o, Func) and isinstance(args[1], Str) and args[1].s is not None and not args[1].s.startswith("__") and getattr(o, "dict", None) is not None:
        c = I.s.heap.get(o.dict.loc)
        if isinstance(c, DictC):
            return B(I.simp(not_(self.dict_find(c, args[1])[1])))
    if isinstance(o, Num) and isinstance(args[1], Str):
        if args[1].s in ("__len__", "__iter__"):
            return B(FALSE)
    return I.top("hasattr", node)


@model("print", "warnings.warn", "logging.debug", "logging.info", "logging.warning", "logging.error", "warnings.simplefilter_")
def _print(self, args, kw, node):
    return NONE


@model("logging.getLogger")
def _getlogger(self, args, kw, node):
    return Ext("logging")


@model("round")
def _round(self, args, kw, node):
    n = self.num(args[0], node)
    if n is None:
        return self.I.top("round", node)
    nd = arg(args, kw, 1, "ndigits")
    if nd is None or nd is NONE:
        if is_int(n.t):
            return n
        return Num(fn("round0", n.t), "pyint" if n.k in PYK else "npint")
    d = self.num(nd, node)
    return Num(fn("round", n.t, d.t), n.k)


@model("pow", "np.power", "np.float_power", "m.pow")
def _pow(self, args, kw, node):
    if kw:
        return uf(self, lambda x, y: power(from_cond(x), from_cond(y)), args, kw, node)
    return self.binop("Pow", args[0], args[1], node)


@model("divmod")
def _divmod(self, args, kw, node):
    return Tup([self.binop("FloorDiv", args[0], args[1], node), self.binop("Mod", args[0], args[1], node)])


@model("property")
def _property(self, args, kw, node):
    return ip.Wrapped("property", args[0])


@model("staticmethod")
def _static(self, args, kw, node):
    return ip.Wrapped("staticmethod", args[0])


@model("classmethod")
def _clsm(self, args, kw, node):
    return ip.Wrapped("classmethod", args[0])


@model("object", "object.__init__", "object.__setattr__", "np.testing.suppress_warnings", "inherited:object.__init__")
def _object(self, args, kw, node):
    return NONE


@model("object.__new__", "inherited:object.__new__")
def _object_new(self, args, kw, node):
    if args and isinstance(args[0], Cls) and not any(isinstance(b, Ext) and b.path not in ("builtins.object", "abc.ABC", "typing.Generic") for c in args[0].mro() for b in c.bases):
        return self.I.alloc(ObjC(args[0], {}))
    return self.I.top("object.__new__", node)


@model("slice")
def _slice(self, args, kw, node):
    a = list(args)
    if len(a) == 1:
        return Slc(NONE, a[0], NONE)
    return Slc(a[0], a[1], a[2] if len(a) > 2 else NONE)


@model("callable")
def _callable(self, args, kw, node):
    return B(TRUE if isinstance(args[0], (Func, Bound, Cls, Ext)) else FALSE)


@model("id", "hash")
def _id(self, args, kw, node):
    n = args[0]
    if isinstance(n, Num) and node_fn(node) == "hash":
        # of an integer below 2**61 - 1: the number itself, except that -1 is reserved
        t = from_cond(n.t)
        if n.k == "lab" or is_int(t):
            return Num(ite(eq(t, num(-1)), num(-2), t), "lab" if n.k == "lab" else "pyint")
        if isnum(t):
            return Num(t, "pyint")
    if isinstance(n, Tup) and n.items and isinstance(n.items[0], Str) and n.items[0].s == "\0bytes" and node_fn(node) == "hash":
        return n        # equal exactly when the contents are
    return self.I.top("id/hash", node)


def node_fn(node):
    f = getattr(node, "func", None)
    return getattr(f, "id", None)


@model("vars")
def _vars(self, args, kw, node):
    if len(args) == 1 and isinstance(args[0], Ref):
        return self.I.getattr(args[0], "__dict__", node)
    return self.I.top("vars", node)


# ---------------------------------------------------------------- functools, copy, itertools, operator
@model("functools.wraps", "functools.update_wrapper", "functools.total_ordering")
def _wraps(self, args, kw, node):
    return Ext("identity")


@model("functools.lru_cache", "functools.cache", "functools.lru_cache()")
def _lru(self, args, kw, node):
    if args and isinstance(args[0], Func):
        args[0].flags.add("cached")
        return args[0]
    return Ext("functools.lru_cache()")


@model("abc.abstractmethod")
def _abstract(self, args, kw, node):
    if isinstance(args[0], Func):
        args[0].flags.add("abstract")
    return args[0]


@model("identity", "dataclasses.dataclass", "typing.cast_", "np.errstate_")
def _identity(self, args, kw, node):
    return args[0] if args else Ext("identity")


@model("functools.partial")
def _partial(self, args, kw, node):
    w = ip.Wrapped("partial", args[0])
    w.args, w.kw = list(args[1:]), dict(kw)
    return w


@model("functools.reduce")
def _freduce(self, args, kw, node):
    I = self.I
    d = self.iter_desc(args[1], node)
    if d is None or d[0] != "conc":
        if d is not None and isinstance(args[0], Ext) and args[0].path in ("operator.add", "operator.iadd"):
            return fold(self, d, node, args[2] if len(args) > 2 else None)
        return I.top("functools.reduce", node)
    xs = list(d[1])
    if len(args) > 2:
        acc = args[2]
    elif xs:
        acc = xs.pop(0)
    else:
        raise Raised("TypeError", node, "reduce() of empty sequence")
    for x in xs:
        acc = I.call(args[0], [acc, x], {}, node)
    return acc


def copy_value(self, v, deep, node, memo=None):
    I = self.I
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.loc in memo:
            return memo[v.loc]
        c = I.content(v)
        if isinstance(c, ArrC):
            r = I.mkarr(c.axes, c.term, c.dtype)
        elif isinstance(c, ListC):
            if deep:
                b = c.base
                if isinstance(b, tuple):
                    b = (b[0], strip_alias(b[1]))
                r = I.alloc(ListC(b, [(k, copy_value(self, x, True, node, memo)) for k, x in c.tail]))
            else:
                r = I.alloc(ListC(c.base, c.tail))
        elif isinstance(c, DictC):
            r = I.alloc(DictC(c.base, [(k, a, copy_value(self, b, True, node, memo) if deep else b) for k, a, b in c.entries], c.isset))
            I.keep_kind((v,), r)
        elif isinstance(c, ObjC):
            r = I.alloc(ObjC(c.cls, dict(c.attrs)))
            memo[v.loc] = r
            if deep:
                I.s.heap[r.loc] = ObjC(c.cls, {k: copy_value(self, x, True, node, memo) for k, x in c.attrs.items()})
            return r
        else:
            return v
        memo[v.loc] = r
        return r
    if isinstance(v, Tup) and deep:
        return Tup([copy_value(self, x, True, node, memo) for x in v.items])
    if isinstance(v, Arr):
        return strip_alias(v)
    return v


def strip_alias(v):
    if isinstance(v, Arr):
        return Arr(ArrC(v.c.axes, v.c.term, v.c.dtype))
    if isinstance(v, Tup):
        return Tup([strip_alias(x) for x in v.items])
    return v


@model("copy.copy")
def _copycopy(self, args, kw, node):
    return copy_value(self, args[0], False, node)


@model("copy.deepcopy")
def _deepcopy(self, args, kw, node):
    return copy_value(self, args[0], True, node)


@model("itertools.chain")
def _chain(self, args, kw, node):
    ds = [self.iter_desc(a, node) for a in args]
    if any(d is None for d in ds):
        return self.I.top("chain", node)
    if all(d[0] == "conc" for d in ds):
        return Seq(items=[x for d in ds for x in d[1]])
    l = ListC(None, ())
    for d in ds:
        l = self.list_concat_content(l, ListC(None, [(TRUE, x) for x in d[1]]) if d[0] == "conc" else ListC((d[1], d[2]), ()), None)
        if l is None:
            return self.I.top("chain", node)
    return self.I.alloc(l)


@model("itertools.product")
def _product(self, args, kw, node):
    I = self.I
    rep = kw.get("repeat")
    a = list(args)
    if rep is not None:
        n = self.num(rep, node)
        if n is None or not isnum(n.t):
            return I.top("product", node)
        a = a * int(n.t.args[0])
    ds = [self.iter_desc(x, node) for x in a]
    if any(d is None for d in ds):
        return I.top("product", node)
    if all(d[0] == "conc" for d in ds):
        return Seq(items=[Tup(x) for x in _it.product(*[d[1] for d in ds])])
    vs, hs, cond, its = [], [], [], []
    for d in ds:
        if d[0] == "conc":
            return I.top("product", node)
        vs += d[1].vars
        hs += d[1].his
        cond.append(d[1].cond)
        its.append(d[2])
    return Seq(axis=Axis(vs, hs, and_(*cond)), item=Tup(its))


def _combs(self, args, kw, node, strict):
    I = self.I
    d = self.iter_desc(args[0], node)
    n = self.num(args[1], node)
    if d is None or n is None or not isnum(n.t):
        return I.top("combinations", node)
    r = int(n.t.args[0])
    if d[0] == "conc":
        f = _it.combinations if strict else _it.permutations
        return Seq(items=[Tup(x) for x in f(d[1], r)])
    if r != 2 or not d[1].plain:
        return I.top("combinations", node)
    v, w = fresh("i"), fresh("j")
    h = d[1].his[0]
    cond = lt(v, w) if strict else ne(v, w)
    return Seq(axis=Axis((v, w), (h, h), cond), item=Tup([vsubst(d[2], {d[1].v: v}), vsubst(d[2], {d[1].v: w})]))


MODELS["itertools.combinations"] = lambda s, a, k, n: _combs(s, a, k, n, True)
MODELS["itertools.permutations"] = lambda s, a, k, n: _combs(s, a, k, n, False)

for _nm, _op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("matmul", "MatMult")):
    MODELS["operator." + _nm] = (lambda op: lambda s, a, k, n: s.binop(op, a[0], a[1], n))(_op)


@model("operator.itemgetter", "operator.attrgetter")
def _getter(self, args, kw, node):
    return self.I.top("operator getter", node)


# ---------------------------------------------------------------- math
def mathf(name, guard=None):
    def f(self, args, kw, node):
        n = self.num(args[0], node)
        if n is None:
            return self.I.top("math." + name, node)
        t = from_cond(n.t)
        if guard is not None:
            self.I.may_raise("ValueError", guard(t), node, "math domain error")
        return Num(self.I.simp(fn(name, t)), "pyfloat")
    return f


MODELS["m.sqrt"] = mathf("sqrt", lambda t: lt(t, ZERO))
MODELS["m.exp"] = mathf("exp")
MODELS["m.log"] = mathf("log", lambda t: le(t, ZERO))


def _mint(name):
    def f(self, args, kw, node):
        n = self.num(args[0], node)
        if n is None:
            return self.I.top("math." + name, node)
        return Num(n.t if is_int(n.t) else fn(name, from_cond(n.t)), "pyint")
    return f


for _nm in ("floor", "ceil", "trunc"):
    MODELS["m." + _nm] = _mint(_nm)


def isnan_t(t):
    """a number is no NaN; everything else stays a condition"""
    if isnum(t) or is_int(t):
        return FALSE
    return N_("isnan", t)


def finite_t(t):
    if isnum(t) or is_int(t):
        return TRUE
    if t in (INF, NINF):
        return FALSE
    return and_(not_(N_("isnan", t)), not_(eq(t, INF)), not_(eq(t, NINF)))


@model("m.isnan")
def _misnan(self, args, kw, node):
    n = self.num(args[0], node)
    return B(isnan_t(from_cond(n.t))) if n is not None else self.I.top("isnan", node)


@model("m.comb")
def _comb(self, args, kw, node):
    n, r = self.num(args[0], node), self.num(args[1], node)
    if n is not None and r is not None and isnum(r.t) and r.t.args[0] == 2:
        return Num(div(mul(n.t, sub(n.t, ONE)), num(2)), "pyint")
    return self.I.top("comb", node)


@model("m.dist")
def _dist(self, args, kw, node):
    d = self.binop("Sub", self.I.mkarr(*self._ax(args[0], node)), self.I.mkarr(*self._ax(args[1], node)), node) if hasattr(self, "_ax") else None
    return self.I.top("math.dist", node)


# ================================================================ ufuncs
def out_store(self, res, kw, node):
    o = kw.get("out")
    if o is None or o is NONE:
        return res
    if isinstance(o, Tup):
        o = o.items[0]
    self.setitem(o, ELL, res, node)
    return o


def uf(self, f, vals, kw, node, dtype=None, keep=False):
    """ufunc application; keep: the result keeps an integer/caller dtype, otherwise float"""
    I = self.I
    for v in vals:
        if isinstance(v, Top):
            return v
    vals = [I.degate(v) if isinstance(v, Gated) else v for v in vals]
    for i, v in enumerate(vals):
        if isinstance(v, Gated):
            return self.gated_apply(v, lambda x: uf(self, f, vals[:i] + [x] + vals[i + 1:], kw, node, dtype, keep), node)
        if v is NONE or isinstance(v, Str):
            raise Raised("TypeError", node, "ufunc operand")
        if isinstance(v, Seq):
            raise Raised("TypeError", node, "ufunc on a generator")
    cs = [self.arrc(v, node) for v in vals]
    if any(c is None for c in cs):
        return I.top("ufunc operand", node)
    from .npm import promote
    d = dtype
    if d is None:
        d = promote([c.dtype for c in cs])
        if keep == "small":
            # float functions of narrow integers are narrow floats
            d = d if d in NARROWF else {"bool": "f2", "s8": "f2", "u8": "f2", "s16": "f4", "u16": "f4", "caller": "c2"}.get(d, "f8")
        elif not keep:
            d = d if d in NARROWF else "f8"
        elif d == "bool":
            d = "bool"
    scal = all(isinstance(v, Num) and v.k in PYK for v in vals)
    where = kw.get("where")
    if where is not None and not (isinstance(where, Num) and where.t is TRUE):
        wc = self.arrc(where, node)
        o = kw.get("out")
        if wc is None:
            return I.top("where=", node)
        if o is None:
            base = ArrC((), top("uninitialised"), d)
        else:
            base = self.arrc(o, node)
        r = self.broadcast(cs + [wc, base], node)
        if r is None:
            return I.top("broadcast", node)
        axes, ts = r
        t = ite(as_cond(ts[-2]), f(*ts[:-2]), ts[-1])
        res = self.wrap(axes, t, d, node)
        return out_store(self, res, kw, node)
    r = self.broadcast(cs, node)
    if r is None:
        return I.top("broadcast", node)
    axes, ts = r
    t = f(*ts)
    dd = dtype_arg(self, kw.get("dtype"), node)
    if dd is not None and dd != "TOP":
        t, d = cast(self, t, d, dd), dd
    elif d == "caller" and keep == "arith":
        t = fn("wrapc", t)
    elif d in NARROW and (keep in ("arith", "small") or not keep):
        t = narrow(from_cond(t), d)
    if not axes:
        from .npm import kind_of
        res = Num(I.simp(t), kind_of(strong(d)) if not (scal and keep and keep not in ("arith", "small")) else vals[0].k)
    else:
        res = I.mkarr(axes, t, strong(d))
    return out_store(self, res, kw, node)


def ufunc(name, f, keep=False, dtype=None, nin=1):
    def g(self, args, kw, node):
        args = list(args)
        if len(args) > nin:
            kw = dict(kw, out=args[nin])
            args = args[:nin]
        return uf(self, f, args, kw, node, dtype=dtype, keep=keep)
    MODELS["np." + name] = g


ufunc("sqrt", lambda x: fn("sqrt", from_cond(x)), keep="small")
ufunc("exp", lambda x: fn("exp", from_cond(x)), keep="small")
ufunc("expm1", lambda x: sub(fn("exp", from_cond(x)), ONE), keep="small")
ufunc("log", lambda x: fn("log", from_cond(x)), keep="small")
ufunc("log1p", lambda x: fn("log", add(ONE, from_cond(x))), keep="small")
ufunc("log2", lambda x: div(fn("log", from_cond(x)), fn("log", num(2))), keep="small")
ufunc("log10", lambda x: div(fn("log", from_cond(x)), fn("log", num(10))), keep="small")
ufunc("square", lambda x: power(from_cond(x), num(2)), keep="arith")
ufunc("negative", lambda x: neg(from_cond(x)), keep="arith")
ufunc("reciprocal", lambda x: div(ONE, from_cond(x)))
ufunc("sign", lambda x: fn("sign", from_cond(x)), keep=True)
ufunc("floor", lambda x: fn("floor", from_cond(x)), keep=True)
ufunc("ceil", lambda x: fn("ceil", from_cond(x)), keep=True)
ufunc("trunc", lambda x: fn("trunc", from_cond(x)), keep=True)
ufunc("rint", lambda x: fn("round0", from_cond(x)), keep="small")
ufunc("isnan", lambda x: isnan_t(from_cond(x)), dtype="bool")
ufunc("isfinite", lambda x: finite_t(from_cond(x)), dtype="bool")
ufunc("isinf", lambda x: or_(eq(from_cond(x), INF), eq(from_cond(x), NINF)), dtype="bool")
ufunc("logical_not", lambda x: not_(as_cond(x)), dtype="bool")
ufunc("invert", lambda x: not_(as_cond(x)), dtype="bool")
ufunc("maximum", lambda x, y: fn("max2", from_cond(x), from_cond(y)), keep=True, nin=2)
ufunc("minimum", lambda x, y: fn("min2", from_cond(x), from_cond(y)), keep=True, nin=2)
ufunc("fmax", lambda x, y: fn("max2", from_cond(x), from_cond(y)), keep=True, nin=2)
ufunc("fmin", lambda x, y: fn("min2", from_cond(x), from_cond(y)), keep=True, nin=2)
ufunc("add", lambda x, y: add(from_cond(x), from_cond(y)), keep="arith", nin=2)
ufunc("subtract", lambda x, y: sub(from_cond(x), from_cond(y)), keep="arith", nin=2)
ufunc("multiply", lambda x, y: mul(from_cond(x), from_cond(y)), keep="arith", nin=2)
ufunc("divide", lambda x, y: div(from_cond(x), from_cond(y)), nin=2)
ufunc("true_divide", lambda x, y: div(from_cond(x), from_cond(y)), nin=2)
ufunc("mod", lambda x, y: fn("mod", from_cond(x), from_cond(y)), keep="arith", nin=2)
ufunc("hypot", lambda x, y: fn("sqrt", add(power(from_cond(x), num(2)), power(from_cond(y), num(2)))), keep="small", nin=2)
ufunc("equal", lambda x, y: eq(from_cond(x), from_cond(y)), dtype="bool", nin=2)
ufunc("not_equal", lambda x, y: ne(from_cond(x), from_cond(y)), dtype="bool", nin=2)
ufunc("less", lambda x, y: lt(from_cond(x), from_cond(y)), dtype="bool", nin=2)
ufunc("less_equal", lambda x, y: le(from_cond(x), from_cond(y)), dtype="bool", nin=2)
ufunc("greater", lambda x, y: gt(from_cond(x), from_cond(y)), dtype="bool", nin=2)
ufunc("greater_equal", lambda x, y: ge(from_cond(x), from_cond(y)), dtype="bool", nin=2)
ufunc("logical_and", lambda x, y: and_(as_cond(x), as_cond(y)), dtype="bool", nin=2)
ufunc("logical_or", lambda x, y: or_(as_cond(x), as_cond(y)), dtype="bool", nin=2)


@model("np.clip")
def _clip(self, args, kw, node):
    lo, hi = arg(args, kw, 1, "a_min", kw.get("min")), arg(args, kw, 2, "a_max", kw.get("max"))
    kw2 = {k: v for k, v in kw.items() if k in ("out", "where", "dtype")}
    vals, fs = [args[0]], []
    if lo is not None and lo is not NONE:
        vals.append(lo)
        fs.append("max2")
    if hi is not None and hi is not NONE:
        vals.append(hi)
        fs.append("min2")

    def f(x, *b):
        x = from_cond(x)
        for nm, y in zip(fs, b):
            x = fn(nm, x, from_cond(y))
        return x
    return uf(self, f, vals, kw2, node, keep=True)


@model("np.nan_to_num")
def _nan_to_num(self, args, kw, node):
    def nv(k, d):
        v = kw.get(k)
        n = self.num(v, node) if v is not None and v is not NONE else None
        return n.t if n is not None else d
    big = num(1.7976931348623157e308)
    a, b, c = nv("nan", ZERO), nv("posinf", big), nv("neginf", neg(big))
    return uf(self, lambda x: ite(N_("isnan", from_cond(x)), a, ite(eq(from_cond(x), INF), b, ite(eq(from_cond(x), NINF), c, from_cond(x)))), args[:1],
              {"out": args[0]} if isinstance(args[0], Ref) and flag(self, arg(args, kw, 1, "copy"), node, True) is not True else {}, node, keep=True)


@model("np.where")
def _where(self, args, kw, node):
    I = self.I
    if len(args) == 1:
        return _nonzero(self, args, kw, node)
    from .npm import promote
    cs = [self.arrc(a, node) for a in args]
    if any(c is None for c in cs):
        return I.top("where", node)
    r = self.broadcast(cs, node)
    if r is None:
        return I.top("broadcast", node)
    axes, (c, x, y) = r
    d = promote([cs[1].dtype, cs[2].dtype])
    t = vite(as_cond(c), x, y) if d == "bool" else ite(as_cond(c), from_cond(x), from_cond(y))
    return self.wrap(axes, t, d, node)


@model("np.nonzero", "np.argwhere")
def _nonzero(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    if c is None or not c.axes:
        return I.top("nonzero", node)
    vs = [v for a in c.axes for v in a.vars]
    if len(vs) != len(c.axes):
        return I.top("nonzero of a filtered array", node)
    c = c.renamed()
    vs = c.allvars()
    cond = and_(*[a.cond for a in c.axes], as_cond(c.term))
    his = [h for a in c.axes for h in a.his]
    out = []
    for p in range(len(vs)):
        out.append(I.mkarr([Axis(vs, his, cond)], vs[p], "i8"))
    return Tup(out)


@model("np.flatnonzero")
def _flatnonzero(self, args, kw, node):
    c = self.arrc(args[0], node)
    if c is None or len(c.axes) != 1:
        return self.I.top("flatnonzero", node)
    return _nonzero(self, args, kw, node).items[0]


# ================================================================ creation
def filled(self, shape, t, d, node):
    if shape is None:
        return self.I.top("shape", node)
    return self.I.mkarr([plain_axis(e, "z") for e in shape], t, d)


def creator(value, default="f8"):
    def f(self, args, kw, node):
        sh = shape_arg(self, arg(args, kw, 0, "shape"), node)
        d = dtype_arg(self, arg(args, kw, 1, "dtype"), node) or default
        if d == "TOP":
            return self.I.top("dtype", node)
        t = value
        if d == "bool":
            t = as_cond(t) if not t.op == "top" else t
        if sh is not None:
            for e in sh:
                if self.I.decide(lt(e, ZERO)) is True:
                    raise Raised("ValueError", node, "negative dimensions")
                if not isnum(e):
                    self.I.may_raise("ValueError", lt(e, ZERO), node, "negative dimensions")
        return filled(self, sh, t, d, node)
    return f


MODELS["np.zeros"] = creator(ZERO)
MODELS["np.ones"] = creator(ONE)
MODELS["np.empty"] = creator(top("uninitialised memory"))


@model("np.full")
def _full(self, args, kw, node):
    sh = shape_arg(self, arg(args, kw, 0, "shape"), node)
    fv = self.arrc(arg(args, kw, 1, "fill_value"), node)
    d = dtype_arg(self, arg(args, kw, 2, "dtype"), node)
    if sh is None or fv is None or fv.axes or d == "TOP":
        return self.I.top("full", node)
    d0 = strong(fv.dtype)
    return filled(self, sh, cast(self, fv.term, d0, d), d or d0, node)


def like(value):
    def f(self, args, kw, node):
        c = self.arrc(args[0], node)
        if c is None:
            return self.I.top("like", node)
        d = dtype_arg(self, kw.get("dtype", args[1] if len(args) > 1 else None), node) or strong(c.dtype)
        if d == "TOP":
            return self.I.top("dtype", node)
        t = value
        if d == "bool" and t.op != "top":
            t = as_cond(t)
        return self.I.mkarr([a.renamed()[0] for a in c.axes], t, d)
    return f


MODELS["np.zeros_like"] = like(ZERO)
MODELS["np.ones_like"] = like(ONE)
MODELS["np.empty_like"] = like(top("uninitialised memory"))


@model("np.full_like")
def _full_like(self, args, kw, node):
    c = self.arrc(args[0], node)
    fv = self.arrc(args[1], node)
    if c is None or fv is None or fv.axes:
        return self.I.top("full_like", node)
    d = dtype_arg(self, kw.get("dtype"), node) or strong(c.dtype)
    return self.I.mkarr([a.renamed()[0] for a in c.axes], cast(self, fv.term, strong(fv.dtype), d), d)


@model("np.eye", "np.identity")
def _eye(self, args, kw, node):
    n = self.num(arg(args, kw, 0, "N", kw.get("n")), node)
    m = n
    if len(args) > 1 or "M" in kw:
        x = arg(args, kw, 1, "M")
        if x is not NONE:
            m = self.num(x, node)
    if n is None or m is None or "k" in kw:
        return self.I.top("eye", node)
    a, b = plain_axis(self.I.simp(n.t), "r"), plain_axis(self.I.simp(m.t), "c")
    d = dtype_arg(self, kw.get("dtype"), node) or "f8"
    t = eq(a.v, b.v)
    return self.I.mkarr([a, b], t if d == "bool" else ite(t, ONE, ZERO), d)


@model("np.arange")
def _arange(self, args, kw, node):
    ns = [self.num(a, node) for a in args]
    if any(n is None for n in ns) or not ns:
        return self.I.top("arange", node)
    ts = [from_cond(n.t) for n in ns]
    d = dtype_arg(self, kw.get("dtype"), node) or ("i8" if all(n.k not in ("pyfloat", "npfloat") for n in ns) else "f8")
    if len(ts) == 1:
        lo, hi = ZERO, ts[0]
    elif len(ts) == 2 or ts[2] is ONE:
        lo, hi = ts[0], ts[1]
    else:
        lo, hi, st = [self.I.simp(t) for t in ts]
        if not all(n.k not in ("pyfloat", "npfloat") for n in ns) or len(ts) > 3:
            return self.I.top("arange step", node)
        self.I.may_raise("ZeroDivisionError", eq(st, ZERO), node, "arange step")
        e = fn("max2", fn("ceil", div(sub(hi, lo), st)), ZERO)
        a = plain_axis(e, "a")
        return self.I.mkarr([a], add(lo, mul(a.v, st)), d)
    e = self.I.simp(sub(hi, lo))
    if not is_int(e):
        return self.I.top("arange", node)
    if self.I.decide(le(ZERO, e)) is not True:
        e = fn("max2", e, ZERO)
    a = plain_axis(e, "a")
    return self.I.mkarr([a], add(lo, a.v), d)


def _array(self, args, kw, node, copy):
    I = self.I
    v = arg(args, kw, 0, "object", kw.get("a"))
    d = dtype_arg(self, arg(args, kw, 1, "dtype"), node)
    if d == "TOP":
        return I.top("dtype", node)
    cp = kw.get("copy")
    if cp is not None and cp is not NONE:
        copy = flag(self, cp, node)
    elif cp is NONE:
        copy = False
    if isinstance(v, Gated):
        v = I.degate(v)
        if isinstance(v, Gated):
            return self.gated_apply(v, lambda x: _array(self, [x] + list(args[1:]), kw, node, copy), node)
    if isinstance(v, Top):
        return v
    nd = kw.get("ndmin")
    nd = int(self.num(nd, node).t.args[0]) if nd is not None else 0
    if isinstance(v, (Ref, Arr)) and I.is_arr(v):
        c = I.content(v)
        if not isinstance(c, ArrC):
            return I.top("array", node)
        d0 = strong(c.dtype)
        if len(c.axes) < nd:
            axes = [plain_axis(ONE) for _ in range(nd - len(c.axes))] + list(c.axes)
            al = frozenset(I.origins(v)) if not copy else frozenset()
            return I.mkarr(axes, cast(self, c.term, d0, d), d or d0, al)
        if not copy and (d is None or d == d0):
            return v
        if not copy and d0 == "caller" and d == "f8":
            # no copy happens when the caller's array is already of that dtype
            return I.mkarr(c.axes, c.term, "f8", frozenset(I.origins(v)) if isinstance(v, Ref) else c.alias)
        return I.mkarr(c.axes, cast(self, c.term, d0, d), d or d0)
    c = self.arrc(v, node)
    if c is None:
        if isinstance(v, Ref) and isinstance(I.content(v), ListC):
            # ragged or unknown contents
            its = I.content(v)
            if its.base is None and all(x[0] is TRUE for x in its.tail):
                cs = [self.arrc(x[1], node) for x in its.tail]
                if all(x is not None for x in cs) and len({len(x.axes) for x in cs}) > 1:
                    raise Raised("ValueError", node, "inhomogeneous shape")
        return I.top("array()", node)
    d0 = strong(c.dtype)
    axes = list(c.axes)
    while len(axes) < nd:
        axes.insert(0, plain_axis(ONE))
    return I.mkarr(axes, cast(self, c.term, d0, d), d or d0)


MODELS["np.array"] = lambda s, a, k, n: _array(s, a, k, n, True)
MODELS["np.copy"] = lambda s, a, k, n: _array(s, a[:1], {}, n, True)
for _nm in ("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asfarray", "require"):
    MODELS["np." + _nm] = lambda s, a, k, n: _array(s, a, k, n, False)


def _atleast(n):
    def f(self, args, kw, node):
        I = self.I
        v = args[0]
        c = self.arrc(v, node)
        if c is None:
            return I.top("atleast", node)
        if len(c.axes) >= n:
            return v if I.is_arr(v) else I.mkarr(c.axes, c.term, strong(c.dtype))
        sh = [Num(ONE, "pyint")] * (n - len(c.axes)) + [Num(e, "pyint") for e in c.shape()]
        src = v if I.is_arr(v) else I.mkarr(c.axes, c.term, strong(c.dtype))
        return self.reshape(src, sh, node)
    return f


MODELS["np.atleast_1d"] = _atleast(1)
MODELS["np.atleast_2d"] = _atleast(2)


@model("np.diag", "np.diagonal")
def _diag(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    if c is None or len(args) > 1 or kw:
        return I.top("diag", node)
    if not c.axes:
        raise Raised("ValueError", node, "Input must be 1- or 2-d")
    if len(c.axes) == 2 and all(a.plain for a in c.axes):
        e = c.axes[0].his[0]
        if self.ext_eq(e, c.axes[1].his[0]) is not True:
            return I.top("diag", node)
        return I.mkarr([c.axes[0]], subst(c.term, {c.axes[1].v: c.axes[0].v}), strong(c.dtype))
    if len(c.axes) == 1 and c.axes[0].plain:
        b = plain_axis(c.axes[0].his[0])
        return I.mkarr([c.axes[0], b], ite(eq(c.axes[0].v, b.v), from_cond(c.term), ZERO), strong(c.dtype))
    return I.top("diag", node)


@model("np.trace")
def _trace(self, args, kw, node):
    d = _diag(self, args[:1], {}, node)
    return d if isinstance(d, Top) else self.reduce("sum", d, None, node)


# ================================================================ reductions
def _red(kind, nan=False):
    def f(self, args, kw, node):
        I = self.I
        v = arg(args, kw, 0, "a")
        if isinstance(v, Seq) and v.items is None or isinstance(v, Seq):
            if kind in ("sum", "prod"):
                raise Raised("TypeError", node, "numpy reduction of a generator")
            return I.top("reduction of a generator", node)
        ax = arg(args, kw, 1, "axis")
        kd = flag(self, kw.get("keepdims"), node, False)
        d = dtype_arg(self, kw.get("dtype", args[2] if len(args) > 2 and kind in ("sum", "mean", "prod") else None), node)
        if isinstance(v, Gated):
            v = I.degate(v)
            if isinstance(v, Gated):
                return self.gated_apply(v, lambda x: f(self, [x] + list(args[1:]), kw, node), node)
        wh = kw.get("where")
        init = kw.get("initial")
        c = self.arrc(v, node)
        if c is None:
            return I.top("reduction operand", node)
        if nan:
            z = {"sum": ZERO, "max": NINF, "min": INF}.get(kind)
            if z is None:
                return I.top("nan reduction", node)
            v = I.mkarr(c.axes, ite(N_("isnan", from_cond(c.term)), z, from_cond(c.term)), strong(c.dtype))
            c = self.arrc(v, node)
        if wh is not None and not (isinstance(wh, Num) and wh.t is TRUE):
            wc = self.arrc(wh, node)
            if wc is None or kind not in ("sum", "max", "min", "any", "all", "prod", "mean"):
                return I.top("where=", node)
            r = self.broadcast([c, wc], node)
            if r is None:
                return I.top("broadcast", node)
            axes, (t, w) = r
            w = as_cond(w)
            if kind == "mean":
                s = self.reduce("sum", I.mkarr(axes, ite(w, from_cond(t), ZERO), strong(c.dtype)), ax, node, keepdims=kd)
                n = self.reduce("sum", I.mkarr(axes, ite(w, ONE, ZERO), "i8"), ax, node, keepdims=kd)
                return self.binop("Div", s, n, node)
            if kind in ("max", "min") and init is None:
                return I.top("where= without initial", node)
            z = {"sum": ZERO, "max": NINF, "min": INF, "prod": ONE}.get(kind)
            if kind in ("any", "all"):
                t2 = and_(as_cond(t), w) if kind == "any" else or_(as_cond(t), not_(w))
                v = I.mkarr(axes, t2, "bool")
            else:
                v = I.mkarr(axes, ite(w, from_cond(t), z), strong(c.dtype))
        if d == "TOP":
            return I.top("dtype", node)
        narrow_sum = d if kind in ("sum", "prod") and (d in NARROWI or d == "caller" and strong(self.arrc(v, node).dtype) in ("caller", "bool")) else None
        if d == "caller" and (narrow_sum is None and kind not in ("max", "min", "any", "all")):
            return I.top("reduction in the caller's type", node)
        if d is not None:
            c = self.arrc(v, node)
            if strong(c.dtype) == "caller" and d == "f8" or strong(c.dtype) in ("i8", "bool") and d == "f8":
                v = I.mkarr(c.axes, from_cond(c.term), "f8")
            elif d in NARROW:
                v = I.mkarr(c.axes, cast(self, c.term, strong(c.dtype), d), d if d in NARROWF else "i8")
            elif d == "i8" and strong(c.dtype) not in ("i8", "bool"):
                v = I.mkarr(c.axes, cast(self, c.term, strong(c.dtype), "i8"), "i8")
            d = None
        if init is not None and kind in ("max", "min"):
            n = self.num(init, node)
            c = self.arrc(v, node)
            ps = self.norm_axes(c, ax, node)
            if n is None or ps is None:
                return I.top("initial=", node)
            red_axes = [c.axes[p] for p in ps]
            rest = [a for i, a in enumerate(c.axes) if i not in ps]
            vs = [x for a in red_axes for x in a.vars]
            hs = [h for a in red_axes for h in a.his]
            t = fn(kind + "2", n.t, self.reduce_term(kind, vs, hs, and_(*[a.cond for a in red_axes]), from_cond(c.term)))
            res = self.wrap(rest, t, "f8", node)
            return out_store(self, res, kw, node)
        res = self.reduce(kind, v, ax, node, keepdims=kd, dtype=d)
        if init is not None and kind == "sum":
            res = self.binop("Add", res, init, node)
        if narrow_sum is not None and not isinstance(res, Top):
            # the accumulator has the type that was asked for
            res = self.elementwise(lambda x: fn("wrapc", from_cond(x)) if narrow_sum == "caller" else narrow(from_cond(x), narrow_sum), [res], node, dtype=narrow_sum)
        return out_store(self, res, kw, node)
    return f


for _nm, _k in (("sum", "sum"), ("mean", "mean"), ("max", "max"), ("amax", "max"), ("min", "min"), ("amin", "min"), ("prod", "prod"), ("any", "any"), ("all", "all")):
    MODELS["np." + _nm] = _red(_k)
for _nm in ("sum", "max", "min"):
    MODELS["np.nan" + _nm] = _red(_nm, nan=True)
MODELS["np.add.reduce"] = lambda s, a, k, n: MODELS["np.sum"](s, a if len(a) > 1 or "axis" in k else list(a) + [Num(ZERO, "pyint")], k, n)
MODELS["np.maximum.reduce"] = lambda s, a, k, n: MODELS["np.max"](s, a if len(a) > 1 or "axis" in k else list(a) + [Num(ZERO, "pyint")], k, n)
MODELS["np.minimum.reduce"] = lambda s, a, k, n: MODELS["np.min"](s, a if len(a) > 1 or "axis" in k else list(a) + [Num(ZERO, "pyint")], k, n)


def _var(self, args, kw, node, std=False):
    ax = arg(args, kw, 1, "axis")
    m = self.reduce("mean", args[0], ax, node, keepdims=True)
    if isinstance(m, Top):
        return m
    d = self.binop("Sub", args[0], m, node)
    sq = self.binop("Mult", d, d, node)
    kd = flag(self, kw.get("keepdims"), node, False)
    dd = kw.get("ddof")
    if dd is None:
        r = self.reduce("mean", sq, ax, node, keepdims=kd)
    else:
        c = self.arrc(args[0], node)
        ps = self.norm_axes(c, ax, node)
        cnt = mul(*[c.axes[p].extent() for p in ps])
        s = self.reduce("sum", sq, ax, node, keepdims=kd)
        r = self.binop("Div", s, self.binop("Sub", Num(cnt, "pyint"), dd, node), node)
    return MODELS["np.sqrt"](self, [r], {}, node) if std else r


MODELS["np.var"] = lambda s, a, k, n: _var(s, a, k, n)
MODELS["np.std"] = lambda s, a, k, n: _var(s, a, k, n, True)


@model("np.average")
def _average(self, args, kw, node):
    w = arg(args, kw, 2, "weights")
    ax = arg(args, kw, 1, "axis")
    if w is None or w is NONE:
        return self.reduce("mean", args[0], ax, node)
    I = self.I
    c, wc = self.arrc(args[0], node), self.arrc(w, node)
    if c is None or wc is None:
        return I.top("average", node)
    wv = w
    if len(wc.axes) == 1 and len(c.axes) == 2 and ax is not None and ax is not NONE:
        p = self.norm_axes(c, ax, node)[0]
        if p == 0:
            wv = I.mkarr([wc.axes[0], plain_axis(ONE)], wc.term, strong(wc.dtype))
    num_ = self.reduce("sum", self.binop("Mult", args[0], wv, node), ax, node)
    den = self.reduce("sum", w, None, node)
    return self.binop("Div", num_, den, node)


@model("np.count_nonzero")
def _cnz(self, args, kw, node):
    c = self.arrc(args[0], node)
    if c is None:
        return self.I.top("count_nonzero", node)
    b = self.I.mkarr(c.axes, as_cond(c.term), "bool") if c.axes else Num(from_cond(as_cond(c.term)), "npint")
    r = self.reduce("sum", b, arg(args, kw, 1, "axis"), node)
    return r


@model("np.percentile", "np.quantile")
def _unmodelled(self, args, kw, node):
    return self.I.top("numpy order statistic", node)


@model("np.ptp")
def _ptp(self, args, kw, node):
    ax = arg(args, kw, 1, "axis")
    return self.binop("Sub", self.reduce("max", args[0], ax, node), self.reduce("min", args[0], ax, node), node)


# ================================================================ products
@model("np.dot", "np.inner", "np.vdot")
def _dot(self, args, kw, node):
    I = self.I
    a, b = args[0], args[1]
    ca, cb = self.arrc(a, node), self.arrc(b, node)
    if ca is None or cb is None:
        return I.top("dot", node)
    if not ca.axes or not cb.axes:
        return self.binop("Mult", a, b, node)
    inner = False
    return self.contract(ca, cb, len(ca.axes) - 1, max(len(cb.axes) - 2, 0), node)


def _inner(self, args, kw, node):
    ca, cb = self.arrc(args[0], node), self.arrc(args[1], node)
    if ca is None or cb is None:
        return self.I.top("inner", node)
    if not ca.axes or not cb.axes:
        return self.binop("Mult", args[0], args[1], node)
    return self.contract(ca, cb, len(ca.axes) - 1, len(cb.axes) - 1, node)


MODELS["np.inner"] = _inner


@model("np.vdot")
def _vdot(self, args, kw, node):
    a, b = self.ravel(args[0], node), self.ravel(args[1], node)
    return self.reduce("sum", self.binop("Mult", a, b, node), None, node)


MODELS["np.matmul"] = lambda s, a, k, n: out_store(s, s.matmul(a[0], a[1], n), k, n)


@model("np.outer")
def _outer(self, args, kw, node):
    I = self.I
    a, b = args[0], args[1]
    ca, cb = self.arrc(a, node), self.arrc(b, node)
    if ca is None or cb is None:
        return I.top("outer", node)
    if len(ca.axes) > 1:
        ca = self.arrc(self.ravel(a, node), node)
    if len(cb.axes) > 1:
        cb = self.arrc(self.ravel(b, node), node)
    if ca is None or cb is None:
        return I.top("outer", node)
    if set(ca.allvars()) & set(cb.allvars()):
        cb = cb.renamed()
    from .npm import promote
    d = promote([ca.dtype, cb.dtype])
    t = mul(from_cond(ca.term), from_cond(cb.term))
    if d == "caller":
        t = fn("wrapc", t)
    axes = list(ca.axes) or [plain_axis(ONE)]
    axes += list(cb.axes) or [plain_axis(ONE)]
    return out_store(self, I.mkarr(axes, t, strong(d)), kw, node)


@model("np.einsum")
def _einsum(self, args, kw, node):
    I = self.I
    if not args or not isinstance(args[0], Str) or args[0].s is None:
        return I.top("einsum", node)
    spec = args[0].s.replace(" ", "")
    if "..." in spec:
        return I.top("einsum", node)
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        al = lhs.replace(",", "")
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    ins = lhs.split(",")
    if len(ins) != len(args) - 1:
        return I.top("einsum", node)
    axes = {}
    ts, ds = [], []
    for s, v in zip(ins, args[1:]):
        c = self.arrc(v, node)
        if c is None:
            return I.top("einsum", node)
        c = c.renamed()
        if len(s) != len(c.axes):
            raise Raised("ValueError", node, "einsum subscripts")
        m = {}
        for ch, a in zip(s, c.axes):
            if ch not in axes:
                axes[ch] = a
            else:
                b = axes[ch]
                if axis_same(b, a):
                    m.update(zip(a.vars, b.vars))
                elif a.plain and b.plain:
                    e = self.ext_eq(a.his[0], b.his[0])
                    if e is not True:
                        I.may_raise("ValueError", ne(a.his[0], b.his[0]), node, "einsum shapes")
                        if I.decide(eq(a.his[0], b.his[0])) is not True:
                            return I.top("einsum", node)
                    m[a.v] = b.v
                else:
                    return I.top("einsum", node)
        ts.append(from_cond(subst(c.term, m)))
        ds.append(c.dtype)
    from .npm import promote
    d = promote(ds)
    t = mul(*ts)
    r = [axes[ch] for ch in axes if ch not in out]
    if r:
        vs = [v for a in r for v in a.vars]
        hs = [h for a in r for h in a.his]
        t = self.reduce_term("sum", vs, hs, and_(*[a.cond for a in r]), t)
    if d == "caller":
        t = fn("wrapc", t)
    return out_store(self, self.wrap([axes[ch] for ch in out], t, d if d != "bool" else "i8", node), kw, node)


@model("np.tensordot")
def _tensordot(self, args, kw, node):
    ax = arg(args, kw, 2, "axes")
    n = self.num(ax, node) if ax is not None else None
    if n is not None and n.t is ONE:
        return _dot(self, args[:2], {}, node)
    if n is not None and n.t is ZERO:
        return _outer(self, args[:2], {}, node)
    return self.I.top("tensordot", node)


MODELS["np.multiply.outer"] = lambda s, a, k, n: _outer(s, a, k, n)


def _subouter(self, args, kw, node):
    I = self.I
    ca, cb = self.arrc(args[0], node), self.arrc(args[1], node)
    if ca is None or cb is None or len(ca.axes) != 1 or len(cb.axes) != 1:
        return I.top("outer", node)
    a = I.mkarr([ca.axes[0], plain_axis(ONE)], ca.term, strong(ca.dtype))
    return self.binop("Sub", a, args[1], node)


MODELS["np.subtract.outer"] = _subouter


# ================================================================ linear algebra
@model("np.linalg.norm")
def _norm(self, args, kw, node):
    I = self.I
    v = args[0]
    o = arg(args, kw, 1, "ord")
    ax = arg(args, kw, 2, "axis")
    kd = flag(self, kw.get("keepdims"), node, False)
    c = self.arrc(v, node)
    if c is None:
        return I.top("norm", node)
    vf = v
    if strong(c.dtype) != "f8" and c.axes:
        vf = I.mkarr(c.axes, from_cond(c.term), "f8")   # norm converts to float first
    elif not c.axes:
        return uf(self, lambda x: fn("abs", from_cond(x)), [v], {}, node)
    p = None
    if o is not None and o is not NONE:
        n = self.num(o, node)
        if n is None:
            if isinstance(o, Str) and o.s == "fro":
                p = 2
            else:
                return I.top("norm order", node)
        elif n.t is INF:
            p = "inf"
        elif isnum(n.t):
            p = n.t.args[0]
        nax = len(c.axes) if ax is None or ax is NONE else (len(ax.items) if isinstance(ax, Tup) else 1)
        if nax == 2 and not (isinstance(o, Str)):
            return I.top("matrix norm", node)
    if p in (None, 2):
        s = self.reduce("sum", self.binop("Mult", vf, vf, node), ax, node, keepdims=kd)
        return MODELS["np.sqrt"](self, [s], {}, node)
    if p == 1:
        return self.reduce("sum", MODELS["np.abs"](self, [vf], {}, node), ax, node, keepdims=kd)
    if p == "inf":
        return self.reduce("max", MODELS["np.abs"](self, [vf], {}, node), ax, node, keepdims=kd)
    return I.top("norm order", node)


def square_mat(self, v, node):
    I = self.I
    c = self.arrc(v, node)
    if c is None:
        return None
    if len(c.axes) < 2:
        raise Raised("LinAlgError", node, "array must be at least two-dimensional")
    if len(c.axes) != 2 or not all(a.plain for a in c.axes):
        return None
    if self.ext_eq(c.axes[0].his[0], c.axes[1].his[0]) is not True:
        I.may_raise("LinAlgError", ne(c.axes[0].his[0], c.axes[1].his[0]), node, "must be square")
        return None
    c = c.renamed()
    return c.axes[0].his[0], c.axes[0].v, c.axes[1].v, from_cond(c.term)


@model("np.linalg.det")
def _det(self, args, kw, node):
    m = square_mat(self, args[0], node)
    if m is None:
        return self.I.top("det", node)
    n, i, j, t = m
    return Num(N_("mat", "det", n, i, j, t), "npfloat")


@model("np.linalg.inv", "np.linalg.pinv")
def _inv(self, args, kw, node):
    I = self.I
    m = square_mat(self, args[0], node)
    if m is None:
        return I.top("inv", node)
    n, i, j, t = m
    I.may_raise("LinAlgError", eq(N_("mat", "det", n, i, j, t), ZERO), node, "singular matrix")
    r, c = plain_axis(n, "r"), plain_axis(n, "c")
    return I.mkarr([r, c], N_("mat", "inv", n, i, j, t, r.v, c.v), "f8")


@model("np.linalg.solve")
def _solve(self, args, kw, node):
    inv = _inv(self, args[:1], {}, node)
    return inv if isinstance(inv, Top) else self.matmul(inv, args[1], node)


@model("np.linalg.slogdet")
def _slogdet(self, args, kw, node):
    d = _det(self, args, kw, node)
    if isinstance(d, Top):
        return d
    return Tup([Num(fn("sign", d.t), "npfloat"), Num(fn("log", fn("abs", d.t)), "npfloat")])


@model("np.linalg.multi_dot")
def _multidot(self, args, kw, node):
    d = self.iter_desc(args[0], node)
    if d is None or d[0] != "conc":
        return self.I.top("multi_dot", node)
    acc = d[1][0]
    for x in d[1][1:]:
        acc = self.matmul(acc, x, node)
    return acc


@model("np.cov")
def _cov(self, args, kw, node):
    I = self.I
    from .npm import strong
    c = self.arrc(args[0], node)
    rows = flag(self, arg(args, kw, 2, "rowvar"), node, True)
    bias = flag(self, arg(args, kw, 3, "bias"), node, False)
    dd = arg(args, kw, 4, "ddof")
    y = arg(args, kw, 1, "y")
    kw.get("dtype")
    if c is None or rows not in (True, False) or bias not in (True, False) or not (y is None or y is NONE) or len(c.axes) not in (1, 2) or kw.get("fweights") is not None or kw.get("aweights") is not None or c.dtype == "bool":
        return I.top("cov", node)
    if dd is None or dd is NONE:
        d = ZERO if bias else ONE
    else:
        n = self.num(dd, node)
        if n is None:
            return I.top("cov", node)
        d = n.t
    if len(c.axes) == 1:
        va, oa = None, c.axes[0]
    else:
        va, oa = (c.axes[0], c.axes[1]) if rows else (c.axes[1], c.axes[0])
        if not va.plain or set(va.vars) & (set(free(oa.cond)) | {v for h in oa.his for v in free(h)}):
            return I.top("cov", node)
    n = oa.extent()
    fact = sub(n, d)

    def at(i):
        """element and mean of variable i over fresh observations"""
        b, m = oa.renamed()
        if va is not None:
            m[va.v] = i
        mean = div(red("sum", b.vars, b.his, b.cond, from_cond(subst(c.term, m))), n)
        return mean

    def entry(i, j):
        b, m = oa.renamed()
        mi, mj = dict(m), dict(m)
        if va is not None:
            mi[va.v], mj[va.v] = i, j
        t = red("sum", b.vars, b.his, b.cond, mul(sub(from_cond(subst(c.term, mi)), at(i)), sub(from_cond(subst(c.term, mj)), at(j))))
        return self.num(self.binop("Div", Num(t, "npfloat"), Num(fact, "npint"), node), node)
    one = entry(ZERO, ZERO)
    if one is None:
        return I.top("cov", node)
    if va is None:
        return one
    h = va.his[0]
    e = I.decide(eq(h, ONE))
    if e is True:
        return one
    a, b = plain_axis(h), plain_axis(h)
    full = entry(a.v, b.v)
    if full is None:
        return I.top("cov", node)
    r = I.mkarr([a, b], full.t, "f8")
    return r if e is False else Gated(eq(h, ONE), one, r)


# ================================================================ joining
def concat(self, cs, p, node):
    """concatenate contents along axis p"""
    I = self.I
    from .npm import promote
    acc = cs[0]
    for b in cs[1:]:
        a = acc
        if len(a.axes) != len(b.axes):
            raise Raised("ValueError", node, "all the input array dimensions must match")
        if set(a.allvars()) & set(b.allvars()):
            b = b.renamed()
        axes, m = [], {}
        for q, (x, y) in enumerate(zip(a.axes, b.axes)):
            if q == p:
                axes.append(None)
                continue
            if axis_same(x, y):
                m.update(zip(y.vars, x.vars))
            elif x.plain and y.plain:
                e = self.ext_eq(x.his[0], y.his[0])
                if e is False:
                    raise Raised("ValueError", node, "dimensions must match exactly")
                if e is not True:
                    I.may_raise("ValueError", ne(x.his[0], y.his[0]), node, "dimensions must match exactly")
                    if I.decide(eq(x.his[0], y.his[0])) is not True:
                        return None
                m[y.v] = x.v
            else:
                return None
            axes.append(x)
        x, y = a.axes[p], b.axes[p]
        d = promote([strong(a.dtype), strong(b.dtype)])
        if d == "wide":
            d = "wide"
        ex = I.simp(x.extent()) if x.plain else None
        ey = I.simp(y.extent()) if y.plain else None
        if ex is ZERO:
            axes[p] = y
            acc = ArrC(axes, subst(b.term, m), d)
            continue
        if ey is ZERO:
            axes[p] = x
            acc = ArrC(axes, a.term, d)
            continue
        if not x.plain or not y.plain:
            return None
        v = fresh("i")
        axes[p] = Axis((v,), (I.simp(add(x.his[0], y.his[0])),))
        ta = subst(a.term, {x.v: v})
        tb = subst(subst(b.term, m), {y.v: sub(v, x.his[0])})
        tb = self_at(I, tb, v, x.his[0], y)
        acc = ArrC(axes, vite(lt(v, x.his[0]), ta, tb), d)
    return acc


def self_at(I, tb, v, e, y):
    if y.his[0] is ONE:
        # the appended part has a single position: index is exactly e
        return subst(tb, {}) if v not in free(tb) else subst(tb, {v: e})
    return tb


def parts_of(self, v, node):
    d = self.iter_desc(v, node)
    if d is None:
        return None
    return d


def joiner(prep, axis_of):
    def f(self, args, kw, node):
        I = self.I
        d = parts_of(self, args[0], node)
        if d is None:
            return I.top("join", node)
        if d[0] == "abs":
            # homogeneous list of rows
            if prep in ("vstack", "stack") and isinstance(d[2], (Num, Arr)):
                c = self.list_to_arr(ListC((d[1], d[2]), ()), node)
                if c is not None and (prep == "stack" or len(c.axes) == 2):
                    return I.mkarr(c.axes, c.term, strong(c.dtype))
            if prep in ("hstack", "concatenate") and isinstance(d[2], Arr) and len(d[2].c.axes) == 1 and isnum(d[2].c.axes[0].extent()) and d[2].c.axes[0].extent() is ONE:
                return I.mkarr([d[1]], d[2].c.at([ZERO]), strong(d[2].c.dtype))
            return I.top("join of a symbolic list", node)
        cs = []
        for x in d[1]:
            if isinstance(x, Gated):
                x = I.degate(x)
            if isinstance(x, Top):
                return x
            c = self.arrc(x, node)
            if c is None:
                return I.top("join operand", node)
            cs.append(ArrC(c.axes, c.term, strong(c.dtype)))
        if not cs:
            raise Raised("ValueError", node, "need at least one array")
        cs = [c.renamed() for c in cs]
        if prep in ("vstack", "row_stack"):
            cs = [lead(c, 2) for c in cs]
            p = 0
        elif prep == "hstack":
            cs = [lead(c, 1) for c in cs]
            p = 0 if len(cs[0].axes) == 1 else 1
        elif prep == "dstack":
            cs = [depth3(c) for c in cs]
            p = 2
        elif prep == "column_stack":
            cs = [c if len(c.axes) == 2 else ArrC(list(lead(c, 1).axes) + [plain_axis(ONE)], c.term, c.dtype) for c in cs]
            p = 1
        elif prep == "stack":
            ax = arg(args, kw, 1, "axis")
            n = int(self.num(ax, node).t.args[0]) if ax is not None else 0
            nd = len(cs[0].axes) + 1
            n %= nd
            cs = [ArrC(list(c.axes[:n]) + [plain_axis(ONE)] + list(c.axes[n:]), c.term, c.dtype) for c in cs]
            p = n
        else:
            ax = arg(args, kw, 1, "axis")
            if ax is NONE:
                cs = [self.arrc(self.ravel(I.mkarr(c.axes, c.term, c.dtype), node), node) for c in cs]
                p = 0
            else:
                n = self.num(ax, node) if ax is not None else Num(ZERO, "pyint")
                if n is None or not isnum(n.t):
                    return I.top("axis", node)
                if not cs[0].axes:
                    raise Raised("ValueError", node, "zero-dimensional arrays cannot be concatenated")
                p = int(n.t.args[0])
                if not -len(cs[0].axes) <= p < len(cs[0].axes):
                    raise Raised("AxisError", node, "axis out of bounds")
                p %= len(cs[0].axes)
        c = concat(self, cs, p, node)
        if c is None:
            return I.top("join shapes", node)
        return I.mkarr(c.axes, c.term, c.dtype)
    return f


def lead(c, n):
    axes = list(c.axes)
    while len(axes) < n:
        axes.insert(0, plain_axis(ONE))
    return ArrC(axes, c.term, c.dtype)


def depth3(c):
    axes = list(c.axes)
    if len(axes) == 0:
        axes = [plain_axis(ONE)] * 1 + [plain_axis(ONE), plain_axis(ONE)]
    elif len(axes) == 1:
        axes = [plain_axis(ONE)] + axes + [plain_axis(ONE)]
    elif len(axes) == 2:
        axes = axes + [plain_axis(ONE)]
    return ArrC(axes, c.term, c.dtype)


for _nm in ("vstack", "hstack", "concatenate", "dstack", "column_stack", "row_stack", "stack"):
    MODELS["np." + _nm] = joiner(_nm, None)
MODELS["np.r_"] = lambda s, a, k, n: s.I.top("np.r_", n)


@model("np.append")
def _append(self, args, kw, node):
    I = self.I
    ax = arg(args, kw, 2, "axis")
    if ax is None or ax is NONE:
        xs = []
        for v in args[:2]:
            c = self.arrc(v, node)
            if c is None:
                return I.top("append", node)
            r = I.mkarr(c.axes, c.term, strong(c.dtype)) if c.axes else I.mkarr([plain_axis(ONE)], c.term, strong(c.dtype))
            xs.append(self.ravel(r, node))
        return MODELS["np.concatenate"](self, [Tup(xs)], {}, node)
    return MODELS["np.concatenate"](self, [Tup(list(args[:2]))], {"axis": ax}, node)


@model("np.pad")
def _pad(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    md = arg(args, kw, 2, "mode")
    if c is None or (md is not None and not (isinstance(md, Str) and md.s == "constant")):
        return I.top("pad", node)
    cv = kw.get("constant_values")
    cvt = ZERO
    if cv is not None:
        n = self.num(cv, node)
        if n is None:
            return I.top("pad values", node)
        cvt = n.t
    w = self.arrc(arg(args, kw, 1, "pad_width"), node)
    if w is None or not all(a.plain for a in c.axes):
        return I.top("pad width", node)
    nd = len(c.axes)

    def width(q, s):
        if not w.axes:
            return w.term
        if len(w.axes) == 1:
            e = w.axes[0].extent()
            return w.at([num(s)]) if e is not ONE else w.at([ZERO])
        e = w.axes[0].extent()
        return w.at([num(q) if e is not ONE else ZERO, num(s)])
    axes, m, cond = [], {}, []
    for q, a in enumerate(c.axes):
        lo, hi = I.simp(width(q, 0)), I.simp(width(q, 1))
        if lo is ZERO and hi is ZERO:
            axes.append(a)
            continue
        v = fresh("i")
        axes.append(Axis((v,), (I.simp(add(a.his[0], lo, hi)),)))
        m[a.v] = sub(v, lo)
        if lo is not ZERO:
            cond.append(le(lo, v))
        if hi is not ZERO:
            cond.append(lt(v, add(lo, a.his[0])))
    t = ite(and_(*cond), from_cond(subst(c.term, m)), cast(self, cvt, "f8" if not is_int(cvt) else "i8", strong(c.dtype)))
    return I.mkarr(axes, t, strong(c.dtype))


@model("np.delete")
def _delete(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    ax = arg(args, kw, 2, "axis")
    ixc = self.arrc(arg(args, kw, 1, "obj"), node)
    n = self.num(arg(args, kw, 1, "obj"), node)
    if c is None:
        return I.top("delete", node)
    if (ax is None or ax is NONE) and len(c.axes) > 1:
        c = self.arrc(self.ravel(args[0], node), node)
    p = 0 if ax is None or ax is NONE else self.norm_axes(c, ax, node)[0]
    a = c.axes[p]
    if not a.plain:
        return I.top("delete", node)
    if n is None or ixc is None or ixc.axes:
        if ixc is not None and len(ixc.axes) == 1 and ixc.dtype == "bool" and ixc.axes[0].plain and self.ext_eq(ixc.axes[0].his[0], a.his[0]) is True:
            c2 = c.renamed()
            a2 = c2.axes[p]
            axes = list(c2.axes)
            axes[p] = Axis(a2.vars, a2.his, not_(as_cond(ixc.at([a2.v]))))
            return I.mkarr(axes, c2.term, strong(c.dtype))
        return I.top("delete", node)
    t = I.simp(from_cond(n.t))
    ext = a.his[0]
    I.may_raise("IndexError", or_(le(ext, t), lt(t, neg(ext))), node, "delete index out of bounds")
    if I.decide(le(ZERO, t)) is not True:
        if isnum(t) and t.args[0] < 0:
            t = I.simp(add(ext, t))
        else:
            t = ite(lt(t, ZERO), add(t, ext), t)
    c = c.renamed()
    a = c.axes[p]
    e = I.simp(ext)
    axes = list(c.axes)
    if isnum(e) and isnum(t):
        v = fresh("i")
        axes[p] = Axis((v,), (sub(e, ONE),))
        return I.mkarr(axes, subst(c.term, {a.v: ite(lt(v, t), v, add(v, ONE))}), strong(c.dtype))
    axes[p] = Axis(a.vars, a.his, ne(a.v, t))
    return I.mkarr(axes, c.term, strong(c.dtype))


@model("np.insert")
def _insert(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    n = self.num(args[1], node)
    ax = arg(args, kw, 3, "axis")
    if c is None or n is None:
        return I.top("insert", node)
    p = 0 if ax is None or ax is NONE else self.norm_axes(c, ax, node)[0]
    e = c.axes[p].extent()
    if self.ext_eq(n.t, e) is True:
        vc = self.arrc(args[2], node)
        if vc is not None and len(vc.axes) == len(c.axes) - 1:
            axes = list(vc.axes)
            axes.insert(p, plain_axis(ONE))
            v = I.mkarr(axes, vc.term, strong(vc.dtype))
            return MODELS["np.concatenate"](self, [Tup([args[0], v])], {"axis": Num(num(p), "pyint")}, node)
    return I.top("insert", node)


@model("np.repeat")
def _repeat(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    n = self.num(args[1], node)
    ax = arg(args, kw, 2, "axis")
    if c is None or n is None:
        return I.top("repeat", node)
    if not c.axes:
        return I.mkarr([plain_axis(n.t)], c.term, strong(c.dtype))
    if ax is not None and ax is not NONE:
        p = self.norm_axes(c, ax, node)[0]
        if c.axes[p].extent() is ONE:
            axes = list(c.axes)
            v = fresh("i")
            axes[p] = Axis((v,), (n.t,))
            return I.mkarr(axes, subst(c.term, {c.axes[p].v: ZERO}), strong(c.dtype))
    return I.top("repeat", node)


@model("np.tile")
def _tile(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    sh = shape_arg(self, args[1], node)
    if c is None or sh is None:
        return I.top("tile", node)
    axes = list(c.axes)
    while len(axes) < len(sh):
        axes.insert(0, plain_axis(ONE))
    while len(sh) < len(axes):
        sh.insert(0, ONE)
    m = {}
    for i, (a, s) in enumerate(zip(axes, sh)):
        if s is ONE:
            continue
        if a.plain and a.his[0] is ONE:
            v = fresh("i")
            axes[i] = Axis((v,), (s,))
            m[a.v] = ZERO
        else:
            return I.top("tile", node)
    return I.mkarr(axes, subst(c.term, m), strong(c.dtype))


@model("np.broadcast_to")
def _broadcast_to(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    sh = shape_arg(self, args[1], node)
    if c is None or sh is None:
        return I.top("broadcast_to", node)
    z = ArrC([plain_axis(e) for e in sh], ZERO, c.dtype)
    r = self.broadcast([z, c], node)
    if r is None:
        return I.top("broadcast_to", node)
    return I.mkarr(r[0], r[1][1], strong(c.dtype), frozenset(I.origins(args[0])))


# ================================================================ triangles, selection
def _tri(keep):
    def f(self, args, kw, node):
        I = self.I
        c = self.arrc(args[0], node)
        k = arg(args, kw, 1, "k")
        kt = self.num(k, node).t if k is not None else ZERO
        if c is None or len(c.axes) != 2 or not all(a.plain for a in c.axes):
            return I.top("triu", node)
        i, j = c.axes[0].v, c.axes[1].v
        cond = le(add(i, kt), j) if keep == "u" else le(j, add(i, kt))
        if strong(c.dtype) == "bool":
            return I.mkarr(c.axes, and_(cond, as_cond(c.term)), "bool")
        return I.mkarr(c.axes, ite(cond, from_cond(c.term), ZERO), strong(c.dtype))
    return f


MODELS["np.triu"] = _tri("u")
MODELS["np.tril"] = _tri("l")


def _tri_idx(keep, frm):
    def f(self, args, kw, node):
        I = self.I
        if frm:
            c = self.arrc(args[0], node)
            if c is None or len(c.axes) != 2:
                return I.top("triu_indices_from", node)
            n, m = c.axes[0].extent(), c.axes[1].extent()
            k = arg(args, kw, 1, "k")
        else:
            x = self.num(arg(args, kw, 0, "n"), node)
            if x is None:
                return I.top("triu_indices", node)
            n = m = x.t
            k = arg(args, kw, 1, "k")
            mm = arg(args, kw, 2, "m")
            if mm is not None and mm is not NONE:
                m = self.num(mm, node).t
        kt = self.num(k, node).t if k is not None else ZERO
        i, j = fresh("r"), fresh("c")
        cond = le(add(i, kt), j) if keep == "u" else le(j, add(i, kt))
        if isnum(n) and isnum(m) and isnum(kt):
            pts = [(a, b) for a in range(int(n.args[0])) for b in range(int(m.args[0])) if (a + kt.args[0] <= b if keep == "u" else b <= a + kt.args[0])]
            L = len(pts)
            outs = []
            for q in (0, 1):
                ax = plain_axis(num(L))
                t = ZERO
                for idx in range(L - 1, -1, -1):
                    t = num(pts[idx][q]) if idx == L - 1 else ite(eq(ax.v, num(idx)), num(pts[idx][q]), t)
                outs.append(I.mkarr([ax], t, "i8"))
            return Tup(outs)
        ax = Axis((i, j), (n, m), cond)
        return Tup([I.mkarr([ax], i, "i8"), I.mkarr([ax], j, "i8")])
    return f


MODELS["np.triu_indices"] = _tri_idx("u", False)
MODELS["np.tril_indices"] = _tri_idx("l", False)
MODELS["np.triu_indices_from"] = _tri_idx("u", True)
MODELS["np.tril_indices_from"] = _tri_idx("l", True)


@model("np.diag_indices", "np.diag_indices_from")
def _diag_idx(self, args, kw, node):
    I = self.I
    n = self.num(args[0], node)
    if n is None:
        c = self.arrc(args[0], node)
        if c is None:
            return I.top("diag_indices", node)
        n = Num(c.axes[0].extent(), "pyint")
    a = plain_axis(n.t)
    return Tup([I.mkarr([a], a.v, "i8"), I.mkarr([a], a.v, "i8")])


@model("np.fill_diagonal")
def _filldiag(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    v = self.num(args[1], node)
    if c is None or len(c.axes) != 2 or v is None or not all(a.plain for a in c.axes):
        I.havoc_args(args[:1], {}, node, "fill_diagonal")
        return NONE
    i, j = c.axes[0].v, c.axes[1].v
    r = I.mkarr(c.axes, ite(eq(i, j), from_cond(v.t), from_cond(c.term)), strong(c.dtype))
    self.setitem(args[0], ELL, r, node)
    return NONE


@model("np.copyto")
def _copyto(self, args, kw, node):
    src = args[1]
    w = arg(args, kw, 3, "where")
    if w is not None and not (isinstance(w, Num) and w.t is TRUE):
        src = _where(self, [w, args[1], args[0]], {}, node)
    self.setitem(args[0], ELL, src, node)
    return NONE


@model("np.put", "np.place", "np.putmask")
def _put(self, args, kw, node):
    self.I.havoc_args(args[:1], {}, node, "put")
    return NONE


@model("np.ix_")
def _ix(self, args, kw, node):
    I = self.I
    outs = []
    n = len(args)
    for p, a in enumerate(args):
        c = self.arrc(a, node)
        if c is None or len(c.axes) != 1:
            return I.top("ix_", node)
        if strong(c.dtype) == "bool":
            c2 = c.renamed()
            c = ArrC([Axis(c2.axes[0].vars, c2.axes[0].his, and_(c2.axes[0].cond, as_cond(c2.term)))], c2.axes[0].v, "i8")
        axes = [plain_axis(ONE) for _ in range(n)]
        axes[p] = c.axes[0]
        outs.append(I.mkarr(axes, c.term, "i8"))
    return Tup(outs)


@model("np.take")
def _take(self, args, kw, node):
    ax = arg(args, kw, 2, "axis")
    if ax is None or ax is NONE:
        return self.getitem(self.ravel(args[0], node), args[1], node)
    c = self.arrc(args[0], node)
    p = self.norm_axes(c, ax, node)[0]
    full = Slc(NONE, NONE, NONE)
    return self.getitem(args[0], Tup([full] * p + [args[1]]), node)


@model("np.compress")
def _compress(self, args, kw, node):
    ax = arg(args, kw, 2, "axis")
    if ax is None or ax is NONE:
        return self.getitem(self.ravel(args[1], node), args[0], node)
    p = self.norm_axes(self.arrc(args[1], node), ax, node)[0]
    return self.getitem(args[1], Tup([Slc(NONE, NONE, NONE)] * p + [args[0]]), node)


def unique_of(self, c, want, node):
    """the sorted distinct values of any one-dimensional array without missing values"""
    I = self.I
    if c.term.op == "top" or not (is_int(from_cond(c.term)) or c.dtype == "lab") or want:
        return I.top("unique of something else than the labels", node)
    h = c.axes[0].his[0]
    cd = c.axes[0].cond
    if c.axes[0].v not in free(c.term):
        if cd is not TRUE:
            return I.top("unique of a selection", node)
        # one value throughout
        e = ONE if I.decide(le(ONE, h)) is True else fn("min2", h, ONE)
        return I.mkarr([plain_axis(I.simp(e), "u")], from_cond(c.term), c.dtype)
    n = lambda: fresh("s")
    at = lambda v: from_cond(c.at([v]))
    on = lambda v: subst(cd, {c.axes[0].v: v})

    def first(v):
        w = n()
        return and_(on(v), not_(quant("any", [w], [h], and_(on(w), lt(w, v), eq(at(w), at(v))))))

    s = n()
    k = red("sum", [s], [h], first(s), ONE)
    a = plain_axis(k, "u")
    s, t = n(), n()
    below = red("sum", [t], [h], and_(first(t), lt(at(t), at(s))), ONE)
    return I.mkarr([a], red("min", [s], [h], and_(on(s), eq(below, a.v)), at(s)), c.dtype)


@model("np.unique")
def _unique(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    want = [k for k in ("return_index", "return_inverse", "return_counts") if flag(self, kw.get(k), node, False)]
    n = self.num(args[0], node)
    if n is not None and not want and n.k != "mix":
        return I.mkarr([plain_axis(ONE, "u")], from_cond(n.t), "lab" if n.k == "lab" else "f8" if n.k in ("pyfloat", "npfloat", "caller") else "i8")
    if c is None or len(c.axes) != 1 or len(c.axes[0].vars) != 1 or "axis" in kw or len(args) > 1:
        return I.top("unique", node)
    i = c.axes[0].v
    if not c.axes[0].plain or not (c.term.op == "el" and c.term.args[0] == "lab" and c.term.args[1] is i and self.ext_eq(c.axes[0].his[0], sym("m", "int")) is True):
        return unique_of(self, c, want, node)
    k = sym("k", "int")
    a = plain_axis(k, "u")
    out = [I.mkarr([a], el("u", a.v), "lab")]
    for w in want:
        if w == "return_index":
            a2 = plain_axis(k, "u")
            s = fresh("s")
            out.append(I.mkarr([a2], red("min", [s], [sym("m", "int")], eq(el("lab", s), el("u", a2.v)), s), "i8"))
        elif w == "return_inverse":
            b = plain_axis(sym("m", "int"), "s")
            out.append(I.mkarr([b], el("cls", b.v), "i8"))
        else:
            a2 = plain_axis(k, "u")
            s = fresh("s")
            out.append(I.mkarr([a2], red("sum", [s], [sym("m", "int")], eq(el("lab", s), el("u", a2.v)), ONE), "i8"))
    return out[0] if len(out) == 1 else Tup(out)


@model("np.bincount")
def _bincount(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    if c is None or len(c.axes) != 1:
        return I.top("bincount", node)
    k = None
    if c.term.op == "el" and c.term.args[0] == "cls":
        k = sym("k", "int")
    ml = kw.get("minlength")
    if k is None:
        return I.top("bincount", node)
    if ml is not None and self.ext_eq(self.num(ml, node).t, k) is not True:
        return I.top("bincount minlength", node)
    a = plain_axis(k, "u")
    c = c.renamed()
    w = kw.get("weights", args[1] if len(args) > 1 else None)
    body = ONE
    if w is not None and w is not NONE:
        wc = self.arrc(w, node)
        if wc is None or len(wc.axes) != 1:
            return I.top("bincount", node)
        body = from_cond(wc.at([c.axes[0].v]))
    return I.mkarr([a], red("sum", c.axes[0].vars, c.axes[0].his, eq(c.term, a.v), body), "i8" if body is ONE else "f8")


@model("np.isin", "np.in1d")
def _isin(self, args, kw, node):
    I = self.I
    a, b = self.arrc(args[0], node), self.arrc(arg(args, kw, 1, "test_elements", kw.get("ar2")), node)
    inv = flag(self, kw.get("invert"), node, False)
    if a is None or b is None or inv is None:
        return I.top("isin", node)
    b = b.renamed()
    vs, hs = list(b.allvars()), [h for x in b.axes for h in x.his]
    e = eq(from_cond(a.term), from_cond(b.term))
    q = quant("any", vs, hs, e) if vs else e
    return I.mkarr(a.axes, not_(q) if inv else q, "bool")


# ================================================================ shape functions
MODELS["np.transpose"] = lambda s, a, k, n: _transp(s, a, k, n)


def _transp(self, args, kw, node):
    ax = arg(args, kw, 1, "axes")
    perm = None
    if ax is not None and ax is not NONE:
        sh = shape_arg(self, ax, node)
        if sh is None or not all(isnum(x) for x in sh):
            return self.I.top("transpose axes", node)
        nd = len(sh)
        perm = [int(x.args[0]) % nd for x in sh]
    return self.transpose(args[0], perm, node)


@model("np.swapaxes")
def _swap(self, args, kw, node):
    c = self.arrc(args[0], node)
    if c is None:
        return self.I.top("swapaxes", node)
    p = list(range(len(c.axes)))
    i, j = [int(self.num(a, node).t.args[0]) % len(p) for a in args[1:3]]
    p[i], p[j] = p[j], p[i]
    return self.transpose(args[0], p, node)


@model("np.moveaxis")
def _move(self, args, kw, node):
    c = self.arrc(args[0], node)
    if c is None:
        return self.I.top("moveaxis", node)
    nd = len(c.axes)
    i, j = [int(self.num(a, node).t.args[0]) % nd for a in args[1:3]]
    p = [x for x in range(nd) if x != i]
    p.insert(j, i)
    return self.transpose(args[0], p, node)


@model("np.expand_dims")
def _expand(self, args, kw, node):
    c = self.arrc(args[0], node)
    ax = arg(args, kw, 1, "axis")
    n = self.num(ax, node) if ax is not None else None
    if c is None or n is None or not isnum(n.t):
        return self.I.top("expand_dims", node)
    p = int(n.t.args[0]) % (len(c.axes) + 1)
    v = args[0] if self.I.is_arr(args[0]) else self.I.mkarr(c.axes, c.term, strong(c.dtype))
    return self.getitem(v, Tup([Slc(NONE, NONE, NONE)] * p + [NONE]), node) if c.axes else self.I.mkarr([plain_axis(ONE)], c.term, strong(c.dtype))


@model("np.squeeze")
def _squeeze(self, args, kw, node):
    I = self.I
    c = self.arrc(args[0], node)
    if c is None:
        return I.top("squeeze", node)
    ax = arg(args, kw, 1, "axis")
    ps = self.norm_axes(c, ax, node) if ax is not None and ax is not NONE else None
    keep = []
    for i, a in enumerate(c.axes):
        if ps is not None:
            if i in ps:
                I.may_raise("ValueError", ne(a.extent(), ONE), node, "cannot squeeze")
            else:
                keep.append(a)
        else:
            d = I.decide(eq(a.extent(), ONE))
            if d is None:
                # the rank of the result depends on the extents
                return I.top("squeeze", node)
            if d is False:
                keep.append(a)
    m = {a.v: ZERO for a in c.axes if a not in keep and a.plain}
    t = subst(c.term, m)
    if not keep:
        return I.mkarr([], t, strong(c.dtype))
    return I.mkarr(keep, t, strong(c.dtype), frozenset(I.origins(args[0])) if isinstance(args[0], Ref) else frozenset())


@model("np.reshape")
def _reshape(self, args, kw, node):
    s = arg(args, kw, 1, "shape", kw.get("newshape"))
    v = args[0]
    if not self.I.is_arr(v):
        v = _array(self, [v], {}, node, True)
    if isinstance(s, Num):
        return self.reshape(v, [s], node)
    d = self.iter_desc(s, node)
    if d is None or d[0] != "conc":
        return self.I.top("reshape", node)
    return self.reshape(v, d[1], node)


MODELS["np.ravel"] = lambda s, a, k, n: s.ravel(a[0], n)


@model("np.ndim")
def _ndim(self, args, kw, node):
    c = self.arrc(args[0], node)
    return Num(num(len(c.axes)), "pyint") if c is not None else self.I.top("ndim", node)


@model("np.shape")
def _shape(self, args, kw, node):
    c = self.arrc(args[0], node)
    return Tup([Num(self.I.simp(e), "pyint") for e in c.shape()]) if c is not None else self.I.top("shape", node)


@model("np.size")
def _size(self, args, kw, node):
    c = self.arrc(args[0], node)
    if c is None:
        return self.I.top("size", node)
    ax = arg(args, kw, 1, "axis")
    if ax is not None and ax is not NONE:
        return Num(self.I.simp(c.axes[self.norm_axes(c, ax, node)[0]].extent()), "pyint")
    return Num(self.I.simp(mul(*c.shape())) if c.axes else ONE, "pyint")


@model("np.isscalar")
def _isscalar(self, args, kw, node):
    return B(TRUE if isinstance(args[0], (Num, Str)) else FALSE)


@model("np.array_equal", "np.array_equiv")
def _array_equal(self, args, kw, node):
    I = self.I
    a, b = self.arrc(args[0], node), self.arrc(args[1], node)
    if a is None or b is None:
        return I.top("array_equal", node)
    if len(a.axes) != len(b.axes):
        return B(FALSE)
    for x, y in zip(a.axes, b.axes):
        if self.ext_eq(x.extent(), y.extent()) is not True:
            return I.top("array_equal", node)
    return self.reduce("all", self.compare("Eq", args[0], args[1], node), None, node)


@model("np.allclose", "np.isclose")
def _allclose(self, args, kw, node):
    def tol(n, i, d):
        v = arg(args, kw, i, n)
        return self.num(v, node).t if v is not None else num(d)
    rt, at = tol("rtol", 2, 1e-5), tol("atol", 3, 1e-8)
    return uf(self, lambda x, y: le(fn("abs", sub(from_cond(x), from_cond(y))), add(at, mul(rt, fn("abs", from_cond(y))))), args[:2], {}, node, dtype="bool")


MODELS["np.allclose"] = lambda s, a, k, n: _ac(s, a, k, n)


def _ac(self, args, kw, node):
    r = _allclose(self, args, kw, node)
    return r if isinstance(r, Top) else self.reduce("all", r, None, node)


@model("m.isclose")
def _misclose(self, args, kw, node):
    x, y = self.num(args[0], node), self.num(args[1], node)
    if x is None or y is None:
        return self.I.top("isclose", node)
    rt = self.num(kw["rel_tol"], node).t if "rel_tol" in kw else num(1e-9)
    at = self.num(kw["abs_tol"], node).t if "abs_tol" in kw else ZERO
    return B(le(fn("abs", sub(x.t, y.t)), fn("max2", at, mul(rt, fn("max2", fn("abs", x.t), fn("abs", y.t))))))


@model("np.errstate", "contextlib.suppress_", "warnings.catch_warnings")
def _errstate(self, args, kw, node):
    v = kw.values()
    for x in v:
        if isinstance(x, Str) and x.s == "raise":
            return self.I.top("errstate(raise)", node)
    return Ext("contextmanager")


@model("np.seterr", "np.set_printoptions", "np.random.seed", "warnings.filterwarnings", "warnings.simplefilter", "np.seterrcall", "np.setbufsize")
def _impure(self, args, kw, node):
    self.I.event("impure", node, path="process-wide setting")
    return NONE


@model("np.dtype")
def _dtype(self, args, kw, node):
    d = dtype_arg(self, args[0], node)
    return Dtype(d) if d not in (None, "TOP") else self.I.top("dtype", node)


@model("np.result_type", "np.promote_types")
def _rtype(self, args, kw, node):
    from .npm import promote
    ds = []
    for a in args:
        d = dtype_arg(self, a, node) if isinstance(a, (Dtype, Ext, Str)) else None
        if d is None:
            c = self.arrc(a, node)
            d = c.dtype if c is not None else "TOP"
        if d == "TOP":
            return self.I.top("result_type", node)
        ds.append(d)
    return Dtype(strong(promote(ds)))


@model("np.issubdtype")
def _issub(self, args, kw, node):
    d = dtype_arg(self, args[0], node)
    nm = args[1].path.split(".")[-1] if isinstance(args[1], Ext) else None
    if d == "f8" or d in NARROWF:
        return B(TRUE if nm in ("floating", "inexact", "number", "float64", "generic") else FALSE)
    if d in ("i8", "wide"):
        return B(TRUE if nm in ("integer", "signedinteger", "number", "generic", "int64") else FALSE)
    if d == "bool":
        return B(TRUE if nm in ("bool_", "generic") else FALSE)
    if d == "caller" and nm in CDT_SETS:
        return B(batom("cdt:" + nm))
    return self.I.top("issubdtype", node)


@model("np.finfo")
def _finfo(self, args, kw, node):
    d = dtype_arg(self, args[0], node) if args else None
    if isinstance(args[0], Num) or self.I.is_arr(args[0]):
        d = None
    return Ext("numpy.finfo:" + d) if d in ("f8", "f4", "f2") else self.I.top("finfo", node)


@model("np.may_share_memory", "np.shares_memory")
def _shares(self, args, kw, node):
    return self.I.top("shares_memory", node)


@model("np.apply_along_axis", "np.vectorize", "np.frompyfunc", "np.fromiter", "np.nditer", "np.ndenumerate")
def _higher(self, args, kw, node):
    return self.I.top("higher-order numpy function", node)


MODELS["np.fromiter"] = lambda s, a, k, n: _fromiter(s, a, k, n)


def _fromiter(self, args, kw, node):
    l = _list(self, [args[0]], {}, node)
    return l if isinstance(l, Top) else _array(self, [l] + list(args[1:2]), {k: v for k, v in kw.items() if k == "dtype"}, node, True)


# ================================================================ array methods
RED_METH = {"sum": "np.sum", "mean": "np.mean", "max": "np.max", "min": "np.min", "prod": "np.prod", "any": "np.any", "all": "np.all",
            "var": "np.var", "std": "np.std", "ptp": "np.ptp", "argmin": "np.argmin", "argmax": "np.argmax", "argsort": "np.argsort", "cumsum": "np.cumsum",
            "dot": "np.dot", "trace": "np.trace", "clip": "np.clip", "nonzero": "np.nonzero", "squeeze": "np.squeeze", "swapaxes": "np.swapaxes",
            "repeat": "np.repeat", "take": "np.take", "diagonal": "np.diagonal"}


def arr_meth(self, o, name, args, kw, node):
    I = self.I
    if I.tables and name in ("argsort", "cumsum", "nonzero", "searchsorted"):
        r = npt.call(self, name, [o] + list(args), kw, node)
        if r is not None:
            return r
    if isinstance(o, Num) and o.k in ("pyint", "pyfloat", "pybool"):
        if name in ("conjugate", "real"):
            return o
        if name == "is_integer":
            return B(eq(o.t, fn("floor", o.t)))
        return I.top("number method " + name, node)
    if name in RED_METH:
        if any(isinstance(a, Top) for a in args):
            return next(a for a in args if isinstance(a, Top))
        return MODELS[RED_METH[name]](self, [o] + list(args), kw, node)
    if name == "copy":
        c = self.arrc(o, node)
        if isinstance(o, Num):
            return o
        return I.mkarr(c.axes, c.term, strong(c.dtype)) if c is not None else I.top("copy", node)
    if name == "astype":
        g = arg(args, kw, 0, "dtype")
        if isinstance(g, Gated):
            g = I.degate(g)
            k2 = {k: v for k, v in kw.items() if k != "dtype"}
            if isinstance(g, Gated):
                return self.gated_apply(g, lambda v: arr_meth(self, o, name, [v] + list(args[1:]), k2, node), node)
            args, kw = [g] + list(args[1:]), k2
        d = dtype_arg(self, arg(args, kw, 0, "dtype"), node)
        c = self.arrc(o, node)
        if d in (None, "TOP") or c is None:
            return I.top("astype", node)
        d0 = strong(c.dtype)
        cp = flag(self, kw.get("copy"), node, True)
        al = frozenset()
        if cp is not True and isinstance(o, Ref):
            if d0 == d:
                return o
            if d0 == "caller":
                al = frozenset(I.origins(o))
        t = cast(self, c.term, d0, d)
        if not c.axes:
            from .npm import kind_of
            return Num(t, kind_of(d))
        return I.mkarr(c.axes, t, d, al)
    if name == "item":
        n = self.num(o, node)
        if n is not None and not args:
            k = {"npfloat": "pyfloat", "npint": "pyint", "npbool": "pybool"}.get(n.k, "mix")
            return Num(n.t, k)
        c = self.arrc(o, node)
        if c is not None and not args:
            I.may_raise("ValueError", ne(mul(*c.shape()), ONE), node, "can only convert an array of size 1")
            if all(a.plain for a in c.axes):
                return Num(c.at([ZERO] * len(c.axes)), {"f8": "pyfloat", "i8": "pyint", "bool": "pybool"}.get(c.dtype, "mix"))
        return I.top("item", node)
    if name == "tobytes" and not args and not kw:
        c = self.arrc(o, node)
        if c is None or c.term.op == "top":
            return I.top("tobytes", node)
        return Tup([Str("\0bytes"), Arr(ArrC(c.axes, from_cond(c.term), strong(c.dtype), frozenset()))])
    if name == "tolist":
        c = self.arrc(o, node)
        if c is not None and len(c.axes) == 1:
            k = {"f8": "pyfloat", "i8": "pyint", "bool": "pybool", "lab": "lab"}.get(c.dtype, "mix")
            return I.alloc(ListC((c.axes[0], Num(c.term, k)), ()))
        if c is not None and not c.axes:
            return Num(c.term, {"f8": "pyfloat", "i8": "pyint", "bool": "pybool"}.get(c.dtype, "mix"))
        return I.top("tolist", node)
    if name == "transpose":
        if not args:
            return self.transpose(o, None, node)
        ax = args[0] if isinstance(args[0], Tup) else Tup(args)
        return _transp(self, [o, ax], {}, node)
    if name == "reshape":
        if len(args) == 1 and not isinstance(args[0], Num):
            d = self.iter_desc(args[0], node)
            if d is None or d[0] != "conc":
                return I.top("reshape", node)
            return self.reshape(o, d[1], node)
        return self.reshape(o, list(args), node)
    if name == "ravel":
        return self.ravel(o, node)
    if name == "flatten":
        return self.ravel(o, node, copy=True)
    if name == "fill":
        self.setitem(o, ELL, args[0], node)
        return NONE
    if name in ("conj", "conjugate", "view"):
        if args:
            return I.top("view", node)
        return o
    if name == "round":
        d = arg(args, kw, 0, "decimals")
        n = self.num(d, node).t if d is not None else ZERO
        return uf(self, lambda x: fn("round", from_cond(x), n), [o], {}, node, keep=True)
    if name == "searchsorted":
        return MODELS["np.searchsorted"](self, [o] + list(args), kw, node)
    if name == "cumprod":
        return MODELS["np.cumprod"](self, [o] + list(args), kw, node)
    if name == "sort" and isinstance(o, Ref):
        self.setitem(o, ELL, MODELS["np.sort"](self, [o] + list(args), kw, node), node)
        return NONE
    if name in ("sort", "resize", "partition", "put", "itemset", "setflags", "byteswap"):
        if isinstance(o, Ref):
            self.havoc_arr(o, node)
        I.top("array method " + name, node)
        return NONE
    if name == "compress":
        return _compress(self, [args[0], o] + list(args[1:]), kw, node)
    return I.top("array method " + name, node)


MODELS["np.round"] = lambda s, a, k, n: arr_meth(s, a[0], "round", a[1:], k, n)
MODELS["np.around"] = MODELS["np.round"]
from . import npo  # noqa: E402
npo.attach(MODELS)
