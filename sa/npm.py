"""Model of the Python built-ins and the NumPy operations on abstract values."""
import ast
from .terms import *
from .terms import N_
from .facts import simplify
from .vals import *
from . import npt
from . import interp as ip
from .interp import Raised, LIMIT

ARITH = {"Add", "Sub", "Mult", "Pow", "FloorDiv", "Mod"}


def isint_kind(k):
    return k in ("pyint", "npint", "pybool", "npbool", "lab") or k in NARROWI


def kind_of(dtype):
    return {"f8": "npfloat", "i8": "npint", "bool": "npbool", "caller": "caller", "wide": "npint", "lab": "lab", "obj": "mix"}.get(dtype, dtype if dtype in NARROW else "mix")


def dtype_of(kind):
    return {"npfloat": "f8", "npint": "i8", "npbool": "bool", "caller": "caller", "lab": "lab",
            "pyint": "pyint", "pyfloat": "pyfloat", "pybool": "pybool", "mix": "f8"}.get(kind, kind if kind in NARROW else "f8")


def strong(d):
    return {"pyint": "i8", "pyfloat": "f8", "pybool": "bool"}.get(d, d)


def promote(ds):
    """result dtype of arithmetic between dtypes (NEP 50 weak python scalars)"""
    ds = list(ds)
    weak = [d for d in ds if d in ("pyint", "pyfloat", "pybool")]
    st = [d for d in ds if d not in ("pyint", "pyfloat", "pybool")]
    if not st:
        return "pyfloat" if "pyfloat" in weak else "pyint"
    st = ["i8" if d == "lab" else d for d in st]
    if "obj" in st:
        return "obj"
    if "f8" in st:
        r = "f8"
    elif any(d in NARROW for d in st):
        r = promote_narrow(st)
    elif "wide" in st:
        r = "wide"
    elif "caller" in st:
        r = "caller" if all(d in ("caller", "bool") for d in st) else "wide"
    elif "i8" in st:
        r = "i8"
    else:
        r = "bool"
    if "pyfloat" in weak:
        return r if r in NARROWF else "f8"
    if "pyint" in weak and r == "bool":
        return "i8"
    return r


def promote_narrow(st):
    """NumPy's promotion when a narrow type takes part"""
    if any(d in ("f4", "f2", "c4", "c2") for d in st) and any(d in ("caller", "c4", "c2") for d in st):
        if any(d in ("wide", "i8", "s32", "u32") for d in st):
            return "f8"
        return "c4" if any(d in ("f4", "c4", "s16", "u16") for d in st) else "c2"
    if "f4" in st:
        return "f4" if all(d in ("f4", "f2", "bool", "s8", "u8", "s16", "u16") for d in st) else "f8"
    if "f2" in st:
        return "f2" if all(d in ("f2", "bool", "s8", "u8") for d in st) else "f4" if all(d in ("f2", "bool", "s8", "u8", "s16", "u16") for d in st) else "f8"
    if any(d in ("caller", "wide") for d in st):
        return "wide"
    if "i8" in st:
        return "i8"
    ds = [NARROWI[d] for d in st if d in NARROWI]
    s = [b for b, g in ds if g]
    u = [b for b, g in ds if not g]
    bits = max(s + u)
    if s and u:
        bits = max(max(s), 2 * max(u))
        return "s%d" % bits if bits <= 32 else "i8"
    return ("s%d" if s else "u%d") % bits


def npkind(d):
    return kind_of(strong(d))


class NP:
    def __init__(self, I):
        self.I = I
        self.funcs = {}
        self.defaultdicts = {}
        self.factories = {}
        for n in dir(self):
            if n.startswith("f_"):
                self.funcs[n[2:].replace("__", ".")] = getattr(self, n)
        for n in npf.MODELS:
            self.funcs[n] = getattr(self, "f_" + n.replace(".", "__"))

    # ============================================================ conversions
    def num(self, v, node):
        """value as Num or None"""
        if isinstance(v, Gated):
            v = self.I.degate(v)
        if isinstance(v, Num):
            return v
        if isinstance(v, (Ref, Arr)) and self.I.is_arr(v):
            c = self.I.content(v)
            if isinstance(c, ArrC) and not c.axes:
                return Num(c.term, kind_of(c.dtype))
            if isinstance(c, ArrC) and all(self.I.decide(eq(e, ONE)) is True for e in c.shape()) and all(a.plain for a in c.axes):
                return Num(self.I.simp(c.at([ZERO] * len(c.allvars()))), kind_of(c.dtype))
        return None

    def arrc(self, v, node, dtype=None):
        """np.asarray semantics: content of an array-like, or None"""
        I = self.I
        if isinstance(v, Gated):
            v = I.degate(v)
        if isinstance(v, Num):
            return ArrC((), v.t, dtype_of(v.k))
        if isinstance(v, Arr):
            return v.c
        if isinstance(v, Ref):
            c = I.content(v)
            if isinstance(c, ArrC):
                return c
            if isinstance(c, ListC):
                return self.list_to_arr(c, node)
            return None
        if isinstance(v, Tup):
            return self.list_to_arr(ListC(None, [(TRUE, x) for x in v.items]), node)
        if isinstance(v, Rng):
            d = self.iter_desc(v, node)
            if d and d[0] == "conc":
                return self.list_to_arr(ListC(None, [(TRUE, x) for x in d[1]]), node)
            if d:
                return ArrC((d[1],), d[2].t, "i8")
        return None

    def list_to_arr(self, c, node):
        I = self.I
        if c.base is None and not c.tail:
            return ArrC((plain_axis(ZERO),), ZERO, "f8")
        n = self.list_norm(c)
        if n is None or n.base is None:
            return None
        ax, item = n.base
        if isinstance(item, Tup):
            item = Arr(self.list_to_arr(ListC(None, [(TRUE, x) for x in item.items]), node)) if self.list_to_arr(ListC(None, [(TRUE, x) for x in item.items]), node) is not None else item
        if isinstance(item, Num):
            return ArrC((ax,), item.t, strong(dtype_of(item.k)))
        if isinstance(item, Arr):
            a = item.c
            if set(a.allvars()) & set(ax.vars):
                a = a.renamed()
            return ArrC((ax,) + a.axes, a.term, strong(a.dtype))
        return None

    def wrap(self, axes, term, dtype, node=None, alias=frozenset()):
        """array value, or scalar if 0-dimensional"""
        if not axes:
            return Num(self.I.simp(term), npkind(dtype))
        return self.I.mkarr(axes, term, strong(dtype), alias)

    def ext_eq(self, a, b):
        if a is b:
            return True
        r = self.I.decide(eq(a, b))
        if r is None:
            a2, b2 = alpha(self.I.simp(a)), alpha(self.I.simp(b))
            if a2 is b2:
                return True
        return r

    # ============================================================ broadcasting
    def broadcast(self, cs, node):
        """align contents; returns (axes, [terms]) or None"""
        I = self.I
        nd = max(len(c.axes) for c in cs)
        axes = []
        maps = [dict() for _ in cs]
        used = set()
        for p in range(nd):
            pos = [(j, c.axes[len(c.axes) - nd + p]) for j, c in enumerate(cs) if len(c.axes) - nd + p >= 0]
            non1 = []
            for j, a in pos:
                e = a.extent() if a.plain else None
                if e is ONE:
                    continue
                non1.append((j, a))
            if not non1:
                j0, a0 = pos[0]
                ax = a0
                if set(ax.vars) & used:
                    ax, _ = ax.renamed()
                for j, a in pos:
                    maps[j].update({a.vars[0]: ZERO} if a.plain else {})
                axes.append(ax)
                used |= set(ax.vars)
                continue
            # representative: prefer filtered axes, then the first
            rep = next(((j, a) for j, a in non1 if not a.plain), non1[0])
            ax = rep[1]
            if set(ax.vars) & used:
                ax, _ = ax.renamed()
            for j, a in pos:
                if (j, a) not in non1:
                    maps[j][a.vars[0]] = ZERO
                    continue
                if axis_same(a, ax):
                    maps[j].update(zip(a.vars, ax.vars))
                    continue
                if a.plain and ax.plain:
                    same = self.ext_eq(a.his[0], ax.his[0])
                    if same is True:
                        maps[j][a.v] = ax.v
                        continue
                    d1 = I.decide(eq(a.his[0], ONE))
                    if d1 is True:
                        maps[j][a.v] = ZERO
                        continue
                    d2 = I.decide(eq(ax.his[0], ONE))
                    if d2 is True:
                        # the representative is the singleton
                        newax = a if not (set(a.vars) & used) else a.renamed()[0]
                        for jj, m in enumerate(maps):
                            for k in list(m):
                                if m[k] is ax.v:
                                    m[k] = ZERO
                        ax = newax
                        maps[j].update(zip(a.vars, ax.vars))
                        continue
                    I.may_raise("ValueError", and_(ne(a.his[0], ax.his[0]), ne(a.his[0], ONE), ne(ax.his[0], ONE)), node, "operands could not be broadcast")
                    # only equal extents (or singletons) continue: the equal case
                    if same is None and d1 is None and d2 is None:
                        c1 = eq(a.his[0], ax.his[0])
                        if I.s.ctx.decide(c1) is True:
                            maps[j][a.v] = ax.v
                            continue
                    return None
                # filtered against plain: fine when one of them does not depend on the position
                other = a
                same = self.ext_eq(a.extent(), ax.extent())
                if same is True:
                    if other.plain and other.v not in free(cs[j].term):
                        maps[j][other.v] = ZERO
                        continue
                return None
            axes.append(ax)
            used |= set(ax.vars)
        terms = []
        for c, m in zip(cs, maps):
            terms.append(subst(c.term, m))
        return axes, terms

    def elementwise(self, f, vals, node, dtype=None, wrapc=False):
        """apply f(terms...) elementwise"""
        I = self.I
        cs = []
        for v in vals:
            c = self.arrc(v, node)
            if c is None:
                return I.top("operand", node)
            cs.append(c)
        r = self.broadcast(cs, node)
        if r is None:
            return I.top("broadcast", node)
        axes, terms = r
        t = f(*terms)
        d = dtype if dtype is not None else promote([c.dtype for c in cs])
        if d == "caller" and wrapc:
            t = fn("wrapc", t)
        if d in NARROW and (wrapc or d in NARROWF):
            t = narrow(from_cond(t), d)
        return self.wrap(axes, t, d, node)

    # ============================================================ operators
    OPS = {"Add": lambda a, b: add(a, b), "Sub": lambda a, b: sub(a, b), "Mult": lambda a, b: mul(a, b),
           "Div": lambda a, b: div(a, b), "Pow": lambda a, b: power(a, b),
           "FloorDiv": lambda a, b: fn("floor", div(a, b)), "Mod": lambda a, b: fn("mod", a, b)}
    DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__",
              "MatMult": "__matmul__", "FloorDiv": "__floordiv__", "Mod": "__mod__"}

    def binop(self, op, a, b, node):
        I = self.I
        if isinstance(a, Gated):
            a = I.degate(a)
        if isinstance(b, Gated):
            b = I.degate(b)
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Gated):
                return self.gated_apply(x, lambda v: self.binop(op, *((y, v) if flip else (v, y)), node), node)
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, Str) or isinstance(b, Str):
            if op == "Add" and isinstance(a, Str) and isinstance(b, Str):
                return Str(a.s + b.s if a.s is not None and b.s is not None else None)
            if op == "Mod" and isinstance(a, Str):
                return Str(None)
            if op == "Mult":
                return Str(None)
            raise Raised("TypeError", node, "string operand")
        if a is NONE or b is NONE:
            raise Raised("TypeError", node, "None operand")
        if isinstance(a, Tup) and isinstance(b, Tup) and op == "Add":
            return Tup(a.items + b.items)
        la, lb = self.is_list(a), self.is_list(b)
        if op == "Add" and la and lb:
            r = self.list_concat_content(I.content(a), I.content(b), None)
            return I.alloc(r) if r is not None else I.top("list concatenation", node)
        if op == "Mult" and (la and isinstance(b, Num) or lb and isinstance(a, Num) or isinstance(a, Tup) and isinstance(b, Num)):
            l, k = (a, b) if (la or isinstance(a, Tup)) else (b, a)
            return self.list_repeat(l, k, node)
        if isinstance(a, Ref) and isinstance(I.s.heap.get(a.loc), ObjC) or isinstance(b, Ref) and isinstance(I.s.heap.get(b.loc), ObjC):
            return self.obj_binop(op, a, b, node)
        if (la or lb) and not (self.I.is_arr(a) or self.I.is_arr(b) or npscalar(a) or npscalar(b)):
            raise Raised("TypeError", node, "unsupported operand types")
        if op == "MatMult":
            return self.matmul(a, b, node)
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            return self.logical(op, a, b, node)
        if op not in self.OPS:
            return I.top("operator " + op, node)
        if isinstance(a, Num) and isinstance(b, Num):
            return self.num_binop(op, a, b, node)
        ta = lambda x, y: self.OPS[op](from_cond(x), from_cond(y))
        ca, cb = self.arrc(a, node), self.arrc(b, node)
        if ca is None or cb is None:
            return I.top("operand", node)
        if op == "Div":
            d = promote([ca.dtype, cb.dtype])
            d = d if d in NARROWF else "f8"
        else:
            d = promote([ca.dtype, cb.dtype])
            if d == "bool":
                if op == "Sub":
                    raise Raised("TypeError", node, "boolean subtract")
                d = "i8" if op not in ("Add", "Mult") else "bool"
                if d == "bool":
                    return self.elementwise(lambda x, y: (or_ if op == "Add" else and_)(as_cond(x), as_cond(y)), [a, b], node, dtype="bool")
            if op == "Pow" and d in ("i8", "caller", "wide") and isnum(cb.term) and cb.term.args[0] < 0 and not cb.axes:
                raise Raised("ValueError", node, "integers to negative integer powers")
        return self.elementwise(ta, [a, b], node, dtype=d, wrapc=op in ARITH)

    def gated_apply(self, g, f, node):
        """apply to both alternatives of a gated value"""
        I = self.I
        s0 = I.s
        I.s = s0.copy().assume(g.c)
        outs = []
        for v, c in ((g.a, g.c), (g.b, not_(g.c))):
            I.s = s0.copy().assume(c)
            try:
                r = f(v)
                outs.append((I.s, r))
            except Raised as e:
                if len(I.sinks) > 1:
                    I.sinks[-1].append((I.s, e.exc, e.node or node, e.msg))
                else:
                    I.event("mayraise", e.node or node, TRUE, exc=e.exc, msg=e.msg)
                outs.append(None)
        if outs[0] is None and outs[1] is None:
            I.s = None
            raise ip.Dead()
        if outs[0] is None:
            I.s = outs[1][0]
            return outs[1][1]
        if outs[1] is None:
            I.s = outs[0][0]
            return outs[0][1]
        st, vals = I.join_with(g.c, outs[0][0], outs[1][0], [outs[0][1]], [outs[1][1]])
        I.s = st
        return vals[0]

    def obj_binop(self, op, a, b, node):
        I = self.I
        d = self.DUNDER.get(op)
        if isinstance(a, Ref) and isinstance(I.s.heap.get(a.loc), ObjC):
            m, _ = I.class_lookup(I.s.heap[a.loc].cls, d)
            if isinstance(m, Func):
                return I.call(Bound(m, a), [b], {}, node)
        if isinstance(b, Ref) and isinstance(I.s.heap.get(b.loc), ObjC):
            m, _ = I.class_lookup(I.s.heap[b.loc].cls, d.replace("__", "__r", 1) if d else "")
            if isinstance(m, Func):
                return I.call(Bound(m, b), [a], {}, node)
        return I.top("operator on object", node)

    def num_binop(self, op, a, b, node):
        I = self.I
        ta, tb = from_cond(a.t), from_cond(b.t)
        py = a.k in PYK and b.k in PYK
        lab = "lab" in (a.k, b.k)
        if op in ("Div", "FloorDiv", "Mod") and py:
            I.may_raise("ZeroDivisionError", eq(tb, ZERO), node, "division by zero")
        if op == "Pow" and py:
            if not (isnum(tb) and tb.args[0] >= 0):
                z = and_(eq(ta, ZERO), lt(tb, ZERO))
                if self.I.decide(z) is not False and not (isnum(ta) and ta.args[0] != 0):
                    I.may_raise("ZeroDivisionError", z, node, "0 to a negative power")
        t = self.OPS[op](ta, tb)
        if py:
            if op == "Div":
                k = "pyfloat"
            elif "pyfloat" in (a.k, b.k):
                k = "pyfloat"
            elif op == "Pow" and not (isnum(tb) and tb.args[0] >= 0):
                k = "pyint" if I.decide(le(ZERO, tb)) is True else "pyfloat"
            else:
                k = "pyint"
            return Num(I.simp(t), k)
        if "mix" in (a.k, b.k):
            return Num(I.simp(t), "mix" if a.k in PYK + ("mix",) and b.k in PYK + ("mix",) else "npfloat")
        d = promote([dtype_of(a.k), dtype_of(b.k)])
        if op == "Div":
            d = d if d in NARROWF else "f8"
        if d in NARROW:
            t = narrow(t, d)
        if d == "bool":
            if op == "Sub":
                raise Raised("TypeError", node, "boolean subtract")
            d = "i8"
        if lab and d == "i8":
            k = "lab"
        if d == "caller" and op in ARITH:
            t = fn("wrapc", t)
        return Num(I.simp(t), npkind(d))

    BITS = {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "LShift": "shl", "RShift": "shr"}

    def logical(self, op, a, b, node):
        f = {"BitAnd": lambda x, y: and_(as_cond(x), as_cond(y)), "BitOr": lambda x, y: or_(as_cond(x), as_cond(y)),
             "BitXor": lambda x, y: or_(and_(as_cond(x), not_(as_cond(y))), and_(not_(as_cond(x)), as_cond(y)))}.get(op)
        if isinstance(a, Num) and isinstance(b, Num):
            if a.k in BOOLK and b.k in BOOLK and f is not None:
                return Num(f(a.t, b.t), join_kind(a.k, b.k))
            if isint_kind(a.k) and isint_kind(b.k):
                t = fn(self.BITS[op], from_cond(a.t), from_cond(b.t))
                if a.k in PYK and b.k in PYK:
                    if op in ("LShift", "RShift"):
                        self.I.may_raise("ValueError", lt(from_cond(b.t), ZERO), node, "negative shift count")
                    return Num(self.I.simp(t), "pyint")
                d = promote([dtype_of(a.k), dtype_of(b.k)])
                return Num(self.I.simp(narrow(t, d)), "lab" if "lab" in (a.k, b.k) else npkind(d))
            return self.I.top("bit operation", node)
        if self.is_set(a) or self.is_set(b):
            return self.I.top("set operation", node)
        ca, cb = self.arrc(a, node), self.arrc(b, node)
        ints = ("i8", "lab", "bool") + tuple(NARROWI)
        if ca is not None and cb is not None and strong(ca.dtype) in ints and strong(cb.dtype) in ints and not (f and strong(ca.dtype) == strong(cb.dtype) == "bool"):
            d = promote([ca.dtype, cb.dtype])
            if d != "bool":
                return self.elementwise(lambda x, y: fn(self.BITS[op], from_cond(x), from_cond(y)), [a, b], node, dtype=d, wrapc=True)
        if ca is None or cb is None or f is None or strong(ca.dtype) != "bool" or strong(cb.dtype) != "bool":
            return self.I.top("bit operation", node)
        return self.elementwise(f, [a, b], node, dtype="bool")

    def unary(self, op, v, node):
        I = self.I
        if isinstance(v, Gated):
            v = I.degate(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, Num):
            if op == "USub":
                t = neg(from_cond(v.t))
                if v.k == "caller":
                    t = fn("wrapc", t)
                return Num(t, "pyint" if v.k == "pybool" else v.k)
            if op == "UAdd":
                return v
            if op == "Invert":
                if v.k == "npbool":
                    return Num(not_(as_cond(v.t)), v.k)
                return Num(sub(neg(from_cond(v.t)), ONE), v.k)
        if I.is_arr(v):
            c = I.content(v)
            if not isinstance(c, ArrC):
                return I.top("array", node)
            if op == "USub":
                t = neg(from_cond(c.term))
                if c.dtype == "caller":
                    t = fn("wrapc", t)
                return I.mkarr(c.axes, t, c.dtype)
            if op == "UAdd":
                return I.mkarr(c.axes, c.term, c.dtype)
            if op == "Invert" and c.dtype == "bool":
                return I.mkarr(c.axes, not_(as_cond(c.term)), "bool")
        return I.top("unary " + op, node)

    def inplace(self, op, cur, v, node):
        """augmented assignment: mutates arrays and lists in place"""
        I = self.I
        if isinstance(cur, Gated):
            cur = I.degate(cur)
        if isinstance(cur, Ref):
            c = I.s.heap.get(cur.loc)
            if isinstance(c, (ArrC, ViewC)):
                cc = I.content(cur)
                res = self.binop(op, cur, v, node)
                rc = self.arrc(res, node)
                if isinstance(cc, ArrC) and rc is not None:
                    rd = strong(rc.dtype)
                    if len(rc.axes) > len(cc.axes):
                        raise Raised("ValueError", node, "non-broadcastable output operand")
                    if cc.dtype in ("i8", "bool") and rd in ("f8",) or cc.dtype == "bool" and rd != "bool":
                        raise Raised("UFuncTypeError", node, "cannot cast to integer array in place")
                    if cc.dtype == "caller" and rd in ("f8", "wide"):
                        I.event("callerinplace", node, TRUE)
                self.setitem(cur, ELL, res, node)
                return cur
            if isinstance(c, ListC) and op == "Add":
                self.call_meth(cur, "extend", [v], {}, node)
                return cur
            if isinstance(c, ObjC):
                d = self.DUNDER.get(op)
                m, _ = I.class_lookup(c.cls, d.replace("__", "__i", 1)) if d else (None, None)
                if isinstance(m, Func):
                    return I.call(Bound(m, cur), [v], {}, node)
        return self.binop(op, cur, v, node)

    def compare(self, op, a, b, node):
        I = self.I
        if isinstance(a, Gated):
            a = I.degate(a)
        if isinstance(b, Gated):
            b = I.degate(b)
        if op in ("Is", "IsNot"):
            c = self.is_same(a, b)
            return B(c if op == "Is" else not_(c))
        if op in ("In", "NotIn"):
            c = self.contains(b, a, node)
            return B(c if op == "In" else not_(c))
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Gated):
                ca = self.compare(op, *((y, x.a) if flip else (x.a, y)), node)
                cb = self.compare(op, *((y, x.b) if flip else (x.b, y)), node)
                if isinstance(ca, Num) and isinstance(cb, Num):
                    return B(bite(x.c, as_cond(ca.t), as_cond(cb.t)))
                return I.top("comparison", node)
        if isinstance(a, Top) or isinstance(b, Top):
            r = a if isinstance(a, Top) else b
            return Num(N_("truth", top(r.reason)), "pybool")
        f = {"Eq": eq, "NotEq": ne, "Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op]
        if isinstance(a, Num) and isinstance(b, Num):
            k = "pybool" if a.k in PYK and b.k in PYK else "npbool"
            x, y = from_cond(a.t), from_cond(b.t)
            return Num(I.simp(f(x, y)), k)
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
                r = {"Eq": a.s == b.s, "NotEq": a.s != b.s}.get(op)
                if r is not None:
                    return B(TRUE if r else FALSE)
                return B(TRUE if {"Lt": a.s < b.s, "LtE": a.s <= b.s, "Gt": a.s > b.s, "GtE": a.s >= b.s}[op] else FALSE)
            if isinstance(a, Str) and isinstance(b, Str):
                return Num(N_("truth", top("string comparison")), "pybool")
            return B({"Eq": FALSE, "NotEq": TRUE}.get(op, FALSE))
        if a is NONE or b is NONE:
            if op in ("Eq", "NotEq"):
                same = a is b
                return B(TRUE if same == (op == "Eq") else FALSE)
            raise Raised("TypeError", node, "comparison with None")
        if isinstance(a, Tup) and isinstance(b, Tup) and op in ("Eq", "NotEq"):
            if len(a.items) != len(b.items):
                return B(FALSE if op == "Eq" else TRUE)
            if len(a.items) == 2 and all(isinstance(x.items[0], Str) and x.items[0].s == "\0bytes" for x in (a, b)):
                r = self.I.np.call_ext("numpy.array_equal", [a.items[1], b.items[1]], {}, node)
                if not isinstance(r, Num):
                    return r
                return B(as_cond(r.t) if op == "Eq" else not_(as_cond(r.t)))
            c = and_(*[I.truth(self.compare("Eq", x, y, node), node) for x, y in zip(a.items, b.items)]) if a.items else TRUE
            return B(c if op == "Eq" else not_(c))
        if I.is_arr(a) or I.is_arr(b):
            return self.elementwise(lambda x, y: f(from_cond(x), from_cond(y)), [a, b], node, dtype="bool")
        if isinstance(a, (Cls, Ext, Dtype, Func, Mod)) or isinstance(b, (Cls, Ext, Dtype, Func, Mod)):
            if op in ("Eq", "NotEq"):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Dtype) and x.d == "caller" and not (isinstance(y, Dtype) and y.d == "caller"):
                        nm = {"f8": "float64", "f4": "float32", "f2": "float16", "i8": "int64", "bool": "bool"}.get(y.d) if isinstance(y, Dtype) else \
                            y.path.split(".")[-1] if isinstance(y, Ext) else {"f8": "float64", "d": "float64", "i8": "int64"}.get(y.s, y.s) if isinstance(y, Str) else None
                        if nm in CDT_SETS and not nm.startswith("kind"):
                            return B(batom("cdt:" + nm) if op == "Eq" else not_(batom("cdt:" + nm)))
                r = self.type_eq(a, b)
                if r is None:
                    return Num(N_("truth", top("type comparison")), "pybool")
                return B(TRUE if r == (op == "Eq") else FALSE)
        if self.is_list(a) and self.is_list(b) and op in ("Eq", "NotEq"):
            ca, cb = I.content(a), I.content(b)
            for x, y in ((ca, cb), (cb, ca)):
                if x.base is None and not x.tail:
                    c = eq(self.list_len(y), ZERO)
                    return B(I.simp(c if op == "Eq" else not_(c)))
            if isinstance(ca.base, tuple) and isinstance(cb.base, tuple) and not ca.tail and not cb.tail and isinstance(ca.base[1], Num) and isinstance(cb.base[1], Num) \
                    and ca.base[0].plain and cb.base[0].plain:
                ax, bx = ca.base[0], cb.base[0]
                v = fresh("s")
                c = quant("all", [v], [ax.his[0]], eq(from_cond(subst(ca.base[1].t, {ax.v: v})), from_cond(subst(cb.base[1].t, {bx.v: v}))))
                c = and_(eq(ax.his[0], bx.his[0]), c)
                return B(I.simp(c if op == "Eq" else not_(c)))
        ca, cb = (I.content(x) if isinstance(x, Ref) else None for x in (a, b))
        if isinstance(ca, DictC) and isinstance(cb, DictC) and op in ("Eq", "NotEq") and type(ca) is type(cb):
            n, k = self.dict_len(ca), self.dict_len(cb)
            if n is not None and k is not None:
                z = lambda t: isnum(t) and t.args[0] == 0
                c = eq(n, k) if z(n) or z(k) else FALSE if I.decide(eq(n, k)) is False else None
                if c is not None:
                    return B(I.simp(c if op == "Eq" else not_(c)))
        return Num(N_("truth", top("comparison")), "pybool")

    def type_eq(self, a, b):
        def nm(x):
            if isinstance(x, Dtype):
                return x.d
            if isinstance(x, Ext):
                return {"builtins.float": "f8", "builtins.int": "i8", "builtins.bool": "bool", "numpy.float64": "f8", "numpy.int64": "i8", "numpy.bool_": "bool"}.get(x.path, x.path)
            return id(x)
        x, y = nm(a), nm(b)
        if "caller" in (x, y) or "lab" in (x, y):
            return None
        return x == y

    def is_same(self, a, b):
        if isinstance(a, Gated):
            return bite(a.c, self.is_same(a.a, b), self.is_same(a.b, b))
        if isinstance(b, Gated):
            return bite(b.c, self.is_same(a, b.a), self.is_same(a, b.b))
        if isinstance(a, Top) or isinstance(b, Top):
            return N_("truth", top((a if isinstance(a, Top) else b).reason))
        if a is NONE or b is NONE:
            return TRUE if a is b else FALSE
        if isinstance(a, Num) and isinstance(b, Num):
            if a.k in BOOLK and b.k in BOOLK:
                x, y = as_cond(a.t), as_cond(b.t)
                return or_(and_(x, y), and_(not_(x), not_(y)))
            return eq(from_cond(a.t), from_cond(b.t))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.loc == b.loc else FALSE
        return TRUE if a == b else FALSE

    # ============================================================ lists
    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.I.s.heap.get(v.loc), ListC)

    def is_set(self, v):
        return isinstance(v, Ref) and isinstance(self.I.s.heap.get(v.loc), DictC)

    def list_len(self, c):
        n = ZERO
        if isinstance(c.base, tuple):
            n = c.base[0].extent()
        elif c.base is not None:
            n = sym("len:" + c.base.name, "int")
        for cond, _ in c.tail:
            n = add(n, ite(cond, ONE, ZERO))
        return n

    def merge_values(self, c, a, b):
        """if-then-else of frozen values"""
        if a == b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(vite(c, a.t, b.t), join_kind(a.k, b.k))
        if isinstance(a, Arr) and isinstance(b, Arr):
            j = ip.Joiner(self.I, c, self.I.s, self.I.s, self.I.s)
            x = j.arr(a.c, b.c)
            return Arr(x) if x is not None else Gated(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_values(c, x, y) for x, y in zip(a.items, b.items)])
        return Gated(c, a, b)

    def list_norm(self, c, ctxstate=None):
        """homogeneous representation (axis, item) of a list content"""
        I = self.I
        old = I.s
        if ctxstate is not None:
            I.s = ctxstate
        try:
            if not c.tail and isinstance(c.base, tuple):
                return c
            if c.base is not None and not isinstance(c.base, tuple):
                return None
            vals = [I.freeze(v) for _, v in c.tail]
            conds = [k for k, _ in c.tail]
            if not vals:
                return None
            if any(isinstance(v, (Ref, Str, Func, Cls)) or v is NONE for v in vals):
                return None
            if c.base is None:
                n = len(vals)
                if all(k is TRUE for k in conds):
                    ax = plain_axis(num(n))
                else:
                    v = fresh("i")
                    ax = Axis((v,), (num(n),), or_(*[and_(eq(v, num(j)), k) for j, k in enumerate(conds)]))
                item = vals[-1]
                for j in range(n - 2, -1, -1):
                    item = self.merge_values(eq(ax.vars[0], num(j)), vals[j], item)
                if isinstance(item, Gated):
                    return None
                return ListC((ax, item), ())
            bx, bi = c.base
            if not bx.plain or not all(k is TRUE for k in conds):
                return None
            e = bx.extent()
            n = len(vals)
            v = fresh("i")
            ax = Axis((v,), (add(e, num(n)),))
            item = vals[-1]
            for j in range(n - 2, -1, -1):
                item = self.merge_values(eq(v, add(e, num(j))), vals[j], item)
            item = self.merge_values(lt(v, e), vsubst(bi, {bx.v: v}), item)
            if isinstance(item, Gated):
                return None
            return ListC((ax, item), ())
        finally:
            I.s = old

    def list_concat_content(self, a, b, st):
        if a.base is None and all(x[0] is TRUE for x in a.tail) and b.base is None:
            return ListC(None, a.tail + b.tail)
        if b.base is None:
            return ListC(a.base, a.tail + b.tail)
        if a.base is None and not a.tail:
            return b
        na, nb = self.list_norm(a, st), self.list_norm(b, st)
        if na is None or nb is None:
            return None
        (xa, ia), (xb, ib) = na.base, nb.base
        if not (xa.plain and xb.plain):
            return None
        e = xa.extent()
        v = fresh("i")
        ax = Axis((v,), (add(e, xb.extent()),))
        it = self.merge_values(lt(v, e), vsubst(ia, {xa.v: v}), vsubst(ib, {xb.v: sub(v, e)}))
        if isinstance(it, Gated):
            return None
        return ListC((ax, it), ())

    def list_repeat(self, l, k, node):
        I = self.I
        c = I.content(l) if isinstance(l, Ref) else ListC(None, [(TRUE, x) for x in l.items])
        kt = k.t
        if isnum(kt) and c.base is None and kt.args[0] <= 64:
            tail = list(c.tail) * max(int(kt.args[0]), 0)
            return I.alloc(ListC(None, tail)) if not isinstance(l, Tup) else Tup([v for _, v in tail])
        if c.base is None and len(c.tail) == 1:
            ax = plain_axis(kt)
            v = I.freeze(c.tail[0][1])
            if isinstance(v, (Num, Arr, Tup)):
                return I.alloc(ListC((ax, v), ()))
        return I.top("list repetition", node)

    def check_index(self, t, ext, node):
        """normalise an index into 0 <= r < ext, recording a possible IndexError"""
        I = self.I
        t = I.simp(t)
        inr = and_(le(ZERO, t), lt(t, ext))
        d = I.decide(inr)
        if d is True:
            return t
        if isnum(t) and t.args[0] < 0:
            r = add(ext, t)
            I.may_raise("IndexError", lt(r, ZERO), node, "index out of bounds")
            return r
        nonneg = I.decide(le(ZERO, t))
        if nonneg is True:
            I.may_raise("IndexError", ge(t, ext), node, "index out of bounds")
            return t
        I.may_raise("IndexError", or_(ge(t, ext), lt(t, neg(ext))), node, "index out of bounds")
        if I.decide(lt(t, ZERO)) is True:
            return add(ext, t)
        return ite(lt(t, ZERO), add(ext, t), t)

    def never_index(self, ix):
        """certainly not usable as a list index"""
        if ix is NONE or isinstance(ix, (Str, Tup)):
            return True
        c = self.I.content(ix) if isinstance(ix, (Ref, Arr)) else None
        if isinstance(c, ListC):
            return True
        return isinstance(c, ArrC) and any(self.I.decide(eq(e, ONE)) is False for e in c.shape())

    def list_get(self, ref, c, ix, node):
        I = self.I
        if isinstance(ix, Slc):
            return self.list_slice(c, ix, node)
        n = self.num(ix, node)
        if n is None:
            if not self.never_index(ix):
                return ix if isinstance(ix, Top) else I.top("list index", node)
            raise Raised("TypeError", node, "list index")
        if n.k in ("pyfloat", "npfloat"):
            raise Raised("TypeError", node, "list indices must be integers")
        t = I.simp(from_cond(n.t))
        if c.base is None and all(k is TRUE for k, _ in c.tail):
            L = len(c.tail)
            if isnum(t):
                j = int(t.args[0])
                if not -L <= j < L:
                    raise Raised("IndexError", node, "list index out of range")
                return c.tail[j][1]
            if L == 0:
                raise Raised("IndexError", node, "list index out of range")
            t = self.check_index(t, num(L), node)
            if L == 1:
                return c.tail[0][1]
            nm = self.list_norm(c)
            if nm is None:
                # references: distribute
                cand = [v for _, v in c.tail]
                r = cand[-1]
                for j in range(L - 2, -1, -1):
                    d = I.decide(eq(t, num(j)))
                    if d is True:
                        return cand[j]
                    if d is False:
                        continue
                    r = Gated(eq(t, num(j)), cand[j], r)
                return r
            return self.item_at(nm.base[1], nm.base[0], t)
        # negative last of base + tail
        if isnum(t) and t.args[0] < 0 and -int(t.args[0]) <= len(c.tail) and all(k is TRUE for k, _ in c.tail):
            return c.tail[int(t.args[0])][1]
        if isinstance(c.base, tuple) and c.base[0].plain and c.tail and all(k is TRUE for k, _ in c.tail):
            e = c.base[0].extent()
            for j, (_, v) in enumerate(c.tail):
                if I.decide(eq(t, add(e, num(j)))) is True:
                    return v
            if I.decide(and_(le(ZERO, t), lt(t, e))) is True:
                return self.item_at(c.base[1], c.base[0], t)
        nm = self.list_norm(c)
        if nm is None:
            ln = self.list_len(c)
            self.check_index(t, ln, node)
            return I.top("list item", node)
        ax, item = nm.base
        if not ax.plain:
            nm = self.positional(nm)
            if nm is None:
                self.check_index(t, ax.extent(), node)
                return I.top("item of filtered list", node)
            ax, item = nm.base
        t = self.check_index(t, ax.extent(), node)
        return self.item_at(item, ax, t)

    def list_slice(self, c, ix, node):
        I = self.I
        if c.base is None and all(k is TRUE for k, _ in c.tail):
            f = lambda x: None if x is NONE else (int(x.t.args[0]) if isinstance(x, Num) and isnum(x.t) else "?")
            lo, hi, st = f(ix.lo), f(ix.hi), f(ix.step)
            if "?" not in (lo, hi, st):
                return I.alloc(ListC(None, c.tail[slice(lo, hi, st)]))
        if ix.lo is NONE and ix.hi is NONE and (ix.step is NONE):
            return I.alloc(ListC(c.base, c.tail))
        nm = self.list_norm(c)
        if nm is not None and not nm.base[0].plain:
            nm = self.positional(nm)
        if nm is None or (ix.step is not NONE):
            return I.top("list slice", node)
        ax, item = nm.base
        lo, ext = self.slice_bounds(ix, ax.extent())
        if lo is None:
            return I.top("list slice", node)
        nx = plain_axis(ext)
        return I.alloc(ListC((nx, vsubst(item, {ax.v: add(lo, nx.v)})), ()))

    def positional(self, nm):
        """a list over a filtered axis, read by position; None where its items have no single term"""
        from .npo import by_position
        a, item = nm.base

        def go(v):
            if isinstance(v, Num):
                b = by_position(a, v.t)
                return None if b is None else (b[0], Num(b[1], v.k))
            if isinstance(v, Arr):
                used = set(a.vars)
                if any(used & set(free(x.cond)) or any(used & set(free(h)) for h in x.his) for x in v.c.axes):
                    return None
                b = by_position(a, v.c.term)
                return None if b is None else (b[0], Arr(ArrC(v.c.axes, b[1], v.c.dtype, v.c.alias)))
            if isinstance(v, Tup) and v.items:
                parts = [go(x) for x in v.items]
                if any(x is None for x in parts):
                    return None
                ax = parts[0][0]
                return ax, Tup([vsubst(x, {b.v: ax.v}) for b, x in parts])
            return None
        r = go(item)
        return None if r is None else ListC((r[0], r[1]), ())

    def slice_bounds(self, s, ext):
        """start and length of a step-1 slice, clipped"""
        I = self.I

        def bound(x, default):
            if x is NONE:
                return default
            n = self.num(x, None)
            if n is None:
                return None
            t = I.simp(from_cond(n.t))
            if isnum(t):
                if t.args[0] < 0:
                    r = add(ext, t)
                    return r if I.decide(le(ZERO, r)) is True else fn("max2", r, ZERO)
            elif I.decide(le(ZERO, t)) is not True:
                t = ite(lt(t, ZERO), fn("max2", add(ext, t), ZERO), t)
            d = I.decide(le(t, ext))
            if d is True:
                return t
            if d is False:
                return ext
            return fn("min2", t, ext)
        lo, hi = bound(s.lo, ZERO), bound(s.hi, ext)
        if lo is None or hi is None:
            return None, None
        n = sub(hi, lo)
        d = I.decide(le(ZERO, n))
        if d is False:
            n = ZERO
        elif d is None:
            n = fn("max2", n, ZERO)
        return lo, n

    def item_at(self, item, ax, t):
        """value at index t of an abstract sequence"""
        v = vsubst(item, {ax.vars[0]: t})
        if isinstance(v, Num):
            return Num(self.I.simp(v.t), v.k)
        return self.thaw_item(v)

    def thaw_item(self, v):
        if isinstance(v, Arr):
            return self.I.thaw(v)
        if isinstance(v, Tup):
            return Tup([self.thaw_item(x) for x in v.items])
        return v

    def list_set(self, ref, c, ix, v, node):
        I = self.I
        I.touch(ref.loc, node)
        if isinstance(ix, Slc):
            I.s.heap[ref.loc] = TopC("slice assignment")
            return
        n = self.num(ix, node)
        if n is None:
            if not self.never_index(ix):
                I.s.heap[ref.loc] = TopC("unknown index")
                I.top("list index", node)
                return
            raise Raised("TypeError", node, "list index")
        t = I.simp(from_cond(n.t))
        if c.base is None and all(k is TRUE for k, _ in c.tail):
            L = len(c.tail)
            if isnum(t):
                j = int(t.args[0])
                if not -L <= j < L:
                    raise Raised("IndexError", node, "list assignment index out of range")
                tail = list(c.tail)
                tail[j] = (TRUE, v)
                I.s.heap[ref.loc] = ListC(None, tail)
                return
            if L == 0:
                raise Raised("IndexError", node, "list assignment index out of range")
            t = self.check_index(t, num(L), node)
            if L == 1:
                I.s.heap[ref.loc] = ListC(None, [(TRUE, v)])
                return
            fv = I.freeze(v)
            tail = []
            for j, (_, o) in enumerate(c.tail):
                tail.append((TRUE, self.thaw_item(self.merge_values(eq(t, num(j)), fv, I.freeze(o)))))
            I.s.heap[ref.loc] = ListC(None, tail)
            return
        if isnum(t) and t.args[0] < 0 and -int(t.args[0]) <= len(c.tail) and all(k is TRUE for k, _ in c.tail):
            tail = list(c.tail)
            tail[int(t.args[0])] = (TRUE, v)
            I.s.heap[ref.loc] = ListC(c.base, tail)
            return
        if isinstance(c.base, tuple) and c.base[0].plain and c.tail and all(k is TRUE for k, _ in c.tail):
            e = c.base[0].extent()
            for j, (_, o) in enumerate(c.tail):
                if I.decide(eq(t, add(e, num(j)))) is True:
                    tail = list(c.tail)
                    tail[j] = (TRUE, v)
                    I.s.heap[ref.loc] = ListC(c.base, tail)
                    return
        nm = self.list_norm(c)
        if nm is None or not nm.base[0].plain:
            self.check_index(t, self.list_len(c), node)
            I.s.heap[ref.loc] = TopC("item assignment")
            return
        ax, item = nm.base
        t = self.check_index(t, ax.extent(), node)
        fv = I.freeze(v)
        it = self.merge_values(eq(ax.v, t), fv, item)
        if isinstance(it, Gated) or isinstance(fv, Ref):
            I.s.heap[ref.loc] = TopC("item assignment")
            return
        I.s.heap[ref.loc] = ListC((ax, it), ())

    # ============================================================ dicts
    def dict_len(self, c):
        n = ZERO
        if c.base is not None:
            n = c.base[0].extent()
        for cond, _, _ in c.entries:
            n = add(n, ite(cond, ONE, ZERO))
        return n

    def key_eq(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            return self.I.simp(eq(from_cond(a.t), from_cond(b.t)))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return and_(*[self.key_eq(x, y) for x, y in zip(a.items, b.items)]) if a.items else TRUE
        if isinstance(a, Str) and isinstance(b, Str) and (a.s is None or b.s is None):
            return N_("truth", top("unknown string key"))
        if any(not isinstance(x, (Num, Str, Tup, Ref, Cls, Func, Ext, Mod, Dtype)) and x is not NONE for x in (a, b)):
            return N_("truth", top("unknown key"))
        if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            return N_("truth", top("object key"))
        return TRUE if a == b else FALSE

    def dict_find(self, c, key):
        """list of (cond, value) alternatives and the condition 'not found'"""
        I = self.I
        alts = []
        none = TRUE
        for cond, k, v in reversed(c.entries):
            m = and_(cond, self.key_eq(k, key))
            if m is FALSE or I.decide(m) is False:
                continue
            alts.append((and_(none, m), v, None))
            none = and_(none, not_(m))
            if I.decide(m) is True:
                return alts, FALSE
        if c.base is not None and none is not FALSE:
            ax, bk, item = c.base
            r = self.base_find(ax, bk, key)
            if r is None:
                none = and_(none, N_("truth", top("dictionary lookup")))
            elif r[0] is not FALSE:
                found, idx = r
                alts.append((and_(none, found), item, (ax, idx)))
                none = and_(none, not_(found))
        return alts, I.simp(none)

    def base_find(self, ax, bk, key):
        """(condition found, index term) of key among the generic keys"""
        I = self.I
        if isinstance(bk, Num) and isinstance(key, Num):
            t = from_cond(key.t)
            kt = from_cond(bk.t)
            # families with distinct entries
            if kt.op == "el" and kt.args[0] in DISTINCT and kt.args[1:] == (ax.v,):
                if t.op == "el" and t.args[0] == kt.args[0]:
                    i = t.args[1]
                    return I.simp(and_(le(ZERO, i), lt(i, ax.extent()))), i
                if t.op == "sym" and t.args[0] in FRESHKEYS:
                    return FALSE, ZERO
            if kt is ax.v:
                return I.simp(and_(le(ZERO, t), lt(t, ax.extent()))), t
        return None

    def missing_hook(self, o, key, node):
        """what reading an absent key of this dictionary does, other than raising KeyError"""
        I = self.I
        dd = self.defaultdicts.get(o.loc)
        if dd is not None:
            def make():
                v = I.call(dd, [], {}, node)
                self.dict_store(o, key, v, node)
                return v
            return make
        cls = I.subclass.get(o.loc)
        if cls is not None:
            m, _ = I.class_lookup(cls, "__missing__")
            if isinstance(m, Func):
                return lambda: I.call(Bound(m, o), [key], {}, node)
        return None

    def dict_get(self, c, key, node, default=None):
        I = self.I
        alts, none = self.dict_find(c, key)
        d = I.decide(none)
        if d is True:
            if default is not None:
                return default
            raise Raised("KeyError", node, "missing key")
        if default is None:
            if d is None:
                I.may_raise("KeyError", none, node, "missing key")
            r = None
        else:
            r = default if d is None else None
        for cond, v, gi in reversed(alts):
            if gi is not None:
                v = vsubst(v, {gi[0].vars[0]: gi[1]})
            if r is None:
                r = v
            else:
                r = self.merge_any(cond, v, r)
        return self.thaw_item(r) if r is not None else I.top("dictionary value", node)

    def merge_any(self, c, a, b):
        d = self.I.decide(c)
        if d is True:
            return a
        if d is False:
            return b
        j = ip.Joiner(self.I, c, self.I.s, self.I.s, self.I.s)
        return j.value(a, b)

    def dict_store(self, ref, key, v, node):
        I = self.I
        c = I.s.heap.get(ref.loc)
        if not isinstance(c, DictC):
            return
        I.touch(ref.loc, node)
        key = I.freeze(key)
        out = []
        done = FALSE
        for cond, k, o in c.entries:
            m = self.key_eq(k, key)
            d = I.decide(m)
            if d is True and cond is TRUE:
                out.append((cond, k, v))
                done = TRUE
            elif d is False:
                out.append((cond, k, o))
            else:
                out.append((cond, k, self.merge_any(m, v, o)))
                done = or_(done, and_(m, cond))
        base = c.base
        if base is not None and done is not TRUE:
            ax, bk, item = base
            r = self.base_find(ax, bk, key)
            if r is None:
                I.s.heap[ref.loc] = TopC("dictionary store")
                return
            found, idx = r
            if found is not FALSE:
                fv = I.freeze(v)
                it = self.merge_values(and_(found, eq(ax.v, idx)), fv, item)
                if isinstance(it, Gated) or isinstance(fv, Ref):
                    I.s.heap[ref.loc] = TopC("dictionary store")
                    return
                base = (ax, bk, it)
                done = or_(done, found)
        done = I.simp(done)
        if I.decide(done) is not True:
            out.append((not_(done), key, v))
        I.s.heap[ref.loc] = DictC(base, out, c.isset)
        if ref.loc in I.objdict:
            I.sync(ref.loc, node)

    def contains(self, cont, key, node):
        I = self.I
        for v, f in ((key, lambda x: self.contains(cont, x, node)), (cont, lambda x: self.contains(x, key, node))):
            if isinstance(v, Gated):
                v = I.degate(v)
                return bite(v.c, f(v.a), f(v.b)) if isinstance(v, Gated) else f(v)
        if isinstance(cont, Tup):
            return or_(*[I.truth(self.compare("Eq", x, key, node), node) for x in cont.items]) if cont.items else FALSE
        if isinstance(cont, Rng):
            n = self.num(key, node)
            if n is not None and cont.step is ONE:
                return and_(le(cont.lo, n.t), lt(n.t, cont.hi))
        if isinstance(cont, Str) and isinstance(key, Str):
            if cont.s is not None and key.s is not None:
                return TRUE if key.s in cont.s else FALSE
        if isinstance(cont, Seq):
            if cont.items is not None:
                return or_(*[I.truth(self.compare("Eq", x, key, node), node) for x in cont.items]) if cont.items else FALSE
        if isinstance(cont, DictView):
            if cont.kind == "keys":
                return self.contains(Ref(cont.loc), key, node)
        if isinstance(cont, Ref):
            c = I.content(cont)
            if isinstance(c, DictC):
                alts, none = self.dict_find(c, key)
                return I.simp(not_(none))
            if isinstance(c, ListC):
                out = []
                if isinstance(c.base, tuple):
                    ax, item = c.base
                    r = self.base_find(ax, item, key)
                    if r is not None:
                        out.append(r[0])
                    elif isinstance(item, Num) and isinstance(key, Num):
                        out.append(quant("any", ax.vars, ax.his, and_(ax.cond, eq(item.t, key.t))))
                    else:
                        return N_("truth", top("membership"))
                elif c.base is not None:
                    return N_("truth", top("membership"))
                for cond, v in c.tail:
                    out.append(and_(cond, I.truth(self.compare("Eq", v, key, node), node)))
                return I.simp(or_(*out)) if out else FALSE
            if isinstance(c, ArrC) and isinstance(key, Num):
                if len(c.axes) == 1 and c.axes[0].plain:
                    r = self.base_find(c.axes[0], Num(c.term, kind_of(c.dtype)), key)
                    if r is not None:
                        return r[0]
                vs = c.allvars()
                return quant("any", vs, [h for a in c.axes for h in a.his], and_(*[a.cond for a in c.axes], eq(from_cond(c.term), from_cond(key.t))))
            if isinstance(c, ObjC):
                m, _ = I.class_lookup(c.cls, "__contains__")
                if isinstance(m, Func):
                    return I.truth(I.call(Bound(m, cont), [key], {}, node), node)
        return N_("truth", top("membership"))

    # ============================================================ iteration
    def iter_desc(self, v, node):
        I = self.I
        if isinstance(v, Gated):
            v = I.degate(v)
        if isinstance(v, Tup):
            return "conc", list(v.items)
        if isinstance(v, Str) and v.s is not None and len(v.s) <= 64:
            return "conc", [Str(ch) for ch in v.s]
        if isinstance(v, Seq):
            if v.tok is not None:
                c = I.s.heap.get(v.tok)
                if not isinstance(c, ListC) or c.base is not None or any(k is not TRUE for k, _ in c.tail):
                    return None
                me = Str("%d" % id(node))
                if c.tail and c.tail[0][1] != me:
                    return "conc", []
                I.s.heap[v.tok] = ListC(None, ((TRUE, me),))
            if v.items is not None:
                return "conc", list(v.items)
            return self.axis_desc(v.axis, v.item)
        if isinstance(v, Rng):
            lo, hi, st = I.simp(v.lo), I.simp(v.hi), v.step
            if isnum(lo) and isnum(hi) and isnum(st):
                r = range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))
                if len(r) <= 64:
                    return "conc", [Num(num(x), "pyint") for x in r]
            n = I.simp(sub(hi, lo))
            if isnum(n) and st is ONE and n.args[0] <= LIMIT:
                return "conc", [Num(add(lo, num(x)), "pyint") for x in range(int(n.args[0]))]
            if st is ONE:
                i = fresh("i")
                if lo is ZERO:
                    return "abs", Axis((i,), (hi,)), Num(i, "pyint")
                if I.decide(le(ZERO, lo)) is True:
                    return "abs", Axis((i,), (hi,), le(lo, i)), Num(i, "pyint")
                return "abs", Axis((i,), (I.simp(sub(hi, lo)),)), Num(add(lo, i), "pyint")
            if isnum(st) and st.args[0] == -1:
                i = fresh("i")
                return "abs", Axis((i,), (I.simp(sub(lo, hi)),)), Num(sub(lo, i), "pyint")
            if isnum(st) and st.args[0] != 0:
                i = fresh("i")
                cnt = I.simp(fn("ceil", div(sub(hi, lo) if st.args[0] > 0 else sub(lo, hi), num(abs(st.args[0])))))
                if I.decide(le(ZERO, cnt)) is not True:
                    cnt = fn("max2", cnt, ZERO)
                return "abs", Axis((i,), (cnt,)), Num(add(lo, mul(st, i)), "pyint")
            return None
        if isinstance(v, Arr):
            return self.arr_desc(v, v.c, node)
        if isinstance(v, DictView):
            return self.dictview_desc(v, node)
        if isinstance(v, Ref):
            c = I.content(v)
            if isinstance(c, ListC):
                if c.base is None and all(k is TRUE for k, _ in c.tail):
                    return "conc", [x for _, x in c.tail]
                if isinstance(c.base, tuple) and not c.tail:
                    return self.axis_desc(*c.base)
                n = self.list_norm(c)
                if n is None or n.base is None:
                    return None
                return self.axis_desc(*n.base)
            if isinstance(c, DictC):
                return self.dictview_desc(DictView(v.loc, "keys"), node)
            if isinstance(c, ArrC):
                return self.arr_desc(v, c, node)
            if isinstance(c, ObjC) and c.cls is not None:
                m, _ = I.class_lookup(c.cls, "__iter__")
                if isinstance(m, Func):
                    return self.iter_desc(I.call(Bound(m, v), [], {}, node), node)
        return None

    def axis_desc(self, ax, item):
        I = self.I
        if I.tables:
            r = npt.settle_axis(ax)
            if r is not None:
                ax, item = r[0], vsubst(item, r[1])
        e = I.simp(ax.extent()) if ax.plain else None
        if e is not None and isnum(e) and e.args[0] <= LIMIT:
            return "conc", [self.item_at(item, ax, num(i)) for i in range(int(e.args[0]))]
        ax2, m = ax.renamed()
        return "abs", ax2, vsubst(item, m)

    def arr_desc(self, v, c, node):
        I = self.I
        if not c.axes:
            raise Raised("TypeError", node, "iteration over a 0-d array")
        if I.tables and isinstance(v, Arr):
            c = npt.settle(c)
            v = Arr(c)
        ax = c.axes[0]
        e = I.simp(ax.extent()) if ax.plain else None
        if e is not None and isnum(e) and e.args[0] <= LIMIT:
            return "conc", [self.getitem(v, Num(num(i), "pyint"), node) for i in range(int(e.args[0]))]
        ax2, m = ax.renamed()
        t = subst(c.term, m)
        if len(c.axes) == 1:
            return "abs", ax2, Num(t, kind_of(c.dtype))
        al = frozenset(I.origins(v)) if isinstance(v, Ref) else c.alias
        return "abs", ax2, Arr(ArrC([a.subst(m) for a in c.axes[1:]], t, c.dtype, al))

    def dictview_desc(self, v, node):
        I = self.I
        c = I.s.heap.get(v.loc)
        if not isinstance(c, DictC):
            return None
        pick = {"keys": lambda k, x: k, "values": lambda k, x: x, "items": lambda k, x: Tup([k, x])}[v.kind]
        if c.base is None and all(e[0] is TRUE for e in c.entries):
            return "conc", [pick(k, x) for _, k, x in c.entries]
        if c.base is not None and not c.entries:
            ax, k, x = c.base
            return self.axis_desc(ax, pick(k, x))
        if c.base is not None and all(e[0] is TRUE for e in c.entries) and c.base[0].plain:
            ax, k, x = c.base
            l = ListC((ax, pick(k, x)), [(TRUE, pick(kk, xx)) for _, kk, xx in c.entries])
            n = self.list_norm(l)
            if n is not None:
                return self.axis_desc(*n.base)
        return None

    # ============================================================ indexing
    def getitem(self, o, ix, node):
        I = self.I
        if isinstance(o, Gated):
            o = I.degate(o)
            if isinstance(o, Gated):
                return self.gated_apply(o, lambda v: self.getitem(v, ix, node), node)
        if isinstance(ix, Gated):
            ix = I.degate(ix)
        if isinstance(o, Top):
            return o
        if isinstance(o, Tup):
            return self.list_get(None, ListC(None, [(TRUE, x) for x in o.items]), ix, node) if not isinstance(ix, Slc) else self.tup_slice(o, ix, node)
        if isinstance(o, Seq):
            raise Raised("TypeError", node, "an iterator is not subscriptable")
        if isinstance(o, Rng):
            n = self.num(ix, node)
            if n is not None and o.step is ONE:
                t = self.check_index(n.t, sub(o.hi, o.lo), node)
                return Num(add(o.lo, t), "pyint")
        if isinstance(o, (Ext, Cls)):
            return o
        if isinstance(o, Str):
            if o.s is not None:
                f = lambda x: None if x is NONE else (int(x.t.args[0]) if isinstance(x, Num) and isnum(x.t) else "?")
                q = (f(ix.lo), f(ix.hi), f(ix.step)) if isinstance(ix, Slc) else (f(ix),) if isinstance(ix, Num) else ("?",)
                if "?" not in q:
                    if isinstance(ix, Slc):
                        return Str(o.s[slice(*q)])
                    if not -len(o.s) <= q[0] < len(o.s):
                        raise Raised("IndexError", node, "string index out of range")
                    return Str(o.s[q[0]])
            return Str(None)
        if isinstance(o, (Ref, Arr)):
            c = I.content(o)
            if isinstance(c, ListC):
                return self.list_get(o, c, ix, node)
            if isinstance(c, DictC):
                miss = self.missing_hook(o, ix, node)
                if miss is not None:
                    none = self.dict_find(c, ix)[1]
                    d = I.decide(none)
                    if d is True:
                        return miss()
                    if d is None:
                        return self.gated_apply(Gated(none, B(TRUE), B(FALSE)),
                                                lambda v: miss() if v.t is TRUE else self.dict_get(I.content(o), ix, node), node)
                return self.dict_get(c, ix, node)
            if isinstance(c, ArrC):
                return self.arr_get(o, c, ix, node)
            if isinstance(c, ObjC):
                m, _ = I.class_lookup(c.cls, "__getitem__")
                if isinstance(m, Func):
                    return I.call(Bound(m, o), [ix], {}, node)
            if isinstance(c, TopC):
                return I.top("item of unknown", node)
        return I.top("subscript", node)

    def tup_slice(self, o, ix, node):
        f = lambda x: None if x is NONE else (int(x.t.args[0]) if isinstance(x, Num) and isnum(x.t) else "?")
        lo, hi, st = f(ix.lo), f(ix.hi), f(ix.step)
        if "?" in (lo, hi, st):
            return self.I.top("tuple slice", node)
        return Tup(o.items[slice(lo, hi, st)])

    def selectors(self, c, ix, node):
        """normalised list of selectors covering every axis of c; or None"""
        I = self.I
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        out = []
        n_used = 0
        for x in items:
            if isinstance(x, Gated):
                x = I.degate(x)
            if x is NONE:
                out.append(("new",))
            elif x is ELL:
                out.append(("ell",))
            elif isinstance(x, Slc):
                out.append(("slice", x))
                n_used += 1
            elif isinstance(x, Num):
                if x.k in BOOLK:
                    return None
                if x.k in ("pyfloat", "npfloat"):
                    raise Raised("IndexError", node, "only integers are valid indices")
                out.append(("int", I.simp(from_cond(x.t))))
                n_used += 1
            elif isinstance(x, Top):
                return None
            else:
                a = self.arrc(x, node)
                if a is None:
                    return None
                if not a.axes:
                    out.append(("int", from_cond(a.term)))
                    n_used += 1
                    continue
                if a.dtype == "bool":
                    out.append(("mask", a))
                    n_used += len(a.axes)
                elif a.dtype in ("i8", "wide", "lab") or (len(a.axes) == 1 and a.axes[0].plain and I.decide(eq(a.axes[0].his[0], ZERO)) is True):
                    out.append(("fancy", a))
                    n_used += 1
                else:
                    if a.dtype == "f8":
                        raise Raised("IndexError", node, "arrays used as indices must be of integer (or boolean) type")
                    return None
        nd = len(c.axes)
        if n_used > nd:
            raise Raised("IndexError", node, "too many indices for array")
        fill = [("slice", Slc(NONE, NONE, NONE))] * (nd - n_used)
        if ("ell",) in out:
            i = out.index(("ell",))
            out = out[:i] + fill + out[i + 1:]
        else:
            out = out + fill
        return out

    def arr_get(self, o, c, ix, node):
        I = self.I
        sel = self.selectors(c, ix, node)
        if sel is None:
            return I.top("array index", node)
        if any(s[0] in ("mask", "fancy") for s in sel):
            return self.fancy_get(c, sel, node)
        # positions within filtered axes
        p = 0
        for s in sel:
            if s[0] == "new":
                continue
            a = c.axes[p]
            part = s[0] == "int" or s[0] == "slice" and not (s[1].lo is NONE and s[1].hi is NONE and s[1].step is NONE)
            if part and not a.plain:
                from .npo import by_position
                used = set(a.vars)
                b = None if any(used & set(free(x.cond)) or any(used & set(free(h)) for h in x.his) for i, x in enumerate(c.axes) if i != p) else by_position(a, c.term)
                if b is None or c.dtype == "bool":
                    if s[0] == "int":
                        self.check_index(s[1], a.extent(), node)
                    return I.top("item of filtered array", node)
                c = ArrC(tuple(c.axes[:p]) + (b[0],) + tuple(c.axes[p + 1:]), b[1], c.dtype, c.alias)
                o = None
            p += 1
        # basic indexing: a view
        axes, maps = [], []
        p = 0
        m = {}
        extra = []
        plain = all(a.plain for a in c.axes)
        for s in sel:
            if s[0] == "new":
                axes.append(plain_axis(ONE))
                continue
            a = c.axes[p]
            p += 1
            if s[0] == "int":
                t = self.check_index(s[1], a.his[0], node)
                maps.append(("fix", t))
                m[a.v] = t
            else:
                sl = s[1]
                full = sl.lo is NONE and sl.hi is NONE and sl.step is NONE
                if full:
                    if a.plain:
                        nx = plain_axis(a.his[0], "v")
                        axes.append(nx)
                        maps.append(("lin", len(axes) - 1, ZERO, ONE))
                        m[a.v] = nx.v
                    else:
                        axes.append(a)
                        maps.append(None)
                    continue
                step = ONE
                if sl.step is not NONE:
                    sn = self.num(sl.step, node)
                    if sn is None or not isnum(sn.t) or abs(sn.t.args[0]) != 1:
                        return I.top("slice step", node)
                    step = sn.t
                if step is not ONE:
                    if not (sl.lo is NONE and sl.hi is NONE):
                        return I.top("negative slice", node)
                    nx = plain_axis(a.his[0], "v")
                    axes.append(nx)
                    maps.append(("lin", len(axes) - 1, sub(a.his[0], ONE), num(-1)))
                    m[a.v] = sub(sub(a.his[0], ONE), nx.v)
                    continue
                lo, ext = self.slice_bounds(sl, a.his[0])
                if lo is None:
                    return I.top("slice bounds", node)
                nx = plain_axis(ext, "v")
                axes.append(nx)
                maps.append(("lin", len(axes) - 1, lo, ONE))
                m[a.v] = add(lo, nx.v)
        if not axes:
            return Num(I.simp(subst(c.term, m)), kind_of(c.dtype))
        if plain and isinstance(o, Ref):
            return self.mkview(o, axes, maps)
        al = frozenset(I.origins(o)) if isinstance(o, Ref) else c.alias
        return I.mkarr([a.subst(m) for a in axes], subst(c.term, m), c.dtype, al)

    def mkview(self, o, axes, maps):
        I = self.I
        return I.alloc(ViewC(o.loc, axes, maps))

    def fancy_get(self, c, sel, node):
        I = self.I
        r = self.fancy_axes(c, sel, node)
        if r is None:
            return I.top("fancy index", node)
        axes, m = r
        t = subst(c.term, m)
        return I.mkarr(axes, t, c.dtype)

    def fancy_axes(self, c, sel, node):
        """result axes and substitution of base variables for advanced indexing"""
        I = self.I
        # broadcast the integer index arrays
        idxs = []
        p = 0
        place = []
        masks = []
        for s in sel:
            if s[0] == "new":
                place.append(("new", None))
                continue
            if s[0] == "mask":
                place.append(("adv", p))
                masks.append((p, s[1]))
                p += len(s[1].axes)
                continue
            if s[0] == "fancy":
                place.append(("adv", p))
                idxs.append((p, s[1]))
            elif s[0] == "int":
                place.append(("advint", p, s[1]))
            else:
                place.append(("slice", p, s[1]))
            p += 1
        m = {}
        adv_axes = None
        if masks and idxs:
            return None
        if len(masks) > 1:
            return None
        if masks:
            p0, a = masks[0]
            vs, hs, conds = [], [], []
            mm = {}
            for q, ma in enumerate(a.axes):
                ba = c.axes[p0 + q]
                if not ma.plain and not axis_same(ma, ba):
                    return None
                if ma.plain and ba.plain:
                    e = self.ext_eq(ma.his[0], ba.his[0])
                    if e is not True:
                        I.may_raise("IndexError", ne(ma.his[0], ba.his[0]), node, "boolean index did not match")
                nv = [fresh("q") for _ in ba.vars]
                vs += nv
                r = dict(zip(ba.vars, nv))
                hs += [subst(h, r) for h in ba.his]
                conds.append(subst(ba.cond, r))
                m.update(r)
                mm.update(zip(ma.vars, nv))
            cond = and_(*conds, as_cond(subst(a.term, mm)))
            ctx = I.s.ctx.assume(*[x for v, h in zip(vs, hs) for x in (le(ZERO, v), lt(v, h))])
            adv_axes = [Axis(vs, hs, simplify(cond, ctx))]
        else:
            b = self.broadcast([a for _, a in idxs], node)
            if b is None:
                return None
            adv_axes, terms = b
            ren = {}
            nx = []
            for a in adv_axes:
                a2, mm = a.renamed()
                nx.append(a2)
                ren.update(mm)
            adv_axes = nx
            ctx0 = I.s.ctx
            for (p0, a), t in zip(idxs, terms):
                ba = c.axes[p0]
                if not ba.plain:
                    return None
                t = subst(t, ren)
                ctx = ctx0.assume(*[x for a2 in adv_axes for x in a2.conds()])
                ok = ctx.decide(and_(le(ZERO, t), lt(t, ba.his[0])))
                if ok is not True:
                    neg_ok = ctx.decide(le(ZERO, t))
                    bad = or_(ge(t, ba.his[0]), lt(t, neg(ba.his[0]))) if neg_ok is not True else ge(t, ba.his[0])
                    bad = simplify(bad, ctx)
                    if bad is not FALSE:
                        vs = [v for a2 in adv_axes for v in a2.vars]
                        hs = [h for a2 in adv_axes for h in a2.his]
                        cc = and_(*[a2.cond for a2 in adv_axes])
                        q = quant("any", vs, hs, and_(cc, bad))
                        if I.decide(q) is not False:
                            I.may_raise("IndexError", q, node, "index out of bounds")
                    if neg_ok is not True:
                        t = ite(lt(t, ZERO), add(t, ba.his[0]), t)
                m[ba.v] = t
        # scalar integers are advanced too
        advpos = [i for i, x in enumerate(place) if x[0] in ("adv", "advint")]
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        axes = []
        put = False
        if not contiguous:
            axes += adv_axes
            put = True
        for i, x in enumerate(place):
            if x[0] == "new":
                axes.append(plain_axis(ONE))
            elif x[0] in ("adv", "advint"):
                if not put:
                    axes += adv_axes
                    put = True
                if x[0] == "advint":
                    ba = c.axes[x[1]]
                    if not ba.plain:
                        return None
                    m[ba.v] = self.check_index(x[2], ba.his[0], node)
            else:
                ba = c.axes[x[1]]
                sl = x[2]
                if sl.lo is NONE and sl.hi is NONE and sl.step is NONE:
                    a2, mm = ba.renamed()
                    axes.append(a2)
                    m.update(mm)
                else:
                    if not ba.plain or sl.step is not NONE:
                        return None
                    lo, ext = self.slice_bounds(sl, ba.his[0])
                    if lo is None:
                        return None
                    nx = plain_axis(ext)
                    axes.append(nx)
                    m[ba.v] = add(lo, nx.v)
        return axes, m

    def cast_store(self, t, vd, dt, isc=False):
        """value t of dtype vd stored into an array of dtype dt"""
        if dt == "bool":
            return as_cond(t)
        t = from_cond(t)
        if dt == "i8" and vd in ("f8", "pyfloat", "mix", "caller", "wide") and not is_int(t):
            return fn("trunc", t) if vd not in ("caller", "wide") else fn("truncc", t)
        if dt == "caller" and vd not in ("caller", "bool"):
            if isnum(t) and t.args[0] in (0, 1):
                return t
            return fn("castc", t)
        if dt == "f8" and vd == "lab":
            return fn("f64", t)
        if dt in NARROW and vd != dt:
            return narrow(fn("truncc", t) if vd == "caller" and dt not in NARROWF else t, dt, is_int(t) or vd in NARROWI or vd in ("i8", "lab", "wide", "pyint", "caller"))
        return t

    def setitem(self, o, ix, v, node):
        I = self.I
        if isinstance(o, Gated):
            o = I.degate(o)
            if isinstance(o, Gated):
                for x in (o.a, o.b):
                    if isinstance(x, Ref):
                        I.havoc_args([x], {}, node, "store through a merged reference")
                I.top("store through a merged reference", node)
                return
        if isinstance(o, Top):
            return
        if not isinstance(o, Ref):
            if isinstance(o, (Tup, Num)):
                raise Raised("TypeError", node, "item assignment")
            return
        c = I.s.heap.get(o.loc)
        if isinstance(c, ListC):
            return self.list_set(o, c, ix, v, node)
        if isinstance(c, DictC):
            return self.dict_store(o, ix, v, node)
        if isinstance(c, ObjC):
            m, _ = I.class_lookup(c.cls, "__setitem__")
            if isinstance(m, Func):
                I.call(Bound(m, o), [ix, v], {}, node)
            return
        if isinstance(c, ViewC):
            return self.view_store(o, c, ix, v, node)
        if isinstance(c, ArrC):
            return self.arr_store(o.loc, c, ix, v, node)

    def touch_arr(self, loc, node):
        I = self.I
        I.touch(loc, node)
        c = I.s.heap.get(loc)
        if isinstance(c, ArrC) and c.alias:
            # memory that may be shared with other locations
            for x in I.origins(Ref(loc)):
                if x != loc:
                    I.touch(x, node)
                    if not (x in I.caller_locs):
                        y = I.s.heap.get(x)
                        if isinstance(y, ArrC):
                            I.s.heap[x] = ArrC(y.axes, top("written through an alias"), y.dtype, y.alias)

    def havoc_arr(self, o, node):
        I = self.I
        loc = I.root_loc(o.loc)
        c = I.s.heap.get(loc)
        self.touch_arr(loc, node)
        if isinstance(c, ArrC):
            I.s.heap[loc] = ArrC(c.axes, top("unknown store"), c.dtype, c.alias)

    def view_store(self, o, c, ix, v, node):
        """write through a view: translate into a guarded store on the base array"""
        I = self.I
        vc = I.content(o)
        if not isinstance(vc, ArrC):
            return self.havoc_arr(o, node)
        # new content of the view
        newv = self.store_content(vc, ix, v, node)
        if newv is None:
            return self.havoc_arr(o, node)
        base = I.content(Ref(c.base))
        if not isinstance(base, ArrC):
            return self.havoc_arr(o, node)
        conds, m = [], {}
        for q, (mp, a) in enumerate(zip(c.maps, base.axes)):
            if mp[0] == "fix":
                conds.append(eq(a.v, mp[1]))
            else:
                _, pos, st, step = mp
                va = c.axes[pos]
                idx = sub(a.v, st) if step is ONE else sub(st, a.v)
                m[va.v] = idx
                full = st is ZERO and step is ONE and va.his[0] is a.his[0]
                if not full:
                    conds += [le(ZERO, idx), lt(idx, va.his[0])]
        for a in c.axes:
            if a.v not in m:
                m[a.v] = ZERO
        t = subst(newv.at(vc.allvars()), m) if newv.axes else newv.term
        cond = self.I.simp_axes(and_(*conds), base.axes) if conds else TRUE
        nt = vite(cond, t, base.term)
        nt = I.simp_axes(nt, base.axes)
        nb = ArrC(base.axes, nt, base.dtype, base.alias)
        self.write_base(c.base, nb, node)

    def write_base(self, loc, nb, node):
        I = self.I
        c = I.s.heap.get(loc)
        if isinstance(c, ViewC):
            # a view of a view: recurse
            return self.view_store_content(loc, c, nb, node)
        self.touch_arr(loc, node)
        I.s.heap[loc] = ArrC(nb.axes, nb.term, nb.dtype, I.s.heap[loc].alias if isinstance(I.s.heap.get(loc), ArrC) else nb.alias)

    def view_store_content(self, loc, c, newv, node):
        I = self.I
        base = I.content(Ref(c.base))
        conds, m = [], {}
        for mp, a in zip(c.maps, base.axes):
            if mp[0] == "fix":
                conds.append(eq(a.v, mp[1]))
            else:
                _, pos, st, step = mp
                va = newv.axes[pos]
                idx = sub(a.v, st) if step is ONE else sub(st, a.v)
                m[va.v] = idx
                conds += [le(ZERO, idx), lt(idx, va.his[0])]
        for a in newv.axes:
            if a.v not in m:
                m[a.v] = ZERO
        cond = I.simp_axes(and_(*conds), base.axes)
        nt = I.simp_axes(vite(cond, subst(newv.term, m), base.term), base.axes)
        self.write_base(c.base, ArrC(base.axes, nt, base.dtype, base.alias), node)

    def arr_store(self, loc, c, ix, v, node):
        I = self.I
        nc = self.store_content(c, ix, v, node)
        self.touch_arr(loc, node)
        if nc is None:
            c = I.s.heap.get(loc)
            I.s.heap[loc] = ArrC(c.axes, top("unknown store at %s" % I.where(node)), c.dtype, c.alias)
            if not I.mute:
                I.unknown.append("array store at %s" % I.where(node))
            return
        I.s.heap[loc] = ArrC(nc.axes, nc.term, c.dtype, c.alias)

    def store_content(self, c, ix, v, node):
        """content of array c after c[ix] = v; None if unknown"""
        I = self.I
        sel = self.selectors(c, ix, node)
        if sel is None:
            return None
        vc = self.arrc(v, node)
        if vc is None:
            return None
        if any(s[0] in ("mask", "fancy") for s in sel):
            return self.fancy_store(c, sel, vc, node)
        axes, conds, back = [], [], {}
        p = 0
        for s in sel:
            if s[0] == "new":
                axes.append(plain_axis(ONE))
                continue
            a = c.axes[p]
            p += 1
            if s[0] == "int":
                if not a.plain:
                    return None
                t = self.check_index(s[1], a.his[0], node)
                conds.append(eq(a.v, t))
            else:
                sl = s[1]
                if sl.lo is NONE and sl.hi is NONE and sl.step is NONE:
                    if a.plain:
                        nx = plain_axis(a.his[0], "v")
                        axes.append(nx)
                        back[nx.v] = a.v
                    else:
                        nx, mm = a.renamed()
                        axes.append(nx)
                        back.update({v2: v1 for v1, v2 in mm.items()})
                    continue
                if not a.plain or sl.step is not NONE:
                    return None
                lo, ext = self.slice_bounds(sl, a.his[0])
                if lo is None:
                    return None
                nx = plain_axis(ext, "v")
                axes.append(nx)
                idx = sub(a.v, lo)
                back[nx.v] = idx
                conds += [le(ZERO, idx), lt(idx, ext)]
        # broadcast the value to the selection
        vt = self.fit(vc, axes, node)
        if vt is None:
            return None
        t = self.cast_store(subst(vt, back), vc.dtype, c.dtype)
        cond = I.simp_axes(and_(*conds), c.axes) if conds else TRUE
        nt = vite(cond, t, c.term) if c.dtype == "bool" else ite(cond, from_cond(t), from_cond(c.term))
        return ArrC(c.axes, I.simp_axes(nt, c.axes), c.dtype, c.alias)

    def fit(self, vc, axes, node):
        """element term of vc broadcast to the given axes (expressed in their variables)"""
        I = self.I
        vaxes = list(vc.axes)
        while len(vaxes) > len(axes) and vaxes and vaxes[0].plain and I.decide(eq(vaxes[0].his[0], ONE)) is True:
            vc = ArrC(vaxes[1:], subst(vc.term, {vaxes[0].v: ZERO}), vc.dtype)
            vaxes = vaxes[1:]
        if len(vaxes) > len(axes):
            raise Raised("ValueError", node, "could not broadcast input array")
        m = {}
        off = len(axes) - len(vaxes)
        for q, a in enumerate(vaxes):
            t = axes[off + q]
            if axis_same(a, t):
                m.update(zip(a.vars, t.vars))
                continue
            if a.plain and a.his[0] is ONE:
                m[a.v] = ZERO
                continue
            if a.plain and t.plain:
                e = self.ext_eq(a.his[0], t.his[0])
                if e is True:
                    m[a.v] = t.v
                    continue
                if I.decide(eq(a.his[0], ONE)) is True:
                    m[a.v] = ZERO
                    continue
                I.may_raise("ValueError", and_(ne(a.his[0], t.his[0]), ne(a.his[0], ONE)), node, "could not broadcast input array")
                if I.decide(eq(a.his[0], t.his[0])) is True:
                    m[a.v] = t.v
                    continue
                return None
            if self.ext_eq(a.extent(), t.extent()) is True and a.plain and a.v not in free(vc.term):
                m[a.v] = ZERO
                continue
            return None
        return subst(vc.term, m)

    def fancy_store(self, c, sel, vc, node):
        I = self.I
        if len([s for s in sel if s[0] == "mask"]) == 1 and not [s for s in sel if s[0] == "fancy"]:
            # A[mask] = v (mask may cover leading axes)
            p = 0
            m, conds = {}, []
            axes = []
            back = {}
            for s in sel:
                if s[0] == "mask":
                    a = s[1]
                    vs, hs = [], []
                    for q, ma in enumerate(a.axes):
                        ba = c.axes[p + q]
                        if not (ma.plain and ba.plain):
                            return None
                        if self.ext_eq(ma.his[0], ba.his[0]) is not True:
                            I.may_raise("IndexError", ne(ma.his[0], ba.his[0]), node, "boolean index did not match")
                        m[ma.v] = ba.v
                        vs.append(ba.v)
                        hs.append(ba.his[0])
                    mc = as_cond(subst(a.term, m))
                    conds.append(mc)
                    nv = [fresh("q") for _ in vs]
                    r = dict(zip(vs, nv))
                    axes.append(Axis(nv, hs, subst(mc, r)))
                    back.update(zip(nv, vs))
                    p += len(a.axes)
                elif s[0] == "slice" and s[1].lo is NONE and s[1].hi is NONE and s[1].step is NONE:
                    nx = plain_axis(c.axes[p].his[0])
                    axes.append(nx)
                    back[nx.v] = c.axes[p].v
                    p += 1
                elif s[0] == "int":
                    t = self.check_index(s[1], c.axes[p].his[0], node)
                    conds.append(eq(c.axes[p].v, t))
                    p += 1
                else:
                    return None
            vt = self.fit(vc, axes, node)
            if vt is None:
                return None
            t = self.cast_store(subst(vt, back), vc.dtype, c.dtype)
            cond = I.simp_axes(and_(*conds), c.axes)
            return ArrC(c.axes, I.simp_axes(vite(cond, t, c.term), c.axes), c.dtype, c.alias)
        if any(s[0] == "mask" for s in sel):
            return None
        # integer arrays whose index terms are invertible
        r = self.fancy_axes(c, sel, node)
        if r is None:
            return None
        axes, m = r
        vt = self.fit(vc, axes, node)
        if vt is None:
            return None
        # solve base variable == m[base var] for the advanced axis variables
        avars = [v for a in axes for v in a.vars]
        sol = {}
        conds = []
        from .loops import pin
        eqs = []
        for a in c.axes:
            if a.v in m:
                eqs.append(eq(a.v, m[a.v]))
        for v in avars:
            for e in eqs:
                rr = pin(e, v)
                if rr is not None and not (free(rr) & set(avars)):
                    sol[v] = rr
                    break
            else:
                # concrete small axes: enumerate
                return self.fancy_store_enum(c, axes, m, vt, vc, node)
        for e in eqs:
            conds.append(subst(e, sol))
        for a in axes:
            conds += [subst(x, sol) for x in a.conds()]
        cond = I.simp_axes(and_(*conds), c.axes)
        t = self.cast_store(subst(vt, sol), vc.dtype, c.dtype)
        return ArrC(c.axes, I.simp_axes(vite(cond, t, c.term), c.axes), c.dtype, c.alias)

    def fancy_store_enum(self, c, axes, m, vt, vc, node):
        I = self.I
        small = [a for a in axes if len(a.vars) == 1 and isnum(a.his[0]) and a.his[0].args[0] <= LIMIT]
        rest = [a for a in axes if a not in small]
        if len(small) != 1 or any(not a.plain for a in rest):
            return None
        a0 = small[0]
        t = c.term
        for j in range(int(a0.his[0].args[0])):
            mm = {a0.v: num(j)}
            conds = [subst(a0.cond, mm)]
            sol = dict(mm)
            for ba in c.axes:
                e = eq(ba.v, subst(m[ba.v], mm)) if ba.v in m else TRUE
                done = False
                for a in rest:
                    if ba.v in m and m[ba.v] is a.v:
                        sol[a.v] = ba.v
                        done = True
                if not done:
                    conds.append(e)
            val = self.cast_store(subst(vt, sol), vc.dtype, c.dtype)
            t = vite(I.simp_axes(and_(*conds), c.axes), val, t)
        return ArrC(c.axes, I.simp_axes(t, c.axes), c.dtype, c.alias)

    def delitem(self, o, ix, node):
        I = self.I
        if isinstance(o, Ref):
            c = I.s.heap.get(o.loc)
            I.touch(o.loc, node)
            if isinstance(c, ListC) and c.base is None and isinstance(ix, Num) and isnum(ix.t) and all(k is TRUE for k, _ in c.tail):
                t = list(c.tail)
                try:
                    del t[int(ix.t.args[0])]
                except IndexError:
                    raise Raised("IndexError", node, "del")
                I.s.heap[o.loc] = ListC(None, t)
                return
            if isinstance(c, ListC) and isinstance(ix, Slc) and ix.lo is NONE and ix.hi is NONE:
                I.s.heap[o.loc] = ListC(None, ())
                return
            if isinstance(c, DictC) and self.dict_remove(o, c, ix, node) is not None:
                return
            I.s.heap[o.loc] = TopC("deletion")
            I.sync(o.loc, node)

    # ============================================================ linear algebra
    def matmul(self, a, b, node):
        I = self.I
        ca, cb = self.arrc(a, node), self.arrc(b, node)
        if ca is None or cb is None:
            return I.top("matmul operand", node)
        if not ca.axes or not cb.axes:
            raise Raised("ValueError", node, "matmul: scalar operand")
        return self.contract(ca, cb, len(ca.axes) - 1, max(len(cb.axes) - 2, 0), node)

    def contract(self, ca, cb, pa, pb, node):
        I = self.I
        if len(ca.axes) > 2 or len(cb.axes) > 2:
            return I.top("stacked product", node)
        if set(ca.allvars()) & set(cb.allvars()):
            cb = cb.renamed()
        xa, xb = ca.axes[pa], cb.axes[pb]
        m = {}
        if axis_same(xa, xb):
            m.update(zip(xb.vars, xa.vars))
            ax = xa
        elif xa.plain and xb.plain:
            e = self.ext_eq(xa.his[0], xb.his[0])
            if e is not True:
                I.may_raise("ValueError", ne(xa.his[0], xb.his[0]), node, "shapes not aligned")
                if I.decide(eq(xa.his[0], xb.his[0])) is not True:
                    return I.top("shapes not aligned", node)
            m[xb.v] = xa.v
            ax = xa
        elif self.ext_eq(xa.extent(), xb.extent()) is True and xa.plain and xa.v not in free(ca.term):
            ax = xb
        elif self.ext_eq(xa.extent(), xb.extent()) is True and xb.plain and xb.v not in free(cb.term):
            ax = xa
        else:
            return I.top("product over filtered axes", node)
        t = mul(from_cond(ca.term), from_cond(subst(cb.term, m)))
        d = promote([ca.dtype, cb.dtype])
        nv, mm = ax.renamed()
        axes = [a for i, a in enumerate(ca.axes) if i != pa] + [a for i, a in enumerate(cb.axes) if i != pb]
        t = red("sum", nv.vars, nv.his, nv.cond, subst(t, mm))
        if d == "caller":
            t = fn("wrapc", t)
        if d == "bool":
            t = ne(t, ZERO)
        return self.wrap(axes, t, d, node)

    # ============================================================ reductions
    def norm_axes(self, c, axis, node):
        n = len(c.axes)
        if axis is None or axis is NONE:
            return list(range(n))
        items = axis.items if isinstance(axis, Tup) else [axis]
        out = []
        for x in items:
            k = self.num(x, node)
            if k is None or not isnum(k.t):
                return None
            i = int(k.t.args[0])
            if not -n <= i < n:
                raise Raised("AxisError", node, "axis out of bounds")
            out.append(i % n)
        return out

    def reduce(self, kind, v, axis, node, keepdims=False, dtype=None, where=None):
        I = self.I
        c = self.arrc(v, node)
        if c is None:
            if isinstance(v, Seq) or isinstance(v, Ref):
                return I.top("reduction operand", node)
            return I.top("reduction operand", node)
        ps = self.norm_axes(c, axis, node)
        if ps is None:
            return I.top("axis", node)
        if not c.axes:
            t = from_cond(c.term)
            if kind in ("any", "all"):
                return Num(as_cond(c.term), "npbool")
            return Num(t, npkind(c.dtype) if c.dtype != "bool" else "npint")
        red_axes = [c.axes[p] for p in ps]
        rest = [a for i, a in enumerate(c.axes) if i not in ps]
        # rename the reduced variables
        ren = {}
        rx = []
        for a in red_axes:
            a2, m = a.renamed()
            rx.append(a2)
            ren.update(m)
        t = subst(c.term, ren)
        vs = [x for a in rx for x in a.vars]
        hs = [h for a in rx for h in a.his]
        cond = and_(*[a.cond for a in rx])
        if where is not None:
            return I.top("where= in reduction", node)
        cnt = mul(*[a.extent() for a in red_axes])
        d = strong(c.dtype)
        if kind in ("any", "all"):
            q = quant(kind, vs, hs, and_(cond, as_cond(t)) if kind == "any" else or_(not_(cond), as_cond(t)))
            q = I.simp_axes(q, rest)
            q = self.collapse_quant(q, vs, hs)
            res, dd = q, "bool"
        else:
            t = from_cond(t)
            if kind in ("max", "min"):
                z = I.decide(eq(cnt, ZERO))
                if z is not False:
                    I.may_raise("ValueError", eq(cnt, ZERO), node, "zero-size array to reduction operation")
                res, dd = self.reduce_term(kind, vs, hs, cond, t), d
                if d == "bool":
                    dd = "i8"
            elif kind == "sum":
                dd = {"bool": "i8", "caller": "wide", "lab": "i8"}.get(d, "i8" if d in NARROWI else d)
                if dtype is not None:
                    dd = dtype
                    if dtype == "caller" and d == "caller":
                        t = t
                res = self.reduce_term("sum", vs, hs, cond, t)
                if dd == "caller":
                    res = fn("wrapc", res)
                if dd == "i8" and d == "f8":
                    return I.top("integer accumulator", node)
                res = narrow(res, dd)
            elif kind == "prod":
                dd = {"bool": "i8", "caller": "wide"}.get(d, "i8" if d in NARROWI else d)
                res = narrow(self.reduce_term("prod", vs, hs, cond, t), dd)
            elif kind == "mean":
                dd = d if d in NARROWF else "f8"
                res = narrow(div(self.reduce_term("sum", vs, hs, cond, t), cnt), dd)
                if dtype == "caller":
                    res = fn("castc", res)
            elif kind in ("var", "std"):
                raise AssertionError
            else:
                return I.top("reduction " + kind, node)
        if keepdims:
            axes = []
            for i, a in enumerate(c.axes):
                axes.append(plain_axis(ONE) if i in ps else a)
            return self.wrap(axes, res, dd, node)
        return self.wrap(rest, res, dd, node)

    def collapse_quant(self, q, vs, hs):
        return q

    def reduce_term(self, kind, vs, hs, cond, t):
        """reduction, unrolled for literal extents"""
        if all(isnum(h) for h in hs):
            n = 1
            for h in hs:
                n *= max(int(h.args[0]), 0)
            if n <= 16:
                return self.unroll(kind, vs, hs, cond, t)
        if len(vs) > 1 and any(isnum(h) and h.args[0] <= 4 for h in hs) and cond is TRUE:
            i = next(i for i, h in enumerate(hs) if isnum(h) and h.args[0] <= 4)
            parts = []
            for j in range(int(hs[i].args[0])):
                m = {vs[i]: num(j)}
                parts.append(self.reduce_term(kind, [v for q, v in enumerate(vs) if q != i], [subst(h, m) for q, h in enumerate(hs) if q != i], cond, subst(t, m)))
            return self.combine(kind, parts)
        return red(kind, vs, hs, cond, t)

    def combine(self, kind, parts):
        if kind == "sum":
            return add(*parts) if parts else ZERO
        if kind == "prod":
            return mul(*parts) if parts else ONE
        return fn(kind + "2", *parts) if parts else (NINF if kind == "max" else INF)

    def unroll(self, kind, vs, hs, cond, t):
        import itertools
        parts = []
        for pt in itertools.product(*[range(int(h.args[0])) for h in hs]):
            m = dict(zip(vs, [num(x) for x in pt]))
            c = self.I.simp(subst(cond, m))
            if self.I.decide(c) is False or c is FALSE:
                continue
            x = self.I.simp(subst(t, m))
            if c is not TRUE and self.I.decide(c) is not True:
                x = ite(c, x, {"sum": ZERO, "prod": ONE, "max": NINF, "min": INF}[kind])
            parts.append(x)
        return self.combine(kind, parts)

    # ============================================================ attributes
    def attr(self, o, name, node):
        I = self.I
        if isinstance(o, Gated):
            o = I.degate(o)
            if isinstance(o, Gated):
                return self.gated_apply(o, lambda v: I.getattr(v, name, node), node)
        if isinstance(o, Top):
            return o
        if isinstance(o, Ext):
            p = o.path + "." + name
            if p in CONST:
                return CONST[p]
            return Ext(p)
        if I.is_arr(o):
            c = I.content(o)
            if not isinstance(c, ArrC):
                return I.top("attribute of unknown array", node)
            if name == "shape":
                return Tup([Num(I.simp(e), "pyint") for e in c.shape()])
            if name == "ndim":
                return Num(num(len(c.axes)), "pyint")
            if name == "size":
                return Num(I.simp(mul(*c.shape())) if c.axes else ONE, "pyint")
            if name == "T":
                return self.transpose(o, None, node)
            if name == "dtype":
                return Dtype(c.dtype)
            if name in ("real",):
                return o
            if name == "flat":
                return self.ravel(o, node)
            if name in ("base", "strides", "flags", "data", "itemsize", "nbytes"):
                return I.top("array." + name, node)
            if name in ARRAY_METHODS:
                return Meth(o, name)
            if name in ARRAY_OTHER or name.startswith("__"):
                return I.top("array." + name, node)
            raise Raised("AttributeError", node, "array has no attribute %s" % name)
        if isinstance(o, Num):
            if name == "shape":
                return Tup([])
            if name == "ndim":
                return Num(ZERO, "pyint")
            if name == "size":
                return Num(ONE, "pyint")
            if name == "dtype":
                return Dtype(strong(dtype_of(o.k)))
            if name in ("real", "T"):
                return o
            if name == "imag":
                return Num(ZERO, o.k)
            if o.k in ("pyint", "pyfloat", "pybool") and name not in PYNUM_METHODS and not hasattr({"pyfloat": float, "pybool": bool}.get(o.k, int), name):
                raise Raised("AttributeError", node, "number has no attribute %s" % name)
            return Meth(o, name)
        if isinstance(o, Dtype):
            if name in ("type",):
                return o
            if name == "kind" and o.d in ("f8", "f4", "f2", "i8", "wide", "bool", "lab"):
                return Str({"f8": "f", "f4": "f", "f2": "f", "bool": "b"}.get(o.d, "i"))
            if name == "kind" and o.d == "caller":
                return Gated(batom("cdt:kind f"), Str("f"), Gated(batom("cdt:kind i"), Str("i"), Gated(batom("cdt:kind u"), Str("u"), Str("b"))))
            return I.top("dtype." + name, node)
        if isinstance(o, Ref):
            c = I.content(o)
            if isinstance(c, ListC):
                if name in LIST_METHODS:
                    return Meth(o, name)
                if hasattr(list, name):
                    return I.top("list." + name, node)
                raise Raised("AttributeError", node, "list has no attribute %s" % name)
            if isinstance(c, DictC):
                return Meth(o, name)
            if isinstance(c, TopC):
                return I.top("attribute of unknown", node)
        if o is NONE:
            if hasattr(None, name):
                return I.top("None." + name, node)
            raise Raised("AttributeError", node, "None has no attribute %s" % name)
        if isinstance(o, Tup):
            if name in ("index", "count"):
                return Meth(o, name)
            if hasattr(tuple, name):
                return I.top("tuple." + name, node)
            raise Raised("AttributeError", node, "tuple has no attribute %s" % name)
        if isinstance(o, (Str, Seq, Rng, DictView)):
            return Meth(o, name)
        if isinstance(o, (ip.Wrapped,)):
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                return Meth(o, name)
            return I.getattr(o.fn, name, node)
        if isinstance(o, ip.ExcV):
            return I.top("exception attribute", node)
        return I.top("attribute " + name, node)

    # ============================================================ views: transpose, reshape
    def transpose(self, o, perm, node):
        I = self.I
        c = self.arrc(o, node)
        if c is None:
            return I.top("transpose", node)
        n = len(c.axes)
        perm = list(reversed(range(n))) if perm is None else perm
        if n <= 1:
            return o if I.is_arr(o) else I.mkarr(c.axes, c.term, strong(c.dtype))
        if isinstance(o, Ref) and I.is_arr(o) and all(a.plain for a in c.axes):
            axes = [plain_axis(c.axes[p].his[0], "v") for p in perm]
            maps = [("lin", perm.index(q), ZERO, ONE) for q in range(n)]
            return self.mkview(o, axes, maps)
        return I.mkarr([c.axes[p] for p in perm], c.term, strong(c.dtype), c.alias)

    def ravel(self, o, node, copy=False):
        I = self.I
        c = self.arrc(o, node)
        if c is None:
            return I.top("ravel", node)
        if len(c.axes) == 1:
            if copy or not I.is_arr(o):
                return I.mkarr(c.axes, c.term, strong(c.dtype))
            return self.getitem(o, Slc(NONE, NONE, NONE), node) if all(a.plain for a in c.axes) else o
        if not c.axes:
            return I.mkarr([plain_axis(ONE)], c.term, strong(c.dtype))
        vs, hs, cond = [], [], []
        seen = set()
        for a in c.axes:
            vs += a.vars
            hs += a.his
            cond.append(a.cond)
        # singleton axes: drop
        keep = [a for a in c.axes if not (a.plain and I.decide(eq(a.his[0], ONE)) is True)]
        m = {a.v: ZERO for a in c.axes if a not in keep}
        al = frozenset(I.origins(o)) if isinstance(o, Ref) and I.is_arr(o) and not copy else frozenset()
        if len(keep) == 1:
            return I.mkarr([keep[0].subst(m)], subst(c.term, m), strong(c.dtype), al)
        return I.mkarr([Axis(vs, hs, and_(*cond))], c.term, strong(c.dtype), al)

    def reshape(self, o, shape, node):
        I = self.I
        c = self.arrc(o, node)
        if c is None:
            return I.top("reshape", node)
        dims = []
        unk = None
        for i, s in enumerate(shape):
            n = self.num(s, node)
            if n is None:
                return I.top("reshape", node)
            t = I.simp(n.t)
            if isnum(t) and t.args[0] == -1:
                unk = i
                dims.append(None)
            else:
                dims.append(t)
        total = I.simp(mul(*c.shape())) if c.axes else ONE
        if unk is not None:
            others = [d for d in dims if d is not None]
            p = mul(*others) if others else ONE
            if p is ONE:
                dims[unk] = total
            else:
                # cancel factors
                src = [a.extent() for a in c.axes]
                rest = list(src)
                for d in others:
                    hit = next((x for x in rest if x is d or self.ext_eq(x, d) is True), None)
                    if hit is None:
                        if d is ONE:
                            continue
                        return I.top("reshape", node)
                    rest.remove(hit)
                dims[unk] = mul(*rest) if rest else ONE
        src = [a for a in c.axes if not (a.plain and (a.his[0] is ONE))]
        tgt = [(i, d) for i, d in enumerate(dims) if d is not ONE]
        al = frozenset(I.origins(o)) if isinstance(o, Ref) and I.is_arr(o) else frozenset()
        base_m = {a.v: ZERO for a in c.axes if a not in src}
        if len(src) == len(tgt) and all(self.ext_eq(a.extent(), d) is True for a, (i, d) in zip(src, tgt)):
            axes = []
            it = iter(src)
            maps = {}
            for i, d in enumerate(dims):
                if d is ONE:
                    axes.append(plain_axis(ONE))
                else:
                    a = next(it)
                    axes.append(a)
            if isinstance(o, Ref) and I.is_arr(o) and all(a.plain for a in c.axes):
                nax = [plain_axis(a.his[0], "v") for a in axes]
                maps = []
                for a in c.axes:
                    if a in src:
                        maps.append(("lin", axes.index(a), ZERO, ONE))
                    else:
                        maps.append(("fix", ZERO))
                return self.mkview(o, nax, maps)
            return I.mkarr(axes, subst(c.term, base_m), strong(c.dtype), al)
        if len(tgt) == 1 and self.ext_eq(total, tgt[0][1]) is True:
            r = self.ravel(o, node)
            if len(dims) == 1:
                return r
        # total mismatch
        want = mul(*dims) if dims else ONE
        if self.ext_eq(total, want) is False:
            raise Raised("ValueError", node, "cannot reshape array")
        # row-major general case with plain axes
        if all(a.plain for a in c.axes) and self.ext_eq(total, want) is True:
            axes = [plain_axis(d) for d in dims]
            lin = ZERO
            for a, d in zip(axes, dims):
                lin = add(mul(lin, d), a.v)
            m = {}
            rem = lin
            for a in reversed(c.axes):
                m[a.v] = fn("mod", rem, a.his[0])
                rem = fn("floor", div(rem, a.his[0]))
            return I.mkarr(axes, subst(c.term, m), strong(c.dtype), al)
        return I.top("reshape", node)

    # ============================================================ external calls
    def call_ext(self, path, args, kw, node):
        I = self.I
        if path.startswith("typing.") or path.startswith("typing_extensions."):
            return Ext(path)
        f = self.funcs.get(path)
        if f is None and path.startswith("numpy."):
            f = self.funcs.get("np." + path[6:])
        if I.tables and path.startswith(("numpy.", "np.")):
            r = npt.call(self, path.split(".", 1)[1], args, kw, node)
            if r is not None:
                return r
        if f is None and path.startswith("builtins."):
            nm = path[9:]
            f = self.funcs.get(nm)
            if f is None and (nm in ip.EXC_PARENTS or nm in ("Exception", "BaseException", "Warning", "DeprecationWarning", "RuntimeWarning", "UserWarning")):
                return ip.ExcV(nm)
        if f is None and path.startswith("math."):
            f = self.funcs.get("m." + path[5:])
        if isinstance(kw.get("dtype"), Gated) and f is not None:
            g = I.degate(kw["dtype"])
            if isinstance(g, Gated):
                return self.gated_apply(g, lambda v: self.call_ext(path, args, dict(kw, dtype=v), node), node)
            kw = dict(kw, dtype=g)
        if any(isinstance(a, Gated) for a in args):
            args = [I.degate(a) if isinstance(a, Gated) else a for a in args]
            left = [i for i, a in enumerate(args) if isinstance(a, Gated)]
            if f is not None and len(left) == 1 and path.startswith(("numpy.", "np.")) and all(isinstance(x, Num) or I.is_arr(x) for x in (args[left[0]].a, args[left[0]].b)):
                i = left[0]
                return self.gated_apply(args[i], lambda v: self.call_ext(path, list(args[:i]) + [v] + list(args[i + 1:]), kw, node), node)
        if f is None:
            root = path.split(".")[0]
            if not path.startswith("builtins."):
                I.event("extcall", node, path=path)
            if root == "numpy" and not (set(kw) & {"out"}) and not path.startswith("numpy.random") and not path.endswith(".at") \
                    and path.split(".")[-1] not in ("put_along_axis", "fill_diagonal", "place", "copyto", "putmask", "shuffle"):
                for a in args[1:]:
                    # an array in an argument position past the operands may be an output
                    if isinstance(a, Ref) and args.index(a) >= 2 and isinstance(I.s.heap.get(I.root_loc(a.loc)), ArrC):
                        I.havoc_args([a], {}, node, path)
                if path.startswith("numpy.set") or path.endswith("seterr"):
                    I.event("impure", node, path=path)
                return I.top("numpy function %s" % path, node)
            if root in ("random", "time", "os", "secrets", "uuid", "datetime", "locale", "threading", "sys") or path.startswith("numpy.random"):
                I.event("impure", node, path=path)
                return I.top(path, node)
            if root in ("object",):
                return NONE
            if root.startswith("inherited:"):
                if args:
                    I.havoc_args(args[:1], {}, node, path)
                return I.top(path, node)
            I.havoc_args(args, kw, node, path)
            return I.top("external function %s" % path, node)
        if any(isinstance(a, Top) for a in args) and path not in TOP_OK:
            return next(a for a in args if isinstance(a, Top))
        if not kw:
            return f(args, kw, node)
        tk = Kw(kw)
        r = f(args, tk, node)
        left = set(kw) - tk.seen - HARMLESS_KW
        if left and path.startswith("numpy."):
            # the model says nothing about these arguments
            if "out" in left:
                I.havoc_args([kw["out"]], {}, node, path)
            return I.top("argument %s of %s" % (sorted(left)[0], path), node)
        return r

    def call_meth(self, o, name, args, kw, node):
        I = self.I
        if I.is_arr(o) or (isinstance(o, Num)):
            return self.arr_meth(o, name, args, kw, node)
        if isinstance(o, ip.Wrapped) and o.kind == "property":
            if name == "setter":
                w = ip.Wrapped("property", o.fn)
                w.setter = args[0]
                return w
            return o
        if isinstance(o, Str):
            if o.s is not None and name in ("lower", "upper", "strip") and not args:
                return Str(getattr(o.s, name)())
            if o.s is not None and name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], Str) and args[0].s is not None:
                return B(TRUE if getattr(o.s, name)(args[0].s) else FALSE)
            return Str(None)
        if isinstance(o, Tup):
            if name == "index":
                return self.list_index(ListC(None, [(TRUE, x) for x in o.items]), args[0], node)
            return I.top("tuple." + name, node)
        if isinstance(o, Ref):
            c = I.s.heap.get(o.loc)
            if isinstance(c, ListC):
                return self.list_meth(o, c, name, args, kw, node)
            if isinstance(c, DictC):
                return self.dict_meth(o, c, name, args, kw, node)
        return I.top("method " + name, node)

    def list_index(self, c, key, node):
        I = self.I
        r = None
        none = TRUE
        if c.base is not None and isinstance(c.base, tuple):
            q = self.base_find(c.base[0], c.base[1], key)
            if q is None:
                return I.top("list.index", node)
            found, idx = q
            none = not_(found)
            r = idx
            off = c.base[0].extent()
        elif c.base is None:
            off = ZERO
        else:
            return I.top("list.index", node)
        alts = []
        for j, (cond, v) in enumerate(c.tail):
            if cond is not TRUE:
                return I.top("list.index", node)
            m = I.truth(self.compare("Eq", v, key, node), node)
            alts.append((and_(none, m), add(off, num(j))))
            none = and_(none, not_(m))
        none = I.simp(none)
        if I.decide(none) is True:
            raise Raised("ValueError", node, "not in list")
        if I.decide(none) is None:
            I.may_raise("ValueError", none, node, "not in list")
        t = r
        for cond, x in reversed(alts):
            t = x if t is None else ite(cond, x, t)
        return Num(I.simp(t), "pyint") if t is not None else I.top("list.index", node)

    def list_meth(self, o, c, name, args, kw, node):
        I = self.I
        H = I.s.heap
        if name == "append":
            I.touch(o.loc, node)
            H[o.loc] = ListC(c.base, c.tail + ((TRUE, args[0]),))
            return NONE
        if name == "extend":
            I.touch(o.loc, node)
            d = self.iter_desc(args[0], node)
            if d is None:
                H[o.loc] = TopC("extend")
            elif d[0] == "conc":
                H[o.loc] = ListC(c.base, c.tail + tuple((TRUE, x) for x in d[1]))
            else:
                r = self.list_concat_content(c, ListC((d[1], d[2]), ()), None)
                H[o.loc] = r if r is not None else TopC("extend")
            return NONE
        if name == "copy":
            return I.alloc(ListC(c.base, c.tail))
        if name == "clear":
            I.touch(o.loc, node)
            H[o.loc] = ListC(None, ())
            return NONE
        if name == "index":
            return self.list_index(c, args[0], node)
        if name == "count":
            nm = self.list_norm(c)
            k = self.num(args[0], node)
            if nm is not None and k is not None and isinstance(nm.base[1], Num):
                ax, it = nm.base
                a2, m = ax.renamed()
                return Num(red("sum", a2.vars, a2.his, and_(a2.cond, eq(subst(it.t, m), k.t)), ONE), "pyint")
            return I.top("list.count", node)
        if name == "pop":
            I.touch(o.loc, node)
            if c.tail and not args and c.tail[-1][0] is TRUE:
                v = c.tail[-1][1]
                H[o.loc] = ListC(c.base, c.tail[:-1])
                return v
            if c.base is None and not c.tail:
                raise Raised("IndexError", node, "pop from empty list")
            if c.base is None and args and isinstance(args[0], Num) and isnum(args[0].t):
                t = list(c.tail)
                try:
                    v = t.pop(int(args[0].t.args[0]))
                except IndexError:
                    raise Raised("IndexError", node, "pop")
                H[o.loc] = ListC(None, t)
                return v[1]
            H[o.loc] = TopC("pop")
            return I.top("pop", node)
        if name == "insert":
            I.touch(o.loc, node)
            if c.base is None and isinstance(args[0], Num) and isnum(args[0].t):
                t = list(c.tail)
                t.insert(int(args[0].t.args[0]), (TRUE, args[1]))
                H[o.loc] = ListC(None, t)
                return NONE
            if isinstance(args[0], Num) and self.ext_eq(args[0].t, self.list_len(c)) is True:
                H[o.loc] = ListC(c.base, c.tail + ((TRUE, args[1]),))
                return NONE
            H[o.loc] = TopC("insert")
            return NONE
        if name in ("sort", "reverse", "remove"):
            I.touch(o.loc, node)
            if len(c.tail) <= 1 and c.base is None and name != "remove":
                return NONE
            if name == "reverse" and c.base is None:
                H[o.loc] = ListC(None, tuple(reversed(c.tail)))
                return NONE
            H[o.loc] = TopC(name)
            return NONE
        raise Raised("AttributeError", node, name)

    def dict_remove(self, o, c, key, node, quiet=False):
        """remove a key of a dictionary with known keys: (value,), (None,) when absent and allowed; None when unknown"""
        I = self.I
        if c.base is not None:
            return None
        for i, (cond, k, v) in enumerate(c.entries):
            d = I.decide(self.key_eq(k, key))
            if d is None or (d and cond is not TRUE):
                return None
            if d:
                I.touch(o.loc, node)
                I.s.heap[o.loc] = DictC(None, c.entries[:i] + c.entries[i + 1:], c.isset)
                I.sync(o.loc, node)
                return (v,)
        if quiet:
            return (None,)
        raise Raised("KeyError", node, "key")

    def dict_meth(self, o, c, name, args, kw, node):
        I = self.I
        if name in ("keys", "values", "items"):
            return DictView(o.loc, name)
        if name == "get":
            return self.dict_get(c, args[0], node, default=args[1] if len(args) > 1 else NONE)
        if name == "setdefault":
            alts, none = self.dict_find(c, args[0])
            d = I.decide(none)
            dv = args[1] if len(args) > 1 else NONE
            if d is True:
                self.dict_store(o, args[0], dv, node)
                return dv
            if d is False:
                return self.dict_get(c, args[0], node)
            v = self.dict_get(c, args[0], node, default=dv)
            self.dict_store(o, args[0], v, node)
            return v
        if name == "copy":
            return I.alloc(DictC(c.base, c.entries, c.isset))
        if name == "add" and c.isset:
            self.dict_store(o, args[0], NONE, node)
            return NONE
        if name == "clear":
            I.touch(o.loc, node)
            I.s.heap[o.loc] = DictC(None, [], c.isset)
            I.sync(o.loc, node)
            return NONE
        if name == "pop" and not c.isset and args:
            r = self.dict_remove(o, c, args[0], node, len(args) > 1)
            if r is not None:
                return r[0] if r[0] is not None else args[1]
        if name == "update":
            for k, v in kw.items():
                self.dict_store(o, Str(k), v, node)
            if args:
                a = args[0]
                if isinstance(a, Ref) and isinstance(I.s.heap.get(a.loc), DictC):
                    d = I.s.heap[a.loc]
                    if d.base is None and all(cond is TRUE for cond, k, v in d.entries):
                        for cond, k, v in d.entries:
                            self.dict_store(o, k, v, node)
                        return NONE
                I.touch(o.loc, node)
                I.s.heap[o.loc] = TopC("update")
                I.sync(o.loc, node)
            return NONE
        I.touch(o.loc, node)
        I.s.heap[o.loc] = TopC("dict." + name)
        I.sync(o.loc, node)
        return I.top("dict." + name, node)


HARMLESS_KW = {"order", "casting", "subok", "like", "kind", "stable", "overwrite_input"}


class Kw(dict):
    """keyword arguments that know which of them a model looked at"""

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.seen = set()

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def keys(self):
        self.seen |= set(dict.keys(self))
        return dict.keys(self)

    def __iter__(self):
        self.seen |= set(dict.keys(self))
        return dict.__iter__(self)

    def items(self):
        self.seen |= set(dict.keys(self))
        return dict.items(self)

    def values(self):
        self.seen |= set(dict.keys(self))
        return dict.values(self)


class DictView(V):
    def __init__(self, loc, kind):
        self.loc, self.kind = loc, kind


def npscalar(v):
    return isinstance(v, Num) and v.k not in PYK



CONST = {
    "numpy.pi": Num(PI, "pyfloat"), "math.pi": Num(PI, "pyfloat"), "numpy.inf": Num(INF, "pyfloat"), "math.inf": Num(INF, "pyfloat"),
    "numpy.nan": Num(NAN, "pyfloat"), "math.nan": Num(NAN, "pyfloat"), "numpy.newaxis": NONE, "numpy.e": Num(sym("e", "real"), "pyfloat"),
    "math.e": Num(sym("e", "real"), "pyfloat"), "numpy.True_": B(TRUE, "npbool"), "numpy.False_": B(FALSE, "npbool"),
}
for _d, _e, _t, _m in (("f8", Fraction(1, 2 ** 52), Fraction(1, 2 ** 1022), (2 - Fraction(1, 2 ** 52)) * 2 ** 1023), ("f4", Fraction(1, 2 ** 23), Fraction(1, 2 ** 126), (2 - Fraction(1, 2 ** 23)) * 2 ** 127),
                       ("f2", Fraction(1, 2 ** 10), Fraction(1, 2 ** 14), Fraction(65504))):
    for _n, _v in (("eps", _e), ("tiny", _t), ("smallest_normal", _t), ("max", _m), ("min", -_m), ("epsneg", _e / 2), ("resolution", {"f8": Fraction(1, 10 ** 15), "f4": Fraction(1, 10 ** 6), "f2": Fraction(1, 10 ** 3)}[_d])):
        CONST["numpy.finfo:%s.%s" % (_d, _n)] = Num(num(_v), "npfloat")


ARRAY_METHODS = set("""all any argmax argmin argsort astype clip compress copy cumprod cumsum diagonal dot fill flatten item
max mean min nonzero prod ptp put ravel repeat reshape resize round searchsorted sort squeeze std sum swapaxes take tolist
trace transpose var view conj conjugate tobytes choose partition setflags byteswap itemset""".split())
ARRAY_OTHER = set("argpartition ctypes device dump dumps flags getfield imag mT newbyteorder nbytes setfield to_device tofile tostring".split())
LIST_METHODS = set("append extend insert remove pop clear index count sort reverse copy".split())
PYNUM_METHODS = set("bit_length conjugate real imag numerator denominator is_integer as_integer_ratio hex fromhex to_bytes from_bytes".split())
TOP_OK = {"builtins.isinstance", "builtins.print", "builtins.type", "builtins.len", "builtins.repr", "builtins.str", "builtins.hasattr",
          "builtins.getattr", "builtins.setattr", "builtins.property", "builtins.staticmethod", "builtins.classmethod", "warnings.warn",
          "numpy.zeros_like", "numpy.vstack", "numpy.asarray", "builtins.id", "builtins.callable"}


from . import npf  # noqa: E402  (function models are attached to NP)
npf.attach(NP)
