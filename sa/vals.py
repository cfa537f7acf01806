"""Abstract values and heap contents."""
from .terms import *
from .terms import N_
from . import facts


class V:
    __slots__ = ()


class Num(V):
    """scalar: term (or condition node for booleans) and kind"""
    __slots__ = ("t", "k")

    def __init__(self, t, k):
        self.t = num(t)
        self.k = k

    def __repr__(self):
        return "Num(%r:%s)" % (self.t, self.k)

    def __eq__(self, o):
        return isinstance(o, Num) and self.t is o.t and self.k == o.k

    def __hash__(self):
        return hash((self.t, self.k))


PYK = ("pyint", "pyfloat", "pybool")
BOOLK = ("pybool", "npbool")
# integer types narrower than the default one: bits, signed
NARROWI = {"s8": (8, 1), "s16": (16, 1), "s32": (32, 1), "u8": (8, 0), "u16": (16, 0), "u32": (32, 0)}
# c4, c2: single (half) precision joined with the type of the samples
NARROWF = {"f4": "f32", "f2": "f16", "c4": "f32c", "c2": "f16c"}
NARROW = dict(NARROWI, f4=(32, 1), f2=(16, 1), c4=(32, 1), c2=(16, 1))


def narrow(t, d, isint=True):
    """an exact value brought into a narrow type"""
    if d in NARROWF:
        return fn(NARROWF[d], t)
    if d in NARROWI:
        if not isint and not is_int(t):
            t = fn("trunc", t)
        return fn("wrapi", t, *NARROWI[d])
    return t


def B(c, k="pybool"):
    return Num(c, k)


class _None(V):
    def __repr__(self):
        return "None"


NONE = _None()


class _Ell(V):
    def __repr__(self):
        return "..."


ELL = _Ell()


class Str(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Str(%r)" % (self.s,)

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s and self.s is not None

    def __hash__(self):
        return hash(self.s)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)


class Ref(V):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "Ref(%d)" % self.loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(("ref", self.loc))


class Func(V):
    def __init__(self, node, mod, fid, name, cls=None, defaults=None, kwdefaults=None):
        self.node, self.mod, self.fid, self.name, self.cls = node, mod, fid, name, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.flags = set()

    def __repr__(self):
        return "Func(%s)" % self.name


class Bound(V):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.fn is o.fn and self.self_ == o.self_

    def __hash__(self):
        return hash((id(self.fn), self.self_))


class Cls(V):
    def __init__(self, name, bases, loc, mod, node):
        self.name, self.bases, self.loc, self.mod, self.node = name, bases, loc, mod, node

    def __repr__(self):
        return "Cls(%s)" % self.name

    def mro(self):
        out = [self]
        seqs = []
        for b in self.bases:
            if isinstance(b, Cls):
                seqs.append(b.mro())
        # C3
        seqs = [list(s) for s in seqs] + [[b for b in self.bases if isinstance(b, Cls)]]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in r[1:] for r in seqs):
                    c = s[0]
                    break
            else:
                return out
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out


class Mod(V):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return "Mod(%s)" % self.name


class Ext(V):
    """something external: numpy/stdlib/builtin object addressed by dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return "Ext(%s)" % self.path


class Super(V):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Meth(V):
    """method of a modelled object: (receiver value, name)"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Dtype(V):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Dtype) and o.d == self.d

    def __hash__(self):
        return hash(("dt", self.d))

    def __repr__(self):
        return "Dtype(%s)" % self.d


class Rng(V):
    """range(lo, hi, step)"""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, Rng) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))


class Slc(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Seq(V):
    """abstract immutable sequence (iterator/generator result): either concrete items or axis + item"""

    def __init__(self, axis=None, item=None, items=None, tok=None, gen=False):
        self.axis, self.item, self.items = axis, item, items
        self.gen = gen      # a generator (cannot be copied), not another iterator
        self.tok = tok      # heap cell that records whether an iterator kept in a variable has been used up

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self.tok is not None and self.tok == o.tok)

    def __hash__(self):
        return hash(("seq", self.tok)) if self.tok is not None else id(self)


class Arr(V):
    """frozen array value (a snapshot not in the heap): used as item of abstract sequences"""

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Arr) and self.c == o.c

    def __hash__(self):
        return hash(self.c)


class Gated(V):
    """value that differs in kind between two merged paths"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Gated) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return "Gated(%r,%r,%r)" % (self.c, self.a, self.b)


class Undef(V):
    """name not bound (possibly only under cond c: then value a otherwise)"""

    def __init__(self, c=TRUE, a=None):
        self.c, self.a = c, a

    def __eq__(self, o):
        return isinstance(o, Undef) and self.c is o.c and self.a == o.a

    def __hash__(self):
        return hash((self.c, self.a))


class Top(V):
    def __init__(self, reason):
        self.reason = reason

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "TOP<%s>" % self.reason


# ---------------------------------------------------------------- axes and contents
class Axis:
    """index domain of one array axis: variables with ranges 0 <= v < hi and a condition."""
    __slots__ = ("vars", "his", "cond")

    def __init__(self, vars, his, cond=TRUE):
        self.vars, self.his, self.cond = tuple(vars), tuple(num(h) for h in his), cond

    @property
    def plain(self):
        return len(self.vars) == 1 and self.cond is TRUE

    @property
    def v(self):
        return self.vars[0]

    def extent(self):
        if self.plain:
            return self.his[0]
        return count(self.vars, self.his, self.cond)

    def renamed(self):
        m = {v: fresh(v.args[0].split("#")[0]) for v in self.vars}
        return Axis([m[v] for v in self.vars], [subst(h, m) for h in self.his], subst(self.cond, m)), m

    def conds(self):
        out = []
        for v, h in zip(self.vars, self.his):
            out += [le(ZERO, v), lt(v, h)]
        if self.cond is not TRUE:
            out.append(self.cond)
        return out

    def subst(self, m):
        return Axis(self.vars, [subst(h, m) for h in self.his], subst(self.cond, m))

    def __repr__(self):
        return "Axis(%s)" % ", ".join("%r<%r" % x for x in zip(self.vars, self.his)) + ("" if self.cond is TRUE else "|%r" % self.cond)


def count(vs, his, cond):
    """number of points of a domain, in closed form for the common shapes"""
    if cond is TRUE and not any(free(h) & set(vs) for h in his):
        return mul(*his)
    if len(vs) == 1 and cond.op == "not" and cond.args[0].op == "eq" and vs[0] in cond.args[0].args:
        other = [a for a in cond.args[0].args if a is not vs[0]]
        if other and vs[0] not in free(other[0]):
            o = other[0]
            return sub(his[0], ite(and_(le(ZERO, o), lt(o, his[0])), ONE, ZERO))
    return red("sum", vs, his, cond, ONE)


def plain_axis(n, name="i"):
    return Axis((fresh(name),), (num(n),))


def axis_same(a, b):
    """alpha-equality of two axes"""
    if len(a.vars) != len(b.vars):
        return False
    m = dict(zip(b.vars, a.vars))
    return all(h1 is subst(h2, m) for h1, h2 in zip(a.his, b.his)) and a.cond is subst(b.cond, m)


class ArrC:
    """array content: axes, element term over the axis variables, dtype, may-alias set of locations"""
    __slots__ = ("axes", "term", "dtype", "alias")

    def __init__(self, axes, term, dtype, alias=frozenset()):
        self.axes, self.term, self.dtype, self.alias = tuple(axes), num(term), dtype, alias

    def __repr__(self):
        return "ArrC[%s %s](%r)" % (", ".join(map(repr, self.axes)), self.dtype, self.term)

    def shape(self):
        return tuple(a.extent() for a in self.axes)

    def allvars(self):
        return tuple(v for a in self.axes for v in a.vars)

    def at(self, idx):
        """idx: flat list of index terms, one per axis variable"""
        m = dict(zip(self.allvars(), idx))
        return subst(self.term, m)

    def subst(self, m):
        m = {k: v for k, v in m.items() if k not in self.allvars()}
        bad = set(self.allvars()) & frozenset().union(*[free(v) for v in m.values()]) if m else ()
        if bad:
            return self.renamed().subst(m)
        return ArrC([a.subst(m) for a in self.axes], subst(self.term, m), self.dtype, self.alias)

    def renamed(self):
        axes, mm = [], {}
        for a in self.axes:
            x, m = a.renamed()
            axes.append(x)
            mm.update(m)
        return ArrC(axes, subst(self.term, mm), self.dtype, self.alias)

    def same(self, o):
        if not isinstance(o, ArrC) or len(self.axes) != len(o.axes) or self.dtype != o.dtype:
            return False
        if not all(axis_same(a, b) for a, b in zip(self.axes, o.axes)):
            return False
        return self.term is o.at(self.allvars())

    def __eq__(self, o):
        return self is o or (isinstance(o, ArrC) and self.same(o) and self.alias == o.alias)

    def __hash__(self):
        return hash(("arr", len(self.axes), self.dtype))


class ViewC:
    """view on another array location.
    axes: own plain axes; maps: one per base axis: ('fix', term) or ('lin', axis position, start, step)"""
    __slots__ = ("base", "axes", "maps")

    def __init__(self, base, axes, maps):
        self.base, self.axes, self.maps = base, tuple(axes), tuple(maps)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class ListC:
    """base: None or (Axis, item); tail: tuple of (cond, value)"""
    __slots__ = ("base", "tail", "owner")

    def __init__(self, base, tail):
        self.base, self.tail = base, tuple(tail)

    def __eq__(self, o):
        return self is o or (isinstance(o, ListC) and self.base is o.base and self.tail == o.tail)

    def __hash__(self):
        return hash(("list", len(self.tail)))

    def __repr__(self):
        return "ListC(%r + %r)" % (self.base, self.tail)


class PhiList:
    """stands for the unknown contents of a list at the start of a loop iteration"""

    def __init__(self, name):
        self.name = name


class DictC:
    """base: None or (Axis, key value, item value); entries: tuple of (cond, key, value)"""
    __slots__ = ("base", "entries", "isset")

    def __init__(self, base, entries, isset=False):
        self.base, self.entries, self.isset = base, tuple(entries), isset

    def __eq__(self, o):
        return self is o or (isinstance(o, DictC) and self.base is o.base and self.entries == o.entries)

    def __hash__(self):
        return hash(("dict", len(self.entries)))

    def __repr__(self):
        return "DictC(%r + %r)" % (self.base, self.entries)


class ObjC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __eq__(self, o):
        return self is o or (isinstance(o, ObjC) and self.cls is o.cls and self.attrs == o.attrs)

    def __hash__(self):
        return hash(("obj", len(self.attrs)))

    def with_(self, k, v):
        d = dict(self.attrs)
        d[k] = v
        return ObjC(self.cls, d)

    def without(self, k):
        d = dict(self.attrs)
        d.pop(k, None)
        return ObjC(self.cls, d)


class TopC:
    def __init__(self, reason):
        self.reason = reason

    def __eq__(self, o):
        return isinstance(o, TopC)

    def __hash__(self):
        return 11


def vsubst(v, m):
    """substitute symbols in a frozen value"""
    if not m:
        return v
    if isinstance(v, Num):
        return Num(subst(v.t, m), v.k)
    if isinstance(v, Tup):
        return Tup([vsubst(x, m) for x in v.items])
    if isinstance(v, Arr):
        return Arr(v.c.subst(m))
    if isinstance(v, Gated):
        return Gated(subst(v.c, m), vsubst(v.a, m), vsubst(v.b, m))
    if isinstance(v, Rng):
        return Rng(subst(v.lo, m), subst(v.hi, m), subst(v.step, m))
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq(items=[vsubst(x, m) for x in v.items], tok=v.tok, gen=v.gen)
        return Seq(axis=v.axis.subst(m), item=vsubst(v.item, m), tok=v.tok, gen=v.gen)
    return v


def bite(c, a, b):
    """if-then-else over conditions"""
    a, b = as_cond(a), as_cond(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    return or_(and_(c, a), and_(not_(c), b))


def vite(c, a, b):
    """merge element terms which may be conditions"""
    if is_cond(a) and is_cond(b):
        return bite(c, a, b)
    return ite(c, from_cond(a), from_cond(b))


def join_dtype(a, b):
    if a == b:
        return a
    order = ["bool", "i8", "wide", "f8"]
    if a in order and b in order:
        return order[max(order.index(a), order.index(b))]
    if "f8" in (a, b):
        return "f8"
    if "caller" in (a, b):
        return "caller" if {a, b} <= {"caller", "bool"} else "wide"
    return "obj"


def join_kind(a, b):
    if a == b:
        return a
    if a == "mix" or b == "mix":
        return "mix"
    if a in PYK and b in PYK:
        return "pyfloat" if "pyfloat" in (a, b) else "pyint"
    if a.startswith("np") and b.startswith("np"):
        return "npfloat" if "npfloat" in (a, b) else "npint"
    return "mix"
