"""Arrays of known integers.  Where a batch computation has no summary for every batch, it is summarised for batches
whose labels are given (the samples stay symbolic): label arrays, masks, orders and positions are then known integers,
and the selections made with them are known too."""
from .terms import *
from .terms import _tabs
from .vals import *

MOST = 40


def points(ax):
    """the index tuples of an axis in order, or None when they are not known"""
    if not all(isnum(h) or len(ax.vars) == 1 for h in ax.his):
        return None
    pts = [{}]
    for v, h in zip(ax.vars, ax.his):
        out = []
        for p in pts:
            hh = subst(h, p)
            if not isnum(hh) or hh.args[0] > MOST:
                return None
            for i in range(int(hh.args[0])):
                out.append({**p, v: num(i)})
                if len(out) > 400:
                    return None
        pts = out
    keep = []
    for p in pts:
        c = subst(ax.cond, p)
        if c is TRUE:
            keep.append(p)
        elif c is not FALSE:
            return None
    return keep


def settle_axis(ax):
    """a filtered axis over known positions as a plain one: (axis, substitution) or None"""
    if ax.plain:
        return None
    pts = points(ax)
    if pts is None:
        return None
    w = fresh("s")
    m = {v: el(table([p[v].args[0] for p in pts]), w) if pts else ZERO for v in ax.vars}
    return Axis((w,), (num(len(pts)),)), m


def settle(c):
    """an array with filtered axes over known positions as one with plain axes"""
    if all(a.plain for a in c.axes):
        return c
    axes, mm = [], {}
    for a in c.axes:
        r = settle_axis(a)
        if r is None:
            axes.append(a)
        else:
            axes.append(r[0])
            mm.update(r[1])
    return ArrC(axes, subst(c.term, mm), c.dtype, c.alias) if mm else c


def known(self, v, node):
    """the integers (or truth values) of a one-dimensional array or list, or None"""
    if isinstance(v, (Num,)):
        return None
    try:
        c = self.arrc(v, node)
    except Exception:
        return None
    if c is None or len(c.axes) != 1:
        return None
    c = settle(c)
    ax = c.axes[0]
    if not ax.plain or not isnum(ax.his[0]) or ax.his[0].args[0] > MOST:
        return None
    out = []
    for i in range(int(ax.his[0].args[0])):
        t = self.I.simp(from_cond(c.at([num(i)])))
        if not isnum(t) or t.args[0].denominator != 1:
            return None
        out.append(int(t.args[0]))
    return out


def tab(self, xs, dtype="i8"):
    a = plain_axis(num(len(xs)), "s")
    if dtype == "b1":
        return self.I.mkarr([a], eq(el(table(xs), a.v), ONE) if xs else FALSE, "b1")
    return self.I.mkarr([a], el(table(xs), a.v) if xs else ZERO, dtype)


def one(v):
    return int(v.t.args[0]) if isinstance(v, Num) and isnum(v.t) and v.t.args[0].denominator == 1 else None


def call(self, name, args, kw, node):
    """the value of a numpy function of known integers; None when the general model is to be used"""
    f = FUNCS.get(name)
    if f is None or not args:
        return None
    return f(self, args, kw, node)


FUNCS = {}


def fn_(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def flag(kw, k):
    v = kw.get(k)
    if v is None:
        return False
    return v.t is TRUE if isinstance(v, Num) and v.t in (TRUE, FALSE) else None


@fn_("unique")
def _unique(self, args, kw, node):
    xs = known(self, args[0], node)
    if xs is None or len(args) > 1 or set(kw) - {"return_index", "return_inverse", "return_counts"}:
        return None
    if any(flag(kw, k) is None for k in kw):
        return None
    u = sorted(set(xs))
    out = [tab(self, u, self.arrc(args[0], node).dtype)]
    if flag(kw, "return_index"):
        out.append(tab(self, [xs.index(x) for x in u]))
    if flag(kw, "return_inverse"):
        out.append(tab(self, [u.index(x) for x in xs]))
    if flag(kw, "return_counts"):
        out.append(tab(self, [xs.count(x) for x in u]))
    return out[0] if len(out) == 1 else Tup(out)


@fn_("argsort")
def _argsort(self, args, kw, node):
    xs = known(self, args[0], node)
    if xs is None or len(args) > 1:
        return None
    stable = isinstance(kw.get("kind"), Str) and kw["kind"].s in ("stable", "mergesort") or flag(kw, "stable")
    if set(kw) - {"kind", "stable"} or not stable and len(set(xs)) != len(xs):
        return None
    return tab(self, sorted(range(len(xs)), key=lambda i: xs[i]))


@fn_("sort")
def _sort(self, args, kw, node):
    xs = known(self, args[0], node)
    return tab(self, sorted(xs), self.arrc(args[0], node).dtype) if xs is not None and len(args) == 1 and not kw else None


@fn_("cumsum")
def _cumsum(self, args, kw, node):
    xs = known(self, args[0], node)
    if xs is None or len(args) > 1 or kw or self.arrc(args[0], node).dtype not in ("i8", "b1"):
        return None
    return tab(self, [sum(xs[:i + 1]) for i in range(len(xs))])


@fn_("diff")
def _diff(self, args, kw, node):
    xs = known(self, args[0], node)
    if xs is None or len(args) > 1 or kw or self.arrc(args[0], node).dtype != "i8":
        return None
    return tab(self, [b - a for a, b in zip(xs, xs[1:])])


@fn_("flatnonzero")
def _flatnonzero(self, args, kw, node):
    xs = known(self, args[0], node)
    return tab(self, [i for i, x in enumerate(xs) if x]) if xs is not None and len(args) == 1 and not kw else None


@fn_("nonzero", "where")
def _nonzero(self, args, kw, node):
    xs = known(self, args[0], node)
    return Tup([tab(self, [i for i, x in enumerate(xs) if x])]) if xs is not None and len(args) == 1 and not kw else None


@fn_("count_nonzero")
def _count(self, args, kw, node):
    xs = known(self, args[0], node)
    return Num(num(sum(1 for x in xs if x)), "pyint") if xs is not None and len(args) == 1 and not kw else None


@fn_("bincount")
def _bincount(self, args, kw, node):
    xs = known(self, args[0], node)
    ml = one(kw["minlength"]) if "minlength" in kw else 0
    if xs is None or len(args) > 1 or set(kw) - {"minlength"} or ml is None or any(x < 0 for x in xs) or max(xs, default=0) > MOST:
        return None
    return tab(self, [xs.count(i) for i in range(max([ml] + [x + 1 for x in xs]))])


@fn_("searchsorted")
def _search(self, args, kw, node):
    import bisect
    xs = known(self, args[0], node)
    if xs is None or len(args) != 2 or set(kw) - {"side"} or xs != sorted(xs):
        return None
    side = kw["side"].s if isinstance(kw.get("side"), Str) else "left"
    b = {"left": bisect.bisect_left, "right": bisect.bisect_right}.get(side)
    if b is None:
        return None
    n = one(args[1]) if isinstance(args[1], Num) else None
    if n is not None:
        return Num(num(b(xs, n)), "npint")
    ys = known(self, args[1], node)
    return tab(self, [b(xs, y) for y in ys]) if ys is not None else None


@fn_("isin", "in1d")
def _isin(self, args, kw, node):
    xs, ys = known(self, args[0], node), known(self, args[1], node) if len(args) == 2 else None
    return tab(self, [int(x in ys) for x in xs], "b1") if xs is not None and ys is not None and not kw else None


@fn_("split")
def _split(self, args, kw, node):
    if len(args) != 2 or kw:
        return None
    cuts = known(self, args[1], node)
    c = self.arrc(args[0], node)
    if cuts is None or c is None or not c.axes or not isnum(self.I.simp(c.axes[0].extent())):
        return None
    n = int(self.I.simp(c.axes[0].extent()).args[0])
    if any(not 0 <= x <= n for x in cuts) or cuts != sorted(cuts):
        return None
    e = [0] + cuts + [n]
    out = [self.getitem(args[0], Slc(Num(num(a), "pyint"), Num(num(b), "pyint"), NONE), node) for a, b in zip(e, e[1:])]
    return self.I.alloc(ListC(None, [(TRUE, x) for x in out]))


@fn_("add.reduceat")
def _reduceat(self, args, kw, node):
    cuts = known(self, args[1], node) if len(args) > 1 else None
    c = self.arrc(args[0], node)
    ax = one(kw["axis"]) if "axis" in kw else one(args[2]) if len(args) > 2 else 0
    if cuts is None or c is None or not c.axes or ax != 0 or set(kw) - {"axis"} or not isnum(self.I.simp(c.axes[0].extent())) or not c.axes[0].plain:
        return None
    n = int(self.I.simp(c.axes[0].extent()).args[0])
    if any(not 0 <= x < n for x in cuts):
        return None
    rows = []
    c = c.renamed()
    rest = [v for a in c.axes[1:] for v in a.vars]
    for j, a in enumerate(cuts):
        b = cuts[j + 1] if j + 1 < len(cuts) else n
        b = b if b > a else a + 1
        rows.append(add(*[from_cond(c.at([num(i)] + rest)) for i in range(a, b)]))
    w = fresh("s")
    t = rows[-1] if rows else ZERO
    for j in range(len(rows) - 2, -1, -1):
        t = ite(eq(w, num(j)), rows[j], t)
    return self.I.mkarr([Axis((w,), (num(len(rows)),))] + list(c.axes[1:]), t, "f8" if c.dtype not in ("i8", "b1") else "i8")
