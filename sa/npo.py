"""Order statistics, running sums and indexed accumulation, as terms over their operands.

argmin is "the first position holding the minimum", the j-th entry of a sorted array "the least value that more
than j entries do not exceed": both are ordinary reductions, so the rest of the analysis reads them like any sum."""
from .terms import *
from .terms import N_
from .vals import *
from .interp import Raised
from .facts import BOUNDS


def first_at(kind, vs_body, his, cond, body, var):
    """first position var at which the body takes its extreme value (NaN first, as numpy does)"""
    v2 = fresh("q")
    m = red(kind, [v2], [his], subst(cond, {var: v2}), subst(body, {var: v2}))
    return red("min", [var], [his], and_(cond, or_(eq(body, m), N_("isnan", body))), var)


def first_of(kind, xs):
    """first position of the extreme of the terms xs"""
    best = fn(kind + "2", *xs) if len(xs) > 1 else xs[0]
    r = num(len(xs) - 1)
    for j in range(len(xs) - 2, -1, -1):
        r = ite(or_(eq(xs[j], best), N_("isnan", xs[j])), num(j), r)
    return r


def rank_term(a, vs):
    """position of the point vs of a filtered axis: the number of its points that come before"""
    b, m = a.renamed()
    less, same = FALSE, TRUE
    for x, y in zip(b.vars, vs):
        less = or_(less, and_(same, lt(x, y)))
        same = and_(same, eq(x, y))
    return red("sum", b.vars, b.his, and_(b.cond, less), ONE)


def by_position(a, term):
    """the term over a filtered axis, read by position: (plain axis, term)"""
    if is_cond(term):
        return None
    s, m = a.renamed()
    out = plain_axis(a.extent(), "p")
    return out, red("sum", s.vars, s.his, and_(s.cond, eq(rank_term(a, s.vars), out.v)), subst(term, m))


def arg_extreme(kind):
    def f(self, args, kw, node):
        I = self.I
        from .npf import arg
        ax = arg(args, kw, 1, "axis")
        v = args[0]
        c = self.arrc(v, node)
        if c is None:
            return I.top("arg" + kind, node)
        if (ax is None or ax is NONE) and len(c.axes) != 1:
            v = self.ravel(v, node)
            c = self.arrc(v, node)
            if c is None:
                return I.top("arg" + kind, node)
        ps = self.norm_axes(c, ax, node)
        if ps is None or len(ps) != 1 or kw.get("keepdims") is not None:
            return I.top("arg" + kind, node)
        p = ps[0]
        if not c.axes[p].plain:
            a, m = c.axes[p].renamed()
            n = a.extent()
            if I.decide(eq(n, ZERO)) is not False:
                I.may_raise("ValueError", eq(n, ZERO), node, "arg%s of an empty sequence" % kind)
            t = from_cond(subst(c.term, m))
            b, mb = c.axes[p].renamed()
            best = red(kind, b.vars, b.his, b.cond, from_cond(subst(c.term, mb)))
            r = red("min", a.vars, a.his, and_(a.cond, or_(eq(t, best), N_("isnan", t))), rank_term(c.axes[p], a.vars))
            rest = [x for i, x in enumerate(c.axes) if i != p]
            if not rest:
                BOUNDS[r] = n
            return self.wrap(rest, r, "i8", node)
        a, m = c.axes[p].renamed()
        t = from_cond(subst(c.term, m))
        n = a.extent()
        if I.decide(eq(n, ZERO)) is not False:
            I.may_raise("ValueError", eq(n, ZERO), node, "arg%s of an empty sequence" % kind)
        rest = [x for i, x in enumerate(c.axes) if i != p]
        e = I.simp(n)
        if isnum(e) and e.args[0] <= 8 and not rest:
            xs = [I.simp(subst(t, {a.v: num(j)})) for j in range(int(e.args[0]))]
            return Num(first_of(kind, xs), "npint")
        return self.wrap(rest, first_at(kind, None, a.his[0], TRUE, t, a.v), "i8", node)
    return f


def along(self, args, kw, node, what, pos=1, default=-1, nonplain=False):
    """(contents with the worked axis last and renamed, other axes, that axis, index of the axis) or None"""
    from .npf import arg
    ax = arg(args, kw, pos, "axis", Num(num(default), "pyint") if default is not None else None)
    v = args[0]
    c = self.arrc(v, node)
    if c is None:
        return None
    if ax is NONE or ax is None:
        if len(c.axes) != 1:
            v = self.ravel(v, node)
            c = self.arrc(v, node)
            if c is None:
                return None
        ax = Num(ZERO, "pyint")
    if not c.axes:
        raise Raised("AxisError", node, "axis out of bounds")
    ps = self.norm_axes(c, ax, node)
    if ps is None or len(ps) != 1:
        return None
    a = c.axes[ps[0]]
    if not nonplain and (not a.plain or len(a.vars) != 1):
        return None
    return c, ps[0], a


def _sort(self, args, kw, node):
    r = along(self, args, kw, node, "sort", nonplain=True)
    if r is None:
        return self.I.top("sort", node)
    c, p, a = r
    if c.term.op == "el" and c.term.args[0] == "u" and c.term.args[-1] is a.v:
        return self.I.mkarr(c.axes, c.term, strong_(c.dtype))
    out = plain_axis(a.extent(), "o")
    return self.wrap([out if i == p else x for i, x in enumerate(c.axes)], order_term(c.term, a, out.v), strong_(c.dtype), node)


def strong_(d):
    from .npf import strong
    return strong(d)


def order_term(term, a, j):
    """j-th smallest of the term over the axis"""
    s, ms = a.renamed()
    t, mt = a.renamed()
    x, y = from_cond(subst(term, ms)), from_cond(subst(term, mt))
    rank = red("sum", t.vars, t.his, and_(t.cond, le(y, x)), ONE)
    return red("min", s.vars, s.his, and_(s.cond, lt(j, rank)), x)


def _median(self, args, kw, node):
    I = self.I
    r = along(self, args, kw, node, "median", default=None, nonplain=True)
    if r is None or set(kw) - {"axis"}:
        return I.top("median", node)
    c, p, a = r
    n = a.extent()
    lo, hi = fn("floor", div(sub(n, ONE), num(2))), fn("floor", div(n, num(2)))
    t = div(add(order_term(c.term, a, lo), order_term(c.term, a, hi)), num(2))
    return self.wrap([x for i, x in enumerate(c.axes) if i != p], ite(eq(n, ZERO), NAN, t), "f8", node)


def _argsort(self, args, kw, node):
    r = along(self, args, kw, node, "argsort")
    if r is None:
        return self.I.top("argsort", node)
    c, p, a = r
    out = plain_axis(a.extent(), "o")
    s, ms = a.renamed()
    t, mt = a.renamed()
    x, y = from_cond(subst(c.term, ms)), from_cond(subst(c.term, mt))
    rank = red("sum", t.vars, t.his, or_(lt(y, x), and_(eq(y, x), lt(t.v, s.v))), ONE)
    return self.wrap([out if i == p else q for i, q in enumerate(c.axes)], red("min", s.vars, s.his, eq(rank, out.v), s.v), "i8", node)


def running(kind):
    def f(self, args, kw, node):
        r = along(self, args, kw, node, "cum" + kind, default=None)
        if r is None or set(kw) - {"axis"}:
            return self.I.top("cum" + kind, node)
        c, p, a = r
        out = plain_axis(a.extent(), "o")
        s, ms = a.renamed()
        d = {"bool": "i8", "caller": "wide", "lab": "i8"}.get(strong_(c.dtype), strong_(c.dtype))
        return self.wrap([out if i == p else q for i, q in enumerate(c.axes)],
                         red(kind, s.vars, s.his, le(s.v, out.v), from_cond(subst(c.term, ms))), d, node)
    return f


def _searchsorted(self, args, kw, node):
    I = self.I
    from .npf import arg
    side = arg(args, kw, 2, "side")
    a, v = self.arrc(args[0], node), self.arrc(arg(args, kw, 1, "v"), node)
    if a is None or v is None or len(a.axes) != 1 or "sorter" in kw or (side is not None and not (isinstance(side, Str) and side.s in ("left", "right"))):
        return I.top("searchsorted", node)
    right = side is not None and side.s == "right"
    x = from_cond(v.term)
    q = a.axes[0]
    if a.term.op == "el" and a.term.args[0] == "u" and q.plain and a.term.args[1] is q.v and x.op == "el" and x.args[0] == "lab":
        t = el("cls", *x.args[1:])
        return self.wrap(v.axes, add(t, ONE) if right else t, "i8", node)
    s, ms = q.renamed()
    y = from_cond(subst(a.term, ms))
    return self.wrap(v.axes, red("sum", s.vars, s.his, and_(s.cond, le(y, x) if right else lt(y, x)), ONE), "i8", node)


def ufunc_at(kind):
    """np.add.at and its like: every occurrence of an index accumulates"""
    def f(self, args, kw, node):
        I = self.I
        a, ix = args[0], args[1]

        def give_up():
            if isinstance(a, Ref):
                self.havoc_arr(a, node)
            I.top("ufunc.at", node)
            return NONE
        ac = self.arrc(a, node)
        ic = self.arrc(ix, node) if isinstance(ix, (Ref, Arr, Num)) else None
        bc = self.arrc(args[2], node) if len(args) > 2 else ArrC((), ONE, "i8")
        if ac is None or ic is None or bc is None or not isinstance(a, Ref) or not ac.axes or len(ic.axes) > 1 or not ac.axes[0].plain \
                or ic.dtype not in ("i8", "wide") or (strong_(bc.dtype) == "f8" and strong_(ac.dtype) != "f8"):
            return give_up()
        if not ic.axes:
            ic = ArrC([plain_axis(ONE, "s")], ic.term, ic.dtype)
        ic = ic.renamed()
        ac2 = ac.renamed()
        shape = ArrC(list(ic.axes) + list(ac2.axes[1:]), ZERO, "f8")
        r = self.broadcast([shape, bc], node)
        if r is None:
            return give_up()
        axes, ts = r
        if len(axes) != len(shape.axes) or any(self.ext_eq(x.extent(), y.extent()) is not True for x, y in zip(axes, shape.axes)):
            return give_up()
        s, m = axes[0].renamed()
        body = subst(from_cond(ts[1]), m)
        idx = subst(ic.term, {ic.axes[0].v: s.v}) if len(s.vars) == 1 and len(ic.axes[0].vars) == 1 else None
        if idx is None:
            return give_up()
        bad = or_(lt(idx, ZERO), le(ac.axes[0].extent(), idx))
        q = I.simp(quant("any", s.vars, s.his, and_(s.cond, bad)))
        if I.decide(q) is not False:
            # negative or excessive positions are rare enough to leave open
            from .facts import Ctx
            c2 = I.s.ctx.assume(*[le(ZERO, v) for v in s.vars], *[lt(v, h) for v, h in zip(s.vars, s.his)])
            if c2.decide(bad) is not False:
                return give_up()
        term = subst(ac.term, {})
        j = ac.axes[0].v
        body = subst(body, {x.v: y.v for x, y in zip(axes[1:], ac.axes[1:])})
        acc = red("sum" if kind in ("add", "sub") else kind, s.vars, s.his, and_(s.cond, eq(idx, j)), body)
        t = {"add": lambda: add(from_cond(term), acc), "sub": lambda: sub(from_cond(term), acc),
             "max": lambda: fn("max2", from_cond(term), acc), "min": lambda: fn("min2", from_cond(term), acc)}[kind]()
        self.setitem(a, ELL, I.mkarr(ac.axes, t, ac.dtype), node)
        return NONE
    return f


def _diff(self, args, kw, node):
    from .npf import arg
    I = self.I
    n = arg(args, kw, 1, "n")
    r = along(self, args, kw, node, "diff", pos=2)
    if r is None or (n is not None and not (isinstance(n, Num) and n.t is ONE)) or set(kw) - {"n", "axis"}:
        return I.top("diff", node)
    c, p, a = r
    out = plain_axis(fn("max2", sub(a.extent(), ONE), ZERO) if I.decide(le(ONE, a.extent())) is not True else sub(a.extent(), ONE), "o")
    x = from_cond(c.term)
    return self.wrap([out if i == p else q for i, q in enumerate(c.axes)], sub(subst(x, {a.v: add(out.v, ONE)}), subst(x, {a.v: out.v})), strong_(c.dtype), node)


def key_extreme(self, kind, items, ax, key, kw, node):
    """min/max with a key function over concrete items or over one axis"""
    I = self.I
    if ax is None:
        if not items:
            if "default" in kw:
                return kw["default"]
            raise Raised("ValueError", node, kind + "() of an empty sequence")
        ks = [self.num(I.call(key, [x], {}, node), node) for x in items]
        if any(k is None for k in ks):
            return I.top(kind + " with key", node)
        ks = [from_cond(k.t) for k in ks]
        ext = fn(kind + "2", *ks) if len(ks) > 1 else ks[0]
        best = items[-1]
        for k, x in reversed(list(zip(ks, items))[:-1]):
            best = self.merge_any(I.simp(eq(k, ext)), x, best)
        return best
    from .loops import eval_item
    k = eval_item(I, ax, lambda it: I.call(key, [self.thaw_item(it)], {}, node), items, node)
    if not isinstance(k, Num) or len(ax.vars) != 1 or "default" in kw:
        return I.top(kind + " with key", node)
    n = ax.extent()
    if I.decide(eq(n, ZERO)) is not False:
        I.may_raise("ValueError", eq(n, ZERO), node, kind + "() of an empty sequence")
    if not ax.plain:
        # the variable itself identifies the item
        return vsubst(items, {ax.vars[0]: first_at(kind, None, ax.his[0], ax.cond, from_cond(k.t), ax.v)})
    return self.item_at(items, ax, first_at(kind, None, ax.his[0], TRUE, from_cond(k.t), ax.v))


def attach(M):
    M["np.argmin"], M["np.argmax"] = arg_extreme("min"), arg_extreme("max")
    M["np.argsort"], M["np.median"], M["np.searchsorted"] = _argsort, _median, _searchsorted
    M["np.sort"] = _sort
    M["np.cumsum"], M["np.cumprod"] = running("sum"), running("prod")
    M["np.diff"], M["np.block"] = _diff, _block
    for n, k in (("add", "add"), ("subtract", "sub"), ("maximum", "max"), ("minimum", "min")):
        M["np.%s.at" % n] = ufunc_at(k)


def _block(self, args, kw, node):
    I = self.I

    def depth(v):
        d = self.iter_desc(v, node) if isinstance(v, Ref) and not I.is_arr(v) else None
        if d is None:
            return 0, v
        if d[0] != "conc":
            return None, v
        xs = [depth(x) for x in d[1]]
        if not xs or any(x[0] is None or x[0] != xs[0][0] for x in xs):
            return None, v
        return xs[0][0] + 1, [x[1] for x in xs]
    dp, tree = depth(args[0])
    if dp not in (1, 2):
        return I.top("block", node)
    leaves = tree if dp == 1 else [x for r in tree for x in r]
    cs = [self.arrc(x, node) for x in leaves]
    if any(c is None for c in cs):
        return I.top("block", node)
    nd = max([dp] + [len(c.axes) for c in cs])

    def up(v):
        c = self.arrc(v, node)
        return self.wrap([plain_axis(ONE) for _ in range(nd - len(c.axes))] + list(c.axes), c.term, c.dtype, node)

    def cat(xs, axis):
        from .npf import MODELS
        return xs[0] if len(xs) == 1 else MODELS["np.concatenate"](self, [Tup(xs)], {"axis": Num(num(axis), "pyint")}, node)
    if dp == 1:
        return cat([up(x) for x in tree], nd - 1)
    return cat([cat([up(x) for x in r], nd - 1) for r in tree], nd - 2)
