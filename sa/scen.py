"""Scenarios: the abstract calls whose transfer functions are extracted.

Every scenario is one call of the public entry point on a symbolic receiver: the data, the labels and the
sizes are symbols, so a summary describes the call for every input of that class."""
from .terms import *
from .terms import N_, FAMILY_SORT
from .facts import Ctx
from .vals import *
from .limit import limit
from .interp import Interp, State, Raised, Dead, AnalysisError

DIM, K, NS, M, L = (sym(n, "int") for n in ("dim", "k", "N", "m", "L"))
for _f in ("cls",):
    FAMILY_SORT[_f] = "int"
NODE = type("N", (), {"lineno": 0})()


class Result:
    """outcome of one scenario: post state (or None), returned value, raised paths, events"""

    def __init__(self, name):
        self.name = name
        self.pre = self.post = None
        self.value = None
        self.raised = []
        self.events = []
        self.unknown = []
        self.obj = None
        self.args = []
        self.pre_obj = None
        self.error = None


class Session:
    """one loaded package; scenarios are run on copies of the load state"""

    def __init__(self, root, package="cvi", optimize=0, scaled=False):
        self.I = I = Interp(root, package)
        I.optimize = optimize
        I.scaled = scaled
        I.sinks.append([])
        I.load(package)
        if package == "cvi":
            I.load("cvi.compat.v0") if I.mods.get("cvi.compat") is not None else None
        I.load_boundary = I.nloc
        self.base = I.s
        self.load_events = list(I.events)
        self.load_unknown = list(I.unknown)

    def reset(self):
        I = self.I
        I.s = self.base.copy()
        I.events, I.unknown = [], []
        I.sinks = [[]]
        I.caller_locs = set()
        I.frame = None
        I.depth = 0
        I.mute = 0
        I.scenario = True
        from .interp import Frame
        I.frame = self.frame0 = Frame(I.mods[I.package], mod=I.package)

    def lookup(self, path):
        I = self.I
        v = None
        parts = path.split(".")
        for i in range(len(parts), 0, -1):
            nm = ".".join(parts[:i])
            if nm in I.mods:
                v = Mod(nm)
                break
        for p in parts[i:]:
            v = I.getattr(v, p, NODE)
        return v

    def new(self, cls, args=()):
        return self.I.call(cls, list(args), {}, NODE)

    def caller_array(self, term_axes, term, dtype="caller"):
        r = self.I.alloc(ArrC(term_axes, term, dtype))
        self.I.caller_locs.add(r.loc)
        return r

    def sample(self, fam="x", *pre, dtype="caller"):
        a = plain_axis(DIM, "d")
        return self.caller_array([a], el(fam, *pre, a.v), dtype)

    def call(self, name, fn_, args):
        """run one call from the current state; returns Result"""
        I = self.I
        r = Result(name)
        r.pre = I.s.copy()
        r.args = args
        I.events, I.unknown, I.domains = [], [], []
        I.calls_analysed = set()
        I.work = 0
        I.sinks = [[]]
        try:
            v = fn_()
            r.value, r.post = v, I.s
        except Raised as e:
            r.raised.append((I.s, e.exc, e.node, e.msg))
            I.s = None
        except Dead:
            I.s = None
        r.raised += I.sinks[0]
        r.events, r.unknown = I.events, list(I.unknown)
        r.caller_locs = set(I.caller_locs)
        r.domains = I.domains
        r.work = I.work
        r.calls = sorted(I.calls_analysed, key=lambda c: (c[0], c[2]))
        self.calls_total = getattr(self, "calls_total", set()) | I.calls_analysed
        return r


# ---------------------------------------------------------------- generic states by generalisation
class NoFit(Exception):
    pass


def fit_size(terms, pts):
    """template over k, N (and dim) matching integer terms at the points (k, N)"""
    if all(t is terms[0] for t in terms) and not isnum(terms[0]):
        return terms[0]
    if not all(isnum(t) for t in terms):
        return None
    vals = [t.args[0] for t in terms]
    if all(v == vals[0] for v in vals):
        return terms[0]
    cands = [(K, lambda k, n: k), (NS, lambda k, n: n), (sub(K, ONE), lambda k, n: k - 1), (add(K, ONE), lambda k, n: k + 1),
             (mul(K, K), lambda k, n: k * k), (div(mul(K, sub(K, ONE)), num(2)), lambda k, n: k * (k - 1) // 2),
             (sub(NS, ONE), lambda k, n: n - 1), (add(NS, ONE), lambda k, n: n + 1), (sub(NS, K), lambda k, n: n - k),
             (mul(K, sub(K, ONE)), lambda k, n: k * (k - 1))]
    for t, f in cands:
        if all(v == f(k, n) for v, (k, n) in zip(vals, pts)):
            return t
    return None


class Leaf:
    """one opaque part of the generic state: family name, index extents, kind"""

    def __init__(self, name, ext, sort):
        self.name, self.ext, self.sort = name, ext, sort


class Generalise:
    def __init__(self, S, pts, states, tag, kfix=None):
        self.S, self.I, self.pts, self.states, self.tag = S, S.I, pts, states, tag
        self.leaves = []
        self.paths = {}
        self.heapmap = {}
        self.kfix = kfix
        self.notes = []
        self.loose = set()

    def go(self, vs, path):
        """vs: values of the same path in the sample states -> generic value (allocated in I.s)"""
        v = vs[0]
        if any(isinstance(x, Undef) for x in vs):
            raise NoFit("%s is defined on some paths only" % path)
        if all(isinstance(x, Num) for x in vs):
            kind = vs[0].k
            for x in vs[1:]:
                kind = join_kind(kind, x.k)
            if all(is_cond(x.t) for x in vs):
                if all(x.t is v.t for x in vs):
                    return Num(v.t, kind)
                nm = "%s:%s" % (self.tag, path)
                self.leaves.append(Leaf(nm, (), "bool"))
                return Num(batom(nm), kind)
            t = fit_size([from_cond(x.t) for x in vs], self.pts)
            nm = "%s:%s" % (self.tag, path)
            if path not in self.loose and t is not None and (not free(t) - {K, NS, DIM}) and not atoms_data(t):
                return Num(t, kind)
            ints = kind in ("pyint", "npint") and all(is_int(from_cond(x.t)) for x in vs)
            FAMILY_SORT[nm] = "int" if ints else "real"
            self.leaves.append(Leaf(nm, (), "int" if ints else "real"))
            return Num(el(nm), kind)
        if all(x is NONE for x in vs):
            return NONE
        if all(isinstance(x, Str) for x in vs) and all(x.s == v.s for x in vs):
            return v
        if all(isinstance(x, Tup) for x in vs) and all(len(x.items) == len(v.items) for x in vs):
            return Tup([self.go([x.items[i] for x in vs], "%s[%d]" % (path, i)) for i in range(len(v.items))])
        if all(isinstance(x, Ref) for x in vs):
            key = tuple(x.loc for x in vs)
            if key in self.heapmap:
                return self.heapmap[key]
            cs = []
            for st, x in zip(self.states, vs):
                old, self.I.s = self.I.s, st
                try:
                    cs.append(self.I.content(x))
                finally:
                    self.I.s = old
            r = self.content(cs, path, key)
            I = self.I
            I.keep_kind(vs, r)
            return r
        if all(type(x) is type(v) and x == v for x in vs):
            return v
        if all(isinstance(x, (Cls, Func, Ext, Mod, Dtype)) for x in vs) and all(x == v for x in vs):
            return v
        raise NoFit("%s has values of different kinds" % path)

    def content(self, cs, path, key):
        I = self.I
        c = cs[0]
        if all(isinstance(x, ArrC) for x in cs):
            if len({len(x.axes) for x in cs}) != 1:
                raise NoFit("%s changes its rank" % path)
            exts = []
            for p in range(len(c.axes)):
                es = [x.axes[p].extent() for x in cs]
                t = fit_size(es, self.pts)
                if t is None:
                    raise NoFit("extent of %s: %s" % (path, es))
                exts.append(t)
            dt = c.dtype
            for x in cs[1:]:
                dt = join_dtype(dt, x.dtype)
            axes = [plain_axis(e, "g") for e in exts]
            nm = "%s:%s" % (self.tag, path)
            r = None
            consts = {x.term for x in cs}
            if len(consts) == 1 and isnum(c.term) and not exts:
                r = I.alloc(ArrC(axes, c.term, dt))
            else:
                sort = "bool" if dt == "bool" else "int" if dt == "i8" else "real"
                FAMILY_SORT[nm] = "int" if sort != "real" else "real"
                self.leaves.append(Leaf(nm, tuple(exts), sort))
                t = el(nm, *[a.v for a in axes])
                if sort == "bool":
                    t = ne(t, ZERO)
                r = I.alloc(ArrC(axes, t, dt))
            self.heapmap[key] = r
            return r
        if all(isinstance(x, ListC) for x in cs):
            lens, items = [], []
            for x, st in zip(cs, self.states):
                old, self.I.s = self.I.s, st
                try:
                    t = I.np.list_len(x)
                    lens.append(I.simp(t) if t is not None else None)
                    its = []
                    if x.base is None and all(q[0] is TRUE for q in x.tail):
                        its = [q[1] for q in x.tail]
                    elif isinstance(x.base, tuple) and not x.tail and isnum(lens[-1]):
                        its = [I.np.item_at(x.base[1], x.base[0], num(j)) for j in range(int(lens[-1].args[0]))]
                    else:
                        raise NoFit("list %s" % path)
                    items.append(its)
                finally:
                    self.I.s = old
            t = fit_size(lens, self.pts)
            if t is None:
                raise NoFit("length of %s: %s" % (path, lens))
            if all(isnum(l) for l in lens) and not any(items):
                r = I.alloc(ListC(None, ()))
                self.heapmap[key] = r
                return r
            if isnum(t) and not (len(self.pts) > 1 and t is K):
                r = I.alloc(ListC(None, ()))
                self.heapmap[key] = r
                vals = [self.go([its[j] for its in items], "%s[%d]" % (path, j)) for j in range(int(t.args[0]))]
                I.s.heap[r.loc] = ListC(None, [(TRUE, v) for v in vals])
                return r
            # homogeneous items
            ax = plain_axis(t, "g")
            flat = [(it, st, p) for its, st, p in zip(items, self.states, self.pts) for it in its]
            item = self.item([f[0] for f in flat], [f[1] for f in flat], [f[2] for f in flat], path, (ax,))
            r = I.alloc(ListC((ax, item), ()))
            self.heapmap[key] = r
            return r
        if all(isinstance(x, DictC) for x in cs):
            if all(x.base is None and not x.entries for x in cs):
                r = I.alloc(c)
                self.heapmap[key] = r
                return r
            lens = []
            for x in cs:
                if x.base is not None or any(e[0] is not TRUE for e in x.entries):
                    raise NoFit("dict %s" % path)
                lens.append(num(len(x.entries)))
            t = fit_size(lens, self.pts)
            if t is None:
                raise NoFit("size of %s" % path)
            for x in cs:
                for j, e in enumerate(x.entries):
                    if not (isinstance(e[1], Num) and e[1].t is el("labkey", num(j))):
                        raise NoFit("keys of %s" % path)
            ax = plain_axis(t, "g")
            flat = [(e[2], st, p) for x, st, p in zip(cs, self.states, self.pts) for e in x.entries]
            idx = [j for x in cs for j in range(len(x.entries))]
            item = self.item([f[0] for f in flat], [f[1] for f in flat], [f[2] for f in flat], path, (ax,), idx)
            r = I.alloc(DictC((ax, Num(el("labkey", ax.v), "lab"), item), (), c.isset))
            self.heapmap[key] = r
            return r
        if all(isinstance(x, ObjC) and x.cls is c.cls for x in cs):
            r = I.alloc(ObjC(c.cls, {}))
            self.heapmap[key] = r
            names = set(c.attrs)
            if any(set(x.attrs) != names for x in cs):
                d = set().union(*[set(x.attrs) for x in cs]) - set.intersection(*[set(x.attrs) for x in cs])
                raise NoFit("attributes differ: %s" % sorted(d))
            at = {}
            for a in c.attrs:
                at[a] = self.go([x.attrs[a] for x in cs], path + "." + a if path else a)
            I.s.heap[r.loc] = ObjC(c.cls, at)
            return r
        raise NoFit("%s: contents" % path)

    def item(self, vs, sts, pts, path, axes, idx=None):
        """frozen item of a homogeneous collection"""
        v = vs[0]
        ax = axes[0]
        nm = "%s:%s" % (self.tag, path)
        if all(isinstance(x, Num) for x in vs):
            kind = v.k
            for x in vs[1:]:
                kind = join_kind(kind, x.k)
            if idx is not None and all(isnum(x.t) and x.t.args[0] == j for x, j in zip(vs, idx)):
                return Num(ax.v, kind)
            if kind in ("pyint", "npint") and all(isnum(x.t) and x.t is v.t for x in vs) and idx is not None:
                return v
            ints = kind in ("pyint", "npint") and all(is_int(from_cond(x.t)) for x in vs)
            if kind in ("pybool", "npbool"):
                raise NoFit("list of bools " + path)
            FAMILY_SORT[nm] = "int" if ints else "real"
            self.leaves.append(Leaf(nm, (ax.his[0],), "int" if ints else "real"))
            return Num(el(nm, ax.v), kind)
        if all(isinstance(x, (Ref, Arr)) for x in vs):
            cs = []
            for st, x in zip(sts, vs):
                old, self.I.s = self.I.s, st
                try:
                    cs.append(self.I.content(x))
                finally:
                    self.I.s = old
            if all(isinstance(x, ArrC) for x in cs) and len({len(x.axes) for x in cs}) == 1:
                exts = []
                for p in range(len(cs[0].axes)):
                    t = fit_size([x.axes[p].extent() for x in cs], pts)
                    if t is None:
                        raise NoFit("items of " + path)
                    exts.append(t)
                dt = cs[0].dtype
                for x in cs[1:]:
                    dt = join_dtype(dt, x.dtype)
                iax = [plain_axis(e, "g") for e in exts]
                FAMILY_SORT[nm] = "real"
                self.leaves.append(Leaf(nm, (ax.his[0],) + tuple(exts), "real"))
                return Arr(ArrC(iax, el(nm, ax.v, *[a.v for a in iax]), dt))
        if all(isinstance(x, Tup) for x in vs) and len({len(x.items) for x in vs}) == 1:
            return Tup([self.item([x.items[i] for x in vs], sts, pts, "%s[%d]" % (path, i), axes) for i in range(len(v.items))])
        raise NoFit("items of " + path)


def atoms_data(t):
    return bool(find(t, lambda x: x.op in ("el", "top", "batom")))


# ---------------------------------------------------------------- the scenarios of one index class
class ClassScen:
    """all scenarios of one index class of the modern API"""

    def __init__(self, S, name, path=None):
        self.S, self.name = S, name
        self.path = path or "cvi." + name
        self.R = {}
        self.errors = {}
        self.gen = {}
        self.loose = set()

    def next_tag(self, k, n):
        return "G1" if k == 1 else "G2"

    def _start(self):
        self.S.reset()
        cls = self.S.lookup(self.path)
        I = self.S.I
        I.s.ctx = I.s.ctx.assume(le(ONE, DIM))
        return self.S.new(cls)

    def get(self, o, data, label):
        I = self.S.I
        return I.call(I.getattr(o, "get_cvi", NODE), [data, label], {}, NODE)

    def inc(self):
        """(re)build the generic states and the streaming summaries"""
        self.try_("G1", self.g1)
        self.try_("G2", self.g2)
        for nm in ("known", "new"):
            for g in ("G1", "G2"):
                if g in self.gen:
                    self.try_("%s.%s" % (nm, g), lambda nm=nm, g=g: self.s_step(nm, g))

    def run(self):
        self.try_("new", self.s_new)
        self.try_("first", self.s_first)
        self.inc()
        self.try_("batch", self.s_batch)
        self.try_("batch1", self.s_batch1)
        for g in ("new", "G1", "G2", "B"):
            for rank in (0, 3):
                self.try_("rank%d.%s" % (rank, g), lambda g=g, rank=rank: self.s_rank(rank, g))
        for g in ("G1", "G2"):
            self.try_("late2d.%s" % g, lambda g=g: self.s_late2d(g))
        for g in ("new", "G2"):
            self.try_("rank4.%s" % g, lambda g=g: self.s_rank(4, g))
        for g in ("new", "G1", "G2", "B"):
            self.try_("row.%s" % g, lambda g=g: self.s_row(g))
        self.try_("batch0", self.s_batch0)
        self.try_("late1d", self.s_late1d)
        self.try_("late2d.B", self.s_late2d_b)
        return self

    def try_(self, name, f):
        import time
        t0 = time.time()
        try:
            with limit(60):
                r = f()
            if r is not None:
                self.R[name] = r
        except NoFit as e:
            self.errors[name] = "no common shape: %s" % str(e)[:300]
        except AnalysisError as e:
            self.errors[name] = "analysis: %s" % e
        except Raised as e:
            self.errors[name] = "raises %s: %s" % (e.exc, e.msg)
        except Dead:
            self.errors[name] = "no path completes"
        except RecursionError:
            self.errors[name] = "recursion"
        except Exception as e:     # an engine limit must never look like a violation
            import traceback
            self.errors[name] = "engine: %s: %s" % (type(e).__name__, e)
            self.trace = traceback.format_exc()
            import os
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        self.times = getattr(self, "times", {})
        self.times[name] = time.time() - t0

    # ---- concrete-order prefixes
    def s_new(self):
        o = self._start()
        r = Result("new")
        r.obj, r.post = o, self.S.I.s
        r.events, r.unknown = self.S.I.events, self.S.I.unknown
        return r

    def prefix(self, labels):
        """state after a short stream with symbolic samples and the given label order"""
        o = self._start()
        I = self.S.I
        for t, c in enumerate(labels):
            x = self.S.sample("h", num(t))
            self.get(o, x, Num(el("labkey", num(c)), "lab"))
            if I.s is None:
                raise Dead()
        return o, I.s

    def s_first(self):
        o = self._start()
        I = self.S.I
        x = self.S.sample("x")
        lab = sym("newlab", "lab")
        r = self.S.call("first", lambda: self.get(o, x, Num(lab, "lab")), [x])
        r.obj = o
        return r

    def generalise(self, runs, tag, kfix):
        states, vs, pts = [], [], []
        for labs in runs:
            o, st = self.prefix(labs)
            states.append(st)
            vs.append(o)
            pts.append((len(set(labs)), len(labs)))
        self.S.reset()
        I = self.S.I
        cs = [le(ONE, DIM), le(K, NS)]
        if kfix:
            cs += [eq(K, num(kfix))]
        else:
            cs += [le(num(2), K)]
        I.s.ctx = I.s.ctx.assume(*cs)
        g = Generalise(self.S, pts, states, tag, kfix)
        g.loose = self.loose
        # locations of the sample states must stay resolvable while generalising
        o = g.go(vs, "")
        g.obj, g.state = o, I.s
        self.gen[tag] = g
        return None

    def g1(self):
        return self.generalise([[0], [0, 0], [0, 0, 0, 0]], "G1", 1)

    def g2(self):
        return self.generalise([[0, 1], [0, 1, 1, 0, 1], [0, 1, 2], [0, 1, 2, 2, 1, 1, 0]], "G2", None)

    def enter(self, tag):
        self.S.reset()
        g = self.gen[tag]
        I = self.S.I
        I.s = g.state.copy()
        if tag == "G1":
            I.s.ctx = I.s.ctx
        return g.obj

    def s_step(self, kind, tag):
        o = self.enter(tag)
        I = self.S.I
        x = self.S.sample("x")
        if kind == "known":
            I.s.ctx = I.s.ctx.assume(le(ZERO, L), lt(L, K))
            lab = el("labkey", L if tag != "G1" else ZERO)
        else:
            lab = sym("newlab", "lab")
        r = self.S.call("%s.%s" % (kind, tag), lambda: self.get(o, x, Num(lab, "lab")), [x])
        r.obj, r.tag = o, tag
        return r

    def batch_args(self, k2=True):
        I = self.S.I
        I.s.ctx = I.s.ctx.assume(le(ONE, DIM), le(ONE, M), le(ONE, K), le(K, M))
        I.s.ctx = I.s.ctx.assume(le(num(2), K) if k2 else lt(K, num(2)))
        a, b, c = plain_axis(M, "s"), plain_axis(DIM, "d"), plain_axis(M, "s")
        data = self.S.caller_array([a, b], el("data", a.v, b.v))
        lab = self.S.caller_array([c], el("lab", c.v), "lab")
        return data, lab

    def s_batch(self):
        o = self._start()
        data, lab = self.batch_args()
        r = self.S.call("batch", lambda: self.get(o, data, lab), [data, lab])
        r.obj = o
        return r

    def s_batch1(self):
        o = self._start()
        data, lab = self.batch_args(False)
        r = self.S.call("batch1", lambda: self.get(o, data, lab), [data, lab])
        r.obj = o
        return r

    def s_rank(self, rank, g):
        o = self._start() if g == "new" else self.after_batch() if g == "B" else self.enter(g)
        axes = [plain_axis(sym("e%d" % i, "int"), "d") for i in range(rank)]
        data = self.S.caller_array(axes, el("data%d" % rank, *[a.v for a in axes]))
        if rank == 0:
            lab = Num(sym("newlab", "lab"), "lab")
        else:
            c = plain_axis(sym("e_lab", "int"), "s")
            lab = self.S.caller_array([c], el("lab2", c.v), "lab")
        r = self.S.call("rank%d" % rank, lambda: self.get(o, data, lab), [data])
        r.obj, r.tag = o, g
        return r

    def s_row(self, g):
        """a table of one row with a single number as its label"""
        o = self._start() if g == "new" else self.after_batch() if g == "B" else self.enter(g)
        axes = [plain_axis(ONE, "s"), plain_axis(DIM, "d")]
        data = self.S.caller_array(axes, el("data2", *[a.v for a in axes]))
        r = self.S.call("row", lambda: self.get(o, data, Num(sym("newlab", "lab"), "lab")), [data])
        r.obj, r.tag = o, g
        return r

    def s_batch0(self):
        """a batch without samples"""
        o = self._start()
        I = self.S.I
        I.s.ctx = I.s.ctx.assume(le(ONE, DIM))
        axes = [plain_axis(ZERO, "s"), plain_axis(DIM, "d")]
        data = self.S.caller_array(axes, el("data2", *[a.v for a in axes]))
        c = plain_axis(ZERO, "s")
        lab = self.S.caller_array([c], el("lab2", c.v), "lab")
        r = self.S.call("batch0", lambda: self.get(o, data, lab), [data, lab])
        r.obj = o
        return r

    def s_late2d(self, g):
        o = self.enter(g)
        r0 = self.batch_late(o)
        r0.tag = g
        return r0

    def batch_late(self, o):
        I = self.S.I
        mm = sym("m2", "int")
        I.s.ctx = I.s.ctx.assume(le(ONE, mm))
        a, b, c = plain_axis(mm, "s"), plain_axis(sym("dim2", "int"), "d"), plain_axis(mm, "s")
        data = self.S.caller_array([a, b], el("data2", a.v, b.v))
        lab = self.S.caller_array([c], el("lab2", c.v), "lab")
        r = self.S.call("late2d", lambda: self.get(o, data, lab), [data, lab])
        r.obj = o
        return r

    def after_batch(self):
        r = self.R.get("batch")
        if r is None or r.post is None:
            raise Dead()
        self.S.reset()
        self.S.I.s = r.post.copy()
        return r.obj

    # ---- scripts: several calls in a row on one object, concrete label order, symbolic samples
    def script(self, items, names=None, seconds=40):
        with limit(seconds):
            return self.script_(items, names)

    def batch_of(self, labels, seconds=20):
        """the summary of a batch with the given labels; the samples are symbolic"""
        I = self.S.I
        old, I.tables = I.tables, True
        try:
            return self.script([("batchc", tuple(labels))], None, seconds)[0]
        finally:
            I.tables = old

    def script_(self, items, names=None):
        """items: ("s", label index) | ("batch",) | ("late",) | ("rank", r) | ("batch1",); one Result per item.
        After a refused call the script goes on from the state at the raise."""
        o = self._start()
        I = self.S.I
        out = []
        t = 0
        for it in items:
            if it[0] == "s":
                x = self.S.sample("h", num(t), dtype=it[2] if len(it) > 2 else "caller")
                t += 1
                r = self.S.call("s", lambda: self.get(o, x, Num(el("labkey", num(it[1])), "lab") if names is None else Num(num(names[it[1]]), "pyint")), [x])
            elif it[0] == "batch":
                data, lab = self.batch_args()
                r = self.S.call("batch", lambda: self.get(o, data, lab), [data, lab])
            elif it[0] == "batchc":
                a, b, c = plain_axis(num(len(it[1])), "s"), plain_axis(DIM, "d"), plain_axis(num(len(it[1])), "s")
                data = self.S.caller_array([a, b], el("data", a.v, b.v))
                lab = self.S.caller_array([c], el(table(it[1]), c.v), "i8")
                r = self.S.call("batch", lambda: self.get(o, data, lab), [data, lab])
            elif it[0] in ("batch1", "batch1w"):
                mm = sym("m1", "int")
                I.s.ctx = I.s.ctx.assume(le(ONE, mm))
                a, b, c = plain_axis(mm, "s"), plain_axis(DIM if it[0] == "batch1" else sym("dim3", "int"), "d"), plain_axis(mm, "s")
                data = self.S.caller_array([a, b], el("data1", a.v, b.v))
                lab = self.S.caller_array([c], el("labkey", ZERO), "lab")
                r = self.S.call("batch1", lambda: self.get(o, data, lab), [data, lab])
            elif it[0] == "late":
                r = self.batch_late(o)
            elif it[0] == "late1":
                x = self.S.sample("x")
                r = self.S.call("late1d", lambda: self.get(o, x, Num(sym("newlab", "lab"), "lab")), [x])
            elif it[0] == "batch0":
                a, b, c = plain_axis(ZERO, "s"), plain_axis(sym("dim3", "int"), "d"), plain_axis(ZERO, "s")
                data = self.S.caller_array([a, b], el("data1", a.v, b.v))
                lab = self.S.caller_array([c], el("lab2", c.v), "lab")
                r = self.S.call("batch0", lambda: self.get(o, data, lab), [data, lab])
            elif it[0] == "row":
                a, b = plain_axis(ONE, "s"), plain_axis(DIM, "d")
                data = self.S.caller_array([a, b], el("data1", a.v, b.v))
                r = self.S.call("row", lambda: self.get(o, data, Num(el("labkey", ONE), "lab")), [data])
            elif it[0] == "rank":
                axes = [plain_axis(sym("e%d" % i, "int"), "d") for i in range(it[1])]
                for a in axes:
                    I.s.ctx = I.s.ctx.assume(le(ONE, a.his[0]))
                data = self.S.caller_array(axes, el("data%d" % it[1], *[a.v for a in axes]))
                r = self.S.call("rank", lambda: self.get(o, data, Num(el("labkey", ZERO), "lab")), [data])
            r.obj = o
            out.append(r)
            if r.post is None or r.raised and it[0] not in ("s", "batch"):
                # go on from the refusal (the points at which the call is accepted are set aside by the caller)
                if len(r.raised) != 1:
                    break
                I.s = r.raised[0][0].copy()
                I.s.pc = r.pre.pc
            else:
                I.s = r.post.copy()
            I.frame = self.S.frame0
        return out

    def s_late1d(self):
        o = self.after_batch()
        x = self.S.sample("x")
        r = self.S.call("late1d", lambda: self.get(o, x, Num(sym("newlab", "lab"), "lab")), [x])
        r.obj, r.tag = o, "B"
        return r

    def s_late2d_b(self):
        o = self.after_batch()
        r = self.batch_late(o)
        r.tag = "B"
        return r
