"""Composition of the extracted transfer functions along arrival orders, and comparison of the resulting value
terms with the definitions by point evaluation (identity testing of terms: 50-digit arithmetic on sampled
points).  Everything evaluated here is a term of the analysis; the analysed program is never run."""
import itertools
import random
from decimal import Decimal
from fractions import Fraction

from .terms import *
from .ev import Model, Unknown, Budget, isnan, close, D
from .vals import *
from .scen import K as KS, NS, DIM, L as LS
from . import spec as SP


class Mismatch(Exception):
    """the post state does not have the shape of the generic state"""

    def __init__(self, path, why):
        Exception.__init__(self, "%s: %s" % (path, why))
        self.path = path


class History:
    """samples (rows of numbers), labels; the order of the list is the order of arrival"""

    def __init__(self, name, rows, labels, cdt="f8"):
        self.name = name
        self.rows = [[Fraction(x) for x in r] for r in rows]
        self.labels = list(labels)
        self.cdt = cdt
        self.dim = len(rows[0])
        self.modes = ("stream", "batch")
        self.burst = 0           # how often the first sample is repeated before the others (streams of one cluster are skipped over)
        self.near = ()           # numbers around which the repetitions are probed
        self.weights = None      # multiplicity of rows, as reached
        self.sparse = None       # sample counts at which a long stream is compared; None: at every step

    def show(self, upto=None):
        n = len(self.rows) if upto is None else upto
        f = lambda x: int(x) if x.denominator == 1 else float(x)
        return {"order": self.name, "dtype": self.cdt, "samples": [[f(x) for x in r] for r in self.rows[:n]], "labels": self.labels[:n], **({"first sample repeated": self.weights[0]} if self.weights else {})}


# ---------------------------------------------------------------- point evaluation helpers
class Pt(Model):
    """model with named tables; every index must be inside the table"""

    def table(self, name, tab):
        def f(*idx):
            try:
                return tab[idx]
            except KeyError:
                raise Unknown("%s%r outside the generic state" % (name, list(idx)))
        self.fams[name] = f


def axis_points(model, ax):
    """list of environments (tuples of values of the axis variables) in order"""
    out = []
    if len(ax.vars) == 1 and ax.cond is TRUE:
        h = model.val(ax.his[0])
        if isnan(h) or h != int(h):
            raise Unknown("extent")
        return [(i,) for i in range(int(h))]
    for _ in model.points(ax.vars, ax.his, ax.cond):
        out.append(tuple(model.env[v] for v in ax.vars))
    return out


def eval_array(model, c):
    """ArrC -> (shape, {index tuple: value})"""
    pts = [axis_points(model, a) for a in c.axes]
    tab = {}
    iscond = is_cond(c.term)
    for combo in itertools.product(*[list(enumerate(p)) for p in pts]):
        for a, (_, vals) in zip(c.axes, combo):
            for v, x in zip(a.vars, vals):
                model.env[v] = x
        t = model.val(c.term) if not iscond else int(model.cond(c.term))
        tab[tuple(i for i, _ in combo)] = t
    for a in c.axes:
        for v in a.vars:
            model.env.pop(v, None)
    return tuple(len(p) for p in pts), tab


class Projector:
    """fill the tables of a generic state (Generalise) from a post state evaluated at a point"""

    def __init__(self, I, gen, state, model, newk, newn, labels):
        self.I, self.gen, self.state, self.model = I, gen, state, model
        self.newk, self.newn, self.labels = newk, newn, labels
        self.dim = model.syms["dim"]
        self.tabs = {l.name: {} for l in gen.leaves}
        self.bools = {}
        self.seen = set()

    def content(self, st, v):
        old, self.I.s = self.I.s, st
        try:
            return self.I.content(v)
        finally:
            self.I.s = old

    def size(self, t):
        """a template size at the new point"""
        m = Model({"k": self.newk, "N": self.newn, "dim": self.dim})
        return m.val(t)

    def resolve(self, v):
        """pick the branch of gated values"""
        while isinstance(v, Gated):
            v = v.a if self.model.cond(v.c) else v.b
        if isinstance(v, Undef):
            if v.a is None or v.c is TRUE or self.model.cond(v.c):
                raise Mismatch("?", "not bound")
            v = v.a
        if isinstance(v, Top):
            raise Unknown(v.reason)
        return v

    def run(self, obj):
        self.go(self.gen.obj, obj, "")
        return self.tabs, self.bools

    def put(self, t, val, idx, path):
        """template term t (el(nm, ...idx vars) or formula) gets value val"""
        if t.op == "el":
            self.tabs[t.args[0]][idx] = val
        elif t.op == "not" and t.args[0].op == "eq" and any(a.op == "el" for a in t.args[0].args):
            e = next(a for a in t.args[0].args if a.op == "el")
            self.tabs[e.args[0]][idx] = int(val)
        elif t.op == "batom":
            self.bools[t.args[0]] = bool(val)
        else:
            want = self.size(t) if not is_cond(t) else int(t is TRUE)
            if isnan(val) or not close(want, val):
                raise Mismatch(path, "generic %s, got %s" % (t, val))

    def scalar(self, v):
        if is_cond(v.t):
            return int(self.model.cond(v.t))
        return self.model.val(v.t)

    def go(self, tv, pv, path):
        pv = self.resolve(pv)
        if isinstance(tv, Num):
            if isinstance(pv, (Ref, Arr)):
                c = self.content(self.state, pv)
                if isinstance(c, ArrC) and not c.axes:
                    return self.put(tv.t, self.model.val(c.term), (), path)
            if not isinstance(pv, Num):
                raise Mismatch(path, "kind")
            return self.put(tv.t, self.scalar(pv), (), path)
        if isinstance(tv, Tup):
            if not isinstance(pv, Tup) or len(pv.items) != len(tv.items):
                raise Mismatch(path, "tuple")
            for i, (a, b) in enumerate(zip(tv.items, pv.items)):
                self.go(a, b, "%s[%d]" % (path, i))
            return
        if isinstance(tv, (Ref, Arr)):
            if isinstance(tv, Ref):
                if tv.loc in self.seen:
                    return
                self.seen.add(tv.loc)
            tc = self.content(self.gen.state, tv)
            if isinstance(tc, ArrC) and isinstance(pv, Num) and not tc.axes:
                return self.put(tc.term, self.scalar(pv), (), path)
            if not isinstance(pv, (Ref, Arr)):
                raise Mismatch(path, "kind")
            pc = self.content(self.state, pv)
            return self.cont(tc, pc, path)
        if tv is NONE and pv is NONE:
            return
        if type(tv) is type(pv) and (tv == pv or tv is pv):
            return
        raise Mismatch(path, "value")

    def cont(self, tc, pc, path):
        if isinstance(pc, TopC):
            raise Unknown(pc.reason)
        if isinstance(tc, ArrC):
            if not isinstance(pc, ArrC) or len(pc.axes) != len(tc.axes):
                raise Mismatch(path, "rank")
            shape, tab = eval_array(self.model, pc)
            want = tuple(self.size(a.extent()) for a in tc.axes)
            if shape != want:
                raise Mismatch(path, "shape %s instead of %s" % (shape, want))
            for idx, x in tab.items():
                self.put(tc.term, x, idx, path)
            return
        if isinstance(tc, ListC):
            if not isinstance(pc, ListC):
                raise Mismatch(path, "not a list")
            items = self.list_items(pc)
            if tc.base is None:
                if len(items) != len(tc.tail):
                    raise Mismatch(path, "length %d instead of %d" % (len(items), len(tc.tail)))
                for i, ((_, a), (b, env)) in enumerate(zip(tc.tail, items)):
                    self.with_env(env, lambda: self.go(a, b, "%s[%d]" % (path, i)))
                return
            ax, item = tc.base
            want = self.size(ax.extent())
            if len(items) != want:
                raise Mismatch(path, "length %d instead of %s" % (len(items), want))
            for j, (b, env) in enumerate(items):
                self.with_env(env, lambda: self.item(item, b, j, path))
            return
        if isinstance(tc, DictC):
            if not isinstance(pc, DictC):
                raise Mismatch(path, "not a dict")
            items = self.dict_items(pc)
            if tc.base is None:
                if items or tc.entries:
                    raise Mismatch(path, "entries")
                return
            ax, key, item = tc.base
            want = self.size(ax.extent())
            if len(items) != want:
                raise Mismatch(path, "size %d instead of %s" % (len(items), want))
            for kv, b, env in items:
                if kv not in self.labels:
                    raise Mismatch(path, "key %s" % kv)
                self.with_env(env, lambda: self.item(item, b, self.labels.index(kv), path, ax))
            return
        if isinstance(tc, ObjC):
            if not isinstance(pc, ObjC) or pc.cls is not tc.cls:
                raise Mismatch(path, "object")
            for a in tc.attrs:
                if a not in pc.attrs:
                    raise Mismatch(path + "." + a, "missing")
                self.go(tc.attrs[a], pc.attrs[a], path + "." + a if path else a)
            for a in pc.attrs:
                if a not in tc.attrs and not isinstance(pc.attrs[a], Undef):
                    raise Mismatch(path + "." + a, "new attribute")
            return
        if tc is None and pc is None or tc == pc:
            return
        raise Mismatch(path, "contents %s" % type(tc).__name__)

    def with_env(self, env, f):
        self.model.env.update(env)
        try:
            f()
        finally:
            for v in env:
                self.model.env.pop(v, None)

    def list_items(self, c):
        out = []
        if c.base is not None:
            if not isinstance(c.base, tuple):
                raise Unknown("list")
            ax, item = c.base
            for p in axis_points(self.model, ax):
                out.append((item, dict(zip(ax.vars, p))))
        for cond, v in c.tail:
            if self.model.cond(cond):
                out.append((v, {}))
        return out

    def dict_items(self, c):
        d = {}
        if c.base is not None:
            ax, key, item = c.base
            for p in axis_points(self.model, ax):
                env = dict(zip(ax.vars, p))
                self.model.env.update(env)
                if not isinstance(key, Num):
                    raise Unknown("dict key")
                kv = self.model.val(key.t)
                for v in env:
                    self.model.env.pop(v, None)
                d[kv] = (item, env)
        for cond, key, v in c.entries:
            if self.model.cond(cond):
                key = self.resolve(key)
                if not isinstance(key, Num):
                    raise Unknown("dict key")
                d[self.model.val(key.t)] = (v, {})
        return [(k, v, e) for k, (v, e) in d.items()]

    def item(self, ti, pv, j, path, ax=None):
        pv = self.resolve(pv)
        if isinstance(ti, Num):
            if isinstance(pv, (Ref, Arr)):
                c = self.content(self.state, pv)
                if isinstance(c, ArrC) and not c.axes:
                    pv = Num(c.term, "npfloat")
            if not isinstance(pv, Num):
                raise Mismatch(path, "item kind")
            x = self.scalar(pv)
            if ti.t.op == "el":
                self.tabs[ti.t.args[0]][(j,)] = x
                return
            m = Model({"k": self.newk, "N": self.newn, "dim": self.dim})
            for s in free(ti.t):
                if s.args[0] not in m.syms:
                    m.env[s] = j
            if not close(m.val(ti.t), x):
                raise Mismatch(path, "item %d is %s" % (j, x))
            return
        if isinstance(ti, Arr):
            if isinstance(pv, Num) and not ti.c.axes:
                self.tabs[ti.c.term.args[0]][(j,)] = self.scalar(pv)
                return
            c = self.content(self.state, pv) if isinstance(pv, (Ref, Arr)) else None
            if not isinstance(c, ArrC) or len(c.axes) != len(ti.c.axes):
                raise Mismatch(path, "item rank")
            shape, tab = eval_array(self.model, c)
            want = tuple(self.size(a.extent()) for a in ti.c.axes)
            if shape != want:
                raise Mismatch(path, "item shape %s instead of %s" % (shape, want))
            for idx, x in tab.items():
                self.tabs[ti.c.term.args[0]][(j,) + idx] = x
            return
        if isinstance(ti, Tup):
            if not isinstance(pv, Tup) or len(pv.items) != len(ti.items):
                raise Mismatch(path, "tuple item")
            for i, (a, b) in enumerate(zip(ti.items, pv.items)):
                self.item(a, b, j, "%s[%d]" % (path, i))
            return
        raise Mismatch(path, "item")


# ---------------------------------------------------------------- definitions at a point
def spec_value(name, rows, classes, k, weights=None):
    """value of the definition on a data set; None where it is unspecified"""
    val, dens = SP.spec(name, bool(weights))
    m = Model({"m": len(rows), "k": k, "dim": len(rows[0])}, {"data": lambda i, d: rows[i][d], "cls": lambda i: classes[i]}, budget=20_000_000)
    if weights:
        m.fams["wt"] = lambda i: weights.get(i, 1)
    scale = max([abs(x) for r in rows for x in r] + [Fraction(0)])
    floor = Decimal(10) ** -32 * max(D(scale) ** 2, Decimal(10) ** -8)
    for d in dens:
        x = m.val(d)
        if isnan(x) or abs(x) <= floor:
            return None
    v = m.val(val)
    return None if isnan(v) or v in (Decimal("Infinity"), Decimal("-Infinity")) else v


VTOL = Decimal(10) ** -9


def differs(x, want, floor=Decimal(10) ** -30):
    x, want = D(x), D(want)
    if isnan(x):
        return True
    x, want = Decimal(x), Decimal(want)
    if x.is_infinite():
        return True
    return abs(x - want) > VTOL * max(abs(x), abs(want)) + floor


class Obs:
    """what is observed at one step of one history"""

    def __init__(self, hist, step, scen, **kw):
        self.hist, self.step, self.scen = hist, step, scen
        self.__dict__.update(kw)


class Runner:
    """compose the summaries of one class along histories"""
    published = "criterion_value"

    def __init__(self, cs, guards=None):
        self.cs, self.I = cs, cs.S.I
        self.guards = guards if guards is not None else {}
        self.undecided = []

    def mk(self, syms, fams, cdt):
        m = Pt(syms, fams, budget=6_000_000)
        m.cdt = cdt
        m.guards = self.guards
        return m

    def returned(self, r, m):
        v = r.value
        p = Projector(self.I, DummyGen, r.post, m, 0, 0, [])
        v = p.resolve(v)
        if isinstance(v, (Ref, Arr)):
            c = p.content(r.post, v)
            if isinstance(c, ArrC):
                shape, tab = eval_array(m, c)
                if len(tab) == 1:
                    return list(tab.values())[0]
            raise Unknown("returned value is not a number")
        if not isinstance(v, Num):
            raise Unknown("returned value is not a number")
        return p.scalar(v)

    def attr(self, r, m, name):
        p = Projector(self.I, DummyGen, r.post, m, 0, 0, [])
        o = r.post.heap[r.obj.loc]
        v = o.attrs.get(name)
        if v is None:
            raise Unknown("no attribute " + name)
        v = p.resolve(v)
        if isinstance(v, (Ref, Arr)):
            c = p.content(r.post, v)
            if isinstance(c, ArrC) and not c.axes:
                return m.val(c.term)
        if not isinstance(v, Num):
            raise Unknown("attribute %s" % name)
        return p.scalar(v)

    def raising(self, r, m):
        """the exception paths that are taken at this point: list of (exc, where, msg)"""
        out = []
        for st, exc, node, msg in r.raised:
            if m.cond(and_(*st.pc)):
                out.append((exc, getattr(node, "lineno", None), msg))
        for e in r.events:
            if e["kind"] == "mayraise" and m.cond(e["cond"]):
                out.append((e["exc"], e["where"], e.get("msg", "")))
        return out

    def stream(self, h, keep=False):
        """yields Obs for every step of the stream"""
        cs = self.cs
        labels, cls = [], []
        tag, tabs, bools = None, {}, {}
        extra = 0               # samples that were skipped over
        for t, (row, lab) in enumerate(zip(h.rows, h.labels)):
            k = len(labels)
            known = lab in labels
            if tag is None:
                scen = "first"
            else:
                scen = ("known." if known else "new.") + tag
            r = cs.R.get(scen)
            if r is None:
                yield Obs(h, t, scen, status="undecided", why=cs.errors.get(scen) or cs.errors.get(tag or "") or "no summary")
                return
            m = self.mk({"dim": h.dim, "k": k, "N": t + extra}, {}, h.cdt)
            m.fams["x"] = lambda d, row=row: row[d]
            lk = list(labels)
            m.fams["labkey"] = lambda j, lk=lk: lk[j]
            if known:
                m.syms["L"] = labels.index(lab)
            else:
                m.syms["newlab"] = lab
            for nm, tab in tabs.items():
                m.table(nm, tab)
            m.bools = dict(bools)
            if not known:
                labels.append(lab)
            cls.append(labels.index(lab))
            try:
                exc = self.raising(r, m)
                if exc:
                    yield Obs(h, t, scen, status="raises", exc=exc)
                    return
                if r.post is None:
                    yield Obs(h, t, scen, status="undecided", why="no completing path")
                    return
                skip = h.sparse is not None and t + 1 not in h.sparse
                if not skip:
                    val = self.returned(r, m)
                    try:
                        cv = self.attr(r, m, self.published)
                    except Unknown:
                        cv = None
                    o = Obs(h, t, scen, status="value", value=val, attr=cv, k=len(labels), cls=list(cls))
                    if not keep:
                        yield o
                if t + 1 == len(h.rows) and not keep:
                    return
                tag = cs.next_tag(len(labels), t + 1 + extra)
                gen = cs.gen.get(tag)
                if gen is None:
                    yield Obs(h, t, scen, status="undecided", why=cs.errors.get(tag) or "no generic state " + tag)
                    return
                P = Projector(self.I, gen, r.post, m, len(labels), t + 1 + extra, labels)
                tabs, bools = P.run(r.obj)
                if h.burst and t == 0:
                    tabs, bools, w = self.burst(h, row, lab, tabs, bools)
                    h.weights = {0: w}
                    extra = w - 1
                    tag = cs.next_tag(1, w)
                if keep:
                    o.state = (tag, tabs, bools, list(labels), t + 1)
                    yield o
            except Unknown as e:
                yield Obs(h, t, scen, status="undecided", why="unresolved: %s" % e)
                return
            except Budget:
                yield Obs(h, t, scen, status="undecided", why="evaluation budget")
                return
            except Mismatch as e:
                yield Obs(h, t, scen, status="mismatch", why=str(e), path=e.path)
                return

    def again(self, h, row, lab, tabs, bools, n):
        """the state after the same sample once more (one cluster, n samples so far)"""
        r = self.cs.R.get("known." + self.cs.next_tag(1, n))
        tag = self.cs.next_tag(1, n + 1)
        if r is None or r.post is None or tag not in self.cs.gen:
            raise Unknown("burst")
        m = self.mk({"dim": h.dim, "k": 1, "N": n, "L": 0}, {"x": lambda d: row[d], "labkey": lambda j: lab}, h.cdt)
        for nm, tab in tabs.items():
            m.table(nm, tab)
        m.bools = dict(bools)
        if self.raising(r, m):
            raise Unknown("burst")
        return Projector(self.I, self.cs.gen[tag], r.post, m, 1, n + 1, [lab]).run(r.obj)

    def burst(self, h, row, lab, tabs, bools):
        """skip over repetitions of the first sample while each only counts (probed near every number in the code);
        returns the state and how many samples it stands for"""
        w = h.burst
        n = 1
        try:
            for _ in range(6):
                for _ in range(2):
                    if n < w:
                        tabs, bools = self.again(h, row, lab, tabs, bools, n)
                        n += 1
                if n >= w:
                    break
                nxt, b2 = self.again(h, row, lab, tabs, bools, n)
                if {nm: set(t) for nm, t in nxt.items()} != {nm: set(t) for nm, t in tabs.items()}:
                    continue
                up = {(nm, i) for nm, tab in tabs.items() for i in tab if not close(tab[i], nxt[nm][i])}
                if b2 != bools or any(not close(nxt[nm][i] - tabs[nm][i], 1) for nm, i in up):
                    break

                def at(x):
                    return {nm: {i: (int(v + (x - n)) if isinstance(v, int) else v + (x - n)) if (nm, i) in up else v for i, v in tab.items()} for nm, tab in tabs.items()}

                def same(a, b):
                    return all(close(a[nm][i], b[nm][i]) for nm in a for i in a[nm])
                probes = sorted(x for x in {n + 1, n + 2, w - 1, w - 2} | {2 ** e + d for e in range(2, 40) for d in (-2, -1, 0)} | {int(c) + d for c in h.near for d in (-2, -1, 0, 1)} if n < x < w)
                for x in probes:
                    s, b = self.again(h, row, lab, at(x), bools, x)
                    if b != bools or not same(s, at(x + 1)):
                        break
                else:
                    x = w
                tabs, n = at(x), x
        except (Unknown, Budget, Mismatch):
            pass
        return tabs, bools, n

    def tables(self, h, tag, full=False):
        """tables of the generic state reached after a prefix of h (the longest with full=True); None if undecided"""
        best = None
        for o in self.stream(h, keep=True):
            if o.status != "value":
                return best
            st = getattr(o, "state", None)
            if st is not None and st[0] == tag:
                best = st[1:]
                if not full:
                    return best
        return best

    def batch(self, h, scen="batch"):
        cs = self.cs
        r = cs.R.get(scen)
        if r is None:
            return Obs(h, len(h.rows), scen, status="undecided", why=cs.errors.get(scen) or "no summary")
        u = sorted(set(h.labels))
        m = self.mk({"dim": h.dim, "k": len(u), "m": len(h.rows)}, {}, h.cdt)
        m.fams["data"] = lambda i, d: h.rows[i][d]
        m.fams["lab"] = lambda i: h.labels[i]
        m.fams["u"] = lambda j: u[j]
        m.fams["cls"] = lambda i: u.index(h.labels[i])
        try:
            exc = self.raising(r, m)
            if exc:
                return Obs(h, len(h.rows), scen, status="raises", exc=exc)
            if r.post is None:
                return Obs(h, len(h.rows), scen, status="undecided", why="no completing path")
            val = self.returned(r, m)
            try:
                cv = self.attr(r, m, self.published)
            except Unknown:
                cv = None
            return Obs(h, len(h.rows), scen, status="value", value=val, attr=cv, k=len(u), cls=[u.index(x) for x in h.labels])
        except Unknown as e:
            return Obs(h, len(h.rows), scen, status="undecided", why="unresolved: %s" % e)
        except Budget:
            return Obs(h, len(h.rows), scen, status="undecided", why="evaluation budget")


class DummyGen:
    leaves = []
    obj = state = None
