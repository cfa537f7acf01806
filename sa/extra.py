"""C28-C31: statistics and independence of the legacy indices, copies of an object, kind of the returned value."""
from fractions import Fraction as F

from .limit import late
from .lits import literals
from .terms import *
from .ev import Unknown, Budget, isnan
from .vals import *
from .hist import Runner, Projector, DummyGen, History, differs, eval_array, Mismatch
from .interp import Raised, Dead, AnalysisError
from . import checks as C
from . import lib
from .checks import ob, dec
from .surface import LEGACY, LWork, legacy_work, gone

# attributes of the legacy classes and what they stand for
STATS = {n: {"cluster_sizes": "sizes", "cluster_centers": "centres"} for n in ("iXB", "iPS", "iCH", "iGD43", "iGD53", "iDB")}
for n in ("iXB", "iCH", "iDB"):
    STATS[n]["N"] = "count"
STATS["iCH"]["data_center"] = "mean"
STATS["iPS"]["max_cluster_size"] = "largest"
STATS["iSIL"] = {"N": "count"}


def stat_want(kind, rows, cls, weights=None):
    k = max(cls) + 1
    dim = len(rows[0])
    wt = [F((weights or {}).get(i, 1)) for i in range(len(rows))]
    if kind == "count":
        return sum(wt)
    if kind == "mean":
        return [sum(q * r[d] for q, r in zip(wt, rows)) / sum(wt) for d in range(dim)]
    mem = [[(q, r) for q, r, c in zip(wt, rows, cls) if c == j] for j in range(k)]
    sizes = [sum(q for q, _ in m) for m in mem]
    if kind == "sizes":
        return sizes
    if kind == "largest":
        return max(sizes)
    return [[sum(q * r[d] for q, r in m) / n for d in range(dim)] for m, n in zip(mem, sizes)]


def flatten(v):
    if isinstance(v, list):
        return [x for y in v for x in flatten(y)]
    return [v]


class StatRunner(Runner):
    """observes attributes instead of the returned value"""

    def __init__(self, cs, names):
        Runner.__init__(self, cs)
        self.names = names

    def read(self, st, m, v, p):
        v = p.resolve(v)
        if isinstance(v, Num):
            return p.scalar(v)
        if isinstance(v, Tup):
            return [self.read(st, m, x, p) for x in v.items]
        if isinstance(v, (Ref, Arr)):
            c = p.content(st, v)
            if isinstance(c, ArrC):
                shape, tab = eval_array(m, c)
                if not shape:
                    return tab[()]
                go = lambda idx: tab[idx] if len(idx) == len(shape) else [go(idx + (i,)) for i in range(shape[len(idx)])]
                return go(())
            if isinstance(c, ListC):
                out = []
                for item, env in p.list_items(c):
                    p.with_env(env, lambda: out.append(self.read(st, m, item, p)))
                return out
        raise Unknown("attribute of kind %s" % type(v).__name__)

    def returned(self, r, m):
        p = Projector(self.I, DummyGen, r.post, m, 0, 0, [])
        out = {}
        o = r.post.heap[r.obj.loc]
        for a in self.names:
            v = o.attrs.get(a)
            if v is None:
                out[a] = Unknown("no attribute %s" % a)
                continue
            try:
                out[a] = self.read(r.post, m, v, p)
            except (Unknown, Mismatch) as e:
                out[a] = e
        return out

    def attr(self, r, m, name):
        raise Unknown("not observed")


def legacy_histories(seed, tier):
    out = []
    for h in lib.core(seed, tier):
        if "stream" not in h.modes:
            continue
        first = list(dict.fromkeys(h.labels))
        g = History(h.name, h.rows, [first.index(c) for c in h.labels])
        out.append(g)
    return out


def directed_for(R, w, seed, longest=3000):
    """streams on both sides of the guards that went one way so far, and of the numbers written in the code"""
    consts = set()
    for c, (f, t) in R.guards.items():
        if not (f and t):
            for a in c.args[1:] if c.op == "fn" else c.args:
                consts |= {abs(x.args[0]) for x in find(a, lambda x: x.op == "num")}
    hs = lib.directed(sorted(consts), seed, longest, literals(w.S.I, getattr(w.S, "calls_total", ())))
    return [h for h in hs if "stream" in h.modes and sorted(dict.fromkeys(h.labels)) == list(dict.fromkeys(h.labels))]


def check_C28(name, tier, seed):
    w = legacy_work(name, tier, seed)
    if w is None:
        return gone(name, "does not exist")
    names = STATS[name]
    R = StatRunner(w.cs, names)
    groups = {}
    where = "cvi.compat.%s.update" % name

    def compare(h, t, scen, vals, cls):
        w.points += 1
        for a, got in vals.items():
            key = (a, scen)
            if isinstance(got, Exception):
                groups.setdefault(key, []).append(("undecided", str(got), None))
                continue
            want = stat_want(names[a], h.rows[:t + 1], cls, h.weights if t else None)
            shape = lambda v: [shape(x) for x in v] if isinstance(v, list) else 0
            bad = shape(got) != shape(want) or any(differs(x, y) for x, y in zip(flatten(got), flatten(want)))
            f = lambda v: [f(x) for x in v] if isinstance(v, list) else dec(v)
            groups.setdefault(key, []).append(("violated" if bad else "holds", "%s is %s, should be %s" % (a, f(got), f(want)) if bad else "", dict(h.show(t + 1), attribute=a) if bad else None))

    def sweep(hs):
        for h in hs:
            for _ in range(6):
                out = list(R.stream(h))
                last = out[-1] if out else None
                if last is not None and last.status == "mismatch" and last.path not in w.cs.loose:
                    w.cs.loose.add(last.path)
                    w.cs.gen.clear()
                    for k in [k for k in w.cs.R if k.split(".")[0] in ("known", "new") and "." in k]:
                        del w.cs.R[k]
                    w.cs.inc()
                    continue
                break
            for o in out:
                if o.status == "value":
                    compare(h, o.step, o.scen, o.value, o.cls)
                elif o.status in ("undecided", "mismatch"):
                    groups.setdefault(("*", o.scen), []).append(("undecided", o.why, None))

    sweep(legacy_histories(seed, tier))
    sweep(directed_for(R, w, seed))
    # concrete label orders: no generic state involved
    for seq, _ in w.orders():
        rs = w.script(seq)
        if isinstance(rs, str):
            groups.setdefault(("*", "order %s" % seq), []).append(("undecided", rs, None))
            continue
        for m in w.models(seq, 3):
            h = History("order %s" % seq, m.rows, seq)
            for t, r in enumerate(rs):
                if r.post is None:
                    break
                try:
                    vals = R.returned(r, m)
                except (Unknown, Budget) as e:
                    groups.setdefault(("*", "order"), []).append(("undecided", str(e), None))
                    break
                compare(h, t, "order", vals, seq[:t + 1])
    obl = []
    rule = "the term of the attribute equals the count or mean it stands for"
    for (a, scen), items in sorted(groups.items()):
        bad = [i for i in items if i[0] == "violated"]
        und = [i for i in items if i[0] == "undecided"]
        good = len(items) - len(bad) - len(und)
        subj = "%s.%s %s" % (name, a, scen)
        if bad:
            obl.append(ob(subj, rule, "violated", bad[0][1], where if scen == "order" else C.where_of(w.cs, scen), bad[0][2], len(items)))
        elif good:
            obl.append(ob(subj, rule, "holds", "%d points%s" % (good, "; %d undecided: %s" % (len(und), und[0][1]) if und else ""), n=good))
        else:
            obl.append(ob(subj, rule, "undecided", und[0][1]))
    return w.close(obl)


# ---------------------------------------------------------------- C29
def check_C29(name, tier, seed):
    w = legacy_work(name, tier, seed)
    if w is None:
        return gone(name, "does not exist")
    r = C.independence(w, name, "cvi.compat." + name)
    obl = r["obligations"]
    n0 = len(obl)
    rule = "the returned term is the published output"
    und = {}
    for scen, r in w.cs.R.items():
        if r.post is None or scen == "new" or scen.startswith("skip"):
            continue
        a = r.post.heap[r.obj.loc].attrs.get("output")
        if isinstance(a, Num) and isinstance(r.value, Num) and a.t is r.value.t:
            obl.append(ob("%s %s" % (name, scen), rule, "holds"))
    R = Runner(w.cs)
    R.published = "output"
    g = {}
    by = {}
    def every():
        for h in legacy_histories(seed, tier):
            yield h
        if len(obl) - n0 < sum(1 for s, r in w.cs.R.items() if r.post is not None and s != "new" and not s.startswith("skip")):
            for h in directed_for(R, w, seed, 400):
                yield h

    for h in every():
        if late():
            break
        for o in R.stream(h):
            if o.status != "value" or o.attr is None:
                break
            w.points += 1
            by.setdefault(o.scen, []).append(None if C.same_value(o.value, o.attr) else dict(h.show(o.step + 1), returned=dec(o.value), output=dec(o.attr)))
    for scen, items in sorted(by.items()):
        bad = [i for i in items if i]
        if bad:
            obl.append(ob("%s %s values" % (name, scen), rule, "violated", "returns %s, output is %s" % (bad[0]["returned"], bad[0]["output"]), C.where_of(w.cs, scen), bad[0], len(items)))
        else:
            obl.append(ob("%s %s values" % (name, scen), rule, "holds", "%d points" % len(items), n=len(items)))
    for seq, _ in w.orders() + [([0, 1, 0, 1, 2], None), ([0, 0, 1, 1, 2, 2, 3], None)]:
        rs = w.script(seq)
        if isinstance(rs, str):
            continue
        for m in w.models(seq, 2):
            for t, r in enumerate(rs):
                if r.post is None:
                    break
                try:
                    x, y = R.returned(r, m), R.attr(r, m, "output")
                except (Unknown, Budget) as e:
                    g.setdefault("undecided", []).append(str(e))
                    break
                w.points += 1
                if C.same_value(x, y):
                    g.setdefault("holds", []).append(seq)
                else:
                    g.setdefault("violated", []).append("order %s, sample %d: returns %s, output is %s" % (seq, t + 1, dec(x), dec(y)))
    if "violated" in g:
        obl.append(ob("%s orders" % name, rule, "violated", g["violated"][0], "cvi.compat.%s.update" % name, dict(history=g["violated"][0])))
    elif "holds" in g:
        obl.append(ob("%s orders" % name, rule, "holds", "%d points" % len(g["holds"]), n=len(g["holds"])))
    else:
        obl.append(ob("%s orders" % name, rule, "undecided", (g.get("undecided") or ["no order"])[0]))
    return w.close(obl)


# ---------------------------------------------------------------- C31
class KindRunner(Runner):
    """observes what kind of object is returned"""

    def returned(self, r, m):
        p = Projector(self.I, DummyGen, r.post, m, 0, 0, [])
        v = p.resolve(r.value)
        if isinstance(v, Num):
            if v.k in BOOLK or is_cond(v.t):
                return "a boolean"
            return "number"
        if v is NONE:
            return "None"
        if isinstance(v, Str):
            return "a string"
        if isinstance(v, Tup):
            return "a tuple"
        if isinstance(v, Seq):
            return "an iterator"
        if isinstance(v, (Func, Bound, Cls)):
            return "a function"
        if isinstance(v, (Ref, Arr)):
            c = p.content(r.post, v)
            if isinstance(c, ArrC):
                if not c.axes:
                    return "number"
                return "an array with %d axis" % len(c.axes) if len(c.axes) == 1 else "an array with %d axes" % len(c.axes)
            if isinstance(c, (ListC, DictC, ObjC)):
                return {"ListC": "a list", "DictC": "a dictionary", "ObjC": "an object"}[type(c).__name__]
        raise Unknown("value of kind %s" % type(v).__name__)

    def attr(self, r, m, name):
        raise Unknown("not observed")


def check_C31(name, tier, seed):
    if name in LEGACY:
        w = legacy_work(name, tier, seed)
        if w is None:
            return gone(name, "does not exist")
        hs = legacy_histories(seed, tier)
    else:
        w = C.Work(name, tier, seed)
        hs = lib.core(seed, tier)
    R = KindRunner(w.cs)
    g = {}

    def put(scen, kind, h, n):
        if kind == "number":
            g.setdefault(scen, []).append(("holds", "", None))
        else:
            g.setdefault(scen, []).append(("violated", "returns %s" % kind, dict(h.show(n))))

    def every():
        for h in hs:
            yield h, True
        for h in directed_for(R, w, seed, 400):
            yield h, False

    for h, base in every():
        if late():
            break
        if "stream" in h.modes:
            for o in R.stream(h):
                if o.status == "value":
                    put(o.scen, o.value, h, o.step + 1)
                elif not base:
                    break
                elif o.status in ("undecided", "mismatch"):
                    g.setdefault(o.scen, []).append(("undecided", o.why, None))
        if name not in LEGACY and "batch" in h.modes and len(set(h.labels)) > 1 and len(h.rows) < 200:
            o = R.batch(h)
            if o.status == "value":
                put("batch", o.value, h, len(h.rows))
            elif not base:
                pass
            elif o.status == "undecided":
                g.setdefault("batch", []).append(("undecided", o.why, None))
    # batches with given labels, where there is no general summary
    if name not in LEGACY and any(i[0] == "undecided" for i in g.get("batch", ())):
        left = g.pop("batch")
        for h in hs:
            if len(h.rows) > 8 or len(set(h.labels)) < 2:
                continue
            try:
                r = w.cs.batch_of(h.labels, 20)
            except Exception as e:
                left.append(("undecided", "%s: %s" % (type(e).__name__, e), None))
                continue
            m = R.mk({"dim": h.dim}, {}, h.cdt)
            m.fams["data"] = lambda i, d, h=h: h.rows[i][d]
            n0 = len(g.get("order", ()))
            orders(R, [r], m, h, put, g)
            g.setdefault("batch", []).extend(g.get("order", [])[n0:])
            g["order"] = g.get("order", [])[:n0]
        if not g.get("order"):
            g.pop("order", None)
        g["batch"] = g.get("batch", []) or left
    # concrete label orders, for states without a generic form
    if name not in LEGACY and any(i[0] == "undecided" for v in g.values() for i in v):
        for h in hs:
            if len(h.rows) > 8 or "stream" not in h.modes:
                continue
            labels = list(dict.fromkeys(h.labels))
            key = [labels.index(c) for c in h.labels]
            try:
                rs = w.cs.script([("s", c) for c in key], None, 15)
            except Exception as e:
                g.setdefault("order", []).append(("undecided", "%s: %s" % (type(e).__name__, e), None))
                continue
            m = R.mk({"dim": h.dim}, {}, h.cdt)
            m.fams["h"] = lambda t, d, h=h: h.rows[t][d]
            m.fams["labkey"] = lambda j, labels=labels: labels[j]
            orders(R, rs, m, h, put, g)
    if name in LEGACY:
        for seq, _ in w.orders():
            rs = w.script(seq)
            if isinstance(rs, str):
                g.setdefault("order", []).append(("undecided", rs, None))
                continue
            for m in w.models(seq, 1):
                orders(R, rs, m, History("order", m.rows, seq), put, g)
    obl = []
    rule = "the returned object is a scalar"
    for scen, items in sorted(g.items()):
        bad = [i for i in items if i[0] == "violated"]
        good = [i for i in items if i[0] == "holds"]
        subj = "%s %s" % (name, scen)
        if bad:
            obl.append(ob(subj, rule, "violated", bad[0][1], C.where_of(w.cs, scen) if scen in w.cs.R else name, bad[0][2], len(items)))
        elif good:
            obl.append(ob(subj, rule, "holds", "%d points" % len(good), n=len(good)))
        else:
            obl.append(ob(subj, rule, "undecided", items[0][1]))
    if hasattr(w, "obs"):
        w.obs.points += sum(len(v) for v in g.values())
    else:
        w.points += sum(len(v) for v in g.values())
    return w.close(obl)


def orders(R, rs, m, h, put, g):
    for t, r in enumerate(rs):
        if r.post is None:
            return
        try:
            put("order", R.returned(r, m), h, t + 1)
        except (Unknown, Budget) as e:
            g.setdefault("order", []).append(("undecided", str(e), None))
            return


# ---------------------------------------------------------------- C30
HOOKS = ("__deepcopy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__getnewargs__", "__getnewargs_ex__", "__new__", "__getattr__", "__getattribute__")
# results of these calls cannot be pickled
NOPICKLE = ("threading.", "weakref.", "builtins.open", "open at", "socket.", "sqlite3.", "io.", "memoryview", "tempfile.", "multiprocessing.", "concurrent.", "_thread.", "generator function",
            "external function threading", "external function weakref", "external function io", "external function _thread", "external function contextvars", "external function tempfile",
            "external function builtins.open", "external function builtins.memoryview")
MODULES = {"numpy", "numpy.linalg", "numpy.random", "numpy.fft", "numpy.ma", "numpy.testing", "scipy", "pandas", "sklearn"}


class Cannot(Exception):
    pass


def module_level(I, st, v):
    """is a function or class found again under its name?"""
    old, I.s = I.s, st
    try:
        fr = I.frame_of_mod(v.mod) if v.mod in I.mods else {}
        x = fr.get(v.name)
        if x is v:
            return True
        if isinstance(v, Func) and v.cls is not None:
            c = v.cls
            return I.s.heap[c.loc].attrs.get(v.name) is v and module_level(I, st, c)
        return False
    finally:
        I.s = old


def kinds(I, st, v, path, seen, bad, und, depth=0):
    """what a deep copy or a pickle of the object would have to go through"""
    if depth > 14:
        return
    if isinstance(v, Ref):
        if v.loc in seen:
            return
        seen.add(v.loc)
        c = st.heap.get(v.loc)
        for d in (I.np.defaultdicts, I.np.factories):
            if v.loc in d:
                kinds(I, st, d[v.loc], path + " (default factory)", seen, bad, und, depth + 1)
        if v.loc in I.subclass and not module_level(I, st, I.subclass[v.loc]):
            bad.append("%s is of the class %s, which is not found under its name" % (path, I.subclass[v.loc].name))
        if isinstance(c, ObjC):
            if c.cls is not None and not module_level(I, st, c.cls):
                bad.append("%s is of the class %s, which is not found under its name" % (path, c.cls.name))
            for a, x in c.attrs.items():
                kinds(I, st, x, path + "." + a, seen, bad, und, depth + 1)
        elif isinstance(c, ListC):
            if isinstance(c.base, tuple):
                kinds(I, st, c.base[1], path + "[]", seen, bad, und, depth + 1)
            for _, x in c.tail:
                kinds(I, st, x, path + "[]", seen, bad, und, depth + 1)
        elif isinstance(c, DictC):
            for k, x in ([(c.base[1], c.base[2])] if c.base is not None else []) + [(k, x) for _, k, x in c.entries]:
                kinds(I, st, x, path + "[]", seen, bad, und, depth + 1)
                kinds(I, st, k, path + ".keys", seen, bad, und, depth + 1)
        elif isinstance(c, TopC):
            und.append("%s: %s" % (path, c.reason))
        return
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            kinds(I, st, x, "%s[%d]" % (path, i), seen, bad, und, depth + 1)
    elif isinstance(v, Gated):
        kinds(I, st, v.a, path, seen, bad, und, depth + 1)
        kinds(I, st, v.b, path, seen, bad, und, depth + 1)
    elif isinstance(v, Undef):
        if v.a is not None:
            kinds(I, st, v.a, path, seen, bad, und, depth + 1)
    elif isinstance(v, Bound):
        kinds(I, st, v.self_, path, seen, bad, und, depth + 1)
    elif isinstance(v, Func):
        if not module_level(I, st, v):
            bad.append("%s is the function %s, which is not found under its name" % (path, v.name))
    elif isinstance(v, Cls):
        if not module_level(I, st, v):
            bad.append("%s is the class %s, which is not found under its name" % (path, v.name))
    elif isinstance(v, Seq):
        (bad if v.gen else und).append("%s is %s" % (path, "a generator" if v.gen else "an iterator"))
    elif type(v).__name__ == "DictView":
        bad.append("%s is a view of a dictionary" % path)
    elif isinstance(v, Mod):
        bad.append("%s is the module %s" % (path, v.name))
    elif isinstance(v, Ext):
        import sys
        if v.path in MODULES or v.path in sys.stdlib_module_names:
            bad.append("%s is the module %s" % (path, v.path))
    elif isinstance(v, Top):
        (bad if v.reason.startswith(NOPICKLE) else und).append("%s: %s" % (path, v.reason))
    elif type(v).__name__ == "Wrapped":
        if v.kind == "partial":
            kinds(I, st, v.fn, path + ".func", seen, bad, und, depth + 1)
            for x in list(v.args) + list(v.kw.values()):
                kinds(I, st, x, path + ".args", seen, bad, und, depth + 1)
        else:
            und.append("%s is a %s" % (path, v.kind))


def hooks_of(I, st, obj):
    """classes of reachable objects that define part of the copy protocol: {class: [hook names]}"""
    out, seen = {}, []
    C.reach(I, st, obj, "self", set(), seen)
    for _, loc, _ in seen:
        c = st.heap.get(loc)
        cls = c.cls if isinstance(c, ObjC) else I.subclass.get(loc)
        if cls is None:
            continue
        for k in cls.mro():
            for h in HOOKS:
                if h in st.heap[k.loc].attrs:
                    out.setdefault(cls, []).append(h)
    return out


class Cloner:
    """copy.deepcopy / pickle.loads(pickle.dumps(..)) of an object whose classes define hooks"""

    def __init__(self, w, how):
        self.w, self.I, self.how = w, w.S.I, how
        self.memo = {}

    def hook(self, o, name):
        c = self.I.s.heap[o.loc]
        v, _ = self.I.class_lookup(c.cls, name)
        return v if isinstance(v, Func) else None

    def go(self, v):
        from .scen import NODE
        I = self.I
        if isinstance(v, Ref):
            if v.loc in self.memo:
                return self.memo[v.loc]
            c = I.s.heap.get(v.loc)
            if isinstance(c, ObjC):
                return self.obj(v, c)
            c = I.content(v)
            if isinstance(c, ArrC):
                r = I.mkarr(c.axes, c.term, c.dtype)
            elif isinstance(c, ListC):
                b = c.base
                if isinstance(b, tuple):
                    from .npf import strip_alias
                    b = (b[0], strip_alias(b[1]))
                r = I.alloc(ListC(b, ()))
                self.memo[v.loc] = r
                I.s.heap[r.loc] = ListC(b, [(k, self.go(x)) for k, x in c.tail])
                I.keep_kind((v,), r)
            elif isinstance(c, DictC):
                r = I.alloc(DictC(c.base, (), c.isset))
                self.memo[v.loc] = r
                I.s.heap[r.loc] = DictC(c.base, [(k, a, self.go(b)) for k, a, b in c.entries], c.isset)
                I.keep_kind((v,), r)
            else:
                raise Unknown("contents of unknown kind")
            self.memo[v.loc] = r
            return r
        if isinstance(v, Tup):
            return Tup([self.go(x) for x in v.items])
        if isinstance(v, Bound):
            return Bound(v.fn, self.go(v.self_))
        if isinstance(v, (Gated, Undef, Top)):
            raise Unknown("value of unknown kind")
        return v

    def obj(self, o, c):
        from .scen import NODE
        I = self.I
        if self.hook(o, "__new__") or self.hook(o, "__getnewargs__") or self.hook(o, "__getnewargs_ex__") or self.hook(o, "__getattribute__"):
            raise Unknown("__new__ or __getattribute__")
        if self.how == "deepcopy" and self.hook(o, "__deepcopy__"):
            memo = I.alloc(DictC(None, ()))
            y = I.call(Bound(self.hook(o, "__deepcopy__"), o), [memo], {}, NODE)
            if isinstance(y, Ref):
                self.memo[o.loc] = y
            return y
        rx = self.hook(o, "__reduce_ex__") or self.hook(o, "__reduce__")
        if rx is not None:
            t = I.call(Bound(rx, o), [Num(num(4), "pyint")] if rx.name == "__reduce_ex__" else [], {}, NODE)
            if not isinstance(t, Tup) or len(t.items) < 2 or not isinstance(t.items[1], Tup):
                raise Unknown("__reduce__")
            y = I.call(t.items[0], [self.go(x) for x in t.items[1].items], {}, NODE)
            if not isinstance(y, Ref) or not isinstance(I.s.heap.get(y.loc), ObjC):
                raise Unknown("__reduce__")
            self.memo[o.loc] = y
            if len(t.items) > 3:
                raise Unknown("__reduce__ with items")
            state = t.items[2] if len(t.items) == 3 else NONE
        else:
            y = I.alloc(ObjC(c.cls, {}))
            self.memo[o.loc] = y
            gs = self.hook(o, "__getstate__")
            state = I.call(Bound(gs, o), [], {}, NODE) if gs is not None else I.getattr(o, "__dict__", NODE)
        if state is NONE:
            return y
        state = self.go(state)
        ga = self.hook(o, "__getattr__")
        ss = self.hook(o, "__setstate__")
        if ss is None and ga is not None:
            # the protocol looks the hook up on the object, which has no attribute yet
            n = len(I.unknown)
            try:
                I.getattr(y, "__setstate__", NODE)
            except Raised as e:
                if e.exc != "AttributeError":
                    raise
            else:
                if any("recursion" in u for u in I.unknown[n:]):
                    raise Raised("RecursionError", NODE, "__getattr__ reads an attribute that the new object does not have yet")
                raise Unknown("__getattr__ answers to __setstate__")
        if ss is not None:
            I.call(Bound(ss, y), [state], {}, NODE)
            return y
        if isinstance(state, Ref) and isinstance(I.s.heap.get(state.loc), DictC):
            d = I.s.heap[state.loc]
            if d.base is None and all(isinstance(k, Str) and k.s is not None and cond is TRUE for cond, k, _ in d.entries):
                I.s.heap[y.loc] = ObjC(c.cls, dict(I.s.heap[y.loc].attrs, **{k.s: v for _, k, v in d.entries}))
                return y
        raise Unknown("state of the copy")


COPY_AT = [[], [0], [0, 0], [0, 1], [0, 1, 1, 2, 0]]
COPY_THEN = [[0, 1], [1, 0], [1, 1], [1, 2, 0], [3, 1, 0]]


def copy_scripts(w, name, how):
    """(label, results with the copy, results without): the copy is made after a prefix, the original goes on first"""
    from .scen import NODE
    legacy = name in LEGACY
    cs, I = w.cs, w.S.I

    def step(o, t, c):
        x = w.S.sample("h", num(t))
        f = (lambda: cs.upd(o, x, Num(num(c), "pyint"))) if legacy else (lambda: cs.get(o, x, Num(el("labkey", num(c)), "lab")))
        r = w.S.call("s", f, [x])
        r.obj = o
        if r.post is None:
            if r.raised:
                raise Raised(r.raised[0][1], NODE, r.raised[0][3])
            raise Unknown("no completing path")
        I.s = r.post.copy()
        I.frame = w.S.frame0
        return r

    for pre, then in zip(COPY_AT, COPY_THEN):
        k = len(set(pre))
        other = [k, 0, k + 1] if legacy else [6, 0, 5]

        def run(copied):
            o = cs._start()
            for t, c in enumerate(pre):
                step(o, t, c)
            n = len(pre)
            if not copied:
                return [step(o, n + i, c) for i, c in enumerate(then)]
            y = Cloner(w, how).go(o)
            if isinstance(y, (Top, Gated, Undef)):
                raise Unknown("the copy: %s" % getattr(y, "reason", "unknown"))
            if not isinstance(y, Ref):
                raise Cannot("the copy is not an object")
            for i, c in enumerate(other):
                step(o, 50 + i, c)
            a = [step(y, n + i, c) for i, c in enumerate(then)]
            return a

        def run2():
            # the copy goes on first, then the original
            o = cs._start()
            for t, c in enumerate(pre):
                step(o, t, c)
            n = len(pre)
            y = Cloner(w, how).go(o)
            for i, c in enumerate(other):
                step(y, 50 + i, c)
            return [step(o, n + i, c) for i, c in enumerate(then)]
        yield pre, then, run, run2


def check_C30(name, tier, seed):
    legacy = name in LEGACY
    if legacy:
        w = legacy_work(name, tier, seed)
        if w is None:
            return gone(name, "does not exist")
    else:
        w = C.Work(name, tier, seed)
    I = w.S.I
    obl = []
    rule = "every object reachable from the index can be copied and pickled"
    hooks = {}
    for scen, r in w.cs.R.items():
        states = ([r.post] if r.post is not None else []) + [x[0] for x in r.raised if x[0] is not None]
        obj = getattr(r, "obj", None)
        if not states or obj is None:
            continue
        bad, und = [], []
        for st in states:
            kinds(I, st, obj, "self", set(), bad, und)
            hooks.update(hooks_of(I, st, obj))
        subj = "%s %s" % (name, scen)
        if und and not bad and not legacy and (scen == "batch" or scen.endswith(".B") or scen in ("late1d",)):
            # the state after a batch has no general form: the states after batches with given labels
            try:
                r2 = w.cs.batch_of((3, 9, 3, 4, 9, 9), 20)
                if r2.post is not None:
                    und = []
                    kinds(I, r2.post, r2.obj, "self", set(), bad, und)
            except Exception:
                pass
        if bad:
            obl.append(ob(subj, rule, "violated", bad[0], C.where_of(w.cs, scen), dict(scenario=scen, what=bad)))
        elif und:
            obl.append(ob(subj, rule, "undecided", und[0]))
        else:
            obl.append(ob(subj, rule, "holds"))
    rule = "the copy is the object, and shares nothing with it"
    if not hooks:
        obl.append(ob(name, rule, "holds", "no class on the way defines part of the copy protocol: attributes are copied one by one"))
        return w.close(obl)
    R = Runner(w.cs)
    for how in ("deepcopy", "pickle"):
        for pre, then, run, run2 in copy_scripts(w, name, how):
            subj = "%s %s after %s" % (name, how, pre)
            where = "%s: %s" % (name, ", ".join(sorted({"%s.%s" % (c.name, h) for c, hs in hooks.items() for h in hs})))
            try:
                want = run(False)
            except (Unknown, Raised, Dead, AnalysisError, Cannot) as e:
                obl.append(ob(subj, rule, "undecided", "%s: %s" % (type(e).__name__, e)))
                continue
            bad, und, n = None, None, 0
            for what, f in (("the copy", lambda: run(True)), ("the original", run2)):
                try:
                    got = f()
                except (Raised, Dead, Cannot) as e:
                    bad = "%s: %s" % (what, "raises %s (%s)" % (e.exc, e.msg) if isinstance(e, Raised) else e)
                    break
                except (Unknown, AnalysisError, Mismatch) as e:
                    und = str(e)
                    continue
                except Exception as e:
                    und = "%s: %s" % (type(e).__name__, e)
                    continue
                seq = pre + then
                for m in copy_models(w, R, seq, legacy):
                    for i, (a, b) in enumerate(zip(got, want)):
                        try:
                            ea, eb = R.raising(a, m), R.raising(b, m)
                            if ea and not eb:
                                bad = "%s raises %s on sample %d after the copy" % (what, ea[0], i + 1)
                                break
                            if eb:
                                break
                            x, y = R.returned(a, m), R.returned(b, m)
                        except (Unknown, Budget) as e:
                            und = str(e)
                            break
                        n += 1
                        if not C.alike(x, y):
                            bad = "%s returns %s on sample %d after the copy, %s without a copy" % (what, dec(x), i + 1, dec(y))
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad:
                obl.append(ob(subj, rule, "violated", bad, where, dict(prefix=pre, then=then, how=how)))
            else:
                obl.append(ob(subj, rule, "holds" if n else "undecided", "%d points" % n if n else (und or "no point"), n=max(n, 1)))
    return w.close(obl)


def copy_models(w, R, seq, legacy):
    import random
    for i, style in enumerate(("frac", "sep", "int")):
        rng = random.Random(w.seed + 5 + i)
        dim = [2, 1, 3][i]
        rows = lib.rows_for(style, dim, 60, rng, [seq[t % len(seq)] for t in range(60)])
        names = lib.NAMES[i + 1]
        m = R.mk({"dim": dim}, {}, "f8")
        m.fams["h"] = lambda t, d, rows=rows: rows[t][d]
        m.fams["labkey"] = lambda j, names=names: names[j]
        yield m
