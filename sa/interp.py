"""Abstract interpreter over the syntax tree of the analysed package.

The abstract domain maps every scalar to a term over the (arbitrary, symbolic) inputs, with symbolic
array extents.  Paths are merged at every join (gated terms), loops with a symbolic trip count are
summarised by solving the recurrences of the modified cells, unknown constructs become TOP."""
import ast
import os
from .terms import *
from .terms import N_
from .facts import Ctx, simplify, _hasite
from .vals import *
from . import npt

LIMIT = 12
sys_limit = 60


class Raised(Exception):
    def __init__(self, exc, node, msg=""):
        self.exc, self.node, self.msg = exc, node, msg


class Dead(Exception):
    """the current path was cut (e.g. a definite raise inside an expression was already recorded)"""


class AnalysisError(Exception):
    pass


class State:
    __slots__ = ("frames", "heap", "ctx", "pc")

    def __init__(self, frames, heap, ctx, pc):
        self.frames, self.heap, self.ctx, self.pc = frames, heap, ctx, pc

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), self.ctx, self.pc)

    def assume(self, c, pc=True):
        self.ctx = self.ctx.assume(c)
        if pc and c is not TRUE:
            self.pc = self.pc + (c,)
        return self


class Frame:
    def __init__(self, fid, func=None, self_=None, cls=None, mod=None, parent=None):
        self.fid, self.func, self.self_, self.cls, self.mod, self.parent = fid, func, self_, cls, mod, parent
        self.rets = []
        self.globals_ = set()
        self.nonlocals = set()
        self.loops = []


EXC_PARENTS = {
    "ValueError": ["Exception"], "TypeError": ["Exception"], "KeyError": ["LookupError", "Exception"],
    "IndexError": ["LookupError", "Exception"], "AttributeError": ["Exception"], "NameError": ["Exception"],
    "UnboundLocalError": ["NameError", "Exception"],
    "ZeroDivisionError": ["ArithmeticError", "Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
    "LinAlgError": ["ValueError", "Exception"], "AssertionError": ["Exception"], "StopIteration": ["Exception"],
    "RuntimeError": ["Exception"], "OverflowError": ["ArithmeticError", "Exception"], "LookupError": ["Exception"],
    "ArithmeticError": ["Exception"], "UFuncTypeError": ["TypeError", "Exception"], "AxisError": ["ValueError", "IndexError", "Exception"],
}


class Strip(ast.NodeTransformer):
    """what the interpreter's -O / -OO flags do to the source"""

    def __init__(self, level):
        self.level = level

    def visit_Assert(self, n):
        return ast.copy_location(ast.Pass(), n) if self.level else n

    def visit_Name(self, n):
        if n.id == "__debug__" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Constant(not self.level), n)
        return n

    def doc(self, n):
        self.generic_visit(n)
        if self.level > 1 and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body[0] = ast.copy_location(ast.Pass(), n.body[0])
        return n

    visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = visit_Module = doc


class Interp:
    def __init__(self, root, package="cvi"):
        self.root, self.package = root, package
        self.nloc = 0
        self.tables = False
        self.nfid = 0
        self.events = []
        self.s = State({}, {}, Ctx(), ())
        self.mods = {}          # dotted name -> fid
        self.modfiles = {}
        self.trees = {}
        self.frame = None
        self.sinks = []         # stack of lists for raised states
        self.depth = 0
        self.mute = 0
        self.scenario = False
        self.load_boundary = 0
        self.shared = set()
        self.caller_locs = set()
        self.visited = set()    # (file, line) statements analysed
        self.calls_analysed = set()
        self.work = 0
        self.unknown = []
        self.loopctx = []
        self.effects = []
        self.domains = []
        self.optimize = 0
        self.scaled = False     # integers written in the source, from 6 on, read as 3
        self.subclass = {}
        self.objdict = {}
        from . import npm
        self.np = npm.NP(self)

    # ------------------------------------------------------------ helpers
    def alloc(self, content):
        if self.tables and isinstance(content, ArrC):
            content = npt.settle(content)
        self.nloc += 1
        self.s.heap[self.nloc] = content
        return Ref(self.nloc)

    def newframe(self, d):
        self.nfid += 1
        self.s.frames[self.nfid] = d
        return self.nfid

    def where(self, node):
        f = self.frame.mod if self.frame is not None else "?"
        fn = self.modfiles.get(f, f)
        func = self.frame.func.name if self.frame is not None and self.frame.func is not None else "<module>"
        return "%s:%s (%s)" % (fn, getattr(node, "lineno", "?"), func)

    def event(self, kind, node, cond=TRUE, **kw):
        if self.mute:
            return
        c = and_(*self.s.pc, cond) if self.s is not None else cond
        if c is FALSE:
            return
        e = dict(kind=kind, cond=c, where=self.where(node), node=node)
        e.update(kw)
        self.events.append(e)

    def top(self, reason, node=None):
        r = reason if node is None else "%s at %s" % (reason, self.where(node))
        if not self.mute:
            self.unknown.append(r)
        return Top(r)

    def simp(self, t):
        if not _hasite(t):
            return t
        ctx = self.s.ctx
        memo = ctx.__dict__.setdefault("_simp", {})
        return simplify(t, ctx, memo)

    def decide(self, c):
        return self.s.ctx.decide(self.simp(c)) if c.op not in ("true", "false") else (c is TRUE)

    def may_raise(self, exc, cond, node, msg=""):
        """an operation raises exc when cond holds"""
        cond = self.simp(cond)
        d = self.s.ctx.decide(cond)
        if d is False:
            return
        if d is True:
            raise Raised(exc, node, msg)
        if self.sinks and len(self.sinks) > 1:
            st = self.s.copy().assume(cond)
            self.sinks[-1].append((st, exc, node, msg))
            self.s.assume(not_(cond))
        else:
            self.event("mayraise", node, cond, exc=exc, msg=msg)
            self.s.assume(not_(cond), pc=False)

    # ------------------------------------------------------------ contents
    def content(self, v):
        """content of a Ref / frozen array, views resolved"""
        if isinstance(v, Arr):
            return v.c
        c = self.s.heap.get(v.loc)
        if isinstance(c, ViewC):
            return self.view_content(v.loc, c)
        return c

    def view_content(self, loc, c):
        base = self.content(Ref(c.base))
        if not isinstance(base, ArrC):
            return base
        idx = []
        for m in c.maps:
            if m[0] == "fix":
                idx.append(m[1])
            else:
                idx.append(add(m[2], mul(m[3], c.axes[m[1]].v)))
        if not all(a.plain for a in base.axes):
            return TopC("view of filtered array")
        m2 = dict(zip(base.allvars(), idx))
        t = self.simp_axes(subst(base.term, m2), c.axes)
        return ArrC(c.axes, t, base.dtype, frozenset([self.root_loc(loc)]))

    def root_loc(self, loc):
        c = self.s.heap.get(loc)
        while isinstance(c, ViewC):
            loc = c.base
            c = self.s.heap.get(loc)
        return loc

    def origins(self, v):
        """all array locations the value may share memory with"""
        out = set()
        if isinstance(v, Ref):
            loc = self.root_loc(v.loc)
            out.add(loc)
            c = self.s.heap.get(loc)
            if isinstance(c, ArrC):
                todo = list(c.alias)
                while todo:
                    x = todo.pop()
                    if x not in out:
                        out.add(x)
                        y = self.s.heap.get(self.root_loc(x))
                        out.add(self.root_loc(x))
                        if isinstance(y, ArrC):
                            todo += list(y.alias)
        elif isinstance(v, Arr):
            out |= set(v.c.alias)
        return out

    def simp_axes(self, t, axes):
        if not _hasite(t):
            return t
        ctx = self.s.ctx
        cs = [c for a in axes for c in a.conds()]
        return simplify(t, ctx.assume(*cs)) if cs else self.simp(t)

    def domain(self, axes, node=None):
        """record the size of an iteration or of an array that is built"""
        if self.scenario and not self.mute:
            for a in axes:
                if a.plain and isnum(a.his[0]):
                    self.work += int(a.his[0].args[0])
                else:
                    self.domains.append((a.extent(), self.where(node) if node is not None else self.here()))

    def here(self):
        f = self.frame
        return "%s (%s)" % (self.modfiles.get(f.mod, f.mod), f.func.name if f.func is not None else "<module>") if f is not None else "?"

    def mkarr(self, axes, term, dtype, alias=frozenset()):
        self.domain(axes)
        return self.alloc(ArrC(axes, self.simp_axes(num(term), axes), dtype, alias))

    def is_arr(self, v):
        if isinstance(v, Arr):
            return True
        if isinstance(v, Ref):
            c = self.s.heap.get(v.loc)
            return isinstance(c, (ArrC, ViewC))
        return False

    def freeze(self, v):
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ArrC):
                return Arr(ArrC(c.axes, c.term, c.dtype, frozenset(self.origins(v))))
            if isinstance(c, ListC) and c.base is None and all(x[0] is TRUE for x in c.tail):
                return Tup([self.freeze(x[1]) for x in c.tail])
            return v
        if isinstance(v, Tup):
            return Tup([self.freeze(x) for x in v.items])
        return v

    def thaw(self, v):
        if isinstance(v, Arr):
            return self.alloc(ArrC(v.c.axes, v.c.term, v.c.dtype, v.c.alias))
        return v

    # ------------------------------------------------------------ joins
    def join_states(self, c, a, b, node=None):
        if a is None:
            return b
        if b is None:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        pre = []
        for x, y in zip(a.pc, b.pc):
            if x is y:
                pre.append(x)
            else:
                break
        pa, pb = and_(*a.pc[len(pre):]), and_(*b.pc[len(pre):])
        rest = or_(pa, pb)
        # ctx: common ancestor
        ctx = common_ctx(a.ctx, b.ctx)
        st = State({}, {}, ctx, tuple(pre) + ((rest,) if rest is not TRUE else ()))
        if rest is not TRUE:
            st.ctx = st.ctx.assume(rest)
        sa, sb = a, b
        out_heap = st.heap
        old = self.s
        self.s = st
        j = Joiner(self, c, a, b, st)
        try:
            for loc in set(a.heap) | set(b.heap):
                ca, cb = a.heap.get(loc), b.heap.get(loc)
                if ca is None:
                    out_heap[loc] = cb
                elif cb is None:
                    out_heap[loc] = ca
                elif ca is cb:
                    out_heap[loc] = ca
            for loc in sorted(set(a.heap) & set(b.heap)):
                if loc not in out_heap:
                    out_heap[loc] = j.content(a.heap[loc], b.heap[loc], loc)
            for fid in set(a.frames) | set(b.frames):
                fa, fb = a.frames.get(fid), b.frames.get(fid)
                if fa is None or fb is None:
                    st.frames[fid] = dict(fa or fb)
                    continue
                d = {}
                for k in list(fa) + [k for k in fb if k not in fa]:
                    va, vb = fa.get(k), fb.get(k)
                    if va is None:
                        d[k] = Undef(c, vb) if not isinstance(vb, Undef) else vb
                    elif vb is None:
                        d[k] = Undef(not_(c), va) if not isinstance(va, Undef) else va
                    else:
                        d[k] = j.value(va, vb)
                st.frames[fid] = d
        finally:
            self.s = old
        return st

    # ------------------------------------------------------------ modules
    def load(self, name):
        """load module by dotted name inside the analysed package; returns Mod or Ext"""
        if name in self.mods:
            return Mod(name)
        base = os.path.join(self.root, *name.split("."))
        path = None
        if os.path.isfile(os.path.join(base, "__init__.py")):
            path, ispkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            path, ispkg = base + ".py", False
        if path is None:
            return None
        # parents first
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return Mod(name)
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.trees[name] = tree
        tree = Strip(self.optimize).visit(ast.parse(src, path))
        if self.scaled:
            for x in ast.walk(tree):
                if isinstance(x, ast.Constant) and type(x.value) is int and x.value >= 6:
                    x.value = 3
        self.modfiles[name] = os.path.relpath(path, os.path.dirname(self.root.rstrip("/")))
        doc = ast.get_docstring(tree, clean=False)
        fid = self.newframe({"__name__": Str(name), "__doc__": NONE if doc is None else Str(doc), "__file__": Str(None)})
        self.mods[name] = fid
        fr = Frame(fid, mod=name)
        fr.ispkg = ispkg
        old, self.frame = self.frame, fr
        self.sinks.append([])
        try:
            self.block(tree.body)
        finally:
            self.frame = old
            raised = self.sinks.pop()
        if self.s is None:
            e = raised[0] if raised else None
            raise AnalysisError("import of %s raises %s" % (name, e[1] if e else "?"))
        if "." in name:
            par, ch = name.rsplit(".", 1)
            if par in self.mods:
                self.s.frames[self.mods[par]].setdefault(ch, Mod(name))
        return Mod(name)

    def keep_kind(self, refs, r):
        """the container r stands for each of refs: it has their class and default factory"""
        for d in (self.subclass, self.np.defaultdicts, self.np.factories):
            k = [d.get(x.loc) if isinstance(x, Ref) else None for x in refs]
            if k[0] is not None:
                if all(x == k[0] for x in k):
                    d[r.loc] = k[0]
                else:
                    self.s.heap[r.loc] = TopC("merged containers of different kind")

    def frame_of_mod(self, name):
        return self.s.frames[self.mods[name]]

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if self.s is None:
                return
            self.stmt(st)

    def stmt(self, n):
        self.visited.add((self.frame.mod, n.lineno))
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            self.unknown.append("statement %s at %s" % (type(n).__name__, self.where(n)))
            self.havoc_stmt(n)
            return
        try:
            m(n)
        except Raised as r:
            if self.s is not None:
                self.sinks[-1].append((self.s, r.exc, r.node or n, r.msg))
            self.s = None
        except Dead:
            self.s = None

    def havoc_stmt(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.setname(x.id, self.top("unmodelled statement", n), n)
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                try:
                    o = self.ev(x.value)
                    self.setattr(o, x.attr, self.top("unmodelled statement", n), n)
                except Raised:
                    pass

    def st_Pass(self, n):
        pass

    def st_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def st_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v, n)

    def st_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value), n)

    def st_AugAssign(self, n):
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id, t)
            v = self.ev(n.value)
            new = self.np.inplace(op, cur, v, n)
            self.setname(t.id, new, n)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, t)
            v = self.ev(n.value)
            new = self.np.inplace(op, cur, v, n)
            self.setattr(o, t.attr, new, n)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.ev_index(t.slice)
            cur = self.np.getitem(o, ix, t)
            v = self.ev(n.value)
            new = self.np.inplace(op, cur, v, n)
            self.np.setitem(o, ix, new, n)

    def st_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.s.frames[self.frame.fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Ref) and isinstance(self.s.heap.get(o.loc), ObjC):
                    c = self.s.heap[o.loc]
                    if t.attr not in c.attrs:
                        raise Raised("AttributeError", n, "del of missing attribute %s" % t.attr)
                    self.touch(o.loc, n)
                    self.s.heap[o.loc] = c.without(t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                ix = self.ev_index(t.slice)
                self.np.delitem(o, ix, n)

    def st_Return(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        self.frame.rets.append((self.s, v))
        self.s = None

    def st_Raise(self, n):
        exc = "Exception"
        if n.exc is None:
            exc = getattr(self.frame, "handling", None) or "Exception"
            raise Raised(exc, n, "re-raise")
        if n.exc is not None:
            e = n.exc
            args = []
            if isinstance(e, ast.Call):
                args = e.args
                e = e.func
            try:
                for a in args:
                    self.ev(a)
            except Raised as r:
                raise
            v = self.ev(e)
            if isinstance(v, Ext):
                exc = v.path.split(".")[-1]
            elif isinstance(v, Cls):
                exc = v.name
                for b in v.mro():
                    for bb in b.bases:
                        if isinstance(bb, Ext):
                            EXC_PARENTS.setdefault(v.name, [bb.path.split(".")[-1]] + EXC_PARENTS.get(bb.path.split(".")[-1], []))
            elif isinstance(v, Ref) and isinstance(self.s.heap.get(v.loc), ObjC):
                exc = self.s.heap[v.loc].cls.name
            elif isinstance(v, ExcV):
                exc = v.name
        raise Raised(exc, n, "explicit raise")

    def st_Assert(self, n):
        v = self.ev(n.test)
        c = self.truth(v, n)
        self.event("assert", n, TRUE, test=c)
        self.may_raise("AssertionError", not_(c), n, "assertion")

    def st_Global(self, n):
        self.frame.globals_ |= set(n.names)

    def st_Nonlocal(self, n):
        self.frame.nonlocals |= set(n.names)

    def st_Import(self, n):
        for a in n.names:
            v = self.import_mod(a.name)
            if a.asname:
                self.setname(a.asname, v, n)
            else:
                self.setname(a.name.split(".")[0], self.import_mod(a.name.split(".")[0]), n)

    def import_mod(self, name):
        if name == self.package or name.startswith(self.package + "."):
            m = self.load(name)
            if m is not None:
                return m
        return Ext(canon_ext(name))

    def st_ImportFrom(self, n):
        mod = n.module or ""
        if n.level:
            base = self.frame.mod.split(".")
            if not getattr(self.frame, "ispkg", False):
                # function-level imports use the module of the function
                ispkg = os.path.basename(self.modfiles[self.frame.mod]) == "__init__.py"
            else:
                ispkg = True
            up = n.level - (1 if ispkg else 0)
            base = base[:len(base) - up] if up else base
            full = ".".join(base + ([mod] if mod else []))
        else:
            full = mod
        for a in n.names:
            if full == self.package or full.startswith(self.package + "."):
                m = self.load(full)
                if m is None:
                    raise Raised("ModuleNotFoundError", n, full)
                if a.name == "*":
                    fr = self.frame_of_mod(full)
                    names = None
                    al = fr.get("__all__")
                    if isinstance(al, Ref):
                        c = self.s.heap[al.loc]
                        if isinstance(c, ListC) and c.base is None:
                            names = [x[1].s for x in c.tail if isinstance(x[1], Str)]
                    if names is None:
                        names = [k for k in fr if not k.startswith("_")]
                    for k in names:
                        if k in fr:
                            self.setname(k, fr[k], n)
                    continue
                fr = self.frame_of_mod(full)
                if a.name in fr:
                    v = fr[a.name]
                else:
                    v = self.load(full + "." + a.name)
                    if v is None:
                        raise Raised("ImportError", n, "%s.%s" % (full, a.name))
            else:
                v = Ext(canon_ext(full + "." + a.name))
            self.setname(a.asname or a.name, v, n)

    def st_FunctionDef(self, n):
        defaults = [self.ev(d) for d in n.args.defaults]
        kwd = {a.arg: self.ev(d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        f = Func(n, self.frame.mod, self.frame.fid, n.name, cls=None, defaults=defaults, kwdefaults=kwd)
        f.dict = self.alloc(DictC(None, ()))
        v = f
        if getattr(self.frame, "isclass", False):
            f.ownercell = self.frame.clscell
            f.fid = self.frame.outer_fid
        for d in reversed(n.decorator_list):
            dv = self.ev(d)
            v = self.call(dv, [v], {}, d)
        self.setname(n.name, v, n)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, n):
        bases = [self.ev(b) for b in n.bases]
        fid = self.newframe({})
        fr = Frame(fid, mod=self.frame.mod)
        fr.isclass = True
        fr.outer_fid = self.frame.fid
        fr.clscell = [None]
        fr.parent = self.frame
        old, self.frame = self.frame, fr
        try:
            self.block(n.body)
        finally:
            self.frame = old
        if self.s is None:
            return
        ns = self.s.frames.pop(fid)
        ref = self.alloc(ObjC(None, ns))
        cls = Cls(n.name, bases, ref.loc, self.frame.mod, n)
        fr.clscell[0] = cls
        v = cls
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {}, d)
        self.setname(n.name, v, n)

    def st_If(self, n):
        v = self.ev(n.test)
        c = self.truth(v, n)
        d = self.decide(c)
        if d is True:
            return self.block(n.body)
        if d is False:
            return self.block(n.orelse)
        s0 = self.s
        self.s = s0.copy().assume(c)
        self.block(n.body)
        sa = self.s
        self.s = s0.copy().assume(not_(c))
        self.block(n.orelse)
        sb = self.s
        self.s = self.join_states(c, sa, sb, n)

    def st_With(self, n):
        for it in n.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.top("context manager", n), n)
        self.block(n.body)

    def st_Try(self, n):
        s0 = self.s.copy()
        self.sinks.append([])
        self.block(n.body)
        raised = self.sinks.pop()
        if self.s is not None and n.orelse:
            self.block(n.orelse)
        results = [self.s]
        pend = []
        for st, exc, node, msg in raised:
            for h in n.handlers:
                if self.matches(h, exc, st):
                    self.s = st
                    oldh = getattr(self.frame, "handling", None)
                    self.frame.handling = exc
                    if h.name:
                        self.setname(h.name, ExcV(exc), h)
                    self.block(h.body)
                    self.frame.handling = oldh
                    results.append(self.s)
                    break
            else:
                pend.append((st, exc, node, msg))
        self.s = self.join_many(results, s0)
        if n.finalbody:
            if self.s is not None:
                self.block(n.finalbody)
            cont = self.s
            for i, (st, exc, node, msg) in enumerate(pend):
                self.s = st
                self.block(n.finalbody)
                pend[i] = (self.s, exc, node, msg)
            self.s = cont
        for p in pend:
            if p[0] is not None:
                self.sinks[-1].append(p)

    st_TryStar = st_Try

    def join_many(self, states, s0):
        """states with disjoint path conditions"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        acc = states[-1]
        for s in reversed(states[:-1]):
            rel = rel_cond(s.pc, s0.pc)
            acc = self.join_states(rel, s, acc)
        return acc

    def matches(self, h, exc, st):
        if h.type is None:
            return True
        old, self.s = self.s, st
        try:
            v = self.ev(h.type)
        finally:
            self.s = old
        vs = v.items if isinstance(v, Tup) else [v]
        for x in vs:
            nm = x.path.split(".")[-1] if isinstance(x, Ext) else getattr(x, "name", "?")
            if nm == exc or nm in ("Exception", "BaseException") or nm in EXC_PARENTS.get(exc, []):
                return True
        return False

    def st_Break(self, n):
        self.frame.loops[-1]["breaks"].append(self.s)
        self.s = None

    def st_Continue(self, n):
        self.frame.loops[-1]["conts"].append(self.s)
        self.s = None

    def st_For(self, n):
        it = self.ev(n.iter)
        from .loops import for_loop
        for_loop(self, n, it)

    def st_While(self, n):
        from .loops import while_loop
        while_loop(self, n)

    # ------------------------------------------------------------ assignment
    def once(self, v):
        """an iterator that is kept in a variable can be used up"""
        if isinstance(v, Seq) and v.tok is None:
            return Seq(v.axis, v.item, v.items, self.alloc(ListC(None, ())).loc, v.gen)
        return v

    def assign(self, t, v, n):
        v = self.once(v)
        if isinstance(t, ast.Name):
            self.setname(t.id, v, n)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v, n)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.ev_index(t.slice)
            self.np.setitem(o, ix, v, n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, k if not star else None, n)
            if items is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.top("unpacking", n), n)
                return
            if star:
                i = star[0]
                after = k - i - 1
                mid = items[i:len(items) - after]
                vals = items[:i] + [self.alloc(ListC(None, [(TRUE, x) for x in mid]))] + (items[len(items) - after:] if after else [])
            else:
                vals = items
                if len(vals) != k:
                    raise Raised("ValueError", n, "unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, n)

    def unpack(self, v, k, n):
        if isinstance(v, Tup):
            return list(v.items)
        d = self.np.iter_desc(v, n)
        if d is None:
            return None
        if d[0] == "conc":
            return d[1]
        ax, item = d[1], d[2]
        if k is not None and ax.plain:
            self.may_raise("ValueError", ne(ax.extent(), num(k)), n, "unpack")
            return [self.np.item_at(item, ax, num(i)) for i in range(k)]
        return None

    # ------------------------------------------------------------ names
    def getname(self, name, node):
        fr = self.frame
        d = self.s.frames.get(fr.fid, {})
        if name in fr.globals_:
            d = self.s.frames[self.mods[fr.mod]]
        if name in d:
            return self.resolve_undef(d[name], name, node)
        # enclosing
        fid = fr.func.fid if fr.func is not None else getattr(fr, "outer_fid", None)
        seen = set()
        while fid is not None and fid not in seen:
            seen.add(fid)
            dd = self.s.frames.get(fid)
            if dd is not None and name in dd:
                return self.resolve_undef(dd[name], name, node)
            fid = self.fparents.get(fid)
        g = self.s.frames[self.mods[fr.mod]]
        if name in g:
            return self.resolve_undef(g[name], name, node)
        if name in BUILTINS:
            return Ext("builtins." + name) if name not in CONSTS else CONSTS[name]
        if name in ("__file__", "__spec__", "__path__", "__loader__", "__package__", "__builtins__", "__annotations__"):
            return self.top(name, node)
        raise Raised("NameError", node, name)

    fparents = {}

    def resolve_undef(self, v, name, node):
        if isinstance(v, Undef):
            if v.a is None:
                raise Raised("UnboundLocalError", node, name)
            self.may_raise("UnboundLocalError", v.c, node, name)
            return v.a
        return v

    def setname(self, name, v, node):
        fr = self.frame
        if name in fr.globals_:
            if self.scenario:
                self.event("globalwrite", node, name=name)
            self.s.frames[self.mods[fr.mod]][name] = v
            return
        if name in fr.nonlocals:
            fid = fr.func.fid
            while fid is not None:
                dd = self.s.frames.get(fid)
                if dd is not None and name in dd:
                    dd[name] = v
                    return
                fid = self.fparents.get(fid)
        self.s.frames[fr.fid][name] = v

    # ------------------------------------------------------------ attributes
    def touch(self, loc, node):
        """record a write to a heap object"""
        if self.scenario and (loc <= self.load_boundary or loc in self.shared):
            self.event("globalwrite", node, name="object created at import time" if loc <= self.load_boundary else "object shared through a cache")
        if self.s is not None and loc in self.caller_locs:
            self.event("callerwrite", node, loc=loc)

    def sync(self, loc, node):
        """a dictionary that is the __dict__ of an object has changed"""
        o = self.objdict.get(loc)
        c = self.s.heap.get(o.loc) if o is not None else None
        if not isinstance(c, ObjC):
            return
        self.touch(o.loc, node)
        d = self.s.heap.get(loc)
        if not isinstance(d, DictC) or d.base is not None or not all(isinstance(k, Str) and k.s is not None for _, k, _ in d.entries):
            self.s.heap[o.loc] = TopC("attributes changed through __dict__")
            return
        self.s.heap[o.loc] = ObjC(c.cls, {k.s: v if cond is TRUE else Undef(not_(cond), v) for cond, k, v in d.entries})

    def class_lookup(self, cls, name):
        for c in cls.mro():
            ns = self.s.heap[c.loc].attrs
            if name in ns:
                return ns[name], c
            for b in c.bases:
                if isinstance(b, Ext) and b.path not in ("builtins.object", "abc.ABC", "typing.Generic"):
                    return Ext("inherited:" + b.path + "." + name), c
        return None, None

    def getattr(self, o, name, node, default=None):
        if isinstance(o, Gated):
            o = self.degate(o)
        if isinstance(o, Ref):
            c = self.s.heap.get(o.loc)
            if isinstance(c, ObjC) and c.cls is not None:
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, Undef):
                        if v.a is None:
                            raise Raised("AttributeError", node, name)
                        self.may_raise("AttributeError", v.c, node, name)
                        return v.a
                    return v
                if name == "__dict__":
                    r = self.alloc(DictC(None, [(not_(v.c) if isinstance(v, Undef) else TRUE, Str(k), v.a if isinstance(v, Undef) else v)
                                                for k, v in c.attrs.items() if not (isinstance(v, Undef) and (v.a is None or v.c is TRUE))]))
                    self.objdict[r.loc] = o
                    return r
                if name == "__class__":
                    return c.cls
                v, _ = self.class_lookup(c.cls, name)
                if v is not None:
                    return self.bind(v, o, c.cls, node)
                ga, _ = self.class_lookup(c.cls, "__getattr__")
                if isinstance(ga, Func):
                    return self.call(Bound(ga, o), [Str(name)], {}, node)
                if hasattr(object, name) or name in ("__module__", "__weakref__", "__annotations__"):
                    return self.top("object." + name, node)
                if default is not None:
                    return default
                raise Raised("AttributeError", node, "no attribute %s" % name)
            if isinstance(c, TopC):
                return self.top("attribute of unknown", node)
            if o.loc in self.subclass:
                v, _ = self.class_lookup(self.subclass[o.loc], name)
                if v is not None and not isinstance(v, Ext):
                    return self.bind(v, o, self.subclass[o.loc], node)
            return self.np.attr(o, name, node)
        if isinstance(o, Mod):
            fr = self.frame_of_mod(o.name)
            if name in fr:
                return fr[name]
            m = self.load(o.name + "." + name)
            if m is not None:
                return m
            if name == "__name__":
                return Str(o.name)
            if name.startswith("__"):
                return self.top("module " + name, node)
            raise Raised("AttributeError", node, "%s.%s" % (o.name, name))
        if isinstance(o, Cls):
            if name == "__name__" or name == "__qualname__":
                return Str(o.name)
            if name == "__doc__":
                return Str(ast.get_docstring(o.node, clean=False)) if ast.get_docstring(o.node, clean=False) else NONE
            v, c = self.class_lookup(o, name)
            if v is None and name == "__new__":
                return Ext("builtins.object.__new__")
            if v is None:
                if hasattr(type, name) or name in ("__module__", "__annotations__"):
                    return self.top("class." + name, node)
                if default is not None:
                    return default
                raise Raised("AttributeError", node, name)
            if isinstance(v, Wrapped):
                if v.kind == "staticmethod":
                    return v.fn
                if v.kind == "classmethod":
                    return Bound(v.fn, o)
            return v
        if isinstance(o, Super):
            mro = o.self_cls.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                ns = self.s.heap[c.loc].attrs
                if name in ns:
                    return self.bind(ns[name], o.self_, o.self_cls, node)
                for b in c.bases:
                    pass
            if name in ("__init__", "__init_subclass__", "__new__", "__setattr__"):
                return Ext("object." + name)
            if hasattr(object, name) or any(isinstance(b, Ext) for c in mro[i:] for b in c.bases):
                return self.top("super." + name, node)
            raise Raised("AttributeError", node, "super has no %s" % name)
        if isinstance(o, Func):
            d = getattr(o, "dict", None)
            fc = self.s.heap.get(d.loc) if d is not None else None
            if name == "__dict__" and fc is not None:
                return d
            if isinstance(fc, DictC):
                alts, none = self.np.dict_find(fc, Str(name))
                if self.decide(none) is False or alts and name.startswith("__"):
                    return self.np.dict_get(fc, Str(name), node, default=NONE)
                if not name.startswith("__"):
                    if default is not None:
                        return self.np.dict_get(fc, Str(name), node, default=default)
                    if self.decide(none) is None:
                        self.may_raise("AttributeError", none, node, "function has no attribute %s" % name)
                        return self.np.dict_get(fc, Str(name), node, default=NONE)
                    raise Raised("AttributeError", node, "function has no attribute %s" % name)
            if name == "__doc__":
                d = ast.get_docstring(o.node, clean=False) if not isinstance(o.node, ast.Lambda) else None
                return Str(d) if d is not None else NONE
            if name in ("__name__", "__qualname__"):
                return Str(o.name)
            return self.top("function attribute " + name, node)
        if isinstance(o, Bound) and name == "__func__":
            return o.fn
        return self.np.attr(o, name, node)

    def bind(self, v, o, cls, node):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Wrapped):
            if v.kind == "staticmethod":
                return v.fn
            if v.kind == "classmethod":
                return Bound(v.fn, cls)
            if v.kind == "property":
                return self.call(Bound(v.fn, o), [], {}, node)
        return v

    def setattr(self, o, name, v, node):
        if isinstance(o, Gated):
            o = self.degate(o)
        if isinstance(o, Ref):
            c = self.s.heap.get(o.loc)
            if isinstance(c, ObjC) and c.cls is not None:
                w, _ = self.class_lookup(c.cls, name)
                if isinstance(w, Wrapped) and w.kind == "property":
                    if getattr(w, "setter", None) is not None:
                        self.call(Bound(w.setter, o), [v], {}, node)
                        return
                    raise Raised("AttributeError", node, "no setter")
                sa, _ = self.class_lookup(c.cls, "__setattr__")
                if isinstance(sa, Func) and not getattr(self, "_in_setattr", False):
                    self._in_setattr = True
                    try:
                        self.call(Bound(sa, o), [Str(name), v], {}, node)
                    finally:
                        self._in_setattr = False
                    return
                self.touch(o.loc, node)
                self.s.heap[o.loc] = c.with_(name, v)
                return
            if isinstance(c, (ArrC, ViewC)):
                if name == "shape" or name == "dtype":
                    self.np.havoc_arr(o, node)
                return
            return
        if isinstance(o, Cls):
            if self.scenario:
                self.event("globalwrite", node, name="%s.%s" % (o.name, name))
            c = self.s.heap[o.loc]
            self.s.heap[o.loc] = c.with_(name, v)
            return
        if isinstance(o, Mod):
            if self.scenario:
                self.event("globalwrite", node, name="%s.%s" % (o.name, name))
            self.frame_of_mod(o.name)[name] = v
            return
        if isinstance(o, Func):
            if self.scenario:
                self.event("globalwrite", node, name="%s.%s" % (o.name, name))
            if getattr(o, "dict", None) is not None and o.dict.loc in self.s.heap:
                self.np.dict_store(o.dict, Str(name), v, node)
            return
        if isinstance(o, Ext):
            self.event("extwrite", node, name="%s.%s" % (o.path, name))
            return
        if isinstance(o, Top):
            return
        return

    def degate(self, g):
        d = self.decide(g.c)
        if d is True:
            return g.a if not isinstance(g.a, Gated) else self.degate(g.a)
        if d is False:
            return g.b if not isinstance(g.b, Gated) else self.degate(g.b)
        return g

    # ------------------------------------------------------------ truth
    def truth(self, v, node):
        """condition node for the truth value"""
        if isinstance(v, Gated):
            v = self.degate(v)
            if isinstance(v, Gated):
                return bite(v.c, self.truth(v.a, node), self.truth(v.b, node))
        if isinstance(v, Num):
            return self.simp(as_cond(v.t))
        if v is NONE:
            return FALSE
        if isinstance(v, Str):
            return TRUE if v.s or v.s is None else FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Ref) or isinstance(v, Arr):
            c = self.content(v)
            if isinstance(c, ArrC):
                n = mul(*c.shape()) if c.axes else ONE
                if not c.axes:
                    return as_cond(c.term)
                one = self.decide(eq(n, ONE))
                if one is True:
                    return self.simp(as_cond(c.at([ZERO] * len(c.allvars()))))
                self.may_raise("ValueError", gt(n, ONE), node, "truth value of an array")
                return as_cond(c.at([ZERO] * len(c.allvars())))
            if isinstance(c, ListC):
                return self.simp(gt(self.np.list_len(c), ZERO))
            if isinstance(c, DictC):
                return self.simp(gt(self.np.dict_len(c), ZERO))
            if isinstance(c, ObjC):
                b, _ = self.class_lookup(c.cls, "__bool__") if c.cls else (None, None)
                if isinstance(b, Func):
                    return self.truth(self.call(Bound(b, v), [], {}, node), node)
                b, _ = self.class_lookup(c.cls, "__len__") if c.cls else (None, None)
                if isinstance(b, Func):
                    return self.truth(self.call(Bound(b, v), [], {}, node), node)
                return TRUE
        if isinstance(v, Rng):
            return lt(v.lo, v.hi)
        if isinstance(v, Top):
            return N_("truth", top(v.reason))
        if isinstance(v, Seq):
            return TRUE
        return TRUE

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        self.work += 1
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            return self.top("expression %s" % type(n).__name__, n)
        return m(n)

    def ev_index(self, n):
        return self.ev(n)

    def ex_Constant(self, n):
        return const(n.value)

    def ex_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value)
                if isinstance(x, Num) and x.k == "pyint" and isnum(x.t) and v.format_spec is None:
                    parts.append(str(int(x.t.args[0])))
                else:
                    parts.append(x.s if isinstance(x, Str) and v.format_spec is None else None)
            else:
                parts.append(v.value if isinstance(v, ast.Constant) and isinstance(v.value, str) else None)
        return Str(None if None in parts else "".join(parts))

    def ex_Name(self, n):
        return self.getname(n.id, n)

    def ex_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr, n)

    def ex_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def ex_Tuple(self, n):
        return Tup(self.elts(n.elts, n))

    def ex_List(self, n):
        return self.alloc(ListC(None, [(TRUE, x) for x in self.elts(n.elts, n)]))

    def elts(self, es, n):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                items = self.unpack(self.ev(e.value), None, n)
                if items is None:
                    raise Raised("TOP", n, "star of unknown")
                out += items
            else:
                out.append(self.ev(e))
        return out

    def ex_Set(self, n):
        r = self.alloc(DictC(None, [], True))
        for e in n.elts:
            self.np.dict_store(r, self.ev(e), NONE, n)
        return r

    def ex_Dict(self, n):
        r = self.alloc(DictC(None, []))
        for k, v in zip(n.keys, n.values):
            if k is None:
                return self.top("dict unpack", n)
            self.np.dict_store(r, self.ev(k), self.ev(v), n)
        return r

    def ex_Slice(self, n):
        f = lambda x: self.ev(x) if x is not None else NONE
        return Slc(f(n.lower), f(n.upper), f(n.step))

    def ex_Index(self, n):
        return self.ev(n.value)

    def ex_Subscript(self, n):
        o = self.ev(n.value)
        ix = self.ev_index(n.slice)
        return self.np.getitem(o, ix, n)

    def ex_Starred(self, n):
        return self.top("starred", n)

    def ex_UnaryOp(self, n):
        v = self.ev(n.operand)
        op = type(n.op).__name__
        if op == "Not":
            return B(not_(self.truth(v, n)))
        return self.np.unary(op, v, n)

    def ex_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.np.binop(type(n.op).__name__, a, b, n)

    def ex_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0])
        for e in n.values[1:]:
            c = self.truth(v, n)
            d = self.decide(c)
            if d is not None:
                if d is isand:
                    v = self.ev(e)
                    continue
                return v
            s0 = self.s
            self.s = s0.copy().assume(c if isand else not_(c))
            try:
                w = self.ev(e)
            except Raised as r:
                if len(self.sinks) > 1:
                    self.sinks[-1].append((self.s, r.exc, r.node or n, r.msg))
                else:
                    self.event("mayraise", r.node or n, TRUE, exc=r.exc, msg=r.msg)
                self.s = s0
                self.s.assume(not_(c) if isand else c)
                return v
            s1 = self.s
            other = s0.copy().assume(not_(c) if isand else c)
            sel = c if isand else not_(c)
            bothbool = isinstance(v, Num) and isinstance(w, Num) and v.k in BOOLK and w.k in BOOLK
            st, vals = self.join_with(sel, s1, other, [w if not bothbool else NONE], [v if not bothbool else NONE])
            self.s = st
            if bothbool:
                cw = as_cond(w.t)
                v = Num(and_(c, cw) if isand else or_(c, cw), join_kind(v.k, w.k))
            else:
                v = vals[0]
        return v

    def join_with(self, c, a, b, va, vb):
        """join states carrying extra values"""
        fid = None
        self.nfid += 1
        fid = self.nfid
        a.frames[fid] = {str(i): x for i, x in enumerate(va)}
        b.frames[fid] = {str(i): x for i, x in enumerate(vb)}
        st = self.join_states(c, a, b)
        d = st.frames.pop(fid)
        a.frames.pop(fid, None)
        b.frames.pop(fid, None)
        return st, [d[str(i)] for i in range(len(va))]

    def ex_IfExp(self, n):
        c = self.truth(self.ev(n.test), n)
        d = self.decide(c)
        if d is True:
            return self.ev(n.body)
        if d is False:
            return self.ev(n.orelse)
        s0 = self.s
        res = []
        for br, cc in ((n.body, c), (n.orelse, not_(c))):
            self.s = s0.copy().assume(cc)
            try:
                v = self.ev(br)
                res.append((self.s, v))
            except Raised as r:
                self.sinks[-1].append((self.s, r.exc, r.node or n, r.msg))
                res.append((None, None))
        (sa, va), (sb, vb) = res
        if sa is None and sb is None:
            self.s = None
            raise Dead()
        if sa is None:
            self.s = sb
            return vb
        if sb is None:
            self.s = sa
            return va
        st, vals = self.join_with(c, sa, sb, [va], [vb])
        self.s = st
        return vals[0]

    def ex_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            v = self.np.compare(type(op).__name__, left, right, n)
            if res is None:
                res = v
            else:
                res = B(and_(self.truth(res, n), self.truth(v, n)))
            left = right
        return res

    def ex_Lambda(self, n):
        defaults = [self.ev(d) for d in n.args.defaults]
        return Func(n, self.frame.mod, self.frame.fid, "<lambda>", defaults=defaults)

    def ex_ListComp(self, n):
        from .loops import comprehension
        return comprehension(self, n, "list")

    def ex_GeneratorExp(self, n):
        from .loops import comprehension
        return comprehension(self, n, "gen")

    def ex_SetComp(self, n):
        return self.top("set comprehension", n)

    def ex_DictComp(self, n):
        from .loops import comprehension
        return comprehension(self, n, "dict")

    def ex_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in self.s.frames.get(self.frame.fid, {}):
            return self.make_super(n)
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                items = self.unpack(self.ev(a.value), None, n)
                if items is None:
                    return self.top("star argument", n)
                args += items
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.s.heap.get(v.loc), DictC):
                    for c, kk, vv in self.s.heap[v.loc].entries:
                        if isinstance(kk, Str):
                            kw[kk.s] = vv
                    continue
                return self.top("** argument", n)
            kw[k.arg] = v
        return self.call(f, args, kw, n)

    def make_super(self, n):
        if n.args:
            c = self.ev(n.args[0])
            o = self.ev(n.args[1]) if len(n.args) > 1 else self.frame.self_
        else:
            fn = self.frame.func
            f = self.frame
            cell = getattr(fn, "ownercell", None)
            c = cell[0] if cell else None
            o = f.self_
        sp = Super(c, o)
        if isinstance(o, Ref):
            sp.self_cls = self.s.heap[o.loc].cls
        elif isinstance(o, Cls):
            sp.self_cls = o
        else:
            raise Raised("RuntimeError", n, "super")
        return sp

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        if isinstance(f, Gated):
            f = self.degate(f)
        if isinstance(f, Bound):
            if isinstance(f.fn, (Func,)):
                return self.call_func(f.fn, [f.self_] + list(args), kw, node, self_=f.self_)
            return self.call(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Ext):
            return self.np.call_ext(f.path, args, kw, node)
        if isinstance(f, Meth):
            return self.np.call_meth(f.recv, f.name, args, kw, node)
        if isinstance(f, Wrapped):
            if f.kind == "partial":
                k2 = dict(f.kw)
                k2.update(kw)
                return self.call(f.fn, list(f.args) + list(args), k2, node)
            return self.call(f.fn, args, kw, node)
        if isinstance(f, Ref):
            c = self.s.heap.get(f.loc)
            if isinstance(c, ObjC) and c.cls is not None:
                m, _ = self.class_lookup(c.cls, "__call__")
                if isinstance(m, Func):
                    return self.call_func(m, [f] + list(args), kw, node, self_=f)
        if isinstance(f, Top):
            self.havoc_args(args, kw, node, f.reason)
            return self.top("call of unknown", node)
        if isinstance(f, Dtype):
            return self.np.call_ext({"f8": "numpy.float64", "i8": "numpy.int64", "bool": "numpy.bool_"}.get(f.d, "?"), args, kw, node)
        return self.top("call", node)

    def havoc_args(self, args, kw, node, why):
        """an unknown function may change any mutable object it can reach"""
        seen = set()

        def go(v):
            if isinstance(v, Ref):
                loc = self.root_loc(v.loc)
                if loc in seen:
                    return
                seen.add(loc)
                c = self.s.heap.get(loc)
                if isinstance(c, ArrC):
                    self.s.heap[loc] = ArrC(c.axes, top("passed to unknown code (%s)" % why), c.dtype, c.alias)
                elif isinstance(c, (ListC, DictC)):
                    self.s.heap[loc] = TopC(why)
                elif isinstance(c, ObjC) and c.cls is not None:
                    for x in c.attrs.values():
                        go(x)
                    self.s.heap[loc] = ObjC(c.cls, {k: (self.top("passed to unknown code") if not isinstance(x, Ref) else x) for k, x in c.attrs.items()})
            elif isinstance(v, Tup):
                for x in v.items:
                    go(x)
            elif isinstance(v, Bound):
                go(v.self_)
        for v in list(args) + list(kw.values()):
            go(v)

    def instantiate(self, cls, args, kw, node):
        for c in cls.mro():
            for b in c.bases:
                if isinstance(b, Ext) and b.path.startswith("builtins.") and (b.path[9:] in EXC_PARENTS or b.path[9:] in ("Exception", "BaseException")):
                    e = ExcV(cls.name)
                    EXC_PARENTS.setdefault(cls.name, [b.path[9:]] + EXC_PARENTS.get(b.path[9:], []))
                    return e
        if any(isinstance(b, Ext) and b.path == "abc.ABC" for c in cls.mro() for b in c.bases) or \
                any(k.arg == "metaclass" and ast.unparse(k.value).endswith("ABCMeta") for c in cls.mro() for k in c.node.keywords):
            for nm in {a for c in cls.mro() for a in self.s.heap[c.loc].attrs}:
                m, _ = self.class_lookup(cls, nm)
                m = m.fn if isinstance(m, Wrapped) and m.kind != "partial" else m
                if isinstance(m, Func) and "abstract" in m.flags:
                    raise Raised("TypeError", node, "abstract method %s.%s" % (cls.name, nm))
        init, _ = self.class_lookup(cls, "__init__")
        if isinstance(init, Ext) and init.path.startswith(("inherited:builtins.list", "inherited:builtins.dict")) and not any(
                n.startswith("__") and n not in ("__doc__", "__module__", "__qualname__", "__slots__", "__repr__", "__str__") + (
                    ("__missing__",) if init.path.startswith("inherited:builtins.dict") else ()) for c in cls.mro() for n in self.s.heap[c.loc].attrs):
            # a list or dict with extra methods
            o = self.np.call_ext("builtins." + init.path.split(".")[1], args, kw, node)
            if isinstance(o, Ref):
                self.subclass[o.loc] = cls
            return o
        new, _ = self.class_lookup(cls, "__new__")
        if isinstance(new, Wrapped) and new.kind == "staticmethod":
            new = new.fn
        if isinstance(new, Func):
            o = self.call_func(new, [cls] + list(args), kw, node)
            if isinstance(o, Gated):
                o = self.degate(o)
            if not isinstance(o, Ref) or not isinstance(self.s.heap.get(o.loc), ObjC):
                return o if isinstance(o, Top) else self.top("result of __new__", node)
            if cls not in self.s.heap[o.loc].cls.mro():
                return o
        else:
            o = self.alloc(ObjC(cls, {}))
        if isinstance(init, Func):
            self.call_func(init, [o] + list(args), kw, node, self_=o)
        else:
            if isinstance(init, Ext):
                return self.top("instance of external base", node)
            if args or kw:
                if not any("dataclass" in getattr(c, "flags", ()) for c in cls.mro()):
                    raise Raised("TypeError", node, "%s() takes no arguments" % cls.name)
                return self.dataclass_init(cls, o, args, kw, node)
            if any("dataclass" in getattr(c, "flags", ()) for c in cls.mro()):
                return self.dataclass_init(cls, o, args, kw, node)
        return o

    def dataclass_init(self, cls, o, args, kw, node):
        fields = []
        for c in reversed(cls.mro()):
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    fields.append((st.target.id, st.value, c))
        attrs = {}
        args = list(args)
        for nm, dv, c in fields:
            if args:
                v = args.pop(0)
            elif nm in kw:
                v = kw[nm]
            elif dv is not None:
                if isinstance(dv, ast.Call) and getattr(dv.func, "id", getattr(dv.func, "attr", "")) == "field":
                    v = self.top("dataclass field", node)
                    for k in dv.keywords:
                        if k.arg == "default_factory":
                            v = self.call(self.ev_in_mod(c.mod, k.value), [], {}, node)
                        if k.arg == "default":
                            v = self.ev_in_mod(c.mod, k.value)
                else:
                    v = self.ev_in_mod(c.mod, dv)
            else:
                raise Raised("TypeError", node, "missing field " + nm)
            attrs[nm] = v
        self.s.heap[o.loc] = ObjC(cls, attrs)
        pi, _ = self.class_lookup(cls, "__post_init__")
        if isinstance(pi, Func):
            self.call_func(pi, [o], {}, node, self_=o)
        return o

    def ev_in_mod(self, mod, e):
        fr = Frame(self.mods[mod], mod=mod)
        old, self.frame = self.frame, fr
        try:
            return self.ev(e)
        finally:
            self.frame = old

    def call_func(self, f, args, kw, node, self_=None):
        if self.depth > sys_limit:
            return self.top("recursion depth", node)
        if "cached" in f.flags and self.scenario:
            for v in list(args) + list(kw.values()):
                if isinstance(v, Ref):
                    c = self.s.heap.get(v.loc)
                    if isinstance(c, (ArrC, ViewC, ListC, DictC)):
                        raise Raised("TypeError", node, "unhashable argument of a cached function")
                    self.event("globalwrite", node, name="cache of %s, keyed by an object" % f.name)
                    return self.top("result of a cached method", node)
            v = self.call_body(f, args, kw, node, self_)
            self.share(v)
            return v
        return self.call_body(f, args, kw, node, self_)

    def share(self, v):
        """a mutable object every caller of a cached function gets"""
        if isinstance(v, Ref):
            self.shared.add(v.loc)
        elif isinstance(v, Tup):
            for x in v.items:
                self.share(x)
        elif isinstance(v, Gated):
            self.share(v.a)
            self.share(v.b)

    def call_body(self, f, args, kw, node, self_=None):
        a = f.node.args
        params = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        d = {}
        args = list(args)
        n = len(params)
        for p, v in zip(params, args):
            d[p] = self.once(v)
        extra = args[n:]
        if extra and a.vararg is None:
            raise Raised("TypeError", node, "too many arguments for %s" % f.name)
        if a.vararg is not None:
            d[a.vararg.arg] = Tup(extra)
        rest = {}
        for k, v in kw.items():
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    raise Raised("TypeError", node, "multiple values for %s" % k)
                d[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise Raised("TypeError", node, "unexpected keyword %s for %s" % (sorted(rest), f.name))
        if a.kwarg is not None:
            r = self.alloc(DictC(None, [(TRUE, Str(k), v) for k, v in rest.items()]))
            d[a.kwarg.arg] = r
        nd = len(f.defaults)
        for p, v in zip(params[n - nd:], f.defaults):
            d.setdefault(p, v)
        for k in a.kwonlyargs:
            if k.arg not in d:
                if k.arg in f.kwdefaults:
                    d[k.arg] = f.kwdefaults[k.arg]
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in d:
                raise Raised("TypeError", node, "missing argument %s of %s" % (p, f.name))
        self.calls_analysed.add((f.mod, f.name, f.node.lineno))
        if not isinstance(f.node, ast.Lambda) and is_generator(f.node):
            return self.call_generator(f, d, node)
        fid = self.newframe(d)
        self.fparents[fid] = f.fid
        fr = Frame(fid, func=f, self_=self_ if self_ is not None else (args[0] if args else None), mod=f.mod, parent=self.frame)
        old, self.frame = self.frame, fr
        s_entry_pc = self.s.pc
        nsink0 = len(self.sinks[-1]) if self.sinks else 0
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                return v
            self.block(f.node.body)
        finally:
            self.frame = old
            self.depth -= 1
        outs = list(fr.rets)
        if self.s is not None:
            outs.append((self.s, NONE))
        if not outs:
            self.s = None
            raise Dead()
        st, v = outs[-1]
        for s1, v1 in reversed(outs[:-1]):
            rel = rel_cond(s1.pc, s_entry_pc)
            st, vals = self.join_with(rel, s1, st, [v1], [v])
            v = vals[0]
        # when every path came back, the path condition is that of the entry
        if len(outs) > 1 and len(self.sinks[-1] if self.sinks else []) == nsink0:
            st.pc = s_entry_pc
        self.s = st
        if not self.closure_escapes(v, fid):
            self.s.frames.pop(fid, None)
        return v

    def closure_escapes(self, v, fid):
        if isinstance(v, Func):
            return True
        if isinstance(v, Tup):
            return any(self.closure_escapes(x, fid) for x in v.items)
        if isinstance(v, Wrapped):
            return True
        return False

    def call_generator(self, f, d, node):
        """generator whose body is a single for loop with one yield: treat as a generator expression"""
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        from .loops import generator_value
        fid = self.newframe(d)
        self.fparents[fid] = f.fid
        fr = Frame(fid, func=f, self_=None, mod=f.mod, parent=self.frame)
        old, self.frame = self.frame, fr
        try:
            return generator_value(self, body, node)
        finally:
            self.frame = old


class ExcV(V):
    def __init__(self, name):
        self.name = name


class Wrapped(V):
    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class Joiner:
    def __init__(self, I, c, a, b, st):
        self.I, self.c, self.a, self.b, self.st = I, c, a, b, st
        self.memo = {}

    def value(self, x, y):
        if x is y or x == y:
            return x
        c = self.c
        if isinstance(x, Undef) or isinstance(y, Undef):
            ax = x.a if isinstance(x, Undef) else x
            ay = y.a if isinstance(y, Undef) else y
            cx = x.c if isinstance(x, Undef) else FALSE
            cy = y.c if isinstance(y, Undef) else FALSE
            v = ay if ax is None else ax if ay is None else self.value(ax, ay)
            return Undef(bite(c, cx, cy), v)
        if isinstance(x, Num) and isinstance(y, Num):
            return Num(vite(c, x.t, y.t), join_kind(x.k, y.k))
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.value(p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, Top) or isinstance(y, Top):
            return x if isinstance(x, Top) else y
        if isinstance(x, Arr) and isinstance(y, Arr):
            cc = self.arr(x.c, y.c)
            return Arr(cc) if cc is not None else Gated(c, x, y)
        if isinstance(x, (Ref,)) and isinstance(y, (Ref,)):
            key = (x.loc, y.loc)
            if key in self.memo:
                return self.memo[key]
            cx = self.cont(self.a, x)
            cy = self.cont(self.b, y)
            r = None
            if isinstance(cx, ArrC) and isinstance(cy, ArrC):
                cc = self.arr(cx, cy)
                if cc is not None:
                    al = self.orig(self.a, x) | self.orig(self.b, y)
                    r = self.I.alloc(ArrC(cc.axes, cc.term, cc.dtype, frozenset(al)))
            elif isinstance(cx, ListC) and isinstance(cy, ListC):
                cc = self.lists(cx, cy)
                if cc is not None:
                    r = self.I.alloc(cc)
                    self.I.keep_kind((x, y), r)
            elif isinstance(cx, DictC) and isinstance(cy, DictC):
                cc = self.dicts(cx, cy)
                if cc is not None:
                    r = self.I.alloc(cc)
                    self.I.keep_kind((x, y), r)
            elif isinstance(cx, ObjC) and isinstance(cy, ObjC) and cx.cls is cy.cls:
                cc = self.objs(cx, cy)
                r = self.I.alloc(cc)
            if r is None:
                r = Gated(c, x, y)
            self.memo[key] = r
            return r
        if isinstance(x, Rng) and isinstance(y, Rng):
            return Rng(ite(c, x.lo, y.lo), ite(c, x.hi, y.hi), ite(c, x.step, y.step))
        return Gated(c, x, y)

    def cont(self, st, v):
        old, self.I.s = self.I.s, st
        try:
            return self.I.content(v)
        finally:
            self.I.s = old

    def orig(self, st, v):
        old, self.I.s = self.I.s, st
        try:
            return self.I.origins(v)
        finally:
            self.I.s = old

    def content(self, x, y, loc):
        if x == y:
            return x
        if isinstance(x, ArrC) and isinstance(y, ArrC):
            cc = self.arr(x, y)
            return cc if cc is not None else TopC("merged arrays of different shape")
        if isinstance(x, ListC) and isinstance(y, ListC):
            cc = self.lists(x, y)
            return cc if cc is not None else TopC("merged lists of different shape")
        if isinstance(x, DictC) and isinstance(y, DictC):
            cc = self.dicts(x, y)
            return cc if cc is not None else TopC("merged dicts")
        if isinstance(x, ObjC) and isinstance(y, ObjC) and x.cls is y.cls:
            return self.objs(x, y)
        return TopC("merged objects of different kind")

    def objs(self, x, y):
        d = {}
        for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
            va, vb = x.attrs.get(k), y.attrs.get(k)
            if va is None:
                d[k] = Undef(self.c, vb) if not isinstance(vb, Undef) else vb
            elif vb is None:
                d[k] = Undef(not_(self.c), va) if not isinstance(va, Undef) else va
            else:
                d[k] = self.value(va, vb)
        return ObjC(x.cls, d)

    def arr(self, x, y):
        if len(x.axes) != len(y.axes):
            return None
        axes = []
        m = {}
        for a, b in zip(x.axes, y.axes):
            if axis_same(a, b):
                axes.append(a)
                m.update(zip(b.vars, a.vars))
            elif a.plain and b.plain:
                e = ite(self.c, a.his[0], b.his[0])
                d = self.st.ctx.decide(eq(a.his[0], b.his[0]))
                if d is True:
                    e = a.his[0]
                ax = Axis(a.vars, (e,))
                axes.append(ax)
                m.update(zip(b.vars, a.vars))
            else:
                return None
        ty = subst(y.term, m)
        dt = join_dtype(x.dtype, y.dtype)
        return ArrC(axes, vite(self.c, x.term, ty), dt, x.alias | y.alias)

    def lists(self, x, y):
        if x.base is y.base or (x.base is not None and y.base is not None and isinstance(x.base, tuple) and isinstance(y.base, tuple) and axis_same(x.base[0], y.base[0])):
            base = x.base
            if x.base is not y.base:
                m = dict(zip(y.base[0].vars, x.base[0].vars))
                base = (x.base[0], self.value(x.base[1], vsubst(y.base[1], m)))
            if len(x.tail) == len(y.tail):
                return ListC(base, [(bite(self.c, p[0], q[0]), self.value(p[1], q[1])) for p, q in zip(x.tail, y.tail)])
            n = min(len(x.tail), len(y.tail))
            out = []
            for p, q in zip(x.tail[:n], y.tail[:n]):
                out.append((bite(self.c, p[0], q[0]), self.value(p[1], q[1])))
            for p in x.tail[n:]:
                out.append((and_(self.c, p[0]), p[1]))
            for q in y.tail[n:]:
                out.append((and_(not_(self.c), q[0]), q[1]))
            return ListC(base, out)
        return None

    def dicts(self, x, y):
        if x.base is y.base:
            base = x.base
        elif x.base is not None and y.base is not None and axis_same(x.base[0], y.base[0]):
            m = dict(zip(y.base[0].vars, x.base[0].vars))
            k2 = vsubst(y.base[1], m)
            if k2 != x.base[1]:
                return None
            base = (x.base[0], x.base[1], self.value(x.base[2], vsubst(y.base[2], m)))
        else:
            return None
        out = []
        ye = list(y.entries)
        for c, k, v in x.entries:
            for i, (c2, k2, v2) in enumerate(ye):
                if k2 == k:
                    out.append((bite(self.c, c, c2), k, self.value(v, v2)))
                    del ye[i]
                    break
            else:
                out.append((and_(self.c, c), k, v))
        for c2, k2, v2 in ye:
            out.append((and_(not_(self.c), c2), k2, v2))
        return DictC(base, out, x.isset)


def common_ctx(a, b):
    xs = []
    x = a
    while x is not None:
        xs.append(id(x))
        x = x.parent
    xs = set(xs)
    y = b
    while y is not None:
        if id(y) in xs:
            return y
        y = y.parent
    return Ctx()


def rel_cond(pc, base):
    n = 0
    for x, y in zip(pc, base):
        if x is y:
            n += 1
        else:
            break
    return and_(*pc[n:])


def is_generator(fn):
    for x in walk_own(fn):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(fn):
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.append(c)


def const(x):
    if x is None:
        return NONE
    if x is True or x is False:
        return B(TRUE if x else FALSE)
    if isinstance(x, int):
        return Num(num(x), "pyint")
    if isinstance(x, float):
        return Num(num(x), "pyfloat")
    if isinstance(x, str):
        return Str(x)
    if x is Ellipsis:
        return ELL
    return Top("constant")


def canon_ext(p):
    if p == "np" or p.startswith("np."):
        p = "numpy" + p[2:]
    return p


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
CONSTS = {"True": B(TRUE), "False": B(FALSE), "None": NONE, "Ellipsis": ELL}


def _simp_in(self, t, s):
    old, self.s = self.s, s
    try:
        return self.simp(t)
    finally:
        self.s = old


Interp.simp_in = _simp_in
