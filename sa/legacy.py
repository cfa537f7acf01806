"""Scenarios of the legacy indices (cvi.compat): update(x, c_i) with clusters numbered in order of appearance."""
from .scen import *
from .scen import NODE
from .terms import N_


class LegacyScen(ClassScen):
    """tags: A = every sample so far opened a cluster, B = some cluster has several samples"""

    def __init__(self, S, name):
        ClassScen.__init__(self, S, name, "cvi.compat." + name)
        self.tags = ("A", "B")

    def next_tag(self, k, n):
        t = "A" if k == n else "B"
        return t + "1" if k == 1 and t + "1" in self.tags else t

    def upd(self, o, x, c):
        I = self.S.I
        return I.call(I.getattr(o, "update", NODE), [x, c], {}, NODE)

    def prefix(self, labels):
        o = self._start()
        I = self.S.I
        for t, c in enumerate(labels):
            x = self.S.sample("h", num(t))
            self.upd(o, x, Num(num(c), "pyint"))
            if I.s is None:
                raise Dead()
        return o, I.s

    def s_first(self):
        o = self._start()
        x = self.S.sample("x")
        r = self.S.call("first", lambda: self.upd(o, x, Num(ZERO, "pyint")), [x])
        r.obj, r.tag = o, "new"
        return r

    RUNS = {"A": [[0], [0, 1], [0, 1, 2], [0, 1, 2, 3]],
            "B": [[0, 0], [0, 0, 0, 0], [0, 1, 1], [0, 1, 1, 0, 1], [0, 1, 2, 0], [0, 1, 2, 2, 1, 1, 0, 2]],
            "A1": [[0]], "B1": [[0, 0], [0, 0, 0], [0, 0, 0, 0, 0]]}

    def g_(self, tag):
        runs = self.RUNS[tag]
        if tag + "1" in self.tags:
            runs = [r for r in runs if len(set(r)) > 1]
        return self.generalise(runs, tag, None)

    def generalise(self, runs, tag, kfix):
        states, vs, pts = [], [], []
        for labs in runs:
            o, st = self.prefix(labs)
            states.append(st)
            vs.append(o)
            pts.append((len(set(labs)), len(labs)))
        self.S.reset()
        I = self.S.I
        I.s.ctx = I.s.ctx.assume(le(ONE, DIM), le(ONE, K), eq(K, NS) if tag[0] == "A" else lt(K, NS))
        if tag.endswith("1"):
            I.s.ctx = I.s.ctx.assume(eq(K, ONE))
        elif tag + "1" in self.tags:
            I.s.ctx = I.s.ctx.assume(le(num(2), K))
        g = Generalise(self.S, pts, states, tag, kfix)
        g.loose = self.loose
        o = g.go(vs, "")
        g.obj, g.state = o, I.s
        self.gen[tag] = g

    def inc(self):
        for g in self.tags:
            self.try_(g, lambda g=g: self.g_(g))
        if not all(g in self.gen for g in self.tags) and len(self.tags) == 2:
            # no common form: states with one cluster are kept apart
            self.tags = ("A1", "B1", "A", "B")
            self.gen.clear()
            for g in self.tags:
                self.errors.pop(g, None)
                self.try_(g, lambda g=g: self.g_(g))
        for nm in ("known", "new", "skip"):
            for g in self.tags:
                if g in self.gen:
                    self.try_("%s.%s" % (nm, g), lambda nm=nm, g=g: self.s_step(nm, g))

    def s_step(self, kind, tag):
        o = self.enter(tag)
        I = self.S.I
        x = self.S.sample("x")
        if kind == "known":
            I.s.ctx = I.s.ctx.assume(le(ZERO, L), lt(L, K))
            c = L
        elif kind == "new":
            c = K
        else:
            c = sym("cskip", "int")
            I.s.ctx = I.s.ctx.assume(lt(K, c))
        r = self.S.call("%s.%s" % (kind, tag), lambda: self.upd(o, x, Num(c, "pyint")), [x])
        r.obj, r.tag = o, tag
        return r

    def s_skip0(self):
        o = self._start()
        x = self.S.sample("x")
        I = self.S.I
        c = sym("cskip", "int")
        I.s.ctx = I.s.ctx.assume(lt(ZERO, c))
        r = self.S.call("skip.new", lambda: self.upd(o, x, Num(c, "pyint")), [x])
        r.obj, r.tag = o, "new"
        return r

    def run(self):
        self.try_("new", self.s_new)
        self.try_("first", self.s_first)
        self.inc()
        self.try_("skip.new", self.s_skip0)
        return self

    def script(self, items):
        """items: ("s", c) updates with cluster number c"""
        o = self._start()
        I = self.S.I
        out = []
        for t, it in enumerate(items):
            x = self.S.sample("h", num(t), dtype=it[2] if len(it) > 2 else "caller")
            r = self.S.call("s", lambda: self.upd(o, x, Num(num(it[1]), "pyint")), [x])
            r.obj = o
            out.append(r)
            if r.post is None:
                if len(r.raised) != 1:
                    break
                I.s = r.raised[0][0].copy()
                I.s.pc = r.pre.pc
            else:
                I.s = r.post.copy()
            I.frame = self.S.frame0
        return out
