"""Observations of one index class: summaries composed along the histories of lib.py, each step with the value the
definition gives (or None where it is unspecified)."""
from fractions import Fraction
from .terms import *
from .ev import Unknown, Budget, isnan, close
from .hist import *
from . import lib
from .limit import late


class Observer:
    def __init__(self, cs, tier="quick", seed=1):
        self.odd = set()
        self.given = False
        self.cs, self.tier, self.seed = cs, tier, seed
        self.guards = {}
        self.R = Runner(cs, self.guards)
        self.points = 0
        self.notes = []
        self.fallback = False

    def want(self, h, n, cls, k):
        if k < 2:
            return 0
        return spec_value(self.cs.name, h.rows[:n], cls, k, h.weights)

    def stream(self, h):
        """list of Obs of a stream; regeneralises once when a scalar does not fit its generic form"""
        for _ in range(6):
            out = list(self.R.stream(h))
            last = out[-1] if out else None
            if last is not None and last.status == "mismatch" and last.path not in self.cs.loose:
                self.cs.loose.add(last.path)
                self.notes.append("generalised further: %s" % last.why)
                self.cs.gen.clear()
                for k in [k for k in self.cs.R if k.split(".")[0] in ("known", "new") and "." in k]:
                    del self.cs.R[k]
                self.cs.inc()
                continue
            break
        for o in out:
            o.mode = "stream"
            o.n = o.step + 1
            if o.status == "value":
                o.want = self.want(h, o.n, o.cls, o.k) if h.sparse is None or o.n in h.sparse else None
                self.points += 1
            elif o.status == "mismatch":
                o.status = "undecided"
            if o.status == "undecided" and "shape" in str(o.why):
                self.odd.add(len(set(h.labels[:o.step + 1])))
        return out

    def batch(self, h):
        if len(set(h.labels)) < 2:
            return []
        o = self.R.batch(h) if not self.given else None
        if o is None or o.status == "undecided":
            if len(h.rows) <= 10:
                o2 = self.batch_of(h)
                if o2.status != "undecided":
                    if o is not None and not self.given:
                        self.notes.append("batches with given labels instead of the general one: %s" % o.why)
                        self.given = True
                    o = o2
                elif o is None:
                    o = o2
            elif o is None:
                return []
        o.mode = "batch"
        o.n = len(h.rows)
        if o.status == "value":
            o.want = self.want(h, o.n, o.cls, o.k)
            self.points += 1
        return [o]

    def batch_of(self, h):
        """bounded alternative for a batch computation without a general summary: the labels are given"""
        cache = self.cs.__dict__.setdefault("_batches", {})
        key = tuple(h.labels)
        u = sorted(set(key))
        o = Obs(h, len(h.rows), "batch", status="undecided", why="")
        if key not in cache:
            try:
                cache[key] = self.cs.batch_of(key, 20)
            except Exception as e:
                cache[key] = "%s: %s" % (type(e).__name__, e)
        r = cache[key]
        if isinstance(r, str):
            o.why = r
            return o
        m = self.R.mk({"dim": h.dim}, {}, h.cdt)
        m.fams["data"] = lambda i, d: h.rows[i][d]
        try:
            exc = self.R.raising(r, m)
            if exc:
                o.status, o.exc = "raises", exc
                return o
            if r.post is None:
                o.why = "no completing path"
                return o
            o.value = self.R.returned(r, m)
            try:
                o.attr = self.R.attr(r, m, self.R.published)
            except Unknown:
                o.attr = None
            o.status, o.k, o.cls = "value", len(u), [u.index(x) for x in h.labels]
        except Unknown as e:
            o.why = "unresolved: %s" % e
        except Budget:
            o.why = "evaluation budget"
        return o

    def script(self, h):
        """bounded alternative for a class whose state has no generic form: the label order of the history is
        concrete, the samples stay symbolic"""
        labels = list(dict.fromkeys(h.labels))
        key = tuple(labels.index(c) for c in h.labels)
        cache = self.cs.__dict__.setdefault("_scripts", {})
        # labels that are transformed before they are compared are analysed as the numbers they are
        names = labels if self.cs.__dict__.get("_named") else None
        ck = (key, tuple(names)) if names else key
        if ck not in cache:
            try:
                cache[ck] = self.cs.script([("s", c) for c in key], names, 15)
            except Exception as e:
                cache[ck] = "%s: %s" % (type(e).__name__, e)
                if names is None:
                    self.cs._named = True
                    return self.script(h)
        rs = cache[ck]
        if isinstance(rs, str):
            o = Obs(h, 0, "script", status="undecided", why=rs)
            o.mode, o.n = "stream", 0
            return [o]
        return self.eval_script(h, rs, [("s", c) for c in key], key)

    def eval_script(self, h, rs, items, key):
        labels = list(dict.fromkeys(h.labels))
        m = self.R.mk({"dim": h.dim}, {}, h.cdt)
        m.fams["h"] = lambda t, d: h.rows[t][d]
        m.fams["labkey"] = lambda j: labels[j]
        out = []
        for t, r in enumerate(rs):
            o = Obs(h, t, "script", status="undecided", why="")
            o.mode, o.n = "stream", t + 1
            out.append(o)
            try:
                exc = self.R.raising(r, m)
                if exc:
                    o.status, o.exc = "raises", exc
                    return out
                if r.post is None:
                    o.why = "no completing path"
                    return out
                o.value = self.R.returned(r, m)
                try:
                    o.attr = self.R.attr(r, m, "criterion_value")
                except Unknown:
                    o.attr = None
                o.status = "value"
                o.cls = list(key[:t + 1])
                o.k = len(set(o.cls))
                o.want = self.want(h, t + 1, o.cls, o.k)
                self.points += 1
            except Unknown as e:
                o.status, o.why = "undecided", "unresolved: %s" % e
                return out
            except Budget:
                o.status, o.why = "undecided", "evaluation budget"
                return out
        return out

    def all(self, hs, modes=("stream", "batch")):
        out = []
        dead = {}
        for i, h in enumerate(hs):
            if late():
                self.notes.append("time limit: %d histories not compared" % (len(hs) - i))
                break
            if "stream" in modes and "stream" in h.modes:
                if not self.fallback:
                    obs = self.stream(h)
                    if obs and obs[-1].status == "undecided":
                        self.fallback = True
                        if any("keys of" in e for e in self.cs.errors.values()):
                            self.cs._named = True
                        self.notes.append("bounded label orders instead of the generic state: %s" % obs[-1].why)
                if self.fallback:
                    if len(h.rows) <= (16 if h.name.startswith("more than") else 10) and h.sparse is None:
                        obs2 = self.script(h)
                        obs = obs2
                    else:
                        obs = []
                out += obs
            if "batch" in modes and (h.sparse is None or getattr(h, "wide", False) and "batch" in h.modes):
                out += self.batch(h)
        return out

    def constants(self):
        """numbers compared against in guards that went only one way"""
        cs = set()
        for c, (f, t) in self.guards.items():
            if f and t:
                continue
            for a in c.args[1:] if c.op == "fn" else c.args:
                for x in find(a, lambda x: x.op == "num"):
                    cs.add(abs(x.args[0]))
        return sorted(cs)

    def literals(self):
        """numbers written where they can act as a limit"""
        from .lits import literals
        return literals(self.cs.S.I, getattr(self.cs.S, "calls_total", ()))

    def one_sided(self):
        return [c for c, (f, t) in self.guards.items() if not (f and t)]
