"""The decision procedures of properties C01-C25.  Each returns a list of obligations: dicts with
subject, rule, verdict ("holds" | "violated" | "undecided"), detail, where, witness."""
from fractions import Fraction
import os
from decimal import Decimal
import sys
import time
import traceback

from .terms import *
from .vals import *
from .ev import Model, Unknown, Budget, isnan
from .scen import Session, ClassScen, NODE, Dead, Raised, AnalysisError
from .hist import differs, spec_value, History, Projector, DummyGen, eval_array, Pt
from .observe import Observer
from . import lib
from .spec import INDICES

REPO = os.environ.get("CVI_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CLASSES = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]
BUDGET = {"quick": 1, "thorough": 6}


def ob(subject, rule, verdict, detail="", where="", witness=None, n=1):
    return dict(subject=subject, rule=rule, verdict=verdict, detail=detail, where=where, witness=witness, n=n)


def calls(r):
    """functions analysed in a scenario, as file:function"""
    return ["%s:%s" % (m, f) for m, f, _ in getattr(r, "calls", [])]


def where_of(cs, scen):
    r = cs.R.get(scen)
    c = calls(r) if r is not None else []
    own = [x for x in c if cs.name in x.split(":")[0].split(".")] or c
    return "%s scenario %s: %s" % (cs.name, scen, " -> ".join(own))


def dec(x):
    try:
        return "%.12g" % float(x)
    except Exception:
        return str(x)


class Work:
    """the analysis of one class in this process"""

    def __init__(self, name, tier, seed, optimize=0):
        self.name, self.tier, self.seed = name, tier, seed
        self.S = Session(SRC, optimize=optimize)
        self.cs = ClassScen(self.S, name).run()
        self.obs = Observer(self.cs, tier, seed)
        self.stats = {}

    def core(self, modes=("stream", "batch"), longest=3000):
        hs = lib.core(self.seed, self.tier)
        out = self.obs.all(hs, modes)
        out += self.obs.all(lib.directed(self.obs.constants(), self.seed, longest, self.obs.literals()), modes)
        return out

    def close(self, obligations):
        """attach what was covered"""
        return dict(name=self.name, obligations=obligations, points=self.obs.points, notes=self.obs.notes,
                    errors=self.cs.errors, functions=sorted({"%s:%s:%d" % c for c in getattr(self.S, "calls_total", ())}),
                    scenarios={k: dict(paths=int(r.post is not None) + len(r.raised), events=len(r.events)) for k, r in self.cs.R.items()},
                    guards=len(self.obs.guards), onesided=len(self.obs.one_sided()))


def summarise(cs, groups, rule, describe):
    """groups: {(subject): [(verdict, detail, where, witness)]} -> obligations, one per subject"""
    out = []
    for subj, items in groups.items():
        bad = [i for i in items if i[0] == "violated"]
        und = [i for i in items if i[0] == "undecided"]
        good = [i for i in items if i[0] == "holds"]
        if bad:
            b = bad[0]
            out.append(ob(subj, rule, "violated", b[1], b[2], b[3], len(items)))
        elif und and not good:
            out.append(ob(subj, rule, "undecided", und[0][1], und[0][2], None, len(items)))
        else:
            o = ob(subj, rule, "holds", describe % len(good), "", None, len(good))
            if und:
                o["detail"] += "; %d points undecided: %s" % (len(und), und[0][1])
            out.append(o)
    return out


# ---------------------------------------------------------------- C01-C09
def value_items(w, obs):
    cs = w.cs
    groups = {}
    for o in obs:
        scen = o.scen
        if o.status == "undecided":
            groups.setdefault((cs.name, o.mode, "undecided"), []).append(("undecided", "%s: %s" % (scen, o.why), where_of(cs, scen), None))
            continue
        if o.status == "raises":
            k = len(set(o.hist.labels[:o.n]))
            if k < 2:
                continue
            cls = [list(dict.fromkeys(o.hist.labels[:o.n])).index(c) for c in o.hist.labels[:o.n]]
            want = w.obs.want(o.hist, o.n, cls, k)
            if want is None:
                continue
            groups.setdefault((cs.name, o.mode, scen), []).append(
                ("violated", "no value is returned: %s" % (o.exc[0],), where_of(cs, scen), dict(o.hist.show(o.n), mode=o.mode, expected=dec(want))))
            continue
        if o.k < 2 or o.want is None:
            continue
        # (sums of Gaussians: nothing cancels, so small values count down to the range of floats)
        bad = differs(o.value, o.want, Decimal(10) ** -290) if w.cs.name == "rCIP" else differs(o.value, o.want)
        groups.setdefault((cs.name, o.mode, scen), []).append(
            ("violated" if bad else "holds", "value %s, definition %s" % (dec(o.value), dec(o.want)) if bad else "", where_of(cs, scen),
             dict(o.hist.show(o.n), mode=o.mode, value=dec(o.value), expected=dec(o.want)) if bad else None))
    return groups


def unusable(w):
    """the class is gone or cannot be constructed"""
    e = w.cs.errors.get("new", "")
    if e.startswith("raises "):
        return [ob(w.name, "the index can be constructed", "violated", e, "cvi.%s()" % w.name, dict(name=w.name))]
    return []


def value_check(pid, name, tier, seed):
    w = Work(name, tier, seed)
    obs = w.core(longest=20000 if tier == "quick" else 100000)
    if tier == "thorough":
        for s in range(1, 6):
            obs += w.obs.all(lib.core(seed + 100 * s, tier))
    g = value_items(w, obs)
    obl = unusable(w) + summarise(w.cs, {"%s %s (%s)" % k: v for k, v in g.items() if k[2] != "undecided"}, "extracted value term = definition",
                    "equal at %d points")
    for k, v in g.items():
        if k[2] == "undecided":
            obl.append(ob("%s %s" % k[:2], "extracted value term = definition", "undecided", v[0][1], v[0][2], None, len(v)))
    modes = {k[1] for k in g if k[2] != "undecided"}
    for m in ("stream", "batch"):
        if m not in modes and not any(k[1] == m for k in g):
            obl.append(ob("%s %s" % (name, m), "extracted value term = definition", "undecided", "no summary", "", None, 0))
    return w.close(obl)


# ---------------------------------------------------------------- C10
def label_uses(t):
    """occurrences of label values in a term outside comparisons for equality"""
    bad = []
    seen = set()

    def is_label(x):
        return x.op == "el" and x.args[0] in ("labkey", "lab", "u", "lab2") or x.op == "sym" and x.args[0] == "newlab"

    def go(x, ineq):
        if is_label(x):
            if not ineq:
                bad.append(x)
            for a in children(x):
                go(a, False)
            return
        if (x, ineq) in seen:
            return
        seen.add((x, ineq))
        for a in children(x):
            go(a, x.op == "eq")
    go(t, False)
    return bad


def check_C10(name, tier, seed):
    w = Work(name, tier, seed)
    hs = [h for h in lib.core(seed, tier) if len(set(h.labels)) <= 8][: 12 if tier == "quick" else 60]
    groups = {}
    extra = [[c for c in (17, 3, 99, -5, 1000003, 44, -71, 8)]]
    # labels that collide under common truncations, and labels near the constants of one-sided guards
    for h in hs[:3]:
        w.obs.all([h])
    cons = [int(c) for c in w.obs.constants() if c == int(c) and 2 <= c < 2 ** 40]
    for c in cons[:4]:
        extra.append([c + 1, 1, c, -c, 2 * c + 1, c - 1, 0, -c - 1])
    lits = [int(c) for c in w.obs.literals() if c == int(c) and 3 <= c < 2 ** 62]
    collide = list(lib.COLLIDE) + [p for c in lits[:3] + lits[3:][-3:] for p in ((c, 8), (7, 7 + c), (0, c), (c - 1, -1), (c + 1, c))]
    import random
    rng = random.Random(seed + 4)
    pair = lib.History("pairs", lib.rows_for("frac", 2, 6, rng, [0, 1, 0, 2, 1, 1]), [0, 1, 0, 2, 1, 1])
    named = bool(w.cs.__dict__.get("_named"))
    for hi, h in enumerate([pair] + hs):
        ns = lib.NAMES + extra
        pick = ns if tier == "thorough" or hi < 3 else [ns[(hi * 3 + j) % len(ns)] for j in range(3)]
        if named and hi:
            pick = pick[hi % 2:3:2]
        if h is pair:
            pick = [[a, b, 55] for a, b in collide] + [[b, 55, a] for a, b in collide[:6] + [p for p in collide[len(lib.COLLIDE):] if p[1] == 8]]
        for ni, names in enumerate(pick):
            h2 = lib.relabelled(h, names, "labels %s" % (names[:len(set(h.labels))],))
            for o in w.obs.all([h2]):
                key = "%s %s" % (name, o.mode)
                if o.status == "undecided":
                    groups.setdefault(key, []).append(("undecided", "%s: %s" % (o.scen, o.why), where_of(w.cs, o.scen), None))
                    continue
                # the same history with the plain labels 0, 1, 2, ... is the reference
                if o.status == "raises":
                    groups.setdefault(key, []).append(("raises", o))
                    continue
                if o.want is None:
                    continue
                groups.setdefault(key, []).append((("diff", o) if differs(o.value, o.want) else ("holds", "", "", None)))
    out = {}
    for key, items in groups.items():
        res = []
        for it in items:
            if it[0] in ("diff", "raises"):
                o = it[1]
                # is it the labels? compare with the same history under the labels 0, 1, 2 ...
                ref = lib.relabelled(o.hist, list(range(50)), "plain")
                ro = [x for x in w.obs.all([ref], (o.mode,)) if x.n == o.n]
                if not ro:
                    continue
                ro = ro[-1]
                if ro.status == "value" and (o.status == "raises" or differs(o.value, ro.value)):
                    res.append(("violated", "labels %s give %s, labels 0,1,2,.. give %s" % (
                        sorted(set(o.hist.labels[:o.n])), dec(o.value) if o.status == "value" else "an exception %s" % (o.exc[0],), dec(ro.value)),
                        where_of(w.cs, o.scen), dict(o.hist.show(o.n), mode=o.mode)))
                elif ro.status == "raises" and o.status == "raises":
                    continue
                else:
                    # both deviate from the definition in the same way: a matter of C01-C09
                    continue
            else:
                res.append(it)
        out[key] = res
    obl = summarise(w.cs, out, "the value term depends on labels through equality only", "invariant at %d points")
    # structural part: where do label values flow?
    for scen, r in w.cs.R.items():
        if r.post is None or r.value is None or not isinstance(r.value, Num):
            continue
        bad = label_uses(r.value.t)
        obl.append(ob("%s %s" % (name, scen), "labels reach the value only through ==", "holds" if not bad else "undecided",
                      "" if not bad else "label value used as a number: %s" % bad[0], where_of(w.cs, scen)))
    return w.close(obl)


# ---------------------------------------------------------------- C11
def sharing(st, locs):
    """the locations and everything they are views of or may share memory with"""
    out, todo = set(), list(locs)
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        c = st.heap.get(x)
        if isinstance(c, ViewC):
            todo.append(c.base)
        elif isinstance(c, ArrC):
            todo += list(c.alias)
    return frozenset(out)


def reach(I, st, v, path, seen, out, depth=0):
    """all (path, location, aliases) reachable from a value"""
    if depth > 12:
        return
    if isinstance(v, Ref):
        c = st.heap.get(v.loc)
        al = frozenset()
        if isinstance(c, ViewC):
            b = c.base
            chain = {b}
            while isinstance(st.heap.get(b), ViewC):
                b = st.heap[b].base
                chain.add(b)
            al = frozenset(chain)
            c0 = st.heap.get(b)
            if isinstance(c0, ArrC):
                al |= sharing(st, c0.alias)
        elif isinstance(c, ArrC):
            al = sharing(st, c.alias)
        out.append((path, v.loc, al))
        if v.loc in seen:
            return
        seen.add(v.loc)
        if isinstance(c, ObjC):
            for a, x in c.attrs.items():
                reach(I, st, x, path + "." + a, seen, out, depth + 1)
        elif isinstance(c, ListC):
            if isinstance(c.base, tuple):
                reach(I, st, c.base[1], path + "[]", seen, out, depth + 1)
            for _, x in c.tail:
                reach(I, st, x, path + "[]", seen, out, depth + 1)
        elif isinstance(c, DictC):
            if c.base is not None:
                reach(I, st, c.base[2], path + "[]", seen, out, depth + 1)
                reach(I, st, c.base[1], path + ".keys", seen, out, depth + 1)
            for _, k, x in c.entries:
                reach(I, st, x, path + "[]", seen, out, depth + 1)
                reach(I, st, k, path + ".keys", seen, out, depth + 1)
    elif isinstance(v, Arr):
        out.append((path, None, sharing(st, v.c.alias)))
    elif isinstance(v, Tup):
        for i, x in enumerate(v.items):
            reach(I, st, x, "%s[%d]" % (path, i), seen, out, depth + 1)
    elif isinstance(v, Gated):
        reach(I, st, v.a, path, seen, out, depth + 1)
        reach(I, st, v.b, path, seen, out, depth + 1)
    elif isinstance(v, Undef) and v.a is not None:
        reach(I, st, v.a, path, seen, out, depth + 1)
    elif isinstance(v, Bound):
        reach(I, st, v.self_, path, seen, out, depth + 1)


def ownership(w, scen, r, obj, name):
    """obligations: no write to caller arrays, nothing kept"""
    obl = []
    wr = [e for e in r.events if e["kind"] == "callerwrite"]
    subj = "%s %s" % (name, scen)
    if wr:
        obl.append(ob(subj, "no store reaches the caller's array", "violated", "writes to the array it was given", wr[0]["where"],
                      dict(scenario=scen, condition=str(wr[0]["cond"])[:300])))
    else:
        obl.append(ob(subj, "no store reaches the caller's array", "holds"))
    if obj is None:
        return obl
    kept = []
    states = [r.post] if r.post is not None else []
    states += [x[0] for x in r.raised if x[0] is not None]
    for st in states:
        out = []
        reach(w.S.I, st, obj, "self", set(), out)
        for path, loc, al in out:
            if loc in r.caller_locs or (al & r.caller_locs):
                kept.append(path)
    if kept:
        obl.append(ob(subj, "nothing reachable from the object is the caller's array or a view of it", "violated",
                      "%s is, or is a view of, the array the caller passed" % kept[0], where_of(w.cs, scen) if hasattr(w, "cs") else subj, dict(scenario=scen, attribute=kept)))
    elif r.post is None and not r.raised:
        obl.append(ob(subj, "nothing reachable from the object is the caller's array or a view of it", "undecided", "no path"))
    else:
        obl.append(ob(subj, "nothing reachable from the object is the caller's array or a view of it", "holds"))
    return obl


def check_C11(name, tier, seed):
    w = Work(name, tier, seed)
    obl = []
    for scen in ("first", "known.G1", "new.G1", "known.G2", "new.G2", "batch", "batch1", "late1d", "late2d.G1", "late2d.G2", "late2d.B", "rank3.new"):
        r = w.cs.R.get(scen)
        if r is None:
            if scen in w.cs.errors:
                obl.append(ob("%s %s" % (name, scen), "no store reaches the caller's array", "undecided", w.cs.errors[scen]))
            continue
        obl += ownership(w, scen, r, r.obj, name)
    # when a generic state is missing, short label orders
    if not all(s in w.cs.R for s in ("known.G1", "new.G1", "known.G2", "new.G2")):
        for seq in ([0, 0], [0, 1], [0, 1, 0], [0, 1, 2, 1]):
            try:
                rs = w.cs.script([("s", c) for c in seq])
            except Exception as e:
                continue
            for t, r in enumerate(rs):
                obl += ownership(w, "order %s step %d" % (seq, t), r, r.obj, name)
    return w.close(obl)


# ---------------------------------------------------------------- C12
def check_C12(name, tier, seed):
    w = Work(name, tier, seed)
    groups = {}
    hs = lib.dtype_histories(seed, tier)
    for h in hs:
        for o in w.obs.all([h]):
            key = "%s %s" % (name, o.mode)
            if o.status == "undecided":
                groups.setdefault(key, []).append(("undecided", "%s: %s" % (o.scen, o.why), where_of(w.cs, o.scen), None))
                continue
            if o.status == "value" and o.want is None:
                continue
            if o.status == "value" and not differs(o.value, o.want):
                groups.setdefault(key, []).append(("holds", "", "", None))
                continue
            # reference: the same numbers as 64-bit floats
            ref = History(h.name + " as floats", h.rows, h.labels, "f8")
            ro = [x for x in w.obs.all([ref], (o.mode,)) if x.n == o.n]
            if not ro or ro[-1].status != "value":
                continue
            if o.status == "raises":
                groups.setdefault(key, []).append(("violated", "raises %s for %s samples, not for floats" % (o.exc[0], h.cdt), where_of(w.cs, o.scen), dict(h.show(o.n), mode=o.mode)))
            elif differs(o.value, ro[-1].value):
                groups.setdefault(key, []).append(("violated", "value %s for %s samples, %s for the same numbers as floats" % (dec(o.value), h.cdt, dec(ro[-1].value)),
                                                   where_of(w.cs, o.scen), dict(h.show(o.n), mode=o.mode)))
    mixed(w, groups)
    obl = summarise(w.cs, groups, "no arithmetic in the caller's integer type reaches the value", "equal at %d points")
    for scen, r in w.cs.R.items():
        for e in r.events:
            if e["kind"] == "callerinplace":
                obl.append(ob("%s %s" % (name, scen), "no in-place arithmetic in the caller's type", "violated", "in-place float arithmetic on an array of the caller's type raises for integer samples", e["where"],
                              dict(scenario=scen)))
        if r.post is not None and isinstance(r.value, Num):
            bad = find(r.value.t, lambda x: x.op == "fn" and x.args[0] in ("wrapc", "castc", "truncc", "trunc", "f32", "f16", "f32c", "f16c"))
            obl.append(ob("%s %s" % (name, scen), "no node of the value term is computed in the caller's type", "holds" if not bad else "undecided",
                          "" if not bad else "%s" % show(bad[0], 4), where_of(w.cs, scen) if bad else ""))
    return w.close(obl)


def mixed(w, groups):
    """streams that start with integer samples and continue with floats"""
    import random
    rng = random.Random(w.seed + 41)
    for seq in lib.MIXED:
        key = "%s stream, mixed types" % w.name
        try:
            rs = w.cs.script(lib.mixed_items(seq))
        except Exception as e:
            groups.setdefault(key, []).append(("undecided", "%s: %s" % (type(e).__name__, e), "", None))
            continue
        for cdt in ("i8", "i1"):
            rows = lib.mixed_rows(seq, 2, rng)
            h = History("mixed types", rows, seq, cdt)
            for o, r in zip(w.obs.eval_script(h, rs, lib.mixed_items(seq), tuple(seq)), rs):
                ev = [e for e in r.events if e["kind"] == "callerinplace"]
                wit = dict(h.show(o.n), note="first sample of each cluster %s, later ones 64-bit floats" % cdt)
                if ev:
                    groups.setdefault(key, []).append(("violated", "in-place arithmetic on an array that has the type of an integer sample raises", ev[0]["where"], wit))
                elif o.status == "undecided":
                    groups.setdefault(key, []).append(("undecided", o.why, "", None))
                elif o.status == "raises":
                    groups.setdefault(key, []).append(("violated", "raises %s" % (o.exc[0],), calls_str(r), wit))
                elif o.want is not None and differs(o.value, o.want):
                    ref = w.obs.script(History("mixed as floats", rows, seq, "f8"))
                    if len(ref) >= o.n and ref[o.n - 1].status == "value" and differs(o.value, ref[o.n - 1].value):
                        groups.setdefault(key, []).append(("violated", "value %s, %s for the same numbers as floats" % (dec(o.value), dec(ref[o.n - 1].value)), calls_str(r), wit))
                elif o.want is not None:
                    groups.setdefault(key, []).append(("holds", "", "", None))


def calls_str(r):
    return " -> ".join(calls(r))


# ---------------------------------------------------------------- C13
ENVTOP = ("random", "time.", "os.", "secrets", "uuid", "datetime", "locale", "threading", "numpy.random")


def check_C13(name, tier, seed):
    return independence(Work(name, tier, seed), name, "cvi." + name)


def independence(w, name, path):
    obl = []
    for scen, r in w.cs.R.items():
        bad = [e for e in r.events if e["kind"] in ("globalwrite", "extwrite", "impure")]
        real = []
        for e in bad:
            if e["kind"] == "impure" and not impure_matters(e.get("path", "")):
                continue
            real.append(e)
        if real:
            e = real[0]
            obl.append(ob("%s %s" % (name, scen), "no effect outside the object", "violated", "%s %s" % (e["kind"], e.get("name") or e.get("path")), e["where"], dict(scenario=scen)))
        else:
            obl.append(ob("%s %s" % (name, scen), "no effect outside the object", "holds"))
    # two objects made one after the other share no mutable location
    try:
        w.S.reset()
        cls = w.S.lookup(path)
        a = w.S.new(cls)
        b = w.S.new(cls)
        ra, rb = [], []
        reach(w.S.I, w.S.I.s, a, "self", set(), ra)
        reach(w.S.I, w.S.I.s, b, "self", set(), rb)
        shared = {l for _, l, _ in ra if l} & {l for _, l, _ in rb if l}
        shared = {l for l in shared if mutable_loc(w.S.I.s.heap.get(l))}
        # sharing alone is harmless as long as nothing writes to it: writes are reported above
        names = [p for p, l, _ in ra if l in shared]
        obl.append(ob(name, "two objects share no mutable state", "holds" if not shared else "undecided", "" if not shared else "shared, never written: %s" % names))
    except (Raised, Dead, AnalysisError) as e:
        obl.append(ob(name, "two objects share no mutable state", "undecided", str(e)))
    for scen, r in w.cs.R.items():
        if r.post is None or not isinstance(r.value, Num):
            continue
        env = [t for t in tops(r.value.t) if t.startswith(ENVTOP)]
        if env:
            obl.append(ob("%s %s" % (name, scen), "the value does not depend on the environment", "violated", env[0], env[0], dict(scenario=scen)))
    return w.close(obl)


def impure_matters(path):
    return not any(path.startswith(p) for p in ("time.", "threading.Lock", "threading.RLock", "os.path", "sys.maxsize", "sys.float_info"))


def mutable_loc(c):
    return isinstance(c, (ListC, DictC, ArrC, ViewC, ObjC))


# ---------------------------------------------------------------- C14, C15
REFUSALS = [("rank0.new", "rank"), ("rank3.new", "rank"), ("rank0.G1", "rank"), ("rank3.G1", "rank"), ("rank0.G2", "rank"), ("rank3.G2", "rank"),
            ("rank0.B", "rank"), ("rank3.B", "rank"), ("rank4.new", "rank"), ("rank4.G2", "rank"), ("row.new", "one row with one label"), ("row.G1", "one row after samples"),
            ("row.G2", "one row after samples"), ("row.B", "one row after a batch"), ("batch0", "no samples"),
            ("batch1", "one label"), ("late2d.G1", "batch after samples"), ("late2d.G2", "batch after samples"), ("late2d.B", "second batch"), ("late1d", "sample after batch")]


def refusal_histories(w, r):
    """the smallest states, and states around the numbers the paths of the call compare with"""
    from fractions import Fraction as F
    hs = []
    for labels in ([4, 9], [4, 9, 2], [4, 4, 9], [4, 9, 9], [4], [4, 4]):
        for dim in (1, 2, 3):
            hs.append(History("state of %d samples" % len(labels), [[F((7 * i + 3 * d) % 11 - 4, 2) for d in range(dim)] for i in range(len(labels))], labels))
    terms = [c for st, *_ in r.raised for c in st.pc] + ([c for c in r.post.pc] if r.post is not None else [])
    ints = sorted({int(abs(x.args[0])) for t in terms if hasattr(t, "op") for x in find(t, lambda x: x.op == "num") if x.args[0] == int(x.args[0])} - {0, 1})
    for c in ints[:6]:
        if c > 130:
            continue
        for n in (c - 1, c, c + 1):
            for k in {2, min(n, 4), n}:
                if n >= k >= 2:
                    hs.append(History("state of %d samples in %d clusters" % (n, k), [[F((7 * i + 3 * d) % 23 - 9, 2) for d in range(2)] for i in range(n)], [i % k for i in range(n)]))
            if n >= 2:
                hs.append(History("samples of %d features" % n, [[F((7 * i + 3 * d) % 23 - 9, 2) for d in range(n)] for i in range(4)], [0, 1, 0, 2]))
    return hs, ints


def refusal_points(w, scen, r, extra=False):
    """models at which a refusal scenario is evaluated (tables of the generic state come from short streams)"""
    out = []
    from fractions import Fraction as F
    import random
    rng = random.Random(w.seed + 17)
    hs = [h for h in lib.core(w.seed, "quick") if 3 <= len(h.rows) <= 10][:10]
    near = []
    if extra:
        more, near = refusal_histories(w, r)
        near = [x for c in near for x in (c - 1, c, c + 1) if 1 <= x <= 1000]
        hs = hs + more
    for hi, h in enumerate(hs):
        m = None
        tag = getattr(r, "tag", "new")
        base = {"dim": h.dim, "e0": rng.choice([1, 2, 3]), "e1": rng.choice([1, 2, 4]), "e2": rng.choice([1, 3]), "e3": rng.choice([1, 2]), "dim2": rng.choice([h.dim, h.dim, h.dim + 1]), "m2": rng.choice([1, 2, 5])}
        base["e_lab"] = [base["e0"], base["e1"], base["e1"], 3][hi % 4]
        if hi % 3 == 0:
            base["e0"], base["e1"], base["e_lab"] = 1, 3, 3
        if near and hi >= 10:
            for q in ("e0", "e1", "e2", "e3", "m2", "dim2", "e_lab"):
                if rng.random() < 0.5:
                    base[q] = rng.choice(near)
        val = lambda *i: F(hash(i) % 97 - 48, 8)
        fams = {f: val for f in ("data0", "data3", "data4", "data2", "data1")}
        fams["lab2"] = lambda i, hi=hi: [3, 9, -4, 3, 0][(i + hi) % 5] if hi % 4 else 7
        if tag in ("G1", "G2"):
            # state after a prefix of the history
            st = w.obs.R.tables(h, tag, extra and (hi % 2 == 0 or hi >= 10))
            if st is None:
                continue
            tabs, bools, labels, n = st
            m = w.obs.R.mk(dict(base, k=len(labels), N=n, newlab=424242), dict(fams), "f8")
            for nm, t in tabs.items():
                m.table(nm, t)
            m.bools = dict(bools)
            m.fams["labkey"] = lambda j, labels=labels: labels[j]
        else:
            u = sorted(set(h.labels))
            m = w.obs.R.mk(dict(base, k=len(u) if scen != "batch1" else 1, m=len(h.rows), newlab=h.labels[0] if hi % 2 else 424242), dict(fams), "f8")
            m.fams["data"] = lambda i, d, h=h: h.rows[i][d]
            if scen == "batch1":
                m.fams["lab"] = lambda i: 5
                m.fams["u"] = lambda j: 5
                m.fams["cls"] = lambda i: 0
            else:
                m.fams["lab"] = lambda i, h=h: h.labels[i]
                m.fams["u"] = lambda j, u=u: u[j]
                m.fams["cls"] = lambda i, h=h, u=u: u.index(h.labels[i])
            m.fams["x"] = lambda d, h=h: h.rows[0][d]
        out.append((h, m))
    return out


def alike(x, y):
    """the same value, infinities and not-a-number included"""
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    x, y = Decimal(x), Decimal(y)
    if x.is_infinite() or y.is_infinite():
        return x == y
    return not differs(x, y)


def is_valueerror(exc):
    from .interp import EXC_PARENTS
    return exc == "ValueError" or "ValueError" in EXC_PARENTS.get(exc, [])


def check_C14(name, tier, seed):
    w = Work(name, tier, seed)
    obl = []
    for scen, what in REFUSALS:
        subj = "%s %s (%s)" % (name, what, scen)
        rule = "every path of the call raises ValueError"
        r = w.cs.R.get(scen)
        if r is None:
            obl.append(ob(subj, rule, "undecided", w.cs.errors.get(scen, "no summary")))
            continue
        ev = [e for e in r.events if e["kind"] == "mayraise"]
        if r.post is None and r.raised and all(is_valueerror(x[1]) for x in r.raised) and not ev:
            obl.append(ob(subj, rule, "holds", "no path completes; %d raising path(s)" % len(r.raised)))
            continue
        # some path completes or raises something else: is it feasible?
        verdict = None
        n = 0
        for h, m in refusal_points(w, scen, r, True):
            try:
                ex = w.obs.R.raising(r, m)
            except (Unknown, Budget) as e:
                verdict = verdict or ("undecided", str(e))
                continue
            n += 1
            bad = [x for x in ex if not is_valueerror(x[0])]
            if bad and not (len(ex) > 1 and is_valueerror(ex[0][0])):
                verdict = ("violated", "raises %s instead of ValueError" % (bad[0],), h)
                break
            if not ex and r.post is not None:
                verdict = ("violated", "the call is accepted", h)
                break
        if verdict is None and n:
            obl.append(ob(subj, rule, "holds", "ValueError at all %d points" % n))
        elif verdict is None:
            obl.append(ob(subj, rule, "undecided", "no point"))
        elif verdict[0] == "undecided":
            obl.append(ob(subj, rule, "undecided", verdict[1]))
        else:
            obl.append(ob(subj, rule, "violated", verdict[1], where_of(w.cs, scen), dict(scenario=what, example=verdict[2].show())))
    # accepted ranks: one sample is processed as one sample, a table as a batch
    hs = [h for h in lib.core(seed, tier) if len(h.rows) <= 8][:6]
    g = {}
    for o in w.obs.all(hs):
        key = "%s %s accepted" % (name, o.mode)
        if o.status == "raises" and is_valueerror(o.exc[0][0]):
            g.setdefault(key, []).append(("violated", "a valid call is refused: %s" % (o.exc[0],), where_of(w.cs, o.scen), dict(o.hist.show(o.n), mode=o.mode)))
        elif o.status == "undecided":
            g.setdefault(key, []).append(("undecided", o.why, "", None))
        else:
            g.setdefault(key, []).append(("holds", "", "", None))
    obl += summarise(w.cs, g, "1-D data is one sample, 2-D data one batch", "accepted at %d points")
    return w.close(obl)


def same_heap(I, st0, st1, v0, v1, seen, path="self"):
    """None when the values are the same, else the path of the first difference"""
    if isinstance(v0, Ref) and isinstance(v1, Ref):
        if (v0.loc, v1.loc) in seen:
            return None
        seen.add((v0.loc, v1.loc))
        old = I.s
        try:
            I.s = st0
            c0 = I.content(v0)
            I.s = st1
            c1 = I.content(v1)
        finally:
            I.s = old
        if c0 is c1 and not isinstance(c0, (ObjC, ListC, DictC)):
            return None
        if type(c0) is not type(c1):
            return path
        if isinstance(c0, ObjC):
            if set(c0.attrs) != set(c1.attrs):
                return path + "." + sorted(set(c0.attrs) ^ set(c1.attrs))[0]
            for a in c0.attrs:
                d = same_heap(I, st0, st1, c0.attrs[a], c1.attrs[a], seen, path + "." + a)
                if d:
                    return d
            return None
        if isinstance(c0, ArrC):
            return None if c0.same(c1) else path
        if isinstance(c0, ListC):
            if c0.base is not c1.base or len(c0.tail) != len(c1.tail):
                return path
            for (a, x), (b, y) in zip(c0.tail, c1.tail):
                if a is not b:
                    return path
                d = same_heap(I, st0, st1, x, y, seen, path + "[]")
                if d:
                    return d
            return None
        if isinstance(c0, DictC):
            if c0.base is not c1.base or len(c0.entries) != len(c1.entries):
                return path
            for (a, k, x), (b, l, y) in zip(c0.entries, c1.entries):
                if a is not b or k != l:
                    return path
                d = same_heap(I, st0, st1, x, y, seen, path + "[]")
                if d:
                    return d
            return None
        return None if c0 == c1 else path
    if isinstance(v0, Num) and isinstance(v1, Num):
        return None if v0.t is v1.t else path
    return None if v0 == v1 or v0 is v1 else path


SCRIPTS = [
    ("refused batch in a stream", [("s", 0), ("s", 1), ("late",), ("s", 0), ("s", 2)]),
    ("refused batch after one sample", [("s", 0), ("late",), ("s", 1), ("s", 0)]),
    ("wrong rank first", [("rank", 3), ("s", 0), ("s", 1), ("s", 1)]),
    ("rank 0 first", [("rank", 0), ("s", 0), ("s", 1), ("s", 1)]),
    ("wrong rank in a stream", [("s", 0), ("rank", 3), ("s", 1), ("rank", 0), ("s", 1)]),
    ("one-label batch first, then a stream", [("batch1",), ("s", 0), ("s", 1), ("s", 0)]),
    ("two refusals", [("s", 0), ("s", 1), ("late",), ("rank", 3), ("late",), ("s", 1)]),
    ("one-label batch first, then a batch", [("batch1",), ("batch",)]),
    ("one-label batch of another width, then a stream", [("batch1w",), ("s", 0), ("s", 1), ("s", 0)]),
    ("one-label batch of another width, then a batch", [("batch1w",), ("batch",)]),
    ("empty batch, then a stream", [("batch0",), ("s", 0), ("s", 1), ("s", 0)]),
    ("empty batch, then a batch", [("batch0",), ("batch",)]),
    ("one row, then a stream", [("row",), ("s", 0), ("s", 1), ("s", 0)]),
    ("one row in a stream", [("s", 0), ("row",), ("s", 1), ("row",), ("s", 0)]),
    ("refused calls after a batch", [("batch",), ("late1",), ("late",), ("rank", 3), ("row",)]),
    ("wrong rank, then a batch", [("rank", 3), ("rank", 0), ("batch",)]),
]


def check_C15(name, tier, seed):
    w = Work(name, tier, seed)
    obl = []
    I = w.S.I
    todo = False
    for scen, what in REFUSALS:
        r = w.cs.R.get(scen)
        subj = "%s %s (%s)" % (name, what, scen)
        rule = "the object graph at the raise equals the object graph before the call"
        if r is None:
            obl.append(ob(subj, rule, "undecided", w.cs.errors.get(scen, "no summary")))
            todo = True
            continue
        diff = None
        for st, exc, node, msg in r.raised:
            diff = diff or same_heap(I, r.pre, st, r.obj, r.obj, set())
        if diff is None and r.raised and not any(e["kind"] in ("globalwrite",) for e in r.events):
            obl.append(ob(subj, rule, "holds", "%d raising path(s)" % len(r.raised)))
        elif not r.raised:
            obl.append(ob(subj, rule, "undecided", "no raising path"))
        else:
            todo = True
            if diff and diff.split(".")[-1] == "criterion_value" and diff.count(".") == 1:
                obl.append(ob(subj, rule, "violated", "the published criterion value changes", where_of(w.cs, scen), dict(scenario=what)))
            else:
                obl.append(ob(subj, rule, "undecided", "%s differs; later calls compared below" % diff, where_of(w.cs, scen)))
    if todo or tier == "thorough":
        obl += [script_check(w, nm, items) for nm, items in SCRIPTS]
    return w.close(obl)


def script_check(w, nm, items):
    """a stream with refused calls in between returns what the stream without them returns"""
    from fractions import Fraction as F
    import random
    cs = w.cs
    subj = "%s: %s" % (cs.name, nm)
    rule = "values after refused calls equal those of the history without them"
    try:
        rs = cs.script(items)
    except Exception as e:
        return ob(subj, rule, "undecided", "%s: %s" % (type(e).__name__, e))
    rng = random.Random(w.seed + 3)
    cnt, und = 0, None
    for trial in range(4):
        dim = rng.choice([1, 2, 3])
        labs = [[0, 1, 2], [9, -2, 4], [5, 3, 1], [-1, -7, 300]][trial]
        rows = [[F(rng.randint(-40, 40), 8) for _ in range(dim)] for _ in range(8)]
        bl = [labs[i % 3] for i in range(7)]
        u = sorted(set(bl))
        m = w.obs.R.mk({"dim": dim, "e0": 2, "e1": 3, "e2": 1, "dim2": dim, "m2": 3, "m1": 3, "dim3": dim + 1, "newlab": labs[trial % 3], "m": 7, "k": len(u)}, {}, "f8")
        m.fams["h"] = lambda t, d: rows[t][d]
        m.fams["labkey"] = lambda j: labs[j]
        for f in ("data0", "data3", "data4", "data2", "data1"):
            m.fams[f] = lambda *i: F(hash(i) % 97 - 48, 8)
        m.fams["lab2"] = lambda i: [3, 9, -4][i % 3]
        m.fams["x"] = lambda d: F(3 * d + 1, 4)
        m.fams["data"] = lambda i, d: rows[i][d]
        m.fams["lab"] = lambda i: bl[i]
        m.fams["u"] = lambda j: u[j]
        m.fams["cls"] = lambda i: u.index(bl[i])
        t, cls, last = 0, [], None
        refused = False
        for it, r in zip(items, rs):
            try:
                ex = w.obs.R.raising(r, m)
                if it[0] not in ("s", "batch"):
                    if not ex:
                        break       # accepted: a matter of C14
                    refused = True
                    st = r.raised[0][0]
                    o = st.heap[r.obj.loc].attrs.get("criterion_value")
                    p = Projector(w.S.I, DummyGen, st, m, 0, 0, [])
                    o = p.resolve(o)
                    if isinstance(o, Num):
                        now = p.scalar(o)
                        if last is not None and not alike(now, last):
                            return ob(subj, rule, "violated", "the criterion value changes from %s to %s on a refused call" % (dec(last), dec(now)), where_of(cs, "late2d.G2"), dict(script=str(items)))
                    cnt += 1
                    continue
                if ex:
                    if refused:
                        return ob(subj, rule, "violated", "a valid call after a refused one raises %s" % (ex[0],), " -> ".join(calls(r)), dict(script=str(items), rows=[[float(x) for x in q] for q in rows[:t + 1]]))
                    break
                if r.post is None:
                    break
                val = w.obs.R.returned(r, m)
                if it[0] == "s":
                    t += 1
                    cls.append(it[1])
                    k = len(set(cls))
                    order = list(dict.fromkeys(cls))
                    want = 0 if k < 2 else spec_value(cs.name, rows[:t], [order.index(c) for c in cls], k)
                else:
                    want = spec_value(cs.name, rows[:7], [u.index(c) for c in bl], len(u))
                last = val
                if want is None:
                    continue
                cnt += 1
                if differs(val, want) and refused:
                    return ob(subj, rule, "violated", "value %s instead of %s after a refused call" % (dec(val), dec(want)), " -> ".join(calls(r)), dict(script=str(items), labels=labs, rows=[[float(x) for x in q] for q in rows]))
            except (Unknown, Budget) as e:
                und = str(e)
                break
    if cnt:
        return ob(subj, rule, "holds", "%d points" % cnt, n=cnt)
    return ob(subj, rule, "undecided", und or "no point")


# ---------------------------------------------------------------- C16
def sized_raises(cs, scen, r):
    """a raising path whose conditions are about sizes only (clusters, samples, features) and that some sizes satisfy"""
    conds = [(and_(*st.pc), exc, msg) for st, exc, node, msg in r.raised] + [(e["cond"], e["exc"], e.get("msg", "")) for e in r.events if e["kind"] == "mayraise"]
    for c, exc, msg in conds:
        nums = sorted({int(x.args[0]) for x in find(c, lambda x: x.op == "num") if x.args[0] == int(x.args[0]) and 1 < x.args[0] <= 10 ** 6})[-4:]
        if not nums:
            continue
        near = sorted({1, 2, 3} | {n + d for n in nums for d in (-1, 0, 1, 2)})
        for k in [1] if scen.endswith(".G1") else [n for n in near if n >= (2 if "." in scen or scen == "batch" else 1)]:
            if k > 2000 or scen == "first" and k > 1:
                continue
            for n in sorted({k, k + 1, k + 7} | {x for x in near if x > k}):
                for dim in (2, 1) + tuple(near[3:]):
                    m = Model({"k": 0 if scen == "first" else k, "N": 0 if scen == "first" else n, "m": n, "dim": dim, "L": k - 1, "newlab": k - 1 if scen.startswith("known") else k}, {"labkey": lambda j: j}, budget=20_000)
                    try:
                        if m.cond(c):
                            return exc, msg, {"clusters": m.syms["k"], "samples": n, "features": dim}
                    except (Unknown, Budget):
                        break
    return None


def odd_shapes(w, name, odd, rule, where):
    """where the state stops having its generic shape at some number of clusters: go there step by step"""
    out = []
    for k in sorted(x for x in odd if x <= 70)[:2]:
        order = list(range(k + 1)) + [k, 0]
        try:
            rs = w.cs.script([("s", c) for c in order], None, 100)
        except TypeError:
            rs = w.cs.script([("s", c) for c in order])
        except Exception as e:
            out.append(ob("%s with %d clusters" % (name, k + 1), rule, "undecided", "%s: %s" % (type(e).__name__, e)))
            continue
        import random
        rng = random.Random(3)
        rows = [[Fraction(rng.randint(-99, 99), 8) for _ in range(2)] for _ in order]
        m = Model({"dim": 2}, {"h": lambda t, d: rows[t][d], "labkey": lambda j: j}, budget=4_000_000)
        bad = None
        for t, r in enumerate(rs):
            try:
                ex = [(e, msg) for st, e, node, msg in r.raised if m.cond(and_(*st.pc))] + [(e["exc"], e.get("msg", "")) for e in r.events if e["kind"] == "mayraise" and m.cond(e["cond"])]
            except (Unknown, Budget):
                break
            if ex:
                bad = (t, ex[0])
                break
        if bad:
            out.append(ob("%s with %d clusters" % (name, k + 1), rule, "violated", "sample %d raises %s" % (bad[0] + 1, bad[1]), where, dict(order=order[:bad[0] + 1], samples=[[float(x) for x in r] for r in rows[:bad[0] + 1]])))
        else:
            out.append(ob("%s with %d clusters" % (name, k + 1), rule, "holds", "%d steps" % len(rs)))
    return out


def check_C16(name, tier, seed):
    w = Work(name, tier, seed)
    obs = w.core()
    # single sample, single feature, every label new, many equal samples
    g = {}
    for o in obs:
        key = "%s %s (%s)" % (name, o.mode, o.scen)
        if o.status == "raises":
            g.setdefault(key, []).append(("violated", "raises %s" % (o.exc[0],), where_of(w.cs, o.scen), dict(o.hist.show(o.n), mode=o.mode)))
        elif o.status == "undecided":
            g.setdefault(key, []).append(("undecided", "%s" % o.why, "", None))
        else:
            g.setdefault(key, []).append(("holds", "", "", None))
    obl = unusable(w) + summarise(w.cs, g, "no raising path of the call is feasible", "no raising path taken at %d points")
    for scen in ("first", "known.G1", "new.G1", "known.G2", "new.G2", "batch"):
        r = w.cs.R.get(scen)
        if r is not None and r.post is None and r.raised and not any(scen in k for k in g):
            obl.append(ob("%s %s" % (name, scen), "some path completes", "violated", "every path raises %s" % (r.raised[0][1],), where_of(w.cs, scen), dict(scenario=scen)))
        if scen == "first":
            obl += odd_shapes(w, name, w.obs.odd, "no raising path of the call is feasible", "%s streaming" % name)
        if r is not None:
            bad = sized_raises(w.cs, scen, r)
            if bad:
                obl.append(ob("%s %s sizes" % (name, scen), "no raising path of the call is feasible", "violated", "raises %s with %s" % (bad[0], bad[2]), where_of(w.cs, scen), dict(bad[2], scenario=scen)))
    # the path to a generic state may raise on every path: then no summary exists
    for tag in ("first", "G1", "G2"):
        e = w.cs.errors.get(tag, "")
        if e.startswith("raises ") or e == "no path completes":
            obl.append(ob("%s %s" % (name, tag), "some path completes", "violated", e, "%s streaming" % name, dict(scenario=tag)))
    paths = sum(len(r.raised) + len([e for e in r.events if e["kind"] == "mayraise"]) for r in w.cs.R.values())
    proved = [s for s in ("first", "known.G1", "new.G1", "known.G2", "new.G2", "batch") if s in w.cs.R and w.cs.R[s].post is not None and not w.cs.R[s].raised and not [e for e in w.cs.R[s].events if e["kind"] == "mayraise"] and not w.cs.R[s].unknown]
    for s in proved:
        obl.append(ob("%s %s" % (name, s), "no raising path exists", "holds", "every index, key, attribute and broadcast obligation discharged"))
    return w.close(obl)


# ---------------------------------------------------------------- C17
def same_value(x, y):
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    return x == y or not differs(x, y)


def check_C17(name, tier, seed):
    w = Work(name, tier, seed)
    obl = []
    same = set()
    for scen in ("first", "known.G1", "new.G1", "known.G2", "new.G2", "batch"):
        r = w.cs.R.get(scen)
        if r is None or r.post is None:
            continue
        o = r.post.heap[r.obj.loc]
        a = o.attrs.get("criterion_value")
        if isinstance(a, Num) and isinstance(r.value, Num) and a.t is r.value.t:
            same.add(scen)
            obl.append(ob("%s %s" % (name, scen), "returned term is the published term", "holds"))
    obs = w.core()
    g = {}
    prev, fresh = {}, {}
    for o in obs:
        key = "%s %s" % (name, o.scen)
        if o.status == "undecided":
            g.setdefault(key, []).append(("undecided", o.why, "", None))
            continue
        if o.status != "value":
            continue
        wit = dict(o.hist.show(o.n), mode=o.mode)
        if o.attr is not None and not same_value(o.value, o.attr):
            g.setdefault(key, []).append(("violated", "returns %s but publishes %s" % (dec(o.value), dec(o.attr)), where_of(w.cs, o.scen), wit))
        elif o.attr is None:
            g.setdefault(key, []).append(("undecided", "no criterion_value", "", None))
        elif o.k < 2 and (isnan(o.value) or o.value != 0):
            g.setdefault(key, []).append(("violated", "returns %s for a single cluster" % dec(o.value), where_of(w.cs, o.scen), wit))
        elif o.k >= 2 and o.mode == "stream" and o.want is not None and differs(o.value, o.want) and (o.hist, o.n - 1) in prev and not isnan(o.value) and o.value == prev[(o.hist, o.n - 1)]:
            g.setdefault(key, []).append(("violated", "returns the previous value %s, the current one is %s" % (dec(o.value), dec(o.want)), where_of(w.cs, o.scen), wit))
        elif o.k >= 2 and o.mode == "stream" and o.want is None and (o.hist, o.n - 1) in fresh and not isnan(o.value) and o.value != 0 and o.value == fresh[(o.hist, o.n - 1)]:
            g.setdefault(key, []).append(("violated", "keeps the previous value %s where the definition has none" % dec(o.value), where_of(w.cs, o.scen), wit))
        elif o.k >= 2 and o.mode == "batch" and o.want is not None and differs(o.value, o.want) and o.value == 0:
            g.setdefault(key, []).append(("violated", "returns 0, not the evaluated %s" % dec(o.want), where_of(w.cs, o.scen), wit))
        else:
            g.setdefault(key, []).append(("holds", "", "", None))
        prev[(o.hist, o.n)] = o.value
        if o.k >= 2 and o.want is not None and not differs(o.value, o.want):
            fresh[(o.hist, o.n)] = o.value
    obl += summarise(w.cs, g, "returned = published, current, and 0 below two clusters", "%d points")
    return w.close(obl)


# ---------------------------------------------------------------- C18
def storage(w, st, obj, m):
    """number of stored scalars at a point, per attribute of the object and per module or class variable"""
    from .hist import axis_points
    seen = set()
    P = Projector(w.S.I, DummyGen, st, m, 0, 0, [])

    def inside(env, f):
        m.env.update(env)
        try:
            return f()
        finally:
            for v in env:
                m.env.pop(v, None)

    def cells(c):
        n = 1
        for a in c.axes:
            n *= len(axis_points(m, a))
        return n

    def key_of(v):
        if isinstance(v, Num):
            return m.val(v.t)
        if isinstance(v, Str):
            return v.s if hasattr(v, "s") else v
        if isinstance(v, Tup):
            return tuple(key_of(x) for x in v.items)
        raise Unknown("dict key")

    def size(v):
        if isinstance(v, Gated):
            return size(v.a) if m.cond(v.c) else size(v.b)
        if isinstance(v, Undef):
            return 0 if v.a is None or m.cond(v.c) else size(v.a)
        if isinstance(v, Tup):
            return sum(1 + size(x) for x in v.items)
        if isinstance(v, Arr):
            return cells(v.c)
        if isinstance(v, Bound):
            return size(v.self_)
        if isinstance(v, Top):
            raise Unknown(v.reason if hasattr(v, "reason") else "unknown value")
        if not isinstance(v, Ref):
            return 0
        if v.loc in seen:
            return 0
        seen.add(v.loc)
        c = st.heap.get(v.loc)
        if isinstance(c, ViewC):
            return size(Ref(c.base))
        if isinstance(c, ArrC):
            return cells(c)
        if isinstance(c, ListC):
            return sum(inside(env, lambda: 1 + size(x)) for x, env in P.list_items(c))
        if isinstance(c, DictC):
            n, keys = 0, {}
            if c.base is not None:
                ax, k, x = c.base
                for p in axis_points(m, ax):
                    env = dict(zip(ax.vars, p))
                    keys[inside(env, lambda: key_of(k))] = (k, x, env)
            for cond, k, x in c.entries:
                if m.cond(cond):
                    keys[key_of(k)] = (k, x, {})
            return sum(inside(env, lambda: 1 + size(k) + size(x)) for k, x, env in keys.values())
        if isinstance(c, ObjC):
            return sum(1 + size(x) for x in c.attrs.values())
        if isinstance(c, TopC):
            raise Unknown(c.reason)
        return 0

    per = {}
    old, w.S.I.s = w.S.I.s, st
    try:
        c = st.heap.get(obj.loc)
        seen.add(obj.loc)
        for a, x in c.attrs.items():
            per["self." + a] = size(x)
        for mod, fid in w.S.I.mods.items():
            for nm, x in st.frames.get(fid, {}).items():
                if isinstance(x, Cls):
                    cc = st.heap.get(x.loc)
                    if isinstance(cc, ObjC):
                        for a, y in cc.attrs.items():
                            if isinstance(y, (Ref, Tup, Gated)):
                                per["%s.%s.%s" % (mod, nm, a)] = size(y)
                elif isinstance(x, (Ref, Tup, Gated)):
                    per["%s.%s" % (mod, nm)] = size(x)
    finally:
        w.S.I.s = old
    return per


def effort(r, m):
    """sizes of the iterations of one call at a point"""
    n = r.work
    for h, _ in r.domains:
        try:
            x = m.val(h)
        except Unknown:
            continue
        if not isnan(x):
            n += x
    return n


def grows(s):
    """keeps growing while the clusters stay the same"""
    return len(s) >= 8 and s[-1] > s[len(s) // 2] > s[2] and s[-1] > s[-4]


def check_C18(name, tier, seed):
    w = Work(name, tier, seed)
    obl = []
    # storage along streams that keep repeating the same clusters
    from fractions import Fraction as F
    import random
    rng = random.Random(seed + 9)
    und = None
    grown, late, scaled = {}, {}, 0
    works, slower = [], None
    pts = 0
    runs = [(w.cs, labs) for labs in ([0] * 11, [0, 1] * 6 + [1], [4, 2, 9] * 4)]
    if any(c == int(c) and c >= 6 for c in w.obs.literals()):
        # what happens every so many samples, or up to so many: the same streams with the limits written in the code
        # brought down to 3 (what stays bounded does so with smaller limits too)
        try:
            small = ClassScen(Session(SRC, scaled=True), name)
            runs += [(small, [0] * 22), (small, [0, 1] * 11)]
        except Exception as e:
            und = "%s: %s" % (type(e).__name__, e)
    for cs, labs in runs:
        dim = 2
        key = [list(dict.fromkeys(labs)).index(c) for c in labs]
        names = list(dict.fromkeys(labs))
        rows = [[F(rng.randint(-40, 40), 8) for _ in range(dim)] for _ in labs]
        try:
            rs = cs.script([("s", c) for c in key])
        except Exception as e:
            und = "%s: %s" % (type(e).__name__, e)
            continue
        m = w.obs.R.mk({"dim": dim}, {}, "f8")
        m.fams["h"] = lambda t, d: rows[t][d]
        m.fams["labkey"] = lambda j: names[j]
        series = {}
        work = []
        try:
            for t, r in enumerate(rs):
                if r.post is None:
                    break
                if len(set(key[:t + 1])) == len(set(key)):
                    for p, n in storage(cs, r.post, r.obj, m).items():
                        series.setdefault(p, []).append(n)
                    work.append(effort(r, m))
                    pts += 1
        except (Unknown, Budget) as e:
            und = str(e)
            continue
        for p, s in series.items():
            if grows(s):
                (grown if cs is w.cs else late).setdefault(p, s)
        if cs is not w.cs:
            scaled += 1
            continue
        works.append(work)
        if grows(work):
            slower = slower or (labs, work)
    if scaled == 2:
        # what stops at a limit is bounded
        grown = late
    elif late:
        grown.update(late)
    if grown:
        p = sorted(grown)[0]
        obl.append(ob("%s storage" % name, "stored elements do not depend on the number of samples", "violated", "%s keeps growing with the samples: %s" % (p, grown[p]),
                      "%s: %s" % (name, p), dict(attribute=sorted(grown), sizes=grown[p])))
    elif und and not pts:
        obl.append(ob("%s storage" % name, "stored elements do not depend on the number of samples", "undecided", und))
    else:
        obl.append(ob("%s storage" % name, "stored elements do not depend on the number of samples", "holds", "%d states" % pts, n=pts))
    # generic states: extents over k and dim only; work: every iteration domain over k and dim only
    for tag, g in w.cs.gen.items():
        bad = [l for l in g.leaves if any(NSYM in free(e) for e in l.ext)] if scaled != 2 or late else []
        for l in bad:
            obl.append(ob("%s %s" % (name, l.name), "extent over clusters and features only", "violated", "extent %s" % (l.ext,), "%s: self.%s" % (name, l.name.split(":")[1]), dict(leaf=l.name)))
        obl.append(ob("%s generic state %s" % (name, tag), "extents over clusters and features only", "holds" if not bad else "violated", "%d components" % len(g.leaves), n=max(1, len(g.leaves))))
    for scen in ("known.G1", "known.G2", "new.G1", "new.G2"):
        r = w.cs.R.get(scen)
        if r is None:
            if scen == "known.G2":
                # no generic state: the work along the bounded streams
                if slower:
                    obl.append(ob("%s work" % name, "work of an update along streams of the same clusters", "violated", "grows with the samples: %s" % (slower[1],),
                                  name, dict(labels=slower[0], work=[int(x) for x in slower[1]])))
                elif any(len(x) >= 8 for x in works):
                    obl.append(ob("%s work" % name, "work of an update along streams of the same clusters", "holds", "bounded: %s" % [len(x) for x in works], n=sum(map(len, works))))
                else:
                    obl.append(ob("%s work" % name, "work of an update along streams of the same clusters", "undecided", w.cs.errors.get(scen, "no generic state")))
            continue
        doms = list(r.domains)
        if isinstance(r.value, Num):
            for t in find(r.value.t, lambda x: x.op == "red"):
                for h in t.args[2]:
                    doms.append((h, where_of(w.cs, scen)))
        bad = None
        for h, where in doms:
            if NSYM in free(h):
                bad = (h, where)
                break
            counts = find(h, lambda x: x.op == "el" and x.args[0].startswith(("G1:", "G2:")))
            if counts:
                v = varies(w, scen, h)
                if v:
                    bad = (h, where + " " + v)
                    break
        if bad:
            obl.append(ob("%s %s work" % (name, scen), "iteration domains over clusters and features only", "violated", "an iteration over %s" % bad[0], bad[1], dict(scenario=scen)))
        else:
            obl.append(ob("%s %s work" % (name, scen), "iteration domains over clusters and features only", "holds", "%d domains" % len(doms), n=max(1, len(doms))))
    return w.close(obl)


NSYM = sym("N", "int")


def varies(w, scen, t):
    """does a size depend on the number of samples at fixed clusters and features?  evaluated along two streams"""
    vals = set()
    tag = scen.split(".")[1]
    from fractions import Fraction as F
    for n in (3, 7, 11):
        labs = [0] * n if tag == "G1" else [0, 1] * n
        h = History("same clusters", [[F(i * i % 7), F(i % 5)] for i in range(len(labs))], labs)
        st = w.obs.R.tables(h, tag, full=True)
        if st is None:
            return None
        tabs, bools, labels, cnt = st
        m = w.obs.R.mk({"dim": 2, "k": len(labels), "N": cnt, "L": 0, "newlab": 99}, {}, "f8")
        for nm, tb in tabs.items():
            m.table(nm, tb)
        m.bools = dict(bools)
        m.fams["labkey"] = lambda j: labels[j]
        m.fams["x"] = lambda d: F(1)
        for s in free(t):
            if s.args[0] not in m.syms:
                return None
        try:
            vals.add(m.val(t))
        except (Unknown, Budget):
            return None
    return "takes the values %s" % sorted(vals) if len(vals) > 2 else None


def class_names():
    """index classes of the analysed package: the documented nine, and any other subclass that is exported"""
    return list(CLASSES)


def extra_jobs(pid, tier, seed):
    return []


from .tech import TECH
ASSUME = [
    "NumPy functions behave as modelled in sa/npm.py and sa/npf.py (shape, dtype, aliasing and value models of the functions the code uses)",
    "real arithmetic: rounding is not modelled (rounding and finiteness are C26/C27, not claimed)",
    "callers pass numpy arrays and integer labels and do not touch private attributes",
]
