"""Decision procedures of C19-C25: the published surface of the package and the legacy indices."""
import ast
import io
import os
import re
import sys
import tokenize
from fractions import Fraction as F
import random

from .terms import *
from .vals import *
from .ev import Unknown, Budget, isnan
from .interp import Raised, Dead, AnalysisError
from .scen import Session, ClassScen, NODE
from .hist import History, Projector, DummyGen, differs, Runner, Mismatch
from .legacy import LegacyScen
from . import checks as C
from . import lib
from .checks import ob

LEGACY = ["iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB"]


def jobs(pid, tier, seed):
    if pid == "C19":
        return [(check_C19, (tier, seed))]
    if pid == "C20":
        return [(C20_modern, (n, tier, seed)) for n in C.CLASSES] + [(C20_legacy, (n, tier, seed)) for n in LEGACY] + [(C20_package, (tier, seed))]
    if pid == "C21":
        return [(check_C21, (tier, seed))]
    if pid == "C22":
        return [(check_C22, (tier, seed))]
    if pid in ("C28", "C29", "C30", "C31"):
        from . import extra
        f = {"C28": extra.check_C28, "C29": extra.check_C29, "C30": extra.check_C30, "C31": extra.check_C31}[pid]
        return [(f, (n, tier, seed)) for n in ((C.class_names() if pid in ("C30", "C31") else []) + LEGACY)]
    return [({"C23": check_C23, "C24": check_C24, "C25": check_C25}[pid], (n, tier, seed)) for n in LEGACY]


def pack(name, obl, S=None, points=0, errors=None, scen=None, notes=()):
    return dict(name=name, obligations=obl, points=points, notes=list(notes), errors=errors or {},
                functions=sorted({"%s:%s:%d" % c for c in getattr(S, "calls_total", ())}) if S is not None else [],
                scenarios=scen or {}, guards=0, onesided=0)


# ---------------------------------------------------------------- C19
def documented():
    """acronyms listed under 'Implemented CVIs' in the README and the guide"""
    out = {}
    for rel in ("README.md", "docs/source/guide.rst"):
        p = os.path.join(C.REPO, rel)
        if not os.path.exists(p):
            continue
        txt = open(p, encoding="utf-8").read()
        parts = re.split(r"(?m)^(?:#+\s*)?Implemented CVIs\s*$", txt)
        if len(parts) < 2:
            continue
        sec = parts[-1]
        names, started = [], False
        for l in sec.splitlines():
            m = re.match(r"\s*[-*]\s+\*\*([A-Za-z0-9_]+)\*\*", l)
            if m:
                names.append(m.group(1))
                started = True
            elif started and l.strip():
                break
        if names:
            out[rel] = names
    return out


def as_list(I, v):
    """concrete items of a list or tuple value, or None"""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref):
        c = I.s.heap.get(v.loc)
        if isinstance(c, ListC) and c.base is None and all(x[0] is TRUE for x in c.tail):
            return [x[1] for x in c.tail]
    return None


def source_files():
    out = []
    for d, ds, fs in os.walk(os.path.join(C.SRC, "cvi")):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith(".py"):
                out.append(os.path.join(d, f))
    return out


def modname(p):
    rel = os.path.relpath(p, C.SRC)[:-3].split(os.sep)
    if rel[-1] == "__init__":
        rel.pop()
    return ".".join(rel)


def check_C19(tier, seed):
    obl = []
    S = Session(C.SRC)
    I = S.I
    S.reset()
    fr = I.frame_of_mod("cvi")
    docs = documented()
    listed = []
    for rel, names in docs.items():
        for n in names:
            if n not in listed:
                listed.append(n)
    if not listed:
        obl.append(ob("documentation", "the implemented indices are listed", "undecided", "no list found in README.md or docs/source/guide.rst"))
    names = listed + [n for n in C.CLASSES if n not in listed]
    allv = as_list(I, fr.get("__all__")) if "__all__" in fr else None
    allnames = [x.s for x in allv if isinstance(x, Str)] if allv is not None and all(isinstance(x, Str) and x.s is not None for x in allv) else None
    mods = as_list(I, fr.get("MODULES")) if "MODULES" in fr else None
    base = fr.get("CVI")
    for n in names:
        where = "src/cvi/__init__.py: %s" % n
        v = fr.get(n)
        if v is None:
            obl.append(ob(n, "exported by the package under its acronym", "violated", "cvi.%s does not exist" % n, where, dict(name=n)))
            continue
        if isinstance(v, Mod):
            obl.append(ob(n, "exported by the package under its acronym", "violated", "cvi.%s is the module %s, not the class" % (n, v.name), where, dict(name=n)))
            continue
        if not isinstance(v, Cls):
            obl.append(ob(n, "exported by the package under its acronym", "undecided", "cvi.%s is %r" % (n, v), where))
            continue
        home = v.mod.split(".")[-1]
        if v.name != n and v.name in names:
            obl.append(ob(n, "exported by the package under its acronym", "violated", "cvi.%s is the class %s" % (n, v.name), where, dict(name=n)))
        else:
            obl.append(ob(n, "exported by the package under its acronym", "holds", "class %s of %s" % (v.name, v.mod)))
        if "__all__" in fr:
            if allnames is None:
                obl.append(ob(n, "in __all__", "undecided", "__all__ is not a constant list"))
            else:
                obl.append(ob(n, "in __all__", "holds" if n in allnames else "violated", "" if n in allnames else "missing from __all__: not exported by 'from cvi import *'", "src/cvi/__init__.py: __all__", dict(name=n)))
        if "MODULES" not in fr:
            obl.append(ob(n, "exactly once in MODULES", "violated", "cvi.MODULES does not exist", "src/cvi/__init__.py", dict(name=n)))
        elif mods is None:
            obl.append(ob(n, "exactly once in MODULES", "undecided", "MODULES is not a constant list"))
        else:
            k = sum(1 for m in mods if m is v)
            obl.append(ob(n, "exactly once in MODULES", "holds" if k == 1 else "violated", "" if k == 1 else "%d entries" % k, "src/cvi/__init__.py: MODULES", dict(name=n)))
        # constructible, and both modes work on a first use
        obl += usable(S, n)
    if mods is not None:
        for m in mods:
            if not isinstance(m, Cls):
                obl.append(ob("MODULES", "MODULES holds index classes only", "violated" if not isinstance(m, (Top, Gated)) else "undecided", "entry %r" % (m,), "src/cvi/__init__.py: MODULES", dict(entry=str(m))))
            elif not any(m is fr.get(n) for n in names):
                obl.append(ob(m.name, "every listed class is documented and exported", "violated", "%s is in MODULES but not documented under its name" % m.name, "src/cvi/__init__.py: MODULES", dict(entry=m.name)))
    if allnames is not None:
        for n in allnames:
            if n not in fr and not os.path.exists(os.path.join(C.SRC, "cvi", n)) and not os.path.exists(os.path.join(C.SRC, "cvi", n + ".py")):
                obl.append(ob(n, "every name in __all__ exists", "violated", "'from cvi import *' raises AttributeError for %s" % n, "src/cvi/__init__.py: __all__", dict(name=n)))
    # conversely: every concrete index class of the package is exported and listed
    classes = {}
    for p in source_files():
        mn = modname(p)
        try:
            I.load(mn)
        except (AnalysisError, Raised, Dead) as e:
            obl.append(ob(mn, "module loads", "undecided", str(e)))
            continue
        if I.s is None:
            S.reset()
            continue
        for nm, v in list(I.s.frames[I.mods[mn]].items()):
            if isinstance(v, Cls) and v.mod == mn:
                classes[v.loc] = v
    if isinstance(base, Cls):
        subs = [c for c in classes.values() if base in c.mro() and c is not base]
        parents = {b for c in subs for b in c.mro()[1:]}
        for c in subs:
            exported = any(fr.get(n) is c for n in names)
            rule = "every index class is documented, exported and listed"
            if exported:
                obl.append(ob(c.name, rule, "holds"))
                continue
            if c in parents or c.name.startswith("_"):
                continue        # a shared intermediate base
            missing = [m for m in ("_param_inc", "_param_batch", "_evaluate") if "abstract" in getattr(I.class_lookup(c, m)[0], "flags", ())]
            if missing:
                continue        # not a complete index
            obl.append(ob(c.name, rule, "violated", "class %s of %s is not published" % (c.name, c.mod), c.mod, dict(cls=c.name)))
    else:
        obl.append(ob("CVI", "the base class is exported", "violated" if base is None else "undecided", "cvi.CVI", "src/cvi/__init__.py", dict(name="CVI")))
    return pack("package surface", obl, S)


def usable(S, n):
    out = []
    where = "cvi.%s()" % n
    try:
        cs = ClassScen(S, n)
        cs.try_("new", cs.s_new)
        if "new" not in cs.R:
            e = cs.errors.get("new", "")
            v = "violated" if e.startswith("raises ") else "undecided"
            return [ob(n, "constructible without arguments", v, e, where, dict(name=n))]
        bad = [x for x in cs.R["new"].events if x["kind"] == "mayraise"]
        out.append(ob(n, "constructible without arguments", "holds" if not bad else "undecided", "" if not bad else str(bad[0]["exc"]), where))
        cs.try_("first", cs.s_first)
        cs.try_("batch", cs.s_batch)
        for scen, what in (("first", "streaming update"), ("batch", "batch update")):
            r = cs.R.get(scen)
            if r is None:
                out.append(ob(n, "implements " + what, "undecided", cs.errors.get(scen, "")))
            elif r.post is None and r.raised:
                out.append(ob(n, "implements " + what, "violated", "every path raises %s" % r.raised[0][1], "cvi.%s.get_cvi" % n, dict(scenario=scen)))
            else:
                # evaluation: the value is a number
                ok = isinstance(r.value, (Num, Ref, Arr, Gated, Top))
                out.append(ob(n, "implements " + what, "holds" if ok else "violated", "" if ok else "returns %r" % (r.value,), "cvi.%s.get_cvi" % n, dict(scenario=scen)))
                none = r.value is NONE
                if none:
                    out.append(ob(n, "evaluation returns a value", "violated", "%s returns None" % what, "cvi.%s.get_cvi" % n, dict(scenario=scen)))
    finally:
        S.reset()
    return out


# ---------------------------------------------------------------- C20
def C20_package(tier, seed):
    obl = []
    base = None
    for opt in (0, 1, 2):
        try:
            S = Session(C.SRC, optimize=opt)
            if base is None:
                base = S
            for p in source_files():
                S.I.load(modname(p))
            # module-level names do not depend on the flags
            for mn, fid in S.I.mods.items():
                a = set(base.I.s.frames.get(base.I.mods.get(mn), {})) if mn in base.I.mods else None
                b = set(S.I.s.frames.get(fid, {}))
                if a is not None and a != b:
                    obl.append(ob("%s at -O level %d" % (mn, opt), "the module defines the same names", "violated", "differs in %s" % sorted(a ^ b), mn, dict(names=sorted(a ^ b))))
                    continue
                for nm in sorted(b):
                    va, vb = constant(base.I, base.I.s.frames[base.I.mods[mn]][nm]), constant(S.I, S.I.s.frames[fid][nm])
                    if a is not None and not nm.startswith("__") and va is not None and vb is not None and va != vb:
                        obl.append(ob("%s.%s at -O level %d" % (mn, nm, opt), "the module-level value is the same", "violated", "%s without flags, %s with" % (str(va)[:80], str(vb)[:80]), mn, dict(name=nm)))
            obl.append(ob("import at -O level %d" % opt, "no path of any module body raises", "holds", "%d modules" % len(S.I.mods)))
        except (AnalysisError, Raised) as e:
            if opt == 0:
                obl.append(ob("import", "no path of any module body raises", "undecided", str(e)))
                break
            obl.append(ob("import at -O level %d" % opt, "no path of any module body raises", "violated", str(e), "src/cvi", dict(level=opt)))
    rule = "the legacy factory answers alike with and without the flags"
    want = {}
    for opt in (0, 1, 2):
        try:
            S = Session(C.SRC, optimize=opt)
            S.lookup("cvi.compat.iCVI")
        except (AnalysisError, Raised):
            continue
        for v, d in [(Str(n), n) for n in list(LEGACY) + ["", "XB", "foo"]] + [(NONE, "None"), (Num(num(3), "pyint"), "3")]:
            r, st = factory(S, v)
            if r == "value":
                v_, state, _ = st
                c = state.heap.get(v_.loc) if isinstance(v_, Ref) else None
                got = "an object of class %s" % c.cls.name if isinstance(c, ObjC) and c.cls is not None else None
            else:
                got = "raises %s" % st if r == "raises" else None
            if opt == 0:
                want[d] = got
                continue
            subj = "iCVI(%s) at -O level %d" % (d, opt)
            if got is None or want.get(d) is None:
                obl.append(ob(subj, rule, "undecided", str(st)))
            else:
                obl.append(ob(subj, rule, "holds" if got == want[d] else "violated", got if got == want[d] else "%s without flags, %s with" % (want[d], got), "src/cvi/compat/v0.py (iCVI)", dict(name=d, level=opt) if got != want[d] else None))
    return pack("package", obl, None)


def constant(I, v, depth=0):
    """a module-level value that is known completely, in a form that can be compared between two analyses"""
    if isinstance(v, Num):
        return ("number", str(v.t)) if isnum(v.t) else None
    if isinstance(v, Str):
        return ("string", v.s) if v.s is not None else None
    if v is NONE:
        return ("None",)
    if isinstance(v, (Cls, Func)):
        return (type(v).__name__, v.name)
    if depth < 4:
        its = as_list(I, v)
        if its is not None:
            out = [constant(I, x, depth + 1) for x in its]
            return ("items", out) if all(x is not None for x in out) else None
    return None


def asserts(w, obl, label, points):
    """AssertionError paths that are taken at some point: behaviour that -O removes"""
    for scen, r in w.cs.R.items():
        sites = [x for x in r.raised if x[1] == "AssertionError"] + [e for e in r.events if e["kind"] == "mayraise" and e["exc"] == "AssertionError"]
        if not sites:
            continue
        hit = None
        for m, show_ in points(scen, r):
            try:
                ex = w.obs.R.raising(r, m) if hasattr(w, "obs") else w.R.raising(r, m)
            except (Unknown, Budget):
                continue
            a = [x for x in ex if x[0] == "AssertionError"]
            if a:
                hit = (a[0], show_)
                break
        subj = "%s %s" % (label, scen)
        if hit:
            obl.append(ob(subj, "no assertion can fail", "violated", "an assertion decides the outcome (%s); python -O skips it" % (hit[0],), "%s line %s" % (C.where_of(w.cs, scen), hit[0][1]), dict(scenario=scen, example=hit[1])))
        elif any(isinstance(x, tuple) and and_(*x[0].pc) is TRUE for x in sites):
            obl.append(ob(subj, "no assertion can fail", "violated", "the call always fails an assertion", C.where_of(w.cs, scen), dict(scenario=scen)))
        else:
            obl.append(ob(subj, "no assertion can fail", "undecided", "assertion not discharged"))


def outcomes(w, hs):
    out = {}
    for h in hs:
        for o in w.obs.all([h]):
            key = (h.name, o.mode, o.n)
            if o.status == "value":
                out[key] = ("value", o.value, o)
            elif o.status == "raises":
                out[key] = ("raises", o.exc[0][0], o)
            else:
                out[key] = ("undecided", o.why, o)
    return out


def C20_modern(name, tier, seed):
    w0 = C.Work(name, tier, seed)
    try:
        w2 = C.Work(name, tier, seed, optimize=2)
    except (AnalysisError, Raised) as e:
        return pack(name, [ob(name, "loads with docstrings and assertions stripped", "violated", str(e), "src/cvi", dict(level=2))])
    obl = []
    hs = lib.core(seed, tier)[: 10 if tier == "quick" else 60]
    a, b = outcomes(w0, hs), outcomes(w2, hs)
    groups = {}
    for key, x in a.items():
        y = b.get(key)
        k = "%s %s" % (name, key[1])
        if y is None or "undecided" in (x[0], y[0]):
            if y is not None and x[0] != y[0] and y[0] == "raises" and x[0] == "value":
                pass
            groups.setdefault(k, []).append(("undecided", "not comparable", "", None))
            continue
        same = x[0] == y[0] and (x[1] == y[1] if x[0] == "raises" else C.same_value(x[1], y[1]))
        if same:
            groups.setdefault(k, []).append(("holds", "", "", None))
        else:
            o = x[2]
            groups.setdefault(k, []).append(("violated", "%s without flags, %s under -OO" % (desc(x), desc(y)), C.where_of(w0.cs, o.scen), dict(o.hist.show(o.n), mode=o.mode)))
    obl += C.summarise(w0.cs, groups, "same outcome with and without assertions and docstrings", "same at %d points")
    for scen, what in C.REFUSALS:
        r0, r2 = w0.cs.R.get(scen), w2.cs.R.get(scen)
        subj = "%s %s (%s)" % (name, what, scen)
        rule = "the refusal does not depend on -O"
        if r0 is None or r2 is None:
            obl.append(ob(subj, rule, "undecided", "no summary"))
            continue
        if plain_refusal(r0) and plain_refusal(r2):
            same = {x[1] for x in r0.raised} == {x[1] for x in r2.raised}
            obl.append(ob(subj, rule, "holds" if same else "violated", "%s / %s" % (sorted({x[1] for x in r0.raised}), sorted({x[1] for x in r2.raised})), C.where_of(w0.cs, scen), dict(scenario=what)))
            continue
        verdict, n = None, 0
        for (h, m0), (_, m2) in zip(C.refusal_points(w0, scen, r0), C.refusal_points(w2, scen, r2)):
            try:
                e0, e2 = w0.obs.R.raising(r0, m0), w2.obs.R.raising(r2, m2)
            except (Unknown, Budget) as e:
                verdict = verdict or ("undecided", str(e), None)
                continue
            n += 1
            x0 = e0[0][0] if e0 else "accepted"
            x2 = e2[0][0] if e2 else "accepted"
            if x0 != x2:
                verdict = ("violated", "%s without flags, %s under -OO" % (x0, x2), h)
                break
        if verdict and verdict[0] == "violated":
            obl.append(ob(subj, rule, "violated", verdict[1], C.where_of(w0.cs, scen), dict(scenario=what, example=verdict[2].show())))
        elif n:
            obl.append(ob(subj, rule, "holds", "%d points" % n, n=n))
        else:
            obl.append(ob(subj, rule, "undecided", verdict[1] if verdict else "no point"))
    # inputs outside the documented contract: an assertion that checks them vanishes under -O
    invalid(w0)

    def points(scen, r):
        if scen.startswith("bad."):
            return bad_points(w0, scen, r)
        if scen in dict(C.REFUSALS):
            return [(m, h.show()) for h, m in C.refusal_points(w0, scen, r)]
        return value_points(w0, scen, r)
    asserts(w0, obl, name, points)
    return w0.close(obl)


def plain_refusal(r):
    return r.post is None and r.raised and not [e for e in r.events if e["kind"] == "mayraise"]


def desc(x):
    return "value %s" % C.dec(x[1]) if x[0] == "value" else "%s %s" % (x[0], x[1])


def value_points(w, scen, r):
    """models of a valid step"""
    out = []
    for h in lib.core(w.seed, "quick")[:8]:
        if scen == "batch":
            u = sorted(set(h.labels))
            if len(u) < 2:
                continue
            m = w.obs.R.mk({"dim": h.dim, "k": len(u), "m": len(h.rows)}, {}, "f8")
            m.fams["data"] = lambda i, d, h=h: h.rows[i][d]
            m.fams["lab"] = lambda i, h=h: h.labels[i]
            m.fams["u"] = lambda j, u=u: u[j]
            m.fams["cls"] = lambda i, h=h, u=u: u.index(h.labels[i])
            out.append((m, h.show()))
            continue
        tag = scen.split(".")[1] if "." in scen else None
        base = {"dim": h.dim, "newlab": 4242, "L": 0, "k": 0, "N": 0}
        m = w.obs.R.mk(base, {}, "f8")
        m.fams["x"] = lambda d, h=h: h.rows[0][d]
        if tag in ("G1", "G2"):
            st = w.obs.R.tables(h, tag)
            if st is None:
                continue
            tabs, bools, labels, n = st
            m.syms.update(k=len(labels), N=n, L=len(labels) - 1)
            for nm, t in tabs.items():
                m.table(nm, t)
            m.bools = dict(bools)
            m.fams["labkey"] = lambda j, labels=labels: labels[j]
        out.append((m, h.show()))
    return out


BADDIM = sym("dimx", "int")


def invalid(w):
    """scenarios with inputs of inconsistent sizes"""
    cs, S = w.cs, w.S
    I = S.I

    def batch():
        o = cs._start()
        I.s.ctx = I.s.ctx.assume(le(ONE, sym("m", "int")), le(ONE, sym("m1", "int")))
        a, b, c = plain_axis(sym("m", "int"), "s"), plain_axis(sym("dim", "int"), "d"), plain_axis(sym("m1", "int"), "s")
        data = S.caller_array([a, b], el("data", a.v, b.v))
        lab = S.caller_array([c], el("lab", c.v), "lab")
        r = S.call("bad.batch", lambda: cs.get(o, data, lab), [data, lab])
        r.obj = o
        return r

    def step(kind, tag):
        o = cs.enter(tag)
        a = plain_axis(BADDIM, "d")
        I.s.ctx = I.s.ctx.assume(le(ONE, BADDIM))
        x = S.caller_array([a], el("x", a.v))
        K = sym("k", "int")
        if kind == "known":
            I.s.ctx = I.s.ctx.assume(le(ZERO, sym("L", "int")), lt(sym("L", "int"), K))
            lab = el("labkey", sym("L", "int") if tag != "G1" else ZERO)
        else:
            lab = sym("newlab", "lab")
        r = S.call("bad", lambda: cs.get(o, x, Num(lab, "lab")), [x])
        r.obj, r.tag = o, tag
        return r
    cs.try_("bad.batch", batch)
    for kind in ("known", "new"):
        for tag in ("G1", "G2"):
            if tag in cs.gen:
                cs.try_("bad.%s.%s" % (kind, tag), lambda kind=kind, tag=tag: step(kind, tag))


def bad_points(w, scen, r):
    out = []
    if scen == "bad.batch":
        for h in lib.core(w.seed, "quick")[:4]:
            for dm in (-1, 1):
                u = sorted(set(h.labels))
                m = w.obs.R.mk({"dim": h.dim, "k": len(u), "m": len(h.rows), "m1": max(1, len(h.rows) + dm)}, {}, "f8")
                m.fams["data"] = lambda i, d, h=h: h.rows[i][d]
                m.fams["lab"] = lambda i, h=h: h.labels[i % len(h.labels)]
                m.fams["u"] = lambda j, u=u: u[j]
                m.fams["cls"] = lambda i, h=h, u=u: u.index(h.labels[i % len(h.labels)])
                out.append((m, dict(h.show(), labels_given=len(h.rows) + dm)))
        return out
    parts = scen.split(".")
    for m, s in value_points(w, ".".join(parts[1:]), r):
        m.syms["dimx"] = m.syms["dim"] + 1
        m.fams["x"] = lambda d: F(d + 1, 3)
        out.append((m, dict(s, last_sample_features="one more")))
    return out


def C20_legacy(name, tier, seed):
    obl = []
    L0 = LWork(name, tier, seed)
    try:
        L2 = LWork(name, tier, seed, optimize=2)
    except (AnalysisError, Raised) as e:
        return pack(name, [ob(name, "loads with docstrings and assertions stripped", "violated", str(e), "src/cvi/compat", dict(level=2))])
    for seq, labs in L0.orders():
        a, b = L0.script(seq), L2.script(seq)
        subj = "%s order %s" % (name, seq)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(b, str) and not isinstance(a, str) and b.startswith(("Raised", "Dead")):
                obl.append(ob(subj, "same outcome with and without assertions and docstrings", "violated", b, name, dict(order=seq)))
            else:
                obl.append(ob(subj, "same outcome with and without assertions and docstrings", "undecided", str(a)))
            continue
        bad = None
        n = 0
        for m in L0.models(seq, 2):
            for t, (x, y) in enumerate(zip(a, b)):
                try:
                    ex, ey = L0.R.raising(x, m), L2.R.raising(y, m)
                    if [e[0] for e in ex] != [e[0] for e in ey]:
                        bad = "%s without flags, %s under -OO" % (ex[:1], ey[:1])
                        break
                    if ex or x.post is None:
                        break
                    try:
                        vx, vy = L0.R.returned(x, m), L2.R.returned(y, m)
                    except (Unknown, Budget):
                        n += 1
                        continue
                    n += 1
                    if not C.same_value(vx, vy):
                        bad = "value %s without flags, %s under -OO" % (C.dec(vx), C.dec(vy))
                        break
                except (Unknown, Budget):
                    break
            if bad:
                break
            if len(a) != len(b):
                bad = "stops after %d / %d samples" % (len(a), len(b))
        obl.append(ob(subj, "same outcome with and without assertions and docstrings", "violated" if bad else ("holds" if n else "undecided"), bad or "%d points" % n, "cvi.compat.%s.update" % name, dict(order=seq) if bad else None, n=max(1, n)))
    for scen in ["skip.new"] + ["skip." + t for t in L0.cs.tags]:
        r0, r2 = L0.cs.R.get(scen), L2.cs.R.get(scen)
        if r0 is None or r2 is None:
            continue
        if plain_refusal(r0) and plain_refusal(r2):
            same = {x[1] for x in r0.raised} == {x[1] for x in r2.raised}
            obl.append(ob("%s %s" % (name, scen), "the refusal does not depend on -O", "holds" if same else "violated", "%s / %s" % (sorted({x[1] for x in r0.raised}), sorted({x[1] for x in r2.raised})), C.where_of(L0.cs, scen), dict(scenario=scen)))
        elif plain_refusal(r0) != plain_refusal(r2) and (plain_refusal(r0) or plain_refusal(r2)):
            obl.append(ob("%s %s" % (name, scen), "the refusal does not depend on -O", "violated", "refused only %s" % ("without flags" if plain_refusal(r0) else "under -OO"), C.where_of(L0.cs, scen), dict(scenario=scen)))
    # assertions on the paths of valid and refused updates
    for scen, r in L0.cs.R.items():
        if any(x[1] == "AssertionError" and and_(*x[0].pc) is TRUE for x in r.raised):
            obl.append(ob("%s %s" % (name, scen), "no assertion can fail", "violated", "the call fails an assertion", C.where_of(L0.cs, scen), dict(scenario=scen)))
    constructors(L0, L0.S.lookup("cvi.compat." + name), obl)
    return L0.close(obl)


def constructors(w, cls, obl):
    """an assertion on a constructor argument, in the class or a base class of it"""
    S = w.S
    I = S.I
    if not isinstance(cls, Cls):
        return
    for c in cls.mro():
        S.reset()
        init, owner = I.class_lookup(c, "__init__")
        if not isinstance(init, Func):
            continue
        params = [a.arg for a in init.node.args.args][1:]
        if not params:
            continue
        syms = [sym("arg%d" % i, "int") for i in range(len(params))]
        try:
            r = S.call("new", lambda: I.call(c, [Num(x, "pyint") for x in syms], {}, NODE), [])
        except Exception as e:
            obl.append(ob("%s()" % c.name, "no assertion can fail", "undecided", "%s: %s" % (type(e).__name__, e)))
            continue
        cands = [-1, 0, 1, 2, 7, 43, 53]
        bad = None
        for v in cands:
            m = Runner(None_cs(S)).mk({"arg%d" % i: v for i in range(len(params))}, {}, "f8")
            try:
                for st, exc, node, msg in r.raised:
                    if exc == "AssertionError" and m.cond(and_(*st.pc)):
                        bad = (v, node)
                for e in r.events:
                    if e["kind"] == "mayraise" and e["exc"] == "AssertionError" and m.cond(e["cond"]):
                        bad = (v, e["node"])
            except (Unknown, Budget):
                continue
        obl.append(ob("%s(%s)" % (c.name, ", ".join(params)), "no assertion can fail", "violated" if bad else "holds", "%s(%s) is refused by an assertion, which python -O skips" % (c.name, bad[0]) if bad else "",
                      "%s.%s.__init__" % (c.mod, c.name), dict(cls=c.name, value=bad[0]) if bad else None))


class None_cs:
    def __init__(self, S):
        self.S = S


# ---------------------------------------------------------------- C21
NEW_MODULES = {"dataclasses": "3.7", "contextvars": "3.7", "importlib.resources": "3.7", "importlib.metadata": "3.8", "zoneinfo": "3.9", "graphlib": "3.9",
               "tomllib": "3.11", "multiprocessing.shared_memory": "3.8", "_interpreters": "3.13", "unittest.async_case": "3.8"}
NEW_API = {
    "math.prod": "3.8", "math.dist": "3.8", "math.isqrt": "3.8", "math.comb": "3.8", "math.perm": "3.8", "math.lcm": "3.9", "math.ulp": "3.9", "math.nextafter": "3.9",
    "math.cbrt": "3.11", "math.exp2": "3.11", "math.sumprod": "3.12", "math.fma": "3.13", "math.remainder": "3.7",
    "functools.cache": "3.9", "functools.cached_property": "3.8", "functools.singledispatchmethod": "3.8",
    "itertools.pairwise": "3.10", "itertools.batched": "3.12", "operator.call": "3.11", "operator.is_none": "3.14",
    "statistics.fmean": "3.8", "statistics.geometric_mean": "3.8", "statistics.multimode": "3.8", "statistics.quantiles": "3.8", "statistics.NormalDist": "3.8",
    "statistics.covariance": "3.10", "statistics.correlation": "3.10", "statistics.linear_regression": "3.10", "statistics.kde": "3.13",
    "typing.Protocol": "3.8", "typing.Final": "3.8", "typing.final": "3.8", "typing.Literal": "3.8", "typing.TypedDict": "3.8", "typing.runtime_checkable": "3.8",
    "typing.SupportsIndex": "3.8", "typing.get_origin": "3.8", "typing.get_args": "3.8", "typing.Annotated": "3.9", "typing.TypeAlias": "3.10", "typing.ParamSpec": "3.10",
    "typing.Concatenate": "3.10", "typing.TypeGuard": "3.10", "typing.is_typeddict": "3.10", "typing.Self": "3.11", "typing.LiteralString": "3.11", "typing.Never": "3.11",
    "typing.assert_never": "3.11", "typing.assert_type": "3.11", "typing.reveal_type": "3.11", "typing.Required": "3.11", "typing.NotRequired": "3.11", "typing.Unpack": "3.11",
    "typing.TypeVarTuple": "3.11", "typing.dataclass_transform": "3.11", "typing.override": "3.12", "typing.TypeAliasType": "3.12", "typing.ForwardRef": "3.7", "typing.OrderedDict": "3.7",
    "contextlib.nullcontext": "3.7", "contextlib.asynccontextmanager": "3.7", "contextlib.AsyncExitStack": "3.7", "contextlib.aclosing": "3.10", "contextlib.chdir": "3.11",
    "time.time_ns": "3.7", "time.perf_counter_ns": "3.7", "time.monotonic_ns": "3.7", "time.process_time_ns": "3.7", "time.thread_time": "3.7",
    "enum.StrEnum": "3.11", "enum.verify": "3.11", "enum.nonmember": "3.11", "abc.update_abstractmethods": "3.10", "warnings.deprecated": "3.13",
    "random.randbytes": "3.9", "random.binomialvariate": "3.12", "inspect.get_annotations": "3.10", "copy.replace": "3.13", "types.NoneType": "3.10", "types.EllipsisType": "3.10",
    "types.UnionType": "3.10", "types.GenericAlias": "3.9", "types.CodeType.replace": "3.8", "sys.breakpointhook": "3.7", "sys.orig_argv": "3.10", "sys.stdlib_module_names": "3.10",
    "shlex.join": "3.8", "datetime.UTC": "3.11", "logging.getLevelNamesMapping": "3.11", "ast.unparse": "3.9", "string.Template.is_valid": "3.11", "os.process_cpu_count": "3.13",
    "asyncio.run": "3.7", "queue.SimpleQueue": "3.7", "threading.excepthook": "3.8", "hashlib.file_digest": "3.11", "bisect.bisect_key": "9",
}
NEW_BUILTINS = {"breakpoint": "3.7", "aiter": "3.10", "anext": "3.10", "ExceptionGroup": "3.11", "BaseExceptionGroup": "3.11", "EncodingWarning": "3.10", "PythonFinalizationError": "3.13"}
NEW_METHODS = {"removeprefix": "3.9", "removesuffix": "3.9", "bit_count": "3.10", "as_integer_ratio": None, "isascii": "3.7", "fromisoformat": "3.7", "add_note": "3.11", "with_stem": "3.9", "is_relative_to": "3.9"}
NEW_KEYWORDS = {("zip", "strict"): "3.10", ("sum", "start"): "3.8", ("pow", "base"): "3.8", ("pow", "exp"): "3.8", ("pow", "mod"): "3.8", ("itertools.accumulate", "initial"): "3.8",
                ("map", "strict"): "3.14", ("subprocess.run", "capture_output"): "3.7", ("subprocess.run", "text"): "3.7", ("warnings.warn", "skip_file_prefixes"): "3.12",
                ("bisect.bisect", "key"): "3.10", ("bisect.bisect_left", "key"): "3.10", ("bisect.bisect_right", "key"): "3.10", ("bisect.insort", "key"): "3.10", ("min", "strict"): "9",
                ("typing.NamedTuple", "x"): "9", ("collections.namedtuple", "defaults"): "3.7", ("math.nextafter", "steps"): "3.12", ("math.isclose", "x"): "9"}
PEP585 = {"list", "dict", "tuple", "set", "frozenset", "type", "collections.OrderedDict", "collections.deque", "collections.defaultdict", "collections.Counter", "collections.ChainMap",
          "collections.abc.Iterable", "collections.abc.Iterator", "collections.abc.Callable", "collections.abc.Sequence", "collections.abc.Mapping", "collections.abc.Generator"}


class Names:
    """import aliases of a module: local name -> dotted path"""

    def __init__(self, tree):
        self.map = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.map[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.map[a.asname or a.name] = "%s.%s" % (n.module, a.name)
        self.bound = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.bound.add(n.name)
                if not isinstance(n, ast.ClassDef):
                    for a in ast.walk(n.args):
                        if isinstance(a, ast.arg):
                            self.bound.add(a.arg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.bound.add(n.id)

    def path(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.map:
                return self.map[e.id]
            return None if e.id in self.bound else e.id
        if isinstance(e, ast.Attribute):
            p = self.path(e.value)
            return None if p is None else "%s.%s" % (p, e.attr)
        return None


def oldest():
    """oldest declared Python, declared dependencies and version"""
    try:
        import tomllib
        with open(os.path.join(C.REPO, "pyproject.toml"), "rb") as f:
            d = tomllib.load(f)
        p = d.get("project", {})
        m = re.search(r">=\s*(\d+)\.(\d+)", p.get("requires-python", ""))
        deps = [re.match(r"[A-Za-z0-9_.-]+", x).group(0).lower() for x in p.get("dependencies", [])]
        dyn = "version" in p.get("dynamic", [])
        return (int(m.group(1)), int(m.group(2))) if m else None, deps, p.get("version"), dyn
    except Exception as e:
        return None, None, None, str(e)


def newer(v, old):
    if v is None or v == "9":
        return False
    a = tuple(int(x) for x in v.split("."))
    return a > old


def guarded_nodes(tree):
    """nodes inside a version test, an import guarded by except ImportError, or typing.TYPE_CHECKING"""
    out = set()

    def mark(n):
        for x in ast.walk(n):
            out.add(id(x))
    for n in ast.walk(tree):
        if isinstance(n, ast.If):
            t = ast.dump(n.test)
            if "version_info" in t or "TYPE_CHECKING" in t or "hexversion" in t:
                mark(n)
        if isinstance(n, ast.IfExp) and "version_info" in ast.dump(n.test):
            mark(n)
        if isinstance(n, ast.Try):
            hs = [h for h in n.handlers if h.type is None or re.search(r"ImportError|ModuleNotFoundError|AttributeError|'Exception'", ast.dump(h.type))]
            if hs and not any(isinstance(x, ast.Raise) for h in hs for x in ast.walk(h)):
                for s in n.body:
                    mark(s)
    return out


def annotations(tree):
    """annotation expressions that are evaluated at run time"""
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in ast.walk(tree))
    if future:
        return []
    out = []

    def go(n, infunc):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = c.args
                for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    if x.annotation is not None:
                        out.append(x.annotation)
                if c.returns is not None:
                    out.append(c.returns)
                go(c, True)
            elif isinstance(c, ast.ClassDef):
                go(c, False)
            else:
                if isinstance(c, ast.AnnAssign) and not infunc:
                    out.append(c.annotation)
                go(c, infunc)
    go(tree, False)
    return out


def local_annotations(tree):
    """ids of nodes in annotations that are never evaluated (local variables, or all of them under the future import)"""
    ev = set()
    for a in annotations(tree):
        for x in ast.walk(a):
            ev.add(id(x))
    dead = set()
    for n in ast.walk(tree):
        anns = []
        if isinstance(n, ast.AnnAssign):
            anns.append(n.annotation)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            anns += [x.annotation for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y] if x.annotation is not None]
            if n.returns is not None:
                anns.append(n.returns)
        for a in anns:
            for x in ast.walk(a):
                if id(x) not in ev:
                    dead.add(id(x))
    return dead


def check_C21(tier, seed):
    obl = []
    old, deps, version, dyn = oldest()
    if deps is None:
        return pack("package", [ob("pyproject.toml", "declared requirements are readable", "undecided", str(dyn))])
    if old is None:
        old = (3, 6)
    stdlib = set(sys.stdlib_module_names)
    files = source_files()
    sites = 0
    for p in files:
        rel = os.path.relpath(p, C.REPO)
        src = open(p, encoding="utf-8").read()
        tree = ast.parse(src, p)
        # syntax
        bad = []
        try:
            ast.parse(src, p, feature_version=old)
        except SyntaxError as e:
            bad.append(("syntax newer than Python %d.%d: %s" % (old + (e.msg,)), e.lineno))
        bad += syntax(tree, src, old)
        obl.append(ob(rel, "syntax of Python %d.%d" % old, "violated" if bad else "holds", bad[0][0] if bad else "", "%s:%s" % (rel, bad[0][1]) if bad else "", dict(file=rel, sites=bad) if bad else None))
        # imports
        g = guarded_nodes(tree)
        nm = Names(tree)
        bi, ba = [], []
        for n in ast.walk(tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and not getattr(n, "level", 0):
                mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] + ["%s.%s" % (n.module, a.name) for a in n.names]
                for i, m in enumerate(mods):
                    sites += 1
                    top_ = m.split(".")[0]
                    if id(n) in g:
                        continue
                    if isinstance(n, ast.ImportFrom) and i and m not in NEW_MODULES:
                        continue
                    if top_ == "__future__":
                        continue
                    if top_ not in stdlib and top_ not in deps and top_ != "cvi":
                        bi.append(("imports %s, which is neither declared nor in the standard library" % m, n.lineno))
                    elif m in NEW_MODULES and newer(NEW_MODULES[m], old):
                        bi.append(("imports %s (new in Python %s)" % (m, NEW_MODULES[m]), n.lineno))
            if isinstance(n, ast.ImportFrom) and n.module == "__future__":
                for a in n.names:
                    if a.name == "annotations" and old < (3, 7):
                        ba.append(("from __future__ import annotations (new in Python 3.7)", n.lineno))
            if isinstance(n, ast.Call):
                fp = nm.path(n.func)
                if fp in ("__import__", "importlib.import_module", "importlib.util.find_spec") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and id(n) not in g and fp != "importlib.util.find_spec":
                    top_ = n.args[0].value.split(".")[0]
                    sites += 1
                    if top_ and top_ not in stdlib and top_ not in deps and top_ != "cvi":
                        bi.append(("imports %s, which is neither declared nor in the standard library" % n.args[0].value, n.lineno))
                for k in n.keywords:
                    if fp is not None and (fp, k.arg) in NEW_KEYWORDS and newer(NEW_KEYWORDS[(fp, k.arg)], old) and id(n) not in g:
                        ba.append(("%s(%s=...) (new in Python %s)" % (fp, k.arg, NEW_KEYWORDS[(fp, k.arg)]), n.lineno))
                if fp == "math.hypot" and len(n.args) != 2 and old < (3, 8) and id(n) not in g:
                    ba.append(("math.hypot with %d arguments (new in Python 3.8)" % len(n.args), n.lineno))
                if fp == "math.gcd" and len(n.args) != 2 and old < (3, 9) and id(n) not in g:
                    ba.append(("math.gcd with %d arguments (new in Python 3.9)" % len(n.args), n.lineno))
        dead = local_annotations(tree)
        for n in ast.walk(tree):
            if id(n) in g or id(n) in dead:
                continue
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                fp = nm.path(n)
                if fp in NEW_API and newer(NEW_API[fp], old):
                    ba.append(("%s (new in Python %s)" % (fp, NEW_API[fp]), n.lineno))
                elif fp in NEW_BUILTINS and newer(NEW_BUILTINS[fp], old) and isinstance(n, ast.Name):
                    ba.append(("builtin %s (new in Python %s)" % (fp, NEW_BUILTINS[fp]), n.lineno))
                elif isinstance(n, ast.Attribute) and n.attr in NEW_METHODS and newer(NEW_METHODS[n.attr], old) and n.attr not in nm.bound:
                    ba.append((".%s() (new in Python %s)" % (n.attr, NEW_METHODS[n.attr]), n.lineno))
            if isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    fp = "%s.%s" % (n.module, a.name)
                    if fp in NEW_API and newer(NEW_API[fp], old):
                        ba.append(("%s (new in Python %s)" % (fp, NEW_API[fp]), n.lineno))
            if isinstance(n, ast.Subscript) and old < (3, 9) and isinstance(n.ctx, ast.Load):
                fp = nm.path(n.value)
                if fp in PEP585:
                    ba.append(("%s[...] (subscriptable since Python 3.9)" % fp, n.lineno))
        if old < (3, 10):
            for a in annotations(tree):
                if id(a) in g:
                    continue
                for n in ast.walk(a):
                    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
                        ba.append(("X | Y in an evaluated annotation (Python 3.10)", n.lineno))
        if old < (3, 9):
            for n in ast.walk(tree):
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr) and (isinstance(n.left, (ast.Dict, ast.DictComp)) or isinstance(n.right, (ast.Dict, ast.DictComp))):
                    ba.append(("dict | dict (Python 3.9)", n.lineno))
        if old < (3, 7):
            for n in tree.body:
                if isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__dir__"):
                    ba.append(("module-level %s (Python 3.7)" % n.name, n.lineno))
        if old < (3, 8):
            rv = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and nm.path(n.func) == "reversed" and n.args and isinstance(n.args[0], (ast.Dict, ast.DictComp))]
            for n in rv:
                ba.append(("reversed(dict) (Python 3.8)", n.lineno))
        obl.append(ob(rel, "imports only the standard library and declared dependencies", "violated" if bi else "holds", bi[0][0] if bi else "", "%s:%s" % (rel, bi[0][1]) if bi else "", dict(file=rel, sites=bi) if bi else None))
        obl.append(ob(rel, "no built-in or library feature newer than Python %d.%d" % old, "violated" if ba else "holds", ba[0][0] if ba else "", "%s:%s" % (rel, ba[0][1]) if ba else "", dict(file=rel, sites=ba) if ba else None))
    # declared = reported version
    S = None
    try:
        S = Session(C.SRC)
        v = S.I.frame_of_mod("cvi").get("__version__")
    except (AnalysisError, Raised) as e:
        v = None
    if isinstance(v, Str) and v.s is not None and version is not None:
        obl.append(ob("__version__", "reported version = declared version", "holds" if v.s == version else "violated", "%s / %s" % (v.s, version), "src/cvi/__init__.py: __version__", dict(reported=v.s, declared=version)))
    elif version is None and dyn is True:
        obl.append(ob("__version__", "reported version = declared version", "holds", "declared dynamically"))
    elif v is None and S is not None:
        obl.append(ob("__version__", "reported version = declared version", "violated", "cvi.__version__ does not exist", "src/cvi/__init__.py", dict(declared=version)))
    else:
        obl.append(ob("__version__", "reported version = declared version", "undecided", "not a constant: %r" % (v,)))
    r = pack("package", obl, None, notes=["%d files, %d import sites" % (len(files), sites)])
    r["functions"] = [os.path.relpath(p, C.REPO) for p in files]
    return r


def syntax(tree, src, old):
    """constructs newer than the oldest supported version that feature_version does not reject"""
    bad = []

    def add(v, what, n):
        if tuple(int(x) for x in v.split(".")) > old:
            bad.append(("%s (Python %s)" % (what, v), getattr(n, "lineno", "?")))
    for n in ast.walk(tree):
        if isinstance(n, ast.NamedExpr):
            add("3.8", "assignment expression", n)
        if isinstance(n, ast.arguments) and getattr(n, "posonlyargs", None):
            add("3.8", "positional-only parameter", n.posonlyargs[0])
        if type(n).__name__ == "Match":
            add("3.10", "match statement", n)
        if type(n).__name__ == "TryStar":
            add("3.11", "except*", n)
        if type(n).__name__ == "TypeAlias" or getattr(n, "type_params", None):
            add("3.12", "type parameter syntax", n)
        if isinstance(n, (ast.Return, ast.Expr)) and isinstance(getattr(n, "value", None), ast.Tuple) and any(isinstance(e, ast.Starred) for e in n.value.elts):
            seg = ast.get_source_segment(src, n.value) or "("
            if not seg.lstrip().startswith("(") and isinstance(n, ast.Return):
                add("3.8", "unparenthesised unpacking in return", n)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Starred) for e in n.slice.elts):
            add("3.11", "starred subscript", n)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                x = d.func if isinstance(d, ast.Call) else d
                while isinstance(x, ast.Attribute):
                    x = x.value
                if not isinstance(x, ast.Name):
                    add("3.9", "decorator expression", d)
        if isinstance(n, ast.JoinedStr):
            for i, v in enumerate(n.values):
                if isinstance(v, ast.FormattedValue):
                    e = ast.get_source_segment(src, v.value)
                    if i and isinstance(n.values[i - 1], ast.Constant) and e and n.values[i - 1].value.rstrip().endswith(e + "=") and v.conversion == 114:
                        seg = ast.get_source_segment(src, n) or ""
                        if re.search(r"\{\s*" + re.escape(e) + r"\s*=\s*[}:!]", seg):
                            add("3.8", "f-string = specifier", n)
            seg = ast.get_source_segment(src, n) or ""
            m = re.match(r"[rRfFbB]*('''|\"\"\"|'|\")", seg)
            if m:
                q = m.group(1)
                for v in n.values:
                    if isinstance(v, ast.FormattedValue):
                        e = ast.get_source_segment(src, v.value) or ""
                        if q[0] in e and len(q) == 1:
                            add("3.12", "nested quotes in an f-string", n)
                        if "\\" in e:
                            add("3.12", "backslash in an f-string expression", n)
        if isinstance(n, ast.Try):
            for c in ast.walk(ast.Module(body=n.finalbody, type_ignores=[])):
                if isinstance(c, ast.Continue):
                    add("3.8", "continue in finally", c)
        if isinstance(n, ast.With) and src.splitlines()[n.lineno - 1].strip().startswith("with (") and len(n.items) > 1:
            add("3.9", "parenthesised context managers", n)
    return bad


# ---------------------------------------------------------------- C22
def check_C22(tier, seed):
    obl = []
    S = Session(C.SRC)
    I = S.I
    S.reset()
    try:
        S.lookup("cvi.compat")
    except (Raised, AnalysisError) as e:
        return pack("legacy factory", [ob("cvi.compat", "the legacy package is exported", "violated", "cvi.compat does not exist", "src/cvi", dict(name="compat"))], S)
    try:
        fac = S.lookup("cvi.compat.iCVI")
    except (Raised, AnalysisError) as e:
        return pack("legacy factory", [ob("cvi.compat.iCVI", "the factory is exported", "violated", "cvi.compat.iCVI does not exist", "src/cvi/compat/__init__.py", dict(name="iCVI"))], S)
    legacy = list(LEGACY)
    where = "src/cvi/compat/v0.py (iCVI)"
    cls = {}
    for n in legacy:
        try:
            v = S.lookup("cvi.compat." + n)
        except (Raised, AnalysisError):
            obl.append(ob(n, "exported by the legacy package", "violated", "cvi.compat.%s does not exist" % n, "src/cvi/compat/__init__.py", dict(name=n)))
            continue
        if isinstance(v, Cls):
            cls[n] = v
            obl.append(ob(n, "exported by the legacy package", "holds" if v.name == n or v.name not in legacy else "violated", "class %s" % v.name, "src/cvi/compat/__init__.py", dict(name=n)))
        else:
            obl.append(ob(n, "exported by the legacy package", "undecided", "%r" % (v,)))
    # the list of legacy indices agrees
    try:
        ml = as_list(I, S.lookup("cvi.compat.v0.MODULES"))
        if ml is None:
            obl.append(ob("MODULES", "the legacy list names exactly the exported indices", "undecided", "not a constant list"))
        else:
            want = list(cls.values())
            miss = [c.name for c in want if sum(1 for x in ml if x is c) != 1]
            extra = [getattr(x, "name", str(x)) for x in ml if not any(x is c for c in want)]
            obl.append(ob("MODULES", "the legacy list names exactly the exported indices", "violated" if miss or extra else "holds", "missing or repeated %s, extra %s" % (miss, extra) if miss or extra else "", "src/cvi/compat/v0.py: MODULES", dict(missing=miss, extra=extra)))
    except (Raised, AnalysisError):
        obl.append(ob("MODULES", "the legacy list names exactly the exported indices", "violated", "cvi.compat.v0.MODULES does not exist", "src/cvi/compat/v0.py", dict(name="MODULES")))
    fr = I.frame_of_mod("cvi.compat")
    if "__all__" in fr:
        al = as_list(I, fr["__all__"])
        if al is None or not all(isinstance(x, Str) and x.s is not None for x in al):
            obl.append(ob("__all__", "the exported names are the factory and the legacy indices", "undecided", "not constant"))
        else:
            names = [x.s for x in al]
            miss = [n for n in legacy + ["iCVI"] if n not in names]
            gone = [n for n in names if n not in fr]
            obl.append(ob("__all__", "the exported names are the factory and the legacy indices", "violated" if miss or gone else "holds", "missing %s, undefined %s" % (miss, gone) if miss or gone else "", "src/cvi/compat/__init__.py: __all__", dict(missing=miss, undefined=gone)))
    # known names
    for n in legacy:
        r, st = factory(S, Str(n))
        rule = "iCVI(name) returns a new object of exactly the class of that name"
        if r == "raises":
            obl.append(ob(n, rule, "violated", "raises %s" % st, where, dict(name=n)))
        elif r == "unknown":
            obl.append(ob(n, rule, "undecided", st))
        else:
            v, state, fresh = st
            c = state.heap.get(v.loc) if isinstance(v, Ref) else None
            if not isinstance(c, ObjC) or c.cls is None:
                obl.append(ob(n, rule, "undecided" if isinstance(v, (Top, Gated)) else "violated", "returns %r" % (v,), where, dict(name=n)))
            elif n in cls and c.cls is not cls[n]:
                obl.append(ob(n, rule, "violated", "returns an object of class %s" % c.cls.name, where, dict(name=n)))
            elif not fresh:
                obl.append(ob(n, rule, "violated", "the object is shared between calls", where, dict(name=n)))
            else:
                # same initial state as the class itself
                d = fresh_diff(S, cls.get(n), v, state)
                obl.append(ob(n, rule, "holds" if not d else "violated", "" if not d else "its initial state differs from %s(): %s" % (n, d), where, dict(name=n)))
    # unknown names: every string constant of the legacy module, near misses of the documented names, other values
    consts = set()
    for p in source_files():
        if "compat" in p:
            tr = ast.parse(open(p, encoding="utf-8").read())
            for x in ast.walk(tr):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 40:
                    consts.add(x.value)
                if isinstance(x, ast.Name):
                    consts.add(x.id)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    consts.add(x.name)
    near = set()
    for n in legacy:
        near |= {n.lower(), n.upper(), n[1:], n + " ", " " + n, n[:-1], n + "x", "i" + n, n[1:].lower(), n.replace("i", "I", 1), n + "()", "cvi." + n, n.swapcase(), n[0] + n[1:].lower()}
    cand = (consts | near | {"", "i", "iGD", "GD", "foo", "iSILL", "icvi", "None", "0"}) - set(legacy)
    n_ok, bad, und = 0, None, None
    for c in sorted(cand):
        r, st = factory(S, Str(c))
        if r == "raises" and C.is_valueerror(st):
            n_ok += 1
        elif r == "raises":
            bad = bad or ("iCVI(%r) raises %s" % (c, st), c)
        elif r == "unknown":
            und = und or "%r: %s" % (c, st)
        else:
            bad = bad or ("iCVI(%r) returns an object" % c, c)
    rule = "every other name raises ValueError"
    if bad:
        obl.append(ob("unknown names", rule, "violated", bad[0], where, dict(name=bad[1])))
    elif und and not n_ok:
        obl.append(ob("unknown names", rule, "undecided", und))
    else:
        obl.append(ob("unknown names", rule, "holds", "%d names%s" % (n_ok, "; undecided: " + und if und else ""), n=n_ok))
    for v, d in ((NONE, "None"), (Num(num(3), "pyint"), "3")):
        r, st = factory(S, v)
        if r == "raises" and not C.is_valueerror(st):
            obl.append(ob("iCVI(%s)" % d, rule, "violated", "raises %s" % st, where, dict(name=d)))
        elif r == "value":
            obl.append(ob("iCVI(%s)" % d, rule, "violated", "returns an object", where, dict(name=d)))
        else:
            obl.append(ob("iCVI(%s)" % d, rule, "holds" if r == "raises" else "undecided", "" if r == "raises" else st))
    return pack("legacy factory", obl, S, scen={"names": len(cand) + len(legacy)})


def factory(S, arg):
    S.reset()
    I = S.I
    fac = S.lookup("cvi.compat.iCVI")
    try:
        r = S.call("iCVI", lambda: I.call(fac, [arg], {}, NODE), [])
    except (AnalysisError, RecursionError) as e:
        return "unknown", str(e)
    ev = [e for e in r.events if e["kind"] == "mayraise"]
    if r.post is None:
        if not r.raised:
            return "unknown", "no path"
        return "raises", r.raised[0][1]
    if r.raised or ev:
        return "unknown", "undecided path: %s" % (r.raised[0][1] if r.raised else ev[0]["exc"])
    if isinstance(r.value, (Top, Gated)):
        return "unknown", "%r" % (r.value,)
    fresh = not isinstance(r.value, Ref) or r.value.loc > I.load_boundary and r.value.loc not in I.shared
    if fresh and isinstance(r.value, Ref):
        # a second call with the same name must not return the same object
        I.s = r.post.copy()
        I.frame = S.frame0
        try:
            r2 = S.call("iCVI", lambda: I.call(fac, [arg], {}, NODE), [])
            if r2.post is not None and isinstance(r2.value, Ref) and r2.value.loc == r.value.loc:
                fresh = False
        except (AnalysisError, RecursionError):
            pass
    return "value", (r.value, r.post, fresh)


def fresh_diff(S, cls, v, state):
    if cls is None:
        return None
    S.reset()
    try:
        o = S.new(cls)
    except (Raised, Dead, AnalysisError):
        return None
    I = S.I
    a, b = I.s.heap[o.loc], state.heap[v.loc]
    if set(a.attrs) != set(b.attrs):
        return "attributes %s" % sorted(set(a.attrs) ^ set(b.attrs))
    for k in a.attrs:
        x, y = a.attrs[k], b.attrs[k]
        if isinstance(x, Num) and isinstance(y, Num) and isnum(x.t) and isnum(y.t) and x.t is not y.t:
            return k
    return None


# ---------------------------------------------------------------- legacy indices
class LWork:
    def __init__(self, name, tier, seed, optimize=0):
        self.name, self.tier, self.seed = name, tier, seed
        self.S = Session(C.SRC, optimize=optimize)
        self.S.lookup("cvi.compat." + name)
        self.cs = LegacyScen(self.S, name).run()
        self.R = Runner(self.cs)
        self.points = 0
        self.cache = {}

    def orders(self):
        out = [[0], [0, 0, 0], [0, 1], [0, 1, 0], [0, 1, 1], [0, 0, 1], [0, 1, 2, 0, 1, 2], [0, 0, 1, 1, 0, 1], [0, 1, 2, 2, 1, 0], [0, 1, 2, 3, 1, 3]]
        if self.tier == "thorough":
            out = []

            def go(p, k):
                if p:
                    out.append(list(p))
                if len(p) < 5:
                    for c in range(k + 1):
                        go(p + [c], max(k, c + 1))
            go([], 0)
            out += [[0, 1, 2, 0, 1, 2, 3, 3, 0], [0, 1, 0, 1, 0, 1, 0, 1], [0, 1, 2, 3, 4, 4, 3, 2, 1, 0]]
        return [(s, None) for s in out]

    def script(self, seq):
        key = tuple(seq)
        if key not in self.cache:
            try:
                self.cache[key] = self.cs.script([("s", c) for c in seq])
            except (Raised, Dead) as e:
                self.cache[key] = "%s: %s" % (type(e).__name__, e)
            except Exception as e:
                self.cache[key] = "engine: %s: %s" % (type(e).__name__, e)
        return self.cache[key]

    def models(self, seq, n):
        rng = random.Random(self.seed + 31 + len(seq))
        styles = ["frac", "dup", "zero", "sep", "int", "tight"]
        for i in range(n):
            dim = [2, 1, 3][i % 3]
            rows = lib.rows_for(styles[(i + len(seq)) % len(styles)], dim, len(seq), rng, seq)
            m = self.R.mk({"dim": dim}, {}, "f8")
            m.fams["h"] = lambda t, d, rows=rows: rows[t][d]
            m.rows = rows
            yield m

    def close(self, obl):
        return dict(name=self.name, obligations=obl, points=self.points, notes=[], errors=self.cs.errors,
                    functions=sorted({"%s:%s:%d" % c for c in getattr(self.S, "calls_total", ())}),
                    scenarios={k: dict(paths=int(r.post is not None) + len(r.raised), events=len(r.events)) for k, r in self.cs.R.items()}, guards=0, onesided=0)


def gone(name, e):
    return pack(name, [ob(name, "the legacy index is exported", "violated", "cvi.compat.%s: %s" % (name, e), "src/cvi/compat/__init__.py", dict(name=name))])


def legacy_work(name, tier, seed):
    try:
        return LWork(name, tier, seed)
    except Raised as e:
        return None


def check_C23(name, tier, seed):
    w = legacy_work(name, tier, seed)
    if w is None:
        return gone(name, "does not exist")
    obl = []
    for scen, r in w.cs.R.items():
        if scen == "new" or not hasattr(r, "caller_locs"):
            continue
        obl += C.ownership(w, scen, r, r.obj, name)
    for seq, _ in w.orders():
        rs = w.script(seq)
        if isinstance(rs, str):
            continue
        kept = None
        for t, r in enumerate(rs):
            o = C.ownership(w, "order %s step %d" % (seq, t), r, r.obj, name)
            obl += [x for x in o if x["verdict"] == "violated"]
        obl.append(ob("%s order %s" % (name, seq), "nothing reachable from the object is the caller's array or a view of it", "holds" if not any(x["verdict"] == "violated" for x in obl) else "undecided", "%d steps" % len(rs), n=len(rs)))
    return w.close(obl)


def check_C24(name, tier, seed):
    w = legacy_work(name, tier, seed)
    if w is None:
        return gone(name, "does not exist")
    obl = []
    if name == "iPS":
        return w.close([ob(name, "not part of the property", "holds", "the partition separation index does not check the order")])
    rs = [(s, w.cs.R.get(s)) for s in ["skip.new"] + ["skip." + t for t in w.cs.tags]]
    for s, r in rs:
        if r is None:
            obl.append(ob("%s %s" % (name, s), "raises ValueError on every path", "undecided", w.cs.errors.get(s) or w.cs.errors.get(s.split(".")[1], "no summary")))
    # short orders followed by a number that skips one, or many
    for seq in ([], [0], [0, 0], [0, 1], [0, 1, 0], [0, 1, 2], [0, 1, 1, 2, 0]):
        k = len(set(seq))
        for c in (k + 1, k + 5, 10 ** 9):
            try:
                out = w.cs.script([("s", x) for x in seq] + [("s", c)])
            except Exception as e:
                obl.append(ob("%s order %s then %d" % (name, seq, c), "raises ValueError on every path", "undecided", "%s: %s" % (type(e).__name__, e)))
                continue
            if len(out) == len(seq) + 1:
                rs.append(("order %s then %d" % (seq, c), out[-1]))
    for s, r in rs:
        if r is None:
            continue
        subj = "%s %s" % (name, s)
        rule = "raises ValueError on every path"
        where = C.where_of(w.cs, s) if s in w.cs.R else "cvi.compat.%s.update" % name
        ev = [e for e in r.events if e["kind"] == "mayraise"]
        if r.post is not None:
            feas = [x for x in r.raised]
            if not r.raised and not ev:
                obl.append(ob(subj, rule, "violated", "the call is accepted", where, dict(scenario=s)))
            else:
                # accepted on some path: is it taken for some cluster number?
                v = accepted(w, s, r)
                obl.append(ob(subj, rule, v[0], v[1], where, dict(scenario=s)))
            continue
        exc = sorted({x[1] for x in r.raised})
        bad = [x for x in exc if not C.is_valueerror(x)]
        if bad and len(exc) == len(bad):
            obl.append(ob(subj, rule, "violated", "raises %s" % bad, where, dict(scenario=s)))
            continue
        if bad or not exc:
            obl.append(ob(subj, rule, "undecided", "raises %s" % exc))
            continue
        obl.append(ob(subj, rule, "holds", "%d raising path(s)" % len(r.raised)))
        rule = "the object at the raise is the object before the call"
        diff = None
        for st, exc, node, msg in r.raised:
            diff = diff or C.same_heap(w.S.I, r.pre, st, r.obj, r.obj, set())
        if diff:
            new = diff.count(".") == 1 and diff.split(".")[1] not in r.pre.heap[r.obj.loc].attrs
            obl.append(ob(subj, rule, "undecided" if new else "violated", "%s differs after the refused call" % diff, where, dict(scenario=s, attribute=diff)))
        else:
            obl.append(ob(subj, rule, "holds"))
    return w.close(obl)


def accepted(w, s, r):
    """is a refused call accepted at some point?"""
    n = 0
    und = None
    tag = s.split(".")[1] if "." in s else "new"
    for seq in ([0, 1, 2], [0, 1, 1, 0, 2]):
        for dc in (1, 2, 7, 1000):
            rng = random.Random(5)
            h = History("legacy", [[F(rng.randint(-40, 40), 8) for _ in range(2)] for _ in seq], seq)
            m = w.R.mk({"dim": 2, "k": 0, "N": 0, "cskip": dc}, {}, "f8")
            m.fams["x"] = lambda d: F(d + 1, 3)
            if tag in w.cs.tags:
                try:
                    st = w.R.tables(h, tag)
                except Exception:
                    st = None
                if st is None:
                    continue
                tabs, bools, labels, cnt = st
                m.syms.update(k=len(labels), N=cnt, cskip=len(labels) + dc)
                for nm, t in tabs.items():
                    m.table(nm, t)
                m.bools = dict(bools)
            try:
                ex = w.R.raising(r, m)
            except (Unknown, Budget) as e:
                und = str(e)
                continue
            n += 1
            if not ex:
                return "violated", "cluster number %s is accepted" % m.syms["cskip"]
            if not C.is_valueerror(ex[0][0]):
                return "violated", "raises %s" % ex[0][0]
    return ("holds", "%d points" % n) if n else ("undecided", und or "no point")


def check_C25(name, tier, seed):
    w = legacy_work(name, tier, seed)
    if w is None:
        return gone(name, "does not exist")
    obl = []
    rule = "no raising path of update is feasible"
    where = "cvi.compat.%s.update" % name
    for seq, _ in w.orders():
        subj = "%s order %s" % (name, seq)
        rs = w.script(seq)
        if isinstance(rs, str):
            obl.append(ob(subj, rule, "violated" if rs.startswith(("Raised", "Dead")) else "undecided", rs, where, dict(order=seq)))
            continue
        bad, und, n = None, None, 0
        for m in w.models(seq, 3):
            for cdt in ("f8", "i8"):
                m.cdt = cdt
                for t, r in enumerate(rs):
                    if r.post is None and r.raised and not any(e["kind"] == "mayraise" for e in r.events) and not bad:
                        bad = ("sample %d raises %s (%s)" % (t + 1, r.raised[0][1], r.raised[0][3]), m, t)
                        break
                    try:
                        ex = w.R.raising(r, m)
                    except (Unknown, Budget) as e:
                        und = str(e)
                        break
                    n += 1
                    w.points += 1
                    if ex:
                        bad = bad or ("sample %d raises %s" % (t + 1, ex[0]), m, t)
                        break
            if bad:
                break
        if bad:
            obl.append(ob(subj, rule, "violated", bad[0], where, dict(order=seq[:bad[2] + 1], samples=[[float(x) for x in q] for q in bad[1].rows[:bad[2] + 1]])))
        elif n:
            obl.append(ob(subj, rule, "holds", "%d steps at points%s" % (n, "; undecided: " + und if und else ""), n=n))
        else:
            obl.append(ob(subj, rule, "undecided", und or "no path"))
    # integer samples first, floats later
    for seq in lib.MIXED:
        subj = "%s order %s, mixed types" % (name, seq)
        try:
            rs = w.cs.script(lib.mixed_items(seq))
        except Exception as e:
            obl.append(ob(subj, rule, "undecided", "%s: %s" % (type(e).__name__, e)))
            continue
        bad = None
        for t, r in enumerate(rs):
            ev = [e for e in r.events if e["kind"] == "callerinplace"]
            if ev:
                bad = ("sample %d: in-place addition of a float to an array with the integer type of the first sample" % (t + 1), ev[0]["where"])
            elif r.post is None and r.raised:
                bad = ("sample %d raises %s" % (t + 1, r.raised[0][1]), where)
            if bad:
                break
        obl.append(ob(subj, rule, "violated" if bad else "holds", bad[0] if bad else "%d steps" % len(rs), bad[1] if bad else "", dict(order=seq) if bad else None, n=len(rs)))
    # the generic states: every order at once
    for scen in ["first"] + [a + t for a in ("known.", "new.") for t in w.cs.tags]:
        r = w.cs.R.get(scen)
        if r is None:
            continue
        if r.post is None and r.raised:
            obl.append(ob("%s %s" % (name, scen), rule, "violated", "every path raises %s (%s)" % (r.raised[0][1], r.raised[0][3]), C.where_of(w.cs, scen), dict(scenario=scen)))
        elif not r.raised and not [e for e in r.events if e["kind"] in ("mayraise",)] and not r.unknown:
            obl.append(ob("%s %s" % (name, scen), "no raising path exists", "holds", "every index, key, attribute and broadcast obligation discharged"))
        for e in r.events:
            if e["kind"] == "callerinplace":
                obl.append(ob("%s %s" % (name, scen), "no in-place arithmetic in the type of the first sample", "violated", "in-place arithmetic on an array that has the caller's type raises for mixed sample types", e["where"], dict(scenario=scen)))
    # streams through the generic states, also past every number written in the code
    from .extra import legacy_histories
    from .lits import literals
    R = Runner(w.cs)
    R.published = "output"
    R.guards = {}
    n = 0
    und = None

    def sweep(hs):
        nonlocal n, und
        for h in hs:
            for _ in range(6):
                out = list(R.stream(h))
                last = out[-1] if out else None
                if last is not None and last.status == "mismatch" and last.path not in w.cs.loose:
                    w.cs.loose.add(last.path)
                    w.cs.gen.clear()
                    for k in [k for k in w.cs.R if k.split(".")[0] in ("known", "new") and "." in k]:
                        del w.cs.R[k]
                    w.cs.inc()
                    continue
                break
            for o in out:
                if o.status == "raises":
                    obl.append(ob("%s %s" % (name, o.scen), rule, "violated", "sample %d raises %s" % (o.step + 1, o.exc[0]), C.where_of(w.cs, o.scen), h.show(o.step + 1)))
                    return
                if o.status in ("undecided", "mismatch"):
                    und = o.why
                    if "shape" in o.why:
                        odd.add(len(set(h.labels[:o.step + 1])))
                else:
                    n += 1
                    w.points += 1
    odd = set()
    sweep(legacy_histories(seed, tier)[:12])
    consts = set()
    for c, (f, t) in R.guards.items():
        if not (f and t):
            for a in c.args[1:] if c.op == "fn" else c.args:
                consts |= {abs(x.args[0]) for x in find(a, lambda x: x.op == "num")}
    sweep([h for h in lib.directed(sorted(consts), seed, 3000, literals(w.S.I, getattr(w.S, "calls_total", ()))) if "stream" in h.modes and sorted(dict.fromkeys(h.labels)) == list(dict.fromkeys(h.labels))])
    obl += C.odd_shapes(w, name, odd, rule, where)
    obl.append(ob("%s streams" % name, rule, "holds" if n else "undecided", "%d steps%s" % (n, "; undecided: %s" % und if und else ""), n=n))
    return w.close(obl)
