"""A small linear-inequality abstract domain (integer-tightened Fourier-Motzkin) used to resolve
index and size comparisons under the assumptions of an analysis case."""
from fractions import Fraction
from .terms import *
from .terms import N_


def linear(t):
    """t as (dict atom -> coef, const); non-linear subterms are atoms."""
    d, c = {}, Fraction(0)
    stack = [(t, Fraction(1))]
    while stack:
        t, k = stack.pop()
        if t.op == "num":
            c += k * t.args[0]
        elif t.op == "add":
            for a in t.args:
                stack.append((a, k))
        elif t.op == "mul" and t.args[0].op == "num":
            rest = t.args[1:]
            r = rest[0] if len(rest) == 1 else N_("mul", *rest)
            stack.append((r, k * t.args[0].args[0]))
        else:
            d[t] = d.get(t, Fraction(0)) + k
    return {a: v for a, v in d.items() if v}, c


def _ge0(a, b, strict):
    """constraint for a >= b (or a > b): (coefs, const, strict), tightened for integers"""
    d, c = linear(sub(a, b))
    if strict and all(is_int(x) and v.denominator == 1 for x, v in d.items()) and c.denominator == 1:
        return d, c - 1, False
    return d, c, strict


def _infeasible(cons, depth=0):
    """Fourier-Motzkin on a small system; True if certainly infeasible."""
    cons = [(dict(d), c, s) for d, c, s in cons]
    while True:
        new = []
        seen = set()
        for d, c, s in cons:
            if not d:
                if c < 0 or (s and c == 0):
                    return True
                continue
            # normalise
            lead = min(d, key=lambda a: a._id)
            f = abs(d[lead])
            key = (tuple(sorted(((a._id, v / f) for a, v in d.items()))), c / f, s)
            if key not in seen:
                seen.add(key)
                new.append(({a: v / f for a, v in d.items()}, c / f, s))
        cons = new
        if not cons:
            return False
        if len(cons) > 160:
            return False
        occ = {}
        for d, c, s in cons:
            for a, v in d.items():
                p = occ.setdefault(a, [0, 0])
                p[0 if v > 0 else 1] += 1
        x = min(occ, key=lambda a: (occ[a][0] * occ[a][1], a._id))
        pos = [k for k in cons if k[0].get(x, 0) > 0]
        negs = [k for k in cons if k[0].get(x, 0) < 0]
        rest = [k for k in cons if x not in k[0]]
        for d1, c1, s1 in pos:
            for d2, c2, s2 in negs:
                m1, m2 = -d2[x], d1[x]
                d = {}
                for a, v in d1.items():
                    d[a] = d.get(a, 0) + m1 * v
                for a, v in d2.items():
                    d[a] = d.get(a, 0) + m2 * v
                d = {a: v for a, v in d.items() if v}
                rest.append((d, m1 * c1 + m2 * c2, s1 or s2))
        cons = rest


_INF = {}
_FC = {}


def _factcons(c):
    """constraints of one fact: (linear constraints, disequality or None, atoms); None when it has none"""
    if c in _FC:
        return _FC[c]
    r = None
    if c.op == "lt":
        r = [_ge0(c.args[1], c.args[0], True)], None
    elif c.op == "le":
        r = [_ge0(c.args[1], c.args[0], False)], None
    elif c.op == "eq":
        r = [_ge0(c.args[0], c.args[1], False), _ge0(c.args[1], c.args[0], False)], None
    elif c.op == "not" and c.args[0].op == "eq":
        x = c.args[0].args
        r = [_ge0(x[0], x[1], False)], x
    if r is not None:
        at = set()
        for d, _, _ in r[0]:
            at |= set(d)
        r = (r[0], r[1], at)
    _FC[c] = r
    return r


class Ctx:
    """Immutable set of assumed conditions."""

    def __init__(self, conds=(), parent=None):
        self.parent = parent
        self.conds = tuple(conds)
        self._cache = {}
        self._cons = None
        self._nes = None
        self._known = None

    def assume(self, *cs):
        out = []
        for c in cs:
            if c is TRUE:
                continue
            if c.op == "and":
                out.extend(c.args)
            else:
                out.append(c)
        have = self.facts()
        out = [c for c in out if c not in have]
        if not out:
            return self
        key = have | frozenset(out)
        r = Ctx._tab.get(key)
        if r is None:
            r = Ctx._tab[key] = Ctx(out, self)
        return r

    _tab = {}

    def facts(self):
        r = self.__dict__.get("_facts")
        if r is None:
            r = self._facts = frozenset(self.conds) | (self.parent.facts() if self.parent is not None else frozenset())
        return r

    def syms(self):
        r = self.__dict__.get("_syms")
        if r is None:
            r = self.parent.syms() if self.parent is not None else frozenset()
            for c in self.conds:
                r = r | free(c)
            self._syms = r
        return r

    def all(self):
        x, out = self, []
        while x is not None:
            out.extend(x.conds)
            x = x.parent
        return out

    def _prep(self):
        """list of (constraints, disequality, atoms) of the facts, and the set of facts"""
        if self._cons is None:
            out = []
            if self.parent is not None:
                out = list(self.parent._prep()[0])
            for c in self.conds:
                r = _factcons(c)
                if r is not None:
                    out.append((c, r[0], r[1], r[2]))
            self._cons = out
        return self._cons, self.facts()

    def _relevant(self, atoms0):
        """facts transitively sharing atoms with the question"""
        key = frozenset(atoms0)
        cache = self.__dict__.setdefault("_relc", {})
        r = cache.get(key)
        if r is not None:
            return r
        pool = list(self._prep()[0])
        rel = set(atoms0)
        chosen = []
        changed = True
        while changed:
            changed = False
            rest = []
            for f in pool:
                if f[2] is None and (not f[3] or f[3] & rel):
                    chosen.append(f)
                    if not f[3] <= rel:
                        rel |= f[3]
                        changed = True
                else:
                    rest.append(f)
            if len(rest) != len(pool):
                changed = True
            pool = rest
        for f in pool:
            if f[2] is not None and f[3] <= rel:
                chosen.append(f)
        r = cache[key] = (chosen, rel, frozenset(f[0] for f in chosen))
        return r

    def _infeas(self, extra):
        at = set()
        for d, c, s in extra:
            at |= set(d)
        chosen, rel, key = self._relevant(at)
        k = (key, tuple((tuple(sorted((a._id, v) for a, v in d.items())), c, s) for d, c, s in extra))
        r = _INF.get(k)
        if r is None:
            cons = list(extra)
            nes = []
            for f in chosen:
                if f[2] is not None:
                    nes.append(f[2])
                else:
                    cons += f[1]
            for a in rel:
                cons += implicit(a)
            r = _infeasible(cons)
            if not r and nes and len(nes) <= 3:
                r = self._split(cons, nes)
            _INF[k] = r
        return r

    def _split(self, chosen, nes):
        if not nes:
            return _infeasible(chosen)
        a, b = nes[0]
        return self._split(chosen + [_ge0(a, b, True)], nes[1:]) and self._split(chosen + [_ge0(b, a, True)], nes[1:])

    def decide(self, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self._cache.get(c, 0)
        if r != 0:
            return r
        r = self._decide(c)
        self._cache[c] = r
        return r

    def _decide(self, c):
        known = self.facts()
        if c in known:
            return True
        if not_(c) in known:
            return False
        op = c.op
        if op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op == "and":
            unk = False
            for x in c.args:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    unk = True
            return None if unk else True
        if op == "or":
            unk = False
            for x in c.args:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    unk = True
            return None if unk else False
        if op in ("lt", "le"):
            a, b = c.args
            if tops(a) or tops(b):
                return None
            s = op == "lt"
            if self._infeas([_ge0(a, b, not s)]):
                return True
            if self._infeas([_ge0(b, a, s)]):
                return False
            return None
        if op == "eq":
            a, b = c.args
            if tops(a) or tops(b):
                return None
            lo = self._infeas([_ge0(a, b, True)])   # a <= b
            hi = self._infeas([_ge0(b, a, True)])   # b <= a
            if lo and hi:
                return True
            if self._infeas([_ge0(a, b, False), _ge0(b, a, False)]):
                return False
            return None
        return None


BOUNDS = {}     # term -> exclusive upper bound (and 0 below), established where the term was built


def implicit(atom):
    out = []
    if atom in BOUNDS:
        out.append(({atom: Fraction(1)}, Fraction(0), False))
        d, c = linear(BOUNDS[atom])
        d[atom] = d.get(atom, Fraction(0)) - 1
        out.append((d, c - 1, False))
    if atom.op == "el" and atom.args[0] == "n":
        out.append(({atom: Fraction(1)}, Fraction(-1), False))
    if atom.op == "red" and atom.args[0] == "sum" and atom.args[4] is ONE:
        out.append(({atom: Fraction(1)}, Fraction(0), False))
    if atom.op == "el" and atom.args[0] == "cls":
        # every label of a batch is one of its k distinct labels
        out.append(({atom: Fraction(1)}, Fraction(0), False))
        out.append(({sym("k", "int"): Fraction(1), atom: Fraction(-1)}, Fraction(-1), False))
    if atom.op == "red" and atom.args[0] in ("min", "max") and atom.args[4] in atom.args[1]:
        # a position found in a range (the search of an empty range raises)
        out.append(({atom: Fraction(1)}, Fraction(0), False))
        hi = atom.args[2][atom.args[1].index(atom.args[4])]
        if not free(hi) & set(atom.args[1]):
            d, c = linear(hi)
            d[atom] = d.get(atom, Fraction(0)) - 1
            out.append((d, c - 1, False))
    return out


EMPTY = Ctx()


def simplify(t, ctx, memo=None):
    """Resolve conditions decided by ctx (descending into binders with their ranges)."""
    if memo is None:
        memo = ctx.__dict__.setdefault("_simp", {})

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        t0 = t
        op = t.op
        bv = bound_vars(t)
        if bv and any(b in ctx.syms() for b in bv):
            # a binder that shadows a symbol of the context: facts about the outer one must not leak in
            t = rename_binders(t, {b: fresh(b.args[0].split("#")[0], b.args[1]) for b in bv})
        if op == "ite":
            c = go(t.args[0])
            d = ctx.decide(c)
            if d is True:
                r = go(t.args[1])
            elif d is False:
                r = go(t.args[2])
            else:
                a = simplify(t.args[1], ctx.assume(c)) if _hasite(t.args[1]) else go(t.args[1])
                b = simplify(t.args[2], ctx.assume(not_(c))) if _hasite(t.args[2]) else go(t.args[2])
                r = ite(c, a, b)
        elif op in ("lt", "le", "eq"):
            r = rebuild(t, go)
            d = ctx.decide(r)
            if d is not None:
                r = TRUE if d else FALSE
        elif op == "red":
            k, vs, hs, c, b = t.args
            hs = tuple(go(h) for h in hs)
            inner = ctx
            for v, h in zip(vs, hs):
                inner = inner.assume(le(ZERO, v), lt(v, h))
            c2 = simplify(c, inner)
            if any(ctx.decide(le(h, ZERO)) is True for h in hs):
                c2 = FALSE
            b2 = simplify(b, inner.assume(c2)) if c2 is not FALSE else ZERO
            r = red(k, vs, hs, c2, b2)
        elif op == "quant":
            k, vs, hs, c = t.args
            hs = tuple(go(h) for h in hs)
            inner = ctx
            for v, h in zip(vs, hs):
                inner = inner.assume(le(ZERO, v), lt(v, h))
            r = quant(k, vs, hs, simplify(c, inner))
        elif op == "mat":
            n = go(t.args[1])
            inner = ctx.assume(le(ZERO, t.args[2]), lt(t.args[2], n), le(ZERO, t.args[3]), lt(t.args[3], n))
            r = N_("mat", t.args[0], n, t.args[2], t.args[3], simplify(t.args[4], inner), *[go(e) for e in t.args[5:]])
        else:
            r = rebuild(t, go)
        memo[t0] = r
        return r

    return go(t)


_hi = {}


def _hasite(t):
    r = _hi.get(t)
    if r is None:
        r = t.op in ("ite", "lt", "le", "eq", "red", "quant", "mat") or any(_hasite(c) for c in children(t))
        _hi[t] = r
    return r
