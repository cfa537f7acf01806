"""Loops, comprehensions: unrolling of constant trip counts, summaries for symbolic ones."""
import ast
import copy
from .terms import *
from .terms import N_
from .facts import simplify, linear
from .vals import *
from . import interp as ip


def for_loop(I, n, it):
    d = I.np.iter_desc(it, n)
    if d is None:
        return havoc_loop(I, n, "iteration over unknown")
    if d[0] != "conc":
        I.domain([d[1]], n)
    if d[0] == "conc":
        return concrete_loop(I, n, d[1])
    return summarise(I, n, d[1], lambda i_axis: d[2], n.target, n.body)


def finish_else(I, n):
    if I.s is not None and n.orelse:
        I.block(n.orelse)


def concrete_loop(I, n, items):
    s00 = I.s.copy()
    exits = []
    for item in items:
        if I.s is None:
            break
        base = I.s.copy()
        loop = {"breaks": [], "conts": []}
        I.frame.loops.append(loop)
        try:
            I.assign(n.target, item, n)
            I.block(n.body)
        finally:
            I.frame.loops.pop()
        I.s = I.join_many(loop["conts"] + [I.s], base)
        exits += loop["breaks"]
    finish_else(I, n)
    I.s = I.join_many(exits + [I.s], s00)
    if I.s is None:
        raise ip.Dead()


def while_loop(I, n):
    s00 = I.s.copy()
    exits = []
    for _ in range(64):
        if I.s is None:
            break
        c = I.truth(I.ev(n.test), n)
        d = I.decide(c)
        if d is False:
            break
        if d is None:
            # symbolic condition
            if exits:
                return havoc_loop(I, n, "while loop")
            return symbolic_while(I, n)
        base = I.s.copy()
        loop = {"breaks": [], "conts": []}
        I.frame.loops.append(loop)
        try:
            I.block(n.body)
        finally:
            I.frame.loops.pop()
        I.s = I.join_many(loop["conts"] + [I.s], base)
        exits += loop["breaks"]
    else:
        return havoc_loop(I, n, "while loop too long")
    finish_else(I, n)
    I.s = I.join_many(exits + [I.s], s00)
    if I.s is None:
        raise ip.Dead()


def symbolic_while(I, n):
    """while x < bound: ... x += step ...  (x a variable or an attribute, stepped by a constant in one place)"""
    t = n.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq, ast.Gt, ast.GtE))):
        return havoc_loop(I, n, "while condition")
    left, right, op = t.left, t.comparators[0], type(t.ops[0])

    def path(e):
        return ast.dump(e).replace("Store()", "Load()") if isinstance(e, (ast.Name, ast.Attribute)) else None

    def step_of(st):
        """(target, step) of x += c, x -= c, x = x + c, x = c + x, x = x - c"""
        if isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.Add, ast.Sub)) and isinstance(st.value, ast.Constant) and type(st.value.value) is int:
            return path(st.target), st.value.value * (1 if isinstance(st.op, ast.Add) else -1)
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, (ast.Add, ast.Sub)):
            x, y = st.value.left, st.value.right
            if isinstance(st.value.op, ast.Add) and isinstance(x, ast.Constant):
                x, y = y, x
            if path(x) and path(x) == path(st.targets[0]) and isinstance(y, ast.Constant) and type(y.value) is int:
                return path(x), y.value * (1 if isinstance(st.value.op, ast.Add) else -1)
        return None, None

    steps = [(i,) + step_of(st) for i, st in enumerate(n.body)]
    flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
    hits = [x for x in steps if x[1] is not None and x[1] == path(left)]
    if not hits:
        left, right, op = right, left, flip[op]
        hits = [x for x in steps if x[1] is not None and x[1] == path(left)]
    if len(hits) != 1 or not hits[0][2]:
        return havoc_loop(I, n, "while counter")
    pos, _, step = hits[0]
    key = path(left)
    attr = left.attr if isinstance(left, ast.Attribute) else left.id
    stores = [x for b in n.body for x in ast.walk(b) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Store) and (x.attr if isinstance(x, ast.Attribute) else x.id) == attr]
    if len(stores) != 1 or any(isinstance(x, ast.Continue) for b in n.body[:pos] for x in walk_loop(b)):
        return havoc_loop(I, n, "while update")
    x0, bound = I.ev(left), I.ev(right)
    if not (isinstance(x0, Num) and isinstance(bound, Num)):
        return havoc_loop(I, n, "while bound")
    lo, hi = I.simp(from_cond(x0.t)), I.simp(from_cond(bound.t))
    if op in ((ast.Gt, ast.GtE) if step > 0 else (ast.Lt, ast.LtE)):
        return havoc_loop(I, n, "while direction")
    if op is ast.NotEq and (abs(step) != 1 or I.decide(le(lo, hi) if step > 0 else le(hi, lo)) is not True):
        return havoc_loop(I, n, "while bound may be missed")
    # the bound must be loop-invariant: approximate by names
    bnames = {x.id for x in ast.walk(right) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(right) if isinstance(x, ast.Attribute)}
    for b in n.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in bnames:
                return havoc_loop(I, n, "while bound changes")
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in bnames - {"self"}:
                return havoc_loop(I, n, "while bound changes")
            if isinstance(x, ast.Call) and isinstance(right, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "pop", "extend", "insert", "remove", "clear"):
                return havoc_loop(I, n, "while bound changes")
    if isinstance(x0, Num) and not is_int(lo):
        return havoc_loop(I, n, "while counter")
    body = n.body[:pos] + n.body[pos + 1:] if pos == len(n.body) - 1 else n.body
    target = copy.deepcopy(left)
    target.ctx = ast.Store()
    i = fresh("w")
    if step == 1 and is_int(hi) and I.decide(le(ZERO, lo)) is True:
        if op is ast.LtE:
            hi = add(hi, ONE)
        ax = Axis((i,), (hi,), le(lo, i) if lo is not ZERO else TRUE)
        item = i
        final = ite(lt(lo, hi), hi, lo)
    else:
        gap = sub(hi, lo) if step > 0 else sub(lo, hi)
        if op in (ast.LtE, ast.GtE):
            cnt = add(fn("floor", div(gap, num(abs(step)))) if abs(step) != 1 or not is_int(gap) else gap, ONE)
        else:
            cnt = fn("ceil", div(gap, num(abs(step)))) if abs(step) != 1 or not is_int(gap) else gap
        cnt = I.simp(cnt)
        if I.decide(le(ZERO, cnt)) is not True:
            cnt = fn("max2", cnt, ZERO)
        ax = Axis((i,), (cnt,), TRUE)
        item = add(lo, mul(num(step), i))
        final = add(lo, mul(num(step), cnt))
    I.domain([ax], n)
    s0 = I.s
    summarise(I, n, ax, lambda a: Num(item, x0.k), target, body)
    if I.s is not None:
        brk = any(isinstance(x, ast.Break) for b in n.body for x in walk_loop(b))
        target = copy.deepcopy(target)
        I.assign(target, I.top("counter of a loop that breaks", n) if brk else Num(I.simp(final), x0.k), n)


def walk_loop(b):
    todo = [b]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                todo.append(c)


# ---------------------------------------------------------------- summaries
class Probe:
    """run the loop body once on a given state, isolating its side outcomes"""

    def __init__(self, I, n, target, item, axis, body):
        self.I, self.n, self.target, self.item, self.axis, self.body = I, n, target, item, axis, body

    def run(self, st, mute=True):
        I = self.I
        old = I.s
        nrets = len(I.frame.rets)
        loop = {"breaks": [], "conts": []}
        I.sinks.append([])
        I.frame.loops.append(loop)
        if mute:
            I.mute += 1
        nunk = len(I.unknown)
        try:
            I.s = st.copy()
            I.s.ctx = I.s.ctx.assume(*self.axis.conds())
            base = I.s.copy()
            try:
                I.assign(self.target, I.np.thaw_item(self.item), self.n)
            except ip.Raised as r:
                I.sinks[-1].append((I.s, r.exc, r.node, r.msg))
                I.s = None
            if I.s is not None:
                I.block(self.body)
            out = I.join_many(loop["conts"] + [I.s], base)
        finally:
            if mute:
                I.mute -= 1
            I.frame.loops.pop()
            raised = I.sinks.pop()
            rets = I.frame.rets[nrets:]
            del I.frame.rets[nrets:]
            I.s = old
        return out, loop["breaks"], rets, raised


def diff_cells(s0, s1):
    cells = []
    for fid, d1 in s1.frames.items():
        d0 = s0.frames.get(fid)
        if d0 is None:
            continue
        for k, v in d1.items():
            if k not in d0 or not same_value(d0[k], v):
                cells.append(("var", fid, k))
        for k in d0:
            if k not in d1:
                cells.append(("var", fid, k))
    for loc, c0 in s0.heap.items():
        c1 = s1.heap.get(loc)
        if c1 is c0 or c1 is None:
            continue
        if isinstance(c0, ObjC) and isinstance(c1, ObjC):
            for k in set(c0.attrs) | set(c1.attrs):
                if k not in c0.attrs or k not in c1.attrs or not same_value(c0.attrs[k], c1.attrs[k]):
                    cells.append(("attr", loc, k))
        elif c1 != c0:
            cells.append(("heap", loc, None))
    return cells


def same_value(a, b):
    return a is b or a == b


def get_cell(st, cell):
    kind, a, b = cell
    if kind == "var":
        return st.frames[a].get(b)
    if kind == "attr":
        return st.heap[a].attrs.get(b)
    return st.heap.get(a)


def set_cell(st, cell, v):
    kind, a, b = cell
    if kind == "var":
        if v is None:
            st.frames[a].pop(b, None)
        else:
            st.frames[a][b] = v
    elif kind == "attr":
        c = st.heap[a]
        st.heap[a] = c.with_(b, v) if v is not None else c.without(b)
    else:
        st.heap[a] = v


def summarise(I, n, axis, itemf, target, body):
    """symbolic trip count.  axis: domain of the loop variable(s); itemf(axis): value bound to the target"""
    n_orelse = getattr(n, "orelse", [])
    item = itemf(axis)
    s0 = I.s.copy()
    # extent zero: the body never runs
    ext0 = I.decide(le(axis.extent(), ZERO))
    if ext0 is True:
        I.block(n_orelse)
        return
    pr = Probe(I, n, target, item, axis, body)
    s1, brk, rets, raised = pr.run(s0)
    if s1 is None:
        return havoc_loop(I, n, "loop body never completes")
    cells = diff_cells(s0, s1)
    post = s1
    phis = {}
    solved = {}
    for attempt in range(4):
        ph = s0.copy()
        phis = {}
        for cell in cells:
            phis[cell] = make_phi(I, ph, cell, s0, post)
        s2, brk, rets, raised = pr.run(ph)
        if s2 is None:
            return havoc_loop(I, n, "loop body never completes")
        new = [c for c in diff_cells(ph, s2) if c not in phis and existed(c, s0)]
        post = s2
        if not new:
            break
        cells = cells + new
    loopbreak = bool(brk)
    names = {p.name for p in phis.values()}
    solved = {}
    pending = dict(phis)
    # which phi names does each post value use
    progress = True
    sub_env = {}
    while progress and pending:
        progress = False
        for cell in list(pending):
            p = pending[cell]
            others = {q.name for c, q in pending.items() if c != cell}
            r = solve(I, p, cell, s0, s2, axis, others, sub_env)
            if r is not None:
                solved[cell] = r
                del pending[cell]
                progress = True
                if r.get("env"):
                    sub_env.update(r["env"])
    for cell in pending:
        solved[cell] = dict(start=None, final=None)
    # pass C: record events with the start-of-iteration values
    sC = s0.copy()
    for cell, r in solved.items():
        v = r["start"]
        if v is None:
            v = unknown_like(I, get_cell(s0, cell), "loop-carried value at %s" % I.where(n), sC)
        else:
            v = v(sC)
        set_cell(sC, cell, v)
    ne0, nu0 = len(I.events), len(I.unknown)
    s3, brk3, rets3, raised3 = pr.run(sC, mute=False)
    lift_events(I, ne0, axis)
    # results
    end = s0.copy()
    for cell, r in solved.items():
        v = None
        if r["final"] is not None and not loopbreak:
            v = r["final"](end)
        else:
            v = unknown_like(I, get_cell(s0, cell), "loop result at %s" % I.where(n), end)
            if not I.mute:
                I.unknown.append("loop result (%s) at %s" % (cell[2] or "object", I.where(n)))
        set_cell(end, cell, v)
    I.s = end
    for st, exc, node, msg in raised3:
        c = quantify(and_(*st.pc[len(s0.pc):]), axis)
        d = I.s.ctx.decide(c)
        rs = s0.copy().assume(c)
        I.sinks[-1].append((rs, exc, node, msg))
        if d is not True:
            I.s.assume(not_(c))
        elif I.decide(lt(ZERO, axis.extent())) is True:
            I.s = None
            return
    if rets3:
        b = batom("loop-return@%d#%d" % (n.lineno, next(_cnt)))
        rs = I.s.copy().assume(b)
        I.frame.rets.append((rs, Top("return inside a symbolic loop")))
        I.s.assume(not_(b))
        I.unknown.append("return inside a symbolic loop at %s" % I.where(n))
    if I.s is not None and n_orelse:
        I.block(n_orelse)


import itertools
_cnt = itertools.count()


def existed(cell, s0):
    kind, a, b = cell
    if kind == "var":
        return a in s0.frames
    return a in s0.heap


def quantify(c, axis):
    if not (free(c) & set(axis.vars)):
        # independent of the iteration: happens iff there is an iteration
        return and_(c, quant("any", axis.vars, axis.his, and_(axis.cond))) if axis.cond is not TRUE else and_(c, lt(ZERO, axis.extent()))
    return quant("any", axis.vars, axis.his, and_(axis.cond, c))


def lift_events(I, start, axis):
    vs = set(axis.vars)
    for e in I.events[start:]:
        if free(e["cond"]) & vs or axis.cond is not TRUE:
            e["cond"] = quantify(e["cond"], axis)
        else:
            e["cond"] = and_(e["cond"], lt(ZERO, axis.extent()))
        if "test" in e and free(e["test"]) & vs:
            e["test"] = quant("all", axis.vars, axis.his, or_(not_(axis.cond), e["test"]))


class Phi:
    def __init__(self, name, form, **kw):
        self.name, self.form = name, form
        self.__dict__.update(kw)


def fam_sort(name, kind):
    if kind in ("pyint", "npint"):
        FAMILY_SORT[name] = "int"


def make_phi(I, ph, cell, s0, s1):
    name = "phi%d" % next(_cnt)
    v0, v1 = get_cell(s0, cell), get_cell(s1, cell)
    if isinstance(v0, Undef):
        v0 = v0.a
    if cell[0] in ("var", "attr"):
        if isinstance(v0, Num) and isinstance(v1, Num):
            k = join_kind(v0.k, v1.k)
            if v0.k in BOOLK and v1.k in BOOLK:
                set_cell(ph, cell, Num(batom(name), v0.k))
                return Phi(name, "bool", sym=batom(name), k=v1.k, v0=v0)
            s = sym(name, "int" if k in ("pyint", "npint") else "real")
            set_cell(ph, cell, Num(s, k))
            return Phi(name, "num", sym=s, k=k, v0=v0)
        if isinstance(v0, Ref) and isinstance(v1, Ref):
            old = I.s
            I.s = s0
            c0 = I.content(v0)
            I.s = s1
            c1 = I.content(v1)
            I.s = old
            if isinstance(c0, ArrC) and isinstance(c1, ArrC) and len(c0.axes) == len(c1.axes) and v0.loc != v1.loc:
                dt = join_dtype(c0.dtype, c1.dtype)
                if dt == "i8":
                    FAMILY_SORT[name] = "int"
                e0 = el(name, *c0.allvars()) if dt != "bool" else N_("truth", el(name, *c0.allvars()))
                I.nloc += 1
                ph.heap[I.nloc] = ArrC(c0.axes, e0, dt, c0.alias | c1.alias)
                set_cell(ph, cell, Ref(I.nloc))
                return Phi(name, "refarr", e0=e0, c0=c0, dtype=dt)
            if isinstance(c0, ListC) and isinstance(c1, ListC) and v0.loc != v1.loc:
                set_cell(ph, cell, Top("loop-carried list"))
                return Phi(name, "local")
        set_cell(ph, cell, Top("loop-carried value"))
        return Phi(name, "local")
    # heap contents
    if isinstance(v0, ArrC) and isinstance(v1, ArrC) and len(v0.axes) == len(v1.axes):
        dt = v0.dtype
        if dt == "i8":
            FAMILY_SORT[name] = "int"
        e0 = el(name, *v0.allvars()) if dt != "bool" else N_("truth", el(name, *v0.allvars()))
        ph.heap[cell[1]] = ArrC(v0.axes, e0, dt, v0.alias | v1.alias)
        return Phi(name, "arr", e0=e0, c0=v0)
    if isinstance(v0, ListC) and isinstance(v1, ListC):
        n0 = I.np.list_norm(v0, ctxstate=s0)
        same_len = len(v0.tail) == len(v1.tail)
        if same_len and n0 is not None and n0.base is not None:
            ax, it = n0.base
            i1 = I.np.list_norm(v1, ctxstate=s1)
            if isinstance(it, Num) and i1 is not None and i1.base is not None and isinstance(i1.base[1], Num):
                k = join_kind(it.k, i1.base[1].k)
                fam_sort(name, k)
                e0 = el(name, *ax.vars)
                ph.heap[cell[1]] = ListC((ax, Num(e0, k)), ())
                return Phi(name, "listitem", e0=e0, ax=ax, it0=it, k=k)
            if isinstance(it, Arr):
                e0 = el(name, *(tuple(ax.vars) + it.c.allvars()))
                ph.heap[cell[1]] = ListC((ax, Arr(ArrC(it.c.axes, e0, "f8", it.c.alias))), ())
                return Phi(name, "listarr", e0=e0, ax=ax, it0=it)
        if not same_len:
            pl = PhiList(name)
            ph.heap[cell[1]] = ListC(pl, ())
            return Phi(name, "append", pl=pl, l0=v0)
    ph.heap[cell[1]] = TopC("loop-carried object") if not isinstance(v0, ObjC) else v0
    return Phi(name, "other")


def uses(t, names):
    if not names:
        return False
    return bool(atoms(t) & names)


def delta(T, phi, names):
    """T = phi + d with d free of names; returns d or None"""
    if T is phi:
        return ZERO
    if T.op == "ite":
        c = T.args[0]
        if uses(c, names):
            return None
        a, b = delta(T.args[1], phi, names), delta(T.args[2], phi, names)
        if a is None or b is None:
            return None
        return ite(c, a, b)
    d = sub(T, phi)
    return None if uses(d, names) else d


def factor(T, phi, names):
    if T is phi:
        return ONE
    if T.op == "mul" and phi in T.args:
        rest = list(T.args)
        rest.remove(phi)
        f = mul(*rest)
        return None if uses(f, names) else f
    if T.op == "div":
        a = factor(T.args[0], phi, names)
        if a is not None and not uses(T.args[1], names):
            return div(a, T.args[1])
        return None
    if T.op == "ite" and not uses(T.args[0], names):
        a, b = factor(T.args[1], phi, names), factor(T.args[2], phi, names)
        if a is not None and b is not None:
            return ite(T.args[0], a, b)
    return None


def minmax(T, phi, names):
    """returns (kind, g) with T = kind(phi, g)"""
    if T.op == "fn" and T.args[0] in ("min2", "max2") and phi in T.args[1:]:
        rest = [a for a in T.args[1:] if a is not phi]
        if any(uses(a, names) for a in rest):
            return None
        return T.args[0][:3], fn(T.args[0], *rest)
    if T.op == "ite":
        c, a, b = T.args
        if not uses(c, names):
            for x, y, neg_ in ((a, b, False), (b, a, True)):
                if y is phi:
                    r = minmax(x, phi, names)
                    if r:
                        cc = not_(c) if neg_ else c
                        return r[0], ite(cc, r[1], INF if r[0] == "min" else NINF)
            return None
        if c.op in ("lt", "le"):
            x, y = c.args
            # c: x < y
            if a is phi and not uses(b, names):
                if x is phi and y is b:
                    return "min", b
                if y is phi and x is b:
                    return "max", b
            if b is phi and not uses(a, names):
                if x is a and y is phi:
                    return "min", a
                if x is phi and y is a:
                    return "max", a
        if c.op == "and":
            # guard & comparison
            for i, k in enumerate(c.args):
                if k.op in ("lt", "le") and phi in k.args:
                    rest = and_(*[z for j, z in enumerate(c.args) if j != i])
                    if not uses(rest, names) and b is phi:
                        r = minmax(ite(k, a, b), phi, names)
                        if r:
                            return r[0], ite(rest, r[1], INF if r[0] == "min" else NINF)
    return None


def dom(axis, upto=None, ren=None):
    """a fresh copy of the loop domain, optionally restricted to iterations before `upto` (single variable)"""
    ax, m = axis.renamed()
    cond = ax.cond
    if upto is not None:
        if len(ax.vars) == 1:
            cond = and_(cond, lt(ax.vars[0], upto[0]))
        else:
            # lexicographic order
            alts = []
            for q in range(len(ax.vars)):
                alts.append(and_(*[eq(ax.vars[p], upto[p]) for p in range(q)], lt(ax.vars[q], upto[q])))
            cond = and_(cond, or_(*alts))
    return ax.vars, ax.his, cond, m


def red_over(kind, axis, g, upto=None):
    vs, hs, c, m = dom(axis, upto)
    g = subst(g, m)
    if kind == "sum" and not (free(g) & set(vs)):
        return mul(g, count(vs, hs, c))
    return red(kind, vs, hs, c, g)


def solve(I, p, cell, s0, s2, axis, others, env):
    """closed form of a loop-modified cell; None if not (yet) solvable"""
    names_all = set(others) | {p.name}
    # substitute already solved start-of-iteration values
    def clean(t):
        return apply_env(t, env)
    i_now = axis.vars
    v2 = get_cell(s2, cell)
    if isinstance(v2, Undef):
        v2 = v2.a
    if p.form == "num":
        if not isinstance(v2, Num):
            return None
        T = clean(from_cond(v2.t))
        x0 = from_cond(p.v0.t)
        d = delta(T, p.sym, names_all)
        if d is not None:
            st = add(x0, red_over("sum", axis, d, upto=i_now))
            fi = add(x0, red_over("sum", axis, d))
            return num_result(I, p, st, fi, v2.k)
        f = factor(T, p.sym, names_all)
        if f is not None:
            st = mul(x0, red_over("prod", axis, f, upto=i_now))
            fi = mul(x0, red_over("prod", axis, f))
            return num_result(I, p, st, fi, v2.k)
        mm = minmax(T, p.sym, names_all)
        if mm is not None:
            k, g = mm
            fname = k + "2"
            st = fn(fname, x0, red_over(k, axis, g, upto=i_now))
            fi = fn(fname, x0, red_over(k, axis, g))
            return num_result(I, p, st, fi, v2.k)
        if not uses(T, names_all):
            return last_iter_num(I, p, T, x0, v2.k, axis)
        return None
    if p.form == "bool":
        if not isinstance(v2, Num):
            return None
        T = clean(as_cond(v2.t))
        x0 = as_cond(p.v0.t)
        if T.op == "or" and p.sym in T.args:
            g = or_(*[a for a in T.args if a is not p.sym])
            if not uses(g, names_all):
                st = or_(x0, q_over("any", axis, g, i_now))
                fi = or_(x0, q_over("any", axis, g))
                return bool_result(p, st, fi)
        if T.op == "and" and p.sym in T.args:
            g = and_(*[a for a in T.args if a is not p.sym])
            if not uses(g, names_all):
                st = and_(x0, q_over("all", axis, g, i_now))
                fi = and_(x0, q_over("all", axis, g))
                return bool_result(p, st, fi)
        if not uses(T, names_all) and axis.plain:
            h = axis.his[0]
            i = axis.vars[0]
            fi = bite(lt(ZERO, h), subst(T, {i: sub(h, ONE)}), x0)
            st = bite(lt(ZERO, i), subst(T, {i: sub(i, ONE)}), x0)
            return bool_result(p, st, fi)
        return None
    if p.form in ("arr", "refarr"):
        c2 = v2
        if p.form == "refarr":
            if not isinstance(v2, Ref):
                return None
            old = I.s
            I.s = s2
            c2 = I.content(v2)
            I.s = old
        if not isinstance(c2, ArrC):
            return None
        T = clean(c2.at(p.c0.allvars()))
        for a, b in zip(p.c0.axes, c2.axes):
            ea, eb = clean(a.extent()), clean(b.extent())
            if ea is not eb and s0.ctx.decide(eq(ea, eb)) is not True:
                return None
        base = p.c0.term
        ctx = s0.ctx.assume(*[c for a in p.c0.axes for c in a.conds()])
        r = solve_elem(T, p.e0, base, axis, names_all, ctx)
        if r is None:
            return None
        st, fi, e = r
        dt = c2.dtype if p.form == "refarr" else p.c0.dtype
        axes = p.c0.axes
        al = p.c0.alias | c2.alias

        def mk(t):
            if p.form == "arr":
                return lambda s: ArrC(axes, t, dt, al)

            def f(s):
                I.nloc += 1
                s.heap[I.nloc] = ArrC(axes, t, dt, al)
                return Ref(I.nloc)
            return f
        fam = p.name
        vars_ = p.c0.allvars()
        return dict(start=mk(st), final=mk(fi), env={("fam", fam): (vars_, st)})
    if p.form in ("listitem", "listarr"):
        if not isinstance(v2, ListC):
            return None
        nv = I.np.list_norm(v2, ctxstate=s2)
        if nv is None or nv.base is None:
            return None
        ax2, it2 = nv.base
        m = dict(zip(ax2.vars, p.ax.vars))
        it2 = vsubst(it2, m)
        ctx = s0.ctx.assume(*p.ax.conds())
        if p.form == "listitem":
            if not isinstance(it2, Num):
                return None
            T = clean(from_cond(it2.t))
            r = solve_elem(T, p.e0, from_cond(p.it0.t), axis, names_all, ctx)
            if r is None:
                return None
            st, fi, e = r
            k = it2.k
            mk = lambda t: (lambda s: ListC((p.ax, Num(t, k)), ()))
            return dict(start=mk(st), final=mk(fi), env={("fam", p.name): (tuple(p.ax.vars), st)})
        if not isinstance(it2, Arr):
            return None
        T = clean(it2.c.at(p.it0.c.allvars()))
        r = solve_elem(T, p.e0, p.it0.c.term, axis, names_all, ctx)
        if r is None:
            return None
        st, fi, e = r
        mk = lambda t: (lambda s: ListC((p.ax, Arr(ArrC(p.it0.c.axes, t, it2.c.dtype, it2.c.alias))), ()))
        return dict(start=mk(st), final=mk(fi), env={("fam", p.name): (tuple(p.ax.vars) + p.it0.c.allvars(), st)})
    if p.form == "append":
        if not isinstance(v2, ListC) or v2.base is not p.pl:
            return None
        if len(v2.tail) != 1:
            return None
        c, val = v2.tail[0]
        c = clean(c)
        old = I.s
        I.s = s2
        val = I.freeze(val)
        I.s = old
        if not frozen_ok(val):
            return None
        val = vclean(val, clean)
        if uses(c, names_all) or vuses(val, names_all):
            return None
        l0 = p.l0

        def build(upto):
            vs, hs, cc, m = dom(axis, upto)
            ax = Axis(vs, hs, simplify(and_(cc, subst(c, m)), s0.ctx.assume(*[q for v, h in zip(vs, hs) for q in (le(ZERO, v), lt(v, h))])))
            it = vsubst(val, m)
            if l0.base is None and not l0.tail:
                return ListC((ax, it), ())
            return I.np.list_concat_content(l0, ListC((ax, it), ()), s0)
        stv, fiv = build(i_now), build(None)
        if stv is None or fiv is None:
            return None
        return dict(start=lambda s: stv, final=lambda s: fiv)
    if p.form == "local":
        # assigned afresh in every iteration: only the last value survives
        if v2 is None:
            return None
        old = I.s
        I.s = s2
        fv = I.freeze(v2)
        I.s = old
        if not frozen_ok(fv):
            return None
        fv = vclean(fv, clean)
        if vuses(fv, names_all):
            return None
        if not axis.plain:
            return None
        h = axis.his[0]
        i = axis.vars[0]

        def at(t_i, cond_none):
            def f(s):
                v = vsubst(fv, {i: t_i})
                old = I.s
                I.s = s
                v = I.thaw(v)
                I.s = old
                v0 = get_cell(s0, cell)
                d = s0.ctx.decide(cond_none)
                if d is False:
                    return v
                if v0 is None or isinstance(v0, Undef):
                    return Undef(cond_none, v)
                return Gated(cond_none, v0, v)
            return f
        return dict(start=lambda s: (get_cell(s0, cell) if get_cell(s0, cell) is not None else None) if False else Top("loop-carried value"),
                    final=at(sub(h, ONE), le(h, ZERO)))
    return None


def apply_env(t, env):
    if not env:
        return t
    syms = {k: v for k, v in env.items() if isinstance(k, Node) and k.op == "sym"}
    bools = {k: v for k, v in env.items() if isinstance(k, Node) and k.op == "batom"}
    fams = {k[1]: v for k, v in env.items() if isinstance(k, tuple)}
    if fams:
        def f(base, idx):
            if base in fams:
                vs, tt = fams[base]
                return subst(tt, dict(zip(vs, idx)))
            return None
        t = map_els(t, f)
    if syms:
        t = subst(t, syms)
    if bools:
        t = map_batoms(t, bools)
    return t


def map_batoms(t, m):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "batom":
                r = m.get(x, x)
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def vclean(v, clean):
    if isinstance(v, Num):
        return Num(clean(v.t), v.k)
    if isinstance(v, Tup):
        return Tup([vclean(x, clean) for x in v.items])
    if isinstance(v, Arr):
        return Arr(ArrC([Axis(a.vars, [clean(h) for h in a.his], clean(a.cond)) for a in v.c.axes], clean(v.c.term), v.c.dtype, v.c.alias))
    return v


def vuses(v, names):
    if isinstance(v, Num):
        return uses(v.t, names)
    if isinstance(v, Tup):
        return any(vuses(x, names) for x in v.items)
    if isinstance(v, Arr):
        return uses(v.c.term, names) or any(uses(h, names) for a in v.c.axes for h in a.his) or any(uses(a.cond, names) for a in v.c.axes)
    return False


def frozen_ok(v):
    if isinstance(v, (Num, Str, Arr)) or v is NONE:
        return True
    if isinstance(v, Tup):
        return all(frozen_ok(x) for x in v.items)
    return isinstance(v, (Func, Cls, Ext, Mod, Dtype, Rng))


def num_result(I, p, st, fi, k):
    return dict(start=lambda s: Num(st, p.k), final=lambda s: Num(I.simp_in(fi, s), k), env={p.sym: st})


def bool_result(p, st, fi):
    return dict(start=lambda s: Num(st, p.k), final=lambda s: Num(fi, p.k), env={p.sym: st})


def q_over(kind, axis, g, upto=None):
    vs, hs, c, m = dom(axis, upto)
    g = subst(g, m)
    return quant(kind, vs, hs, and_(c, g) if kind == "any" else or_(not_(c), g))


def last_iter_num(I, p, T, x0, k, axis):
    if not axis.plain:
        if len(axis.vars) == 1 and not (free(T) & set(axis.vars)):
            e = axis.extent()
            return num_result(I, p, ite(lt(ZERO, axis.vars[0]), T, x0), ite(lt(ZERO, e), T, x0), k)
        if len(axis.vars) == 1 and axis.cond.op == "le" and axis.cond.args[1] is axis.vars[0]:
            h, i, lo = axis.his[0], axis.vars[0], axis.cond.args[0]
            fi = ite(lt(lo, h), subst(T, {i: sub(h, ONE)}), x0)
            st = ite(lt(lo, i), subst(T, {i: sub(i, ONE)}), x0)
            return num_result(I, p, st, fi, k)
        return None
    h, i = axis.his[0], axis.vars[0]
    fi = ite(lt(ZERO, h), subst(T, {i: sub(h, ONE)}), x0)
    st = ite(lt(ZERO, i), subst(T, {i: sub(i, ONE)}), x0)
    return num_result(I, p, st, fi, k)


def flatten(T, e0, cond=TRUE, out=None, depth=0):
    if out is None:
        out = []
    if T.op == "ite" and depth < 12:
        c = T.args[0]
        flatten(T.args[1], e0, and_(cond, c), out, depth + 1)
        flatten(T.args[2], e0, and_(cond, not_(c)), out, depth + 1)
    else:
        out.append((cond, T))
    return out


def pin(cond, var):
    """cond implies var == r: returns r or None"""
    cs = cond.args if cond.op == "and" else (cond,)
    for c in cs:
        if c.op == "eq":
            d, k = linear(sub(c.args[0], c.args[1]))
            if var in d and abs(d[var]) == 1 and is_int(var):
                f = d[var]
                rest = add(*[mul(num(v), a) for a, v in d.items() if a is not var], num(k))
                if var in free(rest):
                    continue
                return mul(num(-1 / f), rest)
    return None


def own_element(T, e0, depth=0):
    """reads of the written array at the written index, where the index is known to be this element's"""
    if T.op != "ite" or depth > 12 or e0.op != "el":
        return T
    c, a, b = T.args
    eqs = {x for x in (c.args if c.op == "and" else (c,)) if x.op == "eq"}
    if eqs:
        def f(base, idx):
            if base == e0.args[0] and len(idx) == len(e0.args) - 1 and all(i is j or eq(i, j) in eqs for i, j in zip(idx, e0.args[1:])):
                return e0
            return None
        a = map_els(a, f)
    return ite(c, own_element(a, e0, depth + 1), own_element(b, e0, depth + 1))


def solve_elem(T, e0, base, axis, names, ctx):
    """element recurrence T over the loop domain; returns (start value, final value)"""
    T = own_element(T, e0)
    if T is e0:
        return base, base, None
    if T.op not in TERM_COND:
        d = delta(T, e0, names)
        if d is not None:
            # accumulation, possibly pinned
            st = add(base, sum_pinned(axis, d, axis.vars))
            fi = add(base, sum_pinned(axis, d, None))
            return st, fi, None
        mm = minmax(T, e0, names)
        if mm is not None:
            k, g = mm
            return fn(k + "2", base, red_over(k, axis, g, upto=axis.vars)), fn(k + "2", base, red_over(k, axis, g)), None
        leaves = flatten(T, e0)
    else:
        leaves = cond_leaves(T, e0)
        if leaves is None:
            return None
    writes = []
    for c, leaf in leaves:
        if leaf is e0:
            continue
        c = simplify(c, ctx.assume(*axis.conds()))
        if c is FALSE:
            continue
        if uses(leaf, names) or uses(c, names):
            return None
        writes.append((c, leaf))
    # drop conditions in which negations are implied: keep as is
    ws = []
    for c, leaf in writes:
        m = {}
        cc = c
        for v in axis.vars:
            r = pin(subst(cc, m), v)
            if r is not None:
                m[v] = r
        if len(m) == len(axis.vars):
            # resolve chained pins
            for _ in range(len(m)):
                m = {v: subst(r, {k: x for k, x in m.items() if k is not v}) for v, r in m.items()}
            rng = and_(*[x for v, h in zip(axis.vars, axis.his) for x in (le(ZERO, v), lt(v, h))], axis.cond)
            C = simplify(subst(and_(c, rng), m), ctx)
            E = simplify(subst(leaf, m), ctx.assume(C))
            if C is FALSE:
                continue
            ws.append((C, E, [m[v] for v in axis.vars]))
        elif not m and len(axis.vars) == 1 and axis.plain:
            h = axis.his[0]
            i = axis.vars[0]
            if i in free(c):
                return None
            C = and_(c, lt(ZERO, h))
            ws.append((C, subst(leaf, {i: sub(h, ONE)}), [sub(h, ONE)]))
            if i in free(leaf):
                ws[-1] = ws[-1] + ("last",)
        else:
            return None
    if any(len(w) == 4 for w in ws) and len(ws) > 1:
        return None

    def build(limit):
        t = base
        for j, w in enumerate(ws):
            C, E, r = w[:3]
            cond = C
            if limit is not None:
                if len(w) == 4 or w[2] == [sub(axis.his[0], ONE)]:
                    i = axis.vars[0]
                    cond = and_(C, lt(ZERO, limit[0]))
                    if len(w) == 4:
                        E = subst(E, {})  # value of the previous iteration
                        E = writes_leaf(leaves, e0, i)
                else:
                    cond = and_(cond, lex_lt(r, limit))
            for l, w2 in enumerate(ws):
                if l == j:
                    continue
                C2, E2, r2 = w2[:3]
                if ctx.decide(and_(C, C2)) is False or simplify(and_(C, C2), ctx) is FALSE or contradict(ctx, C, C2):
                    continue
                later = lex_lt(r, r2)
                if later is FALSE:
                    continue
                extra = C2 if limit is None else and_(C2, lex_lt(r2, limit))
                cond = and_(cond, not_(and_(extra, later)))
            cond = simplify(cond, ctx)
            t = vite(cond, E, t) if is_cond(E) or is_cond(t) else ite(cond, E, t)
        return t
    return simplify(build(axis.vars), ctx), simplify(build(None), ctx), None


def writes_leaf(leaves, e0, i):
    for c, leaf in leaves:
        if leaf is not e0:
            return subst(leaf, {i: sub(i, ONE)})
    return e0


def contradict(ctx, a, b):
    c2 = ctx.assume(a)
    return c2.decide(b) is False


def sum_pinned(axis, d, upto):
    return red_over("sum", axis, d, upto=upto)


TERM_COND = {"true", "false", "lt", "le", "eq", "not", "and", "or", "quant", "truth", "isnan"}


def cond_leaves(T, e0):
    """boolean arrays: T = or(and(c, x), and(not c, e0)) shapes"""
    if T.op == "or" and e0 in T.args:
        g = or_(*[a for a in T.args if a is not e0])
        return [(g, TRUE), (not_(g), e0)]
    if T.op == "and" and e0 in T.args:
        g = and_(*[a for a in T.args if a is not e0])
        return [(not_(g), FALSE), (g, e0)]
    if T.op == "or":
        keep = None
        rest = []
        for a in T.args:
            if a.op == "and" and e0 in a.args:
                keep = and_(*[x for x in a.args if x is not e0])
            else:
                rest.append(a)
        if keep is not None:
            w = not_(keep)
            return [(w, or_(*rest)), (keep, e0)]
    return [(TRUE, T)]


def lex_lt(a, b):
    alts = []
    for q in range(len(a)):
        alts.append(and_(*[eq(a[p], b[p]) for p in range(q)], lt(a[q], b[q])))
    return or_(*alts)


# ---------------------------------------------------------------- havoc
def unknown_like(I, v, why, st):
    if isinstance(v, Undef):
        v = v.a
    if isinstance(v, Num):
        return Num(top(why), v.k)
    if isinstance(v, ArrC):
        return ArrC(v.axes, top(why), v.dtype, v.alias)
    if isinstance(v, Ref):
        old = I.s
        I.s = st
        try:
            c = I.content(v)
            if isinstance(c, ArrC):
                I.nloc += 1
                st.heap[I.nloc] = ArrC(c.axes, top(why), c.dtype, c.alias)
                return Ref(I.nloc)
        finally:
            I.s = old
        return Top(why)
    if isinstance(v, (ListC, DictC, TopC)):
        return TopC(why)
    if isinstance(v, ObjC):
        return v
    return Top(why)


def havoc_loop(I, n, why):
    """unknown loop: every cell the body may change becomes unknown"""
    why = "%s at %s" % (why, I.where(n))
    if not I.mute:
        I.unknown.append(why)
    s0 = I.s.copy()
    target = getattr(n, "target", None) or ast.Name(id="__w", ctx=ast.Store(), lineno=n.lineno, col_offset=0)
    ax = Axis((fresh("h"),), (fresh("H"),))
    pr = Probe(I, n, target, Top(why), ax, n.body)
    st = s0
    for _ in range(2):
        s1, brk, rets, raised = pr.run(st)
        st = s0.copy()
        for x in [s1] + brk:
            if x is None:
                continue
            for cell in diff_cells(s0, x):
                if existed(cell, s0):
                    set_cell(st, cell, unknown_like(I, get_cell(s0, cell), why, st))
    I.s = st
    if rets:
        b = batom("loop-return#%d" % next(_cnt))
        rs = I.s.copy().assume(b)
        I.frame.rets.append((rs, Top(why)))
        I.s.assume(not_(b))
    # exceptions inside an unknown loop are possible but unknown
    if raised:
        b = N_("truth", top(why))
        for s_, exc, node, msg in raised[:3]:
            I.sinks[-1].append((s0.copy().assume(b), exc, node, msg))


# ---------------------------------------------------------------- comprehensions
def comprehension(I, n, kind):
    elt = n.elt if kind != "dict" else None
    old = I.frame
    fid = I.newframe({})
    I.fparents[fid] = old.fid
    fr = ip.Frame(fid, func=old.func if old.func is not None else None, self_=old.self_, mod=old.mod, parent=old)
    fr.outer_fid = old.fid
    fr.is_comp = True
    # name lookup must see the enclosing frame first
    fake = ip.Func(n, old.mod, old.fid, old.func.name if old.func is not None else "<module>")
    if old.func is not None and hasattr(old.func, "ownercell"):
        fake.ownercell = old.func.ownercell
    fr.func = fake
    I.fparents.setdefault(old.fid, old.func.fid if old.func is not None else None)
    try:
        res = comp_rec(I, n, kind, n.generators, 0, fr, [], TRUE)
    finally:
        I.frame = old
        if I.s is not None:
            I.s.frames.pop(fid, None)
    if isinstance(res, Top):
        return res
    if kind == "dict":
        return res
    if res[0] == "conc":
        if kind == "list":
            return I.alloc(ListC(None, res[1]))
        if all(c is TRUE for c, _ in res[1]):
            return Seq(items=[v for _, v in res[1]], gen=True)
        return I.alloc(ListC(None, res[1]))
    ax, item = res[1], res[2]
    if kind == "list":
        return I.alloc(ListC((ax, item), ()))
    return Seq(axis=ax, item=item, gen=True)


def comp_rec(I, n, kind, gens, q, fr, axes, cond):
    """returns ('conc', [(cond, value)]) or ('abs', Axis, item)"""
    g = gens[q]
    old = I.frame
    if q > 0:
        I.frame = fr
    it = I.ev(g.iter)
    I.frame = fr
    d = I.np.iter_desc(it, n)
    if d is not None and d[0] != "conc":
        I.domain([d[1]], n)
    try:
        if d is None:
            return I.top("comprehension over unknown", n)
        last = q == len(gens) - 1
        if d[0] == "conc" and not axes:
            out = []
            allabs = None
            for item in d[1]:
                I.assign(g.target, item, n)
                c = cond
                for e in g.ifs:
                    c = and_(c, I.truth(I.ev(e), n))
                c = I.simp(c)
                dd = I.decide(c)
                if dd is False:
                    continue
                if dd is True:
                    c = TRUE
                if last:
                    if kind == "dict":
                        k, v = eval_under(I, [n.key, n.value], c, n)
                        out.append((c, Tup([k, v])))
                    else:
                        v = eval_under(I, [n.elt], c, n)[0]
                        out.append((c, v))
                else:
                    r = comp_rec(I, n, kind, gens, q + 1, fr, axes, c)
                    if isinstance(r, Top):
                        return r
                    if r[0] != "conc":
                        if len(d[1]) == 1:
                            return r
                        return I.top("mixed comprehension", n)
                    out += r[1]
            if kind == "dict" and q == 0:
                ref = I.alloc(DictC(None, []))
                for c, kv in out:
                    if c is not TRUE:
                        return I.top("conditional dict comprehension", n)
                    I.np.dict_store(ref, kv.items[0], kv.items[1], n)
                return ref
            return ("conc", out)
        if d[0] == "conc":
            # concrete inner domain below a symbolic one: represent as an axis
            ax = plain_axis(num(len(d[1])))
            vals = [I.freeze(x) for x in d[1]]
            item = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                item = I.np.merge_values(eq(ax.v, num(j)), vals[j], item)
            if not vals:
                return ("abs", ax, Num(ZERO, "pyint"))
            d = ("abs", ax, item)
        ax, item = d[1], d[2]
        s0 = I.s
        I.s = s0.copy()
        I.s.ctx = I.s.ctx.assume(*ax.conds())
        ne0 = len(I.events)
        I.assign(g.target, I.np.thaw_item(item), n)
        c = TRUE
        for e in g.ifs:
            cc = I.simp(I.truth(I.ev(e), n))
            c = and_(c, cc)
            I.s.assume(cc)
        ax2 = Axis(ax.vars, ax.his, and_(ax.cond, c))
        if kind == "dict":
            k, v = I.freeze(I.ev(n.key)), I.freeze(I.ev(n.value))
            s1 = I.s
            I.s = merge_back(I, s0, s1, n)
            lift_events(I, ne0, ax2)
            if len(gens) > 1 or ax2.cond is not TRUE or not isinstance(k, Num):
                return I.top("dict comprehension", n)
            return I.alloc(DictC((ax2, k, v), []))
        if last:
            v = I.freeze(I.ev(n.elt))
            s1 = I.s
            I.s = merge_back(I, s0, s1, n)
            lift_events(I, ne0, ax2)
            if not frozen_ok(v) and not isinstance(v, (Ref, Top)):
                return I.top("comprehension element", n)
            if isinstance(v, Ref):
                return I.top("comprehension of objects", n)
            if isinstance(v, Top):
                return ("abs", ax2, v)
            return ("abs", ax2, v)
        r = comp_rec(I, n, kind, gens, q + 1, fr, axes + [ax2], TRUE)
        s1 = I.s
        I.s = merge_back(I, s0, s1, n)
        lift_events(I, ne0, ax2)
        if isinstance(r, Top):
            return r
        if r[0] == "conc":
            return I.top("mixed comprehension", n)
        bx = r[1]
        return ("abs", Axis(ax2.vars + bx.vars, ax2.his + bx.his, and_(ax2.cond, bx.cond)), r[2])
    finally:
        I.frame = old


def eval_under(I, exprs, c, n):
    """evaluate expressions assuming c (effects are expected to be none)"""
    if c is TRUE:
        return [I.ev(e) for e in exprs]
    s0 = I.s
    I.s = s0.copy().assume(c)
    try:
        vs = [I.ev(e) for e in exprs]
    except ip.Raised as r:
        I.sinks[-1].append((I.s, r.exc, r.node or n, r.msg))
        I.s = s0
        return [I.top("raises", n) for e in exprs]
    st = I.s
    # keep allocations
    for loc, cc in st.heap.items():
        if loc not in s0.heap:
            s0.heap[loc] = cc
    I.s = s0
    return vs


def merge_back(I, s0, s1, n):
    """leave the scope of a symbolic comprehension variable"""
    st = s0
    for loc, c in s1.heap.items():
        if loc not in st.heap:
            st.heap[loc] = c
    cells = [c for c in diff_cells(s0, s1) if c[0] != "var"]
    for cell in cells:
        if existed(cell, s0):
            set_cell(st, cell, unknown_like(I, get_cell(s0, cell), "changed in a comprehension", st))
    return st


def generator_value(I, body, node):
    """generator function: for-loops ending in a single yield, or straight-line yields"""
    def conv(stmts):
        if len(stmts) == 1 and isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Yield):
            return [], stmts[0].value.value
        if len(stmts) == 1 and isinstance(stmts[0], ast.For) and not stmts[0].orelse:
            f = stmts[0]
            gens, e = conv(f.body)
            if e is None:
                return [], None
            return [ast.comprehension(target=f.target, iter=f.iter, ifs=[], is_async=0)] + gens, e
        if len(stmts) == 1 and isinstance(stmts[0], ast.If) and not stmts[0].orelse:
            f = stmts[0]
            gens, e = conv(f.body)
            if e is None:
                return [], None
            return [("if", f.test)] + gens, e
        return [], None
    pre = []
    rest = list(body)
    while rest and isinstance(rest[0], (ast.Assign, ast.AnnAssign)):
        pre.append(rest.pop(0))
    gens, e = conv(rest)
    if e is None:
        return I.top("generator function", node)
    out = []
    for g in gens:
        if isinstance(g, tuple):
            if not out:
                return I.top("generator function", node)
            out[-1].ifs.append(g[1])
        else:
            out.append(g)
    if not out:
        return I.top("generator function", node)
    I.block(pre)
    ge = ast.GeneratorExp(elt=e, generators=out, lineno=node.lineno, col_offset=0)
    return comprehension(I, ge, "gen")


def eval_item(I, ax, f, item, n):
    """value of f(item) for a symbolic position of the axis, frozen (or None)"""
    s0 = I.s
    I.s = s0.copy()
    I.s.ctx = I.s.ctx.assume(*ax.conds())
    ne0 = len(I.events)
    v = I.freeze(f(item))
    s1 = I.s
    I.s = merge_back(I, s0, s1, n)
    lift_events(I, ne0, ax)
    return v if frozen_ok(v) else None
