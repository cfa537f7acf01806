"""Evaluation of terms at a point (identity testing): used only to refute the equality of two extracted
terms whose normal forms differ, and to show that a guard is satisfiable.  The analysed program is not run."""
from decimal import Decimal, getcontext, InvalidOperation, DivisionByZero, Overflow
from fractions import Fraction
import decimal
from .terms import *
from .terms import _tabs

getcontext().prec = 50
getcontext().traps[InvalidOperation] = False
getcontext().traps[DivisionByZero] = False
getcontext().traps[Overflow] = False
getcontext().Emax = 10 ** 9
getcontext().Emin = -(10 ** 9)

NANV = Decimal("NaN")
INFV = Decimal("Infinity")
PIV = Decimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")


class Unknown(Exception):
    """the term contains something that has no value (an unresolved part)"""


class Budget(Exception):
    pass


_fl = {}


def freelist(t):
    r = _fl.get(t)
    if r is None:
        r = _fl[t] = sorted(free(t), key=lambda s: s._id)
    return r


def D(x):
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return int(x)
        return Decimal(x.numerator) / Decimal(x.denominator)
    return x


def isnan(x):
    return isinstance(x, Decimal) and x.is_nan()


class Model:
    """Subclass or fill: syms (name -> value), fams (name -> callable or nested list / dict), bools."""

    def __init__(self, syms=None, fams=None, bools=None, budget=3_000_000):
        self.syms = dict(syms or {})
        self.fams = dict(fams or {})
        self.bools = dict(bools or {})
        self.memo = {}
        self.env = {}
        self.budget = budget
        self.guards = None
        self.cdt = "f8"

    # ------------------------------------------------------------
    def val(self, t):
        op = t.op
        if op == "num":
            return D(t.args[0])
        if op == "sym":
            if t in self.env:
                return self.env[t]
            n = t.args[0]
            if n == "pi":
                return PIV
            if n in self.syms:
                return self.syms[n]
            raise Unknown("symbol " + n)
        key = (t, tuple([self.env.get(s) for s in freelist(t)]))
        r = self.memo.get(key)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        r = self._val(t)
        self.memo[key] = r
        return r

    def _val(self, t):
        op, a = t.op, t.args
        v = self.val
        if op == "inf":
            return INFV
        if op == "ninf":
            return -INFV
        if op == "nan":
            return NANV
        if op == "el":
            idx = tuple(v(x) for x in a[1:])
            f = self.fams.get(a[0])
            if f is None and a[0] in _tabs:
                f = lambda i, xs=_tabs[a[0]]: xs[i]
            if f is None:
                raise Unknown("family " + a[0])
            for i in idx:
                if not isinstance(i, int):
                    if isinstance(i, Decimal) and not i.is_nan() and not i.is_infinite() and i == i.to_integral_value():
                        continue
                    return NANV
            return D(f(*[int(i) for i in idx]))
        if op == "add":
            s = 0
            for x in a:
                s = s + v(x)
            return s
        if op == "mul":
            s = 1
            for x in a:
                s = s * v(x)
            return s
        if op == "div":
            return self.divide(v(a[0]), v(a[1]))
        if op == "pow":
            return self.power(v(a[0]), v(a[1]))
        if op == "ite":
            return v(a[1]) if self.cond(a[0]) else v(a[2])
        if op == "fn":
            xs = [v(x) for x in a[1:]]
            if self.guards is not None and a[0] in ("max2", "min2") and not any(isnan(x) for x in xs) and xs[0] != xs[1]:
                self.guards.setdefault(t, [0, 0])[int(xs[0] < xs[1])] += 1
            return self.func(a[0], xs)
        if op == "red":
            return self.reduce(a)
        if op == "mat":
            return self.matrix(a)
        if op == "top":
            raise Unknown(a[0])
        if op in ("true", "false", "lt", "le", "eq", "not", "and", "or", "batom", "quant", "truth", "isnan"):
            return int(self.cond(t))
        raise Unknown(op)

    def divide(self, x, y):
        if isinstance(x, int) and isinstance(y, int) and y != 0 and x % y == 0:
            return x // y
        if y == 0:
            if isnan(x) or x == 0:
                return NANV
            return INFV if x > 0 else -INFV
        return Decimal(x) / Decimal(y)

    def power(self, x, y):
        if isnan(x) or isnan(y):
            return NANV
        if isinstance(y, int) or y == y.to_integral_value():
            y = int(y)
            if x == 0 and y < 0:
                return INFV
            if abs(y) > 10000:
                raise Budget()
            return Decimal(x) ** y if y < 0 or not isinstance(x, int) else x ** y
        if x < 0:
            return NANV
        if x == 0:
            return 0 if y > 0 else INFV
        return Decimal(x) ** Decimal(y)

    def func(self, name, xs):
        if any(isnan(x) for x in xs):
            return NANV
        x = xs[0]
        if name == "sqrt":
            if x < 0:
                # tiny negative values are rounding noise of the evaluation
                if x > -(Decimal(10) ** -35):
                    return 0
                return NANV
            return Decimal(x).sqrt()
        if name == "exp":
            x = Decimal(x)
            if x > 5000:
                x = Decimal(5000)
            if x < -100000:
                return Decimal(0)
            return x.exp()
        if name == "log":
            return Decimal(x).ln() if x > 0 else (NANV if x < 0 else -INFV)
        if name == "abs":
            return abs(x)
        if name == "max2":
            return max(xs)
        if name == "min2":
            return min(xs)
        if name in ("floor", "ceil", "trunc", "round0", "round") and Decimal(x).is_infinite():
            return x
        if name == "floor":
            return int(Decimal(x).to_integral_value(rounding=decimal.ROUND_FLOOR))
        if name == "ceil":
            return int(Decimal(x).to_integral_value(rounding=decimal.ROUND_CEILING))
        if name == "trunc":
            return int(Decimal(x).to_integral_value(rounding=decimal.ROUND_DOWN))
        if name == "round0":
            return int(Decimal(x).to_integral_value(rounding=decimal.ROUND_HALF_EVEN))
        if name == "round":
            return Decimal(x).quantize(Decimal(10) ** -int(xs[1]))
        if name == "f32":
            return f32(x)
        if name == "f16":
            return f32(x, "e")
        if name in ("f32c", "f16c"):
            if self.cdt in ("b1", "i1", "u1"):
                return f32(x) if name == "f32c" else f32(x, "e")
            return f32(x) if self.cdt in ("i2", "u2") else x
        if name == "f64":
            return int(float(x)) if isinstance(x, int) else x
        if name in ("wrapc", "castc", "truncc"):
            dt = self.cdt
            if name == "truncc":
                name = "trunc" if dt[0] == "f" else "id"
                return self.func("trunc", xs) if name == "trunc" else x
            if dt == "f8":
                return x
            if dt == "f4":
                return f32(x)
            if dt == "b1":
                return int(x != 0)
            bits = {"i1": 8, "i2": 16, "i4": 32, "i8": 64, "u1": 8}[dt]
            x = self.func("trunc", [x])
            x &= (1 << bits) - 1
            if dt[0] == "i" and x >> (bits - 1):
                x -= 1 << bits
            return x
        if name == "sign":
            return (x > 0) - (x < 0)
        if name in INTFN and all(isinstance(a, int) or isinstance(a, Fraction) and a.denominator == 1 for a in xs):
            r = int_fn(name, [int(a) for a in xs])
            return NANV if r is None else r
        if name in ("bitand", "bitor", "bitxor", "shl", "shr", "wrapi"):
            ys = [D(a) for a in xs]
            if any(isnan(a) or Decimal(a).is_infinite() or a != int(a) for a in ys):
                raise Unknown("bit operation on a fraction")
            r = int_fn(name, [int(a) for a in ys])
            return NANV if r is None else r
        if name == "mod":
            if xs[1] == 0:
                return NANV
            q = (Decimal(x) / Decimal(xs[1])).to_integral_value(rounding=decimal.ROUND_FLOOR)
            r = x - q * xs[1]
            return int(r) if isinstance(x, int) and isinstance(xs[1], int) else r
        raise Unknown("function " + name)

    def points(self, vs, hs, c):
        """iterate over the domain, binding the variables"""
        env = self.env

        def go(i):
            if i == len(vs):
                if c is TRUE or self.cond(c):
                    yield None
                return
            h = self.val(hs[i])
            if not isinstance(h, int):
                if isnan(h) or h != h.to_integral_value():
                    raise Unknown("extent")
                h = int(h)
            if h > 200000:
                raise Budget()
            old = env.get(vs[i])
            for j in range(h):
                env[vs[i]] = j
                yield from go(i + 1)
            if old is None:
                env.pop(vs[i], None)
            else:
                env[vs[i]] = old

        yield from go(0)

    def reduce(self, a):
        kind, vs, hs, c, b = a
        acc = {"sum": 0, "max": -INFV, "min": INFV, "prod": 1}[kind]
        saved = {x: self.env.get(x) for x in vs}
        try:
            for _ in self.points(vs, hs, c):
                x = self.val(b)
                if isnan(x):
                    acc = NANV
                    break
                if kind == "sum":
                    acc = acc + x
                elif kind == "prod":
                    acc = acc * x
                elif kind == "max":
                    acc = x if x > acc else acc
                else:
                    acc = x if x < acc else acc
        finally:
            for x, o in saved.items():
                if o is None:
                    self.env.pop(x, None)
                else:
                    self.env[x] = o
        return acc

    def matrix(self, a):
        kind, n, i, j, body = a[:5]
        nv = int(self.val(n))
        key = ("M", n, i, j, body, tuple([self.env.get(s) for s in sorted(free(body) - {i, j}, key=lambda s: s._id)]))
        inv = self.memo.get(key)
        if inv is None:
            so, sj = self.env.get(i), self.env.get(j)
            M = []
            for r in range(nv):
                row = []
                for c in range(nv):
                    self.env[i], self.env[j] = r, c
                    row.append(Decimal(self.val(body)))
                M.append(row)
            for s, o in ((i, so), (j, sj)):
                if o is None:
                    self.env.pop(s, None)
                else:
                    self.env[s] = o
            inv = self.memo[key] = self.invdet(M)
        det, I = inv
        if kind == "det":
            return det
        if kind == "inv":
            if I is None:
                return NANV
            return I[int(self.val(a[5]))][int(self.val(a[6]))]
        raise Unknown(kind)

    def invdet(self, M):
        n = len(M)
        if any(isnan(x) for r in M for x in r):
            return NANV, None
        A = [list(r) + [Decimal(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
        det = Decimal(1)
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(A[r][c]))
            if A[p][c] == 0:
                return Decimal(0), None
            if p != c:
                A[p], A[c] = A[c], A[p]
                det = -det
            det *= A[c][c]
            f = A[c][c]
            A[c] = [x / f for x in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    g = A[r][c]
                    A[r] = [x - g * y for x, y in zip(A[r], A[c])]
        return det, [r[n:] for r in A]

    # ------------------------------------------------------------
    def cond(self, c):
        op, a = c.op, c.args
        if op == "true":
            return True
        if op == "false":
            return False
        if op in ("lt", "le", "eq"):
            x, y = self.val(a[0]), self.val(a[1])
            if isnan(x) or isnan(y):
                return False
            if self.guards is not None:
                g = self.guards.setdefault(c, [0, 0])
                if op == "eq":
                    g[int(close(x, y))] += 1
                else:
                    g[int(x < y)] += 1
            if op == "eq":
                return close(x, y)
            if isinstance(x, int) and isinstance(y, int):
                return x < y if op == "lt" else x <= y
            if close(x, y):
                return op == "le"
            return x < y
        if op == "not":
            return not self.cond(a[0])
        if op == "and":
            return all(self.cond(x) for x in a)
        if op == "or":
            return any(self.cond(x) for x in a)
        if op == "batom":
            if a[0] in self.bools:
                return self.bools[a[0]]
            if a[0].startswith("cdt:"):
                return self.cdt in CDT_SETS[a[0][4:]]
            raise Unknown("bool " + a[0])
        if op == "isnan":
            return isnan(self.val(a[0]))
        if op == "truth":
            return self.val(a[0]) != 0
        if op == "quant":
            kind, vs, hs, b = a
            saved = {x: self.env.get(x) for x in vs}
            try:
                for _ in self.points(vs, hs, TRUE):
                    r = self.cond(b)
                    if kind == "any" and r:
                        return True
                    if kind == "all" and not r:
                        return False
            finally:
                for x, o in saved.items():
                    if o is None:
                        self.env.pop(x, None)
                    else:
                        self.env[x] = o
            return kind == "all"
        # numeric used as condition
        v = self.val(c)
        return isnan(v) or v != 0


TOL = Decimal(10) ** -25
FLOOR = Decimal(10) ** -38


def f32(x, code="f"):
    import struct
    try:
        return Decimal(struct.unpack(code, struct.pack(code, float(x)))[0])
    except OverflowError:
        return INFV if x > 0 else -INFV


def close(x, y):
    """equality up to the rounding of the 50-digit evaluation"""
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isnan(x) or isnan(y):
        return False
    x, y = Decimal(x), Decimal(y)
    if x.is_infinite() or y.is_infinite():
        return x == y
    return abs(x - y) <= TOL * max(abs(x), abs(y)) + FLOOR
