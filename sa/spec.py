"""The definitions of the nine indices (properties C01-C09) as terms over the data set:
data[i,d] the samples, cls[i] the cluster of sample i, m samples, k clusters, dim features.
Written from the statements in properties.jsonl, independently of the code."""
from .terms import *
from .terms import N_

M, K, DIM = sym("m", "int"), sym("k", "int"), sym("dim", "int")


def S(hi, f, cond=None, kind="sum"):
    v = fresh("s")
    return red(kind, (v,), (num(hi),), cond(v) if cond else TRUE, f(v))


WEIGHTED = False         # rows stand for wt[i] equal samples


def total():
    return S(M, lambda i: el("wt", i)) if WEIGHTED else M


def members(c, f, kind="sum"):
    if WEIGHTED and kind == "sum":
        return S(M, lambda i: mul(el("wt", i), f(i)), lambda i: eq(el("cls", i), c), kind)
    return S(M, f, lambda i: eq(el("cls", i), c), kind)


def n(c):
    return members(c, lambda i: ONE)


def v(c, d):
    return div(members(c, lambda i: el("data", i, d)), n(c))


def mu(d):
    return div(S(M, lambda i: mul(el("wt", i), el("data", i, d)) if WEIGHTED else el("data", i, d)), total())


def sq(t):
    return power(t, TWO)


def dist2(a, b):
    return S(DIM, lambda d: sq(sub(v(a, d), v(b, d))))


def Q(c):
    """sum of the squared distances of the members of c to its centroid"""
    return members(c, lambda i: S(DIM, lambda d: sq(sub(el("data", i, d), v(c, d)))))


def Sji(j, i):
    """mean squared distance of the members of j to the centroid of i"""
    return div(members(j, lambda s: S(DIM, lambda d: sq(sub(el("data", s, d), v(i, d))))), n(j))


def W():
    return S(K, Q)


def Bt():
    return S(K, lambda c: mul(n(c), S(DIM, lambda d: sq(sub(v(c, d), mu(d))))))


def pairs(kind, f):
    i, j = fresh("s"), fresh("s")
    return red(kind, (i, j), (K, K), lt(i, j), f(i, j))


def others(kind, i, f):
    return S(K, f, lambda j: ne(i, j), kind)


def spec_CH():
    return div(mul(div(Bt(), W()), sub(total(), K)), sub(K, ONE)), [W()]


def spec_cSIL():
    a = lambda i: Sji(i, i)
    b = lambda i: others("min", i, lambda j: Sji(j, i))
    mx = lambda i: fn("max2", a(i), b(i))
    allz = fresh("s"), fresh("s")
    term = S(K, lambda i: div(sub(b(i), a(i)), mx(i)))
    j, i = fresh("s"), fresh("s")
    every0 = red("max", (j, i), (K, K), TRUE, Sji(j, i))
    val = ite(eq(every0, ZERO), ZERO, div(term, K))
    # unspecified where some (but not every) max(a_i, b_i) is zero
    low = S(K, mx, None, "min")
    return val, [ite(eq(every0, ZERO), ONE, low)]


def spec_DB():
    s = lambda c: div(Q(c), n(c))
    val = div(S(K, lambda i: others("max", i, lambda j: div(add(s(i), s(j)), dist2(i, j)))), K)
    return val, [pairs("min", dist2)]


def spec_GD43():
    den = mul(TWO, S(K, lambda c: div(Q(c), n(c)), None, "max"))
    return div(pairs("min", lambda i, j: fn("sqrt", dist2(i, j))), den), [den]


def spec_GD53():
    den = mul(TWO, S(K, lambda c: div(Q(c), n(c)), None, "max"))
    return div(pairs("min", lambda i, j: div(add(Q(i), Q(j)), add(n(i), n(j)))), den), [den]


def spec_PS():
    vm = lambda d: div(S(K, lambda c: v(c, d)), K)
    beta = div(S(K, lambda c: S(DIM, lambda d: sq(sub(v(c, d), vm(d))))), K)
    nmax = S(K, n, None, "max")
    val = S(K, lambda i: sub(div(n(i), nmax), fn("exp", neg(div(others("min", i, lambda j: dist2(i, j)), beta)))))
    return val, [beta]


def spec_rCIP():
    eps = power(num(10), div(num(-12), DIM))

    def cov(c, a, b):
        raw = members(c, lambda i: mul(sub(el("data", i, a), v(c, a)), sub(el("data", i, b), v(c, b))))
        return add(ite(lt(ONE, n(c)), div(raw, sub(n(c), ONE)), ZERO), ite(eq(a, b), eps, ZERO))

    def pot(p, q):
        i, j = fresh("s"), fresh("s")
        body = add(cov(p, i, j), cov(q, i, j))
        det = N_("mat", "det", DIM, i, j, body)
        a, b = fresh("s"), fresh("s")
        quad = red("sum", (a, b), (DIM, DIM), TRUE, mul(sub(v(p, a), v(q, a)), N_("mat", "inv", DIM, i, j, body, a, b), sub(v(p, b), v(q, b))))
        return div(fn("exp", mul(num(-1) , div(quad, TWO))), fn("sqrt", mul(power(mul(TWO, PI), DIM), det)))

    return pairs("sum", pot), []


def spec_WB():
    return div(mul(K, W()), Bt()), [Bt()]


def spec_XB():
    md = pairs("min", dist2)
    return div(W(), mul(total(), md)), [md]


SPECS = {}


def spec(name, weighted=False):
    global WEIGHTED
    if (name, weighted) not in SPECS:
        WEIGHTED = weighted
        SPECS[name, weighted] = globals()["spec_" + name]()
        WEIGHTED = False
    return SPECS[name, weighted]


INDICES = {"C01": "CH", "C02": "cSIL", "C03": "DB", "C04": "GD43", "C05": "GD53", "C06": "PS", "C07": "rCIP", "C08": "WB", "C09": "XB"}
