"""The points and arrival orders at which extracted terms are compared (see hist.py)."""
import random
from fractions import Fraction as F
from .hist import History


def rows_for(style, dim, n, rng, labels):
    def frac(s=8, r=40):
        return F(rng.randint(-r, r), s)
    if style == "frac":
        return [[frac() for _ in range(dim)] for _ in range(n)]
    if style == "big":
        return [[frac() * 10 ** 7 for _ in range(dim)] for _ in range(n)]
    if style == "small":
        return [[frac() / 10 ** 7 for _ in range(dim)] for _ in range(n)]
    if style == "offset":
        return [[frac() + 1000 for _ in range(dim)] for _ in range(n)]
    if style == "neg":
        return [[-abs(frac()) - 1 for _ in range(dim)] for _ in range(n)]
    if style == "dup":
        return [[F(rng.randint(0, 1)) for _ in range(dim)] for _ in range(n)]
    if style == "zero":
        return [[F(0) if rng.random() < .5 else frac() for _ in range(dim)] for _ in range(n)]
    if style == "tight":      # every cluster is one repeated point, except one cluster
        cen = {c: [frac() + 7 * i for _ in range(dim)] for i, c in enumerate(dict.fromkeys(labels))}
        last = labels[-1]
        return [list(cen[c]) if c != last else [x + frac() for x in cen[c]] for c in labels]
    if style == "sep":        # well separated clusters
        cen = {c: [F(25 * i * (1 if d % 2 else -1)) for d in range(dim)] for i, c in enumerate(dict.fromkeys(labels))}
        return [[x + frac() for x in cen[c]] for c in labels]
    if style == "apart":      # far apart compared to their spread
        cen = {c: [F(70 * i * (1 if d % 2 else -1)) for d in range(dim)] for i, c in enumerate(dict.fromkeys(labels))}
        return [[x + frac() for x in cen[c]] for c in labels]
    if style == "flat":       # one constant feature
        return [[frac() if d else F(3) for d in range(dim)] for _ in range(n)]
    if style == "origin":     # clusters symmetric around zero: sums cancel
        out, half = [], {}
        for c in labels:
            if c in half:
                out.append([-x for x in half.pop(c)])
            else:
                half[c] = [frac() for _ in range(dim)]
                out.append(list(half[c]))
        return out
    if style == "mean":       # some samples fall exactly on the running mean of their cluster, of another one, or of everything
        out, by = [], {}
        for i, c in enumerate(labels):
            own = [x for x in by.get(c, [])]
            other = next((by[b] for b in by if b != c), None)
            src = own if own and i % 2 else other if other and i % 5 == 4 else [x for b in by.values() for x in b] if by and i % 7 == 6 else None
            r = [sum(x[d] for x in src) / F(len(src)) for d in range(dim)] if src else [F(rng.randint(-20, 20) * 4) for _ in range(dim)]
            by.setdefault(c, []).append(r)
            out.append(r)
        return out
    if style == "line":       # features proportional to one another
        return [[x * (d + 1) for d in range(dim)] for x in (frac() for _ in range(n))]
    if style == "scales":     # features of very different magnitude
        return [[frac() * F(10) ** (4 * d - 4) for d in range(dim)] for _ in range(n)]
    if style in ("lateclose", "latefar"):   # each new cluster nearer to (farther from) the others than all before
        ids = {c: i for i, c in enumerate(dict.fromkeys(labels))}
        k = len(ids)
        at = (lambda i: F(1000 * 2 ** (k - i), 2 ** k)) if style == "lateclose" else (lambda i: F(10 * 2 ** i))
        return [[at(ids[c]) * (1 if d % 2 == 0 else -1) + frac() / (64 * 2 ** k) for d in range(dim)] for c in labels]
    if style == "far":        # far away from the origin
        return [[frac() + 12_345_678 for _ in range(dim)] for _ in range(n)]
    if style == "concentric":  # every cluster ends with the same mean; the first one never leaves it
        base = [F(rng.randint(-9, 9)) for _ in range(dim)]
        out, half = [], {}
        for c in labels:
            step = [F(0)] * dim if c == labels[0] else [-x for x in half.pop(c)] if c in half else half.setdefault(c, [frac() for _ in range(dim)])
            out.append([a + b for a, b in zip(base, step)])
        return out
    if style == "int":
        return [[F(rng.randint(-9, 9)) for _ in range(dim)] for _ in range(n)]
    raise AssertionError(style)


PATTERNS = [
    ("alternating", [0, 1, 0, 1, 1, 0, 0, 1]),
    ("blocks", [0, 0, 0, 1, 1, 1, 2, 2, 2, 0]),
    ("singletons", [0, 1, 2, 3, 4]),
    ("late return", [0, 1, 2, 2, 1, 0, 3, 0, 3, 1]),
    ("long single then many", [0, 0, 0, 0, 0, 0, 1, 2, 3, 1]),
    ("one dominant", [0, 1, 1, 1, 1, 2, 1, 1, 0, 2]),
    ("two", [0, 1, 1]),
    ("new last", [0, 0, 1, 1, 2]),
]
NAMES = [
    [0, 1, 2, 3, 4, 5, 6, 7], [7, -3, 100, 5, 0, -8, 12, 1], [3, 2, 1, 0, -1, -2, -3, -4], [1, -1, 2, -2, 3, -3, 4, -4],
    [256, 0, 512, 1, 257, -256, 128, -128], [2 ** 33, 0, -2 ** 33, 1, 2 ** 32, 2 ** 31, -2 ** 31, 5],
    [10, 20, 30, 40, 50, 60, 70, 80], [0, 2, 1, 4, 3, 6, 5, 7], [-1, 0, 1, 2, 3, 4, 5, 6],
]
# pairs of labels that common reductions (sign, bytes, digits, parity, hash, bit tricks) would merge
COLLIDE = [(-1, -2), (5, -5), (7, 263), (7, 7 + 2 ** 16), (7, 7 + 2 ** 32), (0, 1), (2, 3), (0, -1), (3, 13), (100, 1000), (12, 21), (127, -129),
           (0, 2 ** 31), (4, 8), (6, 9), (-7, 1), (2 ** 40, 2 ** 41), (99, 199), (2 ** 53, 2 ** 53 + 1), (2 ** 62, 2 ** 62 + 1)]
STYLES = ["frac", "sep", "zero", "dup", "big", "small", "offset", "neg", "tight", "flat", "origin", "int", "mean", "line", "scales", "lateclose", "latefar", "far", "concentric", "apart"]


def core(seed=1, tier="quick"):
    """the base histories"""
    rng = random.Random(1000 + seed)
    out = []
    dims = [2, 1, 3, 2, 1, 3, 2, 4]
    q = 0
    rounds = 1 if tier == "quick" else 6
    for rd in range(rounds):
        for si, st in enumerate(STYLES):
            for pi in ((si + rd * 3) % len(PATTERNS), (si * 3 + 1 + rd) % len(PATTERNS)):
                nm, pat = PATTERNS[pi]
                dim = dims[q % len(dims)]
                names = NAMES[q % len(NAMES)]
                labs = [names[c] for c in pat]
                out.append(History("%s/%s" % (nm, st), rows_for(st, dim, len(labs), rng, labs), labs))
                q += 1
        # random patterns
        for _ in range(4 if tier == "quick" else 8):
            n = rng.randint(5, 12)
            k = rng.randint(2, 5)
            pat = [rng.randrange(k) for _ in range(n)]
            names = NAMES[rng.randrange(len(NAMES))]
            labs = [names[c] for c in pat]
            dim = rng.choice([1, 2, 3])
            st = rng.choice(STYLES)
            out.append(History("random/%s" % st, rows_for(st, dim, n, rng, labs), labs))
    out.append(History("far apart", rows_for("apart", 1, 8, rng, [0, 1, 0, 1, 1, 0, 0, 1]), [0, 1, 0, 1, 1, 0, 0, 1]))
    # clusters around one point, the first of which is that point
    for pat in ([0, 1, 1, 2, 2, 2, 2], [0, 1, 2, 1, 2, 0, 1, 1], [0, 0, 1, 1, 2, 2]):
        out.append(History("one centre", rows_for("concentric", 2, len(pat), rng, pat), pat))
    # a longer one-dimensional stream
    n = 30 if tier == "quick" else 90
    labs = [NAMES[1][rng.randrange(3)] for _ in range(n)]
    out.append(History("long", rows_for("frac", 1, n, rng, labs), labs))
    labs = [NAMES[0][(i * i) % 7] for i in range(16)]
    out.append(History("many clusters", rows_for("sep", 2, 16, rng, labs), labs))
    # data sets with larger clusters, batch only
    for dim, st in ((1, "frac"), (2, "small"), (3, "frac")) if tier == "quick" else [(d, s) for d in (1, 2, 3) for s in ("frac", "small", "big", "scales")]:
        labs = [NAMES[1][(i * 2) % 5 % 2] for i in range(24)]
        h = History("larger clusters/%s" % st, rows_for(st, dim, 24, rng, labs), labs)
        h.modes = ("batch",)
        out.append(h)
    return out


def relabelled(h, names, tag):
    first = list(dict.fromkeys(h.labels))
    m = {c: names[i] for i, c in enumerate(first)}
    return History(h.name + "/" + tag, h.rows, [m[c] for c in h.labels], h.cdt)


def dtype_histories(seed=1, tier="quick"):
    rng = random.Random(77 + seed)
    out = []
    rng_of = {"i1": (-128, 127), "u1": (0, 255), "i2": (-32768, 32767), "i4": (-2 ** 31, 2 ** 31 - 1), "i8": (-2 ** 62, 2 ** 62), "b1": (0, 1)}
    for rd in range(1 if tier == "quick" else 4):
        for dt, (lo, hi) in rng_of.items():
            for nm, pat in (PATTERNS[0], PATTERNS[1], PATTERNS[3]):
                for spread in (1, 16):
                    if dt == "b1" and spread > 1:
                        continue
                    dim = rng.choice([1, 2, 3])
                    rows = [[F(rng.randint(lo // spread, hi // spread)) for _ in range(dim)] for _ in pat]
                    out.append(History("%s as %s" % (nm, dt), rows, [NAMES[0][c] for c in pat], dt))
    return out


def directed(consts, seed=1, longest=3000, lits=()):
    """histories that reach both sides of guards comparing against the constants found in the code, and both sides of
    the numbers written in it (lits)"""
    rng = random.Random(5 + seed)
    out = []
    sharp = sorted({abs(F(c)) for c in consts} | {F(c) for c in lits})
    ks = sorted({int(c) for c in lits if 3 <= c <= 130 and c == int(c)})[:4]
    ks += sorted({int(c) for c in consts if 3 <= c <= 130 and c == int(c)} - set(ks))[:6]
    for c in ks:
        # more clusters than c
        pat = [0] + list(range(c + 2)) + [1, c]
        if c <= 34:
            for st in ("frac", "lateclose", "latefar"):
                out.append(History("more than %d clusters/%s" % (c, st), rows_for(st, 1, len(pat), rng, pat), pat))
            # overlapping clusters of two; the last ones are the nearest of the first ones
            pat2 = list(range(c + 2)) + list(range(c + 2))
            at = [F(5 * i) for i in range(c)] + [F(5, 2), F(5 * (c // 2)) + 2]
            h = History("more than %d clusters in pairs" % c, [[at[q] + (1 if t < c + 2 else -1) * F(4 + q % 3, 4)] for t, q in enumerate(pat2)], pat2)
            h.sparse = {c + 2, c + 3, 2 * c + 3, 2 * c + 4}
            h.wide = True
            out.append(h)
        else:
            h = History("more than %d clusters" % c, [[F(3 * (p * 7 % (c + 3))) + F(rng.randint(-9, 9), 8)] for p in pat], pat)
            h.modes = ("stream", "batch") if c <= 66 else ("batch",)
            h.sparse = {c, c + 1, c + 3, c + 4, c + 5}
            h.wide = True
            out.append(h)
        # more features than c
        pat = [0, 1, 1, 0, 2]
        out.append(History("more than %d features" % c, rows_for("frac", c + 1, 5, rng, pat), pat))
        out.append(History("more than %d features, close together" % c, [[x / 128 for x in r] for r in rows_for("frac", c + 1, 5, rng, pat)], pat))
    # thresholds on sample counts, also written as rates (1/c)
    ns = sorted({int(c) for c in lits if 6 <= c <= longest and c == int(c)})[:4]
    ns += sorted(({int(c) for c in consts if 6 <= c <= longest and c == int(c)} |
                  {int(1 / c) for c in consts if 0 < c < 1 and 6 <= int(1 / c) <= longest}) - set(ns))[:5]
    room = 2 * longest
    for c in ns:
        n = int(c * 1.15) + 12
        if n > room:
            continue
        room -= n
        pat = [0, 1] + [0] * (c // 3) + [1] * 3 + [2, 0]
        pat += [rng.choice((0, 0, 0, 1)) for _ in range(n - len(pat))]
        h = History("more than %d samples" % c, rows_for("frac", 1, len(pat), rng, pat), pat)
        if len(pat) > 60:
            h.sparse = {c - 1, c, c + 1, c + 2, c + 3, len(pat) - 1, len(pat)}
        out.append(h)
    for c in ns[:6]:
        if c > longest // 4:
            continue
        pat = [0] * (c + 2) + [1, 0]
        h = History("more than %d samples of one cluster" % c, rows_for("frac", 1, len(pat), rng, pat), pat)
        h.modes = ("stream",)
        if len(pat) > 60:
            h.sparse = {c - 1, c, c + 1, c + 2, c + 3, c + 4}
        out.append(h)
    for c in ns[:3]:
        if not 40 <= c <= 1500:
            continue
        pat = [0] * (c + 5) + [1] * 6
        rows = [[F(i * 37 % 101, 8) + (90 if i == c + 2 else 0)] for i in range(c + 5)] + [[F(40 + 3 * i, 2)] for i in range(6)]
        h = History("batch with more than %d samples of one cluster" % c, rows, pat)
        h.modes, h.wide, h.sparse = ("batch",), True, {len(pat)}
        out.append(h)
    # counts of any size: the first cluster is one point seen very often
    for c in sorted({int(c) for c in sharp if c == int(c) and 40 <= c <= 2 ** 40})[-6:]:
        for w in (c - 1, 3 * c, c - 5):
            pat = [0, 0, 0, 1, 0, 1, 0]
            h = History("first sample %d times" % w, [[F(3), F(-1)], [F(3), F(-1)], [F(3), F(-1)], [F(7), F(5)], [F(9, 2), F(-1)], [F(6), F(4)], [F(3), F(-2)]], pat)
            h.burst, h.near, h.modes = w, [int(x) for x in sharp if x > 5], ("stream",)
            h.sparse = set(range(1, len(pat) + 1))
            out.append(h)
    for c in consts:
        c = abs(c)
        if c == 0 or c == 1 or not (F(1, 10 ** 14) < c < 10 ** 14):
            continue
        for s in (c / 5, c * 5):
            pat = [0, 1, 0, 1, 2, 2]
            out.append(History("magnitude %g" % float(s), [[x * s / 5 for x in r] for r in rows_for("frac", 2, 6, rng, pat)], pat))
    for c in [c for c in sharp if 10 ** 3 <= c <= 10 ** 16 or F(1, 10 ** 16) < c <= F(1, 1000)][:6]:
        # scatter relative to distance on both sides of the number
        for s in (F(c) / 4, F(c) * 4):
            r = F(int((s * 10 ** 24) ** F(1, 2))) / 10 ** 12 if s < 10 ** 3 else F(int(float(s) ** 0.5))
            if r == 0:
                continue
            d = F(2)
            rows = [[F(0), r], [d, -r], [F(0), -r], [d, r], [d * 7, r * 9], [d * 7 + r, r * 9]]
            out.append(History("scatter over distance about %g" % float(s), rows, [0, 1, 0, 1, 2, 2]))
    for c in sharp:
        if c == 0 or c.denominator == 1 and c < 10 ** 4:
            continue
        # distances, squared distances and coordinates on both sides of the number, for one pair of clusters and for all
        s2 = F(c) ** F(1, 2) if c > 0 else 1
        s2 = F(int(s2 * 10 ** 20), 10 ** 20) if isinstance(s2, float) is False else F(s2).limit_denominator(10 ** 20) if s2 > 1 else F(int(s2 * 10 ** 24), 10 ** 24)
        for s in (F(c) / 3, F(c) * 3, s2 / 3, s2 * 3):
            if not (F(1, 10 ** 13) < s < 10 ** 13):
                continue
            pat = [0, 1, 0, 1, 2, 2]
            out.append(History("magnitude %g" % float(s), [[x * s / 5 for x in r] for r in rows_for("frac", 2, 6, rng, pat)], pat))
            base = [F(3), F(-2)]
            near = [[F(0), F(0)], [s, F(0)], [F(0), s / 2], [s, s / 2], [F(17), F(5)], [F(18), F(7)]]
            out.append(History("one pair of clusters at distance %g" % float(s), [[a + b for a, b in zip(r, base)] for r in near], [0, 1, 0, 1, 2, 2]))
            tight = [[F(0), F(0)], [F(9), F(4)], [s, F(0)], [F(9), F(4) + s], [F(-7), F(5)], [F(-7), F(5) - s], [F(9), F(4)]]
            out.append(History("clusters of diameter %g" % float(s), tight, [0, 1, 0, 1, 2, 2, 1]))
    return out[:110]


def mixed_items(seq):
    """a stream whose clusters open with an integer sample and go on with 64-bit floats (script items)"""
    out, seen = [], set()
    for c in seq:
        out.append(("s", c, "caller" if c not in seen else "f8"))
        seen.add(c)
    return out


def mixed_rows(seq, dim, rng):
    rows, seen = [], set()
    for c in seq:
        rows.append([F(rng.randint(-9, 9)) if c not in seen else F(rng.randint(-40, 40), 8) for _ in range(dim)])
        seen.add(c)
    return rows


MIXED = [[0, 0, 1, 0, 1], [0, 1, 1, 0], [0, 1, 2, 1, 0, 2]]
