"""Reference values of the indices, computed directly from the definitions."""
import numpy as np


def stats(X, y):
    X = np.asarray(X, float)
    y = list(y)
    ks = []
    for c in y:
        if c not in ks:
            ks.append(c)
    G = [np.array([X[i] for i in range(len(y)) if y[i] == c]) for c in ks]
    n = np.array([len(g) for g in G], float)
    v = np.array([g.mean(0) for g in G])
    cp = np.array([((g - g.mean(0)) ** 2).sum() for g in G])
    return X, G, n, v, cp


def value(name, X, y):
    X, G, n, v, cp = stats(X, y)
    N, d = X.shape
    k = len(G)
    if k < 2:
        return 0.0
    mu = X.mean(0)
    W = cp.sum()
    B = (n * ((v - mu) ** 2).sum(1)).sum()
    D = np.array([[((v[i] - v[j]) ** 2).sum() for j in range(k)] for i in range(k)])
    off = [(i, j) for i in range(k) for j in range(k) if i != j]
    if name == "CH":
        return (B / W) * (N - k) / (k - 1)
    if name == "WB":
        return k * W / B
    if name == "XB":
        return W / (N * min(D[i, j] for i, j in off))
    if name == "DB":
        S = cp / n
        return sum(max((S[i] + S[j]) / D[i, j] for j in range(k) if j != i)
                   for i in range(k)) / k
    if name == "GD43":
        return min(np.sqrt(D[i, j]) for i, j in off) / (2 * max(cp / n))
    if name == "GD53":
        return (min((cp[i] + cp[j]) / (n[i] + n[j]) for i, j in off)
                / (2 * max(cp / n)))
    if name == "PS":
        vb = v.mean(0)
        beta = ((v - vb) ** 2).sum() / k
        return sum(n[i] / n.max()
                   - np.exp(-min(D[i, j] for j in range(k) if j != i) / beta)
                   for i in range(k))
    if name == "cSIL":
        S = np.array([[((G[j] - v[i]) ** 2).sum() / n[j] for j in range(k)]
                      for i in range(k)])
        out = 0.0
        for i in range(k):
            a = S[i, i]
            b = min(S[i, j] for j in range(k) if j != i)
            out += (b - a) / max(a, b)
        return out / k
    if name == "rCIP":
        delta = 10.0 ** (-12.0 / d)
        sig = []
        for i in range(k):
            s = np.eye(d) * delta
            if n[i] > 1:
                z = G[i] - v[i]
                s = s + z.T @ z / (n[i] - 1)
            sig.append(s)
        out = 0.0
        for i in range(k):
            for j in range(i + 1, k):
                q = sig[i] + sig[j]
                m = v[i] - v[j]
                out += (1 / np.sqrt((2 * np.pi) ** d) / np.sqrt(np.linalg.det(q))
                        * np.exp(-0.5 * m @ np.linalg.inv(q) @ m))
        return out
    raise KeyError(name)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def blobs(seed, d, sizes, spread=4.0, shuffle=True):
    r = np.random.RandomState(seed)
    X, y = [], []
    for c, m in enumerate(sizes):
        ctr = r.uniform(-spread, spread, d)
        for _ in range(m):
            X.append(ctr + r.normal(0, 1.0, d))
            y.append(c)
    X, y = np.array(X), np.array(y)
    if shuffle:
        p = r.permutation(len(y))
        X, y = X[p], y[p]
    return X, y


def check_stream(cls, name, X, y):
    o = cls()
    for t in range(len(y)):
        got = o.get_cvi(X[t], int(y[t]))
        if len(set(int(c) for c in y[:t + 1])) > 1 and t >= 3:
            want = value(name, X[:t + 1], [int(c) for c in y[:t + 1]])
            if np.isfinite(want):
                assert close(got, want), (name, t, got, want)


def check_batch(cls, name, X, y):
    got = cls().get_cvi(np.array(X), np.array(y))
    want = value(name, X, list(y))
    assert close(got, want), (name, got, want)


def sweep(cls, name):
    """streams and batches of many shapes"""
    for s, (d, sizes) in enumerate([(2, [4, 5]), (1, [6, 6, 6]), (3, [1, 9, 2]), (7, [5, 4, 3, 2]), (2, [6] * 12),
                                    (2, [120, 90, 60]), (12, [8, 7]), (2, [2, 2, 2])]):
        X, y = blobs(20 + s, d, sizes)
        check_stream(cls, name, X, y)
        check_batch(cls, name, X, y)
        Z = np.round(X)
        check_stream(cls, name, Z, y)
        X, y = blobs(40 + s, d, sizes, shuffle=False)
        check_stream(cls, name, X, y)
        check_stream(cls, name, X[::-1], y[::-1])
