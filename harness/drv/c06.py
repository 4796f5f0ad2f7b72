"""C06: random structures."""
import numpy as np

from dlib import call
from medil import sample


def cols_of(b):
    b = np.asarray(b).astype(bool)
    return [[int(i) + 1 for i in np.flatnonzero(b[:, j])] for j in range(b.shape[1])]


def line(n, k, onepc, dens, exc="", **kw):
    p, q = dens or (0, 0)
    return {"e": "struct", "n": n, "k": k, "onepc": onepc, "p": p, "q": q, "exc": exc,
            "shape": True, "rows": 0, "cols": [], "seen": [], "half": False, **kw}


def draw(n, k, onepc, dens, rng):
    kw = {"one_pure_child": onepc, "rng": rng}
    if k:
        kw["num_latent"] = k
    if dens != "default":
        kw["density"] = dens[0] / dens[1] if dens else None
    return call(sample.biadj, n, seconds=60, **kw)


def single(item):
    n, k, onepc, dens, seed = item
    b, exc = draw(n, k, onepc, dens, np.random.default_rng(seed))
    ev = line(n, k, onepc, (1, 5) if dens == "default" else dens, exc, cost=1 if onepc else n ** 3)
    if not exc:
        ev["shape"] = isinstance(b, np.ndarray) and b.ndim == 2 and b.dtype == bool and b.shape[1] == n
        if ev["shape"]:
            ev["rows"], ev["cols"] = len(b), cols_of(b)
    return [ev]


def support(item):
    n, k, onepc, dens, num, seed = item
    rng = np.random.default_rng(seed)
    seen = set()
    ev = line(n, k, onepc, dens, "", e="support", cost=4 ** n)
    tried = 0
    for _ in range(num):
        b, exc = draw(n, k, onepc, dens, rng)
        if exc:
            ev["exc"] = exc
            return [ev]
        b = np.asarray(b).astype(bool)
        if onepc:
            s = tuple(sorted(tuple(np.flatnonzero(r) + 1) for r in b))
        else:
            a = b.astype(int)
            a = a.T @ a
            s = tuple((i + 1, j + 1) for i in range(n) for j in range(i + 1, n) if a[i, j])
        seen.add(s)
        tried += 1
    if dens:
        p, q = dens
        if onepc:
            ks = [k] if k else range(1, n)
            ev["half"] = any((2 * p * (n - j) * (j - 1)) % q == 0 and (2 * p * (n - j) * (j - 1) // q) % 2 for j in ks)
        else:
            ev["half"] = (p * n * (n - 1)) % q == 0 and (p * n * (n - 1) // q) % 2 == 1
    ev["seen"] = [[[int(x) for x in c] for c in s] for s in sorted(seen)]
    return [ev]


def error(item):
    n, k, seed = item
    _, exc = call(sample.biadj, n, one_pure_child=False, num_latent=k, rng=np.random.default_rng(seed))
    return [line(n, k, False, (1, 5), exc, e="error")]


def run(item):
    return {"single": single, "support": support, "error": error}[item[0]](item[1:])


DENS = [(0, 1), (1, 5), (1, 4), (3, 10), (1, 2), (2, 3), (3, 4), (9, 10), (1, 1), None, "default"]


def main(d):
    rng, items = d.rng, []
    seed = 10**6 * d.seed
    # the supports: every draw of so many is missed with probability < 10^-12
    sup = []
    for n in (2, 3, 4):
        for k in range(0, n + 1):
            for dens in (None, (0, 1), (1, 3), (1, 1)) if k else (None, (1, 3)):
                sup.append((n, k, True, dens, 6000 if k else 12000))
    sup += [(5, 2, True, (2, 3), 6000), (5, 3, True, (3, 10), 12000)]
    if not d.quick:
        sup += [(5, 3, True, None, 60000)]
    for n in (2, 3, 4):
        for e in range(0, n * (n - 1) // 2 + 1):
            sup.append((n, 0, False, (e, n * (n - 1) // 2), 900))
    sup += [(5, 0, False, (1, 5), 1800)] + ([] if d.quick else [(5, 0, False, (1, 2), 10000)])
    for i, s in enumerate(sup):
        items.append(("support", *s, seed + i))
    for i in range(600 if d.quick else 8000):
        n = int(rng.integers(2, 13) if i % 10 else rng.integers(13, 41))
        k = int(rng.integers(0, n + 1)) if i % 4 else 0
        items.append(("single", n, k, True, DENS[rng.integers(len(DENS))], seed + 1000 + i))
    for i in range(6 if d.quick else 40):  # very many edges
        n = int(rng.integers(50, 91))
        items.append(("single", n, int(n * rng.uniform(0.3, 0.7)), True, DENS[4 + i % 5], seed + 40000 + i))
    for i in range(300 if d.quick else 3000):
        n = int(rng.integers(1, 8)) if i % 10 else 8
        dens = DENS[rng.integers(len(DENS))] or (2, 5)
        items.append(("single", n, 0, False, dens, seed + 50000 + i))
    for n in (2, 3, 6):
        for k in range(1, n + 2):
            items.append(("error", n, k, seed))
    items.append(("single", 1, 1, True, (1, 2), seed))
    d.pmap(run, items, chunk=4)
