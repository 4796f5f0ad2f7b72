"""C05: find_heuristic_1pc()."""
import itertools

import numpy as np

from dlib import (all_graphs, call, is_bool_matrix, light_import, nbrs,
                  random_1pc, random_graph, rows, udg_of)
from drv.c01 import VARIANTS, atlas, inflate, large, relabel, shapes

ecc = light_import("ecc_algorithms")


def observe(item):
    adj, variant, onepc = item
    arg = VARIANTS[variant](np.asarray(adj))
    before = arg.copy()
    cover, exc = call(ecc.find_heuristic_1pc, arg, seconds=60)
    ok = not exc and isinstance(cover, np.ndarray) and cover.ndim == 2
    return [{
        "e": "heur", "n": len(adj), "adj": nbrs(adj), "variant": variant, "exc": exc,
        "onepc": rows(onepc) if onepc is not None else [],
        "unchanged": bool((arg == before).all()), "boolmat": bool(ok and is_bool_matrix(cover)),
        "cols": int(cover.shape[1]) if ok else -1, "cover": rows(cover) if ok else [],
        "cost": len(adj) ** 2,
    }]


def structures(n):
    """All one-pure-child structures on n measurements, up to the names of
    latents."""
    subsets = [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    for k in range(1, n + 1):
        for rowset in itertools.combinations(subsets, k):
            b = np.zeros((k, n), bool)
            for i, s in enumerate(rowset):
                b[i, list(s)] = True
            pure = b.sum(0) == 1
            if b.any(0).all() and all(b[i][pure].any() for i in range(k)):
                yield b


def main(d):
    rng = d.rng
    names = list(VARIANTS)
    items = []
    for n in range(1, 6):
        for i, a in enumerate(all_graphs(n)):
            vs = names[:4] if n < 5 else [names[i % 4], names[rng.integers(len(names))]]
            items += [(a, v, None) for v in vs]
    for a in atlas(6):
        items += [(relabel(rng, a), names[rng.integers(4)], None) for _ in range(3 if d.quick else 20)]
    for a in atlas(7):
        items += [(relabel(rng, a), names[rng.integers(4)], None) for _ in range(1 if d.quick else 8)]
    for n in range(7, 17):
        for p in (0.05, 0.15, 0.3, 0.5, 0.7, 0.9):
            for _ in range(6 if d.quick else 60):
                if n > 13 and p < 0.2:
                    continue
                items.append((random_graph(rng, n, p), names[rng.integers(len(names))], None))
        for _ in range(6 if d.quick else 60):
            items.append((inflate(rng, n), names[rng.integers(len(names))], None))
        if n < 12:
            items += [(a, "int1", None) for a in shapes(rng, n)]
    for a in large(rng, (33, 40, 66) if d.quick else (*range(28, 70, 3), 130)):
        if a.mean() > 0.75:
            items.append((a, names[rng.integers(len(names))], None))
    for i in range(20 if d.quick else 200):
        n = int(rng.integers(20, 80))
        b = random_1pc(rng, n, int(rng.integers(1, 4 if n > 35 else 7)), rng.random() ** 2)
        items.append((udg_of(b), names[rng.integers(4)], b))
    for i in range(100 if d.quick else 1500):  # many independent sets of different sizes
        n = int(rng.integers(19, 27))
        items.append((random_graph(rng, n, rng.uniform(0.25, 0.6)), names[rng.integers(len(names))], None))
    for i in range(8 if d.quick else 80):  # and many pairs
        items.append((random_graph(rng, int(rng.integers(40, 56)), rng.uniform(0.6, 0.85)),
                      names[rng.integers(len(names))], None))
    for n in range(1, 5):
        for b in structures(n):
            items.append((udg_of(b), names[rng.integers(4)], b))
    for i in range(500 if d.quick else 6000):
        n = int(rng.integers(2, 18))
        k = int(rng.integers(1, n + 1))
        b = random_1pc(rng, n, k, rng.random())
        items.append((udg_of(b), names[rng.integers(4)], b))
    d.pmap(observe, items)
