"""C01/C02: find_clique_min_cover() on many graphs."""
import os
import sys
import time

import networkx as nx
import numpy as np

from dlib import (all_graphs, call, is_bool_matrix, light_import, nbrs,
                  random_1pc, random_graph, rows, udg_of)

ecc = light_import("ecc_algorithms")

VARIANTS = {
    "int1": lambda a: a.copy(),
    "bool1": lambda a: a.astype(bool),
    "int0": lambda a: a - np.diag(np.diag(a)),
    "bool0": lambda a: (a - np.diag(np.diag(a))).astype(bool),
    "int8_1": lambda a: a.astype(np.int8),
    "uint8_0": lambda a: (a - np.diag(np.diag(a))).astype(np.uint8),
    "fortran": lambda a: np.asfortranarray(a),
    "readonly": lambda a: _readonly(a),
}


def _readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def observe(item):
    adj, variant, check, onepc, verbose = item
    arg = VARIANTS[variant](np.asarray(adj))
    before = arg.copy()
    t = time.time()
    if verbose:
        cover, exc = call(ecc.find_clique_min_cover, arg, verbose=True, seconds=90)
    else:
        cover, exc = call(ecc.find_clique_min_cover, arg, seconds=90)
    if os.environ.get("SLOW") and time.time() - t > 1:
        print("slow", round(time.time() - t, 1), len(adj), nbrs(adj), file=sys.stderr)
    ev = {
        "e": "ecc", "n": len(adj), "adj": nbrs(adj), "variant": variant, "check": check,
        "onepc": rows(onepc) if onepc is not None else [], "exc": exc,
        "unchanged": bool((arg == before).all()) and arg.dtype == before.dtype,
    }
    ok = not exc and isinstance(cover, np.ndarray) and cover.ndim == 2
    ev["boolmat"] = bool(ok and is_bool_matrix(cover))
    ev["cols"] = int(cover.shape[1]) if ok else -1
    ev["cover"] = rows(cover) if ok else []
    ev["cost"] = len(adj) ** (4 if check == "min" else 2)
    return [ev]


def relabel(rng, a):
    p = rng.permutation(len(a))
    return a[np.ix_(p, p)]


def atlas(n):
    for g in nx.graph_atlas_g():
        if g.number_of_nodes() == n:
            a = nx.to_numpy_array(g, dtype=int)
            np.fill_diagonal(a, 1)
            yield a


def shapes(rng, n):
    """Structured graphs on n vertices: hard cases for covers.  Complete
    multipartite graphs on more than 9 vertices are left out: the search
    terminates on them, but takes minutes."""
    out = []
    for h in (nx.cycle_graph(n), nx.path_graph(n), nx.wheel_graph(n), nx.star_graph(n - 1),
              nx.complete_graph(n), nx.complement(nx.cycle_graph(n)), nx.complement(nx.path_graph(n)),
              nx.turan_graph(min(n, 9), min(n, 9) // 2), nx.turan_graph(min(n, 9), max(2, min(n, 9) // 3)),
              nx.circulant_graph(n, [1, 2]), nx.circulant_graph(n, [1, 2, 3]),
              nx.windmill_graph(max(2, (n - 1) // 3), 4), nx.barbell_graph(max(3, n // 2), 1)):
        a = nx.to_numpy_array(h, dtype=int)
        np.fill_diagonal(a, 1)
        out.append(relabel(rng, a))
    return out


def inflate(rng, n):
    """A union of random cliques: few maximal cliques, many shared edges."""
    a = np.eye(n, dtype=int)
    for _ in range(rng.integers(2, max(3, n))):
        c = rng.choice(n, rng.integers(2, max(3, n // 2 + 1)), replace=False)
        a[np.ix_(c, c)] = 1
    return a


def disjoint(rng, parts):
    n = sum(map(len, parts))
    a = np.zeros((n, n), int)
    i = 0
    for p in parts:
        a[i : i + len(p), i : i + len(p)] = p
        i += len(p)
    return relabel(rng, a)


def star(n):
    a = np.eye(n, dtype=int)
    a[0] = a[:, 0] = 1
    return a


def large(rng, sizes):
    """Many vertices, but few ways to cover them."""
    for n in sizes:
        yield random_graph(rng, n, rng.uniform(1, 3) / n)
        yield relabel(rng, star(n))
        k = min(n // 3, 13)
        yield disjoint(rng, [np.ones((k, k), int), inflate(rng, k), random_graph(rng, n - 2 * k, 1.5 / n)])
        for a in (inflate(rng, n), udg_of(random_1pc(rng, n, int(rng.integers(2, n)), rng.random()))):
            if a.sum() < 900:  # (the edges are what time is spent on)
                yield a


def cases_c01(d):
    rng, items = d.rng, []
    names = list(VARIANTS)
    for n in range(1, 5):
        for a in all_graphs(n):
            for v in ("int1", "bool1", "int0", "bool0"):
                items.append((a, v, "valid", None, False))
    for n in (5, 6):
        graphs = list(all_graphs(5)) if n == 5 else [relabel(rng, a) for a in atlas(6)]
        for i, a in enumerate(graphs):
            items.append((a, names[i % len(names)], "valid", None, i % 97 == 0))
    for a in atlas(7):
        items.append((relabel(rng, a), names[rng.integers(len(names))], "valid", None, False))
    extra = 1 if d.quick else 12
    for n in range(6, 21):
        for p in (0.05, 0.15, 0.3, 0.5, 0.7, 0.85, 0.95):
            for _ in range((3 if n <= 12 else 1) * extra):
                if n > 14 and 0.3 <= p <= 0.7 and rng.random() < 0.5:
                    continue
                items.append((random_graph(rng, n, p), names[rng.integers(len(names))], "valid", None, False))
        for _ in range(3 * extra):
            items.append((inflate(rng, n), names[rng.integers(len(names))], "valid", None, False))
        for _ in range(extra):
            k = n // 2
            items.append((disjoint(rng, [random_graph(rng, k, 0.6), random_graph(rng, n - k, 0.5)]),
                          "int1", "valid", None, False))
        items.append((np.eye(n, dtype=int), names[rng.integers(len(names))], "valid", None, False))
        if 6 <= n <= 12:
            for a in shapes(rng, n):
                items.append((a, "int1", "valid", None, False))
    for a in large(rng, (24, 33, 40, 66) if d.quick else (*range(21, 70, 3), 80, 100) * 2):
        items.append((a, names[rng.integers(len(names))], "valid", None, False))
    if not d.quick:
        items.append((star(140), "bool0", "valid", None, False))
    return items


def cases_c02(d):
    rng, items = d.rng, []
    for n in range(1, 6):
        for a in (all_graphs(n) if n < 5 or not d.quick else [relabel(rng, x) for x in atlas(5)] * 4):
            items.append((a, "int1", "min", None, False))
    for n in (6, 7):
        for a in atlas(n):
            for _ in range((4 if n == 6 else 1) if d.quick else 6):
                items.append((relabel(rng, a), "int1", "min", None, False))
    m = {8: 60, 9: 40, 10: 20} if d.quick else {8: 900, 9: 500, 10: 250}
    for n, count in m.items():
        for i in range(count):
            if i % 3 == 0:
                a = inflate(rng, n)
            else:
                a = random_graph(rng, n, rng.choice([0.2, 0.35, 0.5, 0.65, 0.75, 0.85] if n < 10 else [0.2, 0.35, 0.5, 0.6]))
            items.append((a, "int1", "min", None, False))
        for a in shapes(rng, n):
            items.append((a, "int1", "min", None, False))
    # structures in which the k-clique budget is hit exactly
    for n in (8, 9, 10):
        items.append((disjoint(rng, [random_graph(rng, 4, 0.7), random_graph(rng, n - 4, 0.7)]), "int1", "min", None, False))
    # one-pure-child structures of any size
    for i in range(150 if d.quick else 1500):
        n = int(rng.integers(2, 21))
        k = int(rng.integers(1, n + 1))
        b = random_1pc(rng, n, k, rng.random())
        items.append((udg_of(b), "int1", "none", b, False))
    for i in range(20 if d.quick else 200):  # and of very large ones
        n = int(rng.integers(21, 80))
        b = random_1pc(rng, n, int(rng.integers(1, n + 1)), rng.random() ** 2)
        items.append((udg_of(b), "int1", "none", b, False))
    return items


def main(d):
    items = (cases_c01 if d.params.get("which") == "valid" else cases_c02)(d)
    d.pmap(observe, items)
