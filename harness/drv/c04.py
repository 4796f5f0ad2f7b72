"""C04: interleaved enumerations of maximal cliques."""
import numpy as np

from dlib import all_graphs, call, light_import, nbrs, random_graph
from drv.c01 import atlas, inflate, large, relabel

ecc = light_import("ecc_algorithms")


def variant(a, k, rng):
    """The same graph with another type or diagonal."""
    a = a.copy()
    diag = k % 4
    if diag == 0:
        np.fill_diagonal(a, 0)
    elif diag == 1:
        np.fill_diagonal(a, 1)
    else:
        np.fill_diagonal(a, rng.integers(0, 2, len(a)))
    k //= 4
    return (a, a.astype(bool), a.astype(np.int8), a.astype(float))[k % 4]


class Gen:
    def __init__(self, m):
        self.m, self.before = m, m.copy()
        self.it = ecc.max_cliques(m)

    def advance(self, ev, count):
        out = []
        ev["cliques"], ev["ended"], ev["asked"] = out, False, count
        for _ in range(count):
            try:
                c = next(self.it)
            except StopIteration:
                ev["ended"] = True
                break
            out.append([int(v) + 1 for v in c])
            if len(out) % 2:
                c.clear()  # what a consumer does with a clique is its business
        ev["unchanged"] = bool((self.m == self.before).all())


def run(item):
    graphs, ops, seed = item
    rng = np.random.default_rng(seed)
    gens, events = {}, []
    for op in ops:
        g = op["g"]
        ev = {"e": "cliques", "op": op["op"], "g": g, "exc": "", "cliques": [], "ended": False,
              "unchanged": True, "asked": 0, "cost": 3}

        def act():
            if op["op"] == "open":
                a = graphs[op["x"] - 1]
                ev["adj"] = nbrs(a)
                gens[g] = Gen(variant(a, int(rng.integers(16)), rng))
            else:
                gens[g].advance(ev, op["x"] if op["op"] == "next" else 2000)

        _, ev["exc"] = call(act, seconds=30)
        events.append(ev)
        if ev["exc"]:
            break
    return events


def main(d):
    rng = d.rng
    # single enumerations of many graphs: open, drain, ask again
    singles = [np.zeros((0, 0), int)]
    for n in range(1, 5 if d.quick else 6):
        singles += list(all_graphs(n))
    singles += [relabel(rng, a) for a in atlas(5)] + [relabel(rng, a) for a in atlas(6)]
    if not d.quick:
        singles += [relabel(rng, a) for a in atlas(7)]
    for n in range(7, 15):
        for p in (0.1, 0.3, 0.5, 0.7, 0.85):
            for _ in range(2 if d.quick else 15):
                if n > 11 and p > 0.8:
                    continue
                singles.append(random_graph(rng, n, p))
        singles.append(inflate(rng, n))
        singles.append(np.zeros((n, n), int))
        singles.append(np.ones((n, n), int))
    for a in large(rng, (20, 33, 40, 66) if d.quick else (*range(16, 70, 3), 130)):
        singles.append(a)
        if a.mean() > 0.5:
            singles.append(1 - a)
        singles.append(inflate(rng, len(a)))
    ops = [{"op": "open", "g": 1, "x": 1}, {"op": "drain", "g": 1, "x": 0}, {"op": "next", "g": 1, "x": 1}]
    d.pmap(run, [([a], ops, i) for i, a in enumerate(singles)])
    # interleavings
    graphs = [relabel(rng, a) for n in (3, 4, 5) for a in atlas(n)]
    while len(graphs) < 300:
        n = int(rng.integers(5, 9))
        graphs.append(inflate(rng, n) if rng.random() < 0.4 else random_graph(rng, n, rng.random()))
    d.pmap(run, [(graphs, s, i) for i, s in enumerate(d.scenarios)])
