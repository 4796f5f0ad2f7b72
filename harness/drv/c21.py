"""C21: histories of editing, copying and exporting graphs."""
import os

import numpy as np

from dlib import call, light_import, random_graph
from drv.c01 import atlas, inflate, relabel

graph = light_import("graph")


def project(o):
    if o is None:
        return {"rows": [], "binary": True, "edges": 0}
    a = np.asarray(o.adj_matrix)
    off = a - np.diag(np.diag(a))
    return {"rows": [[int(v) + 1 for v in np.flatnonzero(r)] for r in off],
            "binary": bool(np.isin(a, (0, 1)).all()), "edges": int(o.num_edges)}


def edges_for(rng, x, n, a):
    """A set of edges: some there, some not, in either direction, maybe none,
    maybe some twice."""
    pairs = [(u, v) for u in range(n) for v in range(n) if u != v]
    k = int(rng.integers(0, 2 + x))
    es = [pairs[i] for i in rng.integers(0, len(pairs), k)]
    if x % 3 == 0:
        there = np.argwhere(np.triu(a, 1))
        if len(there):
            es += [tuple(map(int, there[i])) for i in rng.integers(0, len(there), 2)]
    if x % 2:
        es = list(dict.fromkeys(es))
    return np.array(es, int).reshape(-1, 2)


def run(item):
    graphs, ops, seed, scratch = item
    rng = np.random.default_rng(seed)
    objs, events = {}, []
    for i, op in enumerate(ops):
        name, o, x = op["op"], op["o"], op["x"]
        ev = {"e": "edit", "op": name, "o": o, "x": x, "n": 0, "es": [], "exc": "", "aux": [],
              "lines": [], "degrees": [], "count": 0}

        def act():
            if name == "graph":
                a = graphs[(x - 1) % len(graphs)]
                ev["n"] = len(a)
                ev["es"] = (np.argwhere(np.triu(a, 1)) + 1).tolist()
                objs[0] = graph.UndirectedDependenceGraph(a.copy())
                return
            t = objs[o]
            if name == "copy":
                if not hasattr(t, "nbrhood_edge_counts"):
                    # no auxiliary structure, hence no copy, without edges
                    es = np.array([[0, 1]])
                    there = bool(t.adj_matrix[0, 1])
                    t.add_edges(es)
                    t.make_aux()
                    if not there:
                        t.rm_edges(es)
                objs[x] = t.reducible_copy()
            elif name in ("add", "remove"):
                es = edges_for(rng, x, len(t.adj_matrix), np.asarray(t.adj_matrix))
                ev["es"] = (es + 1).tolist()
                before = es.copy()
                (t.add_edges if name == "add" else t.rm_edges)(es)
                if not (es == before).all():
                    raise RuntimeError("edges modified")
            elif name == "aux":
                u = objs[0]
                ev["o"] = 0
                u.make_aux()
                for e in np.argwhere(np.triu(u.adj_matrix, 1)):
                    idx = int(u.get_idx(e))
                    if idx not in u.extant_edges_idx:
                        continue
                    back = u.get_edge(idx)
                    if tuple(map(int, back)) != tuple(map(int, e)):
                        continue
                    ev["aux"].append({"u": int(e[0]) + 1, "v": int(e[1]) + 1, "idx": idx,
                                      "common": [int(w) + 1 for w in np.flatnonzero(u.common_neighbors[idx])],
                                      "count": int(u.nbrhood_edge_counts[idx])})
                if len(u.extant_edges_idx) != len(ev["aux"]):
                    ev["aux"] = []
            elif name == "export":
                path = os.path.join(scratch, f"g{seed}-{i}")
                t.convert_to_nde(path)
                with open(path + ".nde") as f:
                    tokens = [line.split() for line in f.read().splitlines()]
                os.unlink(path + ".nde")
                n = int(tokens[0][0])
                ev["count"] = n
                deg = {int(a) + 1: int(b) for a, b in tokens[1 : n + 1]}
                ev["degrees"] = [deg.get(v, -1) for v in range(1, n + 1)]
                ev["lines"] = [[int(a) + 1, int(b) + 1] for a, b in tokens[n + 1 :]]

        _, ev["exc"] = call(act, seconds=30)
        ev["st"] = [project(objs.get(j)) for j in range(3)]
        ev["cost"] = 2
        events.append(ev)
        if ev["exc"] and name != "aux":
            break
    return events


def main(d):
    rng = d.rng
    graphs = [relabel(rng, a) for a in atlas(4) if a.sum() > 4]
    for n, p in ((17, 0.97), (18, 0.9), (26, 0.45), (12, 0.6)):
        graphs.append(random_graph(rng, n, p))
    while len(graphs) < 60:
        n = int(rng.integers(4, 9))
        graphs.append(inflate(rng, n) if rng.random() < 0.5 else random_graph(rng, n, rng.random()))
    d.pmap(run, [(graphs, s, i, d.scratch) for i, s in enumerate(d.scenarios)])
