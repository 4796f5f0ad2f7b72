"""C03: histories of reductions, step by step."""
import copy

import networkx as nx
import numpy as np

from dlib import call, light_import, nbrs, random_1pc, random_graph, rows, udg_of
from drv.c01 import atlas, disjoint, inflate, large, relabel

graph, ecc = light_import("graph", "ecc_algorithms")


def project(o):
    if o is None:
        return {"live": False, "alive": [], "unc": [], "cover": [], "edges": 0, "verts": 0,
                "k": 0, "applied": False, "sym": True}
    a = np.asarray(o.adj_matrix)
    cover = getattr(o, "the_cover", None)
    return {
        "live": True,
        "alive": [int(v) + 1 for v in np.flatnonzero(a.diagonal())],
        "unc": [[int(u) + 1, int(v) + 1] for u, v in np.argwhere(np.triu(a, 1))],
        "cover": rows(cover) if cover is not None else [],
        "edges": int(o.num_edges), "verts": int(o.num_vertices),
        "k": int(getattr(o, "k_num_cliques", 0)),
        "applied": bool(getattr(o, "reducing", False)),
        "sym": bool((a == a.T).all()) and bool(np.isin(a, (0, 1)).all()),
    }


def commit(o, clique):
    row = np.zeros(len(o.adj_matrix), int)
    row[list(clique)] = 1
    o.the_cover = row.reshape(1, -1) if o.the_cover is None else np.vstack((o.the_cover, row))
    o.cover_edges()


def branch(o, pick):
    cliques = [list(map(int, c)) for c in ecc.max_cliques(o.choose_nbrhood())]
    big = [c for c in cliques if len(c) > 1]
    commit(o, sorted(big, key=sorted)[pick % len(big)])
    return cliques


def complete(o, style):
    """Run a copy to the end: rules and branches until nothing is left."""
    c = o.reducible_copy()
    c.the_cover = None if o.the_cover is None else o.the_cover.copy()
    steps = 0
    while c.num_edges > 0:
        steps += 1
        if style == 0 or (style == 1 and steps % 2):
            c.reduzieren(1000)
        else:
            c.k_num_cliques = 1000
            c.rule_1()
            c.rule_3()
        if c.num_edges > 0:
            branch(c, steps)
        if steps > 200 + len(c.adj_matrix) ** 2:
            raise RuntimeError("no progress")
    committed = len(c.the_cover) if c.the_cover is not None else 0
    final = c.reconstruct_cover(c.the_cover) if c.the_cover is not None else []
    return committed, rows(final)


def run(item):
    graphs, ops = item
    lean = any(op["op"] == "rule13" for op in ops)  # only what comes out in the end
    objs, events = {}, []
    for op in ops:
        name, o, x = op["op"], op["o"], op["x"]
        if name == "end":
            break
        ev = {"e": "op", "op": name, "o": o, "x": x, "k": 0, "cliques": [], "final": [],
              "committed": 0, "exc": ""}

        def act():
            nonlocal name
            if name == "graph":
                a = graphs[(x - 1) % len(graphs)]
                ev["adj"] = nbrs(a)
                objs[0] = graph.UndirectedDependenceGraph(a.copy())
                if (x // len(graphs)) % 2 == 0:
                    objs[0].make_aux()
                return
            t = objs[o]
            if name == "copy":
                c = t.reducible_copy()
                if getattr(t, "the_cover", None) is not None:
                    c.the_cover = t.the_cover.copy()
                objs[x] = c
                return
            if name == "rule13":
                t.rule_1()
            if name in ("rule1", "rule2", "rule3", "rule13"):
                t.k_num_cliques = int(getattr(t, "k_num_cliques", 20))
                t.reducing = False
                getattr(t, "rule_" + name[-1])()
            elif name == "reduce":
                ev["k"] = x
                t.reduzieren(x)
            elif name == "branch":
                if t.num_edges == 0:
                    name = "skip"
                else:
                    ev["cliques"] = [[v + 1 for v in c] for c in branch(t, x)]
            elif name == "complete":
                ev["committed"], ev["final"] = complete(t, x)
            elif name == "reset":
                t.reset()

        if name != "graph" and o in objs and events and name in ("rule1", "rule2", "rule3"):
            # k before is part of the state that the trace compares with
            if not hasattr(objs[o], "k_num_cliques"):
                objs[o].k_num_cliques = 0
                events[-1]["st"][o]["k"] = 0
        _, ev["exc"] = call(act, seconds=60)
        ev["op"] = name
        ev["st"] = [project(objs.get(i)) for i in range(4)]
        ev["cost"] = 1 if name in ("graph", "complete") else len(objs[0].adj_matrix) ** 2
        if lean and name != "graph" and not ev["exc"]:
            ev["op"] = "jump"
            events[1:] = [ev]
        else:
            events.append(ev)
        if ev["exc"]:
            return events
    for o in sorted(objs):
        for style in range(3 if o else 0):
            ev = {"e": "op", "op": "complete", "o": o, "x": style, "k": 0, "cliques": [], "cost": 1,
                  "final": [], "committed": 0}
            r, ev["exc"] = call(complete, objs[o], style, seconds=60)
            if r:
                ev["committed"], ev["final"] = r
            ev["st"] = [project(objs.get(i)) for i in range(4)]
            events.append(ev)
    return events


def main(d):
    rng = d.rng
    graphs = []
    for n in (4, 5, 6):
        graphs += [relabel(rng, a) for a in atlas(n) if a.sum() > n]
    for i in range(1000 - len(graphs)):
        n = int(rng.integers(6, 9 if i % 4 else 11))
        graphs.append(inflate(rng, n) if i % 2 else random_graph(rng, n, rng.choice([0.4, 0.55, 0.7])))
    graphs = [g if g.sum() > len(g) else relabel(rng, np.kron(np.eye(2, dtype=int), np.ones((3, 3), int))) for g in graphs]
    big = [a for _ in range(4) for a in large(rng, (16, 20, 24, 30))]
    for n in (14, 18, 20, 24, 26, 30) * 3:
        b = random_1pc(rng, n, int(rng.integers(2, 6)), rng.random() ** 2)
        if n < 21 or udg_of(b).sum() < 500:
            big.append(udg_of(b))
    for k in (7, 12, 17, 18, 22, 24):
        one = np.ones((k, k), int)
        big += [one, disjoint(rng, [one, inflate(rng, 6)]), disjoint(rng, [one, one[:9, :9]])]
    big = [a for a in big if a.sum() > len(a)]
    items, scns = [], list(d.scenarios)
    for i, s in enumerate(scns):
        items.append((big if i % 40 == 0 else graphs, s))
    d.pmap(run, items)
