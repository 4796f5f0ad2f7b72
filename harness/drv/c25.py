"""C25: functions of their arguments.  Histories are executed in a process
each has for itself (so that what one leaves behind is its own), and some are
followed by the same calls in new processes with other hash seeds, in another
order."""
import json
import os
import subprocess
import sys
import warnings

import numpy as np

from dlib import REPO, call, digest, forked, fx, light_import, random_1pc, random_graph

ecc, graph, evaluate, it, vis = light_import(
    "ecc_algorithms", "graph", "evaluate", "independence_testing", "visualize")
warnings.simplefilter("ignore")
KIND = {"cover": "graph", "coverv": "graph", "heur": "graph", "cliques": "graph", "edges": "graph",
        "adj": "biadj", "dag": "biadj", "recover": "biadj", "sfd": "biadj",
        "perm": "weights", "permabs": "weights", "dcov": "sample", "fast": "sample", "given": "pvals",
        "xi": "sample", "xino": "sample", "xicor": "sample", "dcov_big": "sample"}
TWO = {"sfd", "perm", "permabs"}


def contents(seed):
    """Three contents per kind, of the same shape and alike in many summaries
    (the same graph relabelled, the same rows in another order...)."""
    rng = np.random.default_rng(seed)
    n = int(rng.integers(5, 8))
    out = {}
    g = random_graph(rng, n, rng.uniform(0.3, 0.8))
    g[0, 1] = g[1, 0] = 1
    k = int(rng.integers(2, n - 1))
    b = random_1pc(rng, n, k, 0.5).astype(int)
    w = rng.integers(-4, 5, (3, n))
    s = rng.permuted(np.arange(-30, 30).reshape(12, 5), axis=0)
    s[:, 1] += s[:, 0]
    v = np.triu(rng.integers(0, 64, (n, n)) / 512, 1)
    out = {"graph": [g], "biadj": [b], "weights": [w], "sample": [s], "pvals": [v + v.T]}
    for i in (1, 2):
        p = rng.permutation(n)
        if i == 1:
            out["graph"].append(g[p][:, p])
            out["biadj"].append(b[:, p])
            out["weights"].append(w[:, p])
            out["sample"].append(rng.permuted(s, axis=0))
            out["pvals"].append((v + v.T)[p][:, p])
        else:
            h = random_graph(rng, n, rng.uniform(0.2, 0.8))
            h[0, 1] = h[1, 0] = 1  # make_aux() refuses graphs without edges
            out["graph"].append(h)
            out["biadj"].append(random_1pc(rng, n, k, 0.4).astype(int))
            out["weights"].append(w * rng.choice([-1, 1], w.shape))
            out["sample"].append(s + rng.integers(0, 9, s.shape))
            out["pvals"].append((v + v.T) / 2)
    return out


def represent(a, r, kind):
    """The same values, represented in another way."""
    if r == 1 and kind != "pvals":
        return a.astype(np.int8)
    if r == 2:
        return a.astype(np.float32)
    if r == 3:
        return np.asfortranarray(a)
    if r == 4:
        big = np.full((2 * a.shape[0], 3 * a.shape[1]), 7, a.dtype)
        big[::2, 1::3] = a
        return big[::2, 1::3]
    if r == 5:
        a = a.copy()
        a.setflags(write=False)
        return a
    if r == 6:
        return a.astype(bool if kind in ("graph", "biadj") else float)
    return a


def compute(f, a, b):
    """(what is returned, its discrete part, its real part)"""
    if f in ("cover", "coverv"):
        r = ecc.find_clique_min_cover(a, verbose=True) if f == "coverv" else ecc.find_clique_min_cover(a)
        return r, [np.asarray(r, int)], []
    if f == "heur":
        r = ecc.find_heuristic_1pc(a)
        return r, [np.asarray(r, int)], []
    if f == "cliques":
        r = list(ecc.max_cliques(a))
        return None, [sorted(sorted(int(v) for v in c) for c in r)], []
    if f == "edges":
        u = graph.UndirectedDependenceGraph(np.array(a, int))
        u.make_aux()
        return u.common_neighbors, [int(u.num_edges), int(u.num_vertices), np.asarray(u.common_neighbors, int),
                                    np.asarray(u.nbrhood_edge_counts, int)], []
    if f == "adj":
        r = vis.get_adj_from_incidence(a)
        return r, [np.asarray(r, int)], []
    if f == "dag":
        r = vis.get_dag_from_biadj(a)
        return r, [np.asarray(r, int)], []
    if f == "recover":
        r = evaluate.recover_ug(a)
        return r, [np.asarray(r, int)], []
    if f == "sfd":
        r = evaluate.sfd(a, b)
        return None, [int(r[0]), int(r[1])], []
    if f in ("perm", "permabs"):
        g = evaluate.min_perm_squared_l2_dist if f == "perm" else evaluate.min_perm_squared_l2_dist_abs
        r = g(a, b)
        # ties of matchings may be broken by rounding
        return r[0], [], [float(r[1])]
    if f == "dcov":
        r = it.dcov(a)
        return r[0], [], [*np.asarray(r[0]).ravel() / 10, *np.asarray(r[1]).ravel() / 10]
    if f in ("xi", "xino"):
        r = it.xicorr(a[:, 0], a[:, 1], f == "xi")
        return None, [], [float(r[0]), float(r[1])]
    if f == "given":
        r = it.estimate_UDG(np.zeros((4, len(a))), method=a, significance_level=0.05)
        return r[0], [np.asarray(r[0], int)], []
    r = it.estimate_UDG(a, method={"fast": "dcov_fast"}.get(f, f), significance_level=0.1)
    return r[0], [np.asarray(r[0], int)], [] if r[1] is None else list(np.asarray(r[1]).ravel())


def noise(x, args):
    if x == 0:
        np.random.seed(7)
    elif x == 1:  # an enumeration that is never finished
        g = ecc.max_cliques(np.ones((4, 4), int) - np.eye(4, dtype=int)[::-1])
        next(g)
        args["suspended"].append(g)
    elif x == 2:  # other arguments
        compute("cover", np.eye(5, dtype=int), None)
        compute("dcov", np.arange(12.0).reshape(4, 3), None)
    elif x == 3:  # ones that are refused
        for bad in ("text", None):
            for f in ("cover", "heur", "sfd", "dcov", "perm"):
                call(compute, f, bad, bad, seconds=5)
    elif x == 5:  # arguments with the same content in another shape, and parts
        for f in args["fs"]:
            for o in (1, 2):
                a, b = args["objs"][KIND[f]][o], args["objs"][KIND[f]][3 - o]
                for g in (lambda v: v.reshape(v.shape[::-1]), lambda v: v.T.copy(), lambda v: v[:-1, :-1].copy(),
                          lambda v: v.reshape(-1, 1), lambda v: v[::-1].copy())[: 3 if KIND[f] in ("graph", "weights") else 5]:
                    call(compute, f, g(a), g(b), seconds=2)
    elif x == 6:  # many calls
        for i in range(60):
            for f in args["fs"]:
                if f not in ("fast", "dcov_big", "xicor"):
                    a, b = (args["objs"][KIND[f]][o][:3, :3] * (i % 3 > 0) for o in (1, 2))
                    call(compute, f, a, b, seconds=2)
    else:
        np.random.rand(3)


def glob():
    return digest(np.random.get_state()[1], np.random.get_state()[2], json.dumps(np.geterr()),
                  json.dumps(np.get_printoptions(), default=str), os.getcwd(), warnings.filters)


def history(scn, seed):
    c = contents(seed)
    objs = {k: {o: v[o - 1].copy() for o in (1, 2)} for k, v in c.items()}
    now = {1: 1, 2: 2}
    held, lines, state = [], [], {"suspended": [], "objs": objs, "fs": sorted({s["f"] for s in scn if s["op"] == "call"})}
    intact = lambda: all((objs[k][o] == c[k][now[o] - 1]).all() for k in c for o in now)
    for st in scn:
        op, f, o, x = st["op"], st["f"], st["o"], st["x"]
        if op == "write":
            for k in c:
                objs[k][o][...] = c[k][x - 1]
            now[o] = x
            lines.append({"e": "write", "o": o, "x": x})
        elif op == "scribble":
            for a, _ in held[-1:]:
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = ~a if a.dtype == bool else a + 3
            held = held[:-1]
            lines.append({"e": "scribble"})
        elif op == "noise":
            call(noise, x, state)
            lines.append({"e": "noise"})
        else:
            kind = KIND[f]
            a, b = objs[kind][o], objs[kind][3 - o]
            a, b = represent(a, x, kind), represent(b, x, kind) if f in TWO else None
            before = (a.copy(), None if b is None else b.copy())
            g = glob()
            r, exc = call(compute, f, a, b)
            same = a.dtype == before[0].dtype and bool((a == before[0]).all()) and (b is None or bool((b == before[1]).all()))
            ev = {"e": "call", "f": f, "o": o, "exc": exc, "disc": "", "vals": [], "globals": glob() == g,
                  "args": same and intact(), "held": all(digest(h) == v for h, v in held)}
            if not exc:
                ev["disc"], ev["vals"] = digest(*r[1]), [fx(v, 10**5) for v in r[2]]
                if r[0] is not None:
                    held.append((r[0], digest(r[0])))
            lines.append(ev)
    return lines


def elsewhere(scn, seed, hashseed, scratch):
    """The calls of a history in another process."""
    p = os.path.join(scratch, f"e{seed}-{hashseed}.json")
    with open(p, "w") as h:
        json.dump([scn, seed], h)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    code = ("import sys,json; sys.path[:0]=%r; from drv import c25; "
            "json.dump(c25.history(*json.load(open(%r))), open(%r,'w'))"
            % ([os.path.dirname(os.path.dirname(os.path.abspath(__file__))), REPO], p, p + ".out"))
    r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise OSError("no other process: " + r.stderr[-800:])
    with open(p + ".out") as h:
        return json.load(h)


def session(item):
    scn, seed, other, scratch = item
    lines = [{"e": "session", "cost": len(scn)}] + forked(history, scn, seed)
    if other:
        again = [s for s in scn if s["op"] in ("call", "write")]
        lines += [{"e": "process"}] + elsewhere(again, seed, seed % 1000 + 1, scratch)
    return lines


def main(d):
    off = d.seed * 10**6
    items = []
    # every function, in other processes
    rng = np.random.default_rng(off)
    for i in range(8 if d.quick else 60):
        fs = [f for f in KIND if f not in ("xicor", "dcov_big") or i % 2]
        scn = [{"op": "call", "f": f, "o": o, "x": 0} for f in rng.permutation(fs) for o in (1, 2)]
        scn += [{"op": "write", "f": "", "o": 1, "x": 3}]
        scn += [{"op": "call", "f": f, "o": 1, "x": int(rng.integers(7))} for f in fs]
        scn = [{k: (v if isinstance(v, int) else str(v)) for k, v in s.items()} for s in scn]
        items.append((scn, off + 10**5 + i, True, d.scratch))
    items += [(s, off + i, False, d.scratch) for i, s in enumerate(d.scenarios)]
    d.pmap(session, items, chunk=1)
