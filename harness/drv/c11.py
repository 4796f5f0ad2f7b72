"""C11: GaussianMCM.fit()."""
import warnings

import numpy as np
from scipy.linalg import hadamard

from dlib import call, digest, fx, ints, nbrs, random_1pc, random_graph, rows
from medil.models import GaussianMCM

T = 10**4


def params(m):
    p = m.parameters
    return [np.asarray(m.biadj, float), np.asarray(m.udg, float), p.biadj_weights, p.error_means,
            p.error_variances, float(m.one_pure_child)]


def pool(rng):
    """Structures, graphs and data of one width."""
    m = int(rng.integers(2, 5))
    structures = []
    for i in range(3):
        k = int(rng.integers(1, m + 1))
        b = random_1pc(rng, m, k, 0.5) if i == 0 else rng.random((int(rng.integers(1, 4)), m)) < 0.6
        if not b.any():
            b[0, 0] = True
        b = b.astype([bool, int, bool, np.int8][rng.integers(4)])
        structures.append(np.asfortranarray(b) if rng.random() < 0.2 else b)
    graphs = []
    for _ in range(3):
        a = random_graph(rng, m, rng.random())
        if rng.random() < 0.5:
            np.fill_diagonal(a, 0)
        graphs.append(a.astype(bool) if rng.random() < 0.6 else a)
    data = []
    for _ in range(3):
        n = int(rng.integers(6, 21))
        x = rng.integers(-3, 4, (n, m))
        x[:, 1:] += x[:, :1] * rng.integers(-1, 2, m - 1)
        for j in range(m):
            if len(set(x[:, j])) == 1:
                x[0, j] += 1
        data.append(x)
    unit = int(rng.choice([1, 2]))
    if max(x.var(0).max() for x in data) > 3:
        unit = 2
    return m, structures, graphs, data, unit


def observe(model, ev, x):
    """The outcome of a fit."""
    p = model.parameters
    b = np.asarray(model.biadj)
    w = np.asarray(p.biadj_weights, float)
    ev["shape"] = b.ndim == 2 and w.shape == b.shape and b.shape[1] == x.shape[1] \
        and np.ndim(p.error_means) == 1 and np.ndim(p.error_variances) == 1 \
        and bool(np.isin(b, (0, 1)).all())
    if ev["shape"]:
        ev["rows"] = rows(b)
        ev["offzero"] = bool((w[~b.astype(bool)] == 0).all())
        ev["w"] = [[fx(v, T) for v in r] for r in w]
        ev["var"] = [fx(v, T) for v in p.error_variances]
        ev["mean"] = [fx(v, T) for v in p.error_means]
        u = np.asarray(model.udg)
        ev["udg"] = nbrs(u) if u.ndim == 2 else []
        ev["dig"] = digest(p.biadj_weights, p.error_variances, p.error_means)


def fit(model, x, ev):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        r, exc = call(model.fit, x, seconds=60)
    ev["exc"], ev["self"], ev["warned"] = exc, r is model, len(caught) > 0
    if not exc:
        observe(model, ev, x)


BLANK = {"exc": "", "self": True, "warned": False, "shape": True, "rows": [], "offzero": True,
         "w": [], "var": [], "mean": [], "udg": [], "dig": "", "others": True, "kept": True,
         "own": True}


def history(scn, seed):
    rng = np.random.default_rng(seed)
    m, structures, graphs, data, unit = pool(rng)
    values = [x / unit if unit > 1 or rng.random() < 0.5 else x for x in data]
    given = structures + graphs + values
    copies = [g.copy() for g in given]
    lines = [{"e": "pool", "structures": [rows(b) for b in structures],
              "graphs": [nbrs(a) for a in graphs], "data": [ints(x.T) for x in data], "unit": unit}]
    models = {}
    for st in scn:
        o, x = st["o"], st["x"]
        ev = {"e": "op", "op": st["op"], "o": o, "kind": st["kind"], "x": x, **BLANK, "cost": 3}
        before = {p: digest(params(q)) for p, q in models.items()}
        if st["op"] == "new":
            kw = {"structure": {"biadj": structures[x - 1]}, "graph": {"udg": graphs[x - 1]},
                  "both": {"biadj": structures[x - 1], "udg": graphs[x - 1]}}.get(st["kind"], {})
            if rng.random() < 0.5:
                kw["rng"] = np.random.default_rng(seed)
            q, ev["exc"] = call(GaussianMCM, **kw)
            if not ev["exc"]:
                models[o] = q
        elif st["op"] == "fit":
            fit(models[o], values[x - 1], ev)
        else:
            r, ev["exc"] = call(models[o].sample, x + 1)
            ev["shape"] = isinstance(r, np.ndarray) and r.shape == (x + 1, m)
            ev["own"] = digest(params(models[o])) == before[o]
        ev["others"] = all(digest(params(models[p])) == v for p, v in before.items() if p != o)
        ev["kept"] = all(a.dtype == b.dtype and bool(np.array_equal(a, b)) for a, b in zip(given, copies))
        lines.append(ev)
        if ev["exc"]:
            break
    return lines


H = hadamard(16)[:, 1:]


def exact(seed):
    """Data whose sample covariance is that of a one-pure-child model."""
    rng = np.random.default_rng(seed)
    while True:
        m = int(rng.integers(2, 6))
        k = int(rng.integers(1, min(m, 4)))
        b = random_1pc(rng, m, k, 0.4)
        w = np.where(b, rng.integers(2, 5, b.shape), 0)
        s = rng.integers(1, 4, m)
        cov = w.T @ w + np.diag(s**2)
        r2 = cov**2 / np.outer(np.diag(cov), np.diag(cov))
        if (r2[b.astype(int).T @ b > 0] > 0.12).all():
            break
    c = rng.permutation(15)
    x = np.tile(H[:, c[:k]] @ w + H[:, c[k : k + m]] * s, (4, 1))
    unit = 4
    data = x / unit
    model = GaussianMCM()
    ev = {"e": "exact", "true": rows(b), "data": ints(x.T), "unit": unit, **BLANK, "cost": 20}
    fit(model, data, ev)
    return [ev]


def run(item):
    return history(item[1], item[2]) if item[0] == "h" else exact(item[1])


def main(d):
    off = d.seed * 10**6
    items = [("h", s, off + i) for i, s in enumerate(d.scenarios)]
    items += [("x", off + i) for i in range(120 if d.quick else 2000)]
    d.pmap(run, items, chunk=4)
