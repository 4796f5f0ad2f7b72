"""C22: what the figures of visualize.py show, read off the figures."""
import re
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.patches import FancyArrowPatch

from dlib import call, light_import, random_1pc, rows

vis = light_import("visualize")
warnings.simplefilter("ignore")
plt.show = lambda *a, **k: None


def number(text):
    m = re.search(r"(\d+)\D*$", text)
    return int(m[1]) if m else -1


def figure(f, *args, **kw):
    plt.close("all")
    _, exc = call(f, *args, seconds=120, **kw)
    return exc, [plt.figure(i) for i in plt.get_fignums()]


def structure(rng, large=False):
    k, m = int(rng.integers(1, 6)), int(rng.integers(1, 8))
    if large:  # many of the one or the other
        k, m = (int(rng.integers(3, 16)), int(rng.integers(12, 27))) if rng.random() < 0.6 else (int(rng.integers(128, 300)), int(rng.integers(2, 6)))
        b = rng.random((k, m)) < (0.3 if k < 99 else rng.choice((0.1, 0.9, 1)))
        return b.astype([bool, int, float, np.int8][rng.integers(4)])
    b = random_1pc(rng, max(k, m), k, 0.4) if rng.random() < 0.5 else rng.random((k, m)) < 0.5
    return b.astype([bool, int, float, np.int8][rng.integers(4)])


def dag(seed):
    rng = np.random.default_rng(seed)
    b = structure(rng)
    if seed % 20 == 4:
        k, m = int(rng.integers(4, 13)), int(rng.integers(11, 16))
        b = rng.random((k, m)) < 0.3
    copy = b.copy()
    exc, figs = figure(vis.show_dag, b)
    ev = {"e": "dag", "exc": exc, "rows": rows(b), "m": int(b.shape[1]), "arrows": [], "strange": 0,
          "latents": 0, "meas": 0, "kept": bool((b == copy).all())}
    if not exc:
        at = {}
        for f in figs:
            for ax in f.axes:
                for t in ax.texts:
                    at[tuple(np.round(t.get_position(), 6).tolist())] = (t.get_text(), number(t.get_text()))
        kinds = sorted(v[0] for v in at.values())
        ev["latents"] = len({t for t in kinds if "L" in t})
        ev["meas"] = len({t for t in kinds if "M" in t})
        for f in figs:
            for ax in f.axes:
                for p in ax.patches:
                    if isinstance(p, FancyArrowPatch):
                        a, c = (at.get(tuple(np.round(np.array(q, float), 6).tolist())) for q in p._posA_posB)
                        if a and c and "L" in a[0] and "M" in c[0]:
                            ev["arrows"].append([a[1] + 1, c[1] + 1])
                        else:
                            ev["strange"] += 1
    events = [ev]
    if hasattr(vis, "get_dag_from_biadj"):
        r, exc = call(vis.get_dag_from_biadj, b)
        ok = not exc and np.ndim(r) == 2 and bool(np.isin(r, (0, 1)).all())
        events.append({"e": "matrix", "exc": exc, "rows": rows(b), "m": int(b.shape[1]),
                       "matrix": [[int(x) for x in q] for q in r] if ok else []})
    return events


def ticks(figs):
    ax = figs[0].axes[0]
    get = lambda a, t: [number(x.get_text()) if abs(p - i) < 1e-9 else -1
                        for i, (x, p) in enumerate(zip(a, t))]
    return {"xticks": get(ax.get_xticklabels(), ax.get_xticks()),
            "yticks": get(ax.get_yticklabels(), ax.get_yticks())}


def image(figs, scale):
    ax = figs[0].axes[0]
    if not ax.images:
        return []
    return [[int(round(float(v) * scale)) for v in r] for r in np.asarray(ax.images[0].get_array())]


def adj(seed):
    rng = np.random.default_rng(seed)
    b = structure(rng, seed % 8 == 3)
    copy = b.copy()
    exc, figs = figure(vis.show_obs_adj_mat, b.tolist() if seed % 4 == 0 else b)
    ev = {"e": "adj", "exc": exc, "rows": rows(b), "m": int(b.shape[1]), "image": [], "xticks": [],
          "yticks": [], "kept": bool((b == copy).all())}
    if not exc:
        ev.update(image=image(figs, 1), **ticks(figs))
    return [ev]


def values(seed):
    rng = np.random.default_rng(seed)
    m = int(rng.integers(1, 7)) if seed % 8 else int(rng.integers(10, 25))
    unit = 100 if seed % 3 else 10**6
    x = rng.integers(0, unit + 1, (m, m))
    if rng.random() < 0.5:
        x = np.triu(x) + np.triu(x, 1).T
    th = bool(rng.random() < 0.5)
    t = int(rng.integers(0, unit)) if rng.random() < 0.8 else 0
    if th and rng.random() < 0.5:
        t = int(x[rng.integers(m), rng.integers(m)])
        if unit > 100:  # others next to it
            x = np.where(rng.random((m, m)) < 0.5, np.clip(t + rng.integers(-3, 4, (m, m)), 0, unit), x)
    pr = bool(rng.random() < 0.6)
    data = x / unit
    copy = data.copy()
    kw = {}
    if th:
        kw["thresh"] = t / unit
    if pr:
        kw["print_val"] = True
    exc, figs = figure(vis.show_obs_dcor_mat, data, **kw)
    ev = {"e": "values", "exc": exc, "x": x.tolist(), "m": m, "th": th, "thresh": t, "unit": unit, "print": pr,
          "image": [], "texts": [], "xticks": [], "yticks": [], "kept": bool((data == copy).all())}
    if not exc:
        ev.update(image=image(figs, unit), **ticks(figs))
        for t in figs[0].axes[0].texts:
            i, j = t.get_position()
            ev["texts"].append([int(j) + 1, int(i) + 1, int(round(float(t.get_text()) * 100))])
    return [ev]


def pairs(seed):
    rng = np.random.default_rng(seed)
    m = int(rng.integers(2, 4))
    n = [30, 999, 1000, 1001, 1500][seed % 5]
    x = rng.standard_normal((n, m)) * (1 + np.arange(m)) + 10 * np.arange(m)
    if n > 1000:
        x[1000:] += 100
    copy = x.copy()
    exc, figs = figure(vis.show_pairwise_plot, x, **({"color": "C1"} if seed % 2 else {}))
    ev = {"e": "pairs", "exc": exc, "m": m, "n": n, "panels": [], "diag": [],
          "kept": bool((x == copy).all())}
    if exc:
        return [ev]
    y = x[:1000]
    axes = [a for f in figs for a in f.axes]
    place = lambda a: (a.get_subplotspec().rowspan.start, a.get_subplotspec().colspan.start)
    ylab, xlab = {}, {}
    for a in axes:
        r, c = place(a)
        if a.get_xlabel():
            xlab[c] = number(a.get_xlabel())
        if a.get_ylabel() and "X" in a.get_ylabel():
            ylab[r] = number(a.get_ylabel())
    for a in axes:
        r, c = place(a)
        rv, cv = ylab.get(r, r + 1), xlab.get(c, -1)
        for coll in a.collections:
            pts = np.asarray(coll.get_offsets())
            if len(pts) > 1 and r != c:
                ok = len(pts) == len(y) and 1 <= cv <= m and 1 <= rv <= m \
                    and np.allclose(np.sort(pts, 0), np.sort(y[:, [cv - 1, rv - 1]], 0)) \
                    and np.allclose(pts, y[:, [cv - 1, rv - 1]])
                ev["panels"].append({"row": rv, "col": cv, "n": len(pts), "match": bool(ok)})
            elif r == c and 1 <= cv <= m:
                v = np.concatenate([p.vertices for p in coll.get_paths()])[:, 0]
                col = y[:, cv - 1]
                # the density's range goes with the data's
                if v.min() <= col.min() and v.max() >= col.max() and v.max() - v.min() < 4 * np.ptp(col):
                    ev["diag"].append(cv)
    return [ev]


def run(item):
    return globals()[item[0]](item[1])


def main(d):
    k = 1 if d.quick else 10
    off = 10**6 * d.seed
    items = [(f, off + i) for f, c in (("dag", 60), ("adj", 120), ("values", 160), ("pairs", 10)) for i in range(c * k)]
    items = [items[i] for i in d.rng.permutation(len(items))]
    d.pmap(run, items, chunk=4)
