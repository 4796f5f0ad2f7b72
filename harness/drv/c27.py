"""C27: p-values of the distance correlation test of pairs (method dcov_big)."""
import math

import numpy as np
from scipy.stats import t as student

from dlib import call, ints, light_import

it = light_import("independence_testing")
TOL = 1e-7  # of p-values


def variant(x, k):
    if k % 9 == 0:
        return x.astype(np.int8)
    if k % 9 == 1:
        return x / 4 + 2.0**30
    if k % 9 == 2:
        return np.asfortranarray(x / 2)
    if k % 9 == 3:
        return x.astype(np.float32)
    if k % 9 == 4:
        s = x * 1000
        s.flags.writeable = False
        return s
    if k % 9 == 5:
        return (x - x.min()).astype(np.uint8)
    if k % 9 == 6:
        return x * 1e-5 - 3.0
    if k % 9 == 7:
        return x.astype(np.int32)
    return x.astype(float)


def bounds(p, df):
    """The statistics that a p-value of this size may be of."""
    if not 0 <= p <= 1:
        return {"prob": False, "lo": 0, "hi": 0, "inf": False, "ninf": False}
    lo = student.isf(p + TOL, df) if p + TOL < 1 else -math.inf
    hi = student.isf(p - TOL, df) if p > TOL else math.inf
    top = 1e5
    return {"prob": True, "ninf": bool(lo < -top), "inf": bool(hi > top),
            "lo": math.floor(1e4 * min(max(lo, -top), top)) - 1, "hi": math.ceil(1e4 * max(min(hi, top), -top)) + 1}


def observe(item):
    x, k, level = item
    n, m = x.shape
    s = variant(x, k)
    before = s.copy()
    kw = {} if level is None else {"significance_level": level}
    r, exc = call(it.estimate_UDG, s, method="dcov_big", seconds=120, **kw)
    ev = {"e": "dcor", "cols": ints(x.T), "exc": exc, "tests": [], "shape": False, "unchanged": True,
          "cost": n * n * m * m}
    if not exc:
        p = np.asarray(r[1], float) if r[1] is not None else np.zeros(0)
        ev["shape"] = p.shape == (m, m)
        ev["unchanged"] = s.dtype == before.dtype and bool((s == before).all())
        if ev["shape"]:
            for i in range(m):
                for j in range(m):
                    if i != j:
                        ev["tests"].append({"i": min(i, j) + 1, "j": max(i, j) + 1, **bounds(p[i, j], n * (n - 3) // 2 - 1)})
    return [ev]


def main(d):
    rng, items = d.rng, []
    for i in range(240 if d.quick else 3000):
        n = int(rng.integers(4, 16) if i % 4 else rng.integers(16, 61))
        m = int(rng.integers(2, 5))
        top = int(rng.integers(2, 10))
        x = rng.integers(0, top, (n, m))
        for j in range(1, m):  # related columns
            if rng.random() < 0.7:
                y = x[:, j - 1].copy()
                flip = rng.random(n) < 0.6 * rng.random()
                y[flip] = rng.integers(0, top, flip.sum())
                x[:, j] = [y, top - y, abs(2 * y - top)][rng.integers(3)].clip(0, 9)
        if i % 3 == 2:  # few values in one, gaps in others
            x[:, 0] = rng.integers(0, 2, n)
            x[:, 1:] = x[:, 1:] ** 2 % 11
        for j in range(m):  # for constants it is not defined
            x[0, j] += (x[:, j] == x[0, j]).all()
        items.append((x, int(rng.integers(99)), [None, 0.01, 0.3][i % 3]))
    d.pmap(observe, items, chunk=2)
