"""C13: dcov() and the fast test of estimate_UDG()."""
import numpy as np

from dlib import call, ints, light_import

it = light_import("independence_testing")

# chi-squared(1) quantiles of 1 - level, in millionths, rounded down
QUANTILE = {0.05: 3841458, 0.01: 6634896, 0.1: 2705543, 0.2: 1642374, 0.5: 454936,
            0.001: 10827566, 0.3: 1074194, 0.9: 15790}


def variant(x, unit, k):
    s = x / unit
    if k % 7 == 5:  # still exact
        return s + [1e9, -3e8, 2.0**40][k % 3]
    if k % 5 == 1 and unit == 1:
        return x.astype(int)
    if k % 5 == 2:
        return np.asfortranarray(s)
    if k % 5 == 3:
        return s.astype(np.float32)
    if k % 5 == 4:
        s = s.copy()
        s.flags.writeable = False
    return s


def observe(item):
    x, unit, k, levels, copies = item
    n, m = x.shape
    # every observation several times has the same distance covariances
    order = np.random.default_rng(k).permutation(n * copies) % n if copies > 1 else np.arange(n)
    s = variant(x[order], unit, k)
    before = s.copy()
    r, exc = call(it.dcov, s, seconds=30)
    ev = {"e": "dcov", "op": "dcov", "cols": ints(x.T), "unit": unit, "copies": copies, "exc": exc, "whole": False,
          "cov": [], "bars": [], "tests": [], "shape": False, "cost": n * n * m * m}
    if not exc:
        cov, bars = (np.asarray(a, float) for a in r)
        ev["shape"] = cov.shape == (m, m) and bars.shape == (m,)
        c, b = cov * float(n) ** 4 * unit * unit, bars * n * n * unit
        if ev["shape"] and np.isfinite(c).all() and abs(c).max() < 2e9 and np.isfinite(b).all():
            ev["whole"] = bool(abs(c - c.round()).max() < 0.05 and abs(b - b.round()).max() < 0.05)
            ev["cov"], ev["bars"] = ints(c.round()), [int(v) for v in b.round()]
        else:
            ev["cov"], ev["bars"] = [[0] * m] * m, [0] * m
        for a in levels:
            if a is None:
                u, e = call(it.estimate_UDG, s, seconds=30)
                a = 0.05
            else:
                u, e = call(it.estimate_UDG, s, method="dcov_fast", significance_level=a, seconds=30)
            q = QUANTILE[a]
            ev["tests"].append({"lo": q - 1, "hi": q + 2, "level": str(a), "exc": e,
                                "udg": ints(np.asarray(u[0]).astype(int)) if not e else []})
        ev["unchanged"] = bool((s == before).all())
    return [ev]


def main(d):
    rng, items = d.rng, []
    levels = list(QUANTILE)
    for i in range(500 if d.quick else 6000):
        n = int(rng.integers(2, 13) if i % 4 else rng.integers(13, 41))
        m = int(rng.integers(1, 5))
        top = int(rng.integers(1, 10))
        x = rng.integers(0, top + 1, (n, m))
        if m > 1 and i % 3:
            for j in range(1, m):  # related columns
                if rng.random() < 0.6:
                    y = x[:, j - 1].copy()
                    flip = rng.random(n) < 0.4 * rng.random()
                    y[flip] = rng.integers(0, top + 1, flip.sum())
                    x[:, j] = [y, top - y, abs(2 * y - top)][rng.integers(3)].clip(0, 9)
        x = x - int(rng.integers(0, 6))
        for j in range(m):  # the fast test is undefined for constants
            if len(set(x[:, j])) == 1:
                x[0, j] += 1
        lv = [levels[rng.integers(len(levels))] for _ in range(2)]
        copies = 1
        if i % 12 == 7:
            copies = int(rng.integers(2, 700) // n + 1)
        items.append((x, [1, 1, 2, 4, 16][rng.integers(5)], i, lv + ([None] if i % 2 else []), copies))
    for i in range(3 if d.quick else 30):  # large samples
        n = int(rng.integers(4, 9))
        x = rng.integers(0, 8, (n, 2))
        x[0] = [8, 8]
        items.append((x, 1, i, [0.05, 0.5], int(rng.integers(1000, 2500) // n)))
    d.pmap(observe, items)
