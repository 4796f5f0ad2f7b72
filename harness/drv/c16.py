"""C16: min_perm_squared_l2_dist() and the variant for magnitudes."""
import numpy as np

from dlib import call, ints, light_import

evaluate = light_import("evaluate")
TYPES = [int, np.int8, np.int32, float, np.float32, np.float64]


def observe(item):
    p, t, unit, tp, tt, ab = item
    pa = (p / unit).astype(tp) if unit > 1 else p.astype(tp)
    ta = (t / unit).astype(tt) if unit > 1 else t.astype(tt)
    bp, bt = pa.copy(), ta.copy()
    f = evaluate.min_perm_squared_l2_dist_abs if ab else evaluate.min_perm_squared_l2_dist
    r, exc = call(f, pa, ta, seconds=200)
    ev = {"e": "match", "m": int(p.shape[1]), "pred": ints(p), "true": ints(t), "abs": ab,
          "exc": exc, "types": [str(pa.dtype), str(ta.dtype)], "unit": unit,
          "unchanged": bool((pa == bp).all() and (ta == bt).all()) and pa.dtype == bp.dtype,
          "perm": [], "dist": 0, "whole": False, "cost": 2 ** len(p)}
    if not exc:
        perm, dist = r
        ev["perm"] = [int(i) + 1 for i in np.asarray(perm).ravel()]
        v = float(dist) * unit * unit
        ev["whole"] = v == int(v)
        ev["dist"] = int(v)
    return [ev]


def main(d):
    rng, items = d.rng, []
    for i in range(1200 if d.quick else 12000):
        k = int(rng.integers(1, 6 if i % 10 else 7))
        m = int(rng.integers(1, 6))
        kt = int(rng.integers(0, k + 1)) if i % 2 else k
        unit = [1, 1, 2, 4, 8][rng.integers(5)]
        p = rng.integers(-8, 9, (k, m))
        t = rng.integers(-8, 9, (kt, m))
        if i % 3 == 0 and kt:  # close to a reordering, with other signs
            t = rng.permutation(p)[:kt].copy()
            if i % 6 == 0:
                t *= rng.choice((-1, 1), t.shape)
            t[rng.integers(kt), rng.integers(m)] += int(rng.integers(0, 3))
        if i % 7 == 0:
            p[rng.integers(k)] = 0
        types = TYPES if unit == 1 else TYPES[3:]
        tp, tt = (types[rng.integers(len(types))] for _ in "pt")
        if i % 5 == 0 and unit == 1:
            p, t, tp, tt = abs(p), abs(t), [np.uint8, bool, int][rng.integers(3)], [np.uint8, float][rng.integers(2)]
            if tp is bool:
                p = np.minimum(p, 1)
        if i % 4 == 1:  # types that differ in what they can hold
            tp, tt = [int, np.int8, np.int32][rng.integers(3)], float
            p = p * unit if unit > 1 else p * 2
            unit = unit if unit > 1 else 2
        if i % 11 == 0 and not i % 5 == 0:  # large, and close to each other
            p = int(rng.integers(2**24, 2**25 - 99)) + rng.integers(-9, 10, (k, m))
            t = rng.permutation(p) + rng.integers(-3, 4, (k, m))
            unit, tp, tt = 1, [int, float][rng.integers(2)], [int, float][rng.integers(2)]
        items.append((p, t, unit, tp, tt, bool(rng.integers(2))))
    for i in range(4 if d.quick else 16):  # many latents
        k = 8 if i % 2 else 9
        p = rng.integers(-9, 10, (k, 4))
        t = rng.permutation(p)[: int(rng.integers(k - 2, k + 1))] + rng.integers(0, 2, 4)
        items.append((p, t, 1, int, float, i % 4 > 1))
    d.pmap(observe, items)
