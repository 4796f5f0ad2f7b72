"""C15: sfd()."""
import itertools

import numpy as np

from dlib import call, light_import, rows

evaluate = light_import("evaluate")
TYPES = [bool, int, np.int8, np.int32, np.uint8, float]


def observe(item):
    p, t, tp, tt = item
    p, t = p.astype(tp), t.astype(tt)
    bp, bt = p.copy(), t.copy()
    r, exc = call(evaluate.sfd, p, t, seconds=20)
    ev = {"e": "sfd", "n": int(p.shape[1]), "pred": rows(p), "true": rows(t), "exc": exc,
          "types": [str(p.dtype), str(t.dtype)],
          "unchanged": bool((p == bp).all() and (t == bt).all()), "whole": False, "sfd": 0, "ushd": 0}
    if not exc:
        s, u = r
        ev["whole"] = bool(float(s) == int(s) and float(u) == int(u))
        ev["sfd"], ev["ushd"] = int(s), int(u)
    return [ev]


def main(d):
    rng, items = d.rng, []
    # every pair of structures with up to two latents on two measurements,
    # and with up to two and one on three
    def every(n, kmax):
        return [np.array(bits, bool).reshape(k, n) for k in range(0, kmax + 1)
                for bits in itertools.product((0, 1), repeat=k * n)]

    for n, k1, k2 in ((1, 2, 2), (2, 2, 2), (3, 2, 1), (3, 1, 2)):
        for p in every(n, k1):
            for t in every(n, k2):
                ty = [bool, int][rng.integers(2)]
                items.append((p, t, ty, ty))
    for i in range(1500 if d.quick else 20000):
        n = int(rng.integers(2, 9))
        p = rng.random((rng.integers(1, 8), n)) < rng.random()
        t = rng.random((rng.integers(1, 8), n)) < rng.random()
        if i % 3 == 0:  # similar ones
            t = rng.permutation(p, axis=0)
            t[rng.integers(len(t)), rng.integers(n)] ^= i % 2 == 0
            if i % 9 == 0:
                t = np.vstack((t, t[:1]))
        items.append((p, t, TYPES[rng.integers(len(TYPES))], TYPES[rng.integers(len(TYPES))]))
    for i in range(30 if d.quick else 200):  # very many latents, which share many measurements
        n = int(rng.integers(2, 4))
        p = rng.random((int(rng.choice([128, 255, 256, 257, 300, 512])), n)) < rng.choice((0.9, 1.0))
        t = rng.random((int(rng.choice([1, 2, 256, 257])), n)) < rng.choice((0.8, 1.0))
        p, t = (p, t) if i % 2 else (t, p)
        items.append((p, t, TYPES[rng.integers(len(TYPES))], TYPES[rng.integers(len(TYPES))]))
    for i in range(20 if d.quick else 200):  # very many measurements
        n = int(rng.integers(17, 41))
        p, t = (rng.random((int(rng.integers(1, 12)), n)) < rng.choice((0.1, 0.4, 1.0)) for _ in "ab")
        items.append((p, t, TYPES[rng.integers(len(TYPES))], TYPES[rng.integers(len(TYPES))]))
    d.pmap(observe, items)
