"""C14: xicorr()."""
import itertools

import numpy as np
from scipy.stats import norm

from dlib import call, fx, light_import

it = light_import("independence_testing")

# increasing maps: the result depends on the order of a sample only
MAPS = [lambda v: v, lambda v: v.astype(float), lambda v: np.exp(v / 3.0), lambda v: v * 1e-7 - 5,
        lambda v: v.astype(float) ** 3, lambda v: v * 10**6 + 17, lambda v: np.arctan(v / 2.0),
        lambda v: -1.0 / (v + 100), lambda v: v.astype(np.float32)]
def grid(v, order):
    k = max(f for f in (1, 2, 3, 4) if len(v) % f == 0)
    return np.array(v.reshape(k, -1), order=order)


# (more dimensions are flattened, row by row whatever the layout)
FORMS = [lambda v: v, lambda v: v.tolist(), lambda v: v.reshape(1, -1), lambda v: v.reshape(-1, 1),
         lambda v: grid(v, "C"), lambda v: grid(v, "F")]


def observe(item):
    op, x, y, fx_, fy_, form, ties = item
    xa, ya = FORMS[form](MAPS[fx_](x)), FORMS[form - (form == 5 and len(x) % 2)](MAPS[fy_](y))
    bx, by = np.array(xa), np.array(ya)
    ev = {"e": op, "op": op, "x": x.tolist(), "y": y.tolist(), "ties": ties is not False,
          "xi": 0, "z": 0, "zneg": False, "far": False, "nan": False, "unchanged": True,
          "forms": [fx_, fy_, form], "cost": len(x) ** (4 if op == "tied" else 2)}
    if op in ("grouped", "permuted"):
        ranked = np.unique(y[np.argsort(x)], return_inverse=True)[1] + 1
        ev["x"], ev["y"], ev["cnt"], ev["trans"], ev["cost"] = [], [], [], [], 500
        if op == "permuted":
            ev["y"] = ranked.tolist()
        else:
            ev["cnt"] = np.bincount(ranked)[1:].tolist()
            steps, k = np.unique(np.stack((ranked[:-1], ranked[1:])), axis=1, return_counts=True)
            ev["trans"] = np.vstack((steps, k)).T.tolist()
    if ties is None:
        r, ev["exc"] = call(it.xicorr, xa, ya, seconds=20)
    else:
        r, ev["exc"] = call(it.xicorr, xa, ya, ties=ties, seconds=20)
    if not ev["exc"]:
        xi, p = float(r.correlation), float(r.pvalue)
        ev["unchanged"] = bool((np.array(xa) == bx).all() and (np.array(ya) == by).all())
        ev["nan"] = bool(np.isnan(xi)) if op != "empty" else bool(np.isnan(xi) and np.isnan(p))
        if not ev["nan"]:
            ev["xi"] = fx(xi)
        if not np.isnan(p):
            z = float(norm.isf(p))
            ev["zneg"] = z < 0
            ev["far"] = not abs(z) < 5
            ev["z"] = 0 if ev["far"] else fx(abs(z), 10**4)
        elif not ev["nan"]:
            ev["z"], ev["far"] = 10**6, False  # wrong unless y is constant
    return [ev]


def main(d):
    rng, items = d.rng, []

    def add(op, x, y, ties=None):
        items.append((op, np.array(x, int), np.array(y, int), int(rng.integers(len(MAPS))),
                      int(rng.integers(len(MAPS))), int(rng.integers(len(FORMS))), ties))

    for n in (2, 3, 4):  # every pattern of ties in y, in every order
        for y in itertools.product(range(1, n + 1), repeat=n):
            x = rng.permutation(n) + 1
            add("xi", x, y, [None, True, False][rng.integers(3)])
    for i in range(900 if d.quick else 9000):
        n = int(rng.integers(2, 21))
        x = rng.permutation(3 * n)[:n] - n
        kind = i % 6
        if kind == 0:
            y = rng.integers(0, 4, n)
        elif kind == 1:
            y = rng.permutation(n)
        elif kind == 2:
            y = x // 2 + rng.integers(0, 3, n)
        elif kind == 3:
            y = (x - x.mean().astype(int)) ** 2 // 4
        elif kind == 4:
            y = rng.permutation(3 * n)[:n]
        else:
            y = -x + rng.integers(0, 2, n)
        add("xi", x, y, [None, True, False][rng.integers(3)])
    for i in range(150 if d.quick else 1500):
        n = int(rng.integers(2, 6))
        add("tied", rng.integers(0, 3, n), rng.integers(0, 5, n))
    for i in range(60 if d.quick else 600):  # many observations
        n = int(10 ** rng.uniform(1.3, 3.5 if i % 10 else 5))
        x = rng.permutation(n) * 2 - n // 3
        y = [lambda: rng.permutation(n) * 3, lambda: rng.integers(0, 30, n),
             lambda: rng.binomial(2, 0.1, n), lambda: x + rng.integers(-n * 20, n * 20, n) * 3,
             lambda: (x // 7) % 23, lambda: x % 2][i % 6]()
        if i % 6 == 3:
            y = np.argsort(np.argsort(y))
        if len(set(y.tolist())) in range(2, 41) or i % 3 == 0:
            items.append(("permuted" if i % 3 == 0 else "grouped", x, y, [0, 1, 4, 5][i % 4], [0, 1, 3][i % 3],
                          [0, 0, 4, 5][rng.integers(4)], [None, True, False][rng.integers(3)]))
    for i in range(30):
        a, b = rng.integers(0, 7, 2)
        if a != b:
            add("unequal", rng.permutation(a), rng.permutation(b), [None, True, False][i % 3])
    for form in range(2):
        for ties in (None, True, False):
            items.append(("empty", np.zeros(0, int), np.zeros(0, int), 1, 1, form, ties))
    d.pmap(observe, items)
