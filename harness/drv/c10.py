"""C10: the dependence graph of GaussianMCM.fit()."""
import warnings

import numpy as np

from dlib import call, ints

warnings.simplefilter("ignore")
from medil.models import GaussianMCM


def observe(item):
    x, mult, scale, shift, dtype = item
    data = (x if mult is None else np.repeat(x, mult, 0)) * scale + shift
    if mult is not None:
        data = np.random.default_rng(len(data)).permutation(data)
    if dtype == "int" and (data == data.round()).all():
        data = data.astype(int)
    model = GaussianMCM()
    _, exc = call(model.fit, data, seconds=100)
    n, m = x.shape
    ev = {"e": "bic", "cols": ints(x.T), "mult": [] if mult is None else [int(v) for v in mult], "exc": exc, "udg": [], "shape": False,
          "scale": [float(s) for s in scale], "shift": [float(s) for s in shift],
          "cost": m * m * n * n}
    if not exc:
        u = np.asarray(model.udg)
        ev["shape"] = u.shape == (m, m) and bool(np.isin(u, (0, 1)).all())
        if ev["shape"]:
            ev["udg"] = ints(u.astype(int))
    return [ev]


def margin(x, y, w):
    """log of (1 - r^2)^n n, by n"""
    n = w.sum()
    c = lambda a, b: n * (w * a * b).sum(-1) - (w * a).sum(-1) * (w * b).sum(-1)
    x, y = x.astype(float), y.astype(float)
    return np.log1p(-(c(x, y) ** 2) / (c(x, x) * c(y, y))) + np.log(n) / n


def close(rng, n):
    """Two measurements as close to the threshold as 10^-9 or so."""
    x = rng.integers(0, 3000, n)
    e = rng.normal(0, 1, n) * x.std()
    w = np.ones(n, int)
    to = lambda t: np.clip((1500 + (1 - t) * (x - x.mean()) + t * e).round(), 0, 3500).astype(int)
    lo, hi = 0.0, 1.0
    for _ in range(40):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if margin(x, to(mid), w) < 0 else (lo, mid)
    y = to(lo)
    if rng.random() < 0.5:
        y = 3500 - y
    i, j = rng.integers(0, n, (2, 60000))
    change = np.zeros((60000, n), int)
    change[np.arange(60000), i] += rng.integers(-40, 41, 60000)
    change[np.arange(60000), j] += rng.integers(-40, 41, 60000)
    z = np.clip(y + change, 0, 3600)
    f = margin(x, z, w)
    out = []
    for side in (-1, 1):
        k = np.argmin(np.where(side * f > 1e-9, side * f, 9))
        out.append((np.array([x, z[k]]).T, w))
    return out


def many(rng):
    """Very many observations, near the threshold."""
    n = int(10 ** rng.uniform(2, 5.5))
    k, m = rng.integers(2, 5, 2)
    a, b = (v.ravel() for v in np.meshgrid(np.arange(k), np.arange(m)))
    std = lambda v: (v - v.mean()) / v.std()
    r = np.sqrt(-np.expm1(-np.log(n) / n) * rng.choice((0.3, 0.8, 0.9, 0.97, 1.03, 1.1, 1.2, 3)))
    w = np.round(n / (k * m) * (1 + rng.choice((-1, 1)) * r * std(a) * std(b))).astype(int).clip(0)
    w[[0, -1]] += 1
    x = np.array([a, b]).T
    return x[w > 0], w[w > 0]


def main(d):
    rng, items = d.rng, []
    for i in range(240 if d.quick else 5000):
        n = int([rng.integers(3, 9), rng.integers(8, 20), rng.integers(20, 61)][i % 3])
        m = int(rng.integers(2, 6))
        top = int(rng.integers(1, 10))
        x = rng.integers(0, top + 1, (n, m))
        for j in range(1, m):
            if rng.random() < 0.7:  # related, with either sign
                y = x[:, rng.integers(j)].copy()
                flip = rng.random(n) < rng.random()
                y[flip] = rng.integers(0, top + 1, flip.sum())
                x[:, j] = y if rng.random() < 0.5 else top - y
        for j in range(m):
            if len(set(x[:, j])) == 1:
                x[0, j] += 1
        if i % 4 == 0:
            scale, shift = np.ones(m), np.zeros(m)
        else:
            scale = 2.0 ** rng.integers(-6, 7, m) * rng.choice((1, 3, -1, -5), m)
            shift = rng.integers(-20, 21, m) * 2.0 ** rng.integers(-2, 4, m)
        if i % 5 == 0:  # units of very different magnitudes
            scale = scale * 2.0 ** rng.choice((-40, -30, -20, -12, 0, 12, 20), m)
            shift = shift * np.abs(scale)
        items.append((x, None, scale, shift, ["float", "int"][i % 2]))
    for i in range(60 if d.quick else 900):
        pairs = close(rng, int(rng.integers(4, 41))) if i % 2 else [many(rng)]
        for x, mult in pairs:
            items.append((x, mult, 2.0 ** rng.integers(-6, 7, 2), np.zeros(2), ["float", "int"][i % 3 == 0]))
    d.pmap(observe, items)
