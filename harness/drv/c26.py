"""C26: how far the penalized estimates are from minimising the criterion,
which is the validation loss (see C20) on the data of the fit."""
import warnings

import numpy as np

from dlib import call, fx
from medil.models import DevMedil

warnings.simplefilter("ignore")
T = 10**4
PAIRS = {"mle": [(0, 0), (0.1, 0.1), (0.6, 0.02), (0, 0.3), (0.05, 0.2), (1, 0), (1, 1)],
         "lse": [(0, 0), (0.1, 0.1), (0.5, 0.1), (0, 0.5), (0.1, 1), (1, 0), (1, 1)]}


def dataset(rng):
    """Measurements with a common cause or two, each of variance about 2."""
    m = int(rng.integers(2, 5))
    n = int(rng.integers(5 * m, 80))
    k = int(rng.integers(1, 3))
    w = rng.uniform(0.8, 1.8, (k, m)) * rng.choice([-1, 1], (k, m))
    if k == 2:
        w *= rng.random((k, m)) < 0.7
    x = rng.standard_normal((n, k)) @ w + rng.standard_normal((n, m)) * rng.uniform(0.6, 1.2, m)
    return x + rng.integers(-3, 4, m)


def nearby(w, d):
    k, m = w.shape
    for c in (0.7, 0.85, 0.95, 1.05, 1.15, 1.4):
        yield c * w, d
        yield w, c * d
        yield np.sqrt(c) * w, c * d
        for i in range(k):
            v = w.copy()
            v[i] *= c
            yield v, d
        for j in range(m):
            e = d.copy()
            e[j, j] *= c
            yield w, e
    for j in range(m):
        e = d.copy()
        e[j, j] += 0.1
        yield w, e
    for i in range(k):
        for j in range(i):
            for t in (-0.3, -0.1, 0.1, 0.3):  # latents may be rotated without changing the covariances
                v = w.copy()
                v[i] = np.cos(t) * w[i] - np.sin(t) * w[j]
                v[j] = np.sin(t) * w[i] + np.cos(t) * w[j]
                yield v, d


def one(method, la, mu, onepc, seed):
    rng = np.random.default_rng(seed)
    x = dataset(rng)
    m = x.shape[1]
    model = DevMedil(rng=np.random.default_rng(seed), one_pure_child=onepc)
    _, exc = call(model.fit, x, method, la, mu, seconds=300)
    ev = {"e": "fit", "exc": exc}
    if exc:
        return ev
    w, d = np.array(model.W_hat), np.array(model.D_hat)
    ok = w.ndim == 2 and w.shape[1] == m and d.shape == (m, m)
    ok = bool(ok and np.isfinite(w).all() and np.isfinite(d).all())
    ev["shape"] = ok
    if not ok:
        return ev
    f = model.validation_mle if method == "mle" else model.validation_lse

    def criterion(v, e):
        model.W_hat, model.D_hat = v, e
        r, exc = call(f, la, mu, x)
        r = np.inf if exc else float(r)
        return r if r == r else np.inf

    at = criterion(w, d)
    best = min(criterion(v, e) for v, e in nearby(w, d))
    ev.update(finite=bool(np.isfinite(at)), gain=fx(at - best, T) if np.isfinite(at) else 0,
              d=[fx(v, T) for v in np.diag(d)])
    return ev


def batch(item):
    method, la, mu, count, seed = item
    lines = [{"e": "batch", "method": method, "la": fx(la, T), "mu": fx(mu, T), "cost": count}]
    for i in range(count):
        lines.append(one(method, la, mu, i % 4 != 3, seed + i))
    return lines + [{"e": "end"}]


def main(d):
    items, n = [], 60 if d.quick else 800
    for method in PAIRS:
        for la, mu in PAIRS[method]:
            items.append((method, la, mu, n, d.seed * 10**6 + 1000 * len(items)))
    d.pmap(batch, items, chunk=1)
