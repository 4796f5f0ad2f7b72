"""C08: samples of Gaussian models."""
import numpy as np

from dlib import call, digest, fx, random_1pc
from medil import sample as smp
from medil.models import GaussianMCM

N = 40000


def structure(rng):
    k, m = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    if rng.random() < 0.5:
        m = max(m, k)
        return random_1pc(rng, m, k, 0.4)
    return rng.random((k, m)) < 0.5


def state(model):
    p = model.parameters
    return digest(np.asarray(model.biadj, float), p.error_means, p.error_variances, p.biadj_weights)


def line(e, exc, **kw):
    return {"e": e, "exc": exc, "shape": True, "kept": True, **kw}


def given(rng, b, gen, w, d, mean):
    """A model with the given parameters, made in one of the ways there are."""
    way = int(rng.integers(3))
    if way == 0:
        m = GaussianMCM(biadj=b, rng=gen)
    elif way == 1:
        m = smp.mcm(rng=gen, biadj=b)
    else:
        m = GaussianMCM(biadj=b.astype(int), rng=gen)
    m.parameters.biadj_weights = w
    m.parameters.error_variances = d
    m.parameters.error_means = mean
    return m


def relations(w):
    """Integer relations v with w v = 0 (w: integers)."""
    import sympy

    out = []
    for v in sympy.Matrix(w.tolist()).nullspace():
        den = sympy.ilcm(*[x.q for x in v]) if len(v) > 1 else 1
        v = [int(x * den) for x in v]
        if max(abs(x) for x in v) <= 60:
            out.append(v)
    return out


def exact(seed):
    rng = np.random.default_rng(seed)
    b = structure(rng)
    k, m = b.shape
    w = np.where(b, rng.integers(1, 9, b.shape) * rng.choice((-1, 1), b.shape), 0)
    mean = rng.integers(-8, 9, m) / 4
    model = given(rng, b, np.random.default_rng(seed), w / 4, np.zeros(m), mean)
    n = int(rng.choice([1, 2, 7, 20]))
    before = state(model)
    x, exc = call(model.sample, n)
    ev = line("exact", exc, w=w.tolist(), v=[], rows=[], cost=n)
    if not exc:
        ev["shape"] = isinstance(x, np.ndarray) and x.shape == (n, m)
        ev["kept"] = state(model) == before
        if ev["shape"]:
            ev["rows"] = [[fx(t) for t in r] for r in x - mean]
            ev["v"] = relations(w)
    return [ev]


def fresh(seed):
    rng = np.random.default_rng(seed)
    b = structure(rng)
    w = np.where(b, rng.integers(1, 9, b.shape) * rng.choice((-1, 1), b.shape), 0)
    d = rng.integers(0, 3, b.shape[1])
    if seed % 3 == 0:
        d[:] = 0
    elif seed % 3 == 1:
        w[:] = 0
    model = given(rng, b, np.random.default_rng(seed), w.astype(float), d.astype(float), np.zeros(len(d)))
    n = int(rng.choice([6000, 17000, 30000]))
    x, exc = call(model.sample, n)
    ev = line("fresh", exc, w=w.tolist(), d=d.tolist(), n=n, count=[])
    if not exc:
        ev["shape"] = isinstance(x, np.ndarray) and x.shape == (n, len(d))
        if ev["shape"]:
            ev["count"] = [len(np.unique(np.abs(c))) for c in x.T]
    return [ev]


def several(model, sizes):
    """N observations in samples of the given sizes."""
    out, n = [], 0
    while n < N:
        s = min(sizes[len(out) % len(sizes)], N - n)
        x, exc = call(model.sample, s)
        if exc or not isinstance(x, np.ndarray) or x.ndim != 2 or len(x) != s:
            return x, exc
        out.append(x)
        n += s
    return np.concatenate(out), ""


def moments(seed, sizes=(N,)):
    rng = np.random.default_rng(seed)
    own = seed % 3 == 0
    b = structure(rng)
    k, m = b.shape
    if own:  # random parameters, rounded to thousandths
        model = smp.mcm(rng=np.random.default_rng(seed), biadj=b)
        p = model.parameters
        w, d, mean = (np.asarray(a).round(3) for a in (p.biadj_weights, p.error_variances, p.error_means))
        p.biadj_weights, p.error_variances, p.error_means = w, d, mean
    else:
        w = np.where(b, rng.integers(2, 9, b.shape) * rng.choice((-1, 1), b.shape), 0) / 4
        d = rng.integers(0 if seed % 3 == 1 else 1, 9, m) / 4
        d[(np.abs(w).sum(0) == 0) & (d == 0)] = 1
        mean = rng.integers(-8, 9, m) / 4
        model = given(rng, b, np.random.default_rng(seed), w, d, mean)
    before = state(model)
    x, exc = several(model, sizes)
    ev = line("moments", exc, m=m, w=[[fx(t, 1000) for t in r] for r in w], d=[fx(t, 1000) for t in d],
              m1=[], m2=[], sd=[], q=[], lag=[], sq=[], cost=20)
    if not exc:
        ev["shape"] = isinstance(x, np.ndarray) and x.shape == (N, m)
        ev["kept"] = state(model) == before
        if ev["shape"]:
            y = x - mean
            var = (w**2).sum(0) + d
            z = y / np.sqrt(var)
            th = lambda v: fx(v, 1000)
            ev["m1"] = [th(v) for v in y.mean(0)]
            ev["m2"] = [[th(v) for v in r] for r in y.T @ y / N]
            ev["sd"] = [th(v) for v in np.sqrt(var)]
            ev["q"] = [[int((abs(c) <= 0.67449).sum()), int((abs(c) <= 1.959964).sum())] for c in z.T]
            ev["lag"] = [[th(v) for v in r] for r in y[1:].T @ y[:-1] / N]
            ev["sq"] = [[i + 1, j + 1, th(((z[:, i] ** 2 - 1) * (z[:, j] ** 2 - 1)).mean())]
                        for i in range(m) for j in range(i) ]
    return [ev]


def run(item):
    return {"exact": exact, "moments": moments, "fresh": fresh}[item[0]](*item[1:])


def main(d):
    k = 1 if d.quick else 12
    off = 10**6 * d.seed
    sizes = [(1,), (2,), (3,), (5,), (1, 2, 3), (40,), (1000,), (7000, 1)]
    d.pmap(run, [("moments", off + 5000 + i, sizes[i % 8]) for i in range(24 * k)]
           + [("exact", off + i) for i in range(300 * k)] + [("moments", off + i) for i in range(90 * k)]
           + [("fresh", off + i) for i in range(30 * k)], chunk=3)
