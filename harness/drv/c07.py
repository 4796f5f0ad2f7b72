"""C07: random parameters of Gaussian models."""
import numpy as np

from dlib import call, fx, random_1pc, rows
from medil import sample


def line(e, exc):
    return {"e": e, "exc": exc, "isgiven": False, "given": [], "rows": [], "m": 0, "shape": True,
            "asked": {"n": 0, "k": 0}, "unchanged": True, "offzero": True, "w": [], "var": [],
            "mean": []}


def model(rng, seed, big=False):
    """One random model; returns its line."""
    kind = int(rng.integers(6)) if not big else 6 + int(rng.integers(2))
    gen = np.random.default_rng(seed)
    if kind in (5, 6):
        n = int(rng.integers(2, 8)) if kind == 5 else int(rng.integers(30, 41))
        kw, k = {"num_meas": n}, 0
        if rng.random() < 0.7:
            kw["density"] = float(rng.choice([0, 0.2, 0.5, 1]))
        if rng.random() < 0.4:
            kw["one_pure_child"] = big
        elif rng.random() < 0.5:
            k = kw["num_latent"] = int(rng.integers(1, n))
        m, exc = call(sample.mcm, rng=gen, **kw)
        ev = line("model", exc)
        ev["asked"] = {"n": n, "k": k}
        given = before = None
    else:
        n, k = int(rng.integers(1, 9)), int(rng.integers(1, 6))
        if big:
            n, k = int(rng.integers(30, 71)), int(rng.integers(10, 31))
        if kind == 0:
            b = random_1pc(rng, max(n, k), k, 0.4)
        elif kind == 1:  # any 0/1 matrix, even with childless latents and orphans
            b = rng.random((k, n)) < rng.random()
        else:
            b = rng.random((k, n)) < 0.5
            b[rng.integers(k), rng.integers(n)] = True
        given = b.astype([bool, int, bool, np.int8, np.uint8][kind % 5])
        if rng.random() < 0.3:
            given = np.asfortranarray(given)
        before = given.copy()
        kw = {"parameterization": "Gaussian"} if rng.random() < 0.5 else {}
        m, exc = call(sample.mcm, rng=gen, biadj=given, **kw)
        ev = line("model", exc)
        ev["asked"] = {"n": b.shape[1], "k": len(b)}
        ev["isgiven"], ev["given"] = True, rows(b)
    if exc:
        return ev
    if given is not None:
        ev["unchanged"] = given.dtype == before.dtype and bool((given == before).all())
    b = np.asarray(m.biadj)
    p = m.parameters
    w = np.asarray(p.biadj_weights, float)
    ev["shape"] = b.ndim == 2 and w.shape == b.shape and np.ndim(p.error_means) == 1 \
        and np.ndim(p.error_variances) == 1 and bool(np.isin(b, (0, 1)).all())
    if ev["shape"]:
        ev["rows"], ev["m"] = rows(b), int(b.shape[1])
        ev["offzero"] = bool((w[~b.astype(bool)] == 0).all())
        ev["w"] = [[fx(x) for x in r] for r in w]
        ev["var"] = [fx(x) for x in p.error_variances]
        ev["mean"] = [fx(x) for x in p.error_means]
    return ev


def again(rng, seed):
    m = int(rng.integers(1, 7))
    b = rng.random((int(rng.integers(1, 5)), m)) < 0.6
    b[0, 0] = True
    gen = np.random.default_rng(seed)
    ev = {"e": "again", "exc": "", "shape": True, "w": [], "var": [], "mean": [], "cost": 200}
    for _ in range(64):
        q, ev["exc"] = call(sample.mcm, rng=gen, biadj=b)
        if ev["exc"]:
            return ev
        p = q.parameters
        w = np.asarray(p.biadj_weights, float)
        if w.shape != b.shape or np.shape(p.error_variances) != (m,) or np.shape(p.error_means) != (m,):
            ev["shape"] = False
            return ev
        ev["w"].append([fx(x) for x in w[b]])
        ev["var"].append([fx(x) for x in p.error_variances])
        ev["mean"].append([fx(x) for x in p.error_means])
    return ev


def session(item):
    seed, count = item
    rng = np.random.default_rng(seed)
    events = [model(rng, seed * 1000 + i) for i in range(count)]
    events.append(again(rng, seed))
    events.append(model(rng, seed * 1000 + count, True))
    b = random_1pc(rng, 4, 2, 0.5)
    for e, name in (("vae", "VAE"), ("unknown", ["", "gaussian", "NCFA", "Vae"][seed % 4])):
        for kw in ({"biadj": b}, {"num_meas": 4}):
            _, exc = call(sample.mcm, rng=np.random.default_rng(seed), parameterization=name, **kw)
            events.append(line(e, exc))
    events.append(line("signs", ""))
    return events


def main(d):
    d.pmap(session, [(d.seed * 100000 + i, 60) for i in range(16 if d.quick else 200)], chunk=1)
