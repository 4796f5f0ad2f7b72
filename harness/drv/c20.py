"""C20: DevMedil."""
import warnings

import numpy as np

from dlib import call, digest, fx, ints
from medil.models import DevMedil

warnings.simplefilter("ignore")
T = 10**4


def probe(model, method):
    """What a sample by the method is, whatever the model's generator did."""
    saved = model.rng
    model.rng = np.random.default_rng(17)
    r, exc = call(model.sample, 3, method=method)
    model.rng = saved
    return exc or digest(r)


def probes(models):
    return {str(o): {k: probe(models[o], k) for k in ("mle", "lse")} for o in models}


def history(scn, seed, wide=0):
    rng = np.random.default_rng(seed)
    lines = [{"e": "pen", "op": "start"}]
    m = wide or int(rng.integers(2, 4))
    data = []
    for _ in range(3):
        x = rng.integers(-4, 5, (int(rng.integers(8, 20)), m)) / 2
        x[:, 1:] += x[:, :1] * rng.integers(-1, 2, m - 1)
        data.append(x)
    copies = [x.copy() for x in data]
    onepc = {1: bool(rng.integers(2)), 2: bool(rng.integers(2))}
    if wide:
        onepc = {1: False, 2: wide % 2 == 0}
    models = {}
    for o in (1, 2):
        kw = {} if onepc[o] and rng.random() < 0.5 else {"one_pure_child": onepc[o]}
        models[o] = DevMedil(rng=np.random.default_rng(seed + o), **kw)
    for i, st in enumerate(scn):
        o, x, method = st["o"], st["x"], st["method"]
        model = models[o]
        ev = {"e": "pen", "op": st["op"], "o": str(o), "method": method, "x": x, "m": m, "exc": "", "cost": 2}
        if st["op"] == "fit":
            kw = {} if i % 2 else {"lambda_reg": 0.2, "mu_reg": 0.05}
            if method == "mle" and i % 3 == 0:
                r, ev["exc"] = call(model.fit, data[x - 1], **kw)
            else:
                r, ev["exc"] = call(model.fit, data[x - 1], method, **kw)
            if not ev["exc"]:
                w, dd = np.asarray(model.W_hat), np.asarray(model.D_hat)
                ok = w.ndim == 2 and w.shape[1] == m and dd.shape == (m, m)
                ev.update(self=r is model, k=int(len(w)) if ok else -1, onepc=onepc[o],
                          diag=bool(ok and (dd == np.diag(np.diag(dd))).all()),
                          kept=all(bool((a == b).all()) for a, b in zip(data, copies)),
                          moments=False)
                if ok and abs(w).max() < 8 and dd.max() < 30 and i < 4:
                    saved, model.rng = model.rng, np.random.default_rng(seed)
                    y, ev["exc"] = call(model.sample, 40000, method=method)
                    model.rng = saved
                    if not ev["exc"] and y.shape == (40000, m):
                        th = lambda v: fx(v, 1000)
                        ev.update(moments=True, w=[[th(v) for v in r] for r in w],
                                  d=[th(v) for v in np.diag(dd)], m1=[th(v) for v in y.mean(0)],
                                  m2=[[th(v) for v in r] for r in y.T @ y / len(y)])
        elif st["op"] == "sample":
            if method == "mle" and i % 2:
                r, ev["exc"] = call(model.sample, 4)
            else:
                r, ev["exc"] = call(model.sample, 4, method=method)
            ev["shape"] = isinstance(r, np.ndarray) and r.shape == (4, m)
        else:
            f = model.validation_mle if method == "mle" else model.validation_lse
            _, ev["exc"] = call(f, 0.1, 0.2, data[x - 1])
        ev["probe"] = probes(models)
        lines.append(ev)
    return lines


def loss(seed):
    rng = np.random.default_rng(seed)
    method = ["mle", "lse"][seed % 2]
    while True:
        u = int([1, 2][rng.integers(2)])
        m = 2 if method == "mle" or rng.random() < 0.5 else 3
        k = int(rng.integers(1, 3)) if m == 2 else 1
        w = rng.integers(-4, 5, (k, m))
        d = rng.integers(1, 9, m)
        det = round(np.linalg.det(w.T @ w + np.diag(d)))
        if method == "lse" or (det & (det - 1)) == 0:
            break
    n = int(rng.integers(4, 9))
    x = rng.integers(-3, 4, (n, m))
    data = x / u
    copy = data.copy()
    # a model that was fit, with other estimates
    model = DevMedil(rng=np.random.default_rng(seed))
    for suffix in ("", "_mle", "_lse"):
        setattr(model, "W_hat" + suffix, w / u)
        setattr(model, "D_hat" + suffix, np.diag(d / u**2))
    before = digest(model.W_hat, model.D_hat)
    f = model.validation_mle if method == "mle" else model.validation_lse
    ev = {"e": "pen", "op": "loss", "method": method, "u": u, "m": m, "w": w.tolist(), "d": d.tolist(),
          "x": ints(x.T), "log": int(det).bit_length() - 1, "exc": "", "cost": 1}
    for name, la, mu in (("v0", 0, 0), ("vl", 1, 0), ("vm", 0, 1), ("vb", 2, 3)):
        r, exc = call(f, la, mu, data)
        ev["exc"] = ev["exc"] or exc
        ev[name] = fx(r, T) if not exc else 0
    ev["kept"] = bool((data == copy).all()) and digest(model.W_hat, model.D_hat) == before
    return [{"e": "pen", "op": "start"}, ev]


def run(item):
    return history(*item[1:]) if item[0] == "h" else loss(item[1])


def main(d):
    off = d.seed * 10**6
    items = [("h", s, off + i) for i, s in enumerate(d.scenarios)]
    for i in range(3 if d.quick else 9):  # more measurements
        fits = [{"op": "fit", "o": 1 + (j + i) % 2, "x": 1 + j, "method": ["mle", "lse"][j]} for j in (0, 1)]
        items = [("h", fits, off + i, 5 + i % 3)] + items
    items += [("l", off + i) for i in range(400 if d.quick else 4000)]
    d.pmap(run, items, chunk=4)
