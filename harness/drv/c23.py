"""C23: the training objective."""
import os
import tempfile

import numpy as np
import torch

from dlib import call, fx
from drv.neural import Recorder, new

T = 10**4


def tab(t):
    return [[fx(v, T) for v in r] for r in np.asarray(t.detach().double().numpy())]


def fit(path, data, split, seed, **settings):
    """One fit with learning rate 0; returns its passes per epoch, losses and
    first covariance layer."""
    model = new(path, seed=seed, lr=0.0, **settings)
    passes = []
    with Recorder() as rec:
        _, exc = call(model.fit, data, split_idcs=split, seconds=100)
    if exc:
        return None, exc
    todo = list(rec.events)
    for i, ev in enumerate(todo):
        if ev[0] != "forward":
            continue
        recon, logcov, mu, lv = (o.detach().double() for o in ev[3])
        passes.append(({"x": tab(ev[2]), "recon": tab(recon), "cov": tab(logcov.exp()), "mu": tab(mu),
                        "lv": tab(lv), "ev": tab(lv.exp())},
                       i + 1 < len(todo) and todo[i + 1][0] == "step"))
    epochs = [([], [])]
    for p, trained in passes:
        if trained and epochs[-1][1]:
            epochs.append(([], []))
        epochs[-1][0 if trained else 1].append(p)
    return (model, epochs), ""


def extreme(p):
    a = {k: np.abs(np.array(v, float).reshape(len(v), -1)) / T for k, v in p.items()}
    var = a["cov"].mean(0)
    d = np.abs(np.array(p["x"], float) - np.array(p["recon"], float)) / T
    terms = (d**2 / np.maximum(var, 1e-4)).sum() + var.prod() * len(d) + a["ev"].sum() + (a["mu"] ** 2).sum()
    return bool(terms > 4e4 or max(v.max() for v in a.values()) > 2e4 or d.max() > 40
                or a["mu"].max() > 40 or var.min() < 5e-3 or var.max() > 2000
                or np.cumprod(var[::-1]).max() > 2000)


def session(item):
    seed, scratch = item
    rng = np.random.default_rng(seed)
    m = int(rng.integers(1, 4))
    width = 1 if m > 1 else int(rng.integers(1, 3))
    n = int(rng.integers(4, 11))
    # data that is not standardized also makes extreme encodings
    data = rng.standard_normal((n, m)) @ (np.eye(m) + 0.3) * rng.choice((1, 1, 4, 8, 14))
    batch = int(rng.integers(1, 6))
    if seed % 10 == 3:  # large batches
        n, batch = int(rng.integers(80, 200)), int(rng.integers(70, 129))
        data = (rng.standard_normal((n, m)) @ (np.eye(m) + 0.3) * rng.choice((1, 4)))
        data = data[data[:, 0].argsort()]
    p = rng.permutation(n) if seed % 10 != 3 else np.arange(n)
    k = int(rng.integers(1, n)) if seed % 10 != 3 else int(rng.integers(70, n))
    split = None if rng.random() < 0.5 else (p[:k], p[k:])
    base = {"batch_size": batch, "num_epochs": int(rng.integers(1, 3)),
            "width_per_meas": width, "num_hidden_layers": int(rng.integers(0, 2))}
    lines = []
    with tempfile.TemporaryDirectory(dir=scratch) as path:
        run = lambda i, **kw: fit(os.path.join(path, f"f{i}"), data, split, seed % 7, **base, **kw)
        plain, e0 = run(0, beta=0, mu=0, **{"lambda": 0})
        one, e1 = run(1, beta=0, mu=0, **{"lambda": 1})
        nuc = 0.0
        if not (e0 or e1):
            # the norm is divided by the sizes of the batches
            sizes = [len(b["x"]) for b in plain[1][0][0]]
            nuc = (one[0].loss["elbo_train"][0] - plain[0].loss["elbo_train"][0]) / np.mean([1 / s for s in sizes])
        for i in range(3):
            beta, la, mu = [(0, 0, 0), (100, 1, 1), (int(rng.integers(1, 400)), int(rng.integers(0, 200)), int(rng.integers(0, 200)))][i]
            got, exc = run(2 + i, beta=beta / 100, mu=mu / 100, **{"lambda": la / 100})
            exc = exc or e0 or e1
            if exc:
                lines.append({"e": "epoch", "exc": exc})
                continue
            model, epochs = got
            w = np.asarray(model.parameters.weights, float)
            w = w if w.shape[0] <= w.shape[1] else w.T
            for j, (train, valid) in enumerate(epochs):
                if any(extreme(b) for b in train + valid):
                    continue  # too large for the arithmetic of the checker
                lines.append({"e": "epoch", "exc": exc, "m": m, "beta": beta, "lambda": la, "mu": mu,
                              "train": train, "valid": valid, "lt": fx(model.loss["elbo_train"][j], T),
                              "lv": fx(model.loss["elbo_valid"][j], T),
                              "et": fx(model.loss["recon_train"][j], T), "ev": fx(model.loss["recon_valid"][j], T),
                              "nuc": fx(nuc, T),
                              "w": [[fx(v, T) for v in r] for r in w], "cost": 4})
    return lines


def main(d):
    off = d.seed * 10**6
    d.pmap(session, [(off + i, d.scratch) for i in range(80 if d.quick else 1500)], chunk=1)
