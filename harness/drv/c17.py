"""C17: the training protocol."""
import os
import tempfile

import numpy as np
import torch

from dlib import call
from drv.neural import Recorder, is_random, new, params_digest


def match(x, data):
    """For each row of x the number of the row of data it is, or 0."""
    out = []
    for r in np.asarray(x, float).reshape(len(x), -1):
        d = np.abs(data - r).max(1)
        i = int(d.argmin())
        out.append(i + 1 if d[i] < 1e-4 else 0)
    return out


def fit(model, data, split, n):
    raw = data.astype(np.float32).astype(float)
    std = (data - data.mean(0)) / data.std(0)
    events, prints = [], []
    state = {"last": None}

    def after(kind, module, x, out):
        rows, ok = match(x, std), True
        if 0 in rows:
            other = match(x, raw)
            if 0 not in other or other.count(0) < rows.count(0):
                rows, ok = other, False
        state["module"] = module
        state["digest"] = params_digest(module)
        events.append({"e": "batch", "rows": rows, "std": ok, "random": is_random(module, x),
                       "weights": state["digest"]})

    rec = Recorder(after=after)
    poststep = rec._poststep

    def step(opt, args, kwargs):
        events.append({"e": "step", "changed": params_digest(state["module"]) != state["digest"]
                       if "module" in state else False})

    rec._poststep = step
    copy = data.copy()
    with rec:
        if split is None:
            r, exc = call(model.fit, data, seconds=120)
        else:
            r, exc = call(model.fit, data, split_idcs=split, seconds=120)
    lens = [len(v) for v in model.loss.values()] if model.loss else []
    train, valid = [], []
    if split is not None:
        train, valid = ([int(i) + 1 for i in np.arange(n)[s]] for s in split)
    else:  # what the first epoch does
        seen, phase = [], "train"
        for i, ev in enumerate(events):
            if ev["e"] == "batch":
                stepped = i + 1 < len(events) and events[i + 1]["e"] == "step"
                if stepped and phase == "train":
                    train += ev["rows"]
                else:
                    if stepped:
                        break
                    phase = "valid"
                    valid += ev["rows"]
    return [{"e": "fit", "n": n, "b": int(model.hyperparams["batch_size"]),
             "epochs": int(model.hyperparams["num_epochs"]), "explicit": split is not None,
             "train": sorted(set(train)), "valid": sorted(set(valid)), "cost": 1}, *events,
            {"e": "end", "exc": exc, "lens": lens if lens else [0], "self": r is model,
             "kept": bool((data == copy).all())}]


def session(item):
    seed, kind, scratch = item
    rng = np.random.default_rng(seed)
    n, m = int(rng.integers(5, 60)), int(rng.integers(2, 5))
    if kind in ("long", "longest"):
        n = int(rng.integers(5, 12))
    elif kind == "large":
        n = int(rng.integers(700, 1500))
    elif kind == "huge":
        n = int(rng.integers(5100, 6000))
    elif kind == "outlier":
        n = int(rng.integers(30, 45))
    data = rng.standard_normal((n, m)) * (1 + np.arange(m)) + np.arange(m)
    data[:, 0] = rng.permutation(n) * 3.0 / n - 1  # no two rows alike, so that batches can be told apart
    if kind == "huge":  # not alike throughout
        data[-int(rng.integers(50, 400)):] *= 5
    if kind == "outlier":
        data[rng.integers(n)] *= 10.0 ** rng.uniform(1.5, 3)
    elif rng.random() < 0.3:
        data[rng.integers(n)] *= 10.0 ** rng.integers(1, 3)
    b = int(rng.choice([1, 3, 8, 16, 128])) if n < 25 else int(rng.choice([7, 16, 128]))
    with tempfile.TemporaryDirectory(dir=scratch) as path:
        model = new(os.path.join(path, "f"), seed=int(rng.integers(5)), batch_size=b,
                    num_epochs=int(rng.integers(1, 5)), num_hidden_layers=int(rng.integers(0, 3)),
                    width_per_meas=int(rng.integers(1, 3)))
        model.hyperparams["lr"] = float(rng.choice([0.0005, 0.005, 0.05]))
        if kind == "long":
            model.hyperparams.update(num_epochs=int(rng.integers(60, 130)), batch_size=int(rng.integers(3, 9)),
                                     lr=float(rng.choice([0.005, 0.05, 0.2])))
        elif kind == "longest":
            model.hyperparams.update(num_epochs=int(rng.integers(201, 260)), batch_size=8, lr=0.005)
        elif kind == "huge":
            model.hyperparams.update(num_epochs=1, batch_size=int(rng.choice([500, 2000])))
        elif kind == "outlier":
            model.hyperparams.update(num_epochs=3, batch_size=int(rng.integers(1, 3)), lr=0.0005)
        elif kind == "large":
            model.hyperparams.update(num_epochs=1, batch_size=int(rng.choice([64, 100, 128, 200, 300])))
        lines = []
        for i in range(2 if kind not in ("huge", "longest") else 1):
            split = None
            if kind == "outlier" or kind != "huge" and rng.random() < 0.5:
                p = rng.permutation(n)
                k = int(rng.integers(1, n)) if kind != "outlier" else n - 3
                a, v = p[:k], p[k : k + int(rng.integers(1, n - k + 1))]
                split = [(a, v), [a.tolist(), v.tolist()], (np.sort(a), np.sort(v))][rng.integers(3)]
            new_lines = fit(model, data, split, n)
            if "LinAlgError" in new_lines[-1]["exc"]:
                break  # training diverged, which is not what this is about
            lines += new_lines
            if i == 0:  # the next fit has other settings
                model.hyperparams["num_epochs"] = int(rng.integers(1, 4))
                model.hyperparams["batch_size"] = int(rng.integers(2, 20))
                model.seed = int(rng.integers(5))
    return lines


def main(d):
    off = d.seed * 10**6
    d.pmap(session, [(off + i, "huge" if i % 80 == 41 else "longest" if i % 80 == 7 else "large" if i % 20 == 1 else "long" if i % 10 == 3 else "outlier" if i % 10 == 5 else "", d.scratch)
                    for i in range(80 if d.quick else 1500)], chunk=1)
