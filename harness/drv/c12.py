"""C12: estimate_UDG()."""
import os
import time
import warnings

import numpy as np

from dlib import call, fx, ints, light_import

it = light_import("independence_testing")
warnings.simplefilter("ignore")
UNIT = 10**9


def linked(rng, n, m):
    """A sample with some dependences among its measurements."""
    k = max(1, m // 3)
    z = rng.standard_normal((n, k))
    x = rng.standard_normal((n, m))
    for j in range(m):
        if rng.random() < 0.7:
            w = z[:, rng.integers(k)]
            x[:, j] = 0.5 * x[:, j] + [w, w**2, np.sin(3 * w), -w][rng.integers(4)]
    if rng.random() < 0.3:
        x = x.round(1)  # ties
    return x


class Slow:
    """Delays in the worker processes, different for every task, and a given
    number of processors.  The delays sit in functions that the tests call,
    as far as these are there; results must not depend on them."""

    def __init__(self, cpus, delay, seed):
        self.cpus, self.delay, self.seed = cpus, delay, seed

    def __enter__(self):
        self.saved = [(os, "cpu_count", os.cpu_count)]
        os.cpu_count = lambda: self.cpus
        delay = self.delay
        if delay:
            t0 = time.time()

            def wrap(f):
                def slow(*a, **k):
                    x = np.asarray(a[0], float).ravel()
                    h = (abs(float(x[:3].sum())) * 977) % 1.0
                    # the earlier a task starts, the slower it is
                    time.sleep(delay * h * max(0.1, 1 - (time.time() - t0)))
                    return f(*a, **k)
                return slow

            for name in ("rankdata", "distance_correlation_t_test"):
                if hasattr(it, name):
                    self.saved.append((it, name, getattr(it, name)))
                    setattr(it, name, wrap(getattr(it, name)))

    def __exit__(self, *_):
        for o, name, v in self.saved:
            setattr(o, name, v)


def estimate(op, sample, method, level, cols=None, given=None):
    arg = given if given is not None else sample
    before = arg.copy()
    kw = {}
    if level is not None:
        kw["significance_level"] = level
    if given is not None:
        r, exc = call(it.estimate_UDG, sample, method=given, seconds=100, **kw)
    else:
        r, exc = call(it.estimate_UDG, sample, method=method, seconds=100, **kw)
    ev = {"e": op, "op": op, "method": method, "level": fx(0.05 if level is None else level, UNIT),
          "exc": exc, "udg": [], "p": [], "shape": False, "first": False, "unchanged": True,
          "cols": [int(c) + 1 for c in cols] if cols is not None else [], "pairs": [],
          "cost": sample.shape[1] ** 2}
    if exc:
        return ev
    udg, p = r
    m = sample.shape[1]
    same = bool(np.array_equal(before, arg, equal_nan=True))
    ev["unchanged"] = same
    ev["shape"] = isinstance(udg, np.ndarray) and udg.shape == (m, m) and udg.dtype == bool
    if ev["shape"]:
        ev["udg"] = ints(udg)
        if given is not None:
            p = given
        if p is not None:
            p = np.asarray(p, float)
            if p.shape != (m, m):
                ev["shape"] = False
            else:
                ev["p"] = [[fx(v, UNIT) for v in row] for row in p]
    return ev


def session(item):
    kind, seed, quick = item
    rng = np.random.default_rng(seed)
    events = []
    if kind == "given":
        m = int(rng.integers(1, 7))
        p = rng.random((m, m))
        p[rng.random((m, m)) < 0.4] *= 0.1
        p = (p * 10**4).round() / 10**4
        p = np.triu(p, 1)
        p = p + p.T
        if m > 2 and seed % 3 == 0:
            p[0, 1] = p[1, 0] = 0.05
            p[0, 2] = p[2, 0] = np.nan
        np.fill_diagonal(p, [0.0, 1.0, 0.5][seed % 3])
        if seed % 5 == 4:
            p = (p > 0.5).astype(int)
        sample = rng.random((5, m))
        levels = [0.01, None, 0.1, 0.2, 0.5, 0.0, 1.0]
        for i, a in enumerate([levels[j] for j in rng.permutation(7)[:4]]):
            events.append(estimate("given", sample, "given", a, given=p))
        events[0]["first"] = True
        return events
    method = {"xicor": "xicor", "dcor": "dcov_big", "fast": "dcov_fast"}[kind.split("-")[0]]
    big = kind.endswith("big")
    m = int(rng.integers(15, 18) if big else rng.integers(2, 8))
    if kind == "xicor-big" and seed % 2:
        m = 24
    wide = kind.endswith("wide")
    if wide:
        big, m = True, int(rng.integers(102, 120))
    n = int(rng.integers(20, 60) if method != "dcov_big" else rng.integers(8, 30))
    x = linked(rng, n, m)
    if seed % 6 == 5:
        x = (10 * x).round().astype([int, np.int32, np.float32, np.int16][seed // 6 % 4])
    if seed % 4 == 1:
        x = np.asfortranarray(x)
    cpus = int([1, 2, 3, 4, 8][seed % 5])
    delay = 0 if wide or method == "dcov_fast" or seed % 3 == 0 else (0.01 if big else 0.05)
    with Slow(cpus, delay, seed):
        events.append(estimate("whole", x, method, [None, 0.05, 0.2][seed % 3]))
    for a in (0.01, 0.3) if not big else (0.3,):
        with Slow(cpus, 0, seed):
            events.append(estimate("whole", x, method, a))
    events[0]["first"] = True
    # from here on, parts of it at the level of the last estimate
    level = a
    pairs = [(i, j) for i in range(m) for j in range(i + 1, m)]
    some = [pairs[i] for i in rng.permutation(len(pairs))[: (12 if quick else 60) if big else 10]]
    subsets = [list(c) for c in some]
    for _ in range(3):
        if m > 3:
            subsets.append(sorted(rng.permutation(m)[: rng.integers(3, m)].tolist()))
    for c in subsets:
        with Slow(int(rng.integers(1, 5)), 0.02 if len(c) > 4 and delay else 0, seed):
            events.append(estimate("part", np.ascontiguousarray(x[:, c]), method, level, cols=c))
    if wide:
        pairs = some
    if method == "xicor" and hasattr(it, "xicorr"):
        ev = dict(events[-1], e="direct", op="direct", pairs=[], cols=[], udg=[], p=[])
        for i, j in pairs:
            r, exc = call(it.xicorr, x[:, i], x[:, j])
            ev["exc"] = ev["exc"] or exc
            if not exc:
                ev["pairs"].append({"i": i + 1, "j": j + 1, "p": fx(r.pvalue, UNIT)})
        events.append(ev)
    return events


def main(d):
    k = 1 if d.quick else 10
    items = [("given", i, d.quick) for i in range(120 * k)]
    items += [("xicor-big", i, d.quick) for i in range(4 * k)]
    items += [("dcor-big", i, d.quick) for i in range(3 * k)]
    items += [("fast-big", i, d.quick) for i in range(4 * k)]
    items.insert(0, ("xicor-wide", 3, d.quick))
    if not d.quick:
        items += [("dcor-wide", 3, False), ("fast-wide", 3, False), ("xicor-wide", 5, False)]
    for kind, c in (("xicor", 14), ("dcor", 10), ("fast", 14)):
        items += [(kind, i, d.quick) for i in range(c * k)]
    off = 1000 * d.seed
    d.pmap(session, [(a, off + b, c) for a, b, c in items], chunk=1)
