"""C09: generators.  Every history is executed interleaved, then each stream
by itself, in processes of their own (forked from one that did nothing but
import), so that default generators are fresh."""
import os
import warnings

import numpy as np
import torch

from dlib import call, digest, forked, random_1pc
from medil import sample as smp
from medil.models import DevMedil, NeuroCausalFactorAnalysis

warnings.simplefilter("ignore")
torch.set_num_threads(1)
DATA = np.random.default_rng(99).standard_normal((40, 3)) @ np.array([[1, 0.7, 0], [0, 1, 0.5], [0, 0, 1.0]])
B = {1: random_1pc(np.random.default_rng(7), 6, 3, 0.5), 2: random_1pc(np.random.default_rng(8), 5, 2, 0.5)}


def params(m):
    p = m.parameters
    return digest(np.asarray(m.biadj, float), p.biadj_weights, p.error_means, p.error_variances)


class Stream:
    def __init__(self, gen):
        self.gen = gen
        self.model = self.dev = None

    def do(self, op, x):
        g = {} if self.gen is None else {"rng": self.gen}
        if op == "structure":
            r = smp.biadj(24, density=0.5, num_latent=8, **g)
            return digest(r.astype(float)), False
        if op == "structure2":
            r = smp.biadj(6 + x, density=0.3, **g)
            return digest(r.astype(float)), True
        if op == "general":
            r = smp.biadj(5, density=0.5, one_pure_child=False, **g)
            return digest(r.astype(float)), True
        if op == "model":
            self.model = smp.mcm(num_meas=5 + x, density=0.4, **g)
            return params(self.model), False
        if op == "modelof":
            self.model = smp.mcm(biadj=B[x], **g)
            return params(self.model), False
        if op == "sample":
            return digest(self.model.sample(3 * x)), False
        if op in ("fitmle", "fitlse"):
            self.dev = DevMedil(**g)
            # fits of two of the columns, as they take a while
            self.dev.fit(DATA[:, x - 1 : x + 1], method=op[3:])
            self.method = op[3:]
            return digest(self.dev.W_hat, self.dev.D_hat), False
        if op == "devsample":
            return digest(self.dev.sample(2 * x, method=self.method)), False


def noise(op, i, scratch):
    if op == "npseed":
        np.random.seed(i)
    elif op == "npdraw":
        np.random.rand(3)
    elif op == "torchseed":
        torch.manual_seed(i)
    elif op == "torchdraw":
        torch.rand(2)
    elif op == "newgen":
        g = np.random.default_rng(1)
        smp.mcm(rng=g, num_meas=4)
        g.random(5)
    elif op == "neural":
        n = NeuroCausalFactorAnalysis(path=os.path.join(scratch, f"n{os.getpid()}"), seed=i)
        n.hyperparams["num_epochs"] = 1
        n.fit(DATA)


def process(scn, only, seeds, scratch):
    """Executes a history, or one stream's part of it; returns its lines."""
    streams = {"0": Stream(None)}
    for s in ("1", "2"):
        streams[s] = Stream(np.random.default_rng(seeds[s]))
    out = [{"e": "process"}]
    np.random.seed(1 if only else 0)
    for i, st in enumerate(scn):
        s = str(st["s"])
        if st["op"] == "seeds":
            continue
        if s == "9":
            if only is None:
                call(noise, st["op"], i, scratch, seconds=60)
            continue
        if only is not None and s != only:
            continue
        a = digest(np.random.get_state()[1], np.random.get_state()[2])
        t = torch.get_rng_state().numpy().copy()
        r, exc = call(streams[s].do, st["op"], st["x"], seconds=60)
        out.append({"e": "op", "s": s, "op": st["op"], "x": st["x"], "exc": exc,
                    "dig": r[0] if r else "", "discrete": r[1] if r else True,
                    "nokeep": s == "0",
                    "np": digest(np.random.get_state()[1], np.random.get_state()[2]) == a,
                    "torch": bool((torch.get_rng_state().numpy() == t).all())})
    return out


def session(item):
    scn, scratch = item
    seeds = {"1": scn[0]["x"], "2": scn[0]["y"]}
    lines = [{"e": "session", "seeds": seeds}]
    used = sorted({str(s["s"]) for s in scn[1:]} - {"9"})
    for only in [None, *used]:
        lines += forked(process, scn, only, seeds, scratch)
    return lines


def main(d):
    d.pmap(session, [(s, d.scratch) for s in d.scenarios], chunk=1)
