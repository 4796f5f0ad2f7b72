"""Recording what happens while a neural model is fit, without referring to
how the fitting is written: global hooks on modules and optimizers."""
import contextlib
import os
import warnings

import numpy as np
import torch
from torch.nn.modules import module as tm
from torch.optim import optimizer as to

from dlib import digest

warnings.simplefilter("ignore")
torch.set_num_threads(1)
from medil.models import NeuroCausalFactorAnalysis as NCFA  # noqa: E402

SMALL = {"num_epochs": 2, "batch_size": 8}


def _warm_up():
    """Let torch do its late imports once, before workers are forked."""
    state = torch.get_rng_state()
    lin = torch.nn.Linear(1, 1)
    opt = torch.optim.AdamW(lin.parameters())
    sched = torch.optim.lr_scheduler.StepLR(opt, 1)
    lin(torch.ones(1, 1)).sum().backward()
    opt.step()
    sched.step()
    torch.set_rng_state(state)


_warm_up()


class Injected(Exception):
    pass


def params_digest(module):
    return digest(*[p.detach().cpu().numpy() for p in module.parameters()])


class Recorder:
    """Events of everything that runs inside the with block:
    ("forward", module, input, output) for calls of outermost modules, and
    ("step", optimizer).  before(kind, count) is called before each."""

    def __init__(self, before=None, after=None):
        self.events = []
        self.depth = 0
        self.before, self.after = before, after
        self.counts = {"forward": 0, "step": 0}
        self.muted = False

    def _pre(self, module, args):
        if self.muted:
            return
        if self.depth == 0:
            self.counts["forward"] += 1
            if self.before:
                self.before("forward", self.counts["forward"])
        self.depth += 1

    def _post(self, module, args, output):
        if self.muted:
            return
        self.depth -= 1
        if self.depth == 0:
            ev = ("forward", module, args[0].detach().clone(), output)
            self.events.append(ev)
            if self.after:
                self.muted = True
                try:
                    self.after(*ev)
                finally:
                    self.muted = False

    def _prestep(self, opt, args, kwargs):
        self.counts["step"] += 1
        if self.before:
            self.before("step", self.counts["step"])

    def _poststep(self, opt, args, kwargs):
        self.events.append(("step", opt))

    def __enter__(self):
        self.handles = [
            tm.register_module_forward_pre_hook(self._pre),
            tm.register_module_forward_hook(self._post),
            to.register_optimizer_step_pre_hook(self._prestep),
            to.register_optimizer_step_post_hook(self._poststep),
        ]
        return self

    def __exit__(self, *_):
        for h in self.handles:
            h.remove()


@contextlib.contextmanager
def rng_kept():
    t, n = torch.get_rng_state(), np.random.get_state()
    try:
        yield
    finally:
        torch.set_rng_state(t)
        np.random.set_state(n)


def is_random(module, x):
    """Does the module as it is give different outputs for the same input?
    (For this one or a moderate one: the variances encoded for outliers can be
    so small that nothing of the sampling is left.)"""
    with rng_kept(), torch.no_grad():
        torch.manual_seed(3)
        x = torch.cat([x, torch.randn(4, *x.shape[1:])])
        outs = []
        for s in (1, 2):
            torch.manual_seed(s)
            outs.append([o.clone() for o in module(x)])
    return any(not torch.equal(a.nan_to_num(), b.nan_to_num()) for a, b in zip(*outs))


def new(path, seed=0, **settings):
    m = NCFA(path=path, seed=seed)
    m.hyperparams.update({**SMALL, **settings})
    return m


def history_of(loss):
    return None if loss is None else {k: np.asarray(v, float).tolist() for k, v in loss.items()}


def files(path):
    """Contents of all files below a directory."""
    out = {}
    for base, _, names in os.walk(path):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as h:
                out[os.path.relpath(p, path)] = h.read()
    return out
