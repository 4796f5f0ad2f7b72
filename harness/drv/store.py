"""C18, C24: what neural fits depend on, store and leave behind when failing."""
import os
import pickle
import re
import shutil
import tempfile
import warnings

import numpy as np
import torch

from dlib import call, digest, forked
from drv.neural import Injected, Recorder, history_of, new, rng_kept
from medil import sample as smp

warnings.simplefilter("ignore")
NAMES = {"model": "model_recon.pt", "loss": "loss_recon.pkl", "error": "error_recon.pkl"}
SETS = {
    1: ({"num_epochs": 2, "batch_size": 8}, None),
    2: ({"num_epochs": 1, "batch_size": 64, "num_hidden_layers": 0, "width_per_meas": 2}, None),
    3: ({"num_epochs": 3, "batch_size": 5, "num_hidden_layers": 2}, (range(0, 12), range(12, 20))),
    4: ({"num_epochs": 2, "batch_size": 7, "lr": 0.05, "beta": 0.5, "lambda": 0.1, "mu": 0.2},
        (range(19, 3, -1), range(0, 3))),
    5: ({"num_epochs": 24, "batch_size": 64, "width_per_meas": 3}, None),
}
DEFAULTS = {"num_epochs": 2, "batch_size": 128, "num_hidden_layers": 1, "width_per_meas": 1,
            "lr": 0.005, "beta": 1, "lambda": 0.01, "mu": 0.01}


def data_of(seed, x):
    r = np.random.default_rng([seed, x])
    return r.standard_normal((20, 2 + x)) @ r.standard_normal((2 + x, 2 + x))


def computes(net, m):
    """What a network computes on some input, in evaluation and in training."""
    if net is None:
        return "none"
    x = torch.tensor(np.random.default_rng(3).standard_normal((6, m)).astype(np.float32))
    with rng_kept(), torch.no_grad():
        was = net.training
        out = []
        for mode in (False, True):
            net.train(mode)
            torch.manual_seed(4)
            out.append(digest(*[o.numpy() for o in net(x)]))
        net.train(was)
    return digest(*out)


def mem_of(model):
    p = model.parameters
    net = getattr(p, "vae", None)
    d = {"net": "none" if net is None else digest({k: v.numpy() for k, v in net.state_dict().items()},
                                                  computes(net, _inputs(net))),
         "weights": "none", "loss": "none"}
    w = getattr(p, "weights", None)
    if w is not None:
        d["weights"] = digest(np.asarray(w, float))
    if model.loss is not None:
        d["loss"] = digest(history_of(model.loss))
    return d


def _inputs(net):
    return next(mod.in_features for mod in net.modules() if hasattr(mod, "in_features"))


def use(model, key_set):
    settings, split = SETS[key_set]
    model.hyperparams.update({**DEFAULTS, **settings})
    return None if split is None else ([*split[0]], [*split[1]])


def reference(args):
    """A fit in a process where nothing else happened."""
    seed, s, x, data_seed, scratch = args
    with tempfile.TemporaryDirectory(dir=scratch) as path:
        m = new(os.path.join(path, "r"), seed=seed)
        split = use(m, s)
        _, exc = call(m.fit, data_of(data_seed, x), **({} if split is None else {"split_idcs": split}), seconds=100)
        return None if exc else mem_of(m)


def tree(root):
    out = {}
    for base, _, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def tokens(text):
    out = []
    for line in text.splitlines():
        t = re.sub(r"^[-\d]+ [:\d]+ ", "", line).lower()
        if not t.strip():
            continue
        nums = re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?|[-+]?inf|nan", t)
        k = ("parameters" if "parameter" in t else "validated" if "valid" in t and "finish" in t
             else "trained" if "train" in t and "finish" in t else "training" if "train" in t else "other")
        n = int(float(nums[0])) if nums and k != "validated" else -1
        out.append({"k": k, "n": n, "v": f"{float(nums[-1]):.3g}" if nums else ""})
    return out


class World:
    def __init__(self, root, data_seed):
        self.root, self.data_seed = root, data_seed
        self.objs, self.where, self.seeds, self.mem = {}, {}, {}, {}

    def path(self, d, form):
        return {1: f"{d}", 2: f"{d}/", 3: os.path.join(self.root, f"{d}"), 4: os.path.join(self.root, f"{d}", "")}[form]

    def new(self, op):
        before = tree(self.root)
        m = new(self.path(op["dir"], op["form"]), seed=op["seed"])
        after = tree(self.root)
        self.objs[op["o"]], self.where[op["o"]], self.seeds[op["o"]] = m, op["dir"], op["seed"]
        m.verbose = op["form"] == 1
        self.mem[op["o"]] = mem_of(m)
        return {"e": "new", "o": op["o"], "dir": op["dir"], "mem": self.mem[op["o"]],
                "quiet": all(after.get(k) == v for k, v in before.items())}

    def fit(self, op):
        o, m = op["o"], self.objs[op["o"]]
        d = os.path.join(self.root, str(self.where[o]))
        logf = os.path.join(d, "training.log")
        split = use(m, op["set"])
        data = data_of(self.data_seed, op["data"])
        at, k = op["at"], op["k"]
        rest = f"{op['set']}|{op['data']}"
        if at == "split":
            split = ([0, 1, 2, 3], [4, 5, len(data) + 7])
            rest += "|split"
        elif at == "empty":
            split = ([0, 1, 2, 3], [])
            rest += "|empty"
        before = tree(self.root)
        others = {x: v for x, v in self.mem.items() if x != o}
        side = tempfile.mkdtemp(dir=os.path.dirname(self.root))
        target = {"log": logf, "file": os.path.join(d, list(NAMES.values())[(k - 1) % 3])}.get(at)
        fired = []

        def obstruct():
            if os.path.isfile(target):
                shutil.move(target, os.path.join(side, "kept"))
            os.mkdir(target)

        def hook(kind, count):
            if at in ("forward", "interrupt") and kind == "forward" or at == "step" and kind == "step":
                if count == k:
                    fired.append("train")
                    raise (KeyboardInterrupt if at == "interrupt" else Injected)()
            if at == "log" and kind == "forward" and count == k:
                obstruct()

        if at == "file":
            obstruct()
        try:
            with Recorder(before=hook):
                r, exc = call(m.fit, data, **({} if split is None else {"split_idcs": split}), seconds=100)
        except KeyboardInterrupt:
            r, exc = None, "KeyboardInterrupt"
        if target and os.path.isdir(target):
            if at == "file":
                fired.append("write")
            elif exc:
                fired.append("train")
            os.rmdir(target)
            if os.path.exists(os.path.join(side, "kept")):
                shutil.move(os.path.join(side, "kept"), target)
        shutil.rmtree(side)
        after = tree(self.root)
        rel = lambda n: f"{self.where[o]}/{n}"
        log = lambda t: t.get(rel("training.log"), b"").decode()
        self.mem[o] = mem_of(m)
        ev = {"e": "fit", "o": o, "key": f"{self.seeds[o]}|{rest}", "rest": rest, "exc": exc,
              "fired": fired[0] if fired else "", "natural": at in ("split", "empty"),
              "mem": self.mem[o], "log": tokens(log(after)), "grown": log(after).startswith(log(before)),
              "disk": {k: digest(after[rel(n)]) if rel(n) in after else "none" for k, n in NAMES.items()},
              "files": sorted(after), "epochs": SETS[op["set"]][0]["num_epochs"],
              "others": all(mem_of(self.objs[x]) == v for x, v in others.items()),
              "saved": {"net": "", "loss": "", "error": ""}, "kept": {"net": "", "loss": "", "error": ""},
              "nparams": 0, "values": []}
        if not exc and not fired:
            net = m.parameters.vae
            ls = {k: np.asarray(v, float) for k, v in m.loss.items()}
            ev["nparams"] = sum(p.numel() for p in net.parameters() if p.requires_grad)
            ev["values"] = [[f"{a:.3g}", f"{b:.3g}"] for a, b in zip(ls["elbo_train"], ls["elbo_valid"])]
            ev["kept"] = {"net": computes(net, data.shape[1]),
                          "loss": digest([ls["elbo_train"].tolist(), ls["elbo_valid"].tolist()]),
                          "error": digest([ls["recon_train"].tolist(), ls["recon_valid"].tolist()])}
            ev["saved"] = self.load(d, data.shape[1])
        return ev

    @staticmethod
    def load(d, m):
        def one(fn):
            try:
                return fn()
            except Exception as e:
                return type(e).__name__

        def pkl(name):
            with open(os.path.join(d, name), "rb") as h:
                return digest([np.asarray(v, float).tolist() for v in pickle.load(h)])

        return {"net": one(lambda: computes(torch.load(os.path.join(d, NAMES["model"]), weights_only=False), m)),
                "loss": one(lambda: pkl(NAMES["loss"])), "error": one(lambda: pkl(NAMES["error"]))}


def noise(x, scratch, data_seed):
    if x == 1:
        torch.manual_seed(5)
    elif x == 2:
        np.random.seed(5)
    elif x == 3:
        torch.rand(7)
        np.random.rand(5)
    elif x == 4:
        with tempfile.TemporaryDirectory(dir=scratch) as p:
            m = new(os.path.join(p, "n"), seed=3, num_epochs=1)
            call(m.fit, data_of(data_seed, 2))
    else:
        smp.mcm(num_meas=4, density=0.3).sample(5)


def session(item):
    scn, seed, scratch = item
    here = os.getcwd()
    lines = [{"e": "start"}]
    with tempfile.TemporaryDirectory(dir=scratch) as top:
        root = os.path.join(os.path.realpath(top), "root")
        os.mkdir(root)
        os.chdir(root)
        try:
            w = World(root, seed)
            for key, mem in REFS.items():
                if mem is not None:
                    lines.append({"e": "ref", "key": key, "rest": key.split("|", 1)[1], "mem": mem})
            for op in scn:
                if op["op"] == "new":
                    lines.append(w.new(op))
                elif op["op"] == "fit":
                    lines.append(w.fit(op))
                elif op["op"] == "seed":
                    w.objs[op["o"]].seed = w.seeds[op["o"]] = op["seed"]
                else:
                    noise(op["x"], top, seed)
        finally:
            os.chdir(here)
    return lines


REFS = {}


def main(d):
    todo = [(s, e, x, d.seed, d.scratch) for s in (0, 1, 7) for e in SETS for x in (1, 2)]
    for a in todo:
        REFS[f"{a[0]}|{a[1]}|{a[2]}"] = forked(reference, a)
    d.pmap(session, [(scn, d.seed, d.scratch) for scn in d.scenarios], chunk=2)
