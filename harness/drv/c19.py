"""C19: which weights of the decoder influence what, and are trained."""
import os
import tempfile
import warnings

import numpy as np
import torch

from dlib import call, digest, fx
from drv.neural import Recorder, new
from medil.vae import VariationalAutoencoder

warnings.simplefilter("ignore")
T = 10**4
Q = (-2, -1, 0, 1, 2)


def tensors(net):
    """All float tensors that can be reached from a network, registered or
    not, except for constants of zeros and ones (masks)."""
    found, seen, todo = [], set(), [net]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, torch.Tensor):
            if x.is_floating_point() and (isinstance(x, torch.nn.Parameter) or not ((x == 0) | (x == 1)).all()):
                found.append(x)
        elif isinstance(x, torch.nn.Module):
            todo += list(vars(x).values())
        elif isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple)):
            todo += list(x)
    return found


def influence(fn, t, probes):
    """|d out / d t|, largest over some inputs: array of outputs by entries."""
    best = None
    req = t.requires_grad
    t.requires_grad_(True)
    try:
        for p in probes:
            out = fn(p).reshape(-1)
            rows = []
            for o in out:
                g = torch.autograd.grad(o, t, retain_graph=True, allow_unused=True)[0] if o.requires_grad else None
                rows.append(np.zeros(t.numel()) if g is None else g.detach().abs().reshape(-1).numpy())
            r = np.array(rows)
            best = r if best is None else np.maximum(best, r)
    finally:
        t.requires_grad_(req)
    return best


def analyse(net, m, L, opt_ids, before):
    """The facts about a network after training (or None: not trained)."""
    rng = np.random.default_rng(0)
    was = net.training
    net.eval()
    zs = [torch.tensor(rng.standard_normal((1, L)).astype(np.float32)) for _ in range(3)]
    xs = [torch.tensor(rng.standard_normal((1, m)).astype(np.float32)) for _ in range(3)]
    dec = lambda z: torch.stack([o[0] for o in net.decoder(z)])  # 2 x m
    params = {id(p) for p in net.parameters()}
    infl, infos, frozen = set(), [], 0
    for t in tensors(net.decoder):
        r = influence(dec, t, zs).reshape(2, m, -1).max(0) > 0
        infl |= {tuple(int(j) + 1 for j in np.flatnonzero(c)) for c in r.T}
    for t in tensors(net):
        r = influence(lambda x: torch.cat([o.reshape(-1) for o in net(x)]), t, xs).max(0)
        if not (r > 0).any():
            continue
        moved = None
        if before is not None and id(t) in before:
            moved = (t.detach().numpy() != before[id(t)]).reshape(-1)
            frozen += int((~moved & (r > 1e-4)).sum())
        infos.append({"registered": id(t) in params, "optimized": opt_ids is None or id(t) in opt_ids,
                      "changed": moved is not None and bool(moved.any())})
    dep = np.zeros((2, m, L), bool)
    for z in zs:
        j = torch.autograd.functional.jacobian(dec, z)  # 2 x m x 1 x L
        dep |= (j.abs() > 0).numpy()[:, :, 0]
    net.train(was)
    lists = lambda a: [[int(i) + 1 for i in np.flatnonzero(r)] for r in a]
    return {"e": "net", "m": m, "L": L, "exc": "", "infl": [list(s) for s in sorted(infl)], "tensors": infos,
            "mean": lists(dep[0]), "var": lists(dep[1]), "frozen": frozen, "trained": before is not None,
            "cost": 1 + len(infl)}


def evaluate(net, x):
    was = net.training
    net.eval()
    outs = []
    with torch.no_grad():
        for s in (1, 2, None):
            if s:
                torch.manual_seed(s)
            outs.append(digest(*[o.numpy() for o in net(x)]))
    net.train(was)
    return {"e": "eval", "outs": outs}


def latents(net, m, n, size):
    """Latents of many equal rows, in batches of some size, standardized by the
    encoded moments."""
    was = net.training
    net.train()
    x = torch.tensor(np.random.default_rng(5).standard_normal((1, m)).astype(np.float32)).repeat(n, 1)
    got = []
    h = net.decoder.register_forward_pre_hook(lambda mod, a: got.append(a[0].detach().double().numpy()))
    x = x.to(next(net.parameters()).dtype)
    with torch.no_grad():
        _, _, mu, lv = (o.double().numpy() for o in net(x))
        net(x)
        first, again = got
        if size < n:
            del got[:]
            for i in range(0, n, size):
                net(x[i : i + size])
            first = np.concatenate(got)
    h.remove()
    net.train(was)
    z = (first - mu) / np.exp(lv / 2)
    c = np.corrcoef(z.T) if z.shape[1] > 1 else np.ones((1, 1))
    lag = [float((z[1:, i] * z[:-1, i]).mean()) for i in range(z.shape[1])]
    return {"e": "latent", "n": n, "mean": [fx(v, T) for v in z.mean(0)], "var": [fx(v, T) for v in z.var(0)],
            "below": [[fx((z[:, i] < q).mean(), T) for q in Q] for i in range(z.shape[1])],
            "corr": [fx(v, T) for v in c[np.triu_indices(len(c), 1)]] if len(c) > 1 else [0],
            "lag": [fx(v, T) for v in lag], "again": bool((first == again).any()),
            # of pairs at least, as single ones may coincide
            "distinct": len(np.unique(first, axis=0)) if z.shape[1] > 1 else n}


def own(item):
    """A network of any size, trained by a few steps."""
    (L, m, h, w), seed, n = item
    torch.manual_seed(seed)
    net = VariationalAutoencoder(L, m, h, w)
    with torch.no_grad():  # larger encoded means and variances
        for p in net.encoder.parameters():
            p.mul_(2)
    lines = [analyse(net, m, L, None, None)]
    x = torch.randn(12, m)
    lines.append(evaluate(net, x))
    before = {id(t): t.detach().numpy().copy() for t in tensors(net)}
    opt = torch.optim.AdamW(net.parameters(), lr=0.01)
    net.train()
    for _ in range(3):
        opt.zero_grad()
        sum((o * torch.linspace(1, 2, o.numel()).reshape(o.shape)).pow(2).sum() for o in net(x)).backward()
        opt.step()
    lines.append(analyse(net, m, L, {id(p) for g in opt.param_groups for p in g["params"]}, before))
    lines.append(evaluate(net, x))
    if n:
        lines.append(latents(net, m, n, [n, 5, 1000, 1][seed % 4]))
        # encoded variances of very different magnitudes
        net.double()
        with torch.no_grad():
            for _ in range(200):
                x = torch.tensor(np.random.default_rng(5).standard_normal((1, m)).astype(np.float32)).double()
                mu, lv = net.eval()(x)[2:]
                if max(mu.abs().max(), lv.abs().max()) > 12:
                    break
                for p in net.encoder.parameters():
                    p.mul_(1.05)
        lines.append(latents(net, m, n, n))
    return lines


def fitted(item):
    """A network trained by fitting."""
    (m, h, w), seed, scratch = item
    rng = np.random.default_rng([seed, m, h, w])
    data = rng.standard_normal((24, m)) @ (np.eye(m) + 0.4)
    before, opts = {}, set()

    def note(kind, count):
        if kind == "step":
            pass

    with tempfile.TemporaryDirectory(dir=scratch) as path:
        model = new(os.path.join(path, "f"), seed=seed, num_hidden_layers=h, width_per_meas=w,
                    num_epochs=3, batch_size=8)
        rec = Recorder()
        first, prestep = rec._pre, rec._prestep

        def pre(module, args):
            if rec.depth == 0 and not rec.muted and not before:
                before["net"] = module
                before["was"] = {id(t): t.detach().numpy().copy() for t in tensors(module)}
            first(module, args)

        def step(opt, args, kwargs):
            opts.update(id(p) for g in opt.param_groups for p in g["params"])
            prestep(opt, args, kwargs)

        rec._pre, rec._prestep = pre, step
        with rec:
            _, exc = call(model.fit, data, seconds=120)
    if exc:
        return [{"e": "net", "m": m, "L": m, "exc": exc, "infl": [[j] for j in range(1, m + 1)], "tensors": [],
                 "mean": [list(range(1, m + 1))] * m, "var": [list(range(1, m + 1))] * m, "frozen": 0,
                 "trained": False}]
    net = model.parameters.vae
    if net is not before["net"]:  # e.g. a copy: by position
        was = dict(zip([id(t) for t in tensors(net)], before["was"].values()))
        ids = {id(t): id(s) for t, s in zip(tensors(net), tensors(before["net"]))}
        opts = {i for i, j in ids.items() if j in opts}
    else:
        was = before["was"]
    x = torch.tensor(data.astype(np.float32))
    return [analyse(net, m, m, opts, was), evaluate(net, x)]


def main(d):
    off = d.seed * 1000
    top = (3, 4, 2, 2) if d.quick else (4, 6, 3, 3)
    sizes = [(L, m, h, w) for L in range(1, top[0] + 1) for m in range(1, top[1] + 1)
             for h in range(top[2] + 1) for w in range(1, top[3] + 1)]
    if d.quick:
        sizes += [(5, 7, 1, 1), (2, 6, 3, 2), (6, 5, 0, 3), (2, 3, 4, 2), (3, 4, 5, 1), (1, 2, 6, 3)]
    sizes += [(2, 10, 1, 1), (1, 12, 1, 2), (9, 3, 1, 1), (2, 3, 1, 5), (3, 2, 1, 7), (10, 11, 1, 1)]
    d.info(sizes=len(sizes))
    d.pmap(own, [(s, off + i, 20000 if i % 4 == 0 or not d.quick else 0) for i, s in enumerate(sizes)], chunk=2)
    d.pmap(fitted, [((m, h, w), off + s, d.scratch) for s in range(1 if d.quick else 5) for m in range(1, 6 if d.quick else 8)
                    for h in range(3) for w in range(1, 4)]
           + [((m, h, 1), off, d.scratch) for m, h in ((2, 3), (3, 4), (4, 3))], chunk=1)
