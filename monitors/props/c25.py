"""C25: convolution"""
import numpy as np
import scipy.signal
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random real signals of 1 to 300, and up to 9000, samples (any batch, broadcast batches, different numbers of dimensions, any axis, all "
        "modes, impulses, large dynamic range, single and double precision), compared with a "
        "direct evaluation of the convolution sum; non-trivial: both signals are not zero")


def mk(r):
    n1, n2 = r.choice([1, 2, 3, r.randint(1, 40), r.randint(1, 300)]), r.choice(
        [1, 2, 3, r.randint(1, 40), r.randint(1, 300)])
    mode = r.choice(["full", "same", "valid"])
    batch = list(r.choice(BATCHES))
    if r.random() < 0.03:
        # recordings, and their responses
        n1, n2 = r.randint(1000, 9000), r.choice([r.randint(2, 60), r.randint(300, 9000)])
        if r.random() < 0.3:
            n1, n2 = n2, n1
        batch = list(r.choice([(), (2,)]))
    return dict(n1=n1, n2=n2, mode=mode, batch=batch, bc=r.choice([None, 0, 1, 2, 3]),
                dim=r.choice([-1, -1, 0, -2, 1]), single=r.random() < 0.2,
                kind=r.choice(["randn", "randn", "impulse", "decay", "int", "big"]))


def plan(ctx):
    return expand("C25", ctx.seed, [mk], ctx.scaled(1500, 40000), large="B")


def signal(g, kind, shape):
    n = shape[-1]
    x = torch.randn(*shape, generator=g, dtype=torch.float64)
    if kind == "impulse":
        x = torch.zeros(*shape, dtype=torch.float64)
        x[..., int(torch.randint(n, (1,), generator=g))] = 1.0
    elif kind == "decay":
        x = x * torch.exp(-torch.arange(n, dtype=torch.float64) / max(1.0, n / 8))
    elif kind == "int":
        x = torch.round(3 * x)
        x[..., 0] += 1
    elif kind == "big":
        x = x * 1e4
    return x


def run(ctx, s):
    from torchiva.fftconvolve import fftconvolve

    g = gen(s["seed"])
    batch = tuple(s["batch"])
    b1, b2 = batch, batch
    if s["bc"] in (2, 3) and batch:
        # one of the signals has fewer dimensions
        k = s["seed"] % len(batch)
        b1, b2 = (batch, batch[k + 1:]) if s["bc"] == 2 else (batch[k + 1:], batch)
        ctx.event("different numbers of dimensions")
    elif s["bc"] is not None and batch:
        o = tuple(1 for _ in batch)
        b1, b2 = (o, batch) if s["bc"] == 0 else (batch, o)
    x1, x2 = signal(g, s["kind"], b1 + (s["n1"],)), signal(g, "randn", b2 + (s["n2"],))
    nd = min(len(b1), len(b2)) + 1
    dim = s["dim"] if -nd <= s["dim"] < (nd if len(b1) == len(b2) else 0) else -1
    if s["single"]:
        x1, x2 = x1.float(), x2.float()
    y = fftconvolve(x1.transpose(dim, -1), x2.transpose(dim, -1), mode=s["mode"], dim=dim)
    a, b = torch.broadcast_to(x1, batch + x1.shape[-1:]), torch.broadcast_to(x2, batch + x2.shape[-1:])
    ref = np.stack([scipy.signal.convolve(u.double().numpy(), v.double().numpy(), mode=s["mode"], method="direct")
                    for u, v in zip(a.reshape(-1, s["n1"]), b.reshape(-1, s["n2"]))])
    ref = torch.from_numpy(ref).reshape(batch + ref.shape[-1:]).transpose(dim, -1)
    if not check_out(ctx, y, ref.shape, x1.dtype):
        return
    full = x1.abs().double().sum(-1).max() * x2.abs().double().max() + 1e-9
    ctx.check((y.double() - ref).abs().max() / full, 1e-5 if s["single"] else 5e-13, "convolution sum")
