"""C02: outputs are linear time-invariant filters of the microphones, per frequency"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random mixtures (2-5 channels, any batch shape, more frames than unknowns) "
        "through every separator; each output is regressed, frequency by frequency, on "
        "the admissible microphone signals (and, with taps, on exactly the delayed "
        "frames); non-trivial: at least 10 frames more than unknowns")


def mk(r):
    s = random_algo(r, n_iter=(0, 8), models=("laplace", "gauss", "power", "nmf"))
    if s["algo"] == "mwf":
        s["ti"], s["n_masks"] = True, 2
    k = s["C"] * (1 + s.get("taps", 0))
    s["N"] = max(s["N"], k + r.randint(10, 60))
    if s["algo"] in ("tiss", "ip", "ip2", "five") and r.random() < 0.2:
        s["ref"] = None
    if s["algo"] == "wpe" and s["n_iter"] == 0:
        s["n_iter"] = 1
    return s


def plan(ctx):
    return expand("C02", ctx.seed, [mk], ctx.scaled(800, 20000), large="FNBCIM")


def run(ctx, s):
    X = signal_for(s)
    if s["algo"] == "wpe" and s["seed"] % 3 == 0:
        # user supplied weights: one per time-frequency point
        Y = quiet(build(s, model=WpeWeights()), X)
    else:
        Y = quiet(build(s), X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    taps, delay = s.get("taps", 0), s.get("delay", 0)
    if s["algo"] == "five":
        ctx.check(Y[..., 0, :].abs().max(), 0.0, "DC of the extracted source is zero")
        X, Y = X[..., 1:, :], Y[..., 1:, :]
    T = Y
    if s["algo"] == "wpe":
        basis = delayed(X, range(delay + 1, delay + taps + 1))
        T = Y - X
    else:
        basis = torch.cat((X, delayed(X, range(delay + 1, delay + taps + 1))), dim=-3)
    nrm = basis.abs().square().mean(-1, keepdim=True).sqrt().clamp(min=1e-12)
    W, R = fit(basis / nrm, T)
    err = R.abs().amax(-1) / torch.maximum(T.abs().amax(-1), X.abs().amax((-1, -3))[..., None, :])
    ctx.check(err.max(), 1e-8, "residual of the linear fit")
    ctx.event("filters", W.shape[:-1].numel())
