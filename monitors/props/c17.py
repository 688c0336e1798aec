"""C17: FIVE extracts the direction of smallest weighted power"""
import torch

from ..core import Skip, expand
from ..util import *
from .c14 import filters

RULE = ("random mixtures (2-6 channels, any batch, 0-8 iterations, any reference or none, several "
        "source models, eigenvalue decomposition or power method); the weights are recorded at "
        "the source model, the filter is recovered by regression; monitors: DC is zero, what "
        "is left of the reference is uncorrelated with the output, the weighted power of the "
        "output relative to its power is the smallest generalised eigenvalue for the last "
        "weights, k iterations give the estimate that iteration k+1 starts from, and without "
        "iterations the output is the principal component; non-trivial: eigenvalues of the "
        "covariance > 1e-4 and condition number < 1e6")


def mk(r):
    C = r.randint(2, 6)
    return dict(algo="five", C=C, F=r.randint(2, 10), N=r.randint(30, 90) + 10 * C,
                batch=list(r.choice(BATCHES)), ref=r.choice([None] + list(range(C))),
                kind=r.choice(["speechlike", "onoff", "lowrank", "gauss", "wav"]),
                n_iter=r.randint(0, 8), model=r.choice(["laplace", "gauss", "nmf", "power"]),
                power=r.choice([None, None, 1, 4, 500]),
                scale=r.choice([1.0, 1.0, 0.3, 10.0, 300.0]), cond=r.choice([2.0, 4.0, 10.0]))


def plan(ctx):
    return expand("C17", ctx.seed, [mk], ctx.scaled(500, 10000), large="FNBCIM")


def run(ctx, s):
    X = signal_for(s)
    tap = Tap(make_model(s["model"], s["F"]))
    Y = quiet(build(s, model=tap), X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    ctx.check(Y[..., 0, :].abs().max(), 0.0, "DC is zero")
    Xa, Ya = X[..., 1:, :], Y[..., 1:, :]
    N = s["N"]
    Cx = torch.einsum("...cfn,...dfn->...fcd", Xa, Xa.conj()) / N
    e = torch.linalg.eigvalsh(Cx)
    cond = e[..., -1] / e[..., 0]
    ok = (e[..., 0] > 1e-4) & (cond < 1e6)
    if not ok.any():
        raise Skip("badly conditioned")
    ctx.event("filters judged", int(ok.sum()))
    if s["ref"] is not None:
        x = Xa[..., s["ref"], :, :]
        y = Ya[..., 0, :, :]
        c = ((x - y) * y.conj()).mean(-1).abs()
        n = ((x.abs() ** 2).mean(-1) * (y.abs() ** 2).mean(-1)).sqrt()
        ctx.check((c / (n + 1e-300) / (1e-11 * cond + 1e-9))[ok].max(), 1.0,
                  "remainder uncorrelated with the output")
        ctx.expect(bool(((y.abs() ** 2).mean(-1) <= (x.abs() ** 2).mean(-1) * (1 + 1e-6))[ok].all()),
                   "not more power than the reference")
    w, R = filters(Xa, Ya)
    w = w[..., 0, :, :]
    ctx.check(R.abs().max() / Ya.abs().max(), 1e-7, "linear filter")
    def q(V):
        return torch.einsum("...c,...cd,...d->...", w.conj(), V, w).real
    if s["n_iter"] == 0:
        ray = q(Cx) / (w.abs() ** 2).sum(-1)
        ctx.check((1 - ray / e[..., -1]).abs()[ok].max(), 1e-7, "principal component")
    else:
        r = tap.outputs[-1]
        r = r.reshape(Xa.shape[:-3] + r.shape[-2:])[..., -Xa.shape[-2]:, :]
        V = torch.einsum("...fn,...cfn,...dfn->...fcd", r.to(X.dtype), Xa, Xa.conj())
        V = (V + V.mH) / 2
        L = torch.linalg.cholesky(Cx)
        Vw = torch.linalg.solve_triangular(L, V, upper=False)
        Vw = torch.linalg.solve_triangular(L, Vw.mH, upper=False)
        lam = torch.linalg.eigvalsh((Vw + Vw.mH) / 2)
        ray = q(V) / q(Cx)
        if s["power"] is None:
            ctx.check(((ray / lam[..., 0] - 1) / (1e-11 * cond + 1e-13 * lam[..., -1] / lam[..., 0].clamp(min=1e-300) + 1e-8))[ok].max(), 1.0,
                      "smallest weighted power")
        else:
            # the power method works on the inverse, with a loading of 1e-5
            d = 1e-5 * lam[..., -1].clamp(min=1.0)
            rho = (lam[..., 0] + d) / (lam[..., 1] + d)
            if s["power"] >= 100:
                conv = rho ** (2 * s["power"]) * 1e6 * lam[..., -1] / lam[..., 0]
                good = ok & (conv < 1e-3)
                if good.any():
                    ctx.check(((ray / lam[..., 0] - 1) / (1e-6 + 10 * conv))[good].max(), 1.0,
                              "smallest weighted power (power method)")
            else:
                ctx.expect(bool((ray <= lam[..., -1] * (1 + 1e-6))[ok].all()), "bounded power")
        # k iterations, then the estimate where iteration k + 1 starts
        tap2 = Tap(make_model(s["model"], s["F"]))
        quiet(build(s, model=tap2, n_iter=s["n_iter"] + 1), X)
        if s["model"] != "nmf":
            got = tap2.inputs[-1]
            got = got.reshape(Xa.shape[:-3] + got.shape[-2:])[..., -Xa.shape[-2]:, :]
            ctx.check(rel(got, Ya[..., 0, :, :]), 1e-9, "iterations compose")
