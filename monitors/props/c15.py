"""C15: multichannel Wiener filter"""
import torch

from ..core import Skip, expand
from ..util import *
from .c14 import filters, masked_cov

RULE = ("random multichannel signals (2-6 channels, any batch), random masks (floors from 0.001 "
        "to 0.3, arbitrary or complementary, 1-3 targets, 2 or 4 masks), any reference, time "
        "invariant and time varying; the masks are recorded and the output is compared with "
        "the minimum mean square error filter computed by LAPACK from them; complementary "
        "masks: the outputs add up to the reference; non-trivial: the predicted effect of the "
        "diagonal loading is below 5%")
ASSUMPTIONS = ["tolerance: diagonal loading of max(1e-6, eps), relative to the largest "
               "coefficient of the covariance (at least 1)"]


def mk(r):
    C = r.randint(2, 6)
    ti = r.random() < 0.5
    return dict(algo="mwf", C=C, F=r.randint(1, 9), N=r.randint(20, 90) + 12 * C,
                batch=list(r.choice(BATCHES)), ref=r.randrange(C),
                kind=r.choice(["speechlike", "onoff", "lowrank", "gauss", "wav"]),
                n_src=r.randint(1, 3), floor=r.choice([0.001, 0.05, 0.3]),
                mseed=r.randrange(17), ti=ti, n_masks=2 if ti and r.random() < 0.8 else 4,
                compl=r.random() < 0.3, eps=r.choice([1e-12, 1e-7, 1e-5, None]),
                scale=r.choice([1.0, 1.0, 0.3, 10.0, 1000.0]), cond=r.choice([2.0, 4.0, 8.0]))


def plan(ctx):
    return expand("C15", ctx.seed, [mk], ctx.scaled(500, 10000), large="FNBCM")


def run(ctx, s):
    if s["F"] == 1 and s["kind"] == "wav":
        raise Skip("one frequency of a recording")
    X = signal_for(s)
    compl = s["compl"] and s["n_masks"] == 2
    tap = Tap(MaskNet(s["n_src"], s["n_masks"], floor=s["floor"], seed=s["mseed"],
                      complementary=compl))
    Y = quiet(build(s, model=tap), X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    ctx.check(max(rel(i, X[..., s["ref"], :, :]) for i in tap.inputs), 1e-12,
              "masks come from the reference channel")
    M = tap.outputs[-1]
    Rs, Rn = masked_cov(M[..., 0, :, :], X), masked_cov(M[..., 1, :, :], X)
    if not s["ti"]:
        Rs = Rs[..., None, :, :] * M[..., 2, :, :][..., None, None]
        Rn = Rn[..., None, :, :] * M[..., 3, :, :][..., None, None]
    R = Rs + Rn
    lmin = torch.linalg.eigvalsh(R)[..., 0].clamp(min=1e-300)
    load = max(1e-6, s["eps"] or 1e-5) * R.abs().amax(dim=(-2, -1)).clamp(min=1.0) / lmin
    w = torch.linalg.solve(R, Rs[..., s["ref"]][..., None])[..., 0]
    if s["ti"]:
        ref = torch.einsum("...sfc,...cfn->...sfn", w.conj(), X)
    else:
        ref = torch.einsum("...sfnc,...cfn->...sfn", w.conj(), X)
        load = load
    ok = load < 0.05
    if not ok.any():
        raise Skip("dominated by the regularisation")
    # first order effect of a loading d: |dw| <= d / lmin * |w|, |dy| <= |dw| |x|
    tol = 2 * load * w.norm(dim=-1) + 1e-10
    lab = "time-invariant" if s["ti"] else "time-varying"
    xn = X.norm(dim=-3)[..., None, :, :]
    tol = tol[..., None] if s["ti"] else tol
    ok = (ok[..., None] if s["ti"] else ok).expand_as(Y.real)
    ctx.event("filters judged", int(ok.sum()))
    q = (Y - ref).abs() / (tol * xn + 1e-12 * s["scale"])
    ctx.check(q[ok].max(), 1.0, f"{lab}: minimum mean square error")
    if compl and s["ti"] and s["n_src"] > 1:
        tot = Y.sum(dim=-3)
        t = X[..., s["ref"], :, :]
        bound = (4 * s["n_src"] * (load * w.norm(dim=-1)).sum(dim=-2)[..., None] + 1e-9) * xn[..., 0, :, :]
        good = (load < 0.05).all(dim=-2)[..., None].expand_as(t.real)
        if good.any():
            ctx.check(((tot - t).abs() / bound)[good].max(), 1.0,
                      "complementary masks: outputs add up to the reference")
