"""C16: GEV beamformer"""
import torch

from ..core import Skip, expand
from ..util import *
from .c14 import filters, masked_cov, top_gevd, well_posed

RULE = ("random multichannel signals (2-6 channels, any batch), random masks (1-3 targets), any "
        "reference; the masks are recorded, the filters recovered from the output by "
        "regression, and the signal-to-noise ratio under the masks compared with the largest "
        "generalised eigenvalue (LAPACK); scale: what is left of the reference is uncorrelated "
        "with the output under the target and noise masks; non-trivial: noise covariances "
        "with eigenvalues > 1e-3 and condition number < 1e5")


def mk(r):
    C = r.randint(2, 6)
    return dict(algo="gev", C=C, F=r.randint(2, 9), N=r.randint(20, 90) + 12 * C,
                batch=list(r.choice(BATCHES)), ref=r.randrange(C),
                kind=r.choice(["speechlike", "onoff", "lowrank", "gauss", "wav"]),
                n_src=r.randint(1, 3), floor=r.choice([0.01, 0.05, 0.3]),
                mseed=r.randrange(17), n_masks=r.choice([2, 2, 2, 3]),
                scale=r.choice([1.0, 1.0, 0.3, 10.0, 100.0]), cond=r.choice([2.0, 4.0, 8.0]))


def plan(ctx):
    return expand("C16", ctx.seed, [mk], ctx.scaled(500, 10000), large="FNBCM")


def quad(a, R, b):
    return torch.einsum("...c,...cd,...d->...", a.conj(), R, b)


def run(ctx, s):
    X = signal_for(s)
    tap = Tap(MaskNet(s["n_src"], s["n_masks"], floor=s["floor"], seed=s["mseed"]))
    Y = quiet(build(s, model=tap), X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    ctx.check(max(rel(i, X[..., s["ref"], :, :]) for i in tap.inputs), 1e-12,
              "masks come from the reference channel")
    M = tap.outputs[-1]
    w, R = filters(X, Y)
    ctx.check(R.abs().max() / Y.abs().max(), 1e-7, "time-invariant filter")
    Rs, Rn = masked_cov(M[..., 0, :, :], X), masked_cov(M[..., 1, :, :], X)
    well_posed(Rn)
    v, lam = top_gevd(Rs, Rn)
    cn = torch.linalg.cond(Rn)
    ok = torch.linalg.eigvalsh(Rn)[..., 0] > 1e-3
    if not ok.any():
        raise Skip("weak noise")
    ctx.event("filters judged", int(ok.sum()))
    # ratios do not depend on the separation of the eigenvalues
    snr = quad(w, Rs, w).real / quad(w, Rn, w).real
    ctx.check(((1 - snr / lam[..., -1]) / (1e-8 * cn))[ok].abs().max(), 1.0, "maximum SNR")
    for R, name in ((Rs, "target"), (Rn, "noise")):
        # E[(x_ref - y) y*] = 0 under the masks
        c = torch.einsum("...c,...c->...", R[..., s["ref"], :], w)
        p = quad(w, R, w).real
        nrm = (R[..., s["ref"], s["ref"]].real * p).sqrt()
        gap = 1 - lam[..., -2] / lam[..., -1]
        q = (c - p).abs() / nrm / (1e-8 * cn / gap)
        ctx.check(q[ok].max(), 1.0, f"scale of the reference ({name})")
