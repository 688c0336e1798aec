"""C14: MVDR"""
import numpy as np
import scipy.linalg
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random multichannel signals (2-6 channels, any batch), random masks (floors from "
        "0.01 to 0.3, 1-3 targets, 2 or 3 masks), any reference, all ways of computing the "
        "filter; the masks are recorded and the filters are recovered from the output by "
        "regression, then compared with a reference solution computed with LAPACK: "
        "distortionless in the direction of the relative transfer function, minimum noise "
        "power, and the closed form based on covariances; non-trivial: the covariance "
        "matrices are invertible (condition number < 1e5) and the dominant generalised "
        "eigenvalue is separated")
ASSUMPTIONS = ["eps is 1e-12 except for the cases about the default value"]


def mk(r):
    C = r.randint(2, 6)
    return dict(algo="mvdr", C=C, F=r.randint(2, 9), N=r.randint(30, 90) + 12 * C,
                batch=list(r.choice(BATCHES)), ref=r.randrange(C),
                kind=r.choice(["speechlike", "onoff", "lowrank", "gauss", "wav"]),
                n_src=r.randint(1, 3), floor=r.choice([0.01, 0.05, 0.3]), mseed=r.randrange(17),
                mvdr_type=r.choice(["rtf", "rtf", "scm"]), n_masks=r.choice([2, 2, 3]),
                power=r.choice([None, None, 200]), eps=r.choice([1e-12, 1e-12, 1e-5]),
                scale=r.choice([1.0, 1.0, 0.1, 10.0, 100.0, 1e3, 1e4]), cond=r.choice([2.0, 4.0, 8.0]))


def plan(ctx):
    return expand("C14", ctx.seed, [mk], ctx.scaled(500, 10000), large="FNBCM")


def masked_cov(M, X):
    """(..., s, f, n), (..., c, f, n) -> (..., s, f, c, c)"""
    return torch.einsum("...sfn,...cfn,...dfn->...sfcd", M.to(X.dtype), X, X.conj())


def filters(X, Y):
    """w such that y = w^H x (..., s, f, c) and the residual"""
    W, R = fit(X, Y)
    return W.conj().transpose(-3, -2), R


def well_posed(*mats, bound=1e5):
    for m in mats:
        if float(torch.linalg.cond(m).max()) > bound:
            raise Skip("badly conditioned covariance")


def top_gevd(A, B):
    """dominant generalised eigenvectors and the ratio of the 2 largest eigenvalues"""
    C = A.shape[-1]
    a, b = A.reshape(-1, C, C).numpy(), B.reshape(-1, C, C).numpy()
    vec, lam = [], []
    for i in range(a.shape[0]):
        w, v = scipy.linalg.eigh((a[i] + a[i].conj().T) / 2, (b[i] + b[i].conj().T) / 2)
        vec.append(v[:, -1])
        lam.append(w)
    v = torch.from_numpy(np.array(vec)).reshape(A.shape[:-1])
    lam = torch.from_numpy(np.array(lam)).reshape(A.shape[:-1])
    return v, lam


def run(ctx, s):
    X = signal_for(s)
    tap = Tap(MaskNet(s["n_src"], s["n_masks"], floor=s["floor"], seed=s["mseed"]))
    mtype = s["mvdr_type"] if s["n_masks"] == 2 else "rtf"
    Y = quiet(build(s, model=tap, mvdr_type=mtype), X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    ctx.check(max(rel(i, X[..., s["ref"], :, :]) for i in tap.inputs), 1e-12,
              "masks come from the reference channel")
    M = tap.outputs[-1]
    w, R = filters(X, Y)
    ctx.check(R.abs().max() / Y.abs().max(), 1e-7, "time-invariant filter")
    Rs, Rn = masked_cov(M[..., 0, :, :], X), masked_cov(M[..., 1, :, :], X)
    Rb = masked_cov(M[..., 2, :, :], X) if s["n_masks"] == 3 else Rn
    well_posed(Rn, Rb)
    # effect of the regularisation
    cn = torch.linalg.cond(Rn)
    def loading(R, eps):
        """first order effect of the (relative, and at least absolute) diagonal loading"""
        lmin = torch.linalg.eigvalsh(R)[..., 0]
        return eps * R.abs().amax(dim=(-2, -1)).clamp(min=1.0) / lmin

    load = loading(Rn, s["eps"]) + 1e-9
    if mtype == "scm":
        P = torch.linalg.solve(Rn, Rs)
        t = torch.diagonal(P, dim1=-2, dim2=-1).sum(-1)
        ref = (P / t[..., None, None])[..., s["ref"]]
        err = (w - ref).norm(dim=-1) / ref.norm(dim=-1)
        ctx.check((err / (1e-9 * cn)).max(), 1.0, "scm: closed form")
        return
    v, lam = top_gevd(Rs, Rb)
    gap = lam[..., -2] / lam[..., -1]
    ok = gap < (0.95 if s["power"] is None else 0.9)
    a = torch.einsum("...cd,...d->...c", Rb, v)
    scale = a[..., s["ref"]].abs() / a.norm(dim=-1)
    ok = ok & (scale > 1e-3)
    # the library clamps the eigenvalues of the noise covariance at 1e-5
    ok = ok & (torch.linalg.eigvalsh(Rb)[..., 0] > 1e-3)
    if s["power"] is not None:
        # precision of the power method, which also has a fixed regularisation
        bias = 10 * loading(Rb, 1e-5) / (1 - gap) + 1e-6 / (1 - gap) ** 2
        ok = ok & (bias < 0.05)
    else:
        bias = torch.zeros_like(gap)
    load = load + bias + 1e-9 * torch.linalg.cond(Rb) / (1 - gap)
    ok = ok & (load < 0.05)
    rtf = a / a[..., [s["ref"]]]
    best = torch.einsum("...c,...c->...", rtf.conj(),
                        torch.linalg.solve(Rn, rtf[..., None])[..., 0]).real
    if not ok.any():
        raise Skip("no well separated bin")
    ctx.event("filters judged", int(ok.sum()))
    d = torch.einsum("...c,...c->...", w.conj(), rtf)
    ctx.check(((d - 1).abs() / (2 * load))[ok].max(), 1.0, "rtf: distortionless")
    noise = torch.einsum("...c,...cd,...d->...", w.conj(), Rn, w).real
    ctx.check(((noise * best - 1) / (4 * load)).abs()[ok].max(), 1.0, "rtf: minimum noise power")
    ref = torch.linalg.solve(Rn, rtf[..., None])[..., 0] / best[..., None]
    err = (w - ref).norm(dim=-1) / ref.norm(dim=-1)
    ctx.check((err / (4 * load))[ok].max(), 1.0, "rtf: reference solution")
