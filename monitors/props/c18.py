"""C18: (generalised) eigenvalue decomposition"""
import numpy as np
import scipy.linalg
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random Hermitian / symmetric matrices of size 2-8 (random spectra with positive, "
        "negative, zero, tiny and nearly repeated eigenvalues, diagonal and block diagonal, "
        "scales from 1e-6 to 1e6, any batch, single and double precision), with and without a "
        "positive definite second matrix; monitors: eigenvalues equal those of LAPACK in "
        "ascending order, residuals of the eigenvectors, unit norm, orthogonality with respect "
        "to the second matrix; non-trivial: distinct eigenvalues where vectors are judged")
ASSUMPTIONS = ["from size 3, eigenvalues of the second matrix are clamped at 1e-5 by the "
               "library: smaller ones are not generated"]


def mk(r):
    return dict(n=r.choice([2, 2, 2, 3, 4, 5, 8]), batch=list(r.choice(BATCHES)),
                gen=r.random() < 0.6, real=r.random() < 0.25, single=r.random() < 0.2,
                spec=r.choice(["pos", "pos", "mixed", "lowrank", "near", "equal", "spread"]),
                struct=r.choice(["full", "full", "full", "diag", "diag_mixed", "phase"]),
                sa=r.choice([0, 0, -6, -3, 3, 6]), sb=r.choice([0, 0, -6, -2, 2, 6]),
                condb=r.choice([1.0, 3.0, 100.0, 1e4, 1e6]), fn=r.choice(["eigh", "eigh", "eigh_2x2"]))


def plan(ctx):
    return expand("C18", ctx.seed, [mk], ctx.scaled(2500, 60000), large="B")


def hermitian(g, s, lam, struct):
    batch, n = tuple(s["batch"]), s["n"]
    if struct == "full" or struct == "phase":
        if s["real"]:
            q, _ = torch.linalg.qr(torch.randn(*batch, n, n, generator=g, dtype=torch.float64))
        else:
            q = random_unitary(g, *batch, n=n)
    elif struct in ("diag", "diag_mixed"):
        q = torch.eye(n, dtype=torch.float64 if s["real"] else C128).expand(*batch, n, n).clone()
        if struct == "diag_mixed" and n > 2:
            u = random_unitary(g, *batch, n=2)
            q[..., :2, :2] = u.real if s["real"] else u
            q = torch.linalg.qr(q)[0]
    A = (q * lam[..., None, :].to(q.dtype)) @ q.mH
    return (A + A.mH) / 2


def run(ctx, s):
    from torchiva import linalg

    g = gen(s["seed"])
    batch, n = tuple(s["batch"]), s["n"]
    u = rand(g, *batch, n)
    base = torch.arange(n, dtype=torch.float64)
    lam = (base + 0.2 + 0.6 * u) / n
    if s["spec"] == "mixed":
        lam = lam - 0.5
    elif s["spec"] == "lowrank":
        lam[..., : n // 2] = 0
    elif s["spec"] == "near":
        lam[..., -1] = lam[..., -2] * (1 + 1e-9)
    elif s["spec"] == "spread":
        lam = 10.0 ** (-6 * lam)
    perm = torch.randperm(n, generator=g)
    lam = lam[..., perm]
    single = s["single"]
    sa, sb = 10.0 ** s["sa"], 10.0 ** s["sb"]
    gen_ = s["gen"]
    condb = min(s["condb"], 100.0 if single else 1e4 if n == 2 else 1e6)
    if n > 2 and gen_ and sb / condb < 1e-2:
        sb = 1.0 * condb
    A = hermitian(g, s, lam, s["struct"]) * sa
    B = None
    if gen_:
        lb = condb ** (-rand(g, *batch, n))
        B = hermitian(g, s, lb, s["struct"] if s["struct"] != "phase" else "full") * sb
    if s["spec"] == "equal":
        # all the eigenvalues are the same
        A = 0.7 * sa * (B / sb if gen_ else torch.eye(n, dtype=A.dtype).expand_as(A).clone())
    if single:
        A = A.to(torch.float32 if s["real"] else torch.complex64)
        B = B.to(A.dtype) if gen_ else None
    fn = s["fn"]
    if n != 2 or (not gen_ and not s["real"]):
        fn = "eigh"
    ctx.event(f"{fn} n={n} gen={gen_}")
    val, vec = getattr(linalg, fn)(A, B) if gen_ else getattr(linalg, fn)(A)
    rt = torch.float32 if single else torch.float64
    ctx.expect(tuple(val.shape) == batch + (n,) and val.dtype == rt, "eigenvalues: shape and type",
               got=[list(val.shape), str(val.dtype)])
    if not ctx.expect(tuple(vec.shape) == batch + (n, n) and vec.dtype == A.dtype,
                      "eigenvectors: shape and type", got=[list(vec.shape), str(vec.dtype)]):
        return
    if not ctx.expect(finite(val) and finite(vec), "finite"):
        return
    # reference, in double precision
    Ad = A.to(torch.float64 if s["real"] else C128)
    Bd = None if B is None else B.to(Ad.dtype)
    a = Ad.reshape(-1, n, n).numpy()
    ref = []
    for i in range(a.shape[0]):
        ref.append(scipy.linalg.eigvalsh(a[i]) if B is None
                   else scipy.linalg.eigvalsh(a[i], Bd.reshape(-1, n, n)[i].numpy()))
    ref = torch.from_numpy(np.array(ref)).reshape(batch + (n,))
    val, vec = val.double(), vec.to(Ad.dtype)
    top = ref.abs().amax(-1, keepdim=True)
    u = 6e-8 if single else 1.2e-16
    cb = condb ** 2 if gen_ else 1.0
    tol = 100 * u * cb * n
    gap = torch.diff(ref, dim=-1).amin(-1, keepdim=True) / top
    # a repeated root of the secular equation only has half of the digits
    t = torch.full_like(gap, tol)
    if n == 2:
        near = gap < 3e-4 if not single else gap < 0.05
        t = torch.where(near, t + 20 * (tol ** 0.5 if single else 1e-7 * condb), t)
    ctx.check(((val - ref).abs() / top / t).max(), 1.0, "eigenvalues")
    ctx.check(torch.clamp(val[..., :-1] - val[..., 1:], min=0).max() / top.max(), 1e-12 if not single else 1e-6,
              "ascending order")
    ctx.check((vec.norm(dim=-2) - 1).abs().max(), 1e-5 if single else 1e-9, "unit norm")
    Bv = vec if B is None else Bd @ vec
    res = (Ad @ vec - Bv * ref[..., None, :].to(vec.dtype)).norm(dim=-2)
    na = torch.linalg.matrix_norm(Ad, 2)[..., None]
    nb = 1.0 if B is None else torch.linalg.matrix_norm(Bd, 2)[..., None]
    # the vectors of repeated eigenvalues are not determined, but still independent
    g_ = gap.clamp(min=1e-12)
    bound = torch.minimum(tol * 10 / g_, 10 * gap + 10 * t)
    ok = gap > (0.03 if single else 1e-3)
    ctx.event("distinct eigenvalues", int(ok.sum()))
    ctx.event("nearly repeated eigenvalues", int((~ok).sum()))
    ctx.check((res / (na + top * nb) / bound).max(), 1.0, "A v = lambda B v")
    G = vec.mH @ Bv
    d = torch.diagonal(G, dim1=-2, dim2=-1).real
    off = (G / (d[..., :, None] * d[..., None, :]).sqrt()).abs()
    off = off - torch.diag_embed(torch.diagonal(off, dim1=-2, dim2=-1))
    ctx.check((off / (tol * 10 * condb)).max(), 1.0, "orthogonality")
