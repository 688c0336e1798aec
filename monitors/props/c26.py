"""C26: source models"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random, silent, impulsive, very weak and very strong signals (any batch shape) through "
        "all the source and mask models; monitors: shape, finite, positive, upper bounds, "
        "definition of the spherical models, rank and divergence of the low-rank model along "
        "iterations, range of the masks, independence of masks from the other signals; "
        "non-trivial: distinct sizes and kinds")

MODELS = ["laplace", "gauss", "nmf", "simple", "glu", "blstm", "mvdr"]
KINDS = ["speechlike", "speechlike", "onoff", "lowrank", "silent", "click", "tiny", "huge", "partly"]


def mk_for(m):
    def mk(r):
        s = dict(model=m, F=r.randint(9, 20), N=r.randint(3, 25), batch=list(r.choice(BATCHES)),
                    kind=r.choice(KINDS), basis=r.randint(1, 3), mag=r.random() < 0.7,
                    log=r.random() < 0.7, n_src=r.randint(1, 3), n_masks=r.randint(2, 4),
                    eps=r.choice([None, None, 1e-3, 1e-10]), calls=r.randint(2, 12),
                    real=r.random() < 0.1, single=r.random() < 0.3,
                    gain=r.choice([1, 1, 1, 10, 100]))
        if r.random() < 0.05:
            # resolutions used for recordings
            s.update(F=r.choice([257, 513, 1025, r.randint(200, 2049)]), batch=list(r.choice([(), (1,), (2,)])),
                     calls=3)
        return s
    return mk


def plan(ctx):
    makers = [mk_for(m) for m in MODELS] + [mk_for("nmf"), mk_for("laplace"), mk_for("gauss")]
    return expand("C26", ctx.seed, makers, ctx.scaled(900, 20000), large="NBM")


def signal(s, g):
    b = tuple(s["batch"]) + (1,)
    k = s["kind"]
    base = k if k in ("speechlike", "onoff", "lowrank") else "speechlike"
    X = sources(g, b, 1, s["F"], s["N"], base)[..., 0, :, :]
    X = X.reshape(tuple(s["batch"]) + (s["F"], s["N"]))
    if k == "silent":
        X = X * 0
    elif k == "click":
        Z = X * 0
        t = int(torch.randint(s["N"], (1,), generator=g))
        Z[..., t] = X[..., t] * 50
        X = Z
    elif k == "tiny":
        X = X * 1e-8
    elif k == "huge":
        X = X * 1e6
    elif k == "partly":
        X[..., : s["F"] // 2, :] = 0
        X[..., : s["N"] // 2] = 0
    return X


def run(ctx, s):
    from torchiva import models

    g = gen(s["seed"])
    X = signal(s, g)
    m = s["model"]
    ctx.event(m)
    ctx.event("signal " + s["kind"])
    if m in ("laplace", "gauss", "nmf"):
        single = s["single"]
        if s["real"]:
            X = X.real
        if single:
            X = X.to(torch.float32 if s["real"] else torch.complex64)
        rt = torch.float32 if single else torch.float64
        eps = 1e-5 if s["eps"] is None else s["eps"]
    if m in ("laplace", "gauss"):
        mod = (models.LaplaceModel if m == "laplace" else models.GaussModel)(eps=s["eps"])
        with torch.no_grad():
            R = mod(X)
        if not check_out(ctx, R, X.shape, rt):
            return
        P = X.to(C128).abs().square()
        d = 2 * P.sum(-2, keepdim=True).sqrt() if m == "laplace" else P.mean(-2, keepdim=True)
        ref = (1 / d.clamp(min=eps)).expand(X.shape)
        q = (R.double() / ref - 1).abs()
        ctx.check(q.max(), 1e-4 if single else 1e-10, f"definition ({m})")
        ctx.expect(bool((R > 0).all()) and float(R.max()) <= 1 / eps * (1 + 1e-5), f"positive and bounded ({m})")
        return
    if m == "nmf":
        mod = models.NMFModel(n_basis=s["basis"], eps=s["eps"])
        P = X.to(C128).abs().square()
        prev = None
        for k in range(s["calls"]):
            R = mod(X)
            if not check_out(ctx, R, X.shape, rt):
                return
            ctx.expect(bool((R > 0).all()) and float(R.max()) <= 1 / eps * (1 + 1e-5), "positive and bounded (nmf)")
            Rd = R.double()
            if s["kind"] in ("speechlike", "lowrank", "onoff") and not single and eps <= 1e-5:
                # Itakura-Saito divergence, up to constants, as clamped by the model
                D = (P * Rd - torch.log(Rd)).mean(dim=(-2, -1))
                if prev is not None:
                    ctx.check((D - prev).max(), 1e-3, "divergence never increases")
                prev = D
                if float(Rd.max()) < 0.5 / eps:
                    sv = torch.linalg.svdvals(1 / Rd)
                    if s["basis"] < sv.shape[-1]:
                        ctx.check((sv[..., s["basis"]] / sv[..., 0]).max(), 1e-9, "rank of the variances")
        # the state is forgotten: other sizes are accepted
        mod.reset()
        g2 = gen(s["seed"] + 1)
        X2 = torch.randn(2, s["F"] + 1, s["N"] + 2, generator=g2, dtype=X.dtype)
        R = mod(X2)
        check_out(ctx, R, X2.shape, rt, label="shape after reset")
        return
    X = X.to(torch.complex64)
    F, N = s["F"], s["N"]
    torch.manual_seed(s["seed"])
    if m == "simple":
        mod = models.SimpleModel(n_freq=F, n_mels=4)
    elif m == "glu":
        mod = models.GLUMask(F, 6, mag_spec=s["mag"], log_spec=s["log"])
    elif m == "blstm":
        mod = models.BLSTMMask(n_freq=F, n_bottleneck=4, n_hidden=5, mag_spec=s["mag"], log_spec=s["log"])
    else:
        mod = models.MaskMVDRSupport(n_src=s["n_src"], n_masks=s["n_masks"], n_input=F, n_hidden=6)
    mod.eval()
    # trained networks may saturate
    with torch.no_grad():
        for p in mod.parameters():
            p.mul_(s["gain"])
    with torch.no_grad():
        M = mod(X)
        M2 = mod(X)
    shape = X.shape if m != "mvdr" else X.shape[:-2] + (s["n_src"], s["n_masks"], F, N)
    if not check_out(ctx, M, shape, torch.float32):
        return
    ctx.expect(bool((M > 0).all()) and bool((M <= 1).all()), f"masks in (0, 1] ({m})",
               low=float(M.min()), high=float(M.max()))
    ctx.expect(torch.equal(M, M2), f"deterministic in evaluation mode ({m})")
    if s["gain"] > 1:
        ctx.event("large weights")
        return
    # phase does not matter for models of the magnitude
    if m in ("simple", "mvdr") or s["mag"]:
        ph = torch.exp(2j * torch.pi * torch.rand(X.shape, generator=g)).to(X.dtype)
        with torch.no_grad():
            ctx.check((mod(X * ph) - M).abs().max(), 1e-3, f"independent of the phase ({m})")
    if m == "glu" and s["kind"] in ("speechlike", "onoff", "lowrank", "partly", "click"):
        with torch.no_grad():
            ctx.check((mod(X * 7.0) - M).abs().max(), 1e-3, "independent of the level (glu)")
