"""C24: solving the scale ambiguity"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random separated signals (1-5 sources, any batch, 1-10 frequencies, all kinds of spectra) and "
        "references (in or out of their span, noisy, with outliers) through all the scaling "
        "functions; monitors: only one factor per source and frequency is applied, the factors "
        "recover the contributions of a reference that is a sum of sources, the residual of "
        "the least-squares factor is orthogonal to the signal, the factors of the p and p,q "
        "norms are stationary and every iteration decreases the norm, the phase variant "
        "changes only the phase, with a model every iteration is the least-squares solution weighted by the "
        "answer of the model for the last residual; non-trivial: the signals are not silent")
ASSUMPTIONS = ["clamps of 1e-5 in the weights of the mixed norms: residuals are kept above 1e-2"]

FN = ["proj", "l2", "phase", "lp", "lpq", "default", "model"]


def mk_for(fn):
    def mk(r):
        S = r.randint(1, 5)
        return dict(fn=fn, S=S, F=r.randint(1, 10), N=r.randint(8, 60), batch=list(r.choice(BATCHES)),
                    kind=r.choice(["speechlike", "onoff", "lowrank", "gauss"]),
                    p=r.choice([0.7, 1.0, 1.0, 1.3, 1.7]), q=r.choice([1.0, 1.2, 1.5, 1.8, 2.0]),
                    k=r.randint(1, 6), head=r.choice([None, None, 0.0, 1e-5]), refkind=r.choice(["sum", "noisy", "outlier", "other"]),
                    scale=r.choice([1.0, 1.0, 0.3, 5.0]), gain=r.choice([1.0, 0.01, 100.0]))
    return mk


def plan(ctx):
    return expand("C24", ctx.seed, [mk_for(f) for f in FN], ctx.scaled(900, 24000), large="FNBM")


def make(s):
    g = gen(s["seed"])
    b = tuple(s["batch"])
    Y = sources(g, b, s["S"], s["F"], s["N"], s["kind"]) * s["scale"]
    if s["head"] is not None and s["fn"] not in ("lp", "lpq") and s["N"] > 5 * s["S"]:
        # a recording that starts, or ends, with (near) silence
        if s["k"] % 2:
            Y[..., :2 * s["S"]] *= s["head"]
        else:
            Y[..., -2 * s["S"]:] *= s["head"]
    c = crandn(g, *b, s["S"], s["F"], 1)
    c = c / c.abs() * (0.3 + rand(g, *b, s["S"], s["F"], 1)) * s["gain"]
    ref = (c * Y).sum(-3)
    amp = ref.abs().square().mean().sqrt()
    if s["refkind"] == "noisy":
        ref = ref + 0.5 * amp * crandn(g, *ref.shape)
    elif s["refkind"] == "outlier":
        ref = ref + 0.3 * amp * crandn(g, *ref.shape)
        ref[..., 0] += 30 * amp
    elif s["refkind"] == "other":
        ref = amp * crandn(g, *ref.shape)
    return g, Y, c, ref


def factors(ctx, Z, Y):
    c = (Z * Y.conj()).sum(-1) / Y.abs().square().sum(-1)
    ctx.check((Z - c[..., None] * Y).abs().max() / Z.abs().max(), 1e-9, "one factor per source and frequency")
    return c


def objective(E, p, q):
    # (..., s, f, n) -> (..., s[, f])
    if q is None or p == q:
        return E.abs().pow(p).sum(-1)
    return E.abs().pow(q).sum(-2).pow(p / q).sum(-1)


class PerBin(torch.nn.Module):
    """weights of all frequencies, for a residual (..., n_src, n_freq, n_frames)"""

    def forward(self, E):
        f = torch.linspace(0.5, 2.0, E.shape[-2], dtype=E.real.dtype)[:, None]
        k = torch.linspace(1.0, 1.5, E.shape[-3], dtype=E.real.dtype)[:, None, None]
        return 1.0 / (0.1 + E.abs() ** f * k)


def run_model(ctx, s, Y, ref):
    from torchiva import scaling

    kind = ["laplace", "gauss", "perbin"][s["k"] % 3]
    u = ref.abs().square().mean().sqrt()
    ref, Y = ref / u, Y / Y.abs().square().mean(-1, keepdim=True).sqrt()
    m = PerBin() if kind == "perbin" else make_model(kind)
    n = 1 + s["k"] % 4
    keep = Y.clone(), ref.clone()
    Zs = [scaling.minimum_distortion(Y, ref, rtol=0.0, max_iter=k, model=m) for k in (n, n + 1)]
    for Z in Zs:
        if not check_out(ctx, Z, Y.shape, Y.dtype):
            return
    c = [factors(ctx, Z, Y) for Z in Zs]
    ctx.check(max(rel(Y, keep[0]), rel(ref, keep[1])), 0.0, "inputs left alone (model)")
    R = ref[..., None, :, :]
    W = m(R - Zs[0])
    if W.shape[-2] not in (1, s["F"]):
        raise Skip("shape of the weights")
    # the weights are normalised with a floor of 1e-5
    W = W / W.sum(-1, keepdim=True).clamp(min=1e-5)
    den = (W * Y.abs().square()).sum(-1)
    new = (W * R * Y.conj()).sum(-1) / den
    ok = den > 1e-3
    if ok.any():
        ctx.event("weighted solutions judged", int(ok.sum()))
        ctx.check(((new - c[1]).abs() / (new.abs() + 0.01))[ok].max(), 1e-8, f"weighted least squares ({kind})")


def stops(ctx, s, Y, ref, p, q, fn):
    """the iterations stop when the factors make less than rtol relative progress"""
    from torchiva import scaling

    rtol = [None, 1e-1, 1e-3][s["seed"] // 3 % 3]
    Z = scaling.minimum_distortion(Y, ref, p=p, q=q, **({} if rtol is None else dict(rtol=rtol)))
    c = factors(ctx, Z, Y)
    seq = []
    for m in range(1, 41):
        seq.append(factors(ctx, scaling.minimum_distortion(Y, ref, p=p, q=q, rtol=0.0, max_iter=m), Y))
        if m > 3 and float((seq[-2] - seq[-3]).norm() / seq[-3].norm()) < (rtol or 1e-2):
            break
    else:
        return
    ctx.event("stopping rules judged")
    # seq[-2] is the first one that made little progress: one more or less is left open
    ctx.check(min(rel(c, x) for x in seq[-3:]), 1e-9, f"stops when there is little progress ({fn})")


def run(ctx, s):
    from torchiva import scaling

    g, Y, c, ref = make(s)
    fn = s["fn"]
    ctx.event(fn)
    if fn == "proj":
        if s["N"] < 2 * s["S"]:
            raise Skip("few frames")
        r = (c * Y).sum(-3)
        Z = scaling.projection_back(Y, r)
        if not check_out(ctx, Z, Y.shape, Y.dtype):
            return
        factors(ctx, Z, Y)
        # the system is solved on the strongest frames, with a loading of 1e-5
        T = Y.transpose(-3, -2)
        i = Y.abs().sum(dim=(-3, -2)).argsort(-1)[..., -s["S"]:]
        A = torch.gather(T, -1, i[..., None, None, :].expand(*T.shape[:-1], s["S"]))
        smin = torch.linalg.svdvals(A)[..., -1]
        bias = 1e-5 / smin
        ok = (bias < 1e-3) & (torch.linalg.cond(A) < 1e4)
        if not ok.any():
            raise Skip("badly conditioned frames")
        e = ((Z - c * Y).abs().amax(-1) / (c * Y).abs().amax(-1)).transpose(-2, -1)
        cn = (c.abs().amax(-3) / c.abs().amin(-3))[..., 0]
        q = e / (20 * bias * cn * s["S"] + 1e-9)[..., None]
        ctx.check(q[ok].max(), 1.0, "contributions to the reference")
        return
    if fn in ("l2", "default"):
        f = scaling.minimum_distortion_l2 if fn == "l2" else scaling.minimum_distortion
        if fn == "default" and s["k"] % 3 == 1:
            Z = f(Y, ref, p=2.0)
        elif fn == "default" and s["k"] % 3 == 2:
            Z = f(Y, ref, p=2.0, q=2.0)
        else:
            Z = f(Y, ref)
        if not check_out(ctx, Z, Y.shape, Y.dtype):
            return
        factors(ctx, Z, Y)
        e = ref[..., None, :, :] - Z
        P = Y.abs().square().sum(-1)
        if float(P.min()) / s["N"] < 1e-5:
            raise Skip("weak signal")
        o = (e * Y.conj()).sum(-1).abs() / (P * ref.abs().square().sum(-1)[..., None, :]).sqrt()
        ctx.check(o.max(), 1e-10, "least squares")
        return
    if fn == "phase":
        Z = scaling.minimum_distortion_l2_phase(Y, ref)
        if not check_out(ctx, Z, Y.shape, Y.dtype):
            return
        k = factors(ctx, Z, Y)
        num = (ref[..., None, :, :] * Y.conj()).mean(-1)
        ok = num.abs() > 1e-4
        if not ok.any():
            raise Skip("no correlation")
        ctx.check((k.abs() - 1).abs()[ok].max(), 1e-9, "unit modulus")
        # the inner product with the reference becomes real and positive
        z = (ref[..., None, :, :] * Z.conj()).mean(-1)
        ctx.check((z - z.abs()).abs()[ok].max() / z.abs().max(), 1e-9, "phase of the reference")
        return
    if fn == "model":
        return run_model(ctx, s, Y, ref)
    p = s["p"]
    q = None if fn == "lp" else max(p, s["q"])
    if s["refkind"] == "sum":
        # residuals of a sum of sources may vanish when there is only one
        if s["S"] == 1:
            raise Skip("zero residual")
    # an absolute constant limits the weights: work at unit level
    u = ref.abs().square().mean().sqrt()
    ref, Y = ref / u, Y / Y.abs().square().mean(-1, keepdim=True).sqrt()
    Zs = [scaling.minimum_distortion(Y, ref, p=p, q=q, rtol=0.0, max_iter=m)
          for m in (s["k"], s["k"] + 1, 400)]
    for Z in Zs:
        if not check_out(ctx, Z, Y.shape, Y.dtype):
            return
    cs = [factors(ctx, Z, Y) for Z in Zs]
    if s["seed"] % 3 == 0 and s["N"] < 200 and s["F"] < 40:
        stops(ctx, s, Y, ref, p, q, fn)
    J = [objective(ref[..., None, :, :] - Z, p, q) for Z in Zs]
    # (the clamp of the weights lets the norm move by some 1e-6)
    ctx.check(((J[1] - J[0]) / J[0]).max(), 1e-3 if q and q != p else 1e-5, f"the norm decreases ({fn})")
    ctx.check(((J[2] - J[1]) / J[1]).max(), 1e-3 if q and q != p else 1e-5, f"the norm decreases ({fn}), long")
    E = (ref[..., None, :, :] - Zs[2]).abs()
    if float(E.min()) < 1e-2:
        # a residual driven to zero: the norm is not differentiable there
        good = E.amin(dim=(-2, -1)) if q and q != p else E.amin(-1)
        good = good > 1e-2
    else:
        good = None
    if q is None or q == p:
        W = E.pow(p - 2)
    else:
        W = E.pow(q).sum(-2, keepdim=True).pow(p / q - 1) * E.pow(q - 2)
    new = (W * ref[..., None, :, :] * Y.conj()).sum(-1) / (W * Y.abs().square()).sum(-1)
    step = (new - cs[2]).abs() / cs[2].abs().clamp(min=0.01)
    if q is not None and q != p:
        step = step.amax(-1)
    if good is not None:
        step = step[good]
    if p < 1 and step.numel():
        # several local minima, slow convergence
        ctx.check(step.median(), 3e-2, f"stationary ({fn}, p < 1)")
    elif step.numel():
        ctx.event("stationary points judged", step.numel())
        ctx.check(step.max(), 1e-2 if fn == "lpq" else 3e-3, f"stationary ({fn})")
    D = scaling.minimum_distortion(Y, ref, p=p, q=q)
    if p >= 1:
        JD = objective(ref[..., None, :, :] - D, p, q)
        ctx.check((JD.sum() / J[2].sum() - 1), 0.02, f"default stopping rule ({fn})")
