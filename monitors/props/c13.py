"""C13: more microphones than sources"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random mixtures with 1 to C-1 sources asked from C = 2-6 channels, any batch, any "
        "reference, with and without taps, all source models; monitors: number of outputs, "
        "the background left at the reference is uncorrelated with the outputs at "
        "convergence, outputs for different references are the same up to one factor per "
        "frequency, asking for all the channels is the determined algorithm, asking for "
        "more is refused")


def mk(r):
    a = r.choice(["tiss", "ip"])
    C = r.randint(2, 6)
    s = dict(what="over", algo=a, C=C, n_src=r.randint(1, C - 1), F=r.randint(3, 10),
             N=r.randint(60, 150), batch=list(r.choice(BATCHES)),
             kind=r.choice(["speechlike", "onoff", "lowrank", "wav"]),
             model=r.choice(["laplace", "gauss", "power"]), n_iter=r.randint(1, 12),
             ref=r.randrange(C))
    if a == "tiss":
        s["taps"], s["delay"] = r.choice([(0, 0), (0, 0), (1, 0), (2, 1), (3, 2)])
    return s


def mk_det(r):
    s = mk(r)
    s.update(what=r.choice(["det", "refused"]), n_src=s["C"])
    return s


def mk_conv(r):
    s = mk(r)
    s.update(what="conv", n_iter=100, model="laplace", F=r.randint(3, 6), C=r.randint(2, 4),
             kind=r.choice(["speechlike", "onoff"]), batch=list(r.choice([(), (2,)])))
    s["n_src"] = r.randint(1, s["C"] - 1)
    s["ref"] = r.randrange(s["C"])
    s["noise"] = 0.1
    s["nolarge"] = True  # many bins take many iterations
    if s.get("taps"):
        s["taps"] = 1
    return s


def plan(ctx):
    return expand("C13", ctx.seed, [mk, mk, mk, mk_det, mk_conv], ctx.scaled(300, 6000), large="FNBCIM")


def run(ctx, s):
    X = signal_for(s)
    if s["what"] == "refused":
        try:
            quiet(build(s, n_src=s["C"] + 1 + s["seed"] % 3), X)
        except ValueError:
            ctx.expect(True, "too many sources are refused")
        except Exception as e:
            ctx.expect(False, "too many sources are refused", error=repr(e))
        else:
            ctx.expect(False, "too many sources are refused")
        return
    if s["what"] == "det":
        A = quiet(build(s, n_src=None), X)
        B = quiet(build(s, n_src=s["C"]), X)
        check_out(ctx, A, X.shape, X.dtype)
        ctx.check(rel(B, A), 1e-9, "all the channels = the default")
        return
    Y = quiet(build(s), X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    if s["what"] == "conv":
        return run_conv(ctx, s, X, Y)
    # another reference: one factor per source and frequency
    other = (s["ref"] + 1 + s["seed"] % max(1, s["C"] - 1)) % s["C"]
    Z = quiet(build(s, ref=other), X)
    c = (Z * Y.conj()).sum(-1, keepdim=True) / Y.abs().square().sum(-1, keepdim=True)
    amp = Z.abs().square().mean(-1, keepdim=True).sqrt()
    ctx.check(((Z - c * Y).abs() / amp).max(), 1e-6, "one factor per frequency")
    U = quiet(build(s, ref=None), X)
    c = (U * Y.conj()).sum(-1, keepdim=True) / Y.abs().square().sum(-1, keepdim=True)
    amp = U.abs().square().mean(-1, keepdim=True).sqrt()
    ctx.check(((U - c * Y).abs() / amp).max(), 1e-6, "one factor per frequency (no scale)")


def run_conv(ctx, s, X, Y):
    m = lambda: make_model("laplace", eps=1e-12)
    Y = quiet(build(s, eps=1e-12, model=m()), X)
    Y0 = quiet(build(s, eps=1e-12, n_iter=s["n_iter"] - 10, model=m()), X)
    tol = 2e-2 if s["algo"] == "tiss" else 1e-3
    if not rel(Y, Y0) < 1e-5:
        raise Skip("not converged")
    # the weights of the source model, at the scale used by the separator
    Z = quiet(build(s, eps=1e-12, model=m(), ref=None), X)
    r = Z.abs().square().sum(-2, keepdim=True).sqrt()
    if float((r / r.mean(-1, keepdim=True)).min()) < 1e-3:
        raise Skip("not differentiable at the limit (a frame is nulled)")
    phi = 1 / r
    # background: the combinations of the channels uncorrelated with the outputs
    Cxy = torch.einsum("...cfn,...kfn->...fck", X, Y.conj())
    U = torch.linalg.svd(Cxy, full_matrices=True)[0][..., s["n_src"]:]
    B = torch.einsum("...fcb,...cfn->...bfn", U.conj(), X)
    n = lambda T: T.abs().square().sum(-1, keepdim=True).sqrt()
    other = torch.cat((Y / n(Y), B / n(B)), dim=-3)
    if s.get("taps"):
        P = delayed(X, range(s["delay"] + 1, s["delay"] + s["taps"] + 1))
        other = torch.cat((other, P / n(P)), dim=-3)
    G = torch.einsum("...kfn,...jfn->...fkj", phi * Y, other.conj())
    a = (phi * Y.abs().square()).sum(-1).mT[..., :, None]
    b = torch.einsum("...kfn,...jfn->...fkj", phi.expand(Y.shape), other.abs().square())
    G = G.abs() / (a * b).sqrt()
    K = s["n_src"]
    eye = torch.zeros_like(G)
    eye[..., :K] = torch.eye(K, dtype=G.dtype)
    G = G * (1 - eye)
    ctx.check(G[..., :K].max(), tol, f"outputs are independent {s['algo']}")
    ctx.check(G[..., K : s["C"]].max(), tol, f"background is independent {s['algo']}")
    if s.get("taps"):
        ctx.check(G[..., s["C"]:].max(), tol, "past is independent")
        return
    Rf = X[..., [s["ref"]], :, :] - Y.sum(-3, keepdim=True)
    num = torch.einsum("...cfn,...dfn->...fcd", Rf, Y.conj()).abs()
    a = X[..., [s["ref"]], :, :].abs().square().sum(-1).mT
    b = Y.abs().square().sum(-1).mT
    v = (num / (a[..., :, None] * b[..., None, :]).sqrt())
    ctx.check(v.max(), 5e-2, f"background uncorrelated with the outputs {s['algo']}")
