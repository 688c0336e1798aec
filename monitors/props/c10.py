"""C10: the iterations never increase the IVA objective"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random determined mixtures (2-5 channels, any batch, synthetic and recorded "
        "signals, with and without taps) separated with the spherical Laplace and Gauss "
        "models; the estimates are recorded at every iteration, the demixing matrices are "
        "recovered by regression, and the negative log-likelihood, minimised over the "
        "scale of each source, is evaluated by the monitor after every iteration; "
        "non-trivial: the objective decreases overall")
ASSUMPTIONS = ["tolerance for the diagonal loading and the clamps (1e-5) of the updates",
               "demixing matrices with condition number over 1e4 are not judged"]


def mk(r):
    s = random_algo(r, algos=("tiss", "tiss", "ip", "ip2"), overdet=False, n_iter=(3, 15),
                    models=("laplace", "laplace", "gauss"), N=(40, 120), F=(3, 10),
                    batches=[(), (), (2,), (1, 2)])
    s["ref"] = None
    if s.get("taps"):
        s["N"] += 8 * s["C"] * s["taps"]
    return s


def plan(ctx):
    return expand("C10", ctx.seed, [mk] * 5 + [mk_limit], ctx.scaled(480, 9000), large="FNBI")


def mk_limit(r):
    s = random_algo(r, algos=("tiss", "tiss", "ip", "ip2"), overdet=False,
                    models=("laplace",), N=(80, 120), F=(2, 5), max_chan=4,
                    batches=[(), (), (2,)], kinds=["speechlike", "onoff"])
    s["ref"] = None
    s["n_iter"] = 200
    s["what"] = "limit"
    if s.get("taps"):
        s["taps"] = min(s["taps"], 2)
        s["N"] += 8 * s["C"] * s["taps"]
    return s


def run_limit(ctx, s):
    """after many iterations the weighted cross-correlations vanish"""
    X = signal_for(s)
    Y = quiet(build(s, eps=EPS, model=make_model("laplace", eps=EPS)), X)
    Y0 = quiet(build(s, eps=EPS, n_iter=190, model=make_model("laplace", eps=EPS)), X)
    n = Y.abs().square().mean(-1).sqrt()
    step = rel(Y / n[..., None], Y0 / Y0.abs().square().mean(-1).sqrt()[..., None])
    if not step < 1e-5:
        raise Skip("not converged")
    Y = Y / n.mean(-1)[..., None, None]
    r = Y.abs().square().sum(-2).sqrt()
    if float((r / r.mean(-1, keepdim=True)).min()) < 1e-3:
        raise Skip("not differentiable at the limit (a frame is nulled)")
    phi = 1 / Y.abs().square().sum(-2, keepdim=True).sqrt()
    C = torch.einsum("...kfn,...jfn->...fkj", phi * Y, Y.conj())
    d = torch.diagonal(C, dim1=-2, dim2=-1).real
    off = C - torch.diag_embed(d).to(C.dtype)
    ctx.check((off.abs() / (d[..., :, None] * d[..., None, :]).sqrt()).max(), 1e-3,
              "stationary: sources " + s["algo"])
    ctx.check((d / d.mean(-2, keepdim=True) - 1).abs().max(), 1e-3,
              "stationary: scales " + s["algo"])
    taps, delay = s.get("taps", 0), s.get("delay", 0)
    if taps:
        B = delayed(X, range(delay + 1, delay + taps + 1))
        R = torch.einsum("...kfn,...jfn->...fkj", phi * Y, B.conj())
        b = torch.einsum("...kfn,...jfn->...fkj", phi.expand(Y.shape).to(Y.dtype), B.abs().square().to(Y.dtype)).real
        ctx.check((R.abs() / (d[..., :, None] * b).sqrt()).max(), 1e-3,
                  "stationary: past of the microphones")


def objective(model, Y, W):
    """(..., s, f, n), (..., f, s, c) -> (...)"""
    F = Y.shape[-2]
    P = Y.real.square() + Y.imag.square()
    ld = torch.linalg.slogdet(W)[1].sum(-1)
    if model == "laplace":
        r = P.sum(-2).sqrt().mean(-1)
        return (2 * F * torch.log(r)).sum(-1) - 2 * ld
    v = P.mean(-2)
    return (F * torch.log(v).mean(-1)).sum(-1) - 2 * ld


def run(ctx, s):
    if s.get("what") == "limit":
        return run_limit(ctx, s)
    X = signal_for(s)
    tap = Tap(make_model(s["model"], eps=EPS))
    Y = quiet(build(s, model=tap, eps=EPS), X)
    seq = tap.inputs + [Y]
    taps, delay = s.get("taps", 0), s.get("delay", 0)
    basis = torch.cat((X, delayed(X, range(delay + 1, delay + taps + 1))), dim=-3)
    J, regular = [], []
    for y in seq:
        # the Gauss likelihood is not bounded: it grows without limit when the filters
        # null a single frame, the statistics are then singular
        v = (y.real.square() + y.imag.square()).mean(-2)
        regular.append(((v / v.mean(-1, keepdim=True)).amin(-1) > 1e-4).all(-1))
        W, R = fit(basis, y)
        W = W[..., : s["C"]]
        Wn = W / torch.linalg.norm(W, dim=-1, keepdim=True)
        if float(torch.linalg.cond(Wn).max()) > 1e4:
            raise Skip("badly conditioned demixing")
        J.append(objective(s["model"], y, W) / (s["F"] * s["C"]))
    J = torch.stack(J)
    regular = torch.stack(regular)
    d = (J[1:] - J[:-1])[regular[:-1]]
    if d.numel() == 0:
        raise Skip("singular statistics")
    tol = TOL[s["model"]][s["algo"]]
    ctx.event("iterations observed", d.numel())
    ctx.check(d.max(), tol, f"no increase ({s['model']}, {s['algo']})", J=J.flatten())
    if regular.all():
        ctx.check((J[-1] - J[0]).max(), -1e-6 if s["kind"] != "gauss" else tol,
                  "decreases overall")


EPS = 1e-12
TOL = dict(laplace=dict(tiss=1e-6, ip=1e-6, ip2=1e-6),
           gauss=dict(tiss=1e-6, ip=1e-6, ip2=1e-6))
