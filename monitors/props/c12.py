"""C12: WPE removes what can be predicted from the past, and nothing else"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random reverberant signals (1-5 channels, 0-4 frames of delay, 1-6 taps, any "
        "batch, default weights and user weights); monitors: the frames that have no past "
        "are left alone, what is removed is a linear function of the past beyond the "
        "delay, the residual is orthogonal to that past under the weights of the previous "
        "iterate, the likelihood never decreases, and an autoregressive reverberation is "
        "undone; non-trivial: the signal is changed by the processing")
ASSUMPTIONS = ["eps is set to 1e-12 where the exact solution is needed"]


def mk(r):
    C, taps, delay = r.randint(1, 5), r.randint(1, 6), r.randint(0, 4)
    if r.random() < 0.1:
        delay = r.randint(5, 12)
    return dict(what="exact", algo="wpe", C=C, F=r.randint(1, 8), taps=taps, delay=delay,
                N=r.randint(20, 60) + 5 * C * taps + delay, n_iter=r.randint(1, 5),
                batch=list(r.choice(BATCHES)),
                kind=r.choice(["speechlike", "onoff", "lowrank", "gauss"]),
                reverb=r.randint(0, 4), weights=r.choice(["default", "user", "short"]),
                scale=r.choice([1.0, 1.0, 1e-2, 1e2]))


def mk_ar(r):
    C, taps, delay = r.randint(2, 3), r.randint(1, 3), r.randint(0, 3)
    return dict(what="ar", algo="wpe", C=C, F=r.randint(2, 6), taps=taps, delay=delay, N=1500,
                n_iter=4, batch=list(r.choice([(), (2,)])), kind=r.choice(["speechlike", "gauss"]))


def plan(ctx):
    return expand("C12", ctx.seed, [mk] * 5 + [mk_ar], ctx.scaled(420, 9000), large="FNBCIM")


class Weights(torch.nn.Module):
    """user weights that distinguish the frames and the frequencies"""

    def forward(self, Y):
        P = Y.abs().square().mean(-3)
        t = torch.arange(P.shape[-1], dtype=P.dtype)
        return (1 + 0.5 * torch.sin(t)) / (0.3 * P.mean((-2, -1), keepdim=True) + P)


def run(ctx, s):
    if s["what"] == "ar":
        return run_ar(ctx, s)
    X = signal_for(s)
    taps, delay = s["taps"], s["delay"]
    B = delayed(X, range(delay + 1, delay + taps + 1))
    user = s["weights"] != "default"
    tap = Tap(Weights()) if user else None
    iterates = [X]
    if user:
        Y = quiet(build(s, model=tap, eps=1e-12), X)
        iterates = tap.inputs
        ws = tap.outputs
    else:
        for k in range(1, s["n_iter"] + 1):
            iterates.append(quiet(build(s, n_iter=k, eps=1e-12), X))
        Y = iterates.pop()
        ws = [1 / y.abs().square().mean(-3) for y in iterates]
    if not check_out(ctx, Y, X.shape, X.dtype):
        return
    amp = X.abs().amax((-3, -2, -1), keepdim=True)
    ctx.check(((Y - X)[..., : delay + 1].abs() / amp).max(), 1e-10, "frames without past")
    D = Y - X
    change = float(D.abs().square().sum() / X.abs().square().sum())
    ctx.expect(change > 1e-6, "the signal is processed")
    W, R = fit(B, D)
    ctx.check((R.abs() / amp).max(), 1e-6, "removes a linear function of the past")
    for i, (w, y) in enumerate(zip(ws, (iterates + [Y])[1:])):
        # (nearly) silent frames have unbounded weights
        if float((w.median(-1)[0] / w.amax(-1)).min()) < 1e-3:
            ctx.event("iterations with singular weights")
            continue
        w = w[..., None, :, :]
        num = torch.einsum("...cfn,...dfn->...fcd", w * y, B.conj())
        a = (w * y.abs().square()).sum(-1).mT
        b = (w * B.abs().square()).sum(-1).mT
        ctx.check((num.abs() / (a[..., :, None] * b[..., None, :]).sqrt().clamp(min=1e-300)).max(),
                  1e-5, "residual orthogonal to the past")
    if not user:
        J = torch.stack([torch.log(y.abs().square().mean(-3)).sum((-2, -1)) for y in iterates + [Y]])
        lam = torch.stack([y.abs().square().mean(-3).amin() for y in iterates + [Y]]).min()
        if float(lam) > 1e-11:
            ctx.check((J[1:] - J[:-1]).max() / (s["F"] * s["N"]), 1e-7, "likelihood increases")
    # the usual eps only has a small effect
    if s["scale"] == 1.0:
        m = Weights() if user else None
        Z = quiet(build(s, model=m, n_iter=1), X)
        Y1 = quiet(build(s, model=m, n_iter=1, eps=1e-12), X)
        e = float((Z - Y1).abs().square().sum() / X.abs().square().sum())
        ctx.check(e, 0.05, "default eps")


def run_ar(ctx, s):
    g = gen(s["seed"])
    batch = tuple(s["batch"])
    C, F, N, taps, delay = s["C"], s["F"], s["N"], s["taps"], s["delay"]
    S = sources(g, batch, C, F, N, s["kind"])
    H = crandn(g, *batch, F, C, C * taps)
    H = 0.7 / taps ** 0.5 * H / torch.linalg.matrix_norm(H, ord=2)[..., None, None]
    out = []
    for t in range(N):
        past = torch.cat([out[t - d] if t >= d else torch.zeros_like(S[..., 0])
                          for d in range(delay + 1, delay + taps + 1)], dim=-2)
        out.append(S[..., t] + torch.einsum("...fck,...kf->...cf", H, past))
    X = torch.stack(out, dim=-1)
    Y = quiet(build(s), X)
    e0 = (X - S).abs().square().sum((-3, -2, -1)) / S.abs().square().sum((-3, -2, -1))
    e1 = (Y - S).abs().square().sum((-3, -2, -1)) / S.abs().square().sum((-3, -2, -1))
    ctx.check((e1 / (e0 + 0.1)).max(), 0.15, "reverberation undone", before=e0, after=e1)
