"""C38: models can be trained through every method, whatever the recordings"""
import math

import torch

from ..core import Skip, expand
from ..util import *
from .c27 import degrade

RULE = ("(a) batches that mix ordinary recordings with zero-padded, silent, partly silent ones, dead or "
        "duplicated microphones, empty bands and tiny or large levels are propagated forward and backward "
        "through random separators, dereverberation, beamformers, scale restoration and the transforms, with "
        "every source model: all gradients of inputs and parameters must be finite, every trainable "
        "parameter gets one, and the gradients of the ordinary recordings are those they have alone; "
        "(b) small networks are trained for a few steps of Adam through every trainable method: losses and "
        "parameters stay finite, every parameter moves, the loss decreases along the gradient, and training with memory checkpointing follows the "
        "same path as without; non-trivial: the gradients are not all zero / the parameters move")
ASSUMPTIONS = ["MVDR and GEV need invertible covariances: only silent segments are judged",
               "FIVE uses eigenvectors, whose gradients are not defined for repeated eigenvalues: only "
               "silent segments are judged"]

KINDS = ["zero", "silentch", "silentref", "dup", "dupall", "zerobins", "halfsilent", "padded", "padded",
         "tiny", "huge", "onebin", "clipped", "dc"]
SEGMENTS = ["halfsilent", "padded", "clipped"]


def mk_finite(r):
    s = random_algo(r, n_iter=(1, 5), N=(30, 50), F=(3, 7), max_chan=4, levels=(1.0,), batches=[(2,)],
                    models=("laplace", "gauss", "nmf", "param", "param"), kinds=["speechlike", "onoff"])
    s["what"] = "algo"
    limited = s["algo"] in ("mvdr", "gev", "five")
    s["deg"] = [r.choice(SEGMENTS if limited else KINDS) for _ in range(r.randint(1, 2))]
    s["dmc"] = s["algo"] == "tiss" and s["model"] != "nmf" and r.random() < 0.3
    s["single"] = r.random() < 0.4
    s["where"] = r.randrange(s["C"])
    return s


FNS = ["blstm", "simple", "glu", "laplace", "gauss", "nmf", "mvdrsupport", "md_l2", "md_lp", "md_model",
       "md_phase", "projection_back", "stft", "wave"]


def mk_fn(r):
    return dict(what="fn", fn=r.choice(FNS), C=2, F=9, N=r.randint(20, 40), k=r.randint(0, 7), where=r.randrange(2),
                p=r.choice([0.5, 1.0, 1.5, 1.9]), q=r.choice([None, None, 1.9, 2.0]),
                deg=[r.choice(KINDS) for _ in range(r.randint(1, 2))], single=r.random() < 0.4, ref=0)


def mk_train(r):
    a = r.choice(["tiss", "tiss", "tiss", "ip", "ip2", "mvdr", "mwf", "gev", "five", "wpe"])
    s = random_algo(r, algos=(a,), n_iter=(1, 3), N=(40, 60), F=(5, 8), max_chan=3, levels=(1.0,),
                    batches=[(2,)], models=("param",), kinds=["speechlike"])
    if a == "wpe":
        s["model"] = "wpeparam"
    s["what"] = "train"
    s["steps"] = 8
    return s


def plan(ctx):
    return expand("C38", ctx.seed, [mk_finite, mk_fn, mk_finite, mk_train], ctx.scaled(400, 8000), large="FNCI")


def signal(s, g):
    """normal recordings first, then the degenerate ones"""
    el = [mixture(s["seed"], (), s["C"], s["F"], s["N"], s.get("kind", "speechlike"))]
    for i, k in enumerate(s["deg"]):
        X = mixture(s["seed"] + 1 + i, (), s["C"], s["F"], s["N"], s.get("kind", "speechlike"))
        if k == "padded":
            X[..., -s["N"] // 4:] = 0
            if s["seed"] % 2:
                X[..., :3] = 0
        else:
            X = degrade(X, k, s["ref"] if s.get("ref") is not None else 0, s["where"], g)
        el.append(X)
    X = torch.stack(el)
    return X.to(torch.complex64) if s["single"] else X


def function(s):
    import torchiva as tv

    F, k = s["F"], s["k"]
    torch.manual_seed(3)
    fn = s["fn"]
    nets = {
        "laplace": tv.models.LaplaceModel, "gauss": tv.models.GaussModel, "nmf": tv.models.NMFModel,
        "blstm": lambda: tv.models.BLSTMMask(n_freq=F, n_bottleneck=3, n_hidden=4, mag_spec=bool(k % 2),
                                             log_spec=bool(k & 2)),
        "simple": lambda: tv.models.SimpleModel(n_freq=F, n_mels=3),
        "glu": lambda: tv.models.GLUMask(F, 4, mag_spec=bool(k % 2), log_spec=bool(k & 2)),
        "mvdrsupport": lambda: tv.models.MaskMVDRSupport(n_input=F, n_hidden=4),
    }
    if fn in nets:
        m = nets[fn]().eval()
        m = m if s["single"] else m.double()
        if fn == "nmf":
            def f(X):
                torch.manual_seed(11)
                m.reset()
                return m(X)
            return f, None
        return m, m
    if fn == "md_l2":
        return lambda X: tv.minimum_distortion(X, X.sum(-3)), None
    if fn == "md_lp":
        q = s["q"] if s["q"] is None or s["q"] >= s["p"] else 2.0
        return lambda X: tv.minimum_distortion(X, X.sum(-3), p=s["p"], q=q, max_iter=3, rtol=0.0), None
    if fn == "md_model":
        return lambda X: tv.minimum_distortion(X, X.sum(-3), model=tv.models.LaplaceModel(), max_iter=3, rtol=0.0), None
    if fn == "md_phase":
        return lambda X: tv.minimum_distortion_l2_phase(X, X.sum(-3)), None
    if fn == "projection_back":
        return lambda X: tv.projection_back(X, X.sum(-3)), None
    return None, None


def loss_of(Y, single_scale=None):
    P = Y.real.square() + Y.imag.square() if Y.is_complex() else Y.square()
    w = torch.linspace(0.5, 1.5, P.shape[-1], dtype=P.dtype)
    # per element of the batch, any level
    m = P.detach().flatten(1).mean(-1).clamp(min=1e-12)
    return (torch.log(0.1 + P / m.reshape((-1,) + (1,) * (P.ndim - 1))) * w).flatten(1).mean(-1).sum()


def gradients(f, mod, X):
    Xg = X.clone().requires_grad_(True)
    if mod is not None:
        mod.zero_grad(set_to_none=True)
    Y = f(Xg)
    loss_of(Y).backward()
    P = {} if mod is None else {n: (None if p.grad is None else p.grad.clone()) for n, p in mod.named_parameters()
                                if not n.endswith("fake")}
    return Y.detach(), Xg.grad, P


def judge(ctx, s, f, mod, X, what):
    for k in s["deg"]:
        ctx.event("recording " + k)
    Y, gX, P = gradients(f, mod, X)
    ctx.expect(finite(Y), f"finite output ({what})", deg=s["deg"])
    for i in range(len(X)):
        ctx.expect(finite(gX[i]), f"finite gradient of the input ({what})", kind=(["normal"] + s["deg"])[i])
    for n, p in P.items():
        ctx.expect(p is not None, f"every parameter has a gradient ({what})", parameter=n)
        if p is not None:
            ctx.event("gradients of parameters")
            ctx.expect(finite(p), f"finite gradient of the parameters ({what})", parameter=n, deg=s["deg"])
    ctx.expect(float(gX[0].abs().max()) > 0, f"the gradient is not zero ({what})")
    if "nmf" in what or s["single"]:
        # initialised at random, for the whole batch; rounding
        return
    _, g1, _ = gradients(f, mod, X[:1])
    if finite(gX[0]) and finite(g1):
        ctx.check(rel(gX[0], g1[0], 1e-9), 1e-4, f"ordinary recordings are not affected ({what})",
                  deg=s["deg"])


def run_fn(ctx, s, g):
    import torchiva as tv

    if s["fn"] in ("stft", "wave"):
        dt = torch.float32 if s["single"] else torch.float64
        x = torch.randn(1 + len(s["deg"]), 2, 400, generator=g, dtype=torch.float64).to(dt)
        for i in range(len(s["deg"])):
            if s["k"] % 2:
                x[1 + i, :, 250:] = 0
            else:
                x[1 + i] = 0
        if s["fn"] == "stft":
            st = tv.STFT(16).to(dt)
            return judge(ctx, s, lambda x: st.inv(st(x)), None, x, "stft")
        net = tv.models.BLSTMMask(n_freq=9, n_bottleneck=3, n_hidden=4).eval()
        sep = tv.nn.BSSSeparator(n_fft=16, n_iter=2, algo=["tiss", "ip2"][s["k"] // 2 % 2], source_model=net).to(dt)
        return judge(ctx, s, sep, sep, x, "wave")
    f, mod = function(s)
    X = signal(s, g)
    judge(ctx, s, f, mod, X, s["fn"])


def run_finite(ctx, s, g):
    mod = build(s, mseed=s["seed"], F=s["F"] - (s["algo"] == "five"))
    X = signal(s, g)
    mod = mod.float() if s["single"] else mod.double()
    if s.get("model") == "nmf":
        def f(X):
            torch.manual_seed(11)
            return mod(X)
        Y, gX, _ = gradients(f, mod, X)
        for k in s["deg"]:
            ctx.event("recording " + k)
        for i in range(len(X)):
            ctx.expect(finite(gX[i]), "finite gradient of the input (" + s["algo"] + " nmf)", kind=(["normal"] + s["deg"])[i])
        return
    judge(ctx, s, mod, mod, X, s["algo"] + (" " + s["model"] if s.get("model") else ""))


class ParamMask(torch.nn.Module):
    """trainable masks (..., n_src, n_masks, n_freq, n_frames)"""

    def __init__(self, n_src, n_masks, n_freq, seed):
        super().__init__()
        self.nets = torch.nn.ModuleList([ParamModel(n_freq, seed=seed + i) for i in range(n_src * n_masks)])
        self.n_src, self.n_masks = n_src, n_masks

    def forward(self, X):
        M = torch.stack([net(X) for net in self.nets], dim=-3)
        return M.reshape(X.shape[:-2] + (self.n_src, self.n_masks) + X.shape[-2:])


def run_train(ctx, s, g):
    X = mixture(s["seed"], (2,), s["C"], s["F"], s["N"], "speechlike")
    X[1, ..., -5:] = 0
    T = crandn(g, 2, 1, s["F"], s["N"]) * X.abs().mean() * 0.1

    def train(dmc):
        net = ParamMask(s["n_src"], s.get("n_masks", 2), s["F"], s["seed"]) if s["algo"] in BEAM else None
        mod = build(s, model=net, mseed=s["seed"], F=s["F"] - (s["algo"] == "five"), dmc=dmc).double()
        opt = torch.optim.Adam(mod.parameters(), lr=3e-3)
        start = [p.detach().clone() for p in mod.parameters()]
        losses = []

        def loss():
            Y = mod(X)
            # the power of the odd frequencies relative to that of the others
            return torch.log((Y[..., ::2, :] - T[..., ::2, :]).abs().square().mean() + 1e-9) - torch.log(
                Y[..., 1::2, :].abs().square().mean() + 1e-9)

        for k in range(s["steps"]):
            opt.zero_grad()
            l = loss()
            l.backward()
            losses.append(float(l))
            if k == 0 and not dmc:
                # the direction of the gradient, for small enough steps
                P = [p for p in mod.parameters() if p.grad is not None]
                G = [p.grad.clone() for p in P]
                n = torch.sqrt(sum(u.square().sum() for u in G))
                line = []
                for t in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6):
                    if line and line[-1] < losses[0]:
                        break
                    with torch.no_grad():
                        for p, u in zip(P, G):
                            p -= t * u / n
                        line.append(float(loss()))
                        for p, u in zip(P, G):
                            p += t * u / n
                ctx.expect(min(line) < losses[0], f"the loss decreases along the gradient ({s['algo']})",
                           start=losses[0], line=line)
            opt.step()
        if losses[-1] < losses[0]:
            ctx.event("trainings that improve")
        return mod, start, losses

    mod, start, losses = train(False)
    ctx.event("steps of training", len(losses))
    ctx.expect(all(map(math.isfinite, losses)), f"finite losses ({s['algo']})", losses=losses)
    ctx.expect(all(finite(p) for p in mod.parameters()), f"finite parameters ({s['algo']})")
    moved = [float((p - q).abs().max()) for (n, p), q in zip(mod.named_parameters(), start) if not n.endswith("fake")]
    ctx.expect(bool(moved) and min(moved) > 0, f"every parameter is trained ({s['algo']})", moved=moved)
    if s["algo"] == "tiss":
        _, _, l2 = train(True)
        d = max(abs(a - b) for a, b in zip(losses, l2))
        ctx.check(d / (1 + max(map(abs, losses))), 1e-6, "same path with checkpointing", losses=losses, dmc=l2)


def run(ctx, s):
    g = gen(s["seed"])
    if s["what"] == "fn":
        return run_fn(ctx, s, g)
    if s["what"] == "train":
        return run_train(ctx, s, g)
    run_finite(ctx, s, g)
