"""C32: the trace of the calls of the source model"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("the source or mask model of random separators (2-5 channels, any batch, taps, n_src, with and "
        "without checkpointing, in the STFT and time domains) is replaced by one that logs every reset and "
        "call; the log is checked against the specification: one reset before the first call, one call per "
        "iteration (and one more per iteration, on the same values, in the backward pass with "
        "checkpointing), the first on the unprocessed signals, the k-th on the result of k - 1 iterations, "
        "and every answer has an effect on the result; mask models are called once, on the reference "
        "microphone; non-trivial: at least one call is logged")


class Log(torch.nn.Module):
    """source model that logs its calls; ``twist``: change the answer of that call"""

    def __init__(self, inner, twist=None):
        super().__init__()
        self.inner, self.twist = inner, twist
        self.log, self.inputs = [], []

    def forward(self, X):
        self.log.append("call")
        self.inputs.append(X.detach().clone())
        W = self.inner(X)
        if self.twist is not None and len(self.inputs) == self.twist:
            # favour some of the frames, with a different pattern in each frequency
            n = torch.arange(W.shape[-1], dtype=W.dtype)
            W = W * (1 + 0.9 * torch.sin(0.7 * n))
        return W

    def reset(self):
        self.log.append("reset")
        if hasattr(self.inner, "reset"):
            self.inner.reset()


def mk(r):
    s = random_algo(r, n_iter=(0, 6), models=("laplace", "gauss", "power", "param"))
    if s["algo"] == "tiss" and r.random() < 0.3:
        s["dmc"] = True
    s["dom"] = "stft"
    return s


def mk_iter(r):
    s = random_algo(r, algos=ITER, n_iter=(0, 6), models=("laplace", "gauss", "power", "param"))
    if s["algo"] == "tiss":
        s["dmc"] = r.random() < 0.3
    s["dom"] = "stft"
    return s


def mk_wave(r):
    return dict(dom="wave", algo=r.choice(["tiss", "tiss", "ip2", "five"]), C=2, n_fft=16, n=r.randint(200, 500),
                batch=list(r.choice([(), (2,), (1, 2)])), n_iter=r.randint(0, 5), ref=r.randrange(2),
                dmc=r.random() < 0.3, model=r.choice(["laplace", "gauss"]), calls=r.randint(1, 3))


def plan(ctx):
    return expand("C32", ctx.seed, [mk_iter, mk, mk_wave, mk_iter], ctx.scaled(400, 8000), large="FNBCIM")


def protocol(ctx, m, n, what):
    ctx.event("calls of the model", m.log.count("call"))
    first = m.log.index("call") if "call" in m.log else len(m.log)
    ctx.expect(m.log.count("call") == n, f"one call per iteration ({what})", log=m.log, n_iter=n)
    ctx.expect("reset" not in m.log[first:], f"no reset between the iterations ({what})", log=m.log)
    ctx.expect(n == 0 or "reset" in m.log[:first], f"reset before the first call ({what})", log=m.log)


def run_wave(ctx, s):
    import torchiva

    g = gen(s["seed"])
    m = Log(make_model(s["model"]))
    sep = torchiva.nn.BSSSeparator(n_fft=s["n_fft"], n_iter=s["n_iter"], algo=s["algo"], source_model=m,
                                   proj_back_mic=s["ref"], use_dmc=s["dmc"] and s["algo"] == "tiss").double()
    for k in range(s["calls"]):
        x = torch.randn(tuple(s["batch"]) + (2, s["n"] + 16 * k), generator=g, dtype=torch.float64)
        m.log, m.inputs = [], []
        quiet(sep, x)
        protocol(ctx, m, s["n_iter"], "wave " + s["algo"])
        X = sep.stft(x)
        if s["algo"] in ("tiss", "ip2") and s["n_iter"]:
            ctx.check(rel(m.inputs[0], X), 1e-12, "first call on the microphones")


def run_beam(ctx, s):
    X = signal_for(s)
    m = Log(MaskNet(s["n_src"], s.get("n_masks", 2), seed=3))
    Y = quiet(build(s, model=m), X)
    ctx.expect(m.log == ["call"], "one call of the mask model", log=m.log)
    if m.inputs:
        ctx.event("calls of the model")
        ctx.check(rel(m.inputs[0], X[..., s["ref"], :, :]), 0.0, "masks from the reference microphone")


def run(ctx, s):
    if s["dom"] == "wave":
        return run_wave(ctx, s)
    if s["algo"] in BEAM:
        return run_beam(ctx, s)
    a, n = s["algo"], s["n_iter"]
    X = signal_for(s)
    inner = lambda: make_model("wpe" if a == "wpe" else s["model"],
                               s["F"] - (a == "five"), s["seed"])

    def go(n_iter, ref, twist=None, grad=False):
        m = Log(inner(), twist)
        sep = build(s, model=m, n_iter=n_iter, ref=ref)
        if not grad:
            return m, quiet(sep, X)
        Xg = X.clone().requires_grad_(True)
        Y = sep(Xg)
        if Y.requires_grad:
            nf = len(m.inputs)
            Y.abs().square().sum().backward()
            return m, nf
        return m, None

    ref = s.get("ref")
    m, Y = go(n, ref)
    what = a + (" checkpointed" if s.get("dmc") else "")
    protocol(ctx, m, n, what)
    m0, Y0 = go(n, None)
    m1, Y1 = go(n + 1, None)
    ctx.expect(len(m1.inputs) == n + 1, f"one call per iteration ({what})", log=m1.log)
    if len(m1.inputs) != n + 1 or len(m0.inputs) != n:
        return
    for k in range(n):
        ctx.check(rel(m1.inputs[k], m0.inputs[k]), 1e-9, f"iterations follow the same path ({what})", k=k)
    last = m1.inputs[n]
    want = Y0[..., 0, 1:, :] if a == "five" else Y0
    ctx.check(rel(last, want), 1e-9, f"call on the current estimate ({what})", n_iter=n)
    # the first call
    if a != "five":
        k = s.get("n_src") or s["C"]
        ctx.check(rel(m1.inputs[0], X[..., :k, :, :] if a != "wpe" else X), 1e-12, f"first call on the microphones ({what})")
    # every answer is used
    if n > 0:
        k = 1 + s["seed"] % n
        _, Yk = go(k, ref)
        _, Yt = go(k, ref, twist=k)
        ctx.event("answers twisted")
        ctx.expect(rel(Yt, Yk) > 1e-8, f"the answer of the model has an effect ({what})", call=k, n_iter=n, change=rel(Yt, Yk))
    if s.get("dmc") and n > 0:
        mg, nf = go(n, ref, grad=True)
        if nf is not None:
            ctx.event("checkpointed backward passes")
            ctx.expect(nf == n, f"one call per iteration ({what})", log=mg.log)
            ctx.expect(len(mg.inputs) == 2 * n, "backward computes every iteration once more", calls=len(mg.inputs), n_iter=n)
            if len(mg.inputs) == 2 * n:
                for k in range(n):
                    ctx.check(rel(mg.inputs[2 * n - 1 - k], mg.inputs[k]), 1e-12, "backward computes the same values", k=k)
