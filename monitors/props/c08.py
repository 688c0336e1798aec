"""C08: demixing matrix checkpointing changes memory use, not results or gradients"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random mixtures (2-4 channels, determined and overdetermined, with and without "
        "taps, any batch shape) and differentiable source models (with and without "
        "dropout) are separated with and without checkpointing; outputs and gradients "
        "w.r.t. the input and all the parameters of the model are compared; non-trivial: "
        "the gradients are not zero")


def mk(r):
    s = random_algo(r, algos=("tiss",), max_chan=4, n_iter=(1, 7), N=(20, 50), F=(3, 8),
                    batches=[(), (2,), (1, 2), (3,)])
    s["dropout"] = r.choice([0.0, 0.0, 0.3])
    s["net"] = r.choice(["param", "param", "power", "laplace", "gauss", "blstm"])
    # a model without parameters can only be differentiated w.r.t. the input
    s["xgrad"] = r.random() < 0.7 or s["net"] not in ("param", "blstm")
    s["train"] = r.random() < 0.7
    if r.random() < 0.2:
        s["ref"] = None
    s["frozen"] = r.random() < 0.2
    return s


def mk_wave(r):
    return dict(algo="wave", C=2, n_fft=16, n=r.randint(300, 500), n_iter=r.randint(1, 5),
                taps=r.randint(0, 2), delay=r.randint(0, 1), batch=list(r.choice([(), (2,)])))


def plan(ctx):
    return expand("C08", ctx.seed, [mk, mk, mk, mk, mk_wave], ctx.scaled(260, 6000), large="FNBI")


def net(s):
    import torchiva

    torch.manual_seed(s["seed"])
    if s["net"] == "param":
        m = ParamModel(s["F"], seed=s["seed"], dropout=s["dropout"])
    elif s["net"] == "blstm":
        m = torchiva.models.BLSTMMask(n_freq=s["F"], n_bottleneck=2, n_hidden=3,
                                      dropout_p=s["dropout"]).double()
    else:
        m = make_model(s["net"])
    if s.get("frozen"):
        ps = list(m.parameters())
        if len(ps) > 1:
            ps[0].requires_grad_(False)
    return m.train(s["train"])


def go(ctx, s, dmc):
    if s["algo"] == "wave":
        import torchiva

        g = gen(s["seed"])
        X = torch.randn(tuple(s["batch"]) + (2, s["n"]), generator=g, dtype=torch.float64)
        X.requires_grad_(True)
        model = ParamModel(s["n_fft"] // 2 + 1, seed=s["seed"])
        sep = torchiva.nn.BSSSeparator(n_fft=s["n_fft"], n_iter=s["n_iter"], algo="tiss",
                                       n_taps=s["taps"], n_delay=s["delay"],
                                       source_model=model, use_dmc=dmc).double()
    else:
        X = signal_for(s)
        if s["xgrad"]:
            X.requires_grad_(True)
        model = net(s)
        sep = build(s, model=model, dmc=dmc)
    torch.manual_seed(s["seed"] + 1)
    Y = sep(X)
    g = gen(s["seed"] + 5)
    T = torch.randn(Y.shape, generator=g, dtype=Y.dtype)
    loss = (Y - T).abs().square().sum() if not Y.is_complex() else (
        (Y.real - T.real).square().sum() + (Y.imag - T.imag).square().sum())
    grads = {}
    if loss.requires_grad:
        loss.backward()
        if X.requires_grad:
            grads["input"] = X.grad
        for n, p in model.named_parameters():
            grads[n] = p.grad
    return Y.detach(), grads


def run(ctx, s):
    Y0, g0 = go(ctx, s, False)
    Y1, g1 = go(ctx, s, True)
    ctx.expect(finite(Y0), "finite")
    ctx.check(rel(Y1, Y0), 1e-7, "output with = without checkpointing")
    ctx.expect(set(g0) == set(g1), "same gradients available", a=sorted(g0), b=sorted(g1))
    for k in g0:
        a, b = g0[k], g1.get(k)
        za = a is None or float(a.abs().max()) == 0
        zb = b is None or float(b.abs().max()) == 0
        if za or zb:
            ctx.expect(za and zb, "gradient missing", of=k)
            continue
        ctx.event("gradients compared")
        ctx.check(rel(b, a), 1e-6, "gradient with = without checkpointing", of=k)
