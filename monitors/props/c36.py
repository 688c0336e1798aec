"""C36: copies, saving and restoring"""
import copy
import io
import pickle

import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random separators, dereverberation, extractor, beamformers, whole separators (with spherical, low-rank "
        "and neural models) and models are used (not at all, without gradients, in inference mode, in a "
        "training step, with gradients but without a backward pass, after a failed call), then copied (deep "
        "copy, pickle, saved file, saved parameters loaded in a new object), and the copies are used, trained "
        "and switched between training and evaluation; copies must give the results of the original, neither "
        "may influence the other, saved parameters must have the entries of a new object, and "
        "parameters, gradients and modes must reach the models; non-trivial: a copy is compared")

HIST = ["new", "call", "inference", "train", "forward", "failed", "two calls"]
HOW = ["deepcopy", "pickle", "file", "parameters"]


def mk(r):
    s = random_algo(r, n_iter=(0, 3), models=("laplace", "gauss", "power", "param", "nmf"), N=(30, 50))
    s["cls"] = "sep"
    if s["algo"] == "tiss" and r.random() < 0.3 and s.get("model") != "nmf":
        s["dmc"] = True
    s["hist"], s["how"] = r.choice(HIST), r.choice(HOW)
    return s


def mk_wave(r):
    algo = r.choice(["tiss", "tiss", "ip2", "five", "mvdr", "mwf", "gev"])
    return dict(cls="wave", algo=algo, net=r.choice(["glu", "blstm", "simple", "laplace", "nmf"]), n_fft=16,
                n=r.randint(200, 400), batch=list(r.choice([(), (2,)])), n_iter=r.randint(1, 2), ref=r.randrange(2),
                hist=r.choice(HIST), how=r.choice(HOW), dmc=r.random() < 0.3)


def mk_model(r):
    return dict(cls="model", net=r.choice(["glu", "blstm", "simple", "laplace", "gauss", "nmf", "stft"]),
                F=9, N=r.randint(20, 40), batch=list(r.choice([(), (2,), (2, 2)])),
                hist=r.choice([h for h in HIST if h != "failed"]), how=r.choice(HOW))


def plan(ctx):
    return expand("C36", ctx.seed, [mk, mk_wave, mk_model, mk], ctx.scaled(400, 8000), large="FNBCIM")


class TwoMasks(torch.nn.Module):
    """masks of a beamformer out of a network with one mask"""

    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, X):
        m = self.net(X)[..., None, None, :, :]
        return torch.cat((m, 1 - 0.9 * m), -3)


def network(name, F, seed):
    import torchiva
    from torchiva import models

    with torch.random.fork_rng():
        torch.manual_seed(seed % 1000)
        return {
            "glu": lambda: models.GLUMask(n_freq=F, n_bottleneck=4),
            "blstm": lambda: models.BLSTMMask(n_freq=F, n_bottleneck=4, n_hidden=3),
            "simple": lambda: models.SimpleModel(n_freq=F, n_mels=4),
            "laplace": lambda: models.LaplaceModel(),
            "gauss": lambda: models.GaussModel(),
            "nmf": lambda: models.NMFModel(n_basis=2),
            "stft": lambda: torchiva.STFT(16, dtype=torch.float64),
        }[name]()


def maker(s):
    """(new(seed): object, input)"""
    import torchiva

    g = gen(s["seed"])
    if s["cls"] == "sep":
        return (lambda k=0: build(s, model=sub(s, k))), signal_for(s)
    if s["cls"] == "model":
        if s["net"] == "stft":
            X = torch.randn(tuple(s["batch"]) + (300,), generator=g, dtype=torch.float64)
        else:
            X = crandn(g, *s["batch"], s["F"], s["N"])
        return (lambda k=0: network(s["net"], s["F"], s["seed"] + k).double().eval()), X
    x = torch.randn(tuple(s["batch"]) + (2, s["n"]), generator=g, dtype=torch.float64)

    def new(k=0):
        net = network(s["net"] if s["algo"] not in BEAM or s["net"] not in ("nmf", "laplace") else "glu",
                      s["n_fft"] // 2 + (s["algo"] != "five"), s["seed"] + k)
        if s["algo"] in BEAM:
            net = TwoMasks(net)
        return torchiva.nn.BSSSeparator(n_fft=s["n_fft"], n_iter=s["n_iter"], algo=s["algo"], source_model=net,
                                        proj_back_mic=s["ref"], use_dmc=s["dmc"]).double().eval()
    return new, x


def sub(s, k):
    if s["algo"] in BEAM or not s.get("model"):
        return None
    return make_model(("wpeparam" if s["model"] == "param" else "wpe") if s["algo"] == "wpe" else s["model"],
                      s["F"] - (s["algo"] == "five"), s["seed"] + k)


def call(f, x):
    torch.manual_seed(11)
    if hasattr(f, "reset"):
        f.reset()
    with torch.no_grad():
        return f(x.clone())


def history(ctx, s, f, x):
    h = s["hist"]
    if h in ("call", "two calls"):
        call(f, x)
        if h == "two calls":
            call(f, x.flip(-1))
    elif h == "inference":
        with torch.inference_mode():
            f(x)
    elif h in ("train", "forward"):
        # the input carries no gradient
        Y = f(x)
        if h == "train" and Y.requires_grad and (s.get("model") == "param" or s.get("net") in ("glu", "blstm", "simple")):
            ctx.event("training steps before the copy")
            Y.abs().square().sum().backward()
            with torch.no_grad():
                for p in f.parameters():
                    if p.grad is not None:
                        p -= 0.01 * p.grad / (1e-9 + p.grad.abs().max())
    elif h == "failed":
        try:
            call(f, x[..., :0, :] if s["cls"] == "wave" else x[..., :0, :, :])
        except Exception:
            pass


def pars(f):
    return {k: v.detach().clone() for k, v in f.state_dict().items()}


def run(ctx, s):
    new, x = maker(s)
    f = new()
    p0 = pars(f)
    history(ctx, s, f, x)
    what = s["net"] if s["cls"] == "model" else s["algo"]
    ctx.event("history: " + s["hist"])
    ctx.event("copied: " + s["how"])
    # what is saved
    p1 = pars(f)
    ctx.expect(list(p1) == list(p0), "saved entries do not depend on the history", of=what, diff=sorted(set(p0) ^ set(p1)))
    if s["hist"] != "train":
        ctx.expect(all(torch.equal(p0[k], p1[k]) for k in p0 if k in p1), "calls do not change the parameters", of=what)
    # the copy
    if s["how"] == "deepcopy":
        c = copy.deepcopy(f)
    elif s["how"] == "pickle":
        c = pickle.loads(pickle.dumps(f))
    elif s["how"] == "file":
        b = io.BytesIO()
        torch.save(f, b)
        b.seek(0)
        c = torch.load(b, weights_only=False)
    else:
        b = io.BytesIO()
        torch.save(f.state_dict(), b)
        b.seek(0)
        c = new(1)
        c.load_state_dict(torch.load(b, weights_only=True), strict=True)
    ctx.expect(type(c) is type(f), "copy of the same type", of=what)
    ctx.expect(c.training == f.training, "copy in the same mode", of=what)
    own = {t.untyped_storage().data_ptr() for t in list(f.parameters()) + list(f.buffers()) if t.numel()}
    ctx.expect(not any(t.untyped_storage().data_ptr() in own for t in list(c.parameters()) + list(c.buffers()) if t.numel()),
               "copy has its own memory", of=what)
    ref = new()
    ref.load_state_dict(p1)
    Y0 = call(ref, x)
    Yc = call(c, x)
    tol = 1e-9
    ctx.check(rel(Yc, Y0), tol, f"copy gives the result of the original ({s['how']})", of=what, hist=s["hist"])
    # use and change the copy: the original stays
    call(c, x.flip(-1))
    n = 0
    with torch.no_grad():
        for k, p in c.named_parameters():
            if not k.endswith("fake"):
                p += 0.3 * torch.randn(p.shape, generator=gen(n + 1), dtype=p.dtype)
                n += 1
    c.train()
    ctx.expect(all(m.training for m in c.modules()), "training mode reaches everything", of=what)
    c.eval()
    ctx.expect(not any(m.training for m in c.modules()), "evaluation mode reaches everything", of=what)
    Yd = call(c, x)
    Yo = call(f, x)
    ctx.check(rel(Yo, Y0), tol, f"original as before ({s['how']})", of=what, hist=s["hist"])
    p2 = pars(f)
    ctx.expect(all(torch.equal(p1[k], p2[k]) for k in p1), "parameters of the original as before", of=what)
    iters = s["cls"] == "model" or s.get("algo") in BEAM or s["n_iter"] > 0
    if n and iters and not (s["cls"] == "sep" and s["algo"] in BEAM):
        ctx.event("copies changed", n)
        ctx.expect(rel(Yd, Y0) > 1e-9, "changed parameters change the result", of=what, change=rel(Yd, Y0))
    # the model belongs to the separator
    for o in ("model", "mask_model", "source_model"):
        m = getattr(f, o, None)
        if isinstance(m, torch.nn.Module):
            mine = {id(p) for p in f.parameters()}
            ctx.expect(all(id(p) in mine for p in m.parameters()), "the parameters of the model are parameters of the separator", of=what)
    # single precision and back
    if s["cls"] != "model" or s["net"] != "stft":
        c2 = copy.deepcopy(f).float()
        ctx.expect(all(p.dtype == torch.float32 for p in c2.parameters()), "conversion reaches everything", of=what)
        xs = x.to(torch.complex64 if x.is_complex() else torch.float32)
        Ys = call(c2, xs)
        ctx.expect(Ys.dtype in (torch.complex64, torch.float32), "converted copy works", of=what, got=str(Ys.dtype))
        call(c2.double(), x)
