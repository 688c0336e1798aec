"""C29: equivariance"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random signals (2-5 channels, any batch) are transformed (phase of each microphone and "
        "frequency, complex conjugation, order of the frequencies, order of the frames, order "
        "of the microphones where the method is symmetric, level) before and after each "
        "separator, dereverberation and beamformer, in double precision; both ways must give "
        "the same result; non-trivial: the transformation changes the input")
ASSUMPTIONS = ["the source model commutes with the transformation"]

TR = ["phase", "phase", "conj", "freq", "frames", "mics", "gain"]


class SymMask(torch.nn.Module):
    """masks that depend on the relative power of each bin only"""

    def __init__(self, n_src, n_masks):
        super().__init__()
        self.n_src, self.n_masks = n_src, n_masks

    def forward(self, X):
        P = X.real.square() + X.imag.square()
        Q = P / P.mean(dim=(-2, -1), keepdim=True)
        L = torch.log(1e-2 + Q)
        out = [torch.stack([torch.sigmoid((1 + 0.7 * k - 1.3 * m) * L + 0.4 * torch.sin(5 * Q * (m + 1 + k)))
                            for m in range(self.n_masks)], -3) for k in range(self.n_src)]
        return 0.05 + 0.9 * torch.stack(out, -4)


def mk(r):
    s = random_algo(r, n_iter=(1, 6), models=("laplace", "gauss"), kinds=["speechlike", "onoff", "lowrank", "wav"])
    s["tr"] = r.choice(TR)
    s["gain"] = r.choice([0.25, 0.5, 2.0, 8.0, 100.0, 1e3])
    if s["tr"] == "gain":
        s["eps"] = 1e-12
        s["kind"] = r.choice(["speechlike", "onoff"])
        if s["algo"] in ("five", "wpe"):
            s["tr"] = "conj"  # absolute floors in the whitening and the weights
        elif s["algo"] in ("tiss", "ip"):
            s["gain"] = min(s["gain"], 8.0)
            s["scale"] = min(s["scale"], 100.0)
        elif s["algo"] == "mwf":
            s["scale"], s["gain"] = max(s["scale"], 10.0), max(s["gain"], 2.0)
        elif s["algo"] == "mvdr":
            s["power"] = None  # absolute loading in the power method
    if s["tr"] == "frames":
        if s["algo"] == "wpe":
            s["tr"] = "phase"
        s.pop("taps", None), s.pop("delay", None)
    if s["tr"] == "frames" and s["algo"] == "wpe":
        s["taps"], s["delay"] = 2, 1
    if s["algo"] == "wpe" and "taps" not in s:
        s["taps"], s["delay"] = 2, 1
    if s["tr"] == "mics" and s["algo"] in ("tiss", "ip", "ip2"):
        s["tr"] = "phase"
    if s["tr"] == "mics" and s["algo"] == "mvdr":
        # the power method starts from the first microphone
        s["power"] = None
    return s


def mk_freqs(r):
    """numbers of frequencies of usual transforms"""
    for _ in range(50):
        s = mk(r)
        if s["tr"] in ("freq", "conj"):
            break
    s["F"] = r.choice([17, 33, 65, 65, 129, 129, 257])
    s["batch"] = []
    return s


def plan(ctx):
    return expand("C29", ctx.seed, [mk] * 9 + [mk_freqs], ctx.scaled(700, 15000), large="FNBCIM")


def run(ctx, s):
    g = gen(s["seed"] + 5)
    X = signal_for(s)
    ref = s.get("ref", 0)
    tr, F, N, C = s["tr"], s["F"], s["N"], s["C"]
    mod = lambda: SymMask(s["n_src"], s.get("n_masks", 2)) if s["algo"] in BEAM else (
        None if s["algo"] == "wpe" else make_model(s["model"], eps=1e-12 if tr == "gain" else None))
    over = {}
    if tr == "phase":
        D = torch.exp(2j * torch.pi * rand(g, *s["batch"], C, F, 1))
        if s["algo"] in ("five",):
            D[..., 0, :] = 1
        X2 = X * D
        post = lambda Y: Y * (D if s["algo"] == "wpe" else D[..., [ref], :, :])
    elif tr == "conj":
        X2, post = X.conj().resolve_conj().clone(), lambda Y: Y.conj()
    elif tr == "freq":
        p = torch.cat((torch.zeros(1, dtype=torch.long), 1 + torch.randperm(F - 1, generator=g)))
        X2, post = X[..., p, :].clone(), lambda Y: Y[..., p, :]
    elif tr == "frames":
        p = torch.randperm(N, generator=g)
        X2, post = X[..., p].clone(), lambda Y: Y[..., p]
    elif tr == "mics":
        p = torch.randperm(C, generator=g)
        X2 = X[..., p, :, :].clone()
        if s["algo"] == "wpe":
            post = lambda Y: Y[..., p, :, :]
        else:
            over["ref"] = int((p == ref).nonzero()[0, 0])
            post = lambda Y: Y
    elif tr == "gain":
        X2, post = X * s["gain"], lambda Y: Y * s["gain"]
    Y = quiet(build(s, model=mod()), X)
    Y2 = quiet(build(s, model=mod(), **over), X2)
    if not (check_out(ctx, Y, out_shape(s)) and check_out(ctx, Y2, out_shape(s))):
        return
    # a tiny perturbation of the input calibrates the conditioning of the case
    Yp = quiet(build(s, model=mod()), X * (1 + 1e-13 * crandn(g, *X.shape)))
    amp = rel(Yp, Y) / 1e-13
    if not amp < 1e5:
        raise Skip("very sensitive case")
    tol = 1e-13 * 30 * (100 + amp)
    if tr == "gain":
        tol += 1e-5
    ctx.check(rel(Y2, post(Y)), tol, f"{tr} ({s['algo']})")
