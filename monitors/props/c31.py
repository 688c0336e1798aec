"""C31: silence around the recording and repetitions of it"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random signals (2-5 channels, any batch and level) get 1-400 frames of digital silence in front, "
        "behind (methods without taps) or both, or are repeated 2-3 times (methods without taps), "
        "before each separator, dereverberation, extractor, beamformer (masks computed bin by bin) and "
        "rescaling function, and waveforms get silence of a multiple of the hop around them before the "
        "whole separator; the output must be the same signal with the same silence or repetition; "
        "non-trivial: at least one frame is added")
ASSUMPTIONS = ["the source or mask model is computed frame by frame"]


class LocalMask(torch.nn.Module):
    """masks that depend on the power of the bin only"""

    def __init__(self, n_src, n_masks, level):
        super().__init__()
        self.n_src, self.n_masks, self.level = n_src, n_masks, level

    def forward(self, X):
        Q = (X.real.square() + X.imag.square()) / self.level**2
        L = torch.log(1e-2 + Q)
        out = [torch.stack([torch.sigmoid((1 + 0.7 * k - 1.3 * m) * L + 0.4 * torch.sin(5 * Q * (m + 1 + k)))
                            for m in range(self.n_masks)], -3) for k in range(self.n_src)]
        return 0.05 + 0.9 * torch.stack(out, -4)


def how(r, taps):
    t = r.choice(["lead"] if taps else ["lead", "trail", "both", "repeat"])
    k = r.choice([1, 3, 20, 100, 400])
    return dict(tr=t, k=k if t != "repeat" else r.choice([2, 3]))


def mk(r):
    s = random_algo(r, n_iter=(0, 6), kinds=["speechlike", "onoff", "lowrank", "wav"],
                    models=("laplace", "gauss"))
    if s["algo"] == "tiss" and r.random() < 0.4:
        s["taps"], s["delay"] = r.choice([(1, 0), (2, 1), (3, 2), (5, 1)])
    if s["algo"] == "wpe":
        s["n_iter"] = max(1, s["n_iter"])
    s["eps"] = 1e-12
    if s["algo"] == "five":
        # absolute floor in the whitening and absolute loading in the power method
        s["power"] = None
        s["scale"], s["kind"] = max(s["scale"], 10.0), r.choice(["speechlike", "onoff"])
    if s["algo"] == "mvdr":
        s["power"] = None  # absolute loading in the power method
    if s["algo"] == "mwf":
        s["scale"] = max(s["scale"], 1000.0)  # absolute floor of the loading
    if s["algo"] == "wpe":
        s["eps"] = None
    if s["algo"] in ("tiss", "ip", "ip2"):
        # absolute floors of the regularisation
        s["scale"] = min(max(s["scale"], 1.0), 100.0)
        s["kind"] = r.choice(["speechlike", "onoff", "lowrank"])
    if s.get("taps"):
        s["model"] = "laplace"  # the other one is singular when a frame can be predicted exactly
    if s["algo"] in ("tiss", "ip") and s.get("n_src") not in (None, s["C"]):
        # absolute floor in the constraint on the background
        s["scale"], s["kind"] = max(s["scale"], 10.0), r.choice(["speechlike", "onoff"])
    if s["algo"] == "wpe":
        s["model"] = None
    s.update(how(r, s.get("taps")))
    return s


def mk_scale(r):
    s = dict(algo="scale", C=r.randint(2, 4), F=r.randint(2, 6), N=r.randint(20, 50),
             batch=list(r.choice(BATCHES)), kind="speechlike", scale=r.choice([0.1, 1.0, 10.0]),
             fn=r.choice(["l2", "phase", "p", "pq", "pb"]))
    s.update(how(r, False))
    if s["fn"] == "pb":
        s["tr"] = r.choice(["lead", "trail", "both"])
        s["k"] = max(s["k"], 1)
    return s


def mk_wave(r):
    s = dict(algo="wave", C=2, n_fft=r.choice([16, 32]), n=r.randint(200, 600), batch=list(r.choice([(), (2,), (1, 2)])),
             sub=r.choice(["tiss", "ip2", "five"]), n_iter=r.randint(1, 4), ref=r.randrange(2),
             taps=0, delay=0)
    if s["sub"] == "tiss" and r.random() < 0.4:
        s["taps"], s["delay"] = r.choice([(1, 0), (2, 1)])
    s.update(how(r, s["taps"]))
    if s["tr"] == "repeat":
        s["tr"], s["k"] = "lead", 3
    return s


def plan(ctx):
    return expand("C31", ctx.seed, [mk, mk, mk_scale, mk, mk_wave], ctx.scaled(700, 12000), large="FNBCIM")


def transform(s, X):
    t, k = s["tr"], s["k"]
    if t == "repeat":
        return X.repeat((1,) * (X.dim() - 1) + (k,))
    return torch.nn.functional.pad(X, (k if t in ("lead", "both") else 0, k if t in ("trail", "both") else 0))


def run_scale(ctx, s):
    from torchiva import scaling

    g = gen(s["seed"])
    X = mixture(s["seed"], s["batch"], s["C"], s["F"], s["N"], scale=s["scale"])
    S = sources(g, tuple(s["batch"]), s["C"], s["F"], s["N"]) * s["scale"]
    ref = S.sum(-3) if s["fn"] == "pb" else X[..., 0, :, :]
    f = {"l2": lambda Y, R: scaling.minimum_distortion_l2(Y, R),
         "phase": lambda Y, R: scaling.minimum_distortion_l2_phase(Y, R),
         "p": lambda Y, R: scaling.minimum_distortion(Y, R, p=1.3, rtol=0.0, max_iter=6),
         "pq": lambda Y, R: scaling.minimum_distortion(Y, R, p=0.9, q=1.7, rtol=0.0, max_iter=6),
         "pb": lambda Y, R: scaling.projection_back(Y, R)}[s["fn"]]
    C = s["C"]
    if s["tr"] == "repeat" and s["fn"] == "pq":
        raise Skip("the mixed norm is not homogeneous")
    Y = f(S, ref)
    Y2 = f(transform(s, S), transform(s, ref))
    want = transform(s, Y)
    ctx.expect(Y2.shape == want.shape, "shape")
    ctx.check(rel(Y2, want), 1e-9, f"rescaling {s['tr']}", fn=s["fn"])


def run_wave(ctx, s):
    import torchiva

    g = gen(s["seed"])
    e = torch.repeat_interleave(torch.rand(tuple(s["batch"]) + (2, s["n"] // 20 + 1), generator=g), 20, -1)[..., :s["n"]]
    src = torch.randn(tuple(s["batch"]) + (2, s["n"]), generator=g, dtype=torch.float64) * e.double() ** 2
    mix = torch.randn(tuple(s["batch"]) + (2, 2), generator=g, dtype=torch.float64)
    n_fft = s["n_fft"]
    hop = n_fft // 4
    x = torch.nn.functional.pad((1e4 if s["sub"] == "five" else 100) * mix @ src, (2 * n_fft, 0 if s["taps"] else 2 * n_fft))
    x = x[..., x.shape[-1] % hop :]
    mk = lambda: torchiva.nn.BSSSeparator(n_fft=n_fft, n_iter=s["n_iter"], algo=s["sub"], n_taps=s["taps"],
                                          n_delay=s["delay"], proj_back_mic=s["ref"], eps=1e-12,
                                          source_model=torchiva.models.LaplaceModel(eps=1e-12)).double()
    y = quiet(mk(), x)
    t = dict(s, k=s["k"] * hop)
    y2 = quiet(mk(), transform(t, x))
    want = transform(t, y)
    ctx.expect(y2.shape == want.shape, "shape", got=y2.shape, want=want.shape)
    yp = quiet(mk(), x * (1 + 1e-12 * torch.randn(x.shape, generator=g, dtype=x.dtype)))
    amp = rel(yp, y) / 1e-12
    if not amp < 1e5:
        raise Skip("very sensitive case")
    ctx.check(rel(y2, want), 1e-12 * (1000 + 10 * amp), f"waveform, {s['tr']} ({s['sub']})")


def run(ctx, s):
    if s["algo"] == "scale":
        return run_scale(ctx, s)
    if s["algo"] == "wave":
        return run_wave(ctx, s)
    g = gen(s["seed"] + 5)
    X = signal_for(s)
    mod = lambda: LocalMask(s["n_src"], s.get("n_masks", 2), s["scale"]) if s["algo"] in BEAM else (
        None if s["algo"] == "wpe" else make_model(s["model"], eps=1e-12))
    X2 = transform(s, X)
    Y = quiet(build(s, model=mod()), X)
    Y2 = quiet(build(s, model=mod()), X2)
    if not check_out(ctx, Y, out_shape(s)):
        return
    want = transform(s, Y)
    if not check_out(ctx, Y2, want.shape):
        return
    Yp = quiet(build(s, model=mod()), X * (1 + 1e-13 * crandn(g, *X.shape)))
    amp = rel(Yp, Y) / 1e-13
    if not amp < 1e5:
        raise Skip("very sensitive case")
    tol = 1e-13 * 30 * (100 + amp)
    ctx.check(rel(Y2, want), tol, f"{s['tr']} ({s['algo']})", k=s["k"])
