"""C30: precision"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random well-conditioned signals through every separator, beamformer, transform, scaling "
        "function and helper in single and in double precision: types are kept, and both results "
        "agree within single precision, given the sensitivity of the case measured by "
        "perturbations of the size of the rounding errors; non-trivial: results not zero")
ASSUMPTIONS = ["sensitivity is measured on 3 random perturbations"]


def mk(r):
    if r.random() < 0.7:
        s = random_algo(r, n_iter=(1, 5), models=("laplace", "gauss"), kinds=["speechlike", "onoff", "lowrank", "gauss"])
        s["cond"] = r.choice([2.0, 4.0])
        s["scale"] = r.choice([1.0, 1.0, 0.3, 10.0])
        return s
    return dict(algo="fn", fn=r.choice(["stft", "istft", "proj", "mdp", "mdp_lp", "phase", "fftconvolve",
                                        "solve_loaded", "eigh", "inv_2x2", "bmm", "bss",
                                        "laplace", "gauss"]),
                C=r.randint(2, 4), F=r.randint(3, 9), N=r.randint(30, 60), batch=list(r.choice(BATCHES)))


# argument that scales the result, and the power of the scale
LINEAR = dict(stft=(0, 1), istft=(0, 1), proj=(1, 1), mdp=(1, 1), phase=(0, 1), fftconvolve=(0, 1),
              solve_loaded=(1, 1), eigh=(0, 1), bmm=(0, 1), laplace=(0, -1), gauss=(0, -2))


def plan(ctx):
    return expand("C30", ctx.seed, [mk], ctx.scaled(1000, 15000), large="FNBCIMMM")


def down(x):
    return x.to({torch.float64: torch.float32, C128: torch.complex64}[x.dtype])


def run(ctx, s):
    import torchiva as tv
    from torchiva import linalg, scaling

    g = gen(s["seed"])
    if s["algo"] != "fn":
        X = signal_for(s)
        f = lambda *a: quiet(build(s), *a)
        args = (X,)
        name = s["algo"]
    else:
        b, C, F, N = tuple(s["batch"]), s["C"], s["F"], s["N"]
        name = s["fn"]
        Y = crandn(g, *b, C, F, N)
        ref = Y.sum(-3) + 0.3 * crandn(g, *b, F, N)
        x = torch.randn(*b, C, 500, generator=g, dtype=torch.float64)
        H = torch.einsum("...cfn,...dfn->...fcd", Y, Y.conj())
        st = lambda t: tv.STFT(32, hop_length=16, dtype=t)
        f, args = {
            "stft": (lambda v: st(v.dtype)(v), (x,)),
            "istft": (lambda v: st(v.real.dtype).inv(v), (st(torch.float64)(x),)),
            "proj": (scaling.projection_back, (Y, Y.sum(-3))),
            "mdp": (scaling.minimum_distortion, (Y, ref)),
            "mdp_lp": (lambda a, c: scaling.minimum_distortion(a, c, p=1.0, rtol=0.0, max_iter=5), (Y, ref)),
            "phase": (scaling.minimum_distortion_l2_phase, (Y, ref)),
            "fftconvolve": (tv.fftconvolve, (x, x[..., :40])),
            "solve_loaded": (linalg.solve_loaded, (H, Y.transpose(-3, -2))),
            "eigh": (lambda a: linalg.eigh(a)[0], (H,)),
            "inv_2x2": (linalg.inv_2x2, (H[..., :2, :2] / N,)),
            "laplace": (tv.models.LaplaceModel(), (Y,)),
            "gauss": (tv.models.GaussModel(), (Y,)),
            "bmm": (linalg.bmm, (H, Y.transpose(-3, -2))),
            "bss": (lambda v: tv.nn.BSSSeparator(64, n_iter=3, proj_back_mic=0).to(v.dtype)(v), (x,)),
        }[name]
    with torch.no_grad():
        y = f(*args)
        z = f(*[down(a) for a in args])
        def kept(o, a, ty):
            ctx.expect(o.dtype in ty, f"type ({name})", got=str(o.dtype))
        kept(y, args, (torch.float64, C128))
        kept(z, args, (torch.float32, torch.complex64))
        if not ctx.expect(finite(y) and finite(z), f"finite ({name})"):
            return
        amp = 0.0
        for k in range(3):
            yp = f(*[a * (1 + 1e-7 * torch.randn(a.shape, generator=g, dtype=a.dtype)) for a in args])
            amp = max(amp, rel(yp, y) / 1e-7)
    if not amp < 3e3:
        raise Skip("very sensitive case")
    tol = 1e-7 * (300 + 100 * amp) if s["algo"] == "fn" else (0.3 if s.get("kind") == "lowrank" else 0.1) * (4 if s["algo"] == "ip2" and s["F"] > 60 else 1) + 1e-5 * amp
    ctx.check(rel(z.to(y.dtype), y), tol, f"single = double ({name})")
    if s["algo"] != "fn":
        # a common rotation of the phase only changes the rounding errors
        u = torch.exp(2j * torch.pi * rand(g, 1))
        r = quiet(build(s), X * u)
        yp = f(X * (1 + 1e-13 * crandn(g, *X.shape)))
        # (single-precision rounding would show as a large sensitivity to these too)
        a2 = max(amp, min(rel(yp, y) / 1e-13, 30 * (1 + amp)))
        if a2 < 1e5:
            ctx.check(rel(r, y * u), (3e-12 if name == "ip2" else 1e-12) * (100 + a2) * (10 if s["F"] > 60 else 1), f"rounding errors of double precision ({name})")
    elif name in LINEAR:
        # the result follows the scale of one of the arguments, only the rounding errors are others
        k, power = LINEAR[name]
        c = 1.0 / 3.0 + 0.5 * rand(g, 1).item()
        r = f(*[a * c if i == k else a for i, a in enumerate(args)])
        ctx.check(rel(r / c**power, y), 1e-13 * (300 + 100 * amp), f"rounding errors of double precision ({name})")
