"""C09: gradients are those of the computed function"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random differentiable paths through separators, beamformers, transforms, scaling, "
        "models and linear algebra helpers; the derivative along a random direction of the "
        "input, and of all the parameters, given by autograd is compared to central finite "
        "differences of the same function in double precision; non-trivial: the derivative "
        "is not negligible and the finite differences have converged (two step sizes agree)")

FNS = ["stft", "istft", "laplace", "gauss", "nmf", "blstm", "simple", "glu", "mvdrsupport",
       "projection_back", "md_l2", "md_lp", "md_phase", "fftconvolve", "eigval", "gevdval",
       "solve_loaded", "solve_loaded_general", "inv_loaded", "inv_2x2", "bmm", "multiply",
       "mag", "mag_sq", "hankel", "select"]


def mk_algo(r):
    s = random_algo(r, n_iter=(1, 4), N=(25, 40), F=(3, 6), max_chan=4, levels=(1.0,),
                    models=("laplace", "gauss", "power", "param", "param"),
                    kinds=["speechlike", "gauss", "lowrank"], batches=[(), (2,), (1, 2)])
    s["what"] = "algo"
    if s["algo"] in ("ip", "tiss") and s["kind"] == "lowrank":
        s["kind"] = "speechlike"  # the loading, a constant for autograd, matters for these
    s["dmc"] = s["algo"] == "tiss" and r.random() < 0.3
    return s


def mk_fn(r):
    return dict(what="fn", fn=r.choice(FNS), C=r.randint(2, 4), F=r.choice([3, 5, 9]),
                N=r.randint(10, 20), batch=list(r.choice([(), (2,), (2, 1)])), k=r.randint(0, 5))


def mk_wave(r):
    return dict(what="wave", algo=r.choice(["tiss", "ip2", "five", "mvdr", "mwf", "gev"]),
                n_fft=16, n=r.randint(300, 500), n_iter=r.randint(1, 3),
                batch=list(r.choice([(), (2,)])))


def plan(ctx):
    return expand("C09", ctx.seed, [mk_algo, mk_algo, mk_fn, mk_fn, mk_wave], ctx.scaled(350, 7000), large="F")


def setup(s):
    """-> function of a list of tensors (inputs then parameters), their values, tolerance"""
    import torchiva as tv
    from torchiva import linalg as L

    g = gen(s["seed"])
    batch = tuple(s["batch"])
    if s["what"] == "algo":
        X = signal_for(s)
        mod = build(s, mseed=s["seed"], F=s["F"] - (s["algo"] == "five"))
        over = n_out(s) < s["C"]
        # the loading and the row norms of these two are constants for autograd
        tol = {"tiss": 0.1, "ip": 0.1}.get(s["algo"], 2e-2)
        return mod, [X], mod, (2 * tol if over else tol)
    if s["what"] == "wave":
        X = torch.randn(batch + (2, s["n"]), generator=g, dtype=torch.float64)
        X = X * (0.2 + torch.rand(batch + (2, s["n"] // 50 + 1), generator=g).double()
                 .repeat_interleave(50, -1)[..., : s["n"]])
        m = MaskNet(2, 2) if s["algo"] in BEAM else ParamModel(
            s["n_fft"] // 2 + 1 - (s["algo"] == "five"), seed=s["seed"])
        mod = tv.nn.BSSSeparator(n_fft=16, n_iter=s["n_iter"], algo=s["algo"],
                                 source_model=m).double()
        return mod, [X], mod, (0.1 if s["algo"] == "tiss" else 2e-2)

    fn, C, F, N, k = s["fn"], s["C"], s["F"], s["N"], s["k"]
    X = crandn(g, *batch, C, F, N)
    ref = crandn(g, *batch, F, N)
    r64 = lambda *sh: torch.randn(*sh, generator=g, dtype=torch.float64)

    def herm(n):
        a = crandn(g, *batch, n, n + 3)
        return a @ a.mH

    def hz(A):
        return 0.5 * (A + A.mH)

    torch.manual_seed(3)
    mod, tol = None, 1e-3
    models = {
        "laplace": tv.models.LaplaceModel, "gauss": tv.models.GaussModel,
        "blstm": lambda: tv.models.BLSTMMask(n_freq=F, n_bottleneck=3, n_hidden=4,
                                             mag_spec=bool(k % 2), log_spec=bool(k % 2)),
        "simple": lambda: tv.models.SimpleModel(n_freq=F, n_mels=3),
        "glu": lambda: tv.models.GLUMask(F, 4, mag_spec=bool(k % 2)),
        "mvdrsupport": lambda: tv.models.MaskMVDRSupport(n_input=F, n_hidden=4),
    }
    if fn in models:
        mod = models[fn]().double().eval()
        return mod, [X], mod, (1e-3 if fn != "glu" else 1e-2)
    if fn == "nmf":
        m = tv.models.NMFModel()

        def f(X):
            torch.manual_seed(11)
            m.reset()
            m(X)
            return m(X)

        return f, [X], None, tol
    if fn == "stft":
        mod = tv.STFT(16, hop_length=[None, 8][k % 2]).double()
        return mod, [r64(*batch, C, 200)], None, tol
    if fn == "istft":
        mod = tv.STFT(2 * (F - 1), hop_length=F - 1).double()
        return mod.inv, [X], None, tol
    table = {
        "projection_back": (tv.projection_back, [X, ref]),
        "md_l2": (tv.minimum_distortion, [X, ref]),
        "md_lp": (lambda Y, r: tv.minimum_distortion(Y, r, p=1.0, q=[None, 2.0][k % 2],
                                                     rtol=0.0, max_iter=3), [X, ref]),
        "md_phase": (tv.minimum_distortion_l2_phase, [X, ref]),
        "select": (lambda x: tv.select_most_energetic(x, num=1 + k % C), [r64(*batch, C, N)]),
        "fftconvolve": (lambda a, b: tv.fftconvolve(a, b, mode=["full", "same", "valid"][k % 3]),
                        [r64(*batch, N), r64(*batch, 5)]),
        "eigval": (lambda A: L.eigh(hz(A))[0], [herm(C)]),
        "gevdval": (lambda A, B: L.eigh(hz(A), hz(B))[0], [herm(C), herm(C)]),
        "solve_loaded": (L.solve_loaded, [herm(C), crandn(g, *batch, C, 2)]),
        "solve_loaded_general": (L.solve_loaded_general,
                                 [crandn(g, *batch, C, C) + 3 * torch.eye(C), crandn(g, *batch, C, 2)]),
        "inv_loaded": (L.inv_loaded, [herm(C)]),
        "inv_2x2": (L.inv_2x2, [crandn(g, *batch, 2, 2)]),
        "bmm": (L.bmm, [crandn(g, *batch, C, C), crandn(g, *batch, C, N)]),
        "multiply": (L.multiply, [X, X.real.contiguous() if k % 2 else X * 1]),
        "mag": (L.mag, [X if k % 2 else X.real.contiguous()]),
        "mag_sq": (L.mag_sq, [X if k % 2 else X.real.contiguous()]),
        "hankel": (lambda x: L.hankel_view(x, 1 + k), [X]),
    }
    f, args = table[fn]
    return f, args, None, tol


def run(ctx, s):
    name = s.get("fn") or s["algo"] if s["what"] != "wave" else "separator:" + s["algo"]
    f, args, mod, tol = setup(s)
    params = [p for p in mod.parameters() if p.requires_grad] if mod is not None else []
    g = gen(s["seed"] + 9)
    weight = None

    def loss():
        nonlocal weight
        Y = f(*args)
        if weight is None:
            weight = torch.randn(Y.shape, generator=g, dtype=Y.dtype)
        if Y.is_complex():
            return (Y.real * weight.real).sum() + (Y.imag * weight.imag).sum() + \
                0.1 * (Y.real.square() + Y.imag.square()).sum()
        return (Y * weight).sum() + 0.1 * Y.square().sum()

    for a in args:
        a.requires_grad_(True)
    L = loss()
    L.backward()
    for what, group in (("inputs", args), ("parameters", params)):
        group = [p for p in group if p.numel()]
        if not group:
            continue
        dirs = [torch.randn(p.shape, generator=g, dtype=p.dtype) for p in group]
        ad = 0.0
        mag = 0.0
        for p, d in zip(group, dirs):
            gr = p.grad if p.grad is not None else torch.zeros_like(p)
            prod = (gr.real * d.real + gr.imag * d.imag) if gr.is_complex() else gr * d
            ad += float(prod.sum())
            mag += float(gr.abs().square().sum())
        mag = mag ** 0.5
        if not ctx.expect(mag == mag and mag != float("inf"), f"finite gradient ({name})", of=what):
            continue
        def central(h):
            vals = []
            with torch.no_grad():
                for sgn in (1, -1):
                    for p, d in zip(group, dirs):
                        p.add_(sgn * h * d)
                    vals.append(float(loss()))
                    for p, d in zip(group, dirs):
                        p.add_(-sgn * h * d)
            return (vals[0] - vals[1]) / (2 * h)

        f1, f2 = central(1e-5), central(2e-6)
        if max(mag, abs(f2)) < 1e-6:
            ctx.event("negligible derivative")
            continue
        if abs(f1 - f2) > 0.1 * tol * max(mag, abs(f1)):
            ctx.event("finite differences not converged")
            continue
        ctx.event("derivatives compared")
        ctx.check(abs(ad - f2) / max(mag, abs(f2)), tol, f"derivative ({name})", of=what,
                  autograd=ad, finite=f2)
