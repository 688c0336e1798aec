"""C33: results do not depend on the settings of the process"""
import contextlib
import random

import numpy as np
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random calls of the public API (separators, beamformers, whole separator, transform, rescaling, "
        "convolution, linear algebra, selection, models) in both precisions are built and run under a "
        "reference setting and under another one: default type, gradient mode (off, inference, input "
        "requiring a gradient), number of threads, states of the random generators, deterministic "
        "algorithms, anomaly detection, another thread, error mode of "
        "numpy; results must be the same (bit for bit where the same kernels run); non-trivial: a result is compared")

SETTINGS = ["default dtype", "default dtype", "default dtype call", "grad", "inference", "requires grad",
            "threads", "seed", "deterministic", "anomaly", "thread", "numpy errors", "module grad"]


def mk(r):
    s = random_algo(r, n_iter=(1, 4), models=("laplace", "gauss", "power", "param", "nmf"), N=(30, 60))
    s["cls"] = "sep"
    if s["algo"] == "tiss" and r.random() < 0.2:
        s["dmc"] = True
    # the NMF model starts at random
    s["setting"] = r.choice([x for x in SETTINGS if x != "seed" or s.get("model") != "nmf"])
    s["prec"] = r.choice(["single", "double"])
    return s


def mk_wave(r):
    return dict(cls="wave", algo=r.choice(["tiss", "ip2", "five", "mvdr", "mwf", "gev"]), C=2,
                n_fft=r.choice([16, 32]), n=r.randint(300, 700), batch=list(r.choice([(), (2,), (1, 2)])),
                window=r.choice([None, "hamming"]), n_iter=2, ref=r.randrange(2),
                setting=r.choice([x for x in SETTINGS if x != "default dtype"]),
                prec=r.choice(["single", "double"]))


FN = ["fftconvolve", "stft", "istft", "select", "l2", "phase", "p", "pq", "pb", "solve", "inv", "eigh", "gevd",
      "laplace", "gauss", "nmf", "glu", "blstm", "simple", "bmm", "hankel"]


def mk_fn(r):
    fn = r.choice(FN)
    return dict(cls="fn", fn=fn, C=r.randint(2, 4), F=r.randint(3, 8), N=r.randint(20, 50),
                batch=list(r.choice([(), (2,), (1, 2)])), kind="speechlike", scale=1.0,
                setting=r.choice([x for x in SETTINGS if x != "seed" or fn != "nmf"]), prec=r.choice(["single", "double"]))


def plan(ctx):
    return expand("C33", ctx.seed, [mk, mk_fn, mk_wave], ctx.scaled(900, 9000), large="FNBCIM")


@contextlib.contextmanager
def setting(name, phase):
    """phase: 'build' or 'call'"""
    if name == "default dtype" or (name == "default dtype call" and phase == "call"):
        old = torch.get_default_dtype()
        torch.set_default_dtype(torch.float64)
        try:
            yield
        finally:
            torch.set_default_dtype(old)
    elif name == "threads":
        old = torch.get_num_threads()
        torch.set_num_threads(3)
        try:
            yield
        finally:
            torch.set_num_threads(old)
    elif name == "deterministic":
        torch.use_deterministic_algorithms(True, warn_only=True)
        try:
            yield
        finally:
            torch.use_deterministic_algorithms(False)
    elif name == "anomaly" and phase == "call":
        with torch.autograd.set_detect_anomaly(True, check_nan=False):
            yield
    elif name == "inference" and phase == "call":
        with torch.inference_mode():
            yield
    elif name in ("grad", "requires grad", "module grad") and phase == "call":
        with torch.enable_grad():
            yield
    elif name == "numpy errors":
        with np.errstate(all="raise"):
            yield
    elif name == "seed" and phase == "call":
        torch.manual_seed(4242)
        np.random.seed(4242)
        random.seed(4242)
        yield
    else:
        yield


def maker(s):
    """returns (build, inputs): build() gives a function of the inputs"""
    import torchiva
    from torchiva import linalg, scaling, utils

    single = s["prec"] == "single"
    cdt = torch.complex64 if single else torch.complex128
    rdt = torch.float32 if single else torch.float64
    g = gen(s["seed"])
    if s["cls"] == "sep":
        X = signal_for(s).to(cdt)

        def build_(trainable=False):
            m = None
            if s["algo"] in ITER and s.get("model"):
                m = make_model(s["model"], s["F"] - (s["algo"] == "five"), s["seed"])
            m = m if m is None else m.to(rdt)
            return build(s, model=m)
        return build_, (X,)
    if s["cls"] == "wave":
        x = torch.randn(tuple(s["batch"]) + (2, s["n"]), generator=g, dtype=torch.float64).to(rdt)

        def build_(trainable=False):
            m = None if s["algo"] in ("tiss", "ip2", "five") else MaskNet(2, 2)
            sep = torchiva.nn.BSSSeparator(n_fft=s["n_fft"], n_iter=s["n_iter"], algo=s["algo"], window=s["window"],
                                           n_src=2, source_model=m, proj_back_mic=s["ref"])
            return sep.to(rdt)
        return build_, (x,)
    fn, b, C, F, N = s["fn"], tuple(s["batch"]), s["C"], s["F"], s["N"]
    X = signal_for(s).to(cdt)
    x = torch.randn(b + (C, 300), generator=g, dtype=torch.float64).to(rdt)
    h = torch.randn(b + (C, 31), generator=g, dtype=torch.float64).to(rdt)
    A = torch.einsum("...cfn,...dfn->...fcd", X, X.conj()) / N
    B = torch.einsum("...cfn,...dfn->...fcd", X[..., : N // 2 + 4], X[..., : N // 2 + 4].conj()) / N
    c = lambda f: (lambda trainable=False: f)

    def net(cls, **kw):
        def b_(trainable=False):
            old = torch.get_rng_state(), torch.get_default_dtype()
            # the parameters and buffers are computed in the default type: not of interest here
            torch.set_default_dtype(torch.float32)
            torch.manual_seed(3)
            m = cls(**kw).to(rdt).eval()
            with torch.no_grad():
                for p in m.parameters():
                    q = torch.randn(p.shape, generator=gen(len(p.shape) + p.numel()), dtype=torch.float64)
                    p.copy_(0.3 * q)
            torch.set_rng_state(old[0])
            torch.set_default_dtype(old[1])
            return m
        return b_

    return {
        "fftconvolve": (c(torchiva.fftconvolve.fftconvolve if hasattr(torchiva.fftconvolve, "fftconvolve") else torchiva.fftconvolve), (x, h)),
        "stft": (lambda trainable=False: torchiva.STFT(32, dtype=rdt).to(rdt), (x,)),
        "istft": (lambda trainable=False: torchiva.STFT(2 * (F - 1), dtype=rdt).to(rdt).inv, (X,)),
        "select": (c(lambda Z: utils.select_most_energetic(Z, 2, dim=-3, dim_reduc=(-1, -2))), (X,)),
        "l2": (c(scaling.minimum_distortion_l2), (X, X[..., 0, :, :])),
        "phase": (c(scaling.minimum_distortion_l2_phase), (X, X[..., 0, :, :])),
        "p": (c(lambda Y, R: scaling.minimum_distortion(Y, R, p=1.3, max_iter=4)), (X, X[..., 0, :, :])),
        "pq": (c(lambda Y, R: scaling.minimum_distortion(Y, R, p=0.9, q=1.7, max_iter=4)), (X, X[..., 0, :, :])),
        "pb": (c(scaling.projection_back), (X, X[..., 0, :, :])),
        "solve": (c(linalg.solve_loaded), (A, A[..., :1])),
        "inv": (c(linalg.inv_loaded), (A,)),
        "eigh": (c(lambda Z: linalg.eigh(Z)[0]), (A,)),
        "gevd": (c(lambda Z, Q: linalg.eigh(Z, Q)[0]), (A, B)),
        "laplace": (lambda trainable=False: torchiva.models.LaplaceModel(), (X,)),
        "gauss": (lambda trainable=False: torchiva.models.GaussModel(), (X,)),
        "nmf": (lambda trainable=False: torchiva.models.NMFModel(n_basis=3), (X,)),
        "glu": (net(torchiva.models.GLUMask, n_freq=F, n_bottleneck=4), (X,)),
        "blstm": (net(torchiva.models.BLSTMMask, n_freq=F, n_bottleneck=2, n_hidden=3), (X,)),
        "simple": (net(torchiva.models.SimpleModel, n_freq=F, n_mels=3), (X,)),
        "bmm": (c(linalg.bmm), (A, B)),
        "hankel": (c(lambda Z: linalg.hankel_view(Z, 3)), (X,)),
    }[fn]


def run(ctx, s):
    name = s["setting"]
    mk_, inputs = maker(s)
    with torch.no_grad():
        f = mk_()
        torch.manual_seed(7)
        ref = f(*[x.clone() for x in inputs])
    args = [x.clone() for x in inputs]
    with setting(name, "build"):
        f2 = mk_()
    if name == "requires grad":
        args = [x.requires_grad_(True) for x in args]
    res = []

    def go():
        with torch.no_grad() if name not in ("grad", "requires grad", "module grad", "inference") else contextlib.nullcontext():
            torch.manual_seed(7)
            with setting(name, "call"):
                res.append(f2(*args))

    if name == "thread":
        import threading

        err = []

        def guarded():
            try:
                go()
            except BaseException as e:
                err.append(e)

        t = threading.Thread(target=guarded)
        t.start()
        t.join()
        if err:
            raise err[0]
    else:
        go()
    Y = res[0].detach() if not res[0].is_inference() else res[0].clone()
    what = s.get("fn", s.get("algo"))
    ctx.event("setting " + name)
    ctx.event("call of " + str(what))
    ctx.expect(Y.dtype == ref.dtype, "same type", setting=name, got=str(Y.dtype), want=str(ref.dtype), of=what)
    ctx.expect(Y.shape == ref.shape, "same shape", setting=name, of=what)
    tol = 0.0
    if name in ("threads", "inference", "grad", "requires grad", "module grad", "deterministic"):
        # other kernels can be used
        tol = 1e-2 if s["prec"] == "single" else 1e-9
        if s["cls"] == "sep" or s["cls"] == "wave":
            with torch.no_grad():
                x = inputs[0]
                e = 1e-6 if s["prec"] == "single" else 1e-14
                f3 = mk_()
                torch.manual_seed(7)
                P = f3(x * (1 + e * torch.randn(x.shape, generator=gen(5), dtype=torch.float64).to(x.real.dtype)))
                tol = max(tol, 100 * rel(P, ref))
    ctx.check(rel(Y, ref), tol, f"same result ({name})", of=what)
