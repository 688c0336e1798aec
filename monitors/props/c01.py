"""C01: the separated images add up to the reference microphone"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random determined mixtures (2-5 channels, any batch shape, synthetic and "
        "recorded signals, 1-12 iterations, any reference microphone, with and without "
        "dereverberation taps) through every determined separator and, in the time "
        "domain, through the whole separator; non-trivial: the demixing is well "
        "conditioned, so that the tolerance due to the diagonal loading is < 2%")
ASSUMPTIONS = ["tolerance: diagonal loading of 1e-5 of the row-normalised demixing matrix"]


def mk_stft(r):
    s = random_algo(r, algos=("tiss", "tiss", "ip", "ip2"), overdet=False, n_iter=(1, 12),
                    models=("laplace", "gauss", "power", "nmf"),
                    levels=(1.0, 1.0, 0.1, 10.0, 100.0, 1e3, 1e4))
    s["what"] = "stft"
    if s["algo"] == "ip" and r.random() < 0.3:
        s["eps"] = 10 ** r.uniform(-7, -2)
    if not s.get("taps") and r.random() < 0.12:
        # hardly more frames than microphones
        s["N"], s["kind"], s["n_iter"] = s["C"] + r.choice([0, 0, 1, 3]), "gauss", r.randint(1, 3)
    return s


def mk_wave(r):
    C = r.randint(2, 3)
    algo = r.choice(["tiss", "ip2"] if C == 2 else ["tiss"])
    n_fft = r.choice([32, 64, 128, 256])
    return dict(what="wave", algo=algo, C=C, ref=r.randrange(C), n_iter=r.randint(1, 8),
                model=r.choice(["laplace", "gauss"]), n_fft=n_fft,
                hop=r.choice([None, n_fft // 2, n_fft // 4]),
                n=r.randint(20 * n_fft, 40 * n_fft),
                batch=list(r.choice([(), (2,), (1, 2)])),
                src=r.choice(["noise", "wav"]), level=r.choice([1.0, 1.0, 0.1, 10.0, 3e3]))


def plan(ctx):
    n = ctx.scaled(600, 12000)
    return expand("C01", ctx.seed, [mk_stft] * 5 + [mk_wave], n, large="FNBCIM")


def loading(ctx, W):
    """
    sigma_min^2 of the matrix that is solved by the projection back, from the
    demixing matrix W (..., f, s, c) before the scale is fixed
    """
    A = W.mT
    A = A / torch.linalg.norm(A, dim=-1, keepdim=True).clamp(min=1e-5)
    return torch.linalg.svdvals(A)[..., -1].square()


def run(ctx, s):
    if s["what"] == "wave":
        return run_wave(ctx, s)
    X = signal_for(s)
    sep = build(s)
    torch.manual_seed(s["seed"])
    Y = quiet(sep, X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    taps, delay = s.get("taps", 0), s.get("delay", 0)
    S = Y.sum(dim=-3)
    ref = X[..., s["ref"], :, :]
    if taps > 0:
        S, ref = S[..., : delay + 1], ref[..., : delay + 1]
    scale = X[..., s["ref"], :, :].abs().square().mean(-1).sqrt()
    err = (S - ref).abs().amax(-1) / scale  # (..., f)

    if s["algo"] == "ip2":
        ctx.check(err.max(), 1e-6, "sum = reference (ip2)")
        return
    # predict the effect of the loading from the demixing matrix
    torch.manual_seed(s["seed"])
    Y0 = quiet(build(s, ref=None), X)
    basis = torch.cat((X, delayed(X, range(delay + 1, delay + taps + 1))), dim=-3)
    W, _ = fit(basis, Y0)
    sm2 = loading(ctx, W[..., : s["C"]])
    peak = ref.abs().amax(-1) / scale
    bound = 1e-7 + 1e-4 / sm2 * torch.clamp(peak, min=1.0)
    ok = bound < 2e-2
    if not ok.any():
        raise Skip("badly conditioned demixing")
    ctx.event("bins", int(ok.sum()))
    ctx.check((err / bound)[ok].max(), 1.0, "sum = reference" + (" (first frames)" if taps else ""))


def run_wave(ctx, s):
    import torchiva

    g = gen(s["seed"])
    n, C = s["n"], s["C"]
    shape = tuple(s["batch"]) + (C, n)
    if s["src"] == "wav" and wav_files():
        x, _ = read_wav(wav_files()[0])
        c = torch.arange(C) % x.shape[0]
        o = int(torch.randint(max(1, x.shape[-1] - n - 1), (1,), generator=g))
        x = x[c, o : o + n]
        x = torch.nn.functional.pad(x, (0, n - x.shape[-1])).broadcast_to(shape)
        x = x + 1e-2 * torch.randn(shape, generator=g, dtype=torch.float64)
    else:
        env = torch.rand(tuple(s["batch"]) + (C, n // 64 + 1), generator=g).double() ** 3
        src = torch.randn(shape, generator=g, dtype=torch.float64)
        src = src * env.repeat_interleave(64, dim=-1)[..., :n]
        A = torch.randn(C, C, generator=g, dtype=torch.float64)
        A = torch.linalg.qr(A)[0] + 0.3 * torch.randn(C, C, generator=g, dtype=torch.float64)
        x = A @ src
    x = x * s.get("level", 1.0)
    sep = torchiva.nn.BSSSeparator(
        n_fft=s["n_fft"], n_iter=s["n_iter"], hop_length=s["hop"], algo=s["algo"],
        n_src=C, source_model=make_model(s["model"]), proj_back_mic=s["ref"]).double()
    y = quiet(sep, x)
    if not check_out(ctx, y, shape, torch.float64):
        return
    hop = s["hop"] or s["n_fft"] // 4
    m = (n // hop) * hop
    ref = x[..., s["ref"], :]
    e = (y.sum(dim=-2) - ref)[..., :m]
    err = float(e.square().sum().sqrt() / ref.square().sum().sqrt())
    if s["algo"] == "ip2":
        ctx.check(err, 1e-6, "waveforms add up to the reference (ip2)")
        return
    # energy of the error due to the loading, from the demixing matrices
    X = torch.stft(x.reshape(-1, n), s["n_fft"], hop_length=hop, return_complex=True,
                   window=torch.hann_window(s["n_fft"]).double())
    X = X.reshape(shape[:-1] + X.shape[-2:])
    W, _ = fit(X, quiet(build(s, ref=None, n_src=C, eps=1e-5), X))
    P = X[..., s["ref"], :, :].abs().square()
    bound = torch.clamp(1e-4 / loading(ctx, W), max=1.0)
    b = float(torch.sqrt((P * bound[..., None].square()).sum() / P.sum()))
    if b > 5e-2:
        raise Skip("badly conditioned demixing")
    ctx.check(err, 1e-6 + 2 * b, "waveforms add up to the reference")
