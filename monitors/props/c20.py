"""C20: STFT"""
import numpy as np
import scipy.signal
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random signals (any batch, lengths from a fraction of a frame to many frames, silent, "
        "impulses, real recordings) and transforms (frame sizes 4-1024 even and odd, overlaps "
        "from 50% to 94% and the default, windows by name and custom arrays, single and double "
        "precision); the transform is compared with a direct evaluation of its definition "
        "(centred frames, reflected edges), and its inverse with the input; non-trivial: "
        "the shifted squared windows do not vanish anywhere")


def mk(r):
    n_fft = r.choice([4, 8, 16, 17, 32, 45, 64, 100, 128, 256, 512, 1024])
    div = r.choice([None, 2, 2, 3, 4, 4, 8, 16])
    hop = None if div is None else max(1, n_fft // div)
    return dict(n_fft=n_fft, hop=hop, win=r.choice(["hann", None, "hamming", "blackman", "boxcar",
                                                    "np", "torch", "npf32"]),
                batch=list(r.choice(BATCHES)), single=r.random() < 0.3,
                frac=r.choice([0.6, 1.0, 1.7, 3.0, 5.3, 9.9]), off=r.randint(0, 7),
                kind=r.choice(["randn", "randn", "impulse", "wav", "silent", "tone"]),
                scale=r.choice([1.0, 1e-3, 100.0]))


def plan(ctx):
    return expand("C20", ctx.seed, [mk], ctx.scaled(800, 20000))


def make_window(s, g):
    n = s["n_fft"]
    if s["win"] in ("np", "npf32"):
        w = np.sqrt(scipy.signal.get_window("hann", n)) + 0.05
        w = w * (1 + 0.2 * rand(g, n).numpy())
        return (w.astype(np.float32) if s["win"] == "npf32" else w), w
    if s["win"] == "torch":
        w = 0.3 + rand(g, n)
        return w, w.numpy()
    return s["win"], scipy.signal.get_window(s["win"] or "hann", n)


def run(ctx, s):
    import torchiva as tv

    g = gen(s["seed"])
    n_fft = s["n_fft"]
    hop = s["hop"] or n_fft // 4
    if hop < 1:
        raise Skip("no hop")
    n = max(n_fft // 2 + 1, int(s["frac"] * n_fft) + s["off"])
    dt = torch.float32 if s["single"] else torch.float64
    warg, wref = make_window(s, g)
    batch = tuple(s["batch"])
    x = torch.randn(*batch, n, generator=g, dtype=torch.float64)
    if s["kind"] == "impulse":
        x = torch.zeros(*batch, n, dtype=torch.float64)
        x[..., int(torch.randint(n, (1,), generator=g))] = 1.0
    elif s["kind"] == "silent":
        x = torch.zeros(*batch, n, dtype=torch.float64)
    elif s["kind"] == "tone":
        x = torch.cos(2 * np.pi * rand(g, *batch, 1) * torch.arange(n) + 0.3) * torch.ones(*batch, n).double()
    elif s["kind"] == "wav" and wav_files():
        w, _ = read_wav(wav_files()[0])
        o = int(torch.randint(w.shape[-1] - n, (1,), generator=g))
        x = x * 1e-3 + w[0, o:o + n]
    x = (x * s["scale"]).to(dt)
    st = tv.STFT(n_fft, hop_length=s["hop"], window=warg, dtype=dt) if s["win"] != "npf32" else tv.STFT(
        n_fft, hop_length=s["hop"], window=warg)
    if s["win"] == "npf32":
        x = x.float()
        dt = torch.float32
    single = dt == torch.float32
    ctx.expect(st.n_freq == n_fft // 2 + 1 and st.n_fft == n_fft, "frequencies")
    X = st(x)
    F = 1 + (n + 2 * (n_fft // 2) - n_fft) // hop
    cdt = torch.complex64 if single else C128
    if not check_out(ctx, X, batch + (n_fft // 2 + 1, F), cdt):
        return
    # direct evaluation
    xp = np.pad(x.double().reshape(-1, n).numpy(), ((0, 0), (n_fft // 2, n_fft // 2)), mode="reflect")
    k = np.arange(n_fft // 2 + 1)[:, None] * np.arange(n_fft)[None, :]
    E = np.exp(-2j * np.pi * k / n_fft)
    frames = np.stack([xp[:, f * hop:f * hop + n_fft] for f in range(F)], axis=-1) * wref[None, :, None]
    ref = torch.from_numpy(np.einsum("kt,btf->bkf", E, frames)).reshape(X.shape)
    tol = 3e-6 if single else 1e-13
    amp = float(x.abs().max()) * np.abs(wref).sum() + 1e-300
    ctx.check((X.to(C128) - ref).abs().max() / amp, tol, "definition")
    # inverse
    env = np.zeros(n_fft + hop * (F - 1))
    for f in range(F):
        env[f * hop:f * hop + n_fft] += wref ** 2
    L = hop * (F - 1)
    env = env[n_fft // 2:n_fft // 2 + L]
    if L == 0:
        raise Skip("no complete frame")
    if env.min() < 1e-6:
        raise Skip("windows vanish")
    y = st.inv(X)
    if not ctx.expect(y.shape[:-1] == x.shape[:-1] and y.shape[-1] >= L, "inverse: shape",
                      got=y.shape, want=L):
        return
    ctx.expect(y.dtype == dt, "inverse: dtype")
    err = (y[..., :L] - x[..., :L]).double().abs().reshape(-1, L).amax(0)
    amp = float(x.abs().max()) + 1e-300
    q = err.numpy() / (amp * (2e-6 if single else 1e-13) * np.abs(wref).max() * np.sqrt(n_fft) / env)
    ctx.check(q.max(), 1.0, "perfect reconstruction")
    # the inverse is that of the least-squares estimate for any spectrogram
    Z = torch.randn(*X.shape, generator=g, dtype=C128)
    Z[..., 0, :] = Z[..., 0, :].real.to(C128)
    if n_fft % 2 == 0:
        Z[..., -1, :] = Z[..., -1, :].real.to(C128)
    z = st.inv(Z.to(cdt))
    t = np.fft.irfft(Z.reshape((-1,) + Z.shape[-2:]).numpy(), n=n_fft, axis=1) * wref[None, :, None]
    acc = np.zeros((t.shape[0], n_fft + hop * (F - 1)))
    for f in range(F):
        acc[:, f * hop:f * hop + n_fft] += t[:, :, f]
    zr = acc[:, n_fft // 2:n_fft // 2 + L] / env
    d = np.abs(z.double().reshape(-1, z.shape[-1]).numpy()[:, :L] - zr)
    ctx.check((d / (np.abs(zr).max() * (1e-5 if single else 1e-12) / np.minimum(env, 1.0))).max(), 1.0,
              "overlap-add of any spectrogram")
    # no cross-talk between the elements of a batch is C03
