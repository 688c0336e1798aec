"""Workloads: signals, source models and separators built from JSON specs"""
import functools
import pathlib

import torch

from .core import REPO

C128 = torch.complex128


def gen(seed):
    g = torch.Generator()
    g.manual_seed(int(seed) & 0x7FFFFFFF)
    return g


def crandn(g, *shape, dtype=C128):
    return torch.randn(*shape, generator=g, dtype=dtype)


def rand(g, *shape):
    return torch.rand(*shape, generator=g, dtype=torch.float64)


def random_unitary(g, *batch, n):
    q, r = torch.linalg.qr(crandn(g, *batch, n, n))
    d = torch.diagonal(r, dim1=-2, dim2=-1)
    return q * (d / d.abs())[..., None, :]


def mixing(g, batch, n_freq, n_chan, n_src, cond=4.0):
    """random mixing matrices with a bounded condition number"""
    n = max(n_chan, n_src)
    U = random_unitary(g, *batch, n_freq, n=n)
    V = random_unitary(g, *batch, n_freq, n=n)
    s = cond ** (-rand(g, *batch, n_freq, n))
    A = (U * s[..., None, :].to(U.dtype)) @ V
    return A[..., :n_chan, :n_src]


def sources(g, batch, n_src, n_freq, n_frames, kind="speechlike"):
    """(..., n_src, n_freq, n_frames) sources with distinct activity patterns"""
    S = crandn(g, *batch, n_src, n_freq, n_frames)
    if kind == "speechlike":
        # frame-wise gains, shared by all frequencies, of heavy tailed distribution
        a = torch.exp(1.2 * torch.randn(*batch, n_src, 1, n_frames, generator=g).double())
        b = 0.5 + rand(g, *batch, n_src, n_freq, 1)
        S = S * a * b
    elif kind == "onoff":
        a = (rand(g, *batch, n_src, 1, n_frames) < 0.5).double() + 0.02
        S = S * a
    elif kind == "lowrank":
        T = rand(g, *batch, n_src, n_freq, 2) ** 4 + 1e-3
        V = rand(g, *batch, n_src, 2, n_frames) ** 4 + 1e-3
        S = S * torch.sqrt(T @ V)
    elif kind == "gauss":
        pass
    else:
        raise ValueError(kind)
    return S


def mixture(seed, batch, n_chan, n_freq, n_frames, kind="speechlike", n_src=None,
            noise=0.0, reverb=0, cond=4.0, scale=1.0, dtype=C128):
    """an STFT domain multichannel mixture (..., n_chan, n_freq, n_frames)"""
    g = gen(seed)
    batch = tuple(batch)
    if kind == "wav":
        return wav_stft(seed, batch, n_chan, n_freq, n_frames).to(dtype) * scale
    n_src = n_chan if n_src is None else n_src
    S = sources(g, batch, n_src, n_freq, n_frames, kind)
    A = mixing(g, batch, n_freq, n_chan, n_src, cond)
    X = torch.einsum("...fcs,...sfn->...cfn", A, S)
    for d in range(1, reverb + 1):
        Ad = mixing(g, batch, n_freq, n_chan, n_src, cond) * (0.6 ** d)
        Xd = torch.einsum("...fcs,...sfn->...cfn", Ad, S)
        X = X + torch.nn.functional.pad(Xd, (d, 0))[..., :n_frames]
    if noise:
        X = X + noise * crandn(g, *X.shape)
    X = X / X.abs().square().mean().sqrt() * scale
    return X.to(dtype)


@functools.lru_cache(None)
def wav_files(kind="mix_reverb"):
    d = REPO / "examples" / "samples" / kind
    return sorted(str(p) for p in d.glob("*.wav"))


@functools.lru_cache(None)
def read_wav(path):
    import soundfile

    x, fs = soundfile.read(path, always_2d=True)
    return torch.from_numpy(x.T.copy()).double(), fs


def wav_stft(seed, batch, n_chan, n_freq, n_frames):
    """excerpts of a real recording, in the STFT domain"""
    g = gen(seed)
    files = wav_files()
    if not files:
        return mixture(seed, batch, n_chan, n_freq, n_frames, "speechlike")
    n_fft = 2 * (n_freq - 1) if n_freq > 1 else 2
    hop = max(1, n_fft // 2)
    n = hop * (n_frames - 1)
    out = []
    nb = 1
    for b in batch:
        nb *= b
    for _ in range(nb):
        x, fs = read_wav(files[int(torch.randint(len(files), (1,), generator=g))])
        o = int(torch.randint(max(1, x.shape[-1] - n - 1), (1,), generator=g))
        c = torch.arange(n_chan) % x.shape[0]
        e = x[c, o : o + n]
        if n_chan > x.shape[0]:
            e = e + 0.05 * torch.randn(e.shape, generator=g, dtype=e.dtype)
        e = torch.nn.functional.pad(e, (0, max(0, n - e.shape[-1])))
        X = torch.stft(e, n_fft, hop_length=hop, window=torch.hann_window(n_fft).double(),
                       return_complex=True)[..., :n_freq, :n_frames]
        # microphone self-noise keeps the statistics full rank
        X = X + 1e-3 * crandn(g, *X.shape)
        X = X / X.abs().square().mean().sqrt()
        out.append(X)
    return torch.stack(out).reshape(tuple(batch) + (n_chan, n_freq, n_frames))


# ---------------------------------------------------------------- source models
class PowerModel(torch.nn.Module):
    """a deterministic model without state: smoothed inverse power"""

    def __init__(self, floor=0.1):
        super().__init__()
        self.floor = floor
        self.calls = 0

    def forward(self, X):
        self.calls += 1
        P = X.real.square() + X.imag.square()
        return 1.0 / (self.floor + 0.5 * P + 0.5 * P.mean(dim=-2, keepdim=True))


class WpeWeights(torch.nn.Module):
    """weights for WPE: (..., n_chan, n_freq, n_frames) -> (..., n_freq, n_frames)"""

    def forward(self, Y):
        return 1.0 / (0.1 + (Y.real.square() + Y.imag.square()).mean(-3))


class ParamModel(torch.nn.Module):
    """a small differentiable mask network with parameters (and optional dropout)"""

    def __init__(self, n_freq, seed=0, dropout=0.0, dtype=torch.float64):
        super().__init__()
        g = gen(seed)
        self.A = torch.nn.Parameter(
            0.3 * torch.randn(n_freq, n_freq, generator=g, dtype=torch.float32).to(dtype))
        self.b = torch.nn.Parameter(0.1 * torch.randn(n_freq, 1, generator=g, dtype=torch.float32).to(dtype))
        self.drop = torch.nn.Dropout(dropout)

    def forward(self, X):
        P = torch.log(1e-2 + X.real.square() + X.imag.square())
        h = self.drop(torch.tanh(P))
        return 0.05 + torch.sigmoid(self.A @ h + self.b)


class WpeParam(torch.nn.Module):
    """weights for WPE with parameters"""

    def __init__(self, n_freq, seed=0, dtype=torch.float64):
        super().__init__()
        g = gen(seed)
        self.A = torch.nn.Parameter(0.3 * torch.randn(n_freq, n_freq, generator=g, dtype=torch.float32).to(dtype))

    def forward(self, Y):
        P = (Y.real.square() + Y.imag.square()).mean(-3)
        return 0.05 + torch.sigmoid(-self.A @ torch.log(1e-2 + P))


class MaskNet(torch.nn.Module):
    """
    masks for the beamformers: (..., n_freq, n_frames) -> (..., n_src, n_masks,
    n_freq, n_frames), a deterministic function of each element of the batch
    """

    def __init__(self, n_src=2, n_masks=2, floor=0.05, complementary=False, seed=0):
        super().__init__()
        self.n_src, self.n_masks = n_src, n_masks
        self.floor, self.complementary, self.seed = floor, complementary, seed
        self.seen = []

    def forward(self, X):
        P = X.real.square() + X.imag.square()
        L = torch.log(1e-3 + P)
        L = (L - L.mean(dim=(-2, -1), keepdim=True))
        n_freq, n_frames = X.shape[-2:]
        f = torch.arange(n_freq, dtype=P.dtype)[:, None]
        t = torch.arange(n_frames, dtype=P.dtype)[None, :]
        out = []
        for s in range(self.n_src):
            ms = []
            for m in range(self.n_masks):
                a = 1.0 + 0.7 * s - 1.3 * m
                ph = torch.sin(0.9 * t * (1 + s) + 0.7 * f * (1 + m) + self.seed % 17)
                ms.append(torch.sigmoid(a * L + 2.0 * ph))
            out.append(torch.stack(ms, dim=-3))
        M = torch.stack(out, dim=-4)
        M = self.floor + (1 - self.floor) * M
        if self.complementary and self.n_masks == 2:
            T = M[..., 0, :, :]
            T = T / (T.sum(dim=-3, keepdim=True))
            M = torch.stack((T, 1 - T), dim=-3)
        return M


def make_model(name, n_freq=None, seed=0, eps=None):
    import torchiva

    if name == "laplace":
        return torchiva.models.LaplaceModel(eps=eps)
    if name == "gauss":
        return torchiva.models.GaussModel(eps=eps)
    if name == "nmf":
        return torchiva.models.NMFModel(n_basis=2, eps=eps)
    if name == "power":
        return PowerModel()
    if name == "wpe":
        return WpeWeights()
    if name == "wpeparam":
        return WpeParam(n_freq, seed=seed)
    if name == "param":
        return ParamModel(n_freq, seed=seed)
    raise ValueError(name)


# ---------------------------------------------------------------- separators
ITER = ("tiss", "ip", "ip2", "five", "wpe")
BEAM = ("mvdr", "mwf", "gev")


def build(s, model=None, **over):
    """
    a separator from a spec: algo, n_iter, n_src, taps, delay, model, ref, ...
    """
    import torchiva as tv

    s = dict(s, **over)
    a = s["algo"]
    if model is None and a in ITER:
        m = s.get("model", None)
        model = make_model(m, s.get("F"), s.get("mseed", 0)) if m else None
    elif model is None:
        model = MaskNet(s.get("n_src") or 2, s.get("n_masks", 2),
                        complementary=s.get("compl", False), seed=s.get("mseed", 0))
    kw = {}
    if s.get("eps") is not None:
        kw["eps"] = s["eps"]
    ref = s.get("ref", 0)
    if a == "tiss":
        return tv.T_ISS(n_iter=s["n_iter"], n_taps=s.get("taps", 0),
                        n_delay=s.get("delay", 0), n_src=s.get("n_src"), model=model,
                        proj_back_mic=ref, use_dmc=s.get("dmc", False), **kw)
    if a == "ip":
        return tv.AuxIVA_IP(n_iter=s["n_iter"], n_src=s.get("n_src"), model=model,
                            proj_back_mic=ref, **kw)
    if a == "ip2":
        return tv.AuxIVA_IP2(n_iter=s["n_iter"], model=model, proj_back_mic=ref, **kw)
    if a == "five":
        return tv.FIVE(n_iter=s["n_iter"], model=model, proj_back_mic=ref,
                       n_power_iter=s.get("power"), **kw)
    if a == "wpe":
        return tv.WPE(n_iter=s["n_iter"], n_taps=s.get("taps", 0),
                      n_delay=s.get("delay", 0), model=model, **kw)
    if a == "mvdr":
        return tv.MVDRBeamformer(model, ref_mic=ref, mvdr_type=s.get("mvdr_type", "rtf"),
                                 n_power_iter=s.get("power"), **kw)
    if a == "mwf":
        return tv.MWFBeamformer(model, ref_mic=ref, time_invariant=s.get("ti", True), **kw)
    if a == "gev":
        return tv.GEVBeamformer(model, ref_mic=ref, **kw)
    raise ValueError(a)


# levels of the STFT coefficients: quiet to 16-bit integer samples
LEVELS = (1.0, 1.0, 1.0, 0.1, 10.0, 100.0, 1e3)
BATCHES = [(), (), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)]


def random_algo(r, algos=ITER + BEAM, max_chan=5, models=("laplace", "gauss", "power"),
                batches=BATCHES, F=(3, 12), N=(30, 80), n_iter=(1, 6), kinds=None,
                overdet=True, taps=True, levels=LEVELS):
    """a random spec: algorithm, sizes, parameters, kind of signal and level"""
    a = r.choice(list(algos))
    C = 2 if a == "ip2" else r.randint(2, max_chan)
    s = dict(algo=a, C=C, F=r.randint(*F), N=r.randint(*N), batch=list(r.choice(batches)),
             kind=r.choice(kinds or ["speechlike", "onoff", "lowrank", "gauss", "wav"]),
             ref=r.randrange(C), scale=r.choice(levels))
    if a in ITER:
        s["n_iter"] = r.randint(*n_iter)
        s["model"] = r.choice(list(models))
    if a == "wpe":
        s["model"] = r.choice([None, "wpe", "wpeparam" if "param" in models else None])
        s.pop("ref")
        s["n_iter"] = r.randint(1, 3)
        s["taps"], s["delay"] = r.randint(1, 4), r.randint(0, 3)
        s["N"] += 8 * s["C"] * s["taps"]
    if a == "tiss" and taps:
        s["taps"], s["delay"] = r.choice([(0, 0), (0, 0), (0, 2), (1, 0), (2, 1), (3, 2), (5, 1)])
    if a in ("tiss", "ip"):
        s["n_src"] = r.choice([None, C] + ([r.randint(1, C - 1)] * 2 if overdet else []))
    if a == "five":
        s["power"] = r.choice([None, None, 1, 5, 20])
    if a in BEAM:
        s["n_src"] = r.randint(1, 3)
        s["N"] += 10 * s["C"]
        if a == "mvdr":
            s["mvdr_type"], s["n_masks"] = r.choice([("rtf", 2), ("rtf", 3), ("scm", 2)])
            s["power"] = r.choice([None, None, 3, 10])
        elif a == "mwf":
            s["ti"] = r.random() < 0.5
            s["n_masks"] = 2 if s["ti"] else 4
    return s


def signal_for(s, **over):
    s = dict(s, **over)
    return mixture(s["seed"], s["batch"], s["C"], s["F"], s["N"], s["kind"],
                   reverb=s.get("reverb", 0), cond=s.get("cond", 4.0),
                   scale=s.get("scale", 1.0), dtype=s.get("dtype", C128))


def n_out(s):
    if s["algo"] == "five":
        return 1
    if s["algo"] in BEAM:
        return s["n_src"]
    if s["algo"] in ("tiss", "ip"):
        return s["n_src"] or s["C"]
    return s["C"]


def rel(a, b, floor=1e-300):
    """largest deviation relative to the largest magnitude of b"""
    if a.shape != b.shape:
        return float("inf")
    if a.numel() == 0:
        return 0.0
    d = (a - b).abs().max()
    return float(d / max(float(b.abs().max()), floor)) if torch.isfinite(d) else float("nan")


def finite(x):
    if x.is_complex():
        x = torch.view_as_real(x.resolve_conj())
    return bool(torch.isfinite(x).all())
