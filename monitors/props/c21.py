"""C21: the time domain separator"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random waveforms (2-4 channels, any batch, lengths that are not multiples of the hop, "
        "single and double precision) through the time domain separator, with every algorithm, "
        "all its parameters, source models given as objects or by name, repeated calls with "
        "other lengths; each result is compared with the chain of torch.stft, the algorithm "
        "built separately, torch.istft, and zero padding or truncation to the length of the "
        "input; non-trivial: the output is not zero")


def mk(r):
    algo = r.choice(["tiss", "tiss", "ip2", "five", "mvdr", "mwf", "gev"])
    C = 2 if algo == "ip2" else r.randint(2, 4)
    n_fft = r.choice([16, 32, 64, 65, 128])
    div = r.choice([None, 2, 4, 8])
    s = dict(algo=algo, C=C, n_fft=n_fft, hop=None if div is None else n_fft // div,
             win=r.choice([None, "hann", "hamming"] + (["blackman"] if div not in (2,) else [])),
             L=r.randint(20 * n_fft, 40 * n_fft), batch=list(r.choice([(), (), (1,), (2,), (2, 2)])),
             ref=r.randrange(C), n_iter=r.randint(1, 6), eps=r.choice([None, 1e-6, 1e-8]),
             double=r.random() < 0.6, enum=r.random() < 0.3, n_calls=r.choice([1, 1, 2, 3]),
             model=r.choice(["laplace", "gauss", "nmf", "power", "name", "default"]),
             mseed=r.randrange(17), kind=r.choice(["synth", "synth", "wav"]))
    if algo == "tiss":
        s["taps"], s["delay"] = r.choice([(0, 0), (0, 0), (2, 1), (3, 0)])
        s["n_src"] = r.choice([None, None, C, r.randint(1, C)])
        s["dmc"] = r.random() < 0.2
    elif algo in BEAM:
        s["n_src"] = r.randint(1, 3)
        s["n_masks"] = r.choice([2, 3]) if algo == "mvdr" else 2
    if algo in ("five", "mvdr"):
        s["power"] = r.choice([None, None, 5])
    return s


def plan(ctx):
    return expand("C21", ctx.seed, [mk], ctx.scaled(300, 8000))


def waveform(s, g, L):
    b, C = tuple(s["batch"]), s["C"]
    if s["kind"] == "wav" and wav_files():
        w, _ = read_wav(wav_files()[0])
        out = []
        nb = int(torch.tensor(b).prod()) if b else 1
        for _ in range(nb):
            o = int(torch.randint(w.shape[-1] - L, (1,), generator=g))
            e = w[torch.arange(C) % w.shape[0], o:o + L]
            out.append(e / e.abs().max() + 0.01 * torch.randn(C, L, generator=g).double())
        return torch.stack(out).reshape(b + (C, L))
    n = torch.randn(*b, C, L, generator=g, dtype=torch.float64)
    a = torch.repeat_interleave(torch.rand(*b, C, L // 50 + 1, generator=g).double() ** 3, 50, dim=-1)[..., :L]
    A = torch.randn(*b, C, C, generator=g, dtype=torch.float64)
    y = A @ (n * a)
    y[..., 3:] += 0.4 * (n * a)[..., :-3]
    return y + 0.01 * torch.randn(*b, C, L, generator=g, dtype=torch.float64)


def model_for(s):
    """(argument of the separator, model for the reference)"""
    import torchiva as tv

    if s["algo"] in BEAM:
        mk_ = lambda: MaskNet(s["n_src"], s["n_masks"], seed=s["mseed"])
        return mk_(), mk_()
    m = s["model"]
    if m == "default":
        return None, tv.models.LaplaceModel()
    if m == "name":
        k = dict(eps=1e-3)
        return dict(name="torchiva.models.GaussModel", kwargs=k), tv.models.GaussModel(**k)
    if m == "nmf":
        return tv.models.NMFModel(n_basis=3), tv.models.NMFModel(n_basis=3)
    return make_model(m), make_model(m)


def run(ctx, s):
    import torchiva as tv

    g = gen(s["seed"])
    arg, model = model_for(s)
    kw = dict(n_fft=s["n_fft"], hop_length=s["hop"], window=s["win"], source_model=arg,
              algo=tv.SepAlgo(s["algo"]) if s["enum"] else s["algo"],
              proj_back_mic=s["ref"], n_iter=s["n_iter"])
    for k, n in (("taps", "n_taps"), ("delay", "n_delay"), ("n_src", "n_src"), ("dmc", "use_dmc"),
                 ("power", "n_power_iter"), ("eps", "eps")):
        if s.get(k) is not None:
            kw[n] = s[k]
    sep = tv.nn.BSSSeparator(**kw)
    dt = torch.float64 if s["double"] else torch.float32
    if s["double"]:
        sep = sep.double()
    sep.eval()
    core = build(dict(s, eps=s["eps"] or 1e-5), model=model)
    hop = s["hop"] or s["n_fft"] // 4
    import scipy.signal

    w = torch.from_numpy(scipy.signal.get_window(s["win"] or "hann", s["n_fft"])).to(dt)
    if s["double"]:
        # the window is stored in single precision first
        w = w.float().double() if sep.stft.window.float().double().equal(sep.stft.window) else w
    for c in range(s["n_calls"]):
        L = s["L"] + 37 * c * (1 if c % 2 else -1)
        x = waveform(s, g, L).to(dt)
        torch.manual_seed(s["seed"])
        with torch.no_grad():
            y = sep(x)
        n_src = 1 if s["algo"] == "five" else (s.get("n_src") or s["C"])
        if not check_out(ctx, y, tuple(s["batch"]) + (n_src, L), dt):
            return
        flat = x.reshape(-1, L)
        X = torch.stft(flat, s["n_fft"], hop_length=hop, window=w, return_complex=True)
        X = X.reshape(x.shape[:-1] + X.shape[-2:])
        torch.manual_seed(s["seed"])
        with torch.no_grad():
            Y = core(X)
        z = torch.istft(Y.reshape((-1,) + Y.shape[-2:]), s["n_fft"], hop_length=hop, window=w)
        z = z.reshape(Y.shape[:-2] + z.shape[-1:])[..., :L]
        z = torch.nn.functional.pad(z, (0, L - z.shape[-1]))
        if not (y.abs().max() > 0):
            raise Skip("silent output")
        ctx.check(rel(y, z), 1e-9 if s["double"] else 2e-3, f"chain ({s['algo']})")
        ctx.event("calls")
