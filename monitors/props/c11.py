"""C11: separation works: the sources of a mixture are recovered"""
import itertools
import math

import torch

from ..core import REPO, Skip, expand
from ..util import *

RULE = ("mixtures of 2-4 independent non-Gaussian sources with known images (random "
        "mixing matrices per frequency, condition number <= 4, optionally noise with more "
        "microphones than sources, optionally convolutive with dereverberation taps) and "
        "the recorded reverberant mixtures shipped with the library; the monitor compares "
        "the outputs with the true images: signal-to-interference ratio per source under "
        "one permutation common to all frequencies; non-trivial: the mixture itself has "
        "an SIR below 10 dB")
ASSUMPTIONS = ["iterative separation may stop in a local optimum: the median of 3 (two "
               "sources) or 7 mixtures is judged, at least 6 dB under the worst median seen"]


def mk(r):
    a = r.choice(["tiss", "ip", "ip2", "tiss", "ip", "five", "tiss"])
    C = 2 if a == "ip2" else r.randint(2, 3)
    if a in ("five", "ip") and r.random() < 0.2:
        C = 4
    s = dict(what="det", algo=a, C=C, S=C, F=r.randint(12, 24), N=r.randint(250, 400),
             batch=list(r.choice([(), (), (2,)])), kind=r.choice(["speechlike", "onoff"]),
             model=r.choice(["laplace", "gauss"]), n_iter=r.choice([40, 60]), ref=r.randrange(C),
             scale=r.choice([1.0, 1.0, 0.1, 10.0]), n_src=None, group=3 if C == 2 else 7)
    if a == "five":
        s["n_iter"] = 30
        s["power"] = r.choice([None, None, 20])
        s["model"] = "laplace"
        s["kind"] = "speechlike"
    elif a in ("tiss", "ip") and C > 2 and r.random() < 0.5:
        s["what"] = "over"
        s["S"] = r.randint(2, C - 1)
        s["n_src"] = s["S"]
    elif a == "tiss" and C < 4 and r.random() < 0.5:
        s["what"] = "conv"
        s["taps"], s["delay"] = r.randint(1, 2), r.randint(0, 1)
        s["N"] += 150
    return s


def plan(ctx):
    cases = expand("C11", ctx.seed, [mk], ctx.scaled(80, 1500))
    for a in ["tiss", "ip2", "five", "ip"]:
        for m in ("laplace", "gauss"):
            for C, ref in [(2, 0), (2, 1), (3, 2), (3, 1)]:
                if (a == "ip2" and C > 2) or (ctx.quick and ref == 1):
                    continue
                cases.append(dict(what="real", algo=a, model=m, C=C, ref=ref, seed=ctx.seed,
                                  eps=1e-7 if a == "ip" else None))
    cases.append(dict(what="real", algo="ip", model="laplace", C=2, ref=0, seed=ctx.seed, eps=None))
    return cases


def images(s):
    g = gen(s["seed"])
    batch = tuple(s["batch"])
    S, C, F, N = s["S"], s["C"], s["F"], s["N"]
    src = sources(g, batch, S, F, N, s["kind"])
    src = src / src.abs().square().mean((-2, -1), keepdim=True).sqrt()
    n = max(C, S)
    A = mixing(g, batch, F, C, S, 4.0)
    A = A / A.abs().square().mean(-2, keepdim=True).sqrt()
    if s["algo"] == "five":  # one dominant source
        src = src * torch.tensor([1.0] + [0.3] * (S - 1))[:, None, None]
    img = torch.einsum("...fcs,...sfn->...scfn", A, src)
    X = img.sum(-4)
    if s["what"] == "conv":
        B = delayed(X, range(s["delay"] + 1, s["delay"] + s["taps"] + 1))
        # the reverberation is a multichannel regression on the past of the observation
        H = crandn(g, *batch, F, C, C * s["taps"])
        H = 0.5 * H / torch.linalg.matrix_norm(H, ord=2)[..., None, None]
        Z = X.clone()
        out = []
        for t in range(N):
            past = []
            for d in range(s["delay"] + 1, s["delay"] + s["taps"] + 1):
                past.append(out[t - d] if t - d >= 0 else torch.zeros_like(Z[..., 0]))
            p = torch.cat(past, dim=-2)  # (..., C*taps, F)
            out.append(Z[..., t] + torch.einsum("...fck,...kf->...cf", H, p))
        X = torch.stack(out, dim=-1)
    if s["what"] == "over":
        X = X + 0.03 * crandn(g, *X.shape)
    return X * s["scale"], img * s["scale"]


def score(Y, img):
    """
    SIR of the outputs (..., k, f, n) w.r.t. the images at the reference (..., s, f, n):
    power of the best matching source over everything else, one permutation per element
    """
    K, S = Y.shape[-3], img.shape[-3]
    W, R = fit(img, Y)  # (..., f, k, s)
    P = W.abs().square() * img.abs().square().mean(-1).mT[..., None, :]
    P = P.sum(-3)  # (..., k, s)
    E = R.abs().square().mean(-1).sum(-1)  # (..., k)
    tot = P.sum(-1) + E
    P = P.reshape(-1, K, S)
    tot = tot.reshape(-1, K)
    worst = []
    for p, t in zip(P, tot):
        best = -1e9
        for perm in itertools.permutations(range(S), K):
            v = min(db(p[k, perm[k]] / max(float(t[k] - p[k, perm[k]]), 1e-30)) for k in range(K))
            best = max(best, v)
        worst.append(best)
    return min(worst)


THRESH = dict(det=18.0, over=18.0, conv=18.0, five=18.0)


def run(ctx, s):
    if s["what"] == "real":
        return run_real(ctx, s)
    vals = []
    for i in range(s["group"]):
        si = dict(s, seed=(s["seed"] + 7919 * i) % (2**31))
        X, img = images(si)
        Y = quiet(build(si), X)
        if not check_out(ctx, Y, tuple(s["batch"]) + (n_out(s), s["F"], s["N"]), X.dtype):
            return
        vals.append(score(Y, img[..., s["ref"], :, :]))
    ctx.event("mixtures separated", len(vals))
    kind = "five" if s["algo"] == "five" else s["what"]
    name = f"{kind} {s['algo']} {s['model']}"
    v = sorted(vals)[len(vals) // 2]
    ctx.check(THRESH[kind] - v + 100, 100, f"median SIR ({name})", sir=vals)


def si_sdr(ref, est):
    a = (ref * est).sum(-1, keepdim=True) / ref.square().sum(-1, keepdim=True)
    return db((a * ref).square().sum() / (a * ref - est).square().sum())


def run_real(ctx, s):
    """the recording shipped with the library, at the microphone s["ref"]"""
    import torchiva

    d = REPO / "examples" / "samples"
    files = wav_files()
    if not files:
        raise Skip("the recordings are not there")
    x, fs = read_wav(files[0])
    name = files[0].rsplit("/", 1)[-1][:-4]
    refs = []
    for k in (1, 2):
        y, _ = read_wav(str(d / "ref_reverb" / f"{name}_s{k}.wav"))
        refs.append(y[s["ref"]])
    n = min(x.shape[-1], refs[0].shape[-1])
    x = x[: s["C"], :n]
    refs = torch.stack(refs)[:, :n]
    if s["algo"] == "ip":
        stft = torchiva.STFT(2048, hop_length=512).double()
        X = stft(x)
        Y = quiet(torchiva.AuxIVA_IP(n_iter=30, n_src=2, proj_back_mic=s["ref"], eps=s["eps"],
                                     model=make_model(s["model"])), X)
        y = stft.inv(Y)
    else:
        sep = torchiva.nn.BSSSeparator(
            n_fft=2048, hop_length=512, n_iter=30, algo=s["algo"], n_src=2,
            source_model=make_model(s["model"]), proj_back_mic=s["ref"]).double()
        y = quiet(sep, x)
    n = min(n, y.shape[-1])
    y, refs = y[..., :n], refs[..., :n]
    before = [si_sdr(r, x[s["ref"], :n]) for r in refs]
    if y.shape[0] == 1:
        gains = [max(si_sdr(refs[k], y[0]) - before[k] for k in (0, 1))]
    else:
        gains = max(([si_sdr(refs[0], y[i]) - before[0], si_sdr(refs[1], y[1 - i]) - before[1]]
                     for i in (0, 1)), key=min)
    ctx.event("recordings separated")
    v = min(gains) if s["C"] == 2 else sum(gains)
    thresh = 1.0 if s["algo"] == "five" else 2.5
    if s["algo"] == "ip" and s["eps"] is None:
        if v < thresh:
            ctx.finding("ip-default-eps-recording", "")
        return
    ctx.check(thresh - v + 100, 100,
              f"SI-SDR improvement on the recording ({s['algo']} {s['model']} {s['C']})",
              gains=gains)
