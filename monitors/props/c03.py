"""C03: batched processing is the same as processing each element alone"""
import itertools

import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random batches (1-3 leading dimensions, elements of very different level and "
        "content) through every public separator, beamformer, transform, scaling "
        "function, source model and helper; the result for each element is compared to "
        "that of a call with this element only; non-trivial: more than one element or "
        "a batch shape other than the reference's")
BATCH = [(1,), (2,), (3,), (5,), (2, 2), (1, 3), (3, 1), (2, 1, 2), (1, 1)]


def mk_algo(r):
    s = random_algo(r, batches=BATCH, n_iter=(0, 6))
    if s["algo"] == "wpe":
        s["n_iter"] = max(1, s["n_iter"])
        s["weights"] = r.random() < 0.4
    if s["algo"] in ("tiss", "ip", "ip2", "five") and r.random() < 0.15:
        s["ref"] = None
    if s["algo"] == "tiss" and r.random() < 0.2:
        s["dmc"] = True
    s["what"] = "algo"
    s["spread"] = r.choice([0.0, 0.5, 1.0, 4.0, 4.0])
    return s


def mk_bss(r):
    a = r.choice(["tiss", "ip2", "five", "mvdr", "mwf", "gev"])
    C = 2 if a == "ip2" else r.randint(2, 4)
    return dict(what="bss", algo=a, C=C, n_fft=r.choice([16, 32, 64]),
                n=r.randint(1000, 3000), batch=list(r.choice(BATCH)), ref=r.randrange(C),
                n_iter=r.randint(1, 4), n_src=r.randint(1, 2), spread=0.5)


def mk_other(r):
    return dict(what="other", fn=r.choice(
        ["stft", "istft", "laplace", "gauss", "blstm", "simple", "glu", "mvdrsupport",
         "projection_back", "md_l2", "md_lp", "md_phase", "select", "fftconvolve",
         "eigh", "gevd", "solve_loaded", "solve_loaded_general", "inv_loaded", "inv_2x2",
         "hankel"]),
        C=r.randint(2, 4), F=r.choice([3, 5, 9, 17]), N=r.randint(10, 40),
        batch=list(r.choice(BATCH)), k=r.randint(0, 5))


def plan(ctx):
    return expand("C03", ctx.seed, [mk_algo, mk_algo, mk_other, mk_bss], ctx.scaled(1000, 16000), large="FNCIM")


def run(ctx, s):
    g = gen(s["seed"])
    batch = tuple(s["batch"])

    def element(i, j=0):
        # each element has its own seed, level and kind of signal
        return s["seed"] + 7919 * (j + 1) + i

    idx = list(itertools.product(*[range(b) for b in batch]))
    level = torch.exp(s.get("spread", 0.0) * torch.randn(len(idx), generator=g)).tolist()
    ctx.event("batch elements", len(idx))

    if s["what"] == "algo":
        C, F, N = s["C"], s["F"], s["N"]
        kinds = ["speechlike", "onoff", "lowrank", "gauss", "wav"]
        x = [mixture(element(i), (), C, F, N, kinds[(i + s["seed"]) % 5], scale=level[i])
             for i in range(len(idx))]
        X = torch.stack(x).reshape(batch + (C, F, N))

        def f(X):
            model = WpeWeights() if s.get("weights") else None
            return build(s, model=model)(X)

        tol = 1e-6
        want = (n_out(s), F, N)
        name = s["algo"]
    elif s["what"] == "bss":
        import torchiva

        C, n = s["C"], s["n"]
        X = torch.randn(batch + (C, n), generator=g, dtype=torch.float64)
        X = X * torch.rand(batch + (C, n // 100 + 1), generator=g).double().repeat_interleave(
            100, -1)[..., :n]
        A = torch.randn(batch + (C, C), generator=g, dtype=torch.float64)
        X = A @ X * torch.tensor(level).double().reshape(batch + (1, 1))

        def f(X):
            m = MaskNet(s["n_src"], 2) if s["algo"] in BEAM else None
            kw = dict(n_src=s["n_src"]) if s["algo"] == "tiss" else {}
            return torchiva.nn.BSSSeparator(
                n_fft=s["n_fft"], n_iter=s["n_iter"], algo=s["algo"], source_model=m,
                proj_back_mic=s["ref"], **kw).double()(X)

        tol, name = 1e-6, "separator:" + s["algo"]
        want = ({"ip2": C, "five": 1}.get(s["algo"], s["n_src"]), n)
    else:
        f, X, want, name, tol = other(ctx, s, g, batch)

    with torch.no_grad():
        many = isinstance(X, tuple)
        Y = f(*X) if many else f(X)
        outs = Y if isinstance(Y, tuple) else (Y,)
        if want is not None and not check_out(ctx, outs[0], batch + tuple(want)):
            return
        for i in idx:
            Yi = f(*[x[i].clone() for x in X]) if many else f(X[i].clone())
            outsi = Yi if isinstance(Yi, tuple) else (Yi,)
            for o, oi in zip(outs, outsi):
                d, t = rel(o[i], oi), tol
                if not d <= tol and s["what"] == "algo":
                    # badly conditioned: as much as the roundings are amplified
                    t = tol + 50 * roundoff(f, [X[i].clone()], outsi)
                    ctx.event("badly conditioned elements")
                ctx.check(d, t, f"batch = element ({name})", index=i)


def other(ctx, s, g, batch):
    import torchiva as tv
    from torchiva import linalg as L

    fn, C, F, N, k = s["fn"], s["C"], s["F"], s["N"], s["k"]
    X = crandn(g, *batch, C, F, N) * torch.exp(
        torch.randn(batch + (C, 1, 1), generator=g).double())
    ref = crandn(g, *batch, F, N)

    def herm(n):
        a = crandn(g, *batch, n, n + 3)
        return a @ a.mH

    if fn == "stft":
        x = torch.randn(*batch, C, 40 + 10 * N, generator=g, dtype=torch.float64)
        return tv.STFT(32, hop_length=[None, 8, 16][k % 3]).double(), x, None, fn, 1e-9
    if fn == "istft":
        st = tv.STFT(2 * (F - 1), hop_length=F - 1).double()
        return st.inv, X, None, fn, 1e-9
    if fn == "laplace":
        return tv.models.LaplaceModel(), X, X.shape[len(batch):], fn, 1e-9
    if fn == "gauss":
        return tv.models.GaussModel(), X, X.shape[len(batch):], fn, 1e-9
    if fn in ("blstm", "simple", "glu", "mvdrsupport"):
        torch.manual_seed(1)
        Xs = X.to(torch.complex64)
        if fn == "blstm":
            m = tv.models.BLSTMMask(n_freq=F, n_bottleneck=3, n_hidden=4,
                                    mag_spec=bool(k % 2), log_spec=bool(k % 2))
        elif fn == "simple":
            m = tv.models.SimpleModel(n_freq=F, n_mels=3)
        elif fn == "glu":
            m = tv.models.GLUMask(F, 4, mag_spec=bool(k % 2))
        else:
            m = tv.models.MaskMVDRSupport(n_src=2, n_masks=2 + k % 2, n_input=F, n_hidden=4)
        m = m.eval()
        want = (C, F, N) if fn != "mvdrsupport" else (C, 2, 2 + k % 2, F, N)
        return m, Xs, want, fn, 1e-4
    if fn == "projection_back":
        return tv.projection_back, (X, X.sum(-3) + 0 * ref), (C, F, N), fn, 1e-6
    if fn == "md_l2":
        return tv.minimum_distortion, (X, ref), (C, F, N), fn, 1e-9
    if fn == "md_lp":
        p, q = [(1.0, None), (0.7, None), (1.0, 2.0), (1.0, 1.5), (1.5, 1.5), (1.0, 2.0)][k]
        return (lambda Y, ref: tv.minimum_distortion(Y, ref, p=p, q=q, rtol=0.0, max_iter=7),
                (X, ref), (C, F, N), fn, 1e-6)
    if fn == "md_phase":
        return tv.minimum_distortion_l2_phase, (X, ref), (C, F, N), fn, 1e-9
    if fn == "select":
        x = X[..., 0, :].real.contiguous()
        num = 1 + k % C
        return (lambda x: tv.select_most_energetic(x, num=num, dim=-2, dim_reduc=-1), x,
                (num, N), fn, 0.0)
    if fn == "fftconvolve":
        a = torch.randn(*batch, N, generator=g, dtype=torch.float64)
        b = torch.randn(*batch, 1 + 3 * k, generator=g, dtype=torch.float64)
        mode = ["full", "same", "valid"][k % 3]
        return (lambda a, b: tv.fftconvolve(a, b, mode=mode)), (a, b), None, fn, 1e-9
    if fn == "eigh":
        return (lambda A: phase(L.eigh(A))), herm(C), None, fn, 1e-6
    if fn == "gevd":
        return (lambda A, B: phase(L.eigh(A, B))), (herm(C), herm(C)), None, fn, 1e-5
    if fn == "solve_loaded":
        return L.solve_loaded, (herm(C), crandn(g, *batch, C, 2)), (C, 2), fn, 1e-8
    if fn == "solve_loaded_general":
        return (L.solve_loaded_general,
                (crandn(g, *batch, C, C) + 2 * torch.eye(C), crandn(g, *batch, C, 2)),
                (C, 2), fn, 1e-8)
    if fn == "inv_loaded":
        return L.inv_loaded, herm(C), (C, C), fn, 1e-8
    if fn == "inv_2x2":
        return L.inv_2x2, crandn(g, *batch, 2, 2), (2, 2), fn, 1e-8
    if fn == "hankel":
        return (lambda x: L.hankel_view(x, 1 + k).clone()), X, (C, F, 1 + k, N - k), fn, 0.0
    raise ValueError(fn)


def phase(r):
    """eigenvalues, and eigenvectors with the phase ambiguity removed"""
    val, vec = r[0], r[1]
    p = vec.abs().argmax(dim=-2, keepdim=True)
    z = torch.gather(vec, -2, p)
    return val, vec * (z.abs() / z)
