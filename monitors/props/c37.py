"""C37: requests that make no sense are refused, those that do are served"""
import warnings

import torch

from ..core import Skip, expand
from ..instrument import fingerprint
from ..util import *

RULE = ("a random valid request to a separator, dereverberation, extractor, beamformer, whole separator or "
        "helper function is served, then the same request with one nonsensical option or input "
        "(more sources than microphones, microphone that does not exist, wrong number of microphones, masks or "
        "dimensions, unknown names of algorithms, modes or windows, exponents out of range, sizes that do not "
        "match), given to the constructor or to the call, must raise an exception without touching the inputs, "
        "and the valid request must then be served as before; valid requests at the border "
        "of what is allowed, including microphones counted from the end, must be served; non-trivial: a "
        "nonsensical request was made")


def mk(r):
    s = random_algo(r, n_iter=(1, 2), models=("laplace", "gauss", "power"), N=(30, 40))
    s["cls"] = "sep"
    a = s["algo"]
    bad = ["dims"]
    if a in ("tiss", "ip"):
        bad += ["n_src", "n_src", "n_src negative"]
    if a == "tiss":
        bad += ["taps"]
    if a == "wpe":
        bad += ["taps"]
    if a == "ip2":
        bad += ["channels"] * 2
    if a != "wpe":
        bad += ["ref"] * 3 + ["ref negative"]
    if a in BEAM:
        bad += ["masks", "no model"]
    if a == "mvdr" and s["n_masks"] == 2:
        bad += ["mvdr_type"] * 2
    if a == "mwf":
        bad += ["time varying"]
    s["bad"] = r.choice(bad)
    s["by"] = r.choice([1, 1, 2, 7])
    s["where"] = r.choice(["constructor", "call"])
    return s


def mk_over(r):
    """fewer sources than microphones, reference counted from the end or out of range"""
    s = random_algo(r, algos=("tiss", "ip"), n_iter=(1, 2), models=("laplace", "gauss"), N=(30, 40))
    s["C"] = r.randint(3, 5)
    s["n_src"] = r.randint(1, s["C"] - 1)
    s["ref"] = r.randrange(s["C"])
    s.update(cls="sep", bad=r.choice(["ref", "ref negative"]), by=r.choice([1, 1, 2, 4]), where=r.choice(["constructor", "call"]))
    return s


def mk_end(r):
    """microphones counted from the end"""
    s = random_algo(r, n_iter=(1, 2), models=("laplace", "gauss"), N=(30, 40),
                    algos=("tiss", "ip", "ip2", "five", "mvdr", "mwf", "gev"))
    s.update(cls="end")
    return s


def mk_wave(r):
    return dict(cls="wave", bad=r.choice(["algo", "channels", "n_src", "ref", "dims", "window", "n_fft", "net"]),
                algo=r.choice(["tiss", "ip2", "five", "mvdr", "mwf", "gev"]), by=r.choice([1, 2, 5]),
                name=r.choice(["ica", "TISS", "", "t-iss", "ip", "auxiva_ip2", "beamformer", 3, None]),
                win=r.choice(["hannn", "", "none"]), n=r.randint(200, 400))


FN = ["p", "pq", "mode", "conv batch", "conv dim", "inv_2x2", "eigh_2x2", "square", "gevd sizes", "bmm", "hankel",
      "window length", "window dims", "window name", "n_fft", "hop", "istft freq", "import", "arguments", "solve", "five"]


def mk_fn(r):
    return dict(cls="fn", bad=r.choice(FN), C=r.randint(2, 4), F=r.randint(3, 6), N=r.randint(20, 30),
                x=r.random(), k=r.randrange(100))


def plan(ctx):
    return expand("C37", ctx.seed, [mk, mk_over, mk_fn, mk_end, mk_wave], ctx.scaled(1500, 20000))


def refused(ctx, f, what, *inputs, **detail):
    before = [fingerprint(x) for x in inputs]
    err = None
    try:
        with torch.no_grad():
            Y = f()
    except Exception as e:
        err = e
    ctx.event("nonsense: " + what)
    if not ctx.expect(err is not None, f"refused: {what}", got=None if err else str(getattr(Y, "shape", Y)), **detail):
        return
    ctx.event("refused with " + type(err).__name__)
    ctx.expect(before == [fingerprint(x) for x in inputs], "inputs untouched by a refused request", of=what)


def run_sep(ctx, s):
    a, C, b = s["algo"], s["C"], s["bad"]
    X = signal_for(s)
    f = build(s)
    good = quiet(f, X)
    check_out(ctx, good, out_shape(s), label="valid request served")
    over, Z = {}, X
    refname = "proj_back_mic" if a in ITER else "ref_mic"
    if b == "n_src":
        over["n_src"] = C + s["by"]
    elif b == "n_src negative":
        over["n_src"] = -s["by"]
    elif b == "taps":
        over["n_taps"] = -s["by"]
        if a == "tiss":
            over["n_delay"] = s["by"] + 1
    elif b == "ref":
        over[refname] = C - 1 + s["by"]
    elif b == "ref negative":
        over[refname] = -C - s["by"]
    elif b == "channels":
        Z = X[..., :1, :, :] if s["by"] == 1 else torch.cat([X] * s["by"], -3)
    elif b == "dims":
        Z = X.reshape((-1,) + X.shape[-2:])[0]
    elif b == "masks":
        n = {"mvdr": [1, 4, 5], "mwf": [1] if s.get("ti") else [1, 2, 3], "gev": [1]}[a]
        over["mask_model"] = MaskNet(s["n_src"], n[s["by"] % len(n)])
    elif b == "no model":
        over["mask_model"] = None if s["where"] == "constructor" else 3
    elif b == "mvdr_type":
        over["mvdr_type"] = ["mpdr", "RTF", "", "scm2"][s["by"] % 4]
    elif b == "time varying":
        over["time_invariant"] = False
        over["mask_model"] = MaskNet(s["n_src"], 3)
    what = f"{b} ({a})"
    if s["where"] == "call" or b in ("channels", "dims"):
        refused(ctx, lambda: f(Z, **over), what, Z, where="call", over={k: str(v) for k, v in over.items()})
    else:
        def construct():
            import torchiva as tv

            cls = type(f)
            kw = dict(over)
            if a in ITER:
                kw.setdefault("n_iter", s["n_iter"])
                if a != "ip2" and a != "wpe" and a != "five":
                    kw.setdefault("n_src", s["n_src"])
                return cls(**kw)(Z)
            m = kw.pop("mask_model", MaskNet(s["n_src"], s.get("n_masks", 2)))
            if a == "mwf":
                kw.setdefault("time_invariant", s["ti"])
            return cls(m, **kw)(Z)
        refused(ctx, construct, what, Z, where="constructor", over={k: str(v) for k, v in over.items()})
    again = quiet(f, X)
    ctx.check(rel(again, good), 1e-9, "valid request served as before", of=what)


def run_end(ctx, s):
    """the last microphone is also microphone -1"""
    X = signal_for(s)
    want = quiet(build(s), X)
    k = s["ref"] - s["C"]
    ctx.event("microphones counted from the end")
    try:
        got = quiet(build(s, ref=k), X)
    except Exception as e:
        # refusing is the other possibility
        ctx.event("refused with " + type(e).__name__)
        ctx.expect(True, "microphone counted from the end is refused")
        return
    ctx.check(rel(got, want), 1e-9, "microphone counted from the end is the same microphone", of=s["algo"], ref=k, n_src=s.get("n_src"), C=s["C"])


def run_wave(ctx, s):
    import torchiva

    x = torch.randn(2, s["n"], generator=gen(s["seed"]), dtype=torch.float64)
    beam = s["algo"] in BEAM

    def new(**kw):
        k = dict(n_fft=16, n_iter=2, algo=s["algo"], source_model=MaskNet(2, 2) if beam else None)
        k.update(kw)
        return torchiva.nn.BSSSeparator(**k).double()

    f = new()
    check_out(ctx, quiet(f, x), (1 if s["algo"] == "five" else 2, s["n"]), label="valid request served")
    b, Z, kw = s["bad"], x, {}
    if b == "algo":
        kw["algo"] = s["name"]
    elif b == "channels":
        kw["algo"] = "ip2"
        kw["source_model"] = None
        Z = x[:1] if s["by"] == 1 else torch.cat([x] * s["by"], 0)
    elif b == "n_src":
        kw["algo"], kw["n_src"], kw["source_model"] = "tiss", 2 + s["by"], None
    elif b == "ref":
        kw["proj_back_mic"] = 1 + s["by"]
    elif b == "dims":
        Z = x[0]
    elif b == "window":
        kw["window"] = s["win"]
    elif b == "n_fft":
        kw["n_fft"] = -s["by"] + 1
    elif b == "net":
        kw["source_model"] = dict(name=["torchiva.models.Laplace", "torchivaa.models.LaplaceModel", "LaplaceModel"][s["by"] % 3])
    refused(ctx, lambda: new(**kw)(Z), f"{b} (wave)", Z, over={k: str(v) for k, v in kw.items()})


def run_fn(ctx, s):
    import torchiva
    from torchiva import linalg, scaling, utils
    from torchiva.fftconvolve import fftconvolve

    g = gen(s["seed"])
    C, F, N, u, k = s["C"], s["F"], s["N"], s["x"], s["k"]
    Y, R = crandn(g, C, F, N), crandn(g, F, N)
    x1, x2 = torch.randn(3, N, generator=g, dtype=torch.float64), torch.randn(3, 7, generator=g, dtype=torch.float64)
    A = crandn(g, F, C, C)
    A = A @ A.mH + torch.eye(C)
    A3 = crandn(g, F, 3, 3)
    A3 = A3 @ A3.mH + torch.eye(3)
    b = s["bad"]

    def served(f, *shape):
        with torch.no_grad():
            Z = f()
        Z = Z[0] if isinstance(Z, tuple) else Z
        ctx.expect(not shape or tuple(Z.shape) == shape, f"valid request served ({b})", got=tuple(Z.shape))

    if b == "p":
        p = [-u - 0.01, 2.01 + u, 0.0][k % 3]
        served(lambda: scaling.minimum_distortion(Y, R, p=[2.0, 1.999, 0.01 + u][k % 3], max_iter=2), C, F, N)
        refused(ctx, lambda: scaling.minimum_distortion(Y, R, p=p), "exponent p", Y, R, p=p)
    elif b == "pq":
        p, q = [(0.5 + u, 0.4 + u), (1.0, 2.01 + u), (-0.1 - u, 1.0), (2.0, 1.0 + 0.9 * u)][k % 4]
        served(lambda: scaling.minimum_distortion(Y, R, p=0.5 + u, q=[2.0, 0.6 + u, 0.5 + u][k % 3], max_iter=2), C, F, N)
        refused(ctx, lambda: scaling.minimum_distortion(Y, R, p=p, q=q), "exponents p, q", Y, R, p=p, q=q)
    elif b == "mode":
        m = ["FULL", "fulll", "", None, 0, "reflect"][k % 6]
        for o in ("full", "same", "valid"):
            served(lambda: fftconvolve(x1, x2, mode=o))
        refused(ctx, lambda: fftconvolve(x1, x2, mode=m), "mode of the convolution", x1, x2, mode=str(m))
    elif b == "conv batch":
        served(lambda: fftconvolve(x1, x2[:1]), 3, N + 6)
        refused(ctx, lambda: fftconvolve(x1, x2[:2]), "batches of the convolution", x1, x2)
    elif b == "conv dim":
        served(lambda: fftconvolve(x1, x2, dim=1), 3, N + 6)
        refused(ctx, lambda: fftconvolve(x1, x2, dim=2 + k % 3), "axis of the convolution", x1, x2)
    elif b == "inv_2x2":
        served(lambda: linalg.inv_2x2(A3[..., :2, :2].contiguous()), F, 2, 2)
        Z = A3 if k % 2 else A3[..., :1, :1]
        refused(ctx, lambda: linalg.inv_2x2(Z), "size of the 2x2 inverse", Z)
    elif b == "eigh_2x2":
        served(lambda: linalg.eigh_2x2(A3[..., :2, :2].contiguous()), F, 2)
        Z = [A3, A3[..., :2, :], A3[..., :, :2]][k % 3]
        refused(ctx, lambda: linalg.eigh_2x2(Z), "size of the 2x2 eigenvalues", Z)
    elif b == "square":
        served(lambda: linalg.eigh(A), F, C)
        Z = torch.cat((A, A), -1 - k % 2)
        refused(ctx, lambda: linalg.eigh(Z), "matrix that is not square", Z)
        refused(ctx, lambda: linalg.inv_loaded(Z), "matrix that is not square (inverse)", Z)
    elif b == "gevd sizes":
        served(lambda: linalg.eigh(A3, A3 + torch.eye(3)), F, 3)
        refused(ctx, lambda: linalg.eigh(A3, A3[..., :2, :2].contiguous()), "sizes of the eigenvalue problem", A3)
    elif b == "bmm":
        served(lambda: linalg.bmm(A, A), F, C, C)
        Z = torch.cat((A, A), -2)
        refused(ctx, lambda: linalg.bmm(A, Z), "sizes of a product", A, Z)
    elif b == "solve":
        served(lambda: linalg.solve_loaded(A, A[..., :1]), F, C, 1)
        Z = torch.cat((A, A), -2)
        refused(ctx, lambda: linalg.solve_loaded(A, Z), "sizes of a system", A, Z)
    elif b == "hankel":
        served(lambda: linalg.hankel_view(x1, N), 3, N, 1)
        refused(ctx, lambda: linalg.hankel_view(x1, N + 2 + k % 5), "more rows than samples", x1)
    elif b in ("window length", "window dims", "window name", "n_fft", "hop"):
        n = 16
        served(lambda: torchiva.STFT(n, window=torch.ones(n))(x1.float()))
        w = {"window length": dict(window=torch.ones(n + [1, -1, 5, n, -n + 1][k % 5])),
             "window dims": dict(window=[torch.ones(1, n), torch.ones(n, 1), torch.tensor(1.0)][k % 3]),
             "window name": dict(window=["hanning2", "box", "", "hannhann"][k % 4]) , "n_fft": dict(), "hop": dict(hop_length=-(k % 3))}[b]
        if b == "n_fft":
            n = -(k % 5)
        if w.get("window") == "box":
            w["window"] = "bbox"
        refused(ctx, lambda: torchiva.STFT(n, **w)(x1.float()), "transform: " + b, x1, options={q: str(v)[:40] for q, v in w.items()}, n_fft=n)
    elif b == "istft freq":
        n = 2 * (F - 1)
        f = torchiva.STFT(n, dtype=torch.float64)
        served(lambda: f.inv(Y))
        # (n_fft frequencies are a two-sided spectrum for torch)
        Z = Y[:, :-1] if k % 2 or F < 5 else torch.cat((Y, Y[:, :1]), 1)
        refused(ctx, lambda: f.inv(Z), "frequencies of the inverse transform", Z)
    elif b == "five":
        from torchiva.nn import BSSSeparator, SepAlgo

        # one source only: more cannot be had, the user is told
        for name in ("five", SepAlgo.FIVE):
            for n in (None, 1, 2 + k % 3):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    f = BSSSeparator(n_fft=16, n_iter=1, n_src=n, algo=name)
                ctx.expect((len(w) > 0) == (n is not None and n > 1), "warning about the number of sources of FIVE",
                           algo=str(name), n_src=n, warnings=[str(x.message)[:80] for x in w])
                served(lambda: f(torch.cat((x1, x1.flip(-1)), -1).repeat(1, 8).float()), 1, 16 * N)
    elif b == "import":
        n = ["torchiva.models.NoModel", "torchiva.nomodule.LaplaceModel", "notorchiva.X", "torchiva.models."][k % 4]
        ok = utils.instantiate("torchiva.models.LaplaceModel")
        ctx.expect(type(ok).__name__ == "LaplaceModel", "valid request served (import)")
        refused(ctx, lambda: utils.instantiate(n), "unknown class", name=n)
        refused(ctx, lambda: utils.import_name(n), "unknown name", name=n)
    else:
        ok = utils.instantiate("torchiva.models.NMFModel", kwargs=dict(n_basis=3))
        ctx.expect(ok.n_basis == 3, "valid request served (arguments)")
        kw = [dict(n_bases=3), dict(basis=1), dict(n_basis=2, iterations=3)][k % 3]
        refused(ctx, lambda: utils.instantiate("torchiva.models.NMFModel", kwargs=kw), "unknown arguments", arguments=kw)


def run(ctx, s):
    {"sep": run_sep, "end": run_end, "wave": run_wave, "fn": run_fn}[s["cls"]](ctx, s)
