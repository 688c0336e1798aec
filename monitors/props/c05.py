"""C05: a call never modifies what the caller owns, nor any global state"""
import torch

from ..core import Skip, expand
from ..instrument import WriteSanitizer, fingerprint, global_state
from ..util import *

RULE = ("every public entry point is called on random inputs (contiguous or views in a "
        "larger buffer, with or without gradients) under a sanitizer of tensor "
        "operations that records writes in memory owned by the caller; fingerprints of "
        "inputs, parameters, buffers, earlier results and global state are compared "
        "before and after; the result is then overwritten and the inputs compared again")

FNS = ["stft", "istft", "laplace", "gauss", "nmf", "blstm", "simple", "glu", "mvdrsupport",
       "projection_back", "md_l2", "md_lp", "md_lpq", "md_phase", "select", "fftconvolve",
       "eigh", "gevd", "eigh2", "solve_loaded", "solve_loaded_general", "inv_loaded",
       "inv_2x2", "bmm", "multiply", "hermite", "mag", "divide", "wave"]


def mk_algo(r):
    s = random_algo(r, n_iter=(1, 4), N=(30, 50), models=("laplace", "gauss", "power", "param"),
                    batches=[(), (2,), (1, 2)])
    s["what"] = "algo"
    if "n_iter" in s and r.random() < 0.15:
        s["n_iter"] = 0
    s["view"] = r.choice(["plain", "guard", "transposed"])
    s["grad"] = r.random() < 0.3
    s["dmc"] = s["algo"] == "tiss" and r.random() < 0.3
    if s["algo"] in ("tiss", "ip", "ip2", "five") and r.random() < 0.2:
        s["ref"] = None
    return s


def mk_fn(r):
    return dict(what="fn", fn=r.choice(FNS), C=r.randint(2, 4), F=r.choice([3, 5, 9]),
                N=r.randint(12, 30), batch=list(r.choice([(), (2,), (2, 1)])),
                k=r.randint(0, 5), view=r.choice(["plain", "guard", "transposed"]),
                grad=r.random() < 0.3)


def plan(ctx):
    return expand("C05", ctx.seed, [mk_algo, mk_algo, mk_fn, mk_fn, mk_fn], ctx.scaled(700, 14000), large="FNBCIM")


def lay(t, view):
    """same values, another memory layout"""
    if view == "guard":
        big = torch.full(t.shape[:-1] + (t.shape[-1] + 6,), 7.5, dtype=t.dtype)
        big[..., 3:-3] = t
        return big[..., 3:-3]
    if view == "transposed" and t.ndim >= 2:
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    return t.clone()


def functions(s):
    import torchiva as tv
    from torchiva import linalg as L

    g = gen(s["seed"])
    batch = tuple(s["batch"])
    C, F, N, k = s["C"], s["F"], s["N"], s["k"]
    fn = s["fn"]
    X = crandn(g, *batch, C, F, N)
    ref = crandn(g, *batch, F, N)
    Xs = X.to(torch.complex64)
    r64 = lambda *sh: torch.randn(*sh, generator=g, dtype=torch.float64)

    def herm(n):
        a = crandn(g, *batch, n, n + 3)
        return a @ a.mH

    mod = None
    torch.manual_seed(3)
    if fn == "stft":
        mod = tv.STFT(16, hop_length=[None, 8][k % 2]).double()
        return mod, mod, [r64(*batch, C, 200)]
    if fn == "istft":
        mod = tv.STFT(2 * (F - 1), hop_length=F - 1).double()
        return mod, mod.inv, [X]
    if fn == "wave":
        a = ["tiss", "ip2", "five", "mvdr", "mwf", "gev"][k]
        m = MaskNet(2, 2) if a in BEAM else None
        mod = tv.nn.BSSSeparator(n_fft=16, n_iter=2, algo=a, source_model=m).double()
        return mod, mod, [r64(*batch, 2, 400)]
    simple = {
        "laplace": lambda: tv.models.LaplaceModel(),
        "gauss": lambda: tv.models.GaussModel(),
        "nmf": lambda: tv.models.NMFModel(),
        "blstm": lambda: tv.models.BLSTMMask(n_freq=F, n_bottleneck=3, n_hidden=4,
                                             mag_spec=bool(k % 2)).eval(),
        "simple": lambda: tv.models.SimpleModel(n_freq=F, n_mels=3).eval(),
        "glu": lambda: tv.models.GLUMask(F, 4, mag_spec=bool(k % 2)).eval(),
        "mvdrsupport": lambda: tv.models.MaskMVDRSupport(n_input=F, n_hidden=4).eval(),
    }
    if fn in simple:
        mod = simple[fn]()
        return mod, mod, [X if fn in ("laplace", "gauss", "nmf") else Xs]
    sq = crandn(g, *batch, C, C)
    table = {
        "projection_back": (tv.projection_back, [X, X.sum(-3)]),
        "md_l2": (tv.minimum_distortion, [X, ref]),
        "md_lp": (lambda Y, r: tv.minimum_distortion(Y, r, p=1.0, max_iter=4), [X, ref]),
        "md_lpq": (lambda Y, r: tv.minimum_distortion(Y, r, p=1.0, q=2.0, max_iter=4), [X, ref]),
        "md_phase": (tv.minimum_distortion_l2_phase, [X, ref]),
        "select": (lambda x: tv.select_most_energetic(x, num=1 + k % C), [r64(*batch, C, N)]),
        "fftconvolve": (lambda a, b: tv.fftconvolve(a, b, mode=["full", "same", "valid"][k % 3],
                                                    dim=[-1, -2][k % 2]),
                        [r64(*batch, N, 7), r64(*batch, 5, 7) if k % 2 else r64(*batch, N, 3)]),
        "eigh": (L.eigh, [herm(C)]),
        "gevd": (L.eigh, [herm(C), herm(C)]),
        "eigh2": (L.eigh, [herm(2), herm(2)][: 1 + k % 2]),
        "solve_loaded": (L.solve_loaded, [herm(C), crandn(g, *batch, C, 2)]),
        "solve_loaded_general": (L.solve_loaded_general, [sq + 2 * torch.eye(C), crandn(g, *batch, C, 2)]),
        "inv_loaded": (L.inv_loaded, [herm(C)]),
        "inv_2x2": (L.inv_2x2, [crandn(g, *batch, 2, 2)]),
        "bmm": (L.bmm, [sq, crandn(g, *batch, C, N)]),
        "multiply": (L.multiply, [X, X.real.contiguous() if k % 2 else X]),
        "hermite": (lambda A: L.hermite(A).clone(), [sq]),
        "mag": (L.mag, [X if k % 2 else X.real.contiguous()]),
        "divide": (L.divide, [X, X.abs()]),
    }
    f, args = table[fn]
    return None, f, args


def tensors(o):
    if isinstance(o, torch.Tensor):
        return [o]
    if isinstance(o, (tuple, list)):
        return [t for x in o for t in tensors(x)]
    return []


def run(ctx, s):
    if s["what"] == "algo":
        mod = build(s, mseed=s["seed"], F=s["F"] - (s["algo"] == "five"))
        f, args, name = mod, [signal_for(s)], s["algo"]
    else:
        mod, f, args = functions(s)
        name = s["fn"]
    args = [lay(a, s["view"]) for a in args]
    grad = s["grad"] and name not in ("five", "gev", "eigh", "gevd", "nmf")
    if grad:
        for a in args:
            a.requires_grad_(True)
    owned = {f"argument {i}": a for i, a in enumerate(args)}
    if mod is not None:
        owned.update({f"parameter {n}": p for n, p in mod.named_parameters()})
        owned.update({f"buffer {n}": p for n, p in mod.named_buffers()})
    fp = {k: fingerprint(v) for k, v in owned.items()}
    before = global_state()
    training = [m.training for m in mod.modules()] if mod is not None else None

    def call():
        if grad:
            return f(*args)
        with torch.no_grad():
            return f(*args)

    # what the models of the caller return stays theirs (they may keep it)
    kept, hooks = [], []
    if not grad:
        for m in (mod.modules() if mod is not None else ()):
            if isinstance(m, (MaskNet, PowerModel, ParamModel, WpeWeights, WpeParam)):
                hooks.append(m.register_forward_hook(
                    lambda m, i, o: kept.append((o, fingerprint(o)))))
    with WriteSanitizer(owned) as san:
        out = call()
    for h in hooks:
        h.remove()
    ctx.event("results of models watched", len(kept))
    ctx.expect(all(fingerprint(o) == h for o, h in kept), f"results of the models unchanged ({name})",
               n=len(kept))
    ctx.event("tensor operations watched", san.n_ops)
    ctx.event("calls watched")
    ctx.expect(san.n_ops > 0 and not san.writes, f"no write in memory of the caller ({name})",
               writes=san.writes[:5])
    after = global_state()
    if name == "nmf" or s.get("model") == "nmf":
        before.pop("torch_rng"), after.pop("torch_rng")
    ctx.expect(before == after, f"global state unchanged ({name})",
               changed=[k for k in before if before[k] != after[k]])
    for k, v in owned.items():
        ctx.expect(fingerprint(v) == fp[k], f"unchanged ({name})", what=k)
    if training is not None:
        ctx.expect(training == [m.training for m in mod.modules()], "train/eval mode unchanged")
    outs = tensors(out)
    ctx.expect(len(outs) > 0, "has a result")
    first = [o.detach().clone() for o in outs]
    if grad:
        loss = sum(o.abs().square().sum() for o in outs if o.requires_grad)
        if isinstance(loss, torch.Tensor):
            with WriteSanitizer(owned) as san:
                loss.backward()
            ctx.event("tensor operations watched", san.n_ops)
            w = [x for x in san.writes if "detach" not in x]
            ctx.expect(not w, f"no write in memory of the caller during backward ({name})",
                       writes=w[:5])
            for k, v in owned.items():
                ctx.expect(fingerprint(v) == fp[k], f"unchanged by backward ({name})", what=k)
    if name == "nmf" and not grad:
        # it draws from the global generator, but must not reset it
        st = torch.get_rng_state()
        ends = []
        for i in (5, 6):
            torch.manual_seed(s["seed"] % 10**6 + i)
            mod.reset()
            call()
            ends.append(torch.get_rng_state())
        torch.set_rng_state(st)
        ctx.expect(not torch.equal(*ends), "the global generator is not reset (nmf)")
    # a second call neither modifies the earlier result nor gives another one
    if name != "nmf":
        out2 = tensors(call())
        for o, o1, o2 in zip(outs, first, out2):
            ctx.expect(torch.equal(o.detach(), o1) or not finite(o1), f"earlier result kept ({name})")
            ctx.check(rel(o2.detach(), o1), 1e-12, f"same call, same result ({name})")
    # the result belongs to the caller
    if not grad:
        for o in outs:
            if 0 in o.stride() or o.numel() == 0:
                continue  # broadcast results cannot be written
            o.zero_()
        for k, v in owned.items():
            ctx.expect(fingerprint(v) == fp[k], f"result does not share memory with inputs ({name})", what=k)
