"""C27: degenerate recordings"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("recordings with silence, silent, duplicated or swapped microphones, empty frequency "
        "bands, silent segments, very small and very large levels, single and double "
        "precision, any batch mixing them with ordinary ones, through all the iterative "
        "separators, dereverberation and the Wiener filter; monitors: the output is finite, "
        "bounded relative to the input, silent where the input is silent; non-trivial: every "
        "case is degenerate in at least one element of the batch")
ASSUMPTIONS = ["MVDR and GEV need invertible covariances and are not in the domain",
               "pairwise updates (IP2) are not judged at levels other than 1"]

KINDS = ["zero", "silentch", "silentref", "dup", "dupall", "zerobins", "halfsilent", "tiny", "huge",
         "onebin", "clipped", "dc"]


def mk(r):
    algo = r.choice(["tiss", "tiss", "tiss", "ip", "ip", "ip2", "five", "five", "wpe", "mwf"])
    C = 2 if algo == "ip2" else r.randint(2, 5)
    nb = r.choice([1, 1, 2, 3])
    s = dict(algo=algo, C=C, F=r.randint(3, 9), N=r.randint(40, 80), kinds=[r.choice(KINDS)] + [
        r.choice(KINDS + ["normal"] * 6) for _ in range(nb - 1)], single=r.random() < 0.5, batch=[nb],
             kind="speechlike", ref=r.randrange(C), where=r.randrange(C))
    if algo in ITER:
        s["n_iter"] = r.randint(1, 15)
        s["model"] = r.choice(["laplace", "gauss", "nmf"])
    if algo == "tiss":
        s["taps"], s["delay"] = r.choice([(0, 0), (0, 0), (2, 1), (3, 0)])
    if algo in ("tiss", "ip"):
        s["n_src"] = r.choice([None, C, r.randint(1, C)])
    if algo == "five":
        s["power"] = r.choice([None, None, 10])
    if algo == "wpe":
        s["model"], s["n_iter"] = None, r.randint(1, 3)
        s["taps"], s["delay"] = r.randint(1, 3), r.randint(0, 3)
    if algo == "mwf":
        s["ti"] = r.random() < 0.5
        s["n_masks"], s["n_src"] = (2 if s["ti"] else 4), r.randint(1, 3)
    return s


def plan(ctx):
    return expand("C27", ctx.seed, [mk], ctx.scaled(700, 14000), large="FNIM")


def degrade(X, kind, ref, where, g):
    # X: (c, f, n)
    C, F, N = X.shape
    if kind == "zero":
        X = X * 0
    elif kind == "silentch":
        X[where] = 0
    elif kind == "silentref":
        X[ref] = 0
    elif kind == "dup":
        X[where] = X[(where + 1) % C]
    elif kind == "dupall":
        X[:] = X[:1].clone()
    elif kind == "zerobins":
        X[:, torch.rand(F, generator=g) < 0.5] = 0
    elif kind == "onebin":
        k = int(torch.randint(F, (1,), generator=g))
        Y = X * 0
        Y[:, k] = X[:, k]
        X = Y
    elif kind == "halfsilent":
        X[..., : N // 2] = 0
    elif kind == "tiny":
        X = X * 1e-6
    elif kind == "huge":
        X = X * 1e6
    elif kind == "clipped":
        a = X.abs().mean()
        X = X / (X.abs() / a).clamp(min=1.0)
    elif kind == "dc":
        X[:, 0] = X[:, 0].real * 100 + 0j
    return X


def run(ctx, s):
    g = gen(s["seed"])
    X = torch.stack([degrade(mixture(s["seed"] + i, (), s["C"], s["F"], s["N"], s["kind"]), k, s["ref"],
                             s["where"], g) for i, k in enumerate(s["kinds"])])
    if s["algo"] == "ip2" and {"tiny", "huge"} & set(s["kinds"]):
        raise Skip("level of IP2")
    if s["single"]:
        X = X.to(torch.complex64)
    for k in s["kinds"]:
        ctx.event("signal " + k)
    Y = quiet(build(s), X)
    if not check_out(ctx, Y, out_shape(s), X.dtype):
        return
    for i, k in enumerate(s["kinds"]):
        top = float(X[i].abs().max())
        yt = float(Y[i].abs().max())
        if top == 0:
            ctx.check(yt, 0.0, "silence stays silent")
        elif s["algo"] == "ip" and k in ("dup", "dupall"):
            # the scale of the difference of identical channels is arbitrary
            ctx.event("finite only")
        else:
            ctx.check(yt / top, 30.0, f"bounded ({s['algo']})", kind=k)
        dead = X[i].abs().amax(dim=(0, 2)) == 0
        if dead.any():
            ctx.check(Y[i][:, dead].abs().max(), 0.0, "empty bands stay empty")
        if k == "halfsilent":
            ctx.check(Y[i][..., : s["N"] // 2].abs().max(), 0.0, "silent frames stay silent")
