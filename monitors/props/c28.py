"""C28: selection of the most energetic signals"""
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random real and complex tensors (any batch, any axes, 1-8 signals, ties, silent "
        "signals, levels over 6 decades) compared with a selection made signal by signal: the "
        "outputs are inputs, all different, in order of decreasing power, none left is "
        "stronger; non-trivial: more than one signal")


def mk(r):
    n = r.randint(1, 8)
    return dict(n=n, num=r.randint(1, n), batch=list(r.choice(BATCHES)), L=r.randint(1, 30),
                cplx=r.random() < 0.4, single=r.random() < 0.3, trail=r.choice([0, 0, 0, 1]),
                silent=r.random() < 0.3, perm=r.random() < 0.3, pos=r.random() < 0.5)


def plan(ctx):
    return expand("C28", ctx.seed, [mk], ctx.scaled(1500, 40000), large="B")


def run(ctx, s):
    from torchiva.utils import select_most_energetic

    g = gen(s["seed"])
    batch, n, L = tuple(s["batch"]), s["n"], s["L"]
    dt = {(0, 0): torch.float64, (0, 1): torch.float32, (1, 0): C128, (1, 1): torch.complex64}[
        (int(s["cplx"]), int(s["single"]))]
    x = torch.randn(*batch, n, L, generator=g, dtype=dt)
    x = x * (10.0 ** (6 * torch.rand(*batch, n, 1, generator=g) - 3)).to(x.real.dtype)
    if s["silent"]:
        x = x * (torch.rand(*batch, n, 1, generator=g) < 0.7)
    nd = x.ndim
    if s["perm"] and len(batch) >= 1:
        # selection along the first axis, or reduction over it
        d, r = (0, nd - 1)
        xx = x.movedim(-2, 0)
        dim = 0 if s["pos"] else -nd
        y = select_most_energetic(xx, s["num"], dim=dim, dim_reduc=-1).movedim(0, -2)
    else:
        dim = -2 if not s["pos"] else nd - 2
        y = select_most_energetic(x, s["num"], dim=dim) if s["pos"] else select_most_energetic(x, s["num"])
    if not check_out(ctx, y, batch + (s["num"], L), dt):
        return
    p = x.to(C128).abs().square().mean(-1).reshape(-1, n)
    xf, yf = x.reshape(-1, n, L), y.reshape(-1, s["num"], L)
    for b in range(xf.shape[0]):
        same = (yf[b][:, None, :] == xf[b][None, :, :]).all(-1)  # (num, n)
        used = set()
        powers = []
        ok = True
        for k in range(s["num"]):
            c = [j for j in range(n) if bool(same[k, j]) and j not in used]
            if not c:
                ok = False
                break
            used.add(c[0])
            powers.append(float(p[b, c[0]]))
        if not ctx.expect(ok, "outputs are different inputs"):
            return
        ctx.expect(all(powers[i] >= powers[i + 1] * (1 - 1e-5) for i in range(len(powers) - 1)),
                   "decreasing power", powers=powers)
        left = [float(p[b, j]) for j in range(n) if j not in used]
        if left:
            ctx.expect(max(left) <= powers[-1] * (1 + 1e-5), "none left is stronger",
                       powers=powers, left=left)
