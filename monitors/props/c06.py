"""C06: results depend on the values, not on the memory layout, of the inputs"""
import torch

from ..core import Skip, expand
from ..util import *
from . import c05

RULE = ("every public entry point is called with the same values in different memory "
        "layouts: permuted strides, every other element of a buffer, a window in a "
        "buffer whose surroundings are NaN (guard bands), lazily conjugated, broadcast "
        "batches; all the results are compared to that for a contiguous input")
LAYOUTS = ["transposed", "permuted", "guard", "strided", "conj", "expand", "offset"]
FNS = [f for f in c05.FNS if f not in ("nmf",)]


def mk_algo(r):
    s = random_algo(r, n_iter=(0, 4), N=(30, 50), batches=[(), (2,), (1, 2), (2, 2)])
    s["what"] = "algo"
    s["layout"] = r.choice(LAYOUTS)
    s["dmc"] = s["algo"] == "tiss" and r.random() < 0.3
    if s["algo"] in ("tiss", "ip", "ip2", "five") and r.random() < 0.2:
        s["ref"] = None
    return s


def mk_fn(r):
    return dict(what="fn", fn=r.choice(FNS), C=r.randint(2, 4), F=r.choice([3, 5, 9]),
                N=r.randint(12, 30), batch=list(r.choice([(), (2,), (2, 1)])),
                k=r.randint(0, 5), layout=r.choice(LAYOUTS))


def mk_hankel(r):
    return dict(what="hankel", C=r.randint(1, 3), N=r.randint(5, 20), rows=r.randint(1, 5),
                batch=list(r.choice([(), (2,), (2, 3)])), layout=r.choice(LAYOUTS))


def plan(ctx):
    return expand("C06", ctx.seed, [mk_algo, mk_algo, mk_fn, mk_fn, mk_hankel],
                  ctx.scaled(900, 20000), large="FNBCIM")


def relayout(t, layout):
    nan = float("nan")
    if layout == "transposed" and t.ndim >= 2:
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if layout == "permuted":
        p = list(range(t.ndim))[::-1]
        return t.permute(p).contiguous().permute(p)
    if layout == "guard":
        big = torch.full([n + 4 for n in t.shape], nan, dtype=t.dtype)
        view = big[tuple(slice(2, -2) for _ in t.shape)]
        view.copy_(t)
        return view
    if layout == "strided":
        big = torch.full(t.shape[:-1] + (2 * t.shape[-1],), nan, dtype=t.dtype)
        big[..., ::2] = t
        return big[..., ::2]
    if layout == "conj" and t.is_complex():
        return t.conj().resolve_conj().conj()
    if layout == "offset":
        big = torch.full((t.numel() + 10,), nan, dtype=t.dtype)
        big[5:-5] = t.reshape(-1)
        return big[5:-5].view(t.shape)
    return t


def run(ctx, s):
    if s["what"] == "hankel":
        from torchiva.linalg import hankel_view

        g = gen(s["seed"])
        x = crandn(g, *s["batch"], s["C"], s["N"])
        y = hankel_view(relayout(x, s["layout"]), s["rows"])
        cols = s["N"] - s["rows"] + 1
        want = torch.stack([x[..., i : i + cols] for i in range(s["rows"])], dim=-2)
        ctx.expect(y.shape == want.shape and torch.equal(y, want),
                   f"same result ({s['layout']}, hankel)")
        return
    if s["what"] == "algo":
        f, args, name = build(s), [signal_for(s)], s["algo"]
    else:
        _, f, args = c05.functions(dict(s, view="plain", grad=False))
        name = s["fn"]
    if s["layout"] == "expand":
        # a batch made of the same signal several times, without a copy
        if s["batch"] or s["what"] != "algo":
            raise Skip("expand needs an input without batch")
        want = quiet(f, args[0])
        y = quiet(f, args[0].expand((3,) + tuple(args[0].shape)))
        for i in range(3):
            ctx.check(rel(y[i], want), 1e-6, f"same result (expand, {name})")
        return
    alt = [relayout(a, s["layout"]) for a in args]
    for a, b in zip(args, alt):
        assert torch.equal(a, b)
    ctx.event("layout " + s["layout"])
    with torch.no_grad():
        want = c05.tensors(f(*args))
        got = c05.tensors(f(*alt))
    tol = 1e-6  # roundings are amplified where a recording is weak
    if want[0].dtype in (torch.float32, torch.complex64):
        tol = 1e-4
    for w, y in zip(want, got):
        ctx.expect(finite(w), "finite")
        d = rel(y, w)
        if not d <= tol and s["what"] == "algo":
            # badly conditioned: as much as the roundings are amplified
            tol = tol + 50 * roundoff(f, args, want)
            ctx.event("badly conditioned")
        ctx.check(d, tol, f"same result ({s['layout']})", fn=name)
