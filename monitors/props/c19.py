"""C19: linear algebra helpers against their definitions"""
import numpy as np
import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random matrices and vectors (sizes 1-8, any batch, broadcast, real and complex, single and "
        "double precision, scales from 1e-3 to 1e3, ill and well conditioned) through the "
        "helpers used by all the algorithms, compared with a direct evaluation of their "
        "definition in numpy (double precision); non-trivial: the operands are not zero")
ASSUMPTIONS = ["regularised solutions: within the first order effect of the stated loading"]

FN = ["divide", "multiply", "mag", "bmm", "hermite", "solve_loaded", "solve_loaded_general",
      "inv_loaded", "inv_2x2", "diagonal_loading", "hankel_view"]


def mk_for(fn):
    def mk(r):
        return dict(fn=fn, n=r.randint(1, 8), m=r.randint(1, 8), k=r.randint(1, 6),
                    batch=list(r.choice(BATCHES)), real=r.random() < 0.3, real2=r.random() < 0.3,
                    single=r.random() < 0.25, scale=r.choice([1.0, 1.0, 1e-3, 30.0, 1e3]),
                    load=r.choice([None, 1e-12, 1e-9, 1e-4]), cond=r.choice([2.0, 10.0, 100.0]),
                    vec=r.random() < 0.3, conj=r.random() < 0.2)
    return mk


def plan(ctx):
    return expand("C19", ctx.seed, [mk_for(f) for f in FN], ctx.scaled(2200, 60000), large="B")


def rnd(g, shape, real, single):
    dt = (torch.float32 if real else torch.complex64) if single else (torch.float64 if real else C128)
    return torch.randn(*shape, generator=g, dtype=dt)


def np64(x):
    return x.resolve_conj().numpy().astype(np.float64 if not x.is_complex() else np.complex128)


def well(g, batch, n, real, single, cond, herm=False):
    A = np64(rnd(g, batch + (n, n), real, False))
    u, s, v = np.linalg.svd(A)
    s = cond ** (-np.sort(np64(rand(g, *batch, n)), axis=-1))
    A = (u * s[..., None, :]) @ (np.conj(np.swapaxes(u, -1, -2)) if herm else v)
    t = torch.from_numpy(A)
    return t.to((torch.float32 if real else torch.complex64)) if single else t


def run(ctx, s):
    from torchiva import linalg as L

    g = gen(s["seed"])
    b, n, m, k = tuple(s["batch"]), s["n"], s["m"], s["k"]
    real, single, fn = s["real"], s["single"], s["fn"]
    u = 2e-7 if single else 4e-16
    ctx.event(fn)

    def same(y, ref, tol, label, dtype=None):
        ref = np.asarray(ref)
        if not ctx.expect(tuple(y.shape) == ref.shape, f"shape ({fn})", got=y.shape, want=ref.shape):
            return
        if dtype is not None:
            ctx.expect(y.dtype == dtype, f"dtype ({fn})", got=str(y.dtype), want=str(dtype))
        d = np.abs(np64(y) - ref).max() / (np.abs(ref).max() + 1e-300)
        ctx.check(d, tol, label)

    if fn == "divide":
        x = rnd(g, b + (n, m), real, single)
        d = 10.0 ** (4 * torch.rand(*b, n, m, generator=g).to(x.real.dtype) - 2)
        e = s["load"] or 1e-7
        big = e if e > 1e-6 else 0.3
        y = L.divide(x, d) if s["vec"] else L.divide(x, d, eps=big)
        same(y, np64(x) / (np64(d) if s["vec"] else np.maximum(np64(d), big)), 20 * u, "division", x.dtype)
        z = L.divide(x, torch.zeros_like(d), eps=big)
        same(z, np64(x) / big, 20 * u, "division by zero is bounded", x.dtype)
        return
    if fn == "multiply":
        r2 = s["real2"]
        x, y = rnd(g, b + (n, m), real, single), rnd(g, b + (n, 1 if s["vec"] else m), r2, single)
        if s["conj"] and not r2:
            y = y.conj()
        if s["k"] == 1:
            x, y = y, x
        same(L.multiply(x, y), np64(x) * np64(y), 20 * u, "product", torch.promote_types(x.dtype, y.dtype))
        return
    if fn == "mag":
        x = rnd(g, b + (n, m), real, single) * s["scale"]
        if s["conj"]:
            x = x.conj()
        rt = torch.float32 if single else torch.float64
        same(L.mag(x), np.abs(np64(x)), 20 * u, "magnitude", rt)
        same(L.mag_sq(x), np.abs(np64(x)) ** 2, 20 * u, "squared magnitude", rt)
        return
    if fn == "bmm":
        x, y = rnd(g, b + (n, k), False, single), rnd(g, b + (k, m), False, single)
        if s["conj"]:
            x = x.conj()
        if s["vec"] and b:
            y = y[(0,) * len(b)]
        same(L.bmm(x, y), np64(x) @ np64(y), 40 * u * k, "matrix product", x.dtype)
        return
    if fn == "hermite":
        x = rnd(g, b + (n, m), real, single)
        same(L.hermite(x), np.conj(np.swapaxes(np64(x), -1, -2)), 0.0, "conjugate transpose", x.dtype)
        if len(b):
            same(L.hermite(x, dim1=0, dim2=-1), np.conj(np.swapaxes(np64(x), 0, -1)), 0.0,
                 "conjugate transpose of other axes", x.dtype)
        return
    if fn in ("solve_loaded", "inv_loaded"):
        A = well(g, b, n, real, single, s["cond"], herm=s["real2"]) * s["scale"]
        load = s["load"] or 1e-6
        Ad = np64(A)
        amp = np.abs(Ad).max()
        c = np.linalg.cond(Ad).max()
        bias = load * max(1.0, amp) * np.abs(np.linalg.inv(Ad)).sum(-1).max() * 2
        if bias > 0.1:
            raise Skip("dominated by the regularisation")
        kw = {} if s["load"] is None else dict(load=load)
        tol = 4 * n * c * (bias + 50 * u)
        if n > 1:
            # positive matrix of lower rank: what is not determined is bounded by the
            # loading, relative to the largest coefficient (at least one)
            V = rnd(g, b + (n, r0 := 1 + s["k"] % (n - 1) if n > 2 else 1), real, single)
            P = (V @ V.mH) * s["scale"]
            pl = load if not single else max(load, 1e-4)
            top = np.abs(np64(P)).max(axis=(-1, -2))
            want = pl * np.maximum(1.0, top)
            null = np.linalg.svd(np.conj(np.swapaxes(np64(V), -1, -2)))[2]
            z = torch.from_numpy(np.conj(null[..., -1, :])).to(A.dtype)[..., None]
            if pl * n >= 1e3 * u * n * n:
                got = (L.inv_loaded(P, load=pl) @ z if fn == "inv_loaded" else L.solve_loaded(P, z, load=pl))
                ratio = np.linalg.norm(np64(got)[..., 0], axis=-1) * want
                ctx.check(np.abs(np.log(ratio)).max(), 0.7, "loading relative to the matrix")
        if fn == "inv_loaded":
            same(L.inv_loaded(A, **kw), np.linalg.inv(Ad), tol, "regularised inverse", A.dtype)
            return
        B = rnd(g, b + ((n,) if s["vec"] and b else (n, m)), real, single)
        if s["vec"] and b:
            ref = np.linalg.solve(Ad, np64(B)[..., None])[..., 0]
        else:
            ref = np.linalg.solve(Ad, np64(B))
        y = L.solve_loaded(A, B, **kw)
        same(y, ref, tol, "regularised solution", A.dtype)
        # the loading keeps singular systems solvable
        Z = torch.zeros_like(A)
        zz = L.solve_loaded(Z, B, load=1e-3)
        ctx.expect(finite(zz), "zero matrix: finite")
        return
    if fn == "solve_loaded_general":
        A = well(g, b, n, real, single, s["cond"])
        rows = 10.0 ** (2 * torch.rand(*b, n, 1, generator=g).to(A.real.dtype) - 1)
        A = A * rows * min(s["scale"], 30.0)
        B = rnd(g, b + (n, m), real, single)
        load = s["load"] or 1e-5
        Ad = np64(A)
        w = 1 / np.linalg.norm(Ad, axis=-1, keepdims=True)
        if (1 / w).min() < 1e-4:
            raise Skip("tiny rows")
        sv = np.linalg.svd(Ad * w, compute_uv=False)
        smin = sv[..., -1].min()
        cc = (sv[..., 0] / sv[..., -1]).max()
        bias = load / smin ** 2
        tol = 4 * cc * bias + 200 * u * cc ** 2 * n
        if tol > 0.1:
            raise Skip("dominated by the regularisation")
        kw = {} if s["load"] is None else dict(load=load)
        same(L.solve_loaded_general(A, B, **kw), np.linalg.solve(Ad, np64(B)), tol,
             "regularised solution (general)", A.dtype)
        return
    if fn == "inv_2x2":
        A = well(g, b, 2, real, single, s["cond"]) * s["scale"]
        det = np.linalg.det(np64(A))
        if np.abs(det).min() < 1e-5:
            raise Skip("determinant near the clamp")
        same(L.inv_2x2(A), np.linalg.inv(np64(A)), 200 * u * s["cond"] ** 2, "2x2 inverse", A.dtype)
        if n > 2:
            try:
                L.inv_2x2(rnd(g, b + (n, n), real, single))
                ctx.fail("size is checked (inv_2x2)")
            except ValueError:
                ctx.expect(True, "size is checked (inv_2x2)")
        return
    if fn == "diagonal_loading":
        A = rnd(g, b + (n, n), real, single)
        d = rnd(g, b + (n,), real, single)
        ref = np64(A).copy()
        for i in range(n):
            ref[..., i, i] += np64(d)[..., i]
        same(L.diagonal_loading(A, d), ref, 20 * u, "diagonal loading", A.dtype)
        return
    if fn == "hankel_view":
        T = n + m + 2
        r = min(k + 1, T)
        x = rnd(g, b + (T,), real, single)
        if s["vec"] and b:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        H = L.hankel_view(x, r)
        ref = np.stack([np64(x)[..., i:i + T - r + 1] for i in range(r)], axis=-2)
        same(H, ref, 0.0, "Hankel matrix", x.dtype)
