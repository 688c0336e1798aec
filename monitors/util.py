"""Oracles shared by several checks"""
import torch

from .core import Skip
from .gen import *  # noqa


def quiet(sep, X, **kw):
    with torch.no_grad():
        return sep(X, **kw)


def roundoff(f, args, want):
    """
    how much the roundings of the inputs are amplified: the largest relative change of the
    results (want, list of tensors) of f for inputs that differ in their last digits
    """
    worst = 0.0
    for k in range(3):
        g = gen(77 + k)
        a = []
        for x in args:
            if isinstance(x, torch.Tensor) and (x.is_floating_point() or x.is_complex()):
                u = 2 * torch.finfo(x.dtype).eps
                x = x * (1 + u * torch.randn(x.shape, generator=g, dtype=torch.float64)).to(x.real.dtype)
            a.append(x)
        with torch.no_grad():
            y = f(*a)
        y = y if isinstance(y, (tuple, list)) else (y,)
        worst = max([worst] + [rel(p, q) for p, q in zip(y, want)])
    return worst


def check_out(ctx, Y, shape, dtype=None, label="shape"):
    """the output is a finite tensor of the expected shape and type"""
    ok = ctx.expect(
        isinstance(Y, torch.Tensor) and tuple(Y.shape) == tuple(shape),
        label, got=getattr(Y, "shape", type(Y)), want=tuple(shape))
    if ok and dtype is not None:
        ok = ctx.expect(Y.dtype == dtype, "dtype", got=str(Y.dtype), want=str(dtype))
    if ok:
        ok = ctx.expect(finite(Y), "finite")
    return ok


def out_shape(s):
    return tuple(s["batch"]) + (n_out(s), s["F"], s["N"])


def delayed(X, delays):
    """(..., c, f, n) -> (..., c * len(delays), f, n): X(n - d) for d in delays"""
    N = X.shape[-1]
    parts = []
    for d in delays:
        parts.append(torch.nn.functional.pad(X, (d, 0))[..., :N])
    if not parts:
        return X[..., :0, :, :]
    return torch.cat(parts, dim=-3)


def fit(basis, Y):
    """
    least squares fit of Y (..., s, f, n) on the rows of basis (..., c, f, n)

    returns the filters (..., f, s, c) and the residual (..., s, f, n)
    """
    B = basis.transpose(-3, -2)  # (..., f, c, n)
    T = Y.transpose(-3, -2)
    # lstsq: solve B^T W^T = T^T
    sol = torch.linalg.lstsq(B.mT, T.mT, driver="gelsy" if B.device.type == "cpu" else None)
    W = sol.solution.mT
    R = T - W @ B
    return W, R.transpose(-3, -2)


def gram_cond(basis):
    B = basis.transpose(-3, -2)
    return torch.linalg.cond(B)


def db(x):
    import math

    return 10 * math.log10(max(float(x), 1e-300))


class Tap(torch.nn.Module):
    """wraps a source / mask model and records what goes through it"""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.inputs = []
        self.outputs = []

    def forward(self, X):
        self.inputs.append(X.detach().clone())
        out = self.inner(X)
        self.outputs.append(out.detach().clone())
        return out

    def reset(self):
        if hasattr(self.inner, "reset"):
            self.inner.reset()
