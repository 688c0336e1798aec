"""C04: call-time parameters act like constructor parameters and do not stick"""
import contextlib
import io

import torch

from ..core import Skip, expand
from ..util import *

RULE = ("random histories of 3-6 calls on one object, each with a random subset of the "
        "parameters overridden at the call, different signals and shapes; each result is "
        "compared to that of a fresh object built with the effective parameters, and the "
        "parameters of the object are compared before and after; progress reports are sometimes asked for; non-trivial: at least "
        "one call overrides a parameter to another value")
SEED_DISTINCT = True

PARAMS = {
    "tiss": ["n_iter", "n_taps", "n_delay", "n_src", "model", "proj_back_mic", "use_dmc", "eps"],
    "ip": ["n_iter", "n_src", "model", "proj_back_mic", "eps"],
    "ip2": ["n_iter", "model", "proj_back_mic", "eps"],
    "five": ["n_iter", "model", "proj_back_mic", "eps", "n_power_iter"],
    "wpe": ["n_iter", "n_taps", "n_delay", "model", "eps"],
    "mvdr": ["mask_model", "ref_mic", "eps", "mvdr_type", "n_power_iter"],
    "mwf": ["mask_model", "ref_mic", "eps", "time_invariant"],
    "gev": ["mask_model", "ref_mic", "eps"],
}


def value(r, a, p, C):
    if p == "n_iter":
        return r.randint(0, 5) if a not in ("wpe",) else r.randint(0, 3)
    if p == "n_taps":
        return r.randint(0, 3) if a == "tiss" else r.randint(1, 3)
    if p == "n_delay":
        return r.randint(0, 3)
    if p == "n_src":
        return r.randint(1, C)
    if p in ("proj_back_mic", "ref_mic"):
        return r.randrange(C)
    if p == "use_dmc":
        return r.random() < 0.5
    if p == "eps":
        return r.choice([1e-5, 1e-4, 1e-3, 1e-6])
    if p == "n_power_iter":
        return r.randint(1, 6)
    if p == "mvdr_type":
        return r.choice(["rtf", "scm"])
    if p == "time_invariant":
        return r.random() < 0.5
    if p == "mask_model":
        return r.choice(["mask:0", "mask:3", "mask:5"])
    if p == "model":
        return r.choice(["wpe"] if a == "wpe" else ["laplace", "gauss", "power", "nmf"])
    raise ValueError(p)


def mk(r):
    a = r.choice(list(PARAMS))
    C = 2 if a == "ip2" else r.randint(2, 4)
    # the initial parameters are always given explicitly
    init = {p: value(r, a, p, C) for p in PARAMS[a]}
    if a in ("five", "mvdr") and r.random() < 0.5:
        init["n_power_iter"] = None
    if a in ("tiss", "ip") and r.random() < 0.4:
        init["n_src"] = None
    if a in ("tiss", "ip", "ip2", "five") and r.random() < 0.2:
        init["proj_back_mic"] = None
    if a == "wpe" and r.random() < 0.5:
        init["model"] = None
    calls = []
    for _ in range(r.randint(3, 6)):
        over = {p: value(r, a, p, C) for p in PARAMS[a] if r.random() < 0.35}
        if r.random() < 0.3:
            over = {}
        calls.append(dict(over=over, F=r.randint(3, 8), N=r.randint(60, 90),
                          batch=list(r.choice([(), (2,), (1,), (2, 2)])),
                          seed=r.randrange(1 << 30), poison=r.random() < 0.3))
    return dict(algo=a, C=C, init=init, calls=calls)


def plan(ctx):
    return expand("C04", ctx.seed, [mk], ctx.scaled(350, 8000))


def cls(a):
    import torchiva as tv

    return {"tiss": tv.T_ISS, "ip": tv.AuxIVA_IP, "ip2": tv.AuxIVA_IP2, "five": tv.FIVE,
            "wpe": tv.WPE, "mvdr": tv.MVDRBeamformer, "mwf": tv.MWFBeamformer,
            "gev": tv.GEVBeamformer}[a]


def real(p, v):
    """parameter values are JSON, models are built here"""
    if p == "model" and v is not None:
        return WpeWeights() if v == "wpe" else make_model(v)
    if p == "mask_model" and v is not None:
        return MaskNet(2, 4, seed=int(v[5:]))
    return v




class Two(torch.nn.Module):
    """the first two masks"""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, X):
        return self.inner(X)[..., :2, :, :]


def make(a, params):
    p = {k: real(k, v) for k, v in params.items()}
    if "mask_model" in p and a != "mwf":
        p["mask_model"] = Two(p["mask_model"])
    return p


def attributes(obj, a):
    out = {}
    for p in PARAMS[a]:
        v = getattr(obj, p, "missing")
        out[p] = id(v) if isinstance(v, torch.nn.Module) else v
    return out


def run(ctx, s):
    a = s["algo"]
    shared = cls(a)(**make(a, s["init"]))
    before = attributes(shared, a)
    poisoned = []
    for i, c in enumerate(s["calls"]):
        X = mixture(c["seed"], c["batch"], s["C"], c["F"], c["N"])
        over = make(a, c["over"])
        eff = dict(s["init"], **c["over"])
        torch.manual_seed(c["seed"])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if a == "ip" and c["seed"] % 2:
                # progress report: does not change anything
                Y = quiet(shared, X, verbose=True, **over)
                ctx.event("verbose calls")
                ctx.expect(out.getvalue() != "", "progress is reported", printed=out.getvalue()[:100])
            else:
                Y = quiet(shared, X, **over)
                ctx.expect(out.getvalue() == "", f"nothing is printed ({a})", printed=out.getvalue()[:100])
        torch.manual_seed(c["seed"])
        fresh = cls(a)(**make(a, eff))
        Z = quiet(fresh, X)
        if c["over"]:
            ctx.event("calls with overrides")
        ctx.expect(finite(Z), "finite", call=i)
        ctx.check(rel(Y, Z), 1e-9, f"call = fresh object ({a})", call=i, over=c["over"],
                  shapes=[list(Y.shape), list(Z.shape)])
        ctx.expect(attributes(shared, a) == before, f"parameters unchanged ({a})", call=i,
                   before=before, after=attributes(shared, a))
        if c["poison"]:
            # what the caller does with a result must not matter to later calls
            Y.fill_(float("nan"))
            ctx.event("results overwritten by the caller")
