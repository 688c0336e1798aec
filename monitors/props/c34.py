"""C34: calls that fail or are interrupted leave no trace"""
import contextlib
import pathlib
import random
import sys
import warnings

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from ..core import REPO, Skip, expand
from ..instrument import fingerprint, global_state
from ..util import *
from .c33 import maker, mk_fn as mk_fn33, mk_wave as mk_wave33

RULE = ("random calls (separators with overrides, dereverberation, extractor, beamformers, whole separator, "
        "transform, rescaling, linear algebra, models; with and without gradients and checkpointing) are cut "
        "short at a random place: the source model raises at a random call, a random tensor operation runs out "
        "of memory, or an interrupt arrives at a random executed line of torchiva, in the call or in its "
        "backward pass (in part of the cases, one after the other at many different lines of the code); the same exception must come out, what the caller owns, the parameters and options of "
        "the object and the state of the process must be as before, and the next call must give "
        "what a new object gives; non-trivial: the fault was delivered")


ROOT = str(REPO / "torchiva")


class Broken(Exception):
    pass


class Oom(MemoryError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


class FaultyModel(torch.nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner, self.at, self.calls = inner, None, 0

    def forward(self, X):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            raise Broken("model")
        return self.inner(X)

    def reset(self):
        if hasattr(self.inner, "reset"):
            self.inner.reset()


class FaultyOps(TorchDispatchMode):
    """counts the tensor operations; one of them runs out of memory"""

    def __init__(self, at=None, sites=None):
        super().__init__()
        self.at, self.n, self.sites = at, 0, sites

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.sites is not None:
            # the line of torchiva that asks for the operation (none: backward pass)
            f = sys._getframe(1)
            while f is not None and not f.f_code.co_filename.startswith(ROOT):
                f = f.f_back
            where = ("backward", str(func)) if f is None else (f.f_code.co_filename, f.f_lineno)
            self.sites.setdefault(where, []).append(self.n)
        if self.n == self.at:
            raise Oom("simulated")
        return func(*args, **(kwargs or {}))


class FaultyLines:
    """counts the executed lines of torchiva; an interrupt arrives at one of them"""

    def __init__(self, at=None, sites=None):
        self.at, self.n, self.sites = at, 0, sites
        self.root = ROOT

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.sites is not None:
                self.sites.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(self.n)
            if self.n == self.at:
                raise Interrupt()
        return self.local

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            return self.local
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def mk(r):
    s = random_algo(r, n_iter=(1, 4), models=("laplace", "gauss", "power", "param", "nmf"), N=(30, 50))
    s["cls"] = "sep"
    if s["algo"] == "tiss" and r.random() < 0.4:
        s["dmc"] = True
        if s.get("model") == "nmf":
            s["model"] = "laplace"
    s["prec"] = "double"
    s["fault"] = r.choice(["model", "op", "line", "line"])
    s["grad"] = s.get("model") != "nmf" and s["algo"] != "five" and r.random() < 0.5
    s["pos"] = r.random()
    s["over"] = r.sample(["iter", "ref", "eps", "n_src", "taps", "model", "misc"], r.randint(0, 3))
    s["other"] = r.random() < 0.5
    return s


def mk_wave(r):
    s = mk_wave33(r)
    s.update(fault=r.choice(["op", "line"]), grad=False, pos=r.random(), over=[], other=r.random() < 0.5)
    return s


def mk_fn(r):
    s = mk_fn33(r)
    while s["fn"] == "nmf":
        # keeps its state from call to call
        s = mk_fn33(r)
    s.update(fault=r.choice(["op", "line"]), grad=False, pos=r.random(), over=[], other=False)
    return s


def mk_sweep(r):
    """faults at many different places of the code"""
    s = mk(r)
    while s["algo"] in ("mvdr", "mwf", "gev", "five") and r.random() < 0.6:
        s = mk(r)
    s.update(cls="sweep", fault=r.choice(["op", "op", "line"]), n_iter=r.randint(1, 2))
    s["places"] = 60 if s["fault"] == "op" else 25
    # (torch refuses the gradients of eigenvectors that depend on their phase, if only by rounding)
    s["grad"] = s.get("model") != "nmf" and s["algo"] != "five" and r.random() < 0.7
    if s["algo"] in ("tiss", "ip") and r.random() < 0.5:
        s["C"] = max(3, s["C"])
        s["n_src"] = r.randint(1, s["C"] - 1)
    return s


def plan(ctx):
    return expand("C34", ctx.seed, [mk, mk, mk_sweep, mk_fn, mk, mk_wave], ctx.scaled(600, 12000))


def overrides(s):
    """options of the call that fails"""
    a, out = s["algo"], {}
    for o in s["over"]:
        if o == "iter" and a in ITER:
            out["n_iter"] = s["n_iter"] + 1
        elif o == "ref" and a != "wpe":
            out["proj_back_mic" if a in ITER else "ref_mic"] = 1
        elif o == "eps":
            out["eps"] = 1e-2
        elif o == "n_src" and a in ("tiss", "ip") and s["C"] > 2:
            out["n_src"] = 2
        elif o == "taps" and a in ("tiss", "wpe"):
            out["n_taps"], out["n_delay"] = 1, 2
        elif o == "misc" and a == "mvdr":
            out["mvdr_type"] = "scm"
        elif o == "misc" and a in ("mvdr", "five"):
            out["n_power_iter"] = 3
    return out


OPTIONS = ("n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "ref_mic", "use_dmc", "eps", "mvdr_type",
           "n_power_iter", "time_invariant", "algo", "training")


def options(f):
    """what can be seen of the objects"""
    out = {}
    if isinstance(f, torch.nn.Module):
        for name, m in f.named_modules():
            for o in OPTIONS:
                if hasattr(m, o):
                    out[f"{name}.{o}"] = repr(getattr(m, o))
            for o in ("model", "mask_model", "source_model"):
                if hasattr(m, o):
                    out[f"{name}.{o}"] = id(getattr(m, o))
            for o in ("_forward_hooks", "_forward_pre_hooks", "_backward_hooks"):
                out[f"{name}.{o}"] = len(getattr(m, o))
        for k, v in f.state_dict().items():
            out["state " + k] = v.clone()
        for k, v in f.named_parameters():
            out["trainable " + k] = v.requires_grad
    return out


def same(a, b):
    if a.keys() != b.keys():
        return sorted(set(a) ^ set(b))
    return [k for k in a if not (torch.equal(a[k], b[k]) if isinstance(a[k], torch.Tensor) else a[k] == b[k])]


def run_sweep(ctx, s):
    mk_, inputs = maker({**s, "cls": "sep"})
    Fault, want = (FaultyOps, Oom) if s["fault"] == "op" else (FaultyLines, Interrupt)
    kw, tag, what = overrides(s), s["fault"], s["algo"]

    def go(f, xs, kw, guard):
        torch.manual_seed(7)
        with guard:
            Y = f(*xs, **kw)
            if s["grad"] and Y.requires_grad:
                Y.abs().square().sum().backward()
        return Y.detach()

    def fresh():
        return [x.clone().requires_grad_(s["grad"]) for x in inputs]

    rnd = random.Random(s["seed"])
    with torch.enable_grad() if s["grad"] else torch.no_grad():
        sites = {}
        go(mk_(), fresh(), kw, Fault(None, sites))
        f = mk_()
        names = sorted(sites)
        for where in rnd.sample(names, min(s["places"], len(names))):
            at = rnd.choice(sites[where])
            xs = fresh()
            f.zero_grad()
            torch.manual_seed(7)
            before, glob, opts = [fingerprint(x) for x in xs], global_state(), options(f)
            got = None
            try:
                go(f, xs, kw, Fault(at))
            except BaseException as e:
                got = e
            ctx.event("place: " + tag)
            mode = torch.is_grad_enabled()
            torch.set_grad_enabled(s["grad"])
            place = [where[0].rsplit("/", 1)[-1], where[1]]
            ctx.expect(isinstance(got, want), f"the exception comes out ({tag})", of=what, got=repr(got)[:300], place=place)
            if tag == "op":
                # (an interrupt can strike between the body and the exit of a "with" statement)
                ctx.expect(mode == s["grad"], f"gradient mode as before ({tag})", of=what, place=place)
            ctx.expect(before == [fingerprint(x) for x in xs], f"inputs as before ({tag})", of=what, place=place)
            g2 = global_state()
            if s.get("model") == "nmf":
                for g_ in (glob, g2):
                    g_.pop("torch_rng")
            d = [k for k in glob if glob[k] != g2[k]]
            ctx.expect(not d, f"state of the process as before ({tag})", of=what, changed=d, place=place)
            d = same(opts, options(f))
            ctx.expect(not d, f"object as before ({tag})", of=what, changed=d, place=place)
        Y = go(f, fresh(), {}, contextlib.nullcontext())
        Z = go(mk_(), fresh(), {}, contextlib.nullcontext())
    ctx.check(rel(Y, Z), 1e-7, f"next call as if nothing had happened ({tag})", of=what)


def run(ctx, s):
    if s["cls"] == "sweep":
        return run_sweep(ctx, s)
    mk_, inputs = maker(s)
    sep = s["cls"] == "sep"
    faulty = None

    def new():
        f = mk_()
        if sep:
            o = "model" if s["algo"] in ITER else "mask_model"
            inner = getattr(f, o)
            if inner is not None:
                m = FaultyModel(inner)
                setattr(f, o, m)
                return f, m
        return f, None

    grad = s["grad"] and sep
    kw = overrides(s) if sep else {}
    if sep and "model" in s["over"] and s["algo"] in ITER and s["algo"] != "wpe":
        kw["model"] = FaultyModel(PowerModel())
    phase = "call"

    def go(f, xs, kw, guard=None):
        torch.manual_seed(7)
        xs = [x.clone() for x in xs]
        if grad:
            xs = [x.requires_grad_(True) for x in xs]
        with guard if guard is not None else torch.no_grad() if not grad else torch.enable_grad():
            if guard is not None and not grad:
                with torch.no_grad():
                    return f(*xs, **kw), xs, None
            Y = f(*xs, **kw)
            g = None
            if grad and Y.requires_grad:
                # weights that do not depend on the phase
                Y.abs().square().sum().backward()
                g = xs[0].grad
            return Y.detach(), xs, g

    # where can it fail
    f0, m0 = new()
    mm = kw.get("model", m0)
    if s["fault"] == "model":
        if mm is None:
            raise Skip("no model to fail")
        if isinstance(mm, FaultyModel):
            mm.calls = 0
        go(f0, inputs, kw)
        total = mm.calls
    elif s["fault"] == "op":
        c = FaultyOps()
        go(f0, inputs, kw, c)
        total = c.n
    else:
        c = FaultyLines()
        go(f0, inputs, kw, c)
        total = c.n
    if total == 0:
        raise Skip("nowhere to fail")
    at = 1 + int(s["pos"] * total)

    f, m = new()
    if s.get("seed", 0) % 2:
        # with an earlier successful call
        go(f, inputs, {})
    if isinstance(f, torch.nn.Module):
        f.zero_grad()
    xs = [x.clone() for x in inputs]
    if grad:
        xs = [x.requires_grad_(True) for x in xs]
    torch.manual_seed(7)
    mm = kw.get("model", m)
    guard = None
    if s["fault"] == "model":
        mm.calls, mm.at = 0, at
        want = Broken
    elif s["fault"] == "op":
        guard, want = FaultyOps(at), Oom
    else:
        guard, want = FaultyLines(at), Interrupt
    before, glob, opts = [fingerprint(x) for x in xs], global_state(), options(f)
    filters = list(warnings.filters)
    got = None
    ng = torch.enable_grad if grad else torch.no_grad
    try:
        with ng():
            if guard is not None:
                with guard:
                    Y = f(*xs, **kw)
                    if grad and Y.requires_grad:
                        Y.abs().square().sum().backward()
            else:
                Y = f(*xs, **kw)
                if grad and Y.requires_grad:
                    Y.abs().square().sum().backward()
    except BaseException as e:
        got = e
    what = s.get("fn", s.get("algo"))
    tag = s["fault"]
    if isinstance(mm, FaultyModel):
        mm.at = None
    ctx.event("fault: " + tag)
    ctx.event("faulty call of " + what)
    ctx.expect(isinstance(got, want), f"the exception comes out ({tag})", of=what, got=repr(got)[:300], at=at, total=total)
    # requires_grad inputs: .grad may have been set
    after = [fingerprint(x) for x in xs]
    ctx.expect(before == after, f"inputs as before ({tag})", of=what, at=at, total=total)
    g2 = global_state()
    if s.get("model") == "nmf":
        # draws its starting point
        for g_ in (glob, g2):
            g_.pop("torch_rng")
    d = [k for k in glob if glob[k] != g2[k]]
    ctx.expect(not d, f"state of the process as before ({tag})", of=what, changed=d, at=at, total=total)
    ctx.expect(list(warnings.filters) == filters, f"warnings as before ({tag})", of=what)
    d = same(opts, options(f))
    ctx.expect(not d, f"object as before ({tag})", of=what, changed=d, at=at, total=total)
    # the next call
    nxt = inputs
    if s["other"]:
        nxt = [x.flip(-1) if x.is_complex() or s["cls"] != "fn" else x for x in inputs]
    if isinstance(f, torch.nn.Module):
        f.zero_grad()
    Y, _, gr = go(f, nxt, {})
    fr, _ = new()
    Z, _, gz = go(fr, nxt, {})
    ctx.expect(Y.dtype == Z.dtype and Y.shape == Z.shape, "next call: same kind of result", of=what)
    tol = 1e-7 if s["prec"] == "double" else 1e-4
    ctx.check(rel(Y, Z), tol, f"next call as if nothing had happened ({tag})", of=what, at=at, total=total)
    if gr is not None and gz is not None:
        ctx.event("gradients of the next call")
        ctx.check(rel(gr, gz), 1e-6, f"gradient of the next call ({tag})", of=what, at=at, total=total)
        if isinstance(f, torch.nn.Module):
            for (k, p), (_, q) in zip(f.named_parameters(), fr.named_parameters()):
                if p.grad is not None and q.grad is not None:
                    ctx.check(rel(p.grad, q.grad), 1e-6, f"gradient of the parameters in the next call ({tag})", of=what, par=k)
