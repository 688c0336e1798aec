"""C35: memory"""
import gc
import weakref

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from ..core import Skip, expand
from ..util import *

RULE = ("the bytes of all live tensor storages are tracked at every tensor operation (forward and backward) of "
        "random separators, dereverberation, beamformers and whole separators with many frames; compared are "
        "different numbers of iterations, of calls, of frames and of batch elements; with memory-saving "
        "backpropagation the memory per iteration must be far below one signal (and without it at least one "
        "signal, which shows that the monitor sees it), without gradients it must not depend on the number of "
        "iterations, it must not grow with the calls, and it must grow at most linearly with the frames and "
        "the batch; non-trivial: two measurements are compared")


class Meter(TorchDispatchMode):
    """live bytes of the storages made since the meter started"""

    def __init__(self):
        super().__init__()
        self.refs, self.bytes, self.peak, self.n = {}, 0, 0, 0

    def track(self, t, count=True):
        st = t.untyped_storage()
        k = id(st)
        if k in self.refs:
            return
        size = st.nbytes() if count else 0

        def gone(_, k=k, size=size):
            self.refs.pop(k, None)
            self.bytes -= size

        # the object of a storage lives as long as the storage
        self.refs[k] = weakref.ref(st, gone)
        self.bytes += size

    def see(self, t):
        if isinstance(t, torch.Tensor):
            self.track(t)
        elif isinstance(t, (list, tuple)):
            for u in t:
                self.see(u)

    def own(self, *ts):
        """storages that do not count"""
        for t in ts:
            self.track(t, count=False)

    def now(self):
        return self.bytes

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.n += 1
        self.see(out)
        self.peak = max(self.peak, self.bytes)
        return out


def base(r, algos=None):
    s = random_algo(r, n_iter=(1, 3), models=("laplace", "power", "param"), N=(150, 250), F=(3, 6), **(dict(algos=algos) if algos else {}))
    s["batch"] = list(r.choice([(), (), (2,)]))
    s["kind"] = "gauss"
    return s


def mk_dmc(r):
    s = base(r, ("tiss",))
    s["what"] = "dmc"
    s["model"] = r.choice(["laplace", "power", "param"])
    if s.get("n_src") is not None and r.random() < 0.5:
        s["n_src"] = None
    return s


def mk_iter(r):
    s = base(r, ITER)
    s["what"] = "iterations"
    s["mode"] = r.choice(["no_grad", "inference", "plain"])
    return s


def mk_calls(r):
    s = base(r)
    s["what"] = "calls"
    s["grad"] = r.choice(["none", "plain", "backward", "forward"])
    if s["algo"] == "tiss":
        s["dmc"] = r.random() < 0.4
    return s


def mk_size(r):
    s = base(r)
    s["what"] = r.choice(["frames", "batch"])
    if s["what"] == "batch":
        s["batch"] = [2]
    return s


def mk_wave(r):
    return dict(what=r.choice(["wave calls", "wave length", "wave iterations"]),
                algo=r.choice(["tiss", "ip2", "five", "mvdr", "mwf", "gev"]), n_fft=16, n=r.randint(1500, 2500),
                batch=list(r.choice([(), (2,)])), n_iter=r.randint(1, 3), dmc=r.random() < 0.5)


def plan(ctx):
    return expand("C35", ctx.seed, [mk_dmc, mk_iter, mk_calls, mk_size, mk_dmc, mk_wave], ctx.scaled(120, 2400))


def signal(s, N=None, batch=None):
    b = tuple(s["batch"] if batch is None else batch)
    g = gen(s["seed"])
    return crandn(g, *b, s["C"], s["F"], N or s["N"])


def loss(Y):
    return Y.abs().square().sum()


def peak(f, *xs, grad=False, kw={}):
    """peak and final memory of one call"""
    gc.collect()
    with Meter() as m:
        m.own(*xs)
        Y = f(*xs, **kw)
        kept = m.now()
        if grad and Y.requires_grad:
            loss(Y).backward()
    return m.peak, kept, m.n


def model_of(s):
    if s["algo"] in BEAM or not s.get("model"):
        return None
    return make_model("wpeparam" if s["algo"] == "wpe" and s["model"] == "param" else s["model"],
                      s["F"] - (s["algo"] == "five"), s["seed"])


def run_dmc(ctx, s):
    """one signal is C F N complex numbers"""
    n_src = s.get("n_src") or s["C"]
    nb = 1
    for b in s["batch"]:
        nb *= b
    one = nb * n_src * s["F"] * s["N"] * 16
    res = {}
    for dmc in (True, False):
        for n in (2, 5):
            X = signal(s).requires_grad_(True)
            f = build(s, model=model_of(s), n_iter=n, dmc=dmc)
            res[dmc, n] = peak(f, X, grad=True)
    ctx.event("backward passes measured", 4)
    ctx.event("operations watched", sum(v[2] for v in res.values()))
    grow = lambda dmc, i: (res[dmc, 5][i] - res[dmc, 2][i]) / 3 / one
    ctx.check(grow(True, 0), 0.5, "peak per iteration with checkpointing (signals)", n_iter=(2, 5))
    ctx.check(grow(True, 1), 0.5, "kept per iteration with checkpointing (signals)")
    # positive control
    ctx.expect(grow(False, 1) >= 1.0 and grow(False, 0) >= 1.0, "without checkpointing the memory grows", got=[grow(False, 0), grow(False, 1)])
    ctx.check(res[True, 5][0], 0.9 * res[False, 5][0], "checkpointing saves memory")


def run_iter(ctx, s):
    res = []
    for n in (3, 8):
        X = signal(s)
        f = build(s, model=model_of(s), n_iter=n)
        cm = {"no_grad": torch.no_grad, "inference": torch.inference_mode, "plain": torch.enable_grad}[s["mode"]]
        if s["mode"] == "plain":
            for p in f.parameters():
                p.requires_grad_(False)
        with cm():
            res.append(peak(f, X))
    ctx.event("operations watched", sum(r[2] for r in res))
    ctx.check(res[1][0], 1.1 * res[0][0] + 1000, f"peak with 8 iterations like with 3 ({s['mode']})", of=s["algo"])
    ctx.check(res[1][1], 1.1 * res[0][1] + 1000, f"kept with 8 iterations like with 3 ({s['mode']})", of=s["algo"])


def run_calls(ctx, s):
    f = build(s, model=model_of(s))
    live, peaks = [], []
    with Meter() as m:
        for k in range(5):
            X = signal(s)
            m.own(X)
            if s["grad"] in ("backward", "forward"):
                X = X.requires_grad_(True)
            m.peak = 0
            with torch.no_grad() if s["grad"] == "none" else torch.enable_grad():
                Y = f(X)
                if s["grad"] == "backward" and Y.requires_grad:
                    loss(Y).backward()
            peaks.append(m.peak)
            if hasattr(f, "zero_grad"):
                f.zero_grad()
            del Y, X
            gc.collect()
            live.append(m.now())
    ctx.event("operations watched", m.n)
    tag = s["grad"]
    ctx.check(live[4], 1.001 * live[1] + 200, f"memory after 5 calls like after 2 ({tag})", of=s["algo"])
    ctx.check(max(peaks[1:]), 1.1 * peaks[0] + 2000, f"peak of later calls like that of the first ({tag})", of=s["algo"], peaks=peaks)
    # what is kept is small: less than one signal
    nb = 1
    for b in s["batch"]:
        nb *= b
    ctx.check(live[4], nb * s["C"] * s["F"] * s["N"] * 16, f"no signal is kept by the object ({tag})", of=s["algo"], kept=live)


def run_size(ctx, s):
    res = []
    for k in (1, 3):
        X = signal(s, N=s["N"] * k) if s["what"] == "frames" else signal(s, batch=[2 * k])
        f = build(s, model=model_of(s))
        with torch.no_grad():
            res.append(peak(f, X))
    ctx.event("operations watched", sum(r[2] for r in res))
    ctx.check(res[1][0], 3 * 1.1 * res[0][0] + 5000, f"peak at most proportional to the {s['what']}", of=s["algo"], peaks=[r[0] for r in res])


def run_wave(ctx, s):
    import torchiva

    def new(n_iter):
        m = None if s["algo"] in ("tiss", "ip2", "five") else MaskNet(2, 2)
        return torchiva.nn.BSSSeparator(n_fft=s["n_fft"], n_iter=n_iter, algo=s["algo"], n_src=2, source_model=m,
                                        use_dmc=s["dmc"]).double()

    def sig(n):
        return torch.randn(tuple(s["batch"]) + (2, n), generator=gen(s["seed"]), dtype=torch.float64)

    with torch.no_grad():
        if s["what"] == "wave length":
            a, b = (peak(new(s["n_iter"]), sig(s["n"] * k)) for k in (1, 3))
            ctx.check(b[0], 3 * 1.15 * a[0] + 5000, "peak at most proportional to the length", of=s["algo"])
        elif s["what"] == "wave iterations":
            a, b = (peak(new(n), sig(s["n"])) for n in (3, 8))
            ctx.check(b[0], 1.1 * a[0] + 1000, "peak with 8 iterations like with 3 (wave)", of=s["algo"])
        else:
            f, live = new(s["n_iter"]), []
            with Meter() as m:
                for k in range(4):
                    x = sig(s["n"])
                    m.own(x)
                    y = f(x)
                    del x, y
                    gc.collect()
                    live.append(m.now())
            ctx.check(live[3], 1.001 * live[1] + 200, "memory after 4 calls like after 2 (wave)", of=s["algo"], live=live)


def run(ctx, s):
    w = s["what"]
    {"dmc": run_dmc, "iterations": run_iter, "calls": run_calls}.get(
        w, run_wave if w.startswith("wave") else run_size)(ctx, s)
