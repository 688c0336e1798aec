"""C07: one object used by several threads at once gives each its own result"""
import hashlib
import threading
import time

import torch

from ..core import Skip, expand, Inconclusive
from ..util import *

RULE = ("2-5 threads call one shared separator / beamformer / transform at the same time, "
        "each on its own signal (of the same or of another size) and with its own call-time parameters; the source model "
        "is a callback where a seeded scheduler holds the threads and releases them one "
        "by one, so that calls interleave at every iteration; each result is compared to "
        "that of the same call made alone; the order of the callbacks is recorded; besides, one "
        "thread is stopped in turn at every line of torchiva that it executes (and at random "
        "bytecodes) while the call of another thread runs from start to end, and both "
        "results are compared to those of the calls made alone")
SEED_DISTINCT = True
WORKERS = {"quick": 4, "thorough": 6}
ASSUMPTIONS = ["the source model itself has no state shared between the calls",
               "interleavings are controlled at the calls of the source model (between them "
               "they are left to the interpreter, switch interval of 10 us) and, for two "
               "threads and one preemption, at every line of torchiva executed"]


def mk(r):
    s = random_algo(r, algos=("tiss", "tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev"),
                    n_iter=(1, 5), N=(25, 45), batches=[(), (2,)], models=("laplace", "gauss", "power"),
                    max_chan=4)
    s["what"] = "algo"
    s["threads"] = r.randint(2, 5)
    s["mode"] = r.choice(["token", "token", "free"])
    s["override"] = r.random() < 0.5
    s["dmc"] = s["algo"] == "tiss" and r.random() < 0.2
    s["same"] = r.random() < 0.5
    return s


def mk_wave(r):
    a = r.choice(["tiss", "ip2", "five", "mvdr", "mwf", "gev"])
    return dict(what="wave", algo=a, C=2, n_fft=r.choice([16, 32]), threads=r.randint(2, 4),
                n_iter=r.randint(1, 4), mode=r.choice(["token", "free"]), model="laplace", same=r.random() < 0.5)


def mk_preempt(r):
    s = mk(r) if r.random() < 0.7 else mk_wave(r)
    s["what2"] = "preempt"
    s["threads"] = 2
    s["n_iter"] = min(s.get("n_iter", 2), 2)
    s["opcodes"] = r.random() < 0.3
    s["dmc"] = False
    return s


FNS = ["stft", "istft", "laplace", "gauss", "blstm", "simple", "glu", "mvdrsupport", "projback",
       "mindist", "fftconvolve", "eigh", "gevd", "solve"]


def mk_fn(r):
    return dict(what="fn", what2="preempt", algo=r.choice(FNS), C=2, F=r.choice([5, 9]), N=24,
                threads=2, opcodes=r.random() < 0.3, k=r.randint(0, 5), same=r.random() < 0.5)


def plan(ctx):
    return expand("C07", ctx.seed, [mk, mk, mk, mk_wave], ctx.scaled(160, 2500)) + \
        expand("C07p", ctx.seed, [mk_preempt, mk_preempt, mk_preempt, mk_fn], ctx.scaled(80, 1500))


class Preempt:
    """
    Runs f; when the n-th traced event (line, or bytecode) in torchiva is
    reached, runs `other` to the end in another thread before going on.
    """

    def __init__(self, opcodes=False):
        import os

        import torchiva

        self.root = os.path.dirname(os.path.abspath(torchiva.__file__)) + os.sep
        self.opcodes = opcodes

    def run(self, f, at=None, other=None):
        """-> (result, error, list of places of the events)"""
        import sys
        import traceback

        places, box = [], [None, None]

        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                if at is not None and len(places) == at:
                    sys.settrace(None)
                    th = threading.Thread(target=other, daemon=True)
                    th.start()
                    th.join(120)
                    places.append("here")
                    return None
                if at is None or len(places) < at:
                    places.append((frame.f_code.co_filename, frame.f_lineno,
                                   frame.f_lasti if self.opcodes else 0))
            return local

        def tr(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local

        def work():
            sys.settrace(tr)
            try:
                box[0] = f()
            except BaseException:
                box[1] = traceback.format_exc()[-1500:]
            finally:
                sys.settrace(None)

        th = threading.Thread(target=work, daemon=True)
        th.start()
        th.join(240)
        if th.is_alive():
            raise Inconclusive("thread did not finish")
        return box[0], box[1], places


def shared_function(s):
    """a stateless object shared by two callers, and arguments for each"""
    import torchiva as tv
    from torchiva import linalg as L

    fn, F, N, k = s["algo"], s["F"], s["N"], s["k"]
    torch.manual_seed(3)
    args = []
    for i in range(2):
        g = gen(s["seed"] + i)
        j = 0 if s["same"] else i
        n = N + 5 * j
        X = crandn(g, 2, F, n)
        x = torch.randn(2, 200 + 16 * j, generator=g, dtype=torch.float64)
        A = crandn(g, 3, 2 + k % 2, 6 + j)
        B = crandn(g, 3, 2 + k % 2, 6 + j)
        args.append(dict(
            stft=(x,), istft=(X,), projback=(X, X.sum(-3)), mindist=(X, crandn(g, F, n)),
            fftconvolve=(x, x[..., :9 + j]), eigh=(A @ A.mH,), gevd=(A @ A.mH, B @ B.mH),
            solve=(A @ A.mH, B[..., :2])).get(fn, (X,)))
    if fn in ("stft", "istft"):
        st = tv.STFT(16 if fn == "stft" else 2 * (F - 1), window=[None, torch.hamming_window(16 if fn == "stft" else 2 * (F - 1))][k % 2]).double()
        return (st if fn == "stft" else st.inv), args
    f = dict(
        laplace=tv.models.LaplaceModel, gauss=tv.models.GaussModel,
        blstm=lambda: tv.models.BLSTMMask(n_freq=F, n_bottleneck=3, n_hidden=4).double().eval(),
        simple=lambda: tv.models.SimpleModel(n_freq=F, n_mels=3).double().eval(),
        glu=lambda: tv.models.GLUMask(F, 4).double().eval(),
        mvdrsupport=lambda: tv.models.MaskMVDRSupport(n_input=F, n_hidden=4).double().eval())
    if fn in f:
        return f[fn](), args
    return dict(projback=tv.projection_back, mindist=lambda Y, r: tv.minimum_distortion(
        Y, r, p=1.0, q=[None, 2.0][k % 2], max_iter=3), fftconvolve=tv.fftconvolve,
        eigh=L.eigh, gevd=L.eigh, solve=L.solve_loaded)[fn], args


def first(o):
    return o[0] if isinstance(o, (tuple, list)) else o


def preempt(ctx, s, calls, alone):
    import random

    r = random.Random(s["seed"] + 3)
    pre = Preempt(s["opcodes"])
    out, err, places = pre.run(calls[0])
    ctx.expect(err is None and rel(out, alone[0]) <= 1e-9, f"traced = not traced ({s['algo']})", error=err)
    ctx.event("lines and bytecodes seen", len(places))
    # the first and the last time each place is reached, and some others
    firsts, lasts = {}, {}
    for i, p in enumerate(places):
        firsts.setdefault(p, i)
        lasts[p] = i
    pts = sorted(set(firsts.values()) | set(lasts.values()))
    room = 160 if ctx.tier == "quick" else 400
    if len(pts) > room:
        pts = sorted(r.sample(pts, room))
    if places:
        pts += [r.randrange(len(places)) for _ in range(10)]
    for at in pts:
        box = [None, None]

        def other():
            import traceback

            try:
                box[0] = calls[1]()
            except BaseException:
                box[1] = traceback.format_exc()[-1500:]

        out, err, seen = pre.run(calls[0], at, other)
        if not seen or seen[-1] != "here":
            ctx.event("point not reached again")
            continue
        ctx.event("preemptions")
        where = [places[at][0].rsplit("/", 1)[-1], places[at][1]]
        for i, (o, e) in enumerate(((out, err), (box[0], box[1]))):
            if not ctx.expect(e is None, f"no error ({s['algo']})", error=e, preempted_at=where):
                continue
            ctx.check(rel(o, alone[i]), 1e-9, f"preempted = alone ({s['algo']})",
                      who=["preempted", "other"][i], preempted_at=where)


class Scheduler:
    """
    Lets one thread at a time leave the callback, in a seeded random order.  A
    thread that is not in a callback (computing, or finished) is waited for
    only for a short while, so that there is no deadlock.
    """

    def __init__(self, seed, n, mode):
        import random

        self.r = random.Random(seed)
        self.n, self.mode = n, mode
        self.cv = threading.Condition()
        self.waiting = []
        self.alive = n
        self.trace = []

    def gate(self, who):
        with self.cv:
            self.trace.append(who)
            if self.mode == "free":
                d = self.r.random() * 0.002
            else:
                self.waiting.append(who)
                self.cv.notify_all()
                end = time.time() + 2.0
                while who in self.waiting:
                    if len(self.waiting) >= self.alive or time.time() > end:
                        # everybody is here: pick who goes next
                        w = self.r.choice(sorted(self.waiting))
                        self.waiting.remove(w)
                        self.cv.notify_all()
                    else:
                        self.cv.wait(0.05)
                d = 0.0
        if d:
            time.sleep(d)

    def done(self):
        with self.cv:
            self.alive -= 1
            self.cv.notify_all()


class Gated(torch.nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.local = threading.local()
        self.sched = None

    def forward(self, X):
        who = getattr(self.local, "who", None)
        if self.sched is not None and who is not None:
            self.sched.gate(who)
        return self.inner(X)


def run(ctx, s):
    import sys

    n = s["threads"]
    if s["what"] == "fn":
        f, args = shared_function(s)

        def one(a):
            with torch.no_grad():
                return first(f(*a))

        return preempt(ctx, s, [lambda i=i: one(args[i]) for i in (0, 1)], [one(a) for a in args])
    if s["what"] == "algo":
        inner = None
        if s["algo"] in BEAM:
            inner = MaskNet(s["n_src"], s.get("n_masks", 2))
        elif s["algo"] == "wpe":
            inner = WpeWeights()
        else:
            inner = make_model(s["model"])
        model = Gated(inner)
        shared = build(s, model=model)
        sizes = [(s["F"], s["N"]) if s["same"] else (s["F"] + i % 2, s["N"] + 3 * (i % 3)) for i in range(n)]
        Xs = [mixture(s["seed"] + i, s["batch"], s["C"], *sizes[i]) for i in range(n)]
        kws = [{} for _ in range(n)]
        if s["override"]:
            for i in range(n):
                if s["algo"] in ("tiss", "ip", "ip2", "five", "wpe"):
                    kws[i]["n_iter"] = 1 + (s["n_iter"] + i) % 5
                if s["algo"] in ("tiss", "ip", "ip2", "five"):
                    kws[i]["proj_back_mic"] = i % s["C"]
                if s["algo"] == "tiss":
                    kws[i]["n_src"] = 1 + i % s["C"]
                    kws[i]["n_taps"] = i % 3
                if s["algo"] in BEAM:
                    kws[i]["ref_mic"] = i % s["C"]
    else:
        import torchiva

        inner = MaskNet(2, 2) if s["algo"] in BEAM else make_model("laplace")
        model = Gated(inner)
        shared = torchiva.nn.BSSSeparator(n_fft=s["n_fft"], n_iter=s["n_iter"], algo=s["algo"],
                                          source_model=model).double()
        Xs = []
        for i in range(n):
            g = gen(s["seed"] + i)
            x = torch.randn(2, 600 + (0 if s["same"] else 37 * i), generator=g, dtype=torch.float64)
            Xs.append(torch.randn(2, 2, generator=g, dtype=torch.float64) @ x)
        kws = [{} for _ in range(n)]

    alone = [quiet(shared, X, **kw) for X, kw in zip(Xs, kws)]
    if s.get("what2") == "preempt":
        return preempt(ctx, s, [lambda i=i: quiet(shared, Xs[i], **kws[i]) for i in (0, 1)], alone)

    sched = Scheduler(s["seed"], n, s["mode"])
    model.sched = sched
    results, errors = [None] * n, [None] * n
    start = threading.Barrier(n)

    def work(i):
        model.local.who = i
        try:
            start.wait()
            results[i] = quiet(shared, Xs[i], **kws[i])
        except BaseException as e:
            import traceback

            errors[i] = traceback.format_exc()[-1500:]
        finally:
            sched.done()

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
        for t in th:
            t.start()
        for t in th:
            t.join(60)
        if any(t.is_alive() for t in th):
            raise Inconclusive("threads did not finish")
    finally:
        sys.setswitchinterval(old)
        model.sched = None

    switches = sum(a != b for a, b in zip(sched.trace, sched.trace[1:]))
    ctx.event("callbacks", len(sched.trace))
    ctx.event("switches between threads", switches)
    if switches >= n:
        ctx.event("interleaved histories")
    for i in range(n):
        if not ctx.expect(errors[i] is None, f"no error ({s['algo']})", error=errors[i]):
            continue
        ctx.check(rel(results[i], alone[i]), 1e-9, f"concurrent = alone ({s['algo']})",
                  thread=i, order=sched.trace[:60])
