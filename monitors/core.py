"""
Execution engine shared by all the checks.

A check is a module ``monitors.props.cNN`` that defines

    RULE              how cases are made and what makes one non-trivial
    ASSUMPTIONS       what the check trusts
    plan(ctx)         -> list of JSON-able case specifications
    run(ctx, spec)    -> runs the real code and feeds the monitors (ctx.check, ...)

Verdicts are three valued.  Exit 0: every monitor that fired was satisfied and
at least one fired.  Exit 1: a monitor saw a violation (a VIOLATION line and a
replay file are produced).  Exit 2: no answer (harness problem, nothing
observed).
"""
import hashlib
import importlib
import json
import math
import os
import pathlib
import signal
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.jsonl"


class Inconclusive(Exception):
    """The harness could not decide: neither a violation nor a success"""


class Skip(Exception):
    """The case is outside of the domain of the property (e.g. badly conditioned)"""


def setup_import():
    sys.dont_write_bytecode = True
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import warnings

    warnings.filterwarnings("ignore")
    import torch

    torch.set_num_threads(1)
    import torchiva

    src = pathlib.Path(torchiva.__file__).resolve()
    if REPO not in src.parents:
        raise Inconclusive(f"torchiva was imported from {src}, not from {REPO}")


def jsonable(o):
    import torch

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, torch.Tensor):
        return jsonable(o.tolist()) if o.numel() < 20 else f"tensor{tuple(o.shape)}"
    if isinstance(o, complex):
        return str(o)
    if isinstance(o, float) and not math.isfinite(o):
        return str(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


class Ctx:
    """What a check sees: seeded randomness, monitors and counters"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.counters = {}
        self.maxima = {}
        self.violations = []
        self.known = []
        self.skipped = {}
        self.spec = None

    # -- observations -------------------------------------------------------
    def event(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def check(self, value, bound, label, **detail):
        """Monitor: value must be a number <= bound (NaN is a violation)"""
        value, bound = float(value), float(bound)
        self.event("oracle:" + label)
        if value == value:
            r = value / bound if bound > 0 else value
            self.maxima[label] = max(self.maxima.get(label, 0.0), r)
        if not (value <= bound):
            self.fail(label, value=value, bound=bound, **detail)
            return False
        return True

    def expect(self, cond, label, **detail):
        self.event("oracle:" + label)
        if not cond:
            self.fail(label, **detail)
            return False
        return True

    def fail(self, label, **detail):
        self.violations.append(
            dict(label=label, spec=self.spec, detail=jsonable(detail))
        )

    def finding(self, mechanism, what):
        """a violation with the signature of a listed known finding"""
        if mechanism not in self.known:
            self.known.append(mechanism)
        self.event("known:" + mechanism)

    def scaled(self, quick, thorough):
        return quick if self.quick else thorough


def case_seed(prop, seed, i):
    h = hashlib.sha256(f"{prop}/{seed}/{i}".encode()).digest()
    return int.from_bytes(h[:4], "big") & 0x7FFFFFFF


def enlarge(r, s, dims):
    """
    a few cases have one large dimension: frequencies (F), frames (N), batch (B) channels (C), iterations (I) or frequencies and frames (M),
    of the sizes met in practice and around them
    """
    d = r.choice(dims)
    if d == "F" and "F" in s:
        s["F"] = r.choice([65, 129, 257, 300, 513, 600, 1025])
        if "batch" in s and "kinds" not in s:
            s["batch"] = r.choice([[], [1]])
    elif d == "N" and "N" in s:
        s["N"] = s["N"] + r.choice([200, 450, 500, 1000, 1500, 2100])
        s["F"] = min(s.get("F", 4), 4)
    elif d == "B" and "batch" in s:
        s["batch"] = list(r.choice([(7,), (17,), (40,), (70,), (3, 3, 2), (2, 1, 2, 2), (5, 4)]))
        s["F"] = min(s.get("F", 4), 4)
    elif d == "C" and "C" in s and s.get("algo") != "ip2":
        old, s["C"] = s["C"], max(s["C"], r.randint(6, 9))
        if s.get("n_src") == old and s.get("algo") in ("tiss", "ip"):
            s["n_src"] = s["C"]
        if "N" in s:
            s["N"] += 25 * s["C"] * (1 + s.get("taps", 0))
        s["F"] = min(s.get("F", 4), 4)
    elif d == "M" and "F" in s and "N" in s and "C" in s:
        # a usual spectrogram of a few seconds
        s["F"], s["N"] = r.choice([129, 257, 257, 513]), s["N"] + r.choice([150, 250, 350])
        if "batch" in s and "kinds" not in s:
            s["batch"] = []
        if isinstance(s.get("n_iter"), int):
            s["n_iter"] = min(s["n_iter"], 2)
    elif d == "I" and isinstance(s.get("n_iter"), int) and s["n_iter"] > 0:
        s["n_iter"] = r.randint(8, 24)
        s["F"] = min(s.get("F", 3), 3)
    else:
        return
    s["large"] = d


def expand(prop, seed, makers, n, large=""):
    """
    n cases drawn from ``makers``: callables rnd -> spec (rnd: random.Random),
    taken in turn.  Every case carries its own seed.  One in 10 has one of the dimensions ``large`` large.
    """
    import random

    out = []
    for i in range(n):
        s = case_seed(prop, seed, i)
        r = random.Random(s)
        spec = makers[i % len(makers)](r)
        if large and r.random() < 1 / 10 and not spec.get("nolarge"):
            enlarge(r, spec, large)
        spec["seed"] = s
        out.append(spec)
    return out


def run_one(mod, ctx, spec):
    import torch

    ctx.spec = spec
    torch.manual_seed(spec.get("seed", 0))
    before = len(ctx.violations)
    if "large" in spec:
        ctx.event("large " + {"F": "number of frequencies", "N": "number of frames", "B": "batch",
                              "C": "number of channels", "I": "number of iterations",
                              "M": "frequencies and frames"}[spec["large"]])
    try:
        mod.run(ctx, spec)
        ctx.event("cases")
        return True
    except Skip as e:
        k = str(e) or "out of domain"
        ctx.skipped[k] = ctx.skipped.get(k, 0) + 1
        return False
    except (Inconclusive, MemoryError, KeyboardInterrupt):
        raise
    except OSError as e:
        import errno

        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
            raise Inconclusive(f"resource problem: {e}")
        ctx.fail("exception", error=repr(e), trace=traceback.format_exc()[-3000:])
    except Exception as e:
        if len(ctx.violations) == before:
            ctx.fail(
                "exception", error=repr(e)[:500], trace=traceback.format_exc()[-3000:]
            )
    ctx.event("cases")
    return True


def signature(spec):
    return json.dumps({k: v for k, v in spec.items() if k != "seed"}, sort_keys=True)


def worker(mod, prop, tier, seed, specs, deadline, path):
    import torch

    torch.set_num_threads(1)
    ctx = Ctx(prop, tier, seed)
    done = []
    with open(path, "w") as f:
        for i, spec in specs:
            if time.time() > deadline or len(ctx.violations) >= 20:
                break
            f.write(json.dumps({"begin": i}) + "\n")
            f.flush()
            try:
                if run_one(mod, ctx, spec):
                    done.append(i)
            except Inconclusive as e:
                f.write(json.dumps({"inconclusive": str(e)[:2000]}) + "\n")
                break
            except BaseException as e:
                f.write(json.dumps({"inconclusive": repr(e)[:2000]}) + "\n")
                break
        f.write(
            json.dumps(
                dict(
                    end=True,
                    counters=ctx.counters,
                    maxima=ctx.maxima,
                    violations=ctx.violations,
                    known=ctx.known,
                    skipped=ctx.skipped,
                    done=done,
                )
            )
            + "\n"
        )


def run_pool(mod, prop, tier, seed, specs, n_workers, deadline):
    import tempfile

    merged = dict(counters={}, maxima={}, violations=[], known=[], skipped={}, done=[])
    problems = []
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        pids = {}
        for w in range(n_workers):
            part = [(i, s) for i, s in enumerate(specs) if i % n_workers == w]
            if not part:
                continue
            path = os.path.join(tmp, f"w{w}.jsonl")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    worker(mod, prop, tier, seed, part, deadline, path)
                except BaseException:
                    traceback.print_exc()
                    code = 70
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            pids[pid] = path
        # a case that never ends is stopped well after the deadline
        hard = deadline + 120
        statuses = {}
        while len(statuses) < len(pids):
            for pid in list(pids):
                if pid in statuses:
                    continue
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    statuses[pid] = st
            if time.time() > hard:
                for pid in pids:
                    if pid not in statuses:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        statuses[pid] = None
            time.sleep(0.02)
        for pid, path in pids.items():
            lines = []
            if os.path.exists(path):
                with open(path) as f:
                    lines = [json.loads(l) for l in f if l.endswith("\n")]
            begun = [l["begin"] for l in lines if "begin" in l]
            end = next((l for l in lines if l.get("end")), None)
            for l in lines:
                if "inconclusive" in l:
                    problems.append(l["inconclusive"])
            st = statuses[pid]
            if end is None:
                spec = specs[begun[-1]] if begun else None
                if st is None:
                    problems.append(f"case did not finish: {spec}")
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (
                    signal.SIGSEGV,
                    signal.SIGABRT,
                    signal.SIGBUS,
                    signal.SIGFPE,
                    signal.SIGILL,
                ):
                    merged["violations"].append(
                        dict(label="crash", spec=spec, detail={"signal": os.WTERMSIG(st)})
                    )
                else:
                    problems.append(f"worker died (status {st}) in case {spec}")
                continue
            for k, v in end["counters"].items():
                merged["counters"][k] = merged["counters"].get(k, 0) + v
            for k, v in end["maxima"].items():
                merged["maxima"][k] = max(merged["maxima"].get(k, 0), v)
            for k, v in end["skipped"].items():
                merged["skipped"][k] = merged["skipped"].get(k, 0) + v
            merged["violations"] += end["violations"]
            merged["known"] += [k for k in end["known"] if k not in merged["known"]]
            merged["done"] += end["done"]
    return merged, problems


def load_known(prop):
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def write_replay(prop, spec, viols):
    d = EVIDENCE / "replay"
    d.mkdir(parents=True, exist_ok=True)
    h = hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10]
    p = d / f"{prop}-{h}.json"
    p.write_text(
        json.dumps(
            dict(
                property=prop,
                spec=spec,
                violations=viols,
                how=f"cd {VERIF} && ./check {prop} --replay {p}",
            ),
            indent=1,
        )
    )
    return p


def main(argv):
    t0 = time.time()
    prop = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module(f"monitors.props.{prop.lower()}")
        setup_import()
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={prop} {e}")
        return 2
    except Exception:
        # a tree that cannot be imported is a build failure, not a verdict
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} the code could not be imported")
        return 2

    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 600)
    deadline = t0 + budget

    if replay:
        spec = json.loads(pathlib.Path(replay).read_text())["spec"]
        ctx = Ctx(prop, tier, seed)
        run_one(mod, ctx, spec)
        for v in ctx.violations:
            print(json.dumps(v, indent=1))
            if "trace" in v["detail"]:
                print(v["detail"]["trace"])
        if ctx.violations:
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print("no violation", ctx.counters)
        return 0

    ctx = Ctx(prop, tier, seed)
    try:
        specs = mod.plan(ctx)
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} the plan could not be made")
        return 2
    n_workers = getattr(mod, "WORKERS", {}).get(tier, 4 if tier == "quick" else 8)
    n_workers = min(n_workers, os.cpu_count() or 1, max(1, len(specs)))
    res, problems = run_pool(mod, prop, tier, seed, specs, n_workers, deadline)

    done = [specs[i] for i in res["done"]]
    distinct = len({signature(s) for s in done} if not getattr(mod, "SEED_DISTINCT", False)
                   else {json.dumps(s, sort_keys=True) for s in done})
    n_eval = sum(v for k, v in res["counters"].items() if k.startswith("oracle:"))
    wall = time.time() - t0

    viols = res["violations"]
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=len(done),
            distinct_nontrivial=distinct,
            rule=getattr(mod, "RULE", ""),
            samples=[done[i] for i in sorted({0, len(done) // 2, len(done) - 1})]
            if done
            else [],
            cases_planned=len(specs),
            cases_out_of_domain=res["skipped"],
            oracle_evaluations=n_eval,
            events_observed=dict(sorted(res["counters"].items())),
            worst_value_over_bound={
                k: float(f"{v:.3g}") for k, v in sorted(res["maxima"].items())
            },
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(viols),
    )
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1))

    print(
        f"{prop} {tier} seed={seed}: {len(done)}/{len(specs)} cases, "
        f"{n_eval} oracle evaluations, {distinct} distinct, {wall:.1f} s"
    )
    for k, v in sorted(res["counters"].items()):
        print(f"  {k}: {v}" + (f"  (worst value/bound {res['maxima'][k[7:]]:.2g})"
                               if k.startswith("oracle:") and k[7:] in res["maxima"] else ""))
    for k, v in res["skipped"].items():
        print(f"  out of domain ({k}): {v}")

    listed = load_known(prop)
    unlisted = [m for m in res["known"] if m not in {e["mechanism"] for e in listed}]
    for m in unlisted:
        viols.append(dict(label=m, spec=None, detail={"note": "not a listed finding"}))

    if viols:
        shown = {}
        for v in viols:
            shown.setdefault(json.dumps(v["spec"], sort_keys=True), []).append(v)
        for s, vs in list(shown.items())[:5]:
            p = write_replay(prop, json.loads(s), vs)
            v = vs[0]
            d = {k: x for k, x in (v["detail"] or {}).items() if k != "trace"}
            print(f"  {v['label']} {json.dumps(d)[:600]}\n    case {s[:600]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    for e in listed:
        if e["mechanism"] in res["known"]:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    if problems:
        for p in problems[:5]:
            print(f"INCONCLUSIVE property={prop} {p}")
        return 2
    if n_eval == 0 or not done:
        print(f"INCONCLUSIVE property={prop} nothing was observed")
        return 2
    return 0
