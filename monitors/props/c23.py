"""C23: loading models"""
import contextlib
import http.server
import io
import os
import pathlib
import shutil
import signal
import socket
import tempfile
import threading
import time

import torch

from ..core import Inconclusive, Skip, expand
from ..util import *

RULE = ("random models (several networks, random weights and configurations) are exported and loaded "
        "from folders and from a loopback web server that follows a random script: good, 404, "
        "500, truncated bodies, dropped connections, stalls; loads are repeated, made from "
        "several threads and processes at once, or killed at a random point of the download; "
        "every load either fails or gives a separator with exactly the exported weights and "
        "the requested configuration, and a load succeeds whenever the server works (or the "
        "model was loaded before); non-trivial: at least one load succeeds")
ASSUMPTIONS = ["the network is a loopback server; the home directory is a scratch folder",
               "a body cut short is announced by its Content-Length"]
BUDGET = {"quick": 400, "thorough": 800}


def mk(r):
    kind = r.choice(["local", "local_bad", "local_bad", "faults", "faults", "kill", "kill", "processes",
                     "threads", "same_name", "offline"])
    return dict(kind=kind, net=r.choice(["glu", "blstm", "laplace", "mvdr"]), nfft=r.choice([32, 64]),
                n_iter=r.randint(1, 9), taps=r.randint(0, 3),
                over=r.choice([{}, {"n_iter": 3}, {"n_taps": 0, "n_delay": 2}, {"algo": "tiss", "n_src": 2},
                               {"hop_length": 8}, {"proj_back_mic": 1}, {"use_dmc": True}]),
                script=[r.choice(["ok", "ok", "404", "500", "short", "drop", "empty"]) for _ in range(r.randint(1, 6))],
                frac=r.choice([0.0, 0.01, 0.5, 0.97, 1.0]), which=r.choice(["ckpt", "yaml"]),
                workers=r.randint(2, 5), slash=r.random() < 0.3, bad=r.choice(
                    ["missing", "file", "no_ckpt", "no_yaml", "scheme", "less", "more", "other", "cut",
                     "unknown"]), pathobj=r.random() < 0.3)


def plan(ctx):
    return expand("C23", ctx.seed, [mk], ctx.scaled(160, 3000))


def export(s, d, seed):
    import yaml

    import torchiva as tv

    F = s["nfft"] // 2 + 1
    sm = {
        "glu": dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=F, n_bottleneck=6, dropout_p=0.1)),
        "blstm": dict(name="torchiva.models.BLSTMMask", kwargs=dict(n_freq=F, n_bottleneck=4, n_hidden=4)),
        "laplace": dict(name="torchiva.models.LaplaceModel", kwargs=dict(eps=1e-4)),
        "mvdr": dict(name="torchiva.models.MaskMVDRSupport", kwargs=dict(n_src=2, n_masks=3, n_input=F, n_hidden=4)),
    }[s["net"]]
    cfg = dict(n_fft=s["nfft"], hop_length=s["nfft"] // 2, n_iter=s["n_iter"], n_taps=s["taps"], n_delay=1,
               source_model=sm, algo="mvdr" if s["net"] == "mvdr" else "tiss")
    torch.manual_seed(seed)
    sep = tv.nn.BSSSeparator(**cfg)
    with torch.no_grad():
        for p in sep.parameters():
            p.add_(0.1 * torch.randn_like(p))
        for b in sep.source_model.buffers():
            if b.is_floating_point():
                b.add_(0.1 * torch.rand_like(b))
    d.mkdir(parents=True, exist_ok=True)
    torch.save(sep.state_dict(), d / "model_weights.ckpt")
    (d / "model_config.yaml").write_text(yaml.safe_dump(cfg))
    return cfg, {k: v.clone() for k, v in sep.state_dict().items()}


def same_state(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


class Server:
    """serves a folder following a script of faults"""

    def __init__(self, root):
        self.root, self.lock = pathlib.Path(root), threading.Lock()
        self.script, self.log = [], []
        self.stall = None  # (suffix, fraction, event set when reached)
        self.delay = 0.0
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                outer.handle(self)

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, *a):
                pass

        self.httpd = S(("127.0.0.1", 0), H)
        self.port = self.httpd.server_address[1]
        self.thread = threading.Thread(target=self.httpd.serve_forever, args=(0.02,), daemon=True)
        self.thread.start()

    def close(self):
        self.httpd.shutdown()
        self.httpd.server_close()

    def handle(self, h):
        with self.lock:
            act = self.script.pop(0) if self.script else "ok"
            self.log.append((h.path, act))
        f = self.root / h.path.lstrip("/").replace("//", "/")
        if act in ("404", "500") or not f.is_file():
            h.send_error(int(act) if act.isdigit() else 404)
            return
        body = f.read_bytes()
        if act == "drop":
            h.connection.shutdown(socket.SHUT_RDWR)
            return
        h.send_response(200)
        h.send_header("Content-Length", str(len(body)))
        h.end_headers()
        if act == "short":
            body = body[: len(body) // 2]
        elif act == "empty":
            body = b""
        with contextlib.suppress(OSError):
            if self.stall and h.path.endswith(self.stall[0]):
                n = int(len(body) * self.stall[1])
                h.wfile.write(body[:n])
                h.wfile.flush()
                self.stall[2].set()
                time.sleep(20)
                return
            if self.delay:
                k = max(1, len(body) // 4)
                for i in range(0, len(body), k):
                    h.wfile.write(body[i:i + k])
                    h.wfile.flush()
                    time.sleep(self.delay)
            else:
                h.wfile.write(body)


def load(path, **kw):
    import torchiva as tv

    with contextlib.redirect_stdout(io.StringIO()):
        return tv.load_separator(path, **kw)


def judge(ctx, sep, cfg, state, over, label):
    ctx.event("loads succeeded")
    ok = ctx.expect(same_state(sep.state_dict(), state) if not {"n_fft", "window"} & set(over) else True,
                    f"weights ({label})")
    eff = dict(cfg, **over)
    st = sep.stft
    got = dict(n_fft=st.n_fft, hop_length=st.hop_length, n_iter=sep.n_iter, algo=sep.algo)
    for k, v in (("n_taps", "n_taps"), ("n_delay", "n_delay"), ("proj_back_mic", "proj_back_mic"), ("use_dmc", "use_dmc")):
        if hasattr(sep.separator, v):
            got[k] = getattr(sep.separator, v)
    bad = {k: (got[k], eff[k]) for k in got if k in eff and got[k] != eff[k]}
    ctx.expect(not bad, f"configuration ({label})", bad=bad)
    ctx.expect(type(sep.source_model).__name__ == cfg["source_model"]["name"].split(".")[-1], f"network ({label})")
    return ok


def run(ctx, s):
    with tempfile.TemporaryDirectory(prefix="verif-load-", ignore_cleanup_errors=True) as tmp:
        tmp = pathlib.Path(tmp)
        home = tmp / "home"
        home.mkdir()
        os.environ["HOME"] = str(home)
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
            os.environ.pop(k, None)
        os.environ["no_proxy"] = "*"
        socket.setdefaulttimeout(30)
        ctx.event("kind " + s["kind"])
        over = dict(s["over"])
        if s["net"] == "mvdr":
            over.pop("algo", None)
        if s["kind"] == "local":
            cfg, state = export(s, tmp / "m", s["seed"])
            p = tmp / "m"
            judge(ctx, load(str(p), **over), cfg, state, over, "folder")
            judge(ctx, load(str(p)), cfg, state, {}, "folder, no override")
            import torchiva as tv

            sep = tv.load_separator_model(p / "model_weights.ckpt", str(p / "model_config.yaml"), **over)
            judge(ctx, sep, cfg, state, over, "files")
            # the loaded separator gives the same output
            x = torch.randn(2, 40 * s["nfft"], generator=gen(s["seed"]))
            a, b = load(str(p)).eval(), tv.nn.BSSSeparator(**cfg)
            b.load_state_dict(state)
            with torch.no_grad():
                ya, yb = a(x), b.eval()(x)
            ctx.expect(torch.equal(torch.nan_to_num(ya), torch.nan_to_num(yb)), "same output")
            return
        if s["kind"] == "local_bad":
            cfg, state = export(s, tmp / "m", s["seed"])
            p = str(tmp / "m")
            if s["bad"] == "missing":
                p = str(tmp / "none")
            elif s["bad"] == "file":
                p = str(tmp / "m" / "model_config.yaml")
            elif s["bad"] == "no_ckpt":
                (tmp / "m" / "model_weights.ckpt").unlink()
            elif s["bad"] == "no_yaml":
                (tmp / "m" / "model_config.yaml").unlink()
            elif s["bad"] == "scheme":
                p = "ftp://127.0.0.1:1/m"
            elif s["bad"] in ("less", "more", "other", "cut"):
                ck = tmp / "m" / "model_weights.ckpt"
                keys = [k for k in state if k.startswith("source_model.") and not k.endswith("num_batches_tracked")]
                if not keys and s["bad"] in ("less", "other"):
                    raise Skip("no weights")
                bad = dict(state)
                if s["bad"] == "less":
                    bad.pop(keys[s["seed"] % len(keys)])
                elif s["bad"] == "more":
                    bad["source_model.not_there.weight"] = torch.zeros(3)
                elif s["bad"] == "other":
                    k = keys[s["seed"] % len(keys)]
                    bad[k] = torch.zeros(tuple(bad[k].shape) + (2,))
                torch.save(bad, ck)
                if s["bad"] == "cut":
                    ck.write_bytes(ck.read_bytes()[: int(ck.stat().st_size * s["frac"] * 0.9)])
            if s["bad"] in ("less", "more", "other", "cut", "unknown"):
                # weights that do not fit, unknown options: never a model with other contents
                kw = {"not_an_option": 1} if s["bad"] == "unknown" else over
                try:
                    load(p, **kw)
                except Exception:
                    ctx.expect(True, f"refused ({s['bad']})")
                else:
                    ctx.fail(f"refused ({s['bad']})")
                return
            try:
                load(p)
                ctx.fail(f"refused ({s['bad']})")
            except ValueError:
                ctx.expect(True, f"refused ({s['bad']})")
            return

        root = tmp / "www"
        cfg, state = export(s, root / "a" / "net", s["seed"])
        srv = Server(root)
        try:
            url = f"http://127.0.0.1:{srv.port}/a/net" + ("/" if s["slash"] else "")
            if s["kind"] == "faults":
                srv.script = list(s["script"])
                for k in range(len(s["script"]) + 2):
                    faulty = any(a != "ok" for a in srv.script)
                    try:
                        sep = load(url, **over)
                    except Exception as e:
                        ctx.event("loads failed")
                        ctx.expect(faulty, "load works when the server works", error=repr(e)[:300], k=k)
                        continue
                    judge(ctx, sep, cfg, state, over, "url after faults")
                ctx.event("requests", len(srv.log))
            elif s["kind"] == "offline":
                judge(ctx, load(url, **over), cfg, state, over, "url")
                srv.script = ["500"] * 50
                judge(ctx, load(url), cfg, state, {}, "url, second time, server down")
            elif s["kind"] == "same_name":
                cfg2, state2 = export(dict(s, n_iter=s["n_iter"] + 1), root / "b" / "net", s["seed"] + 1)
                url2 = f"http://127.0.0.1:{srv.port}/b/net"
                for u, c, st in ((url, cfg, state), (url2, cfg2, state2), (url, cfg, state), (url2, cfg2, state2)):
                    judge(ctx, load(u), c, st, {}, "two models of the same name")
            elif s["kind"] == "kill":
                reached = threading.Event()
                srv.stall = ({"ckpt": ".ckpt", "yaml": ".yaml"}[s["which"]], s["frac"], reached)
                pid = os.fork()
                if pid == 0:
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            load(url)
                    except BaseException:
                        pass
                    os._exit(0)
                hit = reached.wait(20)
                time.sleep(0.02)
                with contextlib.suppress(ProcessLookupError):
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                if not hit:
                    raise Inconclusive("the download never started")
                ctx.event("downloads killed")
                srv.stall = None
                for _ in range(2):
                    try:
                        sep = load(url, **over)
                    except Exception as e:
                        ctx.fail("load works after a killed download", error=repr(e)[:300])
                        return
                    judge(ctx, sep, cfg, state, over, "url after a killed download")
            elif s["kind"] == "processes":
                srv.delay = 0.01
                pids = []
                for w in range(s["workers"]):
                    pid = os.fork()
                    if pid == 0:
                        code = 3
                        signal.alarm(60)
                        try:
                            time.sleep(0.005 * w)
                            sep = load(url)
                            code = 0 if same_state(sep.state_dict(), state) and sep.n_iter == cfg["n_iter"] else 1
                        except BaseException:
                            code = 2
                        os._exit(code)
                    pids.append(pid)
                codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
                if -signal.SIGALRM in codes:
                    raise Inconclusive("a forked load did not finish")
                ctx.event("concurrent loads", len(codes))
                ctx.expect(all(c == 0 for c in codes), "concurrent processes", codes=codes)
                judge(ctx, load(url), cfg, state, {}, "after concurrent loads")
            elif s["kind"] == "threads":
                srv.delay = 0.01
                res = [None] * s["workers"]
                import torchiva as tv

                def work(i):
                    try:
                        res[i] = tv.load_separator(url)
                    except Exception as e:
                        res[i] = e

                with contextlib.redirect_stdout(io.StringIO()):
                    ts = [threading.Thread(target=work, args=(i,)) for i in range(s["workers"])]
                    [t.start() for t in ts]
                    [t.join() for t in ts]
                ctx.event("concurrent loads", len(res))
                for x in res:
                    if isinstance(x, Exception):
                        ctx.fail("concurrent threads", error=repr(x)[:300])
                    else:
                        judge(ctx, x, cfg, state, {}, "concurrent threads")
        finally:
            srv.close()
