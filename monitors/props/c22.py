"""C22: command line"""
import contextlib
import hashlib
import io
import os
import pathlib
import runpy
import sys
import tempfile

import numpy as np
import torch

from ..core import Inconclusive, Skip, expand
from ..util import *

RULE = ("random trees of wav files (1-5 files, nested folders, equal names, other files in "
        "between, 2-4 channels, several rates, lengths and sample formats) and random command "
        "lines (file to file, file to folder, folder to new / existing / inner folder, refused "
        "ones: in place, missing, not a wav) are run through the real command in a scratch "
        "folder; the tree is fingerprinted before and after; each output is compared with the "
        "library called on the same file with the same options; non-trivial: at least one file "
        "is written, or the command has to be refused")
ASSUMPTIONS = ["outputs are compared to 16 bit resolution", "no GPU"]
BUDGET = {"quick": 400, "thorough": 800}


def mk(r):
    mode = r.choice(["file", "file", "file_to_dir", "dir", "dir", "dir", "dir_inner", "refuse"])
    mt = r.choice(["laplace", "laplace", "gauss", "nn", "nn", "nmf"])
    algo = r.choice([None, "tiss", "tiss", "ip2", "five"])
    s = dict(mode=mode, mt=mt, algo=algo, nfft=r.choice([64, 128, 256]), hop=r.choice([None, 2, 4]),
             win=r.choice([None, "hann", "hamming"]), n_iter=r.randint(1, 5),
             mic=r.choice([None, 2, 3, 4]), src=r.choice([None, 1, 2]), ref=r.choice([None, 0, 1]),
             taps=r.choice([None, None, 2]), delay=r.choice([None, 1, 2]),
             eps=r.choice([None, None, 1e-7]), meps=r.choice([None, 1e-3]),
             basis=r.choice([None, 3]), quiet=r.random() < 0.5,
             n_files=r.randint(1, 5), refuse=r.choice(["inplace", "inplace_dir", "symlink", "missing",
                                                       "not_wav", "src_mic", "ip2_mic", "beam"]))
    if s["algo"] == "five" and mt == "nn":
        # the extractor gives all the frequencies but DC to the network
        s["mt"] = "laplace"
    if s["algo"] == "ip2":
        s["mic"] = r.choice([None, 2])
        s["taps"] = None
    return s


def plan(ctx):
    return expand("C22", ctx.seed, [mk], ctx.scaled(200, 3000))


def write_wav(g, path, fs, C, L, sub):
    import soundfile

    n = torch.randn(C, L, generator=g, dtype=torch.float64)
    a = torch.repeat_interleave(torch.rand(C, L // 100 + 1, generator=g).double() ** 3, 100, dim=-1)[:, :L]
    A = torch.randn(C, C, generator=g, dtype=torch.float64)
    x = A @ (n * a) + 0.02 * torch.randn(C, L, generator=g, dtype=torch.float64)
    x = 0.2 * x / x.abs().max()
    path.parent.mkdir(parents=True, exist_ok=True)
    soundfile.write(str(path), x.T.numpy(), fs, subtype=sub)


def tree(root):
    out = {}
    for p in sorted(root.rglob("*")):
        if p.is_file() and not p.is_symlink():
            out[str(p.relative_to(root))] = hashlib.sha256(p.read_bytes()).hexdigest()
    return out


def command(argv):
    """runs the command as a program; returns None or the error"""
    old, cwd = sys.argv, os.getcwd()
    out = io.StringIO()
    try:
        sys.argv = ["torchiva.separate"] + [str(a) for a in argv]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_module("torchiva.separate", run_name="__main__")
        return None, out.getvalue()
    except SystemExit as e:
        return (None if e.code in (0, None) else e), out.getvalue()
    except Exception as e:
        return e, out.getvalue()
    finally:
        sys.argv = old
        os.chdir(cwd)


def make_nn(s, d):
    import yaml

    import torchiva as tv

    cfg = dict(n_fft=s["nfft"], hop_length=s["nfft"] // 4, n_taps=s["taps"] or 0, n_delay=1, n_iter=7,
               proj_back_mic=0,
               source_model=dict(name="torchiva.models.GLUMask",
                                 kwargs=dict(n_freq=s["nfft"] // 2 + 1, n_bottleneck=8, dropout_p=0.5)))
    torch.manual_seed(s["seed"])
    sep = tv.nn.BSSSeparator(**cfg)
    d.mkdir(parents=True)
    torch.save(sep.state_dict(), d / "model_weights.ckpt")
    (d / "model_config.yaml").write_text(yaml.safe_dump(cfg))
    return cfg, sep.state_dict()


def expected(s, path, nn, fs_chan):
    """what the library gives for this file with these options"""
    import soundfile

    import torchiva as tv

    x, fs = soundfile.read(str(path), always_2d=True, dtype="float32")
    x = torch.from_numpy(x.T.copy())
    mic, src = s["mic"] or 2, s["src"] or 2
    if s["algo"] == "five":
        src = 1
    x = x[:mic]
    ref = s["ref"] or 0
    if s["mt"] == "nn":
        cfg, state = nn
        kw = dict(cfg, n_iter=s["n_iter"], n_src=src, proj_back_mic=ref)
        if s["algo"]:
            kw["algo"] = s["algo"]
        sep = tv.nn.BSSSeparator(**kw)
        sep.load_state_dict(state)
    else:
        meps = s["meps"]
        model = (tv.models.LaplaceModel(eps=meps) if s["mt"] == "laplace" else
                 tv.models.GaussModel(eps=meps))
        sep = tv.nn.BSSSeparator(n_fft=s["nfft"], n_iter=s["n_iter"],
                                 hop_length=s["nfft"] // s["hop"] if s["hop"] else None, window=s["win"],
                                 n_taps=s["taps"] or 0, n_delay=s["delay"] or 0, n_src=src,
                                 algo=s["algo"] or "tiss", source_model=model, proj_back_mic=ref, eps=s["eps"])
    sep.eval()
    with torch.no_grad():
        y = sep(x)
    if y.shape[0] > src:
        p = y.square().mean(-1)
        y = y[p.argsort(descending=True)[:src]]
    return y, fs, src


def run(ctx, s):
    import soundfile

    g = gen(s["seed"])
    with tempfile.TemporaryDirectory(prefix="verif-cli-") as tmp:
        tmp = pathlib.Path(tmp)
        os.environ["HOME"] = str(tmp / "home")
        (tmp / "home").mkdir()
        src_dir = tmp / "in"
        src_dir.mkdir()
        rnd = lambda n: int(torch.randint(n, (1,), generator=g))
        subs = ["PCM_16", "PCM_16", "FLOAT", "PCM_24"]
        names = ["a.wav", "sub/a.wav", "sub/deep/b c.wav", "other/a.wav", "z.v2.wav"]
        n_files = s["n_files"] if s["mode"].startswith("dir") else 1
        min_chan = s["mic"] or 2
        files = []
        for k in range(n_files):
            p = src_dir / names[(k + rnd(2)) % 5 if n_files == 1 else k]
            C = 2 if s["algo"] == "ip2" and rnd(2) else max(2, min_chan + rnd(2) - (rnd(3) == 0))
            if rnd(4) == 0:
                C += min_chan + rnd(3)  # many more microphones than requested
            if s["algo"] == "ip2":
                C = max(2, C)
            write_wav(g, p, [8000, 16000, 44100][rnd(3)], C, 3000 + rnd(3000), subs[rnd(4)])
            files.append(p)
        (src_dir / "notes.txt").write_text("not a sound")
        nn = make_nn(s, tmp / "model") if s["mt"] == "nn" else None
        opts = ["-n", s["n_iter"], "--model-type", s["mt"]]
        if s["mt"] == "nn":
            opts += ["--model-path", tmp / "model"]
        else:
            opts += ["--nfft", s["nfft"]]
            if s["hop"]:
                opts += ["--hop", s["nfft"] // s["hop"]]
            for k, o in (("win", "--win"), ("taps", "--taps"), ("delay", "--delay"), ("eps", "--eps"),
                         ("meps", "--model-eps")):
                if s[k] is not None:
                    opts += [o, s[k]]
            if s["mt"] == "nmf" and s["basis"]:
                opts += ["--n-basis", s["basis"]]
        for k, o in (("mic", "-m"), ("src", "-s"), ("ref", "--ref"), ("algo", "--algo")):
            if s[k] is not None:
                opts += [o, s[k]]
        if s["quiet"]:
            opts += ["-q"]
        before = tree(tmp)
        ctx.event("mode " + s["mode"])

        if s["mode"] == "refuse":
            k = s["refuse"]
            a, b = files[0], tmp / "o.wav"
            if k == "inplace":
                b = a.parent / "." / a.name
            elif k == "inplace_dir":
                a, b = src_dir, src_dir / "x" / ".."
            elif k == "symlink":
                b = tmp / "link.wav"
                b.symlink_to(a)
            elif k == "missing":
                a = src_dir / "none.wav"
            elif k == "not_wav":
                a = src_dir / "notes.txt"
            elif k == "src_mic":
                opts += ["-s", 3, "-m", 2]
            elif k == "ip2_mic":
                opts += ["--algo", "ip2", "-m", 3]
            elif k == "beam":
                if s["mt"] == "nn":
                    raise Skip("needs a classic model")
                opts += ["--algo", "mvdr"]
            if k == "inplace_dir":
                (src_dir / "x").mkdir()
            err, out = command([a, b] + opts)
            ctx.expect(err is not None, f"refused ({k})", output=out[-500:])
            ctx.expect(tree(tmp) == before, f"nothing is written when refused ({k})")
            return

        if s["mode"] == "file":
            b = tmp / "out.wav"
            want = {files[0]: b}
            err, out = command([files[0], b] + opts)
        elif s["mode"] == "file_to_dir":
            b = tmp / "out"
            b.mkdir()
            want = {files[0]: b / files[0].name}
            err, out = command([files[0], b] + opts)
        else:
            b = src_dir / "separated" if s["mode"] == "dir_inner" else tmp / "new" / "out"
            if s["mode"] == "dir_inner" and rnd(2):
                # results of an earlier run are not inputs
                write_wav(g, b / "old.wav", 8000, max(2, min_chan), 3000, "PCM_16")
                before = tree(tmp)
            want = {p: b / p.relative_to(src_dir) for p in files}
            err, out = command([src_dir, b] + opts)
        if not ctx.expect(err is None, "the command succeeds", error=repr(err)[:300], output=out[-800:]):
            return
        told = [p.name for p in want if p.name in out]
        ctx.expect(not told if s["quiet"] else len(told) == len(want), "files are named unless quiet",
                   quiet=s["quiet"], output=out[-500:])
        after = tree(tmp)
        changed = sorted(k for k in before if after.get(k) != before[k])
        ctx.expect(not changed, "existing files are untouched", changed=changed)
        new = sorted(k for k in after if k not in before)
        exp = sorted(str(p.relative_to(tmp)) for p in want.values())
        if s["mode"].startswith("dir"):
            # any layout is fine as long as there is one output per input
            if not ctx.expect(len(new) == len(want) and all(
                    str(b.relative_to(tmp)) in k for k in new), "one output per input", new=new, want=exp):
                return
        elif not ctx.expect(new == exp, "one output per input", new=new, want=exp):
            return
        outs = {k: soundfile.read(str(tmp / k), always_2d=True) for k in new}
        left = dict(outs)
        for p, o in want.items():
            info = soundfile.info(str(p))
            nsrc = 1 if s["algo"] == "five" else (s["src"] or 2)
            k = str(o.relative_to(tmp))
            if s["mt"] == "nmf":
                if k in outs:
                    y, fs = outs[k]
                    ctx.expect(fs == info.samplerate and y.shape == (info.frames, nsrc), "rate, length, channels",
                               got=[fs, list(y.shape)], want=[info.samplerate, info.frames, nsrc])
                continue
            z, fs_z, nsrc = expected(s, p, nn, None)
            z = z.numpy().T
            if np.abs(z).max() >= 1.0:
                ctx.event("clipped")
                z = np.clip(z, -1, 1)
            ctx.event("files compared")
            # the file of the same name, otherwise any file with this content
            cand = [k] if k in left else list(left)
            best = None
            for c in cand:
                y, fs = left[c]
                if fs == info.samplerate and y.shape == (info.frames, nsrc) and y.shape == z.shape:
                    d = np.abs(y - z).max()
                    best = (d, c) if best is None or d < best[0] else best
            if not ctx.expect(best is not None, "rate, length, channels", file=str(p.name),
                              want=[info.samplerate, info.frames, nsrc],
                              got=[[left[c][1], list(left[c][0].shape)] for c in cand]):
                continue
            left.pop(best[1])
            ctx.check(best[0], 4e-5 + 1e-4 * np.abs(z).max(), "same as the library", file=str(p.name))
