"""Source of properties.jsonl and MANIFEST.json (run it after a change: python3 tools/props.py)"""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parents[1]
T = "torchiva/"
A = "configurations"
PROPS = {}


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, level_note=None,
         technique=None):
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[f if "/" in f and f.startswith("examples") else T + f for f in files],
                     mechanism=[dict(name=n, where=w if w.startswith("examples") else T + w) for n, w in mech],
                     observe_at=observe or ["return values of the public calls"],
                     hook_needed=None))
    PROPS[id]["_m"] = (technique, level_note)


I = ["inputs", "configurations"]

prop("C01", "Separated images add up to the reference microphone",
     "When a determined separator (as many sources as microphones, no dereverberation taps needed) is asked to restore the scale on a reference microphone, the separated signals add up to the signal of that very microphone, up to the small regularisation of the solver; with dereverberation taps they add up to the reference minus a linear function of the delayed past. This holds for every mixture, batch shape, number of iterations and reference, in the STFT domain and for the waveforms of the whole separator.",
     I, "all determined mixtures, batch shapes, iteration counts, reference microphones",
     "the tests compare shapes and run a few fixed seeds; the identity is for every signal, reference and configuration",
     ["scaling.py", "t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "nn.py"],
     [("projection back", "scaling.py"), ("scale restoration at the end of each separator", "t_iss.py")],
     technique="runtime monitor: conservation oracle on outputs of randomised runs of the real separators")
prop("C02", "Outputs are time-invariant linear filters of the microphones",
     "Every separator and beamformer with a time-invariant filter computes each output, in each frequency, as a linear combination (fixed over the frames) of the microphone signals of that same frequency and, with dereverberation taps, of exactly the admissible delayed frames. Nothing leaks between frequencies or from future frames through the filter, and the single-source extractor sets the DC bin to zero.",
     I, "all signals, channel counts, taps and delays, batch shapes",
     "tests never look at the structure of the outputs",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py"],
     [("demixing", "t_iss.py"), ("filters", "beamformer.py"), ("delayed frames", "linalg.py")],
     technique="runtime monitor: regression oracle recovering the filters from observed inputs and outputs")
prop("C03", "A batch gives the same as its elements one by one",
     "For every public separator, beamformer, transform, scaling function, source model and helper, the result for an element of a batch is the result of processing that element alone, whatever the number and sizes of the leading dimensions and whatever the other elements contain. In particular no statistics, normalisation, pivoting or stopping is shared between elements (the stopping rule of the iterative rescaling excepted).",
     I, "all batch shapes (0-3 leading dimensions) and all contents of the other elements",
     "tests use one batch shape with homogeneous elements and check sizes only",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "stft.py", "linalg.py", "models/simple.py", "models/classic.py"],
     [("all the operations act on the trailing dimensions", "linalg.py")],
     technique="runtime monitor: differential oracle batch vs single element")
prop("C04", "Call-time parameters act like constructor parameters and never stick",
     "Calling a separator with a parameter overridden gives exactly what a fresh object built with that parameter gives, for every combination of overridden parameters. The override holds for that call only: a history of calls leaves the parameters of the object unchanged and each result depends on its own arguments only.",
     ["histories", "configurations", "inputs"], "all histories of calls, subsets of overridden parameters",
     "tests call each object once, with constructor parameters",
     ["base.py", "parameters.py", "t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "nn.py"],
     [("resolution of the parameters", "parameters.py"), ("resolution in the base classes", "base.py")],
     technique="runtime monitor: history checker comparing each call of a random history with a fresh object")
prop("C05", "Calls never modify what the caller owns, nor any global state",
     "No public call (nor the backward pass of its result) writes in the memory of its input tensors, of the parameters and buffers of the caller's models or of an earlier result, and the result shares no memory with the inputs. Global state (random generators, default type, gradient mode, threads) and the mode of the models are left alone, and the same call gives the same result again.",
     ["inputs", "histories", "configurations"], "all inputs, including views in larger buffers, and sequences of calls",
     "tests never compare inputs before and after",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "stft.py", "linalg.py", "nn.py", "utils.py", "fftconvolve.py"],
     [("copies made before in-place updates", "t_iss.py"), ("copies", "auxiva_ip.py")],
     ["memory writes of every tensor operation", "fingerprints of storages and global state"],
     technique="tensor-operation write sanitizer (dispatch mode) and memory fingerprints")
prop("C06", "Results depend on the values of the inputs, not on their memory layout",
     "Every public call gives the same result for tensors with the same values in any memory layout: permuted strides, views in larger buffers, lazily conjugated or broadcast inputs. Nothing outside of the given view is ever read.",
     I, "all strided layouts of all inputs",
     "tests use freshly allocated contiguous tensors",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "stft.py", "linalg.py", "fftconvolve.py"],
     [("strided views", "linalg.py")],
     technique="sanitizer with NaN guard bands around views, differential oracle over layouts")
prop("C07", "One object can be used by several threads at the same time",
     "When several threads call the same separator, beamformer or transform at the same time, each on its own signal and with its own call-time parameters, each gets the result it would get alone, provided the source model has no shared state. This holds for every interleaving of the calls.",
     ["schedules", "configurations"], "all interleavings of 2-5 concurrent calls",
     "tests are single threaded",
     ["base.py", "parameters.py", "t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "stft.py", "nn.py"],
     [("parameters and state kept in local variables", "base.py")],
     ["callbacks to the source model (scheduling points)", "return values"],
     technique="schedule-controlled concurrent runs with a per-call linearizability-style oracle")
prop("C08", "Memory-saving backpropagation changes neither results nor gradients",
     "Turning on the demixing matrix checkpointing of the separator trades memory for computation only: outputs and gradients with respect to the input and to all the parameters of the source model are the same as without it. This includes models with dropout, overdetermined separation, dereverberation taps and all batch shapes.",
     I, "all mixtures, differentiable models, taps, numbers of sources, iteration counts",
     "one configuration is tested, with a loose tolerance",
     ["t_iss.py"], [("checkpointing of the demixing matrix", "t_iss.py")],
     ["outputs", "gradients"],
     technique="runtime monitor: differential oracle on outputs and gradients")
prop("C09", "Gradients are those of the computed function",
     "Wherever a public call is differentiable, the derivatives given by automatic differentiation, with respect to the input signal and to the parameters of the models, are finite and are those of the function that is computed. Training a model through any separator, beamformer, transform or rescaling therefore follows the true gradient.",
     I, "all directions, inputs in general position, and differentiable paths",
     "tests check that backward runs, not its values",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "stft.py", "linalg.py", "fftconvolve.py"],
     [("custom backward passes", "linalg.py"), ("checkpointed backward", "t_iss.py")],
     ["gradients"],
     technique="runtime monitor: finite-difference oracle on gradients")
prop("C10", "Iterations never increase the separation objective",
     "With the spherical Laplace and Gauss source models, no iteration of the determined separators increases the negative log-likelihood they minimise (beyond the effect of their regularisation), for every mixture, with and without dereverberation taps. With enough iterations the demixing matrices reach a stationary point of that objective.",
     I, "all determined mixtures and iteration counts",
     "no test evaluates the objective",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "linalg.py", "models/simple.py"],
     [("auxiliary-function updates", "t_iss.py"), ("iterative projection", "auxiva_ip.py"), ("pairwise update", "auxiva_ip2.py")],
     ["estimates given to the source model at every iteration", "outputs"],
     technique="online trace monitor of the objective along the iterations")
prop("C11", "Separation works: the sources of a mixture are recovered",
     "From a mixture of independent non-Gaussian sources (well conditioned mixing per frequency, enough frames), every blind separator and the extractor recover the image of each source at the reference microphone, in one order common to all frequencies, with a signal-to-interference ratio far above that of the mixture. The recorded mixtures shipped with the library are improved as well.",
     I, "all well-posed mixtures, methods, models, numbers of sources and microphones",
     "tests on separation quality are absent or limited to one example",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "models/simple.py", "models/classic.py", "scaling.py", "nn.py"],
     [("update rules", "t_iss.py"), ("source models", "models/simple.py")],
     technique="runtime monitor: ground-truth SIR oracle on randomised mixtures")
prop("C12", "Dereverberation removes what the past predicts, and nothing else",
     "Dereverberation subtracts from each microphone a linear function of the frames that precede it by at least the delay (the first frames, which have no such past, are left alone), such that the residual is uncorrelated with that past under the weights in use; each iteration increases the likelihood. An autoregressive reverberation of matching order is undone.",
     I, "all signals with 1-6 channels, taps, delays, batch shapes, weights",
     "tests only run it and check the shape",
     ["wpe.py", "linalg.py"], [("weighted prediction", "wpe.py"), ("view of delayed frames", "linalg.py")],
     technique="runtime monitor: orthogonality, likelihood and ground-truth oracles")
prop("C13", "With more microphones than sources, outputs and background decorrelate",
     "When fewer sources than microphones are requested, exactly that many independent outputs are returned for any reference microphone, and at convergence what remains at the microphones (the background) is uncorrelated with the outputs. The choice of the reference changes each output by one factor per frequency only, asking for all the channels is the same as the default, and asking for more is refused.",
     I, "all mixtures with 2-6 channels and 1 to C-1 sources, taps, references",
     "tests check the shapes for one configuration",
     ["t_iss.py", "auxiva_ip.py", "scaling.py"],
     [("background update", "t_iss.py"), ("orthogonal constraint", "auxiva_ip.py")],
     technique="runtime monitor: decorrelation oracle on outputs recovered filters")
prop("C14", "The MVDR beamformer is distortionless and minimises the noise power",
     "For every set of masks, the MVDR filter of each target and frequency leaves the direction of the relative transfer function (dominant generalised eigenvector of target and noise covariance matrices, normalised at the reference) undistorted and has the least noise power among all such filters; with three masks the third one defines the noise of the transfer function only. The covariance-based variant follows its closed form, and the power method converges to the same as the full decomposition.",
     I, "all signals, masks, numbers of targets, references, variants",
     "tests only compare shapes",
     ["beamformer.py", "linalg.py"], [("relative transfer function and filters", "beamformer.py"), ("GEVD", "linalg.py")],
     ["masks given by the model", "outputs"],
     technique="runtime monitor: optimality oracle on filters recovered by regression")

exec(open(pathlib.Path(__file__).with_name("props2.py")).read()) if pathlib.Path(
    __file__).with_name("props2.py").exists() else None

NOT_APPLICABLE = []

if __name__ == "__main__":
    have = [p for k, p in sorted(PROPS.items()) if (V / "monitors/props" / f"{k.lower()}.py").exists()]
    with open(V / "properties.jsonl", "w") as f:
        for p in have:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']}",
                     thorough_cmd=f"./check {p['id']} --thorough",
                     technique=p["_m"][0], level="exploration",
                     level_note=p["_m"][1] or "randomised executions of the real code watched by monitors; see the evidence file for the numbers of cases, events and oracle evaluations")
                for p in have],
        not_applicable=NOT_APPLICABLE,
        notes="No hooks in /repo: the instrumentation is attached from outside (tensor dispatch mode, callbacks given to the library, child processes).",
    )
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(have), "properties", [k for k in PROPS if not (V / "monitors/props" / f"{k.lower()}.py").exists()])
