prop("C15", "The multichannel Wiener filter is the minimum mean square error filter",
     "For every set of masks, the Wiener beamformer outputs the linear estimate of each target at the reference microphone that minimises the mean square error under the covariance matrices defined by the masks (up to the small diagonal loading); the time-varying variant does so in every frame with the covariances weighted by its activity masks. With masks that share the mixture between the targets, the time-invariant outputs add up to the reference microphone.",
     I, "all signals, masks, numbers of targets, references, levels", "tests only compare shapes",
     ["beamformer.py", "linalg.py"], [("Wiener filter", "beamformer.py"), ("regularised solver", "linalg.py")],
     ["masks given by the model", "outputs"],
     technique="runtime monitor: reference filter from the observed masks")
prop("C16", "The GEV beamformer maximises the SNR and has the scale of the reference",
     "For every set of masks, the filter of each target and frequency attains the largest possible ratio of target to noise power under the masks. It is scaled so that what is left of the reference microphone after subtracting the output is uncorrelated with the output under these covariances.",
     I, "all signals, masks, numbers of targets, references, levels", "tests only compare shapes",
     ["beamformer.py", "linalg.py"], [("GEV filter", "beamformer.py"), ("GEVD", "linalg.py")],
     ["masks given by the model", "outputs"],
     technique="runtime monitor: optimality oracle on filters recovered by regression")
prop("C17", "The extractor minimises the weighted power and keeps the reference scale",
     "The single-source extractor returns, in each frequency but DC (which is zero), the unit-power combination of the microphones with the smallest power under the last weights given by the source model, scaled to its image at the reference: the remainder of the reference is uncorrelated with the output. Iterations compose (the estimate of iteration k is what iteration k+1 starts from), no iteration gives the principal component, and the power method converges to the same solution.",
     I, "all mixtures, channel counts, models, references, iteration counts", "tests only compare shapes",
     ["five.py", "linalg.py"], [("whitening, smallest eigenvector, scale", "five.py")],
     ["weights given by the source model", "outputs"],
     technique="runtime monitor: optimality and orthogonality oracles on observed weights and filters")
prop("C18", "Eigenvalue decompositions are correct for every Hermitian input",
     "For every Hermitian (or real symmetric) matrix, alone or with a positive definite second matrix, the library's (generalised) eigenvalue decomposition returns real eigenvalues in ascending order, unit-norm eigenvectors that satisfy the eigenvalue equation, and eigenvectors orthogonal with respect to the second matrix, also for (nearly) repeated eigenvalues, diagonal matrices, indefinite or singular matrices, and any scale or batch. This includes the closed form for 2x2 matrices.",
     ["inputs"], "all Hermitian matrices of size 2-8, scales 1e-6 to 1e6, single and double precision",
     "tests use random well-separated positive definite matrices only",
     ["linalg.py"], [("eigenvalue decompositions", "linalg.py")],
     technique="runtime monitor: LAPACK reference and residual oracles")
prop("C19", "Linear algebra helpers compute their definition",
     "Regularised division, mixed real and complex products, magnitudes, matrix products, conjugate transposes, regularised solutions and inverses, the 2x2 inverse, diagonal loading and the Hankel view agree with their mathematical definition, up to rounding and to the stated regularisation, for every size, batch, type and scale. The type of the input is kept, and singular systems stay finite where a regularisation is stated, with a loading relative to the largest coefficient of the matrix (at least one).",
     ["inputs"], "all sizes 1-8, batches, real or complex, single or double, scales",
     "tests cover a few sizes of a few helpers",
     ["linalg.py", "dtypes.py"], [("helpers", "linalg.py")],
     technique="runtime monitor: definition oracle (numpy)")
prop("C20", "The STFT follows its definition and its inverse reconstructs the signal",
     "The transform of a signal is, for every frame size, hop, window (by name or custom, kept as given), type and batch, the Fourier transform of its windowed centred frames with reflected edges, with n_fft/2+1 frequencies. The inverse reconstructs the samples covered by the frames exactly whenever the windows do not vanish together, and is the normalised overlap-add for any spectrogram.",
     I, "all signals, lengths, frame sizes, hops, windows, types", "tests use two configurations",
     ["stft.py"], [("transform and inverse", "stft.py")],
     technique="runtime monitor: definition and round-trip oracles")
prop("C21", "The waveform separator is STFT, algorithm, inverse STFT, same length",
     "For every algorithm and parameter, the time-domain separator gives exactly what the chain of STFT, the algorithm built with the same parameters, and inverse STFT gives, padded with zeros or cut to the length of the input, with the documented number of outputs and the type of the input. Successive calls with other signals and lengths do not influence each other, source models can be given as objects or by name and arguments, and stateful models are reset.",
     ["inputs", "configurations", "histories"], "all waveforms, lengths, algorithms, parameters, sequences of calls",
     "tests run a few configurations and check shapes",
     ["nn.py", "stft.py", "utils.py"], [("time domain separator", "nn.py"), ("instantiation by name", "utils.py")],
     technique="runtime monitor: differential oracle against the chain")
prop("C22", "The command line writes one faithful output per input and nothing else",
     "Separating a file or a folder (with sub-folders, equal names, other files, output inside the input) writes exactly one output per input wav file, with its sampling rate and length, the requested number of channels, and the samples the library gives with the same options (all options honoured, inference mode, at most the requested microphones). No input or other existing file is modified, and commands that would overwrite the input or are inconsistent are refused before anything is written.",
     ["inputs", "configurations"], "all trees of files, formats, option combinations",
     "tests never run the command",
     ["separate.py", "nn.py", "utils.py"], [("command line", "separate.py")],
     ["file system before and after", "contents of the outputs"],
     technique="runtime monitor: file-system fingerprints and differential oracle on outputs in a scratch folder")
prop("C23", "Loading a model gives exactly its weights, despite faults, crashes and races",
     "Loading an exported model from a folder or URL gives exactly its weights, its network and its configuration with the requested overrides, or fails: never a model with other or partial contents. After failed, truncated or killed downloads a later load succeeds as soon as the server works, concurrent loads all succeed, a model loaded once is available offline, and models of the same name at different URLs do not mix; missing or incomplete folders, damaged files, weights that do not fit the network and unknown options are refused.",
     ["fault_sequences", "crash_points", "schedules", "configurations"],
     "all scripts of server faults, kill points of the download, concurrent loads, overrides",
     "tests load one model, without faults",
     ["loader.py", "nn.py", "utils.py"], [("download and cache", "loader.py")],
     ["HTTP requests seen by the server", "state of the loaded separators"],
     technique="fault injection (loopback server, SIGKILL, concurrency) with state oracle")
prop("C24", "Scale restoration applies the optimal factor per source and frequency",
     "Every rescaling function multiplies each source and frequency by one factor only: the projection recovers the contributions of the sources to a reference that is their sum, the minimum distortion factor makes the residual orthogonal to the source, the p and mixed p,q norm variants decrease their norm in every iteration and converge to a stationary point of it, with a model each step is the least-squares solution weighted by the answer of the model for the current residual, and the phase variant only changes the phase so that the correlation with the reference is positive. The stopping tolerance and the maximum number of iterations are respected.",
     I, "all signals, references, exponents, iteration counts", "tests compare two variants on one example",
     ["scaling.py"], [("rescaling functions", "scaling.py")],
     technique="runtime monitor: orthogonality, monotonicity and stationarity oracles")
prop("C25", "FFT convolution equals the convolution sum",
     "The convolution of two real signals of any lengths, along any axis, with any broadcastable batch and in all three modes (full, same as the first signal, valid) equals the direct evaluation of the convolution sum, including the alignment of the truncated modes. The type of the input is kept.",
     ["inputs", "configurations"], "all lengths, batches, axes, modes", "one configuration is tested",
     ["fftconvolve.py"], [("convolution", "fftconvolve.py")],
     technique="runtime monitor: definition oracle")
prop("C26", "Source models give positive, finite, bounded weights as defined",
     "For every signal, including silence, impulses and extreme levels, all source and mask models return finite, strictly positive, bounded weights of the documented shape: the spherical models the inverse of their frame-wise magnitude or variance (clamped), the low-rank model the inverse of a non-negative low-rank variance whose divergence from the signal never increases along calls and that can be reset, the neural models masks in (0, 1]. Neural models are deterministic in evaluation mode and those that use magnitudes ignore the phase.",
     ["inputs", "histories", "configurations"], "all signals, sizes, batches, sequences of calls", "tests only compare shapes",
     ["models/classic.py", "models/simple.py", "models/glu.py", "models/blstm.py"],
     [("models", "models/classic.py"), ("masks", "models/glu.py")],
     technique="runtime monitor: range, definition and divergence oracles along call histories")
prop("C27", "Degenerate recordings never give NaN or exploding outputs",
     "Recordings with digital silence, silent or duplicated microphones, empty frequency bands, silent segments, or extreme levels, alone or in a batch with ordinary ones, give finite and bounded outputs with all the iterative separators, dereverberation and the Wiener filter, in single and double precision. What is silent in all microphones stays silent.",
     I, "all degenerate recordings, positions of the defect, batches, parameters", "tests use random full-rank signals only",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "linalg.py"],
     [("clamps and diagonal loading", "linalg.py"), ("clamps", "t_iss.py")],
     technique="runtime monitor: finiteness and boundedness oracles on fault-injected signals")
prop("C28", "Selection keeps the strongest signals, in order",
     "Selecting the strongest signals along an axis returns exactly that many of the input signals, unchanged, all different, in order of decreasing power, independently for each element of the batch, such that none of the signals left out is stronger. This holds for real and complex signals, any axes, levels and ties.",
     ["inputs"], "all tensors, axes, numbers of signals", "not tested",
     ["utils.py"], [("selection", "utils.py")],
     technique="runtime monitor: multiset and ordering oracle")
prop("C29", "Outputs follow the symmetries of the problem",
     "Rotating the phase of each microphone in each frequency rotates the outputs like the reference microphone and changes nothing else; complex conjugation, reordering of the frequencies (spherical models) and, without taps, of the frames carry over to the outputs. Reordering the microphones does not change extraction, dereverberation and beamforming (with the reference renamed), and a change of level carries over to the blind separators.",
     I, "all signals, transformations, separators and beamformers", "no such relation is tested",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "models/classic.py"],
     [("updates", "t_iss.py"), ("updates", "auxiva_ip.py"), ("filters", "beamformer.py")],
     technique="runtime monitor: metamorphic oracle with measured sensitivity")
prop("C30", "Types are kept and double precision is really double precision",
     "Every separator, beamformer, transform, rescaling function and helper returns results of the precision of its input. Double-precision inputs are processed with double-precision rounding errors only, and single-precision results agree with the double-precision ones within what the sensitivity of the case allows.",
     I, "all well-conditioned inputs, methods, parameters", "tests use one type for most functions",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "stft.py", "linalg.py", "dtypes.py"],
     [("types", "dtypes.py"), ("helpers", "linalg.py")],
     technique="runtime monitor: differential oracle between precisions")
prop("C31", "Silence around a recording and repetitions of it change nothing else",
     "Digital silence in front of a recording, or (for methods without taps) behind it or on both sides, and repetitions of the recording (methods without taps), leave the outputs of every separator, dereverberation, extractor, beamformer and rescaling function as they were, with the same silence or repetition: the number of frames has no other influence. With frames of silence of a multiple of the hop this also holds for waveforms.",
     I, "all signals, amounts and positions of silence, repetitions, methods whose model works frame by frame",
     "tests never compare recordings of different lengths",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "nn.py"],
     [("weighted statistics", "t_iss.py"), ("normalisation", "wpe.py"), ("covariances", "beamformer.py")],
     technique="runtime monitor: metamorphic oracle with measured sensitivity")
prop("C32", "The source model is consulted once per iteration, on the current estimate",
     "Every iterative method resets its source model once before using it and then calls it exactly once per iteration, first on the unprocessed signals and then on the result of the iterations so far, and each answer has an effect on the result; with memory-saving backpropagation the backward pass consults it once more per iteration, on the same values. Mask models of beamformers are called exactly once, on the reference microphone.",
     ["inputs", "configurations", "histories"], "all signals, models, iteration counts, sequences of calls",
     "tests only look at the final result",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "base.py", "nn.py"],
     [("iterations", "t_iss.py"), ("iterations", "auxiva_ip.py"), ("masks", "beamformer.py")],
     ["calls and resets seen by the source model", "return values of the public calls"],
     technique="runtime monitor: online checker of a trace specification on the logged model calls")
prop("C33", "Results do not depend on the settings of the process",
     "Every call gives the same result, of the same type, whatever the default type, the gradient or inference mode, gradients requested on inputs or parameters, number of threads, state of the random generators, deterministic mode, anomaly detection, numpy error mode, and the thread it runs in.",
     ["inputs", "configurations", "schedules"], "all calls and settings of the process",
     "tests run under one set of settings",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "linalg.py", "stft.py", "utils.py", "nn.py"],
     [("helpers", "linalg.py"), ("separators", "nn.py")],
     technique="runtime monitor: differential oracle under varied process settings")
prop("C34", "Failed and interrupted calls leave no trace",
     "Whatever makes a call fail half-way, be it an exception of the source model, a tensor operation that runs out of memory or an interrupt at any point of the call or of its backward pass, that same exception reaches the caller. The inputs, the parameters and options of the object and the state of the process are as before, options given to the failed call do not stick, and the next call gives what a new object gives, with the same gradients.",
     ["fault_sequences", "crash_points", "histories", "configurations"], "all calls, kinds of faults and points at which they strike",
     "no test makes a call fail",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "base.py", "nn.py", "linalg.py"],
     [("options of a call", "base.py"), ("state kept by the object", "t_iss.py"), ("iterations", "auxiva_ip.py")],
     ["exceptions that come out of the public calls", "inputs, objects and process after the fault", "return values of the next call"],
     technique="fault injection (model, tensor operation, executed line) with state and differential oracles")
prop("C35", "Memory stays bounded over iterations, calls and training steps",
     "Memory-saving backpropagation needs far less than one signal of additional memory per iteration, and without gradients the memory does not depend on the number of iterations at all. An object does not keep the signals or the computation graph of a finished call, so that repeated calls neither accumulate memory nor need more than the first one. The memory grows at most linearly with the length of the recording and the batch.",
     ["inputs", "histories", "configurations"], "all signals, iteration counts, sequences of calls",
     "tests never measure memory",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "nn.py", "linalg.py"],
     [("checkpointing", "t_iss.py"), ("delayed frames", "linalg.py"), ("state kept by the object", "t_iss.py")],
     ["live bytes of tensor storages at every tensor operation"],
     technique="runtime monitor: memory meter on every tensor operation, with positive control")
prop("C36", "Objects can be copied, saved and restored, whatever their history",
     "Separators, beamformers, models and transforms can be deep-copied, pickled, saved to a file and restored from saved parameters at any time, also after training steps, failed calls or calls in inference mode, and give the results of the original; afterwards neither influences the other. The saved entries and the parameters do not depend on the calls made, and parameters, conversions and training or evaluation mode of a separator include those of its source model.",
     ["histories", "configurations"], "all objects, histories of calls, ways of copying",
     "tests never copy or save an object",
     ["t_iss.py", "auxiva_ip2.py", "base.py", "nn.py", "stft.py", "models/classic.py", "models/glu.py", "models/blstm.py", "models/simple.py"],
     [("state kept by the object", "t_iss.py"), ("models of the separators", "base.py"), ("parameters of the models", "models/classic.py")],
     ["saved parameters", "return values of copies and originals"],
     technique="runtime monitor: differential oracle between copies and originals along call histories")
prop("C37", "Requests that make no sense are refused, valid ones are served",
     "More sources than microphones, microphones that do not exist, a number of microphones, masks or dimensions that the method does not support, unknown names of algorithms, beamformer types, convolution modes, windows and classes, exponents out of range and sizes that do not match raise an exception, whether given at construction or in the call, without touching the inputs or spoiling later calls. Valid requests up to the border of what is allowed are served, and a negative reference microphone is never another one than that counted from the end.",
     I, "all kinds of nonsensical options and inputs on all methods and helpers", "tests make valid requests only",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "beamformer.py", "nn.py", "scaling.py", "fftconvolve.py", "stft.py", "linalg.py", "utils.py"],
     [("number of sources", "t_iss.py"), ("reference microphone", "auxiva_ip.py"), ("exponents", "scaling.py")],
     ["exceptions and return values of the public calls"],
     technique="runtime monitor: negative requests with an exception oracle, paired with valid ones")
prop("C38", "Models can be trained through every method, whatever the recordings",
     "The gradients of inputs and parameters through separators, dereverberation, extractor, beamformers, scale restoration, transforms and source models are finite whatever recordings the batch contains (zero-padded, silent or partly silent, dead or duplicated microphones, empty bands, tiny or large levels), every trainable parameter gets one, and degenerate recordings do not change the gradients of the others. Training steps keep losses and parameters finite, move every parameter and decrease the loss along the gradient, with and without memory checkpointing on the same path.",
     ["inputs", "configurations", "histories"], "all batches of recordings, methods, source models, sequences of training steps",
     "tests check gradients of a few ordinary recordings only",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py", "linalg.py", "nn.py", "models/classic.py", "models/glu.py", "models/blstm.py", "models/simple.py"],
     [("square roots and norms", "models/classic.py"), ("inverse and eigenvalue problems", "linalg.py"), ("reweighting", "scaling.py")],
     ["gradients of inputs and parameters", "losses and parameters along training"],
     technique="runtime monitor: gradient monitor on degenerate batches and trace checker on training runs")
prop("C39", "Example programs load, train, export and demonstrate faithfully",
     "The example data set delivers, for every item, the (possibly shuffled and shortened) recording with the references of the very same microphone and interval; batches keep every item intact, and interleaved loaders serve every item exactly once per epoch, in turn. Gradients are clipped at the requested percentile of their history. A model exported from the checkpoints of a training is, when loaded by the library, the trained separator (same algorithm) with the averaged weights. The demonstrations print the figures the library obtains for the requested algorithm, model, microphones and options.",
     ["inputs", "configurations", "histories"], "all data sets, training configurations, checkpoints, command lines of the examples",
     "no test runs the examples",
     ["examples/dataloader.py", "examples/autoclip_module.py", "examples/separation_model.py", "examples/export_model.py", "examples/example.py", "examples/example_dnn.py", "loader.py", "utils.py", "nn.py"],
     [("data set, batches, interleaving", "examples/dataloader.py"), ("percentile clipping", "examples/autoclip_module.py"), ("export", "examples/export_model.py"), ("loading", "loader.py")],
     ["items and batches", "gradients after clipping", "exported files loaded again", "printed figures"],
     technique="runtime monitor: exactly-once and conservation checkers on loaded data, differential oracle on exported models and printed figures")
