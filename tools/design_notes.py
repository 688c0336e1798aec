NOTES = {
    "C38": "*Workload*: batches that mix ordinary and degenerate recordings; *oracle*: finite gradients everywhere, every parameter has one, elements do not disturb each other; training runs are checked as traces (finite, moving, decreasing along the gradient for a small enough step).",
    "C39": "*Workload*: data sets written in a scratch folder, the example programs run in process with `runpy`; pytorch_lightning is replaced by a stand-in (base classes, checkpoints, logger).",
    "C05": "*Oracle*: every ATen operation with a written argument is compared with the storages of the caller; hashes of whole storages (also around views) before/after the call, after backward, after overwriting the result.  What the caller's models return must also be left alone.",
    "C06": "*Oracle*: equality with the contiguous input; guard bands of NaN make any read outside of the view visible.",
    "C07": "*Oracle*: linearizability is trivial here (calls are independent), so that each result must be that of the call alone.  Three schedulers: seeded token passing at the callbacks, free running with random delays, and systematic single preemption at every executed line of torchiva (a second call runs from start to end at that point).",
    "C11": "*Known finding*: see below.",
    "C22": "*Safety of the sandbox*: everything runs in a scratch folder that the check creates and removes; the library is only given paths inside it.",
    "C23": "*Faults*: refused, truncated, dropped and stalled responses from a loopback server, SIGKILL at random points of a download, several threads and processes on one cache; HOME is a scratch folder.",
    "C34": "*Faults*: exceptions raised by the caller's model, by any ATen operation (as when memory runs out) and at any executed line of torchiva (as by Ctrl-C).  *Oracle*: the exception reaches the caller unchanged, inputs, object and process are as before, and the next call (values and gradients) is that of a fresh object.",
    "C35": "*Monitor*: every storage created is counted by a weak reference callback; the peak and the retained bytes are compared between runs that differ in the number of iterations, calls, frames or batch.  Ordinary backpropagation, which must grow, is the positive control of the meter.",
}
# quick tier, seed 1
CAUGHT = {
    "background-gradmode": "C34",
    "background-nograd": "C09",
    "blstm-offset": "C26",
    "bss-nsrc-five": "C21",
    "bss-pad-front": "C21",
    "cli-mic-equal": "C22",
    "cli-window": "C22",
    "conv-dim-modulo": "C25",
    "conv-mode-else": "C37",
    "conv-real-pair": "C25",
    "dmc-eps": "C08",
    "dmc-filter-detached": "C08",
    "dmc-keeps-estimate": "C35",
    "dmc-rng": "C08",
    "five-fastpath-nograd": "C33",
    "five-keeps-white": "C35",
    "five-power-cap": "C17",
    "five-power-iter": "C17",
    "five-single": "C30",
    "five-stale-model": "C32",
    "gauss-per-bin": "C11",
    "gauss-subsample": "C26",
    "gev-loaded-scale": "C16",
    "gev-ref": "C16",
    "gev-scale-detached": "C09",
    "gevd-norm-floor": "C18",
    "glu-gain-over-batch": "C03",
    "hankel-contiguous-only": "C06",
    "import-attr-none": "C37",
    "inv-loaded-type": "C19",
    "ip-jacobi": "C10",
    "ip-keeps-estimates": "C35",
    "ip-pb-absolute": "C01",
    "ip-rescale-detached": "C09",
    "ip-scale-clamp": "C27",
    "ip2-closure": "C36",
    "ip2-extra-call": "C32",
    "ip2-ref-modulo": "C37",
    "iss-sqrt-first": "C38",
    "laplace-edge-bins": "C29",
    "laplace-eps-relative": "C29",
    "laplace-long-single": "C30",
    "load-buffer-race": "C07",
    "loader-falsy-override": "C23",
    "loader-strict": "C23",
    "masks-clamped-inplace": "C05",
    "mdp-floor": "C24",
    "mdp-inplace": "C05",
    "mdp-phase-sqrt": "C38",
    "mdp-stop-mean": "C24",
    "model-unregistered": "C36",
    "mvdr-option-swap": "C34",
    "mvdr-third-mask": "C14",
    "mvdr-type-sticks": "C04",
    "mwf-tv-clamp": "C15",
    "mwf-tv-swapped": "C15",
    "nmf-default-dtype": "C33",
    "nmf-keeps-basis": "C04",
    "nmf-seeds-global-rng": "C05",
    "override-falsy": "C04",
    "pb-first-frames": "C24",
    "pb-frames-over-batch": "C03",
    "pb-load-user-eps": "C01",
    "reset-at-end": "C34",
    "reset-isinstance": "C32",
    "rtf-detached": "C09",
    "scm-ref": "C14",
    "select-amplitude": "C28",
    "select-index-shared": "C28",
    "select-real": "C28",
    "sep-power-iter": "C21",
    "solve-floor": "C19",
    "stft-short-center": "C20",
    "stft-symmetric-window": "C20",
    "stft-unknown-window": "C37",
    "stft-view": "C06",
    "tiss-g-floor-batch": "C03",
    "tiss-metrology": "C35",
    "tiss-nsrc-clamp": "C37",
    "tiss-past-of-sources": "C13",
    "tiss-pb-swap-late": "C01",
    "tiss-replicate-pad": "C02",
    "tiss-silent-frames": "C27",
    "tiss-state-in-self": "C07",
    "wpe-chunks": "C12",
    "wpe-median-cap": "C31",
    "wpe-model-of-input": "C12",
    "wpe-noclone": "C05",
    "wpe-pad-cache": "C07",
    "wpe-weights-nograd": "C09",
}
MISSES = (
    "The column is the check of the property of the bug, at the quick tier with seed 1 (other checks often see it as "
    "well).  The following were missed when they were planted, and the checks were strengthened: `conv-real-pair` (long "
    "signals in C25), `wpe-noclone` (no iterations in C05, which also found a defect of AuxIVA_IP2), `tiss-pb-swap-late` "
    "(as many frames as microphones in C01), `pb-load-user-eps` (the constant eps in C01), `laplace-edge-bins` (usual "
    "numbers of frequencies and symmetries between them in C29), `laplace-long-single` (usual spectrograms in C30), "
    "`gauss-subsample` (usual numbers of frequencies in C26), `tiss-g-floor-batch` (elements with very different levels "
    "in C03), `wpe-pad-cache` (concurrent calls with the same sizes in C07)."
)
