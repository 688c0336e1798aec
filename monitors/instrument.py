"""
Instrumentation of the real code: a sanitizer at the level of tensor operations
and fingerprints of everything the caller owns.
"""
import hashlib
import random

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode


def fingerprint(t):
    """hash of the whole storage of a tensor (also what is around a view) and of its geometry"""
    st = t.untyped_storage()
    raw = torch.empty(0, dtype=torch.uint8).set_(st)
    h = hashlib.sha256(raw.numpy().tobytes())
    h.update(repr((tuple(t.shape), t.stride(), t.storage_offset(), t.dtype, t.is_conj(),
                   t.requires_grad, t._version)).encode())
    return h.hexdigest()


class WriteSanitizer(TorchDispatchMode):
    """
    Watches every tensor operation executed and records the writes that land in
    memory owned by the caller (and the number of operations seen).
    """

    def __init__(self, owned):
        super().__init__()
        self.owned = {}
        for name, t in owned.items():
            self.owned.setdefault(t.untyped_storage().data_ptr(), name)
        self.n_ops = 0
        self.writes = []
        self.kinds = set()

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.n_ops += 1
        self.kinds.add(str(func))
        sch = func._schema
        for i, a in enumerate(sch.arguments):
            if a.alias_info is not None and a.alias_info.is_write:
                v = kwargs.get(a.name, args[i] if i < len(args) else None)
                vs = v if isinstance(v, (list, tuple)) else [v]
                for t in vs:
                    if isinstance(t, torch.Tensor) and t.numel():
                        p = t.untyped_storage().data_ptr()
                        if p in self.owned:
                            self.writes.append(f"{func} writes in {self.owned[p]}")
        return func(*args, **kwargs)


def global_state():
    """the global state a library call should leave alone"""
    return dict(
        torch_rng=hashlib.sha256(torch.get_rng_state().numpy().tobytes()).hexdigest(),
        numpy_rng=hashlib.sha256(repr(np.random.get_state()).encode()).hexdigest(),
        python_rng=hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        default_dtype=str(torch.get_default_dtype()),
        grad_enabled=torch.is_grad_enabled(),
        deterministic=torch.are_deterministic_algorithms_enabled(),
        threads=torch.get_num_threads(),
        anomaly=torch.is_anomaly_enabled(),
        np_err=str(sorted(np.geterr().items())),
    )
