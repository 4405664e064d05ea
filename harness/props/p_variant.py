"""F28: the optional accelerators (Cython, sparse_dot_mkl) change no result.

The package is imported again with the optional modules made unavailable, and
the cases and oracles of the other properties are run on that installation.
"""
import contextlib
import functools
import importlib
import os
import sys

from hypothesis import strategies as st

from ..core import Sub

CYTHON = ("cython", "Cython", "_cython_fast_funcs", "_cython_sparse_stoch")
MKL = ("sparse_dot_mkl",)
VARIANTS = {"no_cython": CYTHON, "no_mkl": MKL, "neither": CYTHON + MKL}
MODULES = ["flowstab", "flowstab.temporal_network", "flowstab.network_clustering",
           "flowstab.sparse_stoch_mat", "flowstab.flow_stability"]
# sub-checks of other properties, run unchanged on the other installations
BASE = {
    "flow": ["F01.laplacians", "F02.inter", "F03.products", "F04.lin", "F04.functions",
             "F20.subspace", "F20.lapl", "F27.equivalent", "F07.netsave", "F08.tsave",
             "F22.pipeline", "F29.history"],
    "matrices": ["F09.algebra", "F09.algebra", "F10.kernels", "F11.autocov", "F11.stability"],
    "stages": ["F24.slices", "F25.integrals", "F26.clusterings"],
    "clustering": ["F13.history", "F14.stability", "F14.gains", "F15.outcome",
                   "F15.dense_sparse", "F16.integral", "F17.measures", "F18.static",
                   "F14.bicluster", "F15.options", "F15.one_level", "F19.multi"],
}
_loaded = {}


def _ours(name):
    return name == "flowstab" or name.startswith("flowstab.")


def _is_hidden(name, hidden):
    return any(name == h or name.startswith(h + ".") for h in hidden)


@contextlib.contextmanager
def installation(variant):
    """Within it, `import flowstab...` gives the installation without the
    modules of the variant."""
    hidden = VARIANTS[variant]
    saved = {k: m for k, m in sys.modules.items() if _ours(k) or _is_hidden(k, hidden)}
    for k in saved:
        del sys.modules[k]
    for h in hidden:
        sys.modules[h] = None           # import fails, find_spec gives None
    try:
        if variant in _loaded:
            sys.modules.update(_loaded[variant])
        else:
            out = os.dup(1)
            dn = os.open(os.devnull, os.O_WRONLY)
            sys.stdout.flush()
            os.dup2(dn, 1)
            try:
                for m in MODULES:
                    importlib.import_module(m)
                sys.modules["flowstab"].set_log_level("ERROR")
                sys.stdout.flush()
            finally:
                os.dup2(out, 1)
                os.close(out)
                os.close(dn)
        yield
    finally:
        _loaded[variant] = {k: m for k, m in sys.modules.items() if _ours(k)}
        for k in [k for k in sys.modules if _ours(k) or _is_hidden(k, hidden)]:
            del sys.modules[k]
        sys.modules.update(saved)


@functools.cache
def base_sub(name):
    from ..run import load_properties
    pid, sub = name.split(".")
    return next(s for s in load_properties()[pid][1] if s.name == sub)


def cases(group):
    @st.composite
    def strategy(draw):
        name = draw(st.sampled_from(BASE[group]))
        return {"variant": draw(st.sampled_from(sorted(VARIANTS))), "check": name,
                "case": draw(base_sub(name).strategy())}
    return strategy


def run(case):
    """A check of another property, on an installation without Cython and / or sparse_dot_mkl."""
    sub = base_sub(case["check"])
    with installation(case["variant"]):
        return sub.run(case["case"])


PROPS = {
    "F28": ("F28: non-trivial by the rule of the property whose check is run.",
            [Sub("flow", cases("flow"), run, 600, 15000, 3),
             Sub("matrices", cases("matrices"), run, 900, 20000, 2),
             Sub("clustering", cases("clustering"), run, 900, 20000, 3),
             Sub("stages", cases("stages"), run, 90, 3000, 3)],
            ["a missing module is simulated by making its import fail in the checking process"]),
}
