"""Core of the property-based checks: generation, execution, shrinking, replay.

A property is a module of `harness.props` with

    ID      the property id of properties.jsonl
    RULE    what makes a generated case non-trivial
    SUBS    a list of Sub instances

A Sub couples a Hypothesis strategy that yields JSON-able *cases* with a
function `run(case)` that drives the real code in /repo and compares it with an
explicit oracle.  It raises Violation (or lets any exception escape) when the
property is broken, and returns truthy when the case was non-trivial.
"""
from __future__ import annotations

import hashlib
import json
import random
import os
import signal
import sys
import time
import traceback
import zipfile
import glob

TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


def bootstrap():
    """Make hypothesis importable next to the packages of /opt/venv."""
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(TOOL_SITE, "hypothesis")):
        # appended: numpy, scipy, ... are always those of /opt/venv
        sys.path.append(TOOL_SITE)
        try:
            import hypothesis  # noqa: F401
            return
        except ImportError:
            sys.path.remove(TOOL_SITE)
    import tempfile
    target = tempfile.mkdtemp(prefix="verif_hyp_")
    for pat in ("hypothesis-*cp312-cp312-*.whl", "sortedcontainers-*.whl",
                "attrs-*.whl"):
        for whl in glob.glob(os.path.join(WHEELS, pat)):
            zipfile.ZipFile(whl).extractall(target)
    sys.path.append(target)
    import hypothesis  # noqa: F401


bootstrap()

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402

CASE_TIMEOUT = 150      # seconds one case may take before it counts as hanging
SHRINK_TIME = 60        # seconds spent on shrinking a failure


class Violation(Exception):
    """The property does not hold for the current case."""


class CaseTimeout(BaseException):
    pass


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def dense(M):
    """Dense float array of anything matrix-like (scipy, SparseStochMat, ...)."""
    if hasattr(M, "toarray"):
        M = M.toarray()
    return np.asarray(M, dtype=np.float64)


def require_close(what, got, want, atol=1e-9, rtol=1e-9):
    got = dense(got)
    want = dense(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return
    if not np.all(np.isfinite(want)):
        raise RuntimeError(f"{what}: oracle is not finite")
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
    if bad.any():
        idx = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
        raise Violation(f"{what}: at {tuple(int(i) for i in idx)} got "
                        f"{got[idx]!r}, expected {want[idx]!r} "
                        f"({int(bad.sum())} of {bad.size} entries differ)")


def require_raises(what, excs, f, *a, **k):
    try:
        f(*a, **k)
    except excs:
        return
    raise Violation(f"{what}: no exception")


class Sub:
    def __init__(self, name, strategy, run, quick=300, thorough=6000, shards=2,
                 examples=(), describe=""):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.examples = list(examples)
        self.describe = describe or (run.__doc__ or "").strip()


def case_key(case):
    return json.dumps(case, sort_keys=True)


def case_hash(key):
    return hashlib.blake2b(key.encode(), digest_size=8).hexdigest()


def derive_seed(*parts):
    h = hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


_SPARE = random.Random(0)
# documented values of the arguments that may be left out
OMIT = {"t_start": None, "t_stop": None, "save_adjacencies": False, "lamda": None,
        "fix_tau_k": False, "use_sparse_stoch": False, "dense_expm": True, "t_s": 10,
        "save_intermediate": True, "reverse_time": False, "force_csr": False, "tol": None,
        "t": 1, "rnd_seed": None, "discrete_time_rw": False, "linearized": False,
        "directed": False, "p1": None, "p2": None, "check_integrity": False,
        "compressed": False, "save_delta": False, "round_zeros": True}


def spare(**kw):
    """Keyword arguments, half of the time without those that have their
    documented default value."""
    if _SPARE.random() < 0.5:
        return kw
    return {k: v for k, v in kw.items()
            if not (k in OMIT and type(v) is type(OMIT[k]) and v == OMIT[k])}


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Returns (nontrivial, None) or (None, message)."""
    # the code under test must not be able to change the case that is recorded
    case = json.loads(case_key(case))
    # global random state of the code under test: a function of the case
    np.random.seed(derive_seed(case_key(case)) % 2**32)
    _SPARE.seed(derive_seed("spare", case_key(case)))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return bool(sub.run(case)), None
    except Violation as e:
        return None, str(e)
    except CaseTimeout:
        return None, f"did not terminate within {CASE_TIMEOUT} s"
    except hypothesis.errors.UnsatisfiedAssumption:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "flowstab" in fr.filename or fr.filename.endswith(".pyx"):
                where = f" at {os.path.basename(fr.filename)}:{fr.lineno} ({fr.name})"
                break
        msg = str(e)
        return None, f"unexpected {type(e).__name__}: {msg[:400]}{where}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class _Failed(Exception):
    pass


def _no_mutations(self, data):
    """Replaces the step of Hypothesis that varies the previous case."""


class _Generation:
    """Every second seed draws all cases independently: more diverse, while
    the mutations of the other seeds favour repeated values."""

    def __init__(self, seed):
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        self.cls = ConjectureRunner if seed % 2 and \
            hasattr(ConjectureRunner, "generate_mutations_from") else None

    def __enter__(self):
        if self.cls:
            self.old = self.cls.generate_mutations_from
            self.cls.generate_mutations_from = _no_mutations

    def __exit__(self, *a):
        if self.cls:
            self.cls.generate_mutations_from = self.old


def explore(sub, seed, max_examples, stop_time, case_file, run_examples=True):
    """Generate and run up to max_examples cases; shrink the first failure.

    Returns a JSON-able summary."""
    out = {"sub": sub.name, "evaluations": 0, "nontrivial": {}, "samples": [],
           "failure": None, "skipped": 0}
    state = {"fails": {}, "last": None, "first_fail": None}
    fd = os.open(case_file, os.O_RDWR | os.O_CREAT, 0o600)

    def note(key):
        b = key.encode()
        os.ftruncate(fd, 0)
        os.pwrite(fd, b, 0)

    def one(case):
        key = case_key(case)
        if key in state["fails"]:
            state["last"] = key
            raise _Failed(state["fails"][key])
        now = time.time()
        if state["first_fail"] is None:
            if now > stop_time:
                out["skipped"] += 1
                return
        elif now - state["first_fail"] > SHRINK_TIME:
            return      # stop shrinking: anything new counts as passing
        note(key)
        nontrivial, msg = run_case(sub, case)
        out["evaluations"] += 1
        if msg is not None:
            state["fails"][key] = msg
            state["last"] = key
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            raise _Failed(msg)
        if nontrivial:
            h = case_hash(key)
            if h not in out["nontrivial"]:
                out["nontrivial"][h] = 1
                n = len(out["nontrivial"])
                if len(key) <= 1500 and (n <= 2 or (n & (n - 1)) == 0):
                    out["samples"].append(json.loads(key))
                    out["samples"] = out["samples"][-6:]

    def failure(key):
        return {"case": json.loads(key), "message": state["fails"][key]}

    try:
        if run_examples:
            for case in sub.examples:
                try:
                    one(case)
                except _Failed:
                    out["failure"] = failure(state["last"])
                    return _finish(out, fd)
        if max_examples > 0:
            test = given(sub.strategy())(one)
            test = settings(max_examples=max_examples, database=None,
                            deadline=None, derandomize=False,
                            phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=list(HealthCheck),
                            report_multiple_bugs=False, print_blob=False,
                            verbosity=Verbosity.quiet)(test)
            test = hypothesis.seed(seed)(test)
            try:
                with _Generation(seed):
                    test()
            except _Failed:
                out["failure"] = failure(state["last"])
            except (hypothesis.errors.Flaky, BaseExceptionGroup) as e:
                if state["fails"]:
                    key = min(state["fails"], key=len)
                    out["failure"] = failure(key)
                else:
                    raise RuntimeError(f"hypothesis: {e!r}") from e
    finally:
        pass
    return _finish(out, fd)


def _finish(out, fd):
    os.close(fd)
    out["nontrivial"] = list(out["nontrivial"])
    return out
