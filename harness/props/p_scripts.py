"""F24-F26: the three command line stages of the batch pipeline."""
import gc
import importlib
import math
import os
import pickle
import random
import signal
import sys
import tempfile
from collections import Counter
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, Violation, dense, require, require_close

NAME = "net"


# ------------------------------------------------------------ running a stage

def script(name, argv, log):
    """Run flowstab.scripts.<name>:main in a fresh process (its own group)."""
    import hickle  # noqa: F401  (imported by the stages, slow)
    import psutil  # noqa: F401
    rng = random.Random(int(np.random.randint(2 ** 31)))    # a function of the case
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setsid()
            gc.freeze()         # the stages call gc.collect()
            os.urandom = rng.randbytes
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(2, "w", closefd=False)
            sys.argv = [name, *map(str, argv)]
            mod = importlib.import_module("flowstab.scripts." + name)
            mod.main()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 1
        except BaseException:  # noqa: BLE001
            import traceback
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
    try:
        _, status = os.waitpid(pid, 0)
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    if status != 0:
        raise Violation(f"{name} {' '.join(map(str, argv))} failed (status {status}): "
                        + last_error(log))


def last_error(log):
    try:
        with open(log, errors="replace") as f:
            lines = [x.rstrip() for x in f if x.strip()]
    except OSError:
        return ""
    err = [x for x in lines if "Error" in x or "Exception" in x]
    return " | ".join(err[-3:])[:600] or " | ".join(lines[-3:])[:300]


def present(path, log, what):
    if not os.path.exists(path):
        for ext in (".pickle", ".gz", ".pickle.gz"):
            if os.path.exists(path + ext):
                return path + ext
        raise Violation(f"{what}: no file {os.path.basename(path)} was saved; "
                        f"log: {last_error(log)}")
    return path


# ----------------------------------------------------------------- the slices

@st.composite
def company(draw):
    """Name of the network, and what else lies in the directories."""
    return {"name": draw(st.sampled_from(["net", "net", "school_week_w2", "int000009_x"])),
            "other": draw(st.booleans())}


def use_name(case):
    global NAME
    NAME = case.get("name", "net")


def neighbours(case, path, kind):
    """Files of other networks in the same directory."""
    if not case.get("other"):
        return
    for name, k in ((NAME + "2", 11), ("a" + NAME, 12), (NAME[:-1], 13)):
        if kind == "int":
            f, data = f"{name}_tau_w7.000e+00_int{k:06d}__inter_trans_mat.pickle", \
                {"num_nodes": 77 + k}
        else:
            f, data = f"{name}_tau_w7.000e+00_PT_000000_to_{k:06d}.pickle", {}
        with open(os.path.join(path, f), "wb") as fopen:
            pickle.dump(data, fopen)
    if kind != "int":
        # left by the stage before
        for f in (f"{NAME}_tau_w7.000e+00_temp_integration_000000_to_000001.pickle",
                  f"{NAME}_tau_w7.000e+00_pTpint_000000_to_000001.pickle"):
            with open(os.path.join(path, f), "wb") as fopen:
                pickle.dump({}, fopen)
    with open(os.path.join(path, "README.txt"), "w") as fopen:
        fopen.write("no pickle")


UNITS = [[1, 0], [1, 0], [0.5, 0], [4, 16], [3.7, -5], [0.1, 0], [1, -4], [0.5, -3],
         [1e-7, 0], [1e-9, -3e-9], [1e6, 1.6e9]]


@st.composite
def stage1(draw, max_n=5, max_events=9, min_events=2):
    net = draw(gen.net_case(max_n=max_n, max_events=max_events, min_events=min_events,
                            horizon=8, max_dur=5, labels=True,
                            scales=UNITS))
    unit = 1 if 0.01 < net["scale"] < 100 else net["scale"]
    lo = min(e[2] for e in net["ev"])
    hi = max(e[3] for e in net["ev"])
    mode = draw(st.sampled_from(["num", "num", "length", "file"]))
    t0 = draw(st.one_of(st.none(), st.none(), st.integers(2 * lo - 1, lo + hi)))
    tend = draw(st.one_of(st.none(), st.none(), st.integers(lo + hi + 1, 2 * hi + 1)))
    sl = {"mode": mode, "t0": t0, "tend": tend}
    zero = draw(st.sampled_from([None, None, None, t0, tend]))
    if zero is not None:
        # a limit that is exactly zero
        net["off"] = -net["scale"] * (zero // 2 if zero % 2 == 0 else zero / 2)
    if mode == "num":
        sl["num"] = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 10]))
    elif mode == "length":
        sl["len"] = draw(st.sampled_from([2, 3, 4, 5, 8]))
    else:
        k = draw(st.integers(2, 5))
        sl["bounds"] = sorted(draw(st.sets(st.integers(2 * lo - 1, 2 * hi + 1),
                                           min_size=k, max_size=k)))
    return {"net": net, "slices": sl,
            "tau_w": [x * unit for x in draw(st.lists(st.sampled_from([1, 5, 0.5, 20, 0.25, 3, 1 / 3, 2.718281,
                                                    12.34567, 0.1234567]), min_size=1,
                                   max_size=2, unique=True))],
            "ncpu": draw(st.sampled_from([1, 1, 2])), **draw(company())}


def bounds(case):
    """Slice boundaries as documented (in times)."""
    net, sl = case["net"], case["slices"]
    R = ref.RefNet(net)
    if sl["mode"] == "file":
        return [ref.half(net, h) for h in sl["bounds"]]
    t0 = R.times[0] if sl["t0"] is None else ref.half(net, sl["t0"])
    tend = R.times[-1] if sl["tend"] is None else ref.half(net, sl["tend"])
    length = (tend - t0) / sl["num"] if sl["mode"] == "num" else \
        net["scale"] * sl["len"] / 2
    n = sl["num"] if sl["mode"] == "num" else max(1, math.ceil((tend - t0) / length - 1e-9))
    return [t0 + i * length for i in range(n + 1)]


def slice_args(case, netdir, out):
    net, sl = case["net"], case["slices"]
    argv = ["--datadir", netdir, "--net_filename", "n.pickle", "--savedir", out,
            "--net_name", NAME, "--ncpu", case["ncpu"], "--tau_w_list", *case["tau_w"]]
    if sl["mode"] == "file":
        return argv + ["--time_slices_from_net_file"]
    if sl["t0"] is not None:
        argv.append(f"--t0={ref.half(net, sl['t0'])!r}")
    if sl["tend"] is not None:
        argv.append(f"--tend={ref.half(net, sl['tend'])!r}")
    if sl["mode"] == "num":
        return argv + ["--num_slices", sl["num"]]
    return argv + [f"--slice_length={net['scale'] * sl['len'] / 2!r}"]


def write_net(case, netdir):
    os.makedirs(netdir)
    net = ref.build_net(case["net"])
    attrs = ["node_to_label_dict", "events_table", "times", "time_grid", "num_nodes",
             "_overlapping_events_merged", "is_directed"]
    if case["slices"]["mode"] == "file":
        net.time_slices_bounds = bounds(case)
        attrs.append("time_slices_bounds")
    net.save(os.path.join(netdir, "n"), attributes_list=attrs)


def stem(out, tau_w, k):
    return os.path.join(out, f"{NAME}_tau_w{tau_w:.3e}_int{k:06d}_")


def windows(case, R, got):
    """Windows (k_start, k_stop) of the slices: those of the boundaries, where
    a boundary that carries a rounding error may fall on either side of an
    event.  got: number of slices found."""
    b = bounds(case)
    eps = 1e-9 * max(map(abs, (*b, *R.times)))
    lo = [R.locate(x - eps) for x in b]
    hi = [R.locate(x + eps) for x in b]
    n = len(b) - 1
    if got == n + 1 and case["slices"]["mode"] == "length":
        # the accumulated last boundary fell short of the end by rounding
        x = b[-1] + (b[1] - b[0])
        lo.append(R.locate(x - eps))
        hi.append(R.locate(x + eps))
        exact = all(float(x).is_integer() for x in
                    [v * 2 ** 20 for v in b] + [(b[1] - b[0]) * 2 ** 20])
        require(not exact, f"{got} slices for the boundaries {b}")
        n += 1
    require(got == n, f"{got} slices, expected {n} (boundaries {b})")
    return lo, hi


# ---------------------------------------------------------------- F24 stage 1

@st.composite
def f24_cases(draw):
    case = draw(stage1())
    sparse = draw(st.booleans())
    delta = (not sparse) and draw(st.booleans())
    case.update(sparse=sparse, delta=delta,
                inter=(sparse or delta) and draw(st.sampled_from([True, True, False])),
                cinter=draw(st.booleans()), trans=draw(st.sampled_from([True, True, False])),
                ctrans=draw(st.booleans()), flow=draw(st.booleans()),
                static=draw(st.booleans()), dense=(not sparse) and draw(st.booleans()),
                csr=draw(st.booleans()), t_s=draw(st.sampled_from([10, 2, 5])),
                kind=draw(st.sampled_from(["both", "both", "expm", "lin"])),
                batches=draw(st.sampled_from([1, 1, 2, 3])), again=draw(st.booleans()),
                lose=draw(st.sampled_from([None, None, 0, 1, 2])), first=None)
    if not case["inter"]:
        case["trans"] = True
    if draw(st.booleans()):
        # an earlier run that was asked for less
        f = {}
        if case["inter"] and case["trans"]:
            f = draw(st.sampled_from([{"inter": False}, {"trans": False}, {}]))
        if case["kind"] == "both" and draw(st.booleans()):
            f = dict(f, kind=draw(st.sampled_from(["expm", "lin"])))
        if len(case["tau_w"]) > 1 and draw(st.booleans()):
            f = dict(f, tau_w=[case["tau_w"][draw(st.integers(0, 1))]])
        case["first"] = f or None
    return case


def f24_args(case):
    argv = ["--tol", 1e-13, "--t_s", case["t_s"]]
    for flag, key in (("--save_inter_T", "inter"), ("--compress_inter_T", "cinter"),
                      ("--save_delta_inter_T", "delta"), ("--save_slice_trans", "trans"),
                      ("--compress_slice_trans", "ctrans"), ("--save_flow_int", "flow"),
                      ("--save_static_adjacencies", "static"), ("--use_dense_expm", "dense"),
                      ("--force_csr", "csr")):
        if case[key]:
            argv.append(flag)
    if not case["sparse"]:
        argv.append("--not_use_sparse_stoch")
    if case["kind"] == "expm":
        argv.append("--not_lin_transmat")
    elif case["kind"] == "lin":
        argv.append("--not_expm_transmat")
    return argv


def flow_of(mats, dts):
    n = len(mats[0])
    return ref.flow_integral(ref.cumulative(mats), dts, np.ones(n) / n)


def f24_run(case):
    """Files of every slice and waiting time against the reference."""
    use_name(case)
    from flowstab.temporal_network import ContTempNetwork
    net = case["net"]
    R = ref.RefNet(net)
    with tempfile.TemporaryDirectory() as d, ref.quiet():
        out, log = os.path.join(d, "o"), os.path.join(d, "log")
        write_net(case, os.path.join(d, "n"))
        os.makedirs(out)
        argv = slice_args(case, os.path.join(d, "n"), out) + f24_args(case)
        if case["first"]:
            early = dict(case, **case["first"])
            script("run_laplacians_transmats",
                   slice_args(early, os.path.join(d, "n"), out) + f24_args(early), log)
        for b in range(case["batches"]):
            script("run_laplacians_transmats",
                   argv + ["--batch_num", b, "--total_num_batches", case["batches"]], log)
        files = sorted(os.listdir(out))
        if case["lose"] is not None:
            # restart after an interruption: some results are missing
            rnd = np.random.RandomState(case["lose"])
            for f in files:
                if "flow_int" not in f and rnd.rand() < 0.4:
                    os.remove(os.path.join(out, f))
            script("run_laplacians_transmats", argv, log)
            require(sorted(os.listdir(out)) == files,
                    lambda: f"files missing after a restart: "
                            f"{sorted(set(files) - set(os.listdir(out)))}")
        if case["again"]:
            # a second run finds everything done and changes nothing
            before = {f: open(os.path.join(out, f), "rb").read() for f in files}
            script("run_laplacians_transmats", argv, log)
            for f in files:
                with open(os.path.join(out, f), "rb") as fopen:
                    require(fopen.read() == before[f], f"{f} changed when run again")
            require(sorted(os.listdir(out)) == files, "more files when run again")
        got = {int(f.split("_int")[1][:6]) for f in files}
        require(got == set(range(len(got))) and got,
                lambda: f"slices {sorted(got)}; {last_error(log)}")
        lo, hi = windows(case, R, len(got))
        chain = None
        work = 0
        for k in range(len(got)):
            win = None
            for tau_w in case["tau_w"]:
                lam = 1 / tau_w
                base = stem(out, tau_w, k)
                what = f"slice {k} tau_w {tau_w}"
                for lin in (False, True):
                    if case["kind"] == ("expm" if lin else "lin"):
                        continue
                    pre = "_lin" if lin else ""
                    if case["inter"]:
                        f = base + pre + "_inter_trans_mat"
                        present(f, log, what)
                        res = ContTempNetwork.load_inter_T(f)
                        win = check_window(what, R, res, lo, hi, k, win)
                        mats = expected(R, lam, win, lin, case["t_s"])
                        M = res["inter_T_lin"][lam][float(case["t_s"])] if lin else \
                            res["inter_T"][lam]
                        require(len(M) == len(mats),
                                f"{what}: {len(M)} inter-event matrices, {len(mats)} expected")
                        for x, y in zip(M, mats):
                            require_close(f"{what}{pre} inter_T", x, y, 1e-9, 1e-7)
                        require_close(what + " times", res["times_k_start_to_k_stop+1"],
                                      R.times[win[0]:win[1] + 1],
                                      R.span * 1e-9, 1e-12)
                    for rev in ((False, True) if case["trans"] else ()):
                        f = base + ("_reversed" if rev else "") + pre
                        present(f + "_trans_mat", log, what)
                        res = ContTempNetwork.load_T(f + "_trans_mat")
                        win = check_window(what, R, res, lo, hi, k, win)
                        mats = expected(R, lam, win, lin, case["t_s"])
                        if rev:
                            mats = mats[::-1]
                        T = res["T_lin"][lam][float(case["t_s"])] if lin else res["T"][lam]
                        require_close(f"{what}{pre} rev={rev} T", T,
                                      ref.cumulative(mats)[-1], 1e-8, 1e-6)
                        if case["flow"] and win[1] > win[0]:
                            present(f + "_flow_int.pickle", log, what)
                            with open(f + "_flow_int.pickle", "rb") as fopen:
                                I = pickle.load(fopen)
                            dts = np.diff(R.times[win[0]:win[1] + 1])
                            require_close(f"{what}{pre} rev={rev} flow integral", I,
                                          flow_of(mats, dts[::-1] if rev else dts),
                                          1e-8, 1e-6)
            require(chain is None or chain == win[0],
                    f"slice {k} starts at event {win[0]}, the one before stopped at {chain}")
            chain = win[1]
            work += win[1] > win[0]
            if case["static"]:
                f = os.path.join(out, f"{NAME}_static_adjacency_int{k:06d}.pickle")
                present(f, log, f"slice {k}")
                with open(f, "rb") as fopen:
                    A = pickle.load(fopen)
                check_static(case, R, A, k, len(got))
    return work >= 2 or len(case["tau_w"]) > 1


def expected(R, lam, win, lin, t_s):
    return R.lin(lam, *win, t_s) if lin else R.inter(lam, *win)


def check_window(what, R, res, lo, hi, k, win):
    got = (res["_k_start_laplacians"], res["_k_stop_laplacians"])
    require(lo[k] <= got[0] <= hi[k] and lo[k + 1] <= got[1] <= hi[k + 1],
            f"{what}: window of events {got}, expected {(lo[k], lo[k + 1])}")
    require(win is None or win == got, f"{what}: windows {win} and {got} differ")
    require_close(f"{what} t_start", res["_t_start_laplacians"], R.times[got[0]],
                  R.span * 1e-9, 1e-12)
    require_close(f"{what} t_stop", res["_t_stop_laplacians"], R.times[got[1]],
                  R.span * 1e-9, 1e-12)
    require(res["num_nodes"] == R.m, f"{what}: num_nodes")
    return got


def check_static(case, R, A, k, n):
    b = bounds(case)
    if n > len(b) - 1:
        b.append(b[-1] + (b[1] - b[0]))
    want = np.zeros((R.m, R.m))
    for u, v, s, e in R.ev:
        w = max(0.0, min(e, b[k + 1]) - max(s, b[k]))
        want[u, v] += w
        want[v, u] += w
    require_close(f"static adjacency of slice {k}", A, want,
                  1e-7 * R.span + 1e-12 * max(map(abs, b)), 1e-9)


# ---------------------------------------------------------------- F25 stage 2

@st.composite
def f25_cases(draw):
    case = draw(stage1(max_n=4, max_events=8))
    sparse = draw(st.booleans())
    kind = draw(st.sampled_from(["both", "expm", "lin"]))
    grid = draw(st.sampled_from(["length", "length", "list", "points"]))
    case.update(sparse=sparse, delta=not sparse, inter=True, cinter=draw(st.booleans()),
                trans=True, ctrans=draw(st.booleans()), flow=False, static=draw(st.booleans()),
                dense=False, csr=False, t_s=draw(st.sampled_from([10, 2, 5])), kind=kind,
                use=draw(st.sampled_from(["expm", "lin"])) if kind == "both" and
                draw(st.booleans()) else kind,
                grid=grid, step=draw(st.sampled_from([1, 1, 2])),
                pick=draw(st.lists(st.integers(0, 5), min_size=2, max_size=4, unique=True)),
                which=draw(st.sampled_from(["all", "all", "forward", "backward", "start",
                                            "finish", "ends", "one"])),
                inter_save=draw(st.booleans()),
                drop=draw(st.sampled_from([None, None, 0, 1, 2, 3])),
                ncpu2=draw(st.sampled_from([1, 2])))
    if case["slices"]["mode"] == "num":
        case["slices"]["num"] = draw(st.sampled_from([2, 3, 4, 5]))
    return case


def grid_points(case, n):
    if case["grid"] == "list":
        g = sorted({x for x in case["pick"] if x <= n})
        return g if len(g) > 1 else [0, n]
    if case["grid"] == "points":
        return list(range(0, n + 1, max(1, n // case["step"])))
    return list(range(0, n + 1, min(case["step"], n)))


def f25_args(case, n):
    argv = ["--tol", 1e-13, "--t_s", case["t_s"], "--ncpu", case["ncpu2"], "--net_name", NAME]
    if case["grid"] == "list":
        argv += ["--int_list", *grid_points(case, n)]
    elif case["grid"] == "points":
        argv += ["--num_points", case["step"]]
    else:
        argv += ["--int_length", min(case["step"], n)]
    if case["use"] != "both":
        argv.append(f"--only_{case['use']}_transmats")
    argv += {"all": [], "forward": ["--time_direction", "forward"],
             "backward": ["--time_direction", "backward"], "start": ["--only_from_start"],
             "finish": ["--only_from_finish"], "ends": ["--only_from_start_and_finish"],
             "one": ["--only_one_interval"]}[case["which"]]
    if case["inter_save"]:
        argv.append("--save_intermediate")
    return argv


def pairs(case, g):
    last = len(g) - 1
    fw = [(i, j) for i in range(last + 1) for j in range(i + 1, last + 1)]
    bw = [(j, i) for i, j in fw]
    w = case["which"]
    sel = {"all": fw + bw, "forward": fw, "backward": bw,
           "start": [p for p in fw if p[0] == 0], "finish": [p for p in bw if p[0] == last],
           "ends": [p for p in fw if p[0] == 0] + [p for p in bw if p[0] == last],
           "one": [p for p in fw + bw if abs(p[0] - p[1]) == 1]}[w]
    return sorted((g[i], g[j]) for i, j in sel)


def itpt(R, lam, ka, kb, lin, t_s, p1=None):
    """(integral of T P^-1 T^T, duration) from event ka to event kb."""
    a, b = min(ka, kb), max(ka, kb)
    n = R.m
    if a == b:
        return np.zeros((n, n)), 0.0
    mats = expected(R, lam, (a, b), lin, t_s)
    dts = list(np.diff(R.times[a:b + 1]))
    if kb < ka:
        mats, dts = mats[::-1], dts[::-1]
    out = np.zeros((n, n))
    p1 = np.ones(n) / n if p1 is None else p1
    for T, dt in zip(ref.cumulative(mats), dts):
        p2 = p1 @ T
        out += dt * T @ np.diag(np.divide(1, p2, out=np.ones(n), where=p2 > 0)) @ T.T
    return out, R.times[b] - R.times[a]


def f25_run(case):
    """Integrals between all pairs of grid points against the reference."""
    use_name(case)
    from flowstab.temporal_network import ContTempNetwork
    R = ref.RefNet(case["net"])
    with tempfile.TemporaryDirectory() as d, ref.quiet():
        a, out, log = (os.path.join(d, x) for x in ("a", "o", "log"))
        write_net(case, os.path.join(d, "n"))
        os.makedirs(a)
        os.makedirs(out)
        script("run_laplacians_transmats",
               slice_args(case, os.path.join(d, "n"), a) + f24_args(case), log)
        n = len({f.split("_int")[1][:6] for f in os.listdir(a)})
        pre = "_lin" if case["kind"] == "lin" else ""
        ks = []
        for k in range(n):
            res = ContTempNetwork.load_inter_T(
                stem(a, case["tau_w"][0], k) + pre + "_inter_trans_mat")
            ks.append(res["_k_start_laplacians"])
        ks.append(res["_k_stop_laplacians"])
        g = grid_points(case, n)
        neighbours(case, a, "int")
        argv = ["--datadir", a, "--savedir", out] + f25_args(case, n)
        script("run_cov_integrals", argv, log)
        nontriv = check_integrals(case, R, out, log, g, ks, "")
        if case["drop"] is not None and case["use"] != "both":
            # restart after an interruption: the last results are missing
            res = sorted(f for f in os.listdir(out) if "_PT_" in f)
            rnd = np.random.RandomState(case["drop"])
            for f in res:
                if rnd.rand() < 0.5:
                    os.remove(os.path.join(out, f))
            for f in sorted(os.listdir(out)):
                if "temp_integration" in f and rnd.rand() < 0.3:
                    os.remove(os.path.join(out, f))
            script("run_cov_integrals", argv, log)
            check_integrals(case, R, out, log, g, ks, "after a restart: ")
    return nontriv


def check_integrals(case, R, out, log, g, ks, note):
    nontriv = 0
    want_files = set()
    for tau_w in case["tau_w"]:
        for lin in (False, True):
            if case["use"] == ("expm" if lin else "lin"):
                continue
            for i, j in pairs(case, g):
                f = os.path.join(out, f"{NAME}_tau_w{tau_w:.3e}_PT_{'lin_' if lin else ''}"
                                      f"{i:06d}_to_{j:06d}.pickle")
                I, dur = itpt(R, 1 / tau_w, ks[i], ks[j], lin, case["t_s"])
                what = f"{note}integral {i} to {j} tau_w {tau_w} lin={lin}"
                if dur == 0:
                    continue
                want_files.add(os.path.basename(f))
                present(f, log, what)
                with open(f, "rb") as fopen:
                    res = pickle.load(fopen)
                require_close(what + " integration_time", res["integration_time"], dur,
                              0, 1e-9)
                require_close(what, dense(res["ITPT"]), np.triu(I), 1e-6 * dur, 1e-6)
                nontriv += abs(i - j) > 1 or dur > 0
    got = {f for f in os.listdir(out) if "temp_integration" not in f}
    require(got == want_files, lambda: f"{note}unexpected files {sorted(got - want_files)}")
    if case["inter_save"] and case["use"] != "lin" and want_files and not note:
        # steps to restart from
        for tau_w in case["tau_w"]:
            pre = f"{NAME}_tau_w{tau_w:.3e}_temp_integration_"
            require(any(f.startswith(pre) for f in os.listdir(out)),
                    f"no intermediate step of tau_w {tau_w} was saved")
    return nontriv > 2


# ---------------------------------------------------------------- F26 stage 3

@st.composite
def f26_cases(draw):
    k = draw(st.integers(1, 2))
    files = []
    for _ in range(k):
        files.append({"net": draw(gen.net_case(min_n=2, max_n=7, max_events=8, min_events=1,
                                               horizon=6, max_dur=5, labels=False,
                                               scales=[[1, 0], [0.5, 0], [1e-7, 0],
                                                       [1e6, 0]])),
                      "lam": draw(st.sampled_from([1, 0.2, 0.05, 3])),
                      "rev": draw(st.booleans()),
                      "lin": draw(st.booleans()),
                      "extra": draw(st.sampled_from([0, 0, 1, 2]))})
        if not 0.01 < files[-1]["net"]["scale"] < 100:
            files[-1]["lam"] /= files[-1]["net"]["scale"]
    return {"files": files, "repeat": draw(st.sampled_from([1, 2, 3, 5])),
            "mode": draw(st.sampled_from(["full", "full", "largest", "separate", "separate"])),
            "norm": draw(st.booleans()), "rtol": draw(st.sampled_from([None, None, 1e-14])),
            "nproc": draw(st.sampled_from([1, 1, 1, 2])),
            "nfiles": draw(st.sampled_from([1, 2])), **draw(company()),
            "tmp": draw(st.booleans()), "crash": draw(st.booleans())}


def f26_matrix(spec):
    """Integral and duration of a generated network plus isolated nodes."""
    R = ref.RefNet(spec["net"])
    kb = len(R.times) - 1
    I, dur = itpt(R, spec["lam"], *((kb, 0) if spec["rev"] else (0, kb)), spec["lin"], 10)
    n, x = R.m, spec["extra"]
    # isolated nodes: T = 1 and p = 1/N at all times
    S = np.zeros((n + x, n + x))
    S[:n, :n] = I * (n + x) / n
    for i in range(n, n + x):
        S[i, i] = dur * (n + x)
    return S, dur


@st.composite
def f26_option_cases(draw):
    """Options of the stage: initial distribution, static networks, formats."""
    case = draw(f26_cases())
    case["p1"] = draw(st.sampled_from([None, "forward", "backward"]))
    case["static"] = draw(st.sampled_from([False, False, True]))
    case["only"] = case["static"] and draw(st.sampled_from([False, False, True]))
    case["fmt"] = draw(st.sampled_from(["pickle", "pickle", "hickle"]))
    case["samples"] = draw(st.sampled_from([None, None, 1, 2, 100]))
    for spec in case["files"]:
        spec["w"] = draw(st.lists(st.sampled_from([1, 1, 2, 5, 0.1, 0, 1e-10]), min_size=12,
                                  max_size=12).filter(lambda w: w[0] > 1e-3))
        if case["p1"] is not None and 1e-10 in spec["w"]:
            # a probability that must not be rounded to zero
            case["rtol"] = None
        spec["noA"] = draw(st.sampled_from([False, False, False, True]))
        spec["A"] = draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8),
                                            st.sampled_from([1, 1, 2, 0.5])),
                                  min_size=1, max_size=12))
    return case


def f26_p1_matrix(spec):
    """Covariance of a non-homogeneous initial distribution, p1 and duration."""
    R = ref.RefNet(spec["net"])
    kb = len(R.times) - 1
    n, x = R.m, spec["extra"]
    w = np.array(spec["w"][:n + x], dtype=float)
    p = w / w.sum()
    I, dur = itpt(R, spec["lam"], *((kb, 0) if spec["rev"] else (0, kb)), spec["lin"], 10, p[:n])
    M = np.diag(p) * dur
    M[:n, :n] = p[:n, None] * I * p[:n]
    return M, p, dur


def f26_static(spec, n):
    """Generated adjacency matrix, its symmetric covariance at time 1."""
    from scipy.linalg import expm
    A = np.zeros((n, n))
    for i, j, w in spec["A"]:
        A[i % n, j % n] += w
    B = (A + A.T) / 2
    d = B.sum(1)
    T = np.eye(n)
    T[d > 0] = B[d > 0] / d[d > 0, None]
    p = d / d.sum()
    return A, p[:, None] * expm(-(np.eye(n) - T)) - np.outer(p, p)


def f26_option_run(case):
    """Clusterings of other inputs than one homogeneous integral per pickle file."""
    use_name(case)
    from scipy.sparse import csr_matrix, triu
    with tempfile.TemporaryDirectory() as d, ref.quiet():
        a, out, log = (os.path.join(d, x) for x in ("a", "o", "log"))
        os.makedirs(a)
        os.makedirs(out)
        names, mats, ps, statics = [], [], [], []
        for k, spec in enumerate(case["files"]):
            kind = "PT"
            if case["p1"] is None:
                S, dur = f26_matrix(spec)
                n = len(S)
                p = np.ones(n) / n
                data = {"ITPT": csr_matrix(triu(csr_matrix(S))), "integration_time": dur}
                mats.append(S / dur / n ** 2)
            else:
                S, p, dur = f26_p1_matrix(spec)
                n = len(S)
                kind = {"forward": "PTforw", "backward": "PTback"}[case["p1"]]
                data = {{"forward": "ITPT", "backward": "ITPTback"}[case["p1"]]:
                        csr_matrix(triu(csr_matrix(S))),
                        {"forward": "p1", "backward": "p2"}[case["p1"]]:
                        csr_matrix(p[None, :]), "integration_time": dur}
                mats.append(S / dur)
            ps.append(p)
            ends = (k + 1, k) if spec["rev"] else (k, k + 1)
            name = f"{NAME}_tau_w{1 / spec['lam']:.3e}_{kind}_{'lin_' if spec['lin'] else ''}" \
                   f"{ends[0]:06d}_to_{ends[1]:06d}.{case['fmt']}"
            names.append(name)
            dump(data, os.path.join(a, name))
            A, SA = f26_static(spec, n)
            statics.append(None if spec["noA"] else SA)
            if not spec["noA"]:
                with open(os.path.join(a, f"{NAME}_static_A_{k:06d}_to_{k + 1:06d}.pickle"),
                          "wb") as fopen:
                    pickle.dump(csr_matrix(A), fopen)
        if case["p1"] is not None:
            other = "PTback" if case["p1"] == "forward" else "PTforw"
            dump({}, os.path.join(a, names[0].replace("PTforw", "PT").replace("PTback", "PT")
                                  .replace("_PT_", f"_{other}_")))
        neighbours(case, a, "PT")
        argv = ["--datadir", a, "--savedir", out, "--net_name", NAME,
                "--num_repeat", case["repeat"], "--nproc_files", case["nfiles"],
                "--nproc_clustering", case["nproc"]]
        if case["mode"] != "full":
            argv.append({"largest": "--only_largest_comp",
                         "separate": "--separate_comps"}[case["mode"]])
        if not case["norm"]:
            argv.append("--not_normalize_cov_mat")
        if case["rtol"] is not None:
            argv += ["--integral_rtol", case["rtol"]]
        if case["tmp"]:
            argv.append("--save_clustering_before_nvarinf")
        if case["p1"] is not None:
            argv += ["--init_p1", "--direction", case["p1"]]
        if case["static"]:
            argv.append("--compute_static_clustering")
        if case["only"]:
            argv.append("--not_compute_clustering")
        if case["samples"] is not None:
            argv += ["--num_varinf_samples", case["samples"]]
        script("run_clusterings", argv, log)
        for again in range(2):
            require(sorted(f for f in os.listdir(out) if f.startswith("clusters_")) ==
                    sorted("clusters_" + name for name in names),
                    f"results {sorted(os.listdir(out))} of {names}")
            if case["only"]:
                for name in names:
                    with open(os.path.join(out, "clusters_" + name), "rb") as fopen:
                        require("clust_counter" not in pickle.load(fopen),
                                "clusterings that were not asked for")
            else:
                f26_check(case, out, log, names, mats, ps)
            for name, SA in zip(names, statics):
                f26_check_static(case, os.path.join(out, "clusters_" + name),
                                 SA if case["static"] else None)
            if not (case["tmp"] and case["crash"]) or again:
                break
            for name in names:
                os.remove(os.path.join(out, "clusters_" + name))
            script("run_clusterings", argv, log)
    return max(len(M) for M in mats) > 2


def dump(data, f):
    if f.endswith(".hickle"):
        import hickle
        hickle.dump(data, f)
    else:
        with open(f, "wb") as fopen:
            pickle.dump(data, fopen)


def f26_check_static(case, f, SA):
    """Clusterings of the static network against stabilities of its covariance."""
    with open(f, "rb") as fopen:
        res = pickle.load(fopen)
    if SA is None:
        require("clust_counter_static" not in res, "static clusterings of no matrix")
        return
    require("clust_counter_static" in res, "no static clusterings")
    n = len(SA)
    nodes = [[i] for i in range(n)]
    counter = res["clust_counter_static"]
    stabs = [float(x) for x in res["stabilites_static"]]
    require(len(stabs) == case["repeat"] == sum(counter.values()) == len(res["seeds_static"]),
            f"{len(stabs)} stabilities, {sum(counter.values())} partitions, "
            f"{case['repeat']} repetitions")
    own, parts = [], []
    for part, m in counter.items():
        clusters = [set(map(int, c)) for c in part]
        require(sorted(x for c in clusters for x in c) == list(range(n)) and all(clusters),
                f"{part} is not a partition of {n} nodes")
        s = stability(SA, nodes, clusters)
        own += [s] * m
        parts += [clusters] * m
        check_local(SA, nodes, clusters, s)
    for x, y in zip(sorted(stabs), sorted(own)):
        require(abs(x - y) < 1e-8, f"static stabilities {sorted(stabs)}, expected {sorted(own)}")
    require_close("best_stab_static", res["best_stab_static"], max(own), 1e-8)
    require_close("avg_stab_static", res["avg_stab_static"], np.mean(own), 1e-8)
    best = [set(map(int, c)) for c in res["best_cluster_static"]]
    require_close("stability of best_cluster_static", stability(SA, nodes, best), max(own), 1e-8)
    require_close("avg_nclust_static", res["avg_nclust_static"], np.mean([len(p) for p in parts]))
    check_nvi("nvarinf_static", case, res["nvarinf_static"], parts, n)


def check_nvi(what, case, value, parts, n):
    """Mean variation of information of all pairs, or of some of them."""
    if len(parts) < 2 or n < 2:
        return
    vals = [nvi(x, y, n) for x, y in combinations(parts, 2)]
    k = case.get("samples")
    if k is None or k >= len(vals):
        require_close(what, value, np.mean(vals), 1e-9)
    else:
        # the samples are different pairs
        vals.sort()
        lo, hi = np.mean(vals[:k]), np.mean(vals[-k:])
        require(lo - 1e-9 <= value <= hi + 1e-9, f"{what} {value} of {k} pairs in {vals}")


def nvi(c1, c2, n):
    """Variation of information of two partitions over log n."""
    out = 0.0
    for a in c1:
        for b in c2:
            k = len(set(a) & set(b))
            if k:
                out -= k / n * (math.log(k / len(a)) + math.log(k / len(b)))
    return out / math.log(n)


def f26_run(case):
    """Saved clusterings against stabilities recomputed from the integral."""
    use_name(case)
    from scipy.sparse import csr_matrix, triu
    with tempfile.TemporaryDirectory() as d, ref.quiet():
        a, out, log = (os.path.join(d, x) for x in ("a", "o", "log"))
        os.makedirs(a)
        os.makedirs(out)
        names = []
        mats = []
        for k, spec in enumerate(case["files"]):
            S, dur = f26_matrix(spec)
            name = f"{NAME}_tau_w{1 / spec['lam']:.3e}_PT_{'lin_' if spec['lin'] else ''}" \
                   f"{k:06d}_to_{k + 1:06d}.pickle"
            with open(os.path.join(a, name), "wb") as fopen:
                pickle.dump({"ITPT": triu(csr_matrix(S)), "integration_time": dur}, fopen)
            names.append(name)
            n = len(S)
            mats.append(S / dur / n ** 2)
        neighbours(case, a, "PT")
        argv = ["--datadir", a, "--savedir", out, "--net_name", NAME,
                "--num_repeat", case["repeat"], "--nproc_files", case["nfiles"],
                "--nproc_clustering", case["nproc"]]
        if case["mode"] != "full":
            argv.append({"largest": "--only_largest_comp",
                         "separate": "--separate_comps"}[case["mode"]])
        if not case["norm"]:
            argv.append("--not_normalize_cov_mat")
        if case["rtol"] is not None:
            argv += ["--integral_rtol", case["rtol"]]
        if case["tmp"]:
            argv.append("--save_clustering_before_nvarinf")
        script("run_clusterings", argv, log)
        results = f26_check(case, out, log, names, mats)
        got = {f for f in os.listdir(out) if f.startswith("clusters_")}
        require(got == {"clusters_" + x for x in names},
                lambda: f"clusterings {sorted(got)}, expected those of {sorted(names)}")
        if case["tmp"] and case["crash"]:
            # interrupted while computing the variation of information
            for name in names:
                os.remove(os.path.join(out, "clusters_" + name))
            script("run_clusterings", argv, log)
            again = f26_check(case, out, log, names, mats)
            for x, y in zip(results, again):
                require(x["clust_counter"] == y["clust_counter"],
                        "clusterings differ after a restart from the temporary file")
                require_close("best_stab after a restart", y["best_stab"], x["best_stab"])
        else:
            before = {f: open(os.path.join(out, f), "rb").read() for f in os.listdir(out)}
            script("run_clusterings", argv, log)
            for f, b in before.items():
                with open(os.path.join(out, f), "rb") as fopen:
                    require(fopen.read() == b, f"{f} was computed again")
    return max(len(M) for M in mats) > 2


def f26_check(case, out, log, names, mats, ps=None):
    results = []
    for k, (name, M) in enumerate(zip(names, mats)):
        n = len(M)
        p = np.ones(n) / n if ps is None else ps[k]
        f = present(os.path.join(out, "clusters_" + name), log, name)
        with open(f, "rb") as fopen:
            res = pickle.load(fopen)
        results.append(res)
        S = M - np.outer(p, p)
        comps = ref.components(M > (1e-12 if ps is None else 0))
        nodes = [[i] for i in range(n)]
        if case["mode"] == "largest":
            lcc = [int(i) for i in res["largest_comp_nodes"]]
            size = max(len(c) for c in comps)
            require(sorted(lcc) == lcc and len(lcc) == size and lcc in comps,
                    f"largest_comp_nodes {lcc}, components {comps}")
            nodes = [[i for i in range(n) if i not in lcc]] + [[i] for i in lcc]
        if case["mode"] != "full":
            require(res["ncomp"] == len(comps), f"ncomp {res['ncomp']}, expected {len(comps)}")
            lab = res["comp_label"]
            require(lab is not None, "comp_label is None")
            require(all((lab[i] == lab[j]) == any(i in c and j in c for c in comps)
                        for i in range(n) for j in range(n)), f"comp_label {lab}")
        counter = res["clust_counter"]
        stabs = [float(x) for x in res["stabilites"]]
        require(len(stabs) == case["repeat"] == sum(counter.values()),
                f"{len(stabs)} stabilities, {sum(counter.values())} partitions, "
                f"{case['repeat']} repetitions")
        require(len(res["seeds"]) == case["repeat"], "number of seeds")
        own = []
        parts = []
        for part, m in counter.items():
            clusters = [set(map(int, c)) for c in part]
            flat = sorted(x for c in clusters for x in c)
            # nodes that are never visited are no components of their own
            never = set(np.flatnonzero(p == 0)) if case["mode"] == "separate" else set()
            require(flat == [i for i in range(len(nodes)) if i not in never] and all(clusters),
                    f"{part} is not a partition of {len(nodes)} nodes without {never}")
            s = stability(S, nodes, clusters)
            own += [s] * m
            parts += [clusters] * m
            if case["mode"] == "separate":
                for c in clusters:
                    require(any(c <= set(k) for k in comps),
                            f"cluster {c} spans components {comps}")
            check_local(S, nodes, clusters, s)
        for x, y in zip(sorted(stabs), sorted(own)):
            require(abs(x - y) < 1e-8, f"stabilities {sorted(stabs)}, recomputed {sorted(own)}")
        require_close("best_stab", res["best_stab"], max(own), 1e-8)
        require_close("avg_stab", res["avg_stab"], np.mean(own), 1e-8)
        best = [set(map(int, c)) for c in res["best_cluster"]]
        require(tuple(sorted(tuple(sorted(c)) for c in best)) in counter,
                "best_cluster is not one of the partitions")
        require_close("stability of best_cluster", stability(S, nodes, best),
                      res["best_stab"], 1e-8)
        require_close("avg_nclust", res["avg_nclust"], np.mean([len(p) for p in parts]))
        check_nvi("nvarinf", case, res["nvarinf"], parts, len(nodes))
    return results


def stability(S, nodes, clusters):
    out = 0.0
    for c in clusters:
        idx = [i for k in c for i in nodes[k]]
        out += S[np.ix_(idx, idx)].sum()
    return float(out)


def check_local(S, nodes, clusters, s):
    """At least as stable as singletons, and no merge of two clusters gains
    (up to the threshold below which a covariance counts as zero)."""
    base = stability(S, nodes, [{k} for k in range(len(nodes))])
    require(s > base - 1e-5, f"{clusters} has the stability {s}, singletons {base}")
    for x, y in combinations(clusters, 2):
        gain = stability(S, nodes, [x | y]) - stability(S, nodes, [x, y])
        require(gain < 1e-7, f"merging {x} and {y} of {clusters} improves the "
                             f"stability by {gain}")


PROPS = {
    "F24": ("two or more slices contain events, or two waiting times",
            [Sub("slices", f24_cases, f24_run, 480, 12000, 8)],
            ["waiting times of one run differ in the four significant digits that file names "
             "hold",
             "matrices are saved as sparse stochastic matrices or as differences, the two "
             "formats the stage supports"]),
    "F25": ("at least three integrals of positive duration",
            [Sub("integrals", f25_cases, f25_run, 400, 10000, 8)],
            ["restarts are made with one kind of transition matrices, the documented "
             "restriction"]),
    "F26": ("a network of at least three nodes",
            [Sub("clusterings", f26_cases, f26_run, 640, 16000, 8),
             Sub("options", f26_option_cases, f26_option_run, 320, 8000, 8)],
            ["the partitions are only judged by the stabilities recomputed from the "
             "integral; the optimum is not assumed to be found"]),
}
