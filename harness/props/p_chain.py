"""F30: the three command line stages, one after the other, against the
in-memory interface and the reference."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Sub, dense, require, require_close
from . import p_scripts as ps


@st.composite
def chain_cases(draw):
    case = draw(ps.f25_cases())
    case.update(which=draw(st.sampled_from(["all", "all", "forward", "backward", "start",
                                            "ends", "one"])),
                drop=None, repeat=draw(st.sampled_from([1, 2])),
                mode=draw(st.sampled_from(["full", "full", "largest", "separate"])),
                norm=draw(st.booleans()), nfiles=draw(st.sampled_from([1, 2])),
                nproc=1, tmp=draw(st.booleans()))
    case["tau_w"] = case["tau_w"][:draw(st.integers(1, 2))]
    return case


def in_memory(case, tau_w, ta, tb, lin, back):
    """Covariance integral of the window from the FlowStability object."""
    from flowstab.flow_stability import FlowStability
    s, t, x, y = ref.columns(case["net"])
    fs = FlowStability()
    fs.set_temporal_network(source_nodes=s, target_nodes=t, starting_times=x, ending_times=y)
    fs.t_start, fs.t_stop = ta, tb
    fs.set_time_scale(tau_w)
    require(fs.compute_laplacian_matrices() is fs, "FlowStability: Laplacians refused")
    kw = {"linear_approx": True, "t_s": case["t_s"]} if lin else {}
    require(fs.compute_inter_transition_matrices(**kw) is fs,
            "FlowStability: transition matrices refused")
    fs.time_direction = -1 if back else 1
    require(fs.set_flow_clustering() is fs, "FlowStability: clustering refused")
    table = fs.flow_clustering_backward if back else fs.flow_clustering_forward
    return dense(table[tau_w].I_list[0])


def chain_run(case):
    """Files of the last stage against the in-memory flow clustering."""
    ps.use_name(case)
    from flowstab.temporal_network import ContTempNetwork
    R = ref.RefNet(case["net"])
    n = R.m
    with tempfile.TemporaryDirectory() as d, ref.quiet():
        a, b, out, log = (os.path.join(d, x) for x in ("a", "b", "c", "log"))
        ps.write_net(case, os.path.join(d, "n"))
        for x in (a, b, out):
            os.makedirs(x)
        ps.script("run_laplacians_transmats",
                  ps.slice_args(case, os.path.join(d, "n"), a) + ps.f24_args(case), log)
        num = len({f.split("_int")[1][:6] for f in os.listdir(a)})
        pre = "_lin" if case["kind"] == "lin" else ""
        ks = []
        for k in range(num):
            res = ContTempNetwork.load_inter_T(
                ps.stem(a, case["tau_w"][0], k) + pre + "_inter_trans_mat")
            ks.append(res["_k_start_laplacians"])
        ks.append(res["_k_stop_laplacians"])
        lo, hi = ps.windows(case, R, num)
        require(all(x <= k <= y for x, k, y in zip(lo, ks, hi)),
                f"slices at the events {ks}, expected {lo} to {hi}")
        g = ps.grid_points(case, num)
        ps.neighbours(case, a, "int")
        ps.script("run_cov_integrals", ["--datadir", a, "--savedir", b]
                  + ps.f25_args(case, num), log)
        ps.neighbours(case, b, "PT")
        argv = ["--datadir", b, "--savedir", out, "--net_name", ps.NAME,
                "--num_repeat", case["repeat"], "--nproc_files", case["nfiles"],
                "--nproc_clustering", case["nproc"]]
        if case["mode"] != "full":
            argv.append({"largest": "--only_largest_comp",
                         "separate": "--separate_comps"}[case["mode"]])
        if not case["norm"]:
            argv.append("--not_normalize_cov_mat")
        if case["tmp"]:
            argv.append("--save_clustering_before_nvarinf")
        ps.script("run_clusterings", argv, log)
        names, mats = [], []
        for tau_w in case["tau_w"]:
            for lin in (False, True):
                if case["use"] == ("expm" if lin else "lin"):
                    continue
                for i, j in ps.pairs(case, g):
                    if ks[i] == ks[j]:
                        continue
                    I, dur = ps.itpt(R, 1 / tau_w, ks[i], ks[j], lin, case["t_s"])
                    M = I / dur / n ** 2
                    ta, tb = sorted((R.times[ks[i]], R.times[ks[j]]))
                    C = in_memory(case, tau_w, ta, tb, lin, ks[j] < ks[i])
                    require_close(f"in-memory covariance {i} to {j}", C, M - 1 / n ** 2,
                                  atol=1e-8)
                    names.append(f"{ps.NAME}_tau_w{tau_w:.3e}_PT_{'lin_' if lin else ''}"
                                 f"{i:06d}_to_{j:06d}.pickle")
                    mats.append(M)
        got = {f for f in os.listdir(out) if f.startswith("clusters_")}
        require(got == {"clusters_" + x for x in names},
                lambda: f"clusterings {sorted(got)}, expected those of {sorted(names)}")
        ps.f26_check(case, out, log, names, mats)
    return len(names) > 1 and n > 2


PROPS = {
    "F30": ("at least two integrals on a network of at least three nodes",
            [Sub("chain", chain_cases, chain_run, 320, 8000, 8)],
            ["waiting times of one run differ in the four significant digits that file names "
             "hold",
             "the partitions are only judged by the stabilities recomputed from the "
             "in-memory covariance; the optimum is not assumed to be found"]),
}
