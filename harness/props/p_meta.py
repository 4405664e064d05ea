"""F27: the analysis does not depend on how the same contacts are described."""
import random

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Sub, dense, require, require_close

OPS = ["relabel", "shift", "scale", "reverse", "orient", "rows", "outside", "split"]


@st.composite
def cases(draw):
    return {"n": draw(st.integers(3, 20)), "m": draw(st.integers(2, 36)),
            "seed": draw(st.integers(0, 2 ** 20)),
            "horizon": draw(st.sampled_from([6, 15, 30])),
            "dur": draw(st.sampled_from([2, 6, 20])),
            "ops": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=5)),
            "lam": draw(st.sampled_from([1, 0.25, 0.03, 4])),
            "back": draw(st.booleans()),
            "route": draw(st.sampled_from(["class", "csr", "stoch", "dense", "linear"])),
            "other": draw(st.sampled_from([None, "class", "csr", "stoch", "dense"])),
            "win": draw(st.sampled_from(["full", "inner", "inner"]))}


def contacts(case, rnd):
    last = {}
    out = []
    evs = []
    for _ in range(case["m"]):
        u = rnd.randrange(case["n"])
        v = rnd.randrange(case["n"] - 1)
        v += v >= u
        s = rnd.randrange(case["horizon"])
        evs.append((s, s + rnd.randint(1, case["dur"]), u, v))
    for s, e, u, v in sorted(evs):
        key = (min(u, v), max(u, v))
        if s >= last.get(key, -1):
            last[key] = e
            out.append([u, v, s, e])
    return out


def transform(op, rnd, ev, lam, win, back):
    """The same situation, described differently: (ev, lam, win, back, names)."""
    names = {}
    if op == "relabel":
        nodes = sorted({x for c in ev for x in c[:2]})
        new = rnd.sample(range(3 * len(nodes)), len(nodes))
        names = dict(zip(nodes, new))
        ev = [[names[u], names[v], s, e] for u, v, s, e in ev]
    elif op == "shift":
        d = rnd.choice([-64, 3, 1024, 0.5])
        ev = [[u, v, s + d, e + d] for u, v, s, e in ev]
        win = [win[0] + d, win[1] + d]
    elif op == "scale":
        # powers of two, so that all times stay exact
        f = rnd.choice([0.25, 0.5, 2, 8, 2.0 ** -20, 2.0 ** 20])
        span = f * max(abs(t) for c in ev for t in c[2:])
        if not 2.0 ** -22 < span < 2.0 ** 30:
            f = 1 / f
        ev = [[u, v, s * f, e * f] for u, v, s, e in ev]
        win = [win[0] * f, win[1] * f]
        lam = lam / f
    elif op == "reverse":
        ev = [[u, v, -e, -s] for u, v, s, e in ev]
        win = [-win[1], -win[0]]
        back = not back
    elif op == "orient":
        ev = [[v, u, s, e] if rnd.random() < 0.5 else [u, v, s, e] for u, v, s, e in ev]
    elif op == "rows":
        ev = list(ev)
        rnd.shuffle(ev)
    elif op == "outside":
        nodes = sorted({x for c in ev for x in c[:2]})
        lo = min(min(c[2] for c in ev), win[0])
        hi = max(max(c[3] for c in ev), win[1])
        ev = list(ev)
        for _ in range(rnd.randint(1, 3)):
            u, v = rnd.sample(nodes, 2)
            d = rnd.choice([0, 0, 1, 2.5])
            if rnd.random() < 0.5:
                ev.append([u, v, lo - d - rnd.choice([1, 3]), lo - d])
                lo = ev[-1][2]
            else:
                ev.append([u, v, hi + d, hi + d + rnd.choice([1, 3])])
                hi = ev[-1][3]
    elif op == "split":
        times = sorted({t for c in ev for t in c[2:]})
        out = []
        for u, v, s, e in ev:
            inner = [t for t in times if s < t < e]
            if inner and rnd.random() < 0.5:
                t = rnd.choice(inner)
                out += [[u, v, s, t], [v, u, t, e]]
            else:
                out.append([u, v, s, e])
        ev = out
    return ev, lam, win, back, names


def analyse(ev, lam, win, back, route):
    """(labels, T of the whole window, flow integral)."""
    from flowstab.network_clustering import FlowIntegralClustering
    from flowstab.temporal_network import ContTempNetwork
    cols = dict(source_nodes=[c[0] for c in ev], target_nodes=[c[1] for c in ev],
                starting_times=[c[2] for c in ev], ending_times=[c[3] for c in ev])
    with ref.quiet():
        if route == "class":
            import flowstab
            from flowstab.flow_stability import FlowStability
            flowstab.set_log_level("CRITICAL")
            fs = FlowStability()
            fs.set_temporal_network(**cols)
            fs.t_start, fs.t_stop = win
            fs.compute_laplacian_matrices()
            ts = 1 / lam
            fs.set_time_scale(ts)
            fs.compute_inter_transition_matrices()
            fs.time_direction = -1 if back else 1
            fs.set_flow_clustering()
            net = fs.temporal_network
            fc = (fs.flow_clustering_backward if back else fs.flow_clustering_forward)[ts]
            T, integral = fc.T_list[-1], fc.I_list[-1]
        else:
            net = ContTempNetwork(**cols)
            net.compute_laplacian_matrices(t_start=win[0], t_stop=win[1])
            if route == "linear":
                net.compute_lin_inter_transition_matrices(lamda=lam, t_s=7,
                                                          use_sparse_stoch=False)
                inter = net.inter_T_lin[lam][7]
                net.compute_lin_transition_matrices(lamda=lam, t_s=7, reverse_time=back)
                T = net.T_lin[lam][7]
            else:
                net.compute_inter_transition_matrices(
                    lamda=lam, use_sparse_stoch=route == "stoch",
                    dense_expm=route == "dense")
                inter = net.inter_T[lam]
                net.compute_transition_matrices(lamda=lam, reverse_time=back)
                T = net.T[lam]
            if isinstance(T, list):
                T = T[-1]
            times = [float(t) for t in net.times if win[0] <= t <= win[1]]
            fc = FlowIntegralClustering(T_inter_list=inter, time_list=times,
                                        reverse_time=back)
            integral = fc.I_list[-1]
        labels = [net.node_to_label_dict[i] for i in range(net.num_nodes)]
    return labels, dense(T), dense(integral)


def reorder(M, frm, to):
    idx = [frm.index(x) for x in to]
    return M[np.ix_(idx, idx)]


def run(case):
    """Chains of equivalent descriptions give the same transition matrix and the
    same flow integral."""
    rnd = random.Random(case["seed"])
    ev = contacts(case, rnd)
    times = sorted({t for c in ev for t in c[2:]})
    if case["win"] == "full":
        win = [times[0], times[-1]]
    else:
        win = sorted(rnd.sample(times, 2))
    # the contacts, rate, window and direction are described in two ways
    lab0, T0, I0 = analyse(ev, case["lam"], win, case["back"], case["route"])
    ev1, lam1, win1, back1 = ev, case["lam"], win, case["back"]
    names = {x: x for x in lab0}
    for op in case["ops"]:
        ev1, lam1, win1, back1, new = transform(op, rnd, ev1, lam1, win1, back1)
        if new:
            names = {a: new[b] for a, b in names.items()}
    route = case["route"] if case["route"] == "linear" else case["other"] or case["route"]
    lab1, T1, I1 = analyse(ev1, lam1, win1, back1, route)
    require(set(lab1) == set(names.values()), f"nodes {lab1}")
    to = [names[x] for x in lab0]
    what = f"{'+'.join(case['ops'])} ({case['route']} against {route})"
    require_close(f"transition matrix, {what}", reorder(T1, lab1, to), T0, 1e-7, 1e-6)
    require_close(f"flow integral, {what}", reorder(I1, lab1, to), I0, 1e-8, 1e-6)
    # composition at an event time within the window
    inner = [t for t in times if win[0] < t < win[1]]
    if inner and case["route"] != "linear":
        t = rnd.choice(inner)
        _, Ta, _ = analyse(ev, case["lam"], [win[0], t], case["back"], case["route"])
        _, Tb, _ = analyse(ev, case["lam"], [t, win[1]], case["back"], case["route"])
        require_close("composition of two windows", Tb @ Ta if case["back"] else Ta @ Tb,
                      T0, 1e-7, 1e-6)
    # probabilities and conservation
    require_close("row sums", T0.sum(1), np.ones(len(T0)), 1e-7)
    require((T0 > -1e-12).all(), "negative probability")
    require_close("sum of the integral's rows", I0.sum(1), np.zeros(len(I0)), 1e-7)
    require_close("symmetry of the integral", I0, I0.T, 1e-9)
    return len(inner) > 1 and len(T0) > 3


PROPS = {
    "F27": ("F27: more than three nodes and more than three event times in the window",
            [Sub("equivalent", cases, run, 320, 12000, 8)],
            ["windows start and stop at event times (others are covered by F01); shifts and "
             "factors of the times are exactly representable"]),
}
