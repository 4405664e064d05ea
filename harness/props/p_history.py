"""F29: histories of computations on one temporal network."""
import os
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, dense, require, require_close, spare
from .p_temporal import NET_ASSUME, default_lamda

LAM = [0.1, 0.7, 1, 4, 0.1000001, 0.7004, 25]
TSL = [10, 2, 5.5, 10.000001]


@st.composite
def history_cases(draw):
    net = draw(gen.net_case(inst="any", min_n=3, max_n=6, max_events=10, min_events=2))
    kinds = ["lap", "inter", "inter", "lin", "T", "T", "Tlin", "static", "hold", "pickle",
             "saveload", "file", "use"]
    plan = draw(st.sampled_from([
        [], [], ["inter", "inter", "T", "T", "file:T"], ["lin", "lin", "Tlin", "Tlin", "file:Tlin"],
        ["inter", "inter", "file:inter", "file:inter"], ["lin", "lin", "file:lin", "file:lin"],
        ["lap", "inter", "T", "hold", "lap", "inter", "T"],
        ["lap", "lin", "Tlin", "hold", "lap", "lin", "Tlin"]]))
    plan = list(plan)
    inter = draw(st.booleans())
    for _ in range(draw(st.integers(0, 4)) if plan else draw(st.integers(3, 14))):
        plan.insert(draw(st.integers(0, len(plan))), draw(st.sampled_from(kinds)))
    b = st.booleans()
    ops = []
    for k in plan:
        k, _, sub = k.partition(":")
        if k == "lap":
            ops.append([k, draw(gen.window(net)), draw(b)])
        elif k == "inter":
            ops.append([k, draw(st.sampled_from(LAM + [None])), draw(b), draw(b), draw(b),
                        draw(gen.window(net))])
        elif k == "lin":
            ops.append([k, draw(st.sampled_from(LAM + [None])), draw(st.sampled_from(TSL)),
                        draw(b), draw(b), draw(gen.window(net))])
        elif k == "T":
            ops.append([k, draw(st.integers(0, 4)), inter and draw(b), draw(b), draw(b)])
        elif k == "Tlin":
            ops.append([k, draw(st.integers(0, 9)), inter and draw(b), draw(b)])
        elif k == "static":
            ops.append([k, draw(gen.window(net))])
        elif k == "file":
            ops.append([k, sub or draw(st.sampled_from(["inter", "lin", "T", "Tlin"])),
                        draw(st.sampled_from([0, 1, 2, 5, 5])), draw(b), draw(b),
                        draw(st.sampled_from([None, None, 0.05, 0.2]))])
        elif k == "use":
            ops.append([k, draw(st.integers(0, 4)), draw(b), draw(st.integers(0, 99))])
        else:
            ops.append([k])
    return {"net": net, "ops": ops}


class Model:
    """What a network that was asked for all this has to hold."""

    def __init__(self, R):
        self.R = R
        self.lap = None
        self.clear()

    def clear(self):
        self.adj = False
        self.inter, self.lin, self.T, self.Tlin = {}, {}, {}, {}

    def want_inter(self, lam):
        return self.R.inter(lam, *self.lap, self.inter[lam][0])

    def want_lin(self, lam, ts):
        return self.R.lin(lam, *self.lap, ts, self.lin[lam, ts][0])


def find_key(what, table, lam):
    require(lam in table, f"{what}: lamda {lam} not among {list(table)}")
    return lam


def new_key(what, lam, R, before, table):
    """Key of the lamda asked for, which is None for the default."""
    if lam is not None:
        return lam
    want = default_lamda(R)
    keys = [x for x in table if x not in before] or list(table)
    keys = [x for x in keys if abs(x / want - 1) < 1e-9]
    require(len(keys) >= 1, f"{what}: default lamda {want} not among {list(table)}")
    return min(keys, key=lambda x: abs(x - want))


def same_list(what, got, want, atol=1e-8):
    require(len(got) == len(want), f"{what}: {len(got)} matrices, expected {len(want)}")
    for k, (G, E) in enumerate(zip(got, want)):
        require_close(f"{what} [{k}]", G, E, atol=atol)


def verify(what, net, m):
    R = m.R
    if m.lap is None:
        for attr in ("laplacians", "inter_T", "inter_T_lin", "T", "T_lin"):
            require(not getattr(net, attr, None), f"{what}: {attr} present")
        return
    a, b = m.lap
    same_list(f"{what}: Laplacians", net.laplacians, [R.laplacian(k) for k in range(a, b)],
              1e-12)
    if m.adj:
        same_list(f"{what}: adjacencies", net.adjacencies,
                  [R.adjacency(k) for k in range(a, b)], 1e-12)
    for attr, n in (("inter_T", len(m.inter)), ("inter_T_lin", len({x for x, _ in m.lin})),
                    ("T", len(m.T)), ("T_lin", len({x for x, _ in m.Tlin}))):
        require(len(getattr(net, attr, {})) == n,
                f"{what}: {attr} has {list(getattr(net, attr, {}))}")
    for lam in m.inter:
        same_list(f"{what}: inter_T of {lam}", net.inter_T[find_key(what, net.inter_T, lam)],
                  m.want_inter(lam))
    for lam, ts in m.lin:
        same_list(f"{what}: inter_T_lin of {lam}, {ts}",
                  net.inter_T_lin[find_key(what, net.inter_T_lin, lam)][ts],
                  m.want_lin(lam, ts))
    for lam, (inter, rev) in m.T.items():
        cum = ref.cumulative(m.want_inter(lam), rev)
        G = net.T[find_key(what, net.T, lam)]
        same_list(f"{what}: T of {lam}", G if inter else [G], cum if inter else cum[-1:])
    for (lam, ts), (inter, rev) in m.Tlin.items():
        cum = ref.cumulative(m.want_lin(lam, ts), rev)
        G = net.T_lin[find_key(what, net.T_lin, lam)][ts]
        same_list(f"{what}: T_lin of {lam}, {ts}", G if inter else [G],
                  cum if inter else cum[-1:])


def matrices(net):
    """All matrices the user can hold, with their values now."""
    out = []
    for attr in ("laplacians", "adjacencies"):
        out += [(f"{attr}[{k}]", M) for k, M in enumerate(getattr(net, attr, []))]

    def walk(name, x):
        if isinstance(x, dict):
            for k, v in x.items():
                walk(f"{name}[{k}]", v)
        elif isinstance(x, list):
            for k, v in enumerate(x):
                walk(f"{name}[{k}]", v)
        else:
            out.append((name, x))
    for attr in ("inter_T", "inter_T_lin", "T", "T_lin"):
        walk(attr, getattr(net, attr, {}))
    return [(name, M, dense(M).copy()) for name, M in out]


def is_compact(M):
    return type(M).__name__ == "SparseStochMat"


def file_op(what, net, m, op, tmp):
    """Save some of the matrices to a file and compare what comes back."""
    _, kind, pick, compressed, delta, tol = op
    kw = {"compressed": compressed}
    name = os.path.join(tmp, "f")
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    if kind in ("inter", "lin"):
        table = m.inter if kind == "inter" else m.lin
        if not table:
            return
        attr = "inter_T" if kind == "inter" else "inter_T_lin"
        lams = sorted({x if kind == "inter" else x[0] for x in table})
        lam = None if pick == 5 else lams[pick % len(lams)]
        asked = lams if lam is None else [lam]
        mats = []
        for x in asked:
            v = getattr(net, attr)[find_key(what, getattr(net, attr), x)]
            for y in ([v] if kind == "inter" else v.values()):
                mats += y
        kinds = {is_compact(M) for M in mats}
        if len(kinds) > 1:
            return                  # formats that cannot be stored together
        delta = not kinds.pop()
        key = None if lam is None else find_key(what, getattr(net, attr), lam)
        save = net.save_inter_T if kind == "inter" else net.save_inter_T_lin
        # differences are rounded once, when they are first made
        tol = None if delta else tol
        if tol is not None:
            kw["tol"] = tol
        atol = 1e-6 + 2 * (tol or 0)
        save(name, lamda=key, save_delta=delta, **kw)
        back = net.load_inter_T(name)
        require(len(back[attr]) == len(asked), f"{what}: lamdas {list(back[attr])}")
        for x in asked:
            got = back[attr][find_key(what, back[attr], x)]
            if kind == "inter":
                same_list(f"{what}: {x}", got, m.want_inter(x), atol)
            else:
                ts = [z for y, z in m.lin if y == x]
                require(sorted(got) == sorted(ts), f"{what}: t_s {list(got)}")
                for z in ts:
                    same_list(f"{what}: {x}, {z}", got[z], m.want_lin(x, z), atol)
    else:
        table = m.T if kind == "T" else m.Tlin
        attr = "T" if kind == "T" else "T_lin"
        lams = sorted({x if kind == "T" else x[0] for x in table})
        if not lams:
            return
        lam = None if pick == 5 else lams[pick % len(lams)]
        asked = lams if lam is None else [lam]
        sel = {x: v for x, v in table.items() if (x if kind == "T" else x[0]) in asked}
        if any(v[0] for v in sel.values()):
            return                  # documented: single matrices only
        mats = []
        for x in asked:
            v = getattr(net, attr)[find_key(what, getattr(net, attr), x)]
            mats += [v] if kind == "T" else v.values()
        key = None if lam is None else find_key(what, getattr(net, attr), lam)
        save = net.save_T if kind == "T" else net.save_T_lin
        if tol is not None:
            kw["tol"] = tol
        save(name, lamda=key, **kw)
        back = net.load_T(name)
        require(len(back[attr]) == len(asked), f"{what}: lamdas {list(back[attr])}")
        for x, (_, rev) in sel.items():
            if kind == "T":
                got = back[attr][find_key(what, back[attr], x)]
                want = ref.cumulative(m.want_inter(x), rev)[-1]
            else:
                got = back[attr][find_key(what, back[attr], x[0])][x[1]]
                want = ref.cumulative(m.want_lin(*x), rev)[-1]
            require_close(f"{what}: {x}", got, want, atol=1e-6 + 2 * (tol or 0))
    a, b = m.lap
    require((back["_k_start_laplacians"], back["_k_stop_laplacians"]) == (a, b),
            f"{what}: window {back['_k_start_laplacians']}, {back['_k_stop_laplacians']}")
    require_close(f"{what}: times", back["times_k_start_to_k_stop+1"], m.R.times[a:b + 1],
                  atol=0)


def run_history(case):
    """Histories of computations, files, copies and uses of one network against
    the reference of what was asked for last."""
    R = ref.RefNet(case["net"])
    m = Model(R)
    inst = case["net"]["inst"]
    done = set()
    held = []
    tmp = tempfile.mkdtemp(prefix="verif_hist_")
    try:
        with ref.quiet():
            net = ref.build_net(case["net"])
            for i, op in enumerate(case["ops"]):
                what = f"operation {i} {op}"
                kind = op[0]
                if kind == "lap":
                    t0, t1 = (ref.half(case["net"], h) for h in op[1])
                    net.compute_laplacian_matrices(**spare(t_start=t0, t_stop=t1,
                                                   save_adjacencies=op[2]))
                    m.lap = R.window(t0, t1)
                    m.clear()
                    m.adj = op[2]
                elif kind in ("inter", "lin"):
                    kw = {}
                    t0, t1 = (ref.half(case["net"], h) for h in op[5])
                    kw = {"t_start": t0, "t_stop": t1}
                    fix = op[4] and not inst
                    if not inst:
                        kw["fix_tau_k"] = fix
                    if m.lap is None:
                        m.lap = R.window(t0, t1)
                    attr = "inter_T" if kind == "inter" else "inter_T_lin"
                    before = list(getattr(net, attr, {}))
                    if kind == "inter":
                        net.compute_inter_transition_matrices(**spare(
                            lamda=op[1], use_sparse_stoch=op[2], dense_expm=op[3], **kw))
                        lam = new_key(what, op[1], R, before, net.inter_T)
                        m.inter.setdefault(lam, (fix,))
                    else:
                        net.compute_lin_inter_transition_matrices(**spare(
                            lamda=op[1], t_s=op[2], use_sparse_stoch=op[3], **kw))
                        lam = new_key(what, op[1], R, before, net.inter_T_lin)
                        m.lin.setdefault((lam, op[2]), (fix,))
                elif kind == "T":
                    if not m.inter:
                        continue
                    lam = sorted(m.inter)[op[1] % len(m.inter)]
                    net.compute_transition_matrices(**spare(
                        lamda=find_key(what, net.inter_T, lam), save_intermediate=op[2],
                        reverse_time=op[3], force_csr=op[4]))
                    m.T.setdefault(lam, (op[2], op[3]))
                elif kind == "Tlin":
                    if not m.lin:
                        continue
                    lam, ts = sorted(m.lin)[op[1] % len(m.lin)]
                    net.compute_lin_transition_matrices(**spare(
                        lamda=find_key(what, net.inter_T_lin, lam), t_s=ts,
                        save_intermediate=op[2], reverse_time=op[3]))
                    m.Tlin.setdefault((lam, ts), (op[2], op[3]))
                elif kind == "static":
                    t0, t1 = (ref.half(case["net"], h) for h in op[1])
                    A = net.compute_static_adjacency_matrix(start_time=t0, end_time=t1)
                    lo = min(R.times) if t0 is None else t0
                    hi = max(R.times) if t1 is None else t1
                    W = np.zeros((R.m, R.m))
                    for u, v, s, e in R.ev:
                        d = max(0, min(e, hi) - max(s, lo))
                        W[u, v] += d
                        W[v, u] += d
                    require_close(f"{what}: static", A, W, atol=1e-9)
                    continue
                elif kind == "hold":
                    held += matrices(net)
                    continue
                elif kind == "pickle":
                    net = pickle.loads(pickle.dumps(net))
                elif kind == "saveload":
                    f = os.path.join(tmp, "net")
                    net.save(f)
                    net = type(net).load(f)
                    os.remove(f + ".pickle")
                elif kind == "file":
                    file_op(what, net, m, op, tmp)
                elif kind == "use":
                    if not m.inter:
                        continue
                    use_op(what, net, m, op)
                done.add(kind)
                verify(what, net, m)
            for name, M, value in held:
                require_close(f"{name}, held from earlier, at the end", M, value, atol=0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return len(done) >= 3 and m.lap is not None and m.lap[1] - m.lap[0] >= 2


def use_op(what, net, m, op):
    """A flow clustering of the network; leaves the network as it is."""
    from flowstab.network_clustering import FlowIntegralClustering
    lam = sorted(m.inter)[op[1] % len(m.inter)]
    a, b = m.lap
    if b - a < 1:
        return
    Ts = net.inter_T[find_key(what, net.inter_T, lam)]
    times = net.times[a:b + 1]
    rev = op[2]
    compact = all(is_compact(M) for M in Ts)
    kw = {"T_inter_list": list(Ts)}
    if not compact:
        kw = {"T_inter_list": [np.asarray(M.todense() if not is_compact(M) else dense(M))
                               for M in Ts]}
    fc = FlowIntegralClustering(time_list=list(times), reverse_time=rev, **kw)
    fc.find_louvain_clustering(rnd_seed=op[3])
    tt = np.array(m.R.times[a:b + 1], dtype=float)
    if rev:
        tt = tt[::-1]
    p = np.full(m.R.m, 1 / m.R.m)
    want = ref.flow_integral(ref.cumulative(m.want_inter(lam), rev), np.abs(np.diff(tt)), p)
    I = fc.I_list[0]
    if hasattr(I, "get_full_autocov_mat"):
        I = I.get_full_autocov_mat()
    require_close(f"{what}: integral", I, want, atol=1e-8)


PROPS = {
    "F29": ("A history is non-trivial when it has at least three kinds of operations and "
            "its last window covers at least two steps.",
            [Sub("history", history_cases, run_history, quick=1200, thorough=40000, shards=8)],
            NET_ASSUME),
}
