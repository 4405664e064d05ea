"""F01-F04: Laplacians, inter-event transitions, products, linear approximation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, Violation, dense, require, require_close, spare


# ------------------------------------------------------------------ F01

@st.composite
def lap_cases(draw):
    net = draw(gen.net_case(inst="any", scales=gen.ALL_SCALES))
    wins = draw(st.lists(gen.window(net), min_size=1, max_size=3))
    return {"net": net, "wins": wins, "adj": draw(st.booleans())}


def check_laplacians(net, R, win, case_net, save_adj, extra=""):
    t0, t1 = ref.half(case_net, win[0]), ref.half(case_net, win[1])
    a, b = R.window(t0, t1)
    with ref.quiet():
        net.compute_laplacian_matrices(**spare(t_start=t0, t_stop=t1, save_adjacencies=save_adj))
    require_close(f"event times{extra}", np.asarray(net.times, dtype=float), R.times,
                  atol=0, rtol=0)
    require(len(net.laplacians) == max(0, b - a),
            f"{len(net.laplacians)} Laplacians for the window {t0}..{t1}{extra}, "
            f"expected {max(0, b - a)}")
    for k in range(a, b):
        require_close(f"Laplacian of step {k}{extra}", net.laplacians[k - a], R.laplacian(k),
                      atol=1e-12)
    if save_adj:
        require(len(net.adjacencies) == max(0, b - a), f"number of adjacencies{extra}")
        for k in range(a, b):
            require_close(f"adjacency of step {k}{extra}", net.adjacencies[k - a],
                          R.adjacency(k), atol=0)
    return a, b


def run_laplacians(case):
    """Every Laplacian/adjacency of the window equals the dense model built
    from the active contacts, repeatedly on the same object."""
    net = ref.build_net(case["net"])
    R = ref.RefNet(case["net"])
    require(net.num_nodes == R.m, "number of nodes")
    nontrivial = False
    for i, win in enumerate(case["wins"]):
        a, b = check_laplacians(net, R, win, case["net"], case["adj"],
                                f" (window {i})")
        nontrivial |= b - a >= 2
    return nontrivial and len(case["net"]["ev"]) >= 2


# ------------------------------------------------------------------ F02

def unscaled(net):
    """Rates of other networks are too large for steps of duration one."""
    return [net["scale"], net["off"]] in gen.SCALES


@st.composite
def inter_cases(draw):
    net, lams = draw(gen.rated_net(st.lists(st.one_of(st.none(), gen.lamdas()), min_size=1,
                                            max_size=3)))
    win = draw(gen.window(net))
    return {"net": net, "win": win, "lams": lams,
            "sparse_stoch": draw(st.booleans()), "dense_expm": draw(st.booleans()),
            "fix": unscaled(net) and draw(st.booleans()), "split": draw(st.booleans())}


def default_lamda(R):
    return 1 / float(np.median(np.diff(R.times)))


def prepare(case_net, win, split):
    """A network whose window is given either to the Laplacians (split) or,
    later, to the transition matrices."""
    net = ref.build_net(case_net)
    R = ref.RefNet(case_net)
    t0, t1 = ref.half(case_net, win[0]), ref.half(case_net, win[1])
    a, b = R.window(t0, t1)
    kw = {}
    if split:
        net.compute_laplacian_matrices(**spare(t_start=t0, t_stop=t1))
    else:
        kw = {"t_start": t0, "t_stop": t1}
    return net, R, a, b, kw


def check_stochastic(what, M, atol=1e-9):
    D = dense(M)
    require(np.all(np.isfinite(D)), f"{what}: not finite")
    require(D.min() >= -atol, f"{what}: negative entry {D.min()!r}")
    require(np.all(np.abs(D.sum(1) - 1) <= atol), f"{what}: row sums {D.sum(1)!r}")


def run_inter(case):
    """inter_T[lamda][k] = exp(-lamda tau_k L_k) whatever the format and the
    sequence of lamdas."""
    with ref.quiet():
        net, R, a, b, kw = prepare(case["net"], case["win"], case["split"])
        inst = case["net"]["inst"]
        for lam in case["lams"]:
            k2 = dict(kw)
            if not inst:
                k2["fix_tau_k"] = case["fix"]
            net.compute_inter_transition_matrices(**spare(
                lamda=lam, use_sparse_stoch=case["sparse_stoch"],
                dense_expm=case["dense_expm"], **k2))
        for lam in case["lams"]:
            key = lam
            if lam is None:
                want = default_lamda(R)
                keys = [x for x in net.inter_T if abs(x - want) <= 1e-9 * want]
                require(len(keys) >= 1, f"default lamda: keys {list(net.inter_T)}, "
                                        f"expected {want}")
                key = min(keys, key=lambda x: abs(x - want))
            got = net.inter_T[key]
            exp = R.inter(key, a, b, case["fix"])
            require(len(got) == len(exp),
                    f"lamda {key}: {len(got)} transition matrices, expected {len(exp)}")
            for k, (G, E) in enumerate(zip(got, exp)):
                require_close(f"inter_T[{key}][{k}]", G, E, atol=1e-8)
                check_stochastic(f"inter_T[{key}][{k}]", G)
        asked = [default_lamda(R) if x is None else x for x in case["lams"]]
        require(all(any(abs(k - x) <= 1e-9 * x for x in asked) for k in net.inter_T),
                f"lamda entries {list(net.inter_T)}, asked for {asked}")
    return b - a >= 2


# ------------------------------------------------------------------ F03

@st.composite
def prod_cases(draw):
    net, lams = draw(gen.rated_net(st.lists(gen.lamdas(), min_size=1, max_size=2,
                                            unique=True)))
    win = draw(gen.window(net))
    return {"net": net, "win": win, "lams": lams,
            "sparse_stoch": draw(st.booleans()),
            "force_csr": draw(st.booleans()),
            "inter": draw(st.booleans()), "rev": draw(st.booleans()),
            "tol": draw(st.sampled_from([None, None, 1e-10, 1e-7, 0.05]))}


def run_products(case):
    """T[lamda][k] is the ordered product of the inter-event transitions
    (from the first one forward, from the last one in reversed time)."""
    with ref.quiet():
        net, R, a, b, _ = prepare(case["net"], case["win"], True)
        try:
            net.compute_transition_matrices(**spare(lamda=case["lams"][0]))
        except Exception:
            pass
        else:
            raise Violation("products computed without inter-event transitions")
        for lam in case["lams"]:
            net.compute_inter_transition_matrices(**spare(
                lamda=lam, use_sparse_stoch=case["sparse_stoch"]))
        for lam in case["lams"] + case["lams"][:1]:
            net.compute_transition_matrices(**spare(
                lamda=lam, save_intermediate=case["inter"], reverse_time=case["rev"],
                force_csr=case["force_csr"], tol=case["tol"]))
    for lam in case["lams"]:
        exp = ref.cumulative(R.inter(lam, a, b), case["rev"])
        atol = 1e-8 + 20 * len(exp) * R.m * (case["tol"] or 0)
        got = net.T[lam]
        if case["inter"]:
            require(len(got) == len(exp), f"{len(got)} products, expected {len(exp)}")
        else:
            got, exp = [got], exp[-1:]
        for k, (G, E) in enumerate(zip(got, exp)):
            require_close(f"T[{lam}][{k}]", G, E, atol=atol)
            check_stochastic(f"T[{lam}][{k}]", G)
        # the inter-event transitions are still there
        for k, (G, E) in enumerate(zip(net.inter_T[lam], R.inter(lam, a, b))):
            require_close(f"inter_T[{lam}][{k}] after the products", G, E, atol=1e-8)
    return b - a >= 2


# ------------------------------------------------------------------ F04

@st.composite
def lin_cases(draw):
    net, lams = draw(gen.rated_net(st.lists(st.one_of(st.none(), gen.lamdas()), min_size=1,
                                            max_size=2, unique=True)))
    win = draw(gen.window(net))
    return {"net": net, "win": win, "lams": lams,
            "ts": draw(st.lists(st.sampled_from([10, 5, 1.5, 2, 30, 10.001, 1.5000001, 0.3]), min_size=1,
                                max_size=2, unique=True)),
            "sparse_stoch": draw(st.booleans()), "inter": draw(st.booleans()),
            "fix": unscaled(net) and draw(st.booleans()), "split": draw(st.booleans()),
            "rev": draw(st.booleans())}


def run_lin(case):
    """inter_T_lin[lamda][t_s][k] and T_lin are the documented piecewise linear
    interpolation between identity, one step and stationarity."""
    with ref.quiet():
        net, R, a, b, kw = prepare(case["net"], case["win"], case["split"])
        k2 = dict(kw)
        if not case["net"]["inst"]:
            k2["fix_tau_k"] = case["fix"]
        for lam in case["lams"]:
            for ts in case["ts"]:
                net.compute_lin_inter_transition_matrices(**spare(
                    lamda=lam, t_s=ts, use_sparse_stoch=case["sparse_stoch"], **k2))
        keys = {}
        for lam in case["lams"]:
            want = default_lamda(R) if lam is None else lam
            ks = [x for x in net.inter_T_lin if abs(x - want) <= 1e-9 * want]
            require(len(ks) >= 1, f"lamda {want} missing")
            keys[lam] = min(ks, key=lambda x: abs(x - want))
        for lam in case["lams"]:
            for ts in case["ts"]:
                net.compute_lin_transition_matrices(**spare(
                    lamda=keys[lam], t_s=ts, save_intermediate=case["inter"],
                    reverse_time=case["rev"]))
    far = False
    for lam in case["lams"]:
        key = keys[lam]
        for ts in case["ts"]:
            got = net.inter_T_lin[key][ts]
            exp = R.lin(key, a, b, ts, case["fix"])
            require(len(got) == len(exp),
                    f"{len(got)} linear transition matrices, expected {len(exp)}")
            for k, (G, E) in enumerate(zip(got, exp)):
                require_close(f"inter_T_lin[{key}][{ts}][{k}]", G, E, atol=1e-8)
                check_stochastic(f"inter_T_lin[{key}][{ts}][{k}]", G)
            far |= any(key * R.tau(k, case["fix"]) > 1 for k in range(a, b))
            cum = ref.cumulative(exp, case["rev"])
            G = net.T_lin[key][ts]
            if case["inter"]:
                require(len(G) == len(cum), "number of linear products")
            else:
                G, cum = [G], cum[-1:]
            for k, (g, e) in enumerate(zip(G, cum)):
                require_close(f"T_lin[{key}][{ts}][{k}]", g, e, atol=1e-8)
    return b - a >= 2 and far


# direct functions: stationary transition and interpolation of any undirected
# network (not only the ones reached from events)

@st.composite
def graph_cases(draw):
    n = draw(st.integers(1, 8))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    edges = [list(p) for p in pairs if draw(st.integers(0, 2)) == 0]
    return {"n": n, "edges": edges, "t": draw(st.sampled_from(
        [0, 0.3, 1, 1.0001, 1.7, 4, 9.99, 10, 10.01, 50])),
        "ts": draw(st.sampled_from([10, 2, 5.5, 0.4, 31.7]))}


def graph_walk(case):
    n = case["n"]
    A = np.zeros((n, n))
    for i, j in case["edges"]:
        A[i, j] = A[j, i] = 1
    W = A.copy()
    for i in range(n):
        if W[i].sum() == 0:
            W[i, i] = 1
    return A, W / W.sum(1, keepdims=True)


def stationary_of(A):
    n = len(A)
    Pi = np.zeros((n, n))
    for c in ref.components(A):
        d = A.sum(1)[c]
        d = np.ones(1) if len(c) == 1 else d / d.sum()
        for i in c:
            Pi[i, c] = d
    return Pi


def run_lin_funcs(case):
    """lin_approx_trans_matrix / sparse_lin_approx / stationary transitions of
    any undirected network."""
    from scipy.sparse import csr_matrix
    from flowstab import temporal_network as tn
    A, P = graph_walk(case)
    Pi = stationary_of(A)
    want = ref.lin_walk(P, Pi, case["t"], case["ts"])
    require_close("stationary", tn.compute_stationary_transition(csr_matrix(P)), Pi)
    require_close("stationary (csc)",
                  tn.compute_stationary_transition(csr_matrix(P).tocsc()), Pi)
    require_close("stationary (dense)", tn.compute_stationary_transition(P.copy()), Pi)
    require_close("sparse stationary", tn.sparse_stationary_trans(csr_matrix(P)), Pi)
    require_close("linear", tn.lin_approx_trans_matrix(csr_matrix(P), case["t"],
                                                       t_s=case["ts"]), want)
    require_close("linear (Pi)", tn.lin_approx_trans_matrix(
        csr_matrix(P), case["t"], Pi=csr_matrix(Pi), t_s=case["ts"]), want)
    require_close("sparse linear", tn.sparse_lin_approx(csr_matrix(P), case["t"],
                                                        t_s=case["ts"]), want)
    try:
        tn.lin_approx_trans_matrix(csr_matrix(P), -0.5)
    except ValueError:
        pass
    else:
        raise Violation("negative time accepted")
    return len(case["edges"]) >= 1


# networks with many events or many nodes: the same checks, few cases

def big(run):
    """The same comparison on networks of up to 1500 events or 60 nodes."""
    def f(case):
        return run(dict(case, net=gen.expand(case["net"])))
    f.__doc__ = big.__doc__
    return f


@st.composite
def big_lap_cases(draw):
    net = draw(gen.big_net(inst="any"))
    return {"net": net, "wins": draw(st.lists(gen.big_window(net), min_size=1, max_size=2)),
            "adj": draw(st.booleans())}


@st.composite
def big_inter_cases(draw):
    net = draw(gen.big_net(inst="any"))
    return {"net": net, "win": draw(gen.big_window(net)), "lams": [draw(gen.lamdas())],
            "sparse_stoch": draw(st.booleans()), "dense_expm": draw(st.booleans()),
            "fix": draw(st.booleans()), "split": draw(st.booleans())}


@st.composite
def big_prod_cases(draw):
    net = draw(gen.big_net(inst="any"))
    return {"net": net, "win": draw(gen.big_window(net)), "lams": [draw(gen.lamdas())],
            "sparse_stoch": draw(st.booleans()), "force_csr": draw(st.booleans()),
            "inter": draw(st.booleans()), "rev": draw(st.booleans()),
            "tol": draw(st.sampled_from([None, None, 1e-12]))}


@st.composite
def big_lin_cases(draw):
    net = draw(gen.big_net(inst="any"))
    return {"net": net, "win": draw(gen.big_window(net)), "lams": [draw(gen.lamdas())],
            "ts": [draw(st.sampled_from([10, 5, 1.5, 2, 30, 10.001, 1.5000001, 0.3]))],
            "sparse_stoch": draw(st.booleans()), "inter": draw(st.booleans()),
            "fix": draw(st.booleans()), "split": draw(st.booleans()),
            "rev": draw(st.booleans())}


NET_ASSUME = [
    "events of the same pair do not overlap unless they are merged on construction "
    "(documented option), no self-contacts, no zero durations",
    "time windows with t_start <= t_stop",
]

PROPS = {
    "F01": ("A case is non-trivial when the network has at least two events and one of "
            "the windows covers at least two steps.",
            [Sub("laplacians", lap_cases, run_laplacians, quick=1000, thorough=40000,
                 shards=8),
             Sub("big", big_lap_cases, big(run_laplacians), quick=40, thorough=800, shards=8)], NET_ASSUME),
    "F02": ("A case is non-trivial when its window covers at least two steps.",
            [Sub("inter", inter_cases, run_inter, quick=1200, thorough=40000, shards=8),
             Sub("big", big_inter_cases, big(run_inter), quick=40, thorough=800, shards=8)],
            NET_ASSUME + ["one combination of format options per network object"]),
    "F03": ("A case is non-trivial when its window covers at least two steps.",
            [Sub("products", prod_cases, run_products, quick=1200, thorough=40000,
                 shards=8),
             Sub("big", big_prod_cases, big(run_products), quick=40, thorough=800, shards=8)], NET_ASSUME),
    "F04": ("A network case is non-trivial when its window covers at least two steps and "
            "one of them reaches past the first interpolation; a function case when the "
            "network has an edge.",
            [Sub("lin", lin_cases, run_lin, quick=1000, thorough=30000, shards=7),
             Sub("functions", graph_cases, run_lin_funcs, quick=400, thorough=10000,
                 shards=1),
             Sub("big", big_lin_cases, big(run_lin), quick=40, thorough=800, shards=8)], NET_ASSUME),
}
