"""F13 Partition, F14 stability and gains, F15 Louvain outcome, F16 flow
integrals, F17 measures, F18 static clustering, F19 repeated clustering."""
from __future__ import annotations

import itertools
import json
import math
import random

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix

from .. import ref
from ..core import Sub, Violation, dense, require, require_close, require_raises, spare
from ..gen import canonical, to_sets

quiet = ref.quiet


def as_sets(clusters):
    return sorted(sorted(int(x) for x in c) for c in clusters)


def labels_of(sets, n):
    lab = [None] * n
    for k, s in enumerate(sets):
        for x in s:
            lab[x] = k
    return lab


def stab(S, sets):
    return float(sum(S[np.ix_(sorted(s), sorted(s))].sum() for s in sets if len(s)))


def check_partition(what, part, n):
    """part is a set of disjoint clusters that cover the nodes, and all its
    views agree. Returns the list of clusters."""
    cl = [set(int(x) for x in c) for c in part.cluster_list]
    seen = [x for c in cl for x in c]
    require(sorted(seen) == list(range(n)), f"{what}: clusters {cl} are not a partition of {n}")
    d = part.node_to_cluster_dict
    require({int(k): int(v) for k, v in d.items()} ==
            {x: k for k, c in enumerate(cl) for x in c},
            f"{what}: node_to_cluster_dict {d} does not match {cl}")
    require(part.num_nodes == n, f"{what}: num_nodes {part.num_nodes}")
    require(part.get_num_clusters() == len(cl), f"{what}: get_num_clusters()")
    require(part.get_num_clusters(non_empty=True) == sum(1 for c in cl if c),
            f"{what}: get_num_clusters(non_empty=True)")
    want = np.zeros((n, len(cl)))
    for k, c in enumerate(cl):
        for x in c:
            want[x, k] = 1
    require_close(f"{what}: get_indicator(sparse=True)", part.get_indicator(sparse=True), want,
                  atol=0)
    require_close(f"{what}: get_indicator(sparse=False)", part.get_indicator(sparse=False),
                  want, atol=0)
    require([set(x) for x in part.iter_cluster_node_index()] == cl,
            f"{what}: iter_cluster_node_index")
    part.check_integrity()
    return cl


# ------------------------------------------------------------------ F13 ---

@st.composite
def part_case(draw):
    n = draw(st.integers(1, 8))
    lab = draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n))
    how = draw(st.sampled_from(["default", "list", "dict"]))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("move"), st.integers(0, n - 1), st.integers(0, 20)).map(list),
        st.just(["clean"])), max_size=12))
    return {"n": n, "labels": lab, "how": how, "ops": ops, "check": draw(st.booleans())}


def run_part(case):
    """Histories of moves and clean-ups of a Partition against a labelling."""
    from flowstab.network_clustering import Partition
    n, lab = case["n"], case["labels"]
    kw = {}
    if case["how"] == "list":
        kw["cluster_list"] = [{i for i in range(n) if lab[i] == k} for k in range(n)]
    elif case["how"] == "dict":
        kw["node_to_cluster_dict"] = {i: lab[i] for i in range(n)}
    else:
        lab = list(range(n))
    given = json.dumps([repr(v) for v in kw.values()])
    with quiet():
        p = Partition(n, check_integrity=case["check"], **kw)
        twin = Partition(n, **kw)
    model = list(lab)

    def groups(lb):
        return sorted(sorted(i for i in range(n) if lb[i] == k) for k in set(lb))
    cl = check_partition("new", p, n)
    require(all(cl), "new partition with empty clusters")
    require(as_sets(cl) == groups(model), f"new: {cl}")
    idx = labels_of(cl, n)
    nclust = len(cl)
    moved = False
    for op in case["ops"]:
        if op[0] == "move":
            node, c = op[1], op[2] % nclust
            with quiet():
                p.move_node(node, c)
            moved = moved or idx[node] != c
            idx[node] = c
            cl = check_partition(f"after move_node({node},{c})", p, n)
            require(labels_of(cl, n) == idx, f"after move_node({node},{c}): {cl}")
        else:
            p.remove_empty_clusters()
            cl = check_partition("after remove_empty_clusters", p, n)
            require(all(cl), "empty clusters after remove_empty_clusters")
            require(as_sets(cl) == groups(idx), f"after remove_empty_clusters: {cl}")
            idx = labels_of(cl, n)
            nclust = len(cl)
    # the arguments and a second partition made from them are independent
    require(json.dumps([repr(v) for v in kw.values()]) == given, "the arguments have changed")
    cl = check_partition("second partition", twin, n)
    require(as_sets(cl) == groups(model), f"second partition from the same arguments: {cl}")
    return moved


@st.composite
def part_bad(draw):
    n = draw(st.integers(2, 7))
    lab = canonical(draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n)))
    return {"n": n, "labels": lab, "kind": draw(st.sampled_from(["overlap", "missing", "other",
                                                                  "both"])),
            "x": draw(st.integers(0, n - 1)), "late": draw(st.booleans())}


def run_part_bad(case):
    """Overlapping or incomplete clusters are refused."""
    from flowstab.network_clustering import Partition
    n = case["n"]
    sets = to_sets(case["labels"])
    if case["kind"] == "both":
        require_raises("cluster_list and node_to_cluster_dict", ValueError, lambda: Partition(
            n, cluster_list=sets, node_to_cluster_dict=dict(enumerate(case["labels"]))))
        return True
    x = case["x"]
    k = case["labels"][x]
    if case["kind"] == "other":
        sets[k].discard(x)
        sets[k].add(n + x)
    elif case["kind"] == "missing":
        sets[k].discard(x)
        if not any(sets):
            return False
    else:
        if len(sets) < 2:
            sets.append(set())
        sets[(k + 1) % len(sets)].add(x)

    def f():
        p = Partition(n, cluster_list=sets, check_integrity=not case["late"])
        if case["late"]:
            p.check_integrity()
    require_raises(f"{case['kind']} clusters {sets}", ValueError, f)
    return True


# --------------------------------------------------------- matrices --------

WEIGHTS = W = st.integers(1, 997)
# with links that are hardly ever taken
WIDE = st.builds(lambda a, b: a * b, W, st.sampled_from([1, 10**3, 10**6]))


def seeded_rows(seed, n, groups, inside, across, zero_rows):
    rnd = random.Random(seed)
    g = [rnd.randrange(groups) for _ in range(n)]
    rows = []
    for i in range(n):
        r = [rnd.randint(1, 99991) if rnd.random() < (inside if g[i] == g[j] else across)
             else 0 for j in range(n)]
        if not any(r) and not zero_rows:
            r[rnd.randrange(n)] = rnd.randint(1, 99991)
        rows.append(r)
    return rows


@st.composite
def trans(draw, n, density=None, zero_rows=False, sym=False):
    """Weights of a transition matrix with generic values (no ties)."""
    if n > 10:      # large: from a seed, with groups of nodes
        return seeded_rows(draw(st.integers(0, 2**32)), n, draw(st.integers(1, n // 2)),
                           draw(st.sampled_from([0.1, 0.3, 0.8])),
                           draw(st.sampled_from([0.0, 0.02, 0.1])), zero_rows)
    den = draw(st.sampled_from([2, 3, 5])) if density is None else density
    W = draw(st.sampled_from([WEIGHTS, WEIGHTS, WEIGHTS, WIDE]))
    rows = []
    for i in range(n):
        r = [draw(W) if draw(st.integers(0, 5)) < den else 0 for _ in range(n)]
        if not any(r) and not zero_rows:
            r[draw(st.integers(0, n - 1))] = draw(W)
        rows.append(r)
    if sym:
        for i in range(n):
            for j in range(i):
                rows[i][j] = rows[j][i]
        for i in range(n):
            if not any(rows[i]):
                rows[i][i] = draw(W)
    return rows


def stoch(rows):
    A = np.array(rows, dtype=float)
    s = A.sum(1, keepdims=True)
    return np.where(s > 0, A / np.where(s > 0, s, 1), 0)


@st.composite
def prob(draw, n, zeros=False, skew=True):
    lo = 0 if zeros else 1
    # anything, nearly uniform, or with very different weights
    ws = [st.integers(lo, 997), st.integers(lo, 997), st.integers(9990, 10010),
          st.integers(999997, 1000003)]
    if skew:
        ws.append(st.sampled_from([lo, 1, 3, 1000, 10**5]))
    p = draw(st.one_of(st.none(), *(st.lists(x, min_size=n, max_size=n) for x in ws)))
    if p is not None and sum(p) == 0:
        p = None
    return p


def pvec(p, n):
    return np.ones(n) / n if p is None else np.array(p, dtype=float) / sum(p)


@st.composite
def rare(draw, n):
    """Nodes that are hardly ever visited, with links among them that are
    hardly ever taken."""
    k = draw(st.integers(2, n - 1))
    rows = []
    for i in range(n):
        if i < k:
            r = [draw(W) if draw(st.booleans()) else 0 for _ in range(k)] + \
                [draw(W) * 10**5 if draw(st.booleans()) else 0 for _ in range(n - k)]
        else:
            r = [draw(st.sampled_from([0, 0, 0, 1])) for _ in range(k)] + \
                [draw(W) * 10**7 for _ in range(n - k)]
        if not any(r):
            r[n - 1] = 1
        rows.append(r)
    return rows, [draw(st.integers(1, 9)) for _ in range(k)] + \
        [draw(W) * 100 for _ in range(n - k)]


@st.composite
def clust_case(draw, max_n=9, zero_rows=False, zeros=False, min_n=2):
    n = draw(st.integers(min_n, max_n))
    if 2 < n < 10 and draw(st.integers(0, 7)) == 0:
        rows, p1 = draw(rare(n))
        return {"rows": rows, "p1": p1, "p2": None, "S": None, "labels": None, "mix": None,
                "seed": draw(st.integers(0, 2**31)), "sparse": draw(st.booleans()),
                "as_dict": False, "stoch": draw(st.sampled_from(["csr", "ssm"])), "moves": []}
    zr = zero_rows and draw(st.integers(0, 3)) == 0
    return {"rows": draw(trans(n, zero_rows=zr)), "p1": draw(prob(n, zeros)),
            "p2": draw(prob(n)) if draw(st.integers(0, 3)) == 0 else None,
            "S": draw(trans(n, density=6)) if draw(st.integers(0, 4)) == 0 else None,
            "labels": draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=n,
                                                         max_size=n).map(canonical))),
            "seed": draw(st.integers(0, 2**31)), "sparse": draw(st.booleans()),
            "as_dict": draw(st.booleans()), "stoch": draw(st.sampled_from(["csr", "ssm"])),
            "mix": draw(st.sampled_from([None] * 6 + [1e-2, 1e-4, 1e-5])),
            "moves": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)),
                                   max_size=6).map(lambda x: [list(y) for y in x]))}


def setup(case, sparse=None):
    """Returns (make, S, T, n): make(seed) builds the clustering of the case."""
    from flowstab.network_clustering import Clustering, SparseClustering
    from flowstab.sparse_stoch_mat import SparseAutocovMat, SparseStochMat
    T = stoch(case["rows"])
    n = len(T)
    if case.get("mix") is not None and T.any(1).all():
        # close to independence
        T = case["mix"] * T + (1 - case["mix"]) * np.tile(T.mean(0), (n, 1))
    p1 = pvec(case["p1"], n)
    p2 = p1 @ T if case["p2"] is None else pvec(case["p2"], n)
    S = ref.autocov(T, p1, p2)
    sparse = case["sparse"] if sparse is None else sparse
    kw = {"p1": None if case["p1"] is None else p1,
          "p2": None if case["p2"] is None else p2}
    if case["S"] is not None:
        # a covariance that is not the one of T
        PT = np.array(case["S"], dtype=float) / np.sum(case["S"])
        q1, q2 = PT.sum(1), PT.sum(0)
        S = PT - np.outer(q1, q2)
        kw["S"] = SparseAutocovMat(csr_matrix(PT), q1, q2) if sparse else S
    if case["labels"] is not None:
        if case["as_dict"]:
            kw["node_to_cluster_dict"] = dict(enumerate(case["labels"]))
        else:
            kw["cluster_list"] = to_sets(case["labels"])

    def make(seed=None, **over):
        k = dict(kw)
        if "cluster_list" in k:
            k["cluster_list"] = [set(c) for c in k["cluster_list"]]
        k.update(over)
        if not sparse:
            return Clustering(T=T.copy(), rnd_seed=seed, **k)
        M = csr_matrix(T)
        if case.get("stoch") == "ssm":
            M = SparseStochMat.from_full_csr_matrix(M)
        return SparseClustering(T=M, rnd_seed=seed, **k)
    return make, S, T, n


# ------------------------------------------------------------------ F14 ---

def run_stability(case):
    """Stability of a partition, and of the partitions reached by moving nodes,
    against the trace of the clustered autocovariance."""
    make, S, T, n = setup(case)
    c = make(1)
    sets = to_sets(case["labels"]) if case["labels"] is not None else [{i} for i in range(n)]
    require_close("stability", c.compute_stability(), stab(S, sets), atol=1e-14)
    lab = labels_of([set(x) for x in c.partition.cluster_list], n)
    k = len(c.partition.cluster_list)
    moved = False
    for node, x in case["moves"]:
        x %= k
        with quiet():
            c.partition.move_node(node, x)
        moved = moved or lab[node] != x
        lab[node] = x
        require_close(f"stability after moving {node} to {x}", c.compute_stability(),
                      stab(S, [{i for i in range(n) if lab[i] == a} for a in range(k)]),
                      atol=1e-14)
    return moved


def run_gains(case):
    """The gain of a move is the difference of the stabilities around it; the
    aggregated network has the covariance of the clusters."""
    make, S, T, n = setup(case)
    c = make(1)
    out = getattr(c, "_compute_delta_stab_moveout", None)
    to = getattr(c, "_compute_delta_stab_moveto", None)
    cl = [set(x) for x in c.partition.cluster_list]
    lab = labels_of(cl, n)
    if out is not None and to is not None:
        for node in range(n):
            for f in range(len(cl)):
                if f == lab[node]:
                    continue
                new = [set(x) for x in cl]
                new[lab[node]].discard(node)
                want_out = stab(S, new) - stab(S, cl)
                new[f].add(node)
                got = out(node, lab[node])
                require_close(f"gain of taking {node} out of {lab[node]}", got, want_out,
                              atol=1e-14)
                require_close(f"gain of moving {node} from {lab[node]} to {f}",
                              got + to(node, f), stab(S, new) - stab(S, cl), atol=1e-14)
    agg = getattr(c, "_aggregate_clusters", None)
    if agg is not None:
        with quiet():
            res = agg()
        if isinstance(res, tuple) and len(res) == 4:
            H = np.zeros((n, len(cl)))
            for i in range(n):
                H[i, lab[i]] = 1
            require_close("covariance of the aggregated network", dense(res[3]), H.T @ S @ H,
                          atol=1e-14)
    return len(cl) > 1


@st.composite
def bi_case(draw):
    n = draw(st.integers(2, 7))
    lab = st.lists(st.integers(0, n - 1), min_size=n, max_size=n).map(canonical)
    return {"rows": draw(trans(n)), "p1": draw(prob(n)), "s": draw(lab), "t": draw(lab),
            "moves": draw(st.lists(st.tuples(*[st.integers(0, n - 1)] * 3),
                                   min_size=1, max_size=4).map(lambda x: [list(y) for y in x]))}


def run_bi(case):
    """Clustered autocovariance of a source and a target partition, updated by
    moving nodes."""
    from flowstab.network_clustering import BaseClustering
    T = stoch(case["rows"])
    n = len(T)
    p1 = pvec(case["p1"], n)
    S = ref.autocov(T, p1, p1 @ T)
    c = BaseClustering(T=T, p1=p1, source_cluster_list=to_sets(case["s"]),
                       target_cluster_list=to_sets(case["t"]))
    names = ("_compute_clustered_autocov", "_compute_new_R_moveout", "_compute_new_R_moveto",
             "_find_optimal_flow", "_compute_subsets_connectedness")
    f = [getattr(c, x, None) for x in names]
    if any(x is None for x in f):
        return False
    clustered, mout, mto, flow, conn = f

    def R(s, t, ks, kt):
        Hs = np.array([[1.0 if a == k else 0 for k in range(ks)] for a in s])
        Ht = np.array([[1.0 if a == k else 0 for k in range(kt)] for a in t])
        return Hs.T @ S @ Ht
    s, t = list(case["s"]), list(case["t"])
    ks, kt = max(s) + 1, max(t) + 1
    agg = getattr(c, "_aggregate_clusters", None)
    res = agg() if agg is not None else None
    if isinstance(res, tuple) and len(res) == 4:
        require_close("covariance of the aggregated clusters", dense(res[3]), R(s, t, ks, kt),
                      atol=1e-14)
    cur = clustered()
    require_close("clustered autocovariance", cur, R(s, t, ks, kt), atol=1e-14)
    for node, a, b in case["moves"]:
        a, b = a % ks, b % kt
        ci = (s[node], t[node])
        o = mout(node, ci, Rold=cur)
        if a == ci[0] or b == ci[1]:
            continue
        got = mto(node, ci, (a, b), o)
        s[node], t[node] = a, b
        require_close(f"clustered autocovariance after moving {node}", got, R(s, t, ks, kt),
                      atol=1e-14)
        with quiet():
            c.source_part.move_node(node, a)
            c.target_part.move_node(node, b)
        cur = got
    val, m, inv = flow(cur)
    best = -math.inf
    small, big = (ks, kt) if ks <= kt else (kt, ks)
    if big <= 6:
        M = cur if ks <= kt else cur.T
        best = max(sum(M[i, pm[i]] for i in range(small))
                   for pm in itertools.permutations(range(big), small))
        require_close("optimal flow", val, best, atol=1e-14)
    require_close("optimal flow map", sum(cur[i, j] for i, j in m.items()), val, atol=1e-14)
    require({v: k for k, v in m.items()} == inv, "inverse flow map")
    x = [i for i in range(n) if s[i] == s[0]]
    y = [i for i in range(n) if t[i] == t[-1]]
    require_close("connectedness of two subsets", conn(x, y), S[np.ix_(x, y)].sum(), atol=1e-14)
    return ks > 1 and kt > 1


# ------------------------------------------------------------------ F15 ---

def neighbours(T, PT=None):
    A = (T if PT is None else PT) > 0
    return A | A.T


def ties(make, S, seed, **kw):
    """Some decision of the algorithm depends on a difference of gains within
    the rounding errors: small perturbations change the result."""
    res = set()
    for k in range(4):
        E = np.random.RandomState(k).uniform(-1, 1, S.shape) * 1e-14
        for sign in (1, -1, 0):
            d = make(seed, S=S + sign * E)
            with quiet():
                d.find_louvain_clustering(**kw)
            res.add(tuple(map(tuple, as_sets(d.partition.cluster_list))))
            if len(res) > 1:
                return True
    return False


def flat(S, sparse=True):
    """Covariance within the tolerance of what the code calls zero (1e-6 / n^2, or
    a relative difference of the joint probabilities of 1e-5)."""
    return np.abs(S).max() < (1.3e-5 if sparse else 3e-7)


def dense_make(case):
    return setup(case, sparse=False)[0]


def run_louvain(case):
    """Outcome of the Louvain algorithm: a partition, at least as good as the
    start, that no merge of linked clusters improves, reproducible."""
    make, S, T, n = setup(case)
    c = make(case["seed"])
    if case["sparse"] and not T.any(1).all():
        # sparse covariances need probability vectors: only the bookkeeping
        with quiet():
            c.find_louvain_clustering()
        check_partition("louvain", c.partition, n)
        return False
    start = to_sets(case["labels"]) if case["labels"] is not None else [{i} for i in range(n)]
    before = dense(c._S) if hasattr(c, "_S") else None
    with quiet():
        loops = c.find_louvain_clustering(save_progress=True)
    cl = check_partition("louvain", c.partition, n)
    require(all(cl), "louvain: empty clusters")
    if before is not None and hasattr(c, "_S"):
        require_close("covariance after the clustering", c._S, before, atol=0, rtol=0)
    val = stab(S, cl)
    tol = 1e-13
    require_close("stability of the result", c.compute_stability(), val, atol=1e-12)
    require(loops == 0 or val >= stab(S, start) - tol,
            f"stability {val} after the clustering, {stab(S, start)} before")
    if loops == 0:
        require(len(cl) == 1 and flat(S, case["sparse"]),
                f"{cl} in {loops} loops")
        return False
    require(np.abs(S).max() > 1e-12, f"no covariance: {cl} in {loops} loops")
    # history
    pr = getattr(c, "stability_progress", None)
    pp = getattr(c, "partition_progress", None)
    if pr and pp:
        require(len(pr) == len(pp), "save_progress: lengths")
        for a, b in zip(pr, pr[1:]):
            require(b >= a - tol, f"stability decreases along the progress: {pr}")
        for v, q in zip(pr, pp):
            require_close("stability of a recorded partition", v, stab(S, q.cluster_list),
                          atol=1e-12)
        require_close("last recorded stability", pr[-1], val, atol=1e-12)
        if loops > 0:
            require(as_sets(pp[0].cluster_list) == as_sets(start), "first recorded partition")
    # S given without T dependence: sparse neighbours are the entries of PT
    fullS = case["S"] is not None and case["sparse"]
    N = neighbours(T) if not fullS else neighbours(T, np.array(case["S"], dtype=float))
    if loops > 0:
        # from singletons, merges of linked clusters are all tried at the end
        for a, b in itertools.combinations(range(len(cl)), 2):
            x, y = sorted(cl[a]), sorted(cl[b])
            if case["labels"] is None and N[np.ix_(x, y)].any():
                g = S[np.ix_(x, y)].sum() + S[np.ix_(y, x)].sum()
                require(g <= tol or ties(dense_make(case), S, case["seed"]),
                        f"merging the linked clusters {x} and {y} gains {g}")
        if case["labels"] is None and not fullS:
            comp = ref.components(N.astype(float))
            for s in cl:
                require(any(s <= set(q) for q in comp),
                        f"cluster {s} joins unconnected parts {comp}")
    # reproducible: seed of the constructor, seed of the call
    d = make(case["seed"])
    with quiet():
        l2 = d.find_louvain_clustering()
    require(as_sets(d.partition.cluster_list) == as_sets(cl) and l2 == loops,
            f"same seed, other result: {cl} / {d.partition.cluster_list}")
    e = make(12345)
    with quiet():
        l3 = e.find_louvain_clustering(rnd_seed=case["seed"])
    require(as_sets(e.partition.cluster_list) == as_sets(cl) and l3 == loops,
            f"seed of find_louvain_clustering: {cl} / {e.partition.cluster_list}")
    # running again from the result does not lose stability
    with quiet():
        c.find_louvain_clustering()
    again = check_partition("second run", c.partition, n)
    require(stab(S, again) >= val - tol, "a second run loses stability")
    return 1 < len(cl) < n


def run_one_level(case):
    """After a single level no node gains by moving to a linked cluster."""
    make, S, T, n = setup(case)
    c = make(case["seed"])
    start = to_sets(case["labels"]) if case["labels"] is not None else [{i} for i in range(n)]
    if flat(S, case["sparse"]):
        return False
    with quiet():
        loops = c.find_louvain_clustering(n_meta_iter_max=0)
    require(loops == 1, f"{loops} loops")
    cl = check_partition("one level", c.partition, n)
    val = stab(S, cl)
    require(val >= stab(S, start) - 1e-13, "one level loses stability")
    fullS = case["S"] is not None and case["sparse"]
    N = neighbours(T) if not fullS else neighbours(T, np.array(case["S"], dtype=float))
    lab = labels_of(cl, n)
    for i in range(n):
        for f in {lab[j] for j in range(n) if N[i, j]} - {lab[i]}:
            new = [set(x) for x in cl]
            new[lab[i]].discard(i)
            new[f].add(i)
            g = stab(S, new) - val
            require(g <= 1e-13 or ties(dense_make(case), S, case["seed"], n_meta_iter_max=0),
                    f"moving {i} to {sorted(cl[f])} gains {g}")
    return len(cl) < n


def run_dense_sparse(case):
    """Dense and sparse clustering of the same matrix agree."""
    if case["p1"] is not None and 0 in case["p1"]:
        return False
    case = dict(case, S=None)
    md, S, T, n = setup(case, sparse=False)
    ms, _, _, _ = setup(case, sparse=True)
    if flat(S):
        return False
    if ties(md, S, case["seed"]):
        return False
    d, s = md(case["seed"]), ms(case["seed"])
    require_close("initial stability", d.compute_stability(), s.compute_stability(), atol=1e-12)
    with quiet():
        ld = d.find_louvain_clustering()
        ls = s.find_louvain_clustering()
    require(as_sets(d.partition.cluster_list) == as_sets(s.partition.cluster_list) and ld == ls,
            f"dense {d.partition.cluster_list}, sparse {s.partition.cluster_list}")
    require_close("final stability", d.compute_stability(), s.compute_stability(), atol=1e-12)
    return 1 < len(d.partition.cluster_list) < n


@st.composite
def flat_case(draw):
    n = draw(st.integers(2, 8))
    return {"n": n, "p1": draw(prob(n)), "row": draw(st.lists(W, min_size=n, max_size=n)),
            "sparse": draw(st.booleans()), "seed": draw(st.integers(0, 1000))}


def run_flat(case):
    """Without covariance the whole network is a single cluster."""
    from flowstab.network_clustering import Clustering, SparseClustering
    n = case["n"]
    row = np.array(case["row"], dtype=float)
    T = np.tile(row / row.sum(), (n, 1))
    p1 = pvec(case["p1"], n)
    with quiet():
        c = SparseClustering(T=csr_matrix(T), p1=p1) if case["sparse"] else \
            Clustering(T=T, p1=p1)
        loops = c.find_louvain_clustering(rnd_seed=case["seed"])
    cl = check_partition("flat", c.partition, n)
    require(len(cl) == 1 and loops == 0, f"{cl} in {loops} loops")
    require_close("stability", c.compute_stability(), 0, atol=1e-12)
    return True


@st.composite
def thresh_case(draw):
    c = draw(clust_case(max_n=7))
    c["sparse"] = False
    c["thr"] = draw(st.sampled_from([1e-3, 1e-2, 5e-2]))
    return c


def run_thresh(case):
    """S_threshold trims the small covariances, before anything else."""
    make, S, T, n = setup(case)
    St = np.where(np.abs(S) < case["thr"], 0, S)
    if (np.abs(np.abs(S) - case["thr"]) < 1e-12).any():
        return False
    c = make(1, S_threshold=case["thr"])
    for k in range(3):
        lab = canonical([(i * (k + 1)) % (k + 2) for i in range(n)])
        over = {"cluster_list": to_sets(lab), "node_to_cluster_dict": None}
        c = make(1, S_threshold=case["thr"], **over)
        require_close("stability with a threshold", c.compute_stability(),
                      stab(St, to_sets(lab)), atol=1e-12)
    return (St != S).any()


@st.composite
def option_case(draw):
    c = draw(clust_case(max_n=9))
    c["verbose"] = draw(st.sampled_from([False, True, 2, 10]))
    c["loops"] = draw(st.booleans())
    c["level"] = draw(st.sampled_from(["ERROR", "INFO", "DEBUG"]))
    c["sub"] = draw(st.sampled_from([1000, 1, 2, 3]))
    c["meta"] = draw(st.sampled_from([1000, 0, 1, 2]))
    c["thr"] = draw(st.sampled_from([None, None, 1e-3, 0.05, 1.0]))
    return c


def run_options(case):
    """What is reported while clustering changes no result; limits on the
    iterations leave a partition that is not worse than the start and equals
    the unlimited one when they are not reached."""
    import flowstab
    make, S, T, n = setup(case)
    if case["sparse"] and not T.any(1).all():
        return False
    start = to_sets(case["labels"]) if case["labels"] is not None else [{i} for i in range(n)]
    lim = {"n_sub_iter_max": case["sub"], "n_meta_iter_max": case["meta"]}
    if case["thr"] is not None:
        lim["delta_r_threshold"] = case["thr"]
    a, b = make(case["seed"]), make(case["seed"])
    with quiet():
        la = a.find_louvain_clustering(**lim)
        flowstab.set_log_level(case["level"])
        try:
            lb = b.find_louvain_clustering(verbose=case["verbose"],
                                           print_num_loops=case["loops"], **lim)
        finally:
            flowstab.set_log_level("ERROR")
    ca = check_partition("limited louvain", a.partition, n)
    cb = check_partition("reporting louvain", b.partition, n)
    require(as_sets(ca) == as_sets(cb) and la == lb,
            f"{ca} in {la} loops without, {cb} in {lb} loops with reports")
    if la == 0:
        return False
    require(la <= case["meta"] + 1, f"{la} loops with n_meta_iter_max={case['meta']}")
    val = stab(S, ca)
    require_close("stability of the limited result", a.compute_stability(), val, atol=1e-12)
    require(val >= stab(S, start) - 1e-10, "limited louvain loses stability")
    if case["sub"] == 1:
        require(as_sets(ca) == as_sets(start), f"{ca} without any pass over the nodes")
    if case["sub"] == 1000 and case["thr"] is None:
        d = make(case["seed"])
        with quiet():
            ld = d.find_louvain_clustering()
        if ld <= case["meta"]:
            require(as_sets(d.partition.cluster_list) == as_sets(ca) and ld == la,
                    f"{ca} with a limit of {case['meta']} loops, {d.partition.cluster_list} "
                    f"in {ld} loops without")
    return 1 < len(ca) < n


# ------------------------------------------------------------------ F16 ---

@st.composite
def flow_case(draw, lo=2, hi=6, max_k=5):
    n = draw(st.integers(lo, hi))
    K = draw(st.integers(1, max_k))
    mats = [draw(trans(n, density=draw(st.sampled_from([1, 2, 4])))) for _ in range(K)]
    p1 = draw(prob(n, zeros=True))
    seldom = draw(st.integers(0, 5))
    if seldom == 0 and n > 2:
        mats[0], p1 = draw(rare(n))
    elif seldom == 1:
        p1 = draw(st.lists(st.sampled_from([1, 7, 10**9, 3 * 10**9, 10**12]), min_size=n,
                           max_size=n))
    # times: strictly increasing
    steps = draw(st.lists(st.sampled_from([1, 2, 0.5, 3.25, 10]), min_size=K, max_size=K))
    ks = sorted(draw(st.sets(st.integers(1, K), min_size=1, max_size=K)))
    unit = draw(st.sampled_from([1, 1, 1, 1e-9, 1e-6, 1 / 3, 86400, 1e9]))
    t0 = draw(st.sampled_from([0, 0, -3, 100.5, 1.6e9]))
    if t0 < 1e9:
        steps, t0 = [x * unit for x in steps], t0 * unit
    return {"mats": mats, "steps": steps, "t0": t0, "unit": unit,
            "times": draw(st.sampled_from(["list", "array", "none"])),
            "p1": p1, "kind": draw(st.sampled_from(["dense", "csr", "ssm"])),
            "reverse": draw(st.booleans()),
            "given": draw(st.sampled_from(["inter", "inter", "T"])),
            "grid": draw(st.one_of(st.none(), st.just(ks))),
            "off": draw(st.booleans()), "flip": draw(st.booleans()),
            "rtol": draw(st.sampled_from([None, None, 1e-8, 1e-3])),
            "early": draw(st.integers(0, 3)) == 0,
            "start": draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=n,
                                                        max_size=n))),
            "start_as": draw(st.sampled_from(["cluster_list", "node_to_cluster_dict"])),
            "sub": draw(st.sampled_from([1000, 1])), "state": draw(st.booleans()),
            "seed": draw(st.integers(0, 10**6))}


def run_flow(case):
    """Integral of the forward or backward covariance against the explicit sum
    over the intervals; its clustering."""
    from flowstab.network_clustering import Clustering, FlowIntegralClustering
    from flowstab.sparse_stoch_mat import SparseStochMat
    Ts = [stoch(m) for m in case["mats"]]
    n, K = len(Ts[0]), len(Ts)
    times = [case["t0"]]
    for s in case["steps"]:
        times.append(times[-1] + s)
    if case["times"] == "none":
        times = list(range(K + 1))
    p1 = pvec(case["p1"], n)
    order = Ts[::-1] if case["reverse"] else Ts
    cum = ref.cumulative(order)
    tt = times[::-1] if case["reverse"] else times

    def wrap(M):
        if case["kind"] == "dense":
            return M.copy()
        if case["kind"] == "csr":
            return csr_matrix(M)
        return SparseStochMat.from_full_csr_matrix(csr_matrix(M))
    kw = {}
    if case["given"] == "T":
        kw["T_list"] = [wrap(M) for M in cum]
    else:
        kw["T_inter_list"] = [wrap(M) for M in Ts]
    if case["times"] == "list":
        kw["time_list"] = list(times)
    elif case["times"] == "array":
        kw["time_list"] = np.array(times)
    ks = [0, K]
    if case["grid"] is not None:
        ks = [0] + case["grid"]
        g = []
        for k in ks:
            x = tt[k]
            if case["off"] and 0 < k < K:
                # between two times: the last one that was reached
                x = x + (tt[k + 1] - x) * 0.5
            g.append(x)
        if case["off"] and ks[-1] == K:
            g[-1] = g[-1] + (1 if not case["reverse"] else -1) * 0.75 * case.get("unit", 1)
        if case.get("early"):
            # before the first time: the first time
            g[0] = g[0] - (1 if not case["reverse"] else -1) * 1.5 * case.get("unit", 1)
        if case["flip"]:
            g = g[::-1]
        kw["integral_time_grid"] = g
    if case["rtol"] is not None:
        kw["rtol"] = case["rtol"]
    rtol = case["rtol"] or 1e-8
    with quiet():
        fi = FlowIntegralClustering(**spare(p1=None if case["p1"] is None else p1.copy(),
                                            reverse_time=case["reverse"]), **kw)
    require(len(fi.T_list) == K, f"{len(fi.T_list)} transition matrices")
    for k in range(K):
        require_close(f"transition matrix {k}", fi.T_list[k], cum[k], atol=1e-10)
    require(len(fi.I_list) == len(ks) - 1, f"{len(fi.I_list)} integrals for the grid {ks}")
    done = []
    opts = {}
    start = [{i} for i in range(n)]
    if case.get("start") is not None:
        lab = canonical(case["start"])
        start = to_sets(lab)
        opts[case["start_as"]] = [set(x) for x in start] \
            if case["start_as"] == "cluster_list" else dict(enumerate(lab))
    if case.get("sub", 1000) != 1000:
        opts["n_sub_iter_max"] = case["sub"]
    for j, k in enumerate(ks[1:]):
        total = 0.0
        acc = np.zeros((n, n))
        mx = 0.0
        for i in range(k):
            dt = abs(tt[i + 1] - tt[i])
            p = p1 @ cum[i]
            M = cum[i] @ np.diag(1 / np.where(p == 0, 1, p)) @ cum[i].T * dt
            M = np.diag(p1) @ M @ np.diag(p1)
            acc += M
            mx = max(mx, np.abs(M).max(), np.abs(acc).max())
            total += dt
        want = acc / total - np.outer(p1, p1)
        # what the relative tolerance leaves out, in every step and sum
        err = 2 * k * rtol * mx / total if case["kind"] != "dense" else 0
        I = dense(fi.I_list[j])
        require_close(f"integral until {tt[k]}", I, want, atol=1e-10 + err)
        done.append((I, err))
    for j in range(len(ks) - 1):
        with quiet():
            seed = {"rnd_state": np.random.RandomState(case["seed"])} if case.get("state") \
                else {"rnd_seed": case["seed"]}
            loops = fi.find_louvain_clustering(k=j, **seed, **opts)
        cl = check_partition("flow clustering", fi.partition[j], n)
        I, err = done[j]
        require_close("stability of the flow clustering",
                      fi.clustering[j].compute_stability(), stab(I, cl), atol=1e-10)
        require(not loops or stab(I, cl) >= stab(I, start) - 1e-10,
                f"flow clustering worse than the start {start}")
        if case.get("sub", 1000) == 1 and loops:
            require(as_sets(cl) == as_sets(start),
                    f"{cl} from {start} without a pass over the nodes")
        require(loops or (len(cl) == 1 and np.abs(I).max() < 1e-4 + 2 * err),
                f"{cl} in {loops} loops")
        if loops and (p1 > 0).all() and not opts:
            N = I + np.outer(p1, p1) > 1e-6 * np.abs(I).max()
            if case["kind"] == "dense":
                N = cum[ks[j + 1] - 1] > 1e-12
            N = N | N.T
            for a, b in itertools.combinations(cl, 2):
                x, y = sorted(a), sorted(b)
                if N[np.ix_(x, y)].any():
                    gain = 2 * I[np.ix_(x, y)].sum()
                    require(gain <= 1e-9 * max(1, np.abs(I).max()) or
                            ties(lambda seed, S: Clustering(T=stoch(N | np.eye(n, dtype=bool)), p1=p1,
                                                            p2=p1, S=S, rnd_seed=seed),
                                 I, case["seed"]),
                            f"merging {x} and {y} gains {gain}")
        # computed once
        with quiet():
            fi.find_louvain_clustering(k=j, rnd_seed=case["seed"] + 1)
        require(as_sets(fi.partition[j].cluster_list) == as_sets(cl), "clustering computed twice")
    return K > 1


# ------------------------------------------------------------------ F17 ---

@st.composite
def two_parts(draw, lo=1, hi=12):
    n = draw(st.integers(lo, hi))
    mk = st.integers(1, n)
    a = canonical(draw(st.lists(st.integers(0, draw(mk) - 1), min_size=n, max_size=n)))
    b = canonical(draw(st.lists(st.integers(0, draw(mk) - 1), min_size=n, max_size=n)))
    c = canonical(draw(st.lists(st.integers(0, draw(mk) - 1), min_size=n, max_size=n)))
    if draw(st.integers(0, 5)) == 0:
        b = list(a)
    return {"a": a, "b": b, "c": c, "perm": list(draw(st.permutations(range(n)))),
            "order": draw(st.randoms(use_true_random=False).map(lambda r: r.randrange(10**6))),
            "shift": draw(st.sampled_from([0, 0, 0, 5, "gap", "str"])),
            "spread": draw(st.sampled_from([1, 1, 2, 3]))}


def entropy(lab):
    n = len(lab)
    return -sum(lab.count(k) / n * math.log2(lab.count(k) / n) for k in set(lab))


def node_name(x, shift):
    return {"gap": 7 * x * x + 3, "str": f"n{x}"}[shift] if isinstance(shift, str) else x + shift


def forms(lab, order=0, shift=0, spread=1):
    """A partition in every form that is taken; spread: the labels of the
    dictionary leave out numbers."""
    from flowstab.network_clustering import Partition
    sets = [{node_name(x, shift) for x in s} for s in to_sets(lab)]
    import random
    r = random.Random(order)
    sh = list(sets)
    r.shuffle(sh)
    out = {"list": [set(s) for s in sh], "dict": {node_name(i, shift): c * spread + (spread > 2)
                                               for i, c in enumerate(lab)},
           "lists": [sorted(s) for s in sh]}
    if not shift:
        out["partition"] = Partition(len(lab), cluster_list=[set(s) for s in sh])
    return out


def run_measures(case):
    """Comparison measures against their definitions, for all input forms."""
    from flowstab import network_clustering as nc
    a, b, c = case["a"], case["b"], case["c"]
    n = len(a)
    ab = canonical([f"{x},{y}" for x, y in zip(a, b)])
    ha, hb, hab = entropy(a), entropy(b), entropy(ab)
    sh, sp = case["shift"], case.get("spread", 1)
    fa, fb = forms(a, case["order"], sh, sp), forms(b, case["order"] + 1, sh, sp)
    same = [(i, j) for i in range(n) for j in range(i) if a[i] == a[j] and b[i] == b[j]]
    one = [(i, j) for i in range(n) for j in range(i) if (a[i] == a[j]) != (b[i] == b[j])]
    jac = len(one) / (len(one) + len(same)) if one or same else 0.0
    for ka, kb in itertools.product(fa, fb):
        x, y = fa[ka], fb[kb]
        w = f"{ka}/{kb}"
        if max(ha, hb) > 1e-12:
            require_close(f"norm_mutual_information {w}", nc.norm_mutual_information(x, y),
                          (ha + hb - hab) / max(ha, hb), atol=1e-9)
        if n > 1:
            nvi = (2 * hab - ha - hb) / math.log2(n)
            require_close(f"norm_var_information {w}", nc.norm_var_information(x, y), nvi,
                          atol=1e-9)
            require_close(f"norm_var_information with N {w}",
                          nc.norm_var_information(x, y, N=n), nvi, atol=1e-9)
        if ka in ("list", "dict") and kb in ("list", "dict") and n > 1:
            require_close(f"jaccard_distance {w}", nc.jaccard_distance(x, y), jac, atol=1e-12)
    if n == 1:
        return False

    def d(u, v):
        return float(nc.norm_var_information(forms(u)["list"], forms(v)["list"]))
    eq = as_sets(to_sets(a)) == as_sets(to_sets(b))
    require(abs(d(a, b) - d(b, a)) < 1e-9, "norm_var_information is not symmetric")
    require(-1e-12 <= d(a, b) <= 1 + 1e-9, f"norm_var_information {d(a, b)}")
    require((abs(d(a, b)) < 1e-9) == eq, f"norm_var_information {d(a, b)} of {a} and {b}")
    require(d(a, c) <= d(a, b) + d(b, c) + 1e-9, "triangle inequality")
    lists = [forms(x, case["order"], sh)["list"] for x in (a, b, c)]
    require_close("avg_norm_var_information", nc.avg_norm_var_information(lists),
                  (d(a, b) + d(a, c) + d(b, c)) / 3, atol=1e-9)
    v = float(nc.avg_norm_var_information(lists, num_samples=1))
    require(min(abs(v - d(*p)) for p in ((a, b), (a, c), (b, c))) < 1e-9,
            f"average of one sample {v}")
    # the variants of the compiled kernel
    try:
        import _cython_fast_funcs as cf
    except ImportError:         # an installation without them (F28)
        cf = None
    la, lb = forms(a)["list"], forms(b)["list"]
    want = (2 * hab - ha - hb) / math.log2(n)
    ints = [[np.array(sorted(s), dtype=np.int32) for s in l] for l in (la, lb)]
    for name, args in (("cython_nvi", (la, lb, n)), ("cython_nvi_mat", (la, lb, n)),
                       ("cython_nvi_vectors", (*ints, n)),
                       ("cython_nvi_parallel", (la, lb, n, 2))):
        f = getattr(cf, name, None)
        if f is not None:
            require_close(name, f(*args), want, atol=1e-9)
    return max(ha, hb) > 0 and not eq


@st.composite
def table_case(draw):
    """Two partitions of many nodes, as the numbers of common nodes."""
    r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    count = st.sampled_from([0, 0, 1, 7, 1000, 50000, 70000])
    return {"table": draw(st.lists(st.lists(count, min_size=c, max_size=c),
                                   min_size=r, max_size=r)), "first": draw(st.integers(1, 3)),
            "form": draw(st.sampled_from(["list", "dict"]))}


def run_table(case):
    """The entropy measures of large partitions against their definitions."""
    from flowstab import network_clustering as nc
    t = np.array(case["table"], dtype=float)
    t[0, 0] += case["first"]
    n = int(t.sum())
    if n < 2:
        return False
    rows, cols = [set() for _ in t], [set() for _ in t[0]]
    k = 0
    for i, j in np.ndindex(*t.shape):
        block = range(k, k + int(t[i, j]))
        rows[i].update(block)
        cols[j].update(block)
        k = block.stop
    rows, cols = ([x for x in l if x] for l in (rows, cols))
    if case["form"] == "dict":
        rows, cols = ({x: i for i, c in enumerate(l) for x in c} for l in (rows, cols))

    def h(x):
        x = x[x > 0] / n
        return -float((x * np.log2(x)).sum())
    ha, hb, hab = h(t.sum(1)), h(t.sum(0)), h(t)
    nvi = (2 * hab - ha - hb) / math.log2(n)
    require_close("norm_var_information", nc.norm_var_information(rows, cols), nvi, 1e-12, 1e-7)
    if max(ha, hb) > 1e-12:
        require_close("norm_mutual_information", nc.norm_mutual_information(rows, cols),
                      (ha + hb - hab) / max(ha, hb), 1e-9, 1e-7)
    return n > 1000 and nvi > 0


@st.composite
def sort_case(draw):
    n = draw(st.integers(1, 10))
    k = st.integers(1, n)
    a = canonical(draw(st.lists(st.integers(0, draw(k) - 1), min_size=n, max_size=n)))
    b = canonical(draw(st.lists(st.integers(0, draw(k) - 1), min_size=n, max_size=n)))
    return {"a": a, "b": b, "thr": draw(st.sampled_from([None, 0.3, 0.01, 0.5, 1.0])),
            "order": draw(st.integers(0, 10**6)), "drop": draw(st.booleans())}


def run_sort(case):
    """sort_clusters: a rearrangement that follows the model."""
    from flowstab.network_clustering import sort_clusters
    kw = {} if case["thr"] is None else {"thresh_ratio": case["thr"]}
    x = forms(case["a"], case["order"])["list"]
    m = forms(case["b"], case["order"] + 1)["list"]
    if case["drop"] and len(m) > 1:
        m = m[1:]
    keep = [set(s) for s in x]
    r = sort_clusters(x, m, **kw)
    require(as_sets(r) == as_sets(keep) and len(r) == len(keep), f"{keep} sorted to {r}")
    require(x == keep, "the argument was changed")
    # identical clusters come in the order of the model
    model = forms(case["a"], case["order"] + 7)["list"]
    r = sort_clusters(x, model, **kw)
    require([set(s) for s in r] == model, f"{x} sorted to {r}, model {model}")
    # clusters without any common node come last
    r = sort_clusters(x, m, **kw)
    tail = [not any(s & q for q in m) for s in r]
    require(tail == sorted(tail), f"unrelated clusters are not last: {r} for {m}")
    # the first one has the largest overlap with the first of the model

    def J(s, q):
        return len(s & q) / len(s | q)
    if any(s & m[0] for s in x):
        require(J(r[0], m[0]) == max(J(s, m[0]) for s in x), f"{r} for {m}")
    return len(x) > 1


# ------------------------------------------------------------------ F18 ---

@st.composite
def static_case(draw):
    n = draw(st.integers(2, 9))
    directed = draw(st.booleans())
    wt = st.sampled_from(draw(st.sampled_from([[0, 0, 1, 1, 2, 5], [0, 0, 1, 3, 200],
                                               [0, 1, 1, 1], [0, 0, 0, 0, 1, 2]])))
    A = [draw(st.lists(wt, min_size=n, max_size=n)) for _ in range(n)]
    if directed:
        order = draw(st.permutations(range(n)))
        for u, v in zip(order, order[1:] + order[:1]):
            A[u][v] = max(A[u][v], 1)       # strongly connected
    else:
        for i in range(n):
            for j in range(i):
                A[i][j] = A[j][i]
        if not any(map(any, A)):
            A[0][n - 1] = A[n - 1][0] = 1
    mode = draw(st.sampled_from(["expm", "expm", "discrete", "linear"]))
    return {"A": A, "directed": directed, "csr": draw(st.booleans()), "mode": mode,
            "t": draw(st.sampled_from([0, 1, 2, 3, 5, 12])) if mode == "discrete" else
            draw(st.sampled_from([1, 0.5, 0.1, 3, 10, 1e-3, 1.5, 40])),
            "np": draw(st.booleans()),
            "labels": canonical(draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n))),
            "seed": draw(st.integers(0, 1000)), "int": draw(st.booleans())}


def run_static(case):
    """Markov stability of a static network, at all Markov times."""
    from flowstab.network_clustering import static_clustering
    A = np.array(case["A"], dtype=float)
    n = len(A)
    if case["csr"] and case["directed"] and n < 4:
        return False            # too small for the sparse eigensolver
    P = A.copy()
    for i in range(n):
        if P[i].sum() == 0:
            P[i, i] = 1
    P /= P.sum(1, keepdims=True)
    if case["directed"]:
        M = np.vstack([P.T - np.eye(n), np.ones(n)])
        pi = np.linalg.lstsq(M, np.concatenate([np.zeros(n), [1]]), rcond=None)[0]
    else:
        pi = A.sum(1) / A.sum()
    t = case["t"]
    kw = {}
    if case["mode"] == "discrete":
        T = np.linalg.matrix_power(P, t)
        kw["discrete_time_rw"] = True
    elif case["mode"] == "linear":
        T = np.eye(n) - t * (np.eye(n) - P)
        kw["linearized"] = True
    else:
        T = ref.expm_walk(P, t)
    if case.get("np"):
        t = np.float64(t) if isinstance(t, float) else np.int64(t)
    X = A.astype(int) if case["int"] else A.copy()
    keep = X.copy()
    arg = csr_matrix(X) if case["csr"] else X
    with quiet():
        c = static_clustering(arg, **spare(t=t, rnd_seed=case["seed"],
                                                directed=case["directed"], **kw))
    require_close("adjacency matrix after the call", arg, keep, atol=0, rtol=0)
    require_close("transition matrix", c.T, T, atol=1e-8)
    require_close("stationary solution", c.p1, pi, atol=1e-7)
    require_close("stationary solution at t2", c.p2, pi, atol=1e-7)
    require_close("stationarity", c.p1 @ dense(c.T), c.p1, atol=1e-7)
    S = ref.autocov(T, pi, pi)
    for node in range(n):
        with quiet():
            c.partition.move_node(node, case["labels"][node])
    require_close("Markov stability", c.compute_stability(), stab(S, to_sets(case["labels"])),
                  atol=1e-6)
    with quiet():
        d = static_clustering(arg, **spare(t=t, rnd_seed=case["seed"],
                                                directed=case["directed"], **kw))
        d.find_louvain_clustering()
    cl = check_partition("static clustering", d.partition, n)
    require(stab(S, cl) >= np.trace(S) - 1e-6, "clustering worse than singletons")
    return True


def run_static_bad(case):
    """Networks without links and other containers are refused."""
    from flowstab.network_clustering import static_clustering
    n = len(case["A"])
    for Z in (np.zeros((n, n)), csr_matrix((n, n))):
        with quiet():
            require_raises("no links", ValueError, static_clustering, Z)
    for Z in (case["A"], np.asmatrix(np.array(case["A"], dtype=float)),
              csr_matrix(np.array(case["A"], dtype=float)).tocoo()):
        with quiet():
            require_raises("container", TypeError, static_clustering, Z)
    return True


# ------------------------------------------------------------------ F19 ---

def run_multi(case):
    """run_multi_louvain: every repetition is the run of its seed."""
    from flowstab.network_clustering import n_random_seeds, run_multi_louvain
    make, S, T, n = setup(dict(case, labels=None))
    c = make(case["seed"])
    if flat(S, case["sparse"]):
        return False
    with quiet():
        loops, cls, stabs, seeds = run_multi_louvain(c, 4)
    require(len(loops) == len(cls) == len(stabs) == len(seeds) == 4, "lengths")
    require(as_sets(c.partition.cluster_list) == [[i] for i in range(n)],
            "the clustering itself was changed")
    for l, cl, v, s in zip(loops, cls, stabs, seeds):
        require(sorted(x for q in cl for x in q) == list(range(n)), f"{cl} is no partition")
        require_close("stability", v, stab(S, cl), atol=1e-12)
        d = make(s)
        with quiet():
            l2 = d.find_louvain_clustering()
        require(as_sets(d.partition.cluster_list) == as_sets(cl) and l == l2,
                f"seed {s} gives {d.partition.cluster_list}, reported {cl}")
    m = n_random_seeds(5)
    require(len(m) == 5 and all(0 <= x < 2**32 for x in m), f"seeds {m}")
    return len({tuple(map(tuple, as_sets(x))) for x in cls}) > 0


@st.composite
def par_case(draw):
    c = draw(clust_case(max_n=7))
    c["flow"] = draw(st.booleans())
    c["nproc"] = draw(st.sampled_from([1, 2, 3]))
    c["rep"] = draw(st.integers(1, 4))
    c["S"] = None
    c["labels"] = None
    return c


def run_parallel(case):
    """Parallel clustering: every repetition is the serial run of its seed."""
    from flowstab.network_clustering import (Clustering, FlowIntegralClustering,
                                             SparseClustering)
    from flowstab.parallel_clustering import compute_parallel_clustering
    make, S, T, n = setup(case)
    if case["flow"]:
        Ts = [csr_matrix(T), csr_matrix(T.T / T.T.sum(1, keepdims=True))
              if (T.sum(0) > 0).all() else csr_matrix(T)]
        if not case["sparse"]:
            Ts = [M.toarray() for M in Ts]
        with quiet():
            fi = FlowIntegralClustering(T_inter_list=Ts,
                                        p1=None if case["p1"] is None else pvec(case["p1"], n))
            fi.find_louvain_clustering(rnd_seed=1)
        c = fi.clustering[0]
        S = dense(fi.I_list[0])

        def serial(seed):
            if case["sparse"]:
                return SparseClustering(p1=c.p1, S=fi.I_list[0], rnd_seed=seed)
            return Clustering(p1=c.p1, T=fi.T_list[-1], S=fi.I_list[0], rnd_seed=seed)
    else:
        c = make(3)
        serial = make
    if flat(S, case["sparse"]):
        return False
    with quiet():
        cls, stabs, seeds = compute_parallel_clustering(c, num_repeat=case["rep"],
                                                        nproc=case["nproc"], verbose=False)
    require(len(cls) == len(stabs) == len(seeds) == case["rep"], "lengths")
    for cl, v, s in zip(cls, stabs, seeds):
        require(sorted(x for q in cl for x in q) == list(range(n)), f"{cl} is no partition")
        require_close("stability of a parallel run", v, stab(S, cl), atol=1e-12)
        d = serial(s)
        with quiet():
            d.find_louvain_clustering()
        require(as_sets(d.partition.cluster_list) == as_sets(cl),
                f"seed {s}: parallel {cl}, serial {d.partition.cluster_list}")
    return True


@st.composite
def nvi_case(draw):
    n = draw(st.integers(2, 7))
    k = draw(st.integers(2, 5))
    return {"parts": [canonical(draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n)))
                      for _ in range(k)],
            "nproc": draw(st.sampled_from([1, 2, 3])), "same": draw(st.booleans()),
            "samples": draw(st.sampled_from([None, None, 1, 3, 50]))}


def run_nvi(case):
    """compute_parallel_nvi: the values of all pairs, whatever the number of
    processes."""
    from flowstab.network_clustering import norm_var_information
    from flowstab.parallel_clustering import compute_parallel_nvi
    parts = [to_sets(p) for p in case["parts"]]
    n = len(case["parts"][0])
    if case.get("same"):
        parts.insert(1, parts[-1])      # one of them twice
    pairs = [float(norm_var_information(a, b)) for a, b in itertools.combinations(parts, 2)]
    with quiet():
        v = compute_parallel_nvi(parts, n, nproc=case["nproc"], verbose=False,
                                 num_varinf_samples=case["samples"])
    want = len(pairs) if case["samples"] is None else min(case["samples"], len(pairs))
    require(len(v) == want, f"{len(v)} values, expected {want}")
    if want == len(pairs):
        require_close("all the pairs", np.array(v, dtype=float), np.array(pairs), atol=1e-12)
    left = sorted(pairs)
    for x in v:
        j = min(range(len(left)), key=lambda q: abs(left[q] - x))
        require(abs(left[j] - x) < 1e-12, f"{x} is not the value of an unused pair {pairs}")
        del left[j]
    return len(set(pairs)) > 1


def run_big_stab(case):
    """Stabilities and gains of larger networks."""
    a = run_stability(case)
    return run_gains(case) or a


def run_big_louvain(case):
    """Outcome, local optimality and agreement of the dense and the sparse
    form on larger networks, with several levels."""
    a = run_louvain(case)
    run_one_level(case)
    run_dense_sparse(case)
    return a


def big_zr():
    return clust_case(max_n=40, min_n=12)


def zr():
    return clust_case(zero_rows=True, zeros=True)


PROPS = {
    "F13": ("F13: a history in which at least one node changes its cluster.",
            [Sub("history", part_case, run_part, quick=2500, thorough=50000, shards=5),
             Sub("refused", part_bad, run_part_bad, quick=600, thorough=4000, shards=1)],
            ["clusters are sets of the nodes 0..n-1"]),
    "F14": ("F14: more than one cluster, or a move that changes the partition.",
            [Sub("stability", lambda: clust_case(max_n=8, zero_rows=True, zeros=True),
                 run_stability, quick=1500, thorough=30000, shards=3),
             Sub("gains", lambda: clust_case(max_n=8, zeros=True), run_gains, quick=1500,
                 thorough=30000, shards=3),
             Sub("bicluster", bi_case, run_bi, quick=1200, thorough=20000, shards=2),
             Sub("big", lambda: clust_case(max_n=40, min_n=12, zeros=True), run_big_stab,
                 quick=80, thorough=2000, shards=8)],
            ["gains and aggregation are read from the methods the Louvain loop uses; when they "
             "do not exist under these names, only their effects are checked (F15)"]),
    "F15": ("F15: the clustering ends with more than one and less than n clusters (or merges "
            "at least one pair in the single-level check).",
            [Sub("outcome", zr, run_louvain, quick=1500, thorough=30000, shards=4),
             Sub("one_level", lambda: clust_case(), run_one_level, quick=1200, thorough=20000,
                 shards=3),
             Sub("dense_sparse", lambda: clust_case(), run_dense_sparse, quick=1200,
                 thorough=20000, shards=3),
             Sub("flat", flat_case, run_flat, quick=200, thorough=1000, shards=1),
             Sub("threshold", thresh_case, run_thresh, quick=400, thorough=4000, shards=1),
             Sub("options", option_case, run_options, quick=600, thorough=10000, shards=2),
             Sub("big", big_zr, run_big_louvain, quick=240, thorough=3000, shards=8)],
            ["weights are generic, so that no two different moves have equal gains"]),
    "F16": ("F16: more than one interval.",
            [Sub("integral", flow_case, run_flow, quick=1500, thorough=40000, shards=8),
             Sub("big", lambda: flow_case(12, 30, 24), run_flow, quick=160, thorough=2000,
                 shards=8)],
            ["the integral grid starts at the first time; the sparse forms are compared up to "
             "the documented rtol"]),
    "F17": ("F17: two different partitions, one of them with more than one cluster.",
            [Sub("measures", two_parts, run_measures, quick=2000, thorough=40000, shards=5),
             Sub("sort", sort_case, run_sort, quick=2000, thorough=20000, shards=2),
             Sub("big", lambda: two_parts(30, 120), run_measures, quick=160, thorough=1500,
                 shards=4),
             Sub("populations", table_case, run_table, quick=120, thorough=1200, shards=4)],
            ["norm_mutual_information of two one-cluster partitions is 0/0"]),
    "F18": ("F18: every case.",
            [Sub("static", static_case, run_static, quick=1500, thorough=30000, shards=6),
             Sub("refused", static_case, run_static_bad, quick=60, thorough=200, shards=1)],
            ["directed networks are strongly connected; sparse ones have at least 4 nodes"]),
    "F19": ("F19: a clustering with covariance; different NVI values among the pairs.",
            [Sub("multi", lambda: clust_case(max_n=7), run_multi, quick=500, thorough=10000,
                 shards=3),
             Sub("parallel", par_case, run_parallel, quick=120, thorough=2500, shards=4),
             Sub("nvi", nvi_case, run_nvi, quick=150, thorough=3000, shards=2)],
            []),
}
