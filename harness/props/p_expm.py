"""F20: the strategies for the matrix exponential of a Laplacian agree."""
import numpy as np
from scipy.linalg import expm as scipy_expm
from hypothesis import strategies as st
from scipy.sparse import csc_matrix, csr_matrix

from .. import ref
from ..core import Sub, dense, require, require_close


@st.composite
def graphs(draw, max_n=9):
    """Undirected weighted graph, several components and isolated nodes likely;
    directed edges in a part of the cases."""
    n = draw(st.integers(1, max_n))
    directed = draw(st.integers(0, 3)) == 0
    k = draw(st.integers(0, 2 * n))
    edges = []
    for _ in range(k):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        edges.append([i, j, draw(st.sampled_from([1, 1, 1, 2, 5]))])
    return {"n": n, "edges": edges, "directed": directed,
            "dup_zero": draw(st.booleans())}


def walk(g):
    A = np.zeros((g["n"], g["n"]))
    for i, j, w in g["edges"]:
        if i == j:
            continue
        A[i, j] = w
        if not g["directed"]:
            A[j, i] = w
    iso = A.sum(1) == 0
    A[iso, iso] = 1.0
    return A / A.sum(1, keepdims=True)


def sparse_of(M, fmt, explicit_zero):
    """Sparse copy of M; with an explicitly stored zero when asked for."""
    n = len(M)
    i, j = np.nonzero(M)
    v = M[i, j]
    if explicit_zero:
        z = [(a, b) for a in range(n) for b in range(n) if M[a, b] == 0][:2]
        i = np.r_[i, [a for a, _ in z]].astype(int)
        j = np.r_[j, [b for _, b in z]].astype(int)
        v = np.r_[v, np.zeros(len(z))]
    cls = csc_matrix if fmt == "csc" else csr_matrix
    return cls((v, (i, j)), shape=(n, n))


def trim(E, thresh, per_col, normalize):
    """(expected, decided entries, rows that keep something)."""
    ok = np.ones_like(E, dtype=bool)
    if thresh is not None:
        lim = (E.max(0, keepdims=True) if per_col else E.max()) / thresh
        lim = lim * np.ones_like(E)
        ok = np.abs(E - lim) > 1e-7 * lim
        E = np.where(E < lim, 0, E)
    rows = ok.all(1) & (E.sum(1) > 0)
    if normalize:
        s = E.sum(1, keepdims=True)
        E = np.divide(E, s, out=np.zeros_like(E), where=s > 0)
    return E, ok, rows


THRESH = [None, None, 2.0, 10.0, 100.0, 1e4]


@st.composite
def sub_cases(draw):
    return {"g": draw(graphs()), "fact": draw(st.sampled_from([0.01, 0.3, 1, 4, 30, 1e-5, 1e-11])),
            "thresh": draw(st.sampled_from(THRESH)), "norm": draw(st.booleans()),
            "give": draw(st.booleans()),
            "shift": draw(st.one_of(st.none(), st.none(), st.lists(
                st.sampled_from([0, -1, 0.5, -0.1, 1.5]), min_size=1, max_size=5)))}


def exponent(case, P):
    """The matrix to exponentiate and its exponential: -fact (I - P), plus
    other values on the diagonal when asked for."""
    n = len(P)
    A = case["fact"] * (P - np.eye(n))
    if case.get("shift") is None:
        return A, ref.expm_walk(P, case["fact"])
    A = A + np.diag(np.resize(case["shift"], n))
    return A, scipy_expm(A)


def compare(what, got, E, thresh, per_col, norm, fact=1):
    got = dense(got)
    require(got.shape == E.shape, f"{what}: shape {got.shape}")
    want, ok, rows = trim(E, thresh, per_col, norm)
    require_close(what, got[rows], want[rows], atol=min(1e-8, max(1e-6 * fact, 1e-14)))
    if norm:
        require(np.all(np.abs(got[rows].sum(1) - 1) < 1e-9), f"{what}: row sums")


def run_subspace(case):
    """compute_subspace_expm = matrix exponential, trimmed and normalised as
    documented, with or without given components; the input keeps its value."""
    from scipy.sparse.csgraph import connected_components
    from flowstab.temporal_network import compute_subspace_expm
    P = walk(case["g"])
    X, E = exponent(case, P)
    A = sparse_of(X, "csc", case["g"]["dup_zero"])
    kw = {}
    if case["give"]:
        B = A.copy()
        B.eliminate_zeros()
        n, lab = connected_components(B, directed=False)
        kw = {"n_comp": n, "comp_labels": lab}
    with ref.quiet():
        T = compute_subspace_expm(A, thresh_ratio=case["thresh"],
                                  normalize_rows=case["norm"], **kw)
    compare("compute_subspace_expm", T, E, case["thresh"], False, case["norm"], case["fact"])
    require_close("input of compute_subspace_expm", A, X, atol=0)
    comps = ref.components(P)
    return len(comps) >= 2 and max(map(len, comps)) >= 2


@st.composite
def par_cases(draw):
    c = draw(sub_cases())
    c["nproc"] = draw(st.sampled_from([1, 2, 3]))
    c["fmt"] = draw(st.sampled_from(["csc", "csr"]))
    return c


def run_parallel(case):
    """compute_subspace_expm_parallel and compute_parallel_expm give the same
    matrix for any number of workers."""
    from flowstab.parallel_expm import (compute_parallel_expm,
                                        compute_subspace_expm_parallel)
    P = walk(case["g"])
    X, E = exponent(case, P)
    with ref.quiet():
        A = sparse_of(X, "csc", case["g"]["dup_zero"])
        T = compute_subspace_expm_parallel(A, nproc=case["nproc"],
                                           thresh_ratio=case["thresh"],
                                           normalize_rows=case["norm"])
        B = sparse_of(X, case["fmt"], case["g"]["dup_zero"])
        U = compute_parallel_expm(B, nproc=case["nproc"], thresh_ratio=case["thresh"],
                                  normalize_rows=case["norm"], verbose=False)
    compare("compute_subspace_expm_parallel", T, E, case["thresh"], False, case["norm"], case["fact"])
    compare("compute_parallel_expm", U, E, case["thresh"], True, case["norm"], case["fact"])
    comps = ref.components(P)
    return len(comps) >= 2 and max(map(len, comps)) >= 2


@st.composite
def lapl_cases(draw):
    c = draw(sub_cases())
    c["dense"] = draw(st.booleans())
    c["nproc"] = draw(st.sampled_from([1, 1, 2]))
    return c


def run_lapl(case):
    """sparse_lapl_expm(L, f) = expm(-f L) up to the trimming allowed by
    thresh_ratio, for every option; nodes without transitions stay put."""
    from flowstab.sparse_stoch_mat import SparseStochMat
    from flowstab.temporal_network import sparse_lapl_expm
    P = walk(case["g"])
    L = np.eye(len(P)) - P
    Ls = sparse_of(L, "csc", False)
    E = ref.expm_walk(P, case["fact"])
    with ref.quiet():
        T = sparse_lapl_expm(Ls, case["fact"], dense_expm=case["dense"],
                             nproc=case["nproc"], thresh_ratio=case["thresh"],
                             normalize_rows=case["norm"])
    require(isinstance(T, SparseStochMat), f"result is a {type(T).__name__}")
    check_trimmed("sparse_lapl_expm", dense(T), E,
                  None if case["dense"] else case["thresh"], case["norm"])
    require_close("input of sparse_lapl_expm", Ls, L, atol=0)
    return len(case["g"]["edges"]) >= 2 and bool((L.any(0) | L.any(1)).sum() < len(L))


def check_trimmed(what, T, E, thresh, norm):
    """T is E, or E after any trimming of values below max/thresh."""
    if thresh is None:
        require_close(what, T, E, atol=1e-8)
        return
    lim = E.max() / thresh
    small = E <= lim * (1 + 1e-7)
    lost = np.where(small, E, 0).sum(1, keepdims=True)
    keep = 1 - lost
    with np.errstate(all="ignore"):
        hi = np.where(keep > 1e-9, E / keep, np.inf) if norm else E
    require(np.all(T <= hi + 1e-8), f"{what}: an entry is above the exponential")
    lo = np.where(small, 0, E)
    require(np.all(T >= lo - 1e-8), f"{what}: an entry above max/thresh_ratio was lost")


SIZES = [[400, 400, 250], [1003, 4], [600, 30, 30, 350, 2], [1020], [999, 2, 2],
         [500, 500], [1000, 5, 6], [300, 300, 300, 90], [998]]


@st.composite
def large_cases(draw):
    return {"sizes": draw(st.sampled_from(SIZES)), "iso": draw(st.sampled_from([0, 3, 40])),
            "chord": draw(st.integers(2, 9)), "mult": draw(st.sampled_from([1, 7, 11, 13])),
            "fact": draw(st.sampled_from([0.1, 1, 5])),
            "thresh": draw(st.sampled_from([None, None, 1e3, 1e6])),
            "norm": draw(st.booleans()), "nproc": draw(st.sampled_from([1, 1, 2, 4])),
            "skew": draw(st.booleans())}


def large_graph(case):
    """Components = ring with chords / star-ish; node ids interleaved."""
    n = sum(case["sizes"]) + case["iso"]
    m = case["mult"]
    while np.gcd(m, n) != 1:
        m += 1
    ids = (np.arange(n) * m) % n
    A = np.zeros((n, n))
    at = 0
    for s in case["sizes"]:
        loc = ids[at:at + s]
        at += s
        for k in range(s):
            A[loc[k], loc[(k + 1) % s]] = 1
            if k % case["chord"] == 0:
                A[loc[k], loc[(k * k + 3) % s]] = 1
            if case["skew"] and k % 17 == 0:
                A[loc[0], loc[k]] = 1
    np.fill_diagonal(A, 0)
    A = np.maximum(A, A.T)
    iso = A.sum(1) == 0
    A[iso, iso] = 1
    return A / A.sum(1, keepdims=True), [ids[sum(case["sizes"][:k]):sum(case["sizes"][:k + 1])]
                                        for k in range(len(case["sizes"]))]


def run_large(case):
    """More than 1000 nodes with contacts: component-wise (and, for large
    components, column-wise parallel) exponentials are used; same result."""
    from flowstab.temporal_network import sparse_lapl_expm
    P, comps = large_graph(case)
    n = len(P)
    E = np.eye(n)
    for c in comps:
        E[np.ix_(c, c)] = ref.expm_walk(P[np.ix_(c, c)], case["fact"])
    L = csc_matrix(np.eye(n) - P)
    with ref.quiet():
        T = sparse_lapl_expm(L, case["fact"], dense_expm=False, nproc=case["nproc"],
                             thresh_ratio=case["thresh"], normalize_rows=case["norm"])
    check_trimmed("sparse_lapl_expm", dense(T), E, case["thresh"], case["norm"])
    return len(comps) > 1


PROPS = {
    "F20": ("Non-trivial: at least two components, one with two or more nodes "
            "(sparse_lapl_expm: at least two edges and an isolated node).",
            [Sub("subspace", sub_cases, run_subspace, 1500, 20000, 2),
             Sub("parallel", par_cases, run_parallel, 120, 2500, 4),
             Sub("lapl", lapl_cases, run_lapl, 1500, 20000, 2),
             Sub("large", large_cases, run_large, 12, 150, 4)],
            ["Laplacians I-P of a row stochastic P (for the functions that exponentiate a given "
             "matrix also with other values on the diagonal), factors 0.01 to 30, at most 1100 "
             "nodes; a row that is trimmed away completely, or has an entry within "
             "1e-7 (relative) of the trimming limit, is not judged."]),
}
