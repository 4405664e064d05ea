"""F09 SparseStochMat algebra, F10 sparse kernels, F11 SparseAutocovMat,
F12 Cython kernels and their Python substitutes."""
from __future__ import annotations

import random

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csc_matrix, csr_matrix

from ..core import Sub, Violation, dense, require, require_close, require_raises
from ..gen import canonical, to_sets

VALS = [0, 0, 0, 1, 0.5, 0.25, 2, -1, -0.5, 3.7]
NONNEG = [0, 0, 0, 1, 0.5, 0.25, 2, 3.7, 1e-3]


@st.composite
def block(draw, m, vals):
    if m > 8:       # large: from a seed, with a drawn density
        rnd = random.Random(draw(st.integers(0, 2**32)))
        den = draw(st.sampled_from([0.05, 0.2, 0.5, 1.0]))
        return [[rnd.choice(vals) if rnd.random() < den else 0 for _ in range(m)]
                for _ in range(m)]
    return [draw(st.lists(st.sampled_from(vals), min_size=m, max_size=m)) for _ in range(m)]


@st.composite
def subset(draw, n, ordered=False):
    s = [i for i in range(n) if draw(st.booleans())]
    if not ordered and draw(st.integers(0, 3)) == 0 and len(s) > 1:
        s = list(draw(st.permutations(s)))
    return s


def csr_of(rows, layout="canonical"):
    """csr_matrix of a dense list of rows in the given storage layout."""
    A = np.array(rows, dtype=np.float64).reshape(len(rows), -1 if rows else 0)
    n = A.shape[0]
    if n == 0:
        return csr_matrix((0, 0))
    data, ind, ptr = [], [], [0]
    for i in range(n):
        cols = [j for j in range(A.shape[1]) if A[i, j] != 0 or layout == "explicit"]
        if layout == "unsorted":
            cols = cols[::-1]
        data += [A[i, j] for j in cols]
        ind += cols
        ptr.append(len(ind))
    return csr_matrix((np.array(data, dtype=np.float64), np.array(ind, dtype=np.int32),
                       np.array(ptr, dtype=np.int32)), shape=A.shape)


MAGS = st.sampled_from([1, 1e-13, 1e-7, 1e8, 1e-30])
LAYOUTS = st.sampled_from(["canonical", "canonical", "unsorted", "explicit"])


# ------------------------------------------------------------------ F09 ---

@st.composite
def new_mat(draw, n, nonneg):
    vals = NONNEG if nonneg else VALS
    kind = draw(st.sampled_from(["small", "small", "init", "full", "full", "diag"]))
    d = draw(st.sampled_from([1, 1, 1, 0, 0.5, 2, -1] if not nonneg else [1, 1, 1, 0.5, 2]))
    if kind == "diag":
        return ["new", kind, [], [], d, "canonical", False]
    nz = draw(subset(n))
    return ["new", kind, nz, draw(block(len(nz), vals)), d, draw(LAYOUTS), draw(st.booleans())]


@st.composite
def ssm_case(draw, lo=1, hi=7):
    n = draw(st.integers(lo, hi))
    nonneg = draw(st.booleans())
    ops = [draw(new_mat(n, nonneg)), draw(new_mat(n, nonneg))]
    ix = st.integers(0, 7)
    for _ in range(draw(st.integers(1, 10))):
        ops.append(draw(st.one_of(
            new_mat(n, nonneg),
            st.tuples(st.sampled_from(["add", "sub", "matmul", "matmul"]), ix, ix).map(list),
            st.tuples(st.sampled_from(["add", "sub", "matmul", "matmul"]), ix, ix).map(list),
            st.tuples(st.sampled_from(["add", "sub", "matmul", "matmul"]), ix, ix).map(list),
            st.tuples(st.sampled_from(["T", "transpose", "copy", "dict", "csr", "intersect"]),
                      ix).map(list),
            st.tuples(st.just("scale"), ix, st.sampled_from([2, 0.5, -1, 0, 1.0, 3, 1.000003, 1e-7]),
                      st.sampled_from(["l", "r"]),
                      st.sampled_from(["py", "f64", "i64"])).map(list),
            st.tuples(st.sampled_from(["add_diag", "sub_diag"]), ix,
                      st.sampled_from([1.0, 0.5, -2, 2e-6, None])).map(list),
            st.tuples(st.just("mixed"), ix, ix, st.sampled_from(["add", "sub", "matmul"]),
                      st.sampled_from(["l", "r"]),
                      st.sampled_from(["csr", "csc", "dense", "vec"])).map(list),
            st.tuples(st.just("norm"), ix, st.sampled_from([1.0, 1.0, 2.0, 0.5]),
                      st.booleans()).map(list),
            st.tuples(st.just("zeroes"), ix, st.sampled_from([1e-8, 0.3, 1.0]),
                      st.booleans(), st.booleans()).map(list),
        )))
    return {"n": n, "nonneg": nonneg, "ops": ops, "last": draw(ix),
            "last_op": draw(st.sampled_from(["zeroes", "norm", "data"]))}


def build_ssm(n, op):
    from flowstab.sparse_stoch_mat import SparseStochMat as S
    _, kind, nz, rows, d, layout, flag = op
    D = np.eye(n) * d
    for a, i in enumerate(nz):
        for b, j in enumerate(nz):
            D[i, j] = rows[a][b]
    if kind == "diag":
        return S.create_diag(n, float(d)), D
    small = csr_of(rows, layout)
    if kind == "small":
        return S.from_small_csr_matrix(n, small, np.array(nz, dtype=np.int32),
                                       diag_val=float(d)), D
    if kind == "init":
        return S(n, small.data, small.indices, small.indptr, np.array(nz), float(d)), D
    full = csr_of(D.tolist(), layout if layout != "explicit" else "canonical")
    if flag:
        return S.from_full_csr_matrix(full, nz_rowcols=np.array(nz, dtype=int),
                                      diag_val=float(d)), D
    return S.from_full_csr_matrix(full, diag_val=float(d)), D


def check_ssm(what, M, D, mag):
    require(M.size == len(D) and tuple(M.shape) == D.shape, f"{what}: size {M.shape}")
    tol = 1e-10 * max(1.0, mag)
    require_close(what, M.toarray(), D, atol=tol)
    full = M.to_full_mat()
    require_close(what + " (to_full_mat)", full, D, atol=tol)
    require_close(what + " (tocsr)", M.tocsr(), D, atol=tol)
    nz = np.asarray(M.nz_rowcols)
    require(len(set(nz.tolist())) == len(nz) and list(nz) == sorted(nz.tolist()),
            f"{what}: nz_rowcols {nz}")
    require(M.T_small.shape == (len(nz), len(nz)),
            f"{what}: {M.T_small.shape} values for {len(nz)} rows")
    # rows and columns that are not listed hold nothing but the diagonal value
    out = [i for i in range(len(D)) if i not in set(nz.tolist())]
    for i in out:
        e = np.zeros(len(D))
        e[i] = M.diag_val
        require_close(f"{what} row {i} outside of nz_rowcols", D[i], e, atol=tol)


def run_ssm(case):
    """Sequences of SparseStochMat operations against dense matrices."""
    from flowstab.sparse_stoch_mat import SparseStochMat as S
    from flowstab.sparse_stoch_mat import inplace_csr_row_normalize
    from flowstab.temporal_network import set_to_zeroes
    n = case["n"]
    pool = []           # [matrix, dense, magnitude]
    views = set()       # matrices that may share their values with another one
    nt = False

    def push(what, M, D, mag):
        require(isinstance(M, S), f"{what}: returned a {type(M).__name__}")
        if mag > 1e8:
            return
        check_ssm(what, M, D, mag)
        pool.append([M, D, mag])

    for op in case["ops"]:
        k = op[0]
        if k == "new":
            M, D = build_ssm(n, op)
            push(f"new {op[1]}", M, D, 4.0)
            continue
        A, DA, ma = e = pool[op[1] % len(pool)]
        if k in ("add", "sub", "matmul"):
            B, DB, mb = pool[op[2] % len(pool)]
            if k == "add":
                push("A + B", A + B, DA + DB, ma + mb)
            elif k == "sub":
                push("A - B", A - B, DA - DB, ma + mb)
            else:
                push("A @ B", A @ B, DA @ DB, n * (ma + 4) * (mb + 4))
            nt = nt or len(B.nz_rowcols) * len(A.nz_rowcols) > 0
        elif k == "T":
            push("A.T", A.T, DA.T, ma)
            views |= {id(A), id(pool[-1][0])}
        elif k == "transpose":
            push("A.transpose(copy=True)", A.transpose(copy=True), DA.T, ma)
        elif k == "copy":
            C = A.copy()
            push("A.copy()", C, DA, ma)
            # the copy is independent of the original
            C2 = A.copy()
            C2.T_small.data[:] = 7
            if len(C2.nz_rowcols):
                C2.nz_rowcols[0] = 0
            check_ssm("original after changing its copy", A, DA, ma)
        elif k == "dict":
            d = A.to_dict()
            push("SparseStochMat(**A.to_dict())", S(**d), DA, ma)
            views |= {id(A), id(pool[-1][0])}
        elif k == "csr":
            # full matrix and back
            push("from_full_csr_matrix(A.tocsr())",
                 S.from_full_csr_matrix(A.tocsr(), diag_val=A.diag_val), DA, ma)
        elif k == "intersect":
            for B, DB, mb in pool:
                want = len(set(A.nz_rowcols.tolist()) & set(B.nz_rowcols.tolist()))
                require(A.check_nz_intersect_len(B) == want, "check_nz_intersect_len")
        elif k == "scale":
            f, side, typ = op[2], op[3], op[4]
            s = {"py": f, "f64": np.float64(f), "i64": np.int64(int(f))}[typ]
            R = s * A if side == "l" else A * s
            push(f"scalar {typ} {side}", R, DA * float(s), ma * max(1, abs(float(s))))
        elif k in ("add_diag", "sub_diag"):
            sg = 1 if k == "add_diag" else -1
            v = op[2]
            R = getattr(A, k)() if v is None else getattr(A, k)(v)
            push(k, R, DA + sg * (1.0 if v is None else v) * np.eye(n), ma + 2)
        elif k == "mixed":
            B, DB, mb = pool[op[2] % len(pool)]
            f, side, typ = op[3], op[4], op[5]
            X = {"csr": lambda: csr_matrix(DB), "csc": lambda: csc_matrix(DB),
                 "dense": lambda: DB.copy(), "vec": lambda: DB[0].copy()}[typ]()
            if typ == "vec":
                f = "matmul"
            XD = DB[0] if typ == "vec" else DB
            L, R = (X, A) if side == "l" else (A, X)
            LD, RD = (XD, DA) if side == "l" else (DA, XD)
            if f == "add":
                got, want = L + R, LD + RD
            elif f == "sub":
                got, want = L - R, LD - RD
            else:
                got, want = L @ R, LD @ RD
            require_close(f"{f} with a {typ} matrix on the "
                          f"{'left' if side == 'l' else 'right'}", got, want,
                          atol=1e-10 * n * max(1, ma) * max(1, mb))
        elif k == "norm":
            # defined for non-negative matrices with non-zero diagonal
            if not case["nonneg"] or (DA < 0).any() or A.diag_val <= 0:
                continue
            rs = DA.sum(1, keepdims=True)
            if ((rs > 0) & (rs < 1e-6)).any():
                continue
            N = np.where(rs > 0, DA / np.where(rs > 0, rs, 1) * op[2], 0)
            C = A.copy()
            if op[3]:
                C.inplace_row_normalize(row_sum=op[2])
            else:
                inplace_csr_row_normalize(C, op[2])
            push("row normalised", C, N, max(1.0, op[2]))
            check_ssm("original after normalising its copy", A, DA, ma)
        elif k == "zeroes":
            tol, rel, free = op[2], op[3], op[4]
            absval = True if (DA < 0).any() else free
            nz = np.asarray(A.nz_rowcols)
            Z = DA.copy()
            if len(nz):
                sub = DA[np.ix_(nz, nz)]
                lim = tol * (np.abs(sub).max() if rel else 1.0)
                if (np.abs(np.abs(sub) - lim)[sub != 0] < 1e-9 * max(1, ma)).any():
                    continue        # on the threshold: either answer is right
                sub = np.where(np.abs(sub) <= lim, 0, sub)
                Z[np.ix_(nz, nz)] = sub
            C = A.copy()
            if free:
                C.set_to_zeroes(tol, relative=rel, use_absolute_value=absval)
            else:
                set_to_zeroes(C, tol, relative=rel, use_absolute_value=absval)
            push("set_to_zeroes", C, Z, ma)
            require(C.T_small.nnz == np.count_nonzero(
                Z[np.ix_(nz, nz)]) if len(nz) else C.T_small.nnz == 0,
                    "set_to_zeroes leaves explicit zeroes")
        # the operands are untouched
        check_ssm(f"operand after {k}", e[0], e[1], e[2])
    # a change in place of one matrix changes no other
    M = pool[case["last"] % len(pool)][0]
    if id(M) not in views:
        if case["last_op"] == "zeroes":
            M.set_to_zeroes(0.5, use_absolute_value=True)
        elif case["last_op"] == "norm" and (M.T_small.data >= 0).all():
            M.inplace_row_normalize(row_sum=3.0)
        else:
            M.T_small.data[:] = 5
    for N, D, m in pool:
        if N is not M:
            check_ssm("matrix after a change in place of another one", N, D, m)
    return nt


@st.composite
def wide_case(draw):
    """Matrices of few interacting nodes among very many."""
    m = draw(st.integers(1, 6))
    size = draw(st.sampled_from([47000, 70000, 131072, 300000]))
    pos = draw(st.one_of(
        st.sets(st.integers(0, size - 1), min_size=m, max_size=m),
        st.integers(0, m).map(lambda k: set(range(k)) | set(range(size - m + k, size)))))
    mat = st.tuples(subset(m, ordered=True), block(m, NONNEG), st.sampled_from([1, 1, 0.5, 2]), st.booleans()).map(list)
    return {"size": size, "pos": sorted(pos), "A": draw(mat), "B": draw(mat),
            "vec": draw(st.lists(st.sampled_from([0, 1, 0.25]), min_size=m, max_size=m))}


def run_wide(case):
    """The algebra among few nodes of very many is that of the small matrices."""
    from flowstab.sparse_stoch_mat import SparseStochMat as S
    N, pos = case["size"], np.array(case["pos"], dtype=np.int32)
    m = len(pos)

    def build(x):
        nz, rows, d, full = x
        D = np.eye(m) * d
        for i in nz:
            D[i, nz] = np.array(rows, dtype=float)[i, nz]
        M = S.from_small_csr_matrix(N, csr_of(D[np.ix_(nz, nz)].tolist()) if nz else
                                    csr_matrix((0, 0)), pos[nz], diag_val=float(d))
        if full:
            M = S.from_full_csr_matrix(M.tocsr(), diag_val=float(d))
        return M, D, float(d)

    def check(what, M, D, d):
        require(tuple(M.shape) == (N, N), f"{what}: shape {M.shape}")
        F = csr_matrix(M.tocsr() if isinstance(M, S) else M)
        require_close(what, F[pos][:, pos], D, 1e-12, 1e-10)
        r = F.tocoo()
        out = ~(np.isin(r.row, pos) & np.isin(r.col, pos)) & (r.data != 0)
        require(bool((r.row[out] == r.col[out]).all()) and out.sum() == (d != 0) * (N - m),
                f"{what}: {out.sum()} values outside of the block of {m} nodes")
        require_close(what + " diagonal of the other nodes", r.data[out],
                      np.full(out.sum(), d), 0, 1e-12)
    A, DA, a = build(case["A"])
    B, DB, b = build(case["B"])
    check("A", A, DA, a)
    check("A + B", A + B, DA + DB, a + b)
    check("A - B", A - B, DA - DB, a - b)
    check("A @ B", A @ B, DA @ DB, a * b)
    check("A @ csr", A @ B.tocsr(), DA @ DB, a * b)
    check("A.T", A.T, DA.T, a)
    v = np.zeros(N)
    v[pos] = case["vec"]
    got = v @ A
    require_close("vector @ A", got[pos], np.array(case["vec"]) @ DA, 1e-12, 1e-10)
    require(np.count_nonzero(got) == np.count_nonzero(got[pos]), "vector @ A elsewhere")
    rs = DA.sum(1, keepdims=True)
    C = A.copy()
    C.inplace_row_normalize()
    check("row normalised", C, np.where(rs > 0, DA / np.where(rs > 0, rs, 1), 0), 1.0)
    return len(case["A"][0]) * len(case["B"][0]) > 0


@st.composite
def ssm_bad(draw):
    return {"n": draw(st.integers(1, 5)),
            "what": draw(st.sampled_from(["matmul", "add", "sub", "mul", "rmatmul", "small",
                                          "full"])),
            "arg": draw(st.sampled_from(["str", "none", "list"]))}


def run_ssm_bad(case):
    """Operands of a wrong kind are refused."""
    from flowstab.sparse_stoch_mat import SparseStochMat as S
    n = case["n"]
    A = S.create_diag(n)
    x = {"str": "x", "none": None, "list": [1] * n}[case["arg"]]
    err = (NotImplementedError, TypeError, ValueError)
    w = case["what"]
    if w == "matmul":
        require_raises("A @ x", err, lambda: A @ x)
    elif w == "rmatmul":
        require_raises("x @ A", err, lambda: x @ A)
    elif w == "add":
        require_raises("A + x", err, lambda: A + x)
    elif w == "sub":
        require_raises("A - x", err, lambda: A - x)
    elif w == "mul":
        require_raises("A * x", err, lambda: A * x)
    elif w == "small":
        require_raises("from_small_csr_matrix(csc)", err,
                       lambda: S.from_small_csr_matrix(n, csc_matrix(np.eye(1)), np.array([0])))
    else:
        require_raises("from_full_csr_matrix(csc)", err,
                       lambda: S.from_full_csr_matrix(csc_matrix(np.eye(n))))
    return True


# ------------------------------------------------------------------ F10 ---

@st.composite
def kernel_case(draw, lo=1, hi=8):
    n = draw(st.integers(lo, hi))
    nonneg = draw(st.booleans())
    rows = draw(block(n, NONNEG if nonneg else VALS))
    mags = draw(st.one_of(st.none(), MAGS.map(lambda x: [x]),
                          st.lists(MAGS, min_size=1, max_size=4)))
    if mags is not None:
        rows = [[x * mags[i % len(mags)] for x in r] for i, r in enumerate(rows)]
    return {"rows": rows, "nonneg": nonneg, "layout": draw(LAYOUTS),
            "vec": draw(st.lists(st.sampled_from([0, 1, 2, 0.5, -1, 3.3, 1e-13, 1e9]),
                                 min_size=n, max_size=n)),
            "rows2": draw(block(n, VALS)), "tol": draw(st.sampled_from([1e-8, 0.3, 0.6])),
            "rs": draw(st.sampled_from([1.0, 2.0, 0.0, 0.5])),
            "rsv": draw(st.lists(st.sampled_from([1.0, 2.0, 0.0, 0.5]), min_size=n, max_size=n)),
            "i64": draw(st.booleans())}


def close(what, got, want, size, eps=1e-12):
    """Entrywise: up to rounding errors of terms of the given size."""
    require_close(what, got, want, atol=eps * np.abs(size), rtol=eps)


def norm_size(A, target):
    """Size of the terms of the normalised rows."""
    s = A.sum(1, keepdims=True)
    t = np.array(target, dtype=float)[:, None]
    return np.where(t == 0, np.abs(A).max(1, keepdims=True), 0) * np.ones_like(A)


def norm_ref(A, S, target):
    """S: which entries are stored."""
    out = A.copy()
    for i in range(len(A)):
        t = target[i]
        s = A[i].sum()
        if s == 0:
            continue
        if t == 0:
            out[i] = np.where(S[i], A[i] - s / S[i].sum(), 0)
        else:
            out[i] = A[i] / (s / t)
    return out


def run_kernels(case):
    """Sparse helper functions against the dense formula of their documentation."""
    from flowstab import sparse_stoch_mat as ssm
    from flowstab import temporal_network as tn
    rows = case["rows"]
    A = np.array(rows, dtype=float)
    n = len(A)
    lay = case["layout"]
    v = np.array(case["vec"], dtype=float)

    def mk(fmt="csr"):
        M = csr_of(rows, lay)
        if case["i64"]:
            M.indices = M.indices.astype(np.int64)
            M.indptr = M.indptr.astype(np.int64)
        return M if fmt == "csr" else M.tocsc()

    S = (A != 0) | (lay == "explicit")
    # scaling rows and columns
    for fmt in ("csr", "csc"):
        for vv in (v, v.reshape(1, -1), v.reshape(-1, 1)):
            M = mk(fmt)
            ssm.inplace_csr_matmul_diag(M, vv)
            close(f"A @ diag ({fmt})", M, A * v, 0)
            M = mk(fmt)
            ssm.inplace_diag_matmul_csr(M, vv)
            close(f"diag @ A ({fmt})", M, v[:, None] * A, 0)
        # rectangular matrices
        for k in {1, n // 2} - {0, n}:
            M = csr_of(A[:k].tolist(), lay).asformat(fmt)
            ssm.inplace_csr_matmul_diag(M, v)
            close(f"wide A @ diag ({fmt})", M, A[:k] * v, 0)
            M = csr_of(A[:, :k].tolist(), lay).asformat(fmt)
            ssm.inplace_csr_matmul_diag(M, v[:k])
            close(f"tall A @ diag ({fmt})", M, A[:, :k] * v[:k], 0)
            M = csr_of(A[:k].tolist(), lay).asformat(fmt)
            ssm.inplace_diag_matmul_csr(M, v[:k])
            close(f"diag @ wide A ({fmt})", M, v[:k, None] * A[:k], 0)
            M = csr_of(A[:, :k].tolist(), lay).asformat(fmt)
            ssm.inplace_diag_matmul_csr(M, v)
            close(f"diag @ tall A ({fmt})", M, v[:, None] * A[:, :k], 0)
    # row normalisation
    if case["nonneg"]:
        M = mk()
        types = (M.indices.dtype, M.indptr.dtype)
        ssm.inplace_csr_row_normalize(M, case["rs"])
        close(f"rows normalised to {case['rs']}", M, norm_ref(A, S, [case["rs"]] * n),
              norm_size(A, [case["rs"]] * n))
        require((M.indices.dtype, M.indptr.dtype) == types, "index type changed")
        M = mk()
        ssm.inplace_csr_row_normalize(M, np.array(case["rsv"]))
        close("rows normalised to an array", M, norm_ref(A, S, case["rsv"]),
              norm_size(A, case["rsv"]))
        M = mk()
        ssm.inplace_csr_row_normalize(M)
        close("rows normalised by default", M, norm_ref(A, S, [1.0] * n), 0)
        X = mk("csc")
        keep = X.toarray()
        R = tn.csc_row_normalize(X)
        close("csc_row_normalize", R, norm_ref(A, S, [1.0] * n), 0)
        require_close("argument of csc_row_normalize", X, keep, atol=0, rtol=0)
    # products
    B = csr_of(case["rows2"], lay)
    BD = np.array(case["rows2"], dtype=float)
    close("sparse_matmul", ssm.sparse_matmul(csr_of(rows, lay), B), A @ BD, np.abs(A) @ np.abs(BD))
    AA = np.abs(A)
    for tr, want, size in ((True, A @ A.T, AA @ AA.T), (False, A.T @ A, AA.T @ AA)):
        G = dense(ssm.sparse_gram_matrix(csr_of(rows, lay), transpose=tr))
        close(f"sparse_gram_matrix(transpose={tr}), upper triangle", np.triu(G),
              np.triu(want), size)
    if v.any():
        for mkl in (True, False):
            p = csr_of([case["vec"]], lay)
            O = dense(ssm.sparse_outer(p, use_mkl=mkl, triu=True))
            close(f"sparse_outer upper triangle mkl={mkl}", O, np.triu(np.outer(v, v)), 0)
            p = csr_of([case["vec"]], lay)
            O = dense(ssm.sparse_outer(p, use_mkl=mkl, triu=False))
            # with mkl only the upper triangle is documented
            f = np.triu if mkl else np.asarray
            close(f"sparse_outer mkl={mkl}", f(O), f(np.outer(v, v)), 0)
    # removing and rebuilding of isolated rows and columns
    for fmt in ("csr", "csc"):
        L = mk(fmt)
        L.eliminate_zeros()
        small, nz, size = tn.remove_nnz_rowcol(L)
        nz = np.asarray(nz)
        keep = [i for i in range(n) if A[i].any() or A[:, i].any()]
        require(nz.tolist() == keep and size == n, f"remove_nnz_rowcol: {nz}, {size}")
        close("remove_nnz_rowcol", small, A[np.ix_(keep, keep)], 0)
        small = small.tocsr()
        for d in (1.0, 0.0, 0.5):
            want = np.eye(n) * d
            want[np.ix_(keep, keep)] = A[np.ix_(keep, keep)]
            close(f"rebuild_nnz_rowcol diag_val={d}",
                  ssm.rebuild_nnz_rowcol(small, nz, n, d), want, 0)
        zero = np.array([i for i in range(n) if i not in keep], dtype=int)
        data, ind, ptr, k = tn.numpy_rebuild_nnz_rowcol(small.data, small.indices,
                                                        small.indptr, zero)
        want = np.eye(n)
        want[np.ix_(keep, keep)] = A[np.ix_(keep, keep)]
        close("numpy_rebuild_nnz_rowcol", csr_matrix((data, ind, ptr), shape=(k, k)), want, 0)
    # thresholds
    for fmt in ("csr", "csc"):
        for rel in (True, False):
            lim = case["tol"] * (np.abs(A).max() if rel and A.any() else 1.0)
            if (np.abs(np.abs(A) - lim)[A != 0] < 1e-9 * lim).any():
                continue
            M = mk(fmt)
            tn.set_to_zeroes(M, case["tol"], relative=rel,
                             use_absolute_value=not case["nonneg"])
            want = np.where(np.abs(A) <= lim, 0, A)
            require_close(f"set_to_zeroes relative={rel}", M, want, atol=0, rtol=0)
            require(M.nnz == np.count_nonzero(want), "set_to_zeroes leaves explicit zeroes")
        M = mk(fmt)
        tn.set_to_zeroes(M, None)
        require_close("set_to_zeroes without tolerance", M, A, atol=0, rtol=0)
        M = mk(fmt)
        if not (np.abs(np.abs(A - 1) - case["tol"]) < 1e-9).any() and case["tol"] < 1:
            tn.set_to_ones(M, case["tol"])
            require_close("set_to_ones", M, np.where((np.abs(A - 1) <= case["tol"]) & (A != 0),
                                                     1, A), atol=0, rtol=0)
    return np.count_nonzero(A) > 0 and (A == 0).any()


@st.composite
def gap_case(draw):
    n = draw(st.integers(2, 12))
    # a spanning tree makes the graph connected
    edges = {tuple(sorted((i, draw(st.integers(0, i - 1))))) for i in range(1, n)}
    pair = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))
    edges |= {tuple(sorted(e)) for e in draw(st.lists(pair, max_size=2 * n))}
    return {"n": n, "edges": sorted(map(list, edges)), "csc": draw(st.booleans())}


def run_gap(case):
    """find_spectral_gap against the eigenvalues of the dense Laplacian."""
    from flowstab import temporal_network as tn
    n = case["n"]
    A = np.zeros((n, n))
    for i, j in case["edges"]:
        A[i, j] = A[j, i] = 1
    L = np.eye(n) - A / A.sum(1, keepdims=True)
    w = np.sort(np.linalg.eigvals(L).real)
    M = csr_matrix(L)
    got = np.ravel(tn.find_spectral_gap(M.tocsc() if case["csc"] else M))
    require(got.size == 1, f"find_spectral_gap: {got}")
    require_close("find_spectral_gap", got[0], w[1], atol=1e-7)
    return len(set(A.sum(1))) > 1


# ------------------------------------------------------------------ F11 ---

WEIGHTS = [0, 0, 0, 1, 1, 2, 5, 1e-9]

@st.composite
def autocov_case(draw, lo=1, hi=8):
    n = draw(st.integers(lo, hi))
    zero_rows = draw(st.integers(0, 3)) == 0
    rows = []
    big = draw(block(n, WEIGHTS)) if n > 8 else None
    for i in range(n):
        r = big[i] if big else draw(st.lists(st.sampled_from(WEIGHTS),
                                             min_size=n, max_size=n))
        if sum(r) == 0 and not zero_rows:
            r[draw(st.integers(0, n - 1))] = 1
        rows.append(r)
    p = draw(st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 1, 2, 5, 1e-10]), min_size=n,
                                           max_size=n)))
    if p is not None and sum(p) == 0:
        p = [1] * n
    q = draw(st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 2, 3, 1e-10]), min_size=n,
                                           max_size=n)))
    if q is not None and sum(q) == 0:
        q = [1] * n
    labels = canonical(draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n)))
    return {"rows": rows, "p1": p, "p2": q, "labels": labels, "layout": draw(LAYOUTS),
            "how": draw(st.sampled_from(["from_T", "from_T_forward", "init", "scalar"])),
            "idx": draw(subset(n)), "jdx": draw(subset(n)),
            "rounds": draw(st.integers(1, 3)),
            "labels2": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))}


def stoch(rows):
    A = np.array(rows, dtype=float)
    s = A.sum(1, keepdims=True)
    return np.where(s > 0, A / np.where(s > 0, s, 1), 0)


def vec_of(p, n):
    return np.ones(n) / n if p is None else np.array(p, dtype=float) / sum(p)


def check_autocov(what, S, D, Z, idx, jdx, labels):
    """Z: size of the terms of D."""
    n = len(D)
    require(tuple(S.shape) == D.shape and S.size == n, f"{what}: shape {S.shape}")
    close(what + ".toarray()", S.toarray(), D, Z)
    i32 = lambda x: np.array(x, dtype=np.int32)   # noqa: E731
    close(what + ".get_submat_sum", S.get_submat_sum(i32(idx), i32(jdx)),
          D[np.ix_(idx, jdx)].sum(), Z[np.ix_(idx, jdx)].sum())
    for i in range(n):
        for j in range(n):
            close(f"{what}.get_element({i},{j})", S.get_element(i, j), D[i, j], Z[i, j])
        close(f"{what}.get_row_idx_sum({i},{idx})", S.get_row_idx_sum(i, idx),
              D[i, idx].sum(), Z[i, idx].sum())
        close(f"{what}.get_col_idx_sum({i},{idx})", S.get_col_idx_sum(i, idx),
              D[idx, i].sum(), Z[idx, i].sum())
    C = S.copy()
    close(what + ".copy()", C.toarray(), D, Z)
    C.PT.data[:] = 9
    close(what + " after changing its copy", S.toarray(), D, Z)
    # aggregation
    sets = to_sets(labels)
    H = np.array([[1.0 if c == a else 0.0 for a in range(len(sets))] for c in labels])
    return S.aggregate([sorted(s) for s in sets]), H.T @ D @ H, H.T @ Z @ H


def run_autocov(case):
    """SparseAutocovMat against the dense autocovariance matrix."""
    from flowstab.sparse_stoch_mat import SparseAutocovMat as SA
    T = stoch(case["rows"])
    n = len(T)
    how = case["how"]
    p1 = vec_of(case["p1"], n)
    given2 = case["p2"] is not None
    Tc = csr_of(T.tolist(), case["layout"])
    keep = Tc.toarray()
    if (T.sum(1) == 0).any() and not given2 and how == "from_T":
        return False        # p1 @ T is not a probability
    if how == "from_T":
        p2 = vec_of(case["p2"], n) if given2 else p1 @ T
        S = SA.from_T(Tc, None if case["p1"] is None else p1, p2 if given2 else None)
        D = np.diag(p1) @ T - np.outer(p1, p2)
    elif how == "from_T_forward":
        p2 = vec_of(case["p2"], n) if given2 else p1 @ T
        S = SA.from_T_forward(Tc, None if case["p1"] is None else p1, p2 if given2 else None)
        D = np.diag(p1) @ T @ np.diag(1 / np.where(p2 == 0, 1, p2)) @ T.T @ np.diag(p1) \
            - np.outer(p1, p1)
        p2 = p1
    elif how == "init":
        p2 = vec_of(case["p2"], n)
        PT = np.diag(p1) @ T
        S = SA(csr_of(PT.tolist(), case["layout"]), p1, p2)
        D = PT - np.outer(p1, p2)
    else:
        p2 = p1 = np.ones(n) / n
        PT = np.diag(p1) @ T
        S = SA(csr_of(PT.tolist(), case["layout"]), 1 / n, np.float64(1 / n))
        D = PT - np.outer(p1, p2)
    require_close("T after building the autocovariance", Tc, keep, atol=0, rtol=0)
    Z = np.abs(D) + 2 * np.outer(p1, p2)
    idx, jdx = case["idx"], case["jdx"]
    labels = case["labels"]
    what = how
    for r in range(case["rounds"]):
        S, D, Z = check_autocov(what, S, D, Z, idx, jdx, labels)
        n = len(D)
        idx = [i for i in idx if i < n]
        jdx = [i for i in jdx if i < n]
        labels = canonical([min(x, n - 1) for x in case["labels2"][:n]])
        what += ".aggregate"
    check_autocov(what, S, D, Z, idx, jdx, canonical(labels))
    return n >= 1 and len(T) > 1


def run_autocov_moves(case):
    """Gains of moving a node in and out of a cluster, on the sparse matrix."""
    from flowstab.network_clustering import SparseClustering
    T = stoch(case["rows"])
    n = len(T)
    if n < 2 or (T.sum(1) == 0).any():
        return False
    p1 = vec_of(case["p1"], n)
    p2 = vec_of(case["p2"], n) if case["p2"] is not None else p1 @ T
    D = np.diag(p1) @ T - np.outer(p1, p2)
    from flowstab.sparse_stoch_mat import SparseAutocovMat as SA
    S = SA.from_T(csr_of(T.tolist(), case["layout"]), p1, p2)
    c = SparseClustering(T=csr_of(T.tolist()), S=S, p1=p1, p2=p2,
                         cluster_list=to_sets(case["labels"]))
    lab = case["labels"]
    require_close("stability", c.compute_stability(), sum(
        D[np.ix_(sorted(s), sorted(s))].sum() for s in to_sets(lab)), atol=1e-12)
    return max(lab) > 0


# ------------------------------------------------------------------ F12 ---

@st.composite
def subst_case(draw, lo=1, hi=7):
    n = draw(st.integers(lo, hi))
    nz1, nz2 = draw(subset(n, ordered=True)), draw(subset(n, ordered=True))
    mags = draw(st.one_of(st.none(), MAGS.map(lambda x: [x]),
                          st.lists(MAGS, min_size=1, max_size=4))) or [1]
    return {"n": n, "mags": mags, "A": [nz1, draw(block(len(nz1), VALS)),
                          draw(st.sampled_from([1, 0, 0.5, 2, -1]))],
            "B": [nz2, draw(block(len(nz2), VALS)), draw(st.sampled_from([1, 0, 0.5, 2, -1]))],
            "P": draw(block(n, NONNEG)), "labels": canonical(
                draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n))),
            "idx": draw(subset(n)), "jdx": draw(subset(n)), "k": draw(st.integers(0, n - 1)),
            "p1": draw(st.lists(st.sampled_from([0, 0.1, 0.2, 0.5]), min_size=n, max_size=n)),
            "p2": draw(st.lists(st.sampled_from([0, 0.1, 0.3, 0.4]), min_size=n, max_size=n)),
            "rs": draw(st.sampled_from([1.0, 2.0, 0.0, 0.5])),
            "rsv": draw(st.lists(st.sampled_from([1.0, 2.0, 0.0]), min_size=n, max_size=n))}


def full_of(size, data, ind, ptr, nz, d):
    """Dense matrix of the arrays that make up a SparseStochMat."""
    D = np.eye(size) * d
    nz = [int(i) for i in nz]
    for i in nz:
        D[i, i] = 0
    data, ind, ptr = np.asarray(data), np.asarray(ind), np.asarray(ptr)
    for a in range(len(nz)):
        for k in range(ptr[a], ptr[a + 1]):
            D[nz[a], nz[ind[k]]] += data[k]
    return D


def run_subst(case):
    """The Cython kernels and the pure Python substitutes agree with each other
    and with the dense formula."""
    import _cython_sparse_stoch as C
    from flowstab import _cython_subst as P
    n = case["n"]
    i32 = lambda x: np.array(x, dtype=np.int32)   # noqa: E731

    mags = case.get("mags", [1])

    def scaled(rows):
        return [[v * mags[i % len(mags)] for v in r] for i, r in enumerate(rows)]
    case = dict(case, A=[case["A"][0], scaled(case["A"][1]), case["A"][2]],
                P=scaled(case["P"]))

    def arrays(x):
        nz, rows, d = x
        s = csr_of(rows)
        return (s.data.copy(), s.indices.astype(np.int32), s.indptr.astype(np.int32),
                i32(nz), float(d))

    def dn(x):
        nz, rows, d = x
        D = np.eye(n) * d
        for a, i in enumerate(nz):
            for b, j in enumerate(nz):
                D[i, j] = rows[a][b]
        return D
    A, B, DA, DB = arrays(case["A"]), arrays(case["B"]), dn(case["A"]), dn(case["B"])
    for name, want in (("stoch_mat_add", DA + DB), ("stoch_mat_sub", DA - DB)):
        for m, who in ((C, "cython"), (P, "python")):
            r = getattr(m, name)(n, *A, *B)
            require(r[0] == n, f"{who} {name}: size")
            close(f"{who} {name}", full_of(*r), want, np.abs(DA) + np.abs(DB))
    s = csr_of(case["A"][1])
    for m, who in ((C, "cython"), (P, "python")):
        d, i, p, k = m.rebuild_nnz_rowcol(s.data, s.indices.astype(np.int64),
                                          s.indptr.astype(np.int64),
                                          np.array(case["A"][0], dtype=np.int64), n,
                                          float(case["A"][2]))
        d, i = np.asarray(d, dtype=float), np.asarray(i, dtype=np.int64)
        close(f"{who} rebuild_nnz_rowcol",
              csr_matrix((d, i, np.asarray(p)), shape=(n, n)), DA, 0)
    full = csr_of(DA.tolist())
    for m, who in ((C, "cython"), (P, "python")):
        r = m.sparse_stoch_from_full_csr(i32(case["A"][0]), full.data,
                                         full.indices.astype(np.int32),
                                         full.indptr.astype(np.int32), float(case["A"][2]))
        close(f"{who} sparse_stoch_from_full_csr", full_of(*r), DA, 0)
    # normalisation
    PD = np.array(case["P"], dtype=float)
    X = csr_of(case["P"])
    S = PD != 0
    for m, who in ((C, "cython"), (P, "python")):
        d = X.data.copy()
        m.inplace_csr_row_normalize(d, X.indptr.astype(np.int64), n, case["rs"])
        close(f"{who} inplace_csr_row_normalize({case['rs']})",
              csr_matrix((d, X.indices, X.indptr), shape=(n, n)),
              norm_ref(PD, S, [case["rs"]] * n), norm_size(PD, [case["rs"]] * n))
        d = X.data.copy()
        m.inplace_csr_row_normalize_array(d, X.indptr.astype(np.int64), n,
                                          np.array(case["rsv"]))
        close(f"{who} inplace_csr_row_normalize_array",
              csr_matrix((d, X.indices, X.indptr), shape=(n, n)),
              norm_ref(PD, S, case["rsv"]), norm_size(PD, case["rsv"]))
    # sums, aggregation and gains
    ind, ptr = X.indices.astype(np.int32), X.indptr.astype(np.int32)
    Y = X.tocsc()
    yi, yp = Y.indices.astype(np.int32), Y.indptr.astype(np.int32)
    idx, jdx, k = case["idx"], case["jdx"], case["k"]
    sets = to_sets(case["labels"])
    H = np.array([[1.0 if c == a else 0.0 for a in range(len(sets))] for c in case["labels"]])
    ia = i32([i for s_ in sets for i in sorted(s_)])
    ip = i32(np.cumsum([0] + [len(s_) for s_ in sets]))
    p1, p2 = np.array(case["p1"], dtype=float), np.array(case["p2"], dtype=float)
    out_idx = [i for i in idx if i != k]
    in_idx = sorted(set(idx) | {k})
    SD = PD - np.outer(p1, p2)
    for m, who in ((C, "cython"), (P, "python")):
        close(f"{who} get_submat_sum",
              m.get_submat_sum(X.data, ind, ptr, i32(idx), i32(jdx)),
              PD[np.ix_(idx, jdx)].sum(), 0)
        for f in ("aggregate_csr_mat", "aggregate_csr_mat_2"):
            d, r, c, size = getattr(m, f)(X.data, ind, ptr, ia, ip)
            G = np.zeros((len(sets), len(sets)))
            for x, y, z in zip(d, r, c):
                G[y, z] += x
            require(size == len(sets), f"{who} {f}: size")
            close(f"{who} {f}", G, H.T @ PD @ H, 0)
        a = (X.data, ind, ptr, Y.data, yi, yp, k)
        to = i32(out_idx)
        out = i32(in_idx)
        for f, Q, ix, args, sg in (
                ("compute_delta_PT_moveto", PD, out_idx, (to,), 1),
                ("compute_delta_PT_moveout", PD, in_idx, (out,), -1),
                ("compute_delta_S_moveto", SD, out_idx, (to, p1, p2), 1),
                ("compute_delta_S_moveout", SD, in_idx, (out, p1, p2), -1)):
            want = sg * (Q[k, ix].sum() + Q[ix, k].sum()) + Q[k, k]
            size = PD + (np.outer(p1, p2) if Q is SD else 0)
            close(f"{who} {f}", getattr(m, f)(*a, *args), want,
                  size[k, ix].sum() + size[ix, k].sum() + size[k, k])
    return len(case["A"][0]) > 0 and len(case["B"][0]) > 0


@st.composite
def triu_case(draw):
    n = draw(st.integers(1, 7))
    val = st.sampled_from([0, 0, 1, 2, 3.5, 0.25])
    return {"X": [[draw(val) for _ in range(n)] for _ in range(n)],
            "rs": draw(st.lists(st.sampled_from([1.0, 0.01, 2e-5, 3.0, 0.7]),
                                min_size=n, max_size=n)),
            "empty": draw(subset(n, ordered=True))}


def run_triu(case):
    """Normalised upper triangles: X + X.T - diag(X) has the requested row sums."""
    try:
        from _cython_sparse_stoch import cython_inplace_csr_row_normalize_triu as norm
    except ImportError:
        return False
    X = np.triu(np.array(case["X"], dtype=float)) * 0.1 / len(case["X"])
    X[np.diag_indices(len(X))] = np.arange(len(X)) + 1.5
    rs = np.array(case["rs"])
    empty = case["empty"] if len(case["empty"]) < len(X) else []
    X[empty] = 0
    X[:, empty] = 0
    rs[empty] = 0
    M = csr_matrix(X)
    norm(M.data, M.indptr.astype(np.int64), M.indices.astype(np.int64), len(X), len(X), rs)
    Y = M.toarray()
    require(((Y != 0) <= (X != 0)).all(), "normalize_triu: new elements")
    size = np.abs(Y).max()
    require_close("row sums of the symmetric matrix", (Y + Y.T - np.diag(np.diag(Y))).sum(1),
                  rs, atol=1e-9 * max(size, 1))
    return len(X) >= 2


PROPS = {
    "F09": ("F09: a sum, difference or product of two matrices that both have a non-empty "
            "small part.",
            [Sub("algebra", ssm_case, run_ssm, quick=2400, thorough=60000, shards=6),
             Sub("refused", ssm_bad, run_ssm_bad, quick=40, thorough=100, shards=1),
             Sub("big", lambda: ssm_case(12, 50), run_ssm, quick=240, thorough=6000, shards=8),
             Sub("wide", wide_case, run_wide, quick=160, thorough=3000, shards=8)],
            ["operations are compared with the dense result up to 1e-10 of the magnitude of "
             "their operands; row normalisation is only defined for non-negative matrices with "
             "a non-zero diagonal value"]),
    "F10": ("F10: the matrix has both zero and non-zero entries; gap: degrees differ.",
            [Sub("kernels", kernel_case, run_kernels, quick=1600, thorough=40000, shards=6),
             Sub("gap", gap_case, run_gap, quick=300, thorough=5000, shards=1),
             Sub("triu", triu_case, run_triu, quick=400, thorough=5000, shards=1),
             Sub("big", lambda: kernel_case(12, 60), run_kernels, quick=160, thorough=4000,
                 shards=8)],
            ["sparse_outer needs at least one non-zero entry; rows that sum to zero are not "
             "normalised"]),
    "F11": ("F11: more than one node.",
            [Sub("autocov", autocov_case, run_autocov, quick=1800, thorough=40000, shards=6),
             Sub("stability", autocov_case, run_autocov_moves, quick=500, thorough=8000,
                 shards=2),
             Sub("big", lambda: autocov_case(12, 50), run_autocov, quick=160, thorough=4000,
                 shards=8)],
            ["PT has no negative entries; scalar probabilities are 1/N"]),
    "F12": ("F12: both operands have a non-empty small part.",
            [Sub("kernels", subst_case, run_subst, quick=1500, thorough=40000, shards=6),
             Sub("big", lambda: subst_case(12, 40), run_subst, quick=160, thorough=4000,
                 shards=8)],
            []),
}
