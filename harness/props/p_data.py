"""F05-F08: input forms, merging, static adjacency, save and load."""
import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, Violation, dense, require, require_close, require_raises, spare
from .p_temporal import check_laplacians, prepare


# ------------------------------------------------------------------ F05

FORMS = ["list", "tuple", "array", "frame", "csv", "csvpath", "norelabel", "frame_norelabel"]


@st.composite
def form_cases(draw):
    inst = draw(st.sampled_from([False, False, True]))
    net = draw(gen.net_case(inst=True if inst else None, scales=gen.ALL_SCALES))
    return {"net": net, "form": draw(st.sampled_from(FORMS)),
            "win": draw(gen.window(net)),
            "index": draw(st.sampled_from([[0, 1], [5, 3], [1, 1], [0, 0], [9, -1]])),
            "index_name": draw(st.sampled_from([None, None, "id", "starting_times"])),
            "extra": draw(st.booleans())}


def make_form(case, path):
    """(net, relabelled?) built from the input form of the case, and a callable
    that tells whether the caller's data is unchanged."""
    import copy

    import pandas as pd
    from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork
    c = dict(case["net"])
    form = case["form"]
    inst = c["inst"]
    if form.endswith("norelabel"):
        R = ref.RefNet(c)
        c["ev"] = [[R.pos[e[0]], R.pos[e[1]], e[2], e[3]] for e in c["ev"]]
        c["labels"] = "int"
    s, t, a, b = ref.columns(c)
    tags = [f"tag{i}" for i in range(len(s))]
    cls = ContTempInstNetwork if inst else ContTempNetwork
    kw = {}
    if form in ("list", "tuple", "array", "norelabel"):
        conv = {"tuple": tuple, "array": np.array}.get(form, list)
        cols = [conv(x) for x in (s, t, a, b)]
        orig = copy.deepcopy(cols)
        kw = dict(source_nodes=cols[0], target_nodes=cols[1], starting_times=cols[2])
        if not inst:
            kw["ending_times"] = cols[3]
            if case["extra"]:
                kw["extra_attrs"] = {"tag": tags}
        if form == "norelabel":
            kw["relabel_nodes"] = False
            kw["node_to_label_dict"] = {i: f"x{i}" for i in range(len(set(s) | set(t)))}
        net = cls(**kw)

        def unchanged():
            return all(list(x) == list(y) and type(x) is type(y)
                       for x, y in zip(cols, orig)) and \
                (not (case["extra"] and not inst)
                 or tags == [f"tag{i}" for i in range(len(s))])
    else:
        data = {"source_nodes": s, "target_nodes": t, "starting_times": a}
        if not (inst and form.startswith("frame")):
            data["ending_times"] = b
        if case["extra"]:
            data["tag"] = tags
        idx = [case["index"][0] + case["index"][1] * i for i in range(len(s))]
        df = pd.DataFrame(data, index=idx)
        df.index.name = case["index_name"]
        if form.startswith("frame"):
            orig = df.copy(deep=True)
            if form == "frame_norelabel":
                kw["relabel_nodes"] = False
                kw["node_to_label_dict"] = {i: f"x{i}" for i in range(len(set(s) | set(t)))}
            net = cls(events_table=df, **kw)

            def unchanged():
                return df.equals(orig) and list(df.columns) == list(orig.columns) \
                    and list(df.index) == list(orig.index) \
                    and df.index.name == orig.index.name
        else:
            cls = ContTempNetwork
            f = os.path.join(path, "events.csv")
            df.to_csv(f, index=False)
            before = open(f).read()
            from pathlib import Path
            net = cls(events_table=f if form == "csv" else Path(f))

            def unchanged():
                return open(f).read() == before
    return net, c, unchanged, (s, t, a, b, tags)


def run_forms(case):
    """The same events give the same network in every input form, labels are
    recorded, and the caller's data is not modified."""
    if case["form"].startswith("csv") and case["net"]["inst"]:
        case["net"] = dict(case["net"], inst=False)
        case["net"]["ev"] = gen.drop_overlaps(case["net"]["ev"])
    with tempfile.TemporaryDirectory() as path, ref.quiet():
        net, c, unchanged, (s, t, a, b, tags) = make_form(case, path)
        R = ref.RefNet(c)
        require(unchanged(), "the caller's data was modified by the constructor")
        require(net.num_nodes == R.m, f"num_nodes {net.num_nodes}, expected {R.m}")
        require(net.num_events == len(c["ev"]), "num_events")
        require(list(net.node_array) == list(range(R.m)), "node_array")
        require(float(net.start_time) == R.times[0], "start_time")
        require(float(net.end_time) == R.times[-1], "end_time")
        tab = net.events_table
        if case["form"].endswith("norelabel"):
            require(net.node_to_label_dict == {i: f"x{i}" for i in range(R.m)},
                    "node_to_label_dict not kept")
            lab = {x: x for x in range(R.m)}
        else:
            labels = sorted(set(s) | set(t))
            require(net.node_to_label_dict == dict(enumerate(labels)),
                    f"node_to_label_dict {net.node_to_label_dict}")
            require(net.label_to_node_dict == {x: i for i, x in enumerate(labels)},
                    "label_to_node_dict")
            lab = dict(enumerate(labels))
        ends = [e[3] for e in R.ev] if c["inst"] else None
        want = []
        order = {}
        for i in range(len(s)):
            end = b[i]
            if c["inst"]:
                ut = sorted(set(a))
                j = ut.index(a[i])
                end = ut[j + 1] if j + 1 < len(ut) else a[i] + 1
            row = [s[i], t[i], float(a[i]), float(end)]
            if "tag" in tab.columns:
                row.append(tags[i])
            want.append(tuple(row))
        got = []
        for row in tab.itertuples():
            r = [lab[int(row.source_nodes)], lab[int(row.target_nodes)],
                 float(row.starting_times), float(row.ending_times)]
            if "tag" in tab.columns:
                r.append(row.tag)
            got.append(tuple(r))
        require(sorted(got) == sorted(want), f"events {sorted(got)}, expected {sorted(want)}")
        require("tag" in tab.columns or not case["extra"] or
                (c["inst"] and case["form"] in ("list", "tuple", "array", "norelabel")),
                "extra attribute lost")
        dur = np.ones(len(got)) if c["inst"] else [r[3] - r[2] for r in got]
        require_close("durations", tab["durations"].values.astype(float), dur, atol=1e-9)
        check_laplacians(net, R, case["win"], c, False)
        require(unchanged(), "the caller's data was modified by computing Laplacians")
    del ends, order
    return len(c["ev"]) >= 3


def run_bad_forms(case):
    """Unusable inputs are refused instead of giving some network."""
    from flowstab.temporal_network import ContTempNetwork
    s, t, a, b = ref.columns(case["net"])
    cut = case["cut"] % 4
    cols = [list(s), list(t), list(a), list(b)]
    cols[cut] = cols[cut][:-1]
    require_raises("columns of different lengths", (AssertionError, ValueError),
                   ContTempNetwork, source_nodes=cols[0], target_nodes=cols[1],
                   starting_times=cols[2], ending_times=cols[3])
    require_raises("extra attribute of another length", (AssertionError, ValueError),
                   ContTempNetwork, source_nodes=s, target_nodes=t, starting_times=a,
                   ending_times=b, extra_attrs={"w": list(a) + [1]})
    require_raises("missing file", (ValueError, FileNotFoundError), ContTempNetwork,
                   events_table="/nonexistent/events.csv")
    require_raises("events_table of a wrong type", ValueError, ContTempNetwork,
                   events_table=[[1, 2, 3, 4]])
    return True


@st.composite
def bad_cases(draw):
    return {"net": draw(gen.net_case()), "cut": draw(st.integers(0, 3))}


# ------------------------------------------------------------------ F06

@st.composite
def merge_cases(draw):
    net = draw(gen.net_case(max_n=4, overlap=True, max_events=10, max_dur=8,
                            scales=gen.ALL_SCALES))
    return {"net": net, "win": draw(gen.window(net)),
            "frame": draw(st.sampled_from([0, 0, 1, 2])),
            "adj": draw(gen.window(net))}


def merged_events(case):
    """Union of strictly overlapping contacts of each unordered pair."""
    pairs = {}
    for i, j, s, e in case["ev"]:
        pairs.setdefault((min(i, j), max(i, j)), []).append((s, e))
    out = []
    for (i, j), iv in pairs.items():
        iv.sort()
        cur = list(iv[0])
        for s, e in iv[1:]:
            if s < cur[1]:
                cur[1] = max(cur[1], e)
            else:
                out.append([i, j, cur[0], cur[1]])
                cur = [s, e]
        out.append([i, j, cur[0], cur[1]])
    return sorted(out, key=lambda e: (e[2], e[3], e[0], e[1]))


def run_merge(case):
    """Merging keeps, for each pair, exactly the union of its contacts."""
    import pandas as pd
    from flowstab.temporal_network import ContTempNetwork
    c = dict(case["net"])
    m = dict(c, ev=merged_events(c))
    with ref.quiet():
        if case["frame"]:
            s, t, a, b = ref.columns(c)
            df = pd.DataFrame({"source_nodes": s, "target_nodes": t, "starting_times": a,
                               "ending_times": b},
                              index=[case["frame"] * i + case["frame"] - 1
                                     for i in range(len(s))])
            net = ContTempNetwork(events_table=df, merge_overlapping_events=True)
        else:
            net = ref.build_net(c, merge_overlapping_events=True)
        R = ref.RefNet(m)
        require(net.num_nodes == R.m, "num_nodes after merging")
        require(net.num_events == len(m["ev"]),
                f"{net.num_events} events after merging, expected {len(m['ev'])}")
        got = sorted((min(int(r.source_nodes), int(r.target_nodes)),
                      max(int(r.source_nodes), int(r.target_nodes)),
                      float(r.starting_times), float(r.ending_times))
                     for r in net.events_table.itertuples())
        want = sorted((min(u, v), max(u, v), float(s), float(e)) for u, v, s, e in R.ev)
        require(got == want, f"merged events {got}, expected {want}")
        require_close("durations", net.events_table["durations"].values.astype(float),
                      [float(r.ending_times - r.starting_times)
                       for r in net.events_table.itertuples()], atol=1e-9)
        require(float(net.start_time) == R.times[0] and float(net.end_time) == R.times[-1],
                "start/end time after merging")
        check_laplacians(net, R, case["win"], m, True)
        check_static(net, R, ref.half(m, case["adj"][0]), ref.half(m, case["adj"][1]))
    return len(m["ev"]) < len(c["ev"])


def check_static(net, R, t0, t1):
    lo = R.times[0] if t0 is None else t0
    hi = R.times[-1] if t1 is None else t1
    A = np.zeros((R.m, R.m))
    for u, v, s, e in R.ev:
        d = min(e, hi) - max(s, lo)
        if d > 0:
            A[u, v] += d
            A[v, u] += d
    got = net.compute_static_adjacency_matrix(start_time=t0, end_time=t1)
    require_close(f"static adjacency of {t0}..{t1}", got, A, atol=1e-9, rtol=1e-7)


@st.composite
def static_cases(draw):
    net = draw(gen.net_case(inst="any", scales=gen.ALL_SCALES))
    wins = draw(st.lists(gen.window(net), min_size=1, max_size=4))
    return {"net": net, "wins": wins, "cut": draw(st.integers(0, 40))}


def run_static(case):
    """The static adjacency is the time in contact inside the window; it is
    symmetric, and additive over adjacent windows."""
    c = case["net"]
    net = ref.build_net(c)
    R = ref.RefNet(c)
    with ref.quiet():
        for w in case["wins"]:
            check_static(net, R, ref.half(c, w[0]), ref.half(c, w[1]))
        t = ref.half(c, case["cut"])
        if R.times[0] <= t <= R.times[-1]:
            tot = dense(net.compute_static_adjacency_matrix())
            parts = dense(net.compute_static_adjacency_matrix(end_time=t)) + \
                dense(net.compute_static_adjacency_matrix(start_time=t))
            require_close("static adjacency of two adjacent windows", parts, tot,
                          atol=1e-9, rtol=1e-7)
    return any(w[0] is not None or w[1] is not None for w in case["wins"]) \
        and len(c["ev"]) >= 2


# ------------------------------------------------------------------ F07

@st.composite
def netsave_cases(draw):
    net = draw(gen.net_case(inst="any", max_events=8))
    return {"net": net, "win": draw(gen.window(net)),
            "lams": draw(st.lists(gen.lamdas(), min_size=1, max_size=2, unique=True)),
            "stage": draw(st.integers(0, 4)), "sparse_stoch": draw(st.booleans()),
            "ext": draw(st.sampled_from(["", ".pickle", "_0.5", "_0.5.pickle", ".v1"])),
            "merge": draw(st.booleans()), "ts": draw(st.sampled_from([10, 3]))}


OTHER_NET = {"n": 2, "ev": [[0, 1, 0, 9]], "scale": 1, "off": 0, "labels": "int",
             "order": "sorted", "inst": False}
STAGES = ["laplacians", "inter_T", "T", "lin", "T_lin"]


def advance(net, case, lo, hi):
    """Run the stages lo..hi-1 of the pipeline."""
    t0, t1 = ref.half(case["net"], case["win"][0]), ref.half(case["net"], case["win"][1])
    ss = case["sparse_stoch"]
    for k in range(lo, hi):
        if k == 0:
            net.compute_laplacian_matrices(t_start=t0, t_stop=t1, save_adjacencies=True)
        for lam in case["lams"]:
            if k == 1:
                net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss)
            elif k == 2:
                net.compute_transition_matrices(lamda=lam)
            elif k == 3:
                net.compute_lin_inter_transition_matrices(lamda=lam, t_s=case["ts"],
                                                          use_sparse_stoch=ss)
            elif k == 4:
                net.compute_lin_transition_matrices(lamda=lam, t_s=case["ts"])


def same_matrices(what, x, y, atol=1e-12):
    if hasattr(x, "toarray") and hasattr(y, "toarray"):
        require(type(x) is type(y), f"{what}: type {type(y)}, expected {type(x)}")
        require_close(what, y, x, atol=atol)
    elif isinstance(x, dict) or isinstance(y, dict):
        require(isinstance(x, dict) and isinstance(y, dict) and
                list(x.keys()) == list(y.keys()), f"{what}: keys differ")
        for k in x:
            same_matrices(f"{what}[{k}]", x[k], y[k], atol)
    elif isinstance(x, list) or isinstance(y, list):
        require(isinstance(x, list) and isinstance(y, list) and len(x) == len(y),
                f"{what}: lengths differ")
        for k, (a, b) in enumerate(zip(x, y)):
            same_matrices(f"{what}[{k}]", a, b, atol)
    else:
        require(type(x) is type(y), f"{what}: type {type(y)}, expected {type(x)}")
        require_close(what, y, x, atol=atol)


MATS = ["laplacians", "adjacencies", "inter_T", "T", "inter_T_lin", "T_lin"]


def run_netsave(case):
    """A loaded network equals the saved one, and computing on continues as if
    it had never been saved."""
    with tempfile.TemporaryDirectory() as path, ref.quiet():
        c = case["net"]
        kw = {"merge_overlapping_events": True} if case["merge"] and not c["inst"] else {}
        net = ref.build_net(c, **kw)
        other = ref.build_net(c, **kw)
        stage = case["stage"]
        advance(net, case, 0, stage)
        advance(other, case, 0, 5)
        f = os.path.join(path, "net" + case["ext"])
        net.save(f)
        # another network, of another name
        ref.build_net(OTHER_NET).save(os.path.join(path, "net_0.7"))
        back = type(net).load(f)
        require(type(back) is type(net), "type of the loaded network")
        require(back.num_nodes == net.num_nodes and back.num_events == net.num_events,
                "number of nodes or events")
        require(back.node_to_label_dict == net.node_to_label_dict, "node labels")
        require(list(back.events_table.columns) == list(net.events_table.columns)
                and back.events_table.reset_index(drop=True).equals(
                    net.events_table.reset_index(drop=True)), "events table")
        require(back.start_time == net.start_time and back.end_time == net.end_time,
                "start/end time")
        require(back.is_directed == net.is_directed and
                back.instantaneous_events == net.instantaneous_events, "flags")
        for m in MATS:
            require(hasattr(net, m) == hasattr(back, m), f"{m} lost or invented")
            if hasattr(net, m):
                same_matrices(m, getattr(net, m), getattr(back, m), atol=0)
        if stage > 0:
            require(list(back.times) == list(net.times), "times")
        advance(back, case, stage, 5)
        for m in MATS:
            same_matrices(m + " computed after loading", getattr(other, m),
                          getattr(back, m))
        check_static(back, ref.RefNet(c), None, None)
    return case["stage"] >= 1 and len(other.laplacians) >= 2


# ------------------------------------------------------------------ F08

@st.composite
def tsave_cases(draw):
    net = draw(gen.net_case(inst="any", max_events=8))
    return {"net": net, "win": draw(gen.window(net)),
            "lams": draw(st.lists(st.one_of(gen.lamdas(), gen.lamdas(),
                                            st.sampled_from([1e-6, 3e-7, 2e-8])),
                                  min_size=1, max_size=3, unique=True)),
            "one": draw(st.booleans()), "sparse_stoch": draw(st.booleans()),
            "mixed": draw(st.booleans()),
            "round": draw(st.booleans()), "tol": draw(st.sampled_from([1e-8, 1e-5, 0.05])),
            "gz": draw(st.booleans()), "name": draw(st.sampled_from(
                ["f", "f_lamda0.5", "f.pickle", "f.gz", "sub.dir_f"])),
            "what": draw(st.sampled_from(["inter_T", "inter_T", "inter_T_lin", "T", "T_lin"])),
            "full": draw(st.booleans()), "again": draw(st.sampled_from([None, False, True,
                                                                         "default"])),
            "each": draw(st.booleans()), "ts": draw(st.lists(st.sampled_from([10, 3]), min_size=1, max_size=2,
                                unique=True))}


def run_tsave(case):
    """Saved transition matrices come back (within the requested rounding) for
    every lamda asked for, with the description of their window."""
    with tempfile.TemporaryDirectory() as path, ref.quiet():
        net, R, a, b, _ = prepare(case["net"], case["win"], True)
        what, ss = case["what"], case["sparse_stoch"]
        lin = what.endswith("lin")
        for i, lam in enumerate(case["lams"]):
            if case["mixed"] and what.startswith("T"):
                # each lamda in another format
                ss = case["sparse_stoch"] ^ (i % 2 == 1)
            if lin:
                for ts in case["ts"]:
                    net.compute_lin_inter_transition_matrices(lamda=lam, t_s=ts,
                                                              use_sparse_stoch=ss)
                    if what == "T_lin":
                        net.compute_lin_transition_matrices(lamda=lam, t_s=ts,
                                                            save_intermediate=False)
            else:
                net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss)
                if what == "T":
                    net.compute_transition_matrices(lamda=lam, save_intermediate=False)
        name, gz = case["name"], case["gz"]
        if name.endswith(".pickle") and gz or name.endswith(".gz") and not gz:
            name = "f"
        f = os.path.join(path, name)
        lams = case["lams"][:1] if case["one"] else case["lams"]
        kw = {"round_zeros": case["round"], "tol": case["tol"], "compressed": gz}
        if case["one"]:
            kw["lamda"] = lams[0]
        if what.startswith("inter"):
            kw["save_delta"] = not ss
            if case["again"] is not None:
                if case["again"] == "default":
                    case["again"] = lin
                else:
                    kw["replace_existing"] = case["again"]
        kw = spare(**kw)
        if case["tol"] == 1e-8 and case["full"]:
            del kw["tol"]       # the default
        own = copy.deepcopy(getattr(net, what))
        save = getattr(net, "save_" + what)
        load = net.load_T if what.startswith("T") else net.load_inter_T
        if what.startswith("inter") and case["again"] is not None:
            # an existing file is only replaced on demand
            full = f if name.endswith((".pickle", ".gz")) else \
                f + (".gz" if gz else ".pickle")
            with open(full, "w") as fo:
                fo.write("precious")
            save(f, **kw)
            kept = open(full, "rb").read() == b"precious"
            require(kept == (not case["again"]),
                    "existing file " + ("kept" if kept else "replaced")
                    + f" with replace_existing={case['again']}")
            if kept:
                os.remove(full)
                save(f, **kw)
        else:
            save(f, **kw)
        files = os.listdir(path)
        require(len(files) == 1, f"files {files}")
        if gz and case["one"] and "." not in name:
            # as compressed by hand
            os.rename(os.path.join(path, files[0]), f + ".pickle.gz")
            files = os.listdir(path)
        d = load(os.path.join(path, files[0]) if case["full"] else f)
        require(what in d, f"{what} missing in the loaded data")
        got = d[what]
        require(sorted(got) == sorted(lams), f"lamdas {list(got)}, expected {lams}")
        require(d["num_nodes"] == R.m, "num_nodes")
        require_close("times of the window", d["times_k_start_to_k_stop+1"],
                      R.times[a:b + 1], atol=0, rtol=0)
        atol = 1e-9 + (3 * (b - a + 2) * R.m * case["tol"] if case["round"] else 0)
        if case["round"] and not kw.get("save_delta"):
            # values up to tol times the largest one (1 at most) are left out
            atol = 1e-9 + case["tol"] * 1.001
        for lam in lams:
            if lin:
                require(sorted(got[lam]) == sorted(case["ts"]), "t_s values")
                pairs = [(got[lam][ts], R.lin(lam, a, b, ts)) for ts in case["ts"]]
            else:
                pairs = [(got[lam], R.inter(lam, a, b))]
            for G, E in pairs:
                if what.startswith("T"):
                    G, E = [G], ref.cumulative(E)[-1:]
                require(len(G) == len(E), f"{len(G)} matrices, expected {len(E)}")
                for k, (g, e) in enumerate(zip(G, E)):
                    require_close(f"{what}[{lam}][{k}] after loading", g, e, atol=atol)
                    if case["round"] and not kw.get("save_delta"):
                        v = np.abs(g if isinstance(g, np.ndarray) else
                                   getattr(g, "T_small", g).data).ravel()
                        require(not ((v > 0) & (v < 0.99 * case["tol"] * v.max(initial=0))).any(),
                                f"{what}[{lam}][{k}]: values below {case['tol']} of the largest "
                                "one are saved")
        if case.get("each"):
            # one file per lamda, all in one directory
            os.mkdir(os.path.join(path, "each"))
            kw.pop("replace_existing", None)
            tags = {lam: os.path.join(path, "each", f"net_w{lam}") for lam in case["lams"]}
            for lam, f in tags.items():
                save(f, **{**kw, "lamda": lam})
            for lam, f in tags.items():
                got = load(f)[what]
                require(list(got) == [lam], f"{f} has lamdas {list(got)}, not {lam}")
                same_matrices(f"{what} of {lam} in its own file", own[lam], got[lam],
                              atol=atol)
        # the network keeps its own matrices
        same_matrices(f"{what} of the network after saving", own, getattr(net, what), atol=0)
    return b - a >= 2 and (not case["round"] or len(lams) >= 1)


NET = ["events of the same pair do not overlap unless merged; no self-contacts; no zero "
       "durations; windows with t_start <= t_stop"]

PROPS = {
    "F05": ("A form case is non-trivial with at least three events; a refused input always.",
            [Sub("forms", form_cases, run_forms, quick=1200, thorough=30000, shards=7),
             Sub("refused", bad_cases, run_bad_forms, quick=100, thorough=2000, shards=1)],
            NET),
    "F06": ("A merge case is non-trivial when merging reduces the number of events; a "
            "static case when a window bound is given and there are two events.",
            [Sub("merge", merge_cases, run_merge, quick=800, thorough=20000, shards=5),
             Sub("static", static_cases, run_static, quick=500, thorough=10000, shards=3)],
            ["no self-contacts, no zero durations"]),
    "F07": ("A case is non-trivial when something was computed before saving and the "
            "window has at least two steps.",
            [Sub("netsave", netsave_cases, run_netsave, quick=600, thorough=15000, shards=8)],
            NET),
    "F08": ("A case is non-trivial when the window has at least two steps.",
            [Sub("tsave", tsave_cases, run_tsave, quick=900, thorough=20000, shards=8)], NET),
}
