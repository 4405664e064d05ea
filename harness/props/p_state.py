"""F21: state tracking of analysis classes; F22: the FlowStability pipeline."""
import contextlib
import enum
import io
import operator
import pickle
import re
import statistics
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub, Violation, dense, require, require_close, require_raises


# ------------------------------------------------------------------ F21

@st.composite
def machine_cases(draw):
    n_states = draw(st.integers(2, 5))
    step = draw(st.sampled_from([1, 1, 3]))
    props = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))):
        props.append({"next": draw(st.integers(0, n_states - 1)),
                      "ignore": draw(st.sampled_from([True, True, False, None]))})
    methods = []
    for m in sorted(draw(st.sets(st.integers(0, n_states - 1), min_size=1,
                                 max_size=n_states))):
        methods.append({"min": m, "next": draw(st.integers(0, n_states - 1))})
    # an interleaved history of two objects
    ops = []
    kinds = ["set", "set", "setnone", "setfail", "call", "call", "call", "callfail", "next"]
    for _ in range(draw(st.integers(4, 30))):
        kind = draw(st.sampled_from(kinds))
        if kind.startswith("set") and not props:
            kind = "call"
        lim = len(props) if kind.startswith("set") else len(methods)
        ops.append([draw(st.integers(0, 1)), kind, draw(st.integers(0, lim - 1))])
    return {"states": n_states, "step": step, "props": props, "methods": methods,
            "ops": ops, "init": draw(st.booleans()),
            "mixed": draw(st.booleans())}


class Boom(Exception):
    pass


def make_class(case):
    """A class written as the documentation of the module shows."""
    from flowstab.state_tracking import OrderedEnum, StateMeta
    register = StateMeta.register
    n, step = case["states"], case["step"]
    names = [(f"S{i}", i * step - 1) for i in range(n)]
    if case["mixed"]:
        names = names[1:] + names[:1]       # the smallest state is not the first one
    S = OrderedEnum("S", names)
    members = [S[f"S{i}"] for i in range(n)]

    def make_prop(i, p):
        name = f"prop{i}"

        def fget(self):
            """doc of the getter"""
            return self.values.get(name)
        fget.__name__ = name

        def fset(self, value):
            """doc of the setter"""
            if value == "boom":
                raise Boom()
            self.values[name] = value
        fset.__name__ = name
        kw = {} if p["ignore"] is None else {"ignore_none": p["ignore"]}
        return name, register(next_state=members[p["next"]], **kw)(property(fget, fset))

    def make_method(i, m):
        name = f"run{i}"

        def func(self, *args, fail=False, **kwargs):
            """doc of the method"""
            self.calls.append((name, args, kwargs))
            if fail:
                raise Boom()
            return (name, args, kwargs)
        func.__name__ = name
        return name, register(minimal_state=members[m["min"]],
                              next_state=members[m["next"]])(func)

    ns = {}
    if case["init"]:
        def __init__(self, tag, *, other=None):
            self.tag = tag
            self.other = other
            self.values = {}
            self.calls = []
        ns["__init__"] = __init__
    for i, p in enumerate(case["props"]):
        k, v = make_prop(i, p)
        ns[k] = v
    for i, m in enumerate(case["methods"]):
        k, v = make_method(i, m)
        ns[k] = v
    cls = StateMeta("Tracked", (), ns, states=S)
    return cls, members


def run_machine(case):
    """History of two objects of a generated class against the documented state
    machine."""
    cls, members = make_class(case)
    objs, model = [], []
    for k in range(2):
        if case["init"]:
            o = cls(k, other="x")
            require(o.tag == k and o.other == "x", "__init__ arguments")
        else:
            o = cls()
            o.values = {}
            o.calls = []
        objs.append(o)
        model.append({"state": 0, "set": [False] * len(case["props"]),
                      "values": {}, "calls": []})
    done = refused = 0

    def missing(m, state):
        return [f"prop{i}" for i, p in enumerate(case["props"])
                if p["next"] <= state and not m["set"][i]]

    def compare(what):
        for k, (o, m) in enumerate(zip(objs, model)):
            require(o.state.current == members[m["state"]],
                    f"{what}: object {k} is in {o.state.current}, expected "
                    f"{members[m['state']]}")
            require({f"prop{i}": s for i, s in enumerate(m["set"])} ==
                    dict(o.state.properties_set), f"{what}: object {k}: properties set: "
                                                  f"{o.state.properties_set}")
            require(o.calls == m["calls"], f"{what}: object {k}: calls {o.calls}")
            require(o.values == m["values"], f"{what}: object {k}: values {o.values}")
            todo, run = o.state.next
            want = missing(m, m["state"])
            require(sorted(todo) == sorted(want),
                    f"{what}: object {k}: next properties {todo}, expected {want}")
            require(sorted(o.state.missing_parameters) == sorted(want),
                    f"{what}: object {k}: missing parameters")
            nxt = [f"run{i}" for i, x in enumerate(case["methods"])
                   if x["min"] <= m["state"]]
            if nxt:
                require(run == nxt[-1], f"{what}: object {k}: next method {run}, "
                                        f"expected {nxt[-1]}")
            else:
                require(not run, f"{what}: object {k}: next method {run}")
    compare("new")
    for t, (k, kind, i) in enumerate(case["ops"]):
        o, m = objs[k], model[k]
        what = f"operation {t} ({kind} {i} of object {k})"
        if kind.startswith("set"):
            p = case["props"][i]
            if kind == "setfail":
                require_raises(what, Boom, setattr, o, f"prop{i}", "boom")
            else:
                value = t if kind == "set" else None
                setattr(o, f"prop{i}", value)
                require(getattr(o, f"prop{i}") == value, f"{what}: value")
                m["values"][f"prop{i}"] = value
                m["set"][i] = value is not None or p["ignore"] is False
                m["state"] = min(m["state"], p["next"])
        elif kind == "next":
            pass
        else:
            x = case["methods"][i]
            ok = m["state"] >= x["min"] and not missing(m, x["min"])
            fail = kind == "callfail"
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    r = getattr(o, f"run{i}")(t, fail=fail, key=k)
                    raised = False
                except Boom:
                    raised = True
            if ok:
                done += 1
                m["calls"].append((f"run{i}", (t,), {"key": k}))
                require(raised == fail, f"{what}: exception {raised}")
                require(not w, f"{what}: warning {[str(y.message) for y in w]}")
                if not fail:
                    require(r == (f"run{i}", (t,), {"key": k}), f"{what}: returned {r}")
                    m["state"] = x["next"]
            else:
                refused += 1
                require(not raised and r is None, f"{what}: ran, although not allowed")
                require(len(w) >= 1, f"{what}: refused without a warning")
                if m["state"] >= x["min"]:
                    text = str(w[-1].message)
                    for name in missing(m, x["min"]):
                        require(name in text, f"{what}: {name} is not mentioned: {text}")
        compare(what)
    st_ = objs[0].state
    for s in {m["next"] for m in case["methods"]} | {m["min"] for m in case["methods"]}:
        want = [f"run{i}" for i, m in enumerate(case["methods"]) if m["next"] <= s]
        require(sorted(st_.methods_required[members[s]]) == sorted(want),
                f"methods required for state {s}: {st_.methods_required[members[s]]}")
    for i in range(len(case["methods"])):
        require("doc of the method" in st_.info[f"run{i}"], "info of a method")
    for i in range(len(case["props"])):
        require("doc of the getter" in st_.info[f"prop{i}"], "info of a property")
        require("doc of the setter" in st_.howto[f"prop{i}"], "howto of a property")
    return done >= 1 and refused >= 1


@st.composite
def enum_cases(draw):
    v = draw(st.lists(st.integers(-50, 50), min_size=2, max_size=6, unique=True))
    return {"values": v}


def run_enum(case):
    """OrderedEnum members are ordered as their values, within one class."""
    from flowstab.state_tracking import OrderedEnum
    v = case["values"]
    E = OrderedEnum("E", [(f"A{i}", x) for i, x in enumerate(v)])
    F = OrderedEnum("F", [(f"A{i}", x) for i, x in enumerate(v)])
    ms = list(E)
    for a in ms:
        for b in ms:
            for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq,
                       operator.ne):
                require(op(a, b) == op(a.value, b.value), f"{op.__name__}({a}, {b})")
        require(len({a, E(a.value)}) == 1, "hash")
        for b in list(F):
            require(a != b and not a == b, f"{a} equals a member of another class")
            require_raises(f"{a} < member of another class", TypeError, operator.lt, a, b)
        require(a.name in str(a) and str(a.value) in str(a), f"str: {a}")
    require([m.value for m in sorted(ms)] == sorted(v), "sorted")
    require(min(ms).value == min(v) and max(ms).value == max(v), "min, max")
    require(issubclass(OrderedEnum, enum.Enum), "an Enum")
    return len(v) >= 3


# ------------------------------------------------------------------ F22

TIME_SCALES = [1, 2.0, 0.5, 10, 7.3, 100, 10.01, 2.0000002, 0.037, 1/3]


@st.composite
def pipe_cases(draw):
    # instantaneous events can only be given as an object
    nets = [draw(gen.net_case(inst="any" if k else None, min_n=3, max_n=6, max_events=10,
                              min_events=2))
            for k in range(draw(st.integers(1, 2)))]
    # any unit of time, the time scales in the same unit; instantaneous events
    # have steps of duration one
    unit = draw(st.sampled_from([1, 1, 1, 1, 1e-9, 1e6]))
    if any(x["inst"] for x in nets):
        unit = 1
    for x in nets:
        x["scale"], x["off"] = x["scale"] * unit, x["off"] * unit
    TS = [x * unit for x in TIME_SCALES]
    ops = []
    n_ops = draw(st.integers(0, 14))
    # a run through the pipeline with disturbances, or any order
    straight = draw(st.integers(0, 4)) > 0
    plan = []
    if straight:
        plan = ["net", "win", "ts", "dir", "lap", "inter", "cluster", "louvain"]
        for _ in range(draw(st.integers(0, 2))):
            k = draw(st.integers(0, 7))
            plan += plan[k:8]
    rest = ["net", "netprop", "t_start", "t_stop", "ts", "badts", "dir", "lap", "inter",
            "cluster", "louvain", "win", "pickle"]
    extra = [draw(st.sampled_from(rest)) for _ in range(n_ops if not straight else n_ops // 3)]
    for x in extra:
        plan.insert(draw(st.integers(0, len(plan))), x)
    for x in plan:
        if x in ("net", "netprop"):
            v = draw(st.integers(0, len(nets) - 1))
            if not straight and draw(st.integers(0, 5)) == 0:
                v = None
            ops.append([x, v])
        elif x == "win":
            w = draw(gen.window(nets[draw(st.integers(0, len(nets) - 1))]))
            if draw(st.integers(0, 2)) == 0:
                w = [None, None]
            ops.append([x, w])
        elif x in ("t_start", "t_stop"):
            ops.append([x, draw(st.one_of(st.none(), st.integers(-3, 25)))])
        elif x == "ts":
            how = draw(st.sampled_from(["scalar", "list", "tuple", "gen", "array", "set",
                                        "logspace"]))
            val = draw(st.lists(st.sampled_from(TS), min_size=1, max_size=3, unique=True))
            if how in ("list", "tuple", "gen") and draw(st.integers(0, 3)) == 0:
                # the default, the median inter-event time
                val.insert(draw(st.integers(0, len(val))), None)
            ops.append([x, how, val])
        elif x == "badts":
            ops.append([x, draw(st.sampled_from([[-1], [0], [1, -2], "x", 0]))])
        elif x == "dir":
            ops.append([x, draw(st.sampled_from([-1, 0, 1, 0, 1, -1, None]))])
        elif x == "inter":
            o = {}
            if draw(st.integers(0, 3)) == 0:
                o["linear_approx"] = True
                if draw(st.booleans()):
                    o["t_s"] = draw(st.sampled_from([2, 5.5, 30, 2.001]))
            elif draw(st.integers(0, 3)) == 0:
                o["dense_expm"] = False
            if draw(st.integers(0, 3)) == 0:
                o["use_sparse_stoch"] = True
            how = draw(st.integers(0, 7))
            if how == 0:
                o["time_scale"] = draw(st.sampled_from(TS))
            elif how == 1:
                o["lamda"] = draw(st.sampled_from([0.5, 4, 0.125, 0.5000001, 0.037])) / unit
            ops.append([x, o])
        elif x == "cluster":
            ops.append([x, draw(st.sampled_from([None, None, None, "skew", "skew", "bad"])),
                        draw(st.one_of(st.none(), st.none(), st.lists(
                            st.integers(0, 1000), min_size=1, max_size=2)))])
        elif x == "louvain":
            ops.append([x, draw(st.integers(0, 99)), draw(st.integers(0, 2))])
        else:
            ops.append([x])
    ctor = None
    if draw(st.booleans()):
        k = draw(st.one_of(st.none(), st.integers(0, len(nets) - 1)))
        ctor = {"net": k, "kwargs": draw(st.booleans()),
                "win": draw(st.one_of(st.none(), gen.window(nets[k or 0]))),
                "ts": draw(st.one_of(st.none(), st.lists(st.sampled_from(TS), min_size=1,
                                                         max_size=2, unique=True))),
                "dir": draw(st.sampled_from([None, -1, 0, 1]))}
        if k is not None and draw(st.booleans()):
            ops = [x for x in ops if x[0] != "net"]
    if draw(st.integers(0, 3)) == 0:
        ops.append(["swap", draw(st.booleans())])
    return {"nets": nets, "ops": ops, "ctor": ctor, "unit": unit}


def skew_p(m):
    p = np.arange(1, m + 1, dtype=float)
    return p / p.sum()


class PipeModel:
    """What the analysis is based on, from the documentation."""

    MIN = {"lap": 1, "inter": 2, "cluster": 3, "louvain": 4}

    def __init__(self):
        self.state = 0
        self.net = None
        self.win = [None, None]
        self.ts = None
        self.dir = 0
        self.dir_set = False
        self.lap = None         # (net, a, b)
        self.inter = None       # (linear t_s or None)
        self.clusters = set()
        self.p1 = None
        self.grid = None        # steps until which the integral is taken
        self.found = {}         # seed of the partition of every integral

    def missing(self, state):
        out = []
        if state >= 1 and self.net is None:
            out.append("temporal_network")
        if state >= 2 and self.ts is None:
            out.append("time_scale")
        if state >= 3 and not self.dir_set:
            out.append("time_direction")
        if state >= 4:
            out += [x for x in ("flow_clustering_forward", "flow_clustering_backward")
                    if x not in self.clusters]
        return out


def run_pipe(case):
    """Histories of property changes and steps: steps whose inputs are missing
    or outdated are refused; results are those of the current inputs."""
    import flowstab
    from flowstab.flow_stability import FlowStability, States
    from flowstab.network_clustering import FlowIntegralClustering
    flowstab.set_log_level("CRITICAL")
    members = [States.INITIAL, States.TEMP_NW, States.LAPLAC, States.INTER_T,
               States.CLUSTERING, States.FINAL]
    m = PipeModel()
    refs = [ref.RefNet(n) for n in case["nets"]]
    objs = {}
    c = case.get("ctor")
    if c is None:
        fs = FlowStability()
    else:
        # what setting the attributes one after the other gives
        kw = {}
        net = case["nets"][c["net"] or 0]
        if c["net"] is not None:
            m.net = c["net"]
            m.state = 1
            if c["kwargs"] and not net["inst"]:
                kw = dict(zip(("source_nodes", "target_nodes", "starting_times",
                               "ending_times"), ref.columns(net)))
            else:
                with ref.quiet():
                    objs[m.net] = kw["temporal_network"] = ref.build_net(net)
        if c["win"] is not None:
            m.win = [ref.half(net, h) for h in c["win"]]
            kw["t_start"], kw["t_stop"] = m.win
        if c["ts"] is not None:
            m.ts = c["ts"]
            kw["time_scale"] = m.ts[0] if len(m.ts) == 1 else list(m.ts)
        if c["dir"] is not None:
            m.dir, m.dir_set = c["dir"], True
            kw["time_direction"] = c["dir"]
        with ref.quiet():
            fs = FlowStability(**kw)
        require((fs.temporal_network is None) == (m.net is None), "constructor: network")
        require(m.ts is None or list(fs.time_scale) == m.ts, "constructor: time scales")
        require([fs.t_start, fs.t_stop] == m.win and fs.time_direction == m.dir,
                "constructor: window or direction")
    finals = refusals = 0
    cover = False

    def rate(ts):
        return 1 / (statistics.median(np.diff(refs[m.lap[0]].times)) if ts is None else ts)

    def expected(ts):
        k, a, b = m.lap
        R = refs[k]
        if m.inter is None:
            return R.inter(rate(ts), a, b)
        return R.lin(rate(ts), a, b, m.inter)

    def check_state(what):
        require(fs.state.current == members[m.state],
                f"{what}: state {fs.state.current}, expected {members[m.state]}")
        todo, run = fs.state.next
        require(sorted(todo) == sorted(m.missing(m.state)),
                f"{what}: next properties {todo}, expected {m.missing(m.state)}")
        nxt = ["set_temporal_network", "compute_laplacian_matrices",
               "compute_inter_transition_matrices", "set_flow_clustering",
               "find_louvain_clustering", "find_louvain_clustering"][m.state]
        require(run == nxt, f"{what}: next step {run}, expected {nxt}")
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            fs.help()
        text = re.sub(r"help\('.*?'\)", "", text.getvalue())    # its examples
        require(nxt in text, f"{what}: help does not name the next step {nxt}")
        for prop in m.missing(m.state):
            require(re.search(rf"\b{prop}\b", text),
                    f"{what}: help does not name the missing {prop}")
        require(fs.state.current == members[m.state], f"{what}: help changed the state")

    def directions():
        out = []
        if m.dir <= 0:
            out.append((True, fs.flow_clustering_backward))
        if m.dir >= 0:
            out.append((False, fs.flow_clustering_forward))
        return out

    def grid_steps(rev, K):
        """Numbers of steps from the start, for the times of the grid."""
        if m.grid is None:
            return [K]
        return sorted({K - x if rev else x for x in m.grid} - {0})

    def check_clusters(what, p1):
        k, a, b = m.lap
        R = refs[k]
        times = np.array(R.times[a:b + 1])
        for ts in m.ts:
            Ts = expected(ts)
            for rev, table in directions():
                require(ts in table, f"{what}: no clustering for time scale {ts}")
                fc = table[ts]
                require(isinstance(fc, FlowIntegralClustering),
                        f"{what}: clustering of time scale {ts} is {fc}")
                require(bool(fc.reversed_time) == rev, f"{what}: direction")
                cum = ref.cumulative(Ts, rev)
                tt = times[::-1] if rev else times
                stops = grid_steps(rev, b - a)
                require(len(fc.I_list) == len(stops), f"{what}: {len(fc.I_list)} integrals")
                for got, k in zip(fc.I_list, stops):
                    want = ref.flow_integral(cum[:k], np.abs(np.diff(tt))[:k], p1)
                    require_close(f"{what}: integral of time scale {ts} over {k} steps, "
                                  f"{'backward' if rev else 'forward'}", got, want, atol=1e-8)
            if m.dir > 0:
                require(fs.flow_clustering_backward.get(ts) is None,
                        f"{what}: a backward clustering although the direction is forward")
            if m.dir < 0:
                require(fs.flow_clustering_forward.get(ts) is None,
                        f"{what}: a forward clustering although the direction is backward")

    check_state("new")
    for i, op in enumerate(case["ops"]):
        what = f"operation {i} {op}"
        name = op[0]
        if name == "net":
            k = op[1]
            with ref.quiet():
                if k is None:
                    r = fs.set_temporal_network()
                    require(fs.temporal_network is None, f"{what}: network")
                    m.net = None
                elif case["nets"][k]["inst"]:
                    continue
                else:
                    s, t, x, y = ref.columns(case["nets"][k])
                    r = fs.set_temporal_network(source_nodes=s, target_nodes=t,
                                                starting_times=x, ending_times=y)
                    m.net = k
            require(r is fs, f"{what}: returned {r}")
            m.state = 1
        elif name == "netprop":
            k = op[1]
            with ref.quiet():
                if k is not None and k not in objs:
                    objs[k] = ref.build_net(case["nets"][k])
                fs.temporal_network = None if k is None else objs[k]
            require(fs.temporal_network is (None if k is None else objs[k]),
                    f"{what}: network")
            m.net = k
            m.state = min(m.state, 1) if k is None else 1
        elif name == "pickle":
            with ref.quiet():
                fs = pickle.loads(pickle.dumps(fs))
            require((fs.temporal_network is None) == (m.net is None), f"{what}: network")
            require(fs.t_start == m.win[0] and fs.t_stop == m.win[1], f"{what}: window")
            require(m.ts is None or list(fs.time_scale) == m.ts, f"{what}: time scales")
        elif name in ("t_start", "t_stop"):
            net = case["nets"][m.net or 0]
            v = ref.half(net, op[1])
            setattr(fs, name, v)
            require(getattr(fs, name) == v, f"{what}: value")
            m.win[name == "t_stop"] = v
            m.state = min(m.state, 1)
        elif name == "win":
            net = case["nets"][m.net or 0]
            fs.t_start, fs.t_stop = [ref.half(net, h) for h in op[1]]
            m.win = [ref.half(net, h) for h in op[1]]
            m.state = min(m.state, 1)
        elif name == "ts":
            how, val = op[1], op[2]
            if how == "scalar":
                val = val[:1]
                fs.time_scale = val[0]
            elif how == "set":
                val = val[:1]
                fs.set_time_scale(val[0])
            elif how == "logspace":
                e = {1: 0, 1e-9: -9, 1e6: 6}[case.get("unit", 1)] - 1
                kw = {"start": e, "stop": e + 0.6 * len(val), "num": len(val) + 1}
                fs.set_time_scale(**kw)
                val = [10.0 ** (e + 0.6 * q) for q in range(len(val) + 1)]
            else:
                fs.time_scale = {"list": list, "tuple": tuple, "array": np.array,
                                 "gen": lambda v: (z for z in v)}[how](val)
            got = list(fs.time_scale)
            require([z is None for z in got] == [z is None for z in val],
                    f"{what}: time scales {got}")
            given, val = val, [-1 if z is None else z for z in val]
            require_close(f"{what}: time scales", [-1 if z is None else z for z in got], val,
                          atol=0, rtol=1e-12)
            require_close(f"{what}: time scales, read again",
                          [-1 if z is None else z for z in fs.time_scale], val, atol=0,
                          rtol=1e-12)
            val = given
            lam = list(fs.lamda)
            require([z is None for z in lam] == [z is None for z in val], f"{what}: lamda {lam}")
            require_close(f"{what}: lamda", np.array([z for z in lam if z is not None]),
                          1 / np.array([z for z in val if z is not None]), atol=0, rtol=1e-12)
            m.ts = got
            m.state = min(m.state, 2)
        elif name == "swap":
            # a clustering of the other direction is not taken
            here, there = ("forward", "backward") if op[1] else ("backward", "forward")
            for ts, fc in list(getattr(fs, f"flow_clustering_{there}").items()):
                if fc is None:
                    continue
                with ref.quiet():
                    try:
                        setattr(fs, f"flow_clustering_{here}", (ts, fc))
                    except Exception:
                        pass
                got = getattr(fs, f"flow_clustering_{here}").get(ts)
                require(got is None or bool(got.reversed_time) != op[1],
                        f"{what}: {there} clustering taken as {here}")
            break
        elif name == "badts":
            require_raises(what, (ValueError, TypeError), setattr, fs, "time_scale", op[1])
            require(m.ts is None or list(fs.time_scale) == m.ts, f"{what}: changed")
        elif name == "dir":
            fs.time_direction = op[1]
            m.dir_set = op[1] is not None
            m.dir = op[1] or 0
            require(fs.time_direction == m.dir, f"{what}: direction")
            m.state = min(m.state, 3)
        else:
            k_min = PipeModel.MIN[name]
            ok = m.state >= k_min and not m.missing(k_min)
            kw = {}
            if name == "lap" and ok:
                a, b = refs[m.net].window(*m.win)
                if a >= b:
                    continue
            elif name == "inter":
                kw = dict(op[1])
            elif name == "cluster" and op[1] == "skew" and m.lap:
                kw = {"p1": skew_p(refs[m.lap[0]].m)}
            elif name == "cluster" and op[1] == "bad" and m.lap:
                kw = {"p1": skew_p(refs[m.lap[0]].m + 1)}
            elif name == "louvain":
                kw = {"rnd_seed": op[1]}
                if m.lap:
                    stops = len(grid_steps(False, m.lap[2] - m.lap[1]))
                    kw["k"] = op[2] % stops if len(op) > 2 else 0
            grid = None
            if name == "cluster" and m.lap and len(op) > 2 and op[2] is not None:
                # both ends and some steps between them
                K = m.lap[2] - m.lap[1]
                grid = sorted({0, K} | {x % (K + 1) for x in op[2]})
                kw["integral_time_grid"] = [refs[m.lap[0]].times[m.lap[1] + x] for x in grid]
            f = {"lap": fs.compute_laplacian_matrices,
                 "inter": fs.compute_inter_transition_matrices,
                 "cluster": fs.set_flow_clustering,
                 "louvain": fs.find_louvain_clustering}[name]
            with warnings.catch_warnings(record=True) as w, ref.quiet():
                warnings.simplefilter("always")
                r = f(**kw)
            if not ok:
                refusals += 1
                require(r is None, f"{what}: ran although it is not allowed")
                require(len(w) >= 1, f"{what}: refused without a warning")
            else:
                require(r is fs, f"{what}: returned {r}, state was {members[m.state]}")
                if name == "lap":
                    m.lap = (m.net, a, b)
                    cover |= b - a >= 2
                    R = refs[m.net]
                    L = fs.temporal_network.laplacians
                    require(len(L) == b - a, f"{what}: {len(L)} Laplacians")
                    for q in range(a, b):
                        require_close(f"{what}: Laplacian {q}", L[q - a], R.laplacian(q),
                                      atol=1e-12)
                    m.state = 2
                elif name == "inter":
                    m.inter = kw.get("t_s", 10) if kw.get("linear_approx") else None
                    if "time_scale" in kw:
                        m.ts = [kw["time_scale"]]
                    elif "lamda" in kw:
                        m.ts = [1 / kw["lamda"]]
                    require(list(fs.time_scale) == m.ts, f"{what}: time scales")
                    for ts in m.ts:
                        tn = fs.temporal_network
                        table = tn.inter_T if m.inter is None else tn.inter_T_lin
                        keys = [z for z in table if abs(z / rate(ts) - 1) < 1e-12]
                        require(len(keys) >= 1, f"{what}: no matrices of time scale {ts}")
                        got = table[keys[0] if ts is None else 1 / ts]
                        got = got if m.inter is None else got[m.inter]
                        want = expected(ts)
                        require(len(got) == len(want), f"{what}: number of transitions")
                        for q, (G, E) in enumerate(zip(got, want)):
                            require_close(f"{what}: transition {q} of time scale {ts}", G, E,
                                          atol=1e-8)
                    m.state = 3
                elif name == "cluster" and op[1] == "bad":
                    # fails for the requested directions, none of which has a clustering
                    m.clusters = {z for z, on in (("flow_clustering_backward", m.dir > 0),
                                                  ("flow_clustering_forward", m.dir < 0)) if on}
                    for ts in m.ts:
                        for rev, table in directions():
                            require(table.get(ts) is None, f"{what}: a clustering of time "
                                                           f"scale {ts} after a failure")
                    m.state = 4
                elif name == "cluster":
                    m.p1 = kw.get("p1")
                    if m.p1 is None:
                        m.p1 = np.full(refs[m.lap[0]].m, 1 / refs[m.lap[0]].m)
                    m.grid, m.found = grid, {}
                    check_clusters(what, m.p1)
                    m.clusters = {"flow_clustering_forward", "flow_clustering_backward"}
                    m.state = 4
                elif name == "louvain":
                    check_clusters(what, m.p1)
                    for ts in m.ts:
                        for rev, table in directions():
                            step = grid_steps(rev, m.lap[2] - m.lap[1])[kw["k"]]
                            check_partition(what, table[ts], kw["k"], step,
                                            m.found.setdefault(kw["k"], op[1]),
                                            refs[m.lap[0]])
                    m.state = 5
                    finals += 1
        check_state(what)
    return finals >= 1 and cover


def check_partition(what, fc, k, step, seed, R):
    """A partition of the nodes, not worse than the singletons, that of the
    seed."""
    from flowstab.network_clustering import Clustering
    I = dense(fc.I_list[k])
    require(k in fc.partition, f"{what}: no partition")
    cl = [set(int(x) for x in c) for c in fc.partition[k].cluster_list if len(c)]
    require(sorted(x for c in cl for x in c) == list(range(R.m)),
            f"{what}: {cl} is not a partition of {R.m} nodes")
    q = sum(I[np.ix_(sorted(c), sorted(c))].sum() for c in cl)
    if len(cl) > 1:
        require(q >= np.trace(I) - 1e-9, f"{what}: worse than singletons")
    c = Clustering(p1=fc.p1, p2=None, T=fc.T_list[step - 1],
                   S=fc.I_list[k], rnd_seed=seed)
    with ref.quiet():
        c.find_louvain_clustering(rnd_seed=seed)
    want = sorted(sorted(int(x) for x in q) for q in c.partition.cluster_list if len(q))
    require(sorted(sorted(x) for x in cl) == want,
            f"{what}: {cl}, seed {seed} gives {want}")


PROPS = {
    "F21": ("F21: a history with at least one executed and one refused call; an enumeration "
            "of three or more states.",
            [Sub("machine", machine_cases, run_machine, 5000, 60000, 6),
             Sub("enum", enum_cases, run_enum, 300, 3000, 1)],
            ["methods are defined in the order of their (different) minimal states"]),
    "F22": ("F22: a history that reaches the final state with a window of two or more steps.",
            [Sub("pipeline", pipe_cases, run_pipe, 3000, 40000, 8)],
            ["time scales are given, windows are not empty"]),
}
