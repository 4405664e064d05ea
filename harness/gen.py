"""Generators of JSON-able cases (Hypothesis strategies)."""
from __future__ import annotations

from hypothesis import strategies as st

SCALES = [[1, 0], [1, 0], [0.5, 0], [0.1, 0], [3.7, -5], [1, 100], [0.25, 1.6e9], [20, -40],
          [1e-3, 0], [1 / 3, 0.1], [0.37219, 11.731]]
# where no rates are involved
ALL_SCALES = SCALES + [[1e-7, 0], [1e-9, -1e-6], [1e6, 0], [1e12, 3e12]]
LABELS = ["int", "int", "gap", "neg", "str"]


def drop_overlaps(evs):
    """Keep a subset of evs (sorted by start) without same-pair overlaps."""
    evs = sorted(evs, key=lambda e: (e[2], e[3], e[0], e[1]))
    last = {}
    out = []
    for i, j, s, e in evs:
        key = (min(i, j), max(i, j))
        if key in last and s < last[key]:
            continue
        last[key] = e
        out.append([i, j, s, e])
    return out


@st.composite
def raw_events(draw, n, max_events=12, horizon=10, max_dur=6, min_events=1):
    k = draw(st.integers(min_events, max_events))
    evs = []
    for _ in range(k):
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 2))
        if j >= i:
            j += 1
        s = draw(st.integers(0, horizon))
        d = draw(st.integers(1, max_dur))
        evs.append([i, j, s, s + d])
    return evs


@st.composite
def net_case(draw, min_n=2, max_n=7, max_events=12, horizon=10, max_dur=6,
             min_events=1, inst=None, labels=True, scales=None, overlap=False):
    """A temporal network: events on an integer grid, mapped to times.

    inst: None -> contact durations; True -> instantaneous events; "any" -> both
    """
    n = draw(st.integers(min_n, max_n))
    is_inst = inst is True or (inst == "any" and draw(st.booleans()))
    evs = draw(raw_events(n, max_events, horizon, max_dur, min_events))
    if not overlap and not is_inst:
        evs = drop_overlaps(evs)
    if is_inst:
        evs = [[i, j, s, s + 1] for i, j, s, _ in evs]
        evs.sort(key=lambda e: e[2])
    sc = draw(st.sampled_from(scales or SCALES))
    lab = draw(st.sampled_from(LABELS)) if labels else "int"
    order = draw(st.sampled_from(["sorted", "sorted", "reversed", "odd"]))
    return {"n": n, "ev": evs, "scale": sc[0], "off": sc[1], "labels": lab,
            "order": order, "inst": is_inst}


@st.composite
def window(draw, net):
    """[t_start, t_stop] in half grid units (None: not given)."""
    lo = min(e[2] for e in net["ev"])
    hi = max(e[3] for e in net["ev"])
    a = draw(st.one_of(st.none(), st.integers(2 * lo - 3, 2 * hi + 3)))
    b = draw(st.one_of(st.none(), st.integers(2 * lo - 3, 2 * hi + 3)))
    if a is not None and b is not None and a > b:
        a, b = b, a
    return [a, b]


@st.composite
def big_net(draw, inst=None, long_events=(700, 1500), wide_n=(20, 60), wide_events=(30, 140)):
    """A network with many events or many nodes, kept as the seed it is drawn
    from (expand gives the events)."""
    is_inst = inst is True or (inst == "any" and draw(st.booleans()))
    wide = draw(st.booleans())
    if wide:
        n, k = draw(st.integers(*wide_n)), draw(st.integers(*wide_events))
    else:
        n, k = draw(st.integers(3, 6)), draw(st.integers(*long_events))
    sc = draw(st.sampled_from([[1, 0], [0.5, 0], [0.1, -3], [1, 100], [0.25, 1.6e9]]))
    return {"n": n, "k": k, "seed": draw(st.integers(0, 2**32 - 1)),
            "horizon": draw(st.sampled_from([2, 1, 3])), "scale": sc[0], "off": sc[1],
            "labels": draw(st.sampled_from(LABELS)),
            "order": draw(st.sampled_from(["sorted", "reversed", "odd"])),
            "inst": is_inst}


def expand(net):
    """The network of a big_net case."""
    import random
    rnd = random.Random(net["seed"])
    n, k = net["n"], net["k"]
    horizon = max(2, int(k * net["horizon"]))
    evs = []
    for _ in range(k):
        i, j = rnd.sample(range(n), 2)
        s = rnd.randrange(horizon)
        evs.append([i, j, s, s + (1 if net["inst"] else rnd.randint(1, 6))])
    evs = sorted(evs, key=lambda e: e[2]) if net["inst"] else drop_overlaps(evs)
    return {**{x: net[x] for x in ("n", "scale", "off", "labels", "order", "inst")},
            "ev": evs}


@st.composite
def big_window(draw, net):
    """A window of a big_net case, in half grid units."""
    hi = 2 * max(2, net["k"] * net["horizon"])
    if draw(st.integers(0, 2)):
        return [None, None]
    a = draw(st.one_of(st.none(), st.integers(-1, hi // 4)))
    b = draw(st.one_of(st.none(), st.integers(hi - hi // 4, hi + 9)))
    return [a, b]


@st.composite
def rated_net(draw, rates, **kw):
    """A network in any unit of time, and rates that fit it."""
    net = draw(net_case(inst="any", scales=ALL_SCALES, **kw))
    lams = draw(rates)
    if [net["scale"], net["off"]] in SCALES:
        pass
    elif net["inst"]:
        # steps of duration one, so that rates cannot follow the unit of time
        net["scale"], net["off"] = 1, 0
    else:
        lams = [x if x is None else x / net["scale"] for x in lams]
    return net, lams


def lamdas():
    """Rates, some of them nearly equal."""
    some = st.sampled_from([1, 0.5, 0.1, 0.01, 2, 3.3, 1e-3, 0.1004, 0.1000001, 1.0000002,
                            1.25, 0.0013, 12, 40])
    return st.one_of(some, some, some, st.floats(5e-4, 8))


@st.composite
def dense_stoch(draw, n, zero_rows=False):
    """A row-stochastic n x n matrix as list of integer weights rows."""
    rows = []
    for i in range(n):
        r = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 5]), min_size=n, max_size=n))
        if sum(r) == 0 and not zero_rows:
            r[draw(st.integers(0, n - 1))] = 1
        rows.append(r)
    return rows


@st.composite
def partition_labels(draw, n, max_k=None):
    """A cluster label for each of n elements, labels contiguous from 0."""
    raw = draw(st.lists(st.integers(0, (max_k or n) - 1), min_size=n, max_size=n))
    return canonical(raw)


def canonical(raw):
    m = {}
    return [m.setdefault(x, len(m)) for x in raw]


def to_sets(labels):
    k = max(labels) + 1
    return [{i for i, c in enumerate(labels) if c == a} for a in range(k)]
