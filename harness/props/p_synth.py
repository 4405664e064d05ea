"""F23: the agent based generator of synthetic temporal networks."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Sub, Violation, dense, require, require_close, require_raises

EPS = 1e-9          # scale of the (shifted exponential) distributions: deterministic
TOL = 1e-5

METHODS = ["random_uniform", "random_uniform_within_group", "block_probs",
           "block_probs_mod"]


@st.composite
def sim_cases(draw):
    n_groups = draw(st.integers(1, 3))
    n = draw(st.integers(max(n_groups, 2), 7))
    groups = [k if k < n_groups else draw(st.integers(0, n_groups - 1)) for k in range(n)]
    groups = draw(st.permutations(groups))
    order = draw(st.sampled_from(["sorted", "sorted", "reversed", "odd"]))
    method = draw(st.sampled_from(METHODS))
    # every group contacts one group (or none), constant or switched at some time
    goal = [[draw(st.integers(-1, n_groups - 1)) for _ in range(n_groups)] for _ in range(2)]
    return {"n": n, "groups": list(groups), "order": order, "method": method, "goal": goal,
            "weight": draw(st.sampled_from([1, 1, 3.5, 1e-9, 1e7])),
            "switch": draw(st.sampled_from([6, 6, -1.7, 3.3])),
            "num": draw(st.sampled_from([1, 1, 1, 2, 3])),
            "t0": draw(st.sampled_from([0, 0, -4, 2.5, 1e5])), "span": draw(st.sampled_from([5, 12, 20])),
            "act": [draw(st.sampled_from([0.7, 1.3, 2, 3.1, 6])) for _ in range(n)],
            "dur": [draw(st.sampled_from([0.2, 0.9, 2.3, 5, 9])) for _ in range(n)],
            "drift": draw(st.sampled_from([0, 0, 0.03])),
            "mod": draw(st.sampled_from(["none", "both", "activ", "inter"])),
            "reuse": draw(st.booleans()),
            "all": draw(st.booleans()), "dt": draw(st.sampled_from([None, 0.5, 3, 10])),
            "aslist": draw(st.booleans())}


def rate(base, i, drift, t):
    # the summand makes equal times of different individuals unlikely
    return base + 0.0137 * i + drift * math.cos(t)


def switch(case):
    return case.get("switch", 6) + (case["t0"] if case["t0"] > 100 else 0)


def build(case):
    from flowstab.synth_temp_network import Individual, SynthTempNetwork
    ids = list(range(case["n"]))
    if case["order"] == "reversed":
        ids = ids[::-1]
    elif case["order"] == "odd":
        ids = ids[1::2] + ids[0::2]

    def func(base, i):
        return lambda t: (rate(base, i, case["drift"], t), EPS)
    inds = []
    for i in ids:
        kw = {}
        for what, base in (("inter", case["dur"][i]), ("activ", case["act"][i])):
            if case["mod"] in ("both", what) or case["drift"]:
                kw[f"{what}_distro_mod_func"] = func(base, i)
                kw[f"{what}_distro_loc"] = 1e6
            else:
                kw[f"{what}_distro_loc"] = rate(base, i, 0, 0)
                kw[f"{what}_distro_scale"] = EPS
        inds.append(Individual(i, group=case["groups"][i], **kw))
    kw = {}
    g = max(case["groups"]) + 1

    def block(t, w):
        B = np.zeros((g, g))
        for a, b in enumerate(case["goal"][1 if t >= switch(case) else 0][:g]):
            if b >= 0:
                B[a, b] = w
        return B
    if case["method"] == "block_probs":
        B = block(-math.inf, case["weight"])
        kw["inter_group_probs"] = B.tolist() if case["aslist"] else B
    elif case["method"] == "block_probs_mod":
        kw["block_prob_mod_func"] = lambda t: block(t, 1.0)
    if case["reuse"]:
        # the individuals take part in another simulation before
        SynthTempNetwork(inds, t_start=-1, t_end=1, next_event_method="random_uniform").run()
    return SynthTempNetwork(inds, t_start=case["t0"], t_end=case["t0"] + case["span"],
                            num_interactions_per_activation=case["num"],
                            next_event_method=case["method"], **kw)


def pool(case, i, t):
    """Individuals that i may contact at time t."""
    g = case["groups"]
    others = [j for j in range(case["n"]) if j != i]
    if case["method"] == "random_uniform":
        return others
    if case["method"] == "random_uniform_within_group":
        return [j for j in others if g[j] == g[i]]
    k = 1 if case["method"] == "block_probs_mod" and t >= switch(case) else 0
    goal = case["goal"][k][g[i]]
    return [j for j in others if g[j] == goal]


def run_sim(case):
    """Simulation with (nearly) deterministic durations against the exact list
    of activations, numbers, lengths and admissible partners of the contacts."""
    n, t0 = case["n"], case["t0"]
    t_end = t0 + case["span"]
    sim = build(case)
    with ref.quiet():
        kw = {}
        if case["dt"] is not None:
            kw = {"save_dt_states": True, "dt": case["dt"]}
        sim.run(save_all_states=case["all"], **kw)
    src, tgt = [int(x) for x in sim.indiv_sources], [int(x) for x in sim.indiv_targets]
    beg, end = [float(x) for x in sim.start_times], [float(x) for x in sim.end_times]
    require(len(src) == len(tgt) == len(beg) == len(end), "lists of different lengths")

    # the model
    acts = {}
    moments = [t_end, switch(case)]
    for i in range(n):
        acts[i] = []
        t = t0
        while t < t_end:
            t += rate(case["act"][i], i, case["drift"], t)
            acts[i].append(t)
        moments += acts[i]
    want = {}           # (i, k): number of contacts that start, their end
    for i in range(n):
        active = []     # (end, group): contacts i started
        for k, t in enumerate(acts[i]):
            if t >= t_end:
                break
            active = [x for x in active if x[0] > t]
            free = pool(case, i, t)
            gs = {case["groups"][j] for j in free}
            busy = (len(active) if case["method"] == "random_uniform"
                    else sum(1 for x in active if x[1] in gs))
            c = min(case["num"], len(free) - busy)
            e = t + rate(case["dur"][i], i, case["drift"], t)
            want[i, k] = (c, e)
            g = next(iter(gs)) if len(gs) == 1 else None
            active += [(e, g)] * c
            if c:
                moments.append(e)
    # moments that coincide cannot be ordered by the model
    ms = sorted(moments)
    if any(0 <= y - x < 1e-4 for x, y in zip(ms, ms[1:])):
        return False

    found = {}
    recorded = {}
    for x, (i, j, b, e) in enumerate(zip(src, tgt, beg, end)):
        what = f"contact {i}->{j} from {b} to {e}"
        require(0 <= i < n and 0 <= j < n and i != j, f"{what}: nodes")
        ks = [k for k, t in enumerate(acts[i]) if abs(t - b) < TOL]
        require(len(ks) == 1, f"{what}: {i} is not activated then, but at {acts[i]}")
        require(b < t_end, f"{what}: starts after the end {t_end}")
        require(abs(e - want[i, ks[0]][1]) < TOL,
                f"{what}: should end at {want[i, ks[0]][1]}")
        require(j in pool(case, i, b), f"{what}: {j} is not an admissible partner")
        require(x == 0 or e >= end[x - 1] - TOL, f"{what}: before the previous one")
        for b2, e2 in recorded.get((i, j), []):
            require(b >= e2 - TOL or e <= b2 + TOL, f"{what}: overlaps {b2}..{e2}")
        recorded.setdefault((i, j), []).append((b, e))
        found[i, ks[0]] = found.get((i, ks[0]), 0) + 1
    late = 0
    for (i, k), (c, e) in want.items():
        got = found.get((i, k), 0)
        if e < t_end:
            require(got == c, f"activation {k} of {i} at {acts[i][k]}: {got} contacts, "
                              f"expected {c}")
        else:
            require(got <= c, f"activation {k} of {i}: {got} contacts")
            late += got
    require(late <= 1, f"{late} contacts end after the end of the simulation")

    times = sorted({t for i in acts for t in acts[i]} |
                   {e for (i, k), (c, e) in want.items() if c})
    last = next(t for t in times if t >= t_end)
    times = [t for t in times if t <= last]

    def check_states(name, states, keys):
        require(abs(min(states) - t0) < TOL, f"{name}: first state at {min(states)}")
        require_close(f"{name} at the beginning", states[min(states)], np.zeros((n, n)))
        got = sorted(states)
        if keys is not None:
            once = [x for q, x in enumerate(got) if q == 0 or x - got[q - 1] > TOL]
            require(len(once) == len(keys) and
                    all(abs(x - y) < TOL for x, y in zip(once, keys)),
                    f"{name}: states at {got}, expected {keys}")
        for t in got[1:]:
            if t >= t_end or any(abs(t - e) < TOL for c, e in want.values() if c > 1):
                continue        # not modelled: some of the contacts that end together
            A = dense(states[t])
            require(set(np.unique(A)) <= {0, 1}, f"{name}: values {np.unique(A)}")
            for i in range(n):
                for j in range(n):
                    on = any(b <= t + TOL and t < e - TOL
                             for b, e in recorded.get((i, j), []))
                    if on:
                        require(A[i, j] == 1, f"{name}: {i}->{j} missing at {t}")
                    elif A[i, j] != 0:
                        # a contact that goes on at the end of the simulation
                        require(j in pool(case, i, t) or case["method"] == "block_probs_mod",
                                f"{name}: {i}->{j} at {t}")
                        require(all(dense(states[u])[i, j] == 1 for u in got if u >= t),
                                f"{name}: {i}->{j} at {t} is not among the contacts")
            for i in range(n):
                c = sum(w for (q, k), (w, e) in want.items()
                        if q == i and acts[q][k] <= t + TOL and t < e - TOL)
                require(A[i].sum() == c, f"{name}: {i} has {A[i].sum()} contacts at {t}, "
                                         f"expected {c}")
    if case["all"]:
        check_states("all_states", sim.all_states, [t0] + times)
    if case["dt"] is not None:
        keys, bins = [t0], int((last - t0) // case["dt"])
        regular = True
        for k in range(1, bins + 1):
            nxt = [t for t in times if t >= t0 + k * case["dt"]]
            if not nxt or nxt[0] >= t0 + (k + 1) * case["dt"] or \
                    any(abs(t - t0 - k * case["dt"]) < TOL for t in times):
                regular = False
                break
            keys.append(nxt[0])
        check_states("saved_states", sim.saved_states, keys if regular else None)
    return len(src) >= 3


# the distributions and the choice of the partners: frequencies

@st.composite
def freq_cases(draw):
    g = draw(st.integers(2, 3))
    size = draw(st.integers(2, 3))
    probs = [[draw(st.sampled_from([0, 1, 2, 5])) for _ in range(g)] for _ in range(g)]
    return {"g": g, "size": size, "probs": probs,
            "method": draw(st.sampled_from(METHODS)), "shuffle": draw(st.booleans()),
            "loc": draw(st.sampled_from([0, 0.5, 3])),
            "scale": draw(st.sampled_from([0.2, 1, 5])),
            "long": draw(st.sampled_from([0.8, 2.2]))}


def far(count, total, p):
    """More than 7 standard deviations (plus a few) away."""
    return abs(count - total * p) > 7 * math.sqrt(total * p * (1 - p) + 1) + 3


def run_freq(case):
    """Frequencies of groups and partners; moments of the durations; the same
    seed gives the same network."""
    from flowstab.synth_temp_network import Distro, Individual, SynthTempNetwork
    g, size = case["g"], case["size"]
    n = g * size
    ids = list(range(n))
    if case["shuffle"]:
        ids = ids[::2] + ids[1::2][::-1]
    grp = [i % g for i in range(n)]
    P = np.array(case["probs"], dtype=float)
    Q = np.divide(P, P.sum(1, keepdims=True), out=np.zeros_like(P),
                  where=P.sum(1, keepdims=True) > 0)

    def make(length=0.001):
        inds = [Individual(i, group=grp[i], inter_distro_loc=length, inter_distro_scale=EPS,
                           activ_distro_scale=1, activ_distro_loc=0.01) for i in ids]
        kw = {}
        if case["method"] == "block_probs":
            kw["inter_group_probs"] = P.copy()
        if case["method"] == "block_probs_mod":
            kw["block_prob_mod_func"] = lambda t: Q
        return SynthTempNetwork(inds, t_start=0, t_end=300, next_event_method=case["method"],
                                **kw)
    state = np.random.get_state()
    with ref.quiet():
        a = make()
        a.run()
        np.random.set_state(state)
        b = make()
        b.run()
    require(list(a.indiv_sources) == list(b.indiv_sources) and
            list(a.indiv_targets) == list(b.indiv_targets) and
            list(a.start_times) == list(b.start_times) and
            list(a.end_times) == list(b.end_times),
            "two simulations from the same random state differ")
    count = np.zeros((n, n), dtype=int)
    for i, j in zip(a.indiv_sources, a.indiv_targets):
        count[i, j] += 1
    for i in range(n):
        # probability of each partner (contacts are so short that all are free)
        if case["method"] == "random_uniform":
            p = np.ones(n)
        elif case["method"] == "random_uniform_within_group":
            p = np.array([float(grp[j] == grp[i]) for j in range(n)])
        else:
            p = np.array([Q[grp[i], grp[j]] for j in range(n)])
            for h in range(g):
                k = sum(1 for j in range(n) if grp[j] == h and j != i)
                for j in range(n):
                    if grp[j] == h:
                        p[j] = Q[grp[i], h] / k
        p[i] = 0
        total = count[i].sum()
        if p.sum() == 0:
            require(total == 0, f"{i} has contacts")
            continue
        p = p / p.sum()
        # about 300 / 1.01 activations
        require(abs(total - 300 / 1.01) < 8 * math.sqrt(300), f"{i}: {total} contacts")
        for j in range(n):
            if p[j] == 0:
                require(count[i, j] == 0, f"{i}->{j} is not possible")
            else:
                require(not far(count[i, j], total, p[j]),
                        f"{i}->{j}: {count[i, j]} of {total}, probability {p[j]}")
    # longer contacts: uniform among those that are free
    with ref.quiet():
        c = make(case["long"])
        c.run()
    ranks = {}
    beside = np.zeros((2, 3))
    mine = {i: [] for i in range(n)}
    for i, j, s, e in sorted(zip(c.indiv_sources, c.indiv_targets, c.start_times,
                                 c.end_times), key=lambda x: x[2]):
        if s > 300 - 2 * case["long"]:
            break
        mine[i] = [x for x in mine[i] if x[1] > s]
        busy = {x[0] for x in mine[i]} | {i}
        require(j not in busy, f"{i}->{j} at {s}: has contact with {busy}")
        free = [x for x in range(n) if x not in busy and
                (case["method"] == "random_uniform" or grp[x] == grp[j])]
        ranks.setdefault(len(free), []).append(free.index(j))
        cand = [x for x in range(n) if x in free or (x in busy and (
            case["method"] == "random_uniform" or grp[x] == grp[j]))]
        for k, step in enumerate((1, -1)):
            # next to one that is busy
            near = [x for x in free if cand[(cand.index(x) - step) % len(cand)] in busy]
            q = len(near) / len(free)
            beside[k] += np.array([j in near, q, q * (1 - q)])
        mine[i].append((j, e))
    for got, mean, var in beside:
        require(abs(got - mean) <= 7 * math.sqrt(var + 1) + 3,
                f"{got} partners beside a busy one, expected {mean}")
    for k, rs in ranks.items():
        for r in range(k):
            require(not far(rs.count(r), len(rs), 1 / k), f"of {k} free individuals number "
                    f"{r} is chosen {rs.count(r)} times of {len(rs)}")
    d = Distro(loc=case["loc"], scale=case["scale"])
    for kw, loc, scale in (({}, case["loc"], case["scale"]),
                           ({"loc": 7.0}, 7.0, case["scale"]),
                           ({"scale": 0.3}, case["loc"], 0.3),
                           ({"loc": 0.0, "scale": 2.0}, 0.0, 2.0)):
        x = np.array([d.draw_val(**kw) for _ in range(400)])
        require(x.min() >= loc, f"draw below the location {loc}")
        require(abs(x.mean() - loc - scale) < 7 * scale / 20, f"mean {x.mean()}, expected "
                                                              f"{loc + scale}")
        # P(x > loc + scale) = 1/e
        require(not far(int((x > loc + scale).sum()), 400, math.exp(-1)), "not exponential")
    return True


@st.composite
def crowd_cases(draw):
    return {"n": draw(st.integers(101, 300)), "g": draw(st.integers(1, 2)),
            "method": draw(st.sampled_from(METHODS)), "num": draw(st.sampled_from([1, 2, 12]))}


def run_crowd(case):
    """Everybody takes part in a large population, in the own group only where
    the groups do not mix."""
    from flowstab.synth_temp_network import Individual, SynthTempNetwork
    n, g = case["n"], case["g"]
    kw = {}
    if case["method"] == "block_probs":
        kw["inter_group_probs"] = np.eye(g)
    elif case["method"] == "block_probs_mod":
        kw["block_prob_mod_func"] = lambda t: np.eye(g)
    inds = [Individual(i, group=i * g // n, inter_distro_loc=0.5, inter_distro_scale=EPS,
                       activ_distro_loc=1 + i * 1e-4, activ_distro_scale=EPS)
            for i in range(n)]
    rounds = max(2, 40 // case["num"])
    sim = SynthTempNetwork(inds, t_start=0, t_end=rounds + 1,
                           num_interactions_per_activation=case["num"],
                           next_event_method=case["method"], **kw)
    with ref.quiet():
        sim.run()
    src, tgt = np.array(sim.indiv_sources), np.array(sim.indiv_targets)
    out = np.bincount(src, minlength=n)
    require(len(out) == n and (out >= (rounds - 1) * case["num"]).all() and
            (out <= (rounds + 1) * case["num"]).all(),
            f"numbers of contacts from {out.min()} to {out.max()}, {rounds} rounds")
    got = np.bincount(tgt, minlength=n)
    # about forty each: the chance of less than four is below 1e-11
    require(len(got) == n and (got > 3).all(), f"{got.argmin()} is chosen {got.min()} times")
    if case["method"] != "random_uniform":
        require((src * g // n == tgt * g // n).all(), "contacts between the groups")
    for b in np.unique(np.floor(np.array(sim.start_times))):
        # the contacts of one activation are with different individuals
        sel = np.floor(np.array(sim.start_times)) == b
        pairs = list(zip(src[sel], tgt[sel]))
        require(len(set(pairs)) == len(pairs), f"the same contact twice around {b}")
    return True


@st.composite
def bad_cases(draw):
    return {"what": draw(st.sampled_from(["id", "group", "dup", "high", "neg", "highgroup",
                                          "shape", "nofunc", "dist", "method", "scale"])),
            "n": draw(st.integers(2, 5)), "v": draw(st.integers(0, 3))}


def run_bad(case):
    """Inconsistent individuals or parameters are refused."""
    from flowstab.synth_temp_network import Distro, Individual, SynthTempNetwork
    n, w, v = case["n"], case["what"], case["v"]

    def inds(**kw):
        return [Individual(i, **kw) for i in range(n)]
    with ref.quiet():
        if w == "id":
            require_raises("ID that is not an integer", ValueError, Individual,
                           ["a", 1.5, None, "1"][v])
        elif w == "group":
            require_raises("group that is not an integer", ValueError, Individual, 1,
                           group=["a", 1.5, None, "1"][v])
        elif w == "dup":
            x = inds()
            x[-1] = Individual(min(v, n - 2))
            require_raises("two individuals with one ID", Exception, SynthTempNetwork, x)
        elif w == "high":
            x = inds()
            x[v % n] = Individual(n + v)
            require_raises("ID above N-1", ValueError, SynthTempNetwork, x)
        elif w == "neg":
            x = inds()
            x[v % n] = Individual(-1 - v)
            require_raises("negative ID", ValueError, SynthTempNetwork, x)
        elif w == "highgroup":
            x = inds()
            x[v % n] = Individual(v % n, group=2 + v)
            require_raises("group above Ngroups-1", ValueError, SynthTempNetwork, x)
        elif w == "shape":
            require_raises("shape of inter_group_probs", ValueError, SynthTempNetwork, inds(),
                           next_event_method="block_probs",
                           inter_group_probs=np.ones((2 + v, 2 + v)))
        elif w == "nofunc":
            require_raises("block_probs_mod without a function", ValueError,
                           SynthTempNetwork, inds(), next_event_method="block_probs_mod")
        elif w == "dist":
            require_raises("unknown distribution", NotImplementedError, Distro,
                           dist_type=["normal", "uniform", "x", "expo"][v])
        elif w == "method":
            s = SynthTempNetwork(inds(), next_event_method=["foo", "random", "", "block"][v])
            require_raises("unknown method", NotImplementedError, s.run)
        elif w == "scale":
            x = Individual(0, inter_distro_mod_func=lambda t: (1, 0),
                           activ_distro_mod_func=lambda t: (1, 0))
            require_raises("zero scale", ValueError, x.draw_inter_duration, float(v))
            require_raises("zero scale", ValueError, x.draw_activ_time, float(v))
    return True


PROPS = {
    "F23": ("F23: a simulation with three or more contacts; every frequency and refusal case.",
            [Sub("simulation", sim_cases, run_sim, 1500, 40000, 6),
             Sub("frequency", freq_cases, run_freq, 24, 400, 4),
             Sub("crowd", crowd_cases, run_crowd, 12, 120, 3),
             Sub("refused", bad_cases, run_bad, 150, 600, 1)],
            ["durations and waiting times are nearly deterministic (shift plus an exponential "
             "of scale 1e-9) in the exact comparison; frequencies within 7 standard "
             "deviations; one run per object; block_probs_mod gives normalised (or zero) "
             "rows"]),
}
