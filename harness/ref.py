"""Reference model: slow, dense, written from the documentation only."""
from __future__ import annotations

import math
import os

import numpy as np


def label_of(kind, i):
    return {"int": lambda: i, "gap": lambda: 7 * i + 3, "neg": lambda: 2 * i - 5,
            "str": lambda: f"n{i:02d}"}[kind]()


def tmap(case, x):
    """Time of grid position x."""
    s, o = case["scale"], case["off"]
    return o + x * s


def half(case, h):
    """Time of half grid position h (None stays None)."""
    if h is None:
        return None
    x = h // 2 if h % 2 == 0 else h / 2
    return tmap(case, x)


class RefNet:
    """Events -> times, adjacency per step, Laplacian per step."""

    def __init__(self, case):
        used = sorted({e[0] for e in case["ev"]} | {e[1] for e in case["ev"]})
        self.pos = {u: k for k, u in enumerate(used)}   # labels keep the order
        self.used = used
        self.m = len(used)
        self.inst = case.get("inst", False)
        starts = [tmap(case, e[2]) for e in case["ev"]]
        if self.inst:
            ut = sorted(set(starts))
            nxt = {t: (ut[k + 1] if k + 1 < len(ut) else t + 1) for k, t in enumerate(ut)}
            ends = [nxt[s] for s in starts]
        else:
            ends = [tmap(case, e[3]) for e in case["ev"]]
        self.ev = [(self.pos[e[0]], self.pos[e[1]], s, t)
                   for e, s, t in zip(case["ev"], starts, ends)]
        self.times = sorted(set(starts) | set(ends))
        self.span = self.times[-1] - self.times[0]

    def locate(self, t):
        """Index of the largest event time <= t, the first one if there is none."""
        k = 0
        for i, x in enumerate(self.times):
            if x <= t:
                k = i
        return k

    def window(self, t_start, t_stop):
        a = 0 if t_start is None else self.locate(t_start)
        b = len(self.times) - 1 if t_stop is None else self.locate(t_stop)
        return a, b

    def adjacency(self, k):
        t = self.times[k]
        A = np.zeros((self.m, self.m))
        for u, v, s, e in self.ev:
            if s <= t < e:
                A[u, v] = A[v, u] = 1.0
        return A

    def step(self, k):
        """One step random walk; a node without contacts stays."""
        A = self.adjacency(k)
        for i in range(self.m):
            if A[i].sum() == 0:
                A[i, i] = 1.0
        return A / A.sum(1, keepdims=True)

    def laplacian(self, k):
        return np.eye(self.m) - self.step(k)

    def tau(self, k, fixed=False):
        if fixed or self.inst:
            return 1.0
        return self.times[k + 1] - self.times[k]

    def inter(self, lam, a, b, fixed=False):
        """Inter-event transitions of the window; identity if it is empty."""
        if a >= b:
            return [np.eye(self.m)]
        return [expm_walk(self.step(k), lam * self.tau(k, fixed)) for k in range(a, b)]

    def stationary(self, k):
        """Transition at stationarity, per connected component."""
        A = self.adjacency(k)
        comp = components(A)
        deg = A.sum(1)
        Pi = np.zeros_like(A)
        for c in comp:
            if len(c) == 1:
                Pi[c[0], c[0]] = 1.0
                continue
            d = deg[c] / deg[c].sum()
            for i in c:
                Pi[i, c] = d
        return Pi

    def lin(self, lam, a, b, t_s, fixed=False):
        if a >= b:
            return [np.eye(self.m)]
        return [lin_walk(self.step(k), self.stationary(k), lam * self.tau(k, fixed), t_s)
                for k in range(a, b)]


def lin_walk(P, Pi, t, t_s):
    if t <= 1:
        return (1 - t) * np.eye(len(P)) + t * P
    if t < t_s:
        return (P * (t_s - t) + Pi * (t - 1)) / (t_s - 1)
    return Pi


def components(A):
    n = len(A)
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        comp, todo = [], [i]
        seen.add(i)
        while todo:
            u = todo.pop()
            comp.append(u)
            for v in range(n):
                if v not in seen and (A[u, v] != 0 or A[v, u] != 0):
                    seen.add(v)
                    todo.append(v)
        out.append(sorted(comp))
    return out


def expm_walk(P, a):
    """exp(-a (I - P)) of a stochastic P by uniformisation (only sums of
    non-negative terms)."""
    n = len(P)
    halvings = 0
    while a > 8:
        a /= 2
        halvings += 1
    out = np.zeros((n, n))
    term = np.eye(n) * math.exp(-a)
    k = 0
    while True:
        out += term
        k += 1
        term = term @ P * (a / k)
        if k > a and term.sum() < 1e-18:
            break
    for _ in range(halvings):
        out = out @ out
    return out / out.sum(1, keepdims=True)


def cumulative(mats, reverse=False):
    ms = list(reversed(mats)) if reverse else list(mats)
    out = [ms[0]]
    for M in ms[1:]:
        out.append(out[-1] @ M)
    return out


def autocov(T, p1, p2):
    return np.diag(p1) @ T - np.outer(p1, p2)


def flow_integral(T_list, taus, p1):
    """P1 (1/tau) sum_k dt_k T_k P(1/p_k) T_k^T P1 - p1 p1^T for the given
    cumulative transition matrices T_k, weights dt_k."""
    n = len(p1)
    out = np.zeros((n, n))
    for T, dt in zip(T_list, taus):
        p = p1 @ T
        out += dt * T @ np.diag(1 / p) @ T.T
    out = np.diag(p1) @ out @ np.diag(p1) / sum(taus)
    return out - np.outer(p1, p1)


# -------- construction of the real objects from a case -------------------

def columns(case):
    """source, target, start, end columns as given to the constructor."""
    evs = list(case["ev"])
    order = case.get("order", "sorted")
    if order == "reversed":
        evs = evs[::-1]
    elif order == "odd":
        evs = evs[1::2] + evs[0::2]
    kind = case.get("labels", "int")
    return ([label_of(kind, e[0]) for e in evs], [label_of(kind, e[1]) for e in evs],
            [tmap(case, e[2]) for e in evs], [tmap(case, e[3]) for e in evs])


class _Quiet:
    """Silence the prints of the code under test."""

    def __enter__(self):
        import sys
        self.old = sys.stdout
        self.f = open(os.devnull, "w")
        sys.stdout = self.f

    def __exit__(self, *a):
        import sys
        sys.stdout = self.old
        self.f.close()


quiet = _Quiet


def build_net(case, **kw):
    from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork
    s, t, a, b = columns(case)
    if case.get("inst"):
        return ContTempInstNetwork(source_nodes=s, target_nodes=t, starting_times=a, **kw)
    return ContTempNetwork(source_nodes=s, target_nodes=t, starting_times=a,
                           ending_times=b, **kw)
