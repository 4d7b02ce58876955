"""C28: Map operations cost at most proportionally to the logarithm of the number of bindings."""

from __future__ import annotations

import collections
import functools
import math
import sys

from expression import Nothing, Some
from expression.collections import Map
from expression.collections import map as map_module

from ..registry import grid, harness
from .maps import rebuild, shapes

P = "C28"
BOUNDS = (
    "Looking up, adding, changing or removing any key (symbolic) in: every shape reachable by histories of any length with "
    "at most 8 bindings (thorough: 10); maps of 64 (thorough: 40, 100 and 250) bindings built in ten orders and thinned "
    "out in eight, and what filter, map, partition and the constructors make of them; maps of 14 (thorough: 40) bindings "
    "after any 2 symbolic insertions or removals; any key near either end, the first quarter or the middle of maps of 4099 (thorough: 16411) "
    "bindings, built in three orders and also thinned; every periodic program of 3 (thorough: 4) steps that add or remove at "
    "the ends, in the middle or at the root, repeated 30 times. Bound: the key is compared with at most 2 log2(n+1) + 1 keys, at most eight "
    "times each, at a call depth of at most 12 frames for each, n being the most bindings the map has held."
)
OUTSIDE = "Larger maps, other histories of large maps; time spent other than in comparisons and calls."
ASSUMPTIONS = ["keys are totally ordered by <, consistently with == (documented requirement)"]


class K:
    """A key that records the keys it is compared with, and how deep in calls."""

    probe = None
    log: list = []
    depth = 0
    base = 0
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _c(self, o, r):
        if K.probe is not None:
            K.log.append(id(o) if self is K.probe else id(self))
            f, d = sys._getframe(2), 0
            while f is not None:
                d += 1
                f = f.f_back
            K.depth = max(K.depth, d - K.base)
        return r

    def __lt__(self, o):
        return self._c(o, self.v < o.v)

    def __gt__(self, o):
        return self._c(o, self.v > o.v)

    def __le__(self, o):
        return self._c(o, self.v <= o.v)

    def __ge__(self, o):
        return self._c(o, self.v >= o.v)

    def __eq__(self, o):
        return isinstance(o, K) and self._c(o, self.v == o.v)

    def __hash__(self):
        return 1


def levels(n):
    return int(2 * math.log2(n + 1) + 1)


def cost(ctx, k, f, n, label):
    """Run f, which handles the key k, and bound what it cost."""
    fr, d = sys._getframe(0), 0
    while fr is not None:
        d += 1
        fr = fr.f_back
    K.probe, K.log, K.depth, K.base = k, [], 0, d
    try:
        return f()
    finally:
        K.probe = None
        b = levels(n)
        ctx.check(len(set(K.log)) <= b, f"{label}: keys compared with", (len(set(K.log)), b, n))
        most = max(collections.Counter(K.log).values(), default=0)
        ctx.check(most <= 8, f"{label}: comparisons with one key", (most, 8, n))
        ctx.check(K.depth <= 12 * b + 20, f"{label}: call depth", (K.depth, 12 * b + 20, n))


def all_lookups(ctx, m, keys, n, label):
    for k in keys:
        cost(ctx, k, lambda: m.try_find(k), n, label)


LOOKUPS = {
    "try_find": lambda m, k: m.try_find(k),
    "in": lambda m, k: k in m,
    "contains_key": lambda m, k: m.contains_key(k),
    "module try_find": lambda m, k: map_module.try_find(k)(m),
    "module contains_key": lambda m, k: map_module.contains_key(k)(m),
}


def find(m, k):
    try:
        return m[k]
    except KeyError:
        return None


LOOKUPS["find"] = find

UPDATES = {
    "add": lambda m, k: m.add(k, 0),
    "remove": lambda m, k: m.remove(k),
    "change to": lambda m, k: m.change(k, lambda o: Some(1)),
    "change away": lambda m, k: m.change(k, lambda o: Nothing),
    "change back": lambda m, k: m.change(k, lambda o: o),
}


def permuted(order, n):
    r = list(range(n))
    if order == "up":
        return r
    if order == "down":
        return r[::-1]
    if order == "ends":  # 0, n-1, 1, n-2, ...
        return [r[i // 2] if i % 2 == 0 else r[n - 1 - i // 2] for i in range(n)]
    if order == "middle out":
        return permuted("ends", n)[::-1]
    if order == "odd after even":
        return r[::2] + r[1::2]
    if order == "even down, odd up":
        return r[::2][::-1] + r[1::2]
    if order == "halves":
        return [x for p in zip(r[: n // 2], r[n // 2:]) for x in p] + r[2 * (n // 2):]
    if order == "runs":
        return [x for i in range(0, n, 7) for x in r[i:i + 7][::-1]]
    if order == "runs, down":
        return [x for i in range(n - 1, -1, -5) for x in r[max(0, i - 4):i + 1]]
    return [x for x in range(n)] if math.gcd(order, n) != 1 else [(order * i) % n for i in range(n)]


ORDERS = ["up", "down", "ends", "middle out", "odd after even", "even down, odd up", "halves", "runs", "runs, down", 37]
THIN = ["none", "low half", "high half", "low, but few", "high, but few", "every other", "roots", "two of three"]


def root(m, keys):
    """The key at the root: the first one that a lookup compares with."""
    k = keys[0]
    K.probe, K.log = k, []
    m.try_find(k)
    K.probe = None
    ids = {id(x): x for x in keys}
    return next((ids[i] for i in K.log if i in ids), k)


@functools.lru_cache(None)
def built(order, thin, n):
    keys = [K(4 * i) for i in range(n)]
    m = Map.empty()
    for i in permuted(order, n):
        m = m.add(keys[i], i)
    live = list(keys)
    gone = {"none": [], "low half": keys[: n // 2], "high half": keys[n // 2:][::-1], "low, but few": keys[: n - 6],
            "high, but few": keys[6:][::-1], "every other": keys[::2], "two of three": [k for i, k in enumerate(keys) if i % 3]}
    if thin == "roots":
        for _ in range(n // 2):
            k = root(m, live)
            m = m.remove(k)
            live = [x for x in live if x is not k]
    else:
        for k in gone[thin]:
            m = m.remove(k)
        dropped = {id(k) for k in gone[thin]}
        live = [x for x in live if id(x) not in dropped]
    return m, live


@harness(P, quick=grid(order=ORDERS, n=[64]), thorough=grid(order=ORDERS, n=[40, 100, 250]), cost=3)
def any_key(ctx, order, n):
    """Any key, in maps with a long history."""
    thin = ctx.choose("thin", THIN)
    m, live = built(order, thin, n)
    all_lookups(ctx, m, live, n, "lookup")
    k = K(ctx.int("k"))
    first = True
    for name, f in LOOKUPS.items():
        cost(ctx, k, lambda: f(m, k), n, name)
    for name, f in UPDATES.items():
        m2 = cost(ctx, k, lambda: f(m, k), n, name)
        if first:
            all_lookups(ctx, m2, live[::3], n + 1, f"lookup after {name}")
            first = False


WINDOWS = ["low", "quarter", "middle", "high"]


@harness(P, quick=grid(order=["up", "down", 37], window=WINDOWS, n=[4099]),
         thorough=grid(order=["up", "down", 37, "ends"], window=WINDOWS, n=[4099, 16411]), cost=3)
def large(ctx, order, window, n):
    """Any key near the ends, the first quarter or the middle of a large map."""
    thin = ctx.choose("thin", ["none", "every other"])
    m, live = built(order, thin, n)
    at = {"low": -1, "quarter": n // 4, "middle": n // 2, "high": n - 4}[window]
    k = K(ctx.int("k"))
    ctx.assume(ctx.and_(k.v > 4 * at, k.v < 4 * (at + 5)))
    for name, f in {**LOOKUPS, **UPDATES}.items():
        m2 = cost(ctx, k, lambda: f(m, k), n, name)
        if name in UPDATES:
            all_lookups(ctx, m2, live[:: len(live) // 8], n + 1, f"lookup after {name}")


@harness(P, quick=grid(order=ORDERS, n=[60]), thorough=grid(order=ORDERS, n=[60, 250]), cost=2)
def derived(ctx, order, n):
    """Maps made by other operations."""
    m, live = built(order, "none", n)
    how = ctx.choose("how", ["filter", "filter few", "map", "partition", "of_seq", "of_list", "of_block", "change", "module of_seq", "module of_list"])
    pairs = [(live[i], i) for i in permuted(order, n)]
    r = {
        "filter": lambda: m.filter(lambda k, v: v % 3),
        "filter few": lambda: m.filter(lambda k, v: v > n - 9),
        "map": lambda: m.map(lambda k, v: v + 1),
        "partition": lambda: m.partition(lambda k, v: v % 2 == 0)[0],
        "of_seq": lambda: Map.of_seq(iter(pairs)),
        "of_list": lambda: Map.of_list(pairs),
        "of_block": lambda: Map.of_block(m.to_list()),
        "change": lambda: functools.reduce(lambda a, p: a.change(p[0], lambda o: Some(p[1])), pairs, Map.empty()),
        "module of_seq": lambda: map_module.of_seq(pairs),
        "module of_list": lambda: map_module.of_list(pairs),
    }[how]()
    k = K(ctx.int("k"))
    cost(ctx, k, lambda: r.try_find(k), n, f"try_find after {how}")
    m2 = cost(ctx, k, lambda: r.add(k, 0), n, f"add after {how}")
    cost(ctx, k, lambda: r.remove(k), n, f"remove after {how}")
    all_lookups(ctx, m2, live[::5], n + 1, f"lookup after {how} and add")


@harness(P, quick=grid(order=["up", "ends", 37], n=[14]), thorough=grid(order=ORDERS, n=[40]), cost=4)
def two_updates(ctx, order, n):
    """Any two insertions or removals in a row."""
    thin = ctx.choose("thin", ["none", "roots", "low half"])
    m, live = built(order, thin, n)
    live = list(live)
    for i in range(2):
        k = K(ctx.int(f"k{i}"))
        op = ctx.choose(f"op{i}", ["add", "remove"])
        m = cost(ctx, k, lambda: UPDATES[op](m, k), n + i, op)
    all_lookups(ctx, m, live, n + 2, "lookup after two updates")


@functools.lru_cache(None)
def closure(n):
    return shapes(n, 60)


@harness(P, quick=grid(part=list(range(8)), n=[8]), thorough=grid(part=list(range(24)), n=[10]), cost=4)
def small(ctx, part, n):
    """Every shape that histories of any length reach with few bindings, and any key."""
    every = closure(n)
    step = 8 if n == 8 else 24
    hist = ctx.choose("shape", every[part::step])
    m = Map.empty()
    live = {}
    rank = {x: 2 * i for i, x in enumerate(sorted({x for _, x in hist}))}
    for op, x in hist:
        if op == "add":
            live[x] = K(rank[x])
            m = m.add(live[x], 0)
        else:
            m = m.remove(live.pop(x))
    k = K(ctx.int("k"))
    all_lookups(ctx, m, list(live.values()), n, "lookup")
    cost(ctx, k, lambda: m.try_find(k), n, "try_find")
    for op in ("add", "remove"):
        cost(ctx, k, lambda: UPDATES[op](m, k), n, op)


STEPS = ["add low", "add high", "add middle", "add at root", "remove low", "remove high", "remove middle", "remove root",
         "map all", "filter all", "change to high", "change away low", "replace low"]


@harness(P, quick=grid(first=STEPS, size=[0, 24], r=[30]), thorough=grid(first=STEPS, size=[0, 24, 100], r=[60]), cost=4)
def programs(ctx, first, size, r):
    """Periodic histories: the same few steps again and again."""
    prog = [first, ctx.choose("s1", STEPS), ctx.choose("s2", STEPS)]
    m, live = built_up(size)
    most = len(live)
    for _ in range(r):
        for s in prog:
            m, live = do_step(s, m, live)
            most = max(most, len(live))
    all_lookups(ctx, m, live, most, "lookup after a periodic history")


@functools.lru_cache(None)
def built_up(size):
    live, m = [], Map.empty()
    for i in range(size):
        k = K(i * (1 << 70))
        m = m.add(k, 0)
        live.append(k)
    return m, live


def do_step(s, m, live):
    where = s.split()[-1]
    if s == "map all":
        return m.map(lambda k, v: v), live
    if s == "filter all":
        return m.filter(lambda k, v: True), live
    if s == "replace low":
        return (m.add(live[0], 1) if live else m), live
    if s == "change to high":
        k = K(live[-1].v + (1 << 70) if live else 0)
        return m.change(k, lambda o: Some(0)), live + [k]
    if s == "change away low":
        return (m.change(live[0], lambda o: Nothing) if live else m), live[1:]
    if s.startswith("remove"):
        if not live:
            return m, live
        k = (live[0] if where == "low" else live[-1] if where == "high" else live[len(live) // 2] if where == "middle"
             else root(m, live))
        return m.remove(k), [x for x in live if x is not k]
    if not live:
        v = 0
        i = 0
    elif where == "low":
        v, i = live[0].v - (1 << 70), 0
    elif where == "high":
        v, i = live[-1].v + (1 << 70), len(live)
    else:
        i = len(live) // 2 if where == "middle" else next(j for j, x in enumerate(live) if x is root(m, live))
        if i == 0:
            v = live[0].v - (1 << 70)
        else:
            v = (live[i - 1].v + live[i].v) // 2
            if v == live[i - 1].v:
                return m, live
    k = K(v)
    return m.add(k, 0), live[:i] + [k] + live[i:]
