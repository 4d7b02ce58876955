"""Helpers for the Map properties: the reference model and reachable shapes."""

from __future__ import annotations

import enum
import functools
from fractions import Fraction

from expression import Error, Nothing, Ok, Some
from expression.collections import Map

# ---- the reference: an association list in ascending key order ---------------


def m_find(model, k):
    """(found, value): branches on the (symbolic) key."""
    for kk, v in model:
        if k == kk:
            return True, v
    return False, None


def m_add(model, k, v):
    out = []
    done = False
    for kk, vv in model:
        if not done:
            if k == kk:
                out.append((k, v))
                done = True
                continue
            if k < kk:
                out.append((k, v))
                done = True
        out.append((kk, vv))
    if not done:
        out.append((k, v))
    return out


def m_remove(model, k):
    return [(kk, v) for kk, v in model if not (k == kk)]


def m_change(model, k, f):
    found, v = m_find(model, k)
    r = f(Some(v) if found else Nothing)
    if r.tag == "some":
        return m_add(model, k, r.some)
    return m_remove(model, k) if found else list(model)


def items_of(m):
    """The bindings of a map, read through its public interface."""
    return [tuple(kv) for kv in m.to_list()]


# ---- shapes: histories that reach different internal shapes ------------------


class CK:
    """A concrete key that records which keys it is compared with."""

    log: list = []

    def __init__(self, v):
        self.v = v

    def _c(self, o, r):
        CK.log.append(o.v if self is CK.probe else self.v)
        return r

    probe = None

    def __lt__(self, o):
        return self._c(o, self.v < o.v)

    def __gt__(self, o):
        return self._c(o, self.v > o.v)

    def __le__(self, o):
        return self._c(o, self.v <= o.v)

    def __ge__(self, o):
        return self._c(o, self.v >= o.v)

    def __eq__(self, o):
        return isinstance(o, CK) and self._c(o, self.v == o.v)

    def __hash__(self):
        return hash(self.v)


def fingerprint(m, ks):
    """The comparisons made by lookups of every key and every gap, by rank."""
    ks = sorted(ks)
    rank = {k: i for i, k in enumerate(ks)}
    probes = []
    for i, k in enumerate(ks):
        probes.append(k - Fraction(1, 2) if i == 0 else (ks[i - 1] + k) / 2)
        probes.append(k)
    probes.append(ks[-1] + 1 if ks else Fraction(0))
    out = []
    for p in probes:
        CK.probe = CK(p)
        CK.log = []
        m.try_find(CK.probe)
        out.append(tuple(rank.get(v, -1) for v in CK.log))
    return len(ks), tuple(out)


@functools.lru_cache(None)
def shapes(nmax, depth, cap=10**9):
    """Histories (add/remove with concrete keys), one for each distinguishable shape."""
    start = (Map.empty(), frozenset(), ())
    seen = {}
    frontier = [start]
    seen[fingerprint(start[0], [])] = ()
    for _ in range(depth):
        nxt = []
        for m, ks, hist in frontier:
            sk = sorted(ks)
            gaps = [Fraction(0)] if not sk else (
                [sk[0] - 1] + [(a + b) / 2 for a, b in zip(sk, sk[1:])] + [sk[-1] + 1])
            moves = ([("add", g) for g in gaps] if len(sk) < nmax else []) + [("remove", k) for k in sk]
            for op, k in moves:
                if op == "add":
                    m2, ks2 = m.add(CK(k), k), ks | {k}
                else:
                    m2, ks2 = m.remove(CK(k)), ks - {k}
                fp = fingerprint(m2, ks2)
                if fp not in seen:
                    h2 = hist + ((op, k),)
                    seen[fp] = h2
                    nxt.append((m2, ks2, h2))
                    if len(seen) >= cap:
                        return list(seen.values())
        frontier = nxt
        if not frontier:
            break
    return list(seen.values())


def rebuild(ctx, hist, vspec="int"):
    """The map reached by a history, with symbolic ordered keys and symbolic values."""
    ks = sorted({k for _, k in hist})
    syms = ctx.ints("k", len(ks))
    for a, b in zip(syms, syms[1:]):
        ctx.assume(a < b)
    name = dict(zip(ks, syms))
    m = Map.empty()
    model = []
    order = {k: i for i, k in enumerate(ks)}
    live = {}
    for op, k in hist:
        if op == "add":
            v = ctx.value("v", vspec)
            m = m.add(name[k], v)
            live[k] = v
        else:
            m = m.remove(name[k])
            live.pop(k, None)
    model = [(name[k], live[k]) for k in sorted(live, key=order.get)]
    return m, model


class OnlyLess:
    """A key that has <, == and a hash, and nothing else."""

    def __init__(self, n):
        self.n = n

    def __lt__(self, other):
        return self.n < other.n

    def __eq__(self, other):
        return isinstance(other, OnlyLess) and self.n == other.n

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"OnlyLess({self.n})"


class Level(enum.IntEnum):
    low = 0
    high = 2


# keys in ascending order; maps of some of them, looked up by all of them
KEYS = {
    "close floats": [-1e-300, 0.0, 1e-300, 0.1, 0.3, 0.1 + 0.2, 0.5, 1.0, 1.0 + 2**-52, 1e16, 1e300, float("inf")],
    "numbers": [-2**70, -1.5, -1, 0, 0.5, 1, 2, 2**53, 2**53 + 1, float(2**53 + 2), 2**70, 2**70 + 1],
    "texts": ["", " ", "0", "A", "AA", "B", "a", "a ", "aa", "ab", "b", "\xe9"],
    "bytes": [b"", b"\0", b"a", b"aa", b"ab", b"b"],
    "tuples": [(), (0,), (0, 0), (0, 1), (0, 1, 5), (1,), (1, -1), (1, 0, 0), (2, "a"), (2, "b")],
    "options": [Nothing, Some(-1), Some(0), Some(1), Some(5)],
    "results": [Ok(-1), Ok(0), Ok(3), Error(-5), Error(0), Error(9)],
    "own": [OnlyLess(i) for i in range(8)],
    "enums": [-1, Level.low, 1, Level.high, 3, True + 3, 7],
    "fractions": [Fraction(1, i) for i in range(9, 0, -1)],
    "long texts": ["x" * 40 + c for c in "abcdefgh"],
}


def key_groups(ctx):
    """Keys in ascending order, and in an order in which to add them."""
    ks = KEYS[ctx.choose("keys", list(KEYS))]
    how = ctx.choose("order", ["up", "down", "mixed", "from the middle"])
    ks = list(ks)
    if how == "up":
        return ks, ks
    if how == "down":
        return ks, ks[::-1]
    if how == "mixed":
        return ks, ks[1::2] + ks[::2][::-1]
    m = len(ks) // 2
    return ks, ks[m:] + ks[:m][::-1]
