"""C03: equality and hash of maps."""

from __future__ import annotations

import decimal
import fractions

from expression import Error, Nothing, Ok, Some
from expression.collections import Block, Map

from ..registry import grid, harness
from . import generic, odd
from .common import iff
from .maps import key_groups, m_add, rebuild, shapes

P = "C03"
BOUNDS = (
    "Pairs of maps of up to 3 (thorough: 4) bindings each, in any insertion order, unconstrained symbolic keys "
    "and values; pairs of any two reachable shapes of up to 5 (thorough: 6) keys with the same or different "
    "bindings; values with arbitrary equality and hash (collisions included). Keys and values of mixed and near-"
    "equal types; maps of 1000 bindings that differ in one; values whose own comparison or hash raises."
)
OUTSIDE = "Unhashable values (hash raises TypeError); symbolic maps of more bindings."
ASSUMPTIONS = ["keys are totally ordered by <, consistently with == and hash (documented requirement)"]


def build(ctx, name, n, vspec="int"):
    ps = [(ctx.int(f"{name}k"), ctx.value(f"{name}v", vspec)) for _ in range(n)]
    m = Map.empty()
    model = []
    for k, v in ps:
        m = m.add(k, v)
        model = m_add(model, k, v)
    return m, model


@harness(P, quick=grid(n=[0, 1, 2, 3], m=[0, 1, 2, 3]), thorough=grid(n=range(5), m=range(5)), cost=3)
def pairs(ctx, n, m):
    a, ma = build(ctx, "a", n)
    b, mb = build(ctx, "b", m)
    e = ctx.eq(ma, mb)
    iff(ctx, a == b, e, "== holds exactly for the same bindings")
    iff(ctx, b == a, e, "== is symmetric")
    iff(ctx, a != b, ctx.not_(e), "!= is the opposite of ==")
    if ctx.holds(e):
        ctx.check(hash(a) == hash(b), "equal maps have equal hashes")


NP = 6


@harness(P, quick=grid(part=range(NP), n=[5]), thorough=grid(part=range(NP), n=[6]), cost=4)
def same_bindings_any_shape(ctx, part, n):
    """The same bindings reached by two different histories."""
    ctx.syntactic_hash = True
    hs = shapes(n, n + 3)
    a, ma = rebuild(ctx, ctx.choose("shape", hs[part::NP]))
    b = Map.empty()
    order = ctx.choose("order", ["up", "down"])
    for k, v in ma if order == "up" else ma[::-1]:
        b = b.add(k, v)
    iff(ctx, a == b, True, "equal bindings, different histories")
    iff(ctx, b == a, True, "equal bindings, different histories (swapped)")
    ctx.check(hash(a) == hash(b), "equal maps have equal hashes, different histories")
    if ma:
        i = ctx.size("i", 0, len(ma) - 1)
        w = ctx.int("w")
        c = b.add(ma[i][0], w)
        iff(ctx, a == c, w == ma[i][1], "maps that differ in one value")
        d = b.remove(ma[i][0])
        iff(ctx, a == d, False, "a map with one binding more")
        iff(ctx, d == a, False, "a map with one binding less")


@harness(P)
def reflexive_and_foreign(ctx):
    a, ma = build(ctx, "a", 2, "val")
    iff(ctx, a == a, True, "reflexive")
    for other in (None, 1, "x", [], dict(ma), ma):
        iff(ctx, a == other, False, "a map is not equal to something else")


class Caseless(str):
    """Equal whatever the case, and hashed accordingly."""

    def __eq__(self, other):
        return self.lower() == str(other).lower()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.lower())


NAN = float("nan")
VALUES = [
    0, False, 0.0, -0.0, decimal.Decimal(0), 1, True, 1.0, fractions.Fraction(1), odd.Sub(1), 2**60, 2**60 + 1, float(2**60), NAN, float("nan"), None, "", "0",
    "a", Caseless("A"), b"", b"a", (), (0,), (False,), (None,), [], [0], {}, set(), frozenset(), frozenset([0]), Some(0), Some(False), Some(None), Nothing,
    Ok(0), Ok(None), Error(0), Block.empty(), Block.of(0), Map.empty(), Map.of(a=0), odd.NeverEqual(), int, ValueError("x"), -1, -2,
]


@harness(P)
def values_of_every_kind(ctx):
    """Maps with a value of any kind each are equal exactly if the values are, and then have the same hash."""
    v, w = VALUES[ctx.size("v", 0, len(VALUES) - 1)], VALUES[ctx.size("w", 0, len(VALUES) - 1)]
    others = ctx.choose("others", [[], [0], [2], [0, 2], [0, 3, 4, 5]])
    a = Map.of_seq([(1, v), *((k, k) for k in others)])
    b = Map.of_seq([*((k, k) for k in others), (1, w)])
    e = v is w or bool(v == w)
    ctx.check(bool(a == b) is e, "== follows the values", (v, w))
    ctx.check(bool(b == a) is e, "== follows the values (swapped)", (v, w))
    ctx.check(bool(a != b) is not e, "!= follows the values", (v, w))
    if e:
        h = [outcome(lambda: hash(v)), outcome(lambda: hash(w))]
        if h[0] == h[1] and h[0][0] == "ok":
            ctx.check(hash(a) == hash(b), "equal maps have equal hashes", (v, w))


KEYS = [0, 1, 2, -1, -2, 2**61 - 1, 2**61, 2**62, True, False, 1.0, 0.5, -0.0, odd.Sub(1), odd.Sub(2)]


@harness(P)
def keys_of_every_kind(ctx):
    """Keys that are equal are the same key whatever their type."""
    k, q = KEYS[ctx.size("k", 0, len(KEYS) - 1)], KEYS[ctx.size("q", 0, len(KEYS) - 1)]
    others = ctx.choose("others", [[], [7], [-9], [-9, 7, 8]])
    a = Map.of_seq([(k, "v"), *((x, x) for x in others)])
    b = Map.of_seq([*((x, x) for x in others), (q, "v")])
    e = k == q
    ctx.check(bool(a == b) is e and bool(b == a) is e and bool(a != b) is not e, "== follows the keys", (k, q))
    if e:
        ctx.check(hash(a) == hash(b), "equal maps have equal hashes", (k, q))


@harness(P)
def sizes_apart(ctx):
    """A map is never equal to one with more bindings, whatever these bind."""
    v = VALUES[ctx.size("v", 0, len(VALUES) - 1)]
    n = ctx.choose("n", [0, 1, 2, 5, 20])
    extra = ctx.choose("extra", [-1, 100])
    a = Map.of_seq((i, i) for i in range(n))
    b = a.add(extra, v)
    ctx.check(not a == b and not b == a and a != b and b != a, "maps of different sizes", (n, v))
    ctx.check(bool(b.remove(extra) == a), "equal again", (n, v))


def outcome(f):
    try:
        return ("ok", f())
    except TypeError:
        return ("raise", None)


@harness(P)
def opaque_values(ctx):
    """Values with their own equality and (possibly colliding) hash."""
    k = ctx.int("k")
    v, w = ctx.value("v", "opaque"), ctx.value("w", "opaque")
    a, b = Map.empty().add(k, v), Map.empty().add(k, w)
    e = ctx.eq(v, w)
    iff(ctx, a == b, e, "== follows the equality of the values")
    if ctx.holds(e):
        ctx.check(hash(a) == hash(b), "equal maps have equal hashes")


@harness(P, quick=[dict(n=n) for n in (40, 150)], thorough=[dict(n=n) for n in (40, 150, 600)])
def one_of_many(ctx, n):
    """Long maps which differ in one binding only."""
    i = ctx.size("which", 0, n - 1)
    x = ctx.int("x")
    a = Map.of_seq((j, j) for j in range(n))
    b = Map.of_seq((j, j if j != i else x) for j in reversed(range(n)))
    e = ctx.eq(x, i)
    iff(ctx, a == b, e, "== holds exactly for the same bindings")
    iff(ctx, b == a, e, "== is symmetric")
    iff(ctx, a != b, ctx.not_(e), "!= is the opposite of ==")
    ctx.check(hash(a) == hash(b.add(i, i)), "equal maps have equal hashes")
    c = Map.of_seq((2 * j if j != i else 2 * j + 1, j) for j in range(n))
    d = Map.of_seq((2 * j, j) for j in range(n))
    ctx.check(c != d and d != c and not c == d, "not equal: one key differs")
    ctx.check(c.remove(2 * i + 1) == d.remove(2 * i), "equal without it")
    ctx.check(hash(c.remove(2 * i + 1)) == hash(d.remove(2 * i)), "equal hashes without it")


@harness(P)
def any_key(ctx):
    """Keys of every ordered type: the order of insertion does not show, one other key does."""
    ks, order = key_groups(ctx)
    i, j = ctx.size("left out", 0, len(ks) - 1), ctx.size("left out of the other", 0, len(ks) - 1)
    a = Map.of_seq((k, 1) for k in order if k != ks[i])
    b = Map.of_seq((k, 1) for k in ks if k != ks[j])
    ctx.check((a == b) is (i == j) and (b == a) is (i == j) and (a != b) is (i != j), "== holds exactly for the same keys", (ks[i], ks[j]))
    if i == j:
        ctx.check(hash(a) == hash(b), "equal maps have equal hashes")
    ctx.check(a.add(ks[i], 2) != b.add(ks[j], 1), "another value")
    ctx.check(a.add(ks[i], 1) == b.add(ks[j], 1) and hash(a.add(ks[i], 1)) == hash(b.add(ks[j], 1)), "all of the keys")


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    def of(v):
        return Map.of_seq([(1, v)])

    generic.touchy(ctx, {
        "==": lambda t: of(t()) == of(t()), "!=": lambda t: of(t()) != of(t()), "== of nested values": lambda t: of((1, t())) == of((1, t())), "hash": lambda t: hash(of(t())),
        "== of the last of several": lambda t: Map.of_seq([(1, 1), (2, 2), (3, t())]) == Map.of_seq([(1, 1), (2, 2), (3, t())]),
    })
    generic.refuses(ctx, {"hash of a list": lambda: hash(of([])), "hash of a dict": lambda: hash(of({})), "hash of a list among others": lambda: hash(Map.of_seq([(1, 1), (2, []), (3, 1)]))})
