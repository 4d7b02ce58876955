"""C01: a Map is a finite map, whatever the history of updates."""

from __future__ import annotations

from expression import Nothing, Some
from expression.collections import Block, Map, Seq, TypedArray
from expression.collections import map as map_module

from ..registry import grid, harness
from . import generic, odd
from .c08 import Falsy, OldStyle, Unsized
from .common import iff
from .maps import items_of, key_groups, m_add, m_change, m_find, m_remove, rebuild, shapes

P = "C01"
BOUNDS = (
    "Histories of up to 4 operations (thorough: 5) from the empty map, all keys unconstrained symbolic ints, "
    "values ints or None, change functions uninterpreted; every distinguishable tree shape reachable with up to 7"
    " (thorough: 8) keys by add/remove, followed by one operation with a symbolic key; maps of 9 to 40 keys "
    "(thorough: up to 130) built in several orders followed by one symbolic operation and one symbolic lookup; "
    "maps created from a sequence of 3000 elements. Concretely, beyond the symbolic histories: keys and values of"
    " about 60 kinds (library values, objects with odd equality or truth included), maps of up to 3000 bindings, "
    "sources of every kind, keys whose comparison raises."
)
OUTSIDE = "Longer symbolic histories; key types whose comparison is not a total order; threads."
ASSUMPTIONS = ["keys are totally ordered by <, consistently with == and hash (documented requirement)"]


def lookups(ctx, m, model, q):
    """Every way of looking a key up agrees with the model."""
    found, v = m_find(model, q)
    ctx.same(m.try_find(q), Some(v) if found else Nothing, "try_find")
    ctx.same(m.contains_key(q), found, "contains_key")
    ctx.same(q in m, found, "in")
    ctx.same(m.get(q), v if found else None, "get")
    ctx.same(m.get(q, "default"), v if found else "default", "get with default")
    out = []
    ctx.same(bool(m.try_get_value(q, out)), found, "try_get_value")
    ctx.same(out, [v] if found else [], "try_get_value, output")
    ctx.same(map_module.try_find(q)(m), Some(v) if found else Nothing, "map.try_find")
    ctx.same(map_module.contains_key(q)(m), found, "map.contains_key")
    if found:
        ctx.same(m[q], v, "[]")
        ctx.same(map_module.find(q)(m), v, "map.find")
    else:
        ctx.raises(KeyError, lambda: m[q], "[] of a missing key")
        ctx.raises(KeyError, lambda: map_module.find(q)(m), "map.find of a missing key")


def sizes(ctx, m, model):
    ctx.same(len(m), len(model), "len")
    ctx.same(m.is_empty(), not model, "is_empty")
    ctx.same(bool(m), bool(model), "bool")
    ctx.same(map_module.count(m), len(model), "map.count")
    ctx.same(map_module.is_empty(m), not model, "map.is_empty")


def listings(ctx, m, model, hashed):
    """Iteration and every conversion list the bindings in key order (hashed: the keys are concrete)."""
    ctx.same(items_of(m), model, "to_list")
    ctx.same(list(m), [k for k, _ in model], "iteration")
    ctx.same(list(m.to_seq()), model, "to_seq")
    ctx.same(list(m.keys()), [k for k, _ in model], "keys")
    ctx.same(list(map_module.to_seq(m)), model, "map.to_seq")
    ctx.same(list(map_module.to_list(m)), model, "map.to_list")
    if hashed:
        ctx.same([tuple(kv) for kv in m.items()], model, "items")
        ctx.same(list(m.values()), [v for _, v in model], "values")
        ctx.same(dict(m), dict(model), "dict")


def step(ctx, m, model, op, vspec="int"):
    k = ctx.int("k")
    if op == "add":
        v = ctx.value("v", vspec)
        return m.add(k, v), m_add(model, k, v), k
    if op == "madd":
        v = ctx.value("v", vspec)
        return map_module.add(k, v)(m), m_add(model, k, v), k
    if op == "remove":
        return m.remove(k), m_remove(model, k), k
    if op == "mremove":
        return map_module.remove(k)(m), m_remove(model, k), k
    f = ctx.fun("f", ("option", vspec))
    if op == "change":
        return m.change(k, f), m_change(model, k, f), k
    return map_module.change(k, f)(m), m_change(model, k, f), k


OPS = ["add", "remove", "change"]


def hist(n, ops=OPS):
    """All sequences of n operation kinds that begin with an add."""
    out = [("add",)]
    for _ in range(n - 1):
        out = [h + (o,) for h in out for o in ops]
    return [dict(ops=h) for h in out]


@harness(P, quick=hist(1) + hist(2) + hist(3) + [dict(ops=x) for x in (
    ("remove",), ("change",), ("mremove",), ("mchange",), ("madd", "mremove"), ("madd", "mchange"), ("madd", "add", "mremove"), ("madd", "add", "mchange"))], cost=1)
def history_with_probe(ctx, ops):
    """A symbolic history, then a symbolic lookup."""
    m, model = Map.empty(), []
    for i, op in enumerate(ops):
        m, model, _ = step(ctx, m, model, op)
    ctx.same(items_of(m), model, "bindings after the history")
    sizes(ctx, m, model)
    lookups(ctx, m, model, ctx.int("q"))


@harness(P, quick=hist(4), thorough=hist(4) + hist(5), cost=5)
def history(ctx, ops):
    m, model = Map.empty(), []
    for op in ops:
        m, model, _ = step(ctx, m, model, op)
    ctx.same(items_of(m), model, "bindings after the history")
    ctx.same(len(m), len(model), "len")


@harness(P, quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], cost=3)
def none_values(ctx, n):
    """None is a value like any other."""
    m, model = Map.empty(), []
    for _ in range(n):
        m, model, _ = step(ctx, m, model, ctx.choose("op", ["add", "remove", "change"]), "val")
    lookups(ctx, m, model, ctx.int("q"))
    sizes(ctx, m, model)


NSHAPE = 8


@harness(P, quick=grid(part=range(NSHAPE), n=[7], ops=[("add", "remove", "change")]),
         thorough=grid(part=range(NSHAPE), n=[8], ops=[("add", "remove", "change", "madd", "mremove", "mchange")]),
         cost=9)
def one_step(ctx, part, n, ops):
    """From every reachable shape, one operation with any key: bindings and lookups."""
    hs = shapes(n, n + 3)
    h = ctx.choose("shape", hs[part::NSHAPE])
    op = ctx.choose("op", ops)
    m, model = rebuild(ctx, h)
    m2, model2, k = step(ctx, m, model, op)
    ctx.same(items_of(m2), model2, f"bindings after {op}")
    ctx.same(len(m2), len(model2), "len")
    found, v = m_find(model2, k)
    ctx.same(m2.try_find(k), Some(v) if found else Nothing, "lookup of the key operated on")
    ctx.same(m2.contains_key(k), found, "contains_key of the key operated on")
    for kk, vv in model2:
        ctx.same(m2.try_find(kk), Some(vv), "lookup of every binding")
        ctx.same(bool(m2.contains_key(kk)), True, "contains_key of every binding")


@harness(P, quick=grid(part=range(NSHAPE), n=[7]), thorough=grid(part=range(NSHAPE), n=[8]), cost=3)
def lookup_any(ctx, part, n):
    hs = shapes(n, n + 3)
    m, model = rebuild(ctx, ctx.choose("shape", hs[part::NSHAPE]))
    lookups(ctx, m, model, ctx.int("q"))
    sizes(ctx, m, model)


def orders(n):
    up = list(range(n))
    zig = [x for p in zip(up, reversed(up)) for x in p][:n]
    mid = sorted(up, key=lambda i: (bin(i)[::-1], i))
    return {"up": up, "down": up[::-1], "zigzag": list(dict.fromkeys(zig)), "bits": mid}


BIG = grid(n=[9, 17, 40], order=["up", "down", "zigzag", "bits"], op=["add", "remove", "change"])


@harness(P, quick=BIG, thorough=BIG + grid(n=[65, 130], order=["up", "down", "zigzag", "bits"],
                                           op=["add", "remove", "change"]), cost=4)
def large(ctx, n, order, op):
    """Maps of many concrete keys: one operation and one lookup with any keys."""
    model = []
    vs = {}
    m = Map.empty()
    for i in orders(n)[order]:
        vs[i] = ctx.int("v")
        m = m.add(2 * i, vs[i])
    model = [(2 * i, vs[i]) for i in range(n)]
    listings(ctx, m, model, True)
    m2, model2, k = step(ctx, m, model, op)
    ctx.same(items_of(m2), model2, f"bindings after {op}")
    ctx.same(len(m2), len(model2), "len")
    found, v = m_find(model2, k)
    ctx.same(m2.try_find(k), Some(v) if found else Nothing, "lookup of the key operated on")
    ctx.same([m2.try_find(kk) for kk, _ in model2], [Some(v) for _, v in model2], "lookup of every binding")
    ctx.check(all(m2.contains_key(kk) for kk, _ in model2), "contains_key of every binding")


@harness(P, quick=grid(n=[17, 40], order=["up", "bits"]), thorough=grid(n=[17, 40, 130], order=["up", "down", "bits"]))
def removals(ctx, n, order):
    """A map of many keys, then a run of removals, then any lookup."""
    m = Map.empty()
    vs = [ctx.int("v") for _ in range(n)]
    for i in orders(n)[order]:
        m = m.add(2 * i, vs[i])
    gone = set()
    start = ctx.size("start", 0, 3)
    stride = ctx.size("stride", 1, 3)
    for i in range(start, n, stride):
        m = m.remove(2 * i)
        gone.add(i)
    model = [(2 * i, vs[i]) for i in range(n) if i not in gone]
    listings(ctx, m, model, True)
    q = ctx.int("q")
    found, v = m_find(model, q)
    ctx.same(m.try_find(q), Some(v) if found else Nothing, "lookup after the removals")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=5)
def creation(ctx, n):
    """Every way of creating a map from pairs: the last binding of a key wins."""
    ps = [(ctx.int("k"), ctx.int("v")) for _ in range(ctx.size("n", 0, n))]
    model = []
    for k, v in ps:
        model = m_add(model, k, v)
    how = ctx.choose("how", [
        lambda: Map.of_seq(ps), lambda: Map.of_seq(p for p in ps), lambda: Map.create(iter(ps)),
        lambda: Map.of_list(list(ps)), lambda: Map.of_block(Block(ps)), lambda: map_module.of_seq(ps),
        lambda: map_module.of_list(list(ps)), lambda: map_module.of_block(Block(ps)), lambda: map_module.create(ps),
    ])
    m = how()
    listings(ctx, m, model, False)
    ctx.same(len(m), len(model), "len")


@harness(P)
def creation_by_name(ctx):
    a, b, c = ctx.ints("v", 3)
    for m in (Map.of(b=b, a=a, c=c), map_module.of(c=c, b=b, a=a)):
        listings(ctx, m, [("a", a), ("b", b), ("c", c)], True)
        ctx.same(m["b"], b, "Map.of, lookup")


@harness(P, quick=grid(n=[3000], how=["of_seq", "of_list", "of_block", "create"]), validations=1)
def creation_long(ctx, n, how):
    """Creation from a long sequence."""
    v = ctx.int("v")
    ps = [((i * 7919) % n, v + i) for i in range(n)]
    m = {"of_seq": Map.of_seq, "of_list": Map.of_list, "create": Map.create,
         "of_block": lambda x: Map.of_block(Block(x))}[how](ps)
    ctx.same(len(m), n, "len of a large map")
    ctx.same(list(m), list(range(n)), "iteration of a large map")
    ctx.same([k for k, _ in m.items()], list(range(n)), "items of a large map")
    q = ctx.int("q", -1, 6)
    want = {k: x for k, x in ps}
    for i in range(-1, 7):
        if q == i:
            ctx.same(m.try_find(q), Some(want[i]) if i in want else Nothing, "lookup in a large map")


def pattern(name, n):
    """The keys of a sequence of n bindings."""
    return {
        "up, twice each": [i // 2 for i in range(n)],
        "up, the last again": [*range(n - 1), n - 2],
        "up, the first again": [*range(n - 1), 0],
        "up, one in the middle again": [*range(n // 2), *range(n // 2 - 1, n - 1)],
        "down, twice each": [(n - i) // 2 for i in range(n)],
        "all the same": [7] * n,
        "two": [i % 2 for i in range(n)],
        "up and down": [*range(n // 2), *range(n // 2 - 1, -1, -1)],
        "up, then up again": [i % (n // 2) for i in range(n)],
        "scattered": [(i * i * 31) % n for i in range(n)],
    }[name]


PATTERNS = ["up, twice each", "up, the last again", "up, the first again", "up, one in the middle again", "down, twice each",
            "all the same", "two", "up and down", "up, then up again", "scattered"]
CREATE = {
    "Map.of_seq": Map.of_seq, "Map.create": Map.create, "Map.of_list": Map.of_list, "map.of_seq": map_module.of_seq, "map.create": map_module.create,
    "map.of_list": map_module.of_list, "Map.of_seq(generator)": lambda ps: Map.of_seq(p for p in ps),
    "Map.of_block": lambda ps: Map.of_block(Block(ps)), "map.of_block": lambda ps: map_module.of_block(Block(ps)),
}


@harness(P, quick=grid(how=list(CREATE)))
def creation_patterns(ctx, how):
    """Sequences of any length up to 300, sorted or not, with repeated keys: the last binding wins."""
    n = ctx.choose("n", [4, 9, 20, 33, 70, 140, 300])
    ks = pattern(ctx.choose("pattern", PATTERNS), n)
    v = ctx.int("v")
    ps = [(k, v + i) for i, k in enumerate(ks)]
    want = sorted(dict(ps).items(), key=lambda p: p[0])
    m = CREATE[how](list(ps))
    ctx.same(items_of(m), want, "bindings of a map created from a sequence")
    ctx.same(len(m), len(want), "size of a map created from a sequence")
    k = ks[-1]
    ctx.same(m.try_find(k), Some(dict(ps)[k]), "the last binding")
    ctx.same(items_of(m.remove(k)), [p for p in want if p[0] != k], "without the last key")


@harness(P)
def any_payload(ctx):
    """Elements of every kind pass through as they are."""
    generic.compare(ctx, generic.map_cases(*generic.elements(ctx)), generic.C01_OPS)


@harness(P, quick=grid(n=[3000]), path_timeout=120.0, cost=3)
def very_long(ctx, n):
    """Collections of thousands of elements."""
    generic.compare(ctx, generic.map_cases(*generic.very_long(n)), generic.C01_OPS, skip=generic.SLOW)


@harness(P)
def any_payload_among_many(ctx):
    """Elements of every kind in long collections."""
    generic.compare(ctx, generic.map_cases(*generic.many(ctx)), generic.C01_OPS)


@harness(P)
def any_source(ctx):
    """Maps made of iterables of every kind."""
    k, v = ctx.int("k"), ctx.int("v")
    ps = [(3, 1), (1, 2), (k, v), (2, 4)]
    model = []
    for a, b in ps:
        model = m_add(model, a, b)
    make = ctx.choose("source", [lambda: ps, lambda: tuple(ps), lambda: iter(ps), lambda: (p for p in ps), lambda: Seq(ps), lambda: Falsy(ps),
                                 lambda: Unsized(ps), lambda: OldStyle(ps), lambda: dict(enumerate(ps)).values(), lambda: Block(ps),
                                 lambda: zip([p[0] for p in ps], [p[1] for p in ps]), lambda: TypedArray(ps), lambda: reversed(ps[::-1])])
    how = ctx.choose("how", [Map.of_seq, Map.create, map_module.of_seq, map_module.create])
    m = how(make())
    listings(ctx, m, model, False)
    ctx.same(len(m), len(model), "len")


@harness(P)
def any_key(ctx):
    """Keys of every ordered type."""
    ks, order = key_groups(ctx)
    out = ctx.size("left out", 0, len(ks))
    x = ctx.int("x")
    m, model = Map.empty(), []
    for i, k in enumerate(order):
        if out == len(ks) or k != ks[out]:
            m, model = m.add(k, x if i % 3 else i), [*model, (k, x if i % 3 else i)]
    rank = {k: i for i, k in enumerate(ks)}
    model.sort(key=lambda kv: rank[kv[0]])
    listings(ctx, m, model, True)
    for k in ks:
        lookups(ctx, m, model, k)
        other = m.remove(k)
        ctx.same(items_of(other), [kv for kv in model if kv[0] != k], "remove")
        other = m.add(k, "new")
        want = sorted([kv for kv in model if kv[0] != k] + [(k, "new")], key=lambda kv: rank[kv[0]])
        ctx.same(items_of(other), want, "add")
        ctx.same(items_of(m.change(k, lambda o: Some("new"))), want, "change")
        ctx.same(items_of(m.change(k, lambda o: Nothing)), [kv for kv in model if kv[0] != k], "change, to nothing")
    ctx.same(items_of(Map.of_seq([*model, *model[::-1]])), model, "of_seq")


@harness(P)
def keys_raise(ctx):
    """Exceptions of comparing keys reach the caller, wherever keys have to be compared; the map is left alone."""
    e = ctx.choose("e", generic.TROUBLE)("trouble")
    armed = [False]
    key = lambda n: generic.Touchy(e, n, armed)  # noqa: E731
    n = ctx.size("n", 1, 4)
    at = ctx.size("at", 0, n)
    m = Map.of_seq([(key(i), i) for i in range(n)])
    before = [(k.n, v) for k, v in m.to_list()]
    k = key(at)
    for label, run in {
        "find": lambda: m[k], "try_find": lambda: m.try_find(k), "contains_key": lambda: m.contains_key(k), "in": lambda: k in m, "add": lambda: m.add(k, 9), "remove": lambda: m.remove(k),
        "change": lambda: m.change(k, lambda o: o), "map.find": lambda: map_module.find(k)(m), "map.try_find": lambda: map_module.try_find(k)(m), "map.add": lambda: map_module.add(k, 9)(m),
        "map.remove": lambda: map_module.remove(k)(m), "map.contains_key": lambda: map_module.contains_key(k)(m), "map.change": lambda: map_module.change(k, lambda o: o)(m),
        "of_seq": lambda: Map.of_seq([(key(1), 1), (key(2), 2)]), "of_list": lambda: Map.of_list([(key(1), 1), (key(1), 2)]),
    }.items():
        armed[0] = True
        r = odd.outcome(run)
        armed[0] = False
        ctx.check(r[0] == "raise" and r[1] is e, f"{label}: an exception of comparing keys is passed on", r)
        ctx.check([(x.n, v) for x, v in m.to_list()] == before, f"{label}: the map after that")
