"""C02: a Map value never changes once it exists."""

from __future__ import annotations

import copy

from expression import Nothing, Some
from expression.collections import Map
from expression.collections import map as map_module

from ..registry import grid, harness
from .common import iff
from .c01 import OPS, hist, orders, step
from .maps import items_of, key_groups, rebuild, shapes

P = "C02"
BOUNDS = (
    "Histories of up to 4 operations (thorough: 5) with unconstrained symbolic keys, in which every intermediate "
    "version is kept and read again at the end, and in which the operation may be applied to any earlier version;"
    " every reachable tree shape of up to 6 (thorough: 8) keys followed by one operation of any kind (updates, "
    "bulk operations, folds, iteration), after which the original is read again; maps of 17 and 40 keys likewise."
    " Keys of about 15 groups of types, and maps of up to 1000 bindings, likewise."
)
OUTSIDE = "Mutable values changed by the caller; access to private attributes; threads."
ASSUMPTIONS = ["keys are totally ordered by <, consistently with == and hash (documented requirement)"]


@harness(P, quick=hist(3), thorough=hist(4), cost=4)
def versions(ctx, ops):
    """Each operation works on any earlier version; all versions keep their bindings."""
    vs = [(Map.empty(), [])]
    for i, op in enumerate(ops):
        m, model = vs[ctx.size("from", 0, i)]
        m2, model2, _ = step(ctx, m, model, op)
        vs.append((m2, model2))
    for m, model in vs:
        ctx.same(items_of(m), model, "every version keeps its bindings")
        ctx.same(len(m), len(model), "every version keeps its size")


def operations(ctx, m, model):
    p = ctx.fun("p", "bool")
    f = ctx.fun("f", "int")
    g = ctx.fun("g", ("option", "int"))
    fb = ctx.fun("fb", "int")
    k = lambda: ctx.int("q")  # noqa: E731
    return {
        "add": lambda: m.add(k(), 7),
        "remove": lambda: m.remove(k()),
        "change": lambda: m.change(k(), g),
        "filter": lambda: m.filter(p),
        "partition": lambda: m.partition(p),
        "map": lambda: m.map(f),
        "fold": lambda: m.fold(fb, 0),
        "fold_back": lambda: m.fold_back(fb, 0),
        "iterate": lambda: m.iterate(lambda a, b: None),
        "iter": lambda: list(m),
        "to_seq": lambda: list(m.to_seq()),
        "items": lambda: list(m.to_list().cons((1, 1))),
        "try_pick": lambda: m.try_pick(g),
        "eq": lambda: m == Map.of_seq(model[:1]),
        "str": lambda: str(m),
        "copy": lambda: copy.copy(m).add(k(), 1),
        "half an iteration": lambda: [next(it, None) for it in (iter(m), iter(m.to_seq()), iter(m.keys()), iter(m.values()))],
        "views": lambda: [list(m.keys()), list(m.values()), list(m.items())],
        "lookup": lambda: [m.try_find(k()), m.get(1), len(m), bool(m)],
        "hash": lambda: hash(m),
        "exists": lambda: [m.exists(p), m.for_all(p)],
    }


NP = 4
ALLOPS = ["add", "remove", "change", "filter", "partition", "map", "fold", "fold_back", "iterate", "iter", "to_seq",
          "items", "try_pick", "eq", "str", "copy", "half an iteration", "views", "lookup", "hash", "exists"]


@harness(P, quick=grid(op=ALLOPS, n=[5]), thorough=grid(op=ALLOPS, n=[7]), cost=3)
def one_step(ctx, op, n):
    h = ctx.choose("shape", shapes(n, n + 3))
    m, model = rebuild(ctx, h)
    ctx.syntactic_hash = True
    h0 = hash(m)
    twin = Map.of_seq(model)
    operations(ctx, m, model)[op]()
    ctx.same(items_of(m), model, f"bindings of the operand after {op}")
    ctx.same(list(m), [k for k, _ in model], f"keys of the operand after {op}")
    ctx.same(list(m.to_seq()), model, f"sequence of the operand after {op}")
    ctx.same([(k, m[k]) for k, _ in model], model, f"lookups in the operand after {op}")
    ctx.same(len(m), len(model), f"size of the operand after {op}")
    ctx.check(hash(m) == h0, f"hash of the operand after {op}")
    iff(ctx, m == twin, True, f"the operand is equal to the same map after {op}")
    iff(ctx, twin == m, True, f"the operand is equal to the same map after {op} (swapped)")


@harness(P, quick=grid(part=range(NP), n=[7]), thorough=grid(part=range(NP), n=[8]), cost=6)
def updates(ctx, part, n):
    """Two updates of the same version, from every shape."""
    h = ctx.choose("shape", shapes(n, n + 3)[part::NP])
    op = ctx.choose("op", OPS)
    m, model = rebuild(ctx, h)
    step(ctx, m, model, op)
    ctx.same(items_of(m), model, f"bindings of the operand after {op}")


@harness(P, quick=grid(n=[17, 40], order=["up", "down", "bits"], op=OPS), cost=2)
def large(ctx, n, order, op):
    vs = [ctx.int("v") for _ in range(n)]
    m = Map.empty()
    for i in orders(n)[order]:
        m = m.add(2 * i, vs[i])
    model = [(2 * i, vs[i]) for i in range(n)]
    step(ctx, m, model, op)
    ctx.same(items_of(m), model, f"bindings of the operand after {op}")


@harness(P)
def inputs_not_shared(ctx):
    """A map is independent of the list it was made from, and of what it hands out."""
    ks = ctx.ints("k", 2)
    ctx.assume(ks[0] < ks[1])
    v = ctx.ints("v", 2)
    lst = list(zip(ks, v))
    m = ctx.choose("how", [Map.of_list, Map.of_seq, Map.create])(lst)
    lst.append((ctx.int("k2"), 0))
    lst[0] = (ctx.int("k3"), 1)
    ctx.same(items_of(m), list(zip(ks, v)), "bindings after the source list changed")
    out = []
    m.try_get_value(ks[0], out)
    out.append(3)
    ctx.same(items_of(m), list(zip(ks, v)), "bindings after the output list changed")


@harness(P)
def no_item_assignment(ctx):
    k, v = "k", ctx.int("v")
    m = Map.empty().add(k, v)

    def put():
        m[k] = 1

    def rem():
        del m[k]

    ctx.raises((TypeError, AttributeError), put, "item assignment")
    ctx.raises((TypeError, AttributeError), rem, "item deletion")
    ctx.same(items_of(m), [(k, v)], "bindings")
    ctx.same(items_of(Map.empty()), [], "the empty map stays empty")
    ctx.same(items_of(map_module.empty), [], "the empty map stays empty")


@harness(P)
def any_key(ctx):
    """Keys of every ordered type: each version keeps its bindings."""
    ks, order = key_groups(ctx)
    at = ctx.size("at", 0, len(ks) - 1)
    x = ctx.int("x")
    versions = [(Map.empty(), [])]
    for k in order:
        versions.append((versions[-1][0].add(k, x), items_of(versions[-1][0].add(k, x))))
    m, items = versions[-1]
    for f in (lambda: m.add(ks[at], 1), lambda: m.remove(ks[at]), lambda: m.change(ks[at], lambda o: Some(0)), lambda: m.change(ks[at], lambda o: Nothing),
              lambda: m.filter(lambda k, v: k != ks[at]), lambda: m.partition(lambda k, v: k == ks[at]), lambda: m.map(lambda k, v: k),
              lambda: list(m.items()), lambda: hash(m), lambda: m == versions[-2][0], lambda: str(m), lambda: m.try_find(ks[at])):
        f()
        for i, (v, want) in enumerate(versions):
            ctx.same(items_of(v), want, f"version {i}")
            ctx.check(len(v) == i, f"version {i}: size")
