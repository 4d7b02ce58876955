"""C04: bulk operations on maps, in key order."""

from __future__ import annotations

from expression import Nothing, Some
from expression.collections import Block, Map
from expression.collections import map as map_module

from ..registry import grid, harness
from . import generic
from .common import both
from .c01 import orders
from .maps import items_of, key_groups, rebuild, shapes

P = "C04"
BOUNDS = (
    "Every distinguishable tree shape reachable with up to 5 (thorough: 7) keys by add/remove, with ordered "
    "symbolic keys and symbolic values; callbacks are arbitrary pure functions of their arguments (predicates may"
    " raise for the small shapes); maps of 17 and 40 keys for the operations that do not branch, and of 9 for "
    "those that do. Values of about 60 kinds, maps of up to 3000 bindings, predicates that answer with something "
    "other than True and False, callbacks that raise exceptions of 40 kinds, that use the operation themselves or"
    " run in two threads at once, and uses after ones that ended in an exception."
)
OUTSIDE = "Callbacks with side effects on the map; larger maps for branching callbacks."
ASSUMPTIONS = [
    "keys are totally ordered by <, consistently with == and hash (documented requirement)",
    "callbacks are deterministic functions of their arguments within one check",
]


def shape_map(ctx, n, vspec="int"):
    return rebuild(ctx, ctx.choose("shape", shapes(n, n + 3)), vspec)


def big(ctx, n, order):
    vs = [ctx.int("v") for _ in range(n)]
    m = Map.empty()
    for i in orders(n)[order]:
        m = m.add(2 * i, vs[i])
    return m, [(2 * i, vs[i]) for i in range(n)]


def traversal(ctx, m, model):
    ks, vs = [k for k, _ in model], [v for _, v in model]
    ctx.same(list(m), ks, "iteration gives the keys in ascending order")
    ctx.same(list(m.keys()), ks, "keys")
    ctx.same(list(m.values()), vs, "values")
    tl = m.to_list()
    ctx.check(isinstance(tl, Block), "to_list gives a block")
    ctx.same(list(tl), model, "to_list")
    ctx.same(list(m.to_seq()), model, "to_seq")
    ctx.same(list(map_module.to_list(m)), model, "map.to_list")
    ctx.same(list(map_module.to_seq(m)), model, "map.to_seq")
    log = []
    m.iterate(lambda k, v: log.append((k, v)))
    ctx.same(log, model, "iterate visits every binding once, in order")
    log.clear()
    map_module.iterate(lambda k, v: log.append((k, v)))(m)
    ctx.same(log, model, "map.iterate")


def folds(ctx, m, model):
    f = ctx.fun("f")
    s = ctx.int("s")
    want = s
    for kv in model:
        want = f(want, kv)
    ctx.same(m.fold(f, s), want, "fold is a left fold in key order")
    ctx.same(map_module.fold(f, s)(m), want, "map.fold")
    g = ctx.fun("g")
    want = s
    for kv in reversed(model):
        want = g(kv, want)
    ctx.same(m.fold_back(g, s), want, "fold_back is a right fold in key order")
    ctx.same(map_module.fold_back(g, m)(s), want, "map.fold_back")


def mapping(ctx, m, model):
    f = ctx.fun("f")
    want = [(k, f(k, v)) for k, v in model]
    for r in (m.map(f), map_module.map(f)(m)):
        ctx.same(items_of(r), want, "map")
        ctx.same(len(r), len(want), "size of the mapped map")
    for (k, v) in want:
        ctx.same(r.try_find(k), Some(v), "lookup in the mapped map")


@harness(P, quick=[dict(n=6)], thorough=[dict(n=7)], cost=3)
def traversal_small(ctx, n):
    traversal(ctx, *shape_map(ctx, n))


@harness(P, quick=[dict(n=5)], thorough=[dict(n=7)], cost=3)
def items_small(ctx, n):
    m, model = shape_map(ctx, n)
    ctx.same([tuple(x) for x in m.items()], model, "items")


@harness(P, quick=[dict(n=6)], thorough=[dict(n=7)], cost=3)
def folds_small(ctx, n):
    folds(ctx, *shape_map(ctx, n))


@harness(P, quick=[dict(n=6)], thorough=[dict(n=7)], cost=3)
def mapping_small(ctx, n):
    mapping(ctx, *shape_map(ctx, n))


@harness(P, quick=grid(n=[17, 40], order=["up", "down", "bits"]))
def large(ctx, n, order):
    m, model = big(ctx, n, order)
    traversal(ctx, m, model)
    ctx.same([tuple(x) for x in m.items()], model, "items")
    folds(ctx, m, model)
    mapping(ctx, m, model)


@harness(P, quick=[dict(n=1500)], validations=1)
def traversal_long(ctx, n):
    """Bulk operations do not depend on the size."""
    v = ctx.int("v")
    m = Map.of_seq([(i, v + i) for i in range(n)])
    ctx.same(list(m), list(range(n)), "iteration of a large map")
    ctx.same([k for k, _ in m.to_seq()], list(range(n)), "to_seq of a large map")
    ctx.same(m.fold(lambda a, kv: a + kv[0], 0), n * (n - 1) // 2, "fold of a large map")
    ctx.same(len(m.filter(lambda k, v: k % 2 == 0)), (n + 1) // 2, "filter of a large map")
    ctx.same(len(m.map(lambda k, v: k)), n, "map of a large map")


def filtering(ctx, m, model, p, lookups=True):
    keep = [(k, v) for k, v in model if p(k, v)]
    for r in (m.filter(p), map_module.filter(p)(m)):
        ctx.same(items_of(r), keep, "filter")
        ctx.same(len(r), len(keep), "size of the filtered map")
    if lookups:
        for k, v in model:
            ctx.same(r.try_find(k), Some(v) if p(k, v) else Nothing, "lookup in the filtered map")


def partitioning(ctx, m, model, p):
    keep = [(k, v) for k, v in model if p(k, v)]
    drop = [(k, v) for k, v in model if not p(k, v)]
    for r in (m.partition(p), map_module.partition(p)(m)):
        ctx.same([items_of(x) for x in r], [keep, drop], "partition")
        ctx.same([len(x) for x in r], [len(keep), len(drop)], "sizes of the partition")


@harness(P, quick=[dict(n=5)], thorough=[dict(n=6)], cost=6)
def filter_small(ctx, n):
    m, model = shape_map(ctx, n)
    filtering(ctx, m, model, ctx.fun("p", "bool"))


@harness(P, quick=[dict(n=5)], thorough=[dict(n=6)], cost=6)
def partition_small(ctx, n):
    m, model = shape_map(ctx, n)
    partitioning(ctx, m, model, ctx.fun("p", "bool"))


@harness(P, quick=grid(order=["up", "down", "bits"], n=[9]), cost=6)
def filter_large(ctx, order, n):
    m, model = big(ctx, n, order)
    p = ctx.fun("p", "bool")
    filtering(ctx, m, model, p)
    partitioning(ctx, m, model, p)


@harness(P, quick=grid(order=["up", "down", "bits"], n=[40, 70]), cost=2)
def filter_threshold(ctx, order, n):
    """A large map filtered at a symbolic threshold."""
    m, model = big(ctx, n, order)
    t = ctx.int("t")
    filtering(ctx, m, model, lambda k, v: k < t, lookups=False)
    partitioning(ctx, m, model, lambda k, v: k < t)


@harness(P, quick=[dict(n=5)], thorough=[dict(n=6)], cost=4)
def quantifiers(ctx, n):
    m, model = shape_map(ctx, n)
    p = ctx.fun("p", "bool")
    some = any(p(k, v) for k, v in model)
    every = all(p(k, v) for k, v in model)
    both(ctx, "exists", lambda: some, lambda: bool(m.exists(p)), lambda: bool(map_module.exists(p)(m)))
    both(ctx, "for_all", lambda: every, lambda: bool(m.for_all(p)), lambda: bool(map_module.for_all(p)(m)))


@harness(P, quick=[dict(n=4)], thorough=[dict(n=5)], cost=4)
def picking(ctx, n):
    m, model = shape_map(ctx, n)
    c = ctx.fun("c", ("option", "val"))
    want = Nothing
    for k, v in model:
        want = c(k, v)
        if want.tag == "some":
            break
    both(ctx, "try_pick", lambda: want, lambda: m.try_pick(c), lambda: map_module.try_pick(c)(m))
    if want.tag == "some":
        ctx.same(map_module.pick(c)(m), want.some, "pick")
    else:
        ctx.raises(KeyError, lambda: map_module.pick(c)(m), "pick of nothing")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=4)
def callbacks_may_raise(ctx, n):
    """An exception of a callback reaches the caller, for the same binding."""
    m, model = shape_map(ctx, n)
    p = ctx.fun("p", ("raises", "bool"))
    f = ctx.fun("f", ("raises", "int"))
    c = ctx.fun("c", ("raises", ("option", "int")))

    def pick():
        for k, v in model:
            r = c(k, v)
            if r.tag == "some":
                return r
        return Nothing

    op = ctx.choose("op", ["exists", "for_all", "map", "filter", "try_pick"])
    if op == "exists":
        both(ctx, op, lambda: any(p(k, v) for k, v in model), lambda: bool(m.exists(p)))
    elif op == "for_all":
        both(ctx, op, lambda: all(p(k, v) for k, v in model), lambda: bool(m.for_all(p)))
    elif op == "map":
        both(ctx, op, lambda: [(k, f(k, v)) for k, v in model], lambda: items_of(m.map(f)))
    elif op == "filter":
        both(ctx, op, lambda: [(k, v) for k, v in model if p(k, v)], lambda: items_of(m.filter(p)))
    else:
        both(ctx, op, pick, lambda: m.try_pick(c))


@harness(P, quick=[dict(n=4)], thorough=[dict(n=5)], cost=4)
def callback_calls(ctx, n):
    """Callbacks are called with each binding, in key order, once, and not after the answer is known."""
    m, model = shape_map(ctx, n)
    p = ctx.fun("p", "val")  # any truthy or falsy answer
    calls = []

    def logged(f):
        def g(*a):
            calls.append(a)
            return f(*a)

        return g

    op = ctx.choose("op", ["exists", "for_all", "map", "filter", "try_pick", "fold", "fold_back", "partition"])
    if op in ("exists", "for_all"):
        want = []
        for kv in model:
            want.append(kv)
            if bool(p(*kv)) == (op == "exists"):
                break
        getattr(m, op)(logged(p))
        ctx.same(calls, want, f"calls of {op}")
    elif op == "map":
        m.map(logged(ctx.fun("f")))
        ctx.same(calls, model, "calls of map")
    elif op == "filter":
        m.filter(logged(p))
        ctx.same(calls, model, "calls of filter")
    elif op == "try_pick":
        c = ctx.fun("c", ("option", "int"))
        want = []
        for kv in model:
            want.append(kv)
            if c(*kv).tag == "some":
                break
        m.try_pick(logged(c))
        ctx.same(calls, want, "calls of try_pick")
    elif op == "fold":
        m.fold(lambda acc, kv: logged(lambda k, v: acc)(*kv), None)
        ctx.same(calls, model, "calls of fold")
    elif op == "fold_back":
        m.fold_back(lambda kv, acc: logged(lambda k, v: acc)(*kv), None)
        ctx.same(calls[::-1], model, "calls of fold_back")
    else:
        m.partition(logged(p))
        ctx.same(sorted(calls, key=lambda kv: [i for i, (k, _) in enumerate(model) if kv[0] is k or kv[0] == k][:1]),
                 model, "partition calls its predicate once for each binding")


@harness(P)
def any_payload(ctx):
    """Elements of every kind pass through as they are."""
    generic.compare(ctx, generic.map_cases(*generic.elements(ctx)))


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    generic.reentrant(ctx, generic.map_reentrant([4, 7, 5, 9]))


@harness(P)
def any_exception(ctx):
    """Exceptions of every type reach the caller as they are."""
    generic.raising(ctx, generic.map_raising([4, 5, 6]))


@harness(P, quick=grid(n=[3000]), path_timeout=120.0, cost=3)
def very_long(ctx, n):
    """Collections of thousands of elements."""
    generic.compare(ctx, generic.map_cases(*generic.very_long(n)), skip=generic.SLOW)


@harness(P)
def any_payload_among_many(ctx):
    """Elements of every kind in long collections."""
    generic.compare(ctx, generic.map_cases(*generic.many(ctx)))


@harness(P)
def any_truth(ctx):
    """Predicates that answer with true and false values of every kind."""
    generic.truths(ctx, generic.map_truths())


@harness(P)
def results_of_actions(ctx):
    """What an action returns means nothing."""
    r = generic.TRUTHS[ctx.size("returned", 0, len(generic.TRUTHS) - 1)]
    n = ctx.choose("n", [1, 3, 20])
    m = Map.of_seq((i, -i) for i in range(n))
    for run in (m.iterate, lambda f: map_module.iterate(f)(m)):
        seen = []
        run(lambda k, v: seen.append((k, v)) or r)
        ctx.check(seen == [(i, -i) for i in range(n)], "iterate visits every binding", seen)


@harness(P)
def any_key(ctx):
    """Keys of every ordered type."""
    ks, order = key_groups(ctx)
    at = ctx.size("at", 0, len(ks) - 1)
    x = ctx.int("x")
    rank = {k: i for i, k in enumerate(ks)}
    m = Map.empty()
    for k in order:
        m = m.add(k, x if rank[k] == at else rank[k])
    model = [(k, x if i == at else i) for i, k in enumerate(ks)]
    traversal(ctx, m, model)
    ctx.same(m.fold(lambda s, kv: [*s, kv], []), model, "fold")
    ctx.same(m.fold_back(lambda kv, s: [*s, kv], []), model[::-1], "fold_back")
    low = m.filter(lambda k, v: rank[k] <= at)
    ctx.same(list(low.to_list()), model[: at + 1], "filter")
    a, b = m.partition(lambda k, v: rank[k] % 2 == at % 2)
    ctx.same(list(a.to_list()), model[at % 2 :: 2], "partition, first")
    ctx.same(list(b.to_list()), model[1 - at % 2 :: 2], "partition, second")
    for q in ks:
        ctx.check((q in low) is (rank[q] <= at), "in a filtered map")
        ctx.check((q in a) is not (q in b), "in one part")
    ctx.same(list(m.map(lambda k, v: (k, v)).to_list()), [(k, (k, v)) for k, v in model], "map")
    ctx.check(m.exists(lambda k, v: k == ks[at]) is True or m.exists(lambda k, v: k == ks[at]), "exists")
    ctx.check(not m.for_all(lambda k, v: k != ks[at]), "for_all")
    ctx.same(m.try_pick(lambda k, v: Some(k) if rank[k] >= at else Nothing), Some(ks[at]), "try_pick")
