"""C05: element-wise and folding operations on Block agree with lists."""

from __future__ import annotations

from expression import Nothing, Some, pipe
from expression.collections import Block, Seq, block

from ..registry import grid, harness
from . import generic, odd
from .c08 import SOURCES, Falsy, OldStyle, Unsized
from .common import both, iff

P = "C05"
BOUNDS = (
    "Blocks of every length 0..5 (thorough: 0..7) for operations that branch on a callback, 0..6 (thorough: 0..9)"
    " for the others, plus lengths 33 and 130 for the latter; elements: any int or None; callbacks: arbitrary "
    "pure functions, returning ints, None, options or blocks of up to 2 elements, possibly raising. Elements and "
    "sources of about 60 kinds, lengths up to 70000, predicates that answer with something other than True and "
    "False, callables of a dozen shapes, callbacks that raise exceptions of 40 kinds, that use the operation "
    "themselves or run in two threads at once, uses after ones that ended in an exception, elements whose own "
    "operators raise, comparison with anything."
)
ALSO = {"c06": ["joining", "indexed", "membership", "equality", "pattern", "plain"]}
OUTSIDE = "Longer blocks for branching callbacks; callbacks that change the block's elements."
ASSUMPTIONS = ["callbacks are deterministic functions of their arguments within one check"]


def xs_of(ctx, n, spec="int", lo=0):
    return ctx.list("x", lo, n, spec)


BR = dict(quick=[dict(n=4)], thorough=[dict(n=6)], cost=3)  # branching
NB = dict(quick=[dict(n=6), dict(n=33, lo=33), dict(n=130, lo=130)], thorough=[dict(n=9), dict(n=33, lo=33),
                                                                            dict(n=300, lo=300)])


def same_block(ctx, r, want, label):
    ctx.check(isinstance(r, Block), f"{label} gives a block")
    ctx.same(list(r), want, label)
    ctx.same(len(r), len(want), f"{label}, length")


def blocks(ctx, label, want, *fs):
    """Each spelling gives a block with the wanted elements, or raises the same exception."""
    e = ctx.outcome(want)
    for i, f in enumerate(fs):
        g = ctx.outcome(f)
        if g[0] == "ok":
            ctx.check(isinstance(g[1], Block), f"{label} gives a block (spelling {i})")
            g = ("ok", list(g[1]))
        ctx.same(g, e, f"{label} (spelling {i})")


@harness(P, **NB)
def construction(ctx, n, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    for r in (Block(xs), Block(iter(xs)), Block(tuple(xs)), Block.of(*xs), Block.of_seq(xs), Block.of_seq(iter(xs)),
              block.of_seq(xs), block.of(*xs), Block(Block(xs)), Block(x for x in xs)):
        same_block(ctx, r, xs, "construction")
    b = Block(xs)
    ctx.same(b.is_empty(), not xs, "is_empty")
    ctx.same(block.is_empty(b), not xs, "block.is_empty")
    ctx.same(bool(b), bool(xs), "bool")
    ctx.same(list(b), xs, "iteration, again")


@harness(P)
def construction_small(ctx):
    v = ctx.value("v", "val")
    same_block(ctx, Block.singleton(v), [v], "singleton")
    same_block(ctx, block.singleton(v), [v], "block.singleton")
    same_block(ctx, Block.empty(), [], "empty")
    same_block(ctx, block.empty, [], "block.empty")
    o = ctx.value("o", ("option", "deep"))
    want = [o.some] if o.tag == "some" else []
    same_block(ctx, Block.of_option(o), want, "of_option")
    same_block(ctx, block.of_option(o), want, "block.of_option")


@harness(P, quick=[dict(hi=4)], thorough=[dict(hi=7)])
def ranges(ctx, hi):
    a, b = ctx.size("a", -2, hi), ctx.size("b", -2, hi)
    c = ctx.choose("c", [-3, -2, -1, 1, 2, 3])
    for f in (Block.range, block.range):
        same_block(ctx, f(b), list(range(b)), "range(stop)")
        same_block(ctx, f(a, b), list(range(a, b)), "range(start, stop)")
        same_block(ctx, f(a, b, c), list(range(a, b, c)), "range(start, stop, step)")


@harness(P, **NB)
def maps(ctx, n, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    b = Block(xs)
    f = ctx.fun("f")
    blocks(ctx, "map", lambda: [f(x) for x in xs], lambda: b.map(f), lambda: b.pipe(block.map(f)),
           lambda: pipe(b, block.map(f)))
    g = ctx.fun("g")
    blocks(ctx, "mapi", lambda: [g(i, x) for i, x in enumerate(xs)], lambda: b.mapi(g), lambda: b.pipe(block.mapi(g)))


@harness(P, **BR)
def maps_raise(ctx, n):
    xs = xs_of(ctx, n, "int")
    b = Block(xs)
    f = ctx.fun("f", ("raises", "val"))
    blocks(ctx, "map", lambda: [f(x) for x in xs], lambda: b.map(f), lambda: b.pipe(block.map(f)))
    blocks(ctx, "mapi", lambda: [f(i, x) for i, x in enumerate(xs)], lambda: b.mapi(f))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def maps_none(ctx, n):
    xs = xs_of(ctx, n, "val")
    b = Block(xs)
    f = ctx.fun("f", "val")
    same_block(ctx, b, xs, "elements")
    same_block(ctx, b.map(f), [f(x) for x in xs], "map with None")
    same_block(ctx, b.filter(f), [x for x in xs if f(x)], "filter by truthiness")


@harness(P, **NB)
def starmaps(ctx, n, lo=0):
    k = ctx.size("|x|", lo, n)
    xs = [(ctx.int("x"), ctx.int("y")) for _ in range(k)]
    b = Block(xs)
    f = ctx.fun("f")
    blocks(ctx, "starmap", lambda: [f(*x) for x in xs], lambda: b.starmap(f), lambda: b.pipe(block.starmap(f)),
           lambda: b.pipe(block.map2(f)))
    ys = [(x, y, ctx.int("z")) for x, y in xs]
    blocks(ctx, "map3", lambda: [f(*x) for x in ys], lambda: Block(ys).pipe(block.map3(f)),
           lambda: Block(ys).starmap(f))


@harness(P)
def spread(ctx):
    """starmap spreads any iterables."""
    few = ["", "ab", [1, 2], range(3), (1,), {"k": 1}, (), [[]], b"ab"]
    xs = [ctx.choose(f"x{i}", few) for i in range(ctx.size("|x|", 1, 2))]
    f = lambda *a: ("got", a)  # noqa: E731
    b = Block(xs)
    blocks(ctx, "starmap", lambda: [f(*x) for x in xs], lambda: b.starmap(f), lambda: b.pipe(block.starmap(f)))


@harness(P, **BR)
def filters(ctx, n):
    xs = xs_of(ctx, n)
    b = Block(xs)
    p = ctx.fun("p", ("raises", "bool") if n <= 4 else "bool")
    blocks(ctx, "filter", lambda: [x for x in xs if p(x)], lambda: b.filter(p), lambda: b.pipe(block.filter(p)))


@harness(P, **BR)
def partitions(ctx, n):
    xs = xs_of(ctx, n)
    b = Block(xs)
    p = ctx.fun("p", "bool")
    for r in (b.partition(p), b.pipe(block.partition(p))):
        ctx.check(all(isinstance(x, Block) for x in r), "partition gives blocks")
        ctx.same([list(x) for x in r], [[x for x in xs if p(x)], [x for x in xs if not p(x)]], "partition")


@harness(P, quick=[dict(n=40)], thorough=[dict(n=100)])
def thresholds(ctx, n):
    """Long blocks filtered at a symbolic threshold."""
    xs = list(range(n))
    b = Block(xs)
    t = ctx.int("t", -1, n + 1)
    p = lambda x: x < t  # noqa: E731
    blocks(ctx, "filter", lambda: [x for x in xs if p(x)], lambda: b.filter(p))
    r = b.partition(p)
    ctx.same([list(x) for x in r], [[x for x in xs if p(x)], [x for x in xs if not p(x)]], "partition")
    ctx.same(bool(b.forall(p)), all(p(x) for x in xs), "forall")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)], cost=3)
def chooses(ctx, n):
    xs = xs_of(ctx, n)
    b = Block(xs)
    c = ctx.fun("c", ("raises", ("option", "val")))

    def want():
        out = []
        for x in xs:
            r = c(x)
            if r.tag == "some":
                out.append(r.some)
        return out

    blocks(ctx, "choose", want, lambda: b.choose(c), lambda: b.pipe(block.choose(c)))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=3)
def collects(ctx, n):
    xs = xs_of(ctx, n)
    b = Block(xs)
    c = ctx.fun("c", ("raises", ("block", "int", 2)))
    blocks(ctx, "collect", lambda: [y for x in xs for y in c(x)], lambda: b.collect(c), lambda: b.pipe(block.collect(c)))


@harness(P, **NB)
def folds(ctx, n, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    b = Block(xs)
    f = ctx.fun("f")
    s = ctx.int("s")

    def want():
        a = s
        for x in xs:
            a = f(a, x)
        return a

    both(ctx, "fold", want, lambda: b.fold(f, s), lambda: b.pipe(block.fold(f, s)))
    if xs:
        def want_r():
            a = xs[0]
            for x in xs[1:]:
                a = f(a, x)
            return a

        both(ctx, "reduce", want_r, lambda: b.reduce(f), lambda: b.pipe(block.reduce(f)))
    total = 0
    for x in xs:
        total = total + x
    both(ctx, "sum", lambda: total, lambda: b.sum(), lambda: block.sum(b))
    pr = ctx.fun("pr")
    totalb = 0
    for x in xs:
        totalb = totalb + pr(x)
    both(ctx, "sum_by", lambda: totalb, lambda: b.sum_by(pr), lambda: b.pipe(block.sum_by(pr)))


@harness(P, **BR)
def folds_raise(ctx, n):
    xs = xs_of(ctx, n)
    b = Block(xs)
    f = ctx.fun("f", ("raises", "int"))

    def want():
        a = 0
        for x in xs:
            a = f(a, x)
        return a

    both(ctx, "fold", want, lambda: b.fold(f, 0), lambda: b.pipe(block.fold(f, 0)))


@harness(P, **BR)
def foralls(ctx, n):
    xs = xs_of(ctx, n)
    b = Block(xs)
    p = ctx.fun("p", "bool")
    both(ctx, "forall", lambda: all(p(x) for x in xs), lambda: bool(b.forall(p)),
         lambda: bool(b.pipe(block.forall(p))))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=3)
def unfolds(ctx, n):
    """unfold, for every generator that stops within n steps."""
    f = ctx.fun("f", ("tuple", "int", "int"))
    stop = ctx.size("stop", 0, n)
    s0 = ctx.int("s")
    seen = []

    def gen(s):
        seen.append(s)
        if len(seen) > stop:
            return Nothing
        return Some(f(s))

    want, states, s = [], [s0], s0
    for _ in range(stop):
        v, s = f(s)
        want.append(v)
        states.append(s)
    for spell in (lambda: Block.unfold(gen, s0), lambda: pipe(s0, block.unfold(gen))):
        seen.clear()
        r = spell()
        same_block(ctx, r, want, "unfold")
        ctx.same(seen, states, "unfold: the states given to the generator")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=2)
def unfolds_any_state(ctx, n):
    """States and elements may be None or 0."""
    f = ctx.fun("f", ("tuple", "val", "val"))
    stop = ctx.size("stop", 0, n)
    s0 = ctx.value("s", "val")
    seen = []

    def gen(s):
        seen.append(s)
        return Some(f(len(seen), s)) if len(seen) <= stop else Nothing

    want, states, s = [], [s0], s0
    for i in range(stop):
        v, s = f(i + 1, s)
        want.append(v)
        states.append(s)
    for spell in (lambda: Block.unfold(gen, s0), lambda: pipe(s0, block.unfold(gen))):
        seen.clear()
        same_block(ctx, spell(), want, "unfold")
        ctx.same(seen, states, "unfold: the states given to the generator")


@harness(P, quick=[dict(n=4)], thorough=[dict(n=5)], cost=2)
def callback_calls(ctx, n):
    """Callbacks are called once per element, in order, and not after the answer is known."""
    xs = xs_of(ctx, n, "val")
    b = Block(xs)
    calls = []

    def logged(f):
        def g(*a):
            calls.append(a if len(a) > 1 else a[0])
            return f(*a)

        return g

    p = ctx.fun("p", "val")  # any truthy or falsy answer
    op = ctx.choose("op", ["map", "mapi", "filter", "choose", "collect", "partition", "fold", "reduce", "forall",
                           "sum_by"])
    by_method = ctx.choose("spelling", [True, False])
    call = lambda name, *a: getattr(b, name)(*a) if by_method else b.pipe(getattr(block, name)(*a))  # noqa: E731
    want, order = None, xs
    if op == "map":
        got, want = call(op, logged(p)), [p(x) for x in xs]
    elif op == "mapi":
        got, want, order = call(op, logged(p)), [p(i, x) for i, x in enumerate(xs)], list(enumerate(xs))
    elif op == "filter":
        got, want = call(op, logged(p)), [x for x in xs if p(x)]
    elif op == "choose":
        got = call(op, logged(lambda x: Some(x) if p(x) else Nothing))
        want = [x for x in xs if p(x)]
    elif op == "collect":
        got, want = call(op, logged(lambda x: Block.of(x, x))), [y for x in xs for y in (x, x)]
    elif op == "partition":
        got = call(op, logged(p))
        got, want = [list(r) for r in got], [[x for x in xs if p(x)], [x for x in xs if not p(x)]]
    elif op == "fold":
        got, want = call(op, lambda a, x: logged(lambda x: (a, x))(x), None), None
        for x in xs:
            want = (want, x)
    elif op == "reduce":
        if not xs:
            ctx.raises(ValueError, lambda: call(op, lambda a, x: a), "reduce of an empty block")
            return
        got, want, order = call(op, lambda a, x: logged(lambda x: (a, x))(x)), xs[0], xs[1:]
        for x in xs[1:]:
            want = (want, x)
    elif op == "forall":
        got, want, order = bool(call(op, logged(p))), True, []
        for x in xs:
            order.append(x)
            if not p(x):
                want = False
                break
    else:
        f = ctx.fun("f")
        got, want = call(op, logged(f)), 0
        for x in xs:
            want = want + f(x)
    ctx.same(list(got) if isinstance(got, Block) else got, want, op)
    ctx.same(calls, order, f"calls of the callback of {op}")


class Unlike:
    """Not equal to anything, itself included."""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = object.__hash__


@harness(P, quick=[dict(n=5)], thorough=[dict(n=6)], cost=2)
def shared_objects(ctx, n):
    """The same object at several places, as an element or as the result of a callback."""
    k = ctx.size("n", 0, n)
    vs = [ctx.int("v"), None, Unlike(), Block.of(ctx.int("w"), None)]
    pick = lambda nm: ctx.choose(nm, vs)  # noqa: E731
    xs = [pick("x") for _ in range(min(k, 3))] + vs[:k - 3 if k > 3 else 0]
    b = Block(xs)
    same = lambda r, want, label: ctx.check(  # noqa: E731
        isinstance(r, Block) and len(r) == len(want) and all(x is y for x, y in zip(r, want)), label, (list(r), want))
    same(b, xs, "elements")
    same(b.map(lambda x: x), xs, "map")
    same(b.filter(lambda x: True), xs, "filter")
    same(b.choose(Some), xs, "choose")
    one, two = Block.of(vs[2], vs[0]), Block.of(vs[0])
    same(b.collect(lambda x: one if x is None else two), [y for x in xs for y in (one if x is None else two)], "collect")
    same(b.append(b), xs + xs, "append")
    same(block.concat([b, b, b]), xs * 3, "concat")
    same(block.concat([one, two, one, one]), [*one, *two, *one, *one], "concat of one block repeatedly")
    ctx.same(b.fold(lambda a, x: a + [id(x)], []), [id(x) for x in xs], "fold")
    ctx.same([(x is y) for x, y in b.zip(b)], [True] * k, "zip with itself")
    ctx.same(b == Block(xs), True, "equality of blocks of the same objects")
    for i, v in enumerate(vs):
        ctx.same(bool(v in b), v in xs, f"membership of object {i}")


@harness(P, quick=[dict(n=600)], validations=1)
def long_ones(ctx, n):
    """Long blocks: no limit from the size."""
    v = ctx.int("v")
    xs = [v + i for i in range(n)]
    b = Block(xs)
    same_block(ctx, b.map(lambda x: x + 1), [x + 1 for x in xs], "map of a long block")
    same_block(ctx, Block.unfold(lambda s: Some((s, s + 1)) if s < n else Nothing, 0), list(range(n)),
               "unfold of a long block")
    same_block(ctx, b.collect(lambda x: Block.of(x, x)), [y for x in xs for y in (x, x)], "collect of a long block")
    same_block(ctx, block.concat([Block.of(x) for x in xs]), xs, "concat of a long list")


@harness(P)
def any_payload(ctx):
    """Elements of every kind pass through as they are."""
    generic.compare(ctx, generic.block_cases(*generic.elements(ctx)))


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    generic.reentrant(ctx, generic.block_reentrant([4, 7, 5, 9]))


@harness(P)
def any_exception(ctx):
    """Exceptions of every type reach the caller as they are."""
    generic.raising(ctx, generic.block_raising([4, 5, 6]))


@harness(P, quick=grid(n=[5000, 70000]), path_timeout=120.0, cost=3)
def very_long(ctx, n):
    """Collections of thousands of elements."""
    generic.compare(ctx, generic.block_cases(*generic.very_long(n)), skip=generic.SLOW)


@harness(P)
def any_payload_among_many(ctx):
    """Elements of every kind in long collections."""
    generic.compare(ctx, generic.block_cases(*generic.many(ctx)))


@harness(P)
def any_truth(ctx):
    """Predicates that answer with true and false values of every kind."""
    generic.truths(ctx, generic.block_truths())


@harness(P)
def any_source(ctx):
    """Blocks made of iterables of every kind."""
    make = SOURCES[ctx.choose("source", list(SOURCES))]
    xs = list(make())
    for lab, f in (("Block", Block), ("Block.of_seq", Block.of_seq), ("block.of_seq", block.of_seq),
                   ("Block.of", lambda s: Block.of(*s)), ("block.of", lambda s: block.of(*s)),
                   ("concat", lambda s: block.concat([Block(s), Block(make())])), ("append", lambda s: Block([7]).append(Block(s)))):
        want = xs + xs if lab == "concat" else [7] + xs if lab == "append" else xs
        same_block(ctx, f(make()), want, f"{lab} of an iterable")
        ctx.check(len(f(make())) == len(want), f"{lab} of an iterable: length")


@harness(P)
def any_source_of_blocks(ctx):
    """Iterables of every kind of blocks."""
    bs = [Block([1]), Block([]), Block([2, 3])]
    make = ctx.choose("source", [lambda: bs, lambda: tuple(bs), lambda: iter(bs), lambda: Block(bs), lambda: (b for b in bs), lambda: Seq(bs),
                                 lambda: Falsy(bs), lambda: Unsized(bs), lambda: OldStyle(bs), lambda: dict(enumerate(bs)).values()])
    same_block(ctx, block.concat(make()), [1, 2, 3], "concat of an iterable")


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    generic.touchy(ctx, {
        "==": lambda t: Block([t()]) == Block([t()]), "== later": lambda t: Block([1, t()]) == Block([1, t()]), "!=": lambda t: Block([t()]) != Block([t()]), "in": lambda t: 3 in Block([t(), 3]),
        "not in": lambda t: t() not in Block([4, 3]), 
        "sum": lambda t: Block([t(), t()]).sum(), "sum_by": lambda t: Block([1, 2]).sum_by(lambda x: t()), "reduce": lambda t: Block([t(), t()]).reduce(lambda a, b: a + b),
    })


@harness(P)
def equality_with_others(ctx):
    """A block is not equal to what is not a sequence, and comparing it says so."""
    xs = ctx.choose("xs", [[], [1], [0, 1], [None], ["a"], [(1, 2)]])
    b = Block(xs)
    v = ctx.choose("v", [None, 0, 1, 2.5, True, object(), {0: 1}, {0: 0, 1: 1}, {}, {1}, set(), frozenset([0, 1]), len, int, Some(1), Nothing, ValueError("a"), iter([1]), (x for x in [1])])
    for lab, r, want in (("==", odd.outcome(lambda: b == v), False), ("!=", odd.outcome(lambda: b != v), True), ("== the other way round", odd.outcome(lambda: v == b), False),
                         ("in a list", odd.outcome(lambda: b in [v]), False)):
        ctx.check(r[0] == "ok" and bool(r[1]) is want, f"{lab} of a block and something else", (xs, v, r))
