"""C07: sorting, sums and extremes."""

from __future__ import annotations

from expression.collections import Block, Seq, block, seq
from expression.collections.array import TypedArray

from ..registry import grid, harness
from . import generic
from .c05 import same_block, xs_of
from .common import both

P = "C07"
BOUNDS = (
    "Collections of every length 0..5 (thorough: 0..6) of unconstrained symbolic ints (duplicates included); keys"
    " given by an arbitrary pure function; both directions; lengths 40 (concrete order, one symbolic element). "
    "Collections of up to 6000 elements with many ties; equal elements of different types; elements that cannot "
    "be compared or added, or whose operators raise."
)
OUTSIDE = "Longer collections in arbitrary order; elements without a total order."
ASSUMPTIONS = ["elements (or keys) are totally ordered by <"]


def insort(xs, key, reverse):
    """Reference: stable insertion sort."""
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and (key(out[i - 1]) < key(x) if reverse else key(x) < key(out[i - 1])):
            i -= 1
        out.insert(i, x)
    return out


ND = dict(quick=grid(n=[4], reverse=[False, True]), thorough=grid(n=[5], reverse=[False, True]))


@harness(P, cost=4, **ND)
def sort(ctx, n, reverse):
    """Elements carry their position, so that stability shows."""
    xs = xs_of(ctx, n)
    want = insort(xs, lambda x: x, reverse)
    b = Block(xs)
    same_block(ctx, b.sort(reverse), want, "sort")
    same_block(ctx, b.sort(reverse=reverse), want, "sort, keyword")
    same_block(ctx, b.pipe(block.sort(reverse)), want, "block.sort")
    if not reverse:
        same_block(ctx, b.sort(), want, "sort, default")
        same_block(ctx, b.pipe(block.sort()), want, "block.sort, default")
    same_block(ctx, b, xs, "the block keeps its order")


@harness(P, cost=4, **ND)
def sort_with(ctx, n, reverse):
    """Sorting by a key is stable."""
    k = ctx.size("n", 0, n)
    xs = [(ctx.int("x"), i) for i in range(k)]
    f = ctx.fun("f")
    key = lambda p: f(p[0])  # noqa: E731
    want = insort(xs, key, reverse)
    b = Block(xs)
    same_block(ctx, b.sort_with(key, reverse), want, "sort_with is stable")
    same_block(ctx, b.pipe(block.sort_with(key, reverse)), want, "block.sort_with is stable")
    if not reverse:
        same_block(ctx, b.sort_with(key), want, "sort_with, default")


@harness(P, quick=grid(n=[40], reverse=[False, True]))
def sort_one_symbolic(ctx, n, reverse):
    x = ctx.int("x")
    xs = [2 * ((i * 17) % n) for i in range(n)]
    xs[n // 3] = x
    same_block(ctx, Block(xs).sort(reverse), insort(xs, lambda v: v, reverse), "sort of a long block")


@harness(P, cost=4, **ND)
def array_sort(ctx, n, reverse):
    k = ctx.size("n", 0, n)
    xs = [(ctx.int("x"), i) for i in range(k)]
    f = ctx.fun("f")
    key = lambda p: f(p[0])  # noqa: E731
    ctx.same(list(TypedArray(xs).sort_with(key, reverse)), insort(xs, key, reverse), "array sort_with is stable")


@harness(P, quick=[dict(n=4)], thorough=[dict(n=6)], cost=3)
def extremes(ctx, n):
    xs = ctx.list("x", 1, n)
    hi, lo = xs[0], xs[0]
    for x in xs[1:]:
        hi = ctx.ite(x > hi, x, hi)
        lo = ctx.ite(x < lo, x, lo)
    both(ctx, "max", lambda: hi, lambda: seq.max(xs), lambda: seq.max(Seq(xs)))
    both(ctx, "min", lambda: lo, lambda: seq.min(xs), lambda: seq.min(Seq(xs)))


@harness(P, quick=[dict(n=4)], thorough=[dict(n=5)], cost=3)
def extremes_by(ctx, n):
    """max_by and min_by give an extreme projection."""
    xs = ctx.list("x", 1, n)
    f = ctx.fun("f")
    hi, lo = f(xs[0]), f(xs[0])
    for x in xs[1:]:
        hi = ctx.ite(f(x) > hi, f(x), hi)
        lo = ctx.ite(f(x) < lo, f(x), lo)
    both(ctx, "max_by", lambda: hi, lambda: seq.max_by(f)(xs))
    both(ctx, "min_by", lambda: lo, lambda: seq.min_by(f)(xs))


@harness(P, quick=[dict(n=6)], thorough=[dict(n=9)])
def sums(ctx, n):
    xs = ctx.list("x", 0, n)
    f = ctx.fun("f")
    t, tb = 0, 0
    for x in xs:
        t = t + x
        tb = tb + f(x)
    both(ctx, "sum", lambda: t, lambda: Block(xs).sum(), lambda: seq.sum(xs), lambda: Seq(xs).sum(),
         lambda: TypedArray([*xs]).sum() if xs else 0)
    both(ctx, "sum_by", lambda: tb, lambda: Block(xs).sum_by(f), lambda: seq.sum_by(f)(xs),
         lambda: Seq(xs).sum_by(f))


class Tagged:
    """A value ordered (and equal) by a symbolic number, told apart by its tag."""

    def __init__(self, v, tag):
        self.v, self.tag = v, tag

    def __lt__(self, o):
        return self.v < o.v

    def __gt__(self, o):
        return self.v > o.v

    def __le__(self, o):
        return self.v <= o.v

    def __ge__(self, o):
        return self.v >= o.v

    def __eq__(self, o):
        return isinstance(o, Tagged) and self.v == o.v

    __hash__ = None

    def __repr__(self):
        return f"{self.v}#{self.tag}"


@harness(P, quick=[dict(n=4)], thorough=[dict(n=5)], cost=3)
def ties(ctx, n):
    """Elements that compare equal but are different objects: stability, and the first one of several extremes."""
    k = ctx.size("n", 1, n)
    xs = [Tagged(ctx.int("x"), i) for i in range(k)]
    lo = hi = xs[0]
    for x in xs[1:]:
        lo = x if x.v < lo.v else lo
        hi = x if x.v > hi.v else hi
    ident = lambda x: x  # noqa: E731
    wrap = lambda x: (x,)  # noqa: E731
    for src in (lambda: xs, lambda: iter(xs), lambda: Seq(xs), lambda: Block(xs)):
        ctx.same(seq.min(src()).tag, lo.tag, "min gives the first of several minima")
        ctx.same(seq.max(src()).tag, hi.tag, "max gives the first of several maxima")
        ctx.same(seq.min_by(ident)(src()).tag, lo.tag, "min_by gives the first of several minima")
        ctx.same(seq.max_by(ident)(src()).tag, hi.tag, "max_by gives the first of several maxima")
    _ = wrap
    for reverse in (False, True):
        want = [x.tag for x in insort(xs, ident, reverse)]
        ctx.same([x.tag for x in Block(xs).sort(reverse)], want, "sort is stable")
        ctx.same([x.tag for x in Block(xs).pipe(block.sort(reverse))], want, "block.sort is stable")
        ctx.same([x.tag for x in Block(xs).sort_with(ident, reverse)], want, "sort_with is stable")
        ctx.same([x.tag for x in TypedArray(xs).sort(reverse)], want, "sort of an array is stable")
        ctx.same([x.tag for x in TypedArray(xs).sort_with(ident, reverse)], want, "sort_with of an array is stable")
    arr = TypedArray(xs)
    arr.sort()
    arr.sort_with(lambda x: 0, True)
    ctx.same([x.tag for x in arr], list(range(k)), "the array keeps its order")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=2)
def sort_keys_fail(ctx, n):
    """A key function is called once per element, in order, and its exception is passed on."""
    xs = ctx.list("x", 0, n)
    f = ctx.fun("f", ("raises", "int"))
    for make, name in ((Block, "block"), (TypedArray, "array")):
        calls = []

        def key(x):
            calls.append(x)
            return f(x)

        both(ctx, f"{name} sort_with", lambda: insort([(f(x), x) for x in xs], lambda p: p[0], False),
             lambda: [(f(x), x) for x in make(xs).sort_with(key)])
        ctx.same(calls, xs[:len(calls)], "calls of the key function")


@harness(P)
def any_payload(ctx):
    """Elements of every kind, with equal keys, keep their order."""
    v, w, xs = generic.elements(ctx)
    generic.compare(ctx, generic.block_cases(v, w, xs), generic.C07_OPS)
    generic.compare(ctx, generic.array_cases(v, w, xs), generic.C07_OPS)


ALIKE = [0, False, 0.0, 1, True, 1.0]


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=2)
def equal_but_not_the_same(ctx, n):
    """Numbers of different types that are equal: sorting and choosing an extreme give the very elements."""
    xs = [ctx.choose(f"x{i}", ALIKE) for i in range(ctx.size("n", 1, n))]

    def is_(got, want, label):
        got = list(got)
        ctx.check(len(got) == len(want) and all(type(a) is type(b) and a == b for a, b in zip(got, want, strict=True)), label,
                  (got, want))

    ident = lambda x: x  # noqa: E731
    for reverse in (False, True):
        want = insort(xs, ident, reverse)
        is_(Block(xs).sort(reverse), want, "sort is stable")
        is_(block.sort(reverse)(Block(xs)), want, "block.sort is stable")
        is_(Block(xs).sort_with(ident, reverse), want, "sort_with is stable")
        is_(TypedArray(xs).sort(reverse), want, "sort of an array is stable")
        is_(TypedArray(xs).sort_with(ident, reverse), want, "sort_with of an array is stable")
        for lab, key in (("their type", lambda x: ["bool", "float", "int"].index(type(x).__name__)),
                         ("their type, the other way", lambda x: -len(type(x).__name__) * 10 + x)):
            want = insort(xs, key, reverse)
            is_(Block(xs).sort_with(key, reverse), want, f"sort_with by {lab}")
            is_(block.sort_with(key, reverse)(Block(xs)), want, f"block.sort_with by {lab}")
            is_(TypedArray(xs).sort_with(key, reverse), want, f"sort_with of an array by {lab}")
            ctx.check(Block(xs).sum_by(key) == sum(map(key, xs)), f"sum_by by {lab}")
            ctx.check(seq.sum_by(key)(xs) == sum(map(key, xs)), f"seq.sum_by by {lab}")
            ctx.check(seq.max_by(key)(xs) == max(map(key, xs)) and seq.min_by(key)(xs) == min(map(key, xs)), f"extremes by {lab}")
    lo = hi = xs[0]
    for x in xs[1:]:
        lo = x if x < lo else lo
        hi = x if x > hi else hi
    for src in (lambda: xs, lambda: iter(xs), lambda: Seq(xs), lambda: Block(xs)):
        is_([seq.min(src()), seq.max(src())], [lo, hi], "the first of several extremes")
        is_([seq.min_by(ident)(src()), seq.max_by(ident)(src())], [lo, hi], "the first of several extremes, by a projection")


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    generic.touchy(ctx, {
        "sort": lambda t: Block([t(2), t(1)]).sort(), "sort reversed": lambda t: Block([t(2), t(1)]).sort(reverse=True), "block.sort": lambda t: Block([t(1), t(2)]).pipe(block.sort()),
        "sort_with": lambda t: Block([2, 1]).sort_with(lambda x: t(x)), "block.sort_with": lambda t: Block([2, 1]).pipe(block.sort_with(lambda x: t(x))),
        "array sort": lambda t: TypedArray([t(2), t(1)]).sort(), "array sort_with": lambda t: TypedArray([2, 1]).sort_with(lambda x: t(x)),
        "sum": lambda t: Block([t(), t()]).sum(), "block.sum": lambda t: Block([t(), t()]).pipe(block.sum), "sum_by": lambda t: Block([1, 2]).sum_by(lambda x: t()),
        "seq sum": lambda t: Seq([t(), t()]).sum(), "seq.sum": lambda t: seq.sum([t(), t()]), "seq.sum_by": lambda t: seq.sum_by(lambda x: t())([1, 2]),
        "seq.max": lambda t: seq.max([t(1), t(2)]), "seq.min": lambda t: seq.min([t(1), t(2)]), "seq.max_by": lambda t: seq.max_by(lambda x: t(x))([1, 2]),
        "seq.min_by": lambda t: seq.min_by(lambda x: t(x))([1, 2]),
    })
    xs = ctx.choose("xs", [[2, None, 10], [None, 2], [2, "a"], ["a", 2, "b"], [(1, None), (1, 2)], [1j, 2j], [{}, {}], [1, 2, 3, object()], [None, None]])
    by = lambda f: lambda: f(lambda i: xs[i])  # noqa: E731
    ix = list(range(len(xs)))
    generic.refuses(ctx, {
        "sort": lambda: Block(xs).sort(), "sort reversed": lambda: Block(xs).sort(True), "array sort": lambda: TypedArray(xs).sort(), "seq.max": lambda: seq.max(xs), "seq.min": lambda: seq.min(xs),
        "sort_with": by(lambda f: Block(ix).sort_with(f)), "seq.max_by": by(lambda f: seq.max_by(f)(ix)), "seq.min_by": by(lambda f: seq.min_by(f)(ix)),
    })
    ys = ctx.choose("ys", [[2, None, 10], [None, 2], [2, "a"], ["a", "b"], [1, 2, 3, object()], [None, None], [{}, {}], [(1,), (2,)]])
    generic.refuses(ctx, {
        "sum": lambda: Block(ys).sum(), "block.sum": lambda: block.sum(Block(ys)), "seq.sum": lambda: seq.sum(ys), "Seq.sum": lambda: Seq(ys).sum(),
        "sum_by": lambda: Block(range(len(ys))).sum_by(lambda i: ys[i]), "seq.sum_by": lambda: seq.sum_by(lambda i: ys[i])(range(len(ys))),
    })


@harness(P, quick=[dict(n=70), dict(n=1000), dict(n=6000)])
def long_sorts(ctx, n):
    """Long collections with many equal keys: stable, in order, nothing lost."""
    k = ctx.choose("keys", [1, 2, 7, 10**6])
    reverse = bool(ctx.bool("reverse"))
    x = ctx.int("x")
    xs = [((i * 7919) % k, i) for i in range(n)]
    want = sorted(xs, key=lambda p: (-p[0] if reverse else p[0], p[1]))
    got = [list(Block(xs).sort_with(lambda p: p[0], reverse)), list(Block(xs).pipe(block.sort_with(lambda p: p[0], reverse))), list(TypedArray(xs).sort_with(lambda p: p[0], reverse))]
    for g, lab in zip(got, ("sort_with", "block.sort_with", "array sort_with")):
        ctx.check(g == want, f"{lab}: stable", [a for a, b in zip(g, want) if a != b][:2])
    ns = [p[0] for p in xs]
    for g, lab in ((Block(ns).sort(reverse), "sort"), (Block(ns).pipe(block.sort(reverse)), "block.sort"), (TypedArray(ns).sort(reverse), "array sort")):
        ctx.check(list(g) == [p[0] for p in want], lab)
    ns[n // 2] = x
    ctx.same(Block(ns).sum(), sum(ns), "sum")
    ctx.same(seq.sum(ns), sum(ns), "seq.sum")
    ctx.same(seq.sum_by(lambda v: v * 2)(ns), sum(ns) * 2, "seq.sum_by")
    ns[n // 2] = k
    ctx.check(seq.max(ns) == k and seq.max_by(lambda v: v)(ns) == k, "the largest")
    ns[n - 1] = -1
    ctx.check(seq.min(ns) == -1 and seq.min_by(lambda v: v)(ns) == -1, "the smallest")
