"""C06: positional operations on Block: access, slices, prefixes and suffixes, joining."""

from __future__ import annotations

from expression import Nothing, Some
from expression.collections import Block, block

from ..registry import grid, harness
from . import generic
from .c05 import blocks, same_block, xs_of
from .common import both, iff

P = "C06"
BOUNDS = (
    "Blocks of every length 0..5 (thorough: 0..8) with symbolic elements, and every count, index and slice bound "
    "in -7..7 (thorough: -10..10); lengths 33 and 130 with every count in a window around both ends; pairs of "
    "blocks of length 0..4. Elements of about 60 kinds and lengths up to 70000 at chosen counts."
)
OUTSIDE = "Counts and indices beyond the stated windows; the counts 0 of skip_last/take_last are a known finding."
ASSUMPTIONS = []

N = dict(quick=[dict(n=5, w=7)], thorough=[dict(n=8, w=10)])


@harness(P, **N)
def prefixes(ctx, n, w):
    xs = xs_of(ctx, n)
    b = Block(xs)
    c = ctx.size("c", -w, w)
    blocks(ctx, "take", lambda: xs[:c], lambda: b.take(c), lambda: b.pipe(block.take(c)))
    blocks(ctx, "skip", lambda: xs[c:], lambda: b.skip(c), lambda: b.pipe(block.skip(c)))
    same_block(ctx, b.take(c).append(b.skip(c)), xs, "take and skip split the block")


@harness(P, **N)
def suffixes(ctx, n, w):
    xs = xs_of(ctx, n)
    b = Block(xs)
    c = ctx.size("c", 1, w)
    k = max(len(xs) - c, 0)
    blocks(ctx, "take_last", lambda: xs[k:], lambda: b.take_last(c), lambda: b.pipe(block.take_last(c)))
    blocks(ctx, "skip_last", lambda: xs[:k], lambda: b.skip_last(c), lambda: b.pipe(block.skip_last(c)))
    same_block(ctx, b.skip_last(c).append(b.take_last(c)), xs, "skip_last and take_last split the block")


@harness(P)
def suffix_of_zero_skip(ctx):
    """skip_last(0) removes nothing."""
    xs = xs_of(ctx, 3)
    r = list(Block(xs).skip_last(0))
    if xs and not r:
        ctx.check(False, "skip_last(0) of a non-empty block is empty", (r, xs))
    ctx.same(r, xs, "skip_last(0)")


@harness(P)
def suffix_of_zero_take(ctx):
    """take_last(0) takes nothing."""
    xs = xs_of(ctx, 3)
    r = list(Block(xs).take_last(0))
    if xs and len(r) == len(xs) and ctx.holds(ctx.eq(r, xs)):
        ctx.check(False, "take_last(0) of a non-empty block is the whole block", (r, xs))
    ctx.same(r, [], "take_last(0)")


@harness(P, quick=grid(n=[33, 130]))
def long_ones(ctx, n):
    xs = ctx.ints("x", n)
    b = Block(xs)
    c = ctx.choose("c", list(range(1, 4)) + list(range(n - 2, n + 3)) + [16, 31, 32])
    k = max(n - c, 0)
    same_block(ctx, b.take(c), xs[:c], "take")
    same_block(ctx, b.skip(c), xs[c:], "skip")
    same_block(ctx, b.take_last(c), xs[k:], "take_last")
    same_block(ctx, b.skip_last(c), xs[:k], "skip_last")
    same_block(ctx, b[c:], xs[c:], "slice")
    same_block(ctx, b[-c::-2], xs[-c::-2], "slice, backwards")
    same_block(ctx, b.tail(), xs[1:], "tail")
    ctx.same(b.head(), xs[0], "head")
    v = ctx.int("v")
    same_block(ctx, b.cons(v), [v] + xs, "cons")
    same_block(ctx, b.indexed(c), list(enumerate(xs, c)), "indexed")
    same_block(ctx, b + b, xs + xs, "+")
    same_block(ctx, b.zip(b), list(zip(xs, xs)), "zip")


@harness(P, **N)
def access(ctx, n, w):
    xs = xs_of(ctx, n, "int")
    b = Block(xs)
    i = ctx.size("i", -w, w)

    def want():
        return xs[i]

    both(ctx, "[i]", lambda: ("v", want()) if -len(xs) <= i < len(xs) else "IndexError",
         *[(lambda g=g: idx(g)) for g in (lambda: b[i], lambda: b.item(i), lambda: b.pipe(block.item(i)))])


def idx(g):
    try:
        return ("v", g())
    except IndexError:
        return "IndexError"


@harness(P, quick=[dict(n=4, w=5)], thorough=[dict(n=6, w=8)], cost=4)
def slices(ctx, n, w):
    xs = xs_of(ctx, n)
    b = Block(xs)
    rng = [None] + list(range(-w, w + 1))
    i, j = ctx.choose("i", rng), ctx.choose("j", rng)
    s = ctx.choose("s", [None, 1, 2, -1, -2])
    same_block(ctx, b[i:j:s], xs[i:j:s], "slice")


@harness(P)
def ends(ctx):
    xs = ctx.list("x", 0, 4, "val")
    b = Block(xs)
    if xs:
        both(ctx, "head", lambda: xs[0], lambda: b.head(), lambda: block.head(b))
        blocks(ctx, "tail", lambda: xs[1:], lambda: b.tail(), lambda: block.tail(b))
    else:
        ctx.raises(ValueError, lambda: b.head(), "head of an empty block")
        ctx.raises(ValueError, lambda: b.tail(), "tail of an empty block")
    both(ctx, "try_head", lambda: Some(xs[0]) if xs else Nothing, lambda: b.try_head(), lambda: block.try_head(b))


@harness(P, quick=[dict(n=4)], thorough=[dict(n=6)])
def joining(ctx, n):
    xs, ys = ctx.list("x", 0, n), ctx.list("y", 0, n)
    a, b = Block(xs), Block(ys)
    v = ctx.value("v", "val")
    blocks(ctx, "append", lambda: xs + ys, lambda: a.append(b), lambda: a.pipe(block.append(b)), lambda: a + b,
           lambda: block.concat([a, b]), lambda: block.concat(iter([a, b])))
    blocks(ctx, "cons", lambda: [v] + xs, lambda: a.cons(v), lambda: block.cons(v, a))
    blocks(ctx, "zip", lambda: list(zip(xs, ys)), lambda: a.zip(b), lambda: a.pipe(block.zip(b)))
    same_block(ctx, a, xs, "the left operand keeps its elements")
    same_block(ctx, b, ys, "the right operand keeps its elements")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def concats(ctx, n):
    k = ctx.size("k", 0, n)
    xss = [ctx.list(f"x{i}", 0, 2) for i in range(k)]
    blocks(ctx, "concat", lambda: [x for xs in xss for x in xs], lambda: block.concat([Block(xs) for xs in xss]),
           lambda: block.concat(Block([Block(xs) for xs in xss])))


@harness(P, **N)
def indexed(ctx, n, w):
    xs = xs_of(ctx, n)
    b = Block(xs)
    s = ctx.int("s")
    blocks(ctx, "indexed", lambda: [(i, x) for i, x in enumerate(xs)], lambda: b.indexed(), lambda: block.indexed(b))
    st = ctx.size("start", -w, w)
    blocks(ctx, "indexed(start)", lambda: [(st + i, x) for i, x in enumerate(xs)], lambda: b.indexed(st))
    _ = s


@harness(P, quick=[dict(n=4)], thorough=[dict(n=6)])
def membership(ctx, n):
    xs = xs_of(ctx, n)
    v = ctx.int("v")
    r = v in Block(xs)
    ctx.same(bool(r), any(x == v for x in xs), "in")
    ctx.same(None in Block(xs), False, "None in")
    ys = ctx.list("y", 0, 2, "val")
    ctx.same(None in Block(ys), any(y is None for y in ys), "None in, with None")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def equality(ctx, n):
    xs, ys = ctx.list("x", 0, n), ctx.list("y", 0, n)
    a, b = Block(xs), Block(ys)
    e = ctx.eq(xs, ys)
    iff(ctx, a == b, e, "== holds exactly for the same elements in the same order")
    iff(ctx, b == a, e, "== is symmetric")
    iff(ctx, a != b, ctx.not_(e), "!=")
    iff(ctx, a == None, False, "== None")  # noqa: E711
    iff(ctx, a == 1, False, "== 1")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def pattern(ctx, n):
    """Structural pattern matching sees the elements."""
    xs = ctx.list("x", 0, n)
    match Block(xs):
        case Block([]):
            got = []
        case Block([a]):
            got = [a]
        case Block([a, b]):
            got = [a, b]
        case Block([a, *rest]):
            got = [a, *rest]
    ctx.same(got, xs, "pattern matching")


@harness(P)
def plain(ctx):
    """dict() turns nested options and results into plain values."""
    xs = ctx.list("x", 0, 2, "deep")
    from .c12 import plain as ref

    ctx.same(Block(xs).dict(), [ref(x) for x in xs], "dict")
    ctx.same(block.dict(Block(xs)), [ref(x) for x in xs], "block.dict")
    ctx.same(Block([Block(xs)]).dict(), [[ref(x) for x in xs]], "dict of a nested block")


@harness(P)
def any_payload(ctx):
    """Elements of every kind pass through as they are."""
    generic.compare(ctx, generic.block_cases(*generic.elements(ctx)), generic.C06_OPS)


@harness(P, quick=grid(n=[5000, 70000]), path_timeout=120.0, cost=3)
def very_long(ctx, n):
    """Collections of thousands of elements."""
    generic.compare(ctx, generic.block_cases(*generic.very_long(n)), generic.C06_OPS, skip=generic.SLOW)


@harness(P)
def any_payload_among_many(ctx):
    """Elements of every kind in long collections."""
    generic.compare(ctx, generic.block_cases(*generic.many(ctx)), generic.C06_OPS)
