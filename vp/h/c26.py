"""C26: AsyncSeq operations agree with lists, lazily, wherever the source suspends or fails."""

from __future__ import annotations

from expression import Nothing, Some, pipe
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq

from ..aloop import Steps, Suspend, drive
from ..engine import UserError
from ..registry import grid, harness
from . import generic, odd
from .c07 import ALIKE, Tagged
from .common import both

P = "C26"
BOUNDS = (
    "Sources of every length 0..3 (thorough: 0..5) of any ints, which suspend or not before each element and "
    "before ending, and end or raise after the last; each operation by itself, given to a consumer that stops "
    "after any number of elements, and every chain of two (thorough: three) operations; callbacks arbitrary pure "
    "functions, possibly raising; counts -1..5; two consumers interleaved by a symbolic schedule of up to 6 "
    "steps; lengths 40 and 1500 for single operations without a branching callback. Elements of about 60 kinds, "
    "predicates that answer with something other than True and False, exceptions of 40 kinds, callbacks that use "
    "the operation themselves or run in two threads at once, elements whose own operators raise; the rest of a source that is read once, after an operation is done with it."
)
OUTSIDE = "Longer sources for branching callbacks; asynchronous callbacks (the operations take none)."
ASSUMPTIONS = ["a consumer resumes a computation only where it suspended (coroutine protocol)"]


class Source:
    """A re-iterable asynchronous source; counts the elements asked of it."""

    def __init__(self, xs, waits, fails=None):
        self.xs, self.waits, self.fails = xs, waits, fails
        self.asked = 0

    def __aiter__(self):
        return Cursor(self)


class Cursor:
    def __init__(self, s):
        self.s, self.i = s, 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        s, i = self.s, self.i
        self.i += 1
        s.asked += 1
        if i < len(s.waits) and s.waits[i]:
            await Suspend(None)
        if i < len(s.xs):
            return s.xs[i]
        if i == len(s.xs) and s.fails is not None:
            raise s.fails if isinstance(s.fails, BaseException) else UserError(s.fails)
        raise StopAsyncIteration


class Ref:
    """The same source, for the reference: a plain iterator."""

    def __init__(self, xs, fails=None):
        self.xs, self.fails, self.asked = xs, fails, 0

    def __iter__(self):
        for x in self.xs:
            self.asked += 1
            yield x
        self.asked += 1
        if self.fails is not None:
            raise UserError(self.fails)


def source(ctx, n, spec="int", lo=0, fails=True, waits=True):
    k = ctx.size("n", lo, n)
    xs = [ctx.value(f"x{i}", spec) for i in range(k)]
    w = [ctx.choose(f"w{i}", [False, True]) for i in range(k + 1)] if waits else []
    e = ctx.choose("fails", [None, 3]) if fails else None
    return Source(xs, w, e), Ref(xs, e)


async def trace(ai, src, stop):
    """What a consumer that takes at most `stop` elements sees, and what was asked of the source by then."""
    out = []
    try:
        it = aiter(ai)
        while len(out) < stop:
            v = await anext(it)
            out.append((v, src.asked))
    except StopAsyncIteration:
        return out, ("end", src.asked)
    except UserError as e:
        return out, ("raise", e.code, src.asked)
    return out, ("stopped", src.asked)


def reference(it, src, stop):
    out = []
    try:
        it = iter(it)
        while len(out) < stop:
            out.append((next(it), src.asked))
    except StopIteration:
        return out, ("end", src.asked)
    except UserError as e:
        return out, ("raise", e.code, src.asked)
    return out, ("stopped", src.asked)


def compare(ctx, got, want, label):
    (go, ge), (wo, we) = got, want
    ctx.same([v for v, _ in go], [v for v, _ in wo], f"{label}: elements")
    ctx.same(ge[:-1], we[:-1], f"{label}: how it ends")
    for (_, a), (_, b) in zip(go, wo):
        ctx.check(a <= b, f"{label}: elements asked of the source before an element is delivered", (a, b))
    ctx.check(ge[-1] <= we[-1], f"{label}: elements asked of the source in all", (ge[-1], we[-1]))


# -- reference operations on iterators


def r_choose(f):
    def g(it):
        for x in it:
            o = f(x)
            if o.tag == "some":
                yield o.some
    return g


def r_take(c):
    def g(it):
        if c <= 0:
            return
        i = 0
        for x in it:
            yield x
            i += 1
            if i == c:
                return
    return g


def r_skip(c):
    def g(it):
        for i, x in enumerate(it):
            if i >= c:
                yield x
    return g


def r_scan(f, s):
    def g(it):
        acc = s
        yield acc
        for x in it:
            acc = f(acc, x)
            yield acc
    return g


def agen(xs):
    async def g():
        for x in xs:
            yield x
    return g()


def stage(ctx, name, kinds, raising=False, counts=range(-1, 6)):
    """One operation: its name, how to apply it, and the reference."""
    k = ctx.choose(name, kinds)
    r = (lambda s: ("raises", s)) if raising else (lambda s: s)
    if k in ("map", "m.map"):
        f = ctx.fun(name + "f", r("int"))
        return k, lambda s: AsyncSeq(s).map(f) if k == "map" else asyncseq.map(f)(s), lambda it: (f(x) for x in it)
    if k in ("filter", "m.filter"):
        f = ctx.fun(name + "p", r("bool"))
        return k, (lambda s: AsyncSeq(s).filter(f) if k == "filter" else asyncseq.filter(f)(s)), (
            lambda it: (x for x in it if f(x)))
    if k in ("choose", "m.choose"):
        f = ctx.fun(name + "c", r(("option", "int")))
        return k, (lambda s: AsyncSeq(s).choose(f) if k == "choose" else asyncseq.choose(f)(s)), r_choose(f)
    if k in ("collect", "m.collect"):
        f = ctx.fun(name + "l", r(("list", "int", 2)))

        def mapping(x):
            return agen(f(x))
        return k, (lambda s: AsyncSeq(s).collect(mapping) if k == "collect" else asyncseq.collect(mapping)(s)), (
            lambda it: (y for x in it for y in f(x)))
    if k == "concat":
        f = ctx.fun(name + "l", ("list", "int", 2))

        async def go(s):
            return await AsyncSeq(await AsyncSeq(s).map(lambda x: agen(f(x)))).concat()
        return k, go, lambda it: (y for x in it for y in f(x))
    if k == "scan":
        f, s0 = ctx.fun(name + "s", r("int")), ctx.int(name + "s0")
        return k, lambda s: AsyncSeq(s).scan(f, s0), r_scan(f, s0)
    if k == "take":
        c = ctx.choose(name + "n", list(counts))
        return k, lambda s: AsyncSeq(s).take(c), r_take(c)
    if k == "skip":
        c = ctx.choose(name + "n", list(counts))
        return k, lambda s: AsyncSeq(s).skip(c), r_skip(c)
    if k == "tail":
        return k, lambda s: AsyncSeq(s).tail(), r_skip(1)
    if k == "append":
        ys = ctx.ints(name + "y", 2)
        return k, lambda s: asyncseq.append(agen(ys))(s), lambda it: iter_append(it, ys)
    if k == "wrap":
        return k, lambda s: AsyncSeq(AsyncSeq(s)), lambda it: it
    raise AssertionError(k)


def iter_append(it, ys):
    yield from it
    yield from ys


STREAM = ["map", "m.map", "filter", "m.filter", "choose", "m.choose", "collect", "m.collect", "concat", "scan", "take",
          "skip", "tail", "append", "wrap"]


async def applied(ap, s):
    r = ap(s)
    return await r if hasattr(r, "__await__") else r


@harness(P, quick=[dict(k=k, n=2 if "c" in k else 3) for k in STREAM],
         thorough=[dict(k=k, n=3 if "c" in k else 5) for k in STREAM], cost=2)
def single(ctx, k, n):
    src, ref = source(ctx, n)
    _, ap, rf = stage(ctx, "op", [k], raising=True)
    stop = ctx.size("stop", 0, n + 2) if k not in ("collect", "m.collect", "concat") else 9

    async def go():
        r = await applied(ap, src)
        ctx.check(src.asked == 0, f"{k}: nothing is asked of the source before the first element is")
        return await trace(r, src, stop)

    compare(ctx, drive(go()), reference(rf(ref), ref, stop), k)


@harness(P, quick=[dict(n=2, m=2)], thorough=[dict(n=2, m=3)], cost=6)
def chains(ctx, n, m):
    """Operations applied to results of operations."""
    src, ref = source(ctx, n, fails=False, waits=False)
    src.waits = [True] * 9
    sts = [stage(ctx, f"op{i}", ["map", "filter", "m.choose", "scan", "take", "skip", "tail", "append", "m.filter"]) for i in range(m)]
    stop = ctx.choose("stop", [1, 9])

    async def go():
        s = src
        for _, ap, _ in sts:
            s = await applied(ap, s)
        return await trace(s, src, stop)

    it = ref
    for _, _, rf in sts:
        it = rf(it)
    compare(ctx, drive(go()), reference(it, ref, stop), "a chain")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)], cost=2)
def reductions(ctx, n):
    src, ref = source(ctx, n)
    f = ctx.fun("f", ("raises", "int"))
    s0 = ctx.int("s0")
    s = AsyncSeq(src)

    def fold():
        acc = s0
        for x in ref:
            acc = f(acc, x)
        return acc

    def fold_back():
        acc = s0
        for x in list(ref)[::-1]:
            acc = f(x, acc)
        return acc

    op = ctx.choose("op", ["fold", "fold_back", "length", "sum", "head"])
    if op == "fold":
        both(ctx, op, fold, lambda: drive(s.fold(f, s0)))
    elif op == "fold_back":
        both(ctx, op, fold_back, lambda: drive(s.fold_back(f, s0)))
    elif op == "length":
        both(ctx, op, lambda: len(list(ref)), lambda: drive(s.length()))
    elif op == "sum":
        both(ctx, op, lambda: total(ref), lambda: drive(s.sum()))
    elif op == "head":
        if src.xs:
            ctx.same(drive(s.head()), src.xs[0], "head")
            ctx.check(src.asked == 1, "head asks for one element", src.asked)
        elif src.fails is None:
            ctx.raises(ValueError, lambda: drive(s.head()), "head of nothing")
        else:
            ctx.raises(UserError, lambda: drive(s.head()), "head of a failing source")


def total(it):
    t = 0
    for x in it:
        t = t + x
    return t


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)], cost=2)
def extremes(ctx, n):
    src, ref = source(ctx, n, waits=False)
    s = AsyncSeq(src)
    hi = lo = None
    for i, x in enumerate(src.xs):
        hi = ctx.ite(x > hi, x, hi) if i else x
        lo = ctx.ite(x < lo, x, lo) if i else x
    if src.fails is not None:
        ctx.raises(UserError, lambda: drive(s.max()), "max of a failing source")
        ctx.raises(UserError, lambda: drive(s.min()), "min of a failing source")
    elif src.xs:
        ctx.same(drive(s.max()), hi, "max")
        ctx.same(drive(s.min()), lo, "min")
    else:
        ctx.raises(ValueError, lambda: drive(s.max()), "max of nothing")
        ctx.raises(ValueError, lambda: drive(s.min()), "min of nothing")


async def collected(ai):
    return [x async for x in ai]


@harness(P, quick=[dict(hi=4)], thorough=[dict(hi=7)])
def creation(ctx, hi):
    a, b = ctx.size("a", -2, hi), ctx.size("b", -2, hi)
    c = ctx.choose("c", [-3, -1, 1, 2])
    for f in (AsyncSeq.range, asyncseq.range):
        ctx.same(drive(collected(f(b))), list(range(b)), "range(stop)")
        ctx.same(drive(collected(f(a, b))), list(range(a, b)), "range(start, stop)")
        ctx.same(drive(collected(f(a, b, c))), list(range(a, b, c)), "range(start, stop, step)")
    ctx.same(drive(collected(AsyncSeq.empty())), [], "empty")
    ctx.same(drive(collected(asyncseq.empty())), [], "asyncseq.empty")
    v = ctx.value("v", "deep")
    k = ctx.size("k", 0, hi)
    ctx.same(drive(collected(asyncseq.repeat(v, k))), [v] * k, "repeat")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def again(ctx, n):
    """An AsyncSeq over a re-iterable source can be iterated, and operated on, any number of times."""
    src, _ = source(ctx, n, "val", fails=False)
    s = AsyncSeq(src)
    f = ctx.fun("f")

    async def go():
        r = [await collected(s) for _ in range(2)]
        r += [await collected(await s.map(f)), await collected(await s.tail()), await collected(s)]
        return r, await s.length()

    xs = src.xs
    ctx.same(drive(go()), ([xs, xs, [f(x) for x in xs], xs[1:], xs], len(xs)), "iterating again")


CONSUMED = ["map", "take", "skip", "tail", "scan", "choose"]


@harness(P, quick=grid(a=CONSUMED, n=[2], m=[4]), thorough=grid(a=CONSUMED, n=[2], m=[8]), cost=3)
def two_consumers(ctx, a, n, m):
    """Two results taken from one AsyncSeq do not affect each other, however their consumers interleave."""
    src, ref = source(ctx, n, fails=False, waits=False)
    src.waits = [True] * (n + 1)
    s = AsyncSeq(src)
    k = CONSUMED
    sts = [stage(ctx, "a", [a], counts=[1, 2]), stage(ctx, "b", k, counts=[1, 2])]
    outs = [[], []]

    async def consume(i):
        async for v in await applied(sts[i][1], s):
            outs[i].append(v)

    with Steps(consume(0), consume(1)) as t:
        for i in range(m):
            w = t.waiting
            if w:
                t.resume(w[0] if len(w) == 1 else w[ctx.size("next", 0, len(w) - 1)])
        for _ in range(20):
            if t.waiting:
                t.resume(t.waiting[0])
        ctx.check(t.outcome(0) == t.outcome(1) == ("ok", None), "both consumers end")
    for i in (0, 1):
        ctx.same(outs[i], list(sts[i][2](iter(src.xs))), f"consumer {i}")


@harness(P, quick=grid(n=[40, 1500], k=["map", "m.map", "scan", "take", "skip", "tail", "append", "wrap"]),
         validations=1)
def long_ones(ctx, n, k):
    src, ref = source(ctx, 0, fails=False, waits=False)
    x = ctx.ints("x", 5)
    src.xs = ref.xs = [x[i % 5] + i for i in range(n)]
    if k == "take":
        c = ctx.choose("c", [1, n - 1, n, n + 1])
        ap, rf = (lambda s: AsyncSeq(s).take(c)), r_take(c)
    elif k == "skip":
        c = ctx.choose("c", [1, n - 1, n, n + 1])
        ap, rf = (lambda s: AsyncSeq(s).skip(c)), r_skip(c)
    elif k in ("map", "m.map"):
        g = lambda v: v + 1  # noqa: E731
        ap = (lambda s: AsyncSeq(s).map(g)) if k == "map" else (lambda s: asyncseq.map(g)(s))
        rf = lambda it: (v + 1 for v in it)  # noqa: E731
    elif k == "scan":
        g = lambda a, v: v - a  # noqa: E731
        ap, rf = (lambda s: AsyncSeq(s).scan(g, 0)), r_scan(g, 0)
    else:
        _, ap, rf = stage(ctx, "op", [k])

    async def go():
        return await trace(await applied(ap, src), src, n + 5)

    (go_, ge), (wo, we) = drive(go()), reference(rf(ref), ref, n + 5)
    ctx.same([v for v, _ in go_], [v for v, _ in wo], f"{k}: elements")
    ctx.check(all(a <= b for (_, a), (_, b) in zip(go_, wo)) and ge[-1] <= we[-1], f"{k}: elements asked of the source")
    ctx.same(drive(AsyncSeq(src).length()), n, "length")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)], cost=2)
def reading_on(ctx, n):
    """What an operation did not need of a source that is read only once is there for the next reader."""
    xs = ctx.list("x", 1, n, "int")
    k, ap, rf = stage(ctx, "op", [x for x in STREAM if x not in ("wrap", "append")], counts=range(0, 4))
    stop = ctx.size("stop", 0, 2)
    ended = ctx.choose("then", ["ended", "closed", "left"])

    async def go():
        src = agen(xs)
        r = await applied(ap, src)
        it, out = aiter(r), []
        try:
            while len(out) < stop:
                out.append(await anext(it))
            if ended == "ended":
                out.append(await anext(it))
            elif ended == "closed" and hasattr(it, "aclose"):
                await it.aclose()
        except StopAsyncIteration:
            pass
        del r, it
        return out, [x async for x in src]

    ref = iter(xs)
    it, out = iter(rf(ref)), []
    for v in it:
        if len(out) >= stop and ended != "ended" or len(out) > stop:
            break
        out.append(v)
        if len(out) >= stop + (ended == "ended"):
            break
    if stop == 0 and ended != "ended":
        out, ref = [], iter(xs)
    ctx.same(drive(go()), (out, list(ref)), f"{k}, then reading on")


@harness(P, quick=[dict(n=2)], thorough=[dict(n=3)])
def lazily_appended(ctx, n):
    """append asks nothing of the second source before the first one ends."""
    src, _ = source(ctx, n, fails=True)
    other = Source(ctx.ints("y", 2), [ctx.choose("w", [False, True])], None)
    stop = ctx.size("stop", 0, n + 3)

    async def go():
        r = asyncseq.append(other)(src)
        seen = []
        try:
            it = aiter(r)
            while len(seen) < stop:
                seen.append((await anext(it), other.asked))
        except StopAsyncIteration:
            return seen, "end"
        except UserError:
            return seen, "raise"
        return seen, "stopped"

    seen, end = drive(go())
    whole = src.xs + (other.xs if src.fails is None else [])
    ctx.same([v for v, _ in seen], whole[:stop], "append")
    for i, (_, asked) in enumerate(seen):
        ctx.check(asked <= max(0, i + 1 - len(src.xs)), "what append asked of the second source", (i, asked))
    if stop > len(whole):
        ctx.check(end == ("end" if src.fails is None else "raise"), "how append ends", end)


@harness(P, quick=[dict(n=2)], thorough=[dict(n=3)])
def inner_lazily(ctx, n):
    """collect and concat ask no more of an inner source than is consumed, and call the function only when needed."""
    src, _ = source(ctx, n, fails=False, waits=False)
    inner = {}
    calls = []
    waits = ctx.choose("w", [False, True])

    def mapping(x):
        i = len(calls)
        calls.append(x)
        inner[i] = Source([x, x + 1], [waits] * 3, None)
        return inner[i]

    k = ctx.choose("op", ["collect", "m.collect", "concat"])
    stop = ctx.size("stop", 0, 2 * n + 1)

    async def go():
        if k == "concat":
            r = await AsyncSeq(await AsyncSeq(src).map(mapping)).concat()
        elif k == "collect":
            r = await AsyncSeq(src).collect(mapping)
        else:
            r = asyncseq.collect(mapping)(src)
        return await trace(r, src, stop)

    out, end = drive(go())
    want = [y for x in src.xs for y in (x, x + 1)]
    ctx.same([v for v, _ in out], want[:stop], k)
    got = len(out)
    if end[0] == "stopped":
        need = (got + 1) // 2
        ctx.check(src.asked <= need and len(calls) <= need, f"{k}: what was asked of the outer source", (src.asked, got))
        ctx.check(sum(s.asked for s in inner.values()) <= got + max(0, need - 1), f"{k}: what was asked of the inner sources")


@harness(P, quick=[dict(n=2)], thorough=[dict(n=3)])
def cancelled(ctx, n):
    """An exception thrown in where the source suspends reaches the consumer, after the elements so far."""
    k = ctx.choose("k", ["map", "m.map", "skip", "take", "tail", "scan", "append", "wrap"])
    xs = ctx.ints("x", n)
    at = ctx.size("at", 0, n)
    src = Source(xs, [i == at for i in range(n + 1)], None)
    f = lambda v: v + 1  # noqa: E731
    ap, rf = {
        "map": (lambda s: AsyncSeq(s).map(f), lambda it: (f(v) for v in it)),
        "m.map": (lambda s: asyncseq.map(f)(s), lambda it: (f(v) for v in it)),
        "skip": (lambda s: AsyncSeq(s).skip(1), r_skip(1)), "take": (lambda s: AsyncSeq(s).take(9), r_take(9)),
        "tail": (lambda s: AsyncSeq(s).tail(), r_skip(1)),
        "scan": (lambda s: AsyncSeq(s).scan(lambda a, v: a + v, 0), r_scan(lambda a, v: a + v, 0)),
        "append": (lambda s: asyncseq.append(agen([]))(s), lambda it: it), "wrap": (AsyncSeq, lambda it: it),
    }[k]
    got = []

    async def go():
        async for v in await applied(ap, src):
            got.append(v)

    e = UserError(7)
    with Steps(go()) as t:
        ctx.same(got, list(rf(iter(xs[:at]))), f"{k}: elements before the suspension")
        t.resume(t.waiting[0], e)
        r = t.outcome(0)
        ctx.check(r is not None and r[0] == "raise" and r[1] is e, f"{k}: the exception reaches the consumer", r)
    ctx.same(got, list(rf(iter(xs[:at]))), f"{k}: nothing follows the exception")


@harness(P)
def any_payload(ctx):
    """Elements of every kind pass through as they are."""
    v, w, xs = generic.elements(ctx)
    src = Source(xs, [ctx.choose("waits", [False, True])] * 9)
    s = AsyncSeq(src)
    k = len(xs)

    def c(aw):
        async def go():
            r = await aw if hasattr(aw, "__await__") else aw
            return [x async for x in r]
        return drive(go())

    vs = [x for x in xs if x is v]
    generic.compare(ctx, [
        ("create", lambda: c(s), xs), ("create repeat", lambda: c(asyncseq.repeat(v, 2)), [v, v]),
        ("map", lambda: c(s.map(lambda x: x)), xs), ("map asyncseq", lambda: c(asyncseq.map(lambda x: v)(src)), [v] * k),
        ("filter", lambda: c(s.filter(lambda x: True)), xs), ("filter asyncseq", lambda: c(asyncseq.filter(lambda x: x is v)(src)), vs),
        ("choose", lambda: c(s.choose(Some)), xs), ("choose asyncseq", lambda: c(asyncseq.choose(lambda x: Some(v))(src)), [v] * k),
        ("choose some", lambda: c(s.choose(lambda x: Some(x) if x is v else Nothing)), vs),
        ("collect", lambda: c(s.collect(lambda x: agen([x, v]))), [y for x in xs for y in (x, v)]),
        ("collect asyncseq", lambda: c(asyncseq.collect(lambda x: agen([v]))(src)), [v] * k),
        ("concat", lambda: c(AsyncSeq(agen([agen(xs), agen([v])])).concat()), [*xs, v]),
        ("fold", lambda: drive(s.fold(lambda a, x: [*a, x], [])), xs), ("fold state", lambda: drive(s.fold(lambda a, x: a, v)), v),
        ("fold last", lambda: drive(s.fold(lambda a, x: x, w)), xs[-1]),
        ("fold seen", lambda: seen(lambda f: drive(s.fold(f, w)), v), [w] + [v] * (k - 1)),
        ("fold_back", lambda: drive(s.fold_back(lambda x, a: [*a, x], [])), xs[::-1]), ("fold_back state", lambda: drive(s.fold_back(lambda x, a: a, v)), v),
        ("fold_back seen", lambda: seen(lambda f: drive(s.fold_back(lambda x, a: f(a, x), w)), v), [w] + [v] * (k - 1)),
        ("fold keeps", lambda: generic.same_state(lambda f, a: drive(s.fold(lambda b, x: f(b), a))), True),
        ("fold_back keeps", lambda: generic.same_state(lambda f, a: drive(s.fold_back(lambda x, b: f(b), a))), True),
        ("scan keeps", lambda: generic.same_state(lambda f, a: c(s.scan(lambda b, x: f(b), a))[-1]), True),
        ("scan", lambda: c(s.scan(lambda a, x: x, v)), [v, *xs]), ("scan const", lambda: c(s.scan(lambda a, x: v, w)), [w] + [v] * k),
        ("take", lambda: c(s.take(1)), xs[:1]), ("take more", lambda: c(s.take(9)), xs), ("skip", lambda: c(s.skip(1)), xs[1:]), ("skip none", lambda: c(s.skip(0)), xs),
        ("head", lambda: drive(s.head()), xs[0]), ("tail", lambda: c(s.tail()), xs[1:]), ("length", lambda: drive(s.length()), k),
        ("append", lambda: c(asyncseq.append(agen([v, w]))(src)), [*xs, v, w]), ("again", lambda: c(s), xs),
        ("append itself", lambda: c(asyncseq.append(src)(src)), xs + xs), ("append itself, wrapped", lambda: c(asyncseq.append(s)(s)), xs + xs),
        ("collect itself", lambda: c(s.collect(lambda x: src)), xs * k), ("collect asyncseq, itself", lambda: c(asyncseq.collect(lambda x: s)(s)), xs * k),
        ("concat itself", lambda: c(AsyncSeq(Source([src, s, src], [False] * 9)).concat()), xs * 3),
    ])


@harness(P)
def any_truth(ctx):
    """Predicates that answer with true and false values of every kind."""
    src = Source([0, 1, 2], [ctx.choose("waits", [False, True])] * 9)

    def c(aw):
        async def go():
            r = await aw if hasattr(aw, "__await__") else aw
            return [x async for x in r]
        return drive(go())

    generic.truths(ctx, {"filter": (lambda p: c(AsyncSeq(src).filter(p)), generic.kept),
                         "asyncseq.filter": (lambda p: c(asyncseq.filter(p)(src)), generic.kept)})


def seen(run, v):
    """The states a folder that always gives v is called with."""
    out = []

    def f(a, x):
        out.append(a)
        return v

    run(f)
    return out


@harness(P)
def any_exception(ctx):
    """Exceptions of every type, of callbacks and of the source, reach the consumer after the elements so far."""
    e, shape = odd.exception_or_shape(ctx)
    # Python itself turns these into a RuntimeError when they leave an asynchronous generator
    ctx.assume(not isinstance(e, (StopIteration, StopAsyncIteration)))
    at = ctx.size("at", 0, 2)
    wait = ctx.choose("waits", [False, True])
    whose = ctx.choose("raised by", ["callback", "source"])
    calls = []

    def cb(result):
        def f(*a):
            calls.append(a)
            if whose == "callback" and len(calls) == at + 1:
                raise e
            return result
        return shape(f)

    src = Source([4, 5, 6], [wait] * 9) if whose == "callback" else Source([4, 5, 6][:at], [wait] * 9, e)
    s = AsyncSeq(src)
    for label, ap, want in (
        ("map", lambda: s.map(cb(1)), [1] * at), ("m.map", lambda: asyncseq.map(cb(1))(src), [1] * at),
        ("filter", lambda: s.filter(cb(True)), [4, 5, 6][:at]), ("m.filter", lambda: asyncseq.filter(cb(False))(src), []),
        ("choose", lambda: s.choose(cb(Some(2))), [2] * at), ("m.choose", lambda: asyncseq.choose(cb(Nothing))(src), []),
        ("collect", lambda: s.collect(cb(Source([7], [wait]))), [7] * at), ("m.collect", lambda: asyncseq.collect(cb(Source([7], [wait])))(src), [7] * at),
        ("scan", lambda: s.scan(cb(3), 0), [0] + [3] * at), ("wrap", lambda: AsyncSeq(s), [4, 5, 6][:at]),
        ("take", lambda: s.take(9), [4, 5, 6][:at]), ("skip", lambda: s.skip(0), [4, 5, 6][:at]), ("append", lambda: asyncseq.append(agen([1]))(src), [4, 5, 6][:at]),
        ("fold", lambda: s.fold(cb(0), 0), []), ("fold_back", lambda: s.fold_back(cb(0), 0), []),
        ("length", lambda: s.length(), []), ("sum", lambda: s.sum(), []), ("max", lambda: s.max(), []),
    ):
        if whose == "callback" and label in ("wrap", "take", "skip", "append", "length", "sum", "max"):
            continue
        calls.clear()
        got = []

        async def go():
            r = ap()
            r = await r if hasattr(r, "__await__") else r
            async for x in r:
                got.append(x)

        odd.passes(ctx, lambda: drive(go()), e, f"{label}: an exception of the {whose} is passed on")
        ctx.check(got == want, f"{label}: after the elements before it", (got, want))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)])
def ties(ctx, n):
    """max and min give the first of several extremes; numbers that are equal but of different types, and objects."""
    k = ctx.size("n", 1, n)
    if ctx.bool("objects"):
        xs = [Tagged(ctx.int(f"x{i}"), i) for i in range(k)]
    else:
        xs = [ctx.choose(f"x{i}", ALIKE) for i in range(k)]
    wait = ctx.choose("waits", [False, True])
    lo = hi = xs[0]
    for x in xs[1:]:
        lo = x if x < lo else lo
        hi = x if x > hi else hi
    for label, run, want in (("max", lambda s: s.max(), hi), ("min", lambda s: s.min(), lo)):
        got = drive(run(AsyncSeq(Source(xs, [wait] * 9))))
        ctx.check(got is want, f"{label} gives the first of several", (got, want))


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    xs = [4, 7, 5, 9]

    async def source_():
        for x in xs:
            yield x

    async def two(x):
        yield x
        yield -x

    async def all_of(ai):
        r = ai
        while hasattr(r, "__await__"):
            r = await r
        return [x async for x in r] if hasattr(r, "__aiter__") else r

    def run(make):
        return lambda f: generic.now(all_of(make(f)))

    plus, odd_, opt_ = (lambda a, b: a * 3 + b), (lambda x: x % 2 == 1), (lambda x: Some(x * 10) if x % 2 else Nothing)

    def fresh():
        return AsyncSeq(source_())

    table = {
        "map": run(lambda f: fresh().map(f(lambda x: x + 1))), "filter": run(lambda f: fresh().filter(f(odd_))), "choose": run(lambda f: fresh().choose(f(opt_))),
        "collect": run(lambda f: fresh().collect(f(two))), "fold": run(lambda f: fresh().fold(f(plus), 0)), "fold_back": run(lambda f: fresh().fold_back(f(plus), 0)),
        "scan": run(lambda f: fresh().scan(f(plus), 0)), "m.map": run(lambda f: pipe(source_(), asyncseq.map(f(lambda x: x + 1)))),
        "m.filter": run(lambda f: pipe(source_(), asyncseq.filter(f(odd_)))), "m.choose": run(lambda f: pipe(source_(), asyncseq.choose(f(opt_)))),
        "m.collect": run(lambda f: pipe(source_(), asyncseq.collect(f(two)))),
    }
    generic.reentrant(ctx, table)


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    async def of(*xs):
        for x in xs:
            yield x

    def s(*xs):
        return AsyncSeq(of(*xs))

    generic.touchy(ctx, {
        "sum": lambda t: generic.now(s(t(), t()).sum()), "max": lambda t: generic.now(s(t(1), t(2)).max()), "min": lambda t: generic.now(s(t(1), t(2)).min()),
        "fold": lambda t: generic.now(s(t(), t()).fold(lambda a, x: a + x, 0)),
    })
    generic.refuses(ctx, {
        "sum": lambda: generic.now(s(1, None).sum()), "max": lambda: generic.now(s(1, None).max()), "min": lambda: generic.now(s("a", 1).min()), "sum of texts": lambda: generic.now(s("a", "b").sum()),
    })
