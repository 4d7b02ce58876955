"""C08: Seq operations agree with lists."""

from __future__ import annotations

import array as stdarray
import collections
import functools
import itertools

from expression import Nothing, Some, pipe
from expression.collections import Block, Map, Seq, TypedArray, seq

from ..registry import grid, harness
from . import generic

P = "C08"
BOUNDS = (
    "Sources of every length 0..4 (thorough: 0..6) for operations that branch on a callback, 0..6 (thorough: "
    "0..9) and 40 for the others, given as list, tuple, generator, Block or Seq; elements any int or None; counts"
    " in -3..8; callbacks arbitrary pure functions returning ints, None, options or lists of up to 2 elements, "
    "possibly raising; pipelines of up to 3 operations. Elements and sources of about 60 kinds, lengths up to "
    "70000, predicates that answer with something other than True and False, callbacks that raise exceptions of "
    "40 kinds, that use the operation themselves or run in two threads at once, uses after ones that ended in an "
    "exception, elements whose own operators raise."
)
OUTSIDE = "Longer sources for branching callbacks; text representation."
ASSUMPTIONS = ["callbacks are deterministic functions of their arguments within one check"]


def drain(f):
    """The elements before the end or the exception, and the exception."""
    out = []
    try:
        for x in f():
            out.append(x)
    except Exception as e:  # noqa: BLE001
        return (out, e)
    return (out, None)


def elems(ctx, label, want, *fs):
    e = drain(want)
    for i, f in enumerate(fs):
        ctx.same(drain(f), e, f"{label} (spelling {i})")


def vals(ctx, label, want, *fs):
    e = ctx.outcome(want)
    for i, f in enumerate(fs):
        ctx.same(ctx.outcome(f), e, f"{label} (spelling {i})")


def scanned(xs, f, state):
    """The states of a scan, the initial one first (whatever it is)."""
    yield state
    for x in xs:
        state = f(state, x)
        yield state


KINDS = {
    "list": list,
    "tuple": tuple,
    "gen": lambda xs: (x for x in xs),
    "block": Block,
    "seq": Seq,
    "iter": iter,
}


def src(ctx, xs, kinds=("list", "gen", "seq")):
    k = ctx.choose("kind", kinds)
    return lambda: KINDS[k](xs)


def xs_of(ctx, n, spec="int", lo=0):
    return ctx.list("x", lo, n, spec)


BR = dict(quick=[dict(n=4)], thorough=[dict(n=6)], cost=3)
NB = dict(quick=[dict(n=6), dict(n=40, lo=40)], thorough=[dict(n=9), dict(n=130, lo=130)])


@harness(P, **NB)
def construction(ctx, n, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    s = src(ctx, xs, list(KINDS))
    for f in (lambda: Seq(s()), lambda: Seq.of_iterable(s()), lambda: seq.of_iterable(s()), lambda: seq.of_list(s()),
              lambda: Seq.of(*s()), lambda: seq.of(*s()), lambda: Seq(Seq(s()))):
        elems(ctx, "construction", lambda: xs, f)
    ctx.same(Seq(s()).length(), len(xs), "length")
    ctx.same(seq.length(Seq(s())), len(xs), "seq.length")
    r = Seq(s()).to_list()
    ctx.check(isinstance(r, Block), "to_list gives a block")
    ctx.same(list(r), xs, "to_list")
    ctx.same(list(seq.to_list(s())), xs, "seq.to_list")
    vals(ctx, "head", lambda: xs[0] if xs else raise_(ValueError), lambda: Seq(s()).head(), lambda: seq.head(s()))


def raise_(e):
    raise e("x")


@harness(P)
def small_ones(ctx):
    v = ctx.value("v", "deep")
    elems(ctx, "singleton", lambda: [v], lambda: seq.singleton(v), lambda: Seq.of(v))
    elems(ctx, "empty", lambda: [], lambda: seq.empty, lambda: Seq.empty(), lambda: Seq())
    k = ctx.size("k", 0, 6)
    elems(ctx, "infinite", lambda: list(range(k)), lambda: itertools.islice(seq.infinite, k),
          lambda: pipe(seq.infinite, seq.take(k)))
    f = ctx.fun("f", ("raises", "val"))
    elems(ctx, "init_infinite", lambda: (f(i) for i in range(k)), lambda: itertools.islice(seq.init_infinite(f), k))


@harness(P, quick=[dict(hi=4)], thorough=[dict(hi=7)])
def ranges(ctx, hi):
    a, b = ctx.size("a", -2, hi), ctx.size("b", -2, hi)
    c = ctx.choose("c", [-3, -2, -1, 1, 2, 3])
    for f in (Seq.range, seq.range):
        elems(ctx, "range(stop)", lambda: range(b), lambda: f(b))
        elems(ctx, "range(start, stop)", lambda: range(a, b), lambda: f(a, b))
        elems(ctx, "range(start, stop, step)", lambda: range(a, b, c), lambda: f(a, b, c))


@harness(P, **NB)
def maps(ctx, n, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    s = src(ctx, xs)
    f = ctx.fun("f")
    elems(ctx, "map", lambda: [f(x) for x in xs], lambda: Seq(s()).map(f), lambda: seq.map(f)(s()),
          lambda: Seq(s()).pipe(seq.map(f)))
    g = ctx.fun("g")
    elems(ctx, "mapi", lambda: [g(i, x) for i, x in enumerate(xs)], lambda: Seq(s()).mapi(g), lambda: seq.mapi(g)(s()))
    elems(ctx, "pairwise", lambda: list(zip(xs, xs[1:])), lambda: Seq(s()).pairwise(), lambda: seq.pairwise(s()))


@harness(P, **BR)
def maps_raise(ctx, n):
    xs = xs_of(ctx, n, "int")
    f = ctx.fun("f", ("raises", "val"))
    elems(ctx, "map", lambda: (f(x) for x in xs), lambda: Seq(xs).map(f), lambda: seq.map(f)(xs))
    log = []
    g = ctx.fun("g", ("raises", "int"), log=log)
    vals(ctx, "mapi", lambda: [g(i, x) for i, x in enumerate(xs)], lambda: list(Seq(xs).mapi(g)))
    log.clear()
    e = ctx.outcome(lambda: [g(x) for x in xs])
    want = list(log)
    log.clear()
    ctx.same(ctx.outcome(lambda: list(Seq(xs).map(g))), e, "map")
    ctx.same([a for _, a in log], [a for _, a in want], "map calls the function once per element, in order")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def none_elements(ctx, n):
    xs = xs_of(ctx, n, "val")
    s = src(ctx, xs)
    f = ctx.fun("f", "val")
    elems(ctx, "iteration", lambda: xs, lambda: Seq(s()))
    elems(ctx, "map", lambda: [f(x) for x in xs], lambda: Seq(s()).map(f))
    elems(ctx, "filter by truthiness", lambda: [x for x in xs if f(x)], lambda: Seq(s()).filter(f), lambda: seq.filter(f)(s()))
    vals(ctx, "head", lambda: xs[0] if xs else raise_(ValueError), lambda: Seq(s()).head())
    elems(ctx, "pairwise", lambda: list(zip(xs, xs[1:])), lambda: Seq(s()).pairwise())
    ctx.same(Seq(s()).length(), len(xs), "length")
    elems(ctx, "append", lambda: xs + xs, lambda: Seq(xs).append(s()))
    k = ctx.size("k", 0, n + 1)
    elems(ctx, "take", lambda: xs[:k], lambda: Seq(s()).take(k))
    elems(ctx, "skip", lambda: xs[k:], lambda: Seq(s()).skip(k))
    elems(ctx, "zip", lambda: [(x, x) for x in xs], lambda: Seq(s()).zip(xs))


@harness(P, **NB)
def starmaps(ctx, n, lo=0):
    k = ctx.size("|x|", lo, n)
    xs = [(ctx.int("x"), ctx.int("y")) for _ in range(k)]
    f = ctx.fun("f")
    s = src(ctx, xs)
    elems(ctx, "starmap", lambda: [f(*x) for x in xs], lambda: Seq(s()).starmap(f), lambda: seq.starmap(f)(s()),
          lambda: seq.map2(f)(s()))
    ys = [(x, y, ctx.int("z")) for x, y in xs]
    elems(ctx, "map3", lambda: [f(*x) for x in ys], lambda: seq.map3(f)(ys), lambda: Seq(ys).starmap(f))


@harness(P)
def spread(ctx):
    """starmap spreads any iterables."""
    few = ["", "ab", [1, 2], range(3), (1,), {"k": 1}, (), [[]], b"ab"]
    xs = [ctx.choose(f"x{i}", few) for i in range(ctx.size("|x|", 1, 2))]
    f = lambda *a: ("got", a)  # noqa: E731
    elems(ctx, "starmap", lambda: [f(*x) for x in xs], lambda: Seq(xs).starmap(f), lambda: seq.starmap(f)(xs))


@harness(P, **BR)
def filters(ctx, n):
    xs = xs_of(ctx, n)
    s = src(ctx, xs)
    p = ctx.fun("p", ("raises", "val") if n <= 4 else "val")  # any truthy or falsy answer
    elems(ctx, "filter", lambda: (x for x in xs if p(x)), lambda: Seq(s()).filter(p), lambda: seq.filter(p)(s()))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)], cost=3)
def chooses(ctx, n):
    xs = xs_of(ctx, n)
    s = src(ctx, xs)
    f = ctx.fun("f", ("raises", ("option", "val")) if n <= 3 else ("option", "val"))

    def ref():
        for x in xs:
            o = f(x)
            if o.tag == "some":
                yield o.some

    elems(ctx, "choose", ref, lambda: Seq(s()).choose(f), lambda: seq.choose(f)(s()))

    def pick():
        for x in xs:
            o = f(x)
            if o.tag == "some":
                return o
        return Nothing

    vals(ctx, "try_pick", pick, lambda: Seq(s()).try_pick(f), lambda: seq.try_pick(f)(s()))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=3)
def collects(ctx, n):
    xs = xs_of(ctx, n)
    s = src(ctx, xs)
    f = ctx.fun("f", ("raises", ("list", "int", 2)) if n <= 3 else ("list", "int", 2))
    w = ctx.choose("w", [lambda x: x, Seq, iter])

    def ref():
        for x in xs:
            yield from f(x)

    elems(ctx, "collect", ref, lambda: Seq(s()).collect(lambda x: w(f(x))), lambda: seq.collect(lambda x: w(f(x)))(s()))


@harness(P, **BR)
def searches(ctx, n):
    xs = xs_of(ctx, n)
    s = src(ctx, xs)
    p = ctx.fun("p", ("raises", "val"))  # any truthy or falsy answer

    def ref():
        for i, x in enumerate(xs):
            if p(x):
                return Some(i)
        return Nothing

    vals(ctx, "try_find_index", ref, lambda: Seq(s()).try_find_index(p), lambda: seq.try_find_index(p)(s()))


@harness(P, **NB)
def folds(ctx, n, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    s = src(ctx, xs)
    f, st = ctx.fun("f"), ctx.int("s")
    vals(ctx, "fold", lambda: functools.reduce(f, xs, st), lambda: Seq(s()).fold(f, st), lambda: seq.fold(f, st)(s()))
    vals(ctx, "fold_back", lambda: functools.reduce(lambda a, x: f(x, a), reversed(xs), st),
         lambda: seq.fold_back(f, s())(st))
    elems(ctx, "scan", lambda: scanned(xs, f, st), lambda: Seq(s()).scan(f, st),
          lambda: seq.scan(f, st)(s()))
    log = []
    vals(ctx, "iter", lambda: None, lambda: seq.iter(log.append)(s()))
    ctx.same(log, xs, "iter calls the action once per element, in order")


@harness(P, **BR)
def folds_raise(ctx, n):
    xs = xs_of(ctx, n)
    f, st = ctx.fun("f", ("raises", "val") if n <= 4 else ("raises", "int")), ctx.value("s", "val")
    vals(ctx, "fold", lambda: functools.reduce(f, xs, st), lambda: Seq(xs).fold(f, st), lambda: seq.fold(f, st)(xs))
    elems(ctx, "scan", lambda: scanned(xs, f, st), lambda: Seq(xs).scan(f, st),
          lambda: seq.scan(f, st)(xs))


@harness(P, **NB)
def sums(ctx, n, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    s = src(ctx, xs)
    f = ctx.fun("f")
    vals(ctx, "sum", lambda: sum(xs), lambda: Seq(s()).sum(), lambda: seq.sum(s()))
    vals(ctx, "sum_by", lambda: sum(f(x) for x in xs), lambda: Seq(s()).sum_by(f), lambda: seq.sum_by(f)(s()))


@harness(P, **BR)
def extremes(ctx, n):
    xs = xs_of(ctx, n)
    s = src(ctx, xs, ("list", "gen"))
    f = ctx.fun("f")
    g = [f(x) for x in xs]
    for lab, fns, zs, best in (("max", (lambda: seq.max(s()),), xs, True), ("min", (lambda: seq.min(s()),), xs, False),
                               ("max_by", (lambda: seq.max_by(f)(s()),), g, True),
                               ("min_by", (lambda: seq.min_by(f)(s()),), g, False)):
        for h in fns:
            if not zs:
                ctx.raises(ValueError, h, f"{lab} of an empty sequence")
                continue
            r = h()
            hit = False
            for z in zs:
                ctx.check(r >= z if best else r <= z, f"{lab} bounds every element")
                hit = ctx.or_(hit, ctx.eq_leaf(r, z))
            ctx.check(hit, f"{lab} is an element")


@harness(P, quick=[dict(n=5, w=8), dict(n=40, w=42, lo=40)], thorough=[dict(n=8, w=11), dict(n=130, w=132, lo=130)])
def takes_skips(ctx, n, w, lo=0):
    xs = xs_of(ctx, n, "int", lo)
    s = src(ctx, xs)
    c = ctx.size("c", -3, w)
    k = max(c, 0)
    elems(ctx, "take", lambda: xs[:k], lambda: Seq(s()).take(c), lambda: seq.take(c)(s()))
    elems(ctx, "skip", lambda: xs[k:], lambda: Seq(s()).skip(c), lambda: seq.skip(c)(s()))
    elems(ctx, "tail", lambda: xs[1:], lambda: Seq(s()).tail(), lambda: seq.tail(s()))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def concats(ctx, n):
    a, b, c = xs_of(ctx, n), ctx.list("y", 0, n), ctx.list("z", 0, 1)
    s = src(ctx, a)
    elems(ctx, "append", lambda: a + b, lambda: Seq(s()).append(b), lambda: seq.append(b)(s()))
    elems(ctx, "append several", lambda: a + b + c, lambda: Seq(s()).append(b, Seq(c)), lambda: seq.append(b, iter(c))(s()))
    elems(ctx, "append nothing", lambda: a, lambda: Seq(s()).append(), lambda: seq.append()(s()))
    elems(ctx, "concat", lambda: a + b + c, lambda: seq.concat(s(), b, c), lambda: Seq([Seq(s()), Seq(b), Seq(c)]).concat(),
          lambda: Seq.of(Seq(a), Seq(b), Seq(c)).concat())
    elems(ctx, "concat of nothing", lambda: [], lambda: seq.concat(), lambda: Seq([]).concat())
    elems(ctx, "delay", lambda: a, lambda: seq.delay(s), lambda: Seq.delay(s))
    elems(ctx, "zip", lambda: list(zip(a, b)), lambda: Seq(s()).zip(b), lambda: seq.zip(s())(b), lambda: Seq(a).zip(iter(b)))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=6)])
def unfolds(ctx, n):
    f = ctx.fun("f", ("raises", ("option", ("tuple", "val", "int"))))
    s0 = ctx.int("s")

    def ref():
        s = s0
        while True:
            o = f(s)
            if o.tag == "none":
                return
            x, s = o.some
            yield x

    elems(ctx, "unfold", lambda: itertools.islice(ref(), n), lambda: itertools.islice(seq.unfold(f)(s0), n),
          lambda: itertools.islice(Seq.unfold(f, s0), n))


STEPS = ["map", "filter", "take", "skip", "choose", "collect", "pairwise", "append", "scan", "mapi", "tail"]


def step(ctx, i, name):
    """(method spelling, function spelling, reference on lists) of one stage."""
    from ..engine import shape

    if name == "map":
        f = ctx.fun(f"f{i}")
        return lambda s: s.map(f), seq.map(f), lambda xs: [f(x) for x in xs]
    if name == "mapi":
        f = ctx.fun(f"f{i}")
        return lambda s: s.mapi(f), seq.mapi(f), lambda xs: [f(j, x) for j, x in enumerate(xs)]
    if name == "filter":
        p = ctx.fun(f"p{i}", "bool")
        return lambda s: s.filter(p), seq.filter(p), lambda xs: [x for x in xs if p(x)]
    if name == "take":
        c = ctx.size(f"c{i}", 0, 2)
        return lambda s: s.take(c), seq.take(c), lambda xs: xs[:c]
    if name == "skip":
        c = ctx.size(f"c{i}", 0, 2)
        return lambda s: s.skip(c), seq.skip(c), lambda xs: xs[c:]
    if name == "tail":
        return lambda s: s.tail(), seq.tail, lambda xs: xs[1:]
    if name == "choose":
        f = ctx.fun(f"o{i}", ("option", "int"))
        return lambda s: s.choose(f), seq.choose(f), lambda xs: [o.some for o in map(f, xs) if o.tag == "some"]
    if name == "collect":
        f = ctx.fun(f"l{i}")
        return (lambda s: s.collect(lambda x: Seq([x, f(x)])), seq.collect(lambda x: [x, f(x)]),
                lambda xs: [y for x in xs for y in (x, f(x))])
    if name == "pairwise":
        return lambda s: s.pairwise(), seq.pairwise, lambda xs: list(zip(xs, xs[1:]))
    if name == "append":
        e = ctx.int(f"e{i}")
        return lambda s: s.append([e]), seq.append([e]), lambda xs: xs + [e]
    f, st = ctx.fun(f"f{i}"), ctx.int(f"s{i}")
    _ = shape
    return lambda s: Seq(s.scan(f, st)), seq.scan(f, st), lambda xs: list(scanned(xs, f, st))


@harness(P, quick=[dict(n=2, k=2, part=p) for p in range(4)], thorough=[dict(n=2, k=3, part=p) for p in range(11)],
         cost=4)
def pipelines(ctx, n, k, part):
    """Any pipeline of k stages gives what the stages give on lists."""
    xs = xs_of(ctx, n, "int", n)
    m = Seq(xs)
    fs, want = [], xs
    mod = 4 if k == 2 else 11
    for i in range(k):
        name = ctx.choose(f"op{i}", [s for j, s in enumerate(STEPS) if i or j % mod == part])
        a, b, r = step(ctx, i, name)
        m = a(m)
        fs.append(b)
        want = r(want)
    ctx.same(list(m), want, "pipeline of methods")
    ctx.same(list(Seq(xs).pipe(*fs)), want, "pipeline of functions")


@harness(P, quick=grid(n=[4000], kind=["list", "gen", "seq"]), validations=1)
def long_ones(ctx, n, kind):
    """Long sequences: no limit from the size."""
    v = ctx.int("v")
    xs = [v + i if i % 1000 == 7 else i for i in range(n)]
    s = lambda: KINDS[kind](xs)  # noqa: E731
    vals(ctx, "length", lambda: n, lambda: Seq(s()).length(), lambda: seq.length(s()))
    vals(ctx, "sum of indices", lambda: n * (n - 1) // 2, lambda: seq.sum(i for i, _ in enumerate(s())))
    count = lambda a, _: a + 1  # noqa: E731
    vals(ctx, "fold", lambda: n, lambda: Seq(s()).fold(count, 0), lambda: seq.fold(count, 0)(s()))
    vals(ctx, "fold_back", lambda: n, lambda: seq.fold_back(lambda _, a: a + 1, s())(0))
    vals(ctx, "sum_by", lambda: n, lambda: Seq(s()).sum_by(lambda _: 1), lambda: seq.sum_by(lambda _: 1)(s()))
    elems(ctx, "map", lambda: xs, lambda: Seq(s()).map(lambda x: x), lambda: seq.map(lambda x: x)(s()))
    elems(ctx, "mapi", lambda: range(n), lambda: Seq(s()).mapi(lambda i, x: i), lambda: seq.mapi(lambda i, x: i)(s()))
    elems(ctx, "filter", lambda: xs, lambda: Seq(s()).filter(lambda x: 1), lambda: seq.filter(lambda x: 1)(s()))
    elems(ctx, "filter none", lambda: [], lambda: Seq(s()).filter(lambda x: 0), lambda: seq.filter(lambda x: 0)(s()))
    elems(ctx, "choose none", lambda: [], lambda: Seq(s()).choose(lambda x: Nothing), lambda: seq.choose(lambda x: Nothing)(s()))
    elems(ctx, "choose", lambda: xs, lambda: Seq(s()).choose(Some), lambda: seq.choose(Some)(s()))
    elems(ctx, "collect", lambda: xs, lambda: Seq(s()).collect(lambda x: Seq([x])), lambda: seq.collect(lambda x: [x])(s()))
    elems(ctx, "skip", lambda: xs[n - 2:], lambda: Seq(s()).skip(n - 2), lambda: seq.skip(n - 2)(s()))
    elems(ctx, "take", lambda: xs[:n - 2], lambda: Seq(s()).take(n - 2), lambda: seq.take(n - 2)(s()))
    elems(ctx, "pairwise", lambda: zip(xs, xs[1:]), lambda: Seq(s()).pairwise(), lambda: seq.pairwise(s()))
    elems(ctx, "scan", lambda: range(n + 1), lambda: Seq(s()).scan(count, 0), lambda: seq.scan(count, 0)(s()))
    elems(ctx, "zip", lambda: zip(xs, xs), lambda: Seq(s()).zip(s()), lambda: seq.zip(s())(s()))
    elems(ctx, "append", lambda: xs + xs, lambda: Seq(s()).append(s()), lambda: seq.append(s())(s()))
    elems(ctx, "concat", lambda: xs, lambda: seq.concat(*[[x] for x in xs]), lambda: Seq([Seq([x]) for x in xs]).concat())
    elems(ctx, "unfold", lambda: range(n), lambda: seq.unfold(lambda i: Some((i, i + 1)) if i < n else Nothing)(0))
    vals(ctx, "try_find_index", lambda: Some(n - 1), lambda: Seq(range(n)).try_find_index(lambda x: x == n - 1),
         lambda: seq.try_find_index(lambda x: x == n - 1)(range(n)))
    vals(ctx, "try_pick", lambda: Nothing, lambda: Seq(s()).try_pick(lambda x: Nothing))
    vals(ctx, "to_list", lambda: n, lambda: len(Seq(s()).to_list()))
    log = []
    seq.iter(log.append)(s())
    ctx.same(log, xs, "iter")


@harness(P, quick=grid(kind=["list", "block", "gen"]), thorough=grid(kind=["list", "tuple", "block", "iter", "gen"]))
def any_payload(ctx, kind):
    """Elements of every kind pass through as they are."""
    generic.compare(ctx, generic.seq_cases(*generic.elements(ctx), kind, raw=bool(ctx.bool("raw"))))


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    generic.reentrant(ctx, generic.seq_reentrant([4, 7, 5, 9]))


@harness(P)
def any_exception(ctx):
    """Exceptions of every type reach the caller as they are."""
    generic.raising(ctx, generic.seq_raising([4, 5, 6]))


@harness(P, quick=grid(n=[5000, 70000], kind=["list", "gen"], raw=[False, True]), path_timeout=120.0, cost=3)
def very_long(ctx, n, kind, raw):
    """Collections of thousands of elements."""
    generic.compare(ctx, generic.seq_cases(*generic.very_long(n), kind, raw=raw), skip=generic.SLOW)


@harness(P, quick=grid(kind=["list", "gen"]))
def any_payload_among_many(ctx, kind):
    """Elements of every kind in long collections."""
    generic.compare(ctx, generic.seq_cases(*generic.many(ctx), kind, raw=bool(ctx.bool("raw"))))


@harness(P)
def any_truth(ctx):
    """Predicates that answer with true and false values of every kind."""
    generic.truths(ctx, generic.seq_truths())


class OldStyle:
    """Iterable by indexing only."""

    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]


class Unsized:
    """Iterable only; a length and items are refused."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        raise TypeError("no length")

    def __getitem__(self, i):
        raise TypeError("no items")

    def __bool__(self):
        raise TypeError("no truth")


class Falsy(Unsized):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Other(collections.UserList):
    pass


SOURCES = {
    "dict": lambda: {3: 0, 1: 9, 2: 1}, "text keys": lambda: {"b": 0, "a": 1}, "keys": lambda: {3: 0, 1: 9}.keys(), "values": lambda: {3: 0, 1: 9}.values(),
    "items": lambda: {3: 0, 1: 9}.items(), "set": lambda: {30, 10, 20}, "frozenset": lambda: frozenset([30, 10, 20]), "str": lambda: "abca",
    "bytes": lambda: b"ab", "bytearray": lambda: bytearray(b"ab"), "range": lambda: range(9, 0, -4), "deque": lambda: collections.deque([3, 1, 2]),
    "array": lambda: stdarray.array("i", [3, 1, 2]), "old style": lambda: OldStyle([3, 1, 2]), "unsized": lambda: Unsized([3, 1, 2]),
    "falsy": lambda: Falsy([3, 1, 2]), "UserList": lambda: Other([3, 1, 2]), "memoryview": lambda: memoryview(b"ab"), "reversed": lambda: reversed([3, 1]),
    "Map": lambda: Map.of_seq([(3, 0), (1, 9)]), "TypedArray": lambda: TypedArray([3, 1, 2]), "Seq": lambda: Seq([3, 1, 2]), "seq.map": lambda: seq.map(lambda x: x)([3, 1]),
    "Counter": lambda: collections.Counter([1, 1, 2]), "defaultdict": lambda: collections.defaultdict(list, {5: 1, 0: 2}),
}


@harness(P)
def any_source(ctx):
    """Iterables of every kind as the source."""
    kind = ctx.choose("source", list(SOURCES))
    make = SOURCES[kind]
    xs = list(make())
    v = xs[ctx.size("v", 0, len(xs) - 1)]
    cases = generic.seq_cases(v, generic.Mark(), xs, "other", raw=bool(ctx.bool("raw")), make=make)
    cases = [c for c in cases if not (kind == "items" and " is" in c[0] or kind == "items" and c[0].startswith(("choose some", "try_find_index", "try_pick last")))]
    generic.compare(ctx, cases)


@harness(P)
def results_of_actions(ctx):
    """What an action returns means nothing."""
    r = generic.TRUTHS[ctx.size("returned", 0, len(generic.TRUTHS) - 1)]
    seen = []

    def action(x):
        seen.append(x)
        return r

    ctx.check(pipe([4, 5, 6], seq.iter(action)) is None, "iter gives nothing")
    pipe(Seq([4, 5, 6]), seq.iter(action))
    ctx.check(seen == [4, 5, 6, 4, 5, 6], "iter: every element", seen)


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    generic.touchy(ctx, {
        "sum": lambda t: Seq([t(), t()]).sum(), "seq.sum": lambda t: seq.sum(iter([t(), t()])), "sum_by": lambda t: Seq([1, 2]).sum_by(lambda x: t()), "seq.sum_by": lambda t: seq.sum_by(lambda x: t())([1, 2]),
        "max": lambda t: seq.max(iter([t(1), t(2)])), "min": lambda t: seq.min(iter([t(1), t(2)])), "max_by": lambda t: seq.max_by(lambda x: t(x))([1, 2]), "min_by": lambda t: seq.min_by(lambda x: t(x))([1, 2]),
        "fold": lambda t: Seq([t(), t()]).fold(lambda s, x: s + x, 0), "scan": lambda t: list(Seq([t(), t()]).scan(lambda s, x: s + x, 0)),
        "filter": lambda t: list(Seq([t(1)]).filter(lambda x: x == 1)), "map": lambda t: list(Seq([t(1)]).map(lambda x: x < 1)),
    })
