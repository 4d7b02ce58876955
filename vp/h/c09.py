"""C09: Seq pipelines are lazy and can be iterated again."""

from __future__ import annotations

import collections
import itertools

from expression import Nothing, Some, pipe
from expression.collections import Seq, seq

from ..engine import UserError
from ..registry import grid, harness
from . import generic

P = "C09"
BOUNDS = (
    "Every pipeline of 1 or 2 (thorough: 3) stages of map, starmap, filter, choose, collect, append, take, skip, "
    "tail, pairwise, scan, zip in both spellings, over a source of 3 (thorough: 4) elements that then ends or "
    "fails, with arbitrary predicates, choosers and mappings; up to 5 elements asked for; two iterations "
    "interleaved in every order, or one abandoned at any point. Sources of a dozen kinds, also ones that change "
    "between building and iterating; pipelines iterated by one of their own functions, by two threads, or after "
    "an iteration that ended in an exception."
)
OUTSIDE = "mapi, which is documented to build a collection; filter, scan, zip and unfold are lazy but not re-iterable."
ASSUMPTIONS = ["callbacks are deterministic functions of their arguments within one check"]


class Src:
    """A re-iterable source which counts what is consumed and may fail at its end."""

    def __init__(self, xs, wall):
        self.xs = xs
        self.wall = wall
        self.used = 0

    def __iter__(self):
        return SrcIter(self)


class SrcIter:
    def __init__(self, src):
        self.src = src
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        s = self.src
        s.used += 1
        if self.i >= len(s.xs):
            if s.wall:
                raise UserError(7)
            s.used -= 1
            raise StopIteration
        self.i += 1
        return s.xs[self.i - 1]


# reference stages: as lazy as possible


def r_map(f):
    def g(it):
        for x in it:
            yield f(x)
    return g


def r_filter(p):
    def g(it):
        for x in it:
            if p(x):
                yield x
    return g


def r_choose(f):
    def g(it):
        for x in it:
            o = f(x)
            if o.tag == "some":
                yield o.some
    return g


def r_collect(f):
    def g(it):
        for x in it:
            yield from f(x)
    return g


def r_append(e):
    def g(it):
        yield from it
        yield from e
    return g


def r_take(c):
    def g(it):
        if c <= 0:
            return
        i = 0
        for x in it:
            yield x
            i += 1
            if i >= c:
                return
    return g


def r_skip(c):
    def g(it):
        i = 0
        for x in it:
            if i >= c:
                yield x
            i += 1
    return g


def r_pairwise(it):
    first, prev = True, None
    for x in it:
        if not first:
            yield (prev, x)
        first, prev = False, x


def r_scan(f, s):
    def g(it):
        a = s
        yield a
        for x in it:
            a = f(a, x)
            yield a
    return g


def r_zip(ys):
    def g(it):
        return zip(it, ys)
    return g


AGAIN = ["map", "starmap", "choose", "collect", "append", "take", "skip", "tail", "pairwise"]
ONCE = ["filter", "scan", "zip"]


def stage(ctx, i, name, log):
    """(method, function, reference)"""
    if name == "map":
        f = ctx.fun(f"f{i}", "int", log=log)
        return lambda s: s.map(f), seq.map(f), r_map(f)
    if name == "starmap":
        f = ctx.fun(f"f{i}", "int", log=log)
        return (lambda s: s.map(lambda x: (x, 1)).starmap(f), lambda s: pipe(s, seq.map(lambda x: (x, 1)), seq.starmap(f)),
                r_map(lambda x: f(x, 1)))
    if name == "filter":
        p = ctx.fun(f"p{i}", "bool", log=log)
        return lambda s: s.filter(p), seq.filter(p), r_filter(p)
    if name == "choose":
        f = ctx.fun(f"o{i}", ("option", "int"), log=log)
        return lambda s: s.choose(f), seq.choose(f), r_choose(f)
    if name == "collect":
        f = ctx.fun(f"l{i}", ("list", "int", 2), log=log)
        return lambda s: s.collect(lambda x: Seq(f(x))), seq.collect(f), r_collect(f)
    if name == "append":
        e = [ctx.int(f"e{i}")]
        return lambda s: s.append(e), seq.append(e), r_append(e)
    if name == "take":
        c = ctx.size(f"c{i}", 0, 3)
        return lambda s: s.take(c), seq.take(c), r_take(c)
    if name == "skip":
        c = ctx.size(f"c{i}", 0, 2)
        return lambda s: s.skip(c), seq.skip(c), r_skip(c)
    if name == "tail":
        return lambda s: s.tail(), seq.tail, r_skip(1)
    if name == "pairwise":
        return lambda s: s.pairwise(), seq.pairwise, r_pairwise
    if name == "scan":
        f, st = ctx.fun(f"f{i}", "int", log=log), ctx.int(f"s{i}")
        return lambda s: Seq(s.scan(f, st)), seq.scan(f, st), r_scan(f, st)
    ys = [ctx.int(f"y{i}"), ctx.int(f"z{i}")]
    return lambda s: Seq(s.zip(ys)), lambda s: seq.zip(s)(ys), r_zip(ys)


def build(ctx, k, names, log, xs, wall, fn, part=None):
    src, ref = Src(xs, wall), Src(xs, wall)
    real = src if fn else Seq(src)
    want = ref
    stages = []
    for i in range(k):
        ns = names if part is None or i else names[part::4]
        a, b, r = stage(ctx, i, ctx.choose(f"op{i}", ns), log)
        stages.append((b if fn else a, r))
    for a, _ in stages:
        real = a(real)

    def fresh_ref():
        w = iter(want)
        for _, r in stages:
            w = r(w)
        return iter(w)

    return src, ref, real, fresh_ref


END = object()


def ask(it):
    """The next element, or what happens instead."""
    try:
        return ("value", next(it))
    except StopIteration:
        return ("end", None)
    except UserError as e:
        return ("raise", e)


@harness(P, quick=[dict(n=3, k=1, part=None)] + grid(n=[2], k=[2], part=[0, 1, 2, 3]),
         thorough=[dict(n=4, k=1, part=None)] + grid(n=[3], k=[2], part=[0, 1, 2, 3]) + grid(n=[2], k=[3], part=[0, 1, 2, 3]),
         cost=5)
def lazy(ctx, n, k, part):
    """No element, and no call, earlier than a maximally lazy pipeline needs it."""
    log = []
    fn = bool(ctx.bool("function spelling"))
    wall = bool(ctx.bool("source fails at its end"))
    xs = ctx.ints("x", n)
    src, ref, real, fresh = build(ctx, k, AGAIN + ONCE, log, xs, wall, fn, part)
    ctx.check(src.used == 0, "building the pipeline consumes nothing", src.used)
    ctx.check(not log, "building the pipeline calls nothing", len(log))
    it = iter(real)
    ctx.check(src.used == 0 and not log, "starting an iteration consumes nothing", (src.used, len(log)))
    rt = fresh()
    for i in range(2 * n + 2):
        del log[:]
        a = ask(it)
        na = len(log)
        del log[:]
        b = ask(rt)
        ctx.same(a, b, "element")
        ctx.check(src.used <= ref.used, "no more of the source is consumed than the element needs", (src.used, ref.used))
        ctx.check(na <= len(log), "no callback is called before its element is asked for", (na, len(log)))
        if b[0] != "value":
            break


@harness(P, quick=[dict(n=3, k=1, part=None)] + grid(n=[2], k=[2], part=[0, 1, 2, 3]),
         thorough=[dict(n=4, k=1, part=None)] + grid(n=[3], k=[2], part=[0, 1, 2, 3]),
         cost=5)
def again(ctx, n, k, part):
    """Iterating again, after an iteration that was complete or abandoned."""
    log = []
    fn = bool(ctx.bool("function spelling"))
    xs = ctx.ints("x", n)
    src, ref, real, fresh = build(ctx, k, AGAIN, log, xs, False, fn, part)
    want = list(fresh())
    m = ctx.size("abandoned after", 0, n + 2)
    it = iter(real)
    ctx.same(list(itertools.islice(it, m)), want[:m], "first iteration, to the point where it is abandoned")
    ctx.same(list(real), want, "second iteration")
    ctx.same(list(it), want[m:], "rest of the first iteration")
    ctx.same(list(real), want, "third iteration")


@harness(P, quick=[dict(n=2, k=1, steps=5)], thorough=[dict(n=3, k=1, steps=7), dict(n=2, k=2, steps=4)], cost=5)
def interleaved(ctx, n, k, steps):
    """Two iterations of the same pipeline, interleaved by a symbolic schedule."""
    log = []
    fn = bool(ctx.bool("function spelling"))
    xs = ctx.ints("x", n)
    src, ref, real, fresh = build(ctx, k, AGAIN, log, xs, False, fn)
    its = [iter(real), iter(real)]
    refs = [fresh(), fresh()]
    for j in range(steps):
        w = 1 if ctx.bool(f"turn{j}") else 0
        ctx.same(ask(its[w]), ask(refs[w]), "element of an interleaved iteration")


@harness(P, quick=[dict(n=4)], thorough=[dict(n=6)])
def sources(ctx, n):
    """Infinite and delayed sources: lazy, and fresh at each iteration."""
    log = []
    f = ctx.fun("f", "int", log=log)
    g = ctx.fun("g", ("option", ("tuple", "int", "int")), log=log)
    s = ctx.int("s")
    inf = seq.init_infinite(f)
    un = seq.unfold(g)(s)
    un2 = Seq.unfold(g, s)
    starts = []

    def gen():
        starts.append(1)
        return [f(i) for i in range(2)]

    ds = [seq.delay(gen), Seq.delay(gen)]
    ctx.check(not log and not starts, "building a source calls nothing")
    k = ctx.size("k", 0, n)
    want = [f(i) for i in range(k)]
    for _ in range(2):
        del log[:]
        ctx.same(list(itertools.islice(inf, k)), want, "init_infinite")
        ctx.check(len(log) <= k, "init_infinite computes only what is asked for")
        ctx.same(list(pipe(inf, seq.take(k))), want, "take of an infinite sequence")
        ctx.same(list(Seq(inf).take(k)), want, "take of an infinite sequence")
        ctx.same(list(Seq(seq.infinite).skip(2).take(k)), list(range(2, 2 + k)), "skip and take of an infinite sequence")
    del log[:]
    rest, st = [], s
    for _ in range(min(k, 3)):
        o = g(st)
        if o.tag == "none":
            break
        rest.append(o.some[0])
        st = o.some[1]
    calls = len(log)
    for u in (un, un2):
        del log[:]
        ctx.same(list(itertools.islice(u, min(k, 3))), rest, "unfold")
        ctx.check(len(log) <= calls, "unfold computes only what is asked for")
    for i, d in enumerate(ds):
        del starts[:]
        ctx.same(list(d), [f(0), f(1)], "delay")
        ctx.same(list(d), [f(0), f(1)], "delay, again")
        ctx.check(len(starts) == 2, "delay evaluates its function at each iteration", len(starts))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)])
def consumers(ctx, n):
    """head, try_find_index, try_pick consume no more than they need."""
    log = []
    xs = ctx.ints("x", n)
    p = ctx.fun("p", "bool", log=log)
    o = ctx.fun("o", ("option", "int"), log=log)
    for fn in (False, True):
        src = Src(xs, True)
        ctx.same(seq.head(src) if fn else Seq(src).head(), xs[0], "head")
        ctx.check(src.used == 1, "head consumes one element", src.used)
        src = Src(xs, False)
        r = pipe(src, seq.try_find_index(p)) if fn else Seq(src).try_find_index(p)
        hit = next((i for i, x in enumerate(xs) if p(x)), None)
        ctx.same(r, Nothing if hit is None else Some(hit), "try_find_index")
        ctx.check(src.used == (n if hit is None else hit + 1), "try_find_index stops at the element it finds", src.used)
        src = Src(xs, False)
        r = pipe(src, seq.try_pick(o)) if fn else Seq(src).try_pick(o)
        hit = next(((i, y) for i, y in ((i, o(x)) for i, x in enumerate(xs)) if y.tag == "some"), None)
        ctx.same(r, Nothing if hit is None else hit[1], "try_pick")
        ctx.check(src.used == (n if hit is None else hit[0] + 1), "try_pick stops at the element it picks", src.used)


@harness(P)
def many_sources(ctx):
    """concat of several sources touches each only when its turn comes; nested concat is lazy too."""
    a, b, c = Src(ctx.ints("a", 1), False), Src(ctx.ints("b", 2), False), Src(ctx.ints("c", 1), True)
    outer = Src([a, b, c], True)
    k = ctx.size("k", 0, 3)
    want = (a.xs + b.xs + c.xs)[:k]
    for mk in (lambda: seq.concat(a, b, c), lambda: Seq(a).append(b, c), lambda: seq.append(b, c)(a),
               lambda: Seq(outer).concat(), lambda: Seq(outer).collect(Seq), lambda: seq.collect(Seq)(outer)):
        for s in (a, b, c, outer):
            s.used = 0
        r = mk()
        ctx.check(a.used + b.used + c.used + outer.used == 0, "concatenating consumes nothing")
        ctx.same(list(itertools.islice(r, k)), want, "prefix of a concatenation")
        ctx.check(a.used <= 1 and b.used <= max(k - 1, 0) and c.used == 0, "concatenation consumes a prefix only")
        ctx.same(list(itertools.islice(r, k)), want, "prefix of a concatenation, again")


def raises2(x):
    raise UserError(1)


class Grown:
    """A re-iterable source with a length, other than a list."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)


class Indexed(Grown):
    def __getitem__(self, i):
        return self.xs[i]


def holder(kind, xs):
    """A source of the kind, which gives the elements of xs at the time of the iteration."""
    if kind == "list":
        return xs, xs.append
    if kind == "deque":
        d = collections.deque(xs)
        return d, d.append
    if kind == "values":
        d = dict(enumerate(xs))
        return d.values(), lambda x: d.update({len(d): x})
    if kind == "sized":
        return Grown(xs), xs.append
    return Indexed(xs), xs.append


@harness(P, quick=[dict(n=2)], thorough=[dict(n=3)], cost=4)
def grows(ctx, n):
    """What is added to the source before the iteration is part of it: building has consumed nothing."""
    fn = bool(ctx.bool("function spelling"))
    kind = ctx.choose("source", ["list", "deque", "values", "sized", "indexed"])
    xs = ctx.ints("x", ctx.size("n", 0, n))
    extra = ctx.ints("extra", 2)
    # (those that can be iterated once only may start the iterator of the source when they are built)
    name = ctx.choose("op", AGAIN + ONCE if kind in ("list", "sized", "indexed") else AGAIN)
    a, b, r = stage(ctx, 0, name, None)
    src, add = holder(kind, list(xs))
    real = b(src) if fn else a(Seq(src))
    later = list(xs)
    for e in extra:
        add(e)
        later.append(e)
        if name in AGAIN:
            ctx.same(list(real), list(r(iter(later))), f"{name}: the elements of the source when it is iterated")
    if name in ONCE:
        ctx.same(list(real), list(r(iter(later))), f"{name}: the elements of the source when it is iterated")


@harness(P)
def grows_many(ctx):
    """The same for several sources together."""
    kind = ctx.choose("source", ["list", "deque", "values", "sized", "indexed"])
    x, y, z = ctx.int("x"), ctx.int("y"), ctx.int("z")
    for mk in (lambda a, b: seq.concat(a, b), lambda a, b: Seq(a).append(b), lambda a, b: seq.append(b)(a),
               lambda a, b: Seq([a, b]).concat(), lambda a, b: Seq([a, b]).collect(Seq), lambda a, b: seq.collect(Seq)([a, b]),
               lambda a, b: seq.append(b)(seq.delay(lambda: a)), lambda a, b: seq.of_iterable(a).append(seq.of_iterable(b))):
        a, grow_a = holder(kind, [x])
        b, grow_b = holder(kind, [y])
        s = mk(a, b)
        grow_b(z)
        ctx.same(list(s), [x, y, z], "concatenation of sources that grow")
        grow_a(z)
        ctx.same(list(s), [x, z, y, z], "concatenation of sources that grow, again")


@harness(P)
def reentrant(ctx):
    """A pipeline may be iterated by one of its own functions, and again after an iteration that ended in an exception."""
    cell = generic.Cell()
    xs = [4, 7, 5, 9]

    def held(*a):
        return cell[0](*a)

    def through(p, good):
        def run(f):
            kept, cell[0] = cell[0], f(good)
            try:
                return list(p)
            finally:
                cell[0] = kept
        return run

    s = Seq(xs)
    inc, opt, two = (lambda x: x + 1), (lambda x: Some(x * 10) if x % 2 else Nothing), (lambda x: Seq([x, -x]))
    table = {
        "map": through(s.map(held), inc), "mapped twice": through(s.map(held).map(held), inc), "map, take": through(s.map(held).take(3), inc),
        "map, skip": through(s.map(held).skip(1), inc), "map, append": through(s.map(held).append(s.map(held)), inc), "choose": through(s.choose(held), opt),
        "collect": through(s.collect(held), two),
        "map, collect": through(s.map(held).collect(two), inc),
        "map, choose": through(s.map(held).choose(opt), inc),
    }
    generic.reentrant(ctx, table)
