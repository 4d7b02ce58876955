"""C25: TypedArray operations agree with Python lists, for every element type and backing store."""

from __future__ import annotations

from expression import Nothing, Ok, Some, pipe
from expression.collections import array
from expression.collections.array import TypeCode, TypedArray

from .. import arrayhook, engine
from ..registry import grid, harness
from . import generic, odd
from .c08 import SOURCES
from .common import both, iff

P = "C25"
BOUNDS = (
    "Arrays of every length 0..4 (thorough: 0..6) and, for operations that do not branch on elements, 33 and 130;"
    " element types: none, byte (from a bytearray, bytes or a type code) and each signed and unsigned width, "
    "given by the class of the elements or by a type code, with symbolic elements over the whole range of the "
    "type; floats from a few representable values; counts and indices in -7..7 (thorough: -9..9); callbacks "
    "arbitrary pure functions; histories of one mutation (thorough: two) after every derived array has been "
    "taken. Elements and sources of about 60 kinds, lengths up to 70000, callbacks that raise exceptions of 40 "
    "kinds, that use the operation themselves or run in two threads at once, uses after ones that ended in an "
    "exception, elements whose own operators raise, comparison with anything; slices of every form deleted or replaced, in arrays of 1 and 4 elements."
)
OUTSIDE = (
    "Longer arrays; float values other than those listed; values outside the range of the element type; the counts 0 "
    "of skip_last and take_last, which are a known finding."
)
ASSUMPTIONS = [
    "array.array and bytearray are represented, for symbolic elements only, by a mutable sequence that rejects values "
    "outside the range of its type code; sampled paths and counterexamples are run with the real ones",
    "callbacks are deterministic functions of their arguments within one check",
]

def Stores(ctx):  # noqa: N802
    """Within this block the module under test keeps symbolic numbers in Store and Bytes."""
    return arrayhook.switch(isinstance(ctx, engine.SymCtx) and not ctx.ex.narrow)


def as_type(cls):
    class Typed(engine.SymInt):
        __slots__ = ()

        @property
        def __class__(self):
            return cls

    return Typed


INTS = dict(int8=8, int16=16, int32=32, int64=64, uint8=8, uint16=16, uint32=32, uint64=64)
TYPED = {n: as_type(getattr(array, n)) for n in INTS}
CODES = dict(Byte="uint8", Int8="int8", Int16="int16", Int32="int32", Int64="int64", Uint8="uint8", Uint16="uint16",
             Uint32="uint32", Uint64="uint64")
KINDS = ["any"] + list(INTS) + ["code " + c for c in CODES] + ["code Any", "bytearray"]
CONCRETE = ["bytes", "float32", "float64", "double", "code Float", "code Double"]


def bounds(name):
    w = INTS[name]
    return (0, (1 << w) - 1) if name[0] == "u" else (-(1 << w - 1), (1 << w - 1) - 1)


def element(ctx, kind, name="x"):
    """One element suited to the kind, and how it is handed to the constructor."""
    if kind in ("any", "code Any"):
        x = ctx.int(name)
        return x, x
    if kind in CONCRETE:
        x = ctx.choose(name, [0, 7, 255] if kind == "bytes" else [0.0, -1.25, 3.0] if kind in ("float32", "code Float") else [0.0, -1.25, 0.1])
        return x, (getattr(array, kind)(x) if kind in ("float32", "float64", "double") else x)
    lo, hi = bounds("uint8" if kind == "bytearray" else CODES[kind[5:]] if kind.startswith("code") else kind)
    x = ctx.int(name, lo, hi)
    if kind in INTS:
        return x, (TYPED[kind](x.t) if type(x) is engine.SymInt else getattr(array, kind)(x))
    return x, x


def make(kind, ys):
    if kind.startswith("code"):
        return TypedArray(ys, typecode=getattr(TypeCode, kind[5:]))
    if kind == "bytearray":
        return TypedArray((arrayhook.Bytes if arrayhook.on else bytearray)(ys))
    if kind == "bytes":
        return TypedArray(bytes(ys))
    return TypedArray(ys)


def some_array(ctx, kind, lo, hi):
    n = ctx.size("n", lo, hi)
    els = [element(ctx, kind) for _ in range(n)]
    return [e[0] for e in els], make(kind, [e[1] for e in els])


def same_array(ctx, r, want, label):
    ctx.check(isinstance(r, TypedArray), f"{label} gives an array")
    ctx.same(list(r), want, label)
    ctx.same(len(r), len(want), f"{label}, length")


def arrays(ctx, label, want, *fs):
    e = ctx.outcome(want)
    for i, f in enumerate(fs):
        g = ctx.outcome(f)
        if g[0] == "ok":
            ctx.check(isinstance(g[1], TypedArray), f"{label} gives an array (spelling {i})")
            g = ("ok", list(g[1]))
        ctx.same(g, e, f"{label} (spelling {i})")


def idx(g):
    try:
        return ("v", g())
    except IndexError:
        return "IndexError"


def kinds(n, w, deep):
    q = [dict(kind=k, n=n, w=w) for k in KINDS] + [dict(kind=k, n=2, w=3) for k in CONCRETE]
    t = [dict(kind=k, n=deep, w=w + 2) for k in KINDS] + [dict(kind=k, n=3, w=4) for k in CONCRETE]
    return dict(quick=q, thorough=t)


@harness(P, **kinds(4, 6, 6))
def positions(ctx, kind, n, w):
    """Creation, prefixes, suffixes, access, ends."""
    with Stores(ctx):
        xs, a = some_array(ctx, kind, 0, n)
        same_array(ctx, a, xs, "creation")
        ctx.same(a.is_empty(), not xs, "is_empty")
        ctx.same(array.is_empty(a), not xs, "array.is_empty")
        c = ctx.size("c", -3, w)
        arrays(ctx, "take", lambda: xs[:c], lambda: a.take(c), lambda: a.pipe(array.take(c)))
        arrays(ctx, "skip", lambda: xs[c:], lambda: a.skip(c))
        if c > 0:
            k = max(len(xs) - c, 0)
            arrays(ctx, "take_last", lambda: xs[k:], lambda: a.take_last(c), lambda: pipe(a, array.take_last(c)))
            arrays(ctx, "skip_last", lambda: xs[:k], lambda: a.skip_last(c))
        arrays(ctx, "indexed", lambda: list(enumerate(xs, c)), lambda: a.indexed(c), lambda: a.pipe(array.indexed(c)))
        for i in (c, -c - 1) if c >= 0 else ():
            both(ctx, "[i]", lambda: ("v", xs[i]) if -len(xs) <= i < len(xs) else "IndexError",
                 *[(lambda g=g: idx(g)) for g in (lambda: a[i], lambda: a.item(i), lambda: a.pipe(array.item(i)))])
        both(ctx, "try_head", lambda: Some(xs[0]) if xs else Nothing, lambda: a.try_head(), lambda: array.try_head(a))
        if xs:
            ctx.same(a.head(), xs[0], "head")
            same_array(ctx, a.tail(), xs[1:], "tail")
        else:
            ctx.raises(ValueError, lambda: a.head(), "head of an empty array")
        same_array(ctx, a, xs, "the array keeps its elements")


@harness(P, quick=[dict(n=3, w=4)], thorough=[dict(n=5, w=7)], cost=4)
def slices(ctx, n, w):
    with Stores(ctx):
        kind = ctx.choose("kind", ["any", "int16", "bytearray"])
        xs, a = some_array(ctx, kind, 0, n)
        rng = [None] + list(range(-w, w + 1))
        i, j = ctx.choose("i", rng), ctx.choose("j", rng)
        s = ctx.choose("s", [None, 2, -1])
        ctx.same(list(a[i:j:s]), xs[i:j:s], "slice")
        same_array(ctx, a, xs, "the array keeps its elements")


@harness(P)
def suffix_of_zero_skip(ctx):
    """skip_last(0) removes nothing."""
    xs = ctx.list("x", 0, 3)
    r = list(TypedArray(xs).skip_last(0))
    if xs and not r:
        ctx.check(False, "skip_last(0) of a non-empty array is empty", (r, xs))
    ctx.same(r, xs, "skip_last(0)")


@harness(P)
def suffix_of_zero_take(ctx):
    """take_last(0) takes nothing."""
    xs = ctx.list("x", 0, 3)
    r = list(TypedArray(xs).take_last(0))
    if xs and len(r) == len(xs) and ctx.holds(ctx.eq(r, xs)):
        ctx.check(False, "take_last(0) of a non-empty array is the whole array", (r, xs))
    ctx.same(r, [], "take_last(0)")


@harness(P, quick=grid(n=[33, 130]))
def long_ones(ctx, n):
    with Stores(ctx):
        kind = ctx.choose("kind", ["any", "uint16"])
        xs, a = some_array(ctx, kind, n, n)
        c = ctx.choose("c", [1, 2, 16, 31, 32, n - 1, n, n + 1])
        k = max(n - c, 0)
        same_array(ctx, a.take(c), xs[:c], "take")
        same_array(ctx, a.skip(c), xs[c:], "skip")
        same_array(ctx, a.take_last(c), xs[k:], "take_last")
        same_array(ctx, a.skip_last(c), xs[:k], "skip_last")
        same_array(ctx, a.indexed(c), list(enumerate(xs, c)), "indexed")
        same_array(ctx, a.tail(), xs[1:], "tail")
        ctx.same(a.head(), xs[0], "head")
        f = ctx.fun("f")
        same_array(ctx, a.map(f), [f(x) for x in xs], "map")
        t = 0
        for x in xs:
            t = f(t, x)
        ctx.same(a.fold(f, 0), t, "fold")


@harness(P, **kinds(3, 0, 5))
def elementwise(ctx, kind, n, w):
    with Stores(ctx):
        xs, a = some_array(ctx, kind, 0, n)
        f, g = ctx.fun("f", ("raises", "val") if kind == "any" else "val"), ctx.fun("g")
        arrays(ctx, "map", lambda: [f(x) for x in xs], lambda: a.map(f), lambda: a.pipe(array.map(f)))

        def want():
            s = 0
            for x in xs:
                s = g(s, x)
            return s

        both(ctx, "fold", want, lambda: a.fold(g, 0), lambda: a.pipe(array.fold(g, 0)))
        t, tb = 0, 0
        for x in xs:
            t = t + x
            tb = tb + g(x)
        both(ctx, "sum", lambda: t, lambda: a.sum(), lambda: array.sum(a))
        both(ctx, "sum_by", lambda: tb, lambda: a.sum_by(g), lambda: a.pipe(array.sum_by(g)))
        same_array(ctx, a, xs, "the array keeps its elements")


@harness(P, cost=2, **kinds(3, 0, 4))
def selection(ctx, kind, n, w):
    with Stores(ctx):
        xs, a = some_array(ctx, kind, 0, n)
        p = ctx.fun("p", ("raises", "bool") if kind == "any" else "bool")
        arrays(ctx, "filter", lambda: [x for x in xs if p(x)], lambda: a.filter(p), lambda: a.pipe(array.filter(p)))
        both(ctx, "forall", lambda: all(p(x) for x in xs), lambda: a.forall(p))
        same_array(ctx, a, xs, "the array keeps its elements")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=2)
def selection_truthy(ctx, n):
    """Predicates whose results are merely truthy."""
    xs, a = some_array(ctx, "any", 0, n)
    p = ctx.fun("p", "val")
    arrays(ctx, "filter", lambda: [x for x in xs if p(x)], lambda: a.filter(p))
    iff(ctx, a.forall(p), all(p(x) for x in xs), "forall")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=2)
def choosing(ctx, n):
    with Stores(ctx):
        kind = ctx.choose("kind", ["any", "int8"])
        xs, a = some_array(ctx, kind, 0, n)
        f = ctx.fun("f", ("option", "val"))

        def want():
            return [o.some for o in [f(x) for x in xs] if o.tag == "some"]

        arrays(ctx, "choose", want, lambda: a.choose(f))


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=2)
def collecting(ctx, n):
    xs, a = some_array(ctx, "any", 0, n)
    f = ctx.fun("f", ("list", "int", 2))
    arrays(ctx, "collect", lambda: [y for x in xs for y in f(x)], lambda: a.collect(lambda x: TypedArray(f(x))))


@harness(P, quick=grid(kind=["any", "int32", "code Uint8", "bytearray"], n=[3], reverse=[False, True]),
         thorough=grid(kind=["any", "int32", "code Uint8", "bytearray"], n=[5], reverse=[False, True]), cost=2)
def sorting(ctx, kind, n, reverse):
    from .c07 import insort
    with Stores(ctx):
        xs, a = some_array(ctx, kind, 0, n)
        f = ctx.fun("f")
        same_array(ctx, a.sort(reverse), insort(xs, lambda x: x, reverse), "sort")
        same_array(ctx, a.sort(reverse=reverse), insort(xs, lambda x: x, reverse), "sort, keyword")
        same_array(ctx, a.sort_with(f, reverse), insort(xs, f, reverse), "sort_with")
        same_array(ctx, a, xs, "the array keeps its order")


@harness(P, quick=[dict(n=4)], thorough=[dict(n=6)])
def unfolding(ctx, n):
    f = ctx.fun("f", ("option", ("tuple", "int", "int")))
    s0 = ctx.int("s")
    want, s = [], s0
    for _ in range(n + 1):
        o = f(s)
        if o.tag == "none":
            break
        want.append(o.some[0])
        s = o.some[1]
    ctx.assume(len(want) <= n)
    arrays(ctx, "unfold", lambda: want, lambda: TypedArray.unfold(f, s0), lambda: pipe(s0, array.unfold(f)))


@harness(P)
def creation(ctx):
    xs = ctx.list("x", 0, 4, "val")
    for r in (TypedArray(xs), TypedArray(iter(xs)), TypedArray(tuple(xs)), TypedArray(x for x in xs), TypedArray.of(*xs),
              TypedArray.of_seq(xs), TypedArray.of_seq(iter(xs)), array.of(*xs), array.of_seq(xs),
              array.of_seq(iter(xs)), TypedArray(TypedArray(xs)), TypedArray(xs, typecode=TypeCode.Any)):
        same_array(ctx, r, xs, "creation")
        same_array(ctx, r, xs, "creation, again")
    same_array(ctx, TypedArray.empty(), [], "empty")
    same_array(ctx, array.empty(), [], "array.empty")
    same_array(ctx, TypedArray(None), [], "no initializer")
    v = ctx.value("v", "deep")
    same_array(ctx, array.singleton(v), [v], "singleton")
    o = ctx.value("o", ("option", "deep"))
    same_array(ctx, array.of_option(o), [o.some] if o.tag == "some" else [], "of_option")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def equality(ctx, n):
    with Stores(ctx):
        xs, a = some_array(ctx, ctx.choose("k1", ["any", "int16"]), 0, n)
        ys, b = some_array(ctx, ctx.choose("k2", ["any", "int16"]), 0, n)
        want = len(xs) == len(ys) and ctx.eq(xs, ys)
        iff(ctx, a == b, want, "== of two arrays")
        iff(ctx, a != b, ctx.not_(want), "!= of two arrays")
        iff(ctx, a == a, True, "== of an array and itself")


NEAR = [0, 1, -1, 0.0, -0.0, 0.1, 0.1 + 2**-56, 1.0, True, False, None, "", "1", 2**53, 2**53 + 1, 2.0**53, 2**60, 2**60 + 1, float(2**60), float("inf"),
        (), (1,), [], [1], odd.Sub(1), Some(1), Nothing, "a", "A", b"a"]


@harness(P)
def equality_with_others(ctx):
    """An array is not equal to what is not a sequence, and comparing it says so."""
    xs = ctx.choose("xs", [[], [1], [0, 1], [None], ["a"], [(1, 2)]])
    a = TypedArray(xs)
    v = ctx.choose("v", [None, 0, 1, 2.5, True, object(), {0: 1}, {0: 0, 1: 1}, {}, {1}, set(), frozenset([0, 1]), len, int, Some(1), Nothing, Ok([]), ValueError("a"), iter([1]), (x for x in [1])])
    for lab, r, want in (("==", odd.outcome(lambda: a == v), False), ("!=", odd.outcome(lambda: a != v), True), ("== the other way round", odd.outcome(lambda: v == a), False),
                         ("in a list", odd.outcome(lambda: a in [v]), False)):
        ctx.check(r[0] == "ok" and bool(r[1]) is want, f"{lab} of an array and something else", (xs, v, r))


@harness(P)
def equality_of_near_values(ctx):
    """Arrays of one differing element are equal exactly if these elements are."""
    x, y = NEAR[ctx.size("x", 0, len(NEAR) - 1)], NEAR[ctx.size("y", 0, len(NEAR) - 1)]
    before, after = ctx.choose("before", [[], [5]]), ctx.choose("after", [[], [6]])
    a, b = TypedArray([*before, x, *after]), TypedArray([*before, y, *after])
    ctx.check(bool(a == b) is (x == y), "== of two arrays", (x, y))
    ctx.check(bool(a != b) is (x != y), "!= of two arrays", (x, y))


def derived(a, c, p):
    """Arrays obtained from a, in ways that might share its storage."""
    return [a.take(c), a.skip(c), a.skip_last(c + 1), a.take_last(c + 1), a.filter(p), a.map(lambda x: x),
            a.map(lambda x: (x,)), a.indexed(0), a.sort(), a.sort_with(lambda x: 0), TypedArray(a), array.of_seq(a),
            TypedArray.of(*a), a.collect(lambda x: TypedArray([x])), a.choose(Some), TypedArray(a[:])] + (
                [a.tail()] if len(a) else [])


@harness(P, **kinds(2, 2, 3), cost=2)
def mutations(ctx, kind, n, w):
    """Mutating an array does to it what it does to a list, and nothing to arrays derived from it."""
    with Stores(ctx):
        xs, a = some_array(ctx, kind, 0, n)
        c = ctx.choose("c", [0, n])
        true = ctx.choose("p", [True, False])
        ds = derived(a, c, lambda x: true)
        before = [list(d) for d in ds]
        xs = list(xs)
        v = element(ctx, kind, "v")[0]
        op = ctx.choose("op", ["set", "del", "insert", "append", "pop", "reverse", "extend", "iadd", "remove", "clear",
                               "delslice", "delstep", "setslice"])
        i = ctx.size("i", -w, w)
        both(ctx, op, lambda: mutate(xs, op, i, v), lambda: mutate(a, op, i, v))
        same_array(ctx, a, xs, f"after {op}")
        for d, b in zip(ds, before):
            ctx.same(list(d), b, f"an array derived before {op}")
        for j, d in enumerate(ds):
            if len(d) and not isinstance(d[0], tuple):
                d[0] = v
                d.insert(0, v)
        ctx.same(list(a), xs, "the array after changing the derived ones")


def mutate(s, op, i, v):
    try:
        if op == "set":
            s[i] = v
        elif op == "del":
            del s[i]
        elif op == "insert":
            s.insert(i, v)
        elif op == "append":
            s.append(v)
        elif op == "pop":
            return s.pop(i)
        elif op == "reverse":
            s.reverse()
        elif op == "extend":
            s.extend([v, v])
        elif op == "iadd":
            s += [v]
        elif op == "remove":
            s.remove(v)
        elif op == "clear":
            s.clear()
        elif op == "delslice":
            del s[i:]
        elif op == "delstep":
            del s[i::2]
        elif op == "setslice":
            s[i:] = s[:1]
    except (IndexError, ValueError) as e:
        return type(e).__name__
    return None


@harness(P, quick=grid(kind=["any", "int8"], n=[1, 4], op=["del", "set"]), thorough=grid(kind=["any", "int8", "uint32"], n=[0, 1, 4], op=["del", "set"]), cost=2)
def slices_changed(ctx, kind, n, op):
    """Slices of every form, deleted, or replaced by something shorter or longer."""
    edges = [None, -n, -1, 0, 1, n - 1, n + 1]
    with Stores(ctx):
        xs, a = some_array(ctx, kind, n, n)
        xs = list(xs)
        key = slice(ctx.choose("start", sorted(set(edges[1:])) + [None]), ctx.choose("stop", sorted(set(edges[1:])) + [None]), ctx.choose("step", [None, 1, 2, -1, -2]))
        m = ctx.choose("new", [0, 1, 2, 4]) if op == "set" else 0

        def change(s):
            try:
                if op == "del":
                    del s[key]
                else:
                    s[key] = s[:m]
            except ValueError:
                return "ValueError"
            return None

        both(ctx, op, lambda: change(xs), lambda: change(a))
        same_array(ctx, a, xs, f"after {op} of a slice")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)], cost=2)
def searching(ctx, n):
    with Stores(ctx):
        xs, a = some_array(ctx, ctx.choose("kind", ["any", "int8"]), 0, n)
        v = ctx.int("v")

        def index(s):
            try:
                return s.index(v)
            except ValueError:
                return "ValueError"

        both(ctx, "in", lambda: v in xs, lambda: v in a)
        both(ctx, "count", lambda: xs.count(v), lambda: a.count(v))
        both(ctx, "index", lambda: index(xs), lambda: index(a))
        both(ctx, "reversed", lambda: xs[::-1], lambda: list(reversed(a)))


@harness(P)
def any_payload(ctx):
    """Elements of every kind pass through as they are."""
    generic.compare(ctx, generic.array_cases(*generic.elements(ctx)))


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    generic.reentrant(ctx, generic.array_reentrant([4, 7, 5, 9]))


@harness(P)
def any_exception(ctx):
    """Exceptions of every type reach the caller as they are."""
    generic.raising(ctx, generic.array_raising([4, 5, 6]))


@harness(P, quick=grid(n=[5000, 70000]), path_timeout=120.0, cost=3)
def very_long(ctx, n):
    """Collections of thousands of elements."""
    generic.compare(ctx, generic.array_cases(*generic.very_long(n)), skip=generic.SLOW)


@harness(P)
def any_payload_among_many(ctx):
    """Elements of every kind in long collections."""
    generic.compare(ctx, generic.array_cases(*generic.many(ctx)))


@harness(P)
def any_truth(ctx):
    """Predicates that answer with true and false values of every kind."""
    generic.truths(ctx, generic.array_truths())


@harness(P)
def any_source(ctx):
    """Arrays made of iterables of every kind."""
    make = SOURCES[ctx.choose("source", list(SOURCES))]
    xs = list(make())
    for lab, f in (("TypedArray", TypedArray), ("TypedArray.of_seq", TypedArray.of_seq), ("array.of_seq", array.of_seq),
                   ("TypedArray.of", lambda s: TypedArray.of(*s)), ("array.of", lambda s: array.of(*s)),
                   ("with a type code", lambda s: TypedArray(s, typecode=TypeCode.Any))):
        a = f(make())
        same_array(ctx, a, xs, f"{lab} of an iterable")
        ctx.check(len(a) == len(xs), f"{lab} of an iterable: length")
        a.append(xs[0])
        ctx.same(list(a), xs + [xs[0]], f"{lab} of an iterable: it can be appended to")
    if all(type(x) is int and 0 <= x < 256 for x in xs):
        same_array(ctx, TypedArray(make(), typecode=TypeCode.Byte), xs, "of bytes")
        same_array(ctx, TypedArray(make(), typecode=TypeCode.Int16), xs, "of short ints")


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    generic.touchy(ctx, {
        "==": lambda t: TypedArray([t()]) == TypedArray([t()]), "!=": lambda t: TypedArray([t()]) != TypedArray([t()]), "== later": lambda t: TypedArray([1, t()]) == TypedArray([1, t()]),
        "in": lambda t: 3 in TypedArray([t(), 3]), "index": lambda t: TypedArray([t(), 3]).index(3), "count": lambda t: TypedArray([t(), 3]).count(3), "remove": lambda t: TypedArray([t(), 3]).remove(3),
        "sort": lambda t: TypedArray([t(2), t(1)]).sort(), "sort_with": lambda t: TypedArray([2, 1]).sort_with(lambda x: t(x)), "sum": lambda t: TypedArray([t(), t()]).sum(),
        "sum_by": lambda t: TypedArray([1, 2]).sum_by(lambda x: t()), "fold": lambda t: TypedArray([t(), t()]).fold(lambda s, x: s + x, 0),
    })
