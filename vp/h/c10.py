"""C10: Option combinators."""

from __future__ import annotations

from expression import Nothing, Option, Some, option, pipe

from ..registry import grid, harness
from . import generic
from .common import exact as both, opt
from .odd import exception_or_shape, holds, is_, passes, pick

P = "C10"
BOUNDS = (
    "One or two symbolic options per law; payloads: any int, None, or one nested Option/Result, tuples of up to "
    "7; callbacks: any pure function of their arguments (uninterpreted), returning an int, None, a nested option,"
    " or raising. Payloads of about 60 kinds, callables of a dozen shapes, exceptions of 40 kinds, callbacks that"
    " use the operation themselves or run in two threads at once, payloads whose own operators raise."
)
OUTSIDE = "Symbolic payloads other than int/None/one nested option or result."
ASSUMPTIONS = ["callbacks are deterministic functions of their arguments within one check"]


def case(o, some, none):
    return some(o.some) if o.tag == "some" else none()


@harness(P)
def queries(ctx):
    o = opt(ctx, "o")
    s = o.tag == "some"
    ctx.same(o.is_some(), s, "is_some")
    ctx.same(o.is_none(), not s, "is_none")
    ctx.same(option.is_some(o), s, "option.is_some")
    ctx.same(option.is_none(o), not s, "option.is_none")
    if s:
        ctx.same(o.value, o.some, "value of Some")
        ctx.same([x for x in o], [o.some], "iterating a Some")
    else:
        ctx.raises(ValueError, lambda: o.value, "value of Nothing")
    v = ctx.value("v", "deep")
    ctx.same(Some(v).some, v, "Some holds its value")
    ctx.same(Option.Some(v).value, v, "Option.Some holds its value")
    ctx.check(Some(v).is_some() is True, "Some is some, whatever the value")
    ctx.check(Nothing.is_none() is True and Option.Nothing().is_none() is True, "Nothing is none")


@harness(P)
def defaults(ctx):
    o, d = opt(ctx, "o"), ctx.value("d", "deep")
    both(ctx, "default_value", lambda: case(o, lambda x: x, lambda: d), lambda: o.default_value(d),
         lambda: o.pipe(option.default_value(d)), lambda: option.default_arg(o, d))
    log = []
    g = ctx.fun("g", ("raises", "deep"), log=log)
    e = ctx.fun("g2", "int")
    both(ctx, "default_with", lambda: case(o, lambda x: x, g), lambda: o.default_with(g),
         lambda: o.pipe(option.default_with(g)))
    log.clear()
    ctx.outcome(lambda: o.default_with(g))
    ctx.check(len(log) == (0 if o.tag == "some" else 1), "default_with calls the getter only for Nothing")
    _ = e


@harness(P)
def map_(ctx):
    o = opt(ctx, "o")
    f = ctx.fun("f", ("raises", "deep"))
    both(ctx, "map", lambda: case(o, lambda x: Some(f(x)), lambda: Nothing), lambda: o.map(f),
         lambda: o.pipe(option.map(f)), lambda: pipe(o, option.map(f)))


@harness(P)
def map2(ctx):
    a, b = opt(ctx, "a", "val"), opt(ctx, "b", "val")
    f = ctx.fun("f", ("raises", "val"))
    both(ctx, "map2", lambda: case(a, lambda x: case(b, lambda y: Some(f(x, y)), lambda: Nothing), lambda: Nothing),
         lambda: a.map2(f, b), lambda: option.map2(f)(a)(b))


@harness(P)
def apply_(ctx):
    a = opt(ctx, "a")
    f = ctx.fun("f", ("raises", "deep"))
    fo = Some(f) if ctx.bool("isf") else Nothing
    both(ctx, "apply", lambda: Some(f(a.some)) if a.tag == "some" and fo.tag == "some" else Nothing,
         lambda: a.apply(fo), lambda: a.pipe(option.apply(fo)))


@harness(P, quick=grid(n=[0, 1, 2, 3, 4, 5, 6, 7]))
def starmap(ctx, n):
    vs = tuple(ctx.value(f"v{i}", "val" if i < 3 else "int") for i in range(n))
    o = Some(vs) if ctx.bool("some") else Nothing
    f = ctx.fun("f", ("raises", "val"))
    both(ctx, "starmap", lambda: case(o, lambda t: Some(f(*t)), lambda: Nothing), lambda: o.starmap(f),
         lambda: o.pipe(option.starmap(f)))


@harness(P)
def spread(ctx):
    """starmap spreads any iterable, as a call with a star does."""
    v = ctx.choose("value", ["", "ab", [1, 2], range(3), (1,), {"k": 1}, (), [[]], b"ab", frozenset({7}), Nothing, None, 5])
    f = lambda *a: ("got", a)  # noqa: E731
    want = ctx.outcome(lambda: Some(f(*v)))[0]
    for label, g in (("method", lambda: Some(v).starmap(f)), ("function", lambda: Some(v).pipe(option.starmap(f)))):
        r = ctx.outcome(g)
        ctx.check(r[0] == want, f"{label}: starmap of this value", r)
        if want == "ok":
            ctx.same(r[1], Some(f(*v)), f"{label}: starmap")


@harness(P)
def bind(ctx):
    o = opt(ctx, "o")
    f = ctx.fun("f", ("raises", ("option", "deep")))
    both(ctx, "bind", lambda: case(o, f, lambda: Nothing), lambda: o.bind(f), lambda: o.pipe(option.bind(f)))


@harness(P)
def monad_laws(ctx):
    v = ctx.value("v", "deep")
    o = opt(ctx, "o")
    f = ctx.fun("f", ("option", "val"))
    g = ctx.fun("g", ("option", "val"))
    ctx.same(Some(v).bind(f), f(v), "left identity")
    ctx.same(o.bind(Some), o, "right identity")
    ctx.same(o.bind(f).bind(g), o.bind(lambda x: f(x).bind(g)), "associativity")


@harness(P)
def functor_laws(ctx):
    o = opt(ctx, "o")
    f, g = ctx.fun("f", "deep"), ctx.fun("g", "val")
    ctx.same(o.map(lambda x: x), o, "map identity")
    ctx.same(o.map(f).map(g), o.map(lambda x: g(f(x))), "map composition")
    ctx.same(o.map(f), o.bind(lambda x: Some(f(x))), "map by bind")


@harness(P)
def or_else(ctx):
    a, b = opt(ctx, "a"), opt(ctx, "b")
    exp = lambda: a if a.tag == "some" else b  # noqa: E731
    both(ctx, "or_else", exp, lambda: a.or_else(b), lambda: option.or_else(a, b))
    log = []
    g = ctx.fun("g", ("raises", ("option", "val")), log=log)
    both(ctx, "or_else_with", lambda: a if a.tag == "some" else g(), lambda: a.or_else_with(g))
    log.clear()
    ctx.outcome(lambda: a.or_else_with(g))
    ctx.check(len(log) == (0 if a.tag == "some" else 1), "or_else_with calls its function only for Nothing")


@harness(P)
def filter_(ctx):
    o = opt(ctx, "o")
    p = ctx.fun("p", ("raises", "bool"))
    both(ctx, "filter", lambda: case(o, lambda x: o if p(x) else Nothing, lambda: Nothing), lambda: o.filter(p))
    q = ctx.fun("q", "val")  # any truthy or falsy object, as in Python's filter
    ctx.same(o.filter(q), case(o, lambda x: o if q(x) else Nothing, lambda: Nothing), "filter, truthiness")


@harness(P)
def calls_once(ctx):
    """Callbacks run at most once per operation, and never for Nothing."""
    o = opt(ctx, "o", "int")
    log = []
    f = ctx.fun("f", "int", log=log)
    fo = ctx.fun("fo", ("option", "int"), log=log)
    p = ctx.fun("p", "bool", log=log)
    for name, op in (("map", lambda: o.map(f)), ("bind", lambda: o.bind(fo)), ("filter", lambda: o.filter(p)),
                     ("map2", lambda: o.map2(f, Some(1))), ("apply", lambda: o.apply(Some(f)))):
        log.clear()
        op()
        ctx.check(len(log) == (1 if o.tag == "some" else 0), f"{name} calls its function exactly once on Some")


@harness(P)
def equality(ctx):
    a, b = opt(ctx, "a"), opt(ctx, "b")
    e = ctx.eq(a, b)
    r = a == b
    ctx.check(ctx.eq(r, e) if e in (True, False) and type(e) is bool else ctx.eq_leaf(r, e), "==", (r, e))
    n = a != b
    ctx.check(ctx.eq_leaf(n, ctx.not_(e)), "!=", (n, e))
    ctx.check(ctx.eq_leaf(b == a, e), "== is symmetric")
    if ctx.holds(e):
        ctx.check(hash(a) == hash(b), "equal options have equal hashes")


@harness(P)
def ordering(ctx):
    """Options of the same case are ordered by their payload."""
    x, y = ctx.int("x"), ctx.int("y")
    ctx.check(ctx.eq_leaf(Some(x) < Some(y), x < y), "<")
    ctx.check(ctx.eq_leaf(Some(x) > Some(y), x > y), ">")


@harness(P)
def operands_unchanged(ctx):
    """No operation changes its operands."""
    a, b = opt(ctx, "a", "val"), opt(ctx, "b", "val")
    sa, sb = (a.tag, a.some if a.tag == "some" else None), (b.tag, b.some if b.tag == "some" else None)
    f, fo, p = ctx.fun("f", "val"), ctx.fun("fo", ("option", "val")), ctx.fun("p", "bool")
    op = ctx.choose("op", [
        lambda: a.map(f), lambda: a.bind(fo), lambda: a.filter(p), lambda: a.map2(f, b), lambda: a.or_else(b),
        lambda: a.default_value(1), lambda: a.to_list(), lambda: a.to_result(2), lambda: a.dict(),
        lambda: list(a.to_seq()), lambda: a.to_optional(), lambda: a == b, lambda: hash(a),
    ])
    op()
    ctx.same((a.tag, a.some if a.tag == "some" else None), sa, "left operand unchanged")
    ctx.same((b.tag, b.some if b.tag == "some" else None), sb, "right operand unchanged")
    ctx.check(Nothing.tag == "none" and Nothing.none is None, "Nothing unchanged")


def boom(*_):
    raise AssertionError("called")


@harness(P)
def any_payload(ctx):
    """The payload may be any object; every operation hands on that very object."""
    v, w = pick(ctx, "v"), pick(ctx, "w")
    a, b = Some(v), Some(w)
    holds(ctx, a, "some", v, "Some")
    holds(ctx, Option.Some(v), "some", v, "Option.Some")
    ctx.check(a.is_some() is True and a.is_none() is False, "is_some")
    is_(ctx, a.value, v, "value")
    ctx.check(len(list(a)) == 1 and list(a)[0] is v, "iteration")
    for got, label in ((a.default_value(w), "default_value"), (a.default_with(boom), "default_with"),
                       (option.default_value(w)(a), "option.default_value"),
                       (option.default_with(boom)(a), "option.default_with"), (a.to_optional(), "to_optional"),
                       (option.default_arg(a, w), "default_arg")):
        is_(ctx, got, v, label)
    for n in (Nothing, Option.Nothing()):
        is_(ctx, n.default_value(v), v, "default_value of Nothing")
        is_(ctx, n.default_with(lambda: v), v, "default_with of Nothing")
        is_(ctx, option.default_value(v)(n), v, "option.default_value of Nothing")
        holds(ctx, n.or_else(a), "some", v, "or_else of Nothing")
        holds(ctx, n.or_else_with(lambda: a), "some", v, "or_else_with of Nothing")
        for r, label in ((n.map(boom), "map"), (n.bind(boom), "bind"), (n.filter(boom), "filter"),
                         (n.map2(boom, a), "map2"), (a.map2(boom, n), "map2"), (n.apply(a), "apply"),
                         (a.apply(n), "apply"), (n.starmap(boom), "starmap"), (n.or_else(n), "or_else")):
            ctx.check(r.tag == "none", f"{label} of Nothing", r)
    got = []
    holds(ctx, a.map(lambda x: got.append(x) or w), "some", w, "map")
    holds(ctx, option.map(lambda x: got.append(x) or w)(a), "some", w, "option.map")
    holds(ctx, a.bind(lambda x: got.append(x) or b), "some", w, "bind")
    holds(ctx, a.map2(lambda x, y: got.append(x) or y, b), "some", w, "map2")
    holds(ctx, a.apply(Some(lambda x: got.append(x) or w)), "some", w, "apply")
    holds(ctx, Some((w, v)).starmap(lambda y, x: got.append(x) or y), "some", w, "starmap")
    holds(ctx, a.filter(lambda x: got.append(x) or True), "some", v, "filter that keeps")
    ctx.check(a.filter(lambda x: got.append(x) or False).tag == "none", "filter that drops")
    ctx.check(a.bind(lambda x: got.append(x) or Nothing).tag == "none", "bind to Nothing")
    ctx.check(len(got) == 9 and all(x is v for x in got), "callbacks get the payload", got)
    holds(ctx, a.or_else(b), "some", v, "or_else")
    holds(ctx, option.or_else(a, b), "some", v, "option.or_else")
    holds(ctx, a.or_else_with(boom), "some", v, "or_else_with")
    holds(ctx, a.or_else(Nothing), "some", v, "or_else Nothing")


@harness(P)
def any_exception(ctx):
    """An exception of a callback, of any kind, is passed on as it is."""
    e, shape = exception_or_shape(ctx, stop=True)
    calls = []

    def f(*_):
        calls.append(1)
        raise e

    f = shape(f)

    a = Some(1)
    for label, run in {
        "map": lambda: a.map(f), "option.map": lambda: option.map(f)(a), "bind": lambda: a.bind(f), "option.bind": lambda: option.bind(f)(a),
        "map2": lambda: a.map2(f, a), "option.map2": lambda: option.map2(f)(a)(a), "apply": lambda: a.apply(Some(f)),
        "option.apply": lambda: option.apply(Some(f))(a), "starmap": lambda: Some((1, 2)).starmap(f), "option.starmap": lambda: option.starmap(f)(Some((1, 2))),
        "filter": lambda: a.filter(f), "default_with": lambda: Nothing.default_with(f), "option.default_with": lambda: option.default_with(f)(Nothing),
        "or_else_with": lambda: Nothing.or_else_with(f),
    }.items():
        calls.clear()
        passes(ctx, run, e, f"{label}: the exception of a callback is passed on")
        ctx.check(len(calls) == 1, f"{label}: called once", calls)


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    inc, even, half = (lambda x: x + 1), (lambda x: x % 2 == 0), (lambda x: Some(x * 10) if x else Nothing)
    o = ctx.choose("o", [Some(4), Some(0), Nothing])
    generic.reentrant(ctx, {
        "map": lambda f: o.map(f(inc)), "map2": lambda f: o.map2(f(lambda a, b: a * 3 + b), Some(5)), "bind": lambda f: o.bind(f(half)), "filter": lambda f: o.filter(f(even)),
        "or_else_with": lambda f: o.or_else_with(f(lambda: Some(9))), "default_with": lambda f: o.default_with(f(lambda: 9)),
        "starmap": lambda f: Some((4, 5)).starmap(f(lambda a, b: a * 3 + b)), "option.map": lambda f: pipe(o, option.map(f(inc))), "option.bind": lambda f: pipe(o, option.bind(f(half))),
    }, top=1)


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    generic.touchy(ctx, {
        "==": lambda t: Some(t()) == Some(t()), "!=": lambda t: Some(t()) != Some(t()), "nested": lambda t: Some(Some(t())) == Some(Some(t())), "hash": lambda t: hash(Some(t())),
        "<": lambda t: Some(t(1)) < Some(t(2)), "map": lambda t: Some(t(1)).map(lambda x: x + 1), "filter": lambda t: Some(t(1)).filter(lambda x: x == 1),
    })
