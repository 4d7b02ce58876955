"""C11: Result combinators."""

from __future__ import annotations

from expression import Error, Ok, Result, pipe, result

from ..registry import grid, harness
from . import generic
from .common import exact as both, iff, res
from .odd import exception_or_shape, holds, is_, passes, pick

P = "C11"
BOUNDS = (
    "One or two symbolic results per law; payloads and errors: any int, None, or one nested Option/Result; "
    "callbacks: any pure function of their arguments (uninterpreted), returning any such value or raising. "
    "Payloads of about 60 kinds, callables of a dozen shapes, exceptions of 40 kinds, callbacks that use the "
    "operation themselves or run in two threads at once, payloads whose own operators raise."
)
OUTSIDE = "Symbolic payloads other than int/None/one nested option or result; callbacks that mutate their arguments."
ASSUMPTIONS = ["callbacks are deterministic functions of their arguments within one check"]


def case(r, ok, err):
    return ok(r.ok) if r.tag == "ok" else err(r.error)


@harness(P)
def queries(ctx):
    r = res(ctx, "r")
    k = r.tag == "ok"
    ctx.same(r.is_ok(), k, "is_ok")
    ctx.same(r.is_error(), not k, "is_error")
    ctx.same(result.is_ok(r), k, "result.is_ok")
    ctx.same(result.is_error(r), not k, "result.is_error")
    if k:
        ctx.same([x for x in r], [r.ok], "iterating an Ok")
    v = ctx.value("v", "deep")
    ctx.check(Ok(v).tag == "ok" and Result.Ok(v).tag == "ok", "Ok is ok, whatever the value")
    ctx.check(Error(v).tag == "error" and Result.Error(v).tag == "error", "Error is error, whatever the value")
    ctx.same(Ok(v).ok, v, "Ok holds its value")
    ctx.same(Error(v).error, v, "Error holds its value")
    ctx.same((Result(ok=v), Result(error=v)), (Ok(v), Error(v)), "constructors agree")


@harness(P)
def defaults(ctx):
    r, d = res(ctx, "r"), ctx.value("d", "deep")
    both(ctx, "default_value", lambda: case(r, lambda x: x, lambda e: d), lambda: r.default_value(d),
         lambda: r.pipe(result.default_value(d)))
    g = ctx.fun("g", ("raises", "val"))
    both(ctx, "default_with", lambda: case(r, lambda x: x, g), lambda: r.default_with(g),
         lambda: r.pipe(result.default_with(g)))
    both(ctx, "merge", lambda: case(r, lambda x: x, lambda e: e), lambda: r.merge(), lambda: result.merge(r))


@harness(P)
def map_(ctx):
    r = res(ctx, "r")
    f = ctx.fun("f", ("raises", "deep"))
    both(ctx, "map", lambda: case(r, lambda x: Ok(f(x)), Error), lambda: r.map(f), lambda: r.pipe(result.map(f)),
         lambda: pipe(r, result.map(f)))
    both(ctx, "map_error", lambda: case(r, Ok, lambda e: Error(f(e))), lambda: r.map_error(f),
         lambda: r.pipe(result.map_error(f)))


@harness(P)
def map2(ctx):
    a, b = res(ctx, "a", "val", "val"), res(ctx, "b", "val", "val")
    f = ctx.fun("f", ("raises", "val"))
    both(ctx, "map2", lambda: case(a, lambda x: case(b, lambda y: Ok(f(x, y)), Error), Error),
         lambda: a.map2(b, f), lambda: result.map2(f)(a)(b))


@harness(P)
def apply_(ctx):
    a = res(ctx, "a", "val", "val")
    f = ctx.fun("f", ("raises", "deep"))
    fo = Ok(f) if ctx.bool("isf") else Error(ctx.value("fe", "val"))
    both(ctx, "apply", lambda: case(fo, lambda g: case(a, lambda x: Ok(g(x)), Error), Error),
         lambda: a.apply(fo), lambda: a.pipe(result.apply(fo)))


@harness(P)
def bind(ctx):
    r = res(ctx, "r")
    f = ctx.fun("f", ("raises", ("result", "val", "val")))
    both(ctx, "bind", lambda: case(r, f, Error), lambda: r.bind(f), lambda: r.pipe(result.bind(f)))


@harness(P)
def monad_laws(ctx):
    v = ctx.value("v", "val")
    r = res(ctx, "r", "val", "val")
    f = ctx.fun("f", ("result", "val", "val"))
    g = ctx.fun("g", ("result", "int", "int"))
    ctx.same(Ok(v).bind(f), f(v), "left identity")
    ctx.same(r.bind(Ok), r, "right identity")
    ctx.same(r.bind(f).bind(g), r.bind(lambda x: f(x).bind(g)), "associativity")


@harness(P)
def functor_laws(ctx):
    r = res(ctx, "r")
    f, g = ctx.fun("f", "deep"), ctx.fun("g", "val")
    ctx.same(r.map(lambda x: x), r, "map identity")
    ctx.same(r.map(f).map(g), r.map(lambda x: g(f(x))), "map composition")
    ctx.same(r.map_error(lambda x: x), r, "map_error identity")
    ctx.same(r.map_error(f).map_error(g), r.map_error(lambda x: g(f(x))), "map_error composition")
    ctx.same(r.map(f).map_error(g), r.map_error(g).map(f), "map and map_error commute")


@harness(P)
def or_else(ctx):
    a, b = res(ctx, "a", "val", "val"), res(ctx, "b", "deep", "val")
    both(ctx, "or_else", lambda: a if a.tag == "ok" else b, lambda: a.or_else(b),
         lambda: a.pipe(result.or_else(b)))
    log = []
    g = ctx.fun("g", ("raises", ("result", "val", "val")), log=log)
    both(ctx, "or_else_with", lambda: case(a, Ok, g), lambda: a.or_else_with(g),
         lambda: a.pipe(result.or_else_with(g)))
    log.clear()
    ctx.outcome(lambda: a.or_else_with(g))
    ctx.check(len(log) == (0 if a.tag == "ok" else 1), "or_else_with calls its function only for Error")


@harness(P)
def filter_(ctx):
    r, d = res(ctx, "r", "deep", "val"), ctx.value("d", "deep")
    p = ctx.fun("p", ("raises", "bool"))
    both(ctx, "filter", lambda: case(r, lambda x: r if p(x) else Error(d), Error), lambda: r.filter(p, d),
         lambda: r.pipe(result.filter(p, d)))
    q = ctx.fun("q", "val")
    ctx.same(r.filter(q, d), case(r, lambda x: r if q(x) else Error(d), Error), "filter, truthiness")


@harness(P)
def filter_with(ctx):
    r = res(ctx, "r", "deep", "val")
    p = ctx.fun("p", ("raises", "bool"))
    g = ctx.fun("g", ("raises", "val"))
    both(ctx, "filter_with", lambda: case(r, lambda x: r if p(x) else Error(g(x)), Error),
         lambda: r.filter_with(p, g), lambda: r.pipe(result.filter_with(p, g)))


@harness(P)
def swap(ctx):
    r = res(ctx, "r")
    both(ctx, "swap", lambda: case(r, Error, Ok), lambda: r.swap(), lambda: result.swap(r))
    ctx.same(r.swap().swap(), r, "swap is an involution")


@harness(P)
def calls_once(ctx):
    r = res(ctx, "r", "int", "int")
    log = []
    f = ctx.fun("f", "int", log=log)
    fr = ctx.fun("fr", ("result", "int", "int"), log=log)
    p = ctx.fun("p", "bool", log=log)
    for name, op, on in (("map", lambda: r.map(f), "ok"), ("bind", lambda: r.bind(fr), "ok"),
                         ("filter", lambda: r.filter(p, 1), "ok"), ("map_error", lambda: r.map_error(f), "error"),
                         ("default_with", lambda: r.default_with(f), "error"),
                         ("apply", lambda: r.apply(Ok(f)), "ok"), ("map2", lambda: r.map2(Ok(1), f), "ok")):
        log.clear()
        op()
        ctx.check(len(log) == (1 if r.tag == on else 0), f"{name} calls its function exactly once, on {on} only")


@harness(P)
def equality(ctx):
    a, b = res(ctx, "a"), res(ctx, "b")
    e = ctx.eq(a, b)
    iff(ctx, a == b, e, "==")
    iff(ctx, a != b, ctx.not_(e), "!=")
    iff(ctx, b == a, e, "== is symmetric")
    if ctx.holds(e):
        ctx.check(hash(a) == hash(b), "equal results have equal hashes")


@harness(P)
def operands_unchanged(ctx):
    a, b = res(ctx, "a", "val", "val"), res(ctx, "b", "val", "val")
    st = lambda r: (r.tag, getattr(r, r.tag))  # noqa: E731
    sa, sb = st(a), st(b)
    f, fr, p = ctx.fun("f", "val"), ctx.fun("fr", ("result", "val")), ctx.fun("p", "bool")
    op = ctx.choose("op", [
        lambda: a.map(f), lambda: a.map_error(f), lambda: a.bind(fr), lambda: a.filter(p, 1), lambda: a.map2(b, f),
        lambda: a.or_else(b), lambda: a.or_else_with(fr), lambda: a.swap(), lambda: a.merge(), lambda: a.dict(),
        lambda: a.to_option(), lambda: a == b, lambda: hash(a), lambda: a.filter_with(p, f),
    ])
    op()
    ctx.same(st(a), sa, "left operand unchanged")
    ctx.same(st(b), sb, "right operand unchanged")


def boom(*_):
    raise AssertionError("called")


@harness(P)
def any_payload(ctx):
    """Payload and error may be any object; every operation hands on that very object."""
    v, w = pick(ctx, "v"), pick(ctx, "w")
    a, e = Ok(v), Error(v)
    holds(ctx, a, "ok", v, "Ok")
    holds(ctx, e, "error", v, "Error")
    ctx.check(a.is_ok() is True and a.is_error() is False and e.is_ok() is False and e.is_error() is True, "queries")
    is_(ctx, a.default_value(w), v, "default_value of Ok")
    is_(ctx, e.default_value(w), w, "default_value of Error")
    is_(ctx, a.default_with(boom), v, "default_with of Ok")
    is_(ctx, e.default_with(lambda x: x), v, "default_with of Error")
    is_(ctx, a.merge(), v, "merge of Ok")
    is_(ctx, e.merge(), v, "merge of Error")
    is_(ctx, result.merge(e), v, "result.merge of Error")
    holds(ctx, a.swap(), "error", v, "swap of Ok")
    holds(ctx, e.swap(), "ok", v, "swap of Error")
    holds(ctx, result.swap(e), "ok", v, "result.swap of Error")
    got = []
    to = lambda x: got.append(x) or w  # noqa: E731
    holds(ctx, a.map(to), "ok", w, "map of Ok")
    holds(ctx, a.bind(lambda x: got.append(x) or Ok(w)), "ok", w, "bind of Ok")
    holds(ctx, a.bind(lambda x: got.append(x) or Error(w)), "error", w, "bind of Ok to Error")
    holds(ctx, a.map2(Ok(w), lambda x, y: got.append(x) or y), "ok", w, "map2 of Ok")
    holds(ctx, a.apply(Ok(to)), "ok", w, "apply of Ok")
    holds(ctx, e.map_error(to), "error", w, "map_error of Error")
    holds(ctx, e.or_else_with(lambda x: got.append(x) or Ok(w)), "ok", w, "or_else_with of Error")
    holds(ctx, a.filter(lambda x: got.append(x) or True, w), "ok", v, "filter that keeps")
    holds(ctx, a.filter(lambda x: got.append(x) or False, w), "error", w, "filter that drops")
    holds(ctx, a.filter_with(lambda x: got.append(x) or True, boom), "ok", v, "filter_with that keeps")
    holds(ctx, a.filter_with(lambda x: False, to), "error", w, "filter_with that drops")
    ctx.check(len(got) == 11 and all(x is v for x in got), "callbacks get the payload", got)
    for r, label in ((e.map(boom), "map"), (e.bind(boom), "bind"), (e.map2(Ok(w), boom), "map2"),
                     (e.map2(Error(w), boom), "map2"), (Ok(w).map2(e, boom), "map2"), (e.apply(Ok(boom)), "apply"),
                     (a.apply(e), "apply"), (Error(w).apply(e), "apply"), (e.filter(boom, w), "filter"),
                     (e.filter_with(boom, boom), "filter_with"), (Error(w).or_else(e), "or_else"),
                     (result.map(boom)(e), "result.map"), (result.bind(boom)(e), "result.bind"),
                     (result.or_else(e)(Error(w)), "result.or_else")):
        holds(ctx, r, "error", v, f"{label} of Error")
    for r, label in ((a.map_error(boom), "map_error"), (a.or_else(Ok(w)), "or_else"), (a.or_else_with(boom), "or_else_with"),
                     (result.map_error(boom)(a), "result.map_error"), (Error(w).or_else(a), "or_else of Error"),
                     (result.or_else_with(boom)(a), "result.or_else_with")):
        holds(ctx, r, "ok", v, f"{label} of Ok")


@harness(P)
def any_exception(ctx):
    """An exception of a callback, of any kind, is passed on as it is."""
    e, shape = exception_or_shape(ctx, stop=True)
    calls = []

    def f(*_):
        calls.append(1)
        raise e

    f = shape(f)

    a, b = Ok(1), Error(1)
    for label, run in {
        "map": lambda: a.map(f), "result.map": lambda: result.map(f)(a), "bind": lambda: a.bind(f), "result.bind": lambda: result.bind(f)(a),
        "map2": lambda: a.map2(Ok(2), f), "result.map2": lambda: result.map2(f)(a)(Ok(2)), "apply": lambda: a.apply(Ok(f)),
        "map_error": lambda: b.map_error(f), "result.map_error": lambda: result.map_error(f)(b), "filter": lambda: a.filter(f, 1),
        "filter_with": lambda: a.filter_with(f, boom), "filter_with, error": lambda: a.filter_with(lambda _: False, f),
        "default_with": lambda: b.default_with(f), "result.default_with": lambda: result.default_with(f)(b),
        "or_else_with": lambda: b.or_else_with(f), "result.or_else_with": lambda: result.or_else_with(f)(b),
    }.items():
        calls.clear()
        passes(ctx, run, e, f"{label}: the exception of a callback is passed on")
        ctx.check(len(calls) == 1, f"{label}: called once", calls)


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    inc, even, half = (lambda x: x + 1), (lambda x: x % 2 == 0), (lambda x: Ok(x * 10) if x else Error(7))
    r = ctx.choose("r", [Ok(4), Ok(0), Error(3)])
    generic.reentrant(ctx, {
        "map": lambda f: r.map(f(inc)), "map2": lambda f: r.map2(Ok(5), f(lambda a, b: a * 3 + b)), "bind": lambda f: r.bind(f(half)), "filter": lambda f: r.filter(f(even), 8),
        "filter_with": lambda f: r.filter_with(f(even), f(lambda x: x + 80)), "or_else_with": lambda f: r.or_else_with(f(lambda e: Ok(e + 9))),
        "default_with": lambda f: r.default_with(f(lambda e: e + 9)), "map_error": lambda f: r.map_error(f(inc)),
        "result.map": lambda f: pipe(r, result.map(f(inc))), "result.bind": lambda f: pipe(r, result.bind(f(half))), "result.map_error": lambda f: pipe(r, result.map_error(f(inc))),
    }, top=2)


@harness(P)
def operators_raise(ctx):
    """Exceptions of the elements' own operators reach the caller."""
    generic.touchy(ctx, {
        "==": lambda t: Ok(t()) == Ok(t()), "!=": lambda t: Ok(t()) != Ok(t()), "nested": lambda t: Ok(Error(t())) == Ok(Error(t())), "== of errors": lambda t: Error(t()) == Error(t()),
        "!= of errors": lambda t: Error(t()) != Error(t()), "hash": lambda t: hash(Ok(t())), "hash of an error": lambda t: hash(Error(t())), "map": lambda t: Ok(t(1)).map(lambda x: x + 1),
        "map_error": lambda t: Error(t(1)).map_error(lambda x: x + 1), "filter": lambda t: Ok(t(1)).filter(lambda x: x == 1, 0),
    })
