"""C12: conversions between Option, Result, optional, list, sequence and dict."""

from __future__ import annotations

from expression import Error, Nothing, Ok, Option, Result, Some, option, result
from expression.collections import Block, Seq, block
from expression.core import default_arg

from ..registry import grid, harness
from . import generic
from .common import exact as both, opt, res
from .odd import exception_or_shape, holds, is_, passes, pick

P = "C12"
BOUNDS = (
    "Any symbolic option or result; payloads: any int, None, '', (), [], a non-empty string or tuple, or one or two "
    "levels of nested Option/Result, about 40 odd objects, and for dict payloads with a plain form of their own; error getters: any pure function, possibly raising."
)
ALSO = {"c10": ["filter_"], "c11": ["filter_", "filter_with", "swap", "defaults"]}
OUTSIDE = "The JSON text produced by pydantic (Rust); payloads whose plain form raises."
ASSUMPTIONS = ["callbacks are deterministic functions of their arguments within one check"]


def wide(ctx, name):
    return ctx.choose(name + "?", [lambda: ctx.value(name, "deep"), lambda: ctx.value(name, "wide")])()


@harness(P)
def optional(ctx):
    v = wide(ctx, "v")
    both(ctx, "of_optional", lambda: Nothing if v is None else Some(v), lambda: option.of_optional(v),
         lambda: Option.of_optional(v), lambda: option.of_obj(v), lambda: Option.of_obj(v))
    o = ctx.choose("o?", [lambda: Some(wide(ctx, "w")), lambda: Nothing])()
    both(ctx, "to_optional", lambda: o.some if o.tag == "some" else None, lambda: o.to_optional(),
         lambda: option.to_optional(o))
    ctx.same(option.of_optional(v).to_optional(), v, "optional -> option -> optional")
    if v is not None:
        ctx.same(option.of_optional(Some(v).to_optional()), Some(v), "option -> optional -> option")


@harness(P)
def lists(ctx):
    o = ctx.choose("o?", [lambda: Some(wide(ctx, "w")), lambda: Nothing])()
    exp = [o.some] if o.tag == "some" else []
    both(ctx, "to_list", lambda: exp, lambda: o.to_list(), lambda: option.to_list(o))
    for s in (o.to_seq(), option.to_seq(o)):
        ctx.check(isinstance(s, Seq), "to_seq gives a Seq")
        ctx.same(list(s), exp, "to_seq")
        ctx.same(list(s), exp, "to_seq, again")


@harness(P)
def option_result(ctx):
    o, e = opt(ctx, "o"), ctx.value("e", "deep")
    both(ctx, "to_result", lambda: Ok(o.some) if o.tag == "some" else Error(e), lambda: o.to_result(e),
         lambda: option.to_result(o, e), lambda: result.of_option(o, e), lambda: Result.of_option(o, e))
    log = []
    g = ctx.fun("g", ("raises", "val"), log=log)
    both(ctx, "to_result_with", lambda: Ok(o.some) if o.tag == "some" else Error(g()), lambda: o.to_result_with(g),
         lambda: option.to_result_with(o, g), lambda: result.of_option_with(o, g),
         lambda: Result.of_option_with(o, g))
    log.clear()
    ctx.outcome(lambda: o.to_result_with(g))
    ctx.check(len(log) == (0 if o.tag == "some" else 1), "the error getter runs only for Nothing")


@harness(P)
def result_option(ctx):
    r = res(ctx, "r")
    both(ctx, "to_option", lambda: Some(r.ok) if r.tag == "ok" else Nothing, lambda: r.to_option(),
         lambda: result.to_option(r), lambda: option.of_result(r), lambda: Option.of_result(r))


@harness(P)
def round_trips(ctx):
    o, e = opt(ctx, "o"), ctx.value("e", "deep")
    ctx.same(o.to_result(e).to_option(), o, "option -> result -> option")
    r = res(ctx, "r")
    if r.tag == "ok":
        ctx.same(r.to_option().to_result(e), r, "Ok -> option -> Ok")


@harness(P)
def default_arg_(ctx):
    o, d = opt(ctx, "o"), ctx.value("d", "deep")
    ctx.same(default_arg(o, d), o.some if o.tag == "some" else d, "default_arg")


def plain(v):
    """The reference for .dict(): nested options and results become plain values."""
    if isinstance(v, Option):
        return plain(v.some) if v.tag == "some" else None
    if isinstance(v, Result):
        return {"tag": v.tag, v.tag: plain(getattr(v, v.tag))}
    return v


def deep2(ctx, name):
    k = ctx.choose(name + "?", ["v", "o", "r"])
    if k == "v":
        return wide(ctx, name)
    if k == "o":
        return opt(ctx, name)
    return res(ctx, name)


@harness(P)
def dicts(ctx):
    x = ctx.choose("x?", [lambda: Some(deep2(ctx, "w")), lambda: Ok(deep2(ctx, "w")), lambda: Error(deep2(ctx, "w")),
                          lambda: Nothing])()
    ctx.same(x.dict(), plain(x), "dict")
    if isinstance(x, Option):
        ctx.same(option.model_dump(x), plain(x), "model_dump")
    else:
        ctx.same(result.dict(x), plain(x), "result.dict")


class Dumps:
    def __init__(self, v):
        self.v, self.calls = v, 0

    def model_dump(self):
        self.calls += 1
        return self.v


class Dicts:
    def __init__(self, v):
        self.v, self.calls = v, 0

    def dict(self):
        self.calls += 1
        return self.v


class Both(Dicts):
    def model_dump(self):
        return Dicts.dict(self)


class Field:
    """Has a `dict` that is not a method."""

    dict = 5
    calls = 1


def content(ctx, name):
    v = ctx.value(name, "val")
    k = ctx.choose(name + "?", ["itself", Dumps, Dicts, Both, Field, "option", "result", "block"])
    if k == "itself":
        return v, v, None
    if k == "option":
        x = opt(ctx, name + "o", "val")
        return x, plain(x), None
    if k == "result":
        x = res(ctx, name + "r", "val")
        return x, plain(x), None
    if k == "block":
        return Block([Some(v), Nothing]), [v, None], None
    x = Field() if k is Field else k(v)
    return x, (x if k is Field else v), x


@harness(P, quick=grid(n=[2]), thorough=grid(n=[3]))
def plain_forms(ctx, n):
    """dict asks each payload for its plain form, once, where it has one."""
    kind = ctx.choose("kind", ["some", "ok", "error", "block", "seq"])
    k = ctx.size("elements", 0, n) if kind in ("block", "seq") else 1
    cs = [content(ctx, f"c{i}") for i in range(k)]
    xs, want = [c[0] for c in cs], [c[1] for c in cs]

    def fresh(label):
        for c in cs:
            if c[2] is not None and not isinstance(c[2], Field):
                ctx.check(c[2].calls == 1, f"{label}: each payload is asked once", c[2].calls)
                c[2].calls = 0

    if kind == "some":
        for f, label in ((lambda: Some(xs[0]).dict(), "Option.dict"), (lambda: option.model_dump(Some(xs[0])), "option.model_dump")):
            ctx.same(f(), want[0], label)
            fresh(label)
    elif kind in ("ok", "error"):
        r = Ok(xs[0]) if kind == "ok" else Error(xs[0])
        for f, label in ((lambda: r.dict(), "Result.dict"), (lambda: result.dict(r), "result.dict")):
            ctx.same(f(), {"tag": kind, kind: want[0]}, label)
            fresh(label)
    elif kind == "block":
        b = Block(xs)
        for f, label in ((lambda: b.dict(), "Block.dict"), (lambda: block.dict(b), "block.dict")):
            ctx.same(f(), want, label)
            fresh(label)
    else:
        ctx.same(list(Seq(xs).dict()), want, "Seq.dict")
        fresh("Seq.dict")


@harness(P)
def any_payload(ctx):
    """The payload may be any object; every conversion hands on that very object."""
    v, w = pick(ctx, "v"), pick(ctx, "w")
    for f in (option.of_optional, Option.of_optional, option.of_obj, Option.of_obj):
        if v is None:
            ctx.check(f(v).tag == "none", "of_optional of None")
        else:
            holds(ctx, f(v), "some", v, "of_optional")
    a, k, e = Some(v), Ok(v), Error(v)
    is_(ctx, a.to_optional(), v, "to_optional")
    is_(ctx, option.to_optional(a), v, "option.to_optional")
    for xs in (a.to_list(), option.to_list(a), list(a.to_seq()), list(option.to_seq(a)), list(a)):
        ctx.check(len(xs) == 1 and xs[0] is v, "to_list, to_seq", xs)

    def boom():
        raise AssertionError("called")

    for r in (a.to_result(w), option.to_result(a, w), result.of_option(a, w), Result.of_option(a, w),
              a.to_result_with(boom), option.to_result_with(a, boom), result.of_option_with(a, boom),
              Result.of_option_with(a, boom)):
        holds(ctx, r, "ok", v, "Some to Result")
    for r in (Nothing.to_result(v), option.to_result(Nothing, v), result.of_option(Nothing, v), Result.of_option(Nothing, v),
              Nothing.to_result_with(lambda: v), option.to_result_with(Nothing, lambda: v),
              result.of_option_with(Nothing, lambda: v), Result.of_option_with(Nothing, lambda: v)):
        holds(ctx, r, "error", v, "Nothing to Result")
    for o in (k.to_option(), result.to_option(k), option.of_result(k), Option.of_result(k)):
        holds(ctx, o, "some", v, "Ok to Option")
    for o in (e.to_option(), result.to_option(e), option.of_result(e), Option.of_result(e)):
        ctx.check(o.tag == "none", "Error to Option", o)
    holds(ctx, k.swap(), "error", v, "swap of Ok")
    holds(ctx, e.swap(), "ok", v, "swap of Error")
    is_(ctx, k.merge(), v, "merge of Ok")
    is_(ctx, e.merge(), v, "merge of Error")
    holds(ctx, a.filter(lambda x: x is v), "some", v, "filter of Some")
    holds(ctx, k.filter(lambda x: x is v, w), "ok", v, "filter of Ok")
    holds(ctx, k.filter(lambda x: x is not v, w), "error", w, "filter of Ok, dropped")
    holds(ctx, e.filter(lambda x: False, w), "error", v, "filter of Error")
    holds(ctx, k.filter_with(lambda x: False, lambda x: (w, x)[0]), "error", w, "filter_with of Ok, dropped")
    holds(ctx, Block.of_option(a).try_head(), "some", v, "Block.of_option")
    ctx.check(len(Block.of_option(Nothing)) == 0, "Block.of_option of Nothing")


@harness(P)
def any_exception(ctx):
    """An exception of a callback, of any kind, is passed on as it is."""
    e, shape = exception_or_shape(ctx, stop=True)

    def f(*_):
        raise e

    f = shape(f)

    a, k = Some(1), Ok(1)
    for label, run in {
        "to_result_with": lambda: Nothing.to_result_with(f), "option.to_result_with": lambda: option.to_result_with(Nothing, f),
        "result.of_option_with": lambda: result.of_option_with(Nothing, f), "Result.of_option_with": lambda: Result.of_option_with(Nothing, f),
        "filter": lambda: a.filter(f), "Result.filter": lambda: k.filter(f, 0), "filter_with": lambda: k.filter_with(f, f),
    }.items():
        passes(ctx, run, e, f"{label}: the exception of a callback is passed on")


@harness(P)
def reentrant(ctx):
    """Error getters and predicates may use the conversion themselves, and uses that ended in an exception leave nothing behind."""
    o = ctx.choose("o", [Some(4), Nothing])
    generic.reentrant(ctx, {
        "to_result_with": lambda f: o.to_result_with(f(lambda: 9)), "option.to_result_with": lambda f: option.to_result_with(o, f(lambda: 9)),
        "result.of_option_with": lambda f: result.of_option_with(o, f(lambda: 9)), "Result.of_option_with": lambda f: Result.of_option_with(o, f(lambda: 9)),
    }, top=1)
