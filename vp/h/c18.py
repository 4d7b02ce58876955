"""C18: pipeline, traverse, sequence and catch."""

from __future__ import annotations

from expression import EffectError, Error, Failure, Nothing, Ok, Option, Result, Some, Success, Try, effect
from expression.collections import Block
from expression.extra.option import pipeline as option_pipeline
from expression.extra.result import catch, sequence, traverse
from expression.extra.result import pipeline as result_pipeline

from ..engine import UserError, UserError2
from ..registry import grid, harness
from . import generic, odd
from .c14 import good, payload

P = "C18"
BOUNDS = (
    "Pipelines of 0 to 4 functions (thorough: 6), each an arbitrary function returning Some/Nothing or Ok/Error "
    "of an arbitrary value (any int, None, nested options and results) or raising, and of 200; blocks of 0 to 4 "
    "elements (thorough: 6) for traverse and sequence, with every combination of cases, and of 300 elements with "
    "one failure; catch of functions that return anything (Results and subclasses of it included) or raise the declared exception, a "
    "subclass of it, an unrelated one or a BaseException, used as a decorator and as a function, nested, and "
    "called again. Values of about 60 kinds, exceptions of 40 kinds, traversals of traversals, functions that use"
    " the pipeline they are part of or run in two threads at once."
)
OUTSIDE = "The order in which traverse calls its function on the elements; pipelines of more than a few hundred functions (each nests one call)."
ASSUMPTIONS: list[str] = []


class Sub(UserError):
    pass


class Abort(BaseException):
    pass


KIND = {
    "option": (option_pipeline, Some, lambda s: ("option", s)),
    "result": (result_pipeline, Ok, lambda s: ("result", s, s)),
}


@harness(P, quick=grid(kind=["option", "result"], n=[2, 4]), thorough=grid(kind=["option", "result"], n=[3, 6]), cost=3)
def pipelines(ctx, kind, n):
    pipeline, unit, spec = KIND[kind]
    log = []
    k = ctx.size("functions", 0, n)
    inner = "deep" if n < 4 else "val"
    fns = [ctx.fun(f"f{i}", ("raises", spec(inner)), log) for i in range(k)]
    x = ctx.value("x", "deep" if n < 4 else "val")

    def expect():
        m = unit(x)
        for f in fns:
            if not good(m):
                return m
            m = f(payload(m))
        return m

    want = ctx.outcome(expect)
    calls = list(log)
    log.clear()
    p = pipeline(*fns)
    ctx.same(log, [], "building a pipeline calls nothing")
    ctx.same(ctx.outcome(lambda: p(x)), want, "pipeline: value")
    ctx.same(log, calls, "pipeline: stops at the first failure, calling nothing after it")
    log.clear()
    ctx.same(ctx.outcome(lambda: p(x)), want, "pipeline: again")
    ctx.same(log, calls, "pipeline: calls again")


@harness(P, quick=grid(kind=["option", "result"]))
def pipelines_compose(ctx, kind):
    """A pipeline is a function like those it is made of."""
    pipeline, unit, spec = KIND[kind]
    f, g, h = (ctx.fun(n, spec("val")) for n in "fgh")
    x = ctx.value("x", "val")
    want = pipeline(f, g, h)(x)
    ctx.same(pipeline(pipeline(f, g), h)(x), want, "associative on the left")
    ctx.same(pipeline(f, pipeline(g, h))(x), want, "associative on the right")
    ctx.same(pipeline(f, pipeline())(x), f(x), "unit on the right")
    ctx.same(pipeline(pipeline(), f)(x), f(x), "unit on the left")
    ctx.same(want, f(x).bind(g).bind(h), "chained binds")


@harness(P, quick=grid(kind=["option", "result"]))
def long_pipeline(ctx, kind):
    pipeline, unit, spec = KIND[kind]
    x = ctx.int("x")
    n = 200
    at = ctx.choose("fails at", [None, 0, 1, 99, n - 1])
    err = Nothing if kind == "option" else Error(ctx.int("e"))
    log = []

    def mk(i):
        def f(v):
            log.append(i)
            return err if i == at else unit(v)

        return f

    r = ctx.outcome(lambda: pipeline(*[mk(i) for i in range(n)])(x))
    ctx.same(r, ("ok", unit(x) if at is None else err), "long pipeline")
    ctx.check(log == list(range(n if at is None else at + 1)), "long pipeline: calls")


def first_failure(rs):
    for r in rs:
        if not good(r):
            return r
    return Ok(Block([payload(r) for r in rs]))


@harness(P, quick=grid(n=[2, 4]), thorough=grid(n=[3, 6]), cost=2)
def traversing(ctx, n):
    spec = "deep" if n < 4 else "val" if n == 4 else "int"
    log = []
    f = ctx.fun("f", ("result", spec, spec), log)
    xs = ctx.list("x", 0, n, "val" if n == 2 else "int")
    b = Block(xs)
    rs = [f(x) for x in xs]
    log.clear()
    got = ctx.outcome(lambda: traverse(f, b))
    ctx.same(got, ("ok", first_failure(rs)), "traverse")
    if got[1].is_ok():
        ctx.check(len(log) == len(xs), "traverse: once per element")
    ctx.same(sequence(Block(rs)), first_failure(rs), "sequence")
    ctx.same(list(b), xs, "the block is left as it was")


@harness(P, quick=[dict(n=2)], thorough=[dict(n=3)])
def traversing_nested(ctx, n):
    """A traversal of traversals; each stops at its own first failure."""
    rows = [ctx.list(f"row{i}", 0, n, ("result", "int", "int")) for i in range(ctx.size("rows", 0, n))]
    want = first_failure([first_failure(row) for row in rows])
    ctx.same(traverse(lambda i: traverse(lambda r: r, Block(rows[i])), Block(range(len(rows)))), want, "traverse of traverse")
    ctx.same(traverse(lambda i: sequence(Block(rows[i])), Block(range(len(rows)))), want, "traverse of sequence")
    ctx.same(sequence(Block([sequence(Block(row)) for row in rows])), want, "sequence of sequences")


@harness(P)
def traversing_raises(ctx):
    f = ctx.fun("f", ("raises", ("result", "int", "int")))
    xs = ctx.list("x", 0, 3)
    rs = [ctx.outcome(lambda x=x: f(x)) for x in xs]
    bad = [r[1] for r in rs if r[0] == "raise"]
    errors = [r for r in rs if r[0] == "ok" and not good(r[1])]
    got = ctx.outcome(lambda: traverse(f, Block(xs)))
    if bad and not errors:
        ctx.check(got[0] == "raise", "an exception of the function is passed on")
        if got[0] == "raise":
            ok = False
            for e in bad:
                ok = ctx.or_(ok, ctx.eq(got[1], e))
            ctx.check(ok, "traverse: an exception the function raised")
    elif not bad:
        ctx.same(got, ("ok", first_failure([r[1] for r in rs])), "traverse")


@harness(P, quick=grid(n=[300]), thorough=grid(n=[300, 3000]))
def long_traverse(ctx, n):
    at = ctx.choose("fails at", [None, 0, 1, n // 2, n - 1])
    second = ctx.choose("second failure", [None, n // 2, n - 1])
    x, e, e2 = ctx.int("x"), ctx.int("e"), ctx.int("e2")
    rs = [Error(e) if i == at else Error(e2) if i == second else Ok(x) for i in range(n)]
    want = first_failure(rs)
    r = ctx.outcome(lambda: sequence(Block(rs)))
    ctx.check(r[0] == "ok", "long sequence")
    ctx.check(r[1].tag == want.tag, "long sequence: case")
    if want.is_ok():
        ctx.check(len(r[1].ok) == n, "long sequence: length")
        ctx.same(list(r[1].ok)[:: n // 10], [x] * len(range(0, n, n // 10)), "long sequence: elements")
    else:
        ctx.same(r[1], want, "long sequence: the first failure")


def raiser(ctx, name, log):
    """A function that returns anything, or raises, as the solver likes."""
    f = ctx.fun(name, "deep")
    how = ctx.choose(f"{name} ends", ["return", "declared", "subclass", "unrelated", "base"])
    code = ctx.int("code")

    def g(*args, **kw):
        log.append((args, tuple(sorted(kw.items()))))
        if how == "return":
            return f(args, tuple(sorted(kw.items())))
        e = {"declared": UserError, "subclass": Sub, "unrelated": UserError2}.get(how)
        exn = Abort() if e is None else e(code)
        log.append(exn)
        raise exn

    return g, how, f


@harness(P, quick=grid(how_called=["decorator", "function"]))
def catching(ctx, how_called):
    log = []
    g, how, f = raiser(ctx, "f", log)
    args = tuple(ctx.list("a", 0, 2))
    kw = {k: ctx.int(k) for k in ["p", "q"][: ctx.size("keywords", 0, 1)]}
    w = catch(exception=UserError)(g) if how_called == "decorator" else catch(g, exception=UserError)
    ctx.check(len(log) == 0, "wrapping calls nothing")
    for again in range(2):
        log.clear()
        try:
            r = w(*args, **kw)
        except (Exception, Abort) as e:  # noqa: BLE001
            ctx.check(how in ("unrelated", "base") and e is log[-1], "exactly the undeclared exception is passed on")
        else:
            ctx.check(isinstance(r, Result), "gives a result")
            if how == "return":
                out = f(args, tuple(sorted(kw.items())))
                ctx.same(r, out if isinstance(out, Result) else Ok(out), "catch: the value")
            else:
                ctx.check(how in ("declared", "subclass"), "only a declared exception is caught")
                ctx.check(r.tag == "error" and r.error is log[-1], "catch: exactly the exception that was raised")
        ctx.same(log[0], (args, tuple(sorted(kw.items()))), "catch: arguments")
        ctx.check(len(log) == (1 if how == "return" else 2), "catch: called once")


class Own(Result):
    """Somebody's own kind of result."""


@harness(P)
def results_of_subclasses(ctx):
    """A Try, or any other subclass of Result, is a result."""
    v, e = ctx.value("v", "deep"), ctx.int("e")
    make = ctx.choose("type", [Result, Try, Own])
    good, bad = make(ok=v), make(error=e)
    shown = lambda r: (r.tag, getattr(r, r.tag))  # noqa: E731
    for r in (good, bad):
        odd.is_(ctx, catch(exception=ValueError)(lambda: r)(), r, "catch: a result is not wrapped")
        odd.is_(ctx, catch(lambda x: x, exception=ValueError)(r), r, "catch: a result is not wrapped")
    r = sequence(Block([good, Ok(0), good]))
    ctx.check(r.tag == "ok", "sequence of successes")
    ctx.same(list(r.ok), [v, 0, v], "sequence of successes")
    ctx.same(shown(sequence(Block([good, bad, Error(7)]))), ("error", e), "sequence with failures")
    ctx.same(shown(traverse(lambda x: bad if x else good, Block([0, 1]))), ("error", e), "traverse with a failure")
    ctx.same(result_pipeline(lambda x: make(ok=(x, v)), lambda x: make(ok=(x, 1)))(0).ok, ((0, v), 1), "pipeline of successes")
    ctx.same(shown(result_pipeline(lambda x: good, lambda x: bad, lambda x: good)(0)), ("error", e), "pipeline with a failure")


@harness(P)
def catching_nested(ctx):
    """Two declared exceptions: each level catches its own."""
    log = []
    g, how, f = raiser(ctx, "f", log)
    x = ctx.int("x")
    outer, inner = ctx.choose("which", [(UserError, UserError2), (UserError2, UserError), (Sub, UserError2), (UserError, Sub)])
    w = catch(exception=outer)(catch(exception=inner)(g))
    try:
        r = w(x)
    except (Exception, Abort) as e:  # noqa: BLE001
        ctx.check(e is log[-1] and not isinstance(e, (outer, inner)), "nested: only an undeclared exception escapes")
    else:
        if how == "return":
            out = f((x,), ())
            ctx.same(r, out if isinstance(out, Result) else Ok(out), "nested: the value")
        else:
            ctx.check(isinstance(log[-1], (outer, inner)) and r.tag == "error" and r.error is log[-1], "nested: the exception")


@harness(P)
def catching_computation(ctx):
    """catch around a computation expression: the result is not wrapped twice."""
    m = ctx.value("m", ("result", "val", "int"))
    raises = ctx.bool("raises")
    code = ctx.int("code")

    @catch(exception=UserError)
    @effect.result[int, Exception]()
    def fn():
        v = yield from m
        if raises:
            raise UserError(code)
        return v

    want = m if not good(m) else Error(UserError(code)) if bool(raises) else m
    ctx.same(ctx.outcome(fn), ("ok", want), "catch around a computation expression")


@harness(P)
def tries(ctx):
    v = ctx.value("v", "deep")
    e = UserError(ctx.int("e"))
    f = ctx.fun("f", ("raises", "val"))
    g = ctx.fun("g", ("result", "int", "int"))
    s, t = Success(v), Failure(e)
    ctx.check(type(s) is Try and type(t) is Try and isinstance(s, Result), "types")
    ctx.check(s.is_ok() is True and s.is_error() is False and t.is_ok() is False and t.is_error() is True, "cases")
    ctx.same(s.ok, v, "payload of a success")
    ctx.check(t.error is e, "payload of a failure")
    ctx.same(ctx.outcome(lambda: s.map(f)), ctx.outcome(lambda: Ok(f(v))), "map of a success")
    r = t.map(f)
    ctx.check(r.tag == "error" and r.error is e, "map of a failure")
    ctx.same(s.bind(g), g(v), "bind of a success")
    r = t.bind(g)
    ctx.check(r.tag == "error" and r.error is e, "bind of a failure")
    ctx.same(s.default_value(7), v, "default of a success")
    ctx.same(t.default_value(7), 7, "default of a failure")
    ctx.check(s.to_option() == Some(v) and t.to_option() is Nothing, "options")
    ctx.check(isinstance(s.to_option(), Option), "options")
    ctx.check(str(s) == f"Success {v}" and str(t) == f"Failure {e}", "str")


@harness(P)
def any_payload(ctx):
    v, w = odd.pick(ctx, "v"), ctx.choose("second", [1, None])
    odd.holds(ctx, option_pipeline(Some, lambda x: Some(x))(v), "some", v, "option pipeline")
    odd.holds(ctx, option_pipeline(lambda x: Some(v), lambda x: Some(x), Some)(w), "some", v, "option pipeline, middle")
    odd.holds(ctx, option_pipeline()(v), "some", v, "empty option pipeline")
    odd.holds(ctx, result_pipeline(Ok, lambda x: Ok(x))(v), "ok", v, "result pipeline")
    odd.holds(ctx, result_pipeline(lambda x: Ok(v), lambda x: Ok(x), Ok)(w), "ok", v, "result pipeline, middle")
    odd.holds(ctx, result_pipeline()(v), "ok", v, "empty result pipeline")
    odd.holds(ctx, result_pipeline(Ok, lambda x: Error(x), Ok, Error)(v), "error", v, "failing result pipeline")
    odd.holds(ctx, result_pipeline(lambda x: Error(v), Ok)(w), "error", v, "failing result pipeline, first")
    ctx.check(option_pipeline(Some, lambda x: Nothing, Some)(v).tag == "none", "failing option pipeline")

    def elements(r, want, label):
        ctx.check(type(r) is Result and r.tag == "ok" and isinstance(r.ok, Block), label, r)
        got = list(r.ok)
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), label, (got, want))

    for xs in ([v], [v, w], [w, v], [w, v, 2]):
        elements(sequence(Block([Ok(x) for x in xs])), xs, "sequence")
        elements(traverse(Ok, Block(xs)), xs, "traverse")
        elements(traverse(lambda i: Ok(xs[i]), Block(list(range(len(xs))))), xs, "traverse by index")
    for rs in ([Error(v)], [Error(v), Ok(w)], [Ok(w), Error(v)], [Ok(w), Error(v), Error(w)], [Ok(v), Error(v), Ok(v)]):
        odd.holds(ctx, sequence(Block(rs)), "error", v, "sequence of a failure")
    r = catch(exception=ValueError)(lambda x: x)(v)
    if isinstance(v, Result):
        odd.is_(ctx, r, v, "catch of a function that returns a result")
    else:
        odd.holds(ctx, r, "ok", v, "catch of a function that returns a value")
    r = catch(exception=Exception)(lambda *, x: x)(x=v)
    if not isinstance(v, Result):
        odd.holds(ctx, r, "ok", v, "catch of every exception, of a function that returns a value")


@harness(P)
def any_exception(ctx):
    """Whatever is raised: caught exactly if it is of the declared type."""
    e, shape = odd.exception_or_shape(ctx, stop=True)
    declared = ctx.choose("declared", [ValueError, Exception, LookupError, KeyError, OSError, odd.Wrapping, ArithmeticError, StopIteration])

    def boom(*_):
        raise e

    boom = shape(boom)

    class Unrelated(Exception):
        pass

    cause = e.__cause__
    for lab, f in (("decorator", catch(exception=declared)(boom)), ("function", catch(boom, exception=declared))):
        if isinstance(e, declared):
            r = odd.outcome(lambda: f(1))
            ctx.check(r[0] == "ok" and r[1].tag == "error" and r[1].error is e, f"caught by a {lab}", (r, e))
            ctx.check(e.__cause__ is cause, "caught unchanged")
        else:
            odd.passes(ctx, lambda: f(1), e, f"passed on by a {lab}")
    odd.passes(ctx, lambda: catch(exception=Unrelated)(boom)(1), e, "passed on")

    def from_other():
        try:
            raise Unrelated
        except Unrelated as u:
            raise e from u

    if cause is None:
        odd_r = odd.outcome(catch(exception=Unrelated)(from_other))
        ctx.check(odd_r[0] == "raise" and odd_r[1] is e, "an exception with a cause of the declared type is passed on", odd_r)

    def during_other():
        try:
            raise Unrelated
        except Unrelated:
            raise e

    odd_r = odd.outcome(catch(exception=Unrelated)(during_other))
    ctx.check(odd_r[0] == "raise" and odd_r[1] is e, "an exception raised while handling one of the declared type is passed on", odd_r)
    for lab, f in (
        ("option pipeline", lambda: option_pipeline(Some, boom, Some)(1)),
        ("result pipeline", lambda: result_pipeline(Ok, boom, Ok)(1)),
    ):
        odd.passes(ctx, f, e, f"{lab}: passed on")
    if not isinstance(e, (StopIteration, EffectError)):  # traverse is a computation expression
        odd.passes(ctx, lambda: traverse(boom, Block([1, 2])), e, "traverse: passed on")


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    inc = lambda x: Ok(x + 1)  # noqa: E731
    b = Block([4, 7, 5, 9])
    cell = generic.Cell()

    def held(x):
        return cell[0](x)

    def through(c, x, good):
        def run(f):
            kept, cell[0] = cell[0], f(good)
            try:
                return c(x)
            finally:
                cell[0] = kept
        return run

    def some(x):
        return Some(x + 1)

    def risky(x):
        if x % 2:
            raise ValueError(x)
        return x + 1

    def caught(c, x):
        def run(f):
            kept, cell[0] = cell[0], f(risky)
            try:
                r = c(x)
            finally:
                cell[0] = kept
            return ("ok", r.ok) if r.tag == "ok" else ("error", str(r.error))
        return run

    table = {
        "result pipeline": lambda f: result_pipeline(f(inc), f(inc), f(lambda x: Ok(x * 2)))(4), "option pipeline": lambda f: option_pipeline(f(some), f(some), f(some))(4),
        "a result pipeline made once": through(result_pipeline(held, inc, held), 4, inc), "an option pipeline made once": through(option_pipeline(held, some, held), 4, some),
        "a result pipeline that fails": through(result_pipeline(held, inc, held), 4, lambda x: Ok(x) if x < 5 else Error(x)),
        "traverse": lambda f: traverse(f(inc), b), "traverse that fails": lambda f: traverse(f(lambda x: Error(x) if x in (7, 9) else Ok(x)), b),
        "catch": caught(catch(exception=ValueError)(held), 4), "catch that catches": caught(catch(exception=ValueError)(held), 5), "catch of a function": caught(catch(held, exception=ValueError), 5),
    }
    generic.reentrant(ctx, table)


@harness(P)
def any_argument(ctx):
    """Arguments of every kind reach a function wrapped to catch exceptions as they are."""
    def wrapped(how):
        def decorate(note):
            def f(*a, **kw):
                note(a, kw)
                return 2

            return how(f)

        return decorate

    generic.arguments(ctx, {"decorator": wrapped(lambda f: catch(exception=ValueError)(f)), "function": wrapped(lambda f: catch(f, exception=ValueError)),
                            **{k: wrapped(lambda f, k=k: catch(exception=ValueError)(generic.forms(f)[k])) for k in generic.forms(len)}})
