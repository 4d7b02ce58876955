"""C15: the seq computation expression."""

from __future__ import annotations

from expression import effect
from expression.collections import Seq, seq

from ..engine import UserError
from ..registry import grid, harness
from . import generic, odd

P = "C15"
BOUNDS = (
    "Every program of up to 4 statements (thorough: 5) out of: yield a value, yield from a sequence of up to 2 "
    "elements, yield from a nested computation, return a value, return nothing, raise; with symbolic values (any "
    "int, None or nested values); loops of a symbolic number of elements; computations of 3000 elements. Payloads"
    " of about 60 kinds, exceptions of 40 kinds raised in the body, calls repeated, nested, from two threads at "
    "once, and after calls that ended in an exception."
)
OUTSIDE = "Yielding from iterables which do not accept sent values (plain lists): Python itself refuses that."
ASSUMPTIONS = []


def program(ctx, name, n, kinds, spec="val"):
    prog = []
    for i in range(n):
        k = ctx.choose(f"{name}{i}", kinds)
        if k == "end":
            break
        if k in ("yield", "return"):
            prog.append((k, ctx.value(f"{name}{i}.v", spec)))
        elif k == "from":
            prog.append((k, ctx.list(f"{name}{i}.m", 0, 2)))
        elif k == "raise":
            prog.append((k, ctx.int(f"{name}{i}.e")))
        elif k == "call":
            prog.append((k, program(ctx, f"{name}{i}.", 2, ["end", "yield", "from", "return"], "int")))
        else:
            prog.append((k, None))
        if k in ("return", "return none", "raise"):
            break
    return prog


def reference(prog, log):
    out = []
    for k, v in prog:
        if k == "yield":
            out.append(v)
            log.append(v)
        elif k == "from":
            out += v
        elif k == "call":
            out += reference(v, log)
        elif k == "return":
            if v is not None:
                out.append(v)
            return out
        elif k == "raise":
            raise UserError(v)
        else:
            return out
    return out


def make(log):
    @effect.seq()
    def f(prog):
        for k, v in prog:
            if k == "yield":
                x = yield v
                log.append(x)
            elif k == "from":
                yield from Seq(v)
            elif k == "call":
                yield from f(v)
            elif k == "return":
                return v
            elif k == "raise":
                raise UserError(v)
            else:
                return None

    return f


def compare(ctx, prog, label):
    log, want_log = [], []
    f = make(log)
    want = ctx.outcome(lambda: reference(prog, want_log))
    got = ctx.outcome(lambda: f(prog))
    if got[0] == "ok":
        r = got[1]
        ctx.same(("ok", list(r)), want, f"{label}: elements")
        ctx.same(("ok", list(r)), want, f"{label}: elements, iterated again")
        ctx.same(("ok", list(seq.map(lambda x: x)(r))), want, f"{label}: elements, in a pipeline")
    else:
        ctx.same(got, want, f"{label}: exception")
    ctx.same(log, want_log, f"{label}: values sent back")
    return f, want


@harness(P, quick=[dict(n=3, spec="deep"), dict(n=4, spec="int")], thorough=[dict(n=4, spec="val"), dict(n=5, spec="int")], cost=4)
def programs(ctx, n, spec):
    prog = program(ctx, "s", n, ["end", "yield", "from", "return", "return none", "raise"], spec)
    f, want = compare(ctx, prog, "program")
    got = ctx.outcome(lambda: list(f(prog)))
    ctx.same(got, want, "the same computation again")


@harness(P, quick=[dict(n=2)], thorough=[dict(n=3)], cost=4)
def nested(ctx, n):
    compare(ctx, program(ctx, "s", n, ["end", "yield", "from", "call", "return"], "int"), "nested program")


@harness(P)
def plain_functions(ctx):
    v = ctx.value("v", "deep")
    f = ctx.fun("f", ("raises", "val"))
    a, b = ctx.int("a"), ctx.int("b")

    @effect.seq()
    def plain(x, y=0):
        return f(x, y)

    def ref(x, y):
        r = f(x, y)
        return [] if r is None else [r]

    ctx.same(ctx.outcome(lambda: list(plain(a))), ctx.outcome(lambda: ref(a, 0)), "plain function")
    ctx.same(ctx.outcome(lambda: list(plain(a, y=b))), ctx.outcome(lambda: ref(a, b)), "keyword arguments")

    @effect.seq()
    def deep():
        return v

    ctx.same(list(deep()), [] if v is None else [v], "any value is an element")


@harness(P, quick=[dict(n=5)], thorough=[dict(n=7)])
def loops(ctx, n):
    xs = ctx.list("x", 0, n)
    p = ctx.fun("p", "bool")

    @effect.seq()
    def f():
        for x in xs:
            if p(x):
                y = yield x
                yield y + 1
        return len(xs)

    want = [z for x in xs if p(x) for z in (x, x + 1)] + [len(xs)]
    ctx.same(list(f()), want, "loop with a branch")

    @effect.seq()
    def g():
        yield from f()
        yield from f()

    ctx.same(list(g()), want + want, "two sequences after each other")


@harness(P, quick=[dict(n=3000)], path_timeout=60, validations=1)
def long_ones(ctx, n):
    v = ctx.int("v")

    @effect.seq()
    def f():
        for i in range(n):
            yield v + i

    r = list(f())
    ctx.same(len(r), n, "length of a long computation")
    ctx.same(r, [v + i for i in range(n)], "elements of a long computation")


@harness(P)
def any_payload(ctx):
    """Values of every kind are elements, as they are."""
    v = odd.pick(ctx, "v")
    log = []

    def elements(r, want, label):
        for lab in (label, f"{label}, again"):
            got = list(r)
            ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), lab, (got, want))

    @effect.seq()
    def f(end):
        x = yield v
        log.append(x)
        yield 1
        yield from Seq([v, 2, v])
        x = yield v
        log.append(x)
        yield from g()
        if end:
            return v
        return None

    @effect.seq()
    def g():
        yield v
        yield 3

    most = [v, 1, v, 2, v, v, v, 3]
    elements(f(True), most if v is None else most + [v], "elements, with a returned value")
    elements(f(False), most, "elements")
    odd.is_(ctx, log[0], v, "a yield evaluates to its value")
    odd.is_(ctx, log[1], v, "a later yield evaluates to its value")

    @effect.seq()
    def one():
        yield v

    elements(one(), [v], "one element")

    @effect.seq()
    def plain():
        return v

    elements(plain(), [] if v is None else [v], "a plain function")


@harness(P)
def any_exception(ctx):
    e = odd.some_exception(ctx, effects=False)
    at = ctx.size("at", 0, 3)

    @effect.seq()
    def f():
        if at == 0:
            raise e
        yield 1
        if at == 1:
            raise e
        yield from Seq([1, 2])
        if at == 2:
            raise e
        yield from g()

    @effect.seq()
    def g():
        yield 2
        raise e

    odd.passes(ctx, lambda: list(f()), e, "an exception of the body is passed on")


@harness(P)
def methods(ctx):
    """The operations of the builder itself, as it documents them."""
    b = effect.seq()
    xs, ys = ctx.value("xs", ("list", "val", 2)), ctx.value("ys", ("list", "int", 2))
    v = ctx.value("v", "deep")
    calls = []

    f = ctx.fun("f", ("list", "int", 2))

    def fn(x):
        calls.append(x)
        return [x, *ys] if whole else f(x)

    whole = ctx.bool("whole")
    got = list(b.bind(list(xs), fn))
    ctx.same(got, [z for x in xs for z in ((x, *ys) if whole else f(x))], "bind")
    ctx.same(calls, xs, "bind calls its function with every element, in order")
    ctx.same(list(b.return_(v)), [v], "return_")
    ctx.same(list(b.return_from(list(xs))), xs, "return_from")
    ctx.same(list(b.combine(list(xs), iter(ys))), [*xs, *ys], "combine")
    ctx.same(list(b.zero()), [], "zero")


@harness(P, quick=[dict(n=3)], thorough=[dict(n=4)])
def again(ctx, n):
    """Each call runs the body anew: same arguments (or none at all), other values."""
    vs = [ctx.value(f"v{i}", "val") for i in range(n)]
    ends = [ctx.bool(f"returns{i}") for i in range(n)]
    left = []

    def body(*a, **kw):
        i = left.pop(0)
        yield vs[i]
        yield from Seq([vs[i], i])
        if ends[i]:
            return i
        yield -i

    run = effect.seq()(body)
    for lab, a, kw in (("no arguments", (), {}), ("one argument", (1,), {}), ("a keyword", (), {"k": 1})):
        left[:] = range(n)
        for i in range(n):
            got = list(run(*a, **kw))
            ctx.same(got, [vs[i], vs[i], i, i if ends[i] else -i], f"{lab}: call {i}")


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    def loop(g):
        for i in range(4):
            yield from g(i)

    b = effect.seq[int]()
    table = {}
    for lab, body in (("a computation", loop), ("a plain function", lambda g: g(1))):
        fn, own = b(body), effect.seq[int]()(body)
        table[lab] = lambda f, fn=fn: list(fn(f(lambda x: Seq([x]))))
        table[lab + ", with a builder of its own"] = lambda f, own=own: list(own(f(lambda x: Seq([x]))))
    generic.reentrant(ctx, table, top=4)


@harness(P)
def any_argument(ctx):
    """Arguments of every kind reach the body as they are."""
    def computing(note):
        def f(*a, **kw):
            note(a, kw)
            yield 1
            return 2

        run = effect.seq()(f)
        return lambda *a, **kw: list(run(*a, **kw))

    def plain(note):
        def f(*a, **kw):
            note(a, kw)
            return 2

        run = effect.seq()(f)
        return lambda *a, **kw: list(run(*a, **kw))

    generic.arguments(ctx, {"computation": computing, "plain function": plain})


@harness(P)
def any_form(ctx):
    """Sequence expressions written as functions of other forms."""
    a, b = ctx.value("a", "val"), ctx.value("b", "val")
    k = ctx.choose("form", list(generic.forms(len)))

    def body(a, b):
        x = yield a
        yield from Seq([b, x])
        return b

    ctx.same(ctx.outcome(lambda: list(effect.seq()(generic.forms(body)[k])(a, b))), ("ok", [a, b, a] + ([b] if b is not None else [])), f"a computation as a {k}")
