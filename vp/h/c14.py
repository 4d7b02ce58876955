"""C14: option and result computation expressions equal chained binds."""

from __future__ import annotations

from expression import Error, Nothing, Ok, Some, effect

from ..engine import UserError
from ..registry import grid, harness
from . import generic, odd

P = "C14"
BOUNDS = (
    "Every program of up to 3 statements (thorough: 4) out of: yield a value, yield from an option/result, yield "
    "from a nested computation of up to 2 statements, return a value, return nothing, raise; with symbolic values"
    " (any int, None or nested option/result), for the option, result and try builders; values sent back are "
    "recorded and compared; loops of up to 6 (and of 3000) effects; arguments passed positionally and by keyword."
    " Payloads of about 60 kinds, exceptions of 40 kinds raised in the body, calls repeated with the same "
    "arguments, calls from inside the body, from two threads at once, and after calls that ended in an exception."
)
OUTSIDE = "Programs that catch the short-circuiting exception themselves; generators shared between computations."
ASSUMPTIONS = []

KINDS = {
    "option": (effect.option, Some, lambda: Nothing),
    "result": (effect.result, Ok, lambda: Ok(None)),
    "try": (effect.try_, Ok, lambda: Ok(None)),
}


def effectful(ctx, kind, name, spec):
    if kind == "option":
        return ctx.value(name, ("option", spec))
    return ctx.value(name, ("result", spec, "val"))


def good(m):
    return m.tag in ("some", "ok")


def payload(m):
    return getattr(m, m.tag)


# a program is a list of statements, chosen symbolically


def program(ctx, kind, name, n, kinds, spec="val"):
    prog = []
    for i in range(n):
        k = ctx.choose(f"{name}{i}", kinds)
        if k == "end":
            break
        if k in ("yield", "return"):
            prog.append((k, ctx.value(f"{name}{i}.v", "deep" if k == "yield" else spec)))
        elif k == "from":
            prog.append((k, effectful(ctx, kind, f"{name}{i}.m", spec)))
        elif k == "raise":
            prog.append((k, ctx.int(f"{name}{i}.e")))
        elif k == "call":
            prog.append((k, program(ctx, kind, f"{name}{i}.", 2, ["end", "from", "return"], "int")))
        else:
            prog.append((k, None))
        if k in ("return", "return none", "raise"):
            break
    return prog


def body_of(log, call=None):
    """The body of a computation expression which runs a program."""

    def body(prog):
        log.append("start")
        try:
            for k, v in prog:
                if k == "yield":
                    x = yield v
                    log.append(x)
                elif k == "from":
                    x = yield from v
                    log.append(x)
                elif k == "call":
                    x = yield from call(v)
                    log.append(x)
                elif k == "return":
                    return v
                elif k == "raise":
                    raise UserError(v)
                else:
                    return None
        finally:
            log.append("finally")

    return body


def reference(prog, wrap, zero, log):
    """The chain of binds the program denotes."""
    log.append("start")
    last = zero()
    try:
        for k, v in prog:
            if k == "yield":
                last = wrap(v)
                log.append(v)
            elif k in ("from", "call"):
                m = reference(v, wrap, zero, log) if k == "call" else v
                if not good(m):
                    return m
                last = wrap(payload(m))
                log.append(payload(m))
            elif k == "return":
                return last if v is None else wrap(v)
            elif k == "raise":
                raise UserError(v)
            else:
                return last
    finally:
        log.append("finally")
    return last


def compare(ctx, kind, prog, label, b=None):
    builder, wrap, zero = KINDS[kind]
    b = b or builder()
    log, want_log = [], []

    def call(p):
        return run(p)

    run = b(body_of(log, call))
    want = ctx.outcome(lambda: reference(prog, wrap, zero, want_log))
    got = ctx.outcome(lambda: run(prog))
    ctx.same(got, want, f"{label}: value")
    ctx.same(log, want_log, f"{label}: what was executed, and the values sent back")
    return run, want


@harness(P, quick=grid(kind=["option", "result", "try"], n=[3]), thorough=grid(kind=["option", "result", "try"], n=[4]), cost=4)
def programs(ctx, kind, n):
    prog = program(ctx, kind, "s", n, ["end", "yield", "from", "return", "return none", "raise"],
                   "val" if n < 4 else "int")
    run, want = compare(ctx, kind, prog, "program")
    got = ctx.outcome(lambda: run(prog))
    ctx.same(got, want, "the same computation again")


@harness(P, quick=grid(kind=["option", "result"], n=[2]), thorough=grid(kind=["option", "result", "try"], n=[3]), cost=4)
def nested(ctx, kind, n):
    """A computation that yields from another run of the same function."""
    prog = program(ctx, kind, "s", n, ["end", "from", "call", "return"], "int")
    compare(ctx, kind, prog, "nested program")


@harness(P, quick=grid(kind=["option", "result"]))
def two_programs(ctx, kind):
    """Two computations of one builder and one function do not influence each other."""
    b = KINDS[kind][0]()
    p1 = program(ctx, kind, "p", 2, ["end", "yield", "from", "return"], "int")
    p2 = program(ctx, kind, "q", 2, ["end", "from", "return"], "int")
    run1, w1 = compare(ctx, kind, p1, "first", b)
    run2, w2 = compare(ctx, kind, p2, "second", b)
    ctx.same(ctx.outcome(lambda: run1(p2)), w2, "first function, second program")
    ctx.same(ctx.outcome(lambda: run2(p1)), w1, "second function, first program")
    ctx.same(ctx.outcome(lambda: run1(p1)), w1, "first function, first program, again")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def plain_functions(ctx, kind):
    """A body without effects: its value is lifted, None is zero, exceptions pass."""
    builder, wrap, zero = KINDS[kind]
    f = ctx.fun("f", ("raises", "val"))
    a, b = ctx.int("a"), ctx.int("b")

    @builder()
    def plain(x, y, *rest, z=0, **kw):
        return f(x, y, z, len(rest), kw.get("w", 1))

    for call in (lambda: plain(a, b), lambda: plain(a, y=b), lambda: plain(a, b, 5, z=b, w=a)):
        pass

    def ref(*args):
        v = f(*args)
        return zero() if v is None else wrap(v)

    ctx.same(ctx.outcome(lambda: plain(a, b)), ctx.outcome(lambda: ref(a, b, 0, 0, 1)), "plain function")
    ctx.same(ctx.outcome(lambda: plain(a, y=b, z=b)), ctx.outcome(lambda: ref(a, b, b, 0, 1)), "keyword arguments")
    ctx.same(ctx.outcome(lambda: plain(a, b, 5, w=a)), ctx.outcome(lambda: ref(a, b, 0, 1, a)), "more arguments")
    v = ctx.value("v", "deep")

    @builder()
    def deep():
        return v

    ctx.same(deep(), zero() if v is None else wrap(v), "any value is lifted as it is")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def arguments(ctx, kind):
    builder, wrap, zero = KINDS[kind]
    a, b, c, d = ctx.ints("a", 4)

    @builder()
    def f(x, y, *rest, z, **kw):
        p = yield x
        q = yield from wrap(y)
        return (p, q, rest, z, sorted(kw.items()))

    ctx.same(f(a, b, c, z=d, w=a), wrap((a, b, (c,), d, [("w", a)])), "arguments reach the body")
    ctx.raises(TypeError, lambda: f(a), "missing arguments")


@harness(P, quick=grid(kind=["option", "result"], n=[5]), thorough=grid(kind=["option", "result", "try"], n=[8]))
def loops(ctx, kind, n):
    """Effects in loops and branches; the first failing one ends the computation."""
    builder, wrap, zero = KINDS[kind]
    ms = [effectful(ctx, kind, f"m{i}", "int") for i in range(ctx.size("n", 0, n))]
    log = []

    @builder()
    def f():
        total = 0
        for m in ms:
            total = total + (yield from m)
            log.append(total)
        return total

    bad = next((i for i, m in enumerate(ms) if not good(m)), None)
    if bad is not None:
        ctx.same(f(), ms[bad], "the first failure is the result")
        ctx.same(len(log), bad, "nothing is executed after it")
    else:
        total = 0
        for m in ms:
            total = total + payload(m)
        ctx.same(f(), wrap(total), "sum of all")


@harness(P, quick=grid(kind=["option", "result"], n=[3000]), path_timeout=60, validations=1)
def long_programs(ctx, kind, n):
    builder, wrap, zero = KINDS[kind]
    v = ctx.int("v")

    @builder()
    def f():
        r = v
        for _ in range(n):
            r = yield from wrap(r)
            r = yield r
        return r

    ctx.same(f(), wrap(v), "a long computation")


@harness(P, quick=grid(kind=["option", "result"]))
def recursive(ctx, kind):
    """A computation that calls itself, to a symbolic depth, failing at a symbolic place."""
    builder, wrap, zero = KINDS[kind]
    n, at = ctx.size("n", 0, 5), ctx.size("at", -1, 5)
    v = ctx.int("v")
    fail = Nothing if kind == "option" else Error(v)
    log = []

    @builder()
    def f(i):
        if i == at:
            yield from fail
        if i == n:
            return v
        r = yield from f(i + 1)
        log.append(i)
        return r

    if 0 <= at <= n:
        ctx.same(f(0), fail, "failure of an inner computation is the result of the outer one")
        ctx.same(log, [], "nothing is executed after it")
    else:
        ctx.same(f(0), wrap(v), "recursion")
        ctx.same(log, list(range(n))[::-1], "every level continues")


def bad(kind, v):
    return Nothing if kind == "option" else Error(v)


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_payload(ctx, kind):
    """Values of every kind are passed on as they are."""
    builder, wrap, zero = KINDS[kind]
    v, w = odd.pick(ctx, "v"), ctx.choose("second", [7, None])
    case = "some" if kind == "option" else "ok"
    log = []

    @builder()
    def f():
        x = yield v
        log.append(x)
        y = yield from wrap(v)
        log.append(y)
        yield w
        return v

    r = f()
    odd.is_(ctx, log[0], v, "a yielded value is sent back as it is")
    odd.is_(ctx, log[1], v, "an unwrapped value is sent back as it is")
    odd.holds(ctx, r, case, w if v is None else v, "returned value")

    @builder()
    def last():
        yield w
        yield v

    odd.holds(ctx, last(), case, v, "last yielded value")

    @builder()
    def last_from():
        yield w
        yield from wrap(v)

    odd.holds(ctx, last_from(), case, v, "last unwrapped value")

    @builder()
    def inner():
        yield from wrap(w)
        return v

    @builder()
    def outer():
        x = yield from inner()
        log.append(x)
        return [x]

    r = outer()
    odd.is_(ctx, log[-1], w if v is None else v, "value of a nested computation")

    @builder()
    def plain():
        return v

    if v is not None:
        odd.holds(ctx, plain(), case, v, "value of a plain function")
    else:
        ctx.same(plain(), zero(), "a plain function that returns None")
    if kind != "option":

        @builder()
        def fails():
            yield v
            yield from Error(v)
            log.append("after")
            return w

        odd.holds(ctx, fails(), "error", v, "error of a computation")

        @builder()
        def fails_inside():
            x = yield from fails()
            log.append("after")
            return x

        odd.holds(ctx, fails_inside(), "error", v, "error of a nested computation")
        ctx.check(not any(type(x) is str and x == "after" for x in log), "nothing is executed after an error")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_exception(ctx, kind):
    """Exceptions of every type are passed on as they are."""
    builder, wrap, zero = KINDS[kind]
    e = odd.some_exception(ctx, effects=False)
    at = ctx.size("at", 0, 4)
    log = []

    @builder()
    def f():
        if at == 0:
            raise e
        x = yield 1
        if at == 1:
            raise e
        y = yield from wrap(x)
        if at == 2:
            raise e
        z = yield from g()
        log.append(z)
        return z

    @builder()
    def g():
        yield from wrap(3)
        if at == 3:
            raise e
        yield 4
        if at == 4:
            raise e

    odd.passes(ctx, f, e, "an exception of the body is passed on")
    ctx.check(log == [], "nothing is executed after it")

    @builder()
    def plain():
        raise e

    odd.passes(ctx, plain, e, "an exception of a plain function is passed on")

    @builder()
    def tidy():
        try:
            yield from wrap(1)
            raise e
        except type(e) as x:
            log.append(x)
        finally:
            log.append("finally")
        yield 5

    ctx.same(tidy(), wrap(5), "a body that handles its own exception")
    ctx.check(len(log) == 2 and log[0] is e, "the body sees its own exception")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def methods(ctx, kind):
    """The operations of the builders themselves, as they document them."""
    builder, wrap, zero = KINDS[kind]
    b = builder()
    xs, ys = effectful(ctx, kind, "xs", "val"), effectful(ctx, kind, "ys", "int")
    v = ctx.value("v", "deep")
    calls = []

    def fn(x):
        calls.append(x)
        return ys

    got = b.bind(xs, fn)
    ctx.same(got, ys if good(xs) else xs, "bind")
    ctx.same(calls, [payload(xs)] if good(xs) else [], "bind calls its function with the value")
    ctx.same(b.return_(v), wrap(v), "return_")
    ctx.same(b.return_from(xs), xs, "return_from")
    ctx.same(b.combine(xs, ys), ys if good(xs) else xs, "combine")
    ctx.same(b.zero(), zero(), "zero")


@harness(P, quick=grid(kind=["option", "result", "try"], n=[3]), thorough=grid(kind=["option", "result", "try"], n=[4]))
def again(ctx, kind, n):
    """Each call runs the body anew: same arguments (or none at all), other effects."""
    builder, wrap, zero = KINDS[kind]
    ms = [effectful(ctx, kind, f"m{i}", "int") for i in range(n)]
    left, log = [], []

    def step(*a, **kw):
        log.append(("start", a, kw))
        m = left.pop(0)
        x = yield from m
        log.append(("end", x))
        return x

    def plain(*a, **kw):
        log.append(("start", a, kw))
        return payload(left.pop(0))

    run, run_plain = builder()(step), builder()(plain)
    for lab, a, kw in (("no arguments", (), {}), ("one argument", (1,), {}), ("a keyword", (), {"k": 1})):
        left[:] = ms
        log.clear()
        want_log = []
        for i, m in enumerate(ms):
            ctx.same(run(*a, **kw), m, f"{lab}: call {i}")
            want_log.append(("start", a, kw))
            if good(m):
                want_log.append(("end", payload(m)))
        ctx.same(log, want_log, f"{lab}: each call runs the body once")
        left[:] = [m for m in ms if good(m)]
        for i, m in enumerate(list(left)):
            ctx.same(run_plain(*a, **kw), wrap(payload(m)), f"plain function, {lab}: call {i}")


@harness(P, quick=grid(kind=["option", "result"]))
def reentrant(ctx, kind):
    """Bodies may call the computation themselves, and calls that ended in an exception leave nothing behind."""
    builder, wrap, zero = KINDS[kind]
    b = builder()

    def steps(g):
        x = yield from g(1)
        y = yield from g(x)
        z = yield from g(x + y)
        return x * 100 + y * 10 + z

    def values(g):
        x = yield g(1)
        y = yield g(x)
        return x * 10 + y

    def loop(g):
        t = 0
        for i in range(4):
            t = t * 10 + (yield from g(i))
        return t

    fail = Nothing if kind == "option" else Error(7)
    table = {}
    for lab, body in (("a computation", steps), ("a computation that yields values", values), ("a loop", loop), ("a plain function", lambda g: g(1))):
        fn, own = b(body), builder()(body)
        good_ = (lambda x: wrap(x + 1)) if body is not values and "plain" not in lab else (lambda x: x + 1)
        table[lab] = lambda f, fn=fn, g=good_: fn(f(g))
        table[lab + ", with a builder of its own"] = lambda f, own=own, g=good_: own(f(g))
        if body in (steps, loop):
            table[lab + " that fails"] = lambda f, fn=fn: fn(f(lambda x: wrap(x + 1) if x < 2 else fail))
    generic.reentrant(ctx, table, top=4)


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_argument(ctx, kind):
    """Arguments of every kind reach the body as they are."""
    builder, wrap, zero = KINDS[kind]

    def computing(note):
        def f(*a, **kw):
            note(a, kw)
            yield 1
            return 2

        return builder()(f)

    def plain(note):
        def f(*a, **kw):
            note(a, kw)
            return 2

        return builder()(f)

    generic.arguments(ctx, {"computation": computing, "plain function": plain})


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_form(ctx, kind):
    """Computations written as functions of other forms."""
    builder, wrap, zero = KINDS[kind]
    m, n = effectful(ctx, kind, "m", "val"), effectful(ctx, kind, "n", "val")
    k = ctx.choose("form", list(generic.forms(len)))
    log = []

    def body(m, n):
        x = yield from m
        log.append(x)
        y = yield from n
        log.append(y)
        return (x, y)

    want = m if not good(m) else n if not good(n) else wrap((payload(m), payload(n)))
    ctx.same(ctx.outcome(lambda: builder()(generic.forms(body)[k])(m, n)), ("ok", want), f"a computation as a {k}")
    ctx.same(log, [payload(m)] * good(m) + [payload(n)] * (good(m) and good(n)), f"a computation as a {k}: values sent back")

    def plain(m, n):
        return (m, n)

    ctx.same(ctx.outcome(lambda: builder()(generic.forms(plain)[k])(m, n)), ("ok", wrap((m, n))), f"a plain function as a {k}")
