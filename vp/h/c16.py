"""C16: async option and result builders agree with the synchronous ones."""

from __future__ import annotations

import asyncio

from expression import Error, Nothing, Ok, Some, effect

from ..aloop import Steps, Suspend, drive
from ..engine import UserError
from ..registry import grid, harness
from . import generic, odd
from .c14 import effectful, good, payload

P = "C16"
BOUNDS = (
    "Every program of up to 3 statements (thorough: 4) out of: yield a value, yield or only await an "
    "option/result, suspend, await a nested computation, return, raise; with symbolic values (any int, None or "
    "nested values), for the async option, result and try builders, as async generators, plain async functions "
    "and plain functions; two computations interleaved by a symbolic schedule; cancellation at each suspension "
    "point. Payloads of about 60 kinds, exceptions of 40 kinds raised in the body, programs of 2000 effects, "
    "calls repeated, nested, and after calls that ended in an exception."
)
OUTSIDE = "Programs that catch the short-circuiting exception themselves."
ASSUMPTIONS = ["the event loop resumes a computation only where it suspended (coroutine protocol)"]

KINDS = {
    "option": (effect.async_option, Some, lambda: Nothing),
    "result": (effect.async_result, Ok, lambda: Ok(None)),
    "try": (effect.async_try, Ok, lambda: Ok(None)),
}


def program(ctx, kind, name, n, kinds, spec="val"):
    prog = []
    for i in range(n):
        k = ctx.choose(f"{name}{i}", kinds)
        if k == "end":
            break
        if k in ("yield", "return"):
            prog.append((k, ctx.value(f"{name}{i}.v", "deep" if k == "yield" else spec)))
        elif k in ("yield await", "await"):
            prog.append((k, effectful(ctx, kind, f"{name}{i}.m", spec)))
        elif k in ("raise", "suspend"):
            prog.append((k, ctx.int(f"{name}{i}.e")))
        elif k == "call":
            prog.append((k, program(ctx, kind, f"{name}{i}.", 2, ["end", "yield await", "suspend"], "int")))
        else:
            prog.append((k, None))
        if k in ("stop", "raise", "return"):
            break
    return prog


def body_of(log, call=None):
    async def body(prog):
        log.append("start")
        try:
            for k, v in prog:
                if k == "yield":
                    x = yield v
                    log.append(x)
                elif k == "yield await":
                    x = yield await v
                    log.append(x)
                elif k == "await":
                    x = await v
                    log.append(x)
                elif k == "suspend":
                    x = await Suspend(v)
                    log.append(x)
                elif k == "call":
                    x = yield await (await call(v))
                    log.append(x)
                elif k == "raise":
                    raise UserError(v)
                else:
                    return
        finally:
            log.append("finally")

    return body


def reference(prog, wrap, zero, log):
    log.append("start")
    last = zero()
    try:
        for k, v in prog:
            if k == "yield":
                last = wrap(v)
                log.append(v)
            elif k == "suspend":
                log.append(v)
            elif k in ("yield await", "await", "call"):
                m = reference(v, wrap, zero, log) if k == "call" else v
                if not good(m):
                    return m
                if k != "await":
                    last = wrap(payload(m))
                log.append(payload(m))
            elif k == "raise":
                raise UserError(v)
            else:
                return last
    finally:
        log.append("finally")
    return last


def setup(kind, b=None):
    log = []

    def call(p):
        return run(p)

    run = (b or KINDS[kind][0]())(body_of(log, call))
    return run, log


def compare(ctx, kind, prog, label):
    _, wrap, zero = KINDS[kind]
    want_log = []
    run, log = setup(kind)
    want = ctx.outcome(lambda: reference(prog, wrap, zero, want_log))
    got = ctx.outcome(lambda: drive(run(prog)))
    ctx.same(got, want, f"{label}: value")
    ctx.same(log, want_log, f"{label}: what was executed, and the values sent back")
    return run, want


@harness(P, quick=grid(kind=["option", "result"], n=[3]), thorough=grid(kind=["option", "result", "try"], n=[4]), cost=4)
def programs(ctx, kind, n):
    prog = program(ctx, kind, "s", n, ["end", "yield", "yield await", "await", "suspend", "stop", "raise"],
                   "val" if n < 4 else "int")
    run, want = compare(ctx, kind, prog, "program")
    got = ctx.outcome(lambda: drive(run(prog)))
    ctx.same(got, want, "the same computation again")


@harness(P, quick=grid(kind=["option", "result"], n=[2]), thorough=grid(kind=["option", "result", "try"], n=[2]) , cost=4)
def nested(ctx, kind, n):
    prog = program(ctx, kind, "s", n, ["end", "call", "yield await"], "int")
    compare(ctx, kind, prog, "nested program")


@harness(P, quick=grid(kind=["option", "result"], n=[2]), thorough=grid(kind=["option", "result"], n=[3]), cost=4)
def agrees_with_sync(ctx, kind, n):
    """The same program with the synchronous builder."""
    prog = program(ctx, kind, "s", n, ["end", "yield", "yield await", "raise"])
    sync = {"option": effect.option, "result": effect.result}[kind]

    @sync()
    def f():
        for k, v in prog:
            if k == "yield":
                yield v
            elif k == "raise":
                raise UserError(v)
            else:
                yield from v

    run, _ = setup(kind)
    ctx.same(ctx.outcome(lambda: drive(run(prog))), ctx.outcome(f), "async and sync builders agree")


@harness(P, quick=grid(kind=["option", "result"], n=[1]), thorough=grid(kind=["option", "result"], n=[2]), cost=5)
def interleaved(ctx, kind, n):
    """Two computations of one function and one builder, interleaved by a symbolic schedule."""
    _, wrap, zero = KINDS[kind]
    b = KINDS[kind][0]()
    progs = [[("suspend", 1)] + program(ctx, kind, f"p{j}", n, ["end", "suspend", "yield await", "await"], "int") + [("suspend", 2)]
             for j in range(2)]
    run, _log = setup(kind, b)
    want = [ctx.outcome(lambda p=p: reference(p, wrap, zero, [])) for p in progs]
    with Steps(*[run(p) for p in progs]) as t:
        for r, w in zip(t.all(ctx), want):
            ctx.same(r, w, "computation interleaved with another")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def cancellation(ctx, kind):
    """Cancelling (or throwing) at a suspension point ends the computation there."""
    _, wrap, zero = KINDS[kind]
    at = ctx.size("at", 1, 3)
    cancel = bool(ctx.bool("cancel"))
    exc = UserError(ctx.int("e"))
    prog = [("yield", 1), ("suspend", 2), ("yield await", wrap(3)), ("suspend", 4), ("suspend", 5)]
    run, log = setup(kind)
    with Steps(run(prog)) as t:
        for _ in range(at - 1):
            t.resume(t.waiting[0])
        seen = len(log)
        if cancel:
            t.cancel(0)
        else:
            t.resume(t.waiting[0], exc)
        r = t.outcome(0)
        ctx.check(r is not None and r[0] == "raise" and (isinstance(r[1], asyncio.CancelledError) if cancel else r[1] is exc),
                  "the exception is passed on", r)
        ctx.same(log[seen:], ["finally"], "only cleanup is executed after it")


@harness(P, quick=grid(kind=["option", "result", "try"], n=[3]))
def plain_async(ctx, kind, n):
    """A body without yield: its value is lifted, None is zero, awaiting a failure ends it."""
    builder, wrap, zero = KINDS[kind]
    prog = program(ctx, kind, "s", n, ["end", "await", "suspend", "return", "raise"])
    log, want_log = [], []

    @builder()
    async def f(prog):
        for k, v in prog:
            if k == "await":
                x = await v
                log.append(x)
            elif k == "suspend":
                log.append(await Suspend(v))
            elif k == "return":
                return v
            else:
                raise UserError(v)

    def ref():
        for k, v in prog:
            if k == "await":
                if not good(v):
                    return v
                want_log.append(payload(v))
            elif k == "suspend":
                want_log.append(v)
            elif k == "return":
                return zero() if v is None else wrap(v)
            else:
                raise UserError(v)
        return zero()

    ctx.same(ctx.outcome(lambda: drive(f(prog))), ctx.outcome(ref), "plain async function")
    ctx.same(log, want_log, "what was executed")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def plain_sync(ctx, kind):
    builder, wrap, zero = KINDS[kind]
    f = ctx.fun("f", ("raises", "deep"))
    a, b = ctx.int("a"), ctx.int("b")

    @builder()
    def plain(x, y=0, *, z=1):
        return f(x, y, z)

    def ref(*args):
        v = f(*args)
        return zero() if v is None else wrap(v)

    ctx.same(ctx.outcome(lambda: drive(plain(a, z=b))), ctx.outcome(lambda: ref(a, 0, b)), "plain function")

    @builder()
    async def g(x, *rest, z, **kw):
        p = yield x
        q = yield await wrap(z)
        yield (p, q, rest, sorted(kw.items()))

    ctx.same(drive(g(a, b, z=a, w=b)), wrap((a, a, (b,), [("w", b)])), "arguments reach the body")


@harness(P, quick=grid(kind=["option", "result"], n=[4]), thorough=grid(kind=["option", "result", "try"], n=[7]))
def loops(ctx, kind, n):
    builder, wrap, zero = KINDS[kind]
    ms = [effectful(ctx, kind, f"m{i}", "int") for i in range(ctx.size("n", 1, n))]
    log = []

    @builder()
    async def f():
        total = 0
        for m in ms:
            total = total + (yield await m)
            await Suspend(0)
            log.append(total)
        yield total

    bad = next((i for i, m in enumerate(ms) if not good(m)), None)
    if bad is not None:
        ctx.same(drive(f()), ms[bad], "the first failure is the result")
        ctx.same(len(log), bad, "nothing is executed after it")
    else:
        total = 0
        for m in ms:
            total = total + payload(m)
        ctx.same(drive(f()), wrap(total), "sum of all")


@harness(P, quick=grid(kind=["option", "result"], n=[2000]), path_timeout=60, validations=1)
def long_programs(ctx, kind, n):
    builder, wrap, zero = KINDS[kind]
    v = ctx.int("v")

    @builder()
    async def f():
        r = v
        for _ in range(n):
            r = yield await wrap(r)
        yield r

    ctx.same(drive(f()), wrap(v), "a long computation")


@harness(P)
def awaiting(ctx):
    """Awaiting an option or result outside a builder: its value; Error and Nothing raise."""
    m = effectful(ctx, "option" if ctx.bool("option") else "result", "m", "deep")

    async def f():
        return await m

    if good(m):
        ctx.same(drive(f()), payload(m), "awaiting gives the value")
    else:
        ctx.raises(Exception, lambda: drive(f()), "awaiting a failure")


@harness(P, quick=grid(kind=["option", "result"]))
def on_a_loop(ctx, kind):
    """On a real event loop, several computations at the same time."""
    builder, wrap, zero = KINDS[kind]
    vs = ctx.ints("v", 3)
    fails = ctx.size("fails", -1, 2)
    fail = Nothing if kind == "option" else Error(vs[0])

    @builder()
    async def f(i):
        await asyncio.sleep(0)
        x = yield vs[i]
        for _ in range(3 - i):
            await asyncio.sleep(0)
        yield await (fail if i == fails else wrap(x))

    async def main():
        return await asyncio.gather(*[f(i) for i in range(3)])

    loop = asyncio.new_event_loop()
    try:
        r = loop.run_until_complete(main())
    finally:
        loop.close()
    ctx.same(r, [fail if i == fails else wrap(vs[i]) for i in range(3)], "computations on an event loop")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_payload(ctx, kind):
    """Values of every kind are passed on as they are."""
    builder, wrap, zero = KINDS[kind]
    v, w = odd.pick(ctx, "v"), ctx.choose("second", [7, None])
    case = "some" if kind == "option" else "ok"
    log = []

    @builder()
    async def f():
        x = yield v
        log.append(x)
        y = yield await wrap(v)
        log.append(y)
        await Suspend(0)
        z = await wrap(v)
        log.append(z)
        yield w
        yield v

    odd.holds(ctx, drive(f()), case, v, "last yielded value")
    for i, lab in enumerate(("yielded", "unwrapped", "awaited")):
        odd.is_(ctx, log[i], v, f"a value {lab} arrives as it is")

    @builder()
    async def plain():
        x = await wrap(v)
        await Suspend(0)
        return x

    if v is not None:
        odd.holds(ctx, drive(plain()), case, v, "value of a plain async function")
    else:
        ctx.same(drive(plain()), zero(), "a plain async function that returns None")

    @builder()
    async def outer():
        x = yield await (await f())
        log.append(x)
        yield w

    odd.holds(ctx, drive(outer()), case, w, "value after a nested computation")
    odd.is_(ctx, log[-1], v, "value of a nested computation")
    if kind != "option":

        @builder()
        async def fails():
            yield v
            await Suspend(0)
            yield await Error(v)
            log.append("after")
            yield w

        odd.holds(ctx, drive(fails()), "error", v, "error of a computation")

        @builder()
        async def fails_inside():
            x = await (await fails())
            log.append("after")
            return x

        odd.holds(ctx, drive(fails_inside()), "error", v, "error of a nested computation")

        @builder()
        async def fails_plain():
            await Error(v)
            log.append("after")

        odd.holds(ctx, drive(fails_plain()), "error", v, "error of a plain computation")
        ctx.check(not any(type(x) is str and x == "after" for x in log), "nothing is executed after an error")


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_exception(ctx, kind):
    """Exceptions of every type are passed on as they are."""
    builder, wrap, zero = KINDS[kind]
    e = odd.some_exception(ctx, effects=False)
    at = ctx.size("at", 0, 5)
    # Python itself turns a StopAsyncIteration raised inside a coroutine or asynchronous generator into a RuntimeError
    ctx.assume(not isinstance(e, StopAsyncIteration))

    @builder()
    async def f():
        if at == 0:
            raise e
        x = yield 1
        if at == 1:
            raise e
        await Suspend(0)
        if at == 2:
            raise e
        y = yield await wrap(x)
        if at == 3:
            raise e
        yield await (await g())

    @builder()
    async def g():
        await wrap(3)
        if at == 4:
            raise e
        await Suspend(0)
        raise e

    odd.passes(ctx, lambda: drive(f()), e, "an exception of the body is passed on")

    @builder()
    async def plain():
        await Suspend(0)
        raise e

    odd.passes(ctx, lambda: drive(plain()), e, "an exception of a plain async function is passed on")

    @builder()
    def plainer():
        raise e

    odd.passes(ctx, lambda: drive(plainer()), e, "an exception of a plain function is passed on")

    @builder()
    async def waits():
        x = yield 1
        await Suspend(0)
        yield x

    with Steps(waits()) as t:
        t.resume(t.waiting[0], e)
        r = t.outcome(0)
        ctx.check(r is not None and r[0] == "raise" and r[1] is e, "an exception from outside is passed on", r)


@harness(P, quick=grid(kind=["option", "result", "try"]))
def methods(ctx, kind):
    """The operations of the builders themselves, as they document them."""
    builder, wrap, zero = KINDS[kind]
    b = builder()
    xs, ys = effectful(ctx, kind, "xs", "val"), effectful(ctx, kind, "ys", "int")
    v = ctx.value("v", "deep")
    calls = []

    async def fn(x):
        calls.append(x)
        calls.append(await Suspend(7))
        return ys

    ctx.same(drive(b.bind(xs, fn)), ys if good(xs) else xs, "bind")
    ctx.same(calls, [payload(xs), 7] if good(xs) else [], "bind calls its function with the value")
    ctx.same(drive(b.return_(v)), wrap(v), "return_")
    ctx.same(drive(b.return_from(xs)), xs, "return_from")
    ctx.same(drive(b.combine(xs, ys)), ys if good(xs) else xs, "combine")
    ctx.same(drive(b.zero()), zero(), "zero")


@harness(P, quick=grid(kind=["option", "result", "try"], n=[3]), thorough=grid(kind=["option", "result", "try"], n=[4]))
def again(ctx, kind, n):
    """Each call runs the body anew: same arguments (or none at all), other effects."""
    builder, wrap, zero = KINDS[kind]
    ms = [ctx.value(f"m{i}", ("option", "int") if kind == "option" else ("result", "int", "int")) for i in range(n)]
    left, log = [], []

    async def awaits(*a, **kw):
        log.append(("start", a, kw))
        x = await left.pop(0)
        log.append(("end", x))
        return x

    async def yields(*a, **kw):
        log.append(("start", a, kw))
        await Suspend(1)
        x = await left.pop(0)
        yield x
        log.append(("end", x))

    for how, body in (("a coroutine function", awaits), ("an async generator", yields)):
        run = builder()(body)
        for lab, a, kw in (("no arguments", (), {}), ("one argument", (1,), {}), ("a keyword", (), {"k": 1})):
            left[:] = ms
            log.clear()
            want_log = []
            for i, m in enumerate(ms):
                ctx.same(ctx.outcome(lambda: drive(run(*a, **kw))), ("ok", m), f"{how}, {lab}: call {i}")
                want_log.append(("start", a, kw))
                if good(m):
                    want_log.append(("end", payload(m)))
            ctx.same(log, want_log, f"{how}, {lab}: each call runs the body once")


@harness(P, quick=grid(kind=["option", "result"]))
def reentrant(ctx, kind):
    """Bodies may call the computation themselves, and calls that ended in an exception leave nothing behind."""
    builder, wrap, zero = KINDS[kind]
    b = builder()

    async def steps(g):
        x = await g(1)
        y = await g(x)
        z = await g(x + y)
        return x * 100 + y * 10 + z

    async def yields(g):
        x = await g(1)
        y = await g(x)
        yield x * 10 + y

    fail = Nothing if kind == "option" else Error(7)
    table = {}
    for lab, body in (("a coroutine function", steps), ("an async generator", yields)):
        fn, own = b(body), builder()(body)
        table[lab] = lambda f, fn=fn: generic.now(fn(f(lambda x: wrap(x + 1))))
        table[lab + ", with a builder of its own"] = lambda f, own=own: generic.now(own(f(lambda x: wrap(x + 1))))
        table[lab + " that fails"] = lambda f, fn=fn: generic.now(fn(f(lambda x: wrap(x + 1) if x < 2 else fail)))
    generic.reentrant(ctx, table, top=3)


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_argument(ctx, kind):
    """Arguments of every kind reach the body as they are."""
    builder, wrap, zero = KINDS[kind]

    def run(f):
        g = builder()(f)
        return lambda *a, **kw: drive(g(*a, **kw))

    def computing(note):
        async def f(*a, **kw):
            note(a, kw)
            yield 1

        return run(f)

    def coroutine(note):
        async def f(*a, **kw):
            note(a, kw)
            return 2

        return run(f)

    def plain(note):
        def f(*a, **kw):
            note(a, kw)
            return 2

        return run(f)

    generic.arguments(ctx, {"computation": computing, "async function": coroutine, "plain function": plain})


@harness(P, quick=grid(kind=["option", "result", "try"]))
def any_form(ctx, kind):
    """Computations written as functions of other forms."""
    builder, wrap, zero = KINDS[kind]
    m, n = effectful(ctx, kind, "m", "val"), effectful(ctx, kind, "n", "val")
    k = ctx.choose("form", list(generic.forms(len)))

    async def body(m, n):
        x = await m
        await Suspend(0)
        yield x
        y = await n
        yield (x, y)

    async def plain(m, n):
        x = await m
        await Suspend(0)
        return (x, await n)

    want = m if not good(m) else n if not good(n) else wrap((payload(m), payload(n)))
    ctx.same(ctx.outcome(lambda: drive(builder()(generic.forms(body)[k])(m, n))), ("ok", want), f"a computation as a {k}")
    ctx.same(ctx.outcome(lambda: drive(builder()(generic.forms(plain)[k])(m, n))), ("ok", want), f"an async function as a {k}")
