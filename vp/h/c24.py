"""C24: async helpers resolve once, with the value or exception they were given."""

from __future__ import annotations

import asyncio
import gc
import weakref

from expression.core import aiotools
from expression.system import CancellationToken, CancellationTokenSource, OperationCanceledError

from ..aloop import Loop, pause
from ..engine import UserError
from ..registry import grid, harness
from . import odd

P = "C24"
BOUNDS = (
    "Up to 3 continuation calls (thorough: 4), each any of value, exception and cancellation, each at once, "
    "before or after it is awaited (up to 2 loop iterations later), with values that are any int, None or nested;"
    " computations of up to 2 suspensions (thorough: 3) that return, raise or are cancelled, started or run by "
    "each helper, with no token, one that cannot be cancelled, or one that is cancelled at any step or before the"
    " start. Values of about 60 kinds, exceptions of 40 kinds, computations started over hours of simulated time."
)
OUTSIDE = "Continuations called from a thread other than that of the event loop; real time."
ASSUMPTIONS = ["callbacks of the event loop run in FIFO order, as asyncio promises"]


@harness(P, quick=grid(n=[2, 3]), thorough=grid(n=[3, 4]), cost=2)
def continuations(ctx, n):
    k = ctx.size("calls", 1, n)
    plan = []
    spec = "deep" if n == 2 else "val" if n == 3 else "int"
    for i in range(k):
        what = ctx.choose(f"what{i}", ["done", "error", "cancel"])
        when = ctx.size(f"when{i}", 0, 2 if n < 4 else 1)
        plan.append((when, i, what, ctx.value(f"v{i}", spec) if what == "done" else UserError(ctx.int(f"e{i}"))))
    wait = ctx.size("awaited after", 0, 2)
    with Loop() as loop:
        called = []

        def callback(done, error, cancel):
            called.append(1)
            fire = {"done": done, "error": error, "cancel": lambda _: cancel(OperationCanceledError("x"))}
            for when, _, what, v in plan:
                if when == 0:
                    fire[what](v)

            async def later():
                for t in (1, 2):
                    await asyncio.sleep(0)
                    for when, _, what, v in plan:
                        if when == t:
                            fire[what](v)

            loop.create_task(later())

        async def main():
            a = aiotools.from_continuations(callback)
            await pause(wait)
            try:
                return ("value", await a)
            except UserError as e:
                return ("error", e)
            except asyncio.CancelledError:
                return ("cancelled", None)

        got = loop.run(main())
        _, _, what, v = min(plan, key=lambda p: (p[0], p[1]))
        want = {"done": ("value", v), "error": ("error", v), "cancel": ("cancelled", None)}[what]
        ctx.same(got, ("ok", want), "what the first continuation gave")
        if what == "error":
            ctx.check(got[1][1] is v, "the very exception")
        ctx.check(called == [1], "the callback is called once")
        ctx.check(not [e for e in loop.errors if "never retrieved" not in e.get("message", "")], "no stray error", loop.errors)


@harness(P)
def waits(ctx):
    """Nothing resolves it but a continuation; an exception of the callback itself is passed on."""
    with Loop() as loop:
        hold = []

        async def main():
            return await aiotools.from_continuations(lambda d, e, c: hold.extend([d, e, c]))

        ctx.check(loop.run(main()) == ("pending", None), "pending until a continuation is called")
        v = ctx.value("v", "deep")
        hold[0](v)
        out = []

        async def other():
            out.append(await aiotools.singleton(v))

        loop.run(other())
        ctx.same(out, [v], "singleton")
        e = UserError(ctx.int("e"))

        def bad(d, er, c):
            raise e

        async def fails():
            return await aiotools.from_continuations(bad)

        r = loop.run(fails())
        ctx.check(r[0] == "raise" and r[1] is e, "exception of the callback")


@harness(P)
def two_awaitables(ctx):
    """Several pending computations do not mix up their continuations."""
    with Loop() as loop:
        hold = {}
        vs = [ctx.value(f"v{i}", "val") for i in range(3)]
        out = {}

        async def one(i):
            out[i] = await aiotools.from_continuations(lambda d, e, c: hold.update({i: d}))

        for i in range(3):
            loop.create_task(one(i))
        loop.run()
        first = ctx.size("first", 0, 2)
        second = (first + ctx.size("second", 1, 2)) % 3
        order = [first, second, 3 - first - second]
        for i in order:
            hold[i](vs[i])
            loop.run()
        for i in range(3):
            ctx.same(out[i], vs[i], "each gets its own value")


def computation(ctx, log, value, e, sus, how):
    async def c():
        log.append("start")
        try:
            await pause(sus)
            log.append("body")
            if how == "raises":
                raise e
            return value
        except asyncio.CancelledError:
            log.append("cancelled")
            raise

    return c()


@harness(P, quick=grid(n=[2]), thorough=grid(n=[3]))
def starting(ctx, n):
    which = ctx.choose("helper", ["start", "start_immediate"])
    helper = getattr(aiotools, which)
    how = ctx.choose("computation", ["returns", "raises"])
    tok = ctx.choose("token", ["absent", "none", "source", "cancelled later", "cancelled before"])
    sus = ctx.size("suspensions", 0, n)
    at = ctx.size("cancel at", 0, n) if tok == "cancelled later" else None
    e = UserError(ctx.int("e"))
    log = []
    with Loop() as loop:
        src = CancellationTokenSource()
        token = {"absent": None, "none": CancellationToken.none()}.get(tok, src.token)

        if tok == "cancelled before":
            src.cancel()

        async def main():
            c = computation(ctx, log, ctx.int("v"), e, sus, how)
            r = helper(c) if token is None else helper(c, token)
            ctx.check(r is None, "gives nothing")
            if at is not None:
                await pause(at)
                src.cancel()
            await pause(6)
            return list(log)

        r = loop.run(main())
        ctx.check(r[0] == "ok", f"{which}: no exception reaches the starter", r)
        if tok == "cancelled before":
            ctx.check("body" not in r[1], f"{which}: the token was cancelled before it was started", r[1])
        elif at is None:
            want = ["start", "body"]
            ctx.check(r[1] == want, f"{which}: the computation runs to its end", (r[1], want))
        else:
            ctx.check(r[1] in ([], ["start", "cancelled"], ["start", "body"]), f"{which}: runs to its end or is cancelled", r[1])
            if at < sus:
                ctx.check("body" not in r[1], f"{which}: cancelled before it ended", r[1])
            if at > sus + 1:
                ctx.check(r[1] == ["start", "body"], f"{which}: ended before it was cancelled", r[1])
        unretrieved = [x for x in loop.errors]
        ctx.check(all(x.get("exception") is e for x in unretrieved), "no stray error", unretrieved)


@harness(P, quick=grid(n=[1]), thorough=grid(n=[3]))
def reported(ctx, n):
    """An exception that ends a started computation is reported to the loop, and nothing of an ended one is kept."""
    which = ctx.choose("helper", ["start", "start_immediate"])
    helper = getattr(aiotools, which)
    how = ctx.choose("computation", ["returns", "raises", "is cancelled"])
    tok = ctx.choose("token", ["absent", "none", "source"])
    sus = ctx.size("suspensions", 1, n + 1)
    log = []

    class Thing:
        pass

    with Loop() as loop:
        src = CancellationTokenSource()
        token = {"absent": None, "none": CancellationToken.none()}.get(tok, src.token)
        kept = []

        async def c():
            thing = Thing()
            kept.append(weakref.ref(thing))
            await pause(sus)
            if how == "raises":
                raise UserError(77)
            if how == "is cancelled":
                raise asyncio.CancelledError()
            log.append(thing is not None)

        async def main():
            helper(c()) if token is None else helper(c(), token)
            await pause(sus + 3)

        ctx.check(loop.run(main())[0] == "ok", f"{which}: no exception reaches the starter")
        del src, token
        gc.collect()
        seen = [repr(x.get("exception")) for x in loop.errors]
        ctx.check(seen == ([repr(UserError(77))] if how == "raises" else []), f"{which}: an exception is reported to the loop, once", (how, seen))
        if how == "returns":
            ctx.check(log == [True], "runs to its end")
    loop.errors.clear()
    gc.collect()
    ctx.check(kept[0]() is None, f"{which}: nothing of an ended computation is kept", how)


@harness(P, quick=grid(n=[2]), thorough=grid(n=[3]))
def started_together(ctx, n):
    """Cancelling one started computation leaves the others alone."""
    with Loop() as loop:
        logs = [[], [], []]
        sus = [ctx.size(f"suspensions{i}", 1, n) for i in range(3)]
        victim = ctx.size("cancelled", 0, 3)
        srcs = [CancellationTokenSource() for _ in range(3)]
        e = UserError(ctx.int("e"))
        how = [ctx.choose(f"how{i}", ["returns", "raises"]) for i in range(3)]

        async def main():
            for i in range(3):
                aiotools.start(computation(ctx, logs[i], 0, e, sus[i], how[i]), srcs[i].token)
            await pause(1)
            if victim < 3:
                srcs[victim].cancel()
            await pause(8)

        ctx.check(loop.run(main())[0] == "ok", "no exception reaches the starter")
        for i in range(3):
            ctx.check(logs[i] == (["start", "cancelled"] if i == victim else ["start", "body"]),
                      "only the cancelled computation is cancelled", (victim, logs))


@harness(P, quick=grid(n=[1]), thorough=grid(n=[3]))
def running(ctx, n):
    """run_synchronously gives the outcome of the computation."""
    how = ctx.choose("computation", ["returns", "raises", "cancels itself"])
    sus = ctx.size("suspensions", 0, n)
    v = ctx.value("v", "deep")
    e = UserError(ctx.int("e"))
    log = []

    async def c():
        log.append(1)
        await pause(sus)
        if how == "raises":
            raise e
        if how == "cancels itself":
            raise asyncio.CancelledError()
        return v

    try:
        r = ("ok", aiotools.run_synchronously(c()))
    except UserError as x:
        ctx.check(x is e, "the very exception")
        r = ("raise", x)
    except asyncio.CancelledError:
        r = ("cancelled", None)
    ctx.same(r, {"returns": ("ok", v), "raises": ("raise", e), "cancels itself": ("cancelled", None)}[how], "outcome")
    ctx.check(log == [1], "run once")
    ctx.same(aiotools.run_synchronously(aiotools.from_result(v)), v, "run again, from_result")


@harness(P)
def values(ctx):
    v = ctx.value("v", "deep")
    with Loop() as loop:
        got = []

        async def main():
            got.append(await aiotools.singleton(v))
            got.append(await aiotools.from_result(v))
            got.append(await aiotools.empty())
            return len(got)

        ctx.check(loop.run(main()) == ("ok", 3), "completes")
        ctx.same(got, [v, v, None], "singleton, from_result and empty")


@harness(P)
def sleeping(ctx):
    """sleep takes the given number of milliseconds, of the time of the loop, and can be cancelled."""
    ms = ctx.choose("ms", [0, 1, 20, 999, 1500, 60000, 0.25, 0.9, 1234.5, 10**8])
    other = ctx.choose("other", [0, 10, 1000])
    with Loop() as loop:
        done = []

        async def nap(t, name):
            r = await aiotools.sleep(t)
            done.append((name, loop.time(), r))

        async def main():
            a = loop.create_task(nap(ms, "a"))
            b = loop.create_task(nap(other, "b"))
            await a
            await b

        ctx.check(loop.run(main())[0] == "ok", "completes")
        at = {n: (t, r) for n, t, r in done}
        ctx.check(abs(at["a"][0] - ms / 1000) < 1e-9 and abs(at["b"][0] - other / 1000) < 1e-9, "sleeps for its time", at)
        ctx.check(at["a"][1] is None, "gives nothing")

        async def cancelled():
            t = loop.create_task(nap(ms + 5, "c"))
            await pause(1)
            t.cancel()
            await t

        ctx.check(loop.run(cancelled())[0] == "cancelled", "can be cancelled")


@harness(P, quick=grid(which=["start", "start_immediate"]))
def over_time(ctx, which):
    """Started computations that take time, cancelled at some time, or not."""
    naps = [ctx.choose(f"nap{i}", [0, 1, 3600]) for i in range(2)]
    cancel = ctx.choose("cancel at", [None, 0.5, 2, 3600.5, 10**6])
    how = ctx.choose("computation", ["returns", "raises"])
    e = UserError(ctx.int("e"))
    log = []
    with Loop() as loop:
        src = CancellationTokenSource()

        async def c():
            try:
                for t in naps:
                    await asyncio.sleep(t)
                log.append(("end", loop.time()))
                if how == "raises":
                    raise e
            except asyncio.CancelledError:
                log.append(("cancelled", loop.time()))
                raise

        async def main():
            getattr(aiotools, which)(c(), src.token)
            if cancel is not None:
                await asyncio.sleep(cancel)
                src.cancel()
            await asyncio.sleep(10**7)

        ctx.check(loop.run(main())[0] == "ok", "no exception reaches the starter")
        want = ("end", sum(naps)) if cancel is None or cancel > sum(naps) else ("cancelled", cancel)
        ctx.check(log == [want], f"{which}: runs to its end, unless cancelled before", (log, want))
        ctx.check(all(x.get("exception") is e for x in loop.errors), "no stray error", loop.errors)


@harness(P, quick=grid(which=["start", "start_immediate"]))
def kept_alive(ctx, which):
    """A started computation that nothing else refers to is not lost."""
    n = ctx.size("waits", 1, 2)
    token = CancellationTokenSource().token if ctx.bool("token") else None
    log = []
    with Loop() as loop:
        waiting = []

        async def c():
            for _ in range(n):
                f = loop.create_future()
                waiting.append(weakref.ref(f))
                await f
                del f
            log.append("end")

        async def main():
            getattr(aiotools, which)(c(), token)
            for i in range(n):
                await pause(2)
                gc.collect(1)
                f = waiting[i]() if i < len(waiting) else None
                ctx.check(f is not None, f"{which}: the computation was lost")
                f.set_result(None)
                del f
            await pause(3)

        r = loop.run(main())
        ctx.check(r[0] == "ok" and log == ["end"], f"{which}: runs to its end", (r, log))


class Custom:
    def __init__(self, c):
        self.c = c

    def __await__(self):
        return self.c.__await__()


@harness(P)
def any_payload(ctx):
    v = odd.pick(ctx, "v")
    kind = ctx.choose("awaitable", ["coroutine", "custom", "future"])
    late = ctx.bool("late")
    log = []

    async def c():
        if late:
            await pause(1)
        log.append(1)
        return v

    with Loop() as loop:
        async def main():
            r = aiotools.from_continuations(lambda d, e, x: loop.call_soon(d, v) if late else d(v))
            log.append(await r)
            log.append(await aiotools.singleton(v))
            log.append(await aiotools.from_result(v))

        ctx.check(loop.run(main())[0] == "ok", "no exception")
        for x in log:
            odd.is_(ctx, x, v, "a value of any kind")
        for which in ("start", "start_immediate"):
            log.clear()

            async def starts():
                a = c() if kind == "coroutine" else Custom(c()) if kind == "custom" else loop.create_task(c())
                getattr(aiotools, which)(a)
                await pause(5)

            ctx.check(loop.run(starts())[0] == "ok" and log == [1], f"{which}: an awaitable of any kind runs once", log)
    if kind != "future":
        log.clear()
        odd.is_(ctx, aiotools.run_synchronously(c() if kind == "coroutine" else Custom(c())), v, "run_synchronously")
        ctx.check(log == [1], "run once")


@harness(P)
def any_exception(ctx):
    e = odd.some_exception(ctx)
    ctx.assume(not isinstance(e, (StopIteration, StopAsyncIteration)))
    late = ctx.bool("late")

    async def c():
        if late:
            await pause(1)
        raise e

    if isinstance(e, Exception):
        with Loop() as loop:
            async def main():
                r = aiotools.from_continuations(lambda d, er, x: loop.call_soon(er, e) if late else er(e))
                try:
                    await r
                except BaseException as x:  # noqa: BLE001
                    return x

            r = loop.run(main())
            ctx.check(r[0] == "ok" and r[1] is e, "from_continuations: an exception of any type", r)

            async def starts():
                aiotools.start(c())
                aiotools.start_immediate(c())
                await pause(5)

            ctx.check(loop.run(starts())[0] == "ok", "no exception reaches the starter")
    if not isinstance(e, (KeyboardInterrupt, asyncio.CancelledError)):
        odd.passes(ctx, lambda: aiotools.run_synchronously(c()), e, "run_synchronously: an exception of any type")
