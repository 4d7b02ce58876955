"""C22: a disposable runs its action exactly once, at any interleaving."""

from __future__ import annotations

import asyncio

from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
from expression.system.error import ObjectDisposedException

from ..aloop import Steps, Suspend
from ..aloop import drive as steps
from ..conc import Patched, threads
from ..engine import UserError
from ..registry import grid, harness
from . import generic, odd

P = "C22"
BOUNDS = (
    "Up to 3 threads disposing of one disposable once or twice each, every interleaving with up to 3 preemptions "
    "(2 threads; thorough: 5) or 2 (3 threads; thorough: 3), a thread switch being possible before every bytecode"
    " of the code under test that can touch shared state; sequential histories of up to 4 operations (dispose, "
    "enter, leave normally or by an exception; thorough: 6); contexts left by exceptions of about 20 kinds; "
    "actions that raise, that dispose again or that suspend; composites of up to 3 parts; 2 tasks (thorough: 3) "
    "disposing of an asynchronous disposable, under every schedule of their suspensions. Exceptions and results "
    "of every kind from actions; composites of up to 300 parts; 2 or 3 disposables whose actions dispose one another, from as many threads."
)
OUTSIDE = "One asynchronous disposable used from several threads; parts of a composite whose own disposal raises."
ASSUMPTIONS = ["CPython with the GIL: threads interleave between bytecodes, memory is sequentially consistent",
               "the event loop resumes a task only where it suspended"]


@harness(P, quick=[dict(n=2, pre=3), dict(n=3, pre=2)], thorough=[dict(n=2, pre=5), dict(n=3, pre=3)], cost=3)
def dispose_race(ctx, n, pre):
    with Patched():
        calls = []
        raises = ctx.bool("raises")
        code = ctx.int("code")

        def action():
            calls.append(1)
            if raises:
                raise UserError(code)

        d = Disposable.create(action)
        seen = []

        def body(twice):
            def f():
                for _ in range(2 if twice else 1):
                    try:
                        d.dispose()
                    except UserError as e:
                        seen.append(e)
                    calls.append(0)

            return f

        threads(ctx, pre, *[body(n == 2 and i == 0) for i in range(n)])
        ctx.check(sum(calls) == 1, "the action runs exactly once", calls)
        ctx.check(len(seen) == (1 if bool(raises) else 0), "its exception reaches one caller")
        d.dispose()
        ctx.check(sum(calls) == 1, "and never again")


@harness(P, quick=[dict(pre=2)], thorough=[dict(pre=4)])
def leave_race(ctx, pre):
    """Leaving a context in one thread while another one disposes."""
    with Patched():
        calls = []
        d = Disposable.create(lambda: calls.append(1))
        inside = []
        body_raises = ctx.bool("body raises")

        def a():
            try:
                with d:
                    inside.append(1)
                    if body_raises:
                        raise UserError(1)
            except UserError:
                inside.append(2)
            except ObjectDisposedException:
                inside.append(3)

        threads(ctx, pre, a, d.dispose)
        ctx.check(len(calls) == 1, "the action runs exactly once", calls)
        ctx.check(inside in ([1], [1, 2], [3]), "the body runs completely or not at all", inside)
        ctx.check(inside != [1] or not bool(body_raises), "the exception of the body is passed on")


@harness(P, quick=[dict(pre=2, n=2), dict(pre=1, n=3)], thorough=[dict(pre=4, n=2), dict(pre=2, n=3)])
def each_other(ctx, pre, n):
    """Actions that dispose one another, from several threads: each runs once, and nobody waits for ever."""
    with Patched():
        calls, ds = [], []

        def action(i):
            def f():
                calls.append(i)
                ds[(i + 1) % n].dispose()

            return f

        ds.extend(Disposable.create(action(i)) for i in range(n))
        threads(ctx, pre, *[d.dispose for d in ds])
        ctx.check(sorted(calls) == list(range(n)), "every action runs exactly once", calls)


OPS = ["end", "dispose", "with", "with raising", "with disposing"]


@harness(P, quick=grid(n=[4]), thorough=grid(n=[6]))
def history(ctx, n):
    calls = []
    how = ctx.choose("action", ["plain", "raises", "disposes again"])
    code = ctx.int("code")

    def action():
        calls.append(1)
        if how == "raises":
            raise UserError(code)
        if how == "disposes again":
            d.dispose()

    d = Disposable.create(action)
    ctx.check(not calls, "creating runs nothing")
    disposed = False
    for i in range(n):
        op = ctx.choose(f"op{i}", OPS)
        if op == "end":
            break
        e = UserError(code + 1)
        entered = False
        try:
            if op == "dispose":
                d.dispose()
            else:
                with d as got:
                    entered = True
                    ctx.check(got is d, "the context gives the disposable")
                    ctx.check(len(calls) == (1 if disposed else 0), "nothing runs before the context is left")
                    if op == "with raising":
                        raise e
                    if op == "with disposing":
                        d.dispose()
            r = "ok"
        except UserError as x:
            r = x
        except ObjectDisposedException:
            r = "refused"
        if op != "dispose" and disposed:
            ctx.check(r == "refused" and not entered, "a disposed disposable cannot be entered")
        elif not disposed and how == "raises":
            ctx.check(isinstance(r, UserError), "the exception of the action is passed on")
            ctx.same(r, UserError(code), "the exception of the action")
        elif op == "with raising":
            ctx.check(r is e, "the exception of the body is passed on")
        else:
            ctx.check(r == "ok", "no exception", r)
        disposed = True
        ctx.check(len(calls) == 1, f"exactly once after {op}", calls)
    ctx.check(len(calls) == (1 if disposed else 0), "never without being disposed of")


@harness(P)
def own_subclass(ctx):
    """The base class disposes when its context is left, whatever happens inside."""
    log = []

    class D(Disposable):
        def dispose(self):
            log.append("disposed")

    class A(AsyncDisposable):
        async def dispose_async(self):
            log.append("disposed")

    e = UserError(ctx.int("e"))
    fails = bool(ctx.bool("fails"))

    def body():
        log.append("in")
        if fails:
            raise e

    def sync():
        d = D()
        with d as got:
            ctx.check(got is d, "the context gives the disposable")
            body()

    async def asyn():
        d = A()
        async with d as got:
            ctx.check(got is d, "the context gives the disposable")
            body()

    for name, run in (("sync", sync), ("async", lambda: steps(asyn()))):
        log.clear()
        try:
            run()
            r = None
        except UserError as x:
            r = x
        ctx.check(r is (e if fails else None), f"{name}: the exception of the body is passed on")
        ctx.check(log == ["in", "disposed"], f"{name}: disposed of once, on leaving", log)


def schedule(ctx, coros):
    """Resume the coroutines in a symbolic order; outcomes by index."""
    with Steps(*coros) as t:
        out = t.all(ctx)
        ctx.check(None not in out, "every task ends")
        return out


@harness(P, quick=[dict(n=2)], thorough=[dict(n=3)])
def async_race(ctx, n):
    calls = []
    sus = ctx.size("suspensions", 0, 2)
    fails = bool(ctx.bool("raises"))
    e = UserError(ctx.int("e"))

    async def action():
        calls.append("start")
        for _ in range(sus):
            await Suspend(0)
        calls.append("end")
        if fails:
            raise e

    d = AsyncDisposable.create(action)
    ctx.check(not calls, "creating runs nothing")

    def task(k):
        async def dispose():
            await Suspend(0)
            await d.dispose_async()

        async def leave():
            async with d:
                await Suspend(0)

        async def twice():
            await d.dispose_async()
            await d.dispose_async()

        return {"dispose": dispose, "with": leave, "twice": twice}[k]()

    out = schedule(ctx, [task(ctx.choose(f"task{i}", ["dispose", "with", "twice"])) for i in range(n)])
    ctx.check(calls == ["start", "end"], "the action runs exactly once, to its end", calls)
    raised = [r[1] for r in out if r[0] == "raise" and not isinstance(r[1], ObjectDisposedException)]
    ctx.check(len(raised) == (1 if fails else 0) and all(x is e for x in raised), "its exception reaches one caller")
    steps(d.dispose_async())
    ctx.check(len(calls) == 2, "and never again")

    async def enter():
        async with d:
            pass

    ctx.raises(ObjectDisposedException, lambda: steps(enter()), "a disposed disposable cannot be entered")


@harness(P, quick=grid(n=[3]), thorough=grid(n=[4]))
def async_history(ctx, n):
    calls = []

    async def action():
        calls.append(1)

    d = AsyncDisposable.create(action)
    disposed = False
    for i in range(n):
        op = ctx.choose(f"op{i}", OPS)
        if op == "end":
            break
        e = UserError(ctx.int("e"))
        entered = []

        async def run():
            if op == "dispose":
                await d.dispose_async()
            else:
                async with d as got:
                    entered.append(1)
                    ctx.check(got is d, "the context gives the disposable")
                    ctx.check(len(calls) == (1 if disposed else 0), "nothing runs before the context is left")
                    if op == "with raising":
                        raise e
                    if op == "with disposing":
                        await d.dispose_async()

        try:
            steps(run())
            r = "ok"
        except UserError as x:
            r = x
        except ObjectDisposedException:
            r = "refused"
        if op != "dispose" and disposed:
            ctx.check(r == "refused" and not entered, "a disposed disposable cannot be entered")
        elif op == "with raising":
            ctx.check(r is e, "the exception of the body is passed on")
        else:
            ctx.check(r == "ok", "no exception")
        disposed = True
        ctx.check(len(calls) == 1, "exactly once")
    ctx.check(len(calls) == (1 if disposed else 0), "never without being disposed of")


@harness(P)
def interrupted(ctx):
    """An action that is cancelled or interrupted on its way has run, and is not run again."""
    calls = []
    kind = ctx.choose("kind", [asyncio.CancelledError, KeyboardInterrupt, GeneratorExit, SystemExit, StopIteration, RuntimeError])
    sus = ctx.size("suspensions", 0, 2)
    e = kind(1)

    def plain():
        calls.append(1)
        raise e

    d = Disposable.create(plain)
    got = None
    try:
        with d:
            pass
    except BaseException as x:
        got = x
    ctx.check(got is e, "the exception of the action is passed on", got)
    d.dispose()
    ctx.check(len(calls) == 1, "exactly once", calls)

    async def action():
        calls.append(2)
        for _ in range(sus):
            await Suspend(0)
        raise e

    if kind is StopIteration:
        return
    a = AsyncDisposable.create(action)
    c = AsyncDisposable.composite(a)
    got = None
    try:
        steps(ctx.choose("of", [a, c]).dispose_async())
    except BaseException as x:
        got = x
    ctx.check(got is e, "the exception of the asynchronous action is passed on", got)
    steps(c.dispose_async())
    ctx.check(calls == [1, 2], "exactly once", calls)


@harness(P)
def left_by(ctx):
    """Contexts left by exceptions of every kind are disposed of, and pass them on."""
    e = odd.some_exception(ctx)
    calls = []

    class Own(Disposable):
        def dispose(self):
            calls.append(1)

    class AsyncOwn(AsyncDisposable):
        async def dispose_async(self):
            calls.append(1)

    async def action():
        calls.append(1)

    kind = ctx.choose("kind", ["action", "own", "source", "async action", "async own", "composite"])
    if "async" in kind or kind == "composite":
        d = {"async action": lambda: AsyncDisposable.create(action), "async own": AsyncOwn,
             "composite": lambda: AsyncDisposable.composite(AsyncDisposable.create(action))}[kind]()

        async def run():
            async with d:
                raise e

        odd.passes(ctx, lambda: steps(run()), e, f"{kind}: the exception of the body is passed on")
    else:
        src = CancellationTokenSource()
        src.token.register(lambda: calls.append(1))
        d = {"action": lambda: Disposable.create(lambda: calls.append(1)), "own": Own, "source": lambda: src}[kind]()

        def plain():
            with d:
                raise e

        odd.passes(ctx, plain, e, f"{kind}: the exception of the body is passed on")
    ctx.check(calls == [1], f"{kind}: disposed of once", calls)


@harness(P, quick=grid(n=[3]), thorough=grid(n=[4]))
def composites(ctx, n):
    """Every part once, in order, whatever is disposed of before and however often."""
    k = ctx.size("parts", 0, n)
    log = []
    sus = [ctx.size(f"suspensions{i}", 0, 1) for i in range(k)]

    def part(i):
        async def action():
            log.append(i)
            for _ in range(sus[i]):
                await Suspend(0)
            log.append(-i - 1)

        return AsyncDisposable.create(action)

    parts = [part(i) for i in range(k)]
    before = ctx.size("disposed before", -1, k - 1)
    ctx.check(not log, "creating runs nothing")
    d = AsyncDisposable.composite(*parts)
    if before >= 0:
        steps(parts[before].dispose_async())
    how = ctx.choose("how", ["dispose", "with", "twice", "nested"])

    async def run():
        if how == "nested":
            await AsyncDisposable.composite(AsyncDisposable.empty(), d, d).dispose_async()
        elif how == "with":
            async with d as got:
                ctx.check(got is d, "the context gives the disposable")
                ctx.check(len(log) == (2 if before >= 0 else 0), "nothing runs before the context is left")
        else:
            await d.dispose_async()
            if how == "twice":
                await d.dispose_async()

    steps(run())
    want = ([before] if before >= 0 else []) + [i for i in range(k) if i != before]
    want = [y for i in want for y in (i, -i - 1)]
    ctx.check(log == want, "every part once, to its end, in order", (log, want))


@harness(P)
def composite_race(ctx):
    """Two tasks dispose of the same composite."""
    log, ended = [], []

    def part(i):
        async def action():
            log.append(i)
            await Suspend(0)
            ended.append(i)

        return AsyncDisposable.create(action)

    parts = [part(i) for i in range(3)]
    d = AsyncDisposable.composite(*parts)
    out = schedule(ctx, [d.dispose_async(), d.dispose_async(), parts[2].dispose_async()])
    ctx.check(all(r[0] == "ok" for r in out), "no exception")
    ctx.check(sorted(log) == sorted(ended) == [0, 1, 2], "every part once, to its end", (log, ended))


class Alike(AsyncDisposable):
    """Parts that all compare equal; hashable."""

    def __init__(self, log, i):
        self.log, self.i = log, i

    async def dispose_async(self):
        self.log.append(self.i)

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0


class Unhashable(Alike):
    __hash__ = None


class Falsy(Alike):
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    __hash__ = object.__hash__


@harness(P)
def composite_of_own_parts(ctx):
    """Parts of the user's own classes, which may be equal, unhashable or false; any number of them."""
    kind = ctx.choose("kind", [Alike, Unhashable, Falsy])
    k = ctx.choose("parts", [0, 1, 2, 3, 40, 300])
    log = []
    how = ctx.choose("how", ["composite", "with", "nested"])
    parts = [kind(log, i) for i in range(k)]
    d = AsyncDisposable.composite(*parts)
    if how == "nested":
        d = AsyncDisposable.composite(AsyncDisposable.composite(*parts[:1]), AsyncDisposable.composite(*parts[1:]))
    ctx.check(not log, "creating runs nothing")

    async def run():
        if how == "with":
            async with d:
                ctx.check(not log, "nothing runs before the context is left")
        else:
            await d.dispose_async()

    steps(run())
    ctx.check(log == list(range(k)), "every part, in order", log)


@harness(P)
def results_of_actions(ctx):
    """What an action returns means nothing, in particular not to a context that is left by an exception."""
    r = generic.TRUTHS[ctx.size("returned", 0, len(generic.TRUTHS) - 1)]
    asynchronous = ctx.bool("async")
    shape = odd.plain if asynchronous else odd.shape(ctx)
    log = []
    how = ctx.choose("how", ["dispose", "leave", "exception"])
    if asynchronous:
        async def action():
            log.append(1)
            return r

        d = AsyncDisposable.create(action)

        async def run():
            if how == "dispose":
                return await d.dispose_async()
            async with d:
                if how == "exception":
                    raise UserError(1)

        out = odd.outcome(lambda: steps(run()))
    else:
        d = Disposable.create(shape(lambda: log.append(1) or r))

        def plain():
            if how == "dispose":
                return d.dispose()
            with d:
                if how == "exception":
                    raise UserError(1)

        out = odd.outcome(plain)
    ctx.check(log == [1], "disposed of once", log)
    ctx.check(out[0] == ("raise" if how == "exception" else "ok"), "the exception of the body is passed on", out)
