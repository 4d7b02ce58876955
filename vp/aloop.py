"""A small event loop with virtual time, for exploring schedules of real asyncio code.

It runs the real asyncio Task and Future; callbacks run in FIFO order, as asyncio
promises.  What varies is when tasks suspend, which harnesses make symbolic.
`call_soon_threadsafe` may be called from a thread of the symbolic scheduler
(vp.conc): the loop thread then blocks in the scheduler while it is idle.
"""

from __future__ import annotations

import _thread
import asyncio
import contextvars
import heapq
from collections import deque

from . import conc, engine


class MiniLoop(asyncio.AbstractEventLoop):
    def __init__(self):
        self.ready = deque()
        self.timers = []
        self.now = 0.0
        self.seq = 0
        self.errors = []
        self.running = False
        self.closed = False
        self.ident = None
        self.limbo = []
        self.parked = None

    # -- scheduling
    def call_soon_threadsafe(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context or contextvars.copy_context())
        self.ready.append(h)
        return h

    def call_soon(self, callback, *args, context=None):
        """From a thread other than that of the loop this does not wake up the loop: it sees the callback later, if ever."""
        if self.running and self.ident != _thread.get_ident():
            h = asyncio.Handle(callback, args, self, context or contextvars.copy_context())
            self.limbo.append(h)
            return h
        return self.call_soon_threadsafe(callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self, context or contextvars.copy_context())
        self.seq += 1
        heapq.heappush(self.timers, (when, self.seq, h))
        return h

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.now + delay, callback, *args, context=context)

    def _timer_handle_cancelled(self, h):
        pass

    def time(self):
        return self.now

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self, name=name, context=context)

    def get_debug(self):
        return False

    def is_running(self):
        return self.running

    def is_closed(self):
        return self.closed

    def call_exception_handler(self, context):
        self.errors.append(context)

    def default_exception_handler(self, context):
        self.errors.append(context)

    # -- running
    def step(self):
        """Run one callback; False if there is none left, now or later."""
        while not self.ready and self.timers:
            when, _, h = heapq.heappop(self.timers)
            if not h._cancelled:
                self.now = max(self.now, when)
                self.ready.append(h)
        if not self.ready:
            return False
        h = self.ready.popleft()
        if self.limbo:
            self.ready.extend(self.limbo)
            self.limbo.clear()
        if not h._cancelled:
            h._run()
            if engine.RAISED:
                raise engine.RAISED[0]
        return True

    def run(self, coro=None, until=None, limit=3000):
        """Run until nothing is left to do (or until() holds); the outcome of coro.

        In a thread of the scheduler: wait for other threads while idle.
        """
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        self.running, self.ident = True, _thread.get_ident()
        try:
            task = None if coro is None else self.create_task(coro)
            for _ in range(limit):
                if self.step():
                    continue
                if (until is None or until()) and (task is None or task.done()):
                    break
                s = conc._SCHED
                if s is None or conc._thread.get_ident() not in s.by_ident:
                    break
                s.block(lambda: bool(self.ready))
            else:
                raise RuntimeError("the event loop does not come to rest")
        finally:
            self.running = False
            asyncio._set_running_loop(old)
        if task is None:
            return None
        if not task.done():
            return ("pending", None)
        if task.cancelled():
            return ("cancelled", None)
        if task.exception() is not None:
            return ("raise", task.exception())
        return ("ok", task.result())

    def run_until_complete(self, future):
        task = asyncio.ensure_future(future, loop=self)
        self.run()
        return task.result()

    def close(self):
        """Give up what is left, quietly."""
        self.closed = True
        self.ready.clear()
        self.timers.clear()


class Loop:
    """with Loop() as loop: the current event loop."""

    def __enter__(self):
        self.loop = MiniLoop()
        asyncio.set_event_loop(self.loop)
        return self.loop

    def __exit__(self, *a):
        tasks = [t for t in asyncio.all_tasks(self.loop)]
        for t in tasks:
            t._log_destroy_pending = False
            t.get_coro().close()
        self.loop.close()
        asyncio.set_event_loop(None)


async def pause(n):
    """Suspend n times."""
    for _ in range(n):
        await asyncio.sleep(0)


class Suspend:
    """Suspends once: until the next turn of the event loop or, under Steps, until it is resumed."""

    def __init__(self, v=None):
        self.v = v

    def __await__(self):
        loop = asyncio._get_running_loop()
        if getattr(loop, "parked", None) is None:
            yield
        else:
            f = loop.create_future()
            loop.parked.append(f)
            yield from f
        return self.v


def drive(coro, limit=200000):
    """Run a coroutine on an event loop of its own; its value or exception."""
    with Loop() as loop:
        try:
            task = loop.create_task(_outcome(coro))
            loop.run(limit=limit)
            if not task.done():
                raise RuntimeError("the coroutine waits for something that never happens")
            kind, v = task.result()
        except RecursionError:
            raise RuntimeError("too deep") from None
    if kind == "raise":
        raise v
    return v


async def _outcome(coro):
    # the exception itself, whatever its type (a Task would treat some specially)
    try:
        return "ok", await coro
    except BaseException as e:  # noqa: BLE001
        return "raise", e


class Steps:
    """Coroutines as tasks of one event loop; each Suspend waits until it is resumed by name.

    with Steps(c0, c1) as s: s.waiting is the list of suspensions reached, oldest first.
    """

    def __init__(self, *coros):
        self.coros = coros

    def __enter__(self):
        self.cm = Loop()
        self.loop = self.cm.__enter__()
        self.loop.parked = []
        self.tasks = []
        for c in self.coros:
            self.add(c)
        return self

    def add(self, coro):
        """Start a coroutine, up to where it suspends."""
        self.tasks.append(self.loop.create_task(_outcome(coro)))
        self.loop.run()
        return len(self.tasks) - 1

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    @property
    def waiting(self):
        return [f for f in self.loop.parked if not f.done()]

    def resume(self, f, e=None):
        if e is None:
            f.set_result(None)
        else:
            f.set_exception(e)
        self.loop.run()

    def cancel(self, i):
        self.tasks[i].cancel()
        self.loop.run()

    def outcome(self, i):
        """("ok", value), ("raise", exception) or None while it runs."""
        t = self.tasks[i]
        if not t.done():
            return None
        return ("raise", asyncio.CancelledError()) if t.cancelled() else t.result()

    def all(self, ctx, limit=60):
        """Resume the suspensions in a symbolic order until nothing is left."""
        for _ in range(limit):
            w = self.waiting
            if not w:
                break
            self.resume(w[0] if len(w) == 1 else w[ctx.size("next", 0, len(w) - 1)])
        return [self.outcome(i) for i in range(len(self.tasks))]
