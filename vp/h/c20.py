"""C20: tail-recursive functions compute the recursion in constant stack."""

from __future__ import annotations

import sys

from expression import TailCall, tailrec, tailrec_async

from ..aloop import Steps, Suspend, drive
from ..engine import UserError
from ..registry import grid, harness
from . import generic, odd

P = "C20"
BOUNDS = (
    "Arbitrary recursions of up to 3 tail calls (thorough: 5) given by uninterpreted functions of the arguments: "
    "after each call the function returns any value (None, falsy and nested ones included), raises, or makes a "
    "tail call with 0 to 2 positional and 0 to 2 keyword arguments, a different list each time; recursions of "
    "20000 calls (thorough: 100000) for the stack depth; nested and re-entrant calls; two interleaved "
    "asynchronous computations under every schedule of up to 6 steps; cancellation at each suspension. Values of "
    "about 60 kinds, exceptions of 40 kinds; two threads in the same function at once, one suspended in a call "
    "while the other runs; calls that are instances of subclasses of TailCall."
)
OUTSIDE = "Recursion that is not by tail call; threads that switch in the middle of the trampoline."
ASSUMPTIONS = ["the event loop resumes a computation only where it suspended (coroutine protocol)"]


class Next(Exception):
    pass


def step(ctx, name, n, spec="deep", widths=2, keys=2):
    """One step of an arbitrary recursion: ('value', v) | ('call', args, kw) | raises."""
    kind = ctx.fun(f"{name}.kind", "int")
    nargs = ctx.fun(f"{name}.nargs", "int")
    nkw = ctx.fun(f"{name}.nkw", "int")
    arg = ctx.fun(f"{name}.arg", "int")
    val = ctx.fun(f"{name}.value", spec)
    count = [0]

    def go(args, kw):
        state = (args, tuple(sorted(kw.items())))
        k = ctx._small(kind(state), 2) if count[0] < n else 0
        count[0] += 1
        if k == 0:
            return ("value", val(state))
        if k == 1:
            raise UserError(arg(state, 99))
        a = tuple(arg(state, i) for i in range(ctx._small(nargs(state), widths)))
        w = ctx._small(nkw(state), keys)
        names = [(), ("p",), ("q",), ("p", "q")][w]
        return ("call", a, {x: arg(state, 10 + ord(x)) for x in names})

    def reset():
        count[0] = 0

    return go, reset


def plain(go, log):
    """The recursion, written plainly."""

    def f(*args, **kw):
        log.append((args, dict(sorted(kw.items()))))
        r = go(args, kw)
        if r[0] == "value":
            return r[1]
        return f(*r[1], **r[2])

    return f


def tail(go, log):
    def f(*args, **kw):
        log.append((args, dict(sorted(kw.items()))))
        r = go(args, kw)
        return r[1] if r[0] == "value" else TailCall(*r[1], **r[2])

    return f


def start(ctx):
    args = tuple(ctx.list("a", 0, 1))
    kw = {"p": ctx.int("kp")} if ctx.size("keyword", 0, 1) else {}
    return args, kw


@harness(P, quick=grid(n=[1, 2], mode=["sync", "async"]), thorough=grid(n=[1, 2, 3], mode=["sync", "async"]), cost=3)
def recursion(ctx, n, mode):
    go, reset = step(ctx, "f", n, "deep" if n == 1 else "val" if n == 2 else "int",
                     widths=2 if n < 3 else 1, keys=3 if n == 1 else 2 if n == 2 else 1)
    args, kw = start(ctx)
    log, want_log = [], []
    want = ctx.outcome(lambda: plain(go, want_log)(*args, **kw))
    reset()
    f = tail(go, log)
    if mode == "sync":
        run = tailrec(f)
    else:
        async def af(*a, **k):
            return f(*a, **k)

        g = tailrec_async(af)
        run = lambda *a, **k: drive(g(*a, **k))  # noqa: E731
    for again in range(2):
        log.clear()
        reset()
        ctx.same(ctx.outcome(lambda: run(*args, **kw)), want, "the result of the plain recursion")
        ctx.same(log, want_log, "the same calls, with the same arguments")


class Mine(TailCall):
    pass


class Marked(TailCall):
    """With more about it than the call."""

    mark = None

    def __bool__(self):
        return False

    def __len__(self):
        return 0


@harness(P, quick=grid(n=[3], mode=["sync", "async"]), thorough=grid(n=[6], mode=["sync", "async"]))
def kinds_of_call(ctx, n, mode):
    """A tail call may be an instance of a subclass, each time another one."""
    k = ctx.size("calls", 0, n)
    kinds = [ctx.choose(f"kind{i}", [TailCall, Mine, Marked]) for i in range(k)]
    x = ctx.int("x")

    def f(i, v, *, p=0):
        return (v, p) if i == k else kinds[i](i + 1, v + 1, p=v) if i % 2 else kinds[i](i + 1, v)

    async def af(*a, **kw):
        return f(*a, **kw)

    got = ctx.outcome(lambda: tailrec(f)(0, x) if mode == "sync" else drive(tailrec_async(af)(0, x)))
    v, p, i = x, 0, 0
    while i < k:
        v, p, i = (v + 1, v, i + 1) if i % 2 else (v, 0, i + 1)
    ctx.same(got, ("ok", (v, p)), "the calls are made")


@harness(P, quick=grid(n=[3], mode=["sync", "async"]), thorough=grid(n=[5], mode=["sync", "async"]))
def longer_recursion(ctx, n, mode):
    """More calls, one argument each."""
    go, reset = step(ctx, "f", n, "val", 1, 1)
    x = ctx.int("x")
    log, want_log = [], []
    want = ctx.outcome(lambda: plain(go, want_log)(x))
    reset()
    f = tail(go, log)
    if mode == "sync":
        got = ctx.outcome(lambda: tailrec(f)(x))
    else:
        async def af(*a, **k):
            await Suspend(0)
            return f(*a, **k)

        got = ctx.outcome(lambda: drive(tailrec_async(af)(x)))
    ctx.same(got, want, "the result of the plain recursion")
    ctx.same(log, want_log, "the same calls, with the same arguments")


def depth():
    f, n = sys._getframe(1), 0
    while f:
        f, n = f.f_back, n + 1
    return n


@harness(P, quick=grid(n=[20000], mode=["sync", "async"]), thorough=grid(n=[100000], mode=["sync", "async"]))
def constant_stack(ctx, n, mode):
    x, y = ctx.int("x"), ctx.int("y")
    style = ctx.choose("style", ["positional", "keyword", "swapped"])
    depths = {}
    count = [0]

    def body(i, acc, other=None):
        depths[i] = depth()
        count[0] += 1
        if i == 0:
            return (acc, other)
        if style == "positional":
            return TailCall(i - 1, acc, other)
        if style == "keyword":
            return TailCall(i=i - 1, other=other, acc=acc)
        return TailCall(i - 1, other, acc)

    if mode == "sync":
        r = ctx.outcome(lambda: tailrec(body)(n, x, other=y))
    else:
        async def abody(i, acc, other=None):
            return body(i, acc, other)

        r = ctx.outcome(lambda: drive(tailrec_async(abody)(n, x, other=y)))
    want = (y, x) if style == "swapped" and n % 2 else (x, y)
    ctx.same(r, ("ok", want), "deep recursion: result")
    ctx.check(count[0] == n + 1, "deep recursion: number of calls")
    few = [depths[i] for i in range(n - 50, n + 1)]
    ctx.check(max(depths.values()) <= max(few), "deep recursion: the stack does not grow", (max(few), max(depths.values())))
    ctx.check(max(few) - min(few) <= 8, "deep recursion: the stack does not grow", (min(few), max(few)))


@harness(P, quick=grid(mode=["sync", "async"]))
def factorial(ctx, mode):
    """Accumulating recursions, with a symbolic accumulator and a symbolic number of steps."""
    a = ctx.int("a")
    n = ctx.size("n", 0, 6)
    xs = [ctx.int(f"x{i}") for i in range(n)]

    def body(i, acc):
        return acc if i == n else TailCall(i + 1, acc + xs[i])

    async def abody(i, acc):
        return body(i, acc)

    want = a
    for x in xs:
        want = want + x
    got = tailrec(body)(0, a) if mode == "sync" else drive(tailrec_async(abody)(0, a))
    ctx.same(got, want, "accumulator")


@harness(P, quick=grid(n=[1]), thorough=grid(n=[2]))
def nested(ctx, n):
    """A tail-recursive function that calls another one, and itself, not as a tail call."""
    go, reset = step(ctx, "g", n, "int", 1, 1)
    inner_log, want_inner = [], []
    x = ctx.int("x")
    k = ctx.size("calls", 0, 2)
    use = [ctx.choose(f"use{i}", ["inner", "self", "none"]) for i in range(k + 1)]

    def mk(g, self_call, tail_call, log):
        def f(i, acc):
            log.append((i, acc))
            if use[i] == "inner":
                reset()
                acc = acc + g(acc)
            elif use[i] == "self" and i < k:
                acc = acc - self_call[0](k, acc)
            return acc if i == k else tail_call(i + 1, acc)

        return f

    p = [None]
    wl, gl = [], []
    p[0] = mk(plain(go, want_inner), p, lambda i, a: p[0](i, a), wl)
    want = ctx.outcome(lambda: p[0](0, x))
    q = [None]
    q[0] = tailrec(mk(tailrec(tail(go, inner_log)), q, TailCall, gl))
    ctx.same(ctx.outcome(lambda: q[0](0, x)), want, "nested: result")
    ctx.same(gl, wl, "nested: outer calls")
    ctx.same(inner_log, want_inner, "nested: inner calls")


@harness(P, quick=grid(n=[1, 2]), thorough=grid(n=[2, 3]), cost=2)
def interleaved(ctx, n):
    """Two runs of one asynchronous function, resumed in any order."""
    f = ctx.fun("f", "int")
    stop = ctx.fun("stop", "int")
    x, y = ctx.int("x"), ctx.int("y")

    def steps(v, i):
        return i >= n or bool(stop(v, i) == 0)

    def reference(v):
        i, calls = 0, []
        while True:
            calls.append((v, i))
            if steps(v, i):
                return f(v), calls
            v, i = f(v), i + 1

    logs = {0: [], 1: []}

    @tailrec_async
    async def run(who, v, i=0):
        logs[who].append((v, i))
        await Suspend(0)
        done = steps(v, i)
        await Suspend(0)
        return f(v) if done else TailCall(who, f(v), i=i + 1)

    with Steps(run(0, x), run(1, y)) as t:
        out = t.all(ctx)
    for w, v in ((0, x), (1, y)):
        want, calls = reference(v)
        ctx.same(out[w], ("ok", want), "interleaved: result")
        ctx.same(logs[w], calls, "interleaved: calls")


@harness(P, quick=grid(n=[2]), thorough=grid(n=[3]))
def cancelled(ctx, n):
    """An exception thrown in at a suspension, from outside, ends the computation with it."""
    at = ctx.size("at", 0, n)
    total = ctx.size("total", 0, n)
    x = ctx.int("x")
    log = []

    @tailrec_async
    async def run(v, i):
        log.append(i)
        await Suspend(0)
        return v if i == total else TailCall(v, i + 1)

    e = UserError(ctx.int("e"))
    with Steps(run(x, 0)) as t:
        for i in range(n + 2):
            if t.waiting:
                t.resume(t.waiting[0], e if i == at else None)
        got = t.outcome(0)
    if at <= total:
        ctx.check(got is not None and got[0] == "raise" and got[1] is e, "the exception is passed on")
        ctx.check(log == list(range(at + 1)), "and nothing else is called")
    else:
        ctx.same(got, ("ok", x), "completes before")


@harness(P)
def kept_results(ctx):
    """Values that look like a tail call to careless code are results."""
    v = ctx.choose("v", [None, 0, False, "", (), [], {}, ((), {}), TailCall, "TailCall"])
    x = ctx.int("x")
    r = tailrec(lambda a: v)(x)
    ctx.check(r is v, "result")

    async def f(a):
        return v

    ctx.check(drive(tailrec_async(f)(x)) is v, "async result")
    # TailCall without arguments
    calls = []

    def g(*a):
        calls.append(a)
        return TailCall() if a else x

    ctx.same(tailrec(g)(1), x, "tail call without arguments")
    ctx.check(len(calls) == 2, "tail call without arguments: calls")


@harness(P, quick=grid(mode=["sync", "async"]))
def several_calls_made(ctx, mode):
    """Tail calls are values: making others, before or after, keeping them and returning one later changes nothing."""
    xs = ctx.ints("x", 4)
    pick = [ctx.size(f"pick{i}", 0, 2) for i in range(3)]
    ready = [TailCall(1, xs[3], k=xs[2]), TailCall(2, xs[2]), TailCall(3, k=xs[1])]
    log = []

    def body(i, a=None, *, k=None):
        log.append((i, a, k))
        if i == 3:
            return (a, k)
        made = [TailCall(i + 1, xs[0], k=xs[i]), TailCall(i + 1, xs[1]), ready[i]]
        TailCall(0, xs[0], k=a)
        return made[pick[i]]

    def args(i):
        return [((i + 1, xs[0]), {"k": xs[i]}), ((i + 1, xs[1]), {}), [((1, xs[3]), {"k": xs[2]}), ((2, xs[2]), {}), ((3,), {"k": xs[1]})][i]][pick[i]]

    want_log = [(0, xs[0], None)]
    for i in range(3):
        a, k = args(i)
        want_log.append((i + 1, a[1] if len(a) > 1 else None, k.get("k")))
    for _ in range(2):
        log.clear()
        if mode == "sync":
            r = tailrec(body)(0, xs[0])
        else:
            async def abody(i, a=None, *, k=None):
                await Suspend(0)
                return body(i, a, k=k)

            r = drive(tailrec_async(abody)(0, xs[0]))
        ctx.same(log, want_log, "calls")
        ctx.same(r, (want_log[-1][1], want_log[-1][2]), "result")


@harness(P, quick=grid(mode=["sync", "async"]))
def any_payload(ctx, mode):
    v = odd.pick(ctx, "v")
    ctx.assume(not isinstance(v, TailCall))
    n = ctx.size("calls", 0, 2)
    log = []

    def body(i, x="default", *, k="default"):
        log.append((x, k))
        if i == 0:
            return v
        return TailCall(i - 1, v, k=v) if i % 2 else TailCall(i=i - 1, x=v, k=v)

    if mode == "sync":
        r = tailrec(body)(n, v, k=v)
    else:
        async def abody(i, x="default", *, k="default"):
            return body(i, x, k=k)

        r = drive(tailrec_async(abody)(n, v, k=v))
    odd.is_(ctx, r, v, "a result of any kind")
    ctx.check(len(log) == n + 1 and all(a is v and b is v for a, b in log), "arguments of any kind", log)


@harness(P, quick=grid(mode=["sync", "async"]))
def any_exception(ctx, mode):
    e, shape = odd.exception_or_shape(ctx, stop=mode == "sync")
    n = ctx.size("calls", 0, 2)

    def body(i):
        if i == 0:
            raise e
        return TailCall(i - 1)

    if mode == "sync":
        odd.passes(ctx, lambda: tailrec(shape(body))(n), e, "an exception is passed on")
    else:
        async def abody(i):
            return body(i)

        odd.passes(ctx, lambda: drive(tailrec_async(shape(abody))(n)), e, "an exception is passed on")


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    @tailrec
    def go(g, n, acc):
        acc = acc * 3 + g(n)
        return acc if n == 0 else TailCall(g, n - 1, acc)

    @tailrec_async
    async def go_async(g, n, acc):
        acc = acc * 3 + g(n)
        return acc if n == 0 else TailCall(g, n - 1, acc)

    @tailrec
    def plain(g):
        return g(4)

    @tailrec
    def named(*, g, n, acc=0):
        return acc * 3 + g(n) if n == 0 else TailCall(g=g, n=n - 1, acc=acc * 3 + g(n))

    inc = lambda x: x + 1  # noqa: E731
    generic.reentrant(ctx, {
        "tailrec": lambda f: go(f(inc), 4, 0), "tailrec_async": lambda f: generic.now(go_async(f(inc), 4, 0)), "no tail call": lambda f: plain(f(inc)),
        "keywords": lambda f: named(g=f(inc), n=4),
    }, top=5)


@harness(P, quick=grid(mode=["sync", "async"]))
def any_argument(ctx, mode):
    """Arguments of every kind reach the function, from the caller and from a tail call, as they are."""
    def first(form):
        def decorate(note):
            def f(*a, **kw):
                note(a, kw)
                return 2

            async def g(*a, **kw):
                return f(*a, **kw)

            if mode == "sync":
                return tailrec(generic.forms(f)[form])
            run = tailrec_async(generic.forms(g)[form])
            return lambda *a, **kw: drive(run(*a, **kw))

        return decorate

    def second(note):
        def run(*args, **kws):
            calls = []

            def f(*a, **kw):
                calls.append(1)
                if len(calls) < 3:
                    return TailCall(*args, **kws)
                note(a, kw)
                return 2

            async def g(*a, **kw):
                return f(*a, **kw)

            return tailrec(f)() if mode == "sync" else drive(tailrec_async(g)())

        return run

    generic.arguments(ctx, {"tail call": second, **{k: first(k) for k in generic.forms(len)}})
