"""C21: cancellation calls every live callback, at any interleaving."""

from __future__ import annotations

import functools

from expression.system import CancellationToken, CancellationTokenSource
from expression.system.error import ObjectDisposedException

from ..conc import Patched, threads, wait_for
from ..engine import UserError
from ..registry import grid, harness
from . import generic, odd

P = "C21"
BOUNDS = (
    "Sequential histories of up to 4 operations (thorough: 6) out of register, unregister any earlier callback, cancel, "
    "leave a context, read the token, with callbacks that raise, cancel again, register, or unregister themselves or each other; the same or equal callbacks registered up to 4 times; two "
    "threads of up to 2 operations each with every interleaving of up to 2 preemptions (thorough: 4, or 3 beyond two operations), three threads with 1 (thorough: 2); callbacks that cancel each other's sources from two threads; a "
    "thread switch is possible before every bytecode of the code under test that can touch shared state."
)
OUTSIDE = "Callbacks unregistered while cancellation is in progress may or may not be called; BaseExceptions raised by callbacks."
ASSUMPTIONS = ["CPython with the GIL: threads interleave between bytecodes, memory is sequentially consistent"]


class World:
    """A source, its callbacks, and what happened to them."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.src = CancellationTokenSource()
        self.token = self.src.token
        self.calls = {}
        self.regs = {}
        self.refused = set()
        self.unreg_begun = {}
        self.unreg_done = {}
        self.cancel_begun = None
        self.clock = 0
        self.errors = []

    def now(self):
        self.clock += 1
        return self.clock

    def callback(self, i, then=None):
        def cb():
            self.calls[i] = self.calls.get(i, 0) + 1
            if not self.token.is_cancellation_requested:
                self.errors.append("a callback runs before the token says cancelled")
            if then is not None:
                then()

        return cb

    def register(self, i, then=None):
        try:
            self.regs[i] = self.token.register(self.callback(i, then))
        except ObjectDisposedException:
            self.refused.add(i)
            if self.cancel_begun is None:
                self.errors.append("refused although not cancelled")

    def unregister(self, i):
        if i in self.regs:
            self.unreg_begun.setdefault(i, self.now())
            try:
                self.regs[i].dispose()
            except Exception as e:  # noqa: BLE001
                self.errors.append(f"unregistering raises {type(e).__name__}")
            self.unreg_done.setdefault(i, self.now())

    def cancel(self):
        if self.cancel_begun is None:
            self.cancel_begun = self.now()
        try:
            self.src.cancel()
        except Exception as e:  # noqa: BLE001
            self.errors.append(f"cancelling raises {type(e).__name__}")
        if not self.token.is_cancellation_requested:
            self.errors.append("not cancelled after cancel")

    def judge(self, label):
        ctx = self.ctx
        ctx.check(not self.errors, f"{label}: {self.errors[:1]}", self.errors)
        cancelled = self.cancel_begun is not None
        ctx.check(self.token.is_cancellation_requested is cancelled, f"{label}: the token says whether it is cancelled")
        ctx.check(self.src.is_cancellation_requested is cancelled, f"{label}: the source says whether it is cancelled")
        for i in self.refused:
            ctx.check(self.calls.get(i, 0) == 0, f"{label}: a refused callback is not called")
        for i in self.regs:
            n = self.calls.get(i, 0)
            ctx.check(n <= 1, f"{label}: never called twice", self.calls)
            if not cancelled:
                ctx.check(n == 0, f"{label}: not called without cancellation", self.calls)
            elif i not in self.unreg_begun:
                ctx.check(n == 1, f"{label}: a live callback is called", (i, self.calls))
            elif self.unreg_done.get(i, 10**9) < self.cancel_begun:
                ctx.check(n == 0, f"{label}: an unregistered callback is not called", (i, self.calls))


def finish(w, label):
    """Then cancel (if nobody did): everything still alive is called, and nothing again."""
    w.judge(label)
    w.cancel()
    w.judge(label + ", then cancel")
    w.cancel()
    w.src.dispose()
    w.judge(label + ", then cancel again")
    w.register(99)
    w.ctx.check(99 in w.refused and 99 not in w.calls, f"{label}: registering afterwards is refused")


OPS = ["end", "register", "unregister", "cancel", "read"]
THEN = ["nothing", "raises", "cancels", "registers", "unregisters itself", "unregisters the first"]


@harness(P, quick=grid(n=[4]), thorough=grid(n=[6]), cost=3)
def history(ctx, n):
    w = World(ctx)
    code = ctx.int("code")
    k = 0
    for j in range(n):
        op = ctx.choose(f"op{j}", OPS)
        if op == "end":
            break
        if op == "register":
            how = ctx.choose(f"callback{j}", THEN if n < 5 or j < 2 else THEN[:2])

            def then(how=how, i=k):
                if how == "raises":
                    raise UserError(code)
                if how == "cancels":
                    w.cancel()
                if how == "registers":
                    w.register(50 + i)
                if how == "unregisters itself":
                    w.unregister(i)
                if how == "unregisters the first":
                    w.unregister(0)

            w.register(k, then)
            k += 1
        elif op == "unregister":
            if k == 0:
                continue
            w.unregister(ctx.size(f"which{j}", 0, k - 1))
        elif op == "cancel":
            w.cancel()
        w.judge("history")
        t = w.src.token
        ctx.check(t.can_be_canceled is True, "a token of a source can be cancelled")
        ctx.check(t.is_cancellation_requested is w.token.is_cancellation_requested, "all tokens of a source agree")
        r = ctx.outcome(t.throw_if_cancellation_requested)
        ctx.check((r[0] == "raise" and isinstance(r[1], ObjectDisposedException)) == (w.cancel_begun is not None),
                  "throws exactly if cancelled")
    finish(w, "history")


def op_of(w, name):
    kind, _, i = name.partition(" ")
    return {
        "register": lambda: w.register(int(i)),
        "unregister": lambda: w.unregister(int(i)),
        "cancel": w.cancel,
    }[kind]


def thread(w, ops):
    fs = [op_of(w, o) for o in ops]

    def f():
        for g in fs:
            g()

    return f


TWO = [
    (["cancel"], ["register 1"]),
    (["cancel"], ["unregister 0"]),
    (["cancel"], ["cancel"]),
    (["register 1"], ["register 2"]),
    (["register 1"], ["unregister 0"]),
    (["unregister 0"], ["unregister 0"]),
    (["unregister 0"], ["unregister 5"]),
    (["register 1", "unregister 1"], ["cancel"]),
    (["register 1", "unregister 1"], ["register 2"]),
    (["register 1", "register 2"], ["cancel"]),
    (["register 1", "register 2"], ["register 3", "register 4"]),
    (["unregister 0", "register 1"], ["cancel"]),
    (["register 1", "cancel"], ["register 2", "unregister 0"]),
    (["unregister 0", "cancel"], ["register 1", "cancel"]),
]


@harness(P, quick=grid(case=range(len(TWO)), pre=[2]), thorough=grid(case=range(len(TWO)), pre=[4]), cost=2)
def two_threads(ctx, case, pre):
    a, b = TWO[case]
    if len(a) + len(b) > 2 and pre > 2:
        pre -= 1
    with Patched():
        w = World(ctx)
        w.register(0)
        w.register(5)
        threads(ctx, pre, thread(w, a), thread(w, b))
        finish(w, f"{a} || {b}")


THREE = [
    (["cancel"], ["register 1"], ["register 2"]),
    (["cancel"], ["cancel"], ["register 1"]),
    (["cancel"], ["unregister 0"], ["register 1"]),
    (["register 1"], ["register 2"], ["unregister 0"]),
    (["register 1"], ["register 2"], ["register 3"]),
]


@harness(P, quick=grid(case=range(len(THREE)), pre=[1]), thorough=grid(case=range(len(THREE)), pre=[2]), cost=3)
def three_threads(ctx, case, pre):
    with Patched():
        w = World(ctx)
        w.register(0)
        threads(ctx, pre, *[thread(w, x) for x in THREE[case]])
        finish(w, " || ".join(map(str, THREE[case])))


@harness(P, quick=grid(pre=[1]), thorough=grid(pre=[3]), cost=2)
def callback_and_threads(ctx, pre):
    """A callback that uses the source again, while another thread does too."""
    with Patched():
        w = World(ctx)
        how = ctx.choose("callback", ["cancels", "registers", "unregisters"])
        other = ctx.choose("other", ["register 1", "unregister 5", "cancel"])
        w.register(0, {"cancels": w.cancel, "registers": lambda: w.register(7), "unregisters": lambda: w.unregister(5)}[how])
        w.register(5)
        threads(ctx, pre, thread(w, ["cancel"]), thread(w, [other]))
        finish(w, f"callback {how} || {other}")


@harness(P, quick=grid(pre=[1]), thorough=grid(pre=[3]), cost=2)
def callback_waits(ctx, pre):
    """A callback may wait for another thread that uses the source; nothing is held up for ever."""
    with Patched():
        w = World(ctx)
        ops = [ctx.choose(f"other{i}", ["register 1", "unregister 5", "unregister 0", "cancel"]) for i in range(2)]
        done = []
        w.register(0, lambda: wait_for(lambda: bool(done)))
        w.register(5)
        f = thread(w, ops)

        def other():
            wait_for(lambda: 0 in w.calls or w.unreg_done.get(0))
            f()
            done.append(1)

        threads(ctx, pre, thread(w, ["cancel"]), other)
        finish(w, f"callback waits || {ops}")


@harness(P)
def contexts(ctx):
    """Leaving the context of a source cancels it; entering a cancelled one is refused."""
    w = World(ctx)
    w.register(0)
    fails = bool(ctx.bool("fails"))
    e = UserError(ctx.int("e"))
    r = None
    try:
        with w.src as s:
            ctx.check(s is w.src, "the context gives the source")
            w.judge("inside")
            if fails:
                raise e
    except UserError as x:
        r = x
    ctx.check(r is (e if fails else None), "exceptions are passed on")
    w.cancel_begun = w.now()
    w.judge("context")

    def enter():
        with w.src:
            pass

    ctx.raises(ObjectDisposedException, enter, "entering a cancelled source")


MUTUAL = ["cancels", "unregisters", "registers"]


@harness(P, quick=grid(how=MUTUAL, pre=[2]), thorough=grid(how=MUTUAL, pre=[3]))
def each_other(ctx, how, pre):
    """Callbacks that cancel each other's sources, from two threads: each is called once, and nobody waits for ever."""
    with Patched():
        calls = []
        srcs = [CancellationTokenSource(), CancellationTokenSource()]
        regs = [s.token.register(lambda: None) for s in srcs]

        def callback(i):
            def f():
                calls.append(i)
                if how == "cancels":
                    srcs[1 - i].cancel()
                elif how == "unregisters":
                    regs[1 - i].dispose()
                else:
                    try:
                        srcs[1 - i].token.register(lambda: calls.append(2))
                    except ObjectDisposedException:
                        pass

            return f

        for i, s in enumerate(srcs):
            s.token.register(callback(i))
        threads(ctx, pre, srcs[0].cancel, srcs[1].cancel)
        ctx.check(sorted(x for x in calls if x < 2) == [0, 1], "every callback is called exactly once", calls)
        ctx.check(len(calls) <= 4 and all(s.is_cancellation_requested for s in srcs), "both are cancelled", calls)


@harness(P)
def never(ctx):
    """A token that cannot be cancelled never is; an already cancelled source is cancelled."""
    n = CancellationToken.none()
    ctx.check(n.can_be_canceled is False and n.is_cancellation_requested is False, "none is never cancelled")
    n.throw_if_cancellation_requested()
    # cancelling any source does not change it, nor any other source
    a, b = CancellationTokenSource(), CancellationTokenSource()
    k = ctx.size("how many cancelled", 0, 2)
    for s in (a, b)[:k]:
        s.cancel()
    ctx.check(a.token.is_cancellation_requested is (k > 0), "first source")
    ctx.check(b.token.is_cancellation_requested is (k > 1), "second source")
    ctx.check(n.is_cancellation_requested is False and CancellationToken.none().is_cancellation_requested is False, "none stays")
    d = CancellationTokenSource()
    t = CancellationToken(True, d)
    for i in range(ctx.size("callbacks", 0, 2)):
        d.token.register(lambda: None)
    for _ in range(2):
        ctx.check(t.can_be_canceled is False and t.is_cancellation_requested is False, "a token that cannot be cancelled is not, whatever its source")
        t.throw_if_cancellation_requested()
        d.cancel()
    c = CancellationTokenSource.cancelled_source()
    ctx.check(c.is_cancellation_requested and c.token.is_cancellation_requested, "cancelled source")
    ctx.raises(ObjectDisposedException, lambda: c.token.register(lambda: None), "registering with a cancelled source")
    ctx.check(b.is_cancellation_requested is (k > 1), "sources are independent")


class Caller:
    """Callables of many kinds: equal to each other or not hashable, false, or methods of one object."""

    def __init__(self, log, kind):
        self.log = log
        self.kind = kind

    def __call__(self):
        self.log.append(1)

    def method(self):
        self.log.append(1)


class EqualCaller(Caller):
    def __eq__(self, other):
        return isinstance(other, EqualCaller)

    def __hash__(self):
        return 7


class UnhashableCaller(Caller):
    def __eq__(self, other):
        return self is other

    __hash__ = None


class FalseCaller(Caller):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


@harness(P, quick=grid(n=[4]), thorough=grid(n=[6]))
def shared_callbacks(ctx, n):
    """Each registration counts for itself, also of one callback registered again and of callbacks that are equal."""
    log = []
    kind = ctx.choose("kind", ["same function", "same object", "methods", "equal", "unhashable", "false", "partial"])
    one = Caller(log, kind)
    f = one.__call__

    def make():
        return {
            "same function": lambda: f, "same object": lambda: one, "methods": lambda: one.method,
            "equal": lambda: EqualCaller(log, kind), "unhashable": lambda: UnhashableCaller(log, kind),
            "false": lambda: FalseCaller(log, kind), "partial": lambda: functools.partial(log.append, 1),
        }[kind]()

    src = CancellationTokenSource()
    regs, live = [], 0
    gone = set()
    for j in range(n):
        op = ctx.choose(f"op{j}", ["register", "unregister"] if regs else ["register"])
        if op == "register":
            regs.append(src.token.register(make()))
            live += 1
        else:
            i = ctx.size(f"which{j}", 0, len(regs) - 1)
            regs[i].dispose()
            if i not in gone:
                gone.add(i)
                live -= 1
        ctx.check(not log, "not called without cancellation")
    src.cancel()
    ctx.check(len(log) == live, "one call for each registration that is left", (len(log), live))
    src.cancel()
    ctx.check(len(log) == live, "and no more", (len(log), live))


@harness(P)
def any_exception(ctx):
    """Whatever one callback raises, every other one is called."""
    e, shape = odd.exception_or_shape(ctx, base=False)
    at = ctx.size("at", 0, 2)
    log = []

    def cb(i):
        def f():
            log.append(i)
            if i == at:
                raise e

        return shape(f)

    src = CancellationTokenSource()
    for i in range(3):
        src.token.register(cb(i))
    r = ctx.outcome(src.cancel)
    ctx.check(r[0] == "ok", "cancelling does not raise", r)
    ctx.check(sorted(log) == [0, 1, 2], "every callback is called once", log)
    ctx.check(src.token.is_cancellation_requested, "cancelled")


@harness(P)
def results_of_callbacks(ctx):
    """What a callback returns means nothing."""
    r = generic.TRUTHS[ctx.size("returned", 0, len(generic.TRUTHS) - 1)]
    log = []
    src = CancellationTokenSource()
    for i in range(3):
        src.token.register(lambda i=i: log.append(i) or r)
    src.cancel()
    ctx.check(sorted(log) == [0, 1, 2], "every callback is called once", log)
    ctx.check(src.token.is_cancellation_requested, "cancelled")
