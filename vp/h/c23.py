"""C23: a mailbox delivers every message once, in order, with its own reply."""

from __future__ import annotations

import asyncio

from expression import MailboxProcessor
from expression.system import CancellationToken, CancellationTokenSource

from ..aloop import Loop, pause
from ..conc import Patched, threads
from ..registry import grid, harness
from . import odd

P = "C23"
BOUNDS = (
    "Up to 4 messages (thorough: 5) posted in groups by the starter and two posting tasks, with 0 to 2 "
    "suspensions before each post and 0 to 2 between receives; up to 3 requests with replies of any value, given "
    "in every order, at once or after up to 2 suspensions, repeated or not; cancellation of the token or of one "
    "receive at every step, posting before, after and in the step of the cancellation included, also of the token"
    " of a mailbox without a processor; one or two posting threads with up to 2 messages each against the thread "
    "of the event loop, every interleaving with up to 2 preemptions (two threads: 1; thorough: 3) before "
    "bytecodes of the code under test that can touch shared state. Messages and replies of about 60 kinds, and "
    "bulks of up to 2500 messages (thorough: 20000); receives refused while another waits."
)
OUTSIDE = (
    "Requests with a reply made from a thread other than that of the event loop; what becomes of a second receive while one waits (refused by "
    "the implementation)."
)
ASSUMPTIONS = ["callbacks of the event loop run in FIFO order, as asyncio promises",
               "CPython with the GIL: threads interleave between bytecodes, memory is sequentially consistent"]


@harness(P, quick=grid(n=[3]), thorough=grid(n=[4]), cost=3)
def delivery(ctx, n):
    """Messages of the starter and of two tasks, a processor that is sometimes busy."""
    k = ctx.size("messages", 1, n)
    vals = [ctx.value(f"m{i}", "val" if i == 0 else "int") for i in range(k)]
    who = [ctx.choose(f"who{i}", ["starter", "a", "b"]) for i in range(k)]
    delays = {w: ctx.size(f"delay {w}", 0, 2) for w in ("a", "b") if w in who}
    work = ctx.choose("work", [0, 2]) if n < 4 else ctx.size("work", 0, 2)
    late = ctx.size("late", 0, 1)
    posted, got = [], []
    with Loop() as loop:

        async def body(box):
            await pause(late)
            while True:
                m = await box.receive()
                got.append(m)
                await pause(work)

        async def main():
            box = MailboxProcessor.start(body)

            def post(w):
                async def go():
                    for i in range(k):
                        if who[i] == w:
                            await pause(delays.get(w, 0))
                            posted.append(vals[i])
                            box.post(vals[i])

                return go()

            ts = [loop.create_task(post(w)) for w in ("a", "b") if w in who]
            await post("starter")
            for t in ts:
                await t
            await pause(12)

        ctx.check(loop.run(main())[0] == "ok", "no exception")
        ctx.same(got, posted, "every message once, in the order posted")
        ctx.check(len(got) == k, "every message")
        ctx.check(not loop.errors, "no stray error", loop.errors)


@harness(P, quick=grid(n=[3]), thorough=grid(n=[4]))
def finite_processor(ctx, n):
    """A processor that stops, and goes on receiving later: messages wait for it."""
    k = ctx.size("messages", 0, n)
    first = ctx.size("received first", 0, n)
    vals = [ctx.value(f"m{i}", "val") for i in range(k)]
    early = ctx.size("posted early", 0, k)
    got = []
    with Loop() as loop:
        go = []

        async def body(box):
            for _ in range(first):
                got.append(await box.receive())
            while not go:
                await pause(1)
            while True:
                got.append(await box.receive())

        async def main():
            box = MailboxProcessor.start(body)
            for v in vals[:early]:
                box.post(v)
            await pause(3)
            ctx.check(len(got) == min(first, early), "received as far as asked for", got)
            for v in vals[early:]:
                box.post(v)
            await pause(3)
            ctx.check(len(got) == min(first, k), "received as far as asked for", got)
            go.append(1)
            await pause(6)

        ctx.check(loop.run(main())[0] == "ok", "no exception")
        ctx.same(got, vals, "every message once, in the order posted")


@harness(P, quick=grid(n=[2, 3]), thorough=grid(n=[3]), cost=3)
def replies(ctx, n):
    """Requests complete with the reply to their own channel, in whatever order replies are given."""
    k = ctx.size("requests", 1, n)
    vals = [ctx.value(f"r{i}", "deep" if k < 3 else "val") for i in range(k)]
    reqs = [ctx.int(f"q{i}") for i in range(k)]
    order = list(range(k))
    for i in range(k - 1):
        j = ctx.size(f"swap{i}", i, k - 1)
        order[i], order[j] = order[j], order[i]
    gather = bool(ctx.bool("reply at the end"))
    waits = ctx.size("reply after", 0, 1)
    await_late = ctx.size("awaited after", 0, 2) if n == 2 else 0
    repeat = bool(ctx.bool("repeats"))
    seen, out = [], {}
    with Loop() as loop:

        async def body(box):
            chans = {}
            while True:
                i, q, ch = await box.receive()
                seen.append((i, q))
                chans[i] = ch
                if gather:
                    if len(chans) < k:
                        continue
                    for j in order:
                        await pause(waits)
                        chans[j].reply(vals[j])
                else:
                    await pause(waits)
                    ch.reply(vals[i])
                    if repeat:
                        ch.reply(-1)

        async def main():
            box = MailboxProcessor.start(body)

            async def ask(i):
                a = box.post_and_async_reply(lambda ch: (i, reqs[i], ch))
                await pause(await_late)
                out[i] = await a

            ts = [loop.create_task(ask(i)) for i in range(k)]
            for t in ts:
                await t

        r = loop.run(main())
        ctx.check(r[0] == "ok", "every request completes", (r, out))
        ctx.same(seen, list(enumerate(reqs)), "requests arrive once, in order")
        ctx.check(len(out) == k, "every request completes")
        for i in range(k):
            ctx.same(out[i], vals[i], "the reply to its own channel")
        ctx.check(not loop.errors, "no stray error", loop.errors)


@harness(P, quick=grid(n=[2]), thorough=grid(n=[3]))
def replies_and_posts(ctx, n):
    """Requests mixed with plain posts keep one common order."""
    k = n + 1
    kind = [bool(ctx.bool(f"request{i}")) for i in range(k)]
    vals = [ctx.value(f"v{i}", "val") for i in range(k)]
    busy = ctx.size("busy", 0, 2)
    got, out = [], {}
    with Loop() as loop:

        async def body(box):
            await pause(busy)
            while True:
                i, ch = await box.receive()
                got.append(i)
                await pause(busy)
                if ch is not None:
                    ch.reply(vals[i])

        async def main():
            box = MailboxProcessor.start(body)
            aws = {}
            for i in range(k):
                if kind[i]:
                    aws[i] = box.post_and_async_reply(lambda ch, i=i: (i, ch))
                else:
                    box.post((i, None))
            await pause(ctx.size("later", 0, 2))
            for i, a in aws.items():
                out[i] = await a
            await pause(8)

        ctx.check(loop.run(main())[0] == "ok", "every request completes")
        ctx.check(got == list(range(k)), "every message once, in the order posted", got)
        for i in out:
            ctx.same(out[i], vals[i], "the reply to its own channel")


@harness(P)
def immediate_reply(ctx):
    """A reply given while the message is being built is the reply."""
    v = ctx.value("v", "deep")
    with Loop() as loop:
        async def main():
            box = MailboxProcessor(None)

            def build(ch):
                ch.reply(v)
                return "m"

            return await box.post_and_async_reply(build)

        ctx.same(loop.run(main()), ("ok", v), "immediate reply")


@harness(P, quick=grid(n=[2]), thorough=grid(n=[3]), cost=2)
def cancellation(ctx, n):
    """The token ends one mailbox; another one goes on, and its replies arrive."""
    at = ctx.size("cancel at", 0, 4)
    work = ctx.size("work", 0, 2)
    v = ctx.value("v", "val")
    got, other, ended, out = [], [], [], []
    with Loop() as loop:
        src = CancellationTokenSource()

        async def body(box):
            try:
                while True:
                    got.append(await box.receive())
                    await pause(work)
            finally:
                ended.append(1)

        async def good(box):
            while True:
                x, ch = await box.receive()
                other.append(x)
                await pause(work)
                ch.reply(v)

        async def main():
            a = MailboxProcessor.start(body, src.token)
            b = MailboxProcessor.start(good, CancellationToken.none() if bool(ctx.bool("none token")) else None)

            async def poster():
                for i in range(n):
                    a.post(i)
                    await pause(1)

            async def asker():
                for i in range(n):
                    out.append(await b.post_and_async_reply(lambda ch: (i, ch)))

            ts = [loop.create_task(poster()), loop.create_task(asker())]
            await pause(at)
            src.cancel()
            count = len(got)
            for t in ts:
                await t
            await pause(6)
            a.post(99)
            await pause(4)
            ctx.check(len(got) <= count, "nothing is received after cancellation", (count, got))

        r = loop.run(main())
        ctx.check(r[0] == "ok", "no exception", r)
        ctx.check(got == list(range(len(got))), "what was received is a prefix of what was posted, once each", got)
        ctx.check(len(ended) == (1 if at > 0 or ended else 0), "the processor is ended once", ended)
        ctx.check(other == list(range(n)), "the other mailbox receives everything")
        ctx.check(len(out) == n, "the other mailbox replies")
        for x in out:
            ctx.same(x, v, "the other mailbox replies")


@harness(P, quick=grid(n=[4]), thorough=grid(n=[6]), cost=2)
def cancel_while_posting(ctx, n):
    """Posting, cancelling the pending receive and receiving again, in any order, within and across steps of the loop."""
    script = [ctx.choose(f"step{i}", ["post", "ask", "cancel", "pause"]) for i in range(n)]
    vals = ctx.ints("m", n)
    got, posted = [], []
    with Loop() as loop:

        async def main():
            box = MailboxProcessor(None)
            t = loop.create_task(box.receive())

            async def settle(t):
                """The outcome of a receive; a new one if it was cancelled or has been received."""
                await pause(2)
                if t.done():
                    if not t.cancelled():
                        got.append(t.result())
                    return loop.create_task(box.receive())
                return t

            await pause(1)
            for i, s in enumerate(script):
                if s == "post":
                    posted.append(vals[i])
                    box.post(vals[i])
                elif s == "ask":
                    posted.append(vals[i])
                    box.post_and_async_reply(lambda ch: vals[i])
                elif s == "cancel":
                    t.cancel()
                else:
                    await pause(1)
                    if t.done():
                        t = await settle(t)
            for _ in range(n + 3):
                t = await settle(t)
            ctx.check(not t.done(), "the last receive waits")

        r = loop.run(main())
        ctx.check(r[0] == "ok", "no exception", r)
        ctx.same(got, posted, "every message once, in the order posted, whatever is cancelled")
        ctx.check(not loop.errors, "no stray error", loop.errors)


@harness(P, quick=grid(n=[4]), thorough=grid(n=[5]), cost=2)
def token_of_a_mailbox(ctx, n):
    """A mailbox with a token and no processor of its own: what is posted after the cancellation is never received."""
    script = [ctx.choose(f"step{i}", ["post", "ask", "pause", "cancel"]) for i in range(n)]
    early = ctx.bool("receive first")
    vals = ctx.ints("m", n)
    got, posted, ends = [], [], []
    with Loop() as loop:
        src = CancellationTokenSource()

        async def main():
            box = MailboxProcessor(src.token)
            other = MailboxProcessor(None)

            async def reader():
                try:
                    while True:
                        got.append(await box.receive())
                except asyncio.CancelledError:
                    ends.append(1)

            def go():
                return loop.create_task(reader())

            t = go() if early else None
            cancelled = False
            for i, s in enumerate(script):
                if s == "pause":
                    await pause(1)
                elif s == "cancel":
                    cancelled = True
                    src.cancel()
                else:
                    if not cancelled:
                        posted.append(vals[i])
                    if s == "post":
                        box.post(vals[i])
                    else:
                        box.post_and_async_reply(lambda ch: vals[i])
            t = t or go()
            await pause(2 * n + 2)
            if not cancelled:
                ctx.same(got, posted, "everything posted is received")
                ctx.check(not ends, "the receive waits")
            else:
                ctx.same(got, posted[: len(got)], "only what was posted before the cancellation is received, in order")
                box.post(0)
                await pause(3)
                ctx.check(len(ends) == 1, "a post to a cancelled mailbox ends the receive", (ends, got))
                ctx.same(got, posted[: len(got)], "nothing is received after the cancellation")
            other.post(7)
            ctx.check(await other.receive() == 7, "another mailbox goes on")
            t.cancel()
            await pause(2)

        r = loop.run(main())
        ctx.check(r[0] == "ok", "no exception", r)
        ctx.check(not loop.errors, "no stray error", loop.errors)


@harness(P, quick=grid(n=[2]), thorough=grid(n=[3]), cost=2)
def cancelled_receive(ctx, n):
    """A receive that is given up, by a timeout, does not take a message with it."""
    before = ctx.size("before", 0, n)
    after = ctx.size("after", 0, n)
    rounds = ctx.size("timeouts", 0, 2)
    vals = [ctx.value(f"m{i}", "val") for i in range(before + after)]
    how = ctx.choose("how", ["timeout", "cancel"])
    got, misses = [], []
    with Loop() as loop:
        go = []

        async def body(box):
            for _ in range(before):
                got.append(await box.receive())
            for _ in range(rounds):
                if how == "timeout":
                    try:
                        got.append(await asyncio.wait_for(box.receive(), 1))
                    except (TimeoutError, asyncio.TimeoutError):
                        misses.append(1)
                else:
                    t = loop.create_task(box.receive())
                    await pause(2)
                    t.cancel()
                    try:
                        await t
                    except asyncio.CancelledError:
                        misses.append(1)
            go.append(1)
            await pause(ctx.size("idle", 0, 1))
            while True:
                got.append(await box.receive())

        async def main():
            box = MailboxProcessor.start(body)
            for v in vals[:before]:
                box.post(v)
            while not go:
                await asyncio.sleep(0.5)
            for v in vals[before:]:
                box.post(v)
            await asyncio.sleep(5)

        r = loop.run(main())
        ctx.check(r[0] == "ok", "no exception", r)
        ctx.check(len(misses) == rounds, "gives up when told")
        ctx.same(got, vals, "every message once, in the order posted")
        ctx.check(not loop.errors, "no stray error", loop.errors)


@harness(P, quick=grid(n=[2]), thorough=grid(n=[4]))
def refused_receive(ctx, n):
    """A second receive that is refused takes nothing from the one that waits."""
    vals = [ctx.value(f"m{i}", "val") for i in range(ctx.size("messages", 1, n))]
    tries, idle = ctx.size("refused", 0, 2), ctx.size("idle", 0, 1)
    end = ctx.choose("then", ["post", "cancel the token", "cancel the receive"])
    src = CancellationTokenSource()
    with Loop() as loop:

        async def main():
            box = MailboxProcessor(src.token)
            first = loop.create_task(box.receive())
            await pause(1 + idle)
            for _ in range(tries):
                other = loop.create_task(box.receive())
                await pause(2)
                if not other.done() or other.cancelled() or other.exception() is None:
                    return None  # not refused: nothing is said about that
                await pause(idle)
            if first.done():
                return "ended", first.cancelled(), []
            if end == "cancel the token":
                src.cancel()
                box.post(vals[0])
                await pause(6)
                return "cancelled", first.done(), []
            if end == "cancel the receive":
                first.cancel()
                await pause(3)
                first = loop.create_task(box.receive())
                await pause(2)
            got = []
            for v in vals:
                box.post(v)
            await pause(3)
            if first.done():
                got.append(first.result())
                for _ in vals[1:]:
                    got.append(await asyncio.wait_for(box.receive(), 5))
            return "received", first.done(), got

        r = loop.run(main())
        ctx.check(r[0] == "ok", "no exception", r)
        if r[1] is not None:
            ctx.same(r[1], ("cancelled", True, []) if end == "cancel the token" else ("received", True, vals), "the receive that waited")


@harness(P, quick=[dict(per=[1], pre=2), dict(per=[2], pre=2), dict(per=[1, 1], pre=1)],
         thorough=[dict(per=[1], pre=4), dict(per=[2], pre=3), dict(per=[1, 1], pre=3), dict(per=[2, 1], pre=2)], cost=3)
def posting_threads(ctx, per, pre):
    """Other threads post while the loop thread receives."""
    with Patched(), Loop() as loop:
        got = []
        total = sum(per)
        work = ctx.size("work", 0, 1)

        async def body(box):
            while True:
                got.append(await box.receive())
                await pause(work)

        async def begin():
            return MailboxProcessor.start(body)

        box = loop.run(begin())[1]

        def looper():
            loop.run(until=lambda: len(finished) == len(per) and not loop.ready)

        finished = []

        def poster(t):
            def f():
                for i in range(per[t]):
                    box.post((t, i))
                finished.append(t)

            return f

        threads(ctx, pre, looper, *[poster(t) for t in range(len(per))])
        loop.run()
        ctx.check(len(got) == total, "every message of every thread is received once", got)
        for t in range(len(per)):
            ctx.check([i for u, i in got if u == t] == list(range(per[t])), "in the order its thread posted", got)
        ctx.check(not loop.errors, "no stray error", loop.errors)


@harness(P, quick=[dict(pre=2)], thorough=[dict(pre=3)], cost=2)
def threads_and_requests(ctx, pre):
    """A thread posts while a request with a reply is made on the loop thread."""
    with Patched(), Loop() as loop:
        got, out = [], []
        v = ctx.value("v", "val")

        async def body(box):
            while True:
                x, ch = await box.receive()
                got.append(x)
                if ch is not None:
                    ch.reply(v)

        async def begin():
            return MailboxProcessor.start(body)

        box = loop.run(begin())[1]
        finished = []

        async def ask():
            out.append(await box.post_and_async_reply(lambda ch: ("q", ch)))

        def looper():
            loop.run(ask(), until=lambda: len(finished) == 1)

        def poster():
            box.post(("t", None))
            finished.append(1)

        threads(ctx, pre, looper, poster)
        loop.run()
        ctx.check(sorted(got) == ["q", "t"], "both messages are received, once", got)
        ctx.check(len(out) == 1, "the request completes")
        ctx.same(out[0], v, "with its reply")


@harness(P, quick=[dict(sizes=[10, 100, 600, 2500])], thorough=[dict(sizes=[10, 100, 600, 2500, 20000])])
def bulk(ctx, sizes):
    """Many messages before the processor gets to receive any, and many more while it works."""
    n = ctx.choose("messages", sizes)
    x = ctx.int("x")
    reply = ctx.bool("with a request at the end")
    burst = ctx.choose("burst", [0, n])
    got = []
    with Loop() as loop:

        async def body(box):
            while True:
                m = await box.receive()
                if isinstance(m, tuple):
                    m[1].reply(len(got))
                    continue
                got.append(m)
                if len(got) == 1:
                    for i in range(burst):
                        box.post(-i)

        async def main():
            box = MailboxProcessor.start(body)
            for i in range(n):
                box.post(x if i == n // 2 else i)
            if reply:
                return await box.post_and_async_reply(lambda ch: ("ask", ch))
            return None

        out = loop.run(main(), limit=20 * (n + burst) + 1000)
        want = [x if i == n // 2 else i for i in range(n)]
        ctx.check(out[0] == "ok", "no exception", out)
        if reply:
            ctx.check(out[1] == n, "the request comes after the messages posted before it", (out, n))
            want = want + [-i for i in range(len(got) - n)]
        else:
            want = want + [-i for i in range(burst)]
        ctx.check(len(got) == len(want), "every message once", (len(got), len(want)))
        ctx.same(got, want, "every message once, in the order posted")
        ctx.check(not loop.errors, "no stray error", loop.errors)


@harness(P, quick=[dict(n=len(odd.ODD + odd.EXCEPTIONS + odd.LIBRARY + odd.BASE))], cost=2)
def any_payload(ctx, n):
    """Messages and replies of every kind, exceptions and awaitables included."""
    i = ctx.size("message", 0, n - 1)
    v = odd.ODD[i] if i < odd.N else (odd.EXCEPTIONS + odd.LIBRARY + odd.BASE)[i - odd.N]()
    as_ = ctx.choose("as", ["message", "reply", "both"])
    waits = ctx.bool("waits")
    got = []
    with Loop() as loop:

        async def body(box):
            while True:
                if waits:
                    await pause(1)
                m = await box.receive()
                got.append(m)
                if type(m) is dict and "reply to" in m:
                    m["reply to"].reply(v if as_ != "message" else 5)

        async def main():
            box = MailboxProcessor.start(body)
            box.post(1)
            if not waits:
                await pause(3)
            box.post(v if as_ != "reply" else 2)
            r = await box.post_and_async_reply(lambda ch: {"reply to": ch})
            box.post(v if as_ != "reply" else 3)
            await pause(6)
            return [r]

        r = loop.run(main())
        ctx.check(r[0] == "ok" and len(got) == 4, "every message once", (r, got))
        for g, w, lab in ((got[0], 1, "first"), (got[1], v if as_ != "reply" else 2, "second"), (got[3], v if as_ != "reply" else 3, "last")):
            ctx.check(g is w, f"the {lab} message is the one posted", (g, w))
        ctx.check(r[1][0] is (v if as_ != "message" else 5), "the reply is the one given", r[1])
        ctx.check(not loop.errors, "no stray error", loop.errors)
