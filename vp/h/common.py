"""Helpers shared by harnesses."""

from __future__ import annotations

import asyncio


def both(ctx, label, expected, *fs):
    """Every spelling of an operation has the outcome of the reference (value or exception)."""
    e = ctx.outcome(expected)
    for i, f in enumerate(fs):
        ctx.same(ctx.outcome(f), e, f"{label} (spelling {i})")


def exact(ctx, label, expected, *fs):
    """Every spelling of an operation has the outcome of the reference, by the same calls of functions in the same order."""
    e, want = traced(ctx, expected)
    for i, f in enumerate(fs):
        r, got = traced(ctx, f)
        ctx.same(r, e, f"{label} (spelling {i})")
        ctx.same(got, want, f"{label} (spelling {i}): calls")


def traced(ctx, f):
    """The outcome of f() and the calls it made of functions of ctx."""
    old, ctx.calls = ctx.calls, []
    try:
        return ctx.outcome(f), ctx.calls
    finally:
        ctx.calls = old


def iff(ctx, got, want, label):
    """Two truth values (symbolic or not) agree."""
    ctx.check(ctx.eq_leaf(got, want), label, (got, want))


def opt(ctx, name, spec="deep"):
    return ctx.value(name, ("option", spec))


def res(ctx, name, spec="deep", espec="deep"):
    return ctx.value(name, ("result", spec, espec))


def drive(coro):
    """Run a coroutine that never suspends on a real event; returns its value."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("coroutine suspended")


def run_loop(coro):
    """Run a coroutine on a fresh asyncio loop."""
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()
