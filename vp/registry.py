"""Harnesses by property."""

from __future__ import annotations

import importlib

HARNESSES: list = []


class Task:
    def __init__(self, prop, name, fn, kw, opts):
        self.prop = prop
        self.fn = fn
        self.kw = kw
        self.opts = opts
        self.name = name + (("[" + ",".join(f"{k}={v}" for k, v in kw.items()) + "]") if kw else "")

    def __call__(self, ctx):
        return self.fn(ctx, **self.kw)


def harness(prop, quick=None, thorough=None, **opts):
    """Register a harness: `quick`/`thorough` are lists of keyword arguments (bounds)."""

    def deco(fn):
        q = [{}] if quick is None else list(quick)
        t = q if thorough is None else list(thorough)
        HARNESSES.append((prop, fn.__name__, fn, q, t, opts))
        return fn

    return deco


def grid(**kw):
    """All combinations of keyword values."""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def load(prop):
    HARNESSES.clear()
    m = importlib.import_module(f"vp.h.{prop.lower()}")
    # a property may also be decided by harnesses of other properties' modules
    for other, names in getattr(m, "ALSO", {}).items():
        importlib.import_module(f"vp.h.{other.lower()}")
        mine = [(prop, f"{n}", fn, q, t, o) for p, n, fn, q, t, o in HARNESSES if p == other.upper() and n in names]
        assert {x[1] for x in mine} == set(names), (other, names)
        HARNESSES.extend(mine)


def tasks(prop, tier):
    out = []
    for p, name, fn, q, t, opts in HARNESSES:
        if p == prop:
            for kw in q if tier == "quick" else t:
                out.append(Task(p, name, fn, kw, opts))
    return out
