"""C31: casts give the very object, or refuse it."""

from __future__ import annotations

import abc
import collections.abc
import typing

from expression import downcast, failwith, try_downcast, upcast
from expression.collections import Block

from ..registry import grid, harness
from . import odd

P = "C31"
BOUNDS = (
    "Any instance relation between an object and a type (an uninterpreted predicate answered by the type), any int, None, empty or "
    "nested payload and about 40 odd objects; classes over two levels of inheritance, virtual subclasses, tuples of them, and "
    "parametrised types (built-in, abstract, of the library, user-defined)."
)
OUTSIDE = "Unions, protocols that cannot be checked at run time, and running Python with assertions switched off."
ASSUMPTIONS: list[str] = []


def cast(ctx, t, x, yes, label):
    """All three, for an object that is (not) an instance of t."""
    r = odd.outcome(lambda: downcast(t, x))
    if yes:
        ctx.check(r[0] == "ok" and r[1] is x, f"downcast {label}: the object itself", r)
    else:
        ctx.check(r[0] == "raise" and isinstance(r[1], AssertionError), f"downcast {label}: refused", r)
    attempt(ctx, t, x, yes, label)


def attempt(ctx, t, x, yes, label):
    r = odd.outcome(lambda: try_downcast(t, x))
    ctx.check(r[0] == "ok" and r[1] is (x if yes else None), f"try_downcast {label}", r)
    r = odd.outcome(lambda: upcast(t, x))
    ctx.check(r[0] == "ok" and r[1] is x, f"upcast {label}", r)


@harness(P, quick=grid(n=[2]))
def any_relation(ctx, n):
    """The type answers as it likes; casts ask it, and nobody else."""
    asked = []

    class Meta(type):
        def __instancecheck__(cls, x):
            asked.append(x)
            return bool(answer)

    class T(metaclass=Meta):
        pass

    for i in range(n):
        answer = ctx.bool(f"instance{i}")
        x = ctx.value(f"x{i}", "deep") if ctx.bool(f"symbolic{i}") else odd.pick(ctx, f"odd{i}")
        cast(ctx, T, x, bool(answer), "by an arbitrary relation")
        ctx.check(len(asked) >= 2 and all(y is x for y in asked), "the type is asked about the object")
        asked.clear()


class Base:
    pass


class Derived(Base):
    pass


class Further(Derived):
    def __bool__(self):
        return False


class Other:
    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


class Virtual(abc.ABC):
    pass


Virtual.register(Derived)

TYPES = {"Base": Base, "Derived": Derived, "Further": Further, "Other": Other, "Virtual": Virtual, "object": object,
         "tuple": (Derived, Other), "int": int, "bool": bool, "Sized": collections.abc.Sized, "str": str, "type": type}
OBJECTS = {"Base": Base(), "Derived": Derived(), "Further": Further(), "Other": Other(), "class": Derived, "0": 0, "False": False, "True": True,
           "empty": "", "None": None, "list": [], "block": Block.empty(), "float": 1.0}


@harness(P)
def hierarchy(ctx):
    t, x = ctx.choose("type", list(TYPES)), ctx.choose("object", list(OBJECTS))
    yes = isinstance(OBJECTS[x], TYPES[t])
    cast(ctx, TYPES[t], OBJECTS[x], yes, f"{x} to {t}")


T1 = typing.TypeVar("T1")


class Box(typing.Generic[T1]):
    pass


class SubBox(Box[int]):
    def __len__(self):
        return 0


GENERIC = {"list": (list[int], list), "List": (typing.List[str], list), "dict": (dict[str, int], dict), "Block": (Block[int], Block),  # noqa: UP006
           "Box": (Box[str], Box), "Sequence": (collections.abc.Sequence[int], collections.abc.Sequence), "tuple": (tuple[int, ...], tuple),
           "nested": (list[list[int]], list)}


@harness(P)
def parametrised(ctx):
    """The parameters of a type do not matter; an instance is given back whatever it holds."""
    g = ctx.choose("type", list(GENERIC))
    t, origin = GENERIC[g]
    v = ctx.value("v", "val")
    xs = {"list": [v], "empty list": [], "dict": {"a": v}, "empty dict": {}, "Block": Block([v]), "empty Block": Block.empty(), "Box": Box(),
          "SubBox": SubBox(), "tuple": (v,), "empty tuple": (), "value": v, "None": None, "str": ""}
    x = xs[ctx.choose("object", list(xs))]
    attempt(ctx, t, x, isinstance(x, origin), f"to {g}")


@harness(P)
def failing(ctx):
    m = odd.pick(ctx, "message") if ctx.bool("odd") else ctx.value("m", "deep")
    r = odd.outcome(lambda: failwith(m))
    ctx.check(r[0] == "raise" and isinstance(r[1], Exception) and len(r[1].args) == 1 and r[1].args[0] is m, "failwith carries the message", r)
    ctx.check(r[1].__cause__ is None, "failwith has no cause")
