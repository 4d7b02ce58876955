"""Values that code tends to mistake for something else; a payload must pass through every operation as it is."""

from __future__ import annotations

import asyncio
import functools
import typing

from expression import EffectError, Error, Nothing, Ok, Some, TailCall
from expression.collections import Block, Map, Seq
from expression.system.error import ObjectDisposedException, OperationCanceledError

from ..engine import Control


class AlwaysEqual:
    """Equal to everything (None included), false when tested."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False

    def __hash__(self):
        return 1

    def __repr__(self):
        return "AlwaysEqual()"


class NeverEqual:
    """Equal to nothing, itself included."""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = object.__hash__

    def __repr__(self):
        return "NeverEqual()"


class Touchy:
    """Cannot be tested, compared, hashed, iterated or measured."""

    def _no(self, *_):
        raise TypeError("touched")

    __bool__ = __eq__ = __ne__ = __lt__ = __hash__ = __iter__ = __len__ = __call__ = _no

    def __repr__(self):
        return "Touchy()"


class Sub(int):
    pass


class Waitable:
    """Can be awaited, and passes for a future; nobody should."""

    _asyncio_future_blocking = False

    def __await__(self):
        return "awaited"
        yield

    def __repr__(self):
        return "Waitable()"


class Impostor:
    """Has the attributes of an option and of a result."""

    tag = "none"
    none = some = ok = error = value = None

    def is_none(self):
        return True

    is_error = is_none

    def is_some(self):
        return False

    is_ok = is_some

    def to_seq(self):
        return []

    def __repr__(self):
        return "Impostor()"


class Answering:
    """Has every attribute there is (but the special ones, and a plain form)."""

    def __getattr__(self, name):
        if name.startswith("__") or name in ("dict", "model_dump"):
            raise AttributeError(name)
        return lambda *a, **kw: self

    def __repr__(self):
        return "Answering()"


class Elementwise:
    """Comparing gives something that is neither true nor false."""

    def _answer(self, *_):
        return self

    def __bool__(self):
        raise ValueError("neither true nor false")

    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = _answer

    __hash__ = None

    def __repr__(self):
        return "Elementwise()"


class Named(typing.NamedTuple):
    some: int = 1
    tag: str = "some"


class Context:
    """Can be entered and left; nobody should."""

    def __enter__(self):
        return None

    def __exit__(self, *_):
        return True

    def __repr__(self):
        return "Context()"


async def _stream():
    yield 1


def odd():
    """Fresh values, all different objects."""
    return [
        0, False, 0.0, float("nan"), None, "", "x", "error", b"", (), (1, 2), [], [1, 2], {}, {"ok": 1}, set(),
        Nothing, Some(None), Some(Nothing), Some(Some(0)), Ok(None), Error(None), Error(Error(0)), Ok(Ok(0)),
        Ok(Error(0)), Error(Ok(0)), Error(Nothing), Block.empty(), Block.of(1, 2), Map.empty(), Seq([]), Seq([1, 2]),
        AlwaysEqual(), NeverEqual(), Touchy(), Sub(3), ValueError("payload"), StopIteration(5), StopIteration(),
        ValueError, int, len, lambda: 1, Ellipsis, NotImplemented, object(), Waitable(), Impostor(), Context(),
        iter([1, 2]), map(str, [1]), range(2), _stream(), bytearray(b"ab"), {1: 2}.items(), Map.of(a=1), frozenset([1]),
        Answering(), Elementwise(), Named(), TailCall(1), 2**70, 1j, typing.List[int],  # noqa: UP006
    ]


ODD = odd()
N = len(ODD)


def pick(ctx, name):
    return ODD[ctx.size(name, 0, N - 1)]


def is_(ctx, got, want, label):
    ctx.check(got is want, label, (got, want))


def holds(ctx, r, tag, v, label):
    """r is the case `tag`, with the very object v as its payload."""
    ctx.check(type(r).__name__ in ("Option", "Result") and r.tag == tag and getattr(r, tag) is v, label, (r, tag, v))


class Wrapping(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Same(Exception):
    """Equal to every exception."""

    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


def _caused():
    e = KeyError("outer")
    e.__cause__ = ValueError("cause")
    return e


def _context():
    e = IndexError("outer")
    e.__context__ = ValueError("context")
    return e


def _noted():
    e = ArithmeticError("noted")
    e.add_note("a note")
    return e


# exceptions that code tends to give a meaning of its own; all but the last few are Exceptions
EXCEPTIONS = [
    ValueError, KeyError, IndexError, LookupError, TypeError, AttributeError, RuntimeError, NotImplementedError,
    ZeroDivisionError, AssertionError, RecursionError, OSError, TimeoutError, EOFError, StopAsyncIteration, Wrapping,
    Falsy, Same, _caused, _context, _noted, lambda: KeyError(), lambda: ValueError(Ok(1)), lambda: KeyError(Nothing),
    lambda: RuntimeError(Error(1)), lambda: TypeError(Some(1)), lambda: LookupError(Error(Nothing)), lambda: RuntimeError(None),
    lambda: ExceptionGroup("several", [ValueError(1), KeyError(2)]), lambda: ExceptionGroup("one", [ValueError(1)]),
    lambda: ExceptionGroup("nested", [ExceptionGroup("inner", [KeyError(1)])]), asyncio.InvalidStateError, asyncio.QueueEmpty,
]
BASE = [KeyboardInterrupt, SystemExit, asyncio.CancelledError, GeneratorExit]
STOP = [StopIteration, lambda: StopIteration(5)]


# the library's own; inside a computation expression an EffectError has a meaning
LIBRARY = [ObjectDisposedException, OperationCanceledError, EffectError, lambda: EffectError(Nothing),
           lambda: EffectError(Error(1)), lambda: EffectError(Some(1)), lambda: EffectError(None)]


def some_exception(ctx, name="exception", base=True, stop=False, effects=True):
    pool = EXCEPTIONS + LIBRARY[: None if effects else 2] + (BASE if base else []) + (STOP if stop else [])
    return pool[ctx.size(name, 0, len(pool) - 1)]()


# -- callables of every shape


class FalseCall:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **kw):
        return self.f(*a, **kw)

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


def _container(kind, *content):
    def make(f):
        class C(kind):
            def __call__(self, *a, **kw):
                return f(*a, **kw)

        return C(*content)

    return make


def _method(f):
    class C:
        def m(self, *a, **kw):
            return f(*a, **kw)

    return C().m


def _class(f):
    class C:
        def __new__(cls, *a, **kw):
            return f(*a, **kw)

    return C


def _wrapped(f):
    def g(*a, **kw):
        return f(*a, **kw)

    g.__wrapped__ = len
    g.__name__ = "g"
    return g


def _defaults(f):
    return lambda *a, _unused=None, **kw: f(*a, **kw)


SHAPES = [FalseCall, _container(list), _container(list, [len]), _container(tuple, (len, len)), _container(dict), _container(str, "f"),
          _container(int, 0), _container(Exception, "e"), functools.partial, _method, _class, _wrapped, _defaults]


def plain(f):
    return f


def shape(ctx, name="shape"):
    """A way of making a callable of a function."""
    i = ctx.size(name, 0, len(SHAPES))
    return SHAPES[i - 1] if i else plain


def exception_or_shape(ctx, **kw):
    """An exception of any kind raised by a plain function, or a plain exception raised by a callable of any shape."""
    if ctx.bool("plain"):
        return some_exception(ctx, **kw), plain
    return ValueError("x"), SHAPES[ctx.size("shape", 0, len(SHAPES) - 1)]


def outcome(f):
    """('ok', value) or ('raise', exception), BaseExceptions included."""
    try:
        return ("ok", f())
    except Control:
        raise
    except BaseException as e:  # noqa: BLE001
        return ("raise", e)


def passes(ctx, f, e, label):
    """f() raises exactly e, unchanged."""
    cause, context, notes, args = e.__cause__, e.__context__, list(getattr(e, "__notes__", [])), e.args
    r = outcome(f)
    ctx.check(r[0] == "raise" and r[1] is e, label, (r, e))
    ctx.check(e.__cause__ is cause and list(getattr(e, "__notes__", [])) == notes and e.args is args, label + ": unchanged")
