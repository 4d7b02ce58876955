"""Lets symbolic numbers into the module under test's array.array and bytearray.

Both are C types, which take machine numbers only.  `install` has to run before
the module is imported: it gives the module subclasses of the two which, only
while `on` is set, make a `Store` or a `Bytes` instead.  Off, they make the real
thing.
"""

from __future__ import annotations

import array as stdlib_array
import builtins
from collections.abc import MutableSequence

REAL_ARRAY = stdlib_array.array
REAL_BYTES = builtins.bytearray
RANGE = dict(b=(-128, 127), B=(0, 255))
for _c in "hilq":
    _n = 8 * REAL_ARRAY(_c).itemsize
    RANGE[_c], RANGE[_c.upper()] = (-(1 << _n - 1), (1 << _n - 1) - 1), (0, (1 << _n) - 1)

on = False


class Store(MutableSequence):
    """A sequence of numbers in a range, as array.array and bytearray are."""

    error = OverflowError

    def __init__(self, typecode, items=()):
        if typecode not in RANGE and typecode not in "fd":
            raise ValueError("bad typecode (must be b, B, u, h, H, i, I, l, L, q, Q, f or d)")
        self.typecode = typecode
        self.items = [self._fit(x) for x in items]

    def _fit(self, x):
        if self.typecode in RANGE:
            lo, hi = RANGE[self.typecode]
            if not (x >= lo and x <= hi):
                raise self.error("out of range")
            return x + 0
        return float(x)

    def _new(self, items):
        return type(self)(self.typecode, items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, k):
        return self._new(self.items[k]) if isinstance(k, slice) else self.items[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if not isinstance(v, Store):
                raise TypeError("can only assign array")
            self.items[k] = v.items
        else:
            self.items[k] = self._fit(v)

    def __delitem__(self, k):
        del self.items[k]

    def insert(self, i, v):
        self.items.insert(i, self._fit(v))

    def tolist(self):
        return list(self.items)

    def __add__(self, o):
        return self._new(self.items + o.items)

    def __mul__(self, n):
        return self._new(self.items * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Store) and self.items == o.items

    def copy(self):
        return self._new(self.items)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def fromlist(self, xs):
        self.items += [self._fit(x) for x in xs]


class Bytes(Store):
    error = ValueError

    def __init__(self, *a):
        a = a[1:] if len(a) == 2 else a
        super().__init__("B", *a)


class _Meta(type):
    def __instancecheck__(cls, o):
        if cls is ArrayHook:
            return isinstance(o, REAL_ARRAY) or type(o) is Store
        return isinstance(o, REAL_BYTES) or type(o) is Bytes


class ArrayHook(REAL_ARRAY, metaclass=_Meta):
    def __new__(cls, *a):
        return Store(*a) if on else REAL_ARRAY(*a)


class BytesHook(REAL_BYTES, metaclass=_Meta):
    def __new__(cls, *a, **k):
        if on and len(a) == 1 and not k and not isinstance(a[0], (int, bytes, REAL_BYTES)):
            return Bytes(*a)
        return REAL_BYTES(*a, **k)


ArrayHook.__name__ = ArrayHook.__qualname__ = "array"
BytesHook.__name__ = BytesHook.__qualname__ = "bytearray"


def install():
    """Import the module with the hooks in place."""
    stdlib_array.array = stdlib_array.ArrayType = ArrayHook
    builtins.bytearray = BytesHook
    try:
        import expression.collections.array as module
    finally:
        builtins.bytearray = REAL_BYTES
        stdlib_array.array = stdlib_array.ArrayType = REAL_ARRAY
    if not hasattr(module, "bytearray"):
        module.bytearray = BytesHook

    class Module:  # what the module's own import of `array` gives it
        array = ArrayType = ArrayHook
        typecodes = stdlib_array.typecodes

    for k, v in list(vars(module).items()):
        if v is stdlib_array:
            setattr(module, k, Module)
    return module


class switch:
    """Within this block the module keeps numbers in Store and Bytes."""

    def __init__(self, use):
        self.use = use

    def __enter__(self):
        global on
        on = self.use

    def __exit__(self, *e):
        global on
        on = False
