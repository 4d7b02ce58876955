"""Symbolic text: a string whose characters are z3 integers (code points)."""

from __future__ import annotations

from .engine import EngineError, cur

HOLE = "\ue0f0"  # what C code that does not see the proxy would see


def _refuse(name):
    def f(self, *a, **k):
        raise EngineError(f"symbolic text: str.{name} is not encoded")

    return f


_RANGES = {}


def _ranges(name):
    """The ranges of code points whose character is of a class of str."""
    if name not in _RANGES:
        test, out, lo = getattr(str, name), [], None
        for c in range(0x110000):
            if test(chr(c)):
                lo = c if lo is None else lo
            elif lo is not None:
                out.append((lo, c - 1))
                lo = None
        _RANGES[name] = out + ([(lo, 0x10FFFF)] if lo is not None else [])
    return _RANGES[name]


def _within(c, ranges):
    if type(c) is int:
        return any(lo <= c <= hi for lo, hi in ranges)
    r = False
    for lo, hi in ranges:
        r = cur().or_(r, cur().eq_leaf(c, lo) if lo == hi else cur().and_(c >= lo, c <= hi))
    return r


class SymStr(str):
    """A string of known length and symbolic characters."""

    __slots__ = ("codes",)

    def __new__(cls, codes):
        s = str.__new__(cls, HOLE * len(codes))
        s.codes = tuple(codes)
        return s

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.codes[i])
        return SymStr((self.codes[i],))

    def __iter__(self):
        return iter([SymStr((c,)) for c in self.codes])

    def _eq(self, o):
        if not isinstance(o, str):
            return NotImplemented
        other = o.codes if isinstance(o, SymStr) else [ord(c) for c in o]
        if len(other) != len(self.codes):
            return False
        r = True
        for a, b in zip(self.codes, other):
            r = cur().and_(r, cur().eq_leaf(a, b))
        return r

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        r = self._eq(o)
        return r if r is NotImplemented else cur().not_(r)

    def startswith(self, prefix, start=0, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        part = self.codes[start:end][: len(prefix)]
        return bool(SymStr(part)._eq(prefix))

    def __contains__(self, x):
        n = len(x)
        return any(bool(SymStr(self.codes[i : i + n])._eq(x)) for i in range(len(self.codes) - n + 1))

    def _in(self, chars):
        r = True
        for c in self.codes:
            one = False
            for x in chars:
                one = cur().or_(one, cur().eq_leaf(c, ord(x)))
            r = cur().and_(r, one)
        return bool(r) and len(self.codes) > 0

    def _class(self, name):
        """Like str.isdigit and so on, of texts whose characters are judged one by one."""
        r = bool(self.codes)
        for c in self.codes:
            r = cur().and_(r, _within(c, _ranges(name)))
        return bool(r)

    def _before(self, o, strict):
        if not isinstance(o, str):
            return NotImplemented
        other = o.codes if isinstance(o, SymStr) else [ord(c) for c in o]
        for a, b in zip(self.codes, other):
            if bool(cur().eq_leaf(a, b)):
                continue
            return bool(a < b)
        return len(self.codes) < len(other) or (not strict and len(self.codes) == len(other))

    def __lt__(self, o):
        return self._before(o, True)

    def __le__(self, o):
        return self._before(o, False)

    def __gt__(self, o):
        r = self._before(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._before(o, True)
        return r if r is NotImplemented else not r

    def isdigit(self):
        return self._class("isdigit")

    def isdecimal(self):
        return self._class("isdecimal")

    def isnumeric(self):
        return self._class("isnumeric")

    def isalpha(self):
        return self._class("isalpha")

    def isalnum(self):
        return self._class("isalnum")

    def isspace(self):
        return self._class("isspace")

    def isprintable(self):
        return not self.codes or self._class("isprintable")

    def isascii(self):
        return not self.codes or self._class("isascii")

    def islower(self):
        return self._class("islower") if len(self.codes) == 1 else _refuse("islower")(self)

    def isupper(self):
        return self._class("isupper") if len(self.codes) == 1 else _refuse("isupper")(self)

    def __format__(self, spec):
        return f"<text {len(self.codes)}>"

    def __str__(self):
        return self

    def __repr__(self):
        return f"<text {[str(c) if type(c) is not int else chr(c) for c in self.codes]}>"

    def __hash__(self):
        raise EngineError("symbolic text: hash is not encoded")

    def __deepcopy__(self, memo):
        return self


for _n in dir(str):
    if _n.startswith("__") and _n not in ("__add__", "__radd__", "__mul__", "__lt__", "__le__", "__gt__", "__ge__", "__mod__"):
        continue
    if _n in SymStr.__dict__:
        continue
    setattr(SymStr, _n, _refuse(_n))


def text(ctx, name, n, narrow="ab-1.0 "):
    """A string of length n of arbitrary characters."""
    codes = [ctx.int(f"{name}[{i}]", 0, 0x10FFFF) for i in range(n)]
    if not ctx.symbolic:
        return "".join(chr(c) for c in codes)
    if ctx.ex.narrow:
        out = ""
        for c in codes:
            for x in narrow:
                if bool(c == ord(x)):
                    out += x
                    break
            else:
                ctx.assume(c == ord("~"))
                out += "~"
        return out
    return SymStr(codes)


def code_at(ctx, s, i):
    """Code point of a character of s, for the reference."""
    return s.codes[i] if isinstance(s, SymStr) else ord(s[i])


def same_text(ctx, a, b):
    """Condition: two texts are equal, without their own equality."""
    if len(a) != len(b):
        return False
    r = True
    for i in range(len(a)):
        r = ctx.and_(r, ctx.eq_leaf(code_at(ctx, a, i), code_at(ctx, b, i)))
    return r


__all__ = ["SymStr", "code_at", "same_text", "text"]
