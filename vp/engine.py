"""Symbolic execution of the real Python code in /repo, decided by z3.

The functions of the implementation are run by CPython itself, on *symbolic*
inputs: proxies holding z3 terms.  Whenever the code branches on a symbolic
value the engine asks z3 which outcomes are possible under the current path
condition and explores every possible one (depth-first, by re-execution).  User
callbacks are uninterpreted functions, so a verdict covers every pure callback.
At the end of each path one query asks z3 whether the path condition is
compatible with any checked assertion being false.

The same harness also runs in *concrete* mode: ordinary Python ints and
callbacks read from a z3 model.  That is how counterexamples are replayed
against the real code, without any proxy.
"""

from __future__ import annotations

import json
import signal
import sys
import time

import z3

# ----------------------------------------------------------------------------
# control flow of the engine: BaseException so that code under test which
# catches Exception does not swallow it


class Control(BaseException):
    """The last one made on this path is kept in RAISED, should something (an asyncio Task, say) catch it."""

    def __init__(self, *args):
        super().__init__(*args)
        RAISED[:] = [self]


RAISED: list = []


class Pruned(Control):
    """An assumption is false on this path."""


class CheckFailed(Control):
    """A check is false whatever the values (no need to go on)."""


class EngineError(Control):
    """The engine cannot go on (unknown, nondeterminism, ...)."""


class Budget(Control):
    """The exploration budget is used up."""


class Hang(Control):
    """One path ran for too long."""


class UserError(Exception):
    """The exception raised by symbolic user callbacks."""

    def __init__(self, code=0):
        super().__init__(code)
        self.code = code


class UserError2(Exception):
    """Another one, unrelated to the first."""

    def __init__(self, code=0):
        super().__init__(code)
        self.code = code


_CUR: "Ctx | None" = None


def cur() -> "Ctx":
    if _CUR is None:
        raise EngineError("no current context")
    return _CUR


# ----------------------------------------------------------------------------
# proxies


def _t(x):
    """z3 Int term of an int-like or None."""
    if type(x) is SymInt:
        return x.t
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def _pyfloordiv(a, b):
    # z3 integer division rounds so that the remainder is >= 0
    q = a / b
    r = a % b
    return z3.If(z3.And(b < 0, r != 0), q - 1, q)


def _pymod(a, b):
    r = a % b
    return z3.If(z3.And(b < 0, r != 0), r + b, r)


class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def _bin(self, o, f):
        u = _t(o)
        if u is None:
            return NotImplemented
        return SymInt(f(self.t, u))

    def _cmp(self, o, f):
        u = _t(o)
        if u is None:
            return NotImplemented
        return SymBool(f(self.t, u))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) and type(o) not in (SymInt, SymBool):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o) if _t(o) is None else self._bin(o, lambda a, b: b * a)

    def _div0(self, u):
        if cur().fork(u == 0):
            raise ZeroDivisionError("integer division or modulo by zero")

    def __floordiv__(self, o):
        u = _t(o)
        if u is None:
            return NotImplemented
        self._div0(u)
        return SymInt(_pyfloordiv(self.t, u))

    def __rfloordiv__(self, o):
        u = _t(o)
        if u is None:
            return NotImplemented
        self._div0(self.t)
        return SymInt(_pyfloordiv(u, self.t))

    def __mod__(self, o):
        u = _t(o)
        if u is None:
            return NotImplemented
        self._div0(u)
        return SymInt(_pymod(self.t, u))

    def __rmod__(self, o):
        u = _t(o)
        if u is None:
            return NotImplemented
        self._div0(self.t)
        return SymInt(_pymod(u, self.t))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t < 0, -self.t, self.t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return cur().hash_of(self.t)

    def __bool__(self):
        return cur().fork(self.t != 0)

    def __index__(self):
        return cur().concretise(self.t)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __str__(self):
        return cur().marker(self.t)

    __repr__ = __str__

    def __format__(self, spec):
        return format(cur().marker(self.t), "")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (cur().handle(self),))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().fork(self.t)

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.t == o.t)
        if o is True:
            return self
        if o is False:
            return SymBool(z3.Not(self.t))
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.t))

    def _log(self, o, f, g):
        if type(o) is SymBool:
            return SymBool(f(self.t, o.t))
        if o is True or o is False:
            return SymBool(f(self.t, z3.BoolVal(o)))
        return NotImplemented

    def __and__(self, o):
        return self._log(o, z3.And, None)

    __rand__ = __and__

    def __or__(self, o):
        return self._log(o, z3.Or, None)

    __ror__ = __or__

    def __xor__(self, o):
        return self._log(o, z3.Xor, None)

    __rxor__ = __xor__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (cur().handle(self),))


_HANDLES: dict[int, object] = {}


def _unpickle(i):
    return _HANDLES[i]


class Opaque:
    """Concrete stand-in for a value with its own equality and hash (replay)."""

    def __init__(self, ident, h):
        self.ident = ident
        self.h = h

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.ident == o.ident

    def __hash__(self):
        return self.h

    def __repr__(self):
        return f"Opaque({self.ident}, hash={self.h})"


class SymOpaque:
    """A value of unknown type: only equality and hash, both symbolic."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if type(o) is SymOpaque:
            return SymBool(self.t == o.t)
        return NotImplemented

    def __ne__(self, o):
        if type(o) is SymOpaque:
            return SymBool(self.t != o.t)
        return NotImplemented

    def __hash__(self):
        return cur().ufhash_of(self.t)

    def __str__(self):
        return cur().marker(self.t)

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_unpickle, (cur().handle(self),))


SYM = (SymInt, SymBool, SymOpaque)


# ----------------------------------------------------------------------------
# structure of values: signature and scalar leaves.  Only public surface.


def _expr():
    from expression import Option, Result
    from expression.collections import Block, Map, Seq
    from expression.collections.array import TypedArray

    return (Option, Result, Map, Block, Seq, TypedArray)


_K = None


def _kinds():
    global _K
    if _K is None:
        _K = _expr()
    return _K


def shape(v):
    """(signature, leaves): leaves are the scalar parts of v."""
    leaves: list = []
    sig = _shape(v, leaves)
    return sig, leaves


def _shape(v, out):
    ty = type(v)
    if ty is SymInt or ty is SymBool or ty is SymOpaque:
        out.append(v)
        return "o" if ty is SymOpaque else "i"
    if v is None:
        return "N"
    if ty in (bool, int):
        out.append(v)
        return "i"
    if ty is Opaque:
        out.append(v)
        return "o"
    if ty is str:
        if len(v) > 32:
            return "s" + repr(v)
        out.extend(ord(c) for c in v)
        return f"s{len(v)}"
    if ty is float:
        return "f" + repr(v)
    if isinstance(v, str):
        codes = getattr(v, "codes", None)
        if codes is None or len(codes) > 32:
            raise EngineError("symbolic text in a result")
        out.extend(codes)
        return f"s{len(v)}"
    if ty in (tuple, list):
        b = "()" if ty is tuple else "[]"
        return b[0] + ",".join(_shape(x, out) for x in v) + b[1]
    Option, Result, Map, Block, Seq, TA = _kinds()
    if isinstance(v, Option):
        if v.tag == "some":
            return "S{" + _shape(v.some, out) + "}"
        return "O-"
    if isinstance(v, Result):
        return v.tag + "{" + _shape(getattr(v, v.tag), out) + "}"
    if isinstance(v, Block):
        return "B[" + ",".join(_shape(x, out) for x in v) + "]"
    if isinstance(v, TA):
        return "A[" + ",".join(_shape(x, out) for x in v) + "]"
    if isinstance(v, Map):
        return "M[" + ",".join(_shape(x, out) for x in v.to_list()) + "]"
    if isinstance(v, Seq):
        return "Q[" + ",".join(_shape(x, out) for x in v) + "]"
    if isinstance(v, (UserError, UserError2)):
        out.append(v.code)
        return ty.__name__ + "i"
    if isinstance(v, BaseException):
        return "E" + ty.__name__
    if isinstance(v, dict):
        return "D{" + ",".join(_shape(k, out) + ":" + _shape(x, out) for k, x in v.items()) + "}"
    if ty.__name__ in ("builtin_function_or_method", "function", "type", "method"):
        return "fn" + getattr(v, "__qualname__", "?")
    tagf = getattr(v, "__vp_shape__", None)
    if tagf is not None:
        return ty.__name__ + "{" + _shape(tagf(), out) + "}"
    return f"?{ty.__module__}.{ty.__qualname__}"


# ----------------------------------------------------------------------------


class Decision:
    __slots__ = ("cond", "value", "other", "forced", "data", "pushed")

    def __init__(self, cond, value, other, forced, data=None):
        self.cond = cond  # z3 condition
        self.value = value  # outcome taken
        self.other = other  # alternative still to explore
        self.forced = forced  # only one outcome possible
        self.data = data
        self.pushed = False


class Ctx:
    """What a harness sees, in both modes."""

    symbolic = False

    calls = None  # while a list: the calls of functions made by fun and impure

    def __init__(self):
        self.names = {}
        self.checks = []
        self.labels = []
        self.assumed = 0

    # ---- inputs -----------------------------------------------------------
    def fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def int(self, name, lo=None, hi=None):
        raise NotImplementedError

    def size(self, name, lo, hi):
        """A symbolic size, in lo..hi, made concrete by forking."""
        return self.concretise_val(self.int(name, lo, hi))

    def choose(self, name, options):
        options = list(options)
        return options[self.size(name, 0, len(options) - 1)]

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    def list(self, name, lo, hi, spec="int"):
        n = self.size(f"|{name}|", lo, hi)
        return [self.value(f"{name}{i}", spec) for i in range(n)]

    def scalar(self, name, leaves, sort):
        raise NotImplementedError

    def value(self, name, spec="int"):
        name = self.fresh(name)
        return self._build(name, "", [], spec)

    # a value of the given spec, as a function of (sig, leaves)
    def _build(self, name, sig, leaves, spec):
        from expression import Error, Nothing, Ok, Some
        from expression.collections import Block

        s = lambda suffix, sort: self.scalar(f"{name}{suffix}", sig, leaves, sort)  # noqa: E731
        if spec == "int":
            return s("", "int")
        if spec == "bool":
            return s("", "bool")
        if spec == "opaque":
            return s("", "opaque")
        if spec == "none":
            return None
        if spec == "val":
            # None, an int (0 included): the values that code tends to confuse
            return None if bool(s(".isnone", "bool")) else s("", "int")
        if spec == "deep":
            k = self._small(s(".kind", "int"), 4)
            if k == 0:
                return s("", "int")
            if k == 1:
                return None
            if k == 2:
                return Nothing
            if k == 3:
                return Some(s("", "int"))
            return Error(s("", "int"))
        if spec == "wide":
            k = self._small(s(".kind", "int"), 5)
            if k == 0:
                return s("", "int")
            return [None, "", (), [], "x"][k - 1] if k < 5 else (s("", "int"),)
        if callable(spec):
            return spec(self, name, sig, leaves)
        k = spec[0]
        if k == "const":
            return spec[1]
        if k == "option":
            if bool(s(".some", "bool")):
                return Some(self._build(name, sig, leaves, spec[1]))
            return Nothing
        if k == "result":
            if bool(s(".ok", "bool")):
                return Ok(self._build(name, sig, leaves, spec[1]))
            return Error(self._build(name + ".err", sig, leaves, spec[2] if len(spec) > 2 else "int"))
        if k == "tuple":
            return tuple(self._build(f"{name}.{i}", sig, leaves, p) for i, p in enumerate(spec[1:]))
        if k in ("list", "block"):
            n = self._small(s(".len", "int"), spec[2])
            xs = [self._build(f"{name}.{i}", sig, leaves, spec[1]) for i in range(n)]
            return xs if k == "list" else Block(xs)
        if k == "raises":
            if bool(s(".raises", "bool")):
                raise UserError(s(".exc", "int"))
            return self._build(name, sig, leaves, spec[1])
        if k == "raises2":
            if bool(s(".raises", "bool")):
                if bool(s(".raises2", "bool")):
                    raise UserError2(s(".exc", "int"))
                raise UserError(s(".exc", "int"))
            return self._build(name, sig, leaves, spec[1])
        raise EngineError(f"bad spec {spec!r}")

    def _small(self, x, hi):
        """x mod (hi+1), as a concrete int, by forking."""
        for i in range(hi):
            if bool(x == i):
                return i
        return hi

    def fun(self, name, spec="int", log=None):
        """An arbitrary pure function (an uninterpreted function)."""
        name = self.fresh(name)

        def f(*args):
            sig, leaves = shape(args)
            if log is not None:
                log.append((name, args))
            if self.calls is not None:
                self.calls.append((name, args))
            return self._build(name, sig, leaves, spec)

        f.__name__ = f.__qualname__ = name
        return f

    def impure(self, name, spec="int", log=None):
        """An arbitrary stateful function: also a function of the call count."""
        name = self.fresh(name)
        n = 0

        def f(*args):
            nonlocal n
            sig, leaves = shape(args)
            if log is not None:
                log.append((name, args))
            if self.calls is not None:
                self.calls.append((name, args))
            n += 1
            return self._build(f"{name}@{n}", sig, leaves, spec)

        f.__name__ = f.__qualname__ = name
        return f

    # ---- assertions -------------------------------------------------------
    def all(self, *cs):
        r = True
        for c in cs:
            r = self.and_(r, c)
        return r

    def eq(self, a, b):
        """Structural equality, without the equality of the code under test."""
        sa, la = shape(a)
        sb, lb = shape(b)
        if sa != sb or len(la) != len(lb):
            return False
        r = True
        for x, y in zip(la, lb):
            r = self.and_(r, self.eq_leaf(x, y))
            if r is False:
                return False
        return r

    def same(self, a, b, label):
        c = self.eq(a, b)
        self.check(c, label, (a, b))

    def raises(self, exc, f, label):
        """f() raises exc, and nothing else."""
        try:
            r = f()
        except exc:
            return
        except Exception as e:  # noqa: BLE001
            self.check(False, f"{label}: raised {type(e).__name__}")
            return
        self.check(False, f"{label}: no exception", r)

    def outcome(self, f):
        """('ok', value) or ('raise', exception): for comparing two computations."""
        try:
            return ("ok", f())
        except Exception as e:  # noqa: BLE001
            return ("raise", e)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, ex: "Explorer"):
        super().__init__()
        self.ex = ex
        self.pos = 0
        self.hashed = []
        self.syntactic_hash = False  # equal terms only: when no dict or set is involved
        self.ufhashed = []
        self.known = {}

    # -- forks
    def fork(self, cond):
        return self.ex.fork(self, cond)

    def concretise(self, t):
        return self.ex.concretise(self, t)

    def concretise_val(self, x):
        return int(x)

    def hash_of(self, t):
        for u, tok in self.hashed:
            if u.eq(t):
                return tok
        for u, tok in self.hashed if not self.syntactic_hash else ():
            if self.fork(u == t):
                self.hashed.append((t, tok))
                return tok
        tok = 1_000_003 + 7919 * len(self.hashed)
        self.hashed.append((t, tok))
        return tok

    def ufhash_of(self, t):
        # hash is an arbitrary function of the identity: collisions are possible
        h = z3.Function("hash", z3.IntSort(), z3.IntSort())
        for u, tok in self.ufhashed:
            if u.eq(t):
                return tok
        for u, tok in self.ufhashed:
            if self.fork(h(u) == h(t)):
                self.ufhashed.append((t, tok))
                return tok
        tok = 2_000_003 + 7919 * len(self.ufhashed)
        self.ufhashed.append((t, tok))
        return tok

    def marker(self, t):
        return f"<sym:{t}>"

    def handle(self, x):
        i = len(_HANDLES)
        _HANDLES[i] = x
        return i

    def int(self, name, lo=None, hi=None):
        v = SymInt(z3.Int(self.fresh(name)))
        cs = []
        if lo is not None:
            cs.append(v.t >= lo)
        if hi is not None:
            cs.append(v.t <= hi)
        if cs:
            self.ex.assume_fact(self, z3.And(*cs))
        if self.ex.narrow and not (lo is not None and hi is not None):
            # fallback: only values in -2..3, made concrete by the solver
            self.ex.assume_fact(self, z3.And(v.t >= -2, v.t <= 3))
            return self.concretise(v.t)
        if self.ex.narrow and hi - lo > 12:
            some = sorted({max(lo, min(hi, x)) for x in (lo, -1, 0, 1, 2, hi)})
            self.ex.assume_fact(self, z3.Or(*[v.t == x for x in some]))
            return self.concretise(v.t)
        return v

    def bool(self, name):
        v = SymBool(z3.Bool(self.fresh(name)))
        return bool(v) if self.ex.narrow else v

    def scalar(self, name, sig, leaves, sort):
        rs = z3.BoolSort() if sort == "bool" else z3.IntSort()
        if leaves or sig:
            f = z3.Function(f"{name}:{sig}", *([z3.IntSort()] * len(leaves)), rs)
            t = f(*[_t(x) if type(x) is not SymOpaque else x.t for x in leaves])
        else:
            t = z3.Const(name, rs)
        if sort == "bool":
            return SymBool(t) if not self.ex.narrow else self.fork(t)
        if sort == "opaque":
            return SymOpaque(t)
        if self.ex.narrow:
            self.ex.assume_fact(self, z3.And(t >= -2, t <= 3))
            return self.concretise(t)
        return SymInt(t)

    # -- logic
    def and_(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return SymBool(z3.And(_b(a), _b(b)))

    def or_(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return SymBool(z3.Or(_b(a), _b(b)))

    def not_(self, a):
        if a is True or a is False:
            return not a
        return SymBool(z3.Not(_b(a)))

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return SymInt(z3.If(_b(c), _t(a), _t(b)))

    def eq_leaf(self, x, y):
        if type(x) is SymOpaque or type(y) is SymOpaque:
            return SymBool(x.t == y.t)
        if type(x) in SYM or type(y) in SYM:
            tx, ty = _t(x), _t(y)
            if tx.eq(ty):
                return True
            return SymBool(tx == ty)
        return x == y

    def assume(self, c):
        if c is True:
            return
        if c is False or not self.ex.assume(self, z3.simplify(_b(c))):
            raise Pruned()

    def check(self, c, label, info=None):
        self.ex.nchecks += 1
        if c is True:
            return
        if c is False:
            self.labels.append(label)
            self.checks.append((z3.BoolVal(False), label))
            raise CheckFailed(label)
        self.checks.append((_b(c), label))

    def holds(self, c):
        """Branch of the oracle on a symbolic condition."""
        return bool(c)


def _b(x):
    if type(x) is SymBool:
        return x.t
    if type(x) is SymInt:
        return x.t != 0
    return z3.BoolVal(bool(x))


class ConcCtx(Ctx):
    """Concrete run: values from a table (or from a model, recorded)."""

    def __init__(self, table, model=None):
        super().__init__()
        self.table = table
        self.model = model
        self.failed = []

    def look(self, key, mk):
        if key in self.table:
            return self.table[key]
        v = 0
        if self.model is not None:
            m = self.model.eval(mk(), model_completion=True)
            if z3.is_int_value(m):
                v = m.as_long()
            elif z3.is_true(m) or z3.is_false(m):
                v = 1 if z3.is_true(m) else 0
        self.table[key] = v
        return v

    def fork(self, c):
        raise EngineError("fork in concrete mode")

    def concretise_val(self, x):
        return x

    def int(self, name, lo=None, hi=None):
        n = self.fresh(name)
        v = self.look(n, lambda: z3.Int(n))
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        return v

    def bool(self, name):
        n = self.fresh(name)
        return bool(self.look(n, lambda: z3.Bool(n)))

    def scalar(self, name, sig, leaves, sort):
        args = [x.ident if type(x) is Opaque else int(x) for x in leaves]
        rs = z3.BoolSort() if sort == "bool" else z3.IntSort()

        def mk():
            if args or sig:
                f = z3.Function(f"{name}:{sig}", *([z3.IntSort()] * len(args)), rs)
                return f(*[z3.IntVal(a) for a in args])
            return z3.Const(name, rs)

        v = self.look(f"{name}:{sig}({','.join(map(str, args))})", mk)
        if sort == "bool":
            return bool(v)
        if sort == "opaque":
            h = self.look(
                f"hash({v})", lambda: z3.Function("hash", z3.IntSort(), z3.IntSort())(z3.IntVal(v))
            )
            return Opaque(v, h)
        return v

    def and_(self, a, b):
        return bool(a) and bool(b)

    def or_(self, a, b):
        return bool(a) or bool(b)

    def not_(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def eq_leaf(self, x, y):
        return x == y

    def assume(self, c):
        if not c:
            raise Pruned()

    def check(self, c, label, info=None):
        if not c:
            d = ""
            if info is not None:
                try:
                    d = f" got/expected: {info!r}"[:600]
                except Exception:  # noqa: BLE001
                    d = ""
            self.failed.append(label + d)
            raise CheckFailed(label)

    def holds(self, c):
        return bool(c)


# ----------------------------------------------------------------------------


class Counterexample:
    def __init__(self, label, table, path):
        self.label = label
        self.table = table
        self.path = path


class Explorer:
    """Depth-first exploration of all paths of one harness."""

    def __init__(self, harness, *, max_paths=200000, deadline=None, narrow=False, path_timeout=30.0,
                 cross=0, max_cex=1, validations=16):
        self.harness = harness
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.trace: list[Decision] = []
        self.level = 0
        self.model = None
        self.stats = dict(paths=0, pruned=0, forks=0, queries=0, solver_s=0.0, final_queries=0,
                          trivially_true=0, sat=0, unsat=0, unknown=0, facts=0, cross_queries=0)
        self.nchecks = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.narrow = narrow
        self.path_timeout = path_timeout
        self.complete = True
        self.cexs: list[Counterexample] = []
        self.max_cex = max_cex
        self.cross = cross
        self.validations = validations
        self.cross_fail = []
        self.witness = None
        self.history: list[dict] = []
        self.labels: dict[str, int] = {}
        self.in_solver = False

    # ---- solver -----------------------------------------------------------
    def query(self, *extra):
        if self.deadline and time.monotonic() > self.deadline:
            raise Budget()
        t0 = time.perf_counter()
        self.in_solver = True
        r = self.solver.check(*extra)
        self.in_solver = False
        self.stats["solver_s"] += time.perf_counter() - t0
        self.stats["queries"] += 1
        self.stats["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        if r == z3.unknown:
            raise EngineError(f"solver: unknown ({self.solver.reason_unknown()})")
        return r == z3.sat

    def get_model(self):
        if self.model is None:
            if not self.query():
                raise EngineError("path condition unsatisfiable")
            self.model = self.solver.model()
        return self.model

    def push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    def assume_fact(self, ctx, cond):
        """A range of a fresh input: never excludes a path, so not a fork."""
        if ctx.pos < len(self.trace):
            d = self.trace[ctx.pos]
            if not (d.data == "fact" and d.cond.eq(cond)):
                raise EngineError("nondeterministic replay (fact)")
            ctx.pos += 1
            return
        d = Decision(cond, True, False, False, "fact")
        self.trace.append(d)
        ctx.pos += 1
        self.push(cond)
        d.pushed = True
        self.stats["facts"] += 1
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def assume(self, ctx, cond):
        """A precondition: paths where it is false are outside the property."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if ctx.pos < len(self.trace):
            d = self.trace[ctx.pos]
            if not (d.data == "fact" and d.cond.eq(cond)):
                raise EngineError("nondeterministic replay (assume)")
            ctx.pos += 1
            return True
        ok = self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True))
        if not ok:
            if not self.query(cond):
                return False
            self.model = self.solver.model()
        d = Decision(cond, True, False, False, "fact")
        self.trace.append(d)
        ctx.pos += 1
        self.push(cond)
        d.pushed = True
        self.stats["facts"] += 1
        return True

    def fork(self, ctx, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if z3.is_not(cond):
            return not self._fork(ctx, cond.arg(0))
        return self._fork(ctx, cond)

    def _fork(self, ctx, cond):
        k = ctx.known.get(cond.get_id())
        if k is not None:
            return k[1]
        v = self._decide(ctx, cond)
        ctx.known[cond.get_id()] = (cond, v)
        return v

    def _decide(self, ctx, cond):
        if ctx.pos < len(self.trace):
            d = self.trace[ctx.pos]
            if d.data == "fact" or not d.cond.eq(cond):
                raise EngineError(f"nondeterministic replay: {d.cond} / {cond}")
            ctx.pos += 1
            return d.value
        neg = z3.Not(cond)
        m = self.get_model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        other = self.query(neg if v else cond)
        omodel = self.solver.model() if other else None
        if other and not v:
            # always take True first: shorter loops in lookups, deterministic
            v = True
            self.model = omodel
        d = Decision(cond, v, other, not other)
        self.trace.append(d)
        ctx.pos += 1
        if other:
            self.stats["forks"] += 1
            self.push(cond if v else neg)
            d.pushed = True
        return v

    def concretise(self, ctx, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        n = 0
        while True:
            n += 1
            if n > 200:
                raise EngineError(f"a symbolic int is used as a machine int without bounds: {t}")
            if ctx.pos < len(self.trace):
                d = self.trace[ctx.pos]
                if not (isinstance(d.data, tuple) and d.data[0].eq(t)):
                    raise EngineError("nondeterministic replay (concretise)")
                ctx.pos += 1
                if d.value:
                    return d.data[1]
                continue
            m = self.get_model()
            v = m.eval(t, model_completion=True).as_long()
            cond = t == v
            other = self.query(z3.Not(cond))
            d = Decision(cond, True, other, not other, (t, v))
            self.trace.append(d)
            ctx.pos += 1
            if other:
                self.stats["forks"] += 1
                self.push(cond)
                d.pushed = True
            return v

    def backtrack(self):
        while self.trace:
            d = self.trace[-1]
            if d.pushed:
                self.solver.pop()
                d.pushed = False
            if d.other:
                d.other = False
                d.value = not d.value
                self.push(d.cond if d.value else z3.Not(d.cond))
                d.pushed = True
                self.model = None
                return True
            self.trace.pop()
        return False

    # ---- the run ----------------------------------------------------------
    def run(self):
        global _CUR
        t0 = time.monotonic()
        err = None

        def on_alarm(sig, frame):
            if self.in_solver:
                signal.setitimer(signal.ITIMER_REAL, 1.0)
                return
            raise Hang()

        old = signal.signal(signal.SIGALRM, on_alarm)
        try:
            while True:
                ctx = SymCtx(self)
                _CUR = ctx
                _HANDLES.clear()
                RAISED.clear()
                exc = None
                signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
                try:
                    self.harness(ctx)
                    if RAISED:
                        raise RAISED[0]
                except Pruned:
                    self.stats["pruned"] += 1
                    exc = "pruned"
                except CheckFailed:
                    pass
                except Budget:
                    self.complete = False
                    break
                except EngineError as e:
                    err = str(e)
                    break
                except Hang:
                    exc = "the code under test does not terminate (path timeout)"
                except Exception as e:  # noqa: BLE001
                    import traceback

                    tb = traceback.extract_tb(e.__traceback__)
                    where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:])
                    exc = f"unexpected {type(e).__name__}: {str(e)[:120]} [{where}]"
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                self.stats["paths"] += 1
                if exc != "pruned":
                    try:
                        self.finish(ctx, exc)
                    except Budget:
                        self.complete = False
                        break
                    except EngineError as e:
                        err = str(e)
                        break
                if len(self.cexs) >= self.max_cex:
                    self.complete = False
                    break
                if self.stats["paths"] >= self.max_paths:
                    self.complete = self.complete and not self.backtrack()
                    break
                if not self.backtrack():
                    break
        finally:
            signal.signal(signal.SIGALRM, old)
            _CUR = None
        self.stats["wall_s"] = time.monotonic() - t0
        self.stats["checks"] = self.nchecks
        return err

    def finish(self, ctx, exc):
        global _CUR
        conds = [c for c, _ in ctx.checks]
        for _, lab in ctx.checks:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if exc is not None:
            # the path is feasible: any model of it is a counterexample
            self.get_model()
            self.record(self.model, exc)
            return
        conds = [s for s in (z3.simplify(c) for c in conds) if not z3.is_true(s)]
        if not conds:
            self.stats["trivially_true"] += 1
            self.validate()
            return
        neg = z3.Not(z3.And(*conds)) if len(conds) > 1 else z3.Not(conds[0])
        self.stats["final_queries"] += 1
        if self.cross and self.stats["cross_queries"] < self.cross:
            self.cross_check(neg)
        if self.query(neg):
            m = self.solver.model()
            lab = next((lab for c, lab in ctx.checks if z3.is_false(m.eval(c, model_completion=True))), "?")
            self.record(m, lab)
        else:
            self.validate()

    def validate(self):
        """Replay a model of this (passing) path on plain values: it has to pass too."""
        n = self.stats["paths"]
        if n > self.validations and (self.narrow or n & (n - 1)):
            return
        r = run_concrete(self.harness, {}, self.get_model(), label="validation of a passing path")
        self.stats["validated"] = self.stats.get("validated", 0) + 1
        self.history.append(r.table)
        if self.witness is None:
            self.witness = {k: v for k, v in list(r.table.items())[:12]}
        if r.violated:
            self.cexs.append(r)

    def record(self, model, label):
        global _CUR
        self.cexs.append(run_concrete(self.harness, {}, model, label=label))

    def cross_check(self, neg):
        """The same final query, given to cvc5 as SMT-LIB text."""
        self.solver.push()
        self.solver.add(neg)
        txt = self.solver.to_smt2()
        r = self.solver.check()
        self.solver.pop()
        self.stats["cross_queries"] += 1
        try:
            c = cvc5_check(txt)
        except Exception as e:  # noqa: BLE001
            c = f"error {e}"
        if c in ("sat", "unsat") and c != str(r):
            self.cross_fail.append((str(r), c))
        elif c not in ("sat", "unsat"):
            self.stats["cross_unknown"] = self.stats.get("cross_unknown", 0) + 1


def cvc5_check(txt, tlimit=5000):
    import cvc5

    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setOption("tlimit-per", str(tlimit))
    p = cvc5.InputParser(s)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
    sm = p.getSymbolManager()
    out = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        r = str(c.invoke(s, sm)).strip()
        if r in ("sat", "unsat", "unknown"):
            out = r
    return out


class ConcResult:
    def __init__(self):
        self.violated = False
        self.label = None
        self.table = {}
        self.sym_label = None


def run_concrete(harness, table, model=None, label=None, timeout=20.0):
    """Run the harness on plain values; the real code, no proxy."""
    global _CUR
    res = ConcResult()
    res.sym_label = label
    ctx = ConcCtx(table, model)
    saved, _CUR = _CUR, None

    def on_alarm(sig, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    oldt = signal.setitimer(signal.ITIMER_REAL, timeout)
    RAISED.clear()
    try:
        harness(ctx)
        if RAISED:
            raise RAISED[0]
    except CheckFailed:
        res.violated, res.label = True, ctx.failed[-1]
    except Pruned:
        pass
    except Hang:
        res.violated, res.label = True, "the code under test does not terminate"
    except EngineError as e:
        res.label = f"engine: {e}"
    except Exception as e:  # noqa: BLE001
        import traceback

        res.violated = True
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:])
        res.label = f"unexpected {type(e).__name__}: {str(e)[:200]} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        _CUR = saved
    res.table = ctx.table
    return res
