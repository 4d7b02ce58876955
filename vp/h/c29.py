"""C29: Option, Result and Block survive pydantic serialisation, and their payloads are validated."""

from __future__ import annotations

import datetime
import decimal
import enum
import json
import uuid
from dataclasses import dataclass
from typing import Annotated, Any, Literal, TypedDict

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block

from ..engine import Control
from ..pyd import adapter, BaseModel, ValidationError, dump_json, dump_python, validate_json, validate_python
from ..registry import grid, harness
from ..text import text
from pydantic import AfterValidator, Field

P = "C29"
BOUNDS = (
    "Types: int, str, bool, int > 0, a model with two fields, and Option, Result and Block of them, nested up to 2 deep (thorough: 3); "
    "values of these types with any ints, any strings of up to 1 character and blocks of up to 2 elements; JSON trees of up to "
    "2 levels (thorough: 3), right or wrong for the type at every position; objects with any subset of the keys tag, ok, error, and any of "
    "the tags ok, error and another; models with fields of these types, with and without defaults; text that means something in JSON or here (null, ok, "
    "tag); and, by running the real pydantic on values the solver picks from a table, 25 further payload types (floats, dates, enums, "
    "containers, dataclasses, typed dicts, models, unions) in 9 wrappings."
)
OUTSIDE = (
    "Options of types which themselves serialise to null (Option[Option[int]]: JSON cannot tell Some(Nothing) from "
    "Nothing); pydantic's lenient conversions (\"1\" for an int); aliases and "
    "model configuration; pydantic_core itself, of which the nodes these schemas use are modelled in vp/pyd.py."
)
ASSUMPTIONS = [
    "pydantic_core interprets a schema as vp/pyd.py does (checked by replaying models of passing paths, and every "
    "counterexample, on the real pydantic with JSON text)",
]


class Inner(BaseModel):
    a: int
    b: Option[int] = Nothing

    def __vp_shape__(self):
        return (self.a, self.b)


def bump(x):
    return x + 1


LEAVES = {"int": int, "str": str, "bool": bool, "pos": Annotated[int, Field(gt=0)], "model": Inner}
FEW = ["int", "str"]


def typ(ctx, name, depth, leaves, null=True):
    """A type: ("int",), ("option", t), ("block", t), ("result", t, e)."""
    k = ctx.choose(name, [*leaves, *((["option"] if null else []) + ["block", "result"] if depth else [])])
    return of_kind(ctx, name, k, depth, leaves)


def of_kind(ctx, name, k, depth, leaves):
    inner = leaves if depth == 1 else FEW
    if k == "option":
        return (k, typ(ctx, name + "o", depth - 1, inner, False))
    if k == "block":
        return (k, typ(ctx, name + "b", depth - 1, inner))
    if k == "result":
        if ctx.choose(name + " rich", ["ok", "error"]) == "ok":
            return (k, typ(ctx, name + "k", depth - 1, inner), typ(ctx, name + "e", 0, FEW))
        return (k, ("int",), typ(ctx, name + "e", depth - 1, inner))
    return (k,)


def py(t):
    if t[0] == "option":
        return Option[py(t[1])]
    if t[0] == "block":
        return Block[py(t[1])]
    if t[0] == "result":
        return Result[py(t[1]), py(t[2])]
    return LEAVES[t[0]]


def string(ctx, name):
    n = ctx.size(f"|{name}|", 0, 1)
    s = text(ctx, name, n)
    for c in getattr(s, "codes", None) or [ord(c) for c in s]:
        ctx.assume(ctx.or_(c < 0xD800, c > 0xDFFF))  # JSON text has no lone surrogates
    return s


def value(ctx, name, t, most=2):
    k = t[0]
    if k == "int":
        return ctx.int(name)
    if k == "pos":
        return ctx.int(name, lo=1)
    if k == "bool":
        return ctx.bool(name)
    if k == "str":
        return string(ctx, name)
    if k == "model":
        return Inner.model_construct(a=ctx.int(name + ".a"), b=Some(ctx.int(name + ".b")) if ctx.bool(name + ".some") else Nothing)
    if k == "option":
        return Some(value(ctx, name + ".s", t[1], most)) if ctx.bool(name + ".some") else Nothing
    if k == "result":
        return Ok(value(ctx, name + ".k", t[1], most)) if ctx.bool(name + ".ok") else Error(value(ctx, name + ".e", t[2], most))
    return Block([value(ctx, f"{name}.{i}", t[1], 1) for i in range(ctx.size(f"|{name}|", 0, most))])


def tree(t, v):
    """The JSON tree of a value, written out."""
    k = t[0]
    if k == "option":
        return None if v.tag == "none" else tree(t[1], v.some)
    if k == "result":
        return {"tag": "ok", "ok": tree(t[1], v.ok)} if v.tag == "ok" else {"tag": "error", "error": tree(t[2], v.error)}
    if k == "block":
        return [tree(t[1], x) for x in v]
    if k == "model":
        return {"a": v.a, "b": None if v.b.tag == "none" else v.b.some}
    return v


def attempt(ctx, f, label):
    """("ok", value) or ("rejected",); any other exception is a failure."""
    try:
        return ("ok", f())
    except ValidationError:
        return ("rejected",)
    except Control:
        raise
    except Exception as e:  # noqa: BLE001
        ctx.check(False, f"{label}: {type(e).__name__} instead of a validation error: {str(e)[:80]}")


def round_trip(ctx, t, v, label=""):
    T = py(t)
    j = dump_json(ctx, T, v)
    ctx.same(j, tree(t, v), f"{label}the JSON")
    ctx.same(attempt(ctx, lambda: validate_json(ctx, T, j), "JSON"), ("ok", v), f"{label}read back from JSON")
    d = dump_python(ctx, T, v)
    if t[0] != "model":
        ctx.same(d, tree(t, v), f"{label}the plain Python value")
    ctx.same(attempt(ctx, lambda: validate_python(ctx, T, d), "Python"), ("ok", v), f"{label}read back from plain Python values")
    ctx.same(attempt(ctx, lambda: validate_python(ctx, T, v), "instance"), ("ok", v), f"{label}a value of the type is accepted as it is")


KINDS = ["option", "block", "result"]


@harness(P, quick=grid(kind=KINDS, depth=[1, 2]), thorough=grid(kind=KINDS, depth=[1, 2, 3]), cost=3, validations=200)
def round_trips(ctx, kind, depth):
    t = of_kind(ctx, "T", kind, depth, list(LEAVES))
    round_trip(ctx, t, value(ctx, "v", t, 2 if depth < 3 else 1))


# ---- any JSON, right or wrong ---------------------------------------------

WRONG = ["null", "int", "text", "list", "empty object"]


def any_tree(ctx, name, t, depth):
    """(tree, what it denotes): ("ok", v), ("rejected",) or None for unspecified."""
    core = t[1] if t[0] == "option" else t
    k = ctx.choose(name, ["fits", *[w for w in WRONG if w != "int" or core[0] != "bool"]])
    if k == "fits":
        return fitting(ctx, name, t, depth)
    if k == "null":
        return None, ("ok", Nothing) if t[0] == "option" else ("rejected",)
    if t[0] == "option":
        t = t[1]
        some = lambda r: ("ok", Some(r[1])) if r and r[0] == "ok" else r  # noqa: E731
    else:
        some = lambda r: r  # noqa: E731
    if k == "int":
        x = ctx.int(name + ".i")
        if t[0] == "int":
            return x, some(("ok", x))
        if t[0] == "pos":
            return x, some(("ok", x)) if x > 0 else ("rejected",)
        return x, ("rejected",)
    if k == "text":
        x = ctx.choose(name + ".t", ["", "x", "ok"])
        return x, some(("ok", x)) if t[0] == "str" else ("rejected",)
    if k == "list":
        return [], some(("ok", Block())) if t[0] == "block" else ("rejected",)
    return {}, ("rejected",)


def fitting(ctx, name, t, depth):
    """A tree of the outer form of t, with any trees inside."""
    sub = any_tree if depth else lambda c, n, u, d: good(c, n, u)
    k = t[0]
    if k == "option":
        j, r = sub(ctx, name + ".s", t[1], depth - 1)
        if j is None:
            return j, ("ok", Nothing)
        return j, ("ok", Some(r[1])) if r and r[0] == "ok" else r
    if k == "block":
        js, rs = [], []
        for i in range(ctx.size(f"|{name}|", 0, 2)):
            j, r = sub(ctx, f"{name}.{i}", t[1], depth - 1) if i == 0 else good(ctx, f"{name}.{i}", t[1])
            js.append(j)
            rs.append(r)
        if any(r == ("rejected",) for r in rs):
            return js, ("rejected",)
        if any(r is None for r in rs):
            return js, None
        return js, ("ok", Block([r[1] for r in rs]))
    if k == "result":
        obj = {}
        tag = ctx.choose(name + ".tag", ["ok", "error", "other", "none"])
        if tag != "none":
            obj["tag"] = tag
        r = {}
        for key, u in (("ok", t[1]), ("error", t[2])):
            if ctx.bool(f"{name}.has {key}"):
                obj[key], r[key] = sub(ctx, f"{name}.{key}", u, depth - 1)
        if tag == "none":
            return obj, ("rejected",) if not r else None
        if tag not in r:
            return obj, ("rejected",)
        if len(r) == 2:
            return obj, None
        x = r[tag]
        return obj, ("ok", (Ok if tag == "ok" else Error)(x[1])) if x and x[0] == "ok" else x
    return good(ctx, name, t)


def good(ctx, name, t):
    v = value(ctx, name, t, 1)
    return tree(t, v), ("ok", v)


@harness(P, quick=grid(kind=KINDS, depth=[1]), thorough=grid(kind=KINDS, depth=[1, 2]), cost=3, validations=200)
def any_json(ctx, kind, depth):
    t = of_kind(ctx, "T", kind, depth, ["int", "str", "bool", "pos"])
    j, want = any_tree(ctx, "j", t, depth)
    got = attempt(ctx, lambda: validate_json(ctx, py(t), j), "JSON")
    if want is not None:
        ctx.same(got, want, "JSON")


@harness(P, quick=grid(kind=KINDS), validations=100)
def any_python(ctx, kind):
    """Plain Python values: also objects without a tag, and instances of the other types."""
    t = of_kind(ctx, "T", kind, 1, ["int", "str", "pos"])
    k = ctx.choose("input", ["tree", "untagged", "other type"])
    if k == "tree":
        j, want = any_tree(ctx, "j", t, 1)
        if isinstance(j, dict) and "tag" in j and j["tag"] not in j:
            return  # the tag is not required here
    elif k == "untagged":
        if kind != "result":
            return
        key = ctx.choose("key", ["ok", "error"])
        x, r = any_tree(ctx, "x", t[1 if key == "ok" else 2], 0)
        j = {key: x}
        want = r if r is None or r[0] != "ok" else ("ok", (Ok if key == "ok" else Error)(r[1]))
    else:
        j = ctx.choose("other", [Some(1), Nothing, Ok(1), Error("x"), Block([1]), Block(), (), object()])
        if isinstance(j, {"option": Option, "result": Result, "block": (Block, tuple)}[kind]):
            return
        want = ("rejected",)
    got = attempt(ctx, lambda: validate_python(ctx, py(t), j), "Python")
    if want is not None:
        ctx.same(got, want, "Python")


@harness(P, quick=grid(kind=KINDS))
def once(ctx, kind):
    """A payload passes through its own validators exactly once."""
    B = Annotated[int, AfterValidator(bump)]
    x, y = ctx.int("x"), ctx.int("y")
    T, js, want = {
        "option": (Option[B], [x], Some(x + 1)),
        "block": (Block[B], [[x, y]], Block([x + 1, y + 1])),
        "result": (Result[B, B], [{"tag": "ok", "ok": x}], Ok(x + 1)),
    }[kind]
    for j in js:
        ctx.same(attempt(ctx, lambda: validate_json(ctx, T, j), "JSON"), ("ok", want), "JSON")
        ctx.same(attempt(ctx, lambda: validate_python(ctx, T, j), "Python"), ("ok", want), "Python")
    if kind == "result":
        j = {"tag": "error", "error": y}
        ctx.same(attempt(ctx, lambda: validate_json(ctx, T, j), "JSON"), ("ok", Error(y + 1)), "JSON error")
        ctx.same(attempt(ctx, lambda: validate_python(ctx, T, j), "Python"), ("ok", Error(y + 1)), "Python error")


class Outer(BaseModel):
    one: Option[int]
    two: Option[str] = Nothing
    three: Block[Option[int]] = Block()
    four: Result[Annotated[int, Field(gt=0)], str] = Error("none")
    five: Option[Inner] = Nothing

    def __vp_shape__(self):
        return (self.one, self.two, self.three, self.four, self.five)


FIELDS = {"one": ("option", ("int",)), "two": ("option", ("str",)), "three": ("block", ("option", ("int",))),
          "four": ("result", ("pos",), ("str",)), "five": ("option", ("model",))}


@harness(P, validations=100, cost=2)
def models(ctx):
    """Fields of a model, given or left out, and a wrong one."""
    vals = {"one": Nothing, "two": Nothing, "three": Block(), "four": Error("none"), "five": Nothing}
    given = ["one", ctx.choose("field", [k for k in FIELDS if k != "one"])]
    for k in given:
        vals[k] = value(ctx, k, FIELDS[k], 2)
    m = Outer.model_construct(**vals)
    j = dump_json(ctx, Outer, m)
    full = {k: tree(FIELDS[k], v) for k, v in vals.items()}
    ctx.same(j, full, "the JSON of the model")
    ctx.same(attempt(ctx, lambda: validate_json(ctx, Outer, j), "JSON"), ("ok", m), "read back")
    short = {k: full[k] for k in given}
    ctx.same(attempt(ctx, lambda: validate_json(ctx, Outer, short), "JSON"), ("ok", m), "fields left out have their default")
    ctx.same(attempt(ctx, lambda: validate_python(ctx, Outer, short), "Python"), ("ok", m), "from plain Python values")
    bad = dict(short)
    bad[given[1]] = ctx.choose("bad", [[[]], {"tag": "ok"}, {"tag": "ok", "ok": 0}])
    ctx.same(attempt(ctx, lambda: validate_json(ctx, Outer, bad), "JSON"), ("rejected",), "a wrong field is rejected")
    ctx.same(attempt(ctx, lambda: validate_json(ctx, Outer, {given[1]: full[given[1]]}), "JSON"), ("rejected",), "a missing field is rejected")


@harness(P, quick=grid(kind=KINDS), validations=50)
def bare(ctx, kind):
    """Without type arguments any payload is taken as it is."""
    T = {"option": Option, "block": Block, "result": Result}[kind]
    x = ctx.choose("payload", ["int", "text", "list", "object"])
    x = {"int": lambda: ctx.int("x"), "text": lambda: string(ctx, "x"), "list": lambda: [ctx.int("x")], "object": lambda: {"k": ctx.int("x")}}[x]()
    v, j = {
        "option": lambda: (Some(x), x),
        "block": lambda: (Block([x, 1]), [x, 1]),
        "result": lambda: (Ok(x), {"tag": "ok", "ok": x}) if ctx.bool("ok") else (Error(x), {"tag": "error", "error": x}),
    }[kind]()
    ctx.same(dump_json(ctx, T, v), j, "the JSON")
    ctx.same(attempt(ctx, lambda: validate_json(ctx, T, j), "JSON"), ("ok", v), "read back")
    if kind == "option":
        ctx.same(dump_json(ctx, T, Nothing), None, "the JSON of Nothing")
        ctx.same(attempt(ctx, lambda: validate_json(ctx, T, None), "JSON"), ("ok", Nothing), "null")


WORDS = ["null", "None", "", " ", "some", "none", "ok", "error", "tag", "true", "1", "0", "[]", "{}", "Nothing", '""', "a\nb", "\u00e9\U0001f600"]


@harness(P, quick=grid(kind=KINDS), validations=60)
def words(ctx, kind):
    """Text that means something elsewhere is only text here."""
    t, v = ("str",), ctx.choose("text", WORDS)
    for k in (kind, ctx.choose("outer", ["", *KINDS])):
        if k == "option" and t[0] == "option" or not k:
            continue
        if k == "option":
            t, v = (k, t), Some(v)
        elif k == "block":
            t, v = (k, t), Block([v] * ctx.size(f"|{t[0]}|", 1, 2))
        elif ctx.bool(f"{t[0]} ok"):
            t, v = (k, t, ("str",)), Ok(v)
        else:
            t, v = (k, ("str",), t), Error(v)
    round_trip(ctx, t, v)


# ---- payloads of other types: the real pydantic, on each of these values ----


class Colour(enum.Enum):
    RED = "red"
    NULL = "null"
    NONE = None


class Level(enum.IntEnum):
    LOW = 0
    HIGH = 1


@dataclass
class Point:
    a: int
    b: str = ""


class Typed(TypedDict):
    x: int


class Tagged(BaseModel):
    tag: str = "ok"
    ok: int = 1
    error: int = 2


day = datetime.datetime(2020, 1, 2, 3, 4, 5)
PAYLOADS = {
    "float": (float, [0.0, 1.5, -2.0, 1e300]), "date": (datetime.date, [day.date()]),
    "datetime": (datetime.datetime, [day, day.replace(microsecond=7), day.replace(tzinfo=datetime.timezone.utc)]),
    "timedelta": (datetime.timedelta, [datetime.timedelta(0), datetime.timedelta(1, 2)]), "uuid": (uuid.UUID, [uuid.UUID(int=0), uuid.UUID(int=7)]),
    "enum": (Colour, [Colour.RED, Colour.NULL]), "int enum": (Level, list(Level)), "decimal": (decimal.Decimal, [decimal.Decimal("0.10"), decimal.Decimal(0)]),
    "bytes": (bytes, [b"", b"ab"]), "list": (list[int], [[], [0], [1, 2]]), "lists": (list[list[str]], [[[]], [["a"], []]]),
    "dict": (dict[str, int], [{}, {"ok": 1}, {"error": 1}, {"tag": 1, "ok": 2}, {"some": 0}]),
    "dict of str": (dict[str, str], [{"tag": "ok", "ok": "x"}, {"tag": "error", "error": "x"}, {"tag": "ok"}]), "tuple": (tuple[int, str], [(0, ""), (1, "a")]),
    "set": (set[int], [set(), {1}]), "frozenset": (frozenset[str], [frozenset({"a"}), frozenset()]), "union": (int | str, [1, "1", 0, ""]),
    "dataclass": (Point, [Point(0), Point(1, "x")]), "typed dict": (Typed, [{"x": 0}]), "model": (Tagged, [Tagged(), Tagged(tag="error", ok=0, error=0)]),
    "bool": (bool, [False, True]), "literal": (Literal["null", "ok", 0], ["null", "ok", 0]), "big int": (int, [2**70, -(2**70)]),
    "any": (Any, [0, "", [], {"ok": 1}, {"tag": "ok", "ok": 1}, {"tag": "error"}]), "block of bytes": (Block[bytes], [Block([b"a"]), Block()]),
}
WRAPS = {
    "option": lambda t, v: (Option[t], Some(v)), "ok": lambda t, v: (Result[t, str], Ok(v)), "error": lambda t, v: (Result[int, t], Error(v)),
    "block": lambda t, v: (Block[t], Block([v, v])), "block in option": lambda t, v: (Option[Block[t]], Some(Block([v]))),
    "option in block": lambda t, v: (Block[Option[t]], Block([Some(v), Nothing])), "option in result": lambda t, v: (Result[Option[t], int], Ok(Some(v))),
    "result in option": lambda t, v: (Option[Result[t, t]], Some(Error(v))), "result in block": lambda t, v: (Block[Result[t, t]], Block([Ok(v), Error(v)])),
}


@harness(P, quick=grid(wrap=list(WRAPS)), cost=2)
def payloads(ctx, wrap):
    t, vs = PAYLOADS[ctx.choose("payload type", list(PAYLOADS))]
    T, v = WRAPS[wrap](t, ctx.choose("payload", vs))
    a = adapter(T)
    ways = {"JSON": lambda: a.validate_json(a.dump_json(v)), "plain Python values": lambda: a.validate_python(a.dump_python(v)),
            "JSON by way of Python": lambda: a.validate_json(json.dumps(a.dump_python(v, mode="json"))), "a value of the type": lambda: a.validate_python(v)}
    for k, f in ways.items():
        r = attempt(ctx, f, k)
        ctx.check(r[0] == "ok", f"{k}: {wrap} of a payload of another type is rejected")
        ctx.check(r[1] == v and type(r[1]) is type(v), f"{k}: {wrap} of a payload of another type", (r[1], v))


@harness(P)
def through_containers(ctx):
    """Values of these types inside a list, dict or tuple inside one of them."""
    t, x = ctx.choose("payload", [(list[Option[int]], [Nothing, Some(0)]), (dict[str, Option[int]], {"a": Nothing, "b": Some(0)}),
                                  (tuple[Option[int], Result[int, str]], (Some(1), Error("")))])
    T, v = WRAPS[ctx.choose("wrap", ["option", "ok", "error", "block"])](t, x)
    a = adapter(T)
    ok = ctx.outcome(lambda: a.validate_json(a.dump_json(v)) == v)
    ctx.check(ok == ("ok", True), "an Option or Result in a list, dict or tuple in an Option, Result or Block does not survive JSON")
