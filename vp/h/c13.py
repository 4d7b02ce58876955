"""C13: tagged unions."""

from __future__ import annotations

import copy
import dataclasses
import pickle
from decimal import Decimal
from fractions import Fraction

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success, Try, case, tag, tagged_union

from ..registry import grid, harness
from . import generic, odd
from .common import iff

P = "C13"
BOUNDS = (
    "Unions of 1 to 4 cases (some harnesses: 7 and 20) in every combination of frozen and ordered, with and without a tag field (case names "
    "that are prefixes of each other included), a subclass, and Option, Result and Try; payloads any int, None, "
    "empty values, tuples, nested options, or values with arbitrary equality and hash; every subset of up to 3 "
    "keyword arguments, with every tag argument. Payloads of about 60 kinds, pairs of near-equal payloads of "
    "different types, payloads whose own operators raise or that cannot be ordered or hashed."
)
OUTSIDE = "Other case names and more cases; payloads that cannot be copied or pickled."
ASSUMPTIONS = ["payloads that are compared have consistent ==, < and hash"]

NAMES = ["a", "ab", "value", "b", "Z", "c10", "c9", "name", "kind", "x_", "A", "zz", "y", "index", "d", "e", "g", "aa", "B2", "f"]


def make(n, frozen, order, tagged, doc=""):
    names = NAMES[:n]
    ns = {"__module__": __name__}
    ann = {}
    if tagged:
        ann["tag"] = "str"
        ns["tag"] = tag()
    for x in names:
        ann[x] = "object"
        ns[x] = case()
    name = f"U{n}{'f' if frozen else ''}{'o' if order else ''}{'t' if tagged else ''}{doc}"
    ns["__annotations__"] = ann
    ns["__qualname__"] = name
    cls = tagged_union(frozen=frozen, order=order)(type(name, (), ns))
    globals()[name] = cls
    return cls


ALL = [(make(n, f, o, t), NAMES[:n], f, o, t) for n in (1, 2, 3, 4) for f in (False, True) for o in (False, True)
       for t in (False, True)] + [(make(n, f, True, True), NAMES[:n], f, True, True) for n in (7, 20) for f in (False, True)]
TWIN = make(3, True, True, True, "twin")


class Sub(U3fot):  # noqa: F821
    pass


MODELS = {
    "opt": (Option, ["none", "some"], True, True),
    "res": (Result, ["ok", "error"], True, True),
    "try": (Try, ["ok", "error"], True, True),
    "sub": (Sub, NAMES[:3], True, True),
}
for _c, _n, _f, _o, _t in ALL:
    MODELS[_c.__name__] = (_c, _n, _f, _o)


def some_case(ctx, cls, names, name, spec):
    c = ctx.choose(f"case of {name}", names)
    v = None if (cls is Option and c == "none") else ctx.value(name, spec)
    return c, v, cls(**{c: v})


def is_case(ctx, u, cls, names, c, v, label):
    """u is exactly case c with payload v."""
    ctx.check(type(u) is cls, f"{label}: type", type(u).__name__)
    ctx.same(u.tag, c, f"{label}: tag")
    ctx.same(getattr(u, c), v, f"{label}: payload")
    for x in names:
        if x != c:
            ctx.raises(Exception, lambda x=x: getattr(u, x), f"{label}: reading another case")
    d = {f.name for f in dataclasses.fields(u)}
    ctx.check(c in d and not (d & set(names)) - {c}, f"{label}: fields of another case", sorted(d))


SMALL = ["U1f", "U2fot", "U3", "U4fot", "U4o", "U7fot", "opt", "res", "try", "sub"]
EVERY = list(MODELS)


@harness(P, quick=grid(u=EVERY))
def construct(ctx, u):
    cls, names, *_ = MODELS[u]
    c = ctx.choose("case", names)
    v = None if (cls is Option and c == "none") else ctx.value("v", "wide")
    t = ctx.choose("tag argument", ["absent", "same"])
    kw = {c: v}
    if t == "same":
        kw = {"tag": c, c: v} if ctx.bool("tag first") else {c: v, "tag": c}
    is_case(ctx, cls(**kw), cls, names, c, v, "constructed")


@harness(P, quick=grid(u=SMALL, k=[2]), thorough=grid(u=EVERY, k=[3]), cost=3)
def construct_wrong(ctx, u, k):
    """Anything but exactly one declared case is refused."""
    cls, names, *_ = MODELS[u]
    pool = names + ["nope", "_index", "tags"]
    k = ctx.size("number of cases", 0, k)
    ks = [ctx.choose(f"case{i}", pool) for i in range(k)]
    t = ctx.choose("tag", [None, "nope"] + names)
    kw = {}
    for i, x in enumerate(ks):
        kw[x] = ctx.value(f"v{i}", "val" if i < 2 else "int")
    distinct = list(kw)
    if t is not None:
        kw["tag"] = t
    good = len(distinct) == 1 and distinct[0] in names and (t is None or t == distinct[0])
    if good:
        is_case(ctx, cls(**kw), cls, names, distinct[0], kw[distinct[0]], "constructed")
    else:
        ctx.raises(TypeError, lambda: cls(**kw), f"construction from {sorted(distinct)} with tag {t}")
    ctx.raises(TypeError, lambda: cls(1), "positional construction")


@harness(P, quick=grid(u=SMALL, spec=["val", "opaque"]), thorough=grid(u=EVERY, spec=["val", "deep", "opaque"]))
def equality(ctx, u, spec):
    cls, names, frozen, order = MODELS[u]
    c1, v1, x = some_case(ctx, cls, names, "x", spec)
    c2, v2, y = some_case(ctx, cls, names, "y", spec)
    want = ctx.and_(c1 == c2, ctx.eq(v1, v2))
    iff(ctx, x == y, want, "equal exactly if case and payload are")
    iff(ctx, y == x, want, "equality is symmetric")
    iff(ctx, x != y, ctx.not_(want), "!= is the negation of ==")
    iff(ctx, x == x, True, "reflexive")
    iff(ctx, x == cls(**{c1: v1}), True, "equal to a value constructed in the same way")
    for o in (v1, None, (c1, v1), c1):
        if not isinstance(o, cls):
            iff(ctx, x == o, False, "not equal to a value of another type")
    if frozen:
        h = hash(x) == hash(y)
        ctx.check(ctx.or_(ctx.not_(want), h), "equal values have equal hashes")
        ctx.check(hash(x) == hash(cls(**{c1: v1})), "hash of a value constructed in the same way")


@harness(P)
def other_unions(ctx):
    """Values of different unions are never equal, even with the same cases and payloads."""
    pool = [U3fot, TWIN, U3ft, U4fot, U2fot]  # noqa: F821
    a, b = ctx.choose("first", pool), ctx.choose("second", pool)
    c = ctx.choose("case", NAMES[:2])
    v = ctx.value("v", "val")
    x, y = a(**{c: v}), b(**{c: v})
    iff(ctx, x == y, a is b, "equality of values of two unions")
    iff(ctx, Some(v) == Ok(v), False, "Some and Ok")
    iff(ctx, Ok(v) == Error(v), False, "Ok and Error")
    iff(ctx, Success(v) == Failure(v), False, "Success and Failure")
    iff(ctx, Nothing == Some(v), False, "Nothing and Some")
    iff(ctx, Some(v) == Some(Some(v)), False, "nesting matters")


@harness(P, quick=grid(u=["U2fot", "U3o", "U4fo", "U4ot", "U7fot", "U20fot", "U20ot", "opt", "res", "try", "sub"]))
def ordering(ctx, u):
    cls, names, frozen, order = MODELS[u]
    c1, v1, x = some_case(ctx, cls, names, "x", "int")
    c2, v2, y = some_case(ctx, cls, names, "y", "int")
    i, j = names.index(c1), names.index(c2)
    if i != j:
        want = i < j
    elif v1 is None:
        want = False
    else:
        want = v1 < v2
    gt = j < i if i != j else (False if v1 is None else v2 < v1)
    iff(ctx, x < y, want, "<")
    iff(ctx, y > x, want, "> of the converse")
    iff(ctx, x > y, gt, ">")
    ctx.raises(TypeError, lambda: x < 1, "no order with other types")
    ctx.raises(TypeError, lambda: x < TWIN(a=v1), "no order with other unions")


@harness(P, quick=grid(u=["U2fot", "opt", "res", "sub"], n=[3]), thorough=grid(u=["U2fot", "U4fo", "opt", "res", "sub", "try"], n=[4]))
def sorting(ctx, u, n):
    """The order is total: sorting puts any values in order of (case, payload)."""
    cls, names, frozen, order = MODELS[u]
    xs = [some_case(ctx, cls, names, f"x{i}", "int") for i in range(n)]
    r = sorted(x for _, _, x in xs)
    ks = [(names.index(x.tag), getattr(x, x.tag)) for x in r]
    for p, q in zip(ks, ks[1:]):
        ctx.check(p[0] <= q[0], "cases in declaration order")
        if p[0] == q[0] and p[1] is not None:
            ctx.check(p[1] <= q[1], "payloads in order")


@harness(P, quick=grid(u=[k for k in EVERY if MODELS[k][2]]))
def frozen_(ctx, u):
    cls, names, *_ = MODELS[u]
    c, v, x = some_case(ctx, cls, names, "x", "wide")
    f = ctx.choose("field", names + ["tag"])
    w = ctx.value("w", "val")
    ctx.raises(Exception, lambda: setattr(x, f, w), f"assignment to a field of a frozen union")
    ctx.raises(Exception, lambda: delattr(x, f), f"deletion of a field of a frozen union")
    is_case(ctx, x, cls, names, c, v, "after a refused change")
    iff(ctx, x == cls(**{c: v}), True, "equality after a refused change")


@harness(P, quick=grid(u=EVERY))
def copies(ctx, u):
    cls, names, *_ = MODELS[u]
    c, v, x = some_case(ctx, cls, names, "x", "wide")
    for lab, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda z: pickle.loads(pickle.dumps(z))),
                   ("pickle 2", lambda z: pickle.loads(pickle.dumps(z, protocol=2))),
                   ("copy of a copy", lambda z: copy.copy(copy.deepcopy(z)))):
        y = f(x)
        is_case(ctx, y, cls, names, c, v, lab)
        iff(ctx, x == y, True, f"{lab} is equal")
        iff(ctx, y == x, True, f"{lab} is equal, the other way")
        if MODELS[u][2] and type(v) is not list:
            ctx.check(hash(x) == hash(y), f"{lab} has the same hash")
        if MODELS[u][3] and v is None:
            iff(ctx, x < y, False, f"{lab} is not smaller")
        if MODELS[u][2]:
            ctx.raises(Exception, lambda: setattr(y, c, 1), f"a {lab} is frozen too")
    is_case(ctx, x, cls, names, c, v, "original after copying")


@harness(P, quick=grid(u=SMALL))
def nested_copies(ctx, u):
    """Deep copies share nothing that can change; unions nested in unions are copied and compared as values."""
    cls, names, *_ = MODELS[u]
    c = ctx.choose("case", [n for n in names if n != "none"])
    inner = [ctx.int("e")]
    x = cls(**{c: inner})
    d, s = copy.deepcopy(x), copy.copy(x)
    inner.append(1)
    ctx.same(len(getattr(d, c)), 1, "a deep copy does not share its payload")
    ctx.check(getattr(s, c) is inner, "a shallow copy shares its payload")
    n = cls(**{c: cls(**{c: ctx.value("v", "val")})})
    for f in (copy.copy, copy.deepcopy, lambda z: pickle.loads(pickle.dumps(z))):
        m = f(n)
        iff(ctx, m == n, True, "copy of a nested union")
        ctx.check(type(getattr(m, c)) is cls, "type of the nested union")
        ctx.same(getattr(getattr(m, c), c), getattr(getattr(n, c), c), "payload of the nested union")
    iff(ctx, n == getattr(n, c), False, "a union is not equal to its payload")


@harness(P, quick=grid(u=SMALL))
def deep_copies(ctx, u):
    """A deep copy shares nothing that can change, however deep it lies, and keeps what is shared inside shared."""
    cls, names, *_ = MODELS[u]
    c = ctx.choose("case", [n for n in names if n != "none"])
    k = ctx.int("k")
    inner = [k]
    where = ctx.choose("where", ["list", "dict", "tuple", "union", "list in union", "object"])
    payload = {
        "list": lambda: [inner],
        "dict": lambda: {"k": inner},
        "tuple": lambda: (0, inner),
        "union": lambda: cls(**{c: inner}),
        "list in union": lambda: cls(**{c: [inner]}),
        "object": lambda: Holder(inner),
    }[where]()
    x = cls(**{c: payload})

    def reach(y):
        p = getattr(y, c)
        return {
            "list": lambda: p[0],
            "dict": lambda: p["k"],
            "tuple": lambda: p[1],
            "union": lambda: getattr(p, c),
            "list in union": lambda: getattr(p, c)[0],
            "object": lambda: p.inner,
        }[where]()

    d = copy.deepcopy(x)
    s = copy.copy(x)
    e = pickle.loads(pickle.dumps(x))
    inner.append(1)
    for lab, y in (("deep copy", d), ("unpickled copy", e)):
        ctx.check(type(y) is cls, f"type of a {lab}")
        ctx.same(reach(y), [k], f"a {lab} has a payload of its own, {where}")
    ctx.check(reach(s) is inner, "a shallow copy shares its payload")
    both = copy.deepcopy([x, inner, x])
    ctx.check(reach(both[0]) is both[1] and both[1] is not inner, "what is shared stays shared in a deep copy")
    if where == "list":
        loop = []
        z = cls(**{c: loop})
        loop.append(z)
        y = copy.deepcopy(z)
        ctx.check(getattr(getattr(y, c)[0], c) is getattr(y, c), "a deep copy of a payload that refers back")
        ctx.check(getattr(y, c) is not loop, "a deep copy of a payload that refers back shares nothing")


class Holder:
    def __init__(self, inner):
        self.inner = inner


@harness(P)
def matching(ctx):
    """match statements select the one case that is there, with its payload."""
    c = ctx.choose("case", NAMES[:3])
    v = ctx.value("v", "wide")
    for U in (U3fot, U3ft, U4t, Sub):  # noqa: F821
        x = U(**{c: v})
        match x:
            case U(tag="a", a=p):
                r = ("a", p)
            case U(tag="ab", ab=p):
                r = ("ab", p)
            case U(tag="value", value=p):
                r = ("value", p)
            case _:
                r = None
        ctx.same(r, (c, v), "match by tag and case")
        match x:
            case U(b=p) if U is U4t:  # noqa: F821
                r = ("b", p)
            case U(value=p):
                r = ("value", p)
            case U(ab=p):
                r = ("ab", p)
            case U(a=p):
                r = ("a", p)
            case _:
                r = None
        ctx.same(r, (c, v), "match by case")
        match x:
            case U("ab"):
                r = "ab"
            case U("a"):
                r = "a"
            case U("value"):
                r = "value"
            case _:
                r = None
        ctx.same(r, c, "match by position")
    y = U3fo(**{c: v})  # noqa: F821
    match y:
        case U3fo(a=p):  # noqa: F821
            r = ("a", p)
        case U3fo(ab=p):  # noqa: F821
            r = ("ab", p)
        case U3fo(value=p):  # noqa: F821
            r = ("value", p)
        case _:
            r = None
    ctx.same(r, (c, v), "match by case, without a tag field")


@harness(P)
def match_builtins(ctx):
    o = ctx.value("o", ("option", "deep"))
    match o:
        case Option(tag="some", some=x):
            ctx.check(o.is_some() is True, "matches Some")
            ctx.same(x, o.value, "payload of Some")
        case Option(tag="none"):
            ctx.check(o.is_none() is True, "matches Nothing")
        case _:
            ctx.check(False, "an option is Some or Nothing")
    r = ctx.value("r", ("result", "deep", "deep"))
    match r:
        case Result(error=e):
            ctx.check(r.is_error() is True, "matches Error")
            ctx.same(e, r.error, "payload of Error")
        case Result(ok=v):
            ctx.check(r.is_ok() is True, "matches Ok")
            ctx.same(v, r.ok, "payload of Ok")
        case _:
            ctx.check(False, "a result is Ok or Error")
    for a, b in ((Success(1), Try), (Failure(ValueError()), Try), (Ok(1), Result), (Some(1), Option)):
        ctx.check(type(a) is b, "type of a constructor's value")


@harness(P)
def dicts(ctx):
    """dataclasses.asdict of a union has the tag and the active case only."""
    c = ctx.choose("case", NAMES[:3])
    v = ctx.value("v", "wide")
    ctx.same(sorted(dataclasses.asdict(U3fot(**{c: v})).items()), sorted({"tag": c, c: v}.items()), "asdict")  # noqa: F821
    ctx.same(dataclasses.asdict(U3f(**{c: v})), {c: v}, "asdict without a tag field")  # noqa: F821


@harness(P)
def hooks(ctx):
    """A union with methods, static constructors and an initialiser of its own."""

    @tagged_union
    class Shape:
        tag: str = tag()
        side: int = case()
        pair: tuple = case()

        def __init__(self):
            self.seen = self.tag

        def area(self):
            match self:
                case Shape(tag="side", side=s):
                    return s * s
                case Shape(tag="pair", pair=(a, b)):
                    return a * b

        @staticmethod
        def Side(x):
            return Shape(side=x)

    a, b = ctx.int("a"), ctx.int("b")
    ctx.same(Shape.Side(a).area(), a * a, "method on one case")
    ctx.same(Shape(pair=(a, b)).area(), a * b, "method on the other case")
    ctx.same(Shape(pair=(a, b)).seen, "pair", "the initialiser runs after the case is set")
    x = Shape(side=a)
    x.side = b
    ctx.same((x.tag, x.side), ("side", b), "a union that is not frozen can be assigned to")
    iff(ctx, x == Shape(side=b), True, "equality after assignment")


class Text(str):
    pass


class Pair(tuple):
    pass


# values that are equal (or ordered) although their types differ
MIXED = [0, 0.0, -0.0, False, Decimal(0), Fraction(0), 0j, odd.Sub(0), 1, 1.0, True, Decimal(1), Fraction(1), 1 + 0j,
         odd.Sub(1), Fraction(1, 2), 0.5, Decimal("0.5"), "", Text(""), "a", Text("a"), b"a", (), Pair(()), (1,), (1.0,),
         Pair((True,)), frozenset(), frozenset([1]), frozenset([1.0]), 2**70, float(2**70), Some(1), Some(1.0), Ok(1), Ok(True),
         Error(0), Error(False), Nothing, None]


@harness(P, quick=grid(u=SMALL), thorough=grid(u=EVERY))
def equal_payloads(ctx, u):
    """Payloads of different types: equality, hash and order of the values go by theirs."""
    cls, names, frozen, order = MODELS[u]
    c = names[-1]
    i = ctx.size("first", 0, len(MIXED) - 1)
    v = MIXED[i]
    x = cls(**{c: v})
    for w in MIXED:
        y = cls(**{c: w})
        lab = f"{v!r} and {w!r}"
        ctx.check((x == y) is (v == w), f"equal exactly if the payloads are: {lab}")
        ctx.check((x != y) is (v != w), f"unequal exactly if the payloads are: {lab}")
        if frozen and v == w:
            ctx.check(hash(x) == hash(y), f"equal values have equal hashes: {lab}")
            ctx.check({x: 1}.get(y) == 1 and len({x, y}) == 1, f"equal values are one key: {lab}")
        if order:
            want = odd.outcome(lambda: v < w)
            got = odd.outcome(lambda: x < y)
            if want[0] == "ok":
                ctx.check(got == want, f"ordered as the payloads are: {lab}", got)


@harness(P, quick=grid(u=EVERY))
def any_payload(ctx, u):
    """Every object is held as it is."""
    cls, names, frozen, order = MODELS[u]
    v = odd.pick(ctx, "payload")
    c = ctx.choose("case", names if cls is not Option else names[1:])
    x = cls(**{c: v})
    ctx.check(type(x) is cls and x.tag == c and getattr(x, c) is v, "the very object is held", (x.tag, getattr(x, c)))
    for y in names:
        if y != c:
            ctx.raises(Exception, lambda y=y: getattr(x, y), "reading another case")
    y = copy.copy(x)
    ctx.check(type(y) is cls and y.tag == c and getattr(y, c) is v, "a copy holds the very object", (y.tag, getattr(y, c)))
    match x:
        case cls(tag=t):
            ctx.check(t == c, "matched with its case")
        case _:
            ctx.check(False, "matched with its type")
    if frozen:
        for n in names + ["tag"]:
            ctx.raises(Exception, lambda n=n: setattr(x, n, 1), "a frozen value cannot be changed")
        ctx.check(getattr(x, c) is v, "a frozen value is not changed")
    else:
        w = odd.ODD[0]
        setattr(x, c, w)
        ctx.check(getattr(x, c) is w and x.tag == c, "a payload that is not frozen can be changed")
        ctx.check(getattr(y, c) is v, "not that of a copy")


@harness(P)
def operators_raise(ctx):
    """Exceptions of the payload's own operators reach the caller; payloads that cannot be ordered or hashed are refused."""
    frozen = bool(ctx.bool("frozen"))

    @tagged_union(frozen=frozen, order=True)
    class U:
        tag: str = tag()
        a: object = case()
        b: object = case()

    class Uncopied:
        def __init__(self, e):
            self.e = e

        def __deepcopy__(self, memo):
            raise self.e

        def __reduce_ex__(self, protocol):
            raise self.e

    table = {
        "==": lambda t: U(a=t()) == U(a=t()), "!=": lambda t: U(b=t()) != U(b=t()), "<": lambda t: U(a=t(1)) < U(a=t(2)), ">": lambda t: U(b=t(1)) > U(b=t(2)),
        "nested": lambda t: U(a=U(b=t())) == U(a=U(b=t())), "< nested": lambda t: U(a=U(b=t(1))) < U(a=U(b=t(2))), "deepcopy": lambda t: copy.deepcopy(U(a=Uncopied(t().e))),
        "pickle": lambda t: pickle.dumps(Some(Uncopied(t().e))), "pickle of an error": lambda t: pickle.dumps(Error(Uncopied(t().e))), "sorted": lambda t: sorted([U(a=t(2)), U(a=t(1))]),
    }
    if frozen:
        table["hash"] = lambda t: hash(U(a=t()))
    generic.touchy(ctx, table)
    x, y = ctx.choose("payloads", [(1, "a"), (None, 1), (object(), object()), ((1, None), (1, 2)), ({}, {1: 1})])
    generic.refuses(ctx, {"<": lambda: U(a=x) < U(a=y), ">": lambda: U(b=x) > U(b=y), "sorted": lambda: sorted([U(a=x), U(a=y)])})
    if frozen:
        generic.refuses(ctx, {"hash of a list": lambda: hash(U(a=[])), "hash of a dict": lambda: hash(U(b={1: 2})), "hash of a nested list": lambda: hash(U(a=(1, [])))})


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)])
def nested_equality(ctx, n):
    """Payloads that are unions themselves, of the same class or another, nested some levels deep."""
    kinds = [U3fot, U20fot, Option, Result]  # noqa: F821
    depth = ctx.size("depth", 0, n)
    cls = [ctx.choose("outer class", kinds), ctx.choose("inner class", kinds)]

    def build(name, v):
        x, path = v, []
        for i in range(depth):
            c = cls[0] if i % 2 else cls[1]
            k = ctx.choose(f"{name} case {i}", {Option: ["some"], Result: ["ok", "error"]}.get(c, ["a", "ab"]))
            path.append(k)
            x = c(**{k: x})
        return x, path

    a, b = ctx.int("a"), ctx.int("b")
    (x, p), (y, q) = build("x", a), build("y", b)
    want = a == b if p == q else False
    iff(ctx, x == y, want, "equality of nested values")
    iff(ctx, x != y, ctx.not_(want), "!= of nested values")
    if depth:
        iff(ctx, [x] == [y], want, "equality inside a list")
        ctx.check(ctx.or_(ctx.not_(want), hash(x) == hash(y)), "equal nested values have equal hashes")
