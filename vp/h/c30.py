"""C30: the text of a value shows its case and its elements, all of them, in order."""

from __future__ import annotations

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success, case, tag, tagged_union
from expression.collections import Block, Map, Seq, TypedArray, array, block, seq

from ..registry import grid, harness
from . import odd

P = "C30"
BOUNDS = (
    "Options, results, tries, user-defined unions, blocks, maps, sequences and typed arrays, nested up to 3 deep,"
    " of any ints, bools, None, strings and about 40 odd objects; blocks and arrays of up to 5 elements and of 0 "
    "to 130, maps of up to 4 bindings in any order of insertion and of 0 to 130, sequences of every length from 0"
    " to 130 and infinite ones. Collections of up to 1100 elements; elements whose text fails at first, or is "
    "that of another, equal or the same collection."
)
OUTSIDE = "Payloads whose own text changes; objects with a __format__ that differs from their __str__."
ASSUMPTIONS = ["the text of an int is a function of the int only"]


def show(v):
    """str(v), written out."""
    if isinstance(v, Option):
        return "Some " + show(v.some) if v.tag == "some" else "Nothing"
    if isinstance(v, Result):
        good = type(v).__name__ == "Try"
        if v.tag == "ok":
            return ("Success " if good else "Ok ") + show(v.ok)
        return ("Failure " if good else "Error ") + show(v.error)
    if isinstance(v, TypedArray):
        return "[|" + ", ".join(show(x) for x in v) + "|]"
    if isinstance(v, Block):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, Map):
        items = []
        for k, x in v.to_list():
            items.append(f'("{k}", {show(x)})' if isinstance(k, str) else f"({show(k)}, {show(x)})")
        return "map [" + "; ".join(items) + "]"
    if isinstance(v, Seq):
        xs = list(v)
        return "[" + "; ".join([show(x) for x in xs[:100]] + (["..."] if len(xs) > 100 else [])) + "]"
    return str(v)


def compare(ctx, v, label):
    want = show(v)
    got = str(v)
    ctx.check(got == want, f"{label}: text", (got, want))
    ctx.check(f"{v}" == want, f"{label}: formatted")
    if isinstance(v, (Block, Map, Seq, TypedArray)):
        ctx.check(repr(v) == want, f"{label}: repr", (repr(v), want))
    ctx.check(str(v) == want, f"{label}: the same text again")


LEAF = ["int", "none", "text", "bool"]
WRAP = ["some", "nothing", "ok", "error", "success", "failure", "block", "seq"]


def leaf(ctx, name):
    k = ctx.choose(name, LEAF)
    if k == "int":
        return ctx.int(name + ".i")
    if k == "bool":
        return ctx.bool(name + ".b")
    return None if k == "none" else ctx.choose(name + ".t", ["", "a", "Nothing"])


def tree(ctx, name, depth):
    if not depth:
        return leaf(ctx, name)
    k = ctx.choose(name, WRAP)
    if k == "nothing":
        return Nothing
    x = tree(ctx, name + ".", depth - 1)
    if k == "block":
        return Block([x, ctx.int(name + ".n")] if ctx.bool(name + ".two") else [x])
    if k == "seq":
        return Seq([x, ctx.int(name + ".n")] if ctx.bool(name + ".two") else [x])
    return {"some": Some, "ok": Ok, "error": Error, "success": Success, "failure": Failure}[k](x)


@harness(P, quick=grid(depth=[1, 2]), thorough=grid(depth=[1, 2, 3]))
def nested(ctx, depth):
    compare(ctx, tree(ctx, "v", depth), "value")


@tagged_union
class Shape:
    tag: str = tag()
    circle: int = case()
    point: None = case()
    label: str = case()


@tagged_union(frozen=True, repr=False)
class Quiet:
    tag: str = tag()
    only: int = case()

    def __repr__(self):
        return "quiet"


@harness(P)
def unions(ctx):
    """repr of a union: class, case and the repr of the payload."""
    x = ctx.int("x")
    for v, want in (
        (Shape(circle=x), f"Shape(circle={x!r})"), (Shape(point=None), "Shape(point=None)"),
        (Shape(label="a"), "Shape(label='a')"), (Shape(circle=Shape(label="")), "Shape(circle=Shape(label=''))"),
        (Some(x), f"Option(some={x!r})"), (Nothing, "Option(none=None)"), (Some("a"), "Option(some='a')"),
        (Ok(x), f"Result(ok={x!r})"), (Error("e"), "Result(error='e')"), (Ok(Some(x)), f"Result(ok=Option(some={x!r}))"),
        (Quiet(only=x), "quiet"),
    ):
        ctx.check(repr(v) == want, "repr of a union", (repr(v), want))
    ctx.check(str(Shape(circle=x)) == f"Shape(circle={x!r})", "str of a union is its repr")
    ctx.check(repr([Some(x), Nothing]) == f"[Option(some={x!r}), Option(none=None)]", "inside a list")


@harness(P, quick=grid(n=[5]))
def elements(ctx, n):
    k = ctx.size("n", 0, n)
    xs = [leaf(ctx, f"x{i}") if i < 2 else ctx.int(f"x{i}") for i in range(k)]
    for label, v in (("Block", Block(xs)), ("block.of_seq", block.of_seq(iter(xs))), ("Seq", Seq(xs)), ("Seq of a block", Seq(Block(xs)))):
        compare(ctx, v, label)
    compare(ctx, Block(xs).map(lambda x: Some(x)), "mapped block")
    compare(ctx, Seq(xs).map(Some), "mapped sequence")
    ctx.check(str(Block(xs)) == "[" + ", ".join(show(x) for x in xs) + "]", "Block: every element, in order")
    ctx.check(str(Seq(xs)) == "[" + "; ".join(show(x) for x in xs) + "]", "Seq: every element, in order")


@harness(P, quick=[dict(lo=0, hi=60), dict(lo=61, hi=130)])
def lengths(ctx, lo, hi):
    """Every length, and how much of the source is asked for."""
    n = ctx.size("n", lo, hi)
    x = ctx.int("x")
    xs = [i if i % 7 else x for i in range(n)]
    parts = [show(i) for i in xs]
    ctx.check(str(Block(xs)) == "[" + ", ".join(parts) + "]", "Block: every element")
    want = "[" + "; ".join([*parts[:100], *(["..."] if n > 100 else [])]) + "]"
    asked = []

    class Source:
        def __iter__(self):
            for i in xs:
                asked.append(1)
                yield i

    s = Seq(Source())
    ctx.check(not asked, "nothing is asked for before printing")
    got = str(s)
    ctx.check(got == want, "Seq: the first hundred elements", (got[-40:], want[-40:]))
    ctx.check(len(asked) <= 101, "Seq: no more of the source than is shown", len(asked))
    ctx.check(repr(s) == want, "Seq: repr, again from the start")
    ctx.same(list(s), xs, "printing uses up nothing")


@harness(P)
def infinite(ctx):
    a = ctx.int("a")
    want = "[" + "; ".join([*(show(a + i) for i in range(100)), "..."]) + "]"
    s = Seq(seq.init_infinite(lambda i: a + i))
    ctx.check(str(s) == want, "an infinite sequence", (str(s)[:60], want[:60]))
    ctx.check(repr(s.map(lambda x: x)) == want, "mapped")
    ctx.check(str(Some(s)) == "Some " + want, "inside an option")


@harness(P, quick=grid(n=[3]), thorough=grid(n=[4]))
def maps(ctx, n):
    """Bindings in ascending order of the keys, however they were added."""
    k = ctx.size("n", 0, n)
    ks = [ctx.int(f"k{i}") for i in range(k)]
    vs = [leaf(ctx, f"v{i}") if i == 0 else ctx.int(f"v{i}") for i in range(k)]
    m = Map.empty()
    ref = []
    for key, v in zip(ks, vs, strict=True):
        m = m.add(key, v)
        i = 0
        while i < len(ref) and ref[i][0] < key:
            i += 1
        if i < len(ref) and ref[i][0] == key:
            ref[i] = (ref[i][0], v)
        else:
            ref.insert(i, (key, v))
    # keys that are equal may be printed by either term
    got = str(m)
    ctx.check(got.startswith("map [") and got.endswith("]"), "map: brackets", got)
    want = [(key, show(v)) for key, v in ref]
    inner = got[5:-1]
    parts = inner.split("; ") if inner else []
    ctx.check(len(parts) == len(want), "map: number of bindings", got)
    for part, (key, v) in zip(parts, want, strict=True):
        same = [f"({show(x)}, {v})" for x in ks if ctx.holds(x == key)]
        ctx.check(part in same, "map: binding", (part, same))
    ctx.check(repr(m) == got and f"{m}" == got, "map: repr")


@harness(P)
def text_keys(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    ks = ctx.choose("keys", [["a"], ["b", "a"], ["", "A", "a"], []])
    m = Map.of_seq([(k, x if i else y) for i, k in enumerate(ks)])
    want = "map [" + "; ".join(f'("{k}", {v})' for k, v in sorted((k, x if i else y) for i, k in enumerate(ks))) + "]"
    ctx.check(str(m) == want, "text keys are quoted", (str(m), want))
    ctx.check(str(Map.of(a=Some(x))) == f'map [("a", {Some(x)})]', "values by their text")


class Dull:
    """Keys which are ordered and print alike."""

    def __init__(self, n):
        self.n = n

    def __lt__(self, other):
        return self.n < other.n

    def __gt__(self, other):
        return self.n > other.n

    def __eq__(self, other):
        return self.n == other.n

    def __hash__(self):
        return 0

    def __str__(self):
        return "k"


@harness(P)
def keys_alike(ctx):
    """Bindings whose texts are the same are all shown."""
    n = ctx.size("n", 0, 4)
    xs = [ctx.choose(f"x{i}", [0, 1]) for i in range(n)]
    m = Map.of_seq([(Dull(i), x) for i, x in enumerate(xs)])
    ctx.check(str(m) == "map [" + "; ".join(f"(k, {x})" for x in xs) + "]", "map: every binding", str(m))
    ctx.check(str(Block([*xs, *xs])) == "[" + ", ".join(str(x) for x in [*xs, *xs]) + "]", "block: every element")


@harness(P, quick=[dict(lo=0, hi=130)])
def long_maps(ctx, lo, hi):
    n = ctx.size("n", lo, hi)
    x = ctx.int("x")
    back = ctx.bool("back")
    ks = range(n - 1, -1, -1) if back else range(n)
    m = Map.of_seq([(k, x if k % 5 == 0 else k) for k in ks])
    want = "map [" + "; ".join(f"({k}, {show(x if k % 5 == 0 else k)})" for k in range(n)) + "]"
    ctx.check(str(m) == want, "map: every binding, in order", (str(m)[-40:], want[-40:]))
    a = TypedArray(list(range(n)))
    ctx.check(str(a) == "[|" + ", ".join(str(i) for i in range(n)) + "|]", "array: every element")


@harness(P)
def arrays(ctx):
    k = ctx.size("n", 0, 4)
    xs = [ctx.choose(f"x{i}", [-100, 0, 7]) for i in range(k)]
    compare(ctx, TypedArray(xs), "TypedArray")
    compare(ctx, array.of_seq(xs), "array.of_seq")
    ctx.check(str(TypedArray(xs)) == "[|" + ", ".join(str(x) for x in xs) + "|]", "every element, in order")


@harness(P)
def any_payload(ctx):
    x = odd.pick(ctx, "x")
    for label, v, want in (
        ("Some", Some(x), f"Some {x}"), ("Ok", Ok(x), f"Ok {x}"), ("Error", Error(x), f"Error {x}"),
        ("Success", Success(x), f"Success {x}"), ("Failure", Failure(x), f"Failure {x}"),
        ("Block", Block([x, 1]), f"[{x}, 1]"), ("Seq", Seq([1, x]), f"[1; {x}]"), ("Map", Map.of_seq([(1, x)]), f"map [(1, {x})]"),
    ):
        ctx.check(str(v) == want, f"{label}: text", (str(v), want))
    ctx.check(repr(Some(x)) == f"Option(some={x!r})", "repr of Some")
    ctx.check(repr(Ok(x)) == f"Result(ok={x!r})", "repr of Ok")
    ctx.check(repr(Error(x)) == f"Result(error={x!r})", "repr of Error")


TEXTS = ["", '"', '"a"', "'", "a'b\"c", "%s %d %", "{} {0} {x}", "a\nb", "\\", "\\n", "; ", "), (", "map []", " a ", "é\u4e2d\U0001f600",
         "x" * 5000, "Some 1", "None", "\t", "...", "]"]


@harness(P)
def any_text(ctx):
    """Strings of every kind as keys, elements and payloads are shown as they are."""
    s = ctx.choose("s", TEXTS)
    x = ctx.int("x")
    for label, v, want in (
        ("Some", Some(s), f"Some {s}"), ("Ok", Ok(s), f"Ok {s}"), ("Error", Error(s), f"Error {s}"),
        ("Block", Block([s, x]), f"[{s}, {x}]"), ("Seq", Seq([x, s]), f"[{x}; {s}]"),
        ("Map, as a value", Map.of_seq([(x, s)]), f"map [({x}, {s})]"), ("Map, as a key", Map.of_seq([(s, x)]), f'map [("{s}", {x})]'),
        ("Map, both", Map.of_seq([(s, Some(s))]), f'map [("{s}", Some {s})]'),
    ):
        ctx.check(str(v) == want, f"{label}: text", (str(v)[:80], want[:80]))
        ctx.check(f"{v}" == want, f"{label}: formatted")
    ctx.check(str(Map.of_seq([(s, 1), (s + "~", 2)])) == f'map [("{s}", 1); ("{s}~", 2)]', "two text keys")
    ctx.check(repr(Some(s)) == f"Option(some={s!r})", "repr of Some")


@harness(P, quick=[dict(sizes=[200, 256, 500, 1100])], thorough=[dict(sizes=[200, 256, 500, 1100, 5000])])
def long_ones(ctx, sizes):
    """Blocks, arrays and maps of many elements are shown in full, sequences up to the hundredth."""
    n = ctx.choose("n", sizes)
    x = ctx.int("x")
    xs = [x if i in (0, n // 2, n - 1) else i for i in range(n)]
    parts = [show(i) for i in xs]
    ctx.check(str(Block(xs)) == "[" + ", ".join(parts) + "]", "Block: every element")
    ctx.check(str(TypedArray(xs)) == "[|" + ", ".join(parts) + "|]", "TypedArray: every element")
    m = Map.of_seq(enumerate(xs))
    ctx.check(str(m) == "map [" + "; ".join(f"({i}, {p})" for i, p in enumerate(parts)) + "]", "Map: every binding")
    ctx.check(str(Some(Block(xs))) == "Some [" + ", ".join(parts) + "]", "inside an option")
    ctx.check(str(Seq(xs)) == "[" + "; ".join([*parts[:100], "..."]) + "]", "Seq: the first hundred elements")
    t = "y" * n
    ctx.check(str(Some(t)) == "Some " + t and str(Error(t)) == "Error " + t and str(Block([t])) == "[" + t + "]", "a long text")
    ctx.check(str(Map.of_seq([(1, t)])) == f"map [(1, {t})]", "a long text in a map")


@harness(P)
def reentrant(ctx):
    """Texts of elements may need the texts of collections, also of ones that are equal or the same, and may fail."""
    class Shows:
        """Its text is the text of what it holds; fails the given number of times first."""

        def __init__(self, held, fails=0):
            self.held, self.fails = held, fails

        def __str__(self):
            if self.fails:
                self.fails -= 1
                raise ValueError("no text")
            return str(self.held())

        __repr__ = __str__

    kinds = {
        "Block": lambda xs: Block(xs), "Seq": lambda xs: Seq(xs), "TypedArray": lambda xs: TypedArray(xs), "Map": lambda xs: Map.of_seq(enumerate(xs)),
        "Some": lambda xs: Some(xs[-1]), "Ok": lambda xs: Ok(xs[-1]), "Error": lambda xs: Error(xs[-1]), "Block of options": lambda xs: Block([Some(x) for x in xs]),
    }
    kind = ctx.choose("kind", list(kinds))
    make = kinds[kind]
    x = ctx.int("x")
    how = ctx.choose("how", ["fails", "shows another", "shows an equal one", "twice", "equal to what it holds"])
    if how == "fails":
        times = ctx.choose("times", [1, 2, 40])
        e = Shows(lambda: "e", times)
        v = make([x, e])
        for _ in range(times):
            r = odd.outcome(lambda: str(v))
            ctx.check(r[0] == "raise" and isinstance(r[1], ValueError), f"{kind}: an element without a text", r)
        ctx.check(str(v) == show(make([x, "e"])), f"{kind}: the text after an attempt that failed", str(v))
        ctx.check(str(make([x, 1])) == show(make([x, 1])), f"{kind}: other texts after an attempt that failed")
    elif how == "shows another":
        inner = make([x, 7])
        v = make([5, Shows(lambda: inner)])
        ctx.check(str(v) == show(make([5, show(inner)])), f"{kind}: an element that shows another value of the kind", str(v))
    elif how == "shows an equal one":
        e = Shows(lambda: make([x, Shows(lambda: "end")]))
        v = make([x, e])
        ctx.check(str(v) == show(make([x, show(make([x, "end"]))])), f"{kind}: an element that shows a similar value", str(v))
    elif how == "twice":
        inner = make([x, 7])
        v = make([inner, inner])
        ctx.check(str(v) == show(v), f"{kind}: the same value twice", str(v))
        v = make([inner, make([inner, inner])])
        ctx.check(str(v) == show(v), f"{kind}: the same value at several depths", str(v))
    else:
        v = make([make([make([odd.AlwaysEqual()])])])
        ctx.check(str(v) == show(v), f"{kind}: a value equal to what it holds", (str(v), show(v)))
