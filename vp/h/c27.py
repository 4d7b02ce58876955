"""C27: Block, Option and Result values never change."""

from __future__ import annotations

import copy
import pickle
from collections import deque

from expression import Error, Nothing, Ok, Option, Result, Some, effect, option, result, tag, tagged_union, case
from expression.collections import Block, Seq, block
from expression.core.try_ import Failure, Success

from ..engine import UserError
from ..registry import grid, harness
from . import generic

P = "C27"
BOUNDS = (
    "Histories of 2 operations (thorough: 3) out of all operations of Block, Option and Result, each applied to "
    "any value obtained so far, with symbolic elements and payloads (ints, None, nested values, mutable lists) "
    "and arbitrary pure callbacks, also raising ones; each value is compared with what it was after every step. "
    "Blocks of 0..3 elements, created from each kind of iterable, which is changed afterwards; blocks of 64 "
    "elements for the operations that do not branch. Payloads of about 60 kinds; lists and dicts obtained from a "
    "value are changed and the value is read again."
)
OUTSIDE = "Changes made through names starting with an underscore or object.__setattr__; longer histories."
ASSUMPTIONS = []


def thaw(v):
    """A plain copy of what can be seen of a value."""
    if isinstance(v, Block):
        return ("block", len(v), [thaw(x) for x in v])
    if isinstance(v, Option):
        return ("option", v.tag, v.is_some(), v.is_none(), thaw(v.some) if v.tag == "some" else None)
    if isinstance(v, Result):
        return ("result", v.tag, v.is_ok(), v.is_error(), thaw(v.ok if v.tag == "ok" else v.error))
    if isinstance(v, list):
        return ("list", [thaw(x) for x in v])
    if isinstance(v, tuple):
        return ("tuple", [thaw(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, thaw(x)) for k, x in v.items()])
    return v


class Pool:
    """Values obtained so far, with what they looked like when they were."""

    def __init__(self, ctx, kinds):
        self.ctx, self.kinds, self.vs = ctx, kinds, []
        ctx.syntactic_hash = True

    def add(self, v):
        if isinstance(v, (tuple, list)):
            for x in v:
                self.add(x)
        elif isinstance(v, (Block, Option, Result)):
            h = attempt(lambda: hash(v)) if isinstance(v, (Option, Result)) else None
            self.vs.append((v, thaw(v), h))
        return v

    def pick(self, name):
        vs = [v for v, _, _ in self.vs if isinstance(v, self.kinds)]
        return self.ctx.choose(name, vs[:1] if len(vs) == 2 else [vs[0], vs[2], vs[-1]] if len(vs) > 3 else [vs[0], vs[-1]])

    def check(self, label):
        for v, t, h in self.vs:
            self.ctx.same(thaw(v), t, f"{label}: an earlier value")
            if h is not None:
                self.ctx.check(attempt(lambda: hash(v)) == h, f"{label}: the hash of an earlier value")


def attempt(f):
    try:
        return f()
    except Exception:
        return None


def each(*fs):
    return [attempt(f) for f in fs]


def block_ops(ctx, k):
    f, p = ctx.fun("f", ("raises", "int")), ctx.fun("p", "bool")
    v, c = ctx.int("v"), ctx.choose("c", [0, 1, 2])
    return {
        "append": lambda b, o: each(lambda: b.append(o), lambda: b + o, lambda: b.pipe(block.append(o)), lambda: block.concat([b, o, b])),
        "iadd": iadd,
        "cons": lambda b, o: each(lambda: b.cons(v), lambda: block.cons(v, b)),
        "map": lambda b, o: each(lambda: b.map(lambda x: f(v)), lambda: b.mapi(lambda i, x: i), lambda: b.pipe(block.map(lambda x: v))),
        "filter": lambda b, o: each(lambda: b.filter(lambda x: p(v)), lambda: b.partition(lambda x: p(c))),
        "choose": lambda b, o: each(lambda: b.choose(Some), lambda: b.choose(lambda x: Nothing), lambda: b.collect(lambda x: Block([x, x]))),
        "fold": lambda b, o: each(lambda: b.fold(lambda s, x: s.cons(x), o), lambda: b.fold(lambda s, x: s + Block([x]), Block.empty())),
        "slice": lambda b, o: each(lambda: b[c:], lambda: b[:c], lambda: b[::-1], lambda: b.take(c), lambda: b.skip(c), lambda: b.skip_last(c + 1), lambda: b.take_last(c + 1)),
        "ends": lambda b, o: each(lambda: b.try_head(), lambda: b.tail(), lambda: b.head()),
        "indexed": lambda b, o: each(lambda: b.indexed(c), lambda: b.zip(o)),
        "sort": lambda b, o: each(lambda: b.sort_with(lambda x: 0), lambda: b.sort_with(lambda x: 0, True), lambda: b.pipe(block.sort_with(lambda x: -1))),
        "reduce": lambda b, o: b.reduce(lambda s, x: x),
        "read": lambda b, o: each(lambda: list(b), lambda: len(b), lambda: b == o, lambda: bool(b), lambda: b.is_empty(), lambda: attempt(lambda: v in b), lambda: str(b), lambda: repr(b), lambda: b.forall(lambda x: p(v))),
        "dict": lambda b, o: spoil(b.dict()),
        "copy": lambda b, o: each(lambda: copy.copy(b), lambda: copy.deepcopy(b), lambda: Block(b), lambda: Block.of_seq(b), lambda: block.of_seq(iter(b)), lambda: Block.of(*b)),
        "iterate": lambda b, o: nested_iteration(b),
        "match": matched,
        "sum": lambda b, o: b.sum_by(lambda x: v),
        "starmap": lambda b, o: each(lambda: b.indexed().starmap(lambda i, x: i), lambda: b.zip(o).starmap(lambda x, y: v)),
    }[k]


def iadd(b, o):
    keep = b
    b += o
    b += b
    return keep, b


def nested_iteration(b):
    it, jt = iter(b), iter(b)
    for x in it:
        for y in jt:
            pass
    return None


def matched(b, o):
    match b:
        case Block((x, y)):
            return Block([y, x])
        case Block(xs):
            return Block(xs)
    return None


def spoil(xs):
    """Change a mutable object that an operation returned."""
    if isinstance(xs, list):
        for x in xs:
            spoil(x)
        xs.append(99)
        xs.reverse()
    elif isinstance(xs, dict):
        for x in xs.values():
            spoil(x)
        xs.clear()
    return None


BLOCK_OPS = ["append", "iadd", "cons", "map", "filter", "choose", "fold", "slice", "ends", "indexed", "sort", "reduce", "read",
             "dict", "copy", "iterate", "match", "sum", "starmap"]


@harness(P, quick=grid(first=BLOCK_OPS, m=[2], n=[1]), thorough=grid(first=BLOCK_OPS, m=[3], n=[2]), cost=2)
def block_history(ctx, first, m, n):
    xs, ys = ctx.list("x", 0, n), ctx.ints("y", 1)
    pool = Pool(ctx, Block)
    pool.add(Block(xs))
    pool.add(block.of_seq(ys))
    for i in range(m):
        k = ctx.choose(f"op{i}", BLOCK_OPS) if i else first
        a, b = pool.pick(f"a{i}"), pool.vs[0][0] if i == 0 else pool.vs[1][0]
        pool.add(attempt(lambda: block_ops(ctx, k)(a, b)))
        xs.append(i)
        ys[0] = -1
        pool.check(k)


@harness(P, quick=grid(first=BLOCK_OPS, n=[64]), validations=1)
def block_long(ctx, first, n):
    xs = ctx.ints("x", n)
    pool = Pool(ctx, Block)
    pool.add(Block(xs))
    pool.add(Block(xs[:3]))
    pool.add(attempt(lambda: block_ops(ctx, first)(pool.vs[0][0], pool.vs[1][0])))
    xs.clear()
    pool.check(first)


@harness(P, quick=[dict(n=3)], thorough=[dict(n=5)])
def source_changes(ctx, n):
    """Changing the iterable a block was created from does not change the block."""
    xs = ctx.list("x", 0, n, "val")
    k = ctx.choose("kind", ["list", "deque", "dict", "values", "seq", "generator", "iterator", "bytearray", "block"])
    if k == "bytearray":
        xs = list(range(len(xs)))
    src = {"list": list, "deque": deque, "dict": lambda v: dict(enumerate(v)), "values": lambda v: dict(enumerate(v)),
           "bytearray": bytearray}.get(k, list)(xs)
    give = {"values": lambda: src.values(), "seq": lambda: Seq(src), "generator": lambda: (x for x in src),
            "iterator": lambda: iter(src), "block": lambda: Block(src)}.get(k, lambda: src)
    bs = [Block(give()), Block.of_seq(give()), block.of_seq(give()), Block.of(*give()), block.of(*give()),
          Block(list(give())).map(lambda x: x)]
    want = list(range(len(xs))) if k == "dict" else list(xs)
    if k in ("dict", "values"):
        src[77] = 5
        src.pop(0, None)
    else:
        src.append(5)
        src[0] = 6
    for b in bs:
        ctx.same((list(b), len(b)), (want, len(want)), f"after changing the {k} it was created from")
    if xs and k == "list":
        def grow(x):
            src.append(1)
            return x
        b = Block(src)
        before = list(src)
        ctx.same(list(b.map(grow)), before, "map whose callback changes the source list")
        ctx.same(list(b), before, "the block after that")


@harness(P)
def no_assignment(ctx):
    """There is no item assignment or deletion on a block, and no in-place change."""
    xs = ctx.list("x", 0, 3, "val")
    b = Block(xs)
    v = ctx.value("v", "val")
    i = ctx.choose("i", [0, -1, slice(0, 1), slice(0, 0)])

    def put():
        b[i] = v

    def drop():
        del b[i]

    for f in (put, drop):
        refused(ctx, f, "assignment to an item of a block")
    for name in ("append", "extend", "insert", "pop", "clear", "remove", "reverse", "sort", "__setitem__", "__delitem__"):
        g = getattr(b, name, None)
        if g is not None:
            attempt(lambda: g(b))
            attempt(lambda: g())
    ctx.same((list(b), len(b)), (xs, len(xs)), "the block")


def refused(ctx, f, label):
    try:
        f()
    except Exception:
        return
    ctx.check(False, f"{label} is refused")


@tagged_union(frozen=True)
class Shape:
    tag: str = tag()
    point: None = case()
    circle: int = case()
    poly: object = case()


@harness(P)
def fields(ctx):
    """Assigning to or deleting a field of an option, a result or a frozen union is refused and changes nothing."""
    v, w = ctx.value("v", "deep"), ctx.value("w", "val")
    u = ctx.choose("u", ["some", "nothing", "ok", "error", "success", "failure", "point", "circle", "poly", "copy", "pickled"])
    e = ValueError("x")
    x = {"some": lambda: Some(v), "nothing": lambda: Nothing, "ok": lambda: Ok(v), "error": lambda: Error(v),
         "success": lambda: Success(v), "failure": lambda: Failure(e), "point": lambda: Shape(point=None),
         "circle": lambda: Shape(circle=v), "poly": lambda: Shape(poly=v), "copy": lambda: copy.copy(Some(v)),
         "pickled": lambda: pickle.loads(pickle.dumps(Ok(3)))}[u]()
    payload = getattr(x, x.tag)
    t, h = x.tag, hash(x)
    names = ("tag", "point", "circle", "poly") if isinstance(x, Shape) else ("tag", "some", "none") if isinstance(x, Option) else ("tag", "ok", "error")
    for n in names:
        for how in ("set", "same", "del", "augmented"):
            def f():
                if how == "set":
                    setattr(x, n, w)
                elif how == "same":
                    setattr(x, n, getattr(x, n))
                elif how == "del":
                    delattr(x, n)
                else:
                    x.__dict__  # noqa: B018
                    old = getattr(x, n)
                    setattr(x, n, (old, w))
            refused(ctx, f, f"{how} field {n}")
    if isinstance(x, Option):
        def val():
            x.value = w
        refused(ctx, val, "assignment to value")
    ctx.same((x.tag, hash(x) == h), (t, True), "tag and hash")
    ctx.same(getattr(x, x.tag), payload, "payload")


def option_ops(ctx, k):
    f, p = ctx.fun("f", ("raises", "int")), ctx.fun("p", "bool")
    v = ctx.int("v")
    return {
        "map": lambda a, b: each(lambda: a.map(lambda x: f(v)), lambda: a.map2(lambda x, y: v, b), lambda: a.pipe(option.map(lambda x: v))),
        "bind": lambda a, b: each(lambda: a.bind(Some), lambda: a.bind(lambda x: b), lambda: a.bind(lambda x: Nothing), lambda: a.bind(lambda x: Some(f(v)))),
        "filter": lambda a, b: each(lambda: a.filter(lambda x: p(v)), lambda: a.filter(bool)),
        "else": lambda a, b: each(lambda: a.or_else(b), lambda: a.or_else_with(lambda: b), lambda: a.default_value(v), lambda: a.default_with(lambda: f(v))),
        "convert": lambda a, b: each(lambda: a.to_optional(), lambda: a.to_result(v), lambda: a.to_result_with(lambda: v), lambda: option.of_result(a.to_result(v)), lambda: list(a.to_seq())),
        "lists": lambda a, b: each(lambda: spoil_outer(a.to_list()), lambda: spoil_outer(list(a))),
        "dict": lambda a, b: a.dict(),
        "read": lambda a, b: each(lambda: a == b, lambda: a != b, lambda: str(a), lambda: repr(a), lambda: attempt(lambda: a.value), lambda: attempt(lambda: hash(a)), lambda: a.is_some()),
        "copy": lambda a, b: each(lambda: copy.copy(a), lambda: copy.deepcopy(a)),
        "apply": lambda a, b: each(lambda: a.apply(Some(lambda x: v)), lambda: a.apply(Nothing), lambda: a.map(lambda x: (x, v)).starmap(lambda x, y: v)),
        "builder": built,
        "match": matched_option,
        "sort": lambda a, b: attempt(lambda: sorted([a, b])),
        "collections": lambda a, b: each(lambda: option.of_optional(v), lambda: Block([a, b]).choose(lambda o: o), lambda: Block.of_option(a)),
    }[k]


def spoil_outer(xs):
    xs.append(4)
    return None


def built(a, b):
    @effect.option[object]()
    def fn():
        x = yield from a
        y = yield from b
        return (x, y)
    return fn()


def matched_option(a, b):
    match a:
        case Option(tag="some", some=x):
            return Some(x)
        case _:
            return Nothing
    return None


OPTION_OPS = ["map", "bind", "filter", "else", "convert", "lists", "dict", "read", "copy", "apply", "builder", "match", "sort",
              "collections"]


@harness(P, quick=grid(first=OPTION_OPS, m=[2]), thorough=grid(first=OPTION_OPS, m=[3]), cost=2)
def option_history(ctx, first, m):
    inner = [ctx.int("e")]
    pay = ctx.choose("payload", ["int", "none", "list", "nested"])
    x = {"int": lambda: ctx.int("x"), "none": lambda: None, "list": lambda: inner,
         "nested": lambda: ctx.choose("in", [Nothing, Some(None)])}[pay]()
    content = thaw(inner)
    pool = Pool(ctx, Option)
    pool.add(Some(x))
    pool.add(ctx.choose("second", [Nothing, Some(ctx.int("y"))]))
    for i in range(m):
        k = ctx.choose(f"op{i}", OPTION_OPS) if i else first
        a, b = pool.pick(f"a{i}"), pool.vs[1][0]
        pool.add(attempt(lambda: option_ops(ctx, k)(a, b)))
        pool.check(k)
        ctx.same(thaw(inner), content, f"{k}: the payload")
    ctx.check(Nothing.is_none() and Nothing.tag == "none" and Nothing == option.Nothing, "Nothing is still Nothing")


def result_ops(ctx, k):
    f, p = ctx.fun("f", ("raises", "int")), ctx.fun("p", "bool")
    v = ctx.int("v")
    return {
        "map": lambda a, b: each(lambda: a.map(lambda x: f(v)), lambda: a.map2(b, lambda x, y: v), lambda: a.pipe(result.map(lambda x: v)), lambda: a.map_error(lambda e: v)),
        "bind": lambda a, b: each(lambda: a.bind(Ok), lambda: a.bind(lambda x: b), lambda: a.bind(lambda x: Error(v)), lambda: a.bind(lambda x: Ok(f(v)))),
        "filter": lambda a, b: each(lambda: a.filter(lambda x: p(v), v), lambda: a.filter_with(lambda x: p(v), lambda x: x)),
        "else": lambda a, b: each(lambda: a.or_else(b), lambda: a.or_else_with(lambda e: b), lambda: a.default_value(v), lambda: a.default_with(lambda e: f(v))),
        "convert": lambda a, b: each(lambda: a.to_option(), lambda: a.swap(), lambda: a.merge(), lambda: a.swap().swap(), lambda: result.of_option(a.to_option(), v)),
        "lists": lambda a, b: attempt(lambda: spoil_outer(list(a))),
        "dict": lambda a, b: (a.dict().clear(), None)[1],
        "read": lambda a, b: each(lambda: a == b, lambda: a != b, lambda: str(a), lambda: repr(a), lambda: attempt(lambda: hash(a)), lambda: a.is_ok()),
        "copy": lambda a, b: each(lambda: copy.copy(a), lambda: copy.deepcopy(a)),
        "apply": lambda a, b: attempt(lambda: a.apply(Ok(lambda x: v))),
        "builder": built_result,
        "match": matched_result,
        "sort": lambda a, b: attempt(lambda: sorted([a, b])),
        "collections": lambda a, b: Block([a, b]).map(lambda r: r.is_ok()),
    }[k]


def built_result(a, b):
    @effect.result[object, object]()
    def fn():
        x = yield from a
        y = yield from b
        return (x, y)
    return fn()


def matched_result(a, b):
    match a:
        case Result(tag="ok", ok=x):
            return Ok(x)
        case Result(error=e):
            return Error(e)
    return None


@harness(P, quick=grid(first=OPTION_OPS, m=[2]), thorough=grid(first=OPTION_OPS, m=[3]), cost=2)
def result_history(ctx, first, m):
    inner = [ctx.int("e")]
    pay = ctx.choose("payload", ["int", "none", "list", "nested"])
    x = {"int": lambda: ctx.int("x"), "none": lambda: None, "list": lambda: inner,
         "nested": lambda: ctx.choose("in", [Nothing, Ok(None)])}[pay]()
    content = thaw(inner)
    pool = Pool(ctx, Result)
    pool.add(ctx.choose("first", [Ok, Error])(x))
    pool.add(ctx.choose("second", [Ok, Error])(ctx.int("y")))
    for i in range(m):
        k = ctx.choose(f"op{i}", OPTION_OPS) if i else first
        a, b = pool.pick(f"a{i}"), pool.vs[1][0]
        pool.add(attempt(lambda: result_ops(ctx, k)(a, b)))
        pool.check(k)
        ctx.same(thaw(inner), content, f"{k}: the payload")


@harness(P)
def shared_instances(ctx):
    """Shared values (Nothing, the empty block) stay what they are after results computed from them are used."""
    v = ctx.int("v")
    bs = [Block.empty(), block.empty, Block(), Block([])]
    i = ctx.choose("i", [0, 1, 2, 3])
    r = bs[i].cons(v)
    r += Block([v])
    for b in bs + [Block.empty(), Block()]:
        ctx.same((list(b), len(b)), ([], 0), "an empty block")
    o = Nothing.or_else(Some(v))
    ctx.same(o, Some(v), "or_else")
    for n in (Nothing, Option.Nothing(), Some(v).filter(lambda x: False)):
        ctx.same((n.tag, n.is_none()), ("none", True), "nothing")


class Plain:
    """Has a dict method, as models do."""

    def dict(self):
        return {"plain": 1}


@harness(P)
def any_payload(ctx):
    """The elements of a block, and the payload of an option or result, stay the very objects they were."""
    v, w, xs = generic.elements(ctx)
    if ctx.bool("model"):
        xs = [Plain() if x is v else x for x in xs]
        v = next(x for x in xs if type(x) is Plain)
    keep = list(xs)

    def pos(x):
        return next(i for i, y in enumerate(keep) if y is x)

    b = Block(xs)
    values = [Some(v), Ok(v), Error(v), Some(Some(v)), Ok(b)]
    inner = [v, v, v, values[3].some, b]
    h = [attempt(lambda: hash(x)) for x in values]
    xs.clear()
    for _, f, _ in generic.block_cases(v, w, keep):
        attempt(f)
    for f in (lambda: b.dict(), lambda: block.dict(b), lambda: str(b), lambda: b == b, lambda: v in b, lambda: b.sort(), lambda: b.sort(reverse=True),
              lambda: b.sort_with(lambda x: -pos(x), True), lambda: b.sum(), lambda: b.reduce(lambda x, y: y), lambda: copy.deepcopy(b), lambda: b == [v], lambda: b.partition(bool),
              lambda: b.sort_with(lambda x: -pos(x)), lambda: b.pipe(block.sort_with(lambda x: -pos(x), True)), lambda: b.pipe(block.sort(True))):
        attempt(f)
        ctx.check(len(b) == len(keep) and all(x is y for x, y in zip(b, keep)), "the elements of a block", (b, keep))
    for x in values:
        for f in (lambda: x.dict(), lambda: str(x), lambda: x == x, lambda: x == v, lambda: hash(x), lambda: x.swap(), lambda: x.merge(), lambda: x.to_option(),
                  lambda: x.to_result(1), lambda: list(x), lambda: x.map(lambda y: w), lambda: x.map_error(lambda y: w), lambda: x.filter(lambda y: False),
                  lambda: x.filter(lambda y: False, w), lambda: x.bind(lambda y: x), lambda: x.or_else(x), lambda: copy.deepcopy(x), lambda: copy.copy(x),
                  lambda: x.default_value(w), lambda: x.to_list().clear(), lambda: x < x):
            attempt(f)
    for x, i, k in zip(values, inner, h):
        ctx.check(getattr(x, x.tag) is i and attempt(lambda: hash(x)) == k, "the payload of an option or result", (x, i))


@harness(P)
def answers_are_fresh(ctx):
    """Changing a list or dict that an operation returned does not show in what it returns the next time."""
    x, y = ctx.int("x"), ctx.int("y")
    v = ctx.choose("value", [Nothing, Some(x), Some(None), Some(Some(y)), Ok(x), Error(y), Ok(Some(x)), Error(None), Block([x, y]), Block.empty(),
                             Block([Some(x), Nothing]), Block([Block([x])]), Some(Block([x, y])), Ok(Block([y]))])
    ops = {
        "dict": lambda: v.dict(), "to_list": lambda: v.to_list(), "list": lambda: list(v), "module dict": lambda: (block if isinstance(v, Block) else result).dict(v),
        "option.to_list": lambda: option.to_list(v), "list of to_seq": lambda: list(v.to_seq()), "partition": lambda: [list(p) for p in v.partition(bool)],
        "to_optional": lambda: v.to_optional(),
        "fold": lambda: v.fold(lambda s, x: [*s, x], []), "fold append": lambda: v.fold(lambda s, x: (s.append(x), s)[1], []), "sorted": lambda: sorted(v),
    }
    op = ops[ctx.choose("op", list(ops))]
    whole = thaw(v)
    first = attempt(op)
    before = thaw(first)
    if isinstance(first, (list, dict)):
        spoil(first)
    ctx.same(thaw(attempt(op)), before, "what an operation returns")
    ctx.same(thaw(v), whole, "the value itself")
    first = attempt(op)
    if isinstance(first, (list, dict)):
        first.clear()
    ctx.same(thaw(attempt(op)), before, "what an operation returns, once more")
