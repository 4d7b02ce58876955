"""Elements of every kind, and callbacks that raise exceptions of every type, for every collection operation."""

from __future__ import annotations

import functools
import threading

from expression import Error, Nothing, Ok, Some, pipe
from expression.collections import Block, Map, Seq, array, block, map as map_module, seq
from expression.collections.array import TypedArray

from . import odd


def alike(a, b):
    """The same objects, in containers of the same shape."""
    if a is b:
        return True
    if type(a) is type(b) and type(a) in (tuple, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and type(a) in (int, str, bool):
        return a == b
    if type(a).__name__ == type(b).__name__ == "Option":
        return a.tag == b.tag and (a.tag == "none" or alike(a.some, b.some))
    return False


def compare(ctx, cases, only=None, skip=()):
    for label, thunk, want in cases:
        if (only is None or label.split()[0] in only) and label not in skip:
            r = odd.outcome(thunk)
            ctx.check(r[0] == "ok" and alike(r[1], want), f"{label}: elements of every kind", (r, want))


class Mark:
    def __repr__(self):
        return "w"


def elements(ctx):
    """A list with an element of any kind among others."""
    v, w = odd.pick(ctx, "v"), Mark()
    xs = ctx.choose("where", [[v], [v, w], [w, v], [v, v], [w, v, w], [v, v, w]])
    return v, w, list(xs)


def many(ctx):
    """A list of many elements with one of any kind among them (or several)."""
    v, w = odd.ODD[ctx.choose("v", [0, 4, 6, 10, 16, 31])], Mark()
    n = ctx.choose("n", [17, 40, 70, 140, 300, 1100])
    xs = [Mark() for _ in range(n)]
    for i in ctx.choose("where", [[0], [n // 2], [n - 1], [0, 1, n - 1]]):
        xs[i] = v
    xs[-2] = w
    return v, w, xs


SLOW = ("fold", "fold_back")


def very_long(n):
    """A list of n elements."""
    xs = [Mark() for _ in range(n)]
    return xs[n // 2], xs[-2], xs


def same_state(run):
    """Whether a fold hands on the very state it is given, a list say, and gives it back."""
    s, seen = [0], []

    def f(acc):
        seen.append(acc)
        return acc

    return run(f, s) is s and all(x is s for x in seen)


def true(*_):
    return True


def false(*_):
    return False


def unfolder(v, n):
    return lambda s: Some((v, s + 1)) if s < n else Nothing


def pairs(xs):
    return [(x, x) for x in xs]


def block_cases(v, w, xs):
    b = Block(xs)
    k = len(xs)

    def ls(r):
        assert type(r) is Block
        return list(r)

    def matched():
        match b:
            case Block((x, *rest)):
                return [x, *rest]

    return [
        ("create", lambda: ls(Block(xs)), xs), ("create of", lambda: ls(Block.of(*xs)), xs),
        ("create of_seq", lambda: ls(Block.of_seq(iter(xs))), xs), ("create block.of_seq", lambda: ls(block.of_seq(xs)), xs),
        ("create block.of", lambda: ls(block.of(*xs)), xs), ("create singleton", lambda: ls(Block.singleton(v)), [v]),
        ("create block.singleton", lambda: ls(block.singleton(v)), [v]),
        ("create of_option", lambda: ls(Block.of_option(Some(v))), [v]),
        ("create block.of_option", lambda: ls(block.of_option(Some(v))), [v]),
        ("append", lambda: ls(b.append(Block([v]))), [*xs, v]), ("append +", lambda: ls(b + b), xs + xs),
        ("append block.append", lambda: ls(b.pipe(block.append(Block([w, v])))), [*xs, w, v]),
        ("append concat", lambda: ls(block.concat([b, Block([v]), b])), [*xs, v, *xs]),
        ("cons", lambda: ls(b.cons(v)), [v, *xs]), ("cons block.cons", lambda: ls(block.cons(v, b)), [v, *xs]),
        ("map", lambda: ls(b.map(lambda x: x)), xs), ("map const", lambda: ls(b.map(lambda x: v)), [v] * k),
        ("map block.map", lambda: ls(b.pipe(block.map(lambda x: v))), [v] * k),
        ("map mapi", lambda: ls(b.mapi(lambda i, x: x)), xs), ("map block.mapi", lambda: ls(b.pipe(block.mapi(lambda i, x: v))), [v] * k),
        ("map starmap", lambda: ls(Block(pairs(xs)).starmap(lambda x, y: y)), xs),
        ("map block.starmap", lambda: ls(Block(pairs(xs)).pipe(block.starmap(lambda x, y: y))), xs),
        ("map map2", lambda: ls(Block(pairs(xs)).pipe(block.map2(lambda x, y: y))), xs),
        ("filter", lambda: ls(b.filter(true)), xs), ("filter none", lambda: ls(b.filter(false)), []),
        ("filter is", lambda: ls(b.filter(lambda x: x is v)), [x for x in xs if x is v]),
        ("filter block.filter", lambda: ls(b.pipe(block.filter(lambda x: x is v))), [x for x in xs if x is v]),
        ("choose", lambda: ls(b.choose(Some)), xs), ("choose const", lambda: ls(b.choose(lambda x: Some(v))), [v] * k),
        ("choose some", lambda: ls(b.choose(lambda x: Some(x) if x is v else Nothing)), [x for x in xs if x is v]),
        ("choose block.choose", lambda: ls(b.pipe(block.choose(Some))), xs),
        ("collect", lambda: ls(b.collect(lambda x: Block([x, v]))), [y for x in xs for y in (x, v)]),
        ("collect block.collect", lambda: ls(b.pipe(block.collect(lambda x: Block([v])))), [v] * k),
        ("fold", lambda: b.fold(lambda s, x: [*s, x], []), xs), ("fold count", lambda: b.fold(lambda s, x: s + 1, 0), len(xs)), ("fold state", lambda: b.fold(lambda s, x: s, v), v),
        ("fold keeps", lambda: same_state(lambda f, s: b.fold(lambda a, x: f(a), s)), True),
        ("fold keeps block.fold", lambda: same_state(lambda f, s: b.pipe(block.fold(lambda a, x: f(a), s))), True),
        ("fold last", lambda: b.fold(lambda s, x: x, w), xs[-1]), ("fold block.fold", lambda: b.pipe(block.fold(lambda s, x: s, v)), v),
        ("reduce", lambda: b.reduce(lambda s, x: x), xs[-1]), ("reduce first", lambda: b.reduce(lambda s, x: s), xs[0]),
        ("reduce block.reduce", lambda: b.pipe(block.reduce(lambda s, x: x)), xs[-1]),
        ("partition", lambda: [ls(r) for r in b.partition(lambda x: x is v)], [[x for x in xs if x is v], [x for x in xs if x is not v]]),
        ("partition block.partition", lambda: [ls(r) for r in b.pipe(block.partition(false))], [[], xs]),
        ("indexed", lambda: ls(b.indexed()), list(enumerate(xs))), ("indexed from", lambda: ls(b.indexed(3)), list(enumerate(xs, 3))),
        ("indexed block.indexed", lambda: ls(block.indexed(b)), list(enumerate(xs))),
        ("zip", lambda: ls(b.zip(b)), pairs(xs)), ("zip block.zip", lambda: ls(b.pipe(block.zip(b))), pairs(xs)),
        ("iterate", lambda: [x for x in b], xs), ("iterate twice", lambda: [list(b), list(b)], [xs, xs]),
        ("iterate abandoned", lambda: [abandoned(b), list(b)], [xs[0], xs]), ("iterate interleaved", lambda: interleaved(b, b), pairs(xs)),
        ("append itself", lambda: ls(b.append(b)), xs + xs), ("append block, itself", lambda: ls(b.pipe(block.append(b))), xs + xs),
        ("iterate reversed", lambda: list(reversed(b)), xs[::-1]),
        ("forall", lambda: b.forall(true), True), ("forall some", lambda: b.forall(lambda x: x is v), all(x is v for x in xs)),
        ("forall block.forall", lambda: b.pipe(block.forall(lambda x: x is v)), all(x is v for x in xs)),
        ("unfold", lambda: ls(Block.unfold(unfolder(v, 2), 0)), [v, v]), ("unfold block.unfold", lambda: ls(pipe(0, block.unfold(unfolder(v, 2)))), [v, v]),
        ("match", matched, xs),
        ("take", lambda: ls(b.take(1)), xs[:1]), ("take block.take", lambda: ls(b.pipe(block.take(2))), xs[:2]),
        ("take most", lambda: ls(b.take(k - 1)), xs[:k - 1]), ("take half", lambda: ls(b.pipe(block.take(k // 2))), xs[:k // 2]),
        ("skip most", lambda: ls(b.skip(k - 1)), xs[k - 1:]), ("skip half", lambda: ls(b.pipe(block.skip(k // 2))), xs[k // 2:]),
        ("take_last most", lambda: ls(b.take_last(k)), xs), ("take_last half", lambda: ls(b.pipe(block.take_last(k // 2 + 1))), xs[-(k // 2 + 1):]),
        ("skip_last most", lambda: ls(b.skip_last(k)), []), ("skip_last half", lambda: ls(b.pipe(block.skip_last(k // 2 + 1))), xs[:-(k // 2 + 1)]),
        ("item middle", lambda: [b.item(k // 2), b[k // 2], b[-k]], [xs[k // 2], xs[k // 2], xs[0]]), ("item slices", lambda: [ls(b[1:-1]), ls(b[::2]), ls(b[k // 2:]), ls(b[-1:0:-3])],
         [xs[1:-1], xs[::2], xs[k // 2:], xs[-1:0:-3]]),
        ("skip", lambda: ls(b.skip(1)), xs[1:]), ("skip block.skip", lambda: ls(b.pipe(block.skip(1))), xs[1:]),
        ("take_last", lambda: ls(b.take_last(1)), xs[-1:]), ("take_last block", lambda: ls(b.pipe(block.take_last(1))), xs[-1:]),
        ("skip_last", lambda: ls(b.skip_last(1)), xs[:-1]), ("skip_last block", lambda: ls(b.pipe(block.skip_last(1))), xs[:-1]),
        ("tail", lambda: ls(b.tail()), xs[1:]), ("tail block.tail", lambda: ls(block.tail(b)), xs[1:]),
        ("head", lambda: b.head(), xs[0]), ("head block.head", lambda: block.head(b), xs[0]),
        ("try_head", lambda: b.try_head(), Some(xs[0])), ("try_head block", lambda: block.try_head(b), Some(xs[0])),
        ("item", lambda: b.item(k - 1), xs[-1]), ("item block.item", lambda: b.pipe(block.item(0)), xs[0]),
        ("item []", lambda: b[-1], xs[-1]), ("item slice", lambda: ls(b[::-1]), xs[::-1]),
        ("length", lambda: [len(b), b.is_empty(), bool(b)], [k, False, True]),
        ("sort_with", lambda: ls(b.sort_with(lambda x: 0)), xs), ("sort_with reverse", lambda: ls(b.sort_with(lambda x: 0, True)), xs),
        ("sort_with block", lambda: ls(b.pipe(block.sort_with(lambda x: 0))), xs),
        ("sort_with key", lambda: ls(b.sort_with(lambda x: 1 if x is v else 0)), [x for x in xs if x is not v] + [x for x in xs if x is v]),
        ("after", lambda: list(b), xs),
    ]


C06_OPS = ("append", "cons", "take", "skip", "take_last", "skip_last", "tail", "head", "try_head", "item", "length", "indexed", "after")
C07_OPS = ("sort_with", "after")


def ladder(v, w, xs):
    return [x for x in xs if x is v], [x for x in xs if x is not v]


def seq_cases(v, w, xs, kind, raw=False, make=None):
    """raw: the functions get the source itself, not a Seq of it."""
    source = make or {"list": lambda: xs, "tuple": lambda: tuple(xs), "block": lambda: Block(xs), "iter": lambda: iter(xs),
                      "gen": lambda: (x for x in xs)}[kind]

    def s():
        return Seq(source())

    r = source if raw else s
    k = len(xs)
    vs, _ = ladder(v, w, xs)
    return [
        ("create", lambda: list(s()), xs), ("create of", lambda: list(Seq.of(*xs)), xs), ("create seq.of", lambda: list(seq.of(*xs)), xs),
        ("create of_iterable", lambda: list(seq.of_iterable(xs)), xs), ("create singleton", lambda: list(seq.singleton(v)), [v]),
        ("append", lambda: list(s().append([v], xs)), [*xs, v, *xs]), ("append seq", lambda: list(pipe(r(), seq.append([v]))), [*xs, v]),
        ("append itself", lambda: itself(s(), kind, xs), xs + xs), ("append seq, itself", lambda: list(pipe(xs, seq.append(xs, xs))), xs + xs + xs),
        ("concat itself", lambda: list(seq.concat(xs, xs)), xs + xs), ("zip itself", lambda: list(Seq(xs).zip(Seq(xs))), pairs(xs)),
        ("concat", lambda: list(seq.concat(r(), [v], [])), [*xs, v]), ("concat method", lambda: list(Seq([xs, [v]]).concat()), [*xs, v]),
        ("map", lambda: list(s().map(lambda x: x)), xs), ("map seq", lambda: list(pipe(r(), seq.map(lambda x: v))), [v] * k),
        ("mapi", lambda: list(s().mapi(lambda i, x: x)), xs), ("mapi seq", lambda: list(pipe(r(), seq.mapi(lambda i, x: v))), [v] * k),
        ("starmap", lambda: list(Seq(pairs(xs)).starmap(lambda x, y: y)), xs), ("starmap map2", lambda: list(pipe(pairs(xs), seq.map2(lambda x, y: y))), xs),
        ("filter", lambda: list(s().filter(true)), xs), ("filter is", lambda: list(pipe(r(), seq.filter(lambda x: x is v))), vs),
        ("choose", lambda: list(s().choose(Some)), xs), ("choose const", lambda: list(pipe(r(), seq.choose(lambda x: Some(v)))), [v] * k),
        ("choose some", lambda: list(s().choose(lambda x: Some(x) if x is v else Nothing)), vs),
        ("collect", lambda: list(s().collect(lambda x: Seq([x, v]))), [y for x in xs for y in (x, v)]),
        ("collect seq", lambda: list(pipe(r(), seq.collect(lambda x: [v]))), [v] * k),
        ("fold", lambda: s().fold(lambda a, x: [*a, x], []), xs), ("fold count", lambda: s().fold(lambda a, x: a + 1, 0), len(xs)),
        ("fold_back count", lambda: pipe(0, seq.fold_back(lambda x, a: a + 1, r())), len(xs)), ("fold state", lambda: pipe(r(), seq.fold(lambda a, x: a, v)), v),
        ("fold_back", lambda: pipe([], seq.fold_back(lambda x, a: [*a, x], r())), xs[::-1]),
        ("fold_back state", lambda: pipe(v, seq.fold_back(lambda x, a: a, r())), v),
        ("fold keeps", lambda: same_state(lambda f, a: s().fold(lambda b, x: f(b), a)), True),
        ("fold keeps seq.fold", lambda: same_state(lambda f, a: pipe(r(), seq.fold(lambda b, x: f(b), a))), True),
        ("fold_back keeps", lambda: same_state(lambda f, a: pipe(a, seq.fold_back(lambda x, b: f(b), r()))), True),
        ("scan keeps", lambda: same_state(lambda f, a: list(s().scan(lambda b, x: f(b), a))[-1]), True),
        ("scan", lambda: list(s().scan(lambda a, x: x, v)), [v, *xs]), ("scan seq", lambda: list(pipe(r(), seq.scan(lambda a, x: v, w))), [w] + [v] * k),
        ("head", lambda: s().head(), xs[0]), ("head seq", lambda: seq.head(r()), xs[0]),
        ("tail", lambda: list(s().tail()), xs[1:]), ("tail seq", lambda: list(seq.tail(r())), xs[1:]),
        ("take", lambda: list(s().take(1)), xs[:1]), ("take seq", lambda: list(pipe(r(), seq.take(10**6))), xs),
        ("take most", lambda: list(s().take(k - 1)), xs[:k - 1]), ("take half", lambda: list(pipe(r(), seq.take(k // 2))), xs[:k // 2]),
        ("skip most", lambda: list(s().skip(k - 1)), xs[k - 1:]), ("skip half", lambda: list(pipe(r(), seq.skip(k // 2))), xs[k // 2:]),
        ("take negative", lambda: list(pipe(r(), seq.take(-1))), []), ("skip negative", lambda: list(pipe(r(), seq.skip(-1))), xs),
        ("skip", lambda: list(s().skip(1)), xs[1:]), ("skip seq", lambda: list(pipe(r(), seq.skip(0))), xs),
        ("pairwise", lambda: list(s().pairwise()), list(zip(xs, xs[1:]))), ("pairwise seq", lambda: list(seq.pairwise(r())), list(zip(xs, xs[1:]))),
        ("zip", lambda: list(s().zip(xs)), pairs(xs)), ("zip seq", lambda: list(pipe(xs, seq.zip(r()))), pairs(xs)),
        ("length", lambda: s().length(), k), ("length seq", lambda: seq.length(r()), k),
        ("to_list", lambda: list(s().to_list()), xs), ("to_list seq", lambda: list(seq.to_list(r())), xs),
        ("iter", lambda: iterated(r()), xs),
        ("try_find_index", lambda: s().try_find_index(lambda x: x is v), Some([x is v for x in xs].index(True))),
        ("try_find_index none", lambda: pipe(r(), seq.try_find_index(false)), Nothing),
        ("try_pick", lambda: s().try_pick(Some), Some(xs[0])), ("try_pick last", lambda: pipe(r(), seq.try_pick(lambda x: Some(x) if x is v else Nothing)), Some(v)),
        ("unfold", lambda: list(Seq.unfold(unfolder(v, 2), 0)), [v, v]), ("unfold seq", lambda: list(pipe(0, seq.unfold(unfolder(v, 2)))), [v, v]),
        ("delay", lambda: list(seq.delay(lambda: xs)), xs), ("delay method", lambda: list(Seq.delay(lambda: xs)), xs),
        ("init_infinite", lambda: list(pipe(seq.init_infinite(lambda i: v), seq.take(3))), [v, v, v]),
        ("min_by", lambda: pipe(r(), seq.min_by(lambda x: 0)), 0), ("max_by", lambda: pipe(r(), seq.max_by(lambda x: 5)), 5),
    ]


def abandoned(b):
    return next(iter(b))


def interleaved(a, b):
    return [(x, y) for x, y in zip(iter(a), iter(b))]


def iterated(s):
    out = []
    pipe(s, seq.iter(out.append))
    return out


def itself(s, kind, xs):
    return list(s.append(s)) if kind in ("list", "tuple", "block") else xs + xs


def array_cases(v, w, xs):
    def ls(r):
        assert type(r) is TypedArray
        return list(r)

    a = TypedArray(xs)
    k = len(xs)
    vs, _ = ladder(v, w, xs)

    def changed(f):
        c = TypedArray(xs)
        f(c)
        return list(c)

    def put(c):
        c[0] = v
        c[-1] = v

    return [
        ("create", lambda: ls(TypedArray(xs)), xs), ("create of", lambda: ls(TypedArray.of(*xs)), xs), ("create of_seq", lambda: ls(TypedArray.of_seq(iter(xs))), xs),
        ("create array.of", lambda: ls(array.of(*xs)), xs), ("create array.of_seq", lambda: ls(array.of_seq(xs)), xs),
        ("create singleton", lambda: ls(array.singleton(v)), [v]), ("create of_option", lambda: ls(array.of_option(Some(v))), [v]),
        ("map", lambda: ls(a.map(lambda x: x)), xs), ("map array", lambda: ls(a.pipe(array.map(lambda x: v))), [v] * k),
        ("filter", lambda: ls(a.filter(true)), xs), ("filter is", lambda: ls(a.pipe(array.filter(lambda x: x is v))), vs),
        ("choose", lambda: ls(a.choose(Some)), xs), ("choose const", lambda: ls(a.choose(lambda x: Some(v))), [v] * k),
        ("collect", lambda: ls(a.collect(lambda x: TypedArray([x, v]))), [y for x in xs for y in (x, v)]),
        ("fold keeps", lambda: same_state(lambda f, s: a.fold(lambda b, x: f(b), s)), True),
        ("fold keeps array.fold", lambda: same_state(lambda f, s: a.pipe(array.fold(lambda b, x: f(b), s))), True),
        ("fold", lambda: a.fold(lambda s, x: [*s, x], []), xs), ("fold count", lambda: a.fold(lambda s, x: s + 1, 0), len(xs)), ("fold state", lambda: a.pipe(array.fold(lambda s, x: s, v)), v),
        ("forall", lambda: a.forall(true), True), ("forall is", lambda: a.forall(lambda x: x is v), len(vs) == k),
        ("head", lambda: a.head(), xs[0]), ("try_head", lambda: a.try_head(), Some(xs[0])), ("try_head array", lambda: array.try_head(a), Some(xs[0])),
        ("tail", lambda: ls(a.tail()), xs[1:]), ("item", lambda: a.item(k - 1), xs[-1]), ("item array", lambda: a.pipe(array.item(0)), xs[0]), ("item []", lambda: a[-1], xs[-1]),
        ("indexed", lambda: ls(a.indexed(2)), list(enumerate(xs, 2))), ("take", lambda: ls(a.take(1)), xs[:1]), ("skip", lambda: ls(a.skip(1)), xs[1:]),
        ("take_last", lambda: ls(a.take_last(1)), xs[-1:]), ("skip_last", lambda: ls(a.skip_last(1)), xs[:-1]), ("iterate", lambda: list(a), xs),
        ("take most", lambda: ls(a.take(k - 1)), xs[:k - 1]), ("take half", lambda: ls(a.pipe(array.take(k // 2))), xs[:k // 2]),
        ("skip most", lambda: ls(a.skip(k - 1)), xs[k - 1:]), ("skip half", lambda: ls(a.skip(k // 2)), xs[k // 2:]),
        ("take_last most", lambda: ls(a.take_last(k)), xs), ("take_last half", lambda: ls(a.pipe(array.take_last(k // 2 + 1))), xs[-(k // 2 + 1):]),
        ("skip_last most", lambda: ls(a.skip_last(k)), []), ("skip_last half", lambda: ls(a.skip_last(k // 2 + 1)), xs[:-(k // 2 + 1)]),
        ("item middle", lambda: [a.item(k // 2), a[k // 2], a[-k]], [xs[k // 2], xs[k // 2], xs[0]]),
        ("item slices", lambda: [list(a[1:-1]), list(a[::2]), list(a[k // 2:]), list(a[-1:0:-3])], [xs[1:-1], xs[::2], xs[k // 2:], xs[-1:0:-3]]),
        ("iterate abandoned", lambda: [abandoned(a), list(a)], [xs[0], xs]), ("iterate interleaved", lambda: interleaved(a, a), pairs(xs)),
        ("reversed", lambda: list(reversed(a)), xs[::-1]), ("length", lambda: [len(a), a.is_empty()], [k, False]),
        ("sort_with", lambda: ls(a.sort_with(lambda x: 0)), xs), ("sort_with reverse", lambda: ls(a.sort_with(lambda x: 0, True)), xs),
        ("unfold", lambda: ls(TypedArray.unfold(unfolder(v, 2), 0)), [v, v]),
        ("set", lambda: changed(put), [v, *xs[1:-1], v][:k] if k > 1 else [v]), ("insert", lambda: changed(lambda c: c.insert(1, v)), [xs[0], v, *xs[1:]]),
        ("append", lambda: changed(lambda c: c.append(v)), [*xs, v]), ("extend", lambda: changed(lambda c: c.extend([v, w])), [*xs, v, w]),
        ("pop", lambda: TypedArray(xs).pop(), xs[-1]), ("after", lambda: list(a), xs),
    ]


def map_cases(v, w, xs):
    items = list(enumerate(xs))
    m = Map.of_seq(items)

    def ls(r):
        assert type(r) is Map
        return list(r.to_list())

    def got(r):
        out = []
        return [r.try_get_value(0, out), *out]

    def seen():
        out = []
        m.iterate(lambda k, x: out.append((k, x)))
        return out

    kv = [(k, x) for k, x in items if x is v]
    return [
        ("create", lambda: ls(m), items), ("create list", lambda: ls(Map.of_list(items)), items), ("create block", lambda: ls(Map.of_block(Block(items))), items),
        ("create twice", lambda: ls(Map.of_seq([(0, w), (0, v)])), [(0, v)]), ("create of", lambda: Map.of(a=v)["a"], v),
        ("create module", lambda: ls(map_module.of_seq(items)), items), ("create ofadd", lambda: ls(map_module.add(10**6, v)(m)), [*items, (10**6, v)]),
        ("add", lambda: ls(m.add(10**6, v)), [*items, (10**6, v)]), ("add overwrite", lambda: ls(m.add(0, v)), [(0, v), *items[1:]]),
        ("change", lambda: ls(m.change(0, lambda o: Some(v))), [(0, v), *items[1:]]), ("change new", lambda: ls(m.change(10**6, lambda o: Some(v))), [*items, (10**6, v)]),
        ("change sees", lambda: changed(m, 0), Some(xs[0])), ("remove", lambda: ls(m.remove(0)), items[1:]),
        ("find", lambda: m.try_find(0), Some(xs[0])), ("find []", lambda: m[0], xs[0]), ("find module", lambda: map_module.find(0)(m), xs[0]),
        ("find try", lambda: map_module.try_find(0)(m), Some(xs[0])),
        ("find get", lambda: m.get(0), xs[0]), ("find get default", lambda: m.get(-1, v), v), ("find value", lambda: got(m), [True, xs[0]]),
        ("find contains", lambda: [0 in m, m.contains_key(0), 10**6 in m], [True, True, False]),
        ("size", lambda: [len(m), m.is_empty()], [len(xs), False]),
        ("iterate abandoned", lambda: [abandoned(m), list(m), abandoned(m.to_seq()), list(m.to_seq()), abandoned(m.items()), list(m.values()), list(m)],
         [0, list(range(len(xs))), items[0], items, items[0], xs, list(range(len(xs)))]),
        ("iterate interleaved", lambda: [interleaved(m, m), interleaved(m.to_seq(), m.to_seq())], [pairs(range(len(xs))), pairs(items)]),
        ("iterate", seen, items), ("iterate items", lambda: list(m.items()), items), ("iterate values", lambda: list(m.values()), xs),
        ("iterate to_seq", lambda: list(m.to_seq()), items), ("filter", lambda: ls(m.filter(true)), items), ("filter is", lambda: ls(m.filter(lambda k, x: x is v)), kv),
        ("partition", lambda: [ls(r) for r in m.partition(lambda k, x: x is v)], [kv, [i for i in items if i[1] is not v]]),
        ("map", lambda: ls(m.map(lambda k, x: x)), items), ("map const", lambda: ls(m.map(lambda k, x: v)), [(k, v) for k, _ in items]),
        ("fold", lambda: m.fold(lambda s, i: [*s, i], []), items), ("fold state", lambda: m.fold(lambda s, i: s, v), v),
        ("fold keeps", lambda: same_state(lambda f, s: m.fold(lambda a, i: f(a), s)), True),
        ("fold keeps map.fold", lambda: same_state(lambda f, s: map_module.fold(lambda a, i: f(a), s)(m)), True),
        ("fold_back keeps", lambda: same_state(lambda f, s: m.fold_back(lambda i, a: f(a), s)), True),
        ("fold_back keeps map.fold_back", lambda: same_state(lambda f, s: map_module.fold_back(lambda i, a: f(a), m)(s)), True),
        ("fold_back", lambda: m.fold_back(lambda i, s: [*s, i], []), items[::-1]), ("fold_back state", lambda: m.fold_back(lambda i, s: s, v), v),
        ("exists", lambda: m.exists(lambda k, x: x is v), True), ("for_all", lambda: m.for_all(lambda k, x: x is v), len(kv) == len(xs)),
        ("pick", lambda: m.try_pick(lambda k, x: Some(x)), Some(xs[0])), ("pick const", lambda: m.try_pick(lambda k, x: Some(v)), Some(v)),
        ("pick module", lambda: map_module.pick(lambda k, x: Some(x))(m), xs[0]),
        ("after", lambda: ls(m), items),
    ]


def changed(m, k):
    seen = []
    m.change(k, lambda o: seen.append(o) or Nothing)
    return seen[0]


C01_OPS = ("create", "add", "change", "remove", "find", "size", "iterate", "after")


# -- predicates that answer with something other than True and False

TRUTHS = [True, False, 2, -1, 0.5, "no", " ", (0,), [None], {0: 0}, {False}, b"0", object(), len, Some(0), Nothing, Ok(False), Error(0), ValueError("x"),
          Block.of(0), Map.of(a=0), 0, 0.0, "", (), [], {}, set(), b"", None, Block.empty(), Map.empty(), odd.AlwaysEqual()]


def truths(ctx, table, n=3):
    """table: label -> (run with a predicate of an element, what the answers, as booleans, should give)."""
    at = ctx.size("at", 0, n - 1)
    answers = [bool(ctx.size(f"answer{i}", 0, 1)) if i != at else TRUTHS[ctx.size("answer", 0, len(TRUTHS) - 1)] for i in range(n)]
    bools = [bool(a) for a in answers]
    for label, (run, want) in table.items():
        r = odd.outcome(lambda: run(lambda x: answers[x]))
        ctx.check(r[0] == "ok" and alike(r[1], want(bools)), f"{label}: answers of every kind", (r, want(bools), answers))


def kept(bs):
    return [i for i, b in enumerate(bs) if b]


def left(bs):
    return [i for i, b in enumerate(bs) if not b]


def block_truths(n=3):
    b = Block(range(n))
    return {
        "filter": (lambda p: list(b.filter(p)), kept), "block.filter": (lambda p: list(b.pipe(block.filter(p))), kept),
        "partition": (lambda p: [list(x) for x in b.partition(p)], lambda bs: [kept(bs), left(bs)]),
        "block.partition": (lambda p: [list(x) for x in b.pipe(block.partition(p))], lambda bs: [kept(bs), left(bs)]),
        "forall": (lambda p: bool(b.forall(p)), all), "block.forall": (lambda p: bool(b.pipe(block.forall(p))), all),
    }


def first(bs):
    return Some(kept(bs)[0]) if any(bs) else Nothing


def seq_truths(n=3):
    s = Seq(range(n))
    return {
        "filter": (lambda p: list(s.filter(p)), kept), "seq.filter": (lambda p: list(pipe(s, seq.filter(p))), kept),
        "try_find_index": (lambda p: s.try_find_index(p), first), "seq.try_find_index": (lambda p: pipe(range(n), seq.try_find_index(p)), first),
    }


def array_truths(n=3):
    a = TypedArray(range(n))
    return {"filter": (lambda p: list(a.filter(p)), kept), "array.filter": (lambda p: list(a.pipe(array.filter(p))), kept),
            "forall": (lambda p: bool(a.forall(p)), all)}


def map_truths(n=3):
    m = Map.of_seq((i, i) for i in range(n))

    def by_key(p):
        return lambda k, v: p(k)

    return {
        "filter": (lambda p: list(m.filter(by_key(p))), kept), "map.filter": (lambda p: list(map_module.filter(by_key(p))(m)), kept),
        "partition": (lambda p: [list(x) for x in m.partition(by_key(p))], lambda bs: [kept(bs), left(bs)]),
        "map.partition": (lambda p: [list(x) for x in map_module.partition(by_key(p))(m)], lambda bs: [kept(bs), left(bs)]),
        "exists": (lambda p: bool(m.exists(by_key(p))), any), "map.exists": (lambda p: bool(map_module.exists(by_key(p))(m)), any),
        "for_all": (lambda p: bool(m.for_all(by_key(p))), all), "map.for_all": (lambda p: bool(map_module.for_all(by_key(p))(m)), all),
    }


# -- callbacks that raise


def raising(ctx, table, n=3, base=True):
    """table: label -> (run with a callback, the number of the call that is element i); the callback raises at one element."""
    e, shape = odd.exception_or_shape(ctx, base=base)
    ctx.assume(not isinstance(e, (StopIteration, StopAsyncIteration)))
    at = ctx.size("at", 0, n - 1)
    for label, run in table.items():
        calls = []

        def cb(result):
            def f(*a):
                calls.append(a)
                if len(calls) == at + 1:
                    raise e
                return result(*a) if callable(result) else result
            return shape(f)

        odd.passes(ctx, lambda: run(cb), e, f"{label}: an exception of a callback is passed on")
        ctx.check(len(calls) == at + 1, f"{label}: no callback is called after that", calls)


def block_raising(xs):
    b = Block(xs)
    return {
        "map": lambda f: b.map(f(1)), "mapi": lambda f: b.mapi(f(1)), "filter": lambda f: b.filter(f(True)), "choose": lambda f: b.choose(f(Nothing)),
        "collect": lambda f: b.collect(f(Block([1]))), "fold": lambda f: b.fold(f(0), 0), "partition": lambda f: b.partition(f(True)),
        "forall": lambda f: b.forall(f(True)), "starmap": lambda f: b.indexed().starmap(f(1)), "sum_by": lambda f: b.sum_by(f(1)),
        "unfold": lambda f: Block.unfold(f(lambda s: Some((s, s + 1)) if s < 9 else Nothing), 0),
        "reduce": lambda f: Block([0, *xs]).reduce(f(0)), "sort_with": lambda f: b.sort_with(f(0)),
        "block.map": lambda f: b.pipe(block.map(f(1))), "block.fold": lambda f: b.pipe(block.fold(f(1), 0)), "block.filter": lambda f: b.pipe(block.filter(f(False))),
        "block.choose": lambda f: b.pipe(block.choose(f(Some(1)))), "block.collect": lambda f: b.pipe(block.collect(f(Block([1])))),
    }


def seq_raising(xs):
    s = Seq(xs)
    return {
        "map": lambda f: list(s.map(f(1))), "mapi": lambda f: list(s.mapi(f(1))), "filter": lambda f: list(s.filter(f(True))), "choose": lambda f: list(s.choose(f(Nothing))),
        "collect": lambda f: list(s.collect(f(Seq([1])))), "fold": lambda f: s.fold(f(0), 0), "scan": lambda f: list(s.scan(f(0), 0)),
        "starmap": lambda f: list(Seq(pairs(xs)).starmap(f(1))), "sum_by": lambda f: s.sum_by(f(1)), "try_pick": lambda f: s.try_pick(f(Nothing)),
        "try_find_index": lambda f: s.try_find_index(f(False)), "unfold": lambda f: list(Seq.unfold(f(lambda n: Some((n, n + 1)) if n < 9 else Nothing), 0)),
        "iter": lambda f: pipe(s, seq.iter(f(None))), "fold_back": lambda f: pipe(0, seq.fold_back(f(0), s)), "seq.map": lambda f: list(pipe(s, seq.map(f(1)))),
        "seq.filter": lambda f: list(pipe(s, seq.filter(f(False)))), "seq.choose": lambda f: list(pipe(s, seq.choose(f(Some(1))))),
        "seq.collect": lambda f: list(pipe(s, seq.collect(f([1])))), "seq.scan": lambda f: list(pipe(s, seq.scan(f(1), 0))),
        "init_infinite": lambda f: list(pipe(seq.init_infinite(f(1)), seq.take(5))), "min_by": lambda f: pipe(s, seq.min_by(f(1))), "max_by": lambda f: pipe(s, seq.max_by(f(1))),
        "delay": lambda f: [list(seq.delay(f(lambda: []))) for _ in range(3)],
    }


def array_raising(xs):
    a = TypedArray(xs)
    return {
        "map": lambda f: a.map(f(1)), "filter": lambda f: a.filter(f(True)), "choose": lambda f: a.choose(f(Nothing)), "collect": lambda f: a.collect(f(TypedArray([1]))),
        "fold": lambda f: a.fold(f(0), 0), "forall": lambda f: a.forall(f(True)), "sum_by": lambda f: a.sum_by(f(1)), "sort_with": lambda f: a.sort_with(f(0)),
        "unfold": lambda f: TypedArray.unfold(f(lambda n: Some((n, n + 1)) if n < 9 else Nothing), 0), "array.map": lambda f: a.pipe(array.map(f(1))),
        "array.filter": lambda f: a.pipe(array.filter(f(False))), "array.fold": lambda f: a.pipe(array.fold(f(1), 0)),
    }


def map_raising(xs):
    m = Map.of_seq(enumerate(xs))
    return {
        "map": lambda f: m.map(f(1)), "filter": lambda f: m.filter(f(True)), "partition": lambda f: m.partition(f(True)), "fold": lambda f: m.fold(f(0), 0),
        "fold_back": lambda f: m.fold_back(f(0), 0), "exists": lambda f: m.exists(f(False)), "for_all": lambda f: m.for_all(f(True)), "iterate": lambda f: m.iterate(f(None)),
        "try_pick": lambda f: m.try_pick(f(Nothing)), "map.filter": lambda f: map_module.filter(f(False))(m), "map.map": lambda f: map_module.map(f(1))(m),
        "map.pick": lambda f: map_module.pick(f(Nothing))(m), "map.fold": lambda f: map_module.fold(f(1), 0)(m),
        "change": lambda f: [m.change(k, f(Nothing)) for k in range(3)],
    }


# -- callbacks that call the operation again, and operations after one whose callback raised


def frozen(v):
    """The contents of a result, as tuples."""
    if isinstance(v, (list, tuple, Block, TypedArray)) or type(v) is Seq:
        return tuple(frozen(x) for x in v)
    if isinstance(v, Map):
        return tuple((k, frozen(x)) for k, x in v.items())
    if type(v).__name__ in ("Option", "Result", "Try"):
        return (v.tag, frozen(v.some if v.tag == "some" else v.ok if v.tag == "ok" else v.error if v.tag == "error" else None))
    return v


def now(coro):
    """Run a coroutine that waits for nothing."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


class Cell(threading.local):
    """A place for the callback of a use, for each thread."""

    def __init__(self):
        self.held = None

    def __getitem__(self, _):
        return self.held

    def __setitem__(self, _, v):
        self.held = v


class Stop(Exception):
    """Raised by a callback of a harness."""


def reentrant(ctx, table, top=3):
    """table: label -> run(f), f giving the callback for a function: what an operation does is the same when one of its
    callbacks runs the operation too, and after earlier uses that ended in an exception."""
    mode = ctx.choose("mode", ["inside", "after", "across"])
    at = ctx.size("at", 1, top)
    times = ctx.choose("times", [1, 2, 40]) if mode == "after" else 1
    for label, run in table.items():
        def plain():
            calls = []

            def make(result):
                def f(*a):
                    calls.append(frozen(a))
                    return result(*a)
                return f

            return frozen(run(make)), calls

        want, calls = plain()
        if mode == "after":
            for _ in range(times):
                count = [0]

                def make(result):
                    def f(*a):
                        count[0] += 1
                        if count[0] == at:
                            raise Stop
                        return result(*a)
                    return f

                try:
                    run(make)
                except Stop:
                    pass
            r = odd.outcome(plain)
            ctx.check(r == ("ok", (want, calls)), f"{label}: after uses that ended in an exception", (r, want, calls))
        elif mode == "across":
            # a second thread starts the same in the middle of the first, and ends it after the first has ended
            def hooked(hook, seen):
                count = [0]

                def make(result):
                    def f(*a):
                        count[0] += 1
                        seen.append(frozen(a))
                        if count[0] == at:
                            hook()
                        return result(*a)
                    return f

                return odd.outcome(lambda: frozen(run(make)))

            reached, ended = threading.Event(), threading.Event()
            seen, out = ([], []), [None]

            def second():
                out[0] = hooked(lambda: (reached.set(), ended.wait(20)), seen[1])
                reached.set()

            other = threading.Thread(target=second, daemon=True)
            r = hooked(lambda: (other.start(), reached.wait(20)), seen[0])
            ended.set()
            if other.ident is not None:
                other.join(20)
                ctx.check(out[0] == ("ok", want) and seen[1] == calls, f"{label}: in a thread, while another uses it", (out[0], want))
            ctx.check(r == ("ok", want) and seen[0] == calls, f"{label}: while another thread uses it", (r, want))
        else:
            count, inner, seen = [0], [], []

            def make(result):
                def f(*a):
                    count[0] += 1
                    seen.append(frozen(a))
                    if count[0] == at:
                        inner.append(odd.outcome(plain))
                    return result(*a)
                return f

            r = odd.outcome(lambda: frozen(run(make)))
            ctx.check(r == ("ok", want) and seen == calls, f"{label}: with a callback that uses it too", (r, want, seen, calls))
            ctx.check(all(x == ("ok", (want, calls)) for x in inner), f"{label}: used by one of its callbacks", (inner, want))


def _odd(x, *_):
    return x % 2 == 1


def _opt(x, *_):
    return Some(x * 10) if x % 2 else Nothing


def _plus(a, b, *_):
    return a * 3 + b


def _step(s):
    return Some((s * s, s + 1)) if s < 5 else Nothing


def block_reentrant(xs):
    b = Block(xs)
    return {
        "map": lambda f: b.map(f(lambda x: x + 1)), "mapi": lambda f: b.mapi(f(_plus)), "filter": lambda f: b.filter(f(_odd)), "choose": lambda f: b.choose(f(_opt)),
        "collect": lambda f: b.collect(f(lambda x: Block([x, -x]))), "fold": lambda f: b.fold(f(_plus), 0), "partition": lambda f: b.partition(f(_odd)),
        "forall": lambda f: b.forall(f(lambda x: x > 0)), "starmap": lambda f: b.indexed().starmap(f(_plus)), "block.map2": lambda f: b.indexed().pipe(block.map2(f(_plus))),
        "sum_by": lambda f: b.sum_by(f(lambda x: x * x)), "unfold": lambda f: Block.unfold(f(_step), 0), "reduce": lambda f: b.reduce(f(_plus)),
        "sort_with": lambda f: b.sort_with(f(lambda x: -x)),
        "block.map": lambda f: b.pipe(block.map(f(lambda x: x + 1))), "block.mapi": lambda f: b.pipe(block.mapi(f(_plus))), "block.filter": lambda f: b.pipe(block.filter(f(_odd))),
        "block.choose": lambda f: b.pipe(block.choose(f(_opt))), "block.collect": lambda f: b.pipe(block.collect(f(lambda x: Block([x, -x])))),
        "block.fold": lambda f: b.pipe(block.fold(f(_plus), 0)), "block.partition": lambda f: b.pipe(block.partition(f(_odd))), "block.forall": lambda f: b.pipe(block.forall(f(lambda x: x > 0))),
        "block.starmap": lambda f: b.indexed().pipe(block.starmap(f(_plus))), "block.sum_by": lambda f: b.pipe(block.sum_by(f(lambda x: x * x))),
        "block.unfold": lambda f: block.unfold(f(_step))(0), "block.reduce": lambda f: b.pipe(block.reduce(f(_plus))),
        "block.sort_with": lambda f: b.pipe(block.sort_with(f(lambda x: -x))),
    }


def seq_reentrant(xs):
    s = Seq(xs)
    return {
        "map": lambda f: list(s.map(f(lambda x: x + 1))), "mapi": lambda f: list(s.mapi(f(_plus))), "filter": lambda f: list(s.filter(f(_odd))), "choose": lambda f: list(s.choose(f(_opt))),
        "collect": lambda f: list(s.collect(f(lambda x: Seq([x, -x])))), "fold": lambda f: s.fold(f(_plus), 0), "scan": lambda f: list(s.scan(f(_plus), 0)),
        "starmap": lambda f: list(Seq(pairs(xs)).starmap(f(_plus))), "sum_by": lambda f: s.sum_by(f(lambda x: x * x)), "try_pick": lambda f: s.try_pick(f(lambda x: Some(x) if x == xs[-1] else Nothing)),
        "try_find_index": lambda f: s.try_find_index(f(lambda x: x == xs[-1])), "unfold": lambda f: list(Seq.unfold(f(_step), 0)), "iter": lambda f: pipe(s, seq.iter(f(lambda x: None))),
        "seq.fold_back": lambda f: pipe(0, seq.fold_back(f(_plus), s)),
        "seq.map": lambda f: list(pipe(s, seq.map(f(lambda x: x + 1)))), "seq.filter": lambda f: list(pipe(s, seq.filter(f(_odd)))), "seq.choose": lambda f: list(pipe(s, seq.choose(f(_opt)))),
        "seq.collect": lambda f: list(pipe(s, seq.collect(f(lambda x: [x, -x])))), "seq.scan": lambda f: list(pipe(s, seq.scan(f(_plus), 0))), "seq.fold": lambda f: pipe(s, seq.fold(f(_plus), 0)),
        "seq.mapi": lambda f: list(pipe(s, seq.mapi(f(_plus)))), "seq.starmap": lambda f: list(pipe(pairs(xs), seq.starmap(f(_plus)))), "seq.sum_by": lambda f: pipe(s, seq.sum_by(f(lambda x: x * x))),
        "init_infinite": lambda f: list(pipe(seq.init_infinite(f(lambda i: i * i)), seq.take(5))), "min_by": lambda f: pipe(s, seq.min_by(f(lambda x: -x))), "max_by": lambda f: pipe(s, seq.max_by(f(lambda x: -x))),
        "delay": lambda f: [list(seq.delay(f(lambda: [1, 2]))) for _ in range(3)], "seq.unfold": lambda f: list(seq.unfold(f(_step))(0)),
    }


def array_reentrant(xs):
    a = TypedArray(xs)
    return {
        "map": lambda f: a.map(f(lambda x: x + 1)), "filter": lambda f: a.filter(f(_odd)), "choose": lambda f: a.choose(f(_opt)),
        "collect": lambda f: a.collect(f(lambda x: TypedArray([x, -x]))), "fold": lambda f: a.fold(f(_plus), 0), "forall": lambda f: a.forall(f(lambda x: x > 0)),
        "sum_by": lambda f: a.sum_by(f(lambda x: x * x)), "sort_with": lambda f: a.sort_with(f(lambda x: -x)), "unfold": lambda f: TypedArray.unfold(f(_step), 0),
        "array.map": lambda f: a.pipe(array.map(f(lambda x: x + 1))), "array.filter": lambda f: a.pipe(array.filter(f(_odd))), "array.fold": lambda f: a.pipe(array.fold(f(_plus), 0)),
        "array.unfold": lambda f: array.unfold(f(_step))(0),
    }


def map_reentrant(xs):
    m = Map.of_seq(enumerate(xs))
    return {
        "map": lambda f: m.map(f(_plus)), "filter": lambda f: m.filter(f(_odd)), "partition": lambda f: m.partition(f(_odd)), "fold": lambda f: m.fold(f(lambda s, kv: s * 3 + kv[0] + kv[1]), 0),
        "fold_back": lambda f: m.fold_back(f(lambda kv, s: s * 3 + kv[0] + kv[1]), 0), "exists": lambda f: m.exists(f(lambda k, v: v == xs[-1])), "for_all": lambda f: m.for_all(f(lambda k, v: v > 0)),
        "iterate": lambda f: m.iterate(f(lambda k, v: None)), "try_pick": lambda f: m.try_pick(f(lambda k, v: Some(v) if v == xs[-1] else Nothing)),
        "map.map": lambda f: map_module.map(f(_plus))(m), "map.filter": lambda f: map_module.filter(f(_odd))(m), "map.partition": lambda f: map_module.partition(f(_odd))(m),
        "map.fold": lambda f: map_module.fold(f(lambda s, kv: s * 3 + kv[0] + kv[1]), 0)(m), "map.fold_back": lambda f: map_module.fold_back(f(lambda kv, s: s * 3 + kv[0] + kv[1]), m)(0),
        "map.exists": lambda f: map_module.exists(f(lambda k, v: v == xs[-1]))(m), "map.for_all": lambda f: map_module.for_all(f(lambda k, v: v > 0))(m),
        "map.iterate": lambda f: map_module.iterate(f(lambda k, v: None))(m), "map.pick": lambda f: map_module.pick(f(lambda k, v: Some(v) if v == xs[-1] else Nothing))(m),
        "map.try_pick": lambda f: map_module.try_pick(f(lambda k, v: Some(v) if v == xs[-1] else Nothing))(m),
        "change": lambda f: [m.change(k, f(lambda o: o.map(lambda x: x + 1))) for k in range(len(xs))],
    }


# -- elements whose own operators raise


class Touchy:
    """Every operator raises, while armed."""

    def __init__(self, e, n=0, armed=None):
        self.e, self.n, self.armed = e, n, armed if armed is not None else [True]

    def _check(self):
        if self.armed[0]:
            raise self.e

    def __eq__(self, o):
        self._check()
        return isinstance(o, Touchy) and self.n == o.n

    def __ne__(self, o):
        self._check()
        return not (isinstance(o, Touchy) and self.n == o.n)

    def __lt__(self, o):
        self._check()
        return self.n < o.n

    def __le__(self, o):
        self._check()
        return self.n <= o.n

    def __gt__(self, o):
        self._check()
        return self.n > o.n

    def __ge__(self, o):
        self._check()
        return self.n >= o.n

    def __hash__(self):
        self._check()
        return hash(self.n)

    def __add__(self, o):
        self._check()
        return self

    __radd__ = __add__

    def __repr__(self):
        return f"Touchy({self.n})"


TROUBLE = [TypeError, ValueError, AttributeError, RuntimeError, NotImplementedError, ZeroDivisionError, AssertionError, RecursionError, OverflowError,
           type("Trouble", (Exception,), {}), type("BaseTrouble", (BaseException,), {})]


def touchy(ctx, table):
    """table: label -> run(make), make(n) giving elements whose operators raise: the exception is passed on."""
    e = ctx.choose("e", TROUBLE)("trouble")
    for label, run in table.items():
        r = odd.outcome(lambda: run(lambda n=0: Touchy(e, n)))
        ctx.check(r[0] == "raise" and r[1] is e, f"{label}: an exception of an element's own operator is passed on", r)


def refuses(ctx, table):
    """table: label -> thunk that needs to compare or add what cannot be."""
    for label, run in table.items():
        r = odd.outcome(run)
        ctx.check(r[0] == "raise" and isinstance(r[1], TypeError), f"{label}: refused with TypeError", r)


# -- arguments of every kind, and functions of every form


def arguments(ctx, table):
    """table: label -> decorate(note) gives a run(*args, **kw), which calls note(args, kw) once with what arrived."""
    v, w = odd.pick(ctx, "v"), Mark()
    a, kw = ctx.choose("call", [
        ((), {}), ((v,), {}), ((v, w), {}), ((w, v, v), {}), ((), {"k": v}), ((v,), {"k": v, "l": w}), ((v,) * 9, {}),
        ((w,), {"fn": v, "args": w, "kw": v}), ((), {"self": v, "value": w, "state": v, "body": w, "gen": v, "f": w, "function": v}),
    ])
    for label, decorate in table.items():
        log = []
        run = decorate(lambda a, kw: log.append((a, kw)))
        r = odd.outcome(lambda: run(*a, **kw))
        ok = r[0] == "ok" and len(log) == 1 and alike(list(log[0][0]), list(a)) and list(log[0][1]) == list(kw) and all(log[0][1][k] is kw[k] for k in kw)
        ctx.check(ok, f"{label}: arguments of every kind reach the function, as they are", (r, log, a, kw))


def forms(fn):
    """Functions that do what fn does, written in other ways."""
    class Object:
        def __call__(self, /, *a, **kw):
            return fn(*a, **kw)

    class Holder:
        def method(self, /, *a, **kw):
            return fn(*a, **kw)

    @functools.wraps(fn)
    def decorated(*a, **kw):
        return fn(*a, **kw)

    return {"function": fn, "lambda": lambda *a, **kw: fn(*a, **kw), "decorated function": decorated,
            "partial": functools.partial(fn), "object": Object(), "method": Holder().method}
