"""C17: pipe, compose, curry and flip are the functions they denote."""

from __future__ import annotations

from expression import Error, Nothing, Ok, Some, compose, curry, curry_flip, flip, fst, identity, pipe, pipe2, pipe3, pipeable, snd
from expression.collections import Block, Map, Seq
from expression.core.compose import starcompose
from expression.core.misc import starid
from expression.core.pipe import starpipe

from ..registry import grid, harness
from . import generic, odd
from .common import exact as both

P = "C17"
BOUNDS = (
    "0 to 4 functions (thorough: 6), each an arbitrary pure or stateful function of its arguments that may raise,"
    " on an arbitrary value (any int, None, nested options, results); chains of 2000 functions; curry and "
    "curry_flip of 0 to 4 arguments (thorough: 5), 0 to 2 arguments per curried stage, 0 to 2 trailing positional"
    " and 0 to 2 keyword arguments, each partial application reused for two continuations in both orders. Values "
    "of about 60 kinds, callables of a dozen shapes, exceptions of 40 kinds, functions that use the composition "
    "they are part of or run in two threads at once."
)
OUTSIDE = "Keyword arguments given to a stage that is not the last (curry) or the first (curry_flip): not part of the documented signature."
ASSUMPTIONS: list[str] = []

RET = ("raises", "deep")


def chain(x, fns):
    for f in fns:
        x = f(x)
    return x


def mk(ctx, n, log, spec=RET):
    k = ctx.size("functions", 0, n)
    return [ctx.impure(f"f{i}", spec, log) for i in range(k)]


@harness(P, quick=grid(n=[2, 4], how=["compose", "pipe"]), thorough=grid(n=[3, 6], how=["compose", "pipe"]), cost=3)
def pipes(ctx, n, how):
    x = ctx.value("x", "deep")
    log = []
    # the functions are stateful, so a second call of one of them would show in the log and in the values
    spec = RET if n < 4 else ("raises", "val")
    k = ctx.size("functions", 0, n)

    def fns():
        return [ctx.impure(f"f{i}", spec, log) for i in range(k)]

    ctx.names.clear()
    want = ctx.outcome(lambda: chain(x, fns()))
    want_log = list(log)
    log.clear()
    ctx.names.clear()
    if how == "compose":
        c = compose(*fns())
        ctx.same(log, [], "composing calls nothing")
        got = ctx.outcome(lambda: c(x))
    else:
        got = ctx.outcome(lambda: pipe(x, *fns()))
    ctx.same(got, want, f"{how}: value")
    ctx.same([a for _, a in log], [a for _, a in want_log], f"{how}: calls")
    ctx.same([a for a, _ in log], [a for a, _ in want_log], f"{how}: which functions")


@harness(P)
def composition_is_reusable(ctx):
    """A composition is a function: calling it again, or building on it, does not change it."""
    f, g, h = ctx.fun("f", "int"), ctx.fun("g", "val"), ctx.fun("h", "int")
    x, y = ctx.value("x", "deep"), ctx.value("y", "int")
    c = compose(f, g)
    d = compose(c, h)
    e = compose(h, c)
    order = ctx.choose("order", [0, 1])
    if order:
        d(y), e(y)
    ctx.same(c(x), g(f(x)), "compose")
    ctx.same(d(x), h(g(f(x))), "compose of compose")
    ctx.same(e(y), g(f(h(y))), "compose before")
    ctx.same(c(y), g(f(y)), "compose again")
    ctx.same(compose(compose(), f)(x), f(x), "left identity")
    ctx.same(compose(f, compose())(x), f(x), "right identity")


@harness(P, quick=grid(n=[2000]), thorough=grid(n=[20000]))
def long_chain(ctx, n):
    x = ctx.int("x")
    log = []

    def mkf(i):
        def f(v):
            log.append(i)
            return v + 1 if i % (n // 4) == 0 else v

        return f

    fns = [mkf(i) for i in range(n)]
    for name, run in [
        ("pipe", lambda: pipe(x, *fns)),
        ("compose", lambda: compose(*fns)(x)),
        ("starpipe", lambda: starpipe((x,), *[lambda v, f=f: (f(v),) for f in fns])[0]),
        ("method", lambda: Some(x).pipe(lambda o: o.some, *fns)),
    ]:
        log.clear()
        ctx.same(ctx.outcome(run), ("ok", x + 4), f"long {name}")
        ctx.check(log == list(range(n)), f"long {name}: each function once, in order")


@harness(P, quick=grid(n=[3]), thorough=grid(n=[4]))
def tuples(ctx, n):
    a, b, c = ctx.int("a"), ctx.value("b", "val"), ctx.int("c")
    log = []
    k = ctx.size("functions", 0, n)

    def cur2(f):
        return lambda x: lambda y: f(x, y)

    def cur3(f):
        return lambda x: lambda y: lambda z: f(x, y, z)

    f = ctx.fun("f", ("raises", "val"), log)
    rest = [ctx.fun(f"g{i}", ("raises", "int"), log) for i in range(k - 1)]

    def expect(args):
        return args if k == 0 else chain(f(*args), rest)

    for name, args, run in [
        ("pipe2", (a, b), lambda: pipe2((a, b), *([cur2(f)] + rest if k else []))),
        ("pipe3", (a, b, c), lambda: pipe3((a, b, c), *([cur3(f)] + rest if k else []))),
    ]:
        log.clear()
        want = ctx.outcome(lambda: expect(args))
        calls = list(log)
        log.clear()
        ctx.same(ctx.outcome(run), want, f"{name}: value")
        ctx.same(log, calls, f"{name}: calls")


@harness(P, quick=grid(n=[3]), thorough=grid(n=[4]))
def stars(ctx, n):
    """starpipe and starcompose unpack the tuple between stages."""
    k = ctx.size("functions", 0, n)
    widths = [ctx.size(f"width{i}", 0, 2) for i in range(k)]
    args = tuple(ctx.value(f"a{i}", "val") for i in range(ctx.size("args", 0, 2)))
    log = []
    specs = [("raises", ("tuple", *["int"] * w)) if i < k - 1 else RET for i, w in enumerate(widths)]
    fns = [ctx.fun(f"f{i}", specs[i], log) for i in range(k)]

    def expect():
        v = args
        for f in fns:
            v = f(*v)
        return v

    want = ctx.outcome(expect)
    calls = list(log)
    for name, run in [
        ("starcompose", lambda: starcompose(*fns)(args)),
        ("starpipe", lambda: starpipe(args, *fns)),
    ]:
        log.clear()
        ctx.same(ctx.outcome(run), want, f"{name}: value")
        ctx.same(log, calls, f"{name}: calls")
    ctx.same(starid(*args), args, "starid")


KEYS = ["p", "q"]


def kwfun(ctx, name, log):
    f = ctx.fun(name, ("raises", "val"))

    def g(*args, **kw):
        log.append((args, tuple(sorted(kw.items()))))
        return f(args, tuple((k, v) for k, v in sorted(kw.items())))

    return g


def args_of(ctx, name, lo=0, hi=2, spec="int"):
    return [ctx.value(f"{name}{i}", spec) for i in range(ctx.size(f"|{name}|", lo, hi))]


def kws_of(ctx, name):
    return {k: ctx.value(f"{name}.{k}", "int") for k in KEYS[: ctx.size(f"|{name}|", 0, 2)]}


@harness(P, quick=grid(n=[0, 1, 2, 3, 4]), thorough=grid(n=[0, 1, 2, 3, 4, 5]))
def currying(ctx, n):
    log = []
    f = kwfun(ctx, "f", log)
    lead = [ctx.value(f"a{i}", "val" if i in (0, n - 1) and n < 3 else "int") for i in range(n)]
    rest, kw = args_of(ctx, "r"), kws_of(ctx, "k")
    g = curry(n)(f)
    for a in lead:
        g = g(a)
    ctx.check(len(log) == 0, "nothing is called before the last stage")
    want = ctx.outcome(lambda: f(*lead, *rest, **kw))
    calls = list(log)
    log.clear()
    got = ctx.outcome(lambda: g(*rest, **kw))
    ctx.same(got, want, "curry: value")
    ctx.same(log, calls, "curry: called once, with these arguments")
    # the last stage can be called again, with other arguments
    other = args_of(ctx, "o", 1, 1)
    ctx.same(ctx.outcome(lambda: g(*other)), ctx.outcome(lambda: f(*lead, *other)), "curry: last stage again")
    ctx.same(ctx.outcome(lambda: g(*rest, **kw)), want, "curry: last stage, first arguments again")


@harness(P, quick=grid(n=[1, 2, 3]), thorough=grid(n=[1, 2, 3, 4]))
def curry_groups(ctx, n):
    """Any grouping of the positional arguments over the stages."""
    log = []
    f = kwfun(ctx, "f", log)
    stages = [args_of(ctx, f"s{i}.") for i in range(n + 1)]
    g = curry(n)(f)
    for s in stages[:-1]:
        g = g(*s)
    got = ctx.outcome(lambda: g(*stages[-1]))
    ctx.check(len(log) == 1, "called exactly once")
    ctx.same(got, ctx.outcome(lambda: f(*[a for s in stages for a in s])), "curry: any grouping")


@harness(P, quick=grid(n=[1, 2, 3, 4]), thorough=grid(n=[1, 2, 3, 4, 5]))
def partials(ctx, n):
    """Partial applications are independent: branch at a symbolic stage, finish both in either order."""
    log = []
    f = kwfun(ctx, "f", log)
    at = ctx.size("branch", 0, n - 1)
    x = [ctx.int(f"x{i}") for i in range(n)]
    y = x[:at] + [ctx.int(f"y{i}") for i in range(at, n)]
    r = ctx.int("r")
    which = ctx.choose("which", ["curry", "curry_flip"])
    g = curry(n)(f) if which == "curry" else curry_flip(n)(f)(r, p=r)
    for a in x[:at]:
        g = g(a)
    order = ctx.choose("order", ["one after the other", "stepwise", "reversed"])
    last = (r,) if which == "curry" else ()
    trail = {} if which == "curry" else dict(p=r)

    def step(h, a, i):
        return ctx.outcome(lambda: h(a)) if which == "curry_flip" and i == n - 1 else h(a)

    def finish(h, args):
        for i in range(at, n):
            h = step(h, args[i], i)
        return h if which == "curry_flip" else ctx.outcome(lambda: h(*last))

    if order == "one after the other":
        u, v = finish(g, x), finish(g, y)
    elif order == "reversed":
        v, u = finish(g, y), finish(g, x)
    else:
        p, q = g, g
        for i in range(at, n):
            p, q = step(p, x[i], i), step(q, y[i], i)
        u, v = (p, q) if which == "curry_flip" else (ctx.outcome(lambda: p(*last)), ctx.outcome(lambda: q(*last)))
    ctx.check(len(log) == 2, "each completed application calls once")
    ctx.same(u, ctx.outcome(lambda: f(*x, r, **trail)), f"{which}: first branch")
    ctx.same(v, ctx.outcome(lambda: f(*y, r, **trail)), f"{which}: second branch")


@harness(P, quick=grid(n=[0, 1, 2, 3, 4]), thorough=grid(n=[0, 1, 2, 3, 4, 5]), cost=2)
def flipping(ctx, n):
    log = []
    f = kwfun(ctx, "f", log)
    lead = [ctx.value(f"a{i}", "val" if i in (0, n - 1) and n < 3 else "int") for i in range(n)]
    rest, kw = args_of(ctx, "r"), kws_of(ctx, "k")
    want = ctx.outcome(lambda: f(*lead, *rest, **kw))
    calls = list(log)
    log.clear()

    def run(args):
        g = curry_flip(n)(f)(*rest, **kw)
        ctx.check(n == 0 or len(log) == 0, "nothing is called before the last stage")
        for a in args:
            g = g(a)
        return g

    ctx.same(ctx.outcome(lambda: run(lead)), want, "curry_flip: value")
    ctx.same(log, calls, "curry_flip: called once, with these arguments")
    if n == 1:
        log.clear()
        ctx.same(ctx.outcome(lambda: pipeable(f, *rest, **kw)(*lead)), want, "pipeable: value")
        ctx.same(log, calls, "pipeable: called once, with these arguments")
        g = pipeable(f, *rest, **kw)
        z = ctx.value("z", "int")
        ctx.same(ctx.outcome(lambda: g(z)), ctx.outcome(lambda: f(z, *rest, **kw)), "pipeable: reused")
        ctx.same(ctx.outcome(lambda: g(*lead)), want, "pipeable: reused again")


@harness(P)
def small(ctx):
    a, b = ctx.value("a", "deep"), ctx.value("b", "deep")
    f = ctx.fun("f", RET)
    log = []
    g = ctx.fun("g", RET, log)
    both(ctx, "flip", lambda: f(a, b), lambda: flip(f)(b, a), lambda: flip(flip(f))(a, b))
    ctx.outcome(lambda: flip(g)(b, a))
    ctx.check(len(log) == 1, "flip calls once")
    ctx.check(identity(a) is a, "identity")
    ctx.check(fst((a, b)) is a, "fst")
    ctx.check(snd((a, b)) is b, "snd")
    ctx.check(pipe(a) is a, "pipe of a value alone")
    ctx.check(compose()(a) is a, "composition of nothing")


@harness(P, quick=grid(kind=["some", "nothing", "ok", "error", "block", "seq", "map"]))
def methods(ctx, kind):
    """The pipe method of each type is pipe of the value itself."""
    a = ctx.value("a", "val")
    v = {
        "some": lambda: Some(a),
        "nothing": lambda: Nothing,
        "ok": lambda: Ok(a),
        "error": lambda: Error(a),
        "block": lambda: Block([a]),
        "seq": lambda: Seq([a]),
        "map": lambda: Map.of(x=a),
    }[kind]()
    log = []
    k = ctx.size("functions", 1, 4)
    fns = [ctx.fun(f"f{i}", ("raises", "int"), log) for i in range(k)]
    seen = []

    def first(x):
        seen.append(x)
        return fns[0](a)

    want = ctx.outcome(lambda: chain(a, fns))
    calls = list(log)
    log.clear()
    ctx.same(ctx.outcome(lambda: v.pipe(first, *fns[1:])), want, "pipe method: value")
    ctx.same(log, calls, "pipe method: calls")
    ctx.check(len(seen) == 1 and seen[0] is v, "pipe method: passes the value itself")


@harness(P)
def any_payload(ctx):
    """Values of every kind are passed on as they are."""
    v, w = odd.pick(ctx, "v"), ctx.choose("second", [1, None])
    seen = []

    def same(x):
        seen.append(x)
        return x

    odd.is_(ctx, pipe(v, same, same, lambda x: x), v, "pipe")
    odd.is_(ctx, compose(same, same)(v), v, "compose")
    odd.is_(ctx, pipe(w, lambda _: v, same), v, "pipe, from the middle")
    odd.is_(ctx, pipe2((w, v), lambda a: lambda b: same(b), same), v, "pipe2")
    odd.is_(ctx, pipe2((v, w), lambda a: lambda b: same(a), same), v, "pipe2, first")
    odd.is_(ctx, pipe3((w, 2, v), lambda a: lambda b: lambda c: same(c), same), v, "pipe3")
    odd.is_(ctx, pipe3((v, 2, w), lambda a: lambda b: lambda c: same(a), same), v, "pipe3, first")
    odd.is_(ctx, pipe3((w, v, w), lambda a: lambda b: lambda c: same(b)), v, "pipe3, second")
    odd.is_(ctx, starpipe((v, w), lambda a, b: (b, a), lambda a, b: same(b)), v, "starpipe")
    odd.is_(ctx, starcompose(lambda a, b: (b, a), lambda a, b: same(b))((v, w)), v, "starcompose")
    odd.is_(ctx, Some(v).pipe(lambda o: o.some, same), v, "pipe method")
    odd.is_(ctx, flip(lambda a, b: same(b))(v, w), v, "flip")
    odd.is_(ctx, flip(lambda a, b: same(a))(w, v), v, "flip, first")
    odd.is_(ctx, identity(v), v, "identity")
    odd.is_(ctx, fst((v, w)), v, "fst")
    odd.is_(ctx, snd((w, v)), v, "snd")
    ctx.check(starid(v, w)[0] is v and len(starid(v)) == 1, "starid")

    def f(a, b, c, k=0):
        return (a, b, c, k)

    for i in range(4):
        args = [1, 2, 3, 4]
        args[i] = v
        a, b, c, k = args
        for lab, r in (
            ("curry(1)", lambda: curry(1)(f)(a)(b, c, k)),
            ("curry(2)", lambda: curry(2)(f)(a)(b)(c, k=k)),
            ("curry(3)", lambda: curry(3)(f)(a)(b)(c)(k)),
            ("curry_flip(1)", lambda: curry_flip(1)(f)(b, c, k)(a)),
            ("curry_flip(2)", lambda: curry_flip(2)(f)(c, k=k)(a)(b)),
            ("curry_flip(3)", lambda: curry_flip(3)(f)(k=k)(a)(b)(c)),
            ("pipeable", lambda: pipeable(f, b, c, k=k)(a)),
        ):
            odd.is_(ctx, r()[i], v, lab)


@harness(P)
def any_exception(ctx):
    """Exceptions of every type are passed on as they are."""
    e, shape = odd.exception_or_shape(ctx, stop=True)
    log = []

    def boom(*args, **kw):
        log.append(args)
        raise e

    def never(*args):
        log.append("never")

    boom = shape(boom)
    for lab, f in (
        ("pipe", lambda: pipe(1, identity, boom, never)),
        ("compose", lambda: compose(identity, boom, never)(1)),
        ("pipe2", lambda: pipe2((1, 2), lambda a: boom, never)),
        ("pipe3", lambda: pipe3((1, 2, 3), lambda a: lambda b: boom, never)),
        ("starpipe", lambda: starpipe((1, 2), boom, never)),
        ("starpipe, later", lambda: starpipe((1, 2), lambda a, b: (a, b), boom, never)),
        ("pipe method", lambda: Some(1).pipe(boom, never)),
        ("flip", lambda: flip(boom)(1, 2)),
        ("curry", lambda: curry(1)(boom)(1)(2)),
        ("curry_flip", lambda: curry_flip(1)(boom)(1)(2)),
        ("pipeable", lambda: pipeable(boom, 1)(2)),
    ):
        log.clear()
        odd.passes(ctx, f, e, lab)
        ctx.check(len(log) == 1, f"{lab}: called once, and nothing after it")


@harness(P, quick=grid(n=[0, 1, 2]), thorough=grid(n=[0, 1, 2, 3]))
def applications(ctx, n):
    """Several applications of one curried function, with different keyword arguments, do not see each other's."""
    log = []
    f = kwfun(ctx, "f", log)
    which = ctx.choose("which", ["curry", "curry_flip", "pipeable"])
    if which == "pipeable":
        ctx.assume(n == 1)
    g = curry(n)(f) if which == "curry" else curry_flip(n)(f)
    sets = [{}, {"p": 1}, {"q": 2}, {"p": 3, "q": 4}]
    k1, k2 = ctx.choose("keywords of the first", sets), ctx.choose("keywords of the second", sets)
    r1 = tuple(ctx.int(f"r{i}") for i in range(ctx.size("|r1|", 0, 1)))
    r2 = tuple(ctx.int(f"s{i}") for i in range(ctx.size("|r2|", 0, 1)))
    x = [ctx.int(f"x{i}") for i in range(n)]

    def start(r, k):
        if which == "curry":
            return g
        return pipeable(f, *r, **k) if which == "pipeable" else (g(*r, **k) if n else lambda: g(*r, **k))

    def finish(h, r, k):
        for a in x[:n]:
            h = h(a)
        if which == "curry":
            return h(*r, **k)
        return h() if not n else h

    want1 = ctx.outcome(lambda: f(*x, *r1, **k1))
    want2 = ctx.outcome(lambda: f(*x, *r2, **k2))
    k1_, k2_ = dict(k1), dict(k2)
    h1, h2 = start(r1, k1), start(r2, k2)
    ctx.same(ctx.outcome(lambda: finish(h1, r1, k1)), want1, f"{which}: first application")
    ctx.same(ctx.outcome(lambda: finish(h2, r2, k2)), want2, f"{which}: second application")
    ctx.same(ctx.outcome(lambda: finish(h1, r1, k1)), want1, f"{which}: first application, again")
    ctx.check(k1 == k1_ and k2 == k2_, "the keyword arguments of the caller are left alone")


@harness(P, quick=grid(n=[3]), thorough=grid(n=[5]))
def every_call(ctx, n):
    """The functions need not be pure: each call of a composition calls them again, also with the same argument."""
    x = ctx.int("x")
    values = ctx.ints("answer", n)
    count = [0]

    def tick(*_):
        count[0] += 1
        return values[count[0] - 1]

    which = ctx.choose("which", ["compose", "compose, later", "starcompose", "curry", "curry_flip", "pipeable", "flip", "pipe", "pipe2", "pipe3", "starpipe", "method"])
    o = Some(x)
    c = {
        "compose": lambda: compose(tick, identity), "compose, later": lambda: compose(identity, tick), "starcompose": lambda: starcompose(tick),
        "curry": lambda: curry(1)(tick)(x), "curry_flip": lambda: curry_flip(1)(tick)(x), "pipeable": lambda: pipeable(tick, x),
        "flip": lambda: lambda v, g=flip(tick): g(v, v), "pipe": lambda: lambda v: pipe(v, tick), "pipe2": lambda: lambda v: pipe2((v, v), lambda a: tick),
        "pipe3": lambda: lambda v: pipe3((v, v, v), lambda a: lambda b: tick), "starpipe": lambda: lambda v: starpipe((v,), lambda *a: a, tick),
        "method": lambda: lambda v: o.pipe(tick),
    }[which]()
    for i in range(n):
        ctx.same(c((x,) if which == "starcompose" else x), values[i], f"{which}: called again")
        ctx.check(count[0] == i + 1, f"{which}: one call each time")


@harness(P)
def reentrant(ctx):
    """Callbacks may use the operation themselves, and uses that ended in an exception leave nothing behind."""
    inc, dbl, pair = (lambda x: x + 1), (lambda x: x * 2), (lambda a, b: a * 3 + b)
    cell = generic.Cell()

    def held(*a):
        return cell[0](*a)

    def through(c, x):
        """A composition made once, of a function that is set for each use."""
        def run(f):
            kept, cell[0] = cell[0], f(inc)
            try:
                return c(x)
            finally:
                cell[0] = kept
        return run

    made = {
        "compose": compose(dbl, held, dbl), "compose, twice": compose(held, dbl, held), "starcompose": lambda x, c=starcompose(lambda a: (a,), lambda a: held(a)): c((x,)),
        "curry": curry(1)(lambda a, b: held(a) * 3 + b)(5), "curry_flip": curry_flip(1)(lambda a, b: held(a) * 3 + b)(5), "pipeable": pipeable(lambda a, b: held(a) * 3 + b, 5),
        "flip": lambda x, g=flip(lambda a, b: held(a) * 3 + b): g(x, 5),
    }
    table = {f"a {k} made once": through(c, 4) for k, c in made.items()}
    table |= {
        "pipe": lambda f: pipe(4, f(inc), f(dbl), f(inc)), "pipe2": lambda f: pipe2((4, 5), f(lambda a: lambda b: a * 3 + b), f(inc)),
        "pipe3": lambda f: pipe3((4, 5, 6), f(lambda a: lambda b: lambda c: a * 9 + b * 3 + c), f(inc)), "starpipe": lambda f: starpipe((4, 5), f(lambda a, b: (b, a)), f(pair)),
        "compose": lambda f: compose(f(inc), f(dbl), f(inc))(4), "starcompose": lambda f: starcompose(f(lambda a, b: (b, a)), f(pair))((4, 5)),
        "curry": lambda f: curry(1)(f(pair))(4)(5), "curry_flip": lambda f: curry_flip(1)(f(pair))(4)(5), "flip": lambda f: flip(f(pair))(4, 5),
        "method": lambda f: Some(4).pipe(f(lambda o: o.map(inc)), f(lambda o: o.map(dbl))),
    }
    generic.reentrant(ctx, table)
