"""C19: parser combinators recognise what their grammar denotes."""

from __future__ import annotations

import string

from expression import Nothing, Option, Some
from expression.collections import Block
from expression.extra import parser as P_
from expression.extra.parser import Parser

from ..registry import grid, harness
from . import generic
from ..text import code_at, same_text, text

P = "C19"
BOUNDS = (
    "Every combinator (function and method), over operands that are themselves characters, strings, choices, "
    "options, repetitions, mapped, constant or failing parsers (thorough: one more level of nesting), on every "
    "input of up to 4 arbitrary characters (thorough: 5; each character any code point), from start positions 0 "
    "and 1; the number parsers on every input of up to 3 characters (thorough: 4), and on numbers of up to 4 "
    "digits on each side of the point, the character classes on every character; inputs, strings and lists of "
    "4000 elements for the stack depth. Recursive grammars (each combinator inside itself) on every input of up "
    "to 5 characters (thorough: 8); grammars over 22 characters that are special elsewhere (accents, line ends, digits of other "
    "scripts, surrogates), on inputs of up to 4 of them; choices of up to 60 alternatives (thorough: 150) of which two match, anywhere; functions that use the parser they are part of, and uses after ones that "
    "ended in an exception."
)
OUTSIDE = (
    "The text of error messages; repeating a parser that succeeds without consuming anything; choices of several "
    "hundred alternatives (each nests one call); starting positions beyond the end of the input; negative positions."
)
ASSUMPTIONS: list[str] = []

DIGITS = "0123456789"
# characters for inputs that are not symbolic: digits, letters and spaces of other scripts among them
NUMERIC = "-10.+e_\u00b2\u0663"
ODD = "azAZ059 \n\x1c_\u00a0\u00b2\u00e9\u0663\u2003\u212a"


class Fail(Exception):
    pass


def one_of(ctx, s, i, chars):
    """The character of chars that s[i] is, or None; branches only as far as needed."""
    if i >= len(s):
        return None
    c = code_at(ctx, s, i)
    for x in chars:
        if bool(ctx.eq_leaf(c, ord(x))):
            return x
    return None


class G:
    """Grammars: how to build the parser (two spellings) and what it denotes."""

    def __init__(self, ctx, s):
        self.ctx = ctx
        self.s = s
        self.made = {}

    # -- the denotation: (value, position), or None for failure
    def ref(self, g, i):
        ctx, s = self.ctx, self.s
        k = g[0]
        if k == "char":
            return (g[1], i + 1) if one_of(ctx, s, i, g[1]) is not None else None
        if k == "any":
            c = one_of(ctx, s, i, g[1])
            return None if c is None else (c, i + 1)
        if k == "string":
            for c in g[1]:
                if one_of(ctx, s, i, c) is None:
                    return None
                i += 1
            return g[1], i
        if k == "return":
            return g[1], i
        if k == "fail":
            return None
        if k in ("seq", "sequence"):
            vs = []
            for p in g[1:]:
                r = self.ref(p, i)
                if r is None:
                    return None
                vs.append(r[0])
                i = r[1]
            return (tuple(vs) if k == "seq" else Block(vs)), i
        if k in ("or", "choice"):
            for p in g[1:]:
                r = self.ref(p, i)
                if r is not None:
                    return r
            return None
        if k in ("many", "many1"):
            vs = []
            while True:
                r = self.ref(g[1], i)
                if r is None:
                    break
                ctx.assume(r[1] > i)
                vs.append(r[0])
                i = r[1]
            return None if k == "many1" and not vs else (Block(vs), i)
        if k == "opt":
            r = self.ref(g[1], i)
            return (Nothing, i) if r is None else (Some(r[0]), r[1])
        if k == "map":
            r = self.ref(g[1], i)
            return None if r is None else (g[2](r[0]), r[1])
        if k == "starmap":
            r = self.ref(g[1], i)
            return None if r is None else (g[2](*r[0]), r[1])
        if k == "ignore":
            r = self.ref(g[1], i)
            return None if r is None else (None, r[1])
        if k == "bind":
            r = self.ref(g[1], i)
            return None if r is None else self.ref(g[2](r[0]), r[1])
        if k in ("ignore_then", "then_ignore", "between", "apply", "lift2"):
            r = self.ref(("seq", *g[1:4]) if k == "between" else ("seq", *g[-2:]), i)
            if r is None:
                return None
            v, j = r
            if k == "between":
                return v[1], j
            if k == "apply":
                return v[0](v[1]), j
            if k == "lift2":
                return g[1](v[0], v[1]), j
            return v[1 if k == "ignore_then" else 0], j
        if k in ("sep_by", "sep_by1"):
            r = self.ref(g[1], i)
            if r is None:
                return (Block([]), i) if k == "sep_by" else None
            vs, i = [r[0]], r[1]
            while True:
                r = self.ref(("seq", g[2], g[1]), i)
                if r is None:
                    return Block(vs), i
                ctx.assume(r[1] > i)
                vs.append(r[0][1])
                i = r[1]
        if k == "rec":
            return self.ref(g[1][g[2]], i)
        raise AssertionError(k)

    # -- the real thing
    def build(self, g, method):
        k = g[0]
        b = lambda p: self.build(p, method)  # noqa: E731
        if k == "char":
            return Parser.pchar(g[1]) if method else P_.pchar(g[1])
        if k == "any":
            return Parser.any_of(g[1]) if method else P_.any_of(g[1])
        if k == "string":
            return P_.pstring(g[1])
        if k == "return":
            return P_.preturn(g[1])
        if k == "fail":
            return Parser.fail("no") if method else P_.fail("no")
        if k == "seq":
            p, q = b(g[1]), b(g[2])
            return p.and_then(q) if method else P_.and_then(q)(p)
        if k == "sequence":
            return P_.sequence(Block([b(p) for p in g[1:]]))
        if k == "or":
            p, q = b(g[1]), b(g[2])
            return p.or_else(q) if method else P_.or_else(p)(q)
        if k == "choice":
            return P_.choice(Block([b(p) for p in g[1:]]))
        if k == "many":
            return P_.many(b(g[1]))
        if k == "many1":
            return P_.many1(b(g[1]))
        if k == "opt":
            return b(g[1]).opt() if method else P_.opt(b(g[1]))
        if k == "map":
            return b(g[1]).map(g[2]) if method else P_.map(g[2])(b(g[1]))
        if k == "starmap":
            return b(g[1]).starmap(g[2]) if method else P_.starmap(g[2])(b(g[1]))
        if k == "ignore":
            return b(g[1]).ignore() if method else P_.ignore(b(g[1]))
        if k == "bind":
            f = lambda v: b(g[2](v))  # noqa: E731
            return b(g[1]).bind(f) if method else P_.bind(f)(b(g[1]))
        if k == "ignore_then":
            return b(g[1]).ignore_then(b(g[2])) if method else P_.ignore_then(b(g[2]))(b(g[1]))
        if k == "then_ignore":
            return b(g[1]).then_ignore(b(g[2])) if method else P_.then_ignore(b(g[2]))(b(g[1]))
        if k == "between":
            o, p, c = (b(x) for x in g[1:])
            return p.between(o, c) if method else P_.between(o)(c)(p)
        if k == "apply":
            return P_.apply(b(g[1]), b(g[2]))
        if k == "lift2":
            return P_.lift2(lambda x: lambda y: g[1](x, y))(b(g[2]))(b(g[3]))
        if k == "sep_by":
            return P_.sep_by(b(g[1]), b(g[2]))
        if k == "sep_by1":
            return P_.sep_by1(b(g[1]), b(g[2]))
        if k == "rec":
            made = self.made
            if (g[2], method) not in made:
                made[g[2], method] = None
                made[g[2], method] = b(g[1][g[2]])
            return Parser(lambda rest: made[g[2], method].run(rest), g[2])
        raise AssertionError(k)


def compare(ctx, s, g, at, label, twice=True):
    d = G(ctx, s)
    want = d.ref(g, at)
    for method in (False, True):
        p = d.build(g, method)
        for again in range(2 if twice else 1):
            agree(ctx, p, s, at, want, f"{label} ({'method' if method else 'function'}{', again' if again else ''})")


def agree(ctx, p, s, at, want, label):
    r = ctx.outcome(lambda: p.run((s, at)))
    ctx.check(r[0] == "ok", f"{label}: raises", r[1])
    r = r[1]
    if want is None:
        ctx.check(r.is_error(), f"{label}: rejects", r)
    else:
        ctx.check(r.is_ok(), f"{label}: accepts", r)
        v, (rest, pos) = r.ok
        ctx.same(v, want[0], f"{label}: value")
        ctx.check(same_text(ctx, rest[pos:], s[want[1] :]), f"{label}: remaining input")
    if at == 0:
        q = ctx.outcome(lambda: p(s))
        ctx.check(q[0] == "ok", f"{label}: call raises")
        if want is None:
            ctx.check(q[1].is_error(), f"{label}: call rejects")
        else:
            ctx.check(q[1].is_ok(), f"{label}: call accepts")
            ctx.same(q[1].ok, want[0], f"{label}: call gives the value")


A, B = ("char", "a"), ("char", "b")
AB = ("string", "ab")


def operand(ctx, name, kinds):
    k = ctx.choose(name, kinds)
    if k == "return":
        return ("return", ctx.value(f"{name}.v", "val"))
    if k == "map":
        return ("map", ("any", "ab"), ctx.fun(f"{name}.f", "deep"))
    return {
        "a": A,
        "b": B,
        "ab": AB,
        "any": ("any", "ba"),
        "or": ("or", AB, A),
        "opt": ("opt", A),
        "many": ("many", A),
        "many1": ("many1", B),
        "seq": ("seq", A, B),
        "fail": ("fail",),
        "sep": ("sep_by1", A, B),
        "empty": ("string", ""),
    }[k]


ALL = ["a", "ab", "any", "or", "opt", "many", "fail", "return", "map"]
SOME = ["a", "b", "ab", "opt", "fail"]
CONSUMING = ["a", "ab", "any", "or", "many1", "seq", "fail", "map"]

UNARY = {
    "many": CONSUMING,
    "many1": CONSUMING,
    "opt": ALL,
    "map": ALL,
    "ignore": ALL,
    "starmap": ["seq"],
}
BINARY = {
    "seq": (ALL, SOME),
    "or": (["ab", "seq", "a", "map", "fail", "opt"], ["a", "b", "ab", "many", "return", "fail"]),
    "ignore_then": (["a", "opt", "map", "fail", "or"], ALL),
    "then_ignore": (ALL, ["a", "opt", "map", "fail", "b"]),
    "sep_by": (["a", "ab", "any", "seq", "map", "fail"], ["b", "a", "opt", "return", "fail"]),
    "sep_by1": (["a", "ab", "any", "seq", "map", "fail"], ["b", "a", "opt", "return", "fail"]),
}


def input_(ctx, n):
    s = text(ctx, "input", ctx.size("length", 0, n), "ab")
    at = ctx.size("start", 0, 1)
    ctx.assume(at <= len(s))
    return s, at


@harness(P, quick=grid(k=list(UNARY), n=[4]), thorough=grid(k=list(UNARY), n=[6]))
def unary(ctx, k, n):
    g = (k, operand(ctx, "p", UNARY[k]))
    if k == "map":
        g += (ctx.fun("f", "val"),)
    if k == "starmap":
        g += (ctx.fun("f", "val"),)
    s, at = input_(ctx, n)
    compare(ctx, s, g, at, k)


@harness(P, quick=grid(k=list(BINARY), n=[3]), thorough=grid(k=list(BINARY), n=[5]), cost=3)
def binary(ctx, k, n):
    l, r = BINARY[k]
    g = (k, operand(ctx, "p", l), operand(ctx, "q", r))
    s, at = input_(ctx, n)
    compare(ctx, s, g, at, k)


@harness(P, quick=grid(k=["sequence", "choice"], n=[3]), thorough=grid(k=["sequence", "choice"], n=[4]), cost=2)
def lists(ctx, k, n):
    m = ctx.size("parsers", 0 if k == "sequence" else 1, 3)
    kinds = ["a", "b", "opt", "fail"] if k == "sequence" else ["a", "ab", "seq", "map", "fail"]
    g = (k, *[operand(ctx, f"p{i}", [*kinds, "map"] if k == "sequence" and i == 1 else kinds) for i in range(m)])
    s, at = input_(ctx, n)
    compare(ctx, s, g, at, k, twice=False)


@harness(P, quick=grid(n=[4]), thorough=grid(n=[6]))
def betweens(ctx, n):
    g = ("between", operand(ctx, "open", ["a", "opt", "fail"]), operand(ctx, "p", ["b", "ab", "many", "map"]),
         operand(ctx, "close", ["a", "opt", "b"]))
    s, at = input_(ctx, n)
    compare(ctx, s, g, at, "between")


@harness(P, quick=grid(n=[3]), thorough=grid(n=[5]))
def applicative(ctx, n):
    f = ctx.fun("f", "val")
    which = ctx.choose("which", ["apply", "lift2"])
    if which == "apply":
        g = ("apply", ("map", operand(ctx, "p", ["a", "any", "fail", "opt"]), lambda v: lambda w: f(v, w)),
             operand(ctx, "q", ["b", "a", "map", "fail"]))
    else:
        g = ("lift2", f, operand(ctx, "p", ["a", "any", "fail", "opt"]), operand(ctx, "q", ["b", "a", "map", "fail"]))
    s, at = input_(ctx, n)
    compare(ctx, s, g, at, which)


@harness(P, quick=grid(n=[3]), thorough=grid(n=[5]))
def binding(ctx, n):
    """The second parser depends on the value of the first, in every way."""
    pick = ctx.fun("pick", "int")
    first = operand(ctx, "p", ["any", "map", "opt", "fail", "return"])

    def f(v):
        i = pick(v)
        return A if bool(i == 0) else ("fail",) if bool(i == 1) else ("return", v) if bool(i == 2) else AB

    s, at = input_(ctx, n)
    compare(ctx, s, ("bind", first, f), at, "bind")


@harness(P, quick=grid(k=["bind", "apply", "lift2", *UNARY, *BINARY, "choice", "sequence"], n=[1]), thorough=grid(k=["bind", "apply", "lift2", *UNARY, *BINARY, "choice", "sequence"], n=[2]))
def two_inputs(ctx, k, n):
    """A parser is a description: what it did with one input does not show with another."""
    pick, f = ctx.fun("pick", "bool"), ctx.fun("f", "int")
    p, q = ("any", "ab"), ("opt", A)
    g = {
        "bind": lambda: ("bind", p, lambda v: ("return", v) if bool(pick(v)) else A),
        "apply": lambda: ("apply", ("map", p, lambda v: lambda w: f(v, w)), q), "lift2": lambda: ("lift2", f, p, q),
        "map": lambda: ("map", p, f), "starmap": lambda: ("starmap", ("seq", p, q), f), "choice": lambda: ("choice", A, B),
        "sequence": lambda: ("sequence", p, q),
    }.get(k, lambda: (k, p) if k in UNARY else (k, p, q))()
    method = bool(ctx.bool("method"))
    made = None
    for i in range(2):
        s = text(ctx, f"input{i}", ctx.size(f"length{i}", 0, n + 1), "ab")
        d = G(ctx, s)
        want = d.ref(g, 0)
        made = made or d.build(g, method)
        agree(ctx, made, s, 0, want, f"{k}, input {i + 1}")


@harness(P, quick=[], thorough=grid(k=[*UNARY, *BINARY][:-1], n=[4]), cost=2)
def nested(ctx, k, n):
    """One more level: an operand is itself a binary combination."""
    inner = ctx.choose("inner", ["seq", "or", "sep_by1", "then_ignore"])
    sub = (inner, operand(ctx, "p", ["a", "ab", "opt"]), operand(ctx, "q", ["a", "b"]))
    if k == "starmap":
        g = ("starmap", ("seq", sub, A), ctx.fun("f", "int"))
    elif k in UNARY:
        g = (k, sub, ctx.fun("f", "int"))
    else:
        other = operand(ctx, "r", ["a", "b", "many1"])
        g = (k, sub, other) if ctx.bool("left") else (k, other, sub)
    s, at = input_(ctx, n)
    compare(ctx, s, g, at, f"{k} of {inner}", twice=False)


def number(ctx, s, i):
    """-?[0-9]+ : (text, position)"""
    out = ""
    if one_of(ctx, s, i, "-"):
        out, i = "-", i + 1
    d = digits(ctx, s, i)
    return None if d is None else (out + d[0], d[1])


def digits(ctx, s, i):
    out = ""
    while True:
        c = one_of(ctx, s, i, DIGITS)
        if c is None:
            return (out, i) if out else None
        out, i = out + c, i + 1


@harness(P, quick=grid(n=[0, 1, 2, 3]), thorough=grid(n=[0, 1, 2, 3, 4]), cost=4)
def integers(ctx, n):
    s = text(ctx, "input", n, NUMERIC)
    w = number(ctx, s, 0)
    agree(ctx, P_.pint, s, 0, None if w is None else (int(w[0]), w[1]), "pint")
    d = digits(ctx, s, 0)
    agree(ctx, P_.digits, s, 0, None if d is None else (Block(list(d[0])), d[1]), "digits")


@harness(P, quick=grid(n=[0, 1, 2, 3]), thorough=grid(n=[0, 1, 2, 3, 4]), cost=4)
def floats(ctx, n):
    s = text(ctx, "input", n, NUMERIC)
    w = number(ctx, s, 0)
    if w is not None and one_of(ctx, s, w[1], "."):
        f = digits(ctx, s, w[1] + 1)
        if f is not None:
            w = (w[0] + "." + f[0], f[1])
    agree(ctx, P_.pfloat, s, 0, None if w is None else (float(w[0]), w[1]), "pfloat")


@harness(P, quick=grid(pre=["7", "-12", "0"]), thorough=grid(pre=["7", "-12", "0", "-0", "99"]), cost=3)
def numbers_in_context(ctx, pre):
    """A number after something else, and before something else, with a symbolic character on each side."""
    l, m, r = text(ctx, "left", 1, "-1"), text(ctx, "mid", 1, NUMERIC), text(ctx, "right", 1, NUMERIC)
    if not ctx.symbolic or ctx.ex.narrow:
        s = l + pre + m + r
    else:
        s = type(l)([*l.codes, *[ord(c) for c in pre], *m.codes, *r.codes])
    w = number(ctx, s, 1)
    agree(ctx, P_.pint, s, 1, (int(w[0]), w[1]), "pint")
    if one_of(ctx, s, w[1], "."):
        f = digits(ctx, s, w[1] + 1)
        if f is not None:
            w = (w[0] + "." + f[0], f[1])
    agree(ctx, P_.pfloat, s, 1, (float(w[0]), w[1]), "pfloat")


@harness(P, quick=grid(ds=["017"]), thorough=grid(ds=[DIGITS]), cost=3)
def long_numbers(ctx, ds):
    """Numbers of several digits on either side of the point, one of them any digit, with something after them."""
    d = ctx.choose("digit", list(ds))
    whole = ctx.choose("whole", ["", d, "0" + d, "10" + d, d + "000"])
    part = ctx.choose("part", ["", d, "0" + d, "00" + d, d + "0", "10" + d])
    s = ("-" if ctx.bool("minus") else "") + whole + ctx.choose("point", ["", ".", "..", ","]) + part + ctx.choose("after", ["", "x", ".", "-", ".5"])
    w = number(ctx, s, 0)
    agree(ctx, P_.pint, s, 0, None if w is None else (int(w[0]), w[1]), "pint")
    if w is not None and one_of(ctx, s, w[1], "."):
        f = digits(ctx, s, w[1] + 1)
        if f is not None:
            w = (w[0] + "." + f[0], f[1])
    agree(ctx, P_.pfloat, s, 0, None if w is None else (float(w[0]), w[1]), "pfloat")


@harness(P)
def classes(ctx):
    which, chars = ctx.choose("class", [
        ("parse_lowercase", string.ascii_lowercase),
        ("parse_letters", string.ascii_letters),
        ("parse_digit", DIGITS),
        ("whitespace_char", string.whitespace),
    ])
    s = text(ctx, "input", ctx.size("length", 0, 2), ODD)
    c = one_of(ctx, s, 0, chars)
    agree(ctx, getattr(P_, which), s, 0, None if c is None else (c, 1), which)


@harness(P)
def whitespace(ctx):
    s = text(ctx, "input", ctx.size("length", 0, 2), ODD)
    vs, i = [], 0
    while (c := one_of(ctx, s, i, string.whitespace)) is not None:
        vs.append(c)
        i += 1
    agree(ctx, P_.whitespace, s, 0, (Block(vs), i) if vs else None, "whitespace")


@harness(P, quick=grid(n=[4000]), thorough=grid(n=[4000, 40000]))
def long_inputs(ctx, n):
    """Depth of the stack does not grow with the input."""
    last = text(ctx, "last", 1)
    which = ctx.choose("which", ["many", "many1", "sep_by", "sequence", "pstring", "pint"])
    m = 4000 if which == "pint" else n
    body = {"sep_by": "a,", "pint": "1"}.get(which, "a") * m
    s = body + last if not ctx.symbolic or ctx.ex.narrow else type(last)([*[ord(c) for c in body], *last.codes])
    p = {
        "many": lambda: P_.many(P_.pchar("a")),
        "many1": lambda: P_.many1(P_.pchar("a")),
        "sep_by": lambda: P_.sep_by(P_.pchar("a"), P_.pchar(",")),
        "sequence": lambda: P_.sequence(Block([P_.pchar("a")] * m)),
        "pstring": lambda: P_.pstring("a" * m),
        "pint": lambda: P_.pint,
    }[which]()
    r = ctx.outcome(lambda: p.run((s, 0)))
    ctx.check(r[0] == "ok" and r[1].is_ok(), f"{which} on a long input", str(r[1])[:200])
    v, (_, pos) = r[1].ok
    if which in ("sequence", "pstring"):
        ctx.check(len(v) == m and pos == m, f"{which}: length")
    elif which == "pint":
        c = one_of(ctx, s, m, DIGITS)
        ctx.check(v == int("1" * m + (c or "")) and pos == m + (c is not None), "pint: value")
    else:
        more = one_of(ctx, s, len(body), "a") is not None
        k = m + (1 if more else 0)
        ctx.check(len(v) == k, f"{which}: length")
        ctx.check(pos == (len(body) - 1 if which == "sep_by" and not more else len(body) + more), f"{which}: position")


@harness(P)
def starting(ctx):
    """starts_with applies its two parsers in sequence and compares their values."""
    x, y = ctx.choose("x", ["", "a", "ab", "ba"]), ctx.choose("y", ["", "a", "ab", "b"])
    s = text(ctx, "input", ctx.size("length", 0, 4))
    g = G(ctx, s)
    r = g.ref(("seq", ("string", x), ("string", y)), 0)
    p = P_.starts_with(P_.pstring(x))(P_.pstring(y))
    agree(ctx, p, s, 0, None if r is None else (x.startswith(y), r[1]), "starts_with")


@harness(P)
def failing(ctx):
    s, at = input_(ctx, 2)
    for p in (P_.fail("why"), Parser.fail("why"), P_.fail("why").map(ctx.fun("f")), P_.fail("why").and_then(P_.pchar("a"))):
        r = p.run((s, at))
        ctx.check(r.is_error() and r.error == "why", "fail gives the error it was given")
    r = P_.pchar("a").or_else(P_.fail("why")).run((s, at))
    if r.is_error():
        ctx.check(r.error == "why", "the error of the last alternative")
    ctx.check(isinstance(P_.opt(P_.fail("why")).run((s, at)).ok[0], Option), "opt never fails")


INNER = ["many", "many1", "opt", "map", "seq", "sequence", "or", "choice", "sep_by", "sep_by1", "bind", "lift2", "then_ignore", "ignore_then", "between", "two"]


@harness(P, quick=grid(k=INNER, n=[5]), thorough=grid(k=INNER, n=[8]), cost=2)
def recursive(ctx, k, n):
    """Grammars that refer to themselves: a parser runs inside itself."""
    rules = {}
    x, y = ("rec", rules, "x"), ("rec", rules, "y")
    f = ctx.fun("f", "int")
    inner = {
        "map": lambda: ("map", x, f), "seq": lambda: ("seq", x, x), "sequence": lambda: ("sequence", x, x), "or": lambda: ("or", ("seq", x, x), x),
        "choice": lambda: ("choice", ("seq", x, x), x, A), "sep_by": lambda: ("sep_by", x, A), "sep_by1": lambda: ("sep_by1", x, A),
        "bind": lambda: ("bind", x, lambda v: x if v == "b" else ("return", v)), "lift2": lambda: ("lift2", lambda a, b: (b, a), x, x),
        "then_ignore": lambda: ("then_ignore", x, x), "ignore_then": lambda: ("ignore_then", x, x), "between": lambda: ("between", x, x, B),
        "two": lambda: ("many", y),
    }.get(k, lambda: (k, x))()
    base = ctx.choose("base", [B, ("string", "ab"), ("fail",)])
    rules["x"] = ("or", ("between", A, inner, B), base)
    rules["y"] = ("many1", ("or", x, ("string", "aab")))
    s = text(ctx, "input", ctx.size("length", 0, n), "ab")
    compare(ctx, s, x, 0, f"a recursive grammar, {k}")


@harness(P)
def reentrant(ctx):
    """Functions given to parsers may use the parser, and uses that ended in an exception leave nothing behind."""
    cell = generic.Cell()

    def held(*a):
        return cell[0](*a)

    def shown(r):
        return ("ok", r.ok) if r.tag == "ok" else ("error",)

    def through(p, s, good):
        def run(f):
            kept, cell[0] = cell[0], f(good)
            try:
                return shown(p(s))
            finally:
                cell[0] = kept
        return run

    one = lambda v: v * 2  # noqa: E731
    c = P_.any_of("ab").map(held)
    table = {
        "many": through(P_.many(c), "abab", one), "many1": through(P_.many1(c), "abab", one), "sep_by": through(P_.sep_by(c, P_.pchar(",")), "a,b,a", one),
        "sep_by1": through(P_.sep_by1(c, P_.pchar(",")), "a,b,a", one), "opt": through(P_.opt(c).and_then(c), "ab", one), "and_then": through(c.and_then(c).and_then(c), "aba", one),
        "or_else": through(c.and_then(P_.pchar("!")).map(lambda v: v[0]).or_else(c), "ab", one), "sequence": through(P_.sequence(Block([c, c, c])), "aba", one),
        "choice": through(P_.choice(Block([c.then_ignore(P_.pchar("!")), c])), "ab", one), "between": through(c.between(P_.pchar("("), P_.pchar(")")), "(a)", one),
        "then_ignore": through(c.then_ignore(c), "ab", one), "ignore_then": through(c.ignore_then(c), "ab", one), "starmap": through(c.and_then(c).starmap(held), "ab", lambda *a: "".join(a) * 2),
        "bind": through(P_.any_of("ab").bind(held), "ab", lambda v: P_.pchar("b").map(lambda w: v + w)), "lift2": through(P_.lift2(lambda x: lambda y: held(x + y))(c)(c), "ab", one),
        "apply": through(P_.apply(c.map(lambda v: lambda w: held(v + w)), c), "ab", one), "ignore": through(P_.ignore(c).and_then(c), "ab", one),
    }
    generic.reentrant(ctx, table)


ALPHABET = ["\u00e9", "\u00c9", "\u00df", "\r", "\n", "\x00", "\ufeff", "\u0301", "\u0130", "\uff11", "\u00a0", "\u2028", "\U0001f600", "\ud800", "K", "\u212a", " ", "\t", "\\", "\"", "%", "{"]


@harness(P, quick=grid(k=["char", "any", "string", "many", "sequence", "sep_by", "or"]), cost=2)
def alphabet(ctx, k):
    """No character is special to a parser, and none stands for another."""
    c, d = ctx.choose("c", ALPHABET), ctx.choose("d", ["a", "\n", "\u0301", "i"])
    s = ctx.choose("input", ["", c, d, c + d, d + c, c + c, c.upper(), c.lower(), c.swapcase(), c.casefold(), "e\u0301", "\r\n" + c, "a\r\na", "\ufeff" + c, " " + c])
    g = {
        "char": ("char", c), "any": ("any", c + d + c), "string": ("string", c + d), "many": ("many", ("any", c + d)), "sequence": ("sequence", ("char", c), ("char", d)),
        "sep_by": ("sep_by", ("char", c), ("char", d)), "or": ("or", ("string", c + d), ("seq", ("char", c), ("opt", ("char", c)))),
    }[k]
    compare(ctx, s, g, ctx.size("start", 0, min(1, len(s))), k, twice=False)


@harness(P, quick=grid(n=[5, 11, 20, 60]), thorough=grid(n=[5, 11, 20, 60, 150]))
def alternatives(ctx, n):
    """Of many alternatives the first that matches is taken, wherever it stands."""
    places = list(range(n)) if n < 12 else sorted({0, 1, 2, 4, 7, 8, 9, 10, 15, 16, n // 2, n - 2, n - 1})
    i, j = ctx.choose("first", places), ctx.choose("second", [*places, n])
    alts = [("fail",)] * n
    alts[i] = ctx.choose("kind", [("map", A, lambda v: "first"), AB, ("opt", B), ("string", "")])
    if j < n and j != i:
        alts[j] = ("map", ("string", "a"), lambda v: "second")
    for s in ("", "a", "ab", "b", "c"):
        compare(ctx, s, ("choice", *alts), 0, f"a choice of {n}", twice=False)
    chars = [chr(200 + x) for x in range(n)]
    for s in (chars[i], chars[min(j, n - 1)] + "a", "a"):
        compare(ctx, s, ("any", "".join(chars)), 0, f"any of {n} characters", twice=False)


@harness(P)
def spread(ctx):
    """starmap spreads any iterable."""
    v = ctx.choose("value", ["", "ab", [1, 2], range(3), (1,), {"k": 1}, (), [[]], b"ab", frozenset({7})])
    x = ctx.choose("parser", [("return", v), ("map", A, lambda _: v)])
    compare(ctx, ctx.choose("input", ["", "a"]), ("starmap", x, lambda *a: ("got", a)), 0, "starmap")
