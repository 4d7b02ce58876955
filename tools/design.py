"""Fill the tables of DESIGN.md: per property (below), and planted bugs (seeded/*/meta.json, tools/seeds.json).

python3 tools/design.py
"""

import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = {
    "C01": ("histories of updates with symbolic keys and values; every tree shape reachable with few keys, then one operation with a symbolic key",
            "an association list built by the same history, using only == and < of keys",
            "which rotation happens depends on the order of all keys; tests use a few ascending ones"),
    "C02": ("branching histories in which each operation applies to any earlier version; all shapes, then any operation",
            "a plain copy of every version taken when it was made",
            "sharing is visible only if an older version is read after the right update"),
    "C03": ("pairs of maps, any insertion orders, values with arbitrary equality and hash",
            "bindings compared pairwise; hash agreement wherever equality holds",
            "equality over different shapes with the same bindings; hash collisions"),
    "C04": ("all small shapes, symbolic values, uninterpreted callbacks and predicates, raising ones, call logs",
            "the same operation on the sorted list of bindings, written as a comprehension or loop",
            "a predicate's outcome pattern times the shape; tests use one predicate"),
    "C05": ("elements, callbacks (incl. raising, option- and block-valued), lengths",
            "Python list comprehension or loop; call log",
            "falsy elements and results, callbacks that fail in the middle"),
    "C06": ("counts, indices and slice bounds in a window beyond both ends; elements",
            "list slicing", "edges: negative, zero, equal to and beyond the length"),
    "C07": ("unconstrained ints with duplicates, arbitrary key functions, both directions",
            "order of all pairs plus stability by tagged position; explicit loop for sums and extremes",
            "ties between symbolic elements: all order types of n elements, not one list"),
    "C08": ("sources of every kind (list, tuple, generator, Block, Seq), counts, callbacks, chains of operations",
            "list comprehension or loop", "combinations of source kind, length, count and callback outcome"),
    "C09": ("pipelines chosen symbolically, number of elements asked for, interleaving of two iterations, where one is abandoned",
            "how many elements each stage needs, from the elements the reference produced; source log",
            "over-consumption by one is invisible on finite sources"),
    "C10": ("case, payload (int, None, nested, odd objects), uninterpreted callbacks",
            "case analysis written out; call log", "payloads that are falsy, None or equal to everything"),
    "C11": ("as C10, payload and error", "case analysis written out; call log", "as C10; two errors at once"),
    "C12": ("as C10, plus conversions there and back", "case analysis; identity of payloads",
            "only None may become Nothing: falsy and odd payloads"),
    "C13": ("unions of 1 to 4 cases in all option combinations, payloads with arbitrary equality/hash/order, keyword subsets",
            "a pair (case index, payload) compared by the rules of the statement",
            "combinations of case, payload equality and hash collisions; copying in nested values"),
    "C14": ("every program of a few statements (symbolic choice), values, calls repeated and nested",
            "an interpreter of the program as a chain of binds, with a log of sent values and effects",
            "tests use a handful of programs; state leaking between calls needs two"),
    "C15": ("as C14 for the seq builder", "the list of what the program yields", "as C14"),
    "C16": ("programs, where they suspend, schedule of two computations, cancellation points",
            "the synchronous interpretation of the same program", "interleavings and cancellation"),
    "C17": ("number of functions, stateful and raising functions, grouping of arguments, reuse order of partial applications",
            "direct application", "reuse of partial applications in both orders; falsy intermediate values"),
    "C18": ("functions with symbolic outcome, elements, exception classes", "left-to-right loop; isinstance table",
            "which of several failures is returned; exceptions of sub- and superclasses"),
    "C19": ("every input of a few arbitrary code points, nested combinators (symbolic grammar), start position",
            "a recursive PEG interpreter on the grammar; int/float of the matched text",
            "all inputs: backtracking and greediness need particular ones; Unicode digits"),
    "C20": ("uninterpreted recursion: outcome, number and values of arguments per call; interleaved async calls",
            "plain recursion; measured stack depth", "argument lists that change between calls; interleavings"),
    "C21": ("histories, callbacks that raise/register/unregister; thread schedules with bounded preemptions",
            "a list of live callbacks; each called exactly once", "windows of one bytecode between threads"),
    "C22": ("thread and task schedules, actions that raise, re-enter or suspend; context exits",
            "action count is one", "windows of one bytecode; cancellation inside the action"),
    "C23": ("grouping of posts, suspensions, order of replies, cancellation steps, posting threads",
            "FIFO list; reply map", "step-exact coincidence of cancellation and delivery"),
    "C24": ("which continuation is called, when, how often; token and cancellation step; virtual time; gc",
            "the first call decides", "order and timing of continuations, collected tasks"),
    "C25": ("element types, elements over the whole range of the type, counts, mutations after derivation",
            "Python list", "boundaries of each width; sharing of the backing store"),
    "C26": ("where the source suspends, ends or fails, how much the consumer takes, two consumers interleaved",
            "list operations; source log", "laziness and suspension points"),
    "C27": ("histories of operations, each on any value so far", "copy taken when the value was obtained; identity",
            "aliasing needs a particular pair of operations"),
    "C28": ("any key in all small shapes, long and thinned histories, periodic programs, large maps",
            "at most 2 log2(n+1) + 1 distinct keys compared, depth of frames",
            "tests do not measure cost"),
    "C29": ("types (nesting chosen symbolically), their values, JSON trees right or wrong at each position, over the real schemas",
            "the JSON tree of a value and the set of trees of a type, written out; replays on the real pydantic",
            "nestings of the types and wrong payloads at depth; tests read one well-formed value"),
    "C30": ("payloads, nestings, lengths (a symbolic size) and orders of insertion",
            "the text written out from the elements read back one by one",
            "the cut at 100 elements, infinite sources and odd payloads; tests print short values"),
    "C31": ("the instance relation (an uninterpreted predicate), objects, types plain and parametrised",
            "isinstance", "falsy objects, virtual subclasses; tests cast two or three values"),
}


def between(s, name, new):
    return re.sub(rf"<!-- {name} -->.*<!-- /{name} -->", lambda m: f"<!-- {name} -->\n{new}\n<!-- /{name} -->", s, flags=re.S)


def main():
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(line)
        titles[d["id"]] = d["title"]
    rows = ["| property | symbolic | oracle | beyond tests | quick |", "|---|---|---|---|---|"]
    costs = json.load(open(os.path.join(ROOT, "tools", "costs.json")))
    for p, (sym, orc, why) in PROPS.items():
        rows.append(f"| {p} {titles[p]} | {sym} | {orc} | {why} | {costs.get(p, '?')} |")
    seeds = json.load(open(os.path.join(ROOT, "tools", "seeds.json")))
    srows = ["| planted bug | breaks | caught by |", "|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        srows.append(f"| {d} | {m['what_it_breaks']} | {seeds.get(d, '?')} |".replace("\n", " "))
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    s = between(between(s, "properties", "\n".join(rows)), "seeds", "\n".join(srows))
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
