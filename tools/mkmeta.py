"""Writes properties.jsonl and MANIFEST.json (run by hand, its output is committed)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

C = "expression/collections/"
K = "expression/core/"
S = "expression/system/"
E = "expression/effect/"


def m(name, where):
    return dict(name=name, where=where)


PROPS = [
    dict(
        id="C01",
        title="A Map behaves as a finite function after any history of updates",
        statement=(
            "After any sequence of creations, additions, removals and changes, looking up, testing and "
            "counting keys of a Map gives exactly what a finite function given the same history gives: the last value "
            "bound to a key, nothing for a key that was removed or never bound. Iteration, and every conversion to a "
            "sequence, lists each binding exactly once, in ascending key order, whatever the order of insertion. "
            "Creating a Map from a long sequence works, with the last of several bindings for a key winning."
        ),
        over=["histories", "inputs"],
        text="for all histories of updates, all keys and all values",
        tests="The tests use a few hand-written maps and random small dictionaries; which rebalancing case of the tree a removal or insertion takes depends on the history, so most tree shapes are never reached.",
        files=[C + "map.py", C + "maptree.py"],
        mech=[m("balanced tree: add, remove, change, rebalance, mk, splice_out_successor", C + "maptree.py"),
              m("Map facade: add, remove, change, try_find, __getitem__, of_seq", C + "map.py")],
    ),
    dict(
        id="C02",
        title="A Map is persistent: no operation changes an existing version",
        statement=(
            "Every update returns a new Map and leaves the Map it was applied to, and every other Map that existed "
            "before, exactly as it was: same bindings, same order, same size, same equality and same hash. This holds "
            "however the versions branch, and reading (iterating, folding, filtering, partitioning) changes nothing either."
        ),
        over=["histories", "inputs"],
        text="for all branching histories of versions, all keys and values",
        tests="Tests read back the result of an operation, hardly ever the operand after it; sharing of subtrees between versions is only observable by keeping all versions of a history.",
        files=[C + "map.py", C + "maptree.py"],
        mech=[m("nodes are frozen dataclasses, updates rebuild the path", C + "maptree.py"), m("Map keeps one tree", C + "map.py")],
    ),
    dict(
        id="C03",
        title="Map equality and hash depend only on the bindings",
        statement=(
            "Two Maps are equal exactly if they hold the same keys with equal values, regardless of how and in which "
            "order they were built, and in particular a Map is never equal to one that has more bindings. Equality is "
            "symmetric, consistent with !=, and equal Maps have equal hashes."
        ),
        over=["inputs", "histories"],
        text="for all pairs of maps and all histories that produce them",
        tests="Tests compare maps built the same way; equal maps with different tree shapes and unequal maps that share a prefix are not sampled.",
        files=[C + "map.py"],
        mech=[m("Map.__eq__, Map.__hash__", C + "map.py"), m("in-order iteration", C + "maptree.py")],
    ),
    dict(
        id="C04",
        title="Bulk operations on a Map agree with its list of bindings",
        statement=(
            "Filtering, partitioning, mapping, folding in either direction, iterating, searching, picking, testing "
            "for all or for any, and converting a Map give what the same operation on its list of bindings in "
            "ascending key order gives, with callbacks called once on each binding in that order (partitioning calls "
            "its predicate once on each binding in an order of its own). Failed searches give "
            "Nothing, or KeyError where an exception is documented, and the results are themselves ordinary maps."
        ),
        over=["inputs", "histories"],
        text="for all maps, callbacks and keys",
        tests="Tests run each operation on one or two maps with one callback; the order of callbacks and the behaviour on every tree shape is not sampled.",
        files=[C + "map.py", C + "maptree.py"],
        mech=[m("filter, partition, map, fold, fold_back, try_pick, exists, for_all", C + "maptree.py"), m("module functions", C + "map.py")],
    ),
    dict(
        id="C05",
        title="Element-wise Block operations match Python lists",
        statement=(
            "Creating, mapping, filtering, choosing, collecting, reducing, folding, unfolding, zipping, indexing, "
            "partitioning, iterating and comparing Blocks gives exactly what the same operation on the Python list of "
            "the elements gives, in order, for empty and non-empty Blocks alike. Callbacks are called once per element, "
            "in order, their exceptions are passed on, and the method and the curried function of the same name agree."
        ),
        over=["inputs"],
        text="for all blocks, elements and callbacks",
        tests="Each operation is tested on a few lists and one callback; falsy elements, None results, exceptions and edge lengths are not crossed with each operation.",
        files=[C + "block.py"],
        mech=[m("Block methods over an immutable tuple", C + "block.py")],
    ),
    dict(
        id="C06",
        title="Positional Block operations match Python lists",
        statement=(
            "Taking, skipping, splitting, slicing, indexing, head, tail, last and the other positional operations on a "
            "Block, from either end, give what list slicing gives for every length and every count or index, and raise "
            "exactly where documented. Appending, concatenating and consing give the concatenation of the lists."
        ),
        over=["inputs"],
        text="for all blocks, counts and indices",
        tests="Tests use one or two counts per operation; the edges (0, the length, beyond it, negative) are where implementations differ.",
        files=[C + "block.py"],
        mech=[m("skip, take, skip_last, take_last, __getitem__, head, tail, append, cons", C + "block.py")],
    ),
    dict(
        id="C07",
        title="Sorting is a stable ordered permutation; sums and extremes are exact",
        statement=(
            "Sorting a collection, with or without a key function, returns a permutation of the elements in "
            "non-decreasing order (non-increasing if reversed) in which elements with equal keys keep their original "
            "order, and leaves the collection as it was. Sum, minimum and maximum, with or without a projection, are "
            "those of the list of elements, the first one on ties."
        ),
        over=["inputs"],
        text="for all collections of comparable elements and all key functions",
        tests="Tests sort a few lists without ties, so stability and the treatment of equal keys is not observed.",
        files=[C + "block.py", C + "array.py", C + "seq.py"],
        mech=[m("sort, sort_with, sum, sum_by, min, max, min_by, max_by", C + "block.py, array.py, seq.py")],
    ),
    dict(
        id="C08",
        title="Seq operations give what the same list operations give",
        statement=(
            "Every Seq operation (mapping, choosing, filtering, collecting, folding, scanning, zipping, pairing, "
            "taking, skipping, searching, summing, unfolding, ranges, concatenation and so on) yields the elements the "
            "corresponding operation on the list of the source elements yields, in the same order, and raises where "
            "documented. The method and the curried function of the same name agree, for any iterable source."
        ),
        over=["inputs", "programs"],
        text="for all sources, elements, counts and callbacks",
        tests="Each operation is tested on one or two sequences with a fixed callback.",
        files=[C + "seq.py"],
        mech=[m("Seq methods and module functions", C + "seq.py"), m("SeqGen re-iterable wrapper", C + "seq.py")],
    ),
    dict(
        id="C09",
        title="Seq pipelines are lazy and can be iterated again",
        statement=(
            "Building a Seq pipeline (other than by mapping with an index) consumes nothing from its source and calls no callback; asking for an element "
            "consumes no more of the source than that element needs, so pipelines over infinite sources work. A "
            "pipeline of mapping, collecting, choosing, concatenating, appending, taking, skipping, pairing and "
            "delaying over a re-iterable source gives the same elements each time it is iterated, also when two "
            "iterations are interleaved or one is abandoned half way."
        ),
        over=["programs", "schedules", "inputs"],
        text="for all pipelines, sources, callbacks and interleavings of iterations",
        tests="Tests iterate each result once, over finite lists, so over-consumption and shared iteration state are invisible.",
        files=[C + "seq.py"],
        mech=[m("SeqGen re-runs the generator function at each iteration", C + "seq.py")],
    ),
    dict(
        id="C10",
        title="Option combinators follow their case analysis, for every value",
        statement=(
            "Every Option operation gives what its case analysis says: it acts on the value of a Some, whatever that "
            "value is (None, 0, empty or nested values included), and leaves Nothing alone, calling a callback exactly "
            "when that case needs it and passing its exceptions on. The monad laws hold, equality is structural, and the "
            "method and the curried function of the same name agree."
        ),
        over=["inputs", "programs"],
        text="for all options, payloads and callbacks",
        tests="Tests use small positive ints as payloads, so confusing a falsy or None payload with Nothing goes unseen.",
        files=[K + "option.py"],
        mech=[m("match on the tag in each method", K + "option.py")],
    ),
    dict(
        id="C11",
        title="Result combinators follow their case analysis, for every value",
        statement=(
            "Every Result operation gives what its case analysis says: it acts on the payload of the matching case, "
            "whatever that payload is (None, 0, empty or nested values included), and returns the other case with its "
            "payload untouched, calling a callback exactly when that case needs it. The monad laws hold, the first error "
            "of a chain is the one that is returned, equality is structural, and method and curried function agree."
        ),
        over=["inputs", "programs"],
        text="for all results, payloads and callbacks",
        tests="Tests use one payload per case and hardly ever an error that is falsy or None.",
        files=[K + "result.py"],
        mech=[m("match on the tag in each method", K + "result.py")],
    ),
    dict(
        id="C12",
        title="Conversions between None, Option, Result and collections lose nothing",
        statement=(
            "Converting between optional values, Options, Results and lists preserves the case and the value: only None "
            "becomes Nothing, only Nothing becomes None or the given error, and converting there and back gives the "
            "value one started with. Merging, swapping and filtering convert according to the documented case "
            "and never drop or invent a payload. The plain form (dict) of an Option, Result, Block or Seq consists of the "
            "plain form of each payload, in order."
        ),
        over=["inputs"],
        text="for all options, results and payloads",
        tests="Round trips are tested on one value each.",
        files=[K + "option.py", K + "result.py", C + "block.py", C + "seq.py"],
        mech=[m("of_optional, to_optional, of_result, to_result, to_option, of_option, swap, merge", K + "option.py, result.py"),
              m("dict", K + "option.py, result.py, " + C + "block.py, seq.py")],
    ),
    dict(
        id="C13",
        title="Tagged unions are exactly one case: construction, equality, order, copies",
        statement=(
            "A tagged union value holds exactly one case and its payload: constructing it from anything but exactly one "
            "declared case fails, reading or matching any other case fails or does not match, and a frozen union cannot "
            "be changed afterwards. Two values of the same union are equal exactly if case and payload are equal (values of different unions never are), "
            "hashing a frozen one agrees with equality and ordering goes by declaration order of the case and then by payload. "
            "Copying, deep copying and pickling give an equal value of the same type."
        ),
        over=["inputs", "programs"],
        text="for all unions, cases and payloads (falsy and None payloads included)",
        tests="Tests use a few fixed unions with truthy payloads; equality, order and copies are sampled at single points.",
        files=[K + "tagged_union.py", K + "option.py", K + "result.py", K + "try_.py"],
        mech=[m("tagged_union decorator: generated __init__, __eq__, __hash__, __lt__, __setattr__, __copy__", K + "tagged_union.py")],
    ),
    dict(
        id="C14",
        title="Option and Result computation expressions equal chained binds",
        statement=(
            "A function written with the option or result builder gives the value of the corresponding chain of binds: "
            "each yielded value is unwrapped and sent back, the first Nothing or Error ends the computation as the "
            "overall result, with nothing after it executed, and otherwise the returned (or last yielded) value is "
            "wrapped. Other exceptions are passed on unchanged, and calls of the same function do not influence each other."
        ),
        over=["programs", "inputs"],
        text="for all programs built from yields, yield-froms and returns, and all values",
        tests="Tests run a dozen fixed programs; where the computation stops depends on the position and the case of each effect.",
        files=[E + "option.py", E + "result.py", K + "builder.py"],
        mech=[m("Builder._send and __call__ drive the generator", K + "builder.py"), m("bind/return_/combine/zero", E)],
    ),
    dict(
        id="C15",
        title="The seq computation expression yields every element in order",
        statement=(
            "A function written with the seq builder gives the sequence of everything it yields, everything it yields "
            "from, and its returned value if any, in program order, nothing lost or duplicated; each yield evaluates to "
            "the yielded value. A function that yields nothing gives an empty sequence, and the result can be iterated again."
        ),
        over=["programs", "inputs"],
        text="for all programs built from yields, yield-froms, branches, loops and returns, and all values",
        tests="Tests run half a dozen fixed programs.",
        files=[E + "seq.py", K + "builder.py"],
        mech=[m("SeqBuilder.combine / bind / yield_", E + "seq.py")],
    ),
    dict(
        id="C16",
        title="Async option and result builders agree with the synchronous ones",
        statement=(
            "Running a function written with the async option or async result builder gives the value the same program "
            "gives with the synchronous builder: awaiting a Some or Ok gives its value, awaiting the first Nothing or "
            "Error ends the computation as the overall result with nothing after it executed. This holds wherever the "
            "function suspends in between and for several computations running at the same time; other exceptions and "
            "cancellation are passed on."
        ),
        over=["programs", "inputs", "schedules"],
        text="for all programs, values and suspension points",
        tests="Tests await already completed values in fixed programs.",
        files=[E + "async_option.py", E + "async_result.py", K + "async_builder.py"],
        mech=[m("AsyncBuilder drives the async generator", K + "async_builder.py")],
    ),
    dict(
        id="C17",
        title="pipe, compose, curry and flip are the functions they denote",
        statement=(
            "Piping a value (or a tuple of values) through functions, and composing functions, is applying them from "
            "left to right, each exactly once, with the identity for none, for any number of functions. A curried "
            "function called with its arguments in any grouping of the documented stages, and a flipped function called with its "
            "arguments swapped, give what the original gives, keyword arguments included; partial applications can be "
            "reused without influencing each other, and exceptions are passed on."
        ),
        over=["programs", "inputs"],
        text="for all functions, arguments and numbers of stages",
        tests="Tests use two or three integer functions and one order of arguments.",
        files=[K + "pipe.py", K + "compose.py", K + "curry.py", K + "misc.py"],
        mech=[m("pipe, pipe2, pipe3, starpipe, starcompose", K + "pipe.py, compose.py, misc.py"), m("curry, curry_flip", K + "curry.py")],
    ),
    dict(
        id="C18",
        title="pipeline, traverse, sequence and catch give the values or the first failure",
        statement=(
            "A pipeline of option- or result-returning functions is their composition by bind, calling nothing after the first failure; sequence and traverse "
            "give all the values in order if every element succeeds and otherwise the first failure. A function wrapped to catch "
            "exceptions gives Ok of its result, or Error of exactly the exception it raised if that is of the declared "
            "type (or a Result the function itself returned), and passes any other exception on."
        ),
        over=["programs", "inputs"],
        text="for all functions, inputs, lengths and exceptions",
        tests="Tests use two or three functions and one failing position.",
        files=["expression/extra/option/pipeline.py", "expression/extra/result/pipeline.py", "expression/extra/result/traversable.py",
               "expression/extra/result/catch.py", K + "try_.py"],
        mech=[m("pipeline", "expression/extra/*/pipeline.py"), m("traverse, sequence", "expression/extra/result/traversable.py"),
              m("catch", "expression/extra/result/catch.py")],
    ),
    dict(
        id="C19",
        title="Parser combinators recognise what their grammar denotes",
        statement=(
            "A parser built from the combinators accepts an input, and gives the value and the remaining input, exactly "
            "as the ordered-choice grammar it denotes says: sequencing threads the position, choice takes the first "
            "alternative that succeeds and restarts it at the same position, repetition is greedy, optional and repeated "
            "parsers never fail. The number, character and string parsers accept exactly their language with exactly "
            "its value, parsing never changes the parser, and the length of the input or the string is not limited by "
            "the stack."
        ),
        over=["programs", "inputs"],
        text="for all grammars of the combinators and all inputs",
        tests="Tests parse about twenty literal strings; backtracking and position handling depend on the input.",
        files=["expression/extra/parser.py"],
        mech=[m("Parser, Remaining, and_then, or_else, many, opt, sequence, pint, pfloat", "expression/extra/parser.py")],
    ),
    dict(
        id="C20",
        title="Tail-recursive functions compute the recursion in constant stack",
        statement=(
            "A function made tail recursive gives the result (or exception) of the plain recursion it is written as, "
            "for every argument, positional or keyword, and every number of tail calls, each with an argument list of "
            "its own, and its stack depth does not grow with the number of calls. Calls that are "
            "nested or interleaved, and the asynchronous variant, behave in the same way."
        ),
        over=["inputs", "histories", "schedules"],
        text="for all recursion depths, arguments and interleavings",
        tests="Tests run one factorial with one depth.",
        files=[K + "fn.py"],
        mech=[m("tailrec, tailrec_async trampolines, TailCall", K + "fn.py")],
    ),
    dict(
        id="C21",
        title="Cancellation calls every live callback, at any interleaving",
        statement=(
            "Once cancellation is requested, a token says so for ever and every callback that was registered and not "
            "unregistered is called, also if another one raises; registering afterwards is refused with an exception, and a "
            "callback unregistered before cancellation is never called. None of them is lost or called twice, however registering, unregistering and "
            "cancelling interleave over threads. A token that cannot be cancelled never is."
        ),
        over=["schedules", "histories"],
        text="for all histories of register, unregister and cancel, and all interleavings of them",
        tests="Tests run single-threaded histories of two or three operations.",
        files=[S + "cancellation.py"],
        mech=[m("CancellationTokenSource: lock, listeners, cancel, register_internal", S + "cancellation.py")],
    ),
    dict(
        id="C22",
        title="A disposable runs its action exactly once, at any interleaving",
        statement=(
            "The action of a disposable runs exactly once if it is disposed of or its context is left, normally or by an "
            "exception, and never otherwise, however many times, from however many threads and at whatever "
            "interleaving it is disposed of; its exceptions reach the caller and a disposed one cannot be entered. Composite "
            "disposables dispose of every part in order, and asynchronous disposables keep the same promise for any "
            "interleaving of tasks."
        ),
        over=["schedules", "histories", "fault_sequences"],
        text="for all histories and interleavings of dispose calls, and all exceptions",
        tests="Tests dispose twice from one thread.",
        files=[S + "disposable.py"],
        mech=[m("AnonymousDisposable, AsyncAnonymousDisposable: flag under a lock", S + "disposable.py")],
    ),
    dict(
        id="C23",
        title="A mailbox delivers every message once, in order, with its own reply",
        statement=(
            "Messages posted to a mailbox are received exactly once, in the order they were posted, whether posted "
            "before the processor waits, while it waits or while it works, from its own thread or another. A request with a reply channel "
            "completes with the value given to its own channel, whatever the value is and in whatever order replies "
            "are given. A mailbox whose token is cancelled stops receiving without affecting other mailboxes, and one whose "
            "pending receive is cancelled (by a timeout, say) leaves every message not yet received to the next receive."
        ),
        over=["schedules", "histories"],
        text="for all histories and schedules of post, receive and reply",
        tests="Tests post a few messages in one fixed schedule.",
        files=[K + "mailbox.py", K + "aiotools.py"],
        mech=[m("MailboxProcessor: message queue, continuation, event loop hand-over", K + "mailbox.py")],
    ),
    dict(
        id="C24",
        title="Async helpers resolve once, with the value or exception they were given",
        statement=(
            "An awaitable made from continuations completes with what the first continuation called gives: the value, "
            "the exception, or cancellation, whether it is called at once or later. The helpers that run a computation or wrap a value give "
            "exactly its result, exception or cancellation; those that start one run it to its end exactly once, "
            "unless the token they are given is cancelled before (it then does not run, or no further), and report an "
            "exception that ends it to the event loop. Sleeping takes the time it is given."
        ),
        over=["schedules", "inputs"],
        text="for all values, exceptions and moments at which continuations are called",
        tests="Tests cover a couple of immediate completions.",
        files=[K + "aiotools.py"],
        mech=[m("from_continuations, start, start_immediate, run_synchronously, singleton, sleep", K + "aiotools.py")],
    ),
    dict(
        id="C25",
        title="TypedArray operations match Python lists for every backing array type",
        statement=(
            "Every TypedArray operation (creating, mapping, filtering, folding, positional access, slicing, "
            "taking, skipping, sorting, searching, reducing and so on) gives what the same operation on the Python list "
            "gives, for each element type, for empty arrays, and for counts and indices at and beyond the edges. "
            "No operation changes the array it is applied to, except those of a mutable sequence (assigning, inserting, "
            "deleting and so on), which change it as they change a list and leave arrays derived from it earlier alone."
        ),
        over=["inputs", "configurations"],
        text="for all arrays, element types, counts, indices and callbacks",
        tests="Each operation is tested on a few arrays of one type.",
        files=[C + "array.py"],
        mech=[m("TypedArray methods over array.array, bytearray or list", C + "array.py")],
    ),
    dict(
        id="C26",
        title="AsyncSeq operations match the synchronous ones and stay lazy",
        statement=(
            "Operations on an asynchronous sequence yield, in order, what the same operations on the list of its "
            "elements yield, whether the elements arrive at once or after waiting, with exceptions of the source and of callbacks "
            "passed on at the element where they occur. Each element asked for consumes no more of the source than it "
            "needs, and an asynchronous sequence over a re-iterable source can be iterated any number of times, by several consumers at once."
        ),
        over=["inputs", "schedules", "programs"],
        text="for all sources, callbacks, counts and suspension points",
        tests="Tests iterate a few constant sequences once.",
        files=[C + "asyncseq.py"],
        mech=[m("AsyncSeq methods and module functions", C + "asyncseq.py")],
    ),
    dict(
        id="C27",
        title="Block, Option and Result values never change",
        statement=(
            "No operation on a Block, Option or Result changes its operand or a value obtained earlier: elements, case, "
            "payload, length, equality and hash stay the same through any sequence of operations, later changes to the list a "
            "Block was created from do not show, and assigning to their fields or items fails."
        ),
        over=["histories", "inputs"],
        text="for all sequences of operations on all values",
        tests="Tests check the result of an operation and not the operand.",
        files=[C + "block.py", K + "option.py", K + "result.py", K + "tagged_union.py"],
        mech=[m("Block holds a tuple in a frozen dataclass", C + "block.py"), m("frozen tagged unions", K + "tagged_union.py")],
    ),
    dict(
        id="C28",
        title="Map operations stay logarithmic whatever the history",
        statement=(
            "Whatever the order of insertions and removals, looking up, adding or removing a key in a Map that never held more than n bindings takes a "
            "number of key comparisons, and a call depth, at most proportional to the logarithm of n: the key is compared with at most 2 log2(n+1) + 1 "
            "of the map's keys, each a bounded number of times. In particular "
            "sorted insertion and removing from one end do not degrade a Map into a list."
        ),
        over=["histories", "inputs"],
        text="for all histories of insertions and removals and all keys",
        tests="Tests do not measure cost; a broken balance condition still gives right answers.",
        files=[C + "maptree.py"],
        mech=[m("rebalance, TOLERANCE, height", C + "maptree.py")],
    ),
    dict(
        id="C29",
        title="Option, Result and Block survive pydantic, which validates their payloads",
        statement=(
            "Writing an Option, Result or Block with pydantic, to JSON or to plain values, and validating the output as "
            "the same type gives an equal value back, also nested and as fields of a model (options of types which "
            "themselves are written as null excepted). The payload is validated exactly once, by its own type, and "
            "input which is not of the type is refused with a validation error: it is never accepted and never "
            "raises anything else."
        ),
        over=["inputs"],
        text="for all values and all JSON trees of the type or not, and all nestings of the types",
        tests="Tests write and read one value of Option and Block, and never read a Result.",
        files=[K + "option.py", K + "result.py", C + "block.py"],
        mech=[m("__get_pydantic_core_schema__, its validators, dict", K + "option.py, result.py, " + C + "block.py")],
    ),
    dict(
        id="C30",
        title="Printed text shows a value's case and every element, in order",
        statement=(
            "The text of an Option, Result or Try names its case and then the text of the payload it holds, and the "
            "representation of a tagged union names its class, its case and its payload. The text of a Block, TypedArray "
            "or Map lists every element, or binding, exactly once and in order (ascending keys for a Map, text keys in "
            "quotes); a Seq lists its first 100 elements and says by an ellipsis whether there are more, drawing no more "
            "than 101 from its source, so infinite sequences can be printed. Printing changes nothing and gives the same "
            "text every time."
        ),
        over=["inputs"],
        text="for all values, nestings and lengths",
        tests="Tests print a handful of short values; never a long or infinite sequence, nor nested or odd payloads.",
        files=[K + "option.py", K + "result.py", K + "try_.py", K + "tagged_union.py", C + "block.py", C + "map.py", C + "seq.py", C + "array.py"],
        mech=[m("__str__, __repr__", K + "option.py, result.py, try_.py, tagged_union.py, " + C + "block.py, map.py, seq.py, array.py")],
    ),
    dict(
        id="C31",
        title="Casts give the very object or refuse it, as its type says",
        statement=(
            "Downcasting an object to a type gives that very object exactly if it is an instance of the type, and raises "
            "AssertionError otherwise; trying to gives that very object, whatever it is, or None, also for parametrised types, "
            "of which the parameters do not matter. Upcasting gives the object itself. Failing with a message raises an "
            "exception that carries exactly this message."
        ),
        over=["inputs"],
        text="for all objects and all instance relations of types",
        tests="Tests cast two or three values; never a falsy one, a virtual subclass or an instance of a parametrised type's subclass.",
        files=[K + "typing.py", K + "error.py"],
        mech=[m("upcast, downcast, try_downcast", K + "typing.py"), m("failwith", K + "error.py")],
    ),
]

NA = {}

NOTE = {}


def main():
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["tests"],
                anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None),
            )
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif not os.path.exists(f"{ROOT}/vp/h/{i.lower()}.py"):
            na.append(dict(property=i, reason="not built yet"))
        else:
            checks.append(dict(
                property=i,
                quick_cmd=f"bash /verif/run.sh {i} quick",
                thorough_cmd=f"bash /verif/run.sh {i} thorough",
                technique="symbolic execution of the real Python functions (CPython runs them on z3 terms), every path's "
                "assertions decided by z3 within stated bounds; counterexamples replayed on plain values",
                level="model_checking",
                level_note=NOTE.get(i, "bounded: the bounds and what lies outside them are in evidence and DESIGN.md"),
            ))
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
