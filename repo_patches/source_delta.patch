From b20db7198111978e123b299bd70b225490b78322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 01/29] fix: indexed(start) honours start on Block and
 TypedArray

---
 expression/collections/array.py | 4 ++--
 expression/collections/block.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From 6f8fcee40fb0827d0dcffa280d85f143b2eba221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 02/29] fix: a map is not equal to a map with more bindings

Map equality stopped at the end of the left operand, so Map.of(a=1) was equal
to Map.of(a=1, b=2), but not the other way around.
---
 expression/collections/map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..b1d7aa5 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -237,7 +237,9 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             else:
                 if kv != kv_other:
                     return False
-        return True
+
+        # The other map may not have any more bindings
+        return next(iterator, None) is None
 
     def __bool__(self) -> bool:
         return not maptree.is_empty(self._tree)
-- 
2.43.0


From 8bd6f7492bd3af3e9b7bee62ba36da85f8153ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 03/29] fix: Map.change on a missing key may return Nothing

Iterating Nothing raises EffectError, so changing a key that is missing (below
an inner node or in an empty map) into Nothing raised instead of being a no-op.
---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From 48a4feb32c336994316c09b2b79bdec87ea9ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 04/29] fix: map.pick raises KeyError when nothing is picked

It raised EffectError from iterating Nothing.
---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index b1d7aa5..004ed49 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -366,7 +366,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From 703a61959a1493c92936463f64f245a91c5b96a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:23 +0000
Subject: [PATCH 05/29] fix: creating a map from a long sequence does not
 overflow the stack

mk_from_iterator made one recursive call per element.
---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From f6a9cc12961b45ea760da39c6b86ece0eda8fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 06/29] fix: many does not overflow the stack on a long input

parse_zero_or_more made one recursive call per element, so many, many1, sep_by
and pint failed with RecursionError on an input of some hundred elements. A
parser which succeeds without consuming input still raises, rather than looping.
---
 expression/extra/parser.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..b0af555 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -278,19 +278,18 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+
+    # run parser with the remaining input for as long as it succeeds
+    while True:
+        match parser.run(input):
+            case Result(tag="ok", ok=(value, remaining)):
+                if remaining == input:
+                    raise ValueError(f"{parser} succeeds without consuming input, and cannot be repeated")
+                values.append(value)
+                input = remaining
+            case _:
+                return Block(values), input
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From 83eb7aa2506e0e07fd38cb083b14821bcd6af11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 07/29] fix: sequence and pstring do not overflow the stack on
 a long list

sequence nested some parsers per element, so pstring failed with RecursionError
on a string of some hundred characters.
---
 expression/extra/parser.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index b0af555..b699b0b 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -248,23 +248,18 @@ def lift2(fn: Callable[[_A], Callable[[_B], _C]], xP: Parser[_A], yP: Parser[_B]
 
 
 def sequence(parser_list: Block[Parser[_A]]) -> Parser[Block[_A]]:
-    # define the "cons" function, which is a two parameter function
-    @curry(1)
-    def cons(head: _A, tail: Block[_A]) -> Block[_A]:
-        return tail.cons(head)
-
-    # lift it to Parser World
-    cons_p = lift2(cons)
-
-    # process the list of parsers recursively
-    match parser_list:
-        case block.empty:
-            return preturn(block.empty)
-        case Block([head, *tail]):
-            tail_ = sequence(Block(tail))
-            return cons_p(head)(tail_)
-        case _:
-            raise ValueError("invalid parser list")
+    def run(input: Remaining) -> ParseResult[Block[_A]]:
+        values: list[_A] = []
+        for parser in parser_list:
+            match parser.run(input):
+                case Result(tag="ok", ok=(value, remaining)):
+                    values.append(value)
+                    input = remaining
+                case Result(error=error):
+                    return Error(error)
+        return Ok((Block(values), input))
+
+    return Parser(run, f"sequence({parser_list})")
 
 
 def pstring(string_input: str) -> Parser[str]:
-- 
2.43.0


From 719d7ee4d0f9873239e69578ca0f3ddfe934b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 08/29] fix: a mailbox reply may be None

post_and_async_reply never completed when the reply was None.
---
 expression/core/mailbox.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..b0ccff7 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -78,17 +78,17 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             The reply from mailbox processor.
         """
-        result: _Reply | None = None
+        # The reply in a list, since the reply itself may be `None`.
+        result: list[_Reply] = []
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
-            if result is not None and continuation is not None:
-                continuation(result)
+            if result and continuation is not None:
+                continuation(result[0])
 
         def reply_callback(res: _Reply):
-            nonlocal result
-            result = res
+            result[:] = [res]
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From 035ba265c2f5051c065405ce047532a44263bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 09/29] fix: copies of a tagged union subclass keep their type

copy.copy and copy.deepcopy of a Try gave a Result.
---
 expression/core/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index fdd17f2..a746d38 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -168,11 +168,11 @@ def tagged_union(
         # Copy helpers (required by Pydantic)
         # ------------------------------------------------------------------
         def __copy__(self: Any) -> Any:
-            return cls(**{self.tag: getattr(self, self.tag)})
+            return type(self)(**{self.tag: getattr(self, self.tag)})
 
         def __deepcopy__(self: Any, memo: dict[int, Any]) -> Any:
             value = deepcopy(getattr(self, self.tag), memo)
-            return cls(**{self.tag: value})
+            return type(self)(**{self.tag: value})
 
         cls.__copy__ = __copy__
         cls.__deepcopy__ = __deepcopy__
-- 
2.43.0


From b553f9cfc5242b82a6bdc637a406d73cbbca56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 10/29] fix: do not lose a callback registered while the token
 is cancelled

The disposed flag was read before the lock was taken, so a cancel in between
left a registered callback which was never called.
---
 expression/system/cancellation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..21aa7bc 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -86,10 +86,10 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            if self._is_disposed:
+                raise ObjectDisposedException()
+
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From c79cb0314f24e160c5d59114e63fc04d22673acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:27 +0000
Subject: [PATCH 11/29] fix: AsyncSeq.take does not ask for an element it does
 not return

take(n) waited for element n + 1 before it ended, so it never ended on a source
which has no more than n elements to give yet.
---
 expression/collections/asyncseq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..fd78333 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -167,12 +167,15 @@ class AsyncSeq(AsyncIterable[TSource]):
         """Returns the first N elements of the sequence."""
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
+            if count <= 0:
+                return
+
             i = 0
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From efc2f5b03dcb4a850e932418e6ac3b89b626ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:25 +0000
Subject: [PATCH 12/29] fix: the collect and concat methods of Seq are lazy

They iterated the whole source and called the mapping for each element when the
sequence was built, unlike the functions of the same name, so they never
returned for an infinite source.
---
 expression/collections/seq.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..7d4ed96 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,12 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+
+        def gen() -> Iterator[_TResult]:
+            for xs in self:
+                yield from xs
+
+        return Seq(SeqGen(gen))
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
@@ -133,7 +138,7 @@ class Seq(Iterable[_TSource], PipeMixin):
             A sequence comprising the concatenated values from the mapping
             function.
         """
-        return self.map(mapping).concat()
+        return Seq(pipe(self, collect(mapping)))
 
     @staticmethod
     def delay(generator: Callable[[], Iterable[_TSource]]) -> Iterable[_TSource]:
-- 
2.43.0


From d55ad800573b097fbd57c8dec129ab14113b190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:37 +0000
Subject: [PATCH 13/29] fix: a long seq computation expression does not
 overflow the stack

Each yield nested another lazy concatenation, so iterating the result of an
expression with several hundred elements raised RecursionError.
---
 expression/effect/seq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/expression/effect/seq.py b/expression/effect/seq.py
index 7bf3105..49c1caa 100644
--- a/expression/effect/seq.py
+++ b/expression/effect/seq.py
@@ -58,7 +58,9 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The concatenated sequences
         """
-        return seq.concat(xs, ys)
+        # We do this eagerly: nesting a lazy concatenation for each element
+        # overflows the stack when the result is iterated
+        return (*xs, *ys)
 
     def zero(self) -> Iterable[_TSource]:
         """Return the zero value for sequences.
@@ -95,8 +97,8 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The result of the computation including the return value
         """
-        # Simply return the computation as is, including the return value
-        return computation
+        # Return the computation as a sequence, including the return value
+        return seq.of_iterable(computation)
 
     def __call__(
         self,
-- 
2.43.0


From a72bfab7bce461f1fa143d125dfff0064a9fd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 14/29] fix: awaiting Nothing or Error in a plain async body
 short circuits

In a body without a yield statement the internal EffectError escaped to the
caller of the async builder.
---
 expression/core/async_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/core/async_builder.py b/expression/core/async_builder.py
index 5354d20..b05186b 100644
--- a/expression/core/async_builder.py
+++ b/expression/core/async_builder.py
@@ -116,7 +116,11 @@ class AsyncBuilder(Generic[_T, _M], ABC):  # Corrected Generic definition
                 # to zero().
                 result_value: _T | None
                 if inspect.iscoroutine(body):
-                    result_value = await cast("Awaitable[_T]", body)
+                    try:
+                        result_value = await cast("Awaitable[_T]", body)
+                    except EffectError as error:
+                        # Effect errors (Nothing, Error, etc) short circuits
+                        return await self.run(await self.return_from(cast("_M", error.args[0])))
                 else:
                     result_value = cast("_T | None", body)
                 if result_value is None:
-- 
2.43.0


From 9387de70e0c92396b8f69b8f9e887d1f5916c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:39 +0000
Subject: [PATCH 15/29] fix: starting a computation with a token that cannot be
 cancelled works

start and start_immediate registered with CancellationToken.none(), which refuses
registrations, so they raised ObjectDisposedException.
---
 expression/core/aiotools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2c157b1..8faf8dd 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -89,7 +89,7 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     def cb():
         task.cancel()
 
-    if token:
+    if token and token.can_be_canceled:
         token.register(cb)
     return None
 
@@ -112,7 +112,7 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     def cb() -> None:
         task.cancel()
 
-    if token:
+    if token and token.can_be_canceled:
         token.register(cb)
     return None
 
-- 
2.43.0


From 8b678cf4c1b7e9b5022874be357d55c97f6c993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:42 +0000
Subject: [PATCH 16/29] fix: a mailbox stays usable after a receive was
 cancelled

The continuation of a cancelled receive (a timeout, say) was kept: the next
message was given to it and lost, and the next receive failed.
---
 expression/core/mailbox.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index b0ccff7..781b740 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -124,12 +124,21 @@ class MailboxProcessor(Generic[_Msg]):
             if self.continuation:
                 raise Exception("Receive can only be called once!")
 
-            self.continuation = done
+            nonlocal continuation
+            self.continuation = continuation = done
             self.cancel = cancel
 
             self.__process_events()
 
-        return await from_continuations(callback)
+        continuation: Continuation[_Msg] | None = None
+        try:
+            return await from_continuations(callback)
+        except asyncio.CancelledError:
+            # Nobody is waiting anymore, so leave messages for the next receive.
+            if self.continuation is continuation:
+                self.continuation = None
+                self.cancel = None
+            raise
 
     def __process_events(self):
         # Cancellation of async workflows is more tricky in Python than
-- 
2.43.0


From 7500a5a82c75d7e8ae8fffb17135ad9cbd7763c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:52 +0000
Subject: [PATCH 17/29] fix: scan of a sequence keeps an initial state of None

---
 expression/collections/seq.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 7d4ed96..20b6ca1 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -284,7 +284,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(pipe(self._value, scan(scanner, state)))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -866,7 +866,16 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+
+    # NOTE: `itertools.accumulate` takes an initial state of `None` for no initial state.
+    def gen() -> Iterator[_TState]:
+        current = state
+        yield current
+        for x in source:
+            current = scanner(current, x)
+            yield current
+
+    return gen()
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From 1edebb99317aefe8564f71ad7437f44506afe435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:46 +0000
Subject: [PATCH 18/29] fix: a message is not lost when the receive it woke up
 is cancelled

The message was taken from the queue when the pending receive was woken up; if
that receive was cancelled (by a timeout, say) in the same step of the event
loop, the message was lost.
---
 expression/core/mailbox.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 781b740..08727d9 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -44,7 +44,7 @@ class MailboxProcessor(Generic[_Msg]):
 
         # Holds the continuation i.e the `done` callback of Async.from_continuations
         # returned by `receive`.
-        self.continuation: Continuation[_Msg] | None = None
+        self.continuation: Continuation[None] | None = None
         self.cancel: Continuation[OperationCanceledError] | None = None
 
     def post(self, msg: _Msg) -> None:
@@ -117,7 +117,7 @@ class MailboxProcessor(Generic[_Msg]):
         """
 
         def callback(
-            done: Continuation[_Msg],
+            done: Continuation[None],
             error: Continuation[Exception],
             cancel: Continuation[OperationCanceledError],
         ):
@@ -130,9 +130,14 @@ class MailboxProcessor(Generic[_Msg]):
 
             self.__process_events()
 
-        continuation: Continuation[_Msg] | None = None
+        continuation: Continuation[None] | None = None
         try:
-            return await from_continuations(callback)
+            # The message is taken when resumed, not when woken up: a receive that
+            # is cancelled in between leaves it for the next receive.
+            while True:
+                await from_continuations(callback)
+                if not self.messages.empty():
+                    return self.messages.get()
         except asyncio.CancelledError:
             # Nobody is waiting anymore, so leave messages for the next receive.
             if self.continuation is continuation:
@@ -155,11 +160,10 @@ class MailboxProcessor(Generic[_Msg]):
         with self.lock:
             if self.messages.empty():
                 return
-            msg = self.messages.get()
             self.continuation, cont = None, self.continuation
 
             if cont is not None:  # type: ignore
-                cont(msg)
+                cont(None)
 
     @staticmethod
     def start(
-- 
2.43.0


From a0abc1c32554f06ec1ce47ca63ce0af4baac8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:01 +0000
Subject: [PATCH 19/29] fix: validate the payload of an Option read from JSON

---
 expression/core/option.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..251a93b 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -363,15 +363,12 @@ class Option(
         )
 
         return core_schema.json_or_python_schema(
-            json_schema=core_schema.chain_schema(
+            json_schema=core_schema.union_schema(
                 [
-                    core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
-                ]
+                    core_schema.no_info_wrap_validator_function(validate_none, none_schema),
+                    core_schema.no_info_wrap_validator_function(validate_some, value_schema),
+                ],
+                mode="left_to_right",
             ),
             python_schema=python_schema,
             serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
-- 
2.43.0


From 06e30928e7898d6ec3b753a0dc5ef9941846b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:16 +0000
Subject: [PATCH 20/29] fix: read a Result back from the JSON it is written to

---
 expression/core/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..bd3c300 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -333,13 +333,13 @@ class Result(
                     [
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok"])),
                                 "ok": core_schema.typed_dict_field(ok_schema),
                             }
                         ),
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["error"])),
                                 "error": core_schema.typed_dict_field(error_schema),
                             }
                         ),
@@ -347,7 +347,7 @@ class Result(
                 ),
                 # after validating the json data convert it to python
                 core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
+                    lambda data: cls(**data),
                     python_schema,
                 ),
             ]
-- 
2.43.0


From b04e75dfcc5aa1a72e46497e4cd75ed3d4b6f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:46 +0000
Subject: [PATCH 21/29] fix: reject input of other types for a Result with a
 validation error

---
 expression/core/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index bd3c300..87f045f 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -12,7 +12,7 @@ the Result type to Exception.
 from __future__ import annotations
 
 import builtins
-from collections.abc import Awaitable, Callable, Generator, Iterable
+from collections.abc import Awaitable, Callable, Generator, Iterable, Mapping
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -308,13 +308,13 @@ class Result(
         error_schema = handler.generate_schema(type_vars[1])
 
         def validate_ok(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "ok" not in v:
+            if not isinstance(v, Mapping) or "ok" not in v:
                 raise ValueError("Missing ok field")
             value = handler(v["ok"])
             return cls(ok=value)
 
         def validate_error(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "error" not in v:
+            if not isinstance(v, Mapping) or "error" not in v:
                 raise ValueError("Missing error field")
 
             value = handler(v["error"])
-- 
2.43.0


From 83e8d2eed51ddcf899e5273f903ac199b194927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:34 +0000
Subject: [PATCH 22/29] fix: a computation started with a cancelled token does
 not run

start and start_immediate created the task and then raised
ObjectDisposedException when the token was cancelled already, so the
computation ran although it was cancelled.
---
 expression/core/aiotools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 8faf8dd..69def66 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -13,7 +13,7 @@ from asyncio import Future, Task
 from collections.abc import Awaitable, Callable
 from typing import Any, TypeVar
 
-from expression.system import CancellationToken, OperationCanceledError
+from expression.system import CancellationToken, ObjectDisposedException, OperationCanceledError
 
 
 _TSource = TypeVar("_TSource")
@@ -90,7 +90,10 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
         task.cancel()
 
     if token and token.can_be_canceled:
-        token.register(cb)
+        try:
+            token.register(cb)
+        except ObjectDisposedException:
+            cb()  # already cancelled
     return None
 
 
@@ -113,7 +116,10 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
         task.cancel()
 
     if token and token.can_be_canceled:
-        token.register(cb)
+        try:
+            token.register(cb)
+        except ObjectDisposedException:
+            cb()  # already cancelled
     return None
 
 
-- 
2.43.0


From a2d78227f8bf87806f2759f8baad40326427f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:34 +0000
Subject: [PATCH 23/29] fix: release a started task when it is cancelled or
 raises

Only a task that returned was removed from the running tasks. Any other
was kept for ever, and so its exception was never reported to the event
loop.
---
 expression/core/aiotools.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 69def66..7d94a03 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -79,12 +79,11 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     """
 
     async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
+        return await computation
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
+    task.add_done_callback(__running_tasks.discard)
 
     def cb():
         task.cancel()
@@ -105,12 +104,11 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     """
 
     async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
+        return await computation
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
+    task.add_done_callback(__running_tasks.discard)
 
     def cb() -> None:
         task.cancel()
-- 
2.43.0


From 68ec1d9adb41e146ec5b6050a33621ed3d1c9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:31 +0000
Subject: [PATCH 24/29] fix: Seq.dict asks an element for model_dump, as
 Block.dict does

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 20b6ca1..1a7120a 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -341,7 +341,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         """Returns a json serializable representation of the list."""
 
         def to_obj(value: Any) -> Any:
-            attr = getattr(value, "dict", None) or getattr(value, "dict", None)
+            attr = getattr(value, "model_dump", None) or getattr(value, "dict", None)
             if attr and callable(attr):
                 value = attr()
             return value
-- 
2.43.0


From d4f045f8fbd5b5438d903a8efe3db61f8f3bf447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:11 +0000
Subject: [PATCH 25/29] fix: a block of an iterable that is false has its
 elements

---
 expression/collections/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/block.py b/expression/collections/block.py
index 351d7d9..e57a585 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -86,7 +86,7 @@ class Block(
     def __init__(self, value: Iterable[_TSource] = ()) -> None:
         # Use composition instead of inheritance since generic tuples
         # are not suppored by mypy.
-        self._value: tuple[_TSource, ...] = tuple(value) if value else tuple()
+        self._value: tuple[_TSource, ...] = tuple(value) if value is not None else tuple()
 
     def append(self, other: Block[_TSource]) -> Block[_TSource]:
         """Append other block to end of the block."""
-- 
2.43.0


From f77fc9c48091d17e0147b96ef4937836d25ed9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:11 +0000
Subject: [PATCH 26/29] fix: a typed array of an iterable that is false has its
 elements

---
 expression/collections/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 03937e3..fc86b67 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -90,7 +90,7 @@ class TypeCode(Enum):
 
 
 def array_from_typecode(type_code: TypeCode, initializer: Iterable[Any] | None) -> _Array[Any]:
-    arr: _Array[Any] = list(initializer if initializer else [])
+    arr: _Array[Any] = list(initializer if initializer is not None else [])
     if type_code == TypeCode.Byte:
         return bytearray(arr)
     elif type_code == TypeCode.Int8:
@@ -120,7 +120,7 @@ def array_from_initializer(
     initializer: Iterable[Any] | None = None,
 ) -> tuple[_Array[Any], TypeCode]:
     # Use list as the default array
-    arr: _Array[Any] = list(initializer if initializer else [])
+    arr: _Array[Any] = list(initializer if initializer is not None else [])
     type_code = TypeCode.Any
 
     if isinstance(initializer, bytearray):
-- 
2.43.0


From 81274eaf8353ba5f352bfb1d18441f1c32a81a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:11 +0000
Subject: [PATCH 27/29] fix: the tag of a frozen union cannot be changed when
 it is not declared

---
 expression/core/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index a746d38..1f8b825 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -151,12 +151,12 @@ def tagged_union(
                 return hash((cls.__name__, self.tag, getattr(self, self.tag)))
 
             def __setattr__(self: Any, name: str, value: Any) -> None:
-                if name in field_names:
+                if name == "tag" or name in field_names:
                     raise TypeError("Cannot change the value of a tagged union case")
                 object.__setattr__(self, name, value)
 
             def __delattr__(self: Any, name: str) -> None:
-                if name in field_names:
+                if name == "tag" or name in field_names:
                     raise TypeError("Cannot delete a tagged union case")
                 object.__delattr__(self, name)
 
-- 
2.43.0


From aff8d7894cc9a23c180005ab50d2422712513064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 28/29] fix: comparing a TypedArray with something that is not
 a sequence raised TypeError

TypedArray([1]) == None asked None for its length. As with a list, arrays
are different from what is not a sequence.
---
 expression/collections/array.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index fc86b67..f7c938b 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -12,7 +12,7 @@ from __future__ import annotations
 import array
 import builtins
 import functools
-from collections.abc import Callable, Iterable, Iterator, MutableSequence
+from collections.abc import Callable, Iterable, Iterator, MutableSequence, Sequence
 from enum import Enum
 from typing import Any, TypeVar, cast
 
@@ -442,11 +442,15 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         return pipe(state, unfold(generator))
 
     def __eq__(self, o: Any) -> bool:
-        if len(self) != len(o):
+        if not isinstance(o, Sequence):
+            return NotImplemented
+
+        other = cast("Sequence[Any]", o)
+        if len(self) != len(other):
             return False
 
         for i, x in enumerate(self):
-            if x != o[i]:
+            if x != other[i]:
                 return False
         return True
 
-- 
2.43.0


From 9571b1f8c7be029f11b605a902dc49e6822cd577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:13 +0000
Subject: [PATCH 29/29] fix: a tail call may pass a keyword argument named self

---
 expression/core/fn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/core/fn.py b/expression/core/fn.py
index 0f0038e..1085d7a 100644
--- a/expression/core/fn.py
+++ b/expression/core/fn.py
@@ -18,7 +18,7 @@ class TailCall(Generic[_P]):
     function will be called again with the new arguments provided.
     """
 
-    def __init__(self, *args: _P.args, **kw: _P.kwargs):
+    def __init__(self, /, *args: _P.args, **kw: _P.kwargs):
         self.args = args
         self.kw = kw
 
-- 
2.43.0

