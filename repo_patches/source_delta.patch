From 23ab3c337fc7ba765dae487d84b9a3974fb8b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 01/63] fix: combine values when overriding a nested path

The combine flag was dropped in the recursive calls, so a.b+=... replaced
the value at the path instead of combining it.
---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..56ca2e0 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From 679f429981f7501c7f5d063c22b5583a5180eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 02/63] fix: keep key order when merging mappings

The keys were collected in a set so the order of the merged mapping
depended on string hash randomization.
---
 marsh/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/element.py b/marsh/element.py
index 56ca2e0..82aa831 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -146,7 +146,7 @@ def _merge(
                 element_b.get(key, marsh.MISSING),
                 concatenate=concatenate,
             )
-            for key in set(element_a).union(element_b)
+            for key in dict.fromkeys((*element_a, *element_b))
         }
     elif (
         concatenate
-- 
2.43.0


From 6cf3ecb263ea7e13c435289b26c8544c44434594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 03/63] fix: closest match lookup for values that are not
 strings

Keys and literals do not have to be strings, in which case difflib raised
a TypeError in place of the error being reported.
---
 marsh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..72a14b8 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2353,8 +2353,8 @@ def get_closest(
         The closest candidate. :data:`None` if no candidate is close.
     """
     close = difflib.get_close_matches(
-        value,
-        candidates,
+        str(value),
+        map(str, candidates),
         n=1,
     )
     if close:
-- 
2.43.0


From 62022f8d6ec646d247f4d9fdd32c1d6cbbf631d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 04/63] fix: use the default of a missing datetime

---
 marsh/schema/types/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..8dfd99d 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -114,6 +114,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
-- 
2.43.0


From 7ed1c99ef67467ef85850027a86c5dccfbc069e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 05/63] fix: report out of range timestamps as unmarshal errors

---
 marsh/schema/types/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 8dfd99d..e481aec 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -137,7 +137,7 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
-- 
2.43.0


From 22c962dd77dae0c26aab4731415647dab532cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 06/63] fix: use the default of a missing protocol value

---
 marsh/schema/types/protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..aeff99e 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -90,6 +90,9 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         self,
         element: marsh.element.ElementType,
     ) -> Any:
+        if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
         for type_ in self.matched:
             try:
                 return marsh.unmarshal(type_, element)
-- 
2.43.0


From 107084beaafe175b4c8aa7541f1d7a90b4b1d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:11 +0000
Subject: [PATCH 07/63] fix: whitespace inside the slice syntax

The accepted pattern allows whitespace around the colons and signs but
int() raised a ValueError for it.
---
 marsh/schema/types/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 53819b0..3e53d67 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -117,7 +117,7 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
             args = tuple(
                 int(index) if index else None
                 for index
-                in element.split(':')
+                in ''.join(element.split()).split(':')
             )
         if not args:
             return slice(None)
-- 
2.43.0


From e8d907dc70f6daa7b405575589d91eaed4a96619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 08/63] fix: marshal the components of a slice

---
 marsh/schema/types/slice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 3e53d67..fa738d6 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -43,9 +43,9 @@ class SliceMarshalSchema(marsh.schema.MarshalSchema):
         self,
     ) -> marsh.element.MappingElementType:
         return dict(
-            start=self.value.start,
-            stop=self.value.stop,
-            step=self.value.step,
+            start=marsh.marshal(self.value.start),
+            stop=marsh.marshal(self.value.stop),
+            step=marsh.marshal(self.value.step),
         )
 
 
-- 
2.43.0


From 6ec1259faba8b41ee0a0185ca448dc2b2ce3f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 09/63] fix: construct fixed size tuples from keyword arguments

Fields that were not given as positional arguments are passed by name,
which raised a TypeError.
---
 marsh/schema/types/tuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 4172504..8c4381b 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -58,4 +58,4 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
         *args,
         **kwargs,
     ) -> tuple:
-        return tuple(args, **kwargs)
+        return (*args, *kwargs.values())
-- 
2.43.0


From 5de4e1b51e393fdc11aa6406943322a92452f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 10/63] fix: construct typed dicts from a sequence

Positional values were assigned to keys in declaration order while they had
been unmarshaled with the required keys first, and a sequence that does not
cover all keys raised an unrelated error.
---
 marsh/schema/types/typeddict.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..3337122 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -101,14 +101,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        mapping = {**dict(zip(self.schemas, args)), **kwargs}
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From dfc26d9bf565476ee714fa7fff7e7a1b560a40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:37 +0000
Subject: [PATCH 11/63] fix: report a missing closing quote as a parse error

---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index cf832f7..973f4b7 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -355,7 +355,7 @@ def string(
         chars: List[str] = []
         if peek(source) in QUOTE_CHARACTERS:
             quote = pop(source)
-        while (char := peek(source)) not in terminal_chars or quote:
+        while source and ((char := peek(source)) not in terminal_chars or quote):
             if char == ESCAPE:
                 if len(source) < 2:
                     raise ParseError(
-- 
2.43.0


From 91f4b26c2da79154bcceccc0d946191c189b6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:40 +0000
Subject: [PATCH 12/63] fix: parse integers without loss of precision

---
 marsh/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index 973f4b7..f9d64dc 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -414,6 +414,10 @@ def terminal(
         raise err
     if quoted or not value:
         return value
+    try:
+        return int(value)
+    except ValueError:
+        pass
     try:
         fl_value = float(value)
         if fl_value.is_integer():
-- 
2.43.0


From cd8e25c498d2b5b4547f0ff9f8017af39ec6431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 13/63] fix: make parse errors marsh errors

The entry point reports marsh errors raised while loading the config, but
a malformed override ended in a traceback.
---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index f9d64dc..c75cdc6 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -41,7 +41,7 @@ class _ParseFunction(Protocol):
         ...
 
 
-class ParseError(Exception):
+class ParseError(marsh.errors.MarshError):
 
     def __init__(
         self,
-- 
2.43.0


From 346d23508036f834eea57680383991ff44bd7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 14/63] fix: do not share cached schemas between defaults of
 different type

Defaults such as 1, 1.0 and True compare equal and resolved to the same
cached schema.
---
 marsh/schema/core/unmarshal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..75b90d7 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -265,6 +265,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
+        typed=True,
         safe=True,
         binding='ignore',
     )
-- 
2.43.0


From 587adba8eb8b2854b7e05d604f21aeb7c44f7165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 15/63] fix: marshal the content of omegaconf containers

Containers may hold bytes, paths and keys that are not strings.
---
 marsh/schema/types/omegaconf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/marsh/schema/types/omegaconf.py b/marsh/schema/types/omegaconf.py
index b56e40f..dfb152f 100644
--- a/marsh/schema/types/omegaconf.py
+++ b/marsh/schema/types/omegaconf.py
@@ -1,7 +1,6 @@
 from typing import (
     Any,
     Union,
-    cast,
 )
 
 import omegaconf
@@ -39,8 +38,7 @@ class OmegaconfMarshalSchema(marsh.schema.MarshalSchema):
     def marshal(
         self,
     ) -> marsh.element.ElementType:
-        return cast(
-            marsh.element.ElementType,
+        return marsh.marshal(
             omegaconf.OmegaConf.to_container(
                 self.value,
                 enum_to_str=True,
-- 
2.43.0


From 7a2eb90da6412ec5d243e6b967a2a2f09f04c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 16/63] fix: marshal the value of a literal

---
 marsh/schema/types/literal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/literal.py b/marsh/schema/types/literal.py
index 0e73105..3cdf938 100644
--- a/marsh/schema/types/literal.py
+++ b/marsh/schema/types/literal.py
@@ -89,7 +89,7 @@ class LiteralValueMarshalSchema(marsh.schema.MarshalSchema):
     def marshal(
         self,
     ) -> marsh.element.ElementType:
-        return get_args(self.value)[0]
+        return marsh.marshal(get_args(self.value)[0])
 
 
 @marsh.schema.register
-- 
2.43.0


From 167521314c2f02d4d82bdde242fb6436ae8c7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 17/63] fix: treat enums with a mixin type as enums

A str or int enum was matched by the primitive schemas, so it was neither
marshaled into its name nor unmarshaled from it.
---
 marsh/schema/types/enum.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index c07abf6..89d43f9 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -11,7 +11,14 @@ from . import sequence
 _E = TypeVar('_E', bound=enum.Enum)
 
 
-@marsh.schema.register(lower_priority=sequence.SequenceUnmarshalSchema)
+# enums may be mixed with any other type
+_PRIORITY = 1
+
+
+@marsh.schema.register(
+    priority=_PRIORITY,
+    lower_priority=sequence.SequenceUnmarshalSchema,
+)
 class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
 
     def __init__(
@@ -44,7 +51,7 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
         )
 
 
-@marsh.schema.register
+@marsh.schema.register(priority=_PRIORITY)
 class EnumValueMarshalSchema(marsh.schema.MarshalSchema):
 
     value: enum.Enum
-- 
2.43.0


From 926d275332be2584b022e12e514731bb703d5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 18/63] fix: interleaved iterations of IterableFromIterator

An iteration missed the items that another iteration had fetched from the
underlying iterator in the meantime.
---
 marsh/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 72a14b8..4d972a9 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -976,10 +976,15 @@ class IterableFromIterator(Generic[_T]):
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
-            self._cache.append(item)
-            yield item
+        index = 0
+        while True:
+            if index == len(self._cache):
+                try:
+                    self._cache.append(next(self._iter))
+                except StopIteration:
+                    return
+            yield self._cache[index]
+            index += 1
 
     def __bool__(
         self,
-- 
2.43.0


From 5d878cd9b1399146bb72c911bc1ad8a8c28888bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 19/63] fix: compare the values of cached hash keys

All keys with the same hash compared equal since the key never held its
value.
---
 marsh/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 4d972a9..6557b22 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -492,6 +492,7 @@ class _CachedHashKey(list):
         self,
         value,
     ):
+        self[:] = value
         self._hash = hash(value)
 
     def __hash__(self):
@@ -518,7 +519,7 @@ def make_hash_key(
         key += _HASH_KEY_KEYWORD_MARK
         for item in kwargs.items():
             key += item
-    if len(key) == 1 and key[0] in _HASH_KEY_FAST_HASH_TYPES:
+    if len(key) == 1 and type(key[0]) in _HASH_KEY_FAST_HASH_TYPES:
         return key[0]
     return _CachedHashKey(key)
 
-- 
2.43.0


From 5c01bd1b6ce662572f08cc090cc213088ed5cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 20/63] fix: replace the value of an unhashable key in SafeDict

The loop never left early so the key was appended again on every
assignment.
---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 6557b22..3a0d8b1 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -591,9 +591,9 @@ class SafeDict(MutableMapping[_K, _V]):
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
                     self._unhashable_cache[-i] = (key, value)
-            else:
-                self._order.append((False, len(self._unhashable_cache)))
-                self._unhashable_cache.append((key, value))
+                    return
+            self._order.append((False, len(self._unhashable_cache)))
+            self._unhashable_cache.append((key, value))
 
     def __delitem__(
         self,
-- 
2.43.0


From 2bcad9f3a17c4982ab759a6f008a44d3dbb3260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 21/63] fix: keep the order of SafeDict after removing a key

The indices of the remaining keys were not shifted, so iterating failed or
yielded the wrong keys.
---
 marsh/utils.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 3a0d8b1..8d068f0 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -607,24 +607,31 @@ class SafeDict(MutableMapping[_K, _V]):
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
                         if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
+                            self._remove_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
                 return
         except TypeError:
-            for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for key_idx, (k, _) in enumerate(self._unhashable_cache):
                 if k == key:
-                    self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    self._unhashable_cache.pop(key_idx)
+                    self._remove_order(False, key_idx)
                     return
         raise KeyError(key)
 
+    def _remove_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        # the indices of the keys that were added after
+        # the removed key are shifted.
+        self._order = [
+            (h, i - 1 if h == hashable and i > index else i)
+            for h, i in self._order
+            if (h, i) != (hashable, index)
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From 321c74670c9e914bfb949edc54714af4551d91e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:09 +0000
Subject: [PATCH 22/63] fix: detect duplicate values in PriorityOrder

The wrappers were compared by identity, so adding a value twice was never
refused and replace did not remove the previous entry.
---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8d068f0..ab1c7a3 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1268,7 +1268,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
             # does the value to be added already exist?
             for i in range(len(self._values)):
-                if self._values[i] == wrapped:
+                if self._values[i].value == wrapped.value:
                     if replace:
                         del self._values[i]
                         break
-- 
2.43.0


From c28b784dc786018c8ebe5642417e893264c674e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 23/63] fix: keep relative priorities when reloading
 PriorityOrder

The relative priorities hold hashes, which were hashed again when the
values were added anew and no longer referred to the same values.
---
 marsh/utils.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index ab1c7a3..58874c0 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1218,12 +1218,25 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         values = sorted(self._values, key=lambda x: x.index)
         del self._values[:]
         for value in values:
-            self.add(
-                value=value.value,
-                priority=value.priority,
-                lower_priority=value.relative_priority.lower,
-                higher_priority=value.relative_priority.higher,
-            )
+            self._insert(value)
+
+    def _insert(
+        self,
+        wrapped: 'PriorityOrder._WrappedValue[_T]',
+    ) -> None:
+        # find insertion index for value based on priorities.
+        # circular priorities with a length larger than 1 do
+        # not raise an error.
+        idx = 0
+        for i, position in enumerate(self._values):
+            if wrapped.relative_priority > position.relative_priority:
+                break
+            if (
+                wrapped.relative_priority < position.relative_priority
+                or wrapped.priority < position.priority
+            ):
+                idx = i + 1
+        self._values.insert(idx, wrapped)
 
     @overload
     def add(
@@ -1276,19 +1289,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                         f'{wrapped} already exists.',
                     )
 
-            # find insertion index for value based on priorities.
-            # circular priorities with a length larger than 1 do
-            # not raise an error.
-            idx = 0
-            for i, position in enumerate(self._values):
-                if wrapped.relative_priority > position.relative_priority:
-                    break
-                if (
-                    wrapped.relative_priority < position.relative_priority
-                    or wrapped.priority < position.priority
-                ):
-                    idx = i + 1
-            self._values.insert(idx, wrapped)
+            self._insert(wrapped)
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From 5281d398fd99b26dc8b47560f3d46dd839933edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 24/63] fix: escape a field that is added to an empty path

The field was split in two when it contained a delimiter.
---
 marsh/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From 511af14853b7967f6c0b758235b34b6329c4f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 25/63] fix: reject NaN in the sign annotations

---
 marsh/annotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/annotation.py b/marsh/annotation.py
index 227dd11..d11c3fd 100644
--- a/marsh/annotation.py
+++ b/marsh/annotation.py
@@ -91,7 +91,7 @@ class Positive(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value <= 0:  # type: ignore
+        if not value > 0:  # type: ignore
             raise ValueError(
                 f'positive value required, got {value}',
             )
@@ -105,7 +105,7 @@ class Negative(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value >= 0:  # type: ignore
+        if not value < 0:  # type: ignore
             raise ValueError(
                 f'negative value required, got {value}',
             )
@@ -119,7 +119,7 @@ class Unsigned(Annotation):
         self,
         value: _NumberType,
     ) -> _NumberType:
-        if value < 0:  # type: ignore
+        if not value >= 0:  # type: ignore
             raise ValueError(
                 f'unsigned value required, got {value}',
             )
-- 
2.43.0


From 264f8b2c9d621cdfce80995d5b000e75b95881f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 26/63] fix: write configs to stdout as plain yaml

Sequences were written with python specific tags that can not be loaded.
---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..9389bdc 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -343,7 +343,7 @@ def write(
             If not specified, stdout is used.
     """
     if path == '-':
-        yaml.dump(config, sys.stdout)
+        yaml.safe_dump(config, sys.stdout)
     else:
         ConfigSchema(path).dump(config)
 
-- 
2.43.0


From 2eaa677bd4cc9a426e06c737e882ba3bfe50de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 27/63] fix: escape the field in the path of removal errors

---
 marsh/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 82aa831..efd6169 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -311,7 +311,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[field] = remove(
@@ -342,7 +342,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[index] = remove(
-- 
2.43.0


From 6e3e91cde1215298320c84d5829e7ba4ee0c7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 28/63] fix: find named configs in the working directory

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 9389bdc..18c09d0 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -184,7 +184,7 @@ def find_config(
                 f'could not find config {target} ',
             )
         return target
-    dpath = os.path.dirname(target)
+    dpath = os.path.dirname(target) or os.curdir
     if not os.path.isdir(dpath):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
-- 
2.43.0


From cdc044bbabe1bf3fec1107dee816e745985e7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 29/63] fix: encode configs before truncating the output file

An element that can not be serialized destroyed the previous content of the
file.
---
 marsh/config.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 18c09d0..d87db67 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -92,13 +92,6 @@ class JSONConfigIO(ConfigSchema):
     ) -> bool:
         return get_ext(value).lower() == '.json'
 
-    def dump(
-        self,
-        element: marsh.element.ElementType,
-    ) -> None:
-        with open(self.value, 'w') as fp:
-            json.dump(element, fp)
-
     def load(
         self,
     ) -> marsh.element.ElementType:
@@ -128,13 +121,6 @@ class YAMLConfigIO(ConfigSchema):
     ) -> bool:
         return get_ext(value).lower() in ('.yaml', '.yml')
 
-    def dump(
-        self,
-        element: marsh.element.ElementType,
-    ) -> None:
-        with open(self.value, 'w') as fp:
-            yaml.safe_dump(element, fp)
-
     def load(
         self,
     ) -> marsh.element.ElementType:
-- 
2.43.0


From 2c833652378e269d52426a0753db09bddde9f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 30/63] fix: report failure to create the output directory

Only marsh errors were handled, which are never raised by os.makedirs.
---
 marsh/entry_point.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..c637cd6 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -226,7 +226,10 @@ class EntryPoint:
                 print(f'failed to create output directory {path}: {error}')
                 sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+            with marsh.errors.maybe_handle_error(
+                handle_create_dir_error,
+                OSError,
+            ):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
         yield
-- 
2.43.0


From 1ab63ab8f0c8480c723c9e96ef8271da82f62e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 31/63] fix: restore the working directory when the entry point
 fails

---
 marsh/entry_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index c637cd6..d312c55 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -232,9 +232,11 @@ class EntryPoint:
             ):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
-        yield
-        if prev_path is not None:
-            os.chdir(prev_path)
+        try:
+            yield
+        finally:
+            if prev_path is not None:
+                os.chdir(prev_path)
 
     def maybe_print_help(
         self,
-- 
2.43.0


From a8575e41db885247891080aa6ee2b08719e6931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 32/63] fix: report the logger type in errors

---
 marsh/schema/types/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/logger.py b/marsh/schema/types/logger.py
index 8bad6a9..68b56ec 100644
--- a/marsh/schema/types/logger.py
+++ b/marsh/schema/types/logger.py
@@ -123,6 +123,6 @@ class LoggerUnmarshalSchema(marsh.schema.UnmarshalSchema[logging.Logger]):
                 raise marsh.errors.UnmarshalError(
                     f'could not set logging level to "{arg["level"]}"',
                     element=element,
-                    type=type,
+                    type=self.value,
                 )
         return logger
-- 
2.43.0


From cdeb7fd36e73a4856fd3f9c6881fdb0bf4b27303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 33/63] fix: return the cache info of the unmarshal schema
 registry

---
 marsh/schema/core/unmarshal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 75b90d7..45123be 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -116,7 +116,7 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
     def cache_info(
         self,
     ) -> marsh.utils.CacheInfo:
-        return self.match.cache_info,  # type: ignore
+        return self.match.cache_info()  # type: ignore
 
     @overload
     def register(
-- 
2.43.0


From 0c249639b339bcc6f055c3d49c275876f4d36722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 34/63] fix: leave the cached schema selection untouched

The recursive reference was inserted into the list that is held by the
cache of the registry, so other threads and later builds of the type
received one reference more for every build.
---
 marsh/schema/core/unmarshal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 45123be..76db34e 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -259,9 +259,10 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             except KeyError:
                 pass
         result = cls.registry.match(value)
-        result.insert(0, RecursiveReferenceUnmarshalSchema)
-        recursive_cache[value] = result
-        return result[1:].build(value, *args, **kwargs)
+        recursive_cache[value] = base.SchemaSelection(
+            [RecursiveReferenceUnmarshalSchema, *result],
+        )
+        return result.build(value, *args, **kwargs)
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
-- 
2.43.0


From f53ce627b37f7c1f235b1e1d582eea8f48858ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 35/63] fix: drop recursive references once a schema has been
 built

The reference was kept after the build, so a type that failed to build was
silently wrapped in a reference the next time and a type that is used twice
lost the documentation of its fields.
---
 marsh/schema/core/unmarshal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 76db34e..d9d3364 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -262,7 +262,10 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         recursive_cache[value] = base.SchemaSelection(
             [RecursiveReferenceUnmarshalSchema, *result],
         )
-        return result.build(value, *args, **kwargs)
+        try:
+            return result.build(value, *args, **kwargs)
+        finally:
+            del recursive_cache[value]
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
-- 
2.43.0


From f46ee2e543534906a86f55df5c0f4a08b54119f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 36/63] fix: clear cached schemas when a schema type is
 registered

Only the matches were cleared, and before the registration. A type that had
been used kept the schema that matched it first.
---
 marsh/schema/core/unmarshal.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d9d3364..2b9fa44 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -157,14 +157,17 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         Type['UnmarshalSchema'],
     ]:
         def wrapper(_schema):
-            self.cache_clear()
-            return self.priority.add(
-                _schema,
-                priority=priority,
-                lower_priority=lower_priority,
-                higher_priority=higher_priority,
-                replace=replace,
-            )
+            try:
+                return self.priority.add(
+                    _schema,
+                    priority=priority,
+                    lower_priority=lower_priority,
+                    higher_priority=higher_priority,
+                    replace=replace,
+                )
+            finally:
+                self.cache_clear()
+                UnmarshalSchema.cache_clear()
         if schema is None:
             return wrapper
         return wrapper(schema)
-- 
2.43.0


From 20041945136dc0408e7b5fb280764e89a72c785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 37/63] fix: clear cached schemas when namespaces change

The schemas held by the namespaces were kept when other components were
registered, and creating or deleting a namespace kept every cached schema.
---
 marsh/schema/namespace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..34183ca 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
 
     def __contains__(
         self,
@@ -224,6 +226,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
                 base=base,
             )
         )
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
         return namespace
 
     def cache_clear(
@@ -445,6 +449,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self,
     ) -> None:
         """Clear the cache."""
+        self._schemas.clear()
         self.find_class.cache_clear()  # type: ignore
         self.find_subclasses.cache_clear()  # type: ignore
 
@@ -562,7 +567,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-            self._schemas.pop(name, None)
 
         def _register(
             component: Type[_T],
@@ -574,7 +578,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                 )
             self.components[name] = component
             self.cache_clear()
-            self._namespaces.cache_clear()
+            self._namespaces.cache_clear(full=True)
             marsh.schema.UnmarshalSchema.cache_clear()
             return component
 
-- 
2.43.0


From ab0a6830540913511f7ddeef7d7368262ed37476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 38/63] fix: refuse a component name that was taken before
 decorating

Two decorators for the same name silently replaced the component.
---
 marsh/schema/namespace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 34183ca..39cb8f7 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -561,16 +561,21 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
             A decorator for registering the type if no
             type was given else the type itself.
         """
-        if name in self:
-            if not replace:
+        def check_name() -> None:
+            if name in self and not replace:
                 raise marsh.errors.MarshError(
                     f'a component with the name "{name}" '
                     'already exists',
                 )
 
+        check_name()
+
         def _register(
             component: Type[_T],
         ) -> Type[_T]:
+            # the name may have been taken since
+            # the decorator was created
+            check_name()
             if not issubclass(component, self.base):
                 raise ValueError(
                     'registered component must be '
-- 
2.43.0


From e67ee3b56933a83dee922ebc7b6350e0c0bbdde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 39/63] fix: do not cache which config types are supported

A type that was registered after a directory had been searched remained
unsupported for the files found there.
---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index d87db67..79132ea 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -209,7 +209,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From 1cd35e78d9367388c1a84df618a294247f2db24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 40/63] fix: pass the receiver along with the call in cached
 methods

The receiver of a method cached with binding='ignore' was stored in a
variable shared by all calls, so concurrent calls could run with the
receiver of another call.
---
 marsh/utils.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 58874c0..dc564c3 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -403,13 +403,13 @@ def cache(
             disabled = False
 
         if binding == 'ignore':
-            _self: Any = None
 
             def cached_func(
+                self: _IgnoredKey,
                 *args,
                 **kwargs,
             ) -> _T:
-                return func(_self, *args, **kwargs)
+                return func(self.value, *args, **kwargs)
 
             def delegating_func(
                 self,
@@ -418,9 +418,7 @@ def cache(
             ) -> _T:
                 if disabled:
                     return func(self, *args, **kwargs)
-                nonlocal _self
-                _self = self
-                return cached_func(*args, **kwargs)
+                return cached_func(_IgnoredKey(self), *args, **kwargs)
 
         elif binding == 'weak':
 
@@ -475,6 +473,29 @@ def cache(
     return wrapper(fn)
 
 
+class _IgnoredKey:
+    """Carries a value without making it a part of a cache key."""
+
+    __slots__ = ('value',)
+
+    def __init__(
+        self,
+        value: Any,
+    ) -> None:
+        self.value = value
+
+    def __eq__(
+        self,
+        other: Any,
+    ) -> bool:
+        return isinstance(other, _IgnoredKey)
+
+    def __hash__(
+        self,
+    ) -> int:
+        return hash(_IgnoredKey)
+
+
 class _CachedHashKey(list):
     """Caches the hash value of an item.
 
-- 
2.43.0


From cea250e0103c83e132ba48251a48d2016ff3e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 41/63] fix: keep the declaration order of init-only dataclass
 fields

Values of a sequence input were passed to the wrong fields of a dataclass
with an InitVar field that is not declared last.
---
 marsh/schema/types/dataclass.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..85b1936 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -125,9 +125,12 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 return resolve_type(type_.type)
             return type_
 
-        for field in (
+        # use the order of the constructor arguments
+        names = tuple(getattr(self.value, _FIELDS))
+        for field in sorted(
             dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
+            + get_init_var_fields(self.value),
+            key=lambda field: names.index(field.name),
         ):
             if not field.init:
                 continue
-- 
2.43.0


From 2df8a51c9b86a77a62b58c6cf9706c078b2cf8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 42/63] fix: pass named parameters that precede *args by
 position

All items of a sequence input were consumed by *args, leaving the
parameters in front of it without a value.
---
 marsh/schema/template/callable.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..c2fe920 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -40,6 +40,10 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         keyword = {}
         var_positional = None
         var_keyword = None
+        has_var_positional = any(
+            param.kind == param.VAR_POSITIONAL
+            for param in sig.parameters.values()
+        )
         for name, param in sig.parameters.items():
             if (
                 param.annotation is param.empty
@@ -56,7 +60,12 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             if param.kind == param.POSITIONAL_ONLY:
                 positional[name] = schema
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
-                keyword[name] = schema
+                # has to be passed by position if it
+                # is followed by positional arguments
+                if has_var_positional:
+                    positional[name] = schema
+                else:
+                    keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
                 keyword[name] = schema
             elif param.kind == param.VAR_POSITIONAL:
-- 
2.43.0


From 5f76ea82a48eee19196d3b5cc76b2a49d94603cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 43/63] fix: locate the field when a tuple item or typed dict
 key has no schema

---
 marsh/schema/types/tuple.py     | 14 +++++++-------
 marsh/schema/types/typeddict.py | 28 +++++++++++-----------------
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 8c4381b..78a9e68 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -16,13 +16,13 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
         **kwargs,
     ) -> None:
         super().__init__(*args, **kwargs)
-        self.schemas = {
-            str(i): marsh.schema.UnmarshalSchema(type_)
-            for i, type_ in enumerate(
-                arg for arg in get_args(self.value)
-                if arg != ()  # empty tuple type
-            )
-        }
+        self.schemas = {}
+        for i, type_ in enumerate(
+            arg for arg in get_args(self.value)
+            if arg != ()  # empty tuple type
+        ):
+            with marsh.errors.prepend(i):
+                self.schemas[str(i)] = marsh.schema.UnmarshalSchema(type_)
 
     @classmethod
     def match(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 3337122..506d656 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -59,23 +59,17 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         super().__init__(*args, **kwargs)
         self._sentinel = _Sentinel()
         annotations = get_type_hints(self.value)
-        self.schemas = types.MappingProxyType(
-            {
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                    )
-                    for name in self.required_keys
-                },
-                **{
-                    name: marsh.schema.UnmarshalSchema(
-                        annotations[name],
-                        default=self._sentinel,
-                    )
-                    for name in self.optional_keys
-                },
-            },
-        )
+        schemas = {}
+        for name in self.required_keys:
+            with marsh.errors.prepend(name):
+                schemas[name] = marsh.schema.UnmarshalSchema(annotations[name])
+        for name in self.optional_keys:
+            with marsh.errors.prepend(name):
+                schemas[name] = marsh.schema.UnmarshalSchema(
+                    annotations[name],
+                    default=self._sentinel,
+                )
+        self.schemas = types.MappingProxyType(schemas)
 
     @classmethod
     def match(
-- 
2.43.0


From 91529184a506a085d5735f75e116ba883b02d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 44/63] fix: report numbers too large for the target type as
 ValueError in cast_primitive

---
 marsh/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index dc564c3..4521a84 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2130,7 +2130,10 @@ def cast_primitive(
         return str_to_int(value)
     if issubclass(type_, int) and isinstance(value, float):
         return float_to_int(value)
-    return type_(value)
+    try:
+        return type_(value)
+    except OverflowError as err:
+        raise ValueError(f'could not convert to {type_}: {value}') from err
 
 
 def cast_literal(
-- 
2.43.0


From 087947aef328e744c0c1997b2ca21c69761bc449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 45/63] fix: report annotation types that can not be
 instantiated instead of ignoring them

---
 marsh/schema/types/annotated.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/annotated.py b/marsh/schema/types/annotated.py
index 421794f..568f9b0 100644
--- a/marsh/schema/types/annotated.py
+++ b/marsh/schema/types/annotated.py
@@ -111,16 +111,24 @@ class AnnotatedUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         annotations: List[marsh.annotation.Annotation] = []
         for ann in marsh.utils.get_annotations(self.value):
             try:
-                if issubclass(
+                is_annotation_type = issubclass(
                     ann,
                     (
                         marsh.annotation.Annotation,
                         marsh.annotation.PreAnnotation,
                     ),
-                ):
-                    ann = ann()
+                )
             except TypeError:
-                pass
+                is_annotation_type = False
+            if is_annotation_type:
+                try:
+                    ann = ann()
+                except marsh.errors.MarshError:
+                    raise
+                except Exception as err:
+                    raise marsh.errors.UnmarshalError(
+                        f'failed to create annotation {ann.__name__}: {err}',
+                    ) from err
             try:
                 if isinstance(
                     ann,
-- 
2.43.0


From 2f059b91cf1008bc3724aa3cd495c9b675cf2c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 46/63] fix: look up the schema of a component anew after a
 schema was registered

---
 marsh/schema/namespace.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 39cb8f7..1ea5fb1 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -383,7 +383,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self.name = name
         self.base = base
         self.components = {}
-        self._schemas: Dict[str, core.unmarshal.UnmarshalSchema[_T]] = {}
         # when wrapping functions on an instance the `self`
         # argument is not included until the most inner
         # wrapped function is called which means that we
@@ -411,23 +410,22 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     key='name',
                 ),
             )
-        if name not in self._schemas:
-            # instead of picking out the matched
-            # schema types we need to run the normal
-            # constructor so that the type is cached.
-            # If not, the recursive tests for namespace
-            # components fail.
-            schema = marsh.schema.UnmarshalSchema[_T](
-                self.components[name],
-            )
-            # extract inner schema
-            while isinstance(
-                schema,
-                marsh.schema.types.namespace.NamespaceUnmarshalSchema,
-            ):
-                schema = schema.schema
-            self._schemas[name] = schema
-        return self._schemas[name]
+        # instead of picking out the matched
+        # schema types we need to run the normal
+        # constructor so that the type is cached.
+        # If not, the recursive tests for namespace
+        # components fail. The result is not kept here
+        # as it changes with the registered schemas.
+        schema = marsh.schema.UnmarshalSchema[_T](
+            self.components[name],
+        )
+        # extract inner schema
+        while isinstance(
+            schema,
+            marsh.schema.types.namespace.NamespaceUnmarshalSchema,
+        ):
+            schema = schema.schema
+        return schema
 
     def __iter__(
         self,
@@ -449,7 +447,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self,
     ) -> None:
         """Clear the cache."""
-        self._schemas.clear()
         self.find_class.cache_clear()  # type: ignore
         self.find_subclasses.cache_clear()  # type: ignore
 
-- 
2.43.0


From 0ebc6cd1cc370567ad364e68f45d55558a3c602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 47/63] fix: refuse component names that can never be addressed

---
 marsh/schema/namespace.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 1ea5fb1..af89f39 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -559,6 +559,11 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
             type was given else the type itself.
         """
         def check_name() -> None:
+            if not name or marsh.utils.is_missing(name):
+                raise marsh.errors.MarshError(
+                    'a component can not be registered with '
+                    f'the name "{name}"',
+                )
             if name in self and not replace:
                 raise marsh.errors.MarshError(
                     f'a component with the name "{name}" '
-- 
2.43.0


From 3b790d55a5e0f5de6e7ddd70efcc2c49f915688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 48/63] fix: do not share matched schemas between equal types
 of different kinds

---
 marsh/schema/core/unmarshal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 2b9fa44..f8d11d8 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -174,7 +174,7 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.registry.match',
-        typed=False,
+        typed=True,
         safe=True,
         binding='ignore',
     )
-- 
2.43.0


From 7084a053dd6b8e83225020527aba55d7e2b43a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 49/63] fix: keep the matches of different schema registries
 apart

---
 marsh/schema/core/unmarshal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index f8d11d8..0c51ae6 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -176,7 +176,7 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         name='marsh.schema.UnmarshalSchema.registry.match',
         typed=True,
         safe=True,
-        binding='ignore',
+        binding='weak',
     )
     def match(
         self,
-- 
2.43.0


From 291abc33b0dccda983aba453b76a19ec2751585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 50/63] fix: order values by every stated relative priority and
 detect longer circles

---
 marsh/utils.py | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 4521a84..e412000 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1236,28 +1236,39 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         self,
     ) -> None:
         """Reshuffle values in this container based on priority."""
-        values = sorted(self._values, key=lambda x: x.index)
-        del self._values[:]
-        for value in values:
-            self._insert(value)
+        self._values = self._ordered(self._values)
 
     def _insert(
         self,
         wrapped: 'PriorityOrder._WrappedValue[_T]',
     ) -> None:
-        # find insertion index for value based on priorities.
-        # circular priorities with a length larger than 1 do
-        # not raise an error.
-        idx = 0
-        for i, position in enumerate(self._values):
-            if wrapped.relative_priority > position.relative_priority:
-                break
-            if (
-                wrapped.relative_priority < position.relative_priority
-                or wrapped.priority < position.priority
-            ):
-                idx = i + 1
-        self._values.insert(idx, wrapped)
+        self._values = self._ordered([*self._values, wrapped])
+
+    @staticmethod
+    def _ordered(
+        values: List['PriorityOrder._WrappedValue[_T]'],
+    ) -> List['PriorityOrder._WrappedValue[_T]']:
+        # a value comes after every value it has a lower relative
+        # priority than. Apart from that values are ordered by
+        # their base priority, the most recently added first.
+        remaining = sorted(values, key=lambda x: (-x.priority, -x.index))
+        ordered: List['PriorityOrder._WrappedValue[_T]'] = []
+        while remaining:
+            for value in remaining:
+                if not any(
+                    value.relative_priority < other.relative_priority
+                    for other in remaining
+                    if other is not value
+                ):
+                    break
+            else:
+                raise ValueError(
+                    'circular relative priorities for '
+                    f'{", ".join(map(str, remaining))}',
+                )
+            remaining.remove(value)
+            ordered.append(value)
+        return ordered
 
     @overload
     def add(
-- 
2.43.0


From 4883113cbdf6ab1b39e0a68a5ec5dc9abb4ed7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 51/63] fix: keep the replaced value of PriorityOrder when the
 replacement is refused

---
 marsh/utils.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index e412000..8ae745d 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1238,12 +1238,6 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         """Reshuffle values in this container based on priority."""
         self._values = self._ordered(self._values)
 
-    def _insert(
-        self,
-        wrapped: 'PriorityOrder._WrappedValue[_T]',
-    ) -> None:
-        self._values = self._ordered([*self._values, wrapped])
-
     @staticmethod
     def _ordered(
         values: List['PriorityOrder._WrappedValue[_T]'],
@@ -1312,16 +1306,17 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             )
 
             # does the value to be added already exist?
-            for i in range(len(self._values)):
-                if self._values[i].value == wrapped.value:
+            values = list(self._values)
+            for i in range(len(values)):
+                if values[i].value == wrapped.value:
                     if replace:
-                        del self._values[i]
+                        del values[i]
                         break
                     raise ValueError(
                         f'{wrapped} already exists.',
                     )
 
-            self._insert(wrapped)
+            self._values = self._ordered([*values, wrapped])
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From 538c9a464596d7a1b888057c028f48eea406a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 52/63] fix: kinds and types of typing.Generic can be
 determined without endless recursion

---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8ae745d..3f61c51 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1441,7 +1441,7 @@ def is_sequence_type(
     Returns:
         ``True`` if value is a sequence type, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) is not None and origin is not value:
         return is_sequence_type(origin)
     try:
         return (
@@ -1538,7 +1538,7 @@ def is_mapping_type(
     Returns:
         ``True`` if value is a mapping, else ``False``.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) is not None and origin is not value:
         return is_mapping_type(origin)
     try:
         return (
@@ -1900,7 +1900,7 @@ def get_type(
     Returns:
         The type.
     """
-    if (origin := get_origin(value)) is not None:
+    if (origin := get_origin(value)) is not None and origin is not value:
         return get_type(origin)
     if is_typing_alias(value):
         return value
-- 
2.43.0


From a004b48bb10812373f14a5119e02c2d50d594a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 53/63] fix: a dataclass that extends a container is
 unmarshaled as a dataclass

---
 marsh/schema/types/dataclass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 85b1936..ed6b8fc 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -16,6 +16,10 @@ import marsh
 _T = TypeVar('_T')
 
 
+# a dataclass may also be a container (or any other supported type)
+_PRIORITY = 1
+
+
 _FIELDS = getattr(dataclasses, '_FIELDS', '__dataclass_fields__')
 _INITVAR_SENTINEL = dataclasses._FIELD_INITVAR  # type: ignore
 
@@ -47,7 +51,7 @@ def is_generated_class_docstring(
     return False
 
 
-@marsh.schema.register
+@marsh.schema.register(priority=_PRIORITY)
 class DataclassMarshalSchema(marsh.schema.MarshalSchema):
 
     @classmethod
@@ -84,7 +88,7 @@ class DataclassMarshalSchema(marsh.schema.MarshalSchema):
         }
 
 
-@marsh.schema.register
+@marsh.schema.register(priority=_PRIORITY)
 class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_T]):
 
     def __init__(
-- 
2.43.0


From 6bae4396fa44077f92896eb10996c369ba6209dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 54/63] fix: a named tuple is typed when its class is

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 3f61c51..4d5f8a3 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1640,7 +1640,7 @@ def is_typed_namedtuple(
     try:
         return (
             is_namedtuple(value)
-            and bool(get_type_hints(value))
+            and bool(get_type_hints(get_type(value)))
         )
     except TypeError:
         return False
-- 
2.43.0


From 6108922b976a9820caa428729eb69d613ec1bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 55/63] fix: help shows every positional default given to the
 call

---
 marsh/schema/template/structured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..04caeb4 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -127,7 +127,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         default_args = list(default_args or ())
         default_kwargs = dict(default_kwargs or {})
         fields: Dict[str, UnmarshalSchema.Doc.Field] = {}
-        for i, (name, schema) in enumerate(self.schemas.items()):
+        for name, schema in self.schemas.items():
             fields[name] = UnmarshalSchema.Doc.Field(
                 doc=schema.doc(depth - 1),
                 type=schema.doc_field_type(),
@@ -145,11 +145,11 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 if default_args:
                     default = str(default_args)
                     default_args = []
-            if i < len(default_args):
+            elif default_args:
                 default = str(default_args.pop(0))
             if name in default_kwargs:
                 default = str(default_kwargs.pop(name))
-            if default:
+            if default is not None:
                 fields[name].doc.default = default
         return fields
 
-- 
2.43.0


From 75906efb527b7f92f950753ddfddfcdb8b3a8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 56/63] fix: help of a namespaced type lists the registered
 names

---
 marsh/schema/types/namespace.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 117cd62..d88c81f 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -89,6 +89,17 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             },
         )
 
+    def doc(
+        self,
+        depth: int = 0,
+    ) -> marsh.schema.UnmarshalSchema.Doc:
+        doc = super().doc(depth)
+        doc.special_fields = [
+            *(doc.special_fields or ()),
+            *self.doc_special_fields(),
+        ]
+        return doc
+
     def doc_special_fields(
         self,
     ) -> Sequence[marsh.schema.UnmarshalSchema.Doc.SpecialField]:
-- 
2.43.0


From a6eb857e06ee147a8c3f769417f29669d27a1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 57/63] fix: an error below a namespaced name tells the name

---
 marsh/schema/types/namespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index d88c81f..a5fb6fe 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -124,7 +124,8 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
         field, path = marsh.path.head(path)
         for name, namespace in self.namespaces.find_subclasses(self.value):
             if name == field:
-                return namespace[name].select(path)
+                with marsh.errors.prepend(field):
+                    return namespace[name].select(path)
         raise marsh.errors.PathError(
             marsh.utils.get_closest_error_message(
                 field,
-- 
2.43.0


From b9abf3c914061c81694556142a2eda1bdeb761ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 58/63] fix: report keys without a hash as a library error

---
 marsh/schema/template/mapping.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/template/mapping.py b/marsh/schema/template/mapping.py
index c07ad22..2bc22b0 100644
--- a/marsh/schema/template/mapping.py
+++ b/marsh/schema/template/mapping.py
@@ -69,7 +69,14 @@ class MappingUnmarshalSchema(UnmarshalSchema[_T]):
             with marsh.errors.prepend(key):
                 casted_key = self.key_schema.unmarshal(key)
                 casted_value = self.value_schema.unmarshal(element[key])
-            prepared_input[casted_key] = casted_value
+                try:
+                    prepared_input[casted_key] = casted_value
+                except TypeError as err:
+                    raise marsh.errors.UnmarshalError(
+                        f'failed to use value as a key: {err}',
+                        element=key,
+                        type=self.value,
+                    ) from err
         try:
             return self.construct(prepared_input)
         except marsh.errors.MarshError:
-- 
2.43.0


From d801a40ffccdd944349fe025fe75a565bc19d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 59/63] fix: unmarshal a subclass of bytes into that subclass

---
 marsh/schema/types/bytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/bytes.py b/marsh/schema/types/bytes.py
index b44bb9f..1089f4a 100644
--- a/marsh/schema/types/bytes.py
+++ b/marsh/schema/types/bytes.py
@@ -93,7 +93,7 @@ class BytesUnmarshalSchema(marsh.schema.UnmarshalSchema[bytes]):
                 type=self.value,
             )
         try:
-            return marsh.utils.base64_to_bytes(str(element))
+            return self.value(marsh.utils.base64_to_bytes(str(element)))
         except Exception:
             raise marsh.errors.UnmarshalError(
                 'failed to unmarshal bytes',
-- 
2.43.0


From a73ad132469d4005035f075c8b6aad5fceef54de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 60/63] fix: unmarshal a subclass of complex into that subclass

---
 marsh/schema/types/complex.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/complex.py b/marsh/schema/types/complex.py
index 17d073d..9da019a 100644
--- a/marsh/schema/types/complex.py
+++ b/marsh/schema/types/complex.py
@@ -125,7 +125,18 @@ class ComplexUnmarshalSchema(marsh.schema.UnmarshalSchema[complex]):
                 type=self.value,
             )
         if isinstance(arg, float):
-            return complex(arg)
-        if marsh.utils.is_sequence(arg):
-            return complex(*arg)
-        return complex(**arg)  # type: ignore
+            value = complex(arg)
+        elif marsh.utils.is_sequence(arg):
+            value = complex(*arg)
+        else:
+            value = complex(**arg)  # type: ignore
+        if self.value in (complex, numbers.Complex):
+            return value
+        try:
+            return self.value(value)
+        except Exception as err:
+            raise marsh.errors.UnmarshalError(
+                f'failed to construct: {err}',
+                element=element,
+                type=self.value,
+            ) from err
-- 
2.43.0


From ea98a90eecb4e24cb78b5c18fe769d3094011388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 61/63] fix: unmarshal a subclass of a date or time class into
 that subclass

---
 marsh/schema/types/datetime.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index e481aec..0a83d47 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -149,4 +149,17 @@ class DatetimeUnmarshalSchema(
         if self.value == datetime.time:
             return dt.time()
         # datetime is subclass of date
-        return dt
+        if self.value in (datetime.date, datetime.datetime):
+            return dt
+        try:
+            if issubclass(self.value, datetime.time):
+                return self.value.fromisoformat(dt.time().isoformat())
+            if issubclass(self.value, datetime.datetime):
+                return self.value.fromisoformat(dt.isoformat())
+            return self.value.fromisoformat(dt.date().isoformat())
+        except Exception as err:
+            raise marsh.errors.UnmarshalError(
+                f'failed to construct: {err}',
+                element=element,
+                type=self.value,
+            ) from err
-- 
2.43.0


From 7118440d57bd7a4b306694e1bde514ff6a44b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 62/63] fix: unmarshal a subclass of defaultdict into that
 subclass

---
 marsh/schema/types/defaultdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index f17ad97..9b2cdda 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -92,4 +92,4 @@ class DefaultDictUnmarshalSchema(
         self,
         value: Mapping[Any, Any],
     ) -> collections.defaultdict:
-        return collections.defaultdict(self.initializer, value)
+        return marsh.utils.get_type(self.value)(self.initializer, value)
-- 
2.43.0


From 9d46564a86491783e6d76779a622f592dd99b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 63/63] fix: convert texts and floats to the subclass of int
 asked for

---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 4d5f8a3..0413e16 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2133,9 +2133,9 @@ def cast_primitive(
     if issubclass(type_, bool):
         return primitive_to_bool(value)
     if issubclass(type_, int) and isinstance(value, str):
-        return str_to_int(value)
-    if issubclass(type_, int) and isinstance(value, float):
-        return float_to_int(value)
+        value = str_to_int(value)
+    elif issubclass(type_, int) and isinstance(value, float):
+        value = float_to_int(value)
     try:
         return type_(value)
     except OverflowError as err:
-- 
2.43.0

