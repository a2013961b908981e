From ca26ec02500e0c2f2fb6bd39e146fb022ddd9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 01/33] fix: from_instance accepts more than one additional
 mapping

---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 75703a0..8b03751 100644
--- a/records/record.py
+++ b/records/record.py
@@ -473,7 +473,9 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(*maps, **kwargs)
+        for m in maps:
+            d.update(m)
+        d.update(kwargs)
         return d
 
     @parser
-- 
2.43.0


From 4b2e9a8cb0a8d3c8114786bd3f4c0e67e6e9429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 02/33] fix: a Select no longer loses keys given as a one-shot
 iterable

---
 records/select.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/records/select.py b/records/select.py
index 4b3678d..3a7055a 100644
--- a/records/select.py
+++ b/records/select.py
@@ -44,12 +44,13 @@ class Select:
             keys_to_remove = (keys_to_remove,)
         if isinstance(keys_to_maybe_remove, str):
             keys_to_maybe_remove = (keys_to_maybe_remove,)
-        self.keys_to_add = keys_to_add
-        self.keys_to_maybe_add = keys_to_maybe_add
-        self.keys_to_remove = keys_to_remove
-        self.keys_to_maybe_remove = keys_to_maybe_remove
-        self.keys_to_rename = keys_to_rename
-        self.keys_to_maybe_rename = keys_to_maybe_rename
+        # any iterable is accepted, including one-shot iterators and mutable collections, so we keep our own copies
+        self.keys_to_add = tuple(keys_to_add)
+        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
+        self.keys_to_remove = tuple(keys_to_remove)
+        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
+        self.keys_to_rename = tuple(keys_to_rename)
+        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
 
         # the Select's truthiness is cached
         self._bool = None
-- 
2.43.0


From 9f72c32d39aa5e42dbb07b712b3d412ea1cfa8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 03/33] fix: attributes of a frozen record can no longer be
 deleted

---
 records/record.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/records/record.py b/records/record.py
index 8b03751..6b62f66 100644
--- a/records/record.py
+++ b/records/record.py
@@ -425,6 +425,11 @@ class RecordBase:
             return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
+    def __delattr__(self, a):
+        if self._frozen:
+            raise TypeError(f'{type(self).__qualname__} is frozen')
+        super().__delattr__(a)
+
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
-- 
2.43.0


From 12b348d06ced66deb76c125263128a670697e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 04/33] fix: frozen records with unhashable values can be
 compared for equality

---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 6b62f66..489b5b9 100644
--- a/records/record.py
+++ b/records/record.py
@@ -281,7 +281,9 @@ class RecordBase:
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        if type(self).is_frozen() and hash(self) != hash(other):
+        # only compare hashes that are already cached, since frozen records may have unhashable values
+        if type(self).is_frozen() \
+                and self._hash is not None and other._hash is not None and self._hash != other._hash:
             return False
         for name in self._fields:
             if getattr(self, name) != getattr(other, name):
-- 
2.43.0


From bff9250d0ffa3a6e82dd38b41e5c369c69594b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 05/33] fix: the cached hash of a frozen record is not pickled

---
 records/record.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/records/record.py b/records/record.py
index 489b5b9..3432515 100644
--- a/records/record.py
+++ b/records/record.py
@@ -435,6 +435,13 @@ class RecordBase:
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
+    def __reduce_ex__(self, protocol):
+        func, args, state, *rest = super().__reduce_ex__(protocol)
+        if isinstance(state, tuple):
+            # hashes differ between processes, so a cached hash must not outlive its process
+            state[1].pop('_hash', None)
+        return (func, args, state, *rest)
+
     @parser
     @SelectableFactory
     @classmethod
-- 
2.43.0


From 73f29fc1b54ad7e92e87c5dd32ade0ca62b2d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 06/33] fix: deepcopy of a record keeps using the (empty) memo
 it was given

---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 3432515..536e1e4 100644
--- a/records/record.py
+++ b/records/record.py
@@ -663,7 +663,8 @@ class RecordBase:
         return type(self).from_instance(self)
 
     def __deepcopy__(self, memo=None):
-        memo = memo or {}
+        if memo is None:
+            memo = {}
         d = self.to_dict()
         d = deepcopy(d, memo)
         return self.from_mapping(d)
-- 
2.43.0


From 9143cf8d22a6918043e0bf8c9b9c866aa1d2413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 07/33] fix: falsish records returned by post_new or by a
 parser are not ignored

---
 records/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 536e1e4..fd2df60 100644
--- a/records/record.py
+++ b/records/record.py
@@ -237,10 +237,12 @@ class RecordBase:
             self._hash = None
 
         try:
-            self = self.post_new() or self
+            replacement = self.post_new()
+            if replacement is not None:
+                self = replacement
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing:
+            if parsing is not None:
                 return parsing
             raise
 
-- 
2.43.0


From 6f9ae948b34da2293af80669295c0aa5f21d1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 08/33] fix: the fields of a derived record are a FieldDict, as
 documented

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index fd2df60..22996e4 100644
--- a/records/record.py
+++ b/records/record.py
@@ -122,7 +122,7 @@ class RecordBase:
                     raise ValueError(f'cannot override inherited field {k}')
                 parent_fields[k] = field
         if parent_fields:
-            cls._fields = {**parent_fields, **cls._fields}
+            cls._fields = FieldDict({**parent_fields, **cls._fields})
 
         if any(b for b in cls.__bases__ if b.__init__ not in (RecordBase.__init__, object.__init__)):
             warn(f'class {cls} has parents that implement __init__, the initializer will not be called!')
-- 
2.43.0


From ca7952720b62cfc069218097f540239880f9e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 09/33] fix: a bare ClassVar annotation does not declare a
 field

---
 records/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/field.py b/records/field.py
index 31bd34c..bfcccbb 100644
--- a/records/field.py
+++ b/records/field.py
@@ -112,7 +112,7 @@ class RecordField:
             raise TypeError('raw Final cannot be use inside records')
         origin, args = split_annotation(th)
         meta_org = get_origin(origin)
-        if meta_org == ClassVar:
+        if origin is ClassVar or meta_org == ClassVar:
             return SKIP_FIELD
         if meta_org is Final:
             if not owner.is_frozen():
-- 
2.43.0


From 6de22bfdff5b84a228d3afad6dd9128423cdf164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 10/33] fix: tokens around a Final type are not dropped

---
 records/field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/records/field.py b/records/field.py
index bfcccbb..22ca956 100644
--- a/records/field.py
+++ b/records/field.py
@@ -7,7 +7,7 @@ from records.fillers.filler import Filler
 from records.fillers.get_filler import get_filler
 from records.tags import Tag
 from records.utils.decorators import decorator_kw_method
-from records.utils.typing_compatible import get_args, get_origin, split_annotation
+from records.utils.typing_compatible import Annotated, get_args, get_origin, split_annotation
 
 try:
     from typing import Final
@@ -117,7 +117,11 @@ class RecordField:
         if meta_org is Final:
             if not owner.is_frozen():
                 raise TypeError('cannot declare Final field in non-frozen Record')
-            ret = cls.from_type_hint(get_args(origin)[0], owner=owner, **kwargs)
+            inner = get_args(origin)[0]
+            if args:
+                # the annotations around a Final belong to the type inside it
+                inner = Annotated[(inner, *args)]
+            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
         else:
             filler = get_filler(th)
             ret = cls(filler=filler, owner=owner, **kwargs)
-- 
2.43.0


From 22ae313b62740097552c71cefba887dcce5fe5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 11/33] fix: a coercer is given the original value even after
 another coercer returned a wrong type

---
 records/fillers/filler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index b58e816..c9051c4 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -191,15 +191,16 @@ class AnnotatedFiller(Filler, Generic[T]):
                     raise TypeError(f'failed type checking for value of type {type(arg)}')
                 for i, coercer in enumerate(self.coercers):
                     try:
-                        arg = coercer(arg)
-                        tc = self.type_check(arg)
+                        coerced = coercer(arg)
+                        tc = self.type_check(coerced)
                         if tc is None \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
-                            raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
+                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
                         if i == len(self.coercers) - 1:
                             raise
                     else:
+                        arg = coerced
                         break
                 tpk = TypePassKind.coerce
 
-- 
2.43.0


From 55ce6212e778d33f1480b3923071cb168ff2a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 12/33] fix: wrongly typed coercion results are rejected for
 None, Ellipsis, and callable fields

---
 records/fillers/filler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index c9051c4..d5172d7 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -193,7 +193,7 @@ class AnnotatedFiller(Filler, Generic[T]):
                     try:
                         coerced = coercer(arg)
                         tc = self.type_check(coerced)
-                        if tc is None \
+                        if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                             raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
-- 
2.43.0


From edf661cc369b0790a0bc0fa5aff719389f9e9aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 13/33] fix: Whole rounds to the nearest integer instead of
 truncating

---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index c90ce6a..ad6eb65 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -265,7 +265,7 @@ class Whole(OriginDependant):
         elif isinstance(v, Real):
             mod = v % 1
             if isclose(mod, 0) or isclose(mod, 1):
-                return origin(v, *self.args, **self.kwargs)
+                return origin(round(v), *self.args, **self.kwargs)
         elif isinstance(v, Complex):
             if v.imag == 0:
                 return self.func_args(origin, v.real)
-- 
2.43.0


From 9082c87fcba220f0b7d88a4ebc123ef6402d8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 14/33] fix: Cyclic does not return its exclusive upper bound
 due to rounding

---
 records/fillers/builtin_validators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index d3652ca..d1408e9 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -88,7 +88,11 @@ class Cyclic(GlobalValidationToken):
             return v
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
-        return self.minimum + d
+        ret = self.minimum + d
+        if ret >= self.maximum:
+            # rounding of inexact types can bring the result up to the (exclusive) upper bound
+            ret = self.minimum + 0 * d
+        return ret
 
     def __call__(self, *_):
         return self.inner
-- 
2.43.0


From 5cdf1d55500f83fbb64344e9c748f4dd54906c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 15/33] fix: rejecting a value does not add its type to the
 types of a Literal

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a745b51..c599917 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -108,7 +108,7 @@ class LiteralFiller(AnnotatedFiller):
         if not self.is_hollow():
             @self.validators.append
             def inner_validator(v):
-                if v not in self.possible_values[type(v)]:
+                if v not in self.possible_values.get(type(v), ()):
                     raise ValueError
                 return v
 
-- 
2.43.0


From 4ce038f5ed8280b7a3215e78f57f2d388a383810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 16/33] fix: Type[Any] accepts all types

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index c599917..47ee036 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -431,7 +431,7 @@ def _typing(stored_type):
     if origin_cls == Literal:
         return LiteralFiller
     if origin_cls == type:
-        if has_args(stored_type):
+        if has_args(stored_type) and get_args(stored_type)[0] is not Any:
             return TypeFiller
         return GetFiller(type)
     if origin_cls == CallableBase:
-- 
2.43.0


From 58a527a262378b95146e630fd05a5e36c3c1aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 17/33] fix: Tuple[()] only accepts empty tuples

---
 records/fillers/builtin_fillers/typing_fillers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 47ee036..2d2dff1 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -5,7 +5,7 @@ import contextlib
 from collections import defaultdict, deque
 from collections.abc import Callable as CallableBase
 from itertools import chain, islice
-from typing import Any, Sequence, TypeVar, Union
+from typing import Any, Sequence, Tuple, TypeVar, Union
 
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.filler import (AnnotatedFiller, Filler, TypeMatch, FillingSuccess, TypePassKind)
@@ -440,5 +440,8 @@ def _typing(stored_type):
         t = genric_origin_map.get(origin_cls)
         if t:
             return t
+    elif origin_cls is tuple and stored_type is not Tuple and not get_args(stored_type):
+        # in some python versions, the type of the empty tuple has no arguments
+        return TupleFiller
     elif origin_cls:
         return GetFiller(origin_cls)
-- 
2.43.0


From 694c2a7931980255f1a184f1223bdfbac3a159e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 18/33] fix: strings can be reconstructed from their filled
 characters

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 2d2dff1..2c898b3 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -264,6 +264,8 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
+        if isinstance(initial, str):
+            return type(initial)(''.join(elements))
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From c01e03106a72254ef10e66466c5b443db525e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 19/33] fix: reconstruct deques, namedtuples, and all mapping
 types regardless of the type hint

---
 .../fillers/builtin_fillers/typing_fillers.py | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 2c898b3..cbd6142 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -156,6 +156,14 @@ class TypeFiller(WrapperFiller):
                 return v
 
 
+def _tuple_constructor(v):
+    """
+    :param v: an iterable
+    :return: a callable to create an object of `v`'s type from elements, accounting for namedtuples
+    """
+    return getattr(type(v), '_make', type(v))
+
+
 class TupleFiller(WrapperFiller):
     """
     A filler for a parameterized typing.Tuple
@@ -192,7 +200,7 @@ class TupleFiller(WrapperFiller):
                                 [filled],
                                 (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                             )
-                            return type(v)(all_elements)
+                            return _tuple_constructor(v)(all_elements)
                     return v
         else:
             if not self.is_hollow():
@@ -222,7 +230,7 @@ class TupleFiller(WrapperFiller):
                                 (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                             self.sub_fillers[hollow_passes + 1:]))
                             )
-                            return type(v)(all_elements)
+                            return _tuple_constructor(v)(all_elements)
                     return v
 
     def sub_filler(self, key):
@@ -266,7 +274,9 @@ class GenericIterableFiller(WrapperFiller):
         """
         if isinstance(initial, str):
             return type(initial)(''.join(elements))
-        return type(initial)(elements)
+        if isinstance(initial, deque):
+            return type(initial)(elements, initial.maxlen)
+        return _tuple_constructor(initial)(elements)
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
@@ -326,7 +336,10 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
-        return type(initial)(tuples)
+        if isinstance(initial, defaultdict):
+            return type(initial)(initial.default_factory, tuples)
+        # not all mappings can be created from tuples
+        return type(initial)(dict(tuples))
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From 91b6fca3f1f70f8cac08a2a6338fe608a390f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 20/33] fix: from_instance extracts the attributes its
 selection removes, renames, or may add

---
 records/record.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/records/record.py b/records/record.py
index 22996e4..9c31cda 100644
--- a/records/record.py
+++ b/records/record.py
@@ -352,9 +352,11 @@ class RecordBase:
         if _rev_select:
             missing_ok = set(missing_ok)
             extraction_dict = dict(extraction_dict)
+            for key, _ in _rev_select.keys_to_add:
+                extraction_dict.pop(key, None)
+            for key, _ in _rev_select.keys_to_maybe_add:
+                missing_ok.add(key)
             for to_remove in _rev_select.keys_to_remove:
-                if to_remove in cls._fields:
-                    continue
                 extraction_dict[to_remove] = cls._MockField(name=to_remove)
             for old, new in _rev_select.keys_to_rename:
                 missing_ok.add(new)
@@ -363,8 +365,6 @@ class RecordBase:
                 missing_ok.add(new)
                 missing_ok.add(old)
                 extraction_dict[old] = cls._MockField(name=old)
-            for key, _ in _rev_select.keys_to_add:
-                extraction_dict.pop(key, _)
         fields_to_extract = extraction_dict.values()
 
         def tuples():
-- 
2.43.0


From d5d987feddde963acb62f07900bcc5c21e10aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 21/33] fix: the tokens of a union nested in a union override
 those of the enclosing one

---
 records/fillers/builtin_fillers/typing_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index cbd6142..842daf0 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -72,7 +72,8 @@ class UnionFiller(Filler):
     def bind(self, owner_cls):
         super().bind(owner_cls)
         for sf in self.sub_fillers:
-            for t in chain(self.args, self.applied):
+            # the tokens of an enclosing union must not override our own
+            for t in chain(self.applied, self.args):
                 sf.apply(t)
 
             sf.bind(owner_cls)
-- 
2.43.0


From 05f3f0d25d279702f55301d271050b9963cdcecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 22/33] fix: the annotations inside a NewType are not ignored

---
 records/fillers/get_filler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index d440fe3..fe2e3ba 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -56,7 +56,9 @@ def get_annotated_filler(origin, args: tuple):
         # builtin functions to create a filler class
         ret = checker(origin)
         if isinstance(ret, GetFiller):
-            return get_annotated_filler(ret.new_origin, args)
+            # the new origin might be annotated by itself (e.g. a NewType of an annotated type)
+            new_origin, new_args = split_annotation(ret.new_origin)
+            return get_annotated_filler(new_origin, (*new_args, *args))
         elif ret:
             return ret(origin, args)
     if isinstance(origin, type):
-- 
2.43.0


From 3670c111eef1713c587b0a71f44c9a0eb29a8ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 23/33] fix: Cyclic of decimals below the minimum

---
 records/fillers/builtin_validators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index d1408e9..2885c47 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -89,6 +89,9 @@ class Cyclic(GlobalValidationToken):
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
         ret = self.minimum + d
+        if ret < self.minimum:
+            # for some types (like Decimal), the remainder takes the sign of the dividend
+            ret += (self.maximum - self.minimum)
         if ret >= self.maximum:
             # rounding of inexact types can bring the result up to the (exclusive) upper bound
             ret = self.minimum + 0 * d
-- 
2.43.0


From dfd71ca3151254836ac3d7cb6e49032474c66c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 24/33] fix: a None returned by a parser is a parsing result
 like any other

---
 records/record.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/records/record.py b/records/record.py
index 9c31cda..d769f62 100644
--- a/records/record.py
+++ b/records/record.py
@@ -181,7 +181,7 @@ class RecordBase:
             raised.
         """
         # parsing stores the parsing result, if any
-        parsing = None
+        parsing = NO_ARG
         if arg is not NO_ARG:
             # handle the positional
             if not kwargs and cls._unary_parse:
@@ -194,7 +194,7 @@ class RecordBase:
 
             if len(cls._required_keys) != 1:
                 # no trivial field
-                if parsing is not None:
+                if parsing is not NO_ARG:
                     return parsing
                 raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')
 
@@ -214,7 +214,7 @@ class RecordBase:
                 values[k] = cls._fields[k].filler(v)
             except Exception as e:
                 # if filling failed, check if we have a parsing standing by
-                if parsing is not None:
+                if parsing is not NO_ARG:
                     return parsing
                 msg = f'error filling filling {k}'
                 # try to create a parent error of the same type as the original error
@@ -242,13 +242,13 @@ class RecordBase:
                 self = replacement
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing is not None:
+            if parsing is not NO_ARG:
                 return parsing
             raise
 
         # if we have successfully create an instance with positional argument, but still managed parsing, the we fail
         # we keep this check till last but
-        if parsing is not None:
+        if parsing is not NO_ARG:
             raise TypeError(f'positional argument of type {type(arg)} can be interpreted both as trivial argument '
                             'and as unary argument')
         return self
-- 
2.43.0


From a78d3451592df638de0ba1a56317d49663576eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 25/33] fix: a local record class that refers to itself can be
 inherited

---
 records/record.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/records/record.py b/records/record.py
index d769f62..337bed9 100644
--- a/records/record.py
+++ b/records/record.py
@@ -99,10 +99,10 @@ class RecordBase:
         cls._fields = FieldDict()
         # in bodyless classes, __annotations__ refers to parent
         own_annotations = cls.__dict__.get('__annotations__', {})
-        for name, type_hint in get_type_hints(cls, localns={cls.__name__: cls, cls.__qualname__: cls}).items():
-            if name not in own_annotations:
-                # type hints also give things from super classes which we don't want
-                continue
+        # type hints of a class also give things from its super classes which we don't want (and that may only be
+        # resolvable where the super class was declared), so we get the hints of a bare class with our annotations
+        annotated = type(cls.__name__, (), {'__annotations__': own_annotations, '__module__': cls.__module__})
+        for name, type_hint in get_type_hints(annotated, localns={cls.__name__: cls, cls.__qualname__: cls}).items():
             # initialize the field
             field = RecordField.from_type_hint(type_hint,
                                                owner=cls, name=name,
-- 
2.43.0


From 860952e2e7275fdaa403dbdfb4568dca170ddb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 26/33] fix: the report of a rejected value is not lost if the
 error's type refuses the message

---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 337bed9..13d65e8 100644
--- a/records/record.py
+++ b/records/record.py
@@ -220,7 +220,8 @@ class RecordBase:
                 # try to create a parent error of the same type as the original error
                 try:
                     parent_error = type(e)(msg)
-                except TypeError:
+                except Exception:
+                    # the type of the original error might not accept a (single, arbitrary) message
                     parent_error = ValueError(msg)
 
                 raise parent_error from e
-- 
2.43.0


From 288b3871458e64ddde65e32f3ff886356f2525b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 27/33] fix: exact type match by identity of the class, not by
 its metaclass's equality

---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index ad6eb65..de67eae 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -242,7 +242,7 @@ class SimpleFiller(AnnotatedFiller[T], Generic[T]):
     """
 
     def type_check(self, v):
-        if type(v) == self.origin:
+        if type(v) is self.origin:
             return TypeMatch.exact
         return TypeMatch.inexact if isinstance(v, self.origin) else None
 
-- 
2.43.0


From c1c24b0a9a76d0d2a102c580bce8cdba958a3a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 28/33] fix: any container of tags can be blacklisted, not only
 sets

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 13d65e8..3f69323 100644
--- a/records/record.py
+++ b/records/record.py
@@ -341,7 +341,7 @@ class RecordBase:
 
         def export_field(f: RecordField):
             # check if we can rule out a field without even knowing its value
-            return f.name in whitelist_keys or not (f.tags & blacklist_tags)
+            return f.name in whitelist_keys or not any(tag in blacklist_tags for tag in f.tags)
 
         def export_value(f: RecordField, v):
             return f.name in whitelist_keys \
-- 
2.43.0


From 1d73c8d44eb0b4b9a26ec48a732e8c26fc9856f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 29/33] fix: deepcopy of a record whose values refer back to it
 copies it once

---
 records/record.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/record.py b/records/record.py
index 3f69323..96b2b35 100644
--- a/records/record.py
+++ b/records/record.py
@@ -670,6 +670,9 @@ class RecordBase:
             memo = {}
         d = self.to_dict()
         d = deepcopy(d, memo)
+        if id(self) in memo:
+            # a value refers back to self, which has thus already been copied
+            return memo[id(self)]
         return self.from_mapping(d)
 
     def __ordering_key(self):
-- 
2.43.0


From 888f89d732c5542885807c78156926a1241872bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 30/33] fix: fillers of a class that is false are bound too

---
 records/fillers/filler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index d5172d7..1a2407e 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -110,7 +110,7 @@ class Filler(Generic[T]):
         Bind a filler and associate it with a class. After binding, no new tokens can be applied to the filler.
         :param owner_cls: the owner record class to associate the filler with.
         """
-        if self.owner:
+        if self.owner is not None:
             raise RuntimeError(f'filler is already bound to {self.owner}')
         self.owner = owner_cls
 
@@ -127,7 +127,7 @@ class Filler(Generic[T]):
         Apply a token to a filler.
         :param token: The token provided to the filler through `Annotated`.
         """
-        if self.owner:
+        if self.owner is not None:
             raise RuntimeError('cannot apply tokens to filler after binding')
 
     def __call__(self, arg) -> T:
-- 
2.43.0


From 73e8380bd326b25583efd4a6d9c9799caf5e59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 31/33] fix: parsing an iterator consumed it before other
 parsers could see it

---
 records/record.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/records/record.py b/records/record.py
index 96b2b35..d54c78b 100644
--- a/records/record.py
+++ b/records/record.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections import ChainMap
+from collections.abc import Iterator, Mapping as MappingABC
 from copy import deepcopy
 from inspect import getattr_static
 from typing import AbstractSet, Any, Callable, ClassVar, Container, Dict, List, Mapping, Optional, TypeVar, Union, \
@@ -463,6 +464,9 @@ class RecordBase:
         .. note::
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
+        if any(isinstance(m, Iterator) and not isinstance(m, MappingABC) for m in maps):
+            # iterators must not be consumed, since other parsers might be able to parse them
+            raise TypeError('cannot convert an iterator')
         return ChainMap(*maps, dict(**kwargs))
 
     @SpecializedShortcutFactory
-- 
2.43.0


From 82b4f2caaeb00d96653fcf64700574ce31d64309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 32/33] fix: from_mapping asked mappings for keys they do not
 have, which a defaultdict answers (and adds) instead of leaving them to the
 other mappings

---
 records/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index d54c78b..e2fd1f8 100644
--- a/records/record.py
+++ b/records/record.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from collections import ChainMap
 from collections.abc import Iterator, Mapping as MappingABC
 from copy import deepcopy
 from inspect import getattr_static
@@ -467,7 +466,10 @@ class RecordBase:
         if any(isinstance(m, Iterator) and not isinstance(m, MappingABC) for m in maps):
             # iterators must not be consumed, since other parsers might be able to parse them
             raise TypeError('cannot convert an iterator')
-        return ChainMap(*maps, dict(**kwargs))
+        # a mapping may answer for keys it does not have (like a defaultdict), so each key is looked up only in the mapping
+        # it comes from
+        sources = {k: m for m in (dict(**kwargs), *reversed(maps)) for k in m}
+        return {k: m[k] for k, m in sources.items()}
 
     @SpecializedShortcutFactory
     @classmethod
-- 
2.43.0


From 893e6d8a3714c8f829ded850b2c63eb2366cc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:32 +0000
Subject: [PATCH 33/33] fix: JSON arrays (of pairs, or empty) were imported as
 objects when there was a selection

---
 records/select.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/select.py b/records/select.py
index 3a7055a..79ce4bf 100644
--- a/records/select.py
+++ b/records/select.py
@@ -113,7 +113,8 @@ class Select:
         if not self:
             return mapping
         if not isinstance(mapping, dict):
-            mapping = dict(mapping)
+            # not dict(mapping), which also takes things that are no mappings, like a JSON array of pairs
+            mapping = {**mapping}
 
         for kti in self.keys_to_remove:
             mapping.pop(kti)
-- 
2.43.0

