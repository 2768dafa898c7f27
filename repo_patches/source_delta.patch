From d3c5703737816f42ceba78d829d3319fbea3bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:57 +0000
Subject: [PATCH 01/59] fix: do not let omitted objects consume reference ids

An object that ends up as null (a file, a handler returning None, a
failure replaced through fail_safe) was still numbered by the pickler.
The unpickler never sees it, so every later py/id pointed at the wrong
object. Drop such numbers again.
---
 jsonpickle/pickler.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..07ed5e2 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -337,6 +337,15 @@ class Pickler:
         """Return a "py/id" entry for the specified object"""
         return {tags.ID: self._objs.get(id(obj))}  # type: ignore[dict-item]
 
+    def _forget_refs(self, count: int) -> None:
+        """Forget the newest references until only `count` are left.
+
+        Objects that did not make it into the output must not take up reference
+        IDs, the unpickler will never see them.
+        """
+        while len(self._objs) > count:
+            self._objs.popitem()
+
     def _flatten(self, obj: Any) -> Any:
         """Flatten an object and its guts into a json-safe representation"""
         if self.unpicklable and self.make_refs:
@@ -418,6 +427,7 @@ class Pickler:
         self._seen.append(obj)
 
         max_reached = self._max_reached()
+        ref_count = len(self._objs)
 
         try:
             in_cycle = _in_cycle(obj, self._objs, max_reached, self.make_refs)
@@ -440,7 +450,8 @@ class Pickler:
             if self.fail_safe is None:
                 raise
             else:
-                return self.fail_safe(e)
+                self._forget_refs(ref_count)
+                return self._flatten(self.fail_safe(e))
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
         return [self._flatten(v) for v in obj]
@@ -789,10 +800,14 @@ class Pickler:
     def _ref_obj_instance(self, obj: Any) -> dict[str, Any] | list[Any] | None:
         """Reference an existing object or flatten if new"""
         if self.unpicklable:
+            ref_count = len(self._objs)
             if self._mkref(obj):
                 # We've never seen this object so return its
                 # json representation.
-                return self._flatten_obj_instance(obj)
+                result = self._flatten_obj_instance(obj)
+                if not isinstance(result, (dict, list, tuple)):
+                    self._forget_refs(ref_count)
+                return result
             # We've seen this object before so place an object
             # reference tag in the data. This avoids infinite recursion
             # when processing cyclical objects.
-- 
2.43.0


From 85541885f68d27f4039467da95b47b58fc425689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:14 +0000
Subject: [PATCH 02/59] fix: flatten a defaultdict's factory before its items

The unpickler restores the factory before the items.  The pickler did it
the other way around, so factories that are not types shifted the
reference ids of everything stored in the mapping.
---
 jsonpickle/pickler.py | 53 +++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 07ed5e2..cc1976b 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -886,6 +886,32 @@ class Pickler:
         if data is None:
             data = obj.__class__()
 
+        # the collections.defaultdict protocol
+        # The unpickler restores the factory before the items, so it has to be
+        # flattened first for the reference IDs to match.
+        factory_value: Any = None
+        if hasattr(obj, "default_factory") and callable(obj.default_factory):
+            factory = obj.default_factory
+            if util._is_type(factory):
+                # Reference the class/type
+                # in this case it's dict[str, str]
+                factory_value = _mktyperef(factory)
+            else:
+                # The factory is not a type and could reference e.g. functions
+                # or even the object instance itself, which creates a cycle.
+                if self._mkref(factory):
+                    # We've never seen this object before so pickle it in-place.
+                    # Create an instance from the factory and assume that the
+                    # resulting instance is a suitable exemplar.
+                    factory_value = self._flatten_obj_instance(
+                        handlers.CloneFactory(factory())
+                    )
+                else:
+                    # We've seen this object before.
+                    # Break the cycle by emitting a reference.
+                    # in this case it's dict[str, int]
+                    factory_value = self._getref(factory)
+
         # If we allow non-string keys then we have to do a two-phase
         # encoding to ensure that the reference IDs are deterministic.
         if self.keys:
@@ -904,34 +930,11 @@ class Pickler:
             for k, v in util.items(obj, exclude=exclude):
                 flatten(k, v, data)
 
-        # the collections.defaultdict protocol
-        if hasattr(obj, "default_factory") and callable(obj.default_factory):
-            factory = obj.default_factory
-            # i know that this string could be moved above the hasattr to reduce
-            # string duplication but mypy 1.18.2 complains and i don't want to use
-            # even more type: ignores
+        if factory_value is not None:
             store_key = "default_factory"
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
-            value: Any
-            if util._is_type(factory):
-                # Reference the class/type
-                # in this case it's dict[str, str]
-                value = _mktyperef(factory)
-            else:
-                # The factory is not a type and could reference e.g. functions
-                # or even the object instance itself, which creates a cycle.
-                if self._mkref(factory):
-                    # We've never seen this object before so pickle it in-place.
-                    # Create an instance from the factory and assume that the
-                    # resulting instance is a suitable exemplar.
-                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
-                else:
-                    # We've seen this object before.
-                    # Break the cycle by emitting a reference.
-                    # in this case it's dict[str, int]
-                    value = self._getref(factory)
-            data[store_key] = value
+            data[store_key] = factory_value
 
         # Sub-classes of dict
         if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
-- 
2.43.0


From 9ca0ed504ced8c779b4f4d376d6b1245150c589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:51 +0000
Subject: [PATCH 03/59] fix: restore escaped string keys in the order they were
 encoded

With keys=True the pickler numbers the values of escaped string keys along
with the regular keys.  The unpickler put them off until after all regular
keys, so reference ids inside such dicts did not match.
---
 jsonpickle/unpickler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..e7675f2 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -139,6 +139,11 @@ def _is_json_key(key: Any) -> bool:
     return isinstance(key, str) and key.startswith(tags.JSON_KEY)
 
 
+def _is_json_string_key(key: str) -> bool:
+    """Is this JSON key an escaped string?"""
+    return key.startswith(tags.JSON_KEY + '"')
+
+
 class _Proxy:
     """Proxies are dummy objects that are later replaced by real instances
 
@@ -909,10 +914,12 @@ class Unpickler:
         # processed last.  This ensures a deterministic order when
         # assigning object IDs for references.
         if self.keys:
-            # Phase 1: regular non-special keys.
+            # Phase 1: regular non-special keys, including escaped strings.
             for k, v in util.items(obj):
                 if _is_json_key(k):
-                    continue
+                    if not _is_json_string_key(k):
+                        continue
+                    k = self._restore_pickled_key(k)
                 if isinstance(k, (int, float)):
                     str_k = k.__str__()
                 else:
@@ -924,7 +931,7 @@ class Unpickler:
 
             # Phase 2: object keys only.
             for k, v in util.items(obj):
-                if not _is_json_key(k):
+                if not _is_json_key(k) or _is_json_string_key(k):
                     continue
                 self._namestack.append(k)
 
-- 
2.43.0


From 9dbf00269ba4025b525aeb491387c559208b0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:55 +0000
Subject: [PATCH 04/59] fix: escape py/b64 and py/b85 dict keys with keys=True

These two tags are missing from the reserved set, so a dict using one of
them as a regular key was decoded as bytes.
---
 jsonpickle/pickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index cc1976b..b032b4c 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -849,7 +849,11 @@ class Pickler:
         """Flatten string key/value pairs only."""
         if (
             isinstance(k, str)
-            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
+            and (
+                k.startswith(tags.JSON_KEY)
+                or k in tags.RESERVED
+                or k in (tags.B64, tags.B85)
+            )
             and self.keys
         ):
             # Escape data keys colliding with the json:// prefix or a reserved
-- 
2.43.0


From 56f00c54354f2cca832c5fb229cc1deefe1b9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:37 +0000
Subject: [PATCH 05/59] fix: keep flattened objects alive while their results
 are cached

Without references the pickler remembers results by id().  Temporary
bytes objects were freed while flattening, so a later object with the
same id received someone else's contents.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index b032b4c..5892b67 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -354,6 +354,8 @@ class Pickler:
             try:
                 result = self._flattened[id(obj)]
             except KeyError:
+                # Keep the object alive so that its id cannot be reused
+                self._seen.append(obj)
                 result = self._flattened[id(obj)] = self._flatten_impl(obj)
         return result
 
-- 
2.43.0


From 1c6d259d5117d363d30ef2959d146e8125289e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:54 +0000
Subject: [PATCH 06/59] fix: break list and dict cycles with unpicklable=False

Cycles through instances become null in this mode, but lists and dicts
recursed until the interpreter gave up.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 5892b67..08c8669 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -955,6 +955,9 @@ class Pickler:
 
     def _get_flattener(self, obj: Any) -> Callable[[Any], Any] | None:
         if type(obj) in (list, dict):
+            if not self.unpicklable and id(obj) in self._objs:
+                # A circular becomes None.
+                return None
             if self._mkref(obj):
                 return (
                     self._list_recurse if type(obj) is list else self._flatten_dict_obj
-- 
2.43.0


From a037c08bfd96d50b61d8a09e9870ffcc2a72b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:29 +0000
Subject: [PATCH 07/59] fix: create reduced objects before restoring their
 state

The whole py/reduce payload was restored before the object was created.
References from its state, list items or dict items back to the object
therefore stayed placeholders in tuples, sets, subclasses and in anything
that __setstate__ copied.  Create the object as soon as the constructor
arguments are known, like pickle does.
---
 jsonpickle/unpickler.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index e7675f2..5251db8 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -7,6 +7,7 @@
 import dataclasses
 import warnings
 from collections.abc import Callable, Iterator, Sequence
+from itertools import islice
 from typing import Any, TypeAlias
 
 from . import errors, handlers, tags, util
@@ -527,15 +528,16 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
         try:
-            reduce_val = list(map(self._restore, obj[tags.REDUCE]))
+            reduce_iter = iter(obj[tags.REDUCE])
+            reduce_val = list(map(self._restore, islice(reduce_iter, 2)))
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
-        if len(reduce_val) < 6:
-            reduce_val.extend([None] * (6 - len(reduce_val)))
-        f, args, state, listitems, dictitems, state_setter = reduce_val
+        if len(reduce_val) < 2:
+            reduce_val.extend([None] * (2 - len(reduce_val)))
+        f, args = reduce_val
 
         if f == tags.NEWOBJ or getattr(f, "__name__", "") == "__newobj__":
             # mandated special case
@@ -556,6 +558,19 @@ class Unpickler:
                 # __init__ since the state dict will set all attributes immediately afterwards
                 stage1 = f.__new__(f, *args)
 
+        # The object exists now. Make it available before restoring the rest so
+        # that its state can refer back to it.
+        proxy.reset(stage1)
+        self._swapref(proxy, stage1)
+
+        try:
+            reduce_val = list(map(self._restore, reduce_iter))
+        except TypeError:
+            reduce_val = []
+        if len(reduce_val) < 4:
+            reduce_val.extend([None] * (4 - len(reduce_val)))
+        state, listitems, dictitems, state_setter = reduce_val
+
         if state and state_setter is None:
             try:
                 stage1.__setstate__(state)
@@ -596,8 +611,6 @@ class Unpickler:
             for k, v in dictitems:
                 stage1.__setitem__(k, v)
 
-        proxy.reset(stage1)
-        self._swapref(proxy, stage1)
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
-- 
2.43.0


From 6bbd63bc9c7abcbdea3d74c0b58bce4c6b9be663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:46 +0000
Subject: [PATCH 08/59] fix: resolve pending references in dict and list
 subclasses

References to an object that is still being restored were left as
placeholders in items of dict and list subclasses, in private slots and
in regular dicts when using keys=True.
---
 jsonpickle/unpickler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 5251db8..de1c9d5 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -705,7 +705,6 @@ class Unpickler:
         restore_dict_items: bool = True,
     ) -> Any:
         restore_key = self._restore_key_fn()
-        method = _obj_setattr
         deferred = {}
 
         for k, v in util.items(obj):
@@ -723,12 +722,14 @@ class Unpickler:
                 value = self._restore(v)
             else:
                 value = v
+            method = _obj_setattr
             if util._is_noncomplex(instance) or util._is_dictionary_subclass(instance):
                 try:
                     if k == "__dict__":
                         setattr(instance, k, value)
                     else:
                         instance[k] = value
+                        method = _obj_setvalue
                 except TypeError:
                     # Immutable object, must be constructed in one shot
                     if k != "__dict__":
@@ -760,7 +761,8 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    setattr(instance, f"_{instance.__class__.__name__}{k}", value)
+                    k = f"_{instance.__class__.__name__}{k}"
+                    setattr(instance, k, value)
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
@@ -818,7 +820,12 @@ class Unpickler:
         if has_tag(obj, tags.SEQ):
             if hasattr(instance, "append"):
                 for v in obj[tags.SEQ]:
-                    instance.append(self._restore(v))
+                    value = self._restore(v)
+                    if isinstance(value, _Proxy):
+                        self._proxies.append(
+                            (instance, len(instance), value, _obj_setvalue)
+                        )
+                    instance.append(value)
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
                     instance.add(self._restore(v))
@@ -938,7 +945,9 @@ class Unpickler:
                 else:
                     str_k = k
                 self._namestack.append(str_k)
-                data[k] = self._restore(v)
+                data[k] = result = self._restore(v)
+                if isinstance(result, _Proxy):
+                    self._proxies.append((data, k, result, _obj_setvalue))
 
                 self._namestack.pop()
 
-- 
2.43.0


From 6aba64cb9a6ffd9e5f19cf399d84eca8d37e7a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:50 +0000
Subject: [PATCH 09/59] fix: number empty keyword arguments of
 __getnewargs_ex__

The pickler numbers the kwargs dict, the unpickler skipped it when it was
empty.  All references after such an object were off by one.
---
 jsonpickle/unpickler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index de1c9d5..ceff0da 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -848,14 +848,13 @@ class Unpickler:
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-            args, kwargs = obj[tags.NEWARGSEX]
+            # kwargs are always a numbered dict in the output, even when empty
+            args, kwargs = map(self._restore, obj[tags.NEWARGSEX])
         else:
             args = getargs(obj, classes=self._classes)
             kwargs = {}
-        if args:
-            args = self._restore(args)
-        if kwargs:
-            kwargs = self._restore(kwargs)
+            if args:
+                args = self._restore(args)
 
         is_oldstyle = not (isinstance(cls, type) or getattr(cls, "__meta__", None))
         try:
-- 
2.43.0


From 962b99312399018970122687ae77d014ee02d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:54 +0000
Subject: [PATCH 10/59] fix: restore attributes of tuple subclasses

Attributes set on a tuple subclass were encoded but ignored when
decoding, which also broke the numbering of later references.
---
 jsonpickle/unpickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index ceff0da..18ef93c 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -883,7 +883,7 @@ class Unpickler:
         proxy.reset(instance)
         self._swapref(proxy, instance)
 
-        if isinstance(instance, tuple):
+        if isinstance(instance, tuple) and not hasattr(instance, "__dict__"):
             return instance
 
         instance = self._restore_object_instance_variables(obj, instance)
-- 
2.43.0


From 237d3430e5029ff74223c32a15ad7c4660a5f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:14 +0000
Subject: [PATCH 11/59] fix: keep attributes of dict subclasses that mirror
 their items

Attributes were skipped when they compared equal to the items, which is
only right when the instance uses itself as its __dict__.
---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 08c8669..76708b6 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -943,7 +943,12 @@ class Pickler:
             data[store_key] = factory_value
 
         # Sub-classes of dict
-        if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
+        if (
+            hasattr(obj, "__dict__")
+            and self.unpicklable
+            and obj is not obj.__dict__
+            and (obj or obj.__dict__)
+        ):
             if self._mkref(obj.__dict__):
                 dict_data = {}
                 self._flatten_dict_obj(obj.__dict__, dict_data, exclude=exclude)
-- 
2.43.0


From 0369ce10b3f1e92f9a7decc0cf09f17794555984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:18 +0000
Subject: [PATCH 12/59] fix: keep the fold attribute of datetime and time
 objects

__reduce__() leaves it out, so ambiguous local times silently came back
as the first occurrence.
---
 jsonpickle/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..ef17c41 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -215,7 +215,8 @@ class DatetimeHandler(BaseHandler):
             else:
                 result = str(obj)
             return result
-        cls, args = obj.__reduce__()  # type: ignore[str-unpack]
+        # protocol 4 is the first one to include the fold attribute
+        cls, args = obj.__reduce_ex__(4)  # type: ignore[str-unpack,misc]
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-- 
2.43.0


From 06336867bd191d87e9d01b697640eb65373f3950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:22 +0000
Subject: [PATCH 13/59] fix: support bytes patterns in the regex handler

Depending on the backend they either failed to encode or came back as
str patterns.
---
 jsonpickle/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index ef17c41..35f5021 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -242,12 +242,13 @@ class RegexHandler(BaseHandler):
     """Flatten _sre.SRE_Pattern (compiled regex) objects"""
 
     def flatten(self, obj: re.Pattern[str], data: dict[str, Any]) -> HandlerReturn:
-        data["pattern"] = obj.pattern
+        data["pattern"] = self.context.flatten(obj.pattern, reset=False)
         data["flags"] = obj.flags
         return data
 
     def restore(self, data: dict[str, Any]) -> re.Pattern[str]:
-        return re.compile(data["pattern"], data.get("flags", 0))
+        pattern = self.context.restore(data["pattern"], reset=False)
+        return re.compile(pattern, data.get("flags", 0))
 
 
 RegexHandler.handles(type(re.compile("")))
-- 
2.43.0


From d012ae11b215229ecb2af453edba5f94828b9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:42 +0000
Subject: [PATCH 14/59] fix: make the dtype tags independent of memory
 addresses

The tags were handed out in the iteration order of a set of classes, so
two processes could disagree on what a tag means and a DataFrame encoded
by one was restored with the wrong dtypes by the other.
---
 jsonpickle/tags_pd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/tags_pd.py b/jsonpickle/tags_pd.py
index 4f2a729..f176cdf 100644
--- a/jsonpickle/tags_pd.py
+++ b/jsonpickle/tags_pd.py
@@ -123,11 +123,12 @@ def get_smallest_unique_substrings(
 
 
 def all_subclasses(cls: type) -> list[type]:
-    # use a set to avoid adding duplicates
-    subclasses = set()
+    # use a dict to avoid adding duplicates; unlike the order of a set, which depends
+    # on memory addresses, its order is the same in every process
+    subclasses = {}
     for subclass in cls.__subclasses__():
-        subclasses.add(subclass)
-        subclasses.update(all_subclasses(subclass))
+        subclasses[subclass] = None
+        subclasses.update(dict.fromkeys(all_subclasses(subclass)))
     return list(subclasses)
 
 
-- 
2.43.0


From 68ed40d628f7cd1ce12145883e75252f8f5ecda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:14 +0000
Subject: [PATCH 15/59] fix: restore plain values named default_factory

Attributes and items with this name were taken for a defaultdict's
factory and dropped even when their value cannot be one.
---
 jsonpickle/unpickler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 18ef93c..fe36fe9 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -643,11 +643,10 @@ class Unpickler:
     def _loadfactory(self, obj: dict[str, Any]) -> Any | None:
         default_factory = None
         for key in (tags.DEFAULT_FACTORY, "default_factory"):
-            try:
+            # a factory is always an encoded object, anything else is regular data
+            if isinstance(obj.get(key), dict):
                 default_factory = obj.pop(key)
                 break
-            except KeyError:
-                continue
         if default_factory is None:
             return None
         return self._restore(default_factory)
-- 
2.43.0


From 1c087739132bbac755fc9070bff6bd7ba3d4ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:18 +0000
Subject: [PATCH 16/59] fix: do not rename attributes with dunder names

Python never mangles names that end in two underscores, but they were
restored as if they were private names of the class.
---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index fe36fe9..05ecb3a 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -736,7 +736,8 @@ class Unpickler:
                     self._namestack.pop()
                     continue
             else:
-                if not k.startswith("__"):
+                # names are only mangled when they do not end in underscores
+                if not k.startswith("__") or k.endswith("__"):
                     try:
                         setattr(instance, k, value)
                     except KeyError:
-- 
2.43.0


From 1f485997a3ab11762a008b171a8c819418b33366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:00 +0000
Subject: [PATCH 17/59] fix: encode redeclared and inherited private slots

A slot declared by both a class and its base was flattened twice, the
second time as a reference to itself.  Private slots of base classes were
looked up with the wrong mangled name and lost.
---
 jsonpickle/pickler.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 76708b6..86b0094 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -206,6 +206,25 @@ def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
     return string
 
 
+def _slot_names(obj_cls: type) -> list[str]:
+    """Return the attribute names for all slots in the class hierarchy
+
+    Private slots of base classes are returned by their mangled names.
+    Slots that are declared more than once are only returned once.
+    """
+    names = {}
+    for cls in obj_cls.mro():
+        for name in _wrap_string_slot(vars(cls).get("__slots__", ())):
+            if (
+                cls is not obj_cls
+                and name.startswith("__")
+                and not name.endswith("__")
+            ):
+                name = f"_{cls.__name__.lstrip('_')}{name}"
+            names[name] = None
+    return list(names)
+
+
 class Pickler:
     def __init__(
         self,
@@ -579,10 +598,7 @@ class Pickler:
         exclude: Iterable[str] = (),
     ) -> dict[str, Any]:
         """Return a json-friendly dict for new-style objects with __slots__."""
-        allslots = [
-            _wrap_string_slot(getattr(cls, "__slots__", ()))
-            for cls in obj.__class__.mro()
-        ]
+        allslots = [_slot_names(obj.__class__)]
 
         # add properties to the attribute list
         if self.include_properties:
-- 
2.43.0


From 0c93bff893a7a0b70f7ee5f0399550eb797cb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:04 +0000
Subject: [PATCH 18/59] fix: encode slots of objects that also have a __dict__

When a base class defines __slots__ and a subclass does not, the values
in the slots were silently dropped.
---
 jsonpickle/pickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 86b0094..d8e5d38 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -783,7 +783,10 @@ class Pickler:
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
-            return self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            # base classes can have __slots__ in addition to the __dict__
+            self._flatten_obj_attrs(obj, _slot_names(cls), data, exclude)
+            return data
 
         if has_slots:
             return self._flatten_newstyle_with_slots(obj, data, exclude=exclude)
-- 
2.43.0


From fb84539c6b2a835044864fd131972ad161ec013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:13 +0000
Subject: [PATCH 19/59] fix: mangle private slots of classes with leading
 underscores

Python strips the leading underscores of the class name when mangling.
---
 jsonpickle/pickler.py   | 3 ++-
 jsonpickle/unpickler.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index d8e5d38..90065a5 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -550,7 +550,8 @@ class Pickler:
                 if not k.startswith("__"):
                     value = getattr(obj, k)
                 else:
-                    value = getattr(obj, f"_{obj.__class__.__name__}{k}")
+                    name = obj.__class__.__name__.lstrip("_")
+                    value = getattr(obj, f"_{name}{k}")
                 flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 05ecb3a..f608dba 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -761,7 +761,7 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    k = f"_{instance.__class__.__name__}{k}"
+                    k = f"_{instance.__class__.__name__.lstrip('_')}{k}"
                     setattr(instance, k, value)
 
             # This instance has an instance variable named `k` that is
-- 
2.43.0


From 6152fc6ad3ff1c2a7abb22e83d736c0e2ca2dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:08 +0000
Subject: [PATCH 20/59] fix: keep the contents of bytearray subclasses

They were mistaken for lists, which left no representation of the data.
---
 jsonpickle/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index e0414d2..fe547db 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -326,7 +326,8 @@ def _is_reducible(obj: Any) -> bool:
         or _is_dictionary_subclass(obj)
         or isinstance(obj, types.ModuleType)
         or _is_reducible_sequence_subclass(obj)
-        or _is_list_like(obj)
+        # bytearray is list-like but its subclasses have no other representation
+        or (_is_list_like(obj) and not isinstance(obj, bytearray))
         or isinstance(getattr(obj, "__slots__", None), _ITERATOR_TYPE)
         or (_is_type(obj) and obj.__module__ == "datetime")
     )
-- 
2.43.0


From 3718918c8ef1c8995d2c005c7bc5e1880fc7baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:48 +0000
Subject: [PATCH 21/59] fix: do not overwrite attributes of the encoded object
 with handle_readonly

Checking whether an attribute is read-only assigned the value of a nested
object to the attribute of the same name of the outermost object.
---
 jsonpickle/pickler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 90065a5..c748472 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -501,12 +501,14 @@ class Pickler:
             return data
         # TODO: use inspect.getmembers_static on 3.11+ because it avoids dynamic
         # attribute lookups
-        if (
-            self.handle_readonly
-            and k in {attr for attr, val in inspect.getmembers(self._original_object)}
-            and util._is_readonly(self._original_object, k, v)
-        ):
-            return data
+        if self.handle_readonly:
+            # Probe with the value that the attribute already has. The pair can
+            # belong to a nested object, whose value must not end up in this one.
+            members = dict(inspect.getmembers(self._original_object))
+            if k in members and util._is_readonly(
+                self._original_object, k, members[k]
+            ):
+                return data
 
         if k is None:
             k = "null"  # for compatibility with common json encoders
-- 
2.43.0


From ae2d99a6861f60c221a4991b4631495fe95c958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:48 +0000
Subject: [PATCH 22/59] fix: keep the flattened data intact when restoring
 default factories

Restoring the same flattened data a second time lost the default factory.
---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index f608dba..554f5ea 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -845,6 +845,8 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
+        # Loading it removes it, so leave the caller's data alone.
+        obj = obj.copy()
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-- 
2.43.0


From cd4f9b35de1b4aa0477018e67f6567fedb32336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:16 +0000
Subject: [PATCH 23/59] fix: do not encode class attributes of slotted objects
 without filled slots

---
 jsonpickle/pickler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index c748472..fff2e02 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -608,8 +608,17 @@ class Pickler:
             data = self._flatten_properties(obj, data, allslots)
 
         if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
+            # __slots__ could have been an iterator that is exhausted by now.
+            # Only use real slots: methods, properties and class variables are not
+            # part of the object's state and cannot be restored.
             attrs = [
-                x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
+                name
+                for name, slot in inspect.getmembers(
+                    obj.__class__, inspect.ismemberdescriptor
+                )
+                if not name.startswith("__")
+                and not name.endswith("__")
+                and "__slots__" in vars(slot.__objclass__)
             ]
             self._flatten_obj_attrs(obj, attrs, data, exclude)
 
-- 
2.43.0


From a74d61246743ed437f9986a902acc54482b2e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:08 +0000
Subject: [PATCH 24/59] fix: encode the slots of list and set subclasses

---
 jsonpickle/pickler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index fff2e02..14df36b 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1030,6 +1030,7 @@ class Pickler:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
             self._flatten_dict_obj(obj.__dict__, data)
+        self._flatten_obj_attrs(obj, _slot_names(obj.__class__), data)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From ed9edc0771a8702dbca8f5d5ddaf986b14f644ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:40 +0000
Subject: [PATCH 25/59] fix: do not leave class attributes in the encoded
 object with handle_readonly

---
 jsonpickle/pickler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 14df36b..4970e07 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -505,10 +505,13 @@ class Pickler:
             # Probe with the value that the attribute already has. The pair can
             # belong to a nested object, whose value must not end up in this one.
             members = dict(inspect.getmembers(self._original_object))
-            if k in members and util._is_readonly(
-                self._original_object, k, members[k]
-            ):
-                return data
+            if k in members:
+                own = util.in_dict(self._original_object, k)
+                if util._is_readonly(self._original_object, k, members[k]):
+                    return data
+                if not own and util.in_dict(self._original_object, k):
+                    # It comes from the class, do not leave a copy in the instance
+                    del self._original_object.__dict__[k]
 
         if k is None:
             k = "null"  # for compatibility with common json encoders
-- 
2.43.0


From 552e75f8f71c9d91bc0b0bd2618a92b69e8e9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:02 +0000
Subject: [PATCH 26/59] fix: resolve pending references inside frozen
 dataclasses

---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 554f5ea..50e15d1 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -198,7 +198,10 @@ class _IDProxy(_Proxy):
 
 def _obj_setattr(obj: Any, attr: str, proxy: _Proxy) -> None:
     """Use setattr to update a proxy entry"""
-    setattr(obj, attr, proxy.get())
+    try:
+        setattr(obj, attr, proxy.get())
+    except dataclasses.FrozenInstanceError:
+        object.__setattr__(obj, attr, proxy.get())
 
 
 def _obj_setvalue(obj: Any, idx: Any, proxy: _Proxy) -> None:
-- 
2.43.0


From 49b6a031f9aa1cd50a07a948f48641aa129ce309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:04 +0000
Subject: [PATCH 27/59] fix: do not list a JSON backend twice when it is loaded
 again

---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From d3c6676d24d38be5274f883d1b37de63509086c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:30 +0000
Subject: [PATCH 28/59] fix: do not let the yaml backend sort keys

---
 jsonpickle/ext/yaml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/yaml.py b/jsonpickle/ext/yaml.py
index cb13db3..ca3c198 100644
--- a/jsonpickle/ext/yaml.py
+++ b/jsonpickle/ext/yaml.py
@@ -11,6 +11,10 @@ def register(backend: JSONBackend | None = None) -> bool:
     """Register the yaml module with jsonpickle's JSONBackend"""
     if backend is None:
         backend = jsonpickle_backend
-    return backend.load_backend(
+    loaded = backend.load_backend(
         "yaml", dumps="dump", loads="safe_load", loads_exc="YAMLError"
     )
+    if loaded:
+        # references are numbered in document order, do not let yaml sort the keys
+        backend.set_encoder_options("yaml", sort_keys=False)
+    return loaded
-- 
2.43.0


From 3a499649a4ad31e1c10c2c10e469be8e84b9c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:02 +0000
Subject: [PATCH 29/59] fix: keep the memory order of numpy arrays stored as
 binary

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..6d70507 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -240,7 +240,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                     dtype=dtype,
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
-                ).copy()  # make a copy, to force the result to own the data
+                ).copy(order="K")  # make a copy, to force the result to own the data
                 self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
-- 
2.43.0


From 3dd46bc8e77a4f4f6def9b7cac979ec32e56812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:02 +0000
Subject: [PATCH 30/59] fix: restore zero-dimensional numpy arrays with their
 shape

---
 jsonpickle/ext/numpy.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 6d70507..24c43f2 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -214,12 +214,9 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         """decode numpy from json"""
         values = data["values"]
-        if isinstance(values, list):
-            # decode text representation
+        if isinstance(values, list) or "shape" not in data:
+            # decode text representation, zero-dimensional arrays have no list
             arr = super().restore(data)
-        elif isinstance(values, (int, float)):
-            # single-value array
-            arr = np.array([values], dtype=self.restore_dtype(data))
         else:
             # decode binary representation
             dtype = self.restore_dtype(data)
-- 
2.43.0


From 192a50c783e9882dca4d3a508ccc6714df7f6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:02 +0000
Subject: [PATCH 31/59] fix: restore views of numpy datetime arrays

---
 jsonpickle/ext/numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 24c43f2..8bce4c0 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -422,7 +422,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             base = self.context.restore(base, reset=False)
             buffer: Any
             if isinstance(base, np.ndarray):
-                buffer = base.data
+                try:
+                    buffer = base.data
+                except ValueError:
+                    # datetimes cannot be exported through the buffer protocol
+                    buffer = base.ravel(order="K").view(np.uint8).data
             elif isinstance(base, (bytes, bytearray, memoryview)):
                 buffer = base
             else:
-- 
2.43.0


From cb309585c243a89bd0341c8ffbbbbb34c86e4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:06 +0000
Subject: [PATCH 32/59] fix: keep the byte order of numpy arrays, structured
 dtypes and views

---
 jsonpickle/ext/numpy.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 8bce4c0..0f44d01 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -112,7 +112,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
             arr.flags.writeable = False
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(obj.dtype, data)
         self.flatten_flags(obj, data)
         data["values"] = self.context.flatten(obj.tolist(), reset=False)
         if 0 in obj.shape:
@@ -202,7 +202,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                 buf = self.compression.compress(buf)
             data["values"] = b64encode(buf)
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(obj.dtype, data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -332,13 +332,9 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["strides"] = obj.strides
 
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(obj.dtype, data)
             self.flatten_flags(obj, data)
-
-            if get_byteorder(obj) != "|":
-                byteorder = "S" if get_byteorder(obj) != get_byteorder(base) else None
-                if byteorder:
-                    data["byteorder"] = byteorder
+            self.flatten_byteorder(obj, data)
 
             if self.size_threshold is None or self.size_threshold >= obj.size:
                 # not used in restore since base is present, but
@@ -376,11 +372,9 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     data["strides"] = obj.strides
 
                 data["shape"] = obj.shape
-                self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_dtype(obj.dtype, data)
                 self.flatten_flags(obj, data)
-
-                if get_byteorder(obj) != "|":
-                    data["byteorder"] = get_byteorder(obj)
+                self.flatten_byteorder(obj, data)
 
                 if self.size_threshold is None or self.size_threshold >= obj.size:
                     # not used in restore since base is present, but
-- 
2.43.0


From fa7641fcc6b283443570597c6806486fb2b3358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:35 +0000
Subject: [PATCH 33/59] fix: restore numpy structured arrays with subarray
 fields

---
 jsonpickle/ext/numpy.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 0f44d01..b0f99c1 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -100,6 +100,15 @@ class UnpickleableNumpyGenericHandler(NumpyGenericHandler):
         raise NotImplementedError
 
 
+def _subarrays_to_lists(value: Any) -> Any:
+    """Replace the arrays that tolist() leaves in structured values"""
+    if isinstance(value, np.ndarray):
+        return _subarrays_to_lists(value.tolist())
+    if isinstance(value, (list, tuple)):
+        return type(value)([_subarrays_to_lists(v) for v in value])
+    return value
+
+
 class NumpyNDArrayHandler(NumpyBaseHandler):
     """Stores arrays as text representation, without regard for views"""
 
@@ -114,7 +123,10 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         self.flatten_dtype(obj.dtype, data)
         self.flatten_flags(obj, data)
-        data["values"] = self.context.flatten(obj.tolist(), reset=False)
+        values = obj.tolist()
+        if obj.dtype.names:
+            values = _subarrays_to_lists(values)
+        data["values"] = self.context.flatten(values, reset=False)
         if 0 in obj.shape:
             # add shape information explicitly as it cannot be
             # inferred from an empty list
-- 
2.43.0


From d76b8a7774c650ee58e8043a2935d8e756f4445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:41 +0000
Subject: [PATCH 34/59] fix: unregister the numpy datetime64 handler

---
 jsonpickle/ext/numpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index b0f99c1..cfec798 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -507,5 +507,6 @@ def unregister_handlers() -> None:
     unregister(np.dtype(np.float32).__class__)
     unregister(np.dtype(np.int32).__class__)
     unregister(np.dtype(np.datetime64).__class__)
+    unregister(np.datetime64)
     # other handlers
     unregister(np.ufunc)
-- 
2.43.0


From 9225a75c5c9d23f5a85eb19f165ea2a883557fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:40 +0000
Subject: [PATCH 35/59] fix: keep the names of pandas indexes

---
 jsonpickle/ext/pandas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..67d7a5d 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -376,8 +376,9 @@ class PandasIndexHandler(BaseHandler):
     def restore(self, data: dict[str, Any]) -> pd.Index:
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
+        # JSON has no tuples, so tuples come back as lists
         name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
+            "name": tuple(v) if isinstance(v, list) else v  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From 4397cf1fd7908340484595287361923f1ddc72f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:44 +0000
Subject: [PATCH 36/59] fix: encode the names of pandas series that are not
 text

---
 jsonpickle/ext/pandas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 67d7a5d..be5c80c 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -345,7 +345,7 @@ class PandasSeriesHandler(BaseHandler):
 
     def flatten(self, obj: pd.Series, data: dict[str, Any]) -> dict[str, Any]:
         """Flatten the index and values for reconstruction"""
-        data["name"] = obj.name
+        data["name"] = self.context.flatten(obj.name, reset=False)
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
         data["values"] = self.context.flatten(obj.values, reset=False)
@@ -353,7 +353,7 @@ class PandasSeriesHandler(BaseHandler):
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
         """Restore the flattened data"""
-        name = data["name"]
+        name = self.context.restore(data["name"], reset=False)
         index = self.context.restore(data["index"], reset=False)
         values = self.context.restore(data["values"], reset=False)
         return pd.Series(values, index=index, name=name)
-- 
2.43.0


From 85feba6e2f92803a97a57b88c41f07b1530180ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:56 +0000
Subject: [PATCH 37/59] fix: keep the time zone of pandas series

---
 jsonpickle/ext/pandas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index be5c80c..a8eec48 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -348,7 +348,9 @@ class PandasSeriesHandler(BaseHandler):
         data["name"] = self.context.flatten(obj.name, reset=False)
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
-        data["values"] = self.context.flatten(obj.values, reset=False)
+        # .values drops the time zone of timestamps, .array keeps it
+        values = obj.array if isinstance(obj.dtype, pd.DatetimeTZDtype) else obj.values
+        data["values"] = self.context.flatten(values, reset=False)
         return data
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
-- 
2.43.0


From 1fc1fdaa56b727672681336e123e298462c5369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:17 +0000
Subject: [PATCH 38/59] fix: keep nullable, period and time zone dtypes of
 pandas columns

---
 jsonpickle/ext/pandas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index a8eec48..98a94e7 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -199,7 +199,8 @@ class PandasDfHandler(BaseHandler):
             else:
                 # for other dtypes, store their values directly
                 data_columns[col] = col_data.tolist()
-                type_codes.append(TYPE_MAP.get(dtype_name, "object"))
+                # dtypes without a tag, such as Int64 or period[M], go by name
+                type_codes.append(TYPE_MAP.get(dtype_name, dtype_name))
 
         # store index data
         index_encoded = encode(index_values, keys=True)
@@ -275,7 +276,7 @@ class PandasDfHandler(BaseHandler):
             else:
                 df_data[col] = col_data
                 # used later to get correct dtypes
-                dtype_str = REVERSE_TYPE_MAP.get(type_code, "object")
+                dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
 
         # turn dict into df
-- 
2.43.0


From 6b44f387c511e0496a794a26bd2faa124da89b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:56 +0000
Subject: [PATCH 39/59] fix: keep the time zone of pandas timestamps

---
 jsonpickle/ext/pandas.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 98a94e7..2a02a7a 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -405,6 +405,9 @@ class PandasTimestampHandler(BaseHandler):
 
     def flatten(self, obj: pd.Timestamp, data: dict[str, Any]) -> dict[str, Any]:
         meta = {"isoformat": obj.isoformat()}
+        if obj.tz is not None:
+            # isoformat() has the UTC offset but not the rules of the time zone
+            meta["tz"] = self.context.flatten(obj.tz, reset=False)
         buf = ""
         data = self.pp.flatten_pandas(buf, data, meta)
         return data
@@ -413,6 +416,8 @@ class PandasTimestampHandler(BaseHandler):
         _, meta = self.pp.restore_pandas(data)
         isoformat = meta["isoformat"]
         obj = pd.Timestamp(isoformat)
+        if "tz" in meta:
+            obj = obj.tz_convert(self.context.restore(meta["tz"], reset=False))
         return obj
 
 
-- 
2.43.0


From 63c3d04d3b5fae37ae9e04531c5567b695daa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:26 +0000
Subject: [PATCH 40/59] fix: restore numpy object arrays whose elements are
 sequences

---
 jsonpickle/ext/numpy.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index cfec798..a2cde80 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -109,6 +109,17 @@ def _subarrays_to_lists(value: Any) -> Any:
     return value
 
 
+def _object_array(values: Any, shape: list[int], order: Any) -> npt.NDArray[Any]:
+    """Create an array of objects, whose elements may be sequences themselves"""
+    arr = np.empty(shape, dtype=object, order=order)
+    for index in np.ndindex(*shape):
+        value = values
+        for i in index:
+            value = value[i]
+        arr[index] = value
+    return arr
+
+
 class NumpyNDArrayHandler(NumpyBaseHandler):
     """Stores arrays as text representation, without regard for views"""
 
@@ -127,20 +138,23 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         if obj.dtype.names:
             values = _subarrays_to_lists(values)
         data["values"] = self.context.flatten(values, reset=False)
-        if 0 in obj.shape:
+        if 0 in obj.shape or (obj.dtype == object and obj.shape):
             # add shape information explicitly as it cannot be
-            # inferred from an empty list
+            # inferred from an empty list or from objects that are lists
             data["shape"] = obj.shape
         return data
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
-        arr = np.array(
-            values, dtype=self.restore_dtype(data), order=data.get("order", "C")
-        )
+        dtype = self.restore_dtype(data)
+        order = data.get("order", "C")
         shape = data.get("shape", None)
-        if shape is not None:
-            arr = arr.reshape(shape)
+        if dtype == object and shape is not None:
+            arr = _object_array(values, shape, order)
+        else:
+            arr = np.array(values, dtype=dtype, order=order)
+            if shape is not None:
+                arr = arr.reshape(shape)
 
         self.restore_flags(data, arr)
         return arr
@@ -239,10 +253,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             # are saved as a list to work around that.
             if dtype == object:
                 values = json.loads(buf.decode())
-                arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
-                shape = data.get("shape", None)
-                if shape is not None:
-                    arr = arr.reshape(shape)
+                arr = _object_array(values, data["shape"], data.get("order", "C"))
             else:
                 arr = np.ndarray(
                     buffer=buf,
-- 
2.43.0


From 88a9c57c47430033ec9de136b698533f9047ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:40 +0000
Subject: [PATCH 41/59] fix: encode large numpy object arrays with any elements

---
 jsonpickle/ext/numpy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index a2cde80..b0ff02e 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -109,6 +109,12 @@ def _subarrays_to_lists(value: Any) -> Any:
     return value
 
 
+def _is_plain_json(obj: npt.NDArray[Any]) -> bool:
+    """Whether the elements of an array of objects need no tags in JSON"""
+    plain = (type(None), bool, int, float, str)
+    return all(type(value) in plain for value in obj.flat)
+
+
 def _object_array(values: Any, shape: list[int], order: Any) -> npt.NDArray[Any]:
     """Create an array of objects, whose elements may be sequences themselves"""
     arr = np.empty(shape, dtype=object, order=order)
@@ -197,7 +203,11 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
-        if self.size_threshold is None or self.size_threshold >= obj.size:
+        if (
+            self.size_threshold is None
+            or self.size_threshold >= obj.size
+            or (obj.dtype == object and not _is_plain_json(obj))
+        ):
             # encode as text
             data = super().flatten(obj, data)
         else:
-- 
2.43.0


From 447dd3d1cedda8ef42aabbd0b64ee2e9b7dae969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:28 +0000
Subject: [PATCH 42/59] fix: restore pandas frames whose index or columns have
 a tuple as name

---
 jsonpickle/ext/pandas.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 2a02a7a..2b6ca7e 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -65,6 +65,11 @@ def rle_decode(encoded_list: list[tuple[str, int]]) -> list[str]:
     return decoded
 
 
+def restore_name(name: Any) -> Any:
+    """Names can be tuples, which are lists in JSON"""
+    return tuple(name) if isinstance(name, list) else name
+
+
 class PandasProcessor:
     def __init__(
         self, size_threshold: int = 500, compression: ModuleType = zlib
@@ -304,7 +309,7 @@ class PandasDfHandler(BaseHandler):
                 index_values, names=meta.get("index_names")
             )
         else:
-            index = pd.Index(index_values, name=meta.get("index_names"))
+            index = pd.Index(index_values, name=restore_name(meta.get("index_names")))
         df.index = index
 
         # restore column names for easy readability
@@ -313,7 +318,7 @@ class PandasDfHandler(BaseHandler):
                 names: Any = meta.get("column_names")
                 df.columns.names = names
             else:
-                df.columns.name = meta.get("column_names")
+                df.columns.name = restore_name(meta.get("column_names"))
 
         return df
 
@@ -379,9 +384,8 @@ class PandasIndexHandler(BaseHandler):
     def restore(self, data: dict[str, Any]) -> pd.Index:
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
-        # JSON has no tuples, so tuples come back as lists
         name_bundle = {
-            "name": tuple(v) if isinstance(v, list) else v  # ruff: ignore[B035]
+            "name": restore_name(v)  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From 6b6e11cd0b7466e24234bf7ada4fc75f1d66edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:06 +0000
Subject: [PATCH 43/59] fix: keep the objects of pandas object columns as they
 are

---
 jsonpickle/ext/pandas.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 2b6ca7e..b2b44ba 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -277,12 +277,16 @@ class PandasDfHandler(BaseHandler):
             if type_code == "py/jp":
                 # deserialize each item in the column
                 col_values = [decode(item) for item in col_data]
-                df_data[col] = col_values
+                df_data[col] = pd.Series(col_values, dtype=object)
             else:
-                df_data[col] = col_data
                 # used later to get correct dtypes
                 dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
+                # keep pandas from converting objects to a dtype they all fit
+                is_object = dtype_str == "object"
+                df_data[col] = (
+                    pd.Series(col_data, dtype=object) if is_object else col_data
+                )
 
         # turn dict into df
         df = pd.DataFrame(df_data)
-- 
2.43.0


From fe71594f0433416a3b499a56b064e1d45afe98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:05 +0000
Subject: [PATCH 44/59] fix: respect _jsonpickle_exclude in subclasses of list
 and set

---
 jsonpickle/pickler.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 4970e07..60099d5 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -784,7 +784,7 @@ class Pickler:
             return data
 
         if util._is_sequence_subclass(obj):
-            return self._flatten_sequence_obj(obj, data)
+            return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
         if util._is_iterator(obj):
             # force list in python 3
@@ -794,7 +794,7 @@ class Pickler:
         if has_dict:
             # Support objects that subclasses list and set
             if util._is_sequence_subclass(obj):
-                return self._flatten_sequence_obj(obj, data)
+                return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
@@ -1028,12 +1028,15 @@ class Pickler:
         return None
 
     def _flatten_sequence_obj(
-        self, obj: Iterable[Any], data: dict[str, Any]
+        self,
+        obj: Iterable[Any],
+        data: dict[str, Any],
+        exclude: Iterable[str] = (),
     ) -> dict[str, Any] | list[Any]:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
-            self._flatten_dict_obj(obj.__dict__, data)
-        self._flatten_obj_attrs(obj, _slot_names(obj.__class__), data)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+        self._flatten_obj_attrs(obj, _slot_names(obj.__class__), data, exclude)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From bbce0cdd4a49fc152f2ab36e7fbf43b6e2c27cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:54 +0000
Subject: [PATCH 45/59] fix: do not number objects that only occur in included
 properties

---
 jsonpickle/pickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 60099d5..ae56c7b 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -585,6 +585,7 @@ class Pickler:
             x[0] for x in inspect.getmembers(obj.__class__) if valid_property(x)
         ]
 
+        ref_count = len(self._objs)
         properties_dict = {}
         for p_name in properties:
             p_val = getattr(obj, p_name)
@@ -593,6 +594,9 @@ class Pickler:
             else:
                 properties_dict[p_name] = self._flatten(p_val)
 
+        # The unpickler never looks at the properties
+        self._forget_refs(ref_count)
+
         data[tags.PROPERTY] = properties_dict
 
         return data
-- 
2.43.0


From 995746b7c986f1b4283e6761bad919297ac29729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:48 +0000
Subject: [PATCH 46/59] fix: do not take slots for properties with
 include_properties=True

---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index ae56c7b..2e9aa3b 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -689,7 +689,7 @@ class Pickler:
             return result
 
         if self.include_properties:
-            data = self._flatten_properties(obj, data)
+            data = self._flatten_properties(obj, data, [_slot_names(cls)])
 
         if self.unpicklable:
             # test for a reduce implementation, and redirect before
-- 
2.43.0


From e8b4b03b7aa926af5402b87dc4638d4a468be543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:00 +0000
Subject: [PATCH 47/59] fix: do not take private slots for properties with
 include_properties=True

Private slots are listed by their plain names, so they were not recognised
and encoding failed when one of them had no value.
---
 jsonpickle/pickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 2e9aa3b..0c20a63 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -579,7 +579,11 @@ class Pickler:
 
         # i don't like lambdas
         def valid_property(x: tuple[str, Any]) -> bool:
-            return not x[0].startswith("__") and x[0] not in allslots_set
+            return (
+                not x[0].startswith("__")
+                and x[0] not in allslots_set
+                and not inspect.ismemberdescriptor(x[1])
+            )
 
         properties = [
             x[0] for x in inspect.getmembers(obj.__class__) if valid_property(x)
-- 
2.43.0


From eb9492a3b3d7c253fbb71f95be6ffccd732ad66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:00 +0000
Subject: [PATCH 48/59] fix: flatten properties after the attributes of an
 object

Objects that are reachable through both an attribute and a property were
flattened twice on every level, which takes exponential time for nested
objects.
---
 jsonpickle/pickler.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 0c20a63..77a46d4 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -614,10 +614,6 @@ class Pickler:
         """Return a json-friendly dict for new-style objects with __slots__."""
         allslots = [_slot_names(obj.__class__)]
 
-        # add properties to the attribute list
-        if self.include_properties:
-            data = self._flatten_properties(obj, data, allslots)
-
         if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
             # __slots__ could have been an iterator that is exhausted by now.
             # Only use real slots: methods, properties and class variables are not
@@ -658,6 +654,17 @@ class Pickler:
         # we're generally not bothering to annotate parts that aren't part of the public API
         # but this annotation alone saves us 3 mypy "errors"
         data: dict[str, Any] = {}
+        result = self._flatten_obj_data(obj, data)
+        if result is data and self.include_properties and tags.PROPERTY in data:
+            # The properties come last: objects that are also attributes have been
+            # flattened by now and must not be flattened a second time.
+            self._flatten_properties(obj, data, [_slot_names(obj.__class__)])
+        return result
+
+    def _flatten_obj_data(
+        self, obj: Any, data: dict[str, Any]
+    ) -> dict[str, Any] | list[Any] | Any | None:
+        """Flatten an instance into `data`, leaving room for its properties"""
         has_class = hasattr(obj, "__class__")
         has_dict = hasattr(obj, "__dict__")
         has_slots = not has_dict and hasattr(obj, "__slots__")
@@ -693,7 +700,7 @@ class Pickler:
             return result
 
         if self.include_properties:
-            data = self._flatten_properties(obj, data, [_slot_names(cls)])
+            data[tags.PROPERTY] = {}
 
         if self.unpicklable:
             # test for a reduce implementation, and redirect before
-- 
2.43.0


From cadb25de0c7bd870afdb14c22ee1a1ffdad03e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:10 +0000
Subject: [PATCH 49/59] fix: honour _jsonpickle_exclude when including
 properties

With include_properties=True the value of an excluded attribute still reached
the output when the class has a property or a class variable of that name.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 77a46d4..9a8cb1c 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -576,12 +576,14 @@ class Pickler:
 
         # convert to set in case there are a lot of slots
         allslots_set = set(itertools.chain.from_iterable(allslots))
+        exclude = set(getattr(obj, "_jsonpickle_exclude", ()))
 
         # i don't like lambdas
         def valid_property(x: tuple[str, Any]) -> bool:
             return (
                 not x[0].startswith("__")
                 and x[0] not in allslots_set
+                and x[0] not in exclude
                 and not inspect.ismemberdescriptor(x[1])
             )
 
-- 
2.43.0


From 196fb49cf7f26e743dc6aae29443a8c6fb26fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:39 +0000
Subject: [PATCH 50/59] fix: encode properties that hold sets, bytes or
 containers of objects

Such values were put into the output as they are with include_properties=True,
and encoding failed with a TypeError from the JSON backend.
---
 jsonpickle/util.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index fe547db..843b139 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -58,9 +58,7 @@ NON_REDUCIBLE_TYPES: set[type] = (
 NON_CLASS_TYPES: set[type] = {
     list,
     dict,
-    set,
     tuple,
-    bytes,
 } | PRIMITIVES
 _TYPES_IMPORTABLE_NAMES: dict[type | Callable[..., Any], str] = {
     getattr(types, name): f"types.{name}"
@@ -150,11 +148,21 @@ def _is_object(obj: Any) -> bool:
     )
 
 
-def _is_not_class(obj: Any) -> bool:
-    """Determines if the object is not a class or a class instance.
-    Used for serializing properties.
+def _is_not_class(obj: Any, parents: tuple[int, ...] = ()) -> bool:
+    """Determines if the object is not a class or a class instance
+    and does not contain any or itself. Used for serializing properties.
     """
-    return type(obj) in NON_CLASS_TYPES
+    if type(obj) not in (list, dict, tuple):
+        return type(obj) in NON_CLASS_TYPES
+    if id(obj) in parents:
+        return False
+    parents = (*parents, id(obj))
+    values = obj
+    if type(obj) is dict:
+        if not all(map(_is_primitive, obj)):
+            return False
+        values = obj.values()
+    return all(_is_not_class(v, parents) for v in values)
 
 
 def _is_primitive(obj: Any) -> bool:
-- 
2.43.0


From 7ca19189421df2694cdaecdbfdda747181c66ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:11 +0000
Subject: [PATCH 51/59] fix: encode enum members to plain JSON when including
 properties

---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 9a8cb1c..b47b755 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -585,6 +585,8 @@ class Pickler:
                 and x[0] not in allslots_set
                 and x[0] not in exclude
                 and not inspect.ismemberdescriptor(x[1])
+                # the members of an enum are not properties of each other
+                and not (util._is_enum(obj) and isinstance(x[1], obj.__class__))
             )
 
         properties = [
-- 
2.43.0


From be1bbbd966930c1e4237c51fba4ebcbf4eda3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:40 +0000
Subject: [PATCH 52/59] fix: encode ufuncs that are not numpy's own

---
 jsonpickle/ext/numpy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index b0ff02e..6c4358e 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import ast
 import json
+import pickle
 import sys
 import warnings
 import zlib
@@ -480,7 +481,14 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
 
 class NumpyUfuncHandler(BaseHandler):
     def flatten(self, obj: np.ufunc, data: dict[str, Any]) -> dict[str, Any]:
-        data["importable_name"] = importable_name(obj)
+        if hasattr(obj, "__module__"):
+            name = importable_name(obj)
+        else:
+            # the ufuncs of other packages do not know the module that defines them
+            name = f"{pickle.whichmodule(obj, obj.__name__)}.{obj.__name__}"
+            if loadclass(name) is not obj:
+                raise pickle.PicklingError(f"Can't pickle {obj!r}: not found as {name}")
+        data["importable_name"] = name
         return data
 
     def restore(self, obj: dict[str, Any]) -> np.ufunc:
-- 
2.43.0


From fb4c08d9670a2fabe040dd1dd3254ba39e0248fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:39 +0000
Subject: [PATCH 53/59] fix: honour __reduce__ of list-like classes

Subclasses of deque and array lost their items because classes that
have __getitem__ and append were not reduced.
---
 jsonpickle/util.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index 843b139..f30f833 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -334,8 +334,6 @@ def _is_reducible(obj: Any) -> bool:
         or _is_dictionary_subclass(obj)
         or isinstance(obj, types.ModuleType)
         or _is_reducible_sequence_subclass(obj)
-        # bytearray is list-like but its subclasses have no other representation
-        or (_is_list_like(obj) and not isinstance(obj, bytearray))
         or isinstance(getattr(obj, "__slots__", None), _ITERATOR_TYPE)
         or (_is_type(obj) and obj.__module__ == "datetime")
     )
-- 
2.43.0


From 28f6181ee4f09f736d25dac26e546072fee4b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:33 +0000
Subject: [PATCH 54/59] fix: restore reduce states that are shared or come in
 two parts

The state became the __dict__ of the object, so objects with the same
state shared their attributes and a (dict, slots) pair was refused.
---
 jsonpickle/unpickler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 50e15d1..c7b1986 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -580,13 +580,14 @@ class Unpickler:
             except AttributeError:
                 # it's fine - we'll try the prescribed default methods
                 try:
-                    # we can't do a straight update here because we
-                    # need object identity of the state dict to be
-                    # preserved so that _swap_proxies works out
-                    for k, v in stage1.__dict__.items():
-                        state.setdefault(k, v)
-                    stage1.__dict__ = state
-                except AttributeError:
+                    # the state can be shared with other objects so it
+                    # must not become the __dict__ itself
+                    attributes = stage1.__dict__
+                    for k, v in state.items():
+                        attributes[k] = v
+                        if isinstance(v, _Proxy):
+                            self._proxies.append((attributes, k, v, _obj_setvalue))
+                except (AttributeError, TypeError):
                     # next prescribed default
                     try:
                         for k, v in state.items():
-- 
2.43.0


From cfc4ffa55e206fe7ac8b86d7367a950ea9e04682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:18:53 +0000
Subject: [PATCH 55/59] fix: do not drop slots whose value fails to encode with
 an AttributeError

---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index b47b755..a03d0be 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -557,10 +557,10 @@ class Pickler:
                 else:
                     name = obj.__class__.__name__.lstrip("_")
                     value = getattr(obj, f"_{name}{k}")
-                flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
                 continue
+            flatten(k, value, data)
             ok = True
         return ok
 
-- 
2.43.0


From f74ed10aefc044784f368445698624661139689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:18:53 +0000
Subject: [PATCH 56/59] fix: do not take errors raised while restoring children
 for a damaged container

---
 jsonpickle/unpickler.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index c7b1986..771f581 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -507,9 +507,10 @@ class Unpickler:
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
         try:
-            return iter(self._restore_list(obj[tags.ITERATOR]))
+            items = list(obj[tags.ITERATOR])
         except TypeError:
-            return iter([])
+            items = []
+        return iter(self._restore_list(items))
 
     def _swapref(self, proxy: _Proxy, instance: Any) -> None:
         proxy_id = id(proxy)
@@ -532,12 +533,12 @@ class Unpickler:
         self._mkref(proxy)
         try:
             reduce_iter = iter(obj[tags.REDUCE])
-            reduce_val = list(map(self._restore, islice(reduce_iter, 2)))
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
+        reduce_val = list(map(self._restore, islice(reduce_iter, 2)))
         if len(reduce_val) < 2:
             reduce_val.extend([None] * (2 - len(reduce_val)))
         f, args = reduce_val
@@ -566,10 +567,7 @@ class Unpickler:
         proxy.reset(stage1)
         self._swapref(proxy, stage1)
 
-        try:
-            reduce_val = list(map(self._restore, reduce_iter))
-        except TypeError:
-            reduce_val = []
+        reduce_val = list(map(self._restore, reduce_iter))
         if len(reduce_val) < 4:
             reduce_val.extend([None] * (4 - len(reduce_val)))
         state, listitems, dictitems, state_setter = reduce_val
@@ -925,7 +923,12 @@ class Unpickler:
 
     def _restore_set(self, obj: dict[str, Any]) -> set[Any]:
         try:
-            return {self._restore(v) for v in obj[tags.SET]}
+            items = list(obj[tags.SET])
+        except TypeError:
+            items = []
+        items = [self._restore(v) for v in items]
+        try:
+            return set(items)
         except TypeError:
             return set()
 
@@ -985,9 +988,10 @@ class Unpickler:
 
     def _restore_tuple(self, obj: dict[str, Any]) -> tuple[Any, ...]:
         try:
-            return tuple(self._restore(v) for v in obj[tags.TUPLE])
+            items = list(obj[tags.TUPLE])
         except TypeError:
-            return ()
+            items = []
+        return tuple([self._restore(v) for v in items])
 
     def _restore_tags(
         self, obj: Any, _passthrough: Callable[[Any], Any] = _passthrough
-- 
2.43.0


From e891a4d902d3515940676f616a8d2bbe339fa3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:18:53 +0000
Subject: [PATCH 57/59] fix: let an AttributeError raised by __setstate__ reach
 the caller

---
 jsonpickle/unpickler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 771f581..9362ced 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -573,9 +573,10 @@ class Unpickler:
         state, listitems, dictitems, state_setter = reduce_val
 
         if state and state_setter is None:
-            try:
-                stage1.__setstate__(state)
-            except AttributeError:
+            setstate = getattr(stage1, "__setstate__", None)
+            if setstate is not None:
+                setstate(state)
+            else:
                 # it's fine - we'll try the prescribed default methods
                 try:
                     # the state can be shared with other objects so it
-- 
2.43.0


From 413c520af73461fcee0efc98acf1a2d9339a4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:53 +0000
Subject: [PATCH 58/59] fix: do not call repr() on callables to look for Cython
 functions

Every callable that was encoded had its repr() computed to see whether it
is a Cython function. The repr of nested callables, such as partials or
callable objects with a generated __repr__, can take exponential time, and
one that raises made encode() fail. Look at the name of the type instead.
---
 jsonpickle/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index f30f833..2cd43e5 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -341,11 +341,8 @@ def _is_reducible(obj: Any) -> bool:
 
 def _is_cython_function(obj: Any) -> bool:
     """Returns true if the object is a reference to a Cython function"""
-    return (
-        callable(obj)
-        and hasattr(obj, "__repr__")
-        and repr(obj).startswith("<cyfunction ")
-    )
+    # the repr() of other callables can be costly or raise
+    return type(obj).__name__ in ("cython_function_or_method", "fused_cython_function")
 
 
 def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
-- 
2.43.0


From f34115142941c2de4f8ef4af3ba92aba51b16fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:51:48 +0000
Subject: [PATCH 59/59] fix: encode many small array views in linear time

The references were copied for every view that also gets its values
written, so encoding n views took time proportional to n squared. Remove
the references made for the values instead.
---
 jsonpickle/ext/numpy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 6c4358e..b84e96d 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -337,11 +337,13 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
         far as py/id allocation is concerned.
         """
         context = self.context
-        saved_objs = dict(context._objs)
-        saved_flattened = dict(context._flattened)
+        ref_count = len(context._objs)
+        flattened_count = len(context._flattened)
         super(NumpyNDArrayHandlerBinary, self).flatten(obj, data)
-        context._objs = saved_objs
-        context._flattened = saved_flattened
+        # Entries are only ever added, so undo this by removing the newest ones
+        context._forget_refs(ref_count)
+        while len(context._flattened) > flattened_count:
+            context._flattened.popitem()
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
-- 
2.43.0

