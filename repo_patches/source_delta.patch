From 6339f8d6c832eab8892ca21e7c23434554fdc283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 01/50] fix: compose property kinds from the mix-in that was
 selected

The loop variable was used instead of the selected mix-in, so that the
type joined on was whichever candidate happened to be examined last.
Depending on which kinds had been composed before, declaring for example
a read-only date property or a lazy list property failed with KeyError
or PropertyTypeClash.
---
 normalize/property/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..8522f3a 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -198,7 +198,7 @@ def create_property_type_from_traits(trait_set):
 
             if mix_in:
                 base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
+                other_type = PROPERTY_TYPES[mix_in]
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-- 
2.43.0


From 4934313b1f737ce9952a6e966069f45cf940f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 02/50] fix: make only one collection type when threads race
 for it

_make_generic checked the registry and stored into it in separate steps, so
two threads declaring collections of one item type could each end up with a
type of their own, and values of one were foreign to the other.  An interrupt
between the two stores also left the type without its name in the module.
---
 normalize/coll.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..dd28553 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -488,19 +488,21 @@ def _make_generic(of, coll):
 
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
-    if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of:
-            raise exc.PropertyNotUnique(key=key)
-    else:
+    if key not in GENERIC_TYPES:
         # oh, we get to name it?  Goodie!
         generic_name = "%s%s" % (of.__name__, coll.suffix)
-        GENERIC_TYPES[key] = type(
+        # setdefault, because another thread may be making the same type; all
+        # users have to end up with the same one.
+        GENERIC_TYPES.setdefault(key, type(
             generic_name, (coll, _Generic), dict(itemtype=of, generic_key=key)
-        )
-        mod = sys.modules[of.__module__]
-        if not hasattr(mod, generic_name):
-            setattr(mod, generic_name, GENERIC_TYPES[key])
-    return GENERIC_TYPES[key]
+        ))
+    generic_type = GENERIC_TYPES[key]
+    if generic_type.itemtype != of:
+        raise exc.PropertyNotUnique(key=key)
+    mod = sys.modules[of.__module__]
+    if not hasattr(mod, generic_type.__name__):
+        setattr(mod, generic_type.__name__, generic_type)
+    return generic_type
 
 
 def list_of(of):
-- 
2.43.0


From d8c4284e1e90ef9ee2b0d6c2bf695b1ea32b1cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 03/50] fix: compose missing property kinds in one thread at a
 time

Two threads declaring properties which need the same not yet existing
combination of traits disturbed each other: one of them failed with
PropertyTypeMixinFailure or PropertyTypeClash.
---
 normalize/property/meta.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 8522f3a..79ef45e 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -16,6 +16,7 @@
 
 from collections import defaultdict
 import inspect
+import threading
 
 import normalize.exc as exc
 
@@ -26,6 +27,9 @@ PROPERTY_TYPES = dict()
 # based on the kwargs used in the Property() constructor
 DUCKWARGS = defaultdict(set)
 
+# only one thread at a time may compose missing property types
+_compose_lock = threading.RLock()
+
 
 # a test for whether a value passed to 'default' is sufficient to qualify the
 # attribute for v1 upgrade
@@ -63,7 +67,7 @@ def has(selfie, self, args, kwargs):
         if argname not in self.all_duckwargs:
             # initializer does not support this arg.  Do any subclasses?
             implies_traits = set()
-            for traits, proptype in DUCKWARGS[argname]:
+            for traits, proptype in list(DUCKWARGS[argname]):
                 if isinstance(proptype, type(self)):
                     implies_traits.add(traits)
                     if proptype.__safe_unless_ro__:
@@ -102,7 +106,9 @@ def has(selfie, self, args, kwargs):
     trait_set_key = tuple(sorted(all_traits))
 
     if trait_set_key not in PROPERTY_TYPES:
-        create_property_type_from_traits(trait_set_key)
+        with _compose_lock:
+            if trait_set_key not in PROPERTY_TYPES:
+                create_property_type_from_traits(trait_set_key)
     property_type = PROPERTY_TYPES[trait_set_key]
     if not isinstance(property_type, type(self)):
         raise exc.PropertyTypeMismatch(
@@ -258,8 +264,9 @@ class MetaProperty(type):
         attrs['duckwargs'] = duckwargs
         attrs['all_duckwargs'] = all_duckwargs
         self = super(MetaProperty, mcs).__new__(mcs, name, bases, attrs)
-        PROPERTY_TYPES[self.traits] = self
+        # other threads may use the type as soon as it is registered
         selfie[0] = self
+        PROPERTY_TYPES[self.traits] = self
         if trait:
             for kwarg in duckwargs:
                 DUCKWARGS[kwarg].add((traits, self))
-- 
2.43.0


From d47ecbec2e43201eccfc3952fbf9ece54ffe7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 04/50] fix: publish the json_data cache entry only when it is
 complete

has_json_data[type] was set before json_data_takes_extraneous[type], so that
another thread converting its first object of the type, or any later call after
an interrupt between the two, failed with KeyError.
---
 normalize/record/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..6e7d78b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -176,11 +176,13 @@ def _json_data(x, extraneous):
             return x.json_data()
     else:
         htj = hasattr(x, "json_data") and callable(x.json_data)
-        has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
             tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
+            # has_json_data announces the type to all threads, so it goes last
             json_data_takes_extraneous[type(x)] = tjte
+        has_json_data[type(x)] = htj
+        if htj:
             if tjte:
                 return x.json_data(extraneous=extraneous)
             else:
-- 
2.43.0


From c98fb699515a794e487a066474f5e3aef8d5e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 05/50] fix: insert one item into a list collection

insert() assigned the new item to an empty slice, which failed for items that
cannot be iterated over, and inserted the parts of those that can (the
characters of a string).
---
 normalize/coll.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index dd28553..f51730c 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -371,11 +371,7 @@ class ListCollection(KeyedCollection):
         raise ValueError("%r is not in list" % x)
 
     def insert(self, i, x):
-        if i < 0:
-            i += len(self)
-        if i < 0:
-            i = 0
-        self[i:i] = x
+        self._values.insert(i, self.coerce_value(x))
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From 23836ca1912410b3bec0521b555459987878b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 06/50] fix: refuse list collection pops before the first item

pop(i) with i < -len removed the first item instead of raising IndexError.
---
 normalize/coll.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index f51730c..92ef6ce 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -374,13 +374,7 @@ class ListCollection(KeyedCollection):
         self._values.insert(i, self.coerce_value(x))
 
     def pop(self, i=-1):
-        if i < 0:
-            i += len(self)
-            if i < 0:
-                i = 0
-        x = self[i]
-        del self[i]
-        return x
+        return self._values.pop(i)
 
     def remove(self, x):
         del self[self.index(x)]
-- 
2.43.0


From 24fa7ad2d5569e58ebe7df67ee2a55f5b2105354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 07/50] fix: let index() of a list collection search past the
 end

index(x, i, j) with j beyond the end raised IndexError when the value was
missing; it is a ValueError like for any other list.
---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 92ef6ce..9f19a64 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -365,7 +365,7 @@ class ListCollection(KeyedCollection):
             j += len_
             if j < 0:
                 j = 0
-        for k in range(i, j):
+        for k in range(i, min(j, len_)):
             if self[k] == x:
                 return k
         raise ValueError("%r is not in list" % x)
-- 
2.43.0


From ab2b47964cadc94e0e41e780691e9a8f7a7c43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 08/50] fix: let a list collection be extended with itself

extend(self) kept appending the items it had just appended, forever.
---
 normalize/coll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 9f19a64..5f22d1c 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -348,6 +348,8 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
+        if iterable is self:
+            iterable = list(self)
         self._values.extend(self.coerce_value(item) for item in iterable)
 
     def count(self, value):
-- 
2.43.0


From 6793aac9b28a5c0cbf4502e34cb0c60cb707aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 09/50] fix: check the type of coerced collection items

Whatever a custom coerceitem function returned went into the collection, also
if it was no itemtype at all.
---
 normalize/coll.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 5f22d1c..0a57909 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -139,7 +139,12 @@ class Collection(Record):
             return v
         else:
             try:
-                return cls.coerceitem(v)
+                coerced = cls.coerceitem(v)
+                if not isinstance(coerced, cls.itemtype):
+                    raise TypeError(
+                        "coerceitem returned a %s" % type(coerced).__name__
+                    )
+                return coerced
             except Exception as e:
                 raise exc.CollectionItemCoerceError(
                     itemtype=cls.itemtype,
-- 
2.43.0


From 355b9e36b188781b1d8e92f8c22eb1878681f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 10/50] fix: refuse to make a dict collection of anything

Values from which no items can be taken, such as numbers, silently made an
empty collection, as constructor argument and when assigned to a property.
---
 normalize/coll.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 0a57909..e2a0f8e 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -243,6 +243,11 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif coll:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From d4a3fd2eb11409e179042a30dc9f9567ec1c23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 11/50] fix: make repr() of a JsonRecordDict work

It named the wrong class to super() and always failed with TypeError.
---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 6e7d78b..c5f9594 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -499,7 +499,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From a7985849a93c426e652a4284122c3e8e1c3950b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 12/50] fix: do not let a lazy value replace one that was set
 meanwhile

---
 normalize/property/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..910b22c 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -362,11 +362,14 @@ class LazyProperty(Property):
         if obj is None:
             return self
 
-        if self.name not in obj.__dict__:
-            value = self.get_default(obj)
-            obj.__dict__[self.name] = self.type_safe_value(value)
+        try:
+            return obj.__dict__[self.name]
+        except KeyError:
+            pass
 
-        return super(LazyProperty, self).__get__(obj, type_)
+        value = self.type_safe_value(self.get_default(obj))
+        # a value which was set in the meantime takes precedence
+        return obj.__dict__.setdefault(self.name, value)
 
     def slot_is_empty(self, obj):
         return False
-- 
2.43.0


From 1de5225604d35ec83a6a440325a121d84d86e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 13/50] fix: convert records with explicit v1_none properties
 to JSON

---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 910b22c..329a46e 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -457,7 +457,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From b5752d1b7f02fc56148a8af932416498d9b578bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 14/50] fix: pickle sub-classes of generated collection types
 as what they are

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index e2a0f8e..aef7af0 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -469,8 +469,11 @@ class _GenericPickler(object):
 class _Generic(Collection):
     """A mix-in to mark collection types which are (for example) collections of
     things."""
-    def __reduce__(self):
+    def __reduce_ex__(self, protocol):
         """helper method for pickling"""
+        if "generic_key" not in type(self).__dict__:
+            # a declared sub-class of a generated type; found by its own name
+            return super(_Generic, self).__reduce_ex__(protocol)
         return (_GenericPickler(type(self).generic_key), (self._values,))
 
 
-- 
2.43.0


From 35af21488e374b54ab5c304847e90dd5fcf271ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 15/50] fix: identify records which hold an empty collection

The key of an empty collection is (), but it was taken for 'no key' and
replaced by the collection itself, which cannot be hashed.
---
 normalize/identity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 759fe23..8d2f0ba 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -85,7 +85,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
-            val_pk = ()
+            val_pk = None
             set_elements = 0
             for value_type in value_type_list:
                 if issubclass(value_type, normalize.record.Record):
@@ -93,11 +93,12 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                                    selector[prop.name] if selector else None,
                                    normalize_object_slot)
                     pk_elements = len([x for x in pk if x is not None])
-                    if not val_pk or pk_elements > set_elements:
+                    if val_pk is None or pk_elements > set_elements:
                         val_pk = pk
                         set_elements = pk_elements
 
-            val_pk = val_pk or val
+            if val_pk is None:
+                val_pk = val
             try:
                 val_pk.__hash__()
             except TypeError:
-- 
2.43.0


From 8fa0e06c2fa2a308998176dd987ff6c09b7828f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 16/50] fix: compare items which a filter selects in part

A compare_filter with an index, followed by a path into that item, left
the whole item out of the comparison.
---
 normalize/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aa36428..9563418 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -651,7 +651,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
-                if fs_a + [k] not in options.compare_filter:
+                if not options.compare_filter[fs_a + [k]]:
                     continue
             pk = options.record_id(
                 v, **(id_args(k) if callable(id_args) else id_args))
-- 
2.43.0


From a8da7e66c9105f9363d8b3b03761e8e01b1d794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 17/50] fix: do not call compare_as functions for slots which
 are not set

To find the key of an item without primary key, diff() called compare_as
functions with None for slots which were not set, and with None besides
the value for those which were; functions which expect a value failed.
---
 normalize/diff.py     | 5 ++++-
 normalize/identity.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 9563418..a903f50 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -290,7 +290,10 @@ class DiffOptions(object):
         """This hook wraps ``normalize_slot``, and performs clean-ups which
         require access to the object the slot is in as well as the value.
         """
-        if value is not _nothing and hasattr(prop, "compare_as"):
+        if value is None and prop and not hasattr(obj, prop.name):
+            # record_id() passes None for slots which are not set
+            pass
+        elif value is not _nothing and hasattr(prop, "compare_as"):
             method, nargs = getattr(prop, "compare_as_info", (False, 1))
             args = []
             if method:
diff --git a/normalize/identity.py b/normalize/identity.py
index 8d2f0ba..70afa3d 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -76,11 +76,11 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
         val = getattr(object_, prop.name, None)
         if normalize_object_slot:
             val = normalize_object_slot(val, prop, object_)
-        _none = (
-            normalize_object_slot(None, prop, object_) if
+        _nothing = (
+            normalize_object_slot(prop=prop, obj=object_) if
             normalize_object_slot else None
         )
-        if val is not _none and prop.valuetype:
+        if val is not None and val is not _nothing and prop.valuetype:
             value_type_list = (
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
-- 
2.43.0


From 51c9e11474ffd7880f664648bb0d77c9df80d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 18/50] fix: pair approximately matching items in their order

Which of several equally good pairs diff() picked depended on the order
of a set, and so on the hash seed: one run reported two changed items,
the next run four other changes for the same objects.
---
 normalize/diff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index a903f50..73ea532 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -724,7 +724,10 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                     yield diff
 
             if not force_descent and options.fuzzy_match:
-                for a_pk_seq, b_pk_seq in _fuzzy_match(removed, added):
+                for a_pk_seq, b_pk_seq in _fuzzy_match(
+                    [x for x in rev_keys['a'] if x in removed],
+                    [x for x in rev_keys['b'] if x in added],
+                ):
                     removed.remove(a_pk_seq)
                     added.remove(b_pk_seq)
                     a_key = rev_keys['a'][a_pk_seq]
-- 
2.43.0


From c8585bcccc1e79bb757990c193d81666c7074652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 19/50] fix: let wildcard selectors address the items of dict
 collections

'None' in a field selector iterated over the keys of dicts, and putting a
whole dict stored the new value under a slice object as key.  Posting
through a wildcard always failed, as the value was not passed on.
---
 normalize/selector.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..c645396 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -39,6 +39,13 @@ def _try_index(instance, selector):
     return False
 
 
+def _all_items(collection):
+    """The items which a 'None' selector refers to."""
+    if isinstance(collection, (dict, DictCollection)):
+        return list(collection.values())
+    return collection
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -144,7 +151,7 @@ class FieldSelector(object):
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 rv = []
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     val = None
                     try:
                         val = sub_field_selector.get(r)
@@ -194,7 +201,12 @@ class FieldSelector(object):
         if len(self.selectors) == 1:
             selector = self.selectors[0]
             if selector is None:
-                record[:] = value
+                if isinstance(record, (dict, DictCollection)):
+                    value = type(record)(value)
+                    record.clear()
+                    record.update(value)
+                else:
+                    record[:] = value
             elif _try_index(record, selector):
                 try:
                     record[selector] = value
@@ -215,7 +227,7 @@ class FieldSelector(object):
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
             if selector is None:
-                for x in record:
+                for x in _all_items(record):
                     sub_selector.put(x, value)
             else:
                 if _try_index(record, selector):
@@ -255,7 +267,10 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(
+                    sub_field_selector.post(r, value)
+                    for r in _all_items(record)
+                )
 
             # supports the case where an item is created by setting
             # a single required field value
@@ -323,7 +338,7 @@ class FieldSelector(object):
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     try:
                         sub_field_selector.delete(r)
                         all_exc = False
-- 
2.43.0


From 735c08bb739654f3f5c5abdf67cd128a86628fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 20/50] fix: report missing dict keys as field selector errors

get_or_none() failed where a key was missing, and one item without the
key made a wildcard selector fail for all of them.
---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index c645396..9cebd02 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -167,7 +167,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -233,7 +233,7 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
+                    except LookupError:
                         raise FieldSelectorException(
                             "Could not find Record specified by index: %s." %
                             selector
@@ -352,7 +352,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -368,7 +368,10 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From 85076cdcd0d36d33caf09026f8f2b3cc7c2f96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 21/50] fix: post below items and collections which were just
 created

After it had created a missing item of a dict collection, post() went on
in the dict and not in the item.  Keys and indexes were passed as
arguments to the constructor of a missing collection, which failed or,
for the key 'values', replaced the contents.
---
 normalize/selector.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 9cebd02..5e8048c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 import functools
 import re
 
+from normalize.coll import Collection
 from normalize.coll import DictCollection
 from normalize.coll import ListCollection
 from normalize.exc import FieldSelectorAttributeError
@@ -274,9 +275,18 @@ class FieldSelector(object):
 
             # supports the case where an item is created by setting
             # a single required field value
-            kwarg = {}
-            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
-                kwarg[self.selectors[-1]] = value
+            last = None
+            if i >= len(self.selectors) - 2:
+                last = self.selectors[-1]
+
+            def kwarg_for(type_):
+                if not isinstance(last, str) or (
+                    issubclass(type_, Collection) and
+                    last not in type_.properties
+                ):
+                    # an item is put into the new, empty collection
+                    return {}
+                return {last: value}
 
             if _try_index(record, selector):
                 try:
@@ -288,6 +298,7 @@ class FieldSelector(object):
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
+                        kwarg = kwarg_for(type(record).itemtype)
                         record.append(type(record).itemtype(**kwarg))
                         if kwarg:
                             put_final = True
@@ -295,9 +306,11 @@ class FieldSelector(object):
                         raise
                     record = record[selector]
                 except KeyError:
+                    kwarg = kwarg_for(type(record).itemtype)
                     record[selector] = type(record).itemtype(**kwarg)
                     if kwarg:
                         put_final = True
+                    record = record[selector]
             else:
                 if not hasattr(record, selector):
                     prop = type(record).properties[selector]
@@ -306,6 +319,7 @@ class FieldSelector(object):
                             "Must specify default= or isa= to auto-vivify "
                             "%s" % prop
                         )
+                    kwarg = kwarg_for(prop.valuetype)
                     setattr(record, selector, prop.valuetype(**kwarg))
                     if kwarg:
                         put_final = True
-- 
2.43.0


From c748300bc07d532e98fec9d88fe379d4ff22a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 22/50] fix: keep the parts of multi-field selectors in order

They were kept in the order of a set of objects hashed by address.  So
patch() failed now and then with 'set out of order', and delete() of
several items of a list removed other items than the selected.
---
 normalize/selector.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 5e8048c..b90b249 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -606,11 +606,11 @@ class MultiFieldSelector(object):
                 FieldSelector constructor.
         """
         selectors = list()
-        heads = collections.defaultdict(set)
+        heads = collections.defaultdict(list)
         for other in others:
             if isinstance(other, MultiFieldSelector):
                 for head, tail in other.heads.items():
-                    heads[head].add(tail)
+                    heads[head].append(tail)
             elif isinstance(other, FieldSelector):
                 selectors.append(other)
             else:
@@ -621,13 +621,18 @@ class MultiFieldSelector(object):
             if chain:
                 head = chain[0]
                 tail = self.FieldSelector(chain[1:]) if len(chain) > 1 else all
-                heads[head].add(tail)
+                heads[head].append(tail)
             else:
-                heads[None].add(all)
+                heads[None].append(all)
 
+        # items are kept by ascending index, as post() extends collections
+        # only at their end.
+        ordered = sorted(h for h in heads if isinstance(h, int))
+        ordered.extend(h for h in heads if not isinstance(h, int))
         self.heads = dict(
-            (head, all if all in tail else MultiFieldSelector(*tail))
-            for head, tail in heads.items()
+            (head, all if any(x is all for x in heads[head]) else
+             MultiFieldSelector(*heads[head]))
+            for head in ordered
         ) if None not in heads or heads[None] is not all else {None: all}
 
         # sanity assertions follow
@@ -893,7 +898,8 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        # the last items go first, as deletion shifts those behind them
+        for fs in reversed(list(self)):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From 17f8e71299b5f27a17a79a3c815e84b157f098b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 23/50] fix: patch the fields of all items of a collection

patch() with a wildcard selector copied the list of all values, and not
the item's own value, to each item (and failed before post() did).
---
 normalize/selector.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index b90b249..a185467 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -20,6 +20,7 @@ from builtins import range, object
 import collections
 from copy import deepcopy
 import functools
+from itertools import chain
 import re
 
 from normalize.coll import Collection
@@ -587,6 +588,28 @@ class _None(object):
     pass
 
 
+def _each_item(fs, obj):
+    """Generates the field selectors to the single fields which ``fs``, which
+    may contain 'None', addresses in ``obj``.  A 'None' at the end is kept.
+    """
+    if None in fs.selectors[:-1]:
+        i = fs.selectors.index(None)
+        try:
+            coll = fs[:i].get(obj)
+        except AttributeError:
+            yield fs
+            return
+        keys = (
+            list(coll.keys()) if isinstance(coll, (dict, DictCollection)) else
+            range(len(coll))
+        )
+        for key in keys:
+            for item_fs in _each_item(fs[:i] + [key] + fs[i + 1:], obj):
+                yield item_fs
+    else:
+        yield fs
+
+
 class MultiFieldSelector(object):
     """Version of a FieldSelector which stores multiple FieldSelectors combined
     into a single tree structure."""
@@ -924,9 +947,14 @@ class MultiFieldSelector(object):
         """
         # TODO: this could also be a whole lot more efficient!
         fs_val = []
-        for fs in self:
+        for fs in chain.from_iterable(
+            _each_item(fs, source) for fs in self
+        ):
+            whole = fs.selectors[-1] is None
             try:
-                fs_val.append((fs, fs.get(source)))
+                fs_val.append(
+                    (fs, (fs[:-1] if whole else fs).get(source))
+                )
             except AttributeError:
                 fs_val.append((fs, _None))
             except FieldSelectorException:
-- 
2.43.0


From a322d13b99d14b0d5df2815798ad6e88bcbd610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 24/50] fix: look up single items in multi-field selectors with
 wildcards

mfs[0] was None where mfs[(0,)] was the selector for all items.  So diff()
matched items of filtered nested collections by fields left out by the
filter.
---
 normalize/selector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index a185467..c83b4a3 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -777,10 +777,7 @@ class MultiFieldSelector(object):
             else:
                 return self  # XXX wat
 
-        tail = (
-            self.heads[None] if self.complete else
-            self.heads.get(index, None)
-        )
+        tail = self.heads.get(None if self.has_none else index, None)
         return type(self).complete_mfs() if tail == all else tail
 
     def __contains__(self, index):
-- 
2.43.0


From 7a98e28ae608c301edf59d23f1cdc884a9246cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 25/50] fix: compose property kinds from declared ones only

What a composed property type is made of no longer depends on which other
types were composed before it, and composition no longer fails because of
them.
---
 normalize/property/meta.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 79ef45e..3496eda 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -27,6 +27,9 @@ PROPERTY_TYPES = dict()
 # based on the kwargs used in the Property() constructor
 DUCKWARGS = defaultdict(set)
 
+# trait sets of the property types which were composed, not declared
+_COMPOSED = set()
+
 # only one thread at a time may compose missing property types
 _compose_lock = threading.RLock()
 
@@ -150,7 +153,7 @@ def create_property_type_from_traits(trait_set):
     wanted_traits = set(trait_set)
     stock_types = dict(
         (k, v) for k, v in list(PROPERTY_TYPES.items()) if
-        set(k).issubset(wanted_traits)
+        set(k).issubset(wanted_traits) and k not in _COMPOSED
     )
 
     traits_available = set()
@@ -191,7 +194,7 @@ def create_property_type_from_traits(trait_set):
                 # skip mixes that will fail; this means that the type on the
                 # list is a trait subset of 'base'
                 mixed_traits = tuple(sorted(set(base) | set(other)))
-                if mixed_traits in PROPERTY_TYPES:
+                if mixed_traits in stock_types:
                     continue
 
                 this_shortfall = len(wanted_traits - (set(base) | set(other)))
@@ -203,12 +206,20 @@ def create_property_type_from_traits(trait_set):
                         break
 
             if mix_in:
-                base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[mix_in]
-                new_name = _merge_camel_case_names(
-                    base_type.__name__, other_type.__name__,
-                )
-                new_type = type(new_name, (base_type, other_type), {})
+                if mixed_in_product != trait_set:
+                    # an intermediate type is the same as if it was wanted
+                    # for itself, whether or not it was already
+                    if mixed_in_product not in PROPERTY_TYPES:
+                        create_property_type_from_traits(mixed_in_product)
+                    new_type = PROPERTY_TYPES[mixed_in_product]
+                else:
+                    base_type = PROPERTY_TYPES[base]
+                    other_type = PROPERTY_TYPES[mix_in]
+                    new_name = _merge_camel_case_names(
+                        base_type.__name__, other_type.__name__,
+                    )
+                    new_type = type(new_name, (base_type, other_type), {})
+                    _COMPOSED.add(trait_set)
                 stock_types[mixed_in_product] = new_type
                 made_types.append(new_type)
                 made_type = True
-- 
2.43.0


From 94b439df79eec79fd43c85e43e71ca3f6fa683e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 26/50] fix: read attributes once in FieldSelector.get

An attribute which another thread deleted between the check and the read
was reported as AttributeError, and a lazy one was computed twice.
---
 normalize/selector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index c83b4a3..4736d3f 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -172,9 +172,10 @@ class FieldSelector(object):
                 except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
-                if not hasattr(record, selector):
+                try:
+                    record = getattr(record, selector)
+                except AttributeError:
                     raise FieldSelectorAttributeError(name=selector)
-                record = getattr(record, selector)
             i = i + 1
         return record
 
@@ -370,9 +371,10 @@ class FieldSelector(object):
                 except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
-                if not hasattr(record, selector):
+                try:
+                    record = getattr(record, selector)
+                except AttributeError:
                     raise FieldSelectorAttributeError(name=selector)
-                record = getattr(record, selector)
             i = i + 1
         to_delete = self.selectors[-1]
         if _try_index(record, to_delete):
-- 
2.43.0


From 1dfd2d62937885d8f547177561ed7f84a197595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 27/50] fix: let field selectors address the properties of list
 collections

---
 normalize/selector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 4736d3f..12cbf0b 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -36,6 +36,11 @@ def _try_index(instance, selector):
         return False
     if isinstance(selector, int):
         return True
+    if isinstance(selector, str) and isinstance(
+        instance, (list, ListCollection)
+    ):
+        # its items have no names, but the collection may have properties
+        return False
     if getattr(instance, "__getitem__", False):
         return True
     return False
-- 
2.43.0


From d16efeeb5e289df2cf1c911d251b44cbffd37335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 28/50] fix: keep None values in multi-field selections

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 12cbf0b..89b5647 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -900,7 +900,9 @@ class MultiFieldSelector(object):
                 kwargs = dict()
                 for head, tail in self.heads.items():
                     val = getattr(obj, head, None)
-                    if val is not None:
+                    if val is not None or (
+                        tail is all and head in getattr(obj, "__dict__", ())
+                    ):
                         kwargs[head] = self._get(val, tail)
                 return ctor(**kwargs)
 
-- 
2.43.0


From 82f13f835573368ef732062ed2462774e8dbf788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 29/50] fix: let unset v1 properties be set to their empty
 value

Assigning None to a v1 property twice raised KeyError, as did
MultiFieldSelector.patch() from one unset slot to another.
---
 normalize/property/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 329a46e..377cec9 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -462,6 +462,11 @@ class V1Property(SafeProperty):
     def attribute_error_hook(self):
         return self.v1_none
 
+    def __delete__(self, obj):
+        """An unset slot can be read, so it is no error to delete it."""
+        if self.required or self.name in obj.__dict__:
+            super().__delete__(obj)
+
     def __set__(self, obj, value):
         """This setter checks the type of the value before allowing it to be
         set."""
-- 
2.43.0


From f9589fcda0b4b2c17fbfb156dcd8e1051508b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 30/50] fix: let multi-field selectors select from JSON dict
 collections

---
 normalize/selector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 89b5647..837b164 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -879,14 +879,14 @@ class MultiFieldSelector(object):
         elif isinstance(obj, (dict, DictCollection)):
             if self.has_none:
                 tail = self.heads[None]
-                return ctor(
+                return ctor(dict(
                     (k, self._get(v, tail)) for k, v in obj.items()
-                )
+                ))
             else:
-                return ctor(
+                return ctor(dict(
                     (head, self._get(obj[head], tail)) for head, tail in
                     self.heads.items() if head in obj
-                )
+                ))
         else:
             if self.has_int or (self.has_none and self.heads[None] is not all):
                 raise TypeError(
-- 
2.43.0


From 2db725187ad74f4bd4e718ed68da802a06f7a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 31/50] fix: apply visitor filters to the items of scalar
 collections

---
 normalize/visitor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..acc16f5 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -677,8 +677,14 @@ class VisitorPattern(object):
     @classmethod
     def map_collection(cls, visitor, coll_generator, coll_type):
         rv = visitor.copy()
+        leaf_items = not issubclass(coll_type.itemtype, Record)
         for key, value in coll_generator:
             rv.push(key)
+            if leaf_items and rv.visit_filter and (
+                not rv.visit_filter[rv.cue]
+            ):
+                rv.pop(key)
+                continue
             mapped = cls.map(rv, value, coll_type.itemtype)
             rv.pop(key)
             if mapped is None and visitor.ignore_none:
-- 
2.43.0


From ab999d919ff3ccb4730791aa0947b11560735687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 32/50] fix: number the items when a mapping is converted to a
 list

---
 normalize/coll.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index aef7af0..4957d9e 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -332,6 +332,7 @@ class ListCollection(KeyedCollection):
             i = 0
             for k in sorted(coll.keys()):
                 yield (i, coll[k])
+                i += 1
         elif isinstance(coll, (collections.abc.Sequence, types.GeneratorType)) or (
             hasattr(coll, "next") and callable(coll.next)
         ) or (
-- 
2.43.0


From 7674b387fdecbed1e15f9b0ac7ac9ccff1f88de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 33/50] fix: do not visit what is below a record slot that
 reads as None

---
 normalize/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index acc16f5..6c73d95 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -223,6 +223,10 @@ class VisitorPattern(object):
                 ascending integer (for sequences), V (for sets), or something
                 hashable like a string (for dictionaries/maps)
         """
+        if value is None:
+            # eg, the v1_none of a slot which is not set
+            return cls.StopVisiting
+
         if issubclass(value_type, Collection):
             try:
                 generator = value.itertuples()
-- 
2.43.0


From 8fa4450701669448182a1a8ed7123e1259a43544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 34/50] fix: identify slots of several types by the value's own
 type

A string in a slot declared isa=(SomeRecord, str) was identified as if it
was a SomeRecord with nothing set, so records which differed in that slot
had the same key and were matched with one another by diff.
---
 normalize/identity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/identity.py b/normalize/identity.py
index 70afa3d..f8e2bf0 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -85,6 +85,10 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
+            # of several types, those which the value is of tell its key
+            value_type_list = [
+                x for x in value_type_list if isinstance(val, x)
+            ] or value_type_list
             val_pk = None
             set_elements = 0
             for value_type in value_type_list:
-- 
2.43.0


From 4256e9b4859984c693b868cf92ff88344b4fff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 35/50] fix: cast to records without selected properties

Casting the result of a visit to a record type which has no properties, or
only extraneous ones, returned the mapping rather than a record.
---
 normalize/visitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 6c73d95..053ad14 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -411,9 +411,11 @@ class VisitorPattern(object):
         ``value_type`` is not appropriate for ``value``.
         """
         is_coll = issubclass(value_type, Collection)
-        is_record = issubclass(value_type, Record) and any(
-            not visitor.is_filtered(prop) for prop in
-            list(value_type.properties.values())
+        is_record = issubclass(value_type, Record) and (
+            not is_coll or any(
+                not visitor.is_filtered(prop) for prop in
+                list(value_type.properties.values())
+            )
         )
 
         if is_record and not isinstance(value, cls.grok_mapping_types):
-- 
2.43.0


From d516d68034b197056516dd6ea931250b98b0f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 36/50] fix: post below v1 properties which are not set

They read as None rather than raise AttributeError, so FieldSelector.post
took them for set and failed to put a value into None.
---
 normalize/selector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 837b164..cba11d5 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -319,7 +319,12 @@ class FieldSelector(object):
                         put_final = True
                     record = record[selector]
             else:
-                if not hasattr(record, selector):
+                if not hasattr(record, selector) or (
+                    # an unset v1 property reads as None
+                    getattr(record, selector) is None and
+                    selector in getattr(type(record), "properties", ()) and
+                    selector not in record.__dict__
+                ):
                     prop = type(record).properties[selector]
                     if not prop.valuetype:
                         raise FieldSelectorException(
-- 
2.43.0


From 5d4452043f0a6ed1dc2862fbe50874fc4a6d359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 37/50] fix: make AutoJsonRecords keep, change, copy and
 convert their values

Converting to JSON lost what is below a nested AutoJsonRecord; assigning an
attribute did nothing or failed, deleting one failed, and they could not be
deep-copied as looking for an unknown attribute raised KeyError.
---
 normalize/record/json.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index c5f9594..6d24811 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -581,26 +581,31 @@ class AutoJsonRecord(JsonRecord):
                 for k, v in self.unknown_json_keys.items():
                     k = type(self).convert_json_key_out(k)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def __getattr__(self, attr):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
-        else:
+        try:
             return self.unknown_json_keys[attr]
+        except KeyError:
+            raise AttributeError(attr)
 
     def __setattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
+    def __delattr__(self, attr):
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__delattr__(attr)
         else:
-            del self.unknown_json_keys[attr]
+            try:
+                del self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
-- 
2.43.0


From 0404a072a890510703684b0f1faceef0746ffc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 38/50] fix: report items replaced by items of another type as
 modified

---
 normalize/diff.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 73ea532..eefec4f 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -679,8 +679,8 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         for key in shared_keys:
             if (isinstance(propval_a, collections.abc.Iterable) and
                isinstance(propval_b, collections.abc.Iterable)):
-                diffs = _diff_iter(propval_a[key], propval_b[key],
-                                   fs_a + [key], fs_b + [key], options)
+                diffs = _item_diff_iter(propval_a[key], propval_b[key],
+                                        fs_a + [key], fs_b + [key], options)
 
                 for diff in diffs:
                     yield diff
@@ -718,7 +718,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                         b_val = _nothing
                 selector_a = fs_a + a_key
                 selector_b = fs_b + b_key
-                for diff in _diff_iter(
+                for diff in _item_diff_iter(
                     a_val, b_val, selector_a, selector_b, options,
                 ):
                     yield diff
@@ -737,7 +737,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                     selector_a = fs_a + a_key
                     selector_b = fs_b + b_key
                     any_diffs = False
-                    for diff in _diff_iter(
+                    for diff in _item_diff_iter(
                         a_val, b_val, selector_a, selector_b, options,
                     ):
                         if diff.diff_type != DiffTypes.NO_CHANGE:
@@ -762,6 +762,10 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             for pk, seq in unchanged:
                 a_key = rev_keys['a'][pk, seq]
                 b_key = rev_keys['b'][pk, seq]
+                if not _comparable_types(
+                    propval_a[a_key], propval_b[b_key], options,
+                ):
+                    continue
                 if options.moved and a_key != b_key:
                     yield DiffInfo(
                         diff_type=DiffTypes.MOVED,
@@ -1023,6 +1027,22 @@ def _diff_iter(base, other, fs_a, fs_b, options):
         return chain(*generators)
 
 
+def _comparable_types(a, b, options):
+    return options.duck_type or a is _nothing or b is _nothing or (
+        type(a) == type(b)
+    )
+
+
+def _item_diff_iter(base, other, fs_a, fs_b, options):
+    """Compare two items of a collection; items of different types are
+    modified, just like slots are."""
+    if _comparable_types(base, other, options):
+        return _diff_iter(base, other, fs_a, fs_b, options)
+    return iter((
+        DiffInfo(diff_type=DiffTypes.MODIFIED, base=fs_a, other=fs_b),
+    ))
+
+
 class Diff(ListCollection):
     """Container for a list of differences."""
     base_type_name = SafeProperty(isa=str, extraneous=True,
-- 
2.43.0


From e44ad104125ecc005d17cfe98af033cf9fed592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 39/50] fix: visits and casts with apply_empty_slots fail below
 empty slots

---
 normalize/visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 053ad14..5b8a499 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -708,7 +708,10 @@ class VisitorPattern(object):
         # those who don't declare their isa= for complex object types.
         value_type = prop.valuetype or type(value)
 
-        if isinstance(value_type, tuple):
+        if isinstance(value, (AttributeError, KeyError)):
+            # an empty slot (apply_empty_slots): there is nothing to descend to
+            mapped = visitor.apply(value, prop, visitor)
+        elif isinstance(value_type, tuple):
             mapped = cls.map_type_union(
                 visitor, value, value_type, prop,
             )
-- 
2.43.0


From 737a1b95700215aa494157baa2568177a3b3bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 40/50] fix: an interrupted declaration of a property kind
 cannot be repeated

---
 normalize/property/meta.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 3496eda..7722c9d 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -218,8 +218,8 @@ def create_property_type_from_traits(trait_set):
                     new_name = _merge_camel_case_names(
                         base_type.__name__, other_type.__name__,
                     )
-                    new_type = type(new_name, (base_type, other_type), {})
                     _COMPOSED.add(trait_set)
+                    new_type = type(new_name, (base_type, other_type), {})
                 stock_types[mixed_in_product] = new_type
                 made_types.append(new_type)
                 made_type = True
@@ -277,8 +277,15 @@ class MetaProperty(type):
         self = super(MetaProperty, mcs).__new__(mcs, name, bases, attrs)
         # other threads may use the type as soon as it is registered
         selfie[0] = self
-        PROPERTY_TYPES[self.traits] = self
-        if trait:
+        try:
+            PROPERTY_TYPES[self.traits] = self
+            if trait:
+                for kwarg in duckwargs:
+                    DUCKWARGS[kwarg].add((traits, self))
+            return self
+        except BaseException:
+            # a declaration which was interrupted may be made again
+            PROPERTY_TYPES.pop(self.traits, None)
             for kwarg in duckwargs:
-                DUCKWARGS[kwarg].add((traits, self))
-        return self
+                DUCKWARGS[kwarg].discard((traits, self))
+            raise
-- 
2.43.0


From cc31df3c4cc261f382e2dfa18834e6c9d6b93887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 41/50] fix: the error for a value that cannot be visited fails
 itself

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..308e8af 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -491,5 +491,5 @@ class VisitorTooSimple(VisitorException):
 class VisitorUnpackError(VisitorException, TypeError):
     message = (
         "Can't unpack collection at {context.field_selector}; expected "
-        "{colltype.__name__}, got {passed!r}"
+        "{colltype}, got {passed!r}"
     )
-- 
2.43.0


From 47721ebe28f7426c59edd616a0b2587fc414c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 42/50] fix: computed defaults depend on the order of a set

The properties which are not passed to the constructor were initialised in
the iteration order of a set of strings, which is another one in every
process.  A default function that reads another defaulted property saw it
set in one process and not in the next, and the error for several missing
required properties named another one each time.
---
 normalize/record/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/normalize/record/__init__.py b/normalize/record/__init__.py
index e317d9b..22aa188 100644
--- a/normalize/record/__init__.py
+++ b/normalize/record/__init__.py
@@ -62,9 +62,10 @@ class Record(metaclass=RecordMeta):
             meta_prop.init_prop(self, val)
         missing = type(self).eager_properties - set(init_dict.keys())
 
-        for propname in missing:
-            meta_prop = type(self).properties[propname]
-            meta_prop.init_prop(self)
+        # in declaration order: a default may be computed from other properties
+        for propname, meta_prop in type(self).properties.items():
+            if propname in missing:
+                meta_prop.init_prop(self)
 
     def __getnewargs__(self):
         """Stub method which arranges for an ``OhPickle`` instance to be passed
-- 
2.43.0


From 6f688f54406622fd6ff26bc9d500ca507f4d8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 43/50] fix: empty placeholders refuse what types inherit

A placeholder only looked into the type's own __dict__ for __getitem__,
__call__ and __getattr__, so a subclass or subtype of a type which can be
subscripted or called was refused.
---
 normalize/empty.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..969ed78 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -32,6 +32,12 @@ def itertypes(iterable):
                 yield entry
 
 
+def implements(type_, method):
+    """Does the type, or one it inherits from, define the special method?  (an
+    attribute look-up on the type might find the one of its metaclass)"""
+    return any(vars(base).get(method) for base in type_.__mro__)
+
+
 class EmptyVal(object):
     """Empty Value placeholder for a given tuple of types.  This object's
     ``__nonzero__`` always returns ``False``, and it knows how to infer types
@@ -64,7 +70,7 @@ class EmptyVal(object):
             for type_ in self._typetuple:
                 prop = getattr(type_, attr_name, None)
                 if prop is None:
-                    if '__getattr__' in type_.__dict__:
+                    if implements(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
                     attrs_found.append(prop)
@@ -98,7 +104,7 @@ class EmptyVal(object):
         if self._typetuple is any:
             return self
         for type_ in self._typetuple:
-            if type_.__dict__.get("__call__", False):
+            if implements(type_, '__call__'):
                 return placeholder(any)
         raise self._exc('NotCallable')
 
@@ -113,7 +119,7 @@ class EmptyVal(object):
                 is_coll = issubclass(type_, normalize.coll.Collection)
                 if is_coll:
                     coll_types.append(type_.itemtype)
-                elif '__getitem__' in type_.__dict__:
+                elif implements(type_, '__getitem__'):
                     coll_types.append(any)
 
             if not coll_types:
-- 
2.43.0


From 991b076d39eac95a936f660191db1a83212e7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:17 +0000
Subject: [PATCH 44/50] fix: iterating over an empty placeholder never ends

Without __iter__, python iterates by calling __getitem__ until it raises
IndexError, which a placeholder never does: 'for x in rec.items0', 'x in
rec.items0' and list(rec.items0) did not return if the list is not set.
---
 normalize/empty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/empty.py b/normalize/empty.py
index 969ed78..f59108e 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -130,6 +130,11 @@ class EmptyVal(object):
                 self._member_type = placeholder(any)
         return self._member_type
 
+    def __iter__(self):
+        # without this, iteration would fall back to __getitem__ and not end
+        self[0]
+        return iter(())
+
     def __bool__(self):
         return False
 
-- 
2.43.0


From 240a11028ec3b92401feb9c03dafbe91c8317081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 45/50] fix: the '0' accessor of a property replaces declared
 properties

In a class with properties 'x' and 'x0', the implicit read-only accessor of
'x' took the place of the property 'x0': assignments to it were not checked
against its type, and reading it when it is not set gave the value of 'x'.
---
 normalize/record/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..6b0885b 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -59,7 +59,10 @@ class RecordMeta(type):
                     attrval.set_name(attrname)
                     local_props[attrname] = attrval
                     for aux_name, aux_prop in attrval.aux_props():
-                        aux_props[aux_name] = aux_prop
+                        # what the class declares itself goes first
+                        if aux_name not in attrs and \
+                                aux_name not in properties:
+                            aux_props[aux_name] = aux_prop
 
         all_properties = set(properties.values())
 
-- 
2.43.0


From d03e6652fa7eb6cba1062cb83d635312dcc9d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 46/50] fix: unknown JSON keys are kept in the order of a set

The keys of a document which a JSON record does not know were kept, and
written out again, in the iteration order of a set of strings: in another
order in every process, not in the document's.
---
 normalize/record/json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 6d24811..1101501 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -113,7 +113,8 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                     raise _box_ingress_error(prop.name, e)
     if unknown_keys:
         kwargs["unknown_json_keys"] = dict(
-            (k, deepcopy(json_struct[k])) for k in unknown_keys
+            (k, deepcopy(v)) for k, v in json_struct.items()
+            if k in unknown_keys
         )
     return kwargs
 
-- 
2.43.0


From 382db59d6759536bbde108a6971329e90c672003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 47/50] fix: to_json leaves out values whose conversion fails

An AttributeError out of a json_out function, or out of anything else below
the slot, was taken for the slot not being set: the value was missing from
the document, without an error.
---
 normalize/record/json.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 1101501..1acb08c 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -192,6 +192,14 @@ def _json_data(x, extraneous):
             return to_json(x, extraneous)
 
 
+def _slot_to_json(prop, val, extraneous):
+    """Marshall out a value of the given property."""
+    if hasattr(prop, "to_json"):
+        return prop.to_json(val, extraneous, _json_data)
+    else:
+        return _json_data(val, extraneous)
+
+
 def to_json(record, extraneous=True, prop=None):
     """JSON conversion function: a 'visitor' function which implements marshall
     out (to JSON data form), honoring JSON property types/hints but does not
@@ -217,11 +225,7 @@ def to_json(record, extraneous=True, prop=None):
     if prop:
         if isinstance(prop, str):
             prop = type(record).properties[prop]
-        val = prop.__get__(record)
-        if hasattr(prop, "to_json"):
-            return prop.to_json(val, extraneous, _json_data)
-        else:
-            return _json_data(val, extraneous)
+        return _slot_to_json(prop, prop.__get__(record), extraneous)
 
     elif isinstance(record, Collection):
         if isinstance(record, RecordDict):
@@ -241,9 +245,10 @@ def to_json(record, extraneous=True, prop=None):
             elif not hasattr(prop, "json_name") or prop.json_name is not None:
                 json_name = getattr(prop, "json_name", prop.name)
                 try:
-                    rv_dict[json_name] = to_json(record, extraneous, prop)
+                    val = prop.__get__(record)
                 except AttributeError:
-                    pass
+                    continue
+                rv_dict[json_name] = _slot_to_json(prop, val, extraneous)
         return rv_dict
 
     elif isinstance(record, int):
-- 
2.43.0


From aeffd27772a38a9364c8985c34b307f2a953716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 48/50] fix: a datetime with a fraction of a second does not
 survive JSON

---
 normalize/property/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/property/types.py b/normalize/property/types.py
index 3d81890..5432716 100644
--- a/normalize/property/types.py
+++ b/normalize/property/types.py
@@ -33,6 +33,7 @@ except ImportError:
         14: "%Y%m%d%H:%MZ",
         16: "%Y%m%d%H:%M:%S",
         17: "%Y%m%d%H:%M:%SZ",
+        23: "%Y%m%d%H:%M:%S.%f",
     }
 
     def parse_datetime(not_a_datetime):
-- 
2.43.0


From ccc67b903b23469e457cc737d664b9200ae400d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:09 +0000
Subject: [PATCH 49/50] fix: match equal items without a hash in diffs of
 simple collections

Items without a hash were matched by their repr(), which differs for equal
dicts, sets and numbers, and may be equal to that of another value.
---
 normalize/diff.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index eefec4f..3b2266a 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -799,6 +799,25 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 )
 
 
+def _value_key(v):
+    """Returns something with a hash to match values of 'simple' collections
+    by; it is equal for equal values, including those without a hash."""
+    if isinstance(v, dict):
+        return dict, frozenset((k, _value_key(x)) for k, x in v.items())
+    elif isinstance(v, (list, tuple)):
+        return (
+            list if isinstance(v, list) else tuple,
+            tuple(_value_key(x) for x in v),
+        )
+    elif isinstance(v, (set, frozenset)):
+        return frozenset(v)
+    elif isinstance(v, Collection):
+        return type(v), _value_key(v._values)
+    elif not v.__hash__:
+        return repr(v)
+    return v
+
+
 def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                       options=None):
     """Generator for comparing 'simple' lists when they are encountered.  This
@@ -822,8 +841,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _value_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = i
@@ -907,8 +925,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _value_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = k
-- 
2.43.0


From 66113be42a49a3286cb6b1c3fc048432137c2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:28 +0000
Subject: [PATCH 50/50] fix: identify equal dict collections alike whatever
 their order

Equal records had different hashes and keys, and were reported as removed and
added, if their dict collections were filled in different order.
---
 normalize/identity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index f8e2bf0..8730e1f 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -51,11 +51,13 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     if not pk_cols and issubclass(
         type_, normalize.coll.Collection
     ):
-        # FIXME: unordered collections will rarely match each other
         gen = (
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
+        if issubclass(type_, normalize.coll.DictCollection):
+            # equal dicts may be in any order
+            gen = sorted(gen, key=lambda item: str(item[0]))
         return tuple(
             record_id(
                 v, type_.itemtype, selector[k], normalize_object_slot,
-- 
2.43.0

