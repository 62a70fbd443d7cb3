From 449e55c0d84f3623ef52a45647acdb6d4290e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 001/134] fix: data equality of dicts ignored the extra keys of
 the second one

---
 dessia_common/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 3e21c2f..a407da4 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1189,6 +1189,9 @@ def data_eq(value1, value2):
 
 def dict_data_eq(dict1, dict2):
     """ Returns True if two dictionaries are equal on data equality, False otherwise. """
+    if len(dict1) != len(dict2):
+        return False
+
     for key, value in dict1.items():
         if key not in dict2:
             return False
-- 
2.43.0


From 6acd841d63b178e789ba89f4634e5fccd64b2fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:21 +0000
Subject: [PATCH 002/134] fix: data equality considered any two classes as
 equal

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index a407da4..e58c6d4 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1166,7 +1166,7 @@ def data_eq(value1, value2):
         return value1 == value2
 
     if isinstance(value1, type):
-        return full_classname(value1) == full_classname(value2)
+        return full_classname(value1, compute_for='class') == full_classname(value2, compute_for='class')
 
     # Else: its an object
     if full_classname(value1) != full_classname(value2):
-- 
2.43.0


From 2f374add84c6be1afaa60fd16992fc7477dacb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:21 +0000
Subject: [PATCH 003/134] fix: data equality of a numpy float with a non
 numeric value raised a TypeError

---
 dessia_common/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index e58c6d4..83dae06 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1149,6 +1149,8 @@ def data_eq(value1, value2):
         return value1 == value2
 
     if isinstance(value1, npy.float64) or isinstance(value2, npy.float64):
+        if not (isinstance(value1, (int, float)) and isinstance(value2, (int, float))):
+            return False
         return math.isclose(value1, value2, abs_tol=FLOAT_TOLERANCE)
 
     if not isinstance(value2, type(value1)) and not isinstance(value1, type(value2)):
-- 
2.43.0


From 09c983c5954f928c248fa9309b0f1e832f62e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 004/134] fix: comparing an object with an unhashable value
 raised a TypeError

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 83dae06..c5f4a0e 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -120,11 +120,11 @@ class DessiaObject(SerializableObject):
         Behavior can be controlled by class attribute _eq_is_data_eq to tell if we must use python equality (based on
         memory addresses) (_eq_is_data_eq = False) or a data equality (True).
         """
-        if hash(self) != hash(other_object):
-            return False
         if self._eq_is_data_eq:
             if self.__class__.__name__ != other_object.__class__.__name__:
                 return False
+            if hash(self) != hash(other_object):
+                return False
             return self._data_eq(other_object)
         return object.__eq__(self, other_object)
 
-- 
2.43.0


From b2195741a330d5c09bf794ae57f039cb99382440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 005/134] fix: diff of dicts missed keys of the shorter one and
 swapped values

---
 dessia_common/utils/diff.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 043c9a0..01667e1 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -139,21 +139,15 @@ def dict_diff(dict1, dict2, path='#'):
     """ Returns diff between two dictionaries. """
     diff_object = Diff([], [], [])
 
-    dict_ = dict1
-    other_dict = dict2
-    first_object = False
-    if len(dict2) > len(dict1):
-        dict_ = dict2
-        other_dict = dict1
-        first_object = True
-    for key, value in dict_.items():
+    for key, value in dict1.items():
         path_key = f'{path}/{key}'
-        if key not in other_dict:
-            diff_object.missing_attributes.append(MissingAttribute(path=path_key,
-                                                                   missing_in_first_object=first_object))
+        if key not in dict2:
+            diff_object.missing_attributes.append(MissingAttribute(path=path_key, missing_in_first_object=False))
         else:
-            diff_key = diff(value, other_dict[key], path=path_key)
-            diff_object += diff_key
+            diff_object += diff(value, dict2[key], path=path_key)
+    for key in dict2:
+        if key not in dict1:
+            diff_object.missing_attributes.append(MissingAttribute(path=f'{path}/{key}', missing_in_first_object=True))
     return diff_object
 
 
-- 
2.43.0


From 636ed08d5815b8bd346cfa3287a81ae4f52b268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:43 +0000
Subject: [PATCH 006/134] fix: diff of objects reported names and attributes
 excluded from equality

---
 dessia_common/utils/diff.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 01667e1..ea4f1d9 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -121,13 +121,8 @@ def diff(value1, value2, path='#'):
         if value1._data_eq(value2):
             return Diff([], [], [])
 
-        # Use same code snippet as in data_eq
-        eq_dict = value1._serializable_dict()
-        if 'name' in eq_dict:
-            del eq_dict['name']
-
-        other_eq_dict = value2._serializable_dict()
-        return dict_diff(eq_dict, other_eq_dict, path=path)
+        # Compare what data_eq compares
+        return dict_diff(value1._data_eq_dict(), value2._data_eq_dict(), path=path)
 
     if value1 == value2:
         return Diff([], [], [])
-- 
2.43.0


From cdd5878dec25fb623fed8b37f6b13b649d9aa282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 007/134] fix: diff depended on argument order for subtypes and
 was empty for equal attributes of another class

---
 dessia_common/utils/diff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index ea4f1d9..3c405e5 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -7,7 +7,7 @@ from typing import List
 
 from dessia_common import FLOAT_TOLERANCE
 from dessia_common.utils.types import isinstance_base_types
-from dessia_common.utils.helpers import is_sequence
+from dessia_common.utils.helpers import is_sequence, full_classname
 
 
 class DifferentValues:
@@ -101,7 +101,7 @@ def diff(value1, value2, path='#'):
     if is_sequence(value1) and is_sequence(value2):
         return sequence_diff(value1, value2, path=path)
 
-    if not isinstance(value1, type(value2)):
+    if not isinstance(value1, type(value2)) and not isinstance(value2, type(value1)):
         invalid_types.append(DifferentType(path, value1, value2))
         return Diff(diff_values, missing_keys_in_other_object, invalid_types)
 
@@ -118,6 +118,9 @@ def diff(value1, value2, path='#'):
     # Should be object
     if hasattr(value1, '_data_eq'):
         # DessiaObject
+        if full_classname(value1) != full_classname(value2):
+            return Diff([], [], [DifferentType(path, value1, value2)])
+
         if value1._data_eq(value2):
             return Diff([], [], [])
 
-- 
2.43.0


From bf45723b0fc49b7644fa16bb6193af6ec72fb559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:39 +0000
Subject: [PATCH 008/134] fix: diff raised on different classes, files and
 numpy numbers

---
 dessia_common/utils/diff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 3c405e5..bfbdf62 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -4,6 +4,7 @@
 
 import math
 from typing import List
+from numpy import int64, float64
 
 from dessia_common import FLOAT_TOLERANCE
 from dessia_common.utils.types import isinstance_base_types
@@ -101,6 +102,10 @@ def diff(value1, value2, path='#'):
     if is_sequence(value1) and is_sequence(value2):
         return sequence_diff(value1, value2, path=path)
 
+    # Numpy numbers are compared with builtin ones
+    value1 = value1.item() if isinstance(value1, (int64, float64)) else value1
+    value2 = value2.item() if isinstance(value2, (int64, float64)) else value2
+
     if not isinstance(value1, type(value2)) and not isinstance(value2, type(value1)):
         invalid_types.append(DifferentType(path, value1, value2))
         return Diff(diff_values, missing_keys_in_other_object, invalid_types)
@@ -116,7 +121,7 @@ def diff(value1, value2, path='#'):
         return dict_diff(value1, value2, path=path)
 
     # Should be object
-    if hasattr(value1, '_data_eq'):
+    if hasattr(value1, '_data_eq') and not isinstance(value1, type):
         # DessiaObject
         if full_classname(value1) != full_classname(value2):
             return Diff([], [], [DifferentType(path, value1, value2)])
@@ -130,7 +135,8 @@ def diff(value1, value2, path='#'):
     if value1 == value2:
         return Diff([], [], [])
 
-    raise NotImplementedError(f'Undefined type in diff: {type(value1)}')
+    # Classes, files, numpy numbers...
+    return Diff([DifferentValues(path, value1, value2)], [], [])
 
 
 def dict_diff(dict1, dict2, path='#'):
-- 
2.43.0


From 406502c531bd1fb5ce72a9af9bfbb36ba3409131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:23 +0000
Subject: [PATCH 009/134] fix: copies lost the values of keyword-only arguments

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index c5f4a0e..9291779 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -336,7 +336,7 @@ class DessiaObject(SerializableObject):
             _fullargsspec_cache[class_name] = class_argspec
 
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 value = self.__dict__[arg]
                 if hasattr(value, '__copy__'):
@@ -357,7 +357,7 @@ class DessiaObject(SerializableObject):
         if memo is None:
             memo = {}
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 dict_[arg] = deepcopy_value(getattr(self, arg), memo=memo)
         return self.__class__(**dict_)
-- 
2.43.0


From a948733bd8bf7e3de75bb02d2e62fb85dcb43c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:23 +0000
Subject: [PATCH 010/134] fix: deep copies turned tuples into lists

---
 dessia_common/utils/copy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index e07c432..4f8ed0a 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -4,7 +4,7 @@ import copy
 import warnings
 from dessia_common.abstract import CoreDessiaObject
 import dessia_common.files
-from dessia_common.utils.types import is_sequence
+from dessia_common.utils.types import is_sequence, is_tuple
 from dessia_common.schemas.core import is_typing
 
 
@@ -95,6 +95,8 @@ def deepcopy_sequence(seq_value, memo):
     for value in seq_value:
         copied_value = deepcopy_value(value, memo=memo)
         copied_list.append(copied_value)
+    if is_tuple(seq_value):
+        return tuple(copied_list)
     return copied_list
 
 
-- 
2.43.0


From a29007eadffaf8bccc95b91a6c7a18875893ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:37 +0000
Subject: [PATCH 011/134] fix: declared tuples holding pointers, or nested in
 sequences, were read back as lists

---
 dessia_common/serialization.py | 40 +++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 7fa8e8f..3f9709d 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -16,7 +16,7 @@ import dessia_common.errors as dc_err
 from dessia_common.files import StringFile, BinaryFile
 import dessia_common.utils.types as dcty
 from dessia_common.utils.helpers import (full_classname, get_python_class_from_class_name, is_sequence,
-                                         get_in_object_from_path, set_in_object_from_path)
+                                         get_in_object_from_path, set_in_object_from_path, extract_segment_from_object)
 from dessia_common.abstract import CoreDessiaObject
 from dessia_common.typings import InstanceOf, JsonSerializable
 from dessia_common.measures import Measure
@@ -277,9 +277,10 @@ def deserialize(serialized_element, sequence_annotation: str = 'List',
 
 def deserialize_sequence(sequence, annotation=None, global_dict=None, pointers_memo=None, path='#'):
     """ Transform a sequence into an object. """
-    origin, args = dcty.unfold_deep_annotation(typing_=annotation)
-    deserialized_sequence = [deserialize(elt, args, global_dict=global_dict, pointers_memo=pointers_memo,
-                                         path=f'{path}/{ie}') for ie, elt in enumerate(sequence)]
+    origin, _ = dcty.unfold_deep_annotation(typing_=annotation)
+    deserialized_sequence = [deserialize(elt, element_annotation(annotation, ie), global_dict=global_dict,
+                                         pointers_memo=pointers_memo, path=f'{path}/{ie}')
+                             for ie, elt in enumerate(sequence)]
 
     if origin is tuple:
         # Keeping as a tuple
@@ -287,6 +288,32 @@ def deserialize_sequence(sequence, annotation=None, global_dict=None, pointers_m
     return deserialized_sequence
 
 
+def element_annotation(annotation, index: int):
+    """ Annotation of the element at given index of a sequence annotated with given annotation. None if unknown. """
+    origin, args = dcty.unfold_deep_annotation(typing_=annotation)
+    if args and (origin is list or origin is tuple and args[-1] is Ellipsis):
+        return args[0]
+    if origin is tuple and index < len(args):
+        return args[index]
+    return None
+
+
+def annotation_from_path(dict_, path: str):
+    """ Annotation declared, by the class of its owner, for the element at given path of a dict. None if unknown. """
+    element = dict_
+    annotation = None
+    for segment in path.lstrip('#/').split('/'):
+        if is_sequence(element):
+            annotation = element_annotation(annotation, int(segment))
+        elif 'object_class' in element:
+            class_ = get_python_class_from_class_name(element['object_class'])
+            annotation = inspect.getfullargspec(class_).annotations.get(segment, None)
+        else:
+            annotation = None
+        element = extract_segment_from_object(element, segment)
+    return annotation
+
+
 def dict_to_object(dict_, class_=None, force_generic: bool = False, global_dict=None, pointers_memo=None, path='#'):
     """ Transform a dict into an object. """
     class_argspec = None
@@ -666,8 +693,9 @@ def dereference_jsonpointers(dict_):  # , global_dict):
     for node, reference in order:
         if reference is None:
             serialized_element = get_in_object_from_path(object_=dict_, path=node, evaluate_pointers=False)
-            pointers_memo[node] = deserialize(serialized_element=serialized_element, global_dict=dict_,
-                                              pointers_memo=pointers_memo, path=node)
+            pointers_memo[node] = deserialize(serialized_element=serialized_element,
+                                              sequence_annotation=annotation_from_path(dict_, node),
+                                              global_dict=dict_, pointers_memo=pointers_memo, path=node)
         else:
             pointers_memo[node] = pointers_memo[reference]
     return pointers_memo
-- 
2.43.0


From de769df453b1b59d6844cac25c228c0da7f73299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:01 +0000
Subject: [PATCH 012/134] fix: strings naming an importable module, function or
 value were deserialized as that value

---
 dessia_common/utils/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 7242719..061214a 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -37,9 +37,10 @@ def is_classname_transform(string: str) -> Union[type, bool]:
             # If len < 2, there is no module to import from
             try:
                 class_ = get_python_class_from_class_name(string)
-                return class_
-            except (AttributeError, TypeError, ModuleNotFoundError, SyntaxError):
+            except (AttributeError, TypeError, ValueError, ImportError, SyntaxError):
                 return False
+            if isinstance(class_, type) or is_typing(class_):
+                return class_
     return False
 
 
-- 
2.43.0


From be1c4a449a0a5a9e9b0b8c918ebc8006854ded21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 013/134] fix: an attribute of a standalone object shared with
 other places was written twice and read back unshared

---
 dessia_common/serialization.py | 8 +++++++-
 dessia_common/utils/helpers.py | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 3f9709d..e140620 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -239,9 +239,15 @@ def add_references(dict_, memo, id_memo):
     dict_['_references'] = id_memo
 
     # Rewriting dc__refs
-    for _, serialized, id_, object_path in memo.values():
+    for value, (_, serialized, id_, object_path) in memo.items():
         if not object_path.startswith('#/_references') and id_ in id_memo:
             if REF_MARKER not in serialized:
+                if not isinstance(value, SerializableObject):
+                    # Regular objects stay embedded in a referenced owner
+                    owner_path = object_path.rsplit('/', 1)[0]
+                    owner = dict_ if owner_path == '#' else get_in_object_from_path(dict_, owner_path)
+                    if isinstance(owner, dict) and REF_MARKER in owner:
+                        continue
                 set_in_object_from_path(dict_, object_path, {REF_MARKER: f'#/_references/{id_}'})
 
 
diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 513c6d3..253207a 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -185,6 +185,10 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     else:
         last_object = object_
 
+    while evaluate_pointers and isinstance(last_object, dict) and REF_MARKER in last_object:
+        # The owner of the attribute is a reference : the pointed element is to be modified, not the reference itself
+        last_object = get_in_object_from_path(object_, last_object[REF_MARKER])
+
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
     elif isinstance(last_object, dict):
-- 
2.43.0


From a8847689866625313cc9cdf225c8d2f188f9eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:25 +0000
Subject: [PATCH 014/134] fix: iterating over an empty dataset never ended

---
 dessia_common/datatools/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index f8fa454..cfaeb77 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -102,10 +102,10 @@ class Dataset(DessiaObject):
 
         In addition to work as numpy.arrays of dimension `(n,)`, allows to pick a sub-Dataset from a list of indexes.
         """
-        if len(self) == 0:
-            return []
         if isinstance(key, int):
             return self._pick_from_int(key)
+        if len(self) == 0:
+            return []
         if isinstance(key, slice):
             return self._pick_from_slice(key)
         if isinstance(key, list):
-- 
2.43.0


From 864f7cae588ef7ff78e28a747a73cd8ee6719ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 015/134] fix: shallow copy of an object holding a class raised

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 9291779..5e5128e 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -339,7 +339,7 @@ class DessiaObject(SerializableObject):
         for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 value = self.__dict__[arg]
-                if hasattr(value, '__copy__'):
+                if hasattr(value, '__copy__') and not isinstance(value, type):
                     dict_[arg] = value.__copy__()
                 else:
                     dict_[arg] = value
-- 
2.43.0


From 5fb766fbc789a46387844100a90d557a60fe93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 016/134] fix: objects could not be loaded from the text
 streams they are saved to

---
 dessia_common/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 5e5128e..bd864c0 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -264,7 +264,10 @@ class DessiaObject(SerializableObject):
 
         Should be consistent with save_to_stream method.
         """
-        dict_ = json.loads(stream.read().decode('utf-8'))
+        content = stream.read()
+        if not isinstance(content, str):
+            content = content.decode('utf-8')
+        dict_ = json.loads(content)
         return cls.dict_to_object(dict_)
 
     @classmethod
-- 
2.43.0


From 6ddac01d1d427e6d6f9968c0afa8a9348ce5167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 017/134] fix: text files read from a stream lost their class

---
 dessia_common/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/files.py b/dessia_common/files.py
index f20d390..3e546fa 100644
--- a/dessia_common/files.py
+++ b/dessia_common/files.py
@@ -82,7 +82,7 @@ class StringFile(io.StringIO):
     @classmethod
     def from_stream(cls, stream_file):
         """ Get a file from a stream file. """
-        stream = StringFile()
+        stream = cls()
         stream.write(stream_file.read().decode('utf-8'))
         stream.seek(0)
         return stream
-- 
2.43.0


From 4e9562927cf1448c7e6cb1c205f836d0e18611fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 018/134] fix: zipped exports sharing an extension overwrote
 each other and exports with arguments raised

---
 dessia_common/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index bd864c0..637fa84 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -559,12 +559,19 @@ class DessiaObject(SerializableObject):
     def zip_settings(self):
         """ Returns a list of streams that contain different exports of the objects. """
         streams = []
+        filenames = set()
         for export_format in self._export_formats():
             if export_format.extension != "zip":
                 method_name = export_format.method_name
                 stream_class = dcf.StringFile if export_format.text else dcf.BinaryFile
                 stream = stream_class(filename=f"export.{export_format.extension}")
-                getattr(self, method_name)(stream)
+                getattr(self, method_name)(stream, **export_format.args)
+                radical, dot, extension = stream.filename.rpartition(".")
+                while stream.filename in filenames:
+                    # Two files of an archive cannot have the same name
+                    stream.filename = f"{radical}_{len(filenames)}{dot}{extension}"
+                    radical = f"{radical}_{len(filenames)}"
+                filenames.add(stream.filename)
                 streams.append(stream)
         return streams
 
-- 
2.43.0


From 2019c3d63f78cbf56ecfa1b69d825e62e3189760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 019/134] fix: zip export returned its last closed entry
 instead of the archive

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 637fa84..8f13388 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -582,7 +582,7 @@ class DessiaObject(SerializableObject):
         archive.filename = archive_name
         with zipfile.ZipFile(archive, 'w', compression=zipfile.ZIP_DEFLATED) as zip_archive:
             for value in streams:
-                archive = dcf.generate_archive(zip_archive=zip_archive, value=value)
+                dcf.generate_archive(zip_archive=zip_archive, value=value)
         return [archive]
 
     def to_zip(self, filepath: str):
-- 
2.43.0


From c0fa7b13b88b4fe26c231f6d81525527e61b70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 020/134] fix: spreadsheet writer opened its file for reading

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index dcd2755..a2993be 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -262,7 +262,7 @@ class XLSXWriter:
             filepath += '.xlsx'
             print(f"Changing name to {filepath}")
 
-        with open(filepath, 'rb') as file:
+        with open(filepath, 'wb') as file:
             self.save_to_stream(file)
 
     def save_to_stream(self, stream):
-- 
2.43.0


From 65b5fc3ba3b9c7b398dfa254f2770ecad969f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 021/134] fix: block exports of workflow states wrote nothing
 to regular files

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e09bb0a..4459b8e 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2117,9 +2117,9 @@ class WorkflowState(DessiaObject):
                   f"Has the workflow been ran far enough to evaluate this block ?"
             raise WorkflowError(msg)
         export_stream = evaluated_blocks[block][0]  # Only one output to an Export Block
-        if isinstance(stream, StringFile):
+        if isinstance(export_stream, StringFile):
             stream.write(export_stream.getvalue())
-        if isinstance(stream, BinaryFile):
+        if isinstance(export_stream, BinaryFile):
             stream.write(export_stream.getbuffer())
         stream.filename = export_stream.filename
         return export_stream
-- 
2.43.0


From 7ac115cf792f10405820e60017f002b428ccb337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:38 +0000
Subject: [PATCH 022/134] fix: writing through a path to an integer key of a
 dict added a string key instead

---
 dessia_common/utils/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 253207a..13cdf6f 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -192,6 +192,8 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
     elif isinstance(last_object, dict):
+        if last_segment not in last_object and last_segment.isdigit() and int(last_segment) in last_object:
+            last_segment = int(last_segment)
         last_object[last_segment] = value
     else:
         setattr(last_object, last_segment, value)
-- 
2.43.0


From 69015bb3ab46d3ea4851bbdbe72a311c41e971e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:07 +0000
Subject: [PATCH 023/134] fix: deep copies of method, attribute and view types
 lost their class

---
 dessia_common/typings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/typings.py b/dessia_common/typings.py
index b68bdc8..09f91c5 100644
--- a/dessia_common/typings.py
+++ b/dessia_common/typings.py
@@ -31,7 +31,7 @@ class MethodType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return MethodType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     def get_method(self):
         """ Helper to get real method from class_ and method name. """
@@ -71,7 +71,7 @@ class AttributeType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return AttributeType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     @property
     def type_(self):
-- 
2.43.0


From 439246c703a59c4f9640562d191108cf82fe9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:07 +0000
Subject: [PATCH 024/134] fix: Sum block summed its variables instead of their
 values

---
 dessia_common/workflow/blocks.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 632d8e5..9788ff7 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1322,12 +1322,8 @@ class Sum(Block):
         return block
 
     def evaluate(self, values, **kwargs):
-        """
-        Sum input values.
-
-        TODO : This cannot work, we are summing a dictionary
-        """
-        return [sum(values)]
+        """ Sum input values. """
+        return [sum(values[i] for i in self.inputs)]
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-- 
2.43.0


From 3b1ee7ae2f0c331e4d97ebbb1781c686fe1ac427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:35 +0000
Subject: [PATCH 025/134] fix: workflows differing by blocks settings, inputs,
 pipes, steps or output could be equal, or raise when compared

---
 dessia_common/workflow/blocks.py | 23 ++++++++++++++++++++---
 dessia_common/workflow/core.py   | 16 +++++++++++-----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 9788ff7..d5fb7d6 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -98,8 +98,8 @@ class InstantiateModel(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.model_class.__class__.__name__
-        other_classname = other.model_class.__class__.__name__
+        classname = self.model_class.__name__
+        other_classname = other.model_class.__name__
         return super().equivalent(other) and classname == other_classname
 
     @classmethod
@@ -657,7 +657,8 @@ class Filter(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        return super().equivalent(other) and self.filters == other.filters
+        return super().equivalent(other) and self.filters == other.filters \
+            and self.logical_operator == other.logical_operator
 
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Filter':
@@ -706,6 +707,12 @@ class Display(Block):
         self.load_by_default = load_by_default
         self.selector = selector
 
+    def equivalent(self, other: 'Display'):
+        """ Return whether the block is equivalent to the other given or not. """
+        selector = getattr(self.selector, "name", self.selector)
+        other_selector = getattr(other.selector, "name", other.selector)
+        return super().equivalent(other) and selector == other_selector
+
     @property
     def type_(self) -> str:
         """ Get display's type_. """
@@ -1434,6 +1441,12 @@ class Export(Block):
                   Variable(type_=str, default_value=filename, name="Filename")]
         super().__init__(inputs=inputs, outputs=[output], name=name, position=position)
 
+    def equivalent(self, other: 'Export'):
+        """ Return whether the block is equivalent to the other given or not. """
+        same_method = self.method_type.name == other.method_type.name
+        same_file = (self.filename, self.extension, self.text) == (other.filename, other.extension, other.text)
+        return super().equivalent(other) and same_method and same_file
+
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Export':
         """ Override base dict_to_object in order to force custom inputs from workflow builder. """
@@ -1490,6 +1503,10 @@ class Archive(Block):
         inputs.append(Variable(type_=str, default_value=filename, name="Filename"))
         super().__init__(inputs=inputs, outputs=[Variable(name="Archive")], name=name, position=position)
 
+    def equivalent(self, other: 'Archive'):
+        """ Return whether the block is equivalent to the other given or not. """
+        return super().equivalent(other) and self.filename == other.filename
+
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = "#", id_method=True, id_memo=None,
                 **kwargs):
         """ Serialize the block with custom logic. """
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 4459b8e..251519f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -204,10 +204,9 @@ class Block(DessiaObject):
 
         Used by workflow module only.
         """
-        for input_, other_input in zip(self.inputs, other.inputs):
-            if not input_.equivalent(other_input):
-                return False
-        return self.__class__.__name__ == other.__class__.__name__
+        if self.__class__.__name__ != other.__class__.__name__ or len(self.inputs) != len(other.inputs):
+            return False
+        return all(i.equivalent(other_i) for i, other_i in zip(self.inputs, other.inputs))
 
     def _docstring(self):
         """ Base function for sub model docstring computing. """
@@ -483,9 +482,16 @@ class Workflow(Block):
         if hash(self) != hash(other_object) or not Block.equivalent(self, other_object):
             return False
 
+        if len(self.blocks) != len(other_object.blocks) or len(self.pipes) != len(other_object.pipes) \
+                or len(self.steps) != len(other_object.steps):
+            return False
+
+        if self.variable_indices(self.output) != other_object.variable_indices(other_object.output):
+            return False
+
         # TODO: temp , reuse graph to handle block order!!!!
         for block1, block2 in zip(self.blocks, other_object.blocks):
-            if not block1.equivalent(block2):
+            if block1.__class__ != block2.__class__ or not block1.equivalent(block2):
                 return False
 
         if not self._equivalent_pipes(other_object):
-- 
2.43.0


From 2d14f6d686b5134f0fe3d7a304390f71c61a39c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:35 +0000
Subject: [PATCH 026/134] fix: workflows with steps that display nothing could
 not be compared, and different steps could be equal

---
 dessia_common/workflow/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 251519f..679e0c3 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -300,14 +300,15 @@ class Step:
 
     def __hash__(self):
         return (hash(self.label) + 43 * len(self.inputs) + 19 * len(self.group_inputs) + hash(self.display_setting)
-                + len(self.documentation) + self.display_variable_index)
+                + len(self.documentation) + hash(self.display_variable_index))
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-        same_inputs = all(i.equivalent(other_i) for i, other_i in zip(self.inputs, other.inputs))
+        same_lengths = (len(self.inputs), len(self.group_inputs)) == (len(other.inputs), len(other.group_inputs))
+        same_inputs = same_lengths and all(i.equivalent(other_i) for i, other_i in zip(self.inputs, other.inputs))
         same_group = all(i.equivalent(other_i) for i, other_i in zip(self.group_inputs, other.group_inputs))
         same_display = self.display_setting == other.display_setting
-        same_documentation = len(self.documentation) == len(other.documentation)
+        same_documentation = self.documentation == other.documentation
         same_variable = self.display_variable_index == other.display_variable_index
         return same_label and same_inputs and same_group and same_display and same_documentation and same_variable
 
-- 
2.43.0


From 121a6d15a24f710e72d0074b8c2746f6d939a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:10 +0000
Subject: [PATCH 027/134] fix: copies of workflow blocks lost labels, default
 values and locks of their variables, and shared plot settings

---
 dessia_common/workflow/blocks.py | 12 ++++++++----
 dessia_common/workflow/core.py   | 25 ++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index d5fb7d6..57a09e2 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -860,8 +860,10 @@ class MultiPlot(Display):
                          selector=selector, position=position)
 
     def __deepcopy__(self, memo=None):
-        return MultiPlot(selector_name=self.selector.name, attributes=self.attributes,
-                         load_by_default=self.load_by_default, name=self.name, position=self.position)
+        block = MultiPlot(selector_name=self.selector.name, attributes=list(self.attributes),
+                          load_by_default=self.load_by_default, name=self.name, position=self.position)
+        self.copy_variables_config(block=block, memo=memo)
+        return block
 
     def equivalent(self, other):
         """ Return whether if the block is equivalent to the other given. """
@@ -956,8 +958,10 @@ class MultiObject(Display):
         self.inputs[0].name = "Sequence"
 
     def __deepcopy__(self, memo=None):
-        return MultiObject(selector_name=self.selector.name, configurations=self.configurations,
-                           load_by_default=self.load_by_default, name=self.name, position=self.position)
+        block = MultiObject(selector_name=self.selector.name, configurations=[c.copy() for c in self.configurations],
+                            load_by_default=self.load_by_default, name=self.name, position=self.position)
+        self.copy_variables_config(block=block, memo=memo)
+        return block
 
     def equivalent(self, other: 'MultiObject'):
         """ Return whether if the block is equivalent to the other given. """
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 679e0c3..1d0f6dd 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -147,11 +147,21 @@ class Variable(DessiaObject):
         if memo is None:
             memo = {}
         default_value = deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
-        variable = Variable(type_=self.type_, default_value=default_value, name=self.name)
+        variable = Variable(type_=self.type_, default_value=default_value, name=self.name, label=self.label,
+                            position=self.position)
         if self.locked:
             variable.lock()
         return variable
 
+    def copy_config(self, variable: 'Variable', memo=None):
+        """ Copy user config (name, label, position, default value and lock) to another variable. """
+        config = self.copy(deep=True, memo=memo)
+        variable.name = config.name
+        variable.label = config.label
+        variable.position = config.position
+        variable.default_value = config.default_value
+        variable._locked = self._locked
+
     def _to_script(self) -> ToScriptElement:
         script = self._get_to_script_elements()
         script.declaration = f"{self.__class__.__name__}({script.declaration})"
@@ -190,6 +200,19 @@ class Block(DessiaObject):
         """ Overwrite default method to force use_pointers to true. """
         return super().to_dict(use_pointers=False, memo=memo, path=path, id_method=id_method, id_memo=id_memo, **kwargs)
 
+    def __deepcopy__(self, memo=None):
+        """ Generic deep copy, keeping config of inputs and outputs which are generated by the block itself. """
+        if memo is None:
+            memo = {}
+        block = DessiaObject.__deepcopy__(self, memo=memo)
+        self.copy_variables_config(block=block, memo=memo)
+        return block
+
+    def copy_variables_config(self, block: 'Block', memo=None):
+        """ Copy the config of all variables to the ones of another block of same kind. """
+        for variable, copied_variable in zip(self.inputs + self.outputs, block.inputs + block.outputs):
+            variable.copy_config(copied_variable, memo=memo)
+
     def equivalent_hash(self):
         """
         Custom hash of block that doesn't overwrite __hash__ as we do not want to lose python default equality behavior.
-- 
2.43.0


From 6c498b807baf5d8419252966d027be42ebb6ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:10 +0000
Subject: [PATCH 028/134] fix: copies of workflows lost description,
 documentation, detached variables and grouped inputs of previous steps

---
 dessia_common/workflow/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 1d0f6dd..f3a6dca 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -582,12 +582,11 @@ class Workflow(Block):
 
         # Steps need a workflow that has pipe in order to handle NBVs and detached variables
         steps = [self.copy_step(copied_workflow=piped_workflow, step=s) for s in self.steps]
-        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, name=self.name)
-
-        # Locking variables
-        for i, input_ in enumerate(self.inputs):
-            if input_.locked:
-                workflow.inputs[i].lock(input_.default_value)
+        detached_variables = [v.copy() for v in self.detached_variables if v is not NAME_VARIABLE]
+        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps,
+                            detached_variables=detached_variables, description=self.description,
+                            documentation=self.documentation, name=self.name)
+        workflow.spare_inputs = [workflow.inputs[self.inputs.index(i)] for i in self.spare_inputs]
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
@@ -597,8 +596,9 @@ class Workflow(Block):
             input_index = self.variable_indices(input_)
             copied_input = copied_workflow.variable_from_index(input_index)
             inputs.append(copied_input)
-            if input_ in step.group_inputs:
-                group_inputs.append(copied_input)
+        for input_ in step.group_inputs:
+            input_index = self.variable_indices(input_)
+            group_inputs.append(copied_workflow.variable_from_index(input_index))
         copied_step = Step(label=step.label, inputs=inputs, group_id=step.group_id, documentation=step.documentation,
                            display_variable_index=step.display_variable_index, id_=step.id_)
         copied_step.group_inputs = group_inputs
-- 
2.43.0


From e13cfbcf4ae86b4a7455392afeb3c80ae8a8ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:11 +0000
Subject: [PATCH 029/134] fix: deserialized workflows lost detached variables
 and locks of their nonblock variables

---
 dessia_common/workflow/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f3a6dca..e938cf0 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -835,8 +835,9 @@ class Workflow(Block):
         else:
             steps = None
         return cls(blocks=init_workflow.blocks, pipes=init_workflow.pipes, output=init_workflow.output,
-                   steps=steps, description=dict_.get("description", ""),
-                   documentation=dict_.get("documentation", ""), name=dict_["name"])
+                   steps=steps, detached_variables=init_workflow.detached_variables,
+                   description=dict_.get("description", ""), documentation=dict_.get("documentation", ""),
+                   name=dict_["name"])
 
     def dict_to_arguments(self, dict_: JsonSerializable, method: str, global_dict=None, pointers_memo=None, path='#'):
         """ Process a JSON of arguments and deserialize them. """
@@ -2336,6 +2337,9 @@ def initialize_workflow(dict_, global_dict, pointers_memo) -> Workflow:
     if 'nonblock_variables' in dict_:
         nonblock_variables = [deserialize(serialized_element=d, global_dict=global_dict, pointers_memo=pointers_memo)
                               for d in dict_['nonblock_variables']]
+        for variable, variable_dict in zip(nonblock_variables, dict_['nonblock_variables']):
+            if variable_dict.get("locked", False):
+                variable.lock()
     else:
         nonblock_variables = []
 
-- 
2.43.0


From bffab07e99ff8e04c5f52575fccb15c5b17be381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:11 +0000
Subject: [PATCH 030/134] fix: method dict of workflows with default values
 raised

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e938cf0..66a0664 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -865,7 +865,7 @@ class Workflow(Block):
         return {i: input_.default_value for i, input_ in enumerate(self.inputs) if input_.has_default_value}
 
     def _run_dict(self) -> JsonSerializable:
-        return {str(self.variables.index(i)): serialize(v) for i, v in self.default_values.items()}
+        return {str(i): serialize(v) for i, v in self.default_values.items()}
 
     def method_dict(self, method_name: str = None) -> Dict:
         """ Wrapper method to get dictionaries of run method. """
-- 
2.43.0


From 681912f3c4334f9583d1da57684309fca9aeac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:08 +0000
Subject: [PATCH 031/134] fix: copies of workflow states shared their computed
 values with the original

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 66a0664..2afb0f5 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1713,7 +1713,7 @@ class WorkflowState(DessiaObject):
         for pipe, value in self.values.items():
             variable_indices = self.workflow.pipe_variable_indices(pipe)
             copied_pipe = workflow.pipe_from_variable_indices(*variable_indices)
-            values[copied_pipe] = value
+            values[copied_pipe] = deepcopy_value(value=value, memo=memo)
 
         activated_items = {}
         for item, value in self.activated_items.items():
-- 
2.43.0


From cd8b23cc75920d15bc1bd8fa783df29a6cfa6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:08 +0000
Subject: [PATCH 032/134] fix: workflow states saved before their end could not
 be continued because values to be consumed were not saved

---
 dessia_common/workflow/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 2afb0f5..b3910e5 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1820,7 +1820,9 @@ class WorkflowState(DessiaObject):
         # Values
         values = {}
         for pipe, value in self.values.items():
-            if not is_file_or_file_sequence(value) and pipe in self.workflow.memorized_pipes:
+            # Values that are still to be consumed are needed to continue the run
+            needed = pipe in self.workflow.memorized_pipes or not self._is_pipe_consumed(pipe)
+            if not is_file_or_file_sequence(value) and needed:
                 pipe_index = self.workflow.pipes.index(pipe)
                 if use_pointers:
                     try:
@@ -1848,6 +1850,12 @@ class WorkflowState(DessiaObject):
             add_references(dict_, memo, id_memo)
         return dict_
 
+    def _is_pipe_consumed(self, pipe: Pipe) -> bool:
+        """ Return whether the block at the end of the pipe has already been evaluated. """
+        if self.workflow.is_variable_nbv(pipe.output_variable):
+            return True
+        return self.activated_items[self.workflow.block_from_variable(pipe.output_variable)]
+
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, global_dict=None, pointers_memo: Dict[str, Any] = None,
                        path: str = "#", **kwargs) -> 'WorkflowState':
-- 
2.43.0


From e9108cab1d11e9c7b3c56ed39bdee4d5a877f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:08 +0000
Subject: [PATCH 033/134] fix: evaluating next block of a workflow state
 evaluated the same secondary block forever

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b3910e5..43e2d9a 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1982,7 +1982,8 @@ class WorkflowState(DessiaObject):
     def evaluate_next_block(self, progress_callback=lambda x: None) -> Optional[Block]:
         """ Evaluate a block. """
         self.activate_inputs()
-        blocks = self._activable_blocks()
+        # Secondary blocks are always activable
+        blocks = [b for b in self._activable_blocks() if not self.activated_items[b]]
         if blocks:
             block_index = self.workflow.blocks.index(blocks[0])
             self.block_evaluation(block_index, progress_callback=progress_callback)
-- 
2.43.0


From 999e1f6c3bcbf13e4f17a4b7c49ef6b26a3cc0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:08 +0000
Subject: [PATCH 034/134] fix: running a workflow again and finding an export
 format of a workflow state raised

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 43e2d9a..65c2a53 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2141,7 +2141,7 @@ class WorkflowState(DessiaObject):
     def export_format_from_selector(self, selector: str):
         """ Get Workflow State format from given selector. """
         for export_format in self.workflow.blocks_export_formats:
-            if export_format["selector"] == selector:
+            if export_format.selector == selector:
                 return export_format
         raise ValueError(f"No block defines an export with the selector '{selector}'")
 
@@ -2237,7 +2237,7 @@ class WorkflowRun(WorkflowState):
         """ Get display settings from given selector. """
         return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
 
-    def run_again(self, input_values, progress_callback=None, name=None):
+    def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
-- 
2.43.0


From 81a88f8585d20ac3ad1ec00012508baf9814e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:08 +0000
Subject: [PATCH 035/134] fix: rejected edits of workflow steps duplicated,
 moved or lost inputs and steps

---
 dessia_common/workflow/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 65c2a53..aeb95e9 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1456,6 +1456,8 @@ class Workflow(Block):
 
     def change_inputs_step(self, input_indices: List[int], new_step_index: int):
         """ Callable from frontend. """
+        for input_index in input_indices:
+            self.inputs[input_index]  # Raises before changing anything if any of the inputs does not exist
         for input_index in input_indices:
             self.change_input_step(input_index, new_step_index)
         return self.method_schemas["run"]
@@ -1463,16 +1465,18 @@ class Workflow(Block):
     def remove_input_from_step(self, input_index: int):
         """ Callable from frontend. """
         input_ = self.inputs[input_index]
-        self.spare_inputs.append(input_)
         current_step = self.find_input_step(input_)
+        if current_step is None:
+            raise ValueError(f"Input '{input_.name}', labelled '{input_.label}' does not belong to any step.")
         current_step.inputs.remove(input_)
+        self.spare_inputs.append(input_)
         return self.method_schemas["run"]
 
     def reorder_step_inputs(self, step_index: int, order: list[int]):
         """ Callable from frontend. """
         step = self.steps[step_index]
         step_input_indices = [self.input_index(v) for v in step.inputs]
-        if set(step_input_indices) != set(order):
+        if sorted(step_input_indices) != sorted(order):
             raise ValueError(f"Reordering inputs of step '{step.label}' failed. "
                              f"Given order '{order}' does not match step inputs of indices '{step_input_indices}'")
         step.inputs = [self.inputs[i] for i in order]
@@ -1500,6 +1504,8 @@ class Workflow(Block):
                              f"It should be of length '{len(self.steps)}' ")
         if len(set(order)) != len(self.steps):
             raise ValueError(f"Duplicated indices found in given order '{order}'")
+        if sorted(order) != list(range(len(self.steps))):
+            raise ValueError(f"Given order '{order}' does not match steps indices")
         self.steps = [self.steps[i] for i in order]
         return self.method_schemas["run"]
 
@@ -1529,6 +1535,8 @@ class Workflow(Block):
     def add_step_display(self, variable_index: int, step_index: int, selector: str):
         """ Callable from frontend. """
         variable = self.variables[variable_index]
+        display_setting = display_settings_from_selector(display_settings=variable.available_display_settings,
+                                                         selector=selector)
         upstream_inputs = self.upstream_inputs(variable)
         previous_step_inputs = [input_ for step in self.steps[:step_index] for input_ in step.inputs]
         for input_ in upstream_inputs:
@@ -1537,8 +1545,6 @@ class Workflow(Block):
             index = self.input_index(input_)
             self.change_input_step(input_index=index, new_step_index=step_index)
         step = self.steps[step_index]
-        display_setting = display_settings_from_selector(display_settings=variable.available_display_settings,
-                                                         selector=selector)
         step.add_display_setting(display_setting=display_setting, inputs=upstream_inputs, variable_index=variable_index)
         return self.method_schemas["run"]
 
-- 
2.43.0


From 5eac03fbba67677b3dddb1da23d079336e82d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:02 +0000
Subject: [PATCH 036/134] fix: scripts of Filter, SetModelAttribute,
 ConcatenateStrings and deserialized Export blocks were not valid or
 incomplete

---
 dessia_common/workflow/blocks.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 57a09e2..af71944 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -684,7 +684,7 @@ class Filter(Block):
         filter_variables = [f"DessiaFilter("
                             f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
                             f"bound={f.bound}, name='{f.name}')" for f in self.filters]
-        filters = f"[{','.join(filter_variables)}"
+        filters = f"[{', '.join(filter_variables)}]"
         script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
@@ -1300,7 +1300,10 @@ class SetModelAttribute(Block):
         script = f"SetModelAttribute(attribute_type=AttributeType(" \
                  f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
                  f", {self.base_script()})"
-        return ToScriptElement(declaration=script, imports=[self.full_classname])
+        imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
+                   full_classname(object_=self.attribute_type.class_, compute_for="class"),
+                   self.full_classname]
+        return ToScriptElement(declaration=script, imports=imports)
 
 
 class Sum(Block):
@@ -1410,8 +1413,7 @@ class ConcatenateStrings(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ConcatenateStrings(number_elements={self.number_elements}, " \
-                 f"separator='{self.separator}', " \
-                 f"name='{self.name}')"
+                 f"separator='{self.separator}', {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1454,7 +1456,7 @@ class Export(Block):
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Export':
         """ Override base dict_to_object in order to force custom inputs from workflow builder. """
-        method_type = ClassMethodType.dict_to_object(dict_["method_type"])
+        method_type = MethodType.dict_to_object(dict_["method_type"])
         block = cls(method_type=method_type, text=dict_["text"], extension=dict_["extension"],
                     filename=dict_["filename"], name=dict_["name"], position=dict_["position"])
         block.deserialize_variables(dict_)
-- 
2.43.0


From 450a196571010e107c76a2e55a91c90291879c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:02 +0000
Subject: [PATCH 037/134] fix: documentation of a sub workflow overwrote the
 one of its parent in scripts

---
 dessia_common/workflow/blocks.py | 6 ++++--
 dessia_common/workflow/core.py   | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index af71944..b8897d4 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -444,7 +444,8 @@ class WorkflowBlock(Block):
         script = f"WorkflowBlock(workflow={prefix}workflow, {self.base_script()})"
 
         imports = workflow_script.imports + [self.full_classname]
-        return ToScriptElement(declaration=script, before_declaration=script_workflow, imports=imports)
+        return ToScriptElement(declaration=script, before_declaration=script_workflow, imports=imports,
+                               imports_as_is=workflow_script.imports_as_is)
 
 
 class ForEach(Block):
@@ -523,7 +524,8 @@ class ForEach(Block):
                          f"{self.base_script()})"
 
         imports = wfblock_script_elements.imports + [self.full_classname]
-        return ToScriptElement(declaration=foreach_script, before_declaration=wfblock_script, imports=imports)
+        return ToScriptElement(declaration=foreach_script, before_declaration=wfblock_script, imports=imports,
+                               imports_as_is=wfblock_script_elements.imports_as_is)
 
 
 class Unpacker(Block):
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index aeb95e9..065b255 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1358,11 +1358,11 @@ class Workflow(Block):
                       f"{nbvs_str}\n" \
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
-                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation=documentation," \
+                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation={prefix}documentation," \
                       f" name=\"{self.name}\")\n"
 
         imports.append(self.full_classname)
-        full_script = f'documentation = """{self.documentation}"""\n\n' + full_script
+        full_script = f'{prefix}documentation = """{self.documentation}"""\n\n' + full_script
         return ToScriptElement(declaration=full_script, imports=imports, imports_as_is=imports_as_is)
 
     def to_script(self) -> str:
-- 
2.43.0


From 7ea35f94b79d0bedf45c9ab8d994fd0dfa807291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:59 +0000
Subject: [PATCH 038/134] fix: scripts of workflows whose names, documentation
 or settings hold quotes, backslashes or new lines were not valid

---
 dessia_common/workflow/blocks.py | 34 +++++++++++++++-----------------
 dessia_common/workflow/core.py   |  9 +++++----
 dessia_common/workflow/utils.py  | 12 +++++++++++
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index b8897d4..2f77063 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -19,7 +19,7 @@ from dessia_common.utils.helpers import (concatenate, full_classname, get_python
 from dessia_common.breakdown import attrmethod_getter
 from dessia_common.exports import ExportFormat
 from dessia_common.workflow.core import Block, Variable, Workflow
-from dessia_common.workflow.utils import ToScriptElement
+from dessia_common.workflow.utils import ToScriptElement, string_to_script
 import plot_data as pd
 
 T = TypeVar("T")
@@ -684,8 +684,8 @@ class Filter(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         filter_variables = [f"DessiaFilter("
-                            f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
-                            f"bound={f.bound}, name='{f.name}')" for f in self.filters]
+                            f"attribute={f.attribute!r}, comparison_operator='{f.comparison_operator}', "
+                            f"bound={f.bound!r}, name={f.name!r})" for f in self.filters]
         filters = f"[{', '.join(filter_variables)}]"
         script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
 
@@ -759,21 +759,21 @@ class Display(Block):
 
     def to_script_selector(self) -> ToScriptElement:
         """ Write Block's Selector config into a chunk of script. """
-        script = f"{self.selector_class_name}(name='{self.name}')"
+        script = f"{self.selector_class_name}(name={self.name!r})"
         selector_class_ = full_classname(self.selector.class_, compute_for="class")
         selector_class_name = f"{self.selector.__module__}.{self.selector_class_name}"
         return ToScriptElement(declaration=script, imports=[selector_class_, selector_class_name])
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", load_by_default={self.load_by_default}, position={self.position}"
+        return f"name={string_to_script(self.name)}, load_by_default={self.load_by_default}, position={self.position}"
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         imports = [self.full_classname]
         script_selector = self.to_script_selector()
         script = f"{self.display_class_name}(selector={self.selector_class_name}(" \
-                 f"class_={self.selector.class_.__name__}, name='{self.selector.name}')" \
+                 f"class_={self.selector.class_.__name__}, name={self.selector.name!r})" \
                  f", {self.base_script()})"
 
         imports.extend(script_selector.imports)
@@ -902,7 +902,7 @@ class MultiPlot(Display):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"MultiPlot(selector_name='{self.selector.name}', attributes={self.attributes}, {self.base_script()})"
+        script = f"MultiPlot(selector_name={self.selector.name!r}, attributes={self.attributes}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = '#',
@@ -993,7 +993,7 @@ class MultiObject(Display):
         imports = [c.full_classname for c in self.configurations] + [self.full_classname]
         configurations = [f"{c._to_script()}" for c in self.configurations]
         script = ("MultiObject("
-                  f"selector_name='{self.selector.name}',"
+                  f"selector_name={self.selector.name!r},"
                   f" configurations=[{', '.join(configurations)}],"
                   f" {self.base_script()})")
         return ToScriptElement(declaration=script, imports=imports)
@@ -1204,7 +1204,7 @@ class ModelAttribute(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"ModelAttribute(attribute_name='{self.attribute_name}', {self.base_script()})"
+        script = f"ModelAttribute(attribute_name={self.attribute_name!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
    
@@ -1251,7 +1251,7 @@ class GetModelAttribute(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"GetModelAttribute(attribute_type=AttributeType(" \
-                 f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
+                 f"{self.attribute_type.class_.__name__}, name={string_to_script(self.attribute_type.name)})" \
                  f", {self.base_script()})"
         imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
                    full_classname(object_=self.attribute_type.class_, compute_for="class"),
@@ -1300,7 +1300,7 @@ class SetModelAttribute(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"SetModelAttribute(attribute_type=AttributeType(" \
-                 f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
+                 f"{self.attribute_type.class_.__name__}, name={string_to_script(self.attribute_type.name)})" \
                  f", {self.base_script()})"
         imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
                    full_classname(object_=self.attribute_type.class_, compute_for="class"),
@@ -1415,7 +1415,7 @@ class ConcatenateStrings(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ConcatenateStrings(number_elements={self.number_elements}, " \
-                 f"separator='{self.separator}', {self.base_script()})"
+                 f"separator={self.separator!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1484,7 +1484,7 @@ class Export(Block):
         """ Write block config into a chunk of script. """
         script = f"Export(method_type=MethodType(" \
                  f"{self.method_type.class_.__name__}, '{self.method_type.name}')" \
-                 f", filename='{self.filename}', extension='{self.extension}'" \
+                 f", filename={self.filename!r}, extension={self.extension!r}" \
                  f", text={self.text}, {self.base_script()})"
 
         imports = [self.full_classname, full_classname(object_=self.method_type, compute_for="instance"),
@@ -1551,7 +1551,7 @@ class Archive(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"Archive(number_exports={self.number_exports}, filename='{self.filename}', {self.base_script()})"
+        script = f"Archive(number_exports={self.number_exports}, filename={self.filename!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1581,8 +1581,7 @@ class ScatterView(PlotDataView):
                           elements=samples, name=self.name)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=('{attributes}'), name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={tuple(self.attributes)!r}, name={self.name!r})"
 
 
 class ParallelView(PlotDataView):
@@ -1596,5 +1595,4 @@ class ParallelView(PlotDataView):
         return pd.ParallelPlot(elements=samples, disposition="horizontal", axes=self.attributes)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=['{attributes}'], name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={self.attributes!r}, name={self.name!r})"
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 065b255..7761418 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -35,6 +35,7 @@ import dessia_common.templates
 from dessia_common.serialization import (deserialize, serialize_with_pointers, serialize, update_pointers_data,
                                          add_references, deserialize_argument)
 from dessia_common.workflow.utils import (ToScriptElement, blocks_to_script, nonblock_variables_to_script,
+                                          string_to_script, documentation_to_script,
                                           update_imports, generate_default_value)
 
 
@@ -172,7 +173,7 @@ class Variable(DessiaObject):
     def _get_to_script_elements(self):
         schema = get_schema(annotation=self.type_, attribute=SchemaAttribute(self.name))
         imports = schema.get_import_names(import_names=[])
-        declaration = f"name='{self.name}', label='{self.label}', position={self.position}," \
+        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}," \
                       f" type_={schema.pretty_annotation}"
         return ToScriptElement(declaration=declaration, imports=imports, imports_as_is=[])
 
@@ -247,7 +248,7 @@ class Block(DessiaObject):
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", position={self.position}"
+        return f"name={string_to_script(self.name)}, position={self.position}"
 
     def evaluate(self, values, **kwargs):
         """ Not implemented for abstract block class 'evaluate' method. """
@@ -1359,10 +1360,10 @@ class Workflow(Block):
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
                       f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation={prefix}documentation," \
-                      f" name=\"{self.name}\")\n"
+                      f" name={string_to_script(self.name)})\n"
 
         imports.append(self.full_classname)
-        full_script = f'{prefix}documentation = """{self.documentation}"""\n\n' + full_script
+        full_script = f"{prefix}documentation = {documentation_to_script(self.documentation)}\n\n" + full_script
         return ToScriptElement(declaration=full_script, imports=imports, imports_as_is=imports_as_is)
 
     def to_script(self) -> str:
diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 5e7fe09..85afef9 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Utilities for workflows. """
 
+import json
 from typing import List, Dict
 
 from dessia_common.schemas.core import get_schema, SchemaAttribute
@@ -48,6 +49,17 @@ class ToScriptElement:
         return imports_dict
 
 
+def string_to_script(text: str) -> str:
+    """ Write a string as a double-quoted python literal. """
+    return json.dumps(str(text), ensure_ascii=False)
+
+
+def documentation_to_script(documentation: str) -> str:
+    """ Write a documentation as a triple-quoted python literal, keeping its lines. """
+    escaped = documentation.replace("\\", "\\\\").replace('"', '\\"').replace("\r", "\\r")
+    return f'"""{escaped}"""'
+
+
 def blocks_to_script(blocks, prefix: str, imports):
     """ Set Blocks to script. """
     blocks_str = ""
-- 
2.43.0


From 6c04310ac706049c6e1657a2e4e45cdb108d3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:21 +0000
Subject: [PATCH 039/134] fix: scripts of workflows with locked inputs lost the
 locked values

---
 dessia_common/workflow/utils.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 85afef9..9cd4450 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -3,6 +3,7 @@
 """ Utilities for workflows. """
 
 import json
+from ast import literal_eval
 from typing import List, Dict
 
 from dessia_common.schemas.core import get_schema, SchemaAttribute
@@ -60,6 +61,16 @@ def documentation_to_script(documentation: str) -> str:
     return f'"""{escaped}"""'
 
 
+def lock_to_script(variable) -> str:
+    """ Write the call that locks given variable, with its value if it can be written as a literal. """
+    try:
+        value = repr(variable.default_value)
+        literal_eval(value)
+    except (ValueError, SyntaxError):
+        value = ""
+    return f"lock({value})"
+
+
 def blocks_to_script(blocks, prefix: str, imports):
     """ Set Blocks to script. """
     blocks_str = ""
@@ -73,7 +84,7 @@ def blocks_to_script(blocks, prefix: str, imports):
         blocks_str += f"{block_name} = {block_script.declaration}\n"
         for i, input_ in enumerate(block.inputs):
             if input_.locked:
-                blocks_str += f"{block_name}.inputs[{i}].lock()\n"
+                blocks_str += f"{block_name}.inputs[{i}].{lock_to_script(input_)}\n"
         block_names.append(block_name)
     blocks_str += f"{prefix}blocks = [{', '.join(block_names)}]\n"
     return blocks_str
@@ -87,6 +98,8 @@ def nonblock_variables_to_script(nonblock_variables, prefix, imports, imports_as
         imports.extend(nbv_script.imports)
         imports_as_is.extend(nbv_script.imports_as_is)
         nbvs_str += f"{prefix}variable_{nbv_index} = {nbv_script.declaration}\n"
+        if nbv.locked and lock_to_script(nbv) != "lock()":
+            nbvs_str += f"{prefix}variable_{nbv_index}.{lock_to_script(nbv)}\n"
     return nbvs_str
 
 
-- 
2.43.0


From cce7a4bb9ceb82941c29d2c152a7b449e3b54b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:43 +0000
Subject: [PATCH 040/134] fix: scripts of workflow runs gave wrong values to
 inputs following locked ones and lost those named as sub workflow ones

---
 dessia_common/workflow/core.py | 41 +++++++++++++---------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 7761418..88272e3 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2249,38 +2249,27 @@ class WorkflowRun(WorkflowState):
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
 
-    def _split_input_values(self):
-        """ Split the input values for blocks and non-block variables. """
-        nbv_values = [self.input_values[i] for i, v in enumerate(self.workflow.inputs) if
-                      v in self.workflow.nonblock_variables]
-        block_values = [self.input_values[i] for i, v in enumerate(self.workflow.inputs) if
-                        v not in self.workflow.nonblock_variables]
-        return nbv_values, block_values
-
     def _to_script(self, workflow_script):
         """ Computes elements for a to_script interpretation. """
         input_str = ""
         default_value = ""
         add_import = []
 
-        nbv_values, block_values = self._split_input_values()
-
-        # Blocks
-        index_ = 0
-        for j, block in enumerate(self.workflow.blocks):
-            for i, input_ in enumerate(block.inputs):
-                input_key = f"block_{j}.inputs[{i}]"
-                if input_key not in workflow_script.declaration:
-                    input_str += f"    workflow.input_index({input_key}): value_{j}_{i},\n"
-                    default_value += generate_default_value(block_values[index_], j, i)
-                    index_ += 1
-                    add_import.extend(update_imports(input_.type_, input_.name))
-
-        # NBVs
-        for k, nbv in enumerate(self.workflow.nonblock_variables):
-            input_str += f"    workflow.input_index(variable_{k}): value_{k},\n"
-            default_value += generate_default_value(nbv_values[k], k)
-            add_import.extend(update_imports(nbv.type_, nbv.name))
+        for index, input_ in enumerate(self.workflow.inputs):
+            if input_.locked or index not in self.input_values:
+                continue
+            variable_index = self.workflow.variable_indices(input_)
+            if self.workflow.is_variable_nbv(input_):
+                input_key = f"variable_{variable_index}"
+                indices = (variable_index,)
+            else:
+                block_index, _, port_index = variable_index
+                input_key = f"block_{block_index}.inputs[{port_index}]"
+                indices = (block_index, port_index)
+            value_name = "_".join(str(i) for i in indices)
+            input_str += f"    workflow.input_index({input_key}): value_{value_name},\n"
+            default_value += generate_default_value(self.input_values[index], *indices)
+            add_import.extend(update_imports(input_.type_, input_.name))
 
         return input_str, default_value, add_import
 
-- 
2.43.0


From 71e3e953f69321a8e588e416a2fe787683aafa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:11 +0000
Subject: [PATCH 041/134] fix: progress reported to the callback of a workflow
 run exceeded 1 and went backwards

---
 dessia_common/workflow/core.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 88272e3..78c5af7 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2108,10 +2108,6 @@ class WorkflowState(DessiaObject):
         output_values = block.evaluate(local_values, **kwargs)
         self.execution_info.after_block_memory_usage.append((block, int(psutil.Process().memory_info().vms)))
         self._activate_block(block=block, output_values=output_values)
-
-        # Updating progress
-        if progress_callback is not None:
-            progress_callback(self.progress)
         return output_values
 
     def activate_inputs(self, check_all_inputs=False):
-- 
2.43.0


From fab8c3ac62729a4360d7a0d73a3559a24021c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:20 +0000
Subject: [PATCH 042/134] fix: types of detached variables, and of nonblock
 variables piped to untyped inputs, were lost by deserialization

---
 dessia_common/workflow/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 78c5af7..77bc429 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -19,8 +19,8 @@ from dessia_common.graph import get_column_by_node
 from dessia_common.core import DessiaObject, display_settings_from_selector, stringify_dict_keys
 
 from dessia_common.schemas.core import (get_schema, FAILED_ATTRIBUTE_PARSING, EMPTY_PARSED_ATTRIBUTE, SchemaStep,
-                                        serialize_annotation, pretty_annotation, UNDEFINED, Schema, SchemaAttribute,
-                                        SchemaAttributeGroup)
+                                        serialize_annotation, deserialize_annotation, pretty_annotation, UNDEFINED, Schema,
+                                        SchemaAttribute, SchemaAttributeGroup)
 from dessia_common.utils.types import recursive_type, typematch, is_file_or_file_sequence
 from dessia_common.utils.copy import deepcopy_value
 from dessia_common.utils.diff import choose_hash
@@ -2339,6 +2339,8 @@ def initialize_workflow(dict_, global_dict, pointers_memo) -> Workflow:
         nonblock_variables = [deserialize(serialized_element=d, global_dict=global_dict, pointers_memo=pointers_memo)
                               for d in dict_['nonblock_variables']]
         for variable, variable_dict in zip(nonblock_variables, dict_['nonblock_variables']):
+            if isinstance(variable.type_, str):
+                variable.type_ = deserialize_annotation(variable.type_)
             if variable_dict.get("locked", False):
                 variable.lock()
     else:
@@ -2374,7 +2376,7 @@ def deserialize_pipes(pipes_dict, blocks, nonblock_variables, connected_nbvs):
             ib2, _, ip2 = target
             variable2 = blocks[ib2].inputs[ip2]
 
-        if connected_nbvs.get(variable1, False):
+        if connected_nbvs.get(variable1, False) and variable2.type_ is not None:
             # TODO This is an horrible hotfix to prevent NBVs type to be wrongly deserialized as strings.
             # We MUST refactor non_block_variables to allow them to be detached and remove detached variables concept.
             # The detached variable concept is completely flawed. NBVs MUST be able to exist without downstream blocks
-- 
2.43.0


From 5310d2c8fe695b0087efe6ab28bb00315ec483ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:03 +0000
Subject: [PATCH 043/134] fix: deep copies merged objects that are equal
 without being the same, losing names, settings and locked values of sub
 workflows

---
 dessia_common/utils/copy.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index 4f8ed0a..b08e91d 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -44,7 +44,7 @@ def deepcopy_value(value, memo):
             warnings.warn(f'{value.__class__.__name__}.copy() does not implement deep and memo arguments')
             copied_value = value.copy()
 
-        memo[value] = copied_value
+        add_to_memo(value, copied_value, memo)
         return copied_value
 
     if isinstance(value, (dessia_common.files.BinaryFile, dessia_common.files.StringFile)):
@@ -60,7 +60,7 @@ def deepcopy_value(value, memo):
         except TypeError:
             # Memo not handled
             copied_value = copy.deepcopy(value)
-        memo[value] = copied_value
+        add_to_memo(value, copied_value, memo)
         return copied_value
 
     if is_sequence(value):
@@ -101,8 +101,11 @@ def deepcopy_sequence(seq_value, memo):
 
 
 def search_memo(value, memo):
-    """ Search in given memo. """
-    try:
-        return memo[value]
-    except (TypeError, KeyError):
-        return None
+    """ Search in given memo. As in python's copy module, it is indexed by id: equal objects are not the same one. """
+    return memo.get(id(value), None)
+
+
+def add_to_memo(value, copied_value, memo):
+    """ Add a copied value to given memo, and keep original one alive as long as memo is, so that its id stays its. """
+    memo[id(value)] = copied_value
+    memo.setdefault(id(memo), []).append(value)
-- 
2.43.0


From efa974fb7efb16f89c6ed1b9a1f70a9238e0bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:41 +0000
Subject: [PATCH 044/134] fix: workflows whose inputs are locked to different
 values were equal

---
 dessia_common/workflow/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 77bc429..f8708b2 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -16,7 +16,7 @@ import networkx as nx
 
 import dessia_common.errors
 from dessia_common.graph import get_column_by_node
-from dessia_common.core import DessiaObject, display_settings_from_selector, stringify_dict_keys
+from dessia_common.core import DessiaObject, data_eq, display_settings_from_selector, stringify_dict_keys
 
 from dessia_common.schemas.core import (get_schema, FAILED_ATTRIBUTE_PARSING, EMPTY_PARSED_ATTRIBUTE, SchemaStep,
                                         serialize_annotation, deserialize_annotation, pretty_annotation, UNDEFINED, Schema,
@@ -104,7 +104,8 @@ class Variable(DessiaObject):
     def equivalent(self, other: 'Variable'):
         same_name = self.name == other.name
         same_type = self.type_ == other.type_
-        same_lock = self.locked == other.locked
+        same_lock = self.locked == other.locked and (not self.locked
+                                                     or data_eq(self.default_value, other.default_value))
         return same_name and same_type and same_lock
 
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = '#',
-- 
2.43.0


From 574f5898f14b202ee2fb8511d00b73d2357ee6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:41 +0000
Subject: [PATCH 045/134] fix: blocks shared by several branches were evaluated
 several times to compute a display

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f8708b2..f3a5eaf 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -946,7 +946,7 @@ class Workflow(Block):
                     candidates.extend(self.upstream_blocks(upstream_block))
                 elif include_last:
                     branch_blocks.insert(0, upstream_block)
-            upstream_blocks = [b for b in candidates if b not in branch_blocks]
+            upstream_blocks = [b for b in dict.fromkeys(candidates) if b not in branch_blocks]
             i += 1
         return branch_blocks
 
-- 
2.43.0


From 5085d66b06e0eb8905132304647269ea113cafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:31 +0000
Subject: [PATCH 046/134] fix: saved and restored workflow states had another
 hash than the original

---
 dessia_common/workflow/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f3a5eaf..1ab502a 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1744,8 +1744,7 @@ class WorkflowState(DessiaObject):
         workflow = hash(self.workflow)
         output = choose_hash(self.output_value)
         input_values = sum(i * choose_hash(v) for (i, v) in self.input_values.items())
-        values = len(self.values) * 7
-        return (workflow + output + input_values + values) % 1000000000
+        return (workflow + output + input_values) % 1000000000
 
     def _data_eq(self, other_object: 'WorkflowState'):
         if not (self.__class__.__name__ == other_object.__class__.__name__
-- 
2.43.0


From f251deddb51562f054cabd101c4096e2cac67e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 047/134] fix: scripts of workflows with optional builtin
 inputs failed

---
 dessia_common/schemas/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 380665c..fb6abbb 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -742,10 +742,9 @@ class OptionalProperty(ProxyProperty):
         """ Deserialize Optional annotation. """
         raise NotImplementedError("Optional property deserialization not implemented yet. ")
 
-    @property
-    def get_import_name(self):
-        """ Get class module and name as string."""
-        return self.schema.get_import_names([])[0]
+    def get_import_names(self, import_names):
+        """ Only the schema under the proxy is written, so only its names are imported. """
+        return self.schema.get_import_names(import_names=import_names)
 
 
 class AnnotatedProperty(ProxyProperty):
-- 
2.43.0


From 2eee4ee03b7491090ef75ed2a63e7859105d0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 048/134] fix: scripts of workflows and runs with untyped
 inputs failed

---
 dessia_common/workflow/core.py  | 6 ++++--
 dessia_common/workflow/utils.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 1ab502a..910804e 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -172,10 +172,12 @@ class Variable(DessiaObject):
         return script
 
     def _get_to_script_elements(self):
+        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}"
+        if self.type_ is None:
+            return ToScriptElement(declaration=declaration, imports=[], imports_as_is=[])
         schema = get_schema(annotation=self.type_, attribute=SchemaAttribute(self.name))
         imports = schema.get_import_names(import_names=[])
-        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}," \
-                      f" type_={schema.pretty_annotation}"
+        declaration += f", type_={schema.pretty_annotation}"
         return ToScriptElement(declaration=declaration, imports=imports, imports_as_is=[])
 
 
diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 9cd4450..c77dbc8 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -105,6 +105,8 @@ def nonblock_variables_to_script(nonblock_variables, prefix, imports, imports_as
 
 def update_imports(input_type, input_name):
     """ Update imports based on the schema of the input. """
+    if input_type is None:
+        return []
     schema = get_schema(annotation=input_type, attribute=SchemaAttribute(input_name))
     return schema.get_import_names(import_names=[])
 
-- 
2.43.0


From 4a3fb4665c3933fb21d61a166450c609df120339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:32 +0000
Subject: [PATCH 049/134] fix: scripts of workflows with Any, method and
 attribute inputs were not valid

---
 dessia_common/schemas/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index fb6abbb..1056809 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1459,6 +1459,11 @@ class AttributeTypeProperty(TypingProperty):
         return {"object_class": full_classname(object_=self.origin, compute_for="class"),
                 "class_": classname, "name": None}
 
+    @property
+    def get_import_name(self):
+        """ Get class module and name as string."""
+        return f"{self.origin.__module__}.{self.origin.__name__}"
+
     def check_list(self) -> CheckList:
         """
         Check validity of MethodType Type Hint.
@@ -1615,6 +1620,11 @@ class AnyProperty(Property):
         chunk.update({"properties": {".*": ".*"}, "type": "object"})
         return chunk
 
+    @cached_property
+    def pretty_annotation(self) -> str:
+        """ Imported name of Any. """
+        return "Any"
+
 
 class EnumProperty(TypingProperty):
     """ Generate an enum of a dict keys. """
-- 
2.43.0


From 2183999b2476ded4edeaf28e2a108ed544cd6a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:27 +0000
Subject: [PATCH 050/134] fix: layout failed when a branch not leading to the
 end of the longest path was listed before its origin

---
 dessia_common/graph.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dessia_common/graph.py b/dessia_common/graph.py
index 98d216c..f9c09b9 100644
--- a/dessia_common/graph.py
+++ b/dessia_common/graph.py
@@ -86,15 +86,12 @@ def get_column_by_node(graph: nx.DiGraph):
     for node in longest_path:
         columns[node] = longest_path.index(node)
 
-    for node in [n for n in graph.nodes if n not in longest_path]:
+    for node in [n for n in nx.topological_sort(graph) if n not in longest_path]:
         try:
             path = get_longest_path(graph, node, end_of_path)
             columns[node] = len(longest_path) - len(path)
         except nx.exception.NetworkXNoPath:
             # There is no path from node to end_of_path
-            for path in get_paths_from_to(graph, list(graph.nodes), [node]):
-                column_index = columns[path[0]] + len(path) - 1
-                if node not in columns or columns[node] < column_index:
-                    columns[node] = column_index
+            columns[node] = max((columns[p] + 1 for p in graph.predecessors(node)), default=0)
 
     return columns
-- 
2.43.0


From 3eb25fbe58dd0caba94387e2133a8e1d1ea6e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:27 +0000
Subject: [PATCH 051/134] fix: validity of any workflow with pipes could not be
 asked

---
 dessia_common/workflow/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 910804e..bb64ee2 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1305,11 +1305,11 @@ class Workflow(Block):
     def is_valid(self, level: str = "error"):
         """ Tell if the workflow is valid by checking type compatibility of pipes inputs/outputs. """
         for pipe in self.pipes:
-            upstream = pipe.input_variable.type_
-            downstream = pipe.output_variable.type_
+            upstream = pipe.input_variable
+            downstream = pipe.output_variable
             if upstream.type_ != downstream.type_:
                 try:
-                    issubclass(upstream.type_.type_, downstream.type_)
+                    issubclass(upstream.type_, downstream.type_)
                 except TypeError as error:  # TODO: need of a real typing check
                     consistent = True
                     if not consistent:
-- 
2.43.0


From ed9258b9134a9c27b4ed49016d90823598f31555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:30 +0000
Subject: [PATCH 052/134] fix: optional builtins and classes did not match
 their own type, or raised

---
 dessia_common/utils/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 061214a..f38bd2d 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -302,6 +302,8 @@ def typematch(type_: Type, match_against: Type) -> bool:
     """
     # TODO Implement a more intelligent check for Unions : Union[T, U] should match against Union[T, U, V]
     # TODO Implement a check for Dict
+    type_, _, _ = heal_type(type_)
+    match_against, _, _ = heal_type(match_against)
     if type_ == match_against or match_against is Any or particular_typematches(type_, match_against):
         # Trivial cases. If types are strictly equal, then it should pass straight away
         return True
@@ -373,7 +375,7 @@ def heal_type(type_: Type):
     if type_origin is Union:
         # Check for default values false positive
         if union_is_default_value(type_):
-            type_ = type_args[0]
+            type_ = next(a for a in type_args if a is not type(None))
             type_origin = get_origin(type_)
             type_args = get_args(type_)
     return type_, type_origin, type_args
-- 
2.43.0


From 125e13058d7818a544fde0f5ec9ac27b49d8c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:30 +0000
Subject: [PATCH 053/134] fix: tuples of different lengths matched, tuples of
 any length raised

---
 dessia_common/utils/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index f38bd2d..c3462c0 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -344,6 +344,11 @@ def complex_first_type_match(type_: Type, match_against: Type) -> bool:
         return typematch(type_args[0], match_against_args[0])
 
     if type_origin is tuple:
+        if Ellipsis in match_against_args:
+            # Any length is accepted
+            return all(typematch(a, match_against_args[0]) for a in type_args if a is not Ellipsis)
+        if Ellipsis in type_args or len(type_args) != len(match_against_args):
+            return False
         # Order matters, all arguments should match
         return all(typematch(a, b) for a, b in zip(type_args, match_against_args))
 
-- 
2.43.0


From 8c5ccfe5f482eae7b2e27e6bbe9a06da9af7e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:30 +0000
Subject: [PATCH 054/134] fix: matching variables of a workflow raised when one
 is generic, as the output of a Concatenate block

---
 dessia_common/utils/types.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index c3462c0..d42a7b3 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -4,7 +4,8 @@
 
 import warnings
 from collections.abc import Iterator, Sequence
-from typing import Any, Dict, List, Tuple, Type, Union, get_origin, get_args
+from inspect import isclass
+from typing import Any, Dict, List, Tuple, Type, TypeVar, Union, get_origin, get_args
 import orjson
 from dessia_common.abstract import CoreDessiaObject
 from dessia_common.typings import InstanceOf, MethodType, ClassMethodType
@@ -304,7 +305,8 @@ def typematch(type_: Type, match_against: Type) -> bool:
     # TODO Implement a check for Dict
     type_, _, _ = heal_type(type_)
     match_against, _, _ = heal_type(match_against)
-    if type_ == match_against or match_against is Any or particular_typematches(type_, match_against):
+    if type_ == match_against or match_against is Any or isinstance(match_against, TypeVar) \
+            or particular_typematches(type_, match_against):
         # Trivial cases. If types are strictly equal, then it should pass straight away
         return True
 
@@ -313,7 +315,7 @@ def typematch(type_: Type, match_against: Type) -> bool:
 
     if not is_typing(match_against):
         # type_ and match_against aren't complex : check for subclass only
-        if issubclass(type_, match_against):
+        if isclass(type_) and isclass(match_against) and issubclass(type_, match_against):
             return True
 
     # type_ is not complex and match_against is
-- 
2.43.0


From a7b18700de2284d35f482898511e61232b39ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:56 +0000
Subject: [PATCH 055/134] fix: arguments typed Union[None, T] could not be
 deserialized

---
 dessia_common/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index e140620..d376e7c 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -410,7 +410,8 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
     if origin is Union:
         # Check for Union false Positive (Default value = None)
         if len(args) == 2 and type(None) in args:
-            return deserialize_argument(type_=args[0], argument=argument)
+            optional_type = next(a for a in args if a is not type(None))
+            return deserialize_argument(type_=optional_type, argument=argument)
 
         # Type union
         classes = list(args)
-- 
2.43.0


From 339cbb18558e6dacdc8cec41c6ecd525cd2d6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:56 +0000
Subject: [PATCH 056/134] fix: arguments typed as tuples of any length could
 not be deserialized, wrong lengths were truncated

---
 dessia_common/serialization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index d376e7c..e49e918 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -445,6 +445,11 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
 
     elif origin is tuple:
         # Heterogeneous sequences (tuples)
+        if Ellipsis in args:
+            # Homogeneous tuple of any length
+            return tuple(deserialize_argument(args[0], arg) for arg in argument)
+        if len(args) != len(argument):
+            raise TypeError(f"Given tuple has {len(argument)} elements, {type_} expects {len(args)}: {argument}")
         deserialized_arg = tuple(deserialize_argument(t, arg) for (t, arg) in zip(args, argument))
     elif origin is dict:
         # Dynamic dict
-- 
2.43.0


From a2a32afd6603906f3de17a85d525883f5542bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 057/134] fix: text of tuples that hold tuples of any length
 could not be read back

---
 dessia_common/schemas/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 1056809..1bbf858 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1109,10 +1109,9 @@ class HeterogeneousSequence(TypingProperty):
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[Tuple]:
         """ Deserialize Tuple annotation with undefined length support. """
-        rawargs = cls._raw_args_from_serialized(serialized)
-        if ",..." in rawargs:
-            arg = rawargs.split(",...")[0]
-            subtype = deserialize_annotation(arg)
+        args = extract_args(cls._raw_args_from_serialized(serialized))
+        if len(args) == 2 and args[1] == "...":
+            subtype = deserialize_annotation(args[0])
             return Tuple[subtype, ...]
         return Tuple[TypingProperty._args_from_serialized(serialized)]
 
-- 
2.43.0


From 4ede51dcec1e903914ed7091c47696e4cca60e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 058/134] fix: literals with spaces, commas or quotes were
 changed when written as text and read back

---
 dessia_common/schemas/core.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 1bbf858..01b31e5 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -3,6 +3,7 @@
 """ Schema generation functions. """
 import re
 import warnings
+from ast import literal_eval
 import uuid
 from copy import deepcopy
 import inspect
@@ -650,8 +651,7 @@ class TypingProperty(Property):
     def _raw_args_from_serialized(cls, serialized: str) -> str:
         """ Get arguments as str from serialized value. """
         if "[" in serialized and "]" in serialized:
-            args = re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
-            return args.replace(" ", "")
+            return re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
         return ""
 
     @classmethod
@@ -1636,8 +1636,7 @@ class EnumProperty(TypingProperty):
     @cached_property
     def serialized(self) -> str:
         """ Specifically join args with single quotes. """
-        args = "', '".join(self.args)
-        return f"Literal['{args}']"
+        return f"Literal[{', '.join(repr(a) for a in self.args)}]"
 
     @property
     def args_schemas(self) -> List[Property]:
@@ -1651,9 +1650,9 @@ class EnumProperty(TypingProperty):
 
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
-        """ Specifically reset args as a tuple while removing one layer of single quotes. """
-        args = cls._raw_args_from_serialized(serialized)
-        return Literal[tuple(args.replace("'", "").split(","))]
+        """ Specifically read args as python literals. """
+        args = extract_args(cls._raw_args_from_serialized(serialized))
+        return Literal[tuple(literal_eval(a) for a in args)]
 
     @property
     def get_import_name(self):
@@ -1871,7 +1870,20 @@ def extract_args(string: str) -> List[str]:
     closed_brackets = 0
     current_arg = ""
     arguments = []
-    for character in string.replace(" ", ""):
+    quote = None
+    escaped = False
+    for character in string:
+        if quote:
+            # We are in a string literal (Literal['a, b']), which is kept as it is
+            current_arg += character
+            if not escaped and character == quote:
+                quote = None
+            escaped = character == "\\" and not escaped
+            continue
+        if character == " ":
+            continue
+        if character in "'\"":
+            quote = character
         if character == "[":
             opened_brackets += 1
         if character == "]":
-- 
2.43.0


From 6330148418efe59ecd0a228021023dc18daed00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 059/134] fix: text of view type annotations could not be read
 back

---
 dessia_common/schemas/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 01b31e5..14b5fe8 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1748,7 +1748,8 @@ SERIALIZED_TO_SCHEMA_CLASS = {
     "Tuple": HeterogeneousSequence, "List": HomogeneousSequence, "Iterator": HomogeneousSequence,
     "Union": UnionProperty, "Dict": DynamicDict, "InstanceOf": InstanceOfProperty, "Subclass": SubclassProperty,
     "MethodType": MethodTypeProperty, "ClassMethodType": MethodTypeProperty, "Type": ClassProperty,
-    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty
+    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty,
+    "CadViewType": SelectorProperty, "PlotDataType": SelectorProperty, "MarkdownType": SelectorProperty
 }
 
 
-- 
2.43.0


From b4769181436fb4f8d3b21ccb1e82cee49af7c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 060/134] fix: text of iterator annotations was read back as a
 list

---
 dessia_common/schemas/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 14b5fe8..bf9ca88 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 import inspect
 import collections.abc
 from typing import Tuple, Dict, List, Type, get_args, get_origin, get_type_hints, Callable, Union, \
-    TypeVar, TypedDict, Optional, Any, Literal
+    TypeVar, TypedDict, Optional, Any, Literal, Iterator
 from functools import cached_property
 from dessia_common.utils.helpers import full_classname, get_python_class_from_class_name
 from dessia_common.abstract import CoreDessiaObject
@@ -1177,8 +1177,11 @@ class HomogeneousSequence(TypingProperty):
 
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[List]:
-        """ Deserialize List annotation. """
-        return List[TypingProperty._args_from_serialized(serialized)]
+        """ Deserialize List annotation. Support Iterators. """
+        args = TypingProperty._args_from_serialized(serialized)
+        if TypingProperty.type_from_serialized(serialized) == "Iterator":
+            return Iterator[args]
+        return List[args]
 
     @property
     def form_type(self):
-- 
2.43.0


From f442d5bfc342c45dc488a418924689de1327e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 061/134] fix: schemas of optional arguments ignored default,
 standalone status and checks of the argument type

---
 dessia_common/schemas/core.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index bf9ca88..b8e7637 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -699,13 +699,31 @@ class ProxyProperty(TypingProperty):
     def __init__(self, annotation: Type[T], attribute: SchemaAttribute):
         super().__init__(annotation=annotation, attribute=attribute)
 
-        self.annotation = self.args[0]
+        self.annotation = next(a for a in self.args if a is not type(None))
 
     @property
     def schema(self) -> Property:
         """ Return a reference to its only argument. """
         return get_schema(annotation=self.annotation, attribute=self.attribute)
 
+    @property
+    def standalone_in_db(self) -> bool:
+        """ Whether under-proxy-annotation is standalone. """
+        return self.schema.standalone_in_db
+
+    @cached_property
+    def is_file_related(self) -> bool:
+        """ Whether under-proxy-annotation is related to files. """
+        return self.schema.is_file_related
+
+    def default_value(self):
+        """ Default value of under-proxy-annotation. """
+        return self.schema.default_value()
+
+    def check_list(self) -> CheckList:
+        """ Check validity of under-proxy-annotation. """
+        return self.schema.check_list()
+
     def to_dict(self) -> Dict[str, Any]:
         """ Write Proxy as a Dict. """
         return self.schema.to_dict()
-- 
2.43.0


From fc7671ee7044b01940a999292fc6662570bc1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 062/134] fix: default dicts held a placeholder object for
 arguments without default

---
 dessia_common/schemas/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index b8e7637..334863c 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -558,8 +558,10 @@ class Property:
         return dict_
 
     def default_value(self):
-        """ Generic default. Yield user default if defined. """
-        return self.attribute.default_value
+        """ Generic default. Yield user default if defined, None otherwise. """
+        if self.has_default_value:
+            return self.attribute.default_value
+        return None
 
     def inject_reference(self, object_id: str):
         """ Exposed to backend in order to inject MongoDB reference in place of object default value. """
@@ -935,7 +937,7 @@ class FileProperty(Property):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if the user definition doesn't have any default value, as it is not supported for files. """
-        if self.default_value() is not UNDEFINED:
+        if self.has_default_value:
             msg = f"{self.check_prefix}File input defines a default value, whereas it is not supported."
             return CheckWarning(msg)
         msg = f"{self.check_prefix}File input doesn't define a default value, as it should."
-- 
2.43.0


From a1ea89b8b9fd5e4a5e48d59601553cd99c64cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 063/134] fix: mutable defaults of lists and dicts were never
 reported by schema checks

---
 dessia_common/schemas/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 334863c..34c5487 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1235,7 +1235,7 @@ class HomogeneousSequence(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if List doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.has_default_value and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable List input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
@@ -1317,7 +1317,7 @@ class DynamicDict(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if Dict doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.has_default_value and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable Dict input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
-- 
2.43.0


From 78127081c933e0365ebcb2cb047e0481c62a4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 064/134] fix: defaults of measure arguments lost their class,
 and failed for integers and None

---
 dessia_common/schemas/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 34c5487..32b1769 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -876,15 +876,17 @@ class MeasureProperty(BuiltinProperty):
     def default_value(self):
         """ Handle measures default values defined as floats, Measure object and force a value when undefined. """
         if self.has_default_value:
-            if isinstance(self.attribute.default_value, float):
-                default_measure = Measure(self.attribute.default_value)
+            if self.attribute.default_value is None:
+                return None
+            if isinstance(self.attribute.default_value, (int, float)):
+                default_measure = self.annotation(self.attribute.default_value)
             elif isinstance(self.attribute.default_value, dict):
-                default_measure = Measure(self.attribute.default_value["value"])
+                default_measure = self.annotation(self.attribute.default_value["value"])
             else:
                 raise ValueError(f"Default value for attribute '{self.attribute.name}' "
                                  f"must be of type 'float' or 'Measure'. Got '{type(self.attribute.default_value)}'")
             return default_measure.to_dict()
-        return {"object_class": f"{Measure.__module__}.{Measure.__class__.__name__}", "value": None}
+        return {"object_class": self.serialized, "value": None}
 
     def get_import_names(self, import_names):
         """ Process MeasureProperty and get/update the import names list."""
-- 
2.43.0


From a0190edf5fd96051f68868742cd3a281193b0a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 065/134] fix: schemas of optional unions failed

---
 dessia_common/schemas/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 32b1769..fb621d4 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1011,6 +1011,11 @@ class UnionProperty(TypingProperty):
     def __init__(self, annotation: Type[Union[T]], attribute: SchemaAttribute):
         super().__init__(annotation=annotation, attribute=attribute)
 
+    @property
+    def args(self) -> Tuple[Type[T], ...]:
+        """ Return Union arguments. As for Optional, None is not part of the possible types. """
+        return tuple(a for a in super().args if a is not type(None))
+
     @cached_property
     def serialized(self) -> str:
         """ Generic serialization with 'Union' enforced, because Union annotation has no __name__ attribute. """
-- 
2.43.0


From 845c6f6a2d6efe5cb5f6c63ce33f63f1ca7be7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 066/134] fix: objects in default values of tuples were not
 serialized

---
 dessia_common/schemas/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index fb621d4..bdac80b 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1160,7 +1160,7 @@ class HeterogeneousSequence(TypingProperty):
         Return serialized user default if defined, else a right-sized Tuple filled with None values .
         """
         if self.has_default_value:
-            return self.attribute.default_value
+            return sequence_default(self.attribute.default_value)
         return tuple(s.default_value() for s in self.args_schemas)
 
     def check_list(self) -> CheckList:
@@ -1862,6 +1862,15 @@ def object_default(default_value: CoreDessiaObject = UNDEFINED, class_schema: Cl
     return None
 
 
+def sequence_default(default_value):
+    """ Default value of a sequence. Elements that are objects are serialized. """
+    if isinstance(default_value, (list, tuple)):
+        return type(default_value)(sequence_default(v) for v in default_value)
+    if isinstance(default_value, CoreDessiaObject):
+        return object_default(default_value)
+    return default_value
+
+
 def compute_typing_schema_serialization(serialized_typing: str, args_schemas: List[Property]) -> str:
     """ Build final typing serialized string. """
     return f"{serialized_typing}[{', '.join([s.serialized for s in args_schemas])}]"
-- 
2.43.0


From d4bf42fa047e0955d97496d7999bb253bdfeed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 067/134] fix: schemas of class, method and attribute arguments
 that default to None failed

---
 dessia_common/schemas/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index bdac80b..8ba8dd8 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1479,6 +1479,8 @@ class AttributeTypeProperty(TypingProperty):
     def default_value(self) -> Dict[str, Any]:
         """ Sets AttributeType object_class and argument class_ if it is different from Type. """
         if self.has_default_value:
+            if self.attribute.default_value is None:
+                return None
             return self.attribute.default_value.to_dict()
 
         if self.class_ is not Type and issubclass(self.class_, CoreDessiaObject):
@@ -1594,6 +1596,8 @@ class ClassProperty(TypingProperty):
     def default_value(self) -> str:
         """ Sets AttributeType object_class and argument class_ if it is different from Type. """
         if self.has_default_value:
+            if self.attribute.default_value is None:
+                return None
             return full_classname(self.attribute.default_value, compute_for="class")
 
         if self.class_ is not Type and issubclass(self.class_, CoreDessiaObject):
-- 
2.43.0


From 72642f7b51a16e484ece99510db87d449f376073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 068/134] fix: schema check of dicts failed on keys that are
 not a class

---
 dessia_common/schemas/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 8ba8dd8..e68e798 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1305,7 +1305,7 @@ class DynamicDict(TypingProperty):
     def has_string_keys(self) -> PassedCheck:
         """ Key Type should be str. """
         key_type, value_type = self.args
-        if not issubclass(key_type, str):
+        if not (inspect.isclass(key_type) and issubclass(key_type, str)):
             # Should we support other types ? Numeric ?
             msg = f"{self.check_prefix}is typed as a 'Dict[{key_type}, {value_type}]' " \
                   f"which requires str as its key type. Expected 'Dict[str, ValueType]', got '{self.annotation}'."
-- 
2.43.0


From 7981951b0bb3e3ac47afeb2aaac78e5a883fe7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 069/134] fix: filters combined with 'xor' kept elements that
 match both filters

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 8f13388..2a11b1a 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1055,7 +1055,7 @@ class FiltersList(DessiaObject):
         if logical_operator == 'or':
             return [any(booleans_tuple) for booleans_tuple in zip(*booleans_lists)]
         if logical_operator == 'xor':
-            return [bool(sum(booleans_tuple)) for booleans_tuple in zip(*booleans_lists)]
+            return [sum(map(bool, booleans_tuple)) % 2 == 1 for booleans_tuple in zip(*booleans_lists)]
         raise NotImplementedError(f"'{logical_operator}' str for 'logical_operator' attribute is not a use case")
 
     def get_booleans_index(self, dobjects_list: List[DessiaObject]):
-- 
2.43.0


From c17432de352b1cce6df3a50083a4db135d701472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:04 +0000
Subject: [PATCH 070/134] fix: schema check lists were always empty

---
 dessia_common/schemas/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index e68e798..07e62d2 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -170,10 +170,13 @@ class SchemaAttributeCollection:
         """ Concatenate schema chunks into a List. """
         return [self.chunk(a) for a in self.attributes]
 
-    def check_list(self, issues: CheckList):
+    def check_list(self) -> CheckList:
+        """ Gather issues of all attributes. """
+        issues = CheckList([])
         for attribute in self.attributes:
             schema = self.property_schemas[attribute.name]
             issues += schema.check_list()
+        return issues
 
     def to_dict(self):
         return {"properties": [self.chunk(a) for a in self._attributes]}
@@ -299,7 +302,7 @@ class Schema:
         """
         issues = CheckList([])
         for step in self.steps:
-            step.check_list(issues)
+            issues += step.check_list()
         return issues
 
     @property
-- 
2.43.0


From e39d9072a83aa6b010d316795ef8fa8f78d9d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 071/134] fix: adding datasets of different classes kept
 attributes that are not common to them

---
 dessia_common/datatools/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index cfaeb77..131afbd 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -133,8 +133,8 @@ class Dataset(DessiaObject):
         sum_hlist = self.__class__(dessia_objects=self.dessia_objects + other.dessia_objects,
                                    name=self.name[:5] + '_+_' + other.name[:5])
 
-        if all(item in self.common_attributes for item in other.common_attributes):
-            sum_hlist._common_attributes = self.common_attributes
+        if self.common_attributes == other.common_attributes:
+            sum_hlist._common_attributes = copy(self.common_attributes)
             if self._matrix is not None and other._matrix is not None:
                 sum_hlist._matrix = self._matrix + other._matrix
         return sum_hlist
-- 
2.43.0


From f2bb5e630274fb58653083f69e967889b5f94788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 072/134] fix: printed datasets showed their first elements
 twice instead of the last ones

---
 dessia_common/datatools/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 131afbd..b73c64d 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -202,7 +202,7 @@ class Dataset(DessiaObject):
             string += (f"\n+ {undispl_len} undisplayed object" + "s" * (min([undispl_len, 2]) - 1) + "...")
 
         if len(self) > 5:
-            string += self._print_objects_slice(slice(-5, len(self)), attr_space)
+            string += self._print_objects_slice(slice(max(5, len(self) - 5), len(self)), attr_space)
         return prefix + "\n" + string + "\n"
 
     def _printed_attributes(self):
@@ -212,7 +212,7 @@ class Dataset(DessiaObject):
 
     def _print_objects_slice(self, key: slice, attr_space: List[int]):
         string = ""
-        for index in range(len(self[key])):
+        for index in range(*key.indices(len(self))):
             string += "\n"
             string += self._print_object(index, attr_space)
         return string
-- 
2.43.0


From 583ba0cd03a124d6a0ec8469a7deec39227b948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 073/134] fix: printing a dataset failed when its first
 attribute has a long name

---
 dessia_common/datatools/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index b73c64d..dee84d8 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -231,6 +231,7 @@ class Dataset(DessiaObject):
             if idx == len(printed_attributes) - 1:
                 end_bar = "|"
             # attribute
+            odd_incr = 0
             if len(attr) + 6 > min_col_length:
                 indentation = 3
             else:
-- 
2.43.0


From 7ead69300c414fcc068b18d9d3adfcbd1074db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 074/134] fix: sorting a clustered dataset left labels in their
 previous order

---
 dessia_common/datatools/cluster.py |  4 ++++
 dessia_common/datatools/dataset.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 1adc1e3..c9dbe04 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -89,6 +89,10 @@ class ClusteredDataset(Dataset):
         # new_hlist.name += "_list")
         return new_hlist
 
+    def _reorder(self, indexes: List[int]):
+        Dataset._reorder(self, indexes)
+        self.labels = [self.labels[idx] for idx in indexes]
+
     def _printed_attributes(self):
         return ["label"] + Dataset._printed_attributes(self)
 
diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index dee84d8..8aa0b5a 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -433,10 +433,12 @@ class Dataset(DessiaObject):
                 sort_indexes = npy.argsort(self.column_values(key))
             elif isinstance(key, str):
                 sort_indexes = npy.argsort(self.attribute_values(key))
-            self.dessia_objects = [self.dessia_objects[idx] for idx in (sort_indexes if ascend else sort_indexes[::-1])]
-            if self._matrix is not None:
-                self._matrix = [self._matrix[idx] for idx in
-                                (sort_indexes if ascend else sort_indexes[::-1])]
+            self._reorder(sort_indexes if ascend else sort_indexes[::-1])
+
+    def _reorder(self, indexes: List[int]):
+        self.dessia_objects = [self.dessia_objects[idx] for idx in indexes]
+        if self._matrix is not None:
+            self._matrix = [self._matrix[idx] for idx in indexes]
 
     def mean(self):
         """
-- 
2.43.0


From a91c82e4361e9153d84db3ae3cef2370c0ed79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 075/134] fix: pareto selection lost small differences of costs
 by scaling them

---
 dessia_common/datatools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 8aa0b5a..d4ef2f0 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -813,7 +813,7 @@ class Dataset(DessiaObject):
         :return: A (n_points, ) boolean list, indicating whether each point is Pareto efficient
         """
         is_efficient = npy.ones(len(costs), dtype=bool)
-        costs_array = (costs - npy.mean(costs, axis=0)) / npy.std(costs, axis=0)
+        costs_array = npy.array(costs)
         for index, cost in enumerate(costs_array):
             if is_efficient[index]:
                 # Keep any point with a lower cost
-- 
2.43.0


From 3c9b49944e46108522913b57d5c2c405c70159e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 076/134] fix: clusters were named after another label with
 more than ten clusters or with outliers

---
 dessia_common/datatools/cluster.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index c9dbe04..f6de37d 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -136,14 +136,12 @@ class ClusteredDataset(Dataset):
         |    25.0 |             0.11 |           87.0 |     2672.0 |             17.5 |
         |    21.0 |            0.199 |           90.0 |     2648.0 |             15.0 |
         """
-        sublists = []
-        label_tags = sorted(list(map(str, set(self.labels).difference({-1}))))
-        unic_labels = list(set(self.labels))
-        for _ in range(self.n_clusters):
-            sublists.append([])
+        unic_labels = sorted(set(self.labels).difference({-1}))
+        label_tags = list(map(str, unic_labels))
         if -1 in self.labels:
-            sublists.append([])
+            unic_labels.append(-1)
             label_tags.append("outliers")
+        sublists = [[] for _ in unic_labels]
 
         for idx, label in enumerate(self.labels):
             sublists[unic_labels.index(label)].append(self.dessia_objects[idx])
@@ -151,9 +149,7 @@ class ClusteredDataset(Dataset):
         new_dessia_objects = [Dataset(dessia_objects=sublist, name=self.name + f"_{label_tag}")
                               for label_tag, sublist in zip(label_tags, sublists)]
 
-        return ClusteredDataset(new_dessia_objects,
-                                list(set(self.labels).difference({-1})) + ([-1] if -1 in self.labels else []),
-                                name=self.name + "_split")
+        return ClusteredDataset(new_dessia_objects, unic_labels, name=self.name + "_split")
 
     def _check_transform_sublists(self):
         if not isinstance(self.dessia_objects[0], Dataset):
-- 
2.43.0


From d399ac6e9ecaf01d65391c9fac244ef5b5bb94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 077/134] fix: real centroids failed when cluster labels are
 not successive numbers

---
 dessia_common/datatools/cluster.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index f6de37d..e60b00e 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -274,12 +274,10 @@ class ClusteredDataset(Dataset):
         """
         clustered_sublists = self._check_transform_sublists()
         kwargs = self._set_distance_kwargs(method, kwargs)
-        labels = clustered_sublists.labels
         cluster_distances = clustered_sublists.cluster_distances(method=method, **kwargs)
-        real_centroids = [[] for _ in labels]
-        for label in labels:
-            min_idx = cluster_distances[label].index(min(cluster_distances[label]))
-            real_centroids[label] = clustered_sublists.dessia_objects[label][min_idx]
+        real_centroids = []
+        for distances, sublist in zip(cluster_distances, clustered_sublists.dessia_objects):
+            real_centroids.append(sublist[distances.index(min(distances))])
         return real_centroids
 
     def _merge_sublists(self):
-- 
2.43.0


From a6ab8e30256a11709bce551f8ea5b4ed4a4a115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 078/134] fix: covariance matrix of a single feature was not a
 matrix

---
 dessia_common/datatools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/metrics.py b/dessia_common/datatools/metrics.py
index f91ea3f..fd99e62 100644
--- a/dessia_common/datatools/metrics.py
+++ b/dessia_common/datatools/metrics.py
@@ -196,7 +196,7 @@ def covariance_matrix(matrix):
     [70.58986267712706, -0.6737370735267286]
     [-0.6737370735267286, 0.011008722272395539]
     """
-    return npy.cov(matrix, dtype=float).tolist()
+    return npy.atleast_2d(npy.cov(matrix, dtype=float)).tolist()
 
 
 def std(vector):
-- 
2.43.0


From a6525e94931f745ec2d76b9f2d6485b7ce364fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:43 +0000
Subject: [PATCH 079/134] fix: plotting a clustered dataset failed with recent
 versions of matplotlib

---
 dessia_common/datatools/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index e60b00e..d3207ed 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -309,7 +309,7 @@ class ClusteredDataset(Dataset):
         return sample
 
     def _point_families(self):
-        colormap = plt.cm.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
+        colormap = plt.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
         point_families = []
         for i_cluster in range(self.n_clusters):
             color = Color(colormap[i_cluster][0], colormap[i_cluster][1], colormap[i_cluster][2])
-- 
2.43.0


From 2c38cb9787986920bea34fa1f42c8de9b78a1860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:43 +0000
Subject: [PATCH 080/134] fix: plots of clustered datasets lost points when
 labels are not successive numbers

---
 dessia_common/datatools/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index d3207ed..f5d352f 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -311,10 +311,10 @@ class ClusteredDataset(Dataset):
     def _point_families(self):
         colormap = plt.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
         point_families = []
-        for i_cluster in range(self.n_clusters):
+        for i_cluster, label in enumerate(sorted(set(self.labels).difference({-1}))):
             color = Color(colormap[i_cluster][0], colormap[i_cluster][1], colormap[i_cluster][2])
-            points_index = list(map(int, npy.where(npy.array(self.labels) == i_cluster)[0].tolist()))
-            point_families.append(PointFamily(color, points_index, name="Cluster " + str(i_cluster)))
+            points_index = list(map(int, npy.where(npy.array(self.labels) == label)[0].tolist()))
+            point_families.append(PointFamily(color, points_index, name="Cluster " + str(label)))
 
         if -1 in self.labels:
             color = LIGHTGREY
-- 
2.43.0


From 874fc1e6049b403da691c3b6726b6a52cc32550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:13 +0000
Subject: [PATCH 081/134] fix: comparing a filter with an object of another
 class raised an error

---
 dessia_common/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 2a11b1a..9d9e5ca 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -882,6 +882,8 @@ class DessiaFilter(DessiaObject):
         return int(hash_)
 
     def __eq__(self, other: 'DessiaFilter'):
+        if not isinstance(other, DessiaFilter):
+            return False
         same_attr = self.attribute == other.attribute
         same_op = self.comparison_operator == other.comparison_operator
         same_bound = self.bound == other.bound
-- 
2.43.0


From e5f18b7deff8dc81d262e33e95c8c9429acfb488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 082/134] fix: parallel plots of datasets lost some of the
 common attributes

---
 dessia_common/datatools/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index d4ef2f0..12416f9 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -698,7 +698,8 @@ class Dataset(DessiaObject):
         # TODO: Put it in plot_data
         (sorted_r2, sorted_association), constant_attributes = self._get_correlations()
         attribute_series = self._get_attribute_trios(sorted_r2, sorted_association)
-        return constant_attributes + self._trios_list_to_parallel_axes(attribute_series)
+        axes = constant_attributes + self._trios_list_to_parallel_axes(attribute_series)
+        return axes + [attribute for attribute in self.common_attributes if attribute not in axes]
 
     def _get_correlations(self):
         r2_scores = []
-- 
2.43.0


From e35d0022a03331f9e4f34f003dbc045cbd211a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:43 +0000
Subject: [PATCH 083/134] fix: spreadsheet export failed on objects holding a
 set of objects

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index a2993be..8928dff 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -132,7 +132,7 @@ class XLSXWriter:
             if isinstance(value, dict):
                 cell_link = f'#{list(value.values())[0].__class__.__name__}!A2'
             elif isinstance(value, (list, set)) and not is_builtins_list(value):
-                cell_link = f'#{value[0].__class__.__name__}!A2'
+                cell_link = f'#{next(iter(value)).__class__.__name__}!A2'
             elif is_hashable(value) and value in self.object_to_sheet_row:
                 ref_sheet, ref_row_number, _ = self.object_to_sheet_row[value]
                 cell_link = f'#{ref_sheet.title}!A{ref_row_number+2}'
-- 
2.43.0


From a74612e7194c65f51881efc71a8505debd706c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:43 +0000
Subject: [PATCH 084/134] fix: spreadsheet cells of containers of builtins
 linked to sheets that do not exist

---
 dessia_common/exports.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 8928dff..37461bd 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -129,10 +129,10 @@ class XLSXWriter:
         """ Compute the hyperlink for given value."""
         cell_link = None
         if value:
-            if isinstance(value, dict):
-                cell_link = f'#{list(value.values())[0].__class__.__name__}!A2'
-            elif isinstance(value, (list, set)) and not is_builtins_list(value):
-                cell_link = f'#{next(iter(value)).__class__.__name__}!A2'
+            if isinstance(value, (dict, list, set)):
+                first_value = next(iter(value.values() if isinstance(value, dict) else value))
+                if first_value.__class__.__name__ in self.classes_to_sheets:
+                    cell_link = f'#{first_value.__class__.__name__}!A2'
             elif is_hashable(value) and value in self.object_to_sheet_row:
                 ref_sheet, ref_row_number, _ = self.object_to_sheet_row[value]
                 cell_link = f'#{ref_sheet.title}!A{ref_row_number+2}'
-- 
2.43.0


From 82f4406d8b95bb997ec8745bb21cd4e5fadfffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:43 +0000
Subject: [PATCH 085/134] fix: reading the spreadsheet of an object holding a
 dict of objects failed

---
 dessia_common/excel_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 97e3cad..b0cf96e 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -152,10 +152,10 @@ class ExcelReader:
         dict_keys = []
         if "Dict" in cell.value:
             actual_value = {}
-            sheet = self.workbook[target]
+            sheet = self.workbook[target[0]]
             column = sheet["A"]
             for row in column[3:]:
-                dict_keys.append(row.value.split('.')[1])
+                dict_keys.append(row.value.split('.')[-1])
 
             for key, value in zip(dict_keys, values):
                 actual_value[key] = value
-- 
2.43.0


From 8e06061aa692f20eefe0e7e8377820e389a16573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:43 +0000
Subject: [PATCH 086/134] fix: reading a spreadsheet gave the first object of a
 sheet instead of the linked one

---
 dessia_common/excel_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index b0cf96e..fe76afe 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -163,7 +163,7 @@ class ExcelReader:
             return actual_value
 
         if isinstance(values, list) and (not any(type_ in cell.value for type_ in container)):
-            actual_value = values[0]
+            actual_value = values[int(target[1][1:]) - 4]
         else:
             actual_value = values
         return actual_value
-- 
2.43.0


From fef91baff2f2709f3cf27344eea28cb5d20443b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:43 +0000
Subject: [PATCH 087/134] fix: reading a spreadsheet lost objects nested in
 sub-objects of several rows

---
 dessia_common/excel_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index fe76afe..e77aec5 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -238,7 +238,8 @@ class ExcelReader:
             sheet_target = workbook[sheet_title]
             sub_attributes = list(sheet_target.iter_rows(min_row=3, max_row=3, min_col=2, values_only=True))[0]
 
-            moment_values = [c.value for c in sheet_target[int(row_target[1:])][1:]]
+            moment_values = [self.process_sub_objects(c, workbook) if c.hyperlink else c.value
+                             for c in sheet_target[int(row_target[1:])][1:]]
             extracted_data = ExcelDataExtract(class_module=sub_module_name, class_name=sub_class_name,
                                               attributes=sub_attributes, data=None)
 
-- 
2.43.0


From ec4a594c7e08261aa9c76162fb9fbd7b94085fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:18 +0000
Subject: [PATCH 088/134] fix: reading a spreadsheet failed when a sheet links
 to a sheet placed before it

---
 dessia_common/excel_reader.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index e77aec5..d2bf61a 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -349,9 +349,20 @@ class ExcelReader:
         instantiated_objects = {}
         data_structure = self.process_workbook()
         stack = list(data_structure.extracted_datas.items())
+        delayed_sheets = set()
 
         while stack:
             key, extracted_data = stack.pop()
+            if key in instantiated_objects:
+                continue
+            if key not in delayed_sheets:
+                # Sheets this one links to need to be read before
+                delayed_sheets.add(key)
+                linked_sheets = {self.get_location(cell)[0] for row in extracted_data.data.values() for cell in row
+                                 if isinstance(cell, openpyxl.cell.cell.Cell)}
+                stack.append((key, extracted_data))
+                stack.extend((sheet, data_structure.extracted_datas[sheet]) for sheet in linked_sheets - delayed_sheets)
+                continue
             if key == self.main_sheet:
                 instantiated_objects = self.instantiate_main_object(instantiated_objects, extracted_data, key)
                 break
-- 
2.43.0


From fac59d1699318b33e2396cf26cc943e8d2683213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:21 +0000
Subject: [PATCH 089/134] fix: displays and exports failed for classes whose
 methods hold unindented multi-line strings

---
 dessia_common/decorators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dessia_common/decorators.py b/dessia_common/decorators.py
index 28dfc5d..81080e0 100644
--- a/dessia_common/decorators.py
+++ b/dessia_common/decorators.py
@@ -3,7 +3,6 @@
 from typing import Type, List, TypeVar
 import inspect
 import ast
-import textwrap
 
 
 DISPLAY_DECORATORS = ["plot_data_view", "markdown_view", "cad_view"]
@@ -15,8 +14,12 @@ def get_all_decorated_methods(class_: Type) -> List[ast.FunctionDef]:
     methods = inspect.getmembers(class_, inspect.isfunction) + inspect.getmembers(class_, inspect.ismethod)
     function_defs = []
     for _, method in methods:
-        source = textwrap.dedent(inspect.getsource(method))
-        method_tree = ast.parse(source)
+        source = inspect.getsource(method)
+        if source[0].isspace():
+            # Source is put in a block rather than dedented, because strings of the method might not be indented
+            method_tree = ast.parse(f"if True:\n{source}").body[0]
+        else:
+            method_tree = ast.parse(source)
         function_defs.append(method_tree.body[0])
     return [m for m in function_defs if isinstance(m, ast.FunctionDef) and m.decorator_list]
 
-- 
2.43.0


From 8960fa59edf93afc48c5c45d7982334875069241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:21 +0000
Subject: [PATCH 090/134] fix: docx exports defined with a decorator were
 written to text streams

---
 dessia_common/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/decorators.py b/dessia_common/decorators.py
index 81080e0..71902ec 100644
--- a/dessia_common/decorators.py
+++ b/dessia_common/decorators.py
@@ -161,7 +161,7 @@ def export_docx(selector: str):
 
     :param str selector: Unique name that identifies the export method.
     """
-    return export_decorator(selector, 'docx', is_text=True)
+    return export_decorator(selector, 'docx', is_text=False)
 
 
 def export_xlsx(selector: str):
-- 
2.43.0


From 11567f43bb8cda7638b5e7ddda3b59afa4717940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:21 +0000
Subject: [PATCH 091/134] fix: a display that cannot be serialized made all
 displays of the object fail

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 9d9e5ca..84f5794 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -438,11 +438,11 @@ class DessiaObject(SerializableObject):
         track = ""
         try:
             display = attrmethod_getter(self, display_setting.method)(**display_setting.arguments)
+            data = serialize(display) if display_setting.serialize_data else display
         except Exception:
-            display = None
+            data = None
             track = tb.format_exc()
 
-        data = serialize(display) if display_setting.serialize_data else display
         reference_path = display_setting.reference_path  # Trying this
         return DisplayObject(type_=display_setting.type, data=data, reference_path=reference_path, traceback=track)
 
-- 
2.43.0


From 647efc826f205c12d7b31d32f0ac8255ae996014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:21 +0000
Subject: [PATCH 092/134] fix: validity of objects ignored the requested level
 when computing checks

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 84f5794..684a0c0 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -316,7 +316,7 @@ class DessiaObject(SerializableObject):
 
         Default is error, but warnings can be forbidden.
         """
-        return not self.check_list().checks_above_level(level=level)
+        return not self.check_list(level=level).checks_above_level(level=level)
 
     def copy(self, deep: bool = True, memo=None):
         """
-- 
2.43.0


From c1e9d55e6b3cca0a01a4cb7ca580842a4e1bbf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:21 +0000
Subject: [PATCH 093/134] fix: type check ignored the requested level for
 builtins

---
 dessia_common/checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/checks.py b/dessia_common/checks.py
index 5b25f29..cde8c2f 100644
--- a/dessia_common/checks.py
+++ b/dessia_common/checks.py
@@ -142,11 +142,11 @@ def type_check(value, expected_type, level: str = 'error'):
     This is experimental!
     """
     if expected_type is int:
-        return is_int(value)
+        return is_int(value, level=level)
     if expected_type is float:
-        return is_float(value)
+        return is_float(value, level=level)
     if expected_type is str:
-        return is_str(value)
+        return is_str(value, level=level)
 
     if not isinstance(value, expected_type):
         return CheckList([FailedCheck(f'Value {value} is not of type {expected_type}')])
-- 
2.43.0


From e36283fc7f475ea226fd3c76cf9234e2c1c056fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:21 +0000
Subject: [PATCH 094/134] fix: graphs whose nodes have a label but no name
 could not be displayed

---
 dessia_common/displays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/displays.py b/dessia_common/displays.py
index 16c0a59..87a4555 100644
--- a/dessia_common/displays.py
+++ b/dessia_common/displays.py
@@ -131,7 +131,7 @@ def networkx_to_visjs_data(networkx_graph: Graph):
         elif "name" in node_dict and "label" not in node_dict:
             node_data["label"] = node_dict["name"]
         else:
-            node_data["label"] = node_dict["name"] + node_dict["label"]
+            node_data["label"] = node_dict.get("name", "") + node_dict["label"]
 
         if "shape" not in node_dict:
             node_data["shape"] = "circular"
-- 
2.43.0


From 490bea0b418949fa168c7f20324dfc3af9f648e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:08 +0000
Subject: [PATCH 095/134] fix: displays of workflow runs failed when a display
 block takes a workflow input

---
 dessia_common/workflow/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index bb64ee2..2a7ad01 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -690,7 +690,10 @@ class Workflow(Block):
             for i, input_ in enumerate(block.inputs):
                 incoming_pipe = self.variable_input_pipe(input_)
                 if i == block._displayable_input:
-                    reference_path = f"{reference_path}/values/{self.pipes.index(incoming_pipe)}"
+                    if incoming_pipe is None:
+                        reference_path = f"{reference_path}/input_values/{self.input_index(input_)}"
+                    else:
+                        reference_path = f"{reference_path}/values/{self.pipes.index(incoming_pipe)}"
             block_index = self.blocks.index(block)
             settings = block._display_settings(block_index=block_index, reference_path=reference_path)
             if settings is not None:
-- 
2.43.0


From 88823a2dad7770217d3ede293a286a866ccb9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:08 +0000
Subject: [PATCH 096/134] fix: displays of workflow states could not be
 computed

---
 dessia_common/workflow/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 2a7ad01..4349688 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1940,6 +1940,10 @@ class WorkflowState(DessiaObject):
         display_settings.extend(self.workflow.blocks_display_settings)
         return display_settings
 
+    def _display_settings_from_selector(self, selector: str):
+        """ Get display settings from given selector. """
+        return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
+
     def block_display(self, block_index: int, reference_path: str = "#"):
         """ Compute the display of associated block to use integrate it in the workflow run displays. """
         self.activate_inputs()
@@ -2241,10 +2245,6 @@ class WorkflowRun(WorkflowState):
         documentation.load_by_default = not any(displays_by_default)
         return [documentation] + block_settings
 
-    def _display_settings_from_selector(self, selector: str):
-        """ Get display settings from given selector. """
-        return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
-
     def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
-- 
2.43.0


From aaf6f49314b475d8e8fd9a3960f71353e0701b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:08 +0000
Subject: [PATCH 097/134] fix: workflow runs could not compute the same view of
 two different objects

---
 dessia_common/workflow/core.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 4349688..83c8072 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -649,13 +649,24 @@ class Workflow(Block):
     def block_selector(self, block: Block) -> str:
         """ Get or create a generic selector for given block. """
         if block in self.display_blocks and block.selector:
-            if isinstance(block.selector, ViewType):
-                return block.selector.name
-            if isinstance(block.selector, str):
-                # Backward compatibility dessia_common < 0.14.0
-                return block.selector
+            # Selectors that are strings : backward compatibility dessia_common < 0.14.0
+            selector = getattr(block.selector, "name", block.selector)
+            if not self._is_display_selector_taken(block):
+                return selector
+            # Several blocks can display the same view of different objects
+            return f"{selector} ({self.blocks.index(block)})"
         return f"{self.selector_name(block)} ({self.blocks.index(block)})"
 
+    def _is_display_selector_taken(self, block: Block) -> bool:
+        """ Return whether a display block placed before the given one has the same selector. """
+        selector = getattr(block.selector, "name", block.selector)
+        for display_block in self.display_blocks:
+            if display_block is block:
+                return False
+            if display_block.selector and getattr(display_block.selector, "name", display_block.selector) == selector:
+                return True
+        return False
+
     def selector_name(self, block: Block) -> str:
         """ Compute name for selector. """
         name = block.name
-- 
2.43.0


From c85423c773404f9928189bbe0cfb41748ceb1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:08 +0000
Subject: [PATCH 098/134] fix: a markdown display that is not a text made all
 displays of the object fail

---
 dessia_common/core.py          | 7 +++----
 dessia_common/workflow/core.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 684a0c0..7411ed7 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -435,16 +435,15 @@ class DessiaObject(SerializableObject):
     def _display_from_selector(self, selector: str) -> DisplayObject:
         """ Generate the display from the selector. """
         display_setting = self._display_settings_from_selector(selector)
+        reference_path = display_setting.reference_path  # Trying this
         track = ""
         try:
             display = attrmethod_getter(self, display_setting.method)(**display_setting.arguments)
             data = serialize(display) if display_setting.serialize_data else display
+            return DisplayObject(type_=display_setting.type, data=data, reference_path=reference_path, traceback=track)
         except Exception:
-            data = None
             track = tb.format_exc()
-
-        reference_path = display_setting.reference_path  # Trying this
-        return DisplayObject(type_=display_setting.type, data=data, reference_path=reference_path, traceback=track)
+        return DisplayObject(type_=display_setting.type, data=None, reference_path=reference_path, traceback=track)
 
     @classmethod
     def _display_settings_from_selector(cls, selector: str):
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 83c8072..692aa3b 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -25,7 +25,7 @@ from dessia_common.utils.types import recursive_type, typematch, is_file_or_file
 from dessia_common.utils.copy import deepcopy_value
 from dessia_common.utils.diff import choose_hash
 from dessia_common.utils.helpers import prettyname, is_sequence
-from dessia_common.typings import JsonSerializable, ViewType
+from dessia_common.typings import JsonSerializable
 from dessia_common.files import StringFile, BinaryFile
 from dessia_common.displays import DisplaySetting
 from dessia_common.errors import SerializationError, ExtractionError
-- 
2.43.0


From cfb909906353a61af6c74cf22c038a4aa1dc43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 099/134] fix: index of a value in a list was wrong on
 decreasing segments and failed on flat ones

---
 dessia_common/utils/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/interpolation.py b/dessia_common/utils/interpolation.py
index b928f2b..53efd65 100644
--- a/dessia_common/utils/interpolation.py
+++ b/dessia_common/utils/interpolation.py
@@ -10,7 +10,9 @@ def istep_from_value_on_list(list_: List[float], value: float,
     for ipoint, (point1, point2) in enumerate(zip(list_[:-1], list_[1:])):
         point1_s, point2_s = sorted((point1, point2))
         if point1_s <= value <= point2_s:
-            alpha = (value - point1_s) / (point2_s - point1_s)
+            if point1 == point2:
+                return float(ipoint)
+            alpha = (value - point1) / (point2 - point1)
             if alpha < 0 or alpha > 1:
                 raise ValueError
             return ipoint + alpha
-- 
2.43.0


From adb39cd82cda7874bd3f76f6b33e11d038113214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 100/134] fix: periodic values on both sides of the period were
 not equal

---
 dessia_common/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 7411ed7..c0b6e5f 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -784,8 +784,9 @@ class Parameter(DessiaObject):
     def are_values_equal(self, value1, value2, tol=1e-2):
         """ Check equality according to given tolerance. """
         if self.periodicity is not None:
-            value1 = value1 % self.periodicity
-            value2 = value2 % self.periodicity
+            # Shortest difference between values, as they might be on both sides of the period
+            difference = (value1 - value2) % self.periodicity
+            return math.isclose(min(difference, self.periodicity - difference), 0, abs_tol=tol)
 
         return math.isclose(value1, value2, abs_tol=tol)
 
-- 
2.43.0


From 8ea90f09d3165943bf59d6d00c437c3067575b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 101/134] fix: gradient following a CMA optimization did not
 start from the point it found

---
 dessia_common/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/optimization.py b/dessia_common/optimization.py
index a995b7f..3df65f4 100644
--- a/dessia_common/optimization.py
+++ b/dessia_common/optimization.py
@@ -52,6 +52,8 @@ class BoundedAttributeValue(DessiaObject):
 
     def dimensionless_value(self, value: float):
         """ Method to compute the dimensionless value out of the given one. """
+        if self.interval_length == 0:
+            return 0.
         return (value - self.min_value) / self.interval_length
 
 
@@ -163,7 +165,8 @@ class InstantiatingModelOptimizer(Optimizer):
     def optimize_cma_then_gradient(self, method: str = 'L-BFGS-B'):
         """ Optimize a problem by combining a CMA for global optimum search and gradient for polishing. """
         model_cma, fx_cma = self.optimize_cma()
-        x0 = npy.array([getattr(model_cma, attr.attribute_name) for attr in self.optimization_bounds])
+        x0 = npy.array([attr.dimensionless_value(getattr(model_cma, attr.attribute_name))
+                        for attr in self.optimization_bounds])
         model, best_fx = self.optimize_gradient(method=method, x0=x0)
         if fx_cma <= best_fx:
             model = model_cma
-- 
2.43.0


From 29866a76e295a8c4e0299619605dfa66bdc730eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 102/134] fix: markdown tables printed rows twice or lost some
 of them

---
 dessia_common/exports.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 37461bd..00aaff8 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -369,22 +369,15 @@ class MarkdownWriter:
         return string
 
     def _content_table(self, content: List[List[Any]]) -> str:
-        if self.table_limit is None:
+        if self.table_limit is None or len(content) <= self.table_limit:
             return self._table_rows_from_content(content)
 
-        table = ''
         half_table = int(self.table_limit / 2)
-
-        table += self._table_rows_from_content(content[:half_table])
-
-        if self.table_limit > 1:
-            if len(content) > self.table_limit:
-                table += f"| + {len(content) - self.table_limit} unprinted elements | |\n"
-
-            if len(content) > half_table:
-                table += self._table_rows_from_content(content[-half_table:])
-
-        return table
+        first_rows = content[:self.table_limit - half_table]
+        last_rows = content[len(content) - half_table:]
+        return (self._table_rows_from_content(first_rows)
+                + f"| + {len(content) - self.table_limit} unprinted elements | |\n"
+                + self._table_rows_from_content(last_rows))
 
     @staticmethod
     def print_name(object_) -> str:
-- 
2.43.0


From 0a5c0ce67b770be6f0dbc2368acd735657d928da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 103/134] fix: complex numbers and numpy integers could not be
 printed in markdown tables

---
 dessia_common/exports.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 00aaff8..248a80c 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 # -*- coding: utf-8 -*-
 """ Exports for dessia_common. """
+from numbers import Number
 from typing import List, Dict, Any, Sequence, Optional
 
 
@@ -326,7 +327,9 @@ class MarkdownWriter:
         return 'unnamed'
 
     def _value_to_str(self, value: Any) -> str:
-        if isinstance(value, (float, int, bool, complex)):
+        if isinstance(value, complex):
+            return str(complex(round(value.real, 6), round(value.imag, 6)))
+        if isinstance(value, Number):
             return str(round(value, 6))
         if isinstance(value, str):
             return value if value != '' else 'no value'
-- 
2.43.0


From 37a7ba55e766f2d343daba1f0e8a37ddacd8d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 104/134] fix: empty dicts were printed as lists in markdown
 tables

---
 dessia_common/exports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 248a80c..3fc6ddf 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -318,6 +318,8 @@ class MarkdownWriter:
         return printed_string
 
     def _dict_to_str(self, value: Dict):
+        if len(value) == 0:
+            return f"empty {type(value).__name__}"
         return self._sequence_to_str(list(value.values()))
 
     @staticmethod
-- 
2.43.0


From 4e2623af6bb12514153934aa5f5c19bc21c72f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 105/134] fix: classes of sequences were printed in a random
 order in markdown tables

---
 dessia_common/exports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index 3fc6ddf..d73130b 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -307,7 +307,7 @@ class MarkdownWriter:
 
         printed_string = f"{len(value)} "
 
-        all_class_names = list(set(subvalue.__class__.__name__ for subvalue in value))
+        all_class_names = list(dict.fromkeys(subvalue.__class__.__name__ for subvalue in value))
         if len(all_class_names) == 1:
             printed_string += ''.join([f"{all_class_names[0]}",
                                        f"{'s' if len(value) > 1 else ''}"])
-- 
2.43.0


From 2475686a7f15c104ca09c9b993e5b8a112d29748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 106/134] fix: values holding line breaks or pipes broke
 markdown tables

---
 dessia_common/document_generator.py | 2 +-
 dessia_common/exports.py            | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index 4d0814a..d786c66 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -288,7 +288,7 @@ class DocxWriter:
                     elements.append(Paragraph.from_markdown(markdown_text=line))
 
                 elif table_pattern.match(line) and not horizontal_line_pattern.match(line):
-                    row = line.strip('|').split('|')
+                    row = [cell.replace("\\|", "|") for cell in re.split(r"(?<!\\)\|", line[1:-1])]
                     if '---' not in line:
                         elements.append(Table(rows=[row]))
 
diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index d73130b..c48e0d7 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -364,7 +364,10 @@ class MarkdownWriter:
     def _table_line(self, row: List[Any]) -> str:
         line = "|"
         for value in row:
-            line += f" {self._string_in_table(self._value_to_str(value))} |"
+            cell = self._string_in_table(self._value_to_str(value))
+            # Line breaks and pipes would break the table
+            cell = " ".join(cell.splitlines()).replace("|", "\\|")
+            line += f" {cell} |"
         return line + "\n"
 
     def _table_rows_from_content(self, content: List[List[Any]]) -> str:
-- 
2.43.0


From 07bba89b23967b5817239778e9185a4920a5e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 107/134] fix: documents generated from markdown lost the
 levels of headings

---
 dessia_common/document_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index d786c66..3fd871a 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -99,7 +99,9 @@ class Heading:
     @classmethod
     def from_markdown(cls, markdown_text: str):
         """ Create a new Paragraph object from Markdown text. """
-        return cls(text=markdown_text.strip("#"), level=markdown_text.count("#"))
+        text = markdown_text.lstrip("#")
+        level = len(markdown_text) - len(text)
+        return cls(text=text.strip(), level=min(level, 9))
 
 
 class Paragraph:
@@ -215,7 +217,7 @@ class DocxWriter:
         The level of the heading is determined by the number of '#' characters in the text.
         For example, a single '#' character at the beginning of the text will create a level 1 heading.
         """
-        self.document.add_heading(text, level=text.count('#'))
+        Heading.from_markdown(text).add_to_document(self.document)
         return self
 
     def add_page_breaks(self, num_page_breaks: int):
@@ -307,7 +309,7 @@ class DocxWriter:
             if isinstance(item, Paragraph):
                 docx_writer.paragraphs = [item]
                 if item.text.startswith('#'):
-                    docx_writer.add_paragraph_as_heading(text=item.text.strip(' # '))
+                    docx_writer.add_paragraph_as_heading(text=item.text)
                 else:
                     docx_writer.add_paragraphs(add_heading=False)
             if isinstance(item, Table):
-- 
2.43.0


From 3af2375506e1db898eb2a1ccbf60ad7466c692d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 108/134] fix: documents generated from markdown lost lines
 holding dashes

---
 dessia_common/document_generator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dessia_common/document_generator.py b/dessia_common/document_generator.py
index 3fd871a..4d16277 100644
--- a/dessia_common/document_generator.py
+++ b/dessia_common/document_generator.py
@@ -280,23 +280,26 @@ class DocxWriter:
         """
         elements, headings = [], []
         table_pattern = re.compile(r'^\|.*\|$')
-        horizontal_line_pattern = re.compile(r'^\s*\|?\s*-+\s*\|?\s*(-+\s*\|?)*\s*$')
+        table_rows = 0
 
         for line in markdown_text.split('\n'):
             line = line.strip()
+            table_rows = table_rows + 1 if table_pattern.match(line) else 0
             if line:
                 if line.startswith('#'):
                     headings.append(Heading.from_markdown(line))
                     elements.append(Paragraph.from_markdown(markdown_text=line))
 
-                elif table_pattern.match(line) and not horizontal_line_pattern.match(line):
+                elif table_rows == 2 and set(line) <= set("|-: "):
+                    # Separator between the titles of a table and its content
+                    continue
+
+                elif table_rows:
                     row = [cell.replace("\\|", "|") for cell in re.split(r"(?<!\\)\|", line[1:-1])]
-                    if '---' not in line:
-                        elements.append(Table(rows=[row]))
+                    elements.append(Table(rows=[row]))
 
-                else:
-                    if '---' not in line:
-                        elements.append(Paragraph.from_markdown(markdown_text=line))
+                elif not re.match(r'^-{3,}$', line):
+                    elements.append(Paragraph.from_markdown(markdown_text=line))
         return headings, elements
 
     @classmethod
-- 
2.43.0


From f1e304634231da1a2ccc738b6e8c9f76052b443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 109/134] fix: runs of workflows whose output is not an object
 could not be rendered to markdown

---
 dessia_common/workflow/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 692aa3b..b8b077e 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2319,6 +2319,10 @@ class WorkflowRun(WorkflowState):
 
         if is_sequence(self.output_value):
             output_table = f"Output is a sequence of {len(self.output_value)} elements"
+        elif isinstance(self.output_value, (float, dict)) or not hasattr(self.output_value, "__dict__"):
+            # Values without attributes
+            output_table = writer.matrix_table([["Output", type(self.output_value).__name__, self.output_value]],
+                                               writer.object_titles())
         else:
             output_table = writer.object_table(self.output_value)
 
-- 
2.43.0


From abd10fd49ec8f67034fcebdbf5e148ab557d30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:46 +0000
Subject: [PATCH 110/134] fix: generation of a decision tree whose last node is
 invalid never ended

---
 dessia_common/generation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/generation.py b/dessia_common/generation.py
index 65e7c64..e46d583 100644
--- a/dessia_common/generation.py
+++ b/dessia_common/generation.py
@@ -120,7 +120,10 @@ class DecisionTreeGenerator(TreeGenerator):
                 number_possibilities = self.number_possibilities_from_model(model)
                 if verbose:
                     print('number possibilities', number_possibilities)
-                self.tree.SetCurrentNodeNumberPossibilities(number_possibilities)
+            else:
+                # Nothing to explore below invalid nodes. The tree needs to know it to find out that it is finished
+                number_possibilities = 0
+            self.tree.SetCurrentNodeNumberPossibilities(number_possibilities)
 
             # TODO create a function in dectree to know if a leaf
             if valid and (number_possibilities == 0):
-- 
2.43.0


From 201c99c390899b8c646c316f44726d38f7c4e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:25 +0000
Subject: [PATCH 111/134] fix: interactive states let a given value override a
 locked input, unlike full runs

---
 dessia_common/workflow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b8b077e..bcb1f65 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2078,6 +2078,8 @@ class WorkflowState(DessiaObject):
 
     def _activate_input(self, input_: Variable, value):  # Inputs must always be Typed
         """ Type-check, activate the variable and propagate the value to its pipe. """
+        if input_.locked:
+            value = input_.default_value
         # Type checking
         value_type_check(value, input_.type_)
         input_index = self.workflow.input_index(input_)
-- 
2.43.0


From 32ef1710dac864e9736af919c9c0699c88c217cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:25 +0000
Subject: [PATCH 112/134] fix: runs of workflows with many paths between their
 blocks never ended

---
 dessia_common/workflow/core.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index bcb1f65..c9b7e17 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -929,16 +929,14 @@ class Workflow(Block):
         output_block = self.block_from_variable(self.output)
         output_upstreams = self.upstream_blocks(output_block)
         runtime_blocks = [output_block] + output_upstreams
-        i = 0
-        while output_upstreams and i <= len(self.blocks):
+        while output_upstreams:
             block_upstreams = []
             for block in output_upstreams:
-                block_upstreams.extend(self.upstream_blocks(block))
+                for candidate in self.upstream_blocks(block):
+                    if candidate not in runtime_blocks:
+                        runtime_blocks.append(candidate)
+                        block_upstreams.append(candidate)
             output_upstreams = block_upstreams
-            for candidate in block_upstreams:
-                if candidate not in runtime_blocks:
-                    runtime_blocks.append(candidate)
-            i += 1
         return runtime_blocks
 
     def is_block_secondary(self, block: Block) -> bool:
-- 
2.43.0


From be53850ab97067d9a3cb85edba5ed80d358d8b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:25 +0000
Subject: [PATCH 113/134] fix: layout of workflows with many paths between
 their blocks never ended

---
 dessia_common/graph.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dessia_common/graph.py b/dessia_common/graph.py
index f9c09b9..7dd8491 100644
--- a/dessia_common/graph.py
+++ b/dessia_common/graph.py
@@ -86,11 +86,17 @@ def get_column_by_node(graph: nx.DiGraph):
     for node in longest_path:
         columns[node] = longest_path.index(node)
 
-    for node in [n for n in nx.topological_sort(graph) if n not in longest_path]:
-        try:
-            path = get_longest_path(graph, node, end_of_path)
-            columns[node] = len(longest_path) - len(path)
-        except nx.exception.NetworkXNoPath:
+    sorted_nodes = list(nx.topological_sort(graph))
+    lengths = {end_of_path: 1}  # Number of nodes of the longest path from each node to end_of_path
+    for node in reversed(sorted_nodes):
+        successors_lengths = [lengths[s] for s in graph.successors(node) if s in lengths]
+        if successors_lengths and node != end_of_path:
+            lengths[node] = 1 + max(successors_lengths)
+
+    for node in [n for n in sorted_nodes if n not in longest_path]:
+        if node in lengths:
+            columns[node] = len(longest_path) - lengths[node]
+        else:
             # There is no path from node to end_of_path
             columns[node] = max((columns[p] + 1 for p in graph.predecessors(node)), default=0)
 
-- 
2.43.0


From f21563519e7240b13ea2ba4394c2ada3ab74fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:30 +0000
Subject: [PATCH 114/134] fix: runs of workflows with some tens of blocks took
 minutes, activable blocks were computed once per block

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index c9b7e17..d77e7d1 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2023,7 +2023,8 @@ class WorkflowState(DessiaObject):
         something_activated = True
         while something_activated:
             something_activated = False
-            blocks = [b for b in self.workflow.runtime_blocks if b in self._activable_blocks()]
+            activable_blocks = self._activable_blocks()
+            blocks = [b for b in self.workflow.runtime_blocks if b in activable_blocks]
             for block in blocks:
                 evaluated_blocks.append(block)
                 block_index = self.workflow.blocks.index(block)
-- 
2.43.0


From 481a86e122756a184a50388e6d2c15b095a485e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:40 +0000
Subject: [PATCH 115/134] fix: copies and arguments of redefined classes used
 the signature of their namesake

---
 dessia_common/core.py         | 29 +++++++++++++++--------------
 dessia_common/schemas/core.py | 11 ++++++-----
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index c0b6e5f..ac4cb6d 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -189,13 +189,14 @@ class DessiaObject(SerializableObject):
 
     def dict_to_arguments(self, dict_, method):
         """ Transform serialized argument of a method to python objects ready to use in method evaluation. """
-        method_full_name = f"{self.full_classname}.{method}"
-        if method_full_name in _fullargsspec_cache:
-            args_specs = _fullargsspec_cache[method_full_name]
+        # Several classes can have the same name (redefined in a notebook, for example)
+        cache_key = (self.__class__, method)
+        if cache_key in _fullargsspec_cache:
+            args_specs = _fullargsspec_cache[cache_key]
         else:
             method_object = getattr(self, method)
             args_specs = inspect.getfullargspec(method_object)
-            _fullargsspec_cache[method_full_name] = args_specs
+            _fullargsspec_cache[cache_key] = args_specs
 
         allowed_args = args_specs.args[1:]
 
@@ -331,12 +332,12 @@ class DessiaObject(SerializableObject):
 
     def __copy__(self):
         """ Generic copy use init of objects. """
-        class_name = self.full_classname
-        if class_name in _fullargsspec_cache:
-            class_argspec = _fullargsspec_cache[class_name]
+        class_ = self.__class__
+        if class_ in _fullargsspec_cache:
+            class_argspec = _fullargsspec_cache[class_]
         else:
-            class_argspec = inspect.getfullargspec(self.__class__)
-            _fullargsspec_cache[class_name] = class_argspec
+            class_argspec = inspect.getfullargspec(class_)
+            _fullargsspec_cache[class_] = class_argspec
 
         dict_ = {}
         for arg in class_argspec.args + class_argspec.kwonlyargs:
@@ -350,12 +351,12 @@ class DessiaObject(SerializableObject):
 
     def __deepcopy__(self, memo=None):
         """ Generic deep copy use init functions of objects. """
-        class_name = self.full_classname
-        if class_name in _fullargsspec_cache:
-            class_argspec = _fullargsspec_cache[class_name]
+        class_ = self.__class__
+        if class_ in _fullargsspec_cache:
+            class_argspec = _fullargsspec_cache[class_]
         else:
-            class_argspec = inspect.getfullargspec(self.__class__)
-            _fullargsspec_cache[class_name] = class_argspec
+            class_argspec = inspect.getfullargspec(class_)
+            _fullargsspec_cache[class_] = class_argspec
 
         if memo is None:
             memo = {}
diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 07e62d2..b9454d7 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1705,12 +1705,13 @@ class EnumProperty(TypingProperty):
 
 def inspect_arguments(method: Callable, merge: bool = False) -> Tuple[List[str], Dict[str, Any]]:
     """ Wrapper around 'split_default_argument' method in order to call it from a method object. """
-    method_full_name = f"{method.__module__}.{method.__qualname__}"
-    if method_full_name in _fullargsspec_cache:
-        argspecs = _fullargsspec_cache[method_full_name]
+    # Several methods can have the same name (redefined in a notebook, for example)
+    function = getattr(method, "__func__", method)
+    if function in _fullargsspec_cache:
+        argspecs = _fullargsspec_cache[function]
     else:
-        argspecs = inspect.getfullargspec(method)
-        _fullargsspec_cache[method_full_name] = argspecs
+        argspecs = inspect.getfullargspec(function)
+        _fullargsspec_cache[function] = argspecs
     return split_default_args(argspecs=argspecs, merge=merge)
 
 
-- 
2.43.0


From 30f3b1c94ce713a647d650e4dfb7b365ec28c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:57 +0000
Subject: [PATCH 116/134] fix: workbooks rebuilt a sub-object under an
 attribute named like a collection as that collection

---
 dessia_common/excel_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index d2bf61a..a481fd9 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -147,10 +147,11 @@ class ExcelReader:
             contain any of the container types.
           - Otherwise, 'values' itself.
         """
-        container = ["Dict", "List", "Set", "Tuple"]
+        # Paths of objects (in cells of direct sub-objects) may hold these words, as 'shortList' does
+        container = ("Dict of ", "List of ", "Set of ", "Tuple of ")
         target = self.get_location(cell)
         dict_keys = []
-        if "Dict" in cell.value:
+        if cell.value.startswith("Dict of "):
             actual_value = {}
             sheet = self.workbook[target[0]]
             column = sheet["A"]
@@ -162,7 +163,7 @@ class ExcelReader:
 
             return actual_value
 
-        if isinstance(values, list) and (not any(type_ in cell.value for type_ in container)):
+        if isinstance(values, list) and not cell.value.startswith(container):
             actual_value = values[int(target[1][1:]) - 4]
         else:
             actual_value = values
-- 
2.43.0


From 35bb425c0149ac33f36b06cf760b66c7f0bba2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 117/134] fix: archives lost one of two files of the same name

---
 dessia_common/files.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dessia_common/files.py b/dessia_common/files.py
index 3e546fa..2374247 100644
--- a/dessia_common/files.py
+++ b/dessia_common/files.py
@@ -208,13 +208,26 @@ class DocxFile(BinaryFile):
     extension = 'docx'
 
 
+def _available_filename(zip_archive, filename: str) -> str:
+    """ Compute a name that no file of the archive has, as two files of an archive cannot have the same one. """
+    radical, dot, extension = filename.rpartition(".")
+    if not dot:
+        radical, extension = filename, ""
+    names = set(zip_archive.namelist())
+    available, number = filename, 1
+    while available in names:
+        available = f"{radical}_{number}{dot}{extension}"
+        number += 1
+    return available
+
+
 def generate_archive(zip_archive, value):
     """ Write the contents of a file-like object to a ZipFile archive. """
     if isinstance(value, StringFile):
-        with zip_archive.open(value.filename, 'w') as file:
+        with zip_archive.open(_available_filename(zip_archive, value.filename), 'w') as file:
             file.write(value.getvalue().encode('utf-8'))
     elif isinstance(value, BinaryFile):
-        with zip_archive.open(value.filename, 'w') as file:
+        with zip_archive.open(_available_filename(zip_archive, value.filename), 'w') as file:
             file.write(value.getbuffer())
     else:
         raise ValueError(f"Archive input is not a file-like object. Got '{value}' of type {type(value)}")
-- 
2.43.0


From 5fe49edec943167ab52dc820ad2efc74203a0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 118/134] fix: documents of workflow states raised, and after a
 failed block too

---
 dessia_common/workflow/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d77e7d1..42f8fb6 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1680,8 +1680,13 @@ class ExecutionInfo(DessiaObject):
     def to_markdown(self, **kwargs):
         """ Render to markdown. Require blocks for clean order. """
         table_content = []
+        after_block_memory_usage = dict(self.after_block_memory_usage)
         for block, mem_start in dict(self.before_block_memory_usage).items():
-            mem_end = dict(self.after_block_memory_usage)[block]
+            if block not in after_block_memory_usage:
+                # Evaluation of this block failed
+                table_content.append((block.name, f"{humanize.naturalsize(mem_start)}", "", ""))
+                continue
+            mem_end = after_block_memory_usage[block]
             mem_diff = mem_end - mem_start
             table_content.append((block.name, f"{humanize.naturalsize(mem_start)}", f"{humanize.naturalsize(mem_end)}",
                                   f"{humanize.naturalsize(mem_diff)}"))
@@ -2191,7 +2196,7 @@ class WorkflowState(DessiaObject):
     def to_markdown(self, **kwargs) -> str:
         """ Render to markdown. """
         template = dessia_common.templates.workflow_state_markdown_template
-        execution_info = self.execution_info.to_markdown(self.workflow.blocks)
+        execution_info = self.execution_info.to_markdown(blocks=self.workflow.blocks)
         return template.substitute(name=self.name, class_=self.__class__.__name__, progress=100 * self.progress,
                                    workflow_name=self.workflow.name, execution_info=execution_info)
 
-- 
2.43.0


From 0dd7120fb6fb240fd561bc2a8fe4c36420deb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 119/134] fix: runs whose output is a file or a value of
 another type could not be saved

---
 dessia_common/utils/types.py   | 5 +++--
 dessia_common/workflow/core.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index d42a7b3..f036f9e 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -278,8 +278,9 @@ def is_bson_valid(value, allow_nonstring_keys=False) -> Tuple[bool, str]:
 
 def recursive_type(obj):
     """ What is the difference with serialize typing (?). """
+    classname = f"{type(obj).__module__}.{type(obj).__name__}"
     if isinstance(obj, tuple(list(TYPING_EQUIVALENCES.keys()) + [dict])):
-        type_ = TYPES_STRINGS[type(obj)]
+        type_ = TYPES_STRINGS.get(type(obj), classname)
     elif isinstance(obj, CoreDessiaObject):
         type_ = obj.__module__ + '.' + obj.__class__.__name__
     elif hasattr(obj, 'output_type'):
@@ -291,7 +292,7 @@ def recursive_type(obj):
     elif obj is None:
         type_ = None
     else:
-        raise NotImplementedError(obj)
+        type_ = classname
     return type_
 
 
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 42f8fb6..c389e92 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1832,8 +1832,8 @@ class WorkflowState(DessiaObject):
 
         dict_["input_values"] = input_values
 
-        # Output value: priority for reference before values
-        if self.output_value is not None:
+        # Output value: priority for reference before values. Files are not serialized
+        if self.output_value is not None and not is_file_or_file_sequence(self.output_value):
             if use_pointers:
                 serialized_output_value, memo = serialize_with_pointers(self.output_value, memo=memo,
                                                                         path=f'{path}/output_value',
-- 
2.43.0


From 25a10842d2ebd53729a1d5229cd15f0c159b9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 120/134] fix: progress told during the evaluation of a
 secondary block went over 1

---
 dessia_common/workflow/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index c389e92..2e8efac 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1999,10 +1999,12 @@ class WorkflowState(DessiaObject):
         block = self.workflow.blocks[block_index]
         self.activate_inputs()
         if block in self._activable_blocks():
-            nblocks = len(self.workflow.blocks)
+            # Only blocks that still have to be evaluated to get workflow's output contribute to its progress
+            contributes = block in self.workflow.runtime_blocks and not self.activated_items[block]
+            weight = 1 / len(self.workflow.blocks) if contributes else 0
 
             def block_progress_callback(x):
-                progress_callback(self.progress + x / nblocks)
+                progress_callback(self.progress + x * weight)
 
             self._evaluate_block(block, progress_callback=block_progress_callback)
             progress_callback(self.progress)
-- 
2.43.0


From a1935fccb679b7e70bdfee926c8c98861dbe144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 121/134] fix: methods that raise a TypeError were called a
 second time by their block

---
 dessia_common/workflow/blocks.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 2f77063..13336fd 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -256,11 +256,17 @@ class ModelMethod(Block):
         """ Run given method with arguments that are in values. """
         arguments = {i.name: values[i] for i in self.inputs[1:] if i in values}
         method = getattr(values[self.inputs[0]], self.method_type.name)
-        try:
-            # Trying to inject progress callback to method
+        args_specs = inspect.getfullargspec(method)
+        if "progress_callback" in args_specs.args + args_specs.kwonlyargs:
             result = method(progress_callback=progress_callback, **arguments)
-        except TypeError:
+        elif args_specs.varkw is None:
             result = method(**arguments)
+        else:
+            try:
+                # Trying to inject progress callback to method
+                result = method(progress_callback=progress_callback, **arguments)
+            except TypeError:
+                result = method(**arguments)
         return [result, values[self.inputs[0]]]
 
     def package_mix(self):
-- 
2.43.0


From 78a39ee8c26b78d0818834b7ee4ddd6b4ba19ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 122/134] fix: clusters of an empty dataset could not be
 computed, plotted or exported

---
 dessia_common/datatools/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index f5d352f..80e4756 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -71,7 +71,7 @@ class ClusteredDataset(Dataset):
 
     def to_xlsx_stream(self, stream):
         """ Export the object to an XLSX to a given stream. """
-        if not isinstance(self.dessia_objects[0], Dataset):
+        if len(self) > 0 and not isinstance(self.dessia_objects[0], Dataset):
             writer = XLSXWriter(self.clustered_sublists())
         else:
             writer = XLSXWriter(self)
@@ -152,7 +152,7 @@ class ClusteredDataset(Dataset):
         return ClusteredDataset(new_dessia_objects, unic_labels, name=self.name + "_split")
 
     def _check_transform_sublists(self):
-        if not isinstance(self.dessia_objects[0], Dataset):
+        if len(self) == 0 or not isinstance(self.dessia_objects[0], Dataset):
             return self.clustered_sublists()
         return self[:]
 
@@ -298,7 +298,7 @@ class ClusteredDataset(Dataset):
 
         If dessia_objects are Dataset, merge all Dataset to plot them in one.
         """
-        if isinstance(self.dessia_objects[0], Dataset):
+        if len(self) > 0 and isinstance(self.dessia_objects[0], Dataset):
             plotted_clist = self._merge_sublists()
             return plotted_clist.plot_data(reference_path=reference_path, **kwargs)
         return Dataset.plot_data(self, reference_path=reference_path, **kwargs)
-- 
2.43.0


From 01eea477afeee4d3537c45170b0264e157bbda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:16 +0000
Subject: [PATCH 123/134] fix: blocks of classes of the same name in different
 modules were equal

---
 dessia_common/workflow/blocks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 13336fd..14b9a99 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -98,8 +98,8 @@ class InstantiateModel(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.model_class.__name__
-        other_classname = other.model_class.__name__
+        classname = full_classname(object_=self.model_class, compute_for="class")
+        other_classname = full_classname(object_=other.model_class, compute_for="class")
         return super().equivalent(other) and classname == other_classname
 
     @classmethod
@@ -162,8 +162,8 @@ class ClassMethod(Block):
 
     def equivalent(self, other: 'ClassMethod'):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.method_type.class_.__name__
-        other_classname = other.method_type.class_.__name__
+        classname = full_classname(object_=self.method_type.class_, compute_for="class")
+        other_classname = full_classname(object_=other.method_type.class_, compute_for="class")
         same_class = classname == other_classname
         same_method = self.method_type.name == other.method_type.name
         return super().equivalent(other) and same_class and same_method
-- 
2.43.0


From 84aed468955832a4d53a83945b44d4105d046022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:09 +0000
Subject: [PATCH 124/134] fix: pointers that go through several others could
 not be read, or were read unshared

---
 dessia_common/serialization.py | 46 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index e49e918..3cc4e84 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -567,6 +567,18 @@ def find_references_dict(dict_, path):
     return references
 
 
+def resolve_pointer(pointer, refs_by_path, depth=0):
+    """ Give the path of the element that a pointer designates, following the pointers met on the way. """
+    path = '#'
+    for segment in pointer.split('/')[1:]:
+        path = f'{path}/{segment}'
+        if path in refs_by_path:
+            if depth > len(refs_by_path):
+                raise NotImplementedError('Cycles in jsonpointers not handled')
+            path = resolve_pointer(refs_by_path[path], refs_by_path, depth + 1)
+    return path
+
+
 def pointer_graph(value):
     """
     Create a graph of sub-attributes of an object.
@@ -617,28 +629,18 @@ def pointer_graph(value):
     refs_by_path = {r[0]: r[1] for r in references}
     extra_edges = []
     new_paths = {}
-    for path, point_at in references:  # loop over all refs?
-        current_node = point_at
-        last_name_change = None
-
-        while current_node != '#':
-            if current_node in refs_by_path:
-
-                extra_edges.append((path, refs_by_path[current_node]))
-                last_name_change = (current_node, refs_by_path[current_node])
-
-            # Going up
-            current_node = '/'.join(current_node.split('/')[:-1])
-
-        if last_name_change:
-            # marking as new path from top level pointer
-            segments = point_at.split('/')
-            for i in range(len(segments) - 1):
-                node = '/'.join(segments[:i + 2])
-                new_path = node.replace(*last_name_change)
-                if new_path != node:
-                    new_paths[node] = new_path
-                    extra_edges.append((node, new_paths[node]))
+    for _, point_at in references:
+        # Elements designated through other pointers are the ones found where these pointers lead
+        node = '#'
+        for segment in point_at.split('/')[1:]:
+            node = f'{node}/{segment}'
+            new_path = resolve_pointer(node, refs_by_path)
+            if new_path != node and node not in refs_by_path:
+                new_paths[node] = new_path
+                extra_edges.append((node, new_path))
+                segments = new_path.split('/')
+                graph.add_edges_from((('/'.join(segments[:i]), '/'.join(segments[:i + 1]))
+                                      for i in range(1, len(segments))), path=True)
 
     graph.add_edges_from(extra_edges, path=False)
 
-- 
2.43.0


From d20d40e595cbcab1dc04415232d12f4376f09626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 125/134] fix: display blocks read from dicts of older versions
 could not be displayed

---
 dessia_common/workflow/blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 14b9a99..184c1c3 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -731,14 +731,15 @@ class Display(Block):
     def _display_settings(self, block_index: int, reference_path: str = "#") -> DisplaySetting:
         """ Compute block's display settings. """
         arguments = {"block_index": block_index, "reference_path": reference_path}
-        return DisplaySetting(selector=self.selector.name, type_=self.type_, method="block_display",
+        selector = getattr(self.selector, "name", self.selector)  # Deprecated blocks define selectors as strings
+        return DisplaySetting(selector=selector, type_=self.type_, method="block_display",
                               serialize_data=self.serialize, arguments=arguments,
                               load_by_default=self.load_by_default)
 
     def evaluate(self, values, **kwargs):
         """ Run method defined by selector's display_setting and compute corresponding DisplayObject. """
         object_ = values[self.inputs[0]]
-        settings = object_._display_settings_from_selector(self.selector.name)
+        settings = object_._display_settings_from_selector(getattr(self.selector, "name", self.selector))
         method = settings.method
         if "progress_callback" in kwargs:
             # User methods do not necessarily implement progress callback
-- 
2.43.0


From f387dc80407ce7f4810a7e22bbc3c84409339dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:43 +0000
Subject: [PATCH 126/134] fix: workflows without output could not hold
 connected displays or exports

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 2e8efac..197d3da 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -925,7 +925,9 @@ class Workflow(Block):
     @property
     def runtime_blocks(self):
         """ Return blocks that are upstream for output. """
-        # TODO Check what's happening when output is null (incomplete workflow)
+        if self.output is None:
+            # Incomplete workflow
+            return []
         output_block = self.block_from_variable(self.output)
         output_upstreams = self.upstream_blocks(output_block)
         runtime_blocks = [output_block] + output_upstreams
-- 
2.43.0


From 5f03d3141a56d0dfc2f8c673e453e2147ce98852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:22 +0000
Subject: [PATCH 127/134] fix: features written with capitals could not be read
 from objects

---
 dessia_common/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index ac4cb6d..7073517 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -644,7 +644,12 @@ class DessiaObject(SerializableObject):
         """ Compute vector from object. """
         vectored_objects = []
         for feature in self.vector_features():
-            vectored_objects.append(dch.get_in_object_from_path(self, feature.lower()))
+            try:
+                value = dch.get_in_object_from_path(self, feature)
+            except AttributeError:
+                # Feature may be the title of a lower case attribute
+                value = dch.get_in_object_from_path(self, feature.lower())
+            vectored_objects.append(value)
         return vectored_objects
 
     @classmethod
-- 
2.43.0


From fc542b5d3f8aaeaa29139c42458a21157f6fcdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:22 +0000
Subject: [PATCH 128/134] fix: default vector features came in an order that
 changed at each execution

---
 dessia_common/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 7073517..cdedf07 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -656,7 +656,8 @@ class DessiaObject(SerializableObject):
     def vector_features(cls):
         """ Get a list of vector features, or generate a default one. """
         if cls._vector_features is None:
-            return list(set(get_attribute_names(cls)).difference(get_attribute_names(DessiaObject)))
+            base_names = get_attribute_names(DessiaObject)
+            return [n for n in dict.fromkeys(get_attribute_names(cls)) if n not in base_names]
         return cls._vector_features
 
 
-- 
2.43.0


From 82b03d8dc19c3eaba691e21216ddd3109c5632cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:53 +0000
Subject: [PATCH 129/134] fix: states changed the dict of input values they
 were started from, and those of other states and runs

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 197d3da..26f7602 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1710,13 +1710,13 @@ class WorkflowState(DessiaObject):
         self.workflow = workflow
         if input_values is None:
             input_values = {}
-        self.input_values = input_values
+        self.input_values = dict(input_values)  # Given dict is not the state's: it may be used to start other ones
 
         if activated_items is None:
             activated_items = {p: False for p in workflow.pipes}
             activated_items.update({v: False for v in workflow.variables})
             activated_items.update({b: False for b in workflow.blocks})
-        self.activated_items = activated_items
+        self.activated_items = dict(activated_items)
 
         if values is None:
             values = {}
-- 
2.43.0


From 102e412240538a568d6adb7b6a7c7f5c60b1b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:41 +0000
Subject: [PATCH 130/134] fix: keys of dicts read from spreadsheets lost what
 they hold before a dot

---
 dessia_common/excel_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index a481fd9..1726b95 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -155,8 +155,12 @@ class ExcelReader:
             actual_value = {}
             sheet = self.workbook[target[0]]
             column = sheet["A"]
+            # Keys end the paths of the items and may hold dots themselves
+            holder_path = cell.parent.cell(row=cell.row, column=1).value
+            attribute = cell.parent.cell(row=3, column=cell.column).value
+            prefix = f"{holder_path}.{attribute}." if holder_path else f"{attribute}."
             for row in column[3:]:
-                dict_keys.append(row.value.split('.')[-1])
+                dict_keys.append(row.value[len(prefix):] if row.value.startswith(prefix) else row.value.split('.')[-1])
 
             for key, value in zip(dict_keys, values):
                 actual_value[key] = value
-- 
2.43.0


From d81b32035d237e5d0fefbfac40b9156eac26e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:41 +0000
Subject: [PATCH 131/134] fix: texts that look like python literals were not
 read as texts from spreadsheets

---
 dessia_common/excel_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 1726b95..3262e4f 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -174,20 +174,21 @@ class ExcelReader:
         return actual_value
 
     @staticmethod
-    def get_data(values: List[T], attributes: List[str], init_attributes: List[str]) -> Dict[str, T]:
+    def get_data(values: List[T], attributes: List[str], init_attributes: Dict[str, Any]) -> Dict[str, T]:
         """
         Extracts relevant data based on attributes and initial attributes for object instantiation.
 
         :param values: List containing values corresponding to attributes.
         :param attributes: List of attributes related to the object.
-        :param init_attributes: List of initial attributes for object instantiation.
+        :param init_attributes: Initial attributes for object instantiation, with their types.
 
         :return: Dictionary containing extracted object data based on matching attributes and initial attributes.
         """
         object_data = {}
         for attribute, value in zip(attributes, values):
             if attribute in init_attributes:
-                if isinstance(value, str):
+                is_text = init_attributes[attribute]["type"] is str and value != "None"
+                if isinstance(value, str) and not is_text:
                     try:
                         object_data[attribute] = literal_eval(value)
                     except (ValueError, SyntaxError):
-- 
2.43.0


From e870da4f7794baf85b922abdcdcd977803fcd695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:51 +0000
Subject: [PATCH 132/134] fix: texts starting with an equal sign were written
 as formulas in spreadsheets

---
 dessia_common/exports.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index c48e0d7..daef0e5 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -163,6 +163,9 @@ class XLSXWriter:
             cell_content = str(value)
 
         cell = sheet.cell(row=row_number, column=column_number, value=cell_content)
+        if isinstance(cell_content, str):
+            # Texts which look like formulas are still texts
+            cell.data_type = 's'
 
         cell_link = self.compute_cell_link(value=value)
         if cell_link:
@@ -176,6 +179,8 @@ class XLSXWriter:
         cell.border = self.thin_border
         if hasattr(obj, 'name'):
             cell = sheet.cell(row=row_number, column=2, value=obj.name)
+            if isinstance(obj.name, str):
+                cell.data_type = 's'
         else:
             cell = sheet.cell(row=row_number, column=2, value='No name in model')
 
-- 
2.43.0


From 9b697e73e125d3538030bffab5fdf9e8eb132753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:41 +0000
Subject: [PATCH 133/134] fix: keys of dicts lost their order in serialization
 with pointers

---
 dessia_common/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 3cc4e84..bb72dae 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -229,6 +229,8 @@ def serialize_dict_with_pointers(dict_, memo, path, id_method, id_memo):
         serialized_dict[key], memo = serialize_dict_with_pointers(dict_[key], memo=memo, path=value_path,
                                                                   id_method=id_method, id_memo=id_memo)
 
+    # Keys keep their order
+    serialized_dict = {key: serialized_dict[key] for key in dict_}
     if path == '#':
         add_references(serialized_dict, memo, id_memo)
     return serialized_dict, memo
-- 
2.43.0


From 48d073fdb8590e17c659834b1b0fccd94ca686c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 134/134] fix: measures equal to one of another class were
 written as pointers to it

---
 dessia_common/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index bb72dae..0677f6c 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -163,6 +163,9 @@ def serialize_with_pointers(value, memo=None, path='#', id_method=True, id_memo=
     # Objects (DessiaObjects and Regular)
     if isinstance(value, type):
         serialized = serialize_annotation(value)
+    elif isinstance(value, Measure):
+        # Measures are values, not shared objects: a mass can be equal to a distance
+        serialized = value.to_dict()
     elif hasattr(value, 'to_dict'):
         if value in memo:
             return _find_in_memo(memo, value, id_memo)
-- 
2.43.0

