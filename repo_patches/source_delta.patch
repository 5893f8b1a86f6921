From e54bbb3593d893741627e38d7890eb1e27031b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:34 +0000
Subject: [PATCH 01/35] fix: link setters check the new target before
 unlinking, and unlink by identity

Assigning an object of the wrong type to a process/material link removed the
existing back-reference before raising, and removing by equality could drop an
equal sibling from the other side's list.
---
 gemd/entity/object/ingredient_run.py  | 18 ++++++++---------
 gemd/entity/object/ingredient_spec.py | 18 ++++++++---------
 gemd/entity/object/material_run.py    | 12 ++++--------
 gemd/entity/object/material_spec.py   | 14 +++++---------
 gemd/entity/object/measurement_run.py | 15 +++++++-------
 gemd/entity/setters.py                | 28 +++++++++++++++++++++++++--
 6 files changed, 61 insertions(+), 44 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index 4be4a69..b228eb6 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -10,7 +10,7 @@ from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.dict_serializable import DictSerializable
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list
+from gemd.entity.setters import validate_list, remove_by_identity
 
 from typing import Optional, Union, Iterable, List, Mapping, Type, Any
 
@@ -123,17 +123,17 @@ class IngredientRun(BaseObject,
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
+        if process is not None and not isinstance(process, (LinkByUID, ProcessRun)):
+            raise TypeError("IngredientRun.process must be a ProcessRun or "
+                            "LinkByUID: {}".format(process))
+
         if isinstance(self._process, ProcessRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
+            remove_by_identity(self._process.ingredients, self)
 
-        if process is None or isinstance(process, (LinkByUID, ProcessRun)):
-            self._process = process
-            if isinstance(process, ProcessRun):
-                process.ingredients.append(self)
-        else:
-            raise TypeError("IngredientRun.process must be a ProcessRun or "
-                            "LinkByUID: {}".format(process))
+        self._process = process
+        if isinstance(process, ProcessRun):
+            process.ingredients.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 7a2f8d4..550b8fb 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -8,7 +8,7 @@ from gemd.entity.object.has_template import HasTemplate
 from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list
+from gemd.entity.setters import validate_list, remove_by_identity
 
 from typing import Optional, Union, Iterable, List, Mapping, Type
 
@@ -117,17 +117,17 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
+        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
+            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
+                            "LinkByUID: {}".format(process))
+
         if isinstance(self._process, ProcessSpec):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
+            remove_by_identity(self._process.ingredients, self)
 
-        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
-            self._process = process
-            if isinstance(process, ProcessSpec):
-                process.ingredients.append(self)
-        else:
-            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
-                            "LinkByUID: {}".format(process))
+        self._process = process
+        if isinstance(process, ProcessSpec):
+            process.ingredients.append(self)
 
     @property
     def template(self):
diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index a99fd70..c4bb236 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -74,17 +74,13 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
+        if process is not None and not isinstance(process, (ProcessRun, LinkByUID)):
+            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
         if self.process is not None and isinstance(self.process, ProcessRun):
             self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessRun):
+        self._process = process
+        if isinstance(process, ProcessRun):
             process._output_material = self
-            self._process = process
-        else:
-            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
 
     @property
     def measurements(self) -> List[MeasurementRunType]:
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 3410028..7651ade 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,18 +95,14 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
+        if process is not None and not isinstance(process, (ProcessSpec, LinkByUID)):
+            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
+                            f"instead received type {type(process)}: {process}")
         if self.process is not None and isinstance(self.process, ProcessSpec):
             self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessSpec):
+        self._process = process
+        if isinstance(process, ProcessSpec):
             process._output_material = self
-            self._process = process
-        else:
-            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
-                            f"instead received type {type(process)}: {process}")
 
     @staticmethod
     def _template_type() -> Type:
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 60e4230..f602dd6 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -13,6 +13,7 @@ from gemd.entity.attribute.property import Property
 from gemd.entity.source.performed_source import PerformedSource
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
+from gemd.entity.setters import remove_by_identity
 
 from typing import Optional, Union, Iterable, Mapping, Type
 
@@ -91,16 +92,16 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
+        if value is not None and not isinstance(value, (MaterialRun, LinkByUID)):
+            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+
         if isinstance(self._material, MaterialRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._material.measurements.remove(self)
+            remove_by_identity(self._material.measurements, self)
 
-        if value is None or isinstance(value, (MaterialRun, LinkByUID)):
-            self._material = value
-            if isinstance(value, MaterialRun):
-                value.measurements.append(self)
-        else:
-            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+        self._material = value
+        if isinstance(value, MaterialRun):
+            value.measurements.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
diff --git a/gemd/entity/setters.py b/gemd/entity/setters.py
index 6a86e64..1a8b708 100644
--- a/gemd/entity/setters.py
+++ b/gemd/entity/setters.py
@@ -1,9 +1,9 @@
 """Methods for setting and validating."""
 from gemd.entity.valid_list import ValidList
 
-from typing import Union, Iterable, Optional, Callable, Type, TypeVar
+from typing import Union, Iterable, List, Optional, Callable, Type, TypeVar
 
-__all__ = ["validate_list", "validate_str"]
+__all__ = ["validate_list", "validate_str", "remove_by_identity"]
 
 T = TypeVar('T')
 
@@ -62,3 +62,27 @@ def validate_str(obj) -> str:
     if not isinstance(obj, str):
         raise TypeError("Expected a string but got {} instead".format(type(obj)))
     return obj
+
+
+def remove_by_identity(sequence: List[T], obj: T) -> None:
+    """
+    Remove obj from a list, preferring obj itself over elements that are merely equal to it.
+
+    Parameters
+    ----------
+    sequence: List
+        The list to remove an element from.
+    obj: Any
+        The element to remove.
+
+    Raises
+    -------
+    ValueError
+        If nothing in the list is, or is equal to, `obj`.
+
+    """
+    index = next((i for i, x in enumerate(sequence) if x is obj), None)
+    if index is None:
+        sequence.remove(obj)
+    else:
+        del sequence[index]
-- 
2.43.0


From 1bdbdbefca05d739cf27b08c7c3e1f5d96ce0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:44 +0000
Subject: [PATCH 02/35] fix: a material displaced as its process' output no
 longer claims that process

Assigning a process that already has an output material left the previous
material pointing at the process; clearing it later also cleared the new
material's back-reference.
---
 gemd/entity/object/material_run.py  | 3 +++
 gemd/entity/object/material_spec.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index c4bb236..5ba7820 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -80,6 +80,9 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
             self.process._output_material = None
         self._process = process
         if isinstance(process, ProcessRun):
+            displaced = process._output_material
+            if displaced is not None and displaced is not self:
+                displaced._process = None  # A process has only one output material
             process._output_material = self
 
     @property
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 7651ade..c685781 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -102,6 +102,9 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
             self.process._output_material = None
         self._process = process
         if isinstance(process, ProcessSpec):
+            displaced = process._output_material
+            if displaced is not None and displaced is not self:
+                displaced._process = None  # A process has only one output material
             process._output_material = self
 
     @staticmethod
-- 
2.43.0


From 800a28a166431461cac00d8a5bd8247864684049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:37 +0000
Subject: [PATCH 03/35] fix: a valid absolute quantity is accepted when
 validation is fatal

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index 5c366eb..61127dc 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -120,6 +120,6 @@ class HasQuantities(object):
                 if level == WarningLevel.WARNING:
                     for message in messages:
                         logger.warning(message)
-                else:
+                elif len(messages) > 0:
                     raise ValueError("; ".join(messages))
             self._absolute_quantity = absolute_quantity
-- 
2.43.0


From f5ea3382b97dd55c5f0948a31a564ec75114ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 04/35] fix: validation_level restores the previous level when
 its body raises

---
 gemd/entity/bounds_validation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/bounds_validation.py b/gemd/entity/bounds_validation.py
index 3b8c039..3af5cfe 100644
--- a/gemd/entity/bounds_validation.py
+++ b/gemd/entity/bounds_validation.py
@@ -39,7 +39,8 @@ def validation_level(level: WarningLevel):
     global BOUNDS_VALIDATION
     # Swap values and store
     old_value, BOUNDS_VALIDATION = BOUNDS_VALIDATION, WarningLevel(level)
-    yield old_value  # Since we know the new level, the old one may be useful
-
-    # Restore previous value
-    BOUNDS_VALIDATION = old_value
+    try:
+        yield old_value  # Since we know the new level, the old one may be useful
+    finally:
+        # Restore previous value
+        BOUNDS_VALIDATION = old_value
-- 
2.43.0


From 30fc90a87082f168f926b384f7ec824e7f7599a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:56 +0000
Subject: [PATCH 05/35] fix: setting an attribute's value works when its
 template is a link

---
 gemd/entity/attribute/base_attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/attribute/base_attribute.py b/gemd/entity/attribute/base_attribute.py
index c38aa02..8820589 100644
--- a/gemd/entity/attribute/base_attribute.py
+++ b/gemd/entity/attribute/base_attribute.py
@@ -77,7 +77,7 @@ class BaseAttribute(DictSerializable):
         if value is None:
             self._value = None
         elif isinstance(value, BaseValue):
-            if self.template is not None:
+            if isinstance(self.template, AttributeTemplate):
                 self._check(self.template, value)
             self._value = value
         else:
-- 
2.43.0


From ee7a3a615f6f3361b76f15a212a0948a56548ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 06/35] fix: object templates that hold linked attribute
 templates can validate by name

---
 gemd/entity/template/has_condition_templates.py | 3 ++-
 gemd/entity/template/has_parameter_templates.py | 3 ++-
 gemd/entity/template/has_property_templates.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 6714b10..d8074ef 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -77,7 +77,8 @@ class HasConditionTemplates(HasDependencies):
             attr, bnd = next((x for x in self.conditions if condition.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.conditions if condition.name == x[0].name),
+            attr, bnd = next((x for x in self.conditions
+                              if isinstance(x[0], ConditionTemplate) and condition.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 423c3eb..a004ca1 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -77,7 +77,8 @@ class HasParameterTemplates(HasDependencies):
             attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.parameters if parameter.name == x[0].name),
+            attr, bnd = next((x for x in self.parameters
+                              if isinstance(x[0], ParameterTemplate) and parameter.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 0495fd2..818da97 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -79,7 +79,8 @@ class HasPropertyTemplates(HasDependencies):
             attr, bnd = next((x for x in self.properties if prop.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.properties if prop.name == x[0].name),
+            attr, bnd = next((x for x in self.properties
+                              if isinstance(x[0], PropertyTemplate) and prop.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
-- 
2.43.0


From 715fccf775830f9fa045f5ebf7ba9b9cd23e14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:15 +0000
Subject: [PATCH 07/35] fix: validated lists check += and slice assignment, and
 keep one-shot iterables

+= skipped the content check, slices were checked as if they were elements, and a
generator was exhausted by validation and so silently stored as an empty list.
---
 .../template/has_condition_templates.py       |  3 +-
 .../template/has_parameter_templates.py       |  3 +-
 .../entity/template/has_property_templates.py |  3 +-
 gemd/entity/valid_list.py                     | 63 ++++++++++++-------
 4 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index d8074ef..d86415d 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -63,7 +63,8 @@ class HasConditionTemplates(HasDependencies):
             List of this entity's condition template/bounds pairs
 
         """
-        if isinstance(conditions, Iterable):
+        if isinstance(conditions, Iterable) and not isinstance(conditions, str):
+            conditions = list(conditions)  # Only iterate once
             if any(isinstance(x, BaseBounds) for x in conditions):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index a004ca1..5dfbb81 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -63,7 +63,8 @@ class HasParameterTemplates(HasDependencies):
             List of this entity's parameter template/bounds pairs
 
         """
-        if isinstance(parameters, Iterable):
+        if isinstance(parameters, Iterable) and not isinstance(parameters, str):
+            parameters = list(parameters)  # Only iterate once
             if any(isinstance(x, BaseBounds) for x in parameters):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 818da97..c6d7874 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -61,7 +61,8 @@ class HasPropertyTemplates(HasDependencies):
             as any restrictions on those templates' bounds.
 
         """
-        if isinstance(properties, Iterable):
+        if isinstance(properties, Iterable) and not isinstance(properties, str):
+            properties = list(properties)  # Only iterate once
             if any(isinstance(x, BaseBounds) for x in properties):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 5264782..cf9f643 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -42,16 +42,16 @@ class ValidList(list):
         for elem in self._content_type:
             if not isinstance(elem, type):
                 raise TypeError('Content filters must be types')
-        for value in _list:
+        cache = list(_list)  # Only iterate once, since it may not be possible a second time
+        for value in cache:
             self._validate(value)
 
         self._trigger = None
-        cache = list(_list)
         if trigger is not None:
             if not callable(trigger):
                 raise TypeError('Triggers must be callable')
             self._trigger = trigger
-            for i, value in enumerate(_list):
+            for i, value in enumerate(cache):
                 result = self._trigger(value)
                 if result is not None:
                     cache[i] = result
@@ -81,6 +81,31 @@ class ValidList(list):
             raise TypeError(
                 'Value is not of an accepted type: {} =/= {}'.format(value, self._content_type))
 
+    def _prepare(self, values: Iterable) -> list:
+        """
+        Validate values, and apply the trigger to each of them.
+
+        Parameters
+        ----------
+        values: Iterable
+            The values that are about to be stored.
+
+        Returns
+        -------
+        list
+            The values to store (a new list, so that we don't edit a passed reference).
+
+        """
+        cache = list(values)
+        for value in cache:
+            self._validate(value)
+        if self._trigger is not None:
+            for i, value in enumerate(cache):
+                result = self._trigger(value)
+                if result is not None:
+                    cache[i] = result
+        return cache
+
     def __setitem__(self, index, value):
         """
         Called to implement assignment to self[index].
@@ -89,10 +114,10 @@ class ValidList(list):
 
         Parameters
         ----------
-        index: int
-            The index of the element of the list to change
+        index: int or slice
+            The index of the element (or elements) of the list to change
         value: Any
-            The value to set the element to
+            The value to set the element to, or an iterable of values for a slice
 
         Returns
         -------
@@ -100,11 +125,10 @@ class ValidList(list):
             `value` is inserted into the list at position `index`, if it is valid.
 
         """
-        self._validate(value)
-        if self._trigger is not None:
-            result = self._trigger(value)
-            if result is not None:
-                value = result
+        if isinstance(index, slice):
+            value = self._prepare(value)
+        else:
+            value, = self._prepare([value])
         super().__setitem__(index, value)
 
     def append(self, value):
@@ -148,20 +172,15 @@ class ValidList(list):
             `list_` is appended at the end of the list, if all its entries are valid.
 
         """
-        if isinstance(list_, Iterable):
-            for value in list_:
-                self._validate(value)
-        else:
+        if not isinstance(list_, Iterable):
             raise TypeError("'{}' object is not iterable".format(type(list_)))
 
-        cache = list(list_)  # So that we don't edit a passed reference
-        if self._trigger is not None:
-            for i, value in enumerate(cache):
-                result = self._trigger(value)
-                if result is not None:
-                    cache[i] = result
+        super().extend(self._prepare(list_))
 
-        super().extend(cache)
+    def __iadd__(self, list_):
+        """Called to implement self += list_; equivalent to self.extend(list_)."""
+        self.extend(list_)
+        return self
 
     def insert(self, i, value):
         """
-- 
2.43.0


From 6a1e45486866786b598cd64809a7c3039a025f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 08/35] fix: every way of adding to a CaseInsensitiveDict
 tracks key case

setdefault and |= bypassed the case index, update corrupted it when the incoming
keys conflicted with each other, and rejected the documented iterable of pairs.
---
 gemd/entity/case_insensitive_dict.py | 43 +++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 6aac2b3..9050d2e 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -157,25 +157,46 @@ class CaseInsensitiveDict(dict):
             Alternatively, the set of keyword arguments
 
         """
-        if mapping is None:
-            mapping = dict()
-            no_mapping = True
-        else:
-            no_mapping = False
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        # Verifies that the incoming keys do not conflict with each other
+        incoming = CaseInsensitiveDict(mapping, **kwargs)
+        for key in incoming:
             if key.lower() in self.lowercase_dict:
                 prev = self.lowercase_dict[key.lower()]
                 if prev != key:
                     raise ValueError(
                         "Key '{}' already exists in dict with different case: "
                         "'{}'".format(key, prev))
-        if no_mapping:
-            super().update(**kwargs)
-        else:
-            super().update(mapping, **kwargs)
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        super().update(incoming)
+        for key in incoming:
             self._register_key(key)
 
+    def __ior__(self, other) -> 'CaseInsensitiveDict':
+        """Called to implement self |= other; equivalent to self.update(other)."""
+        self.update(other)
+        return self
+
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        """
+        Get the value for a given case-insensitive key, storing a default if it is missing.
+
+        Parameters
+        ----------
+        key: str
+            The key to look up (possibly with a different casing).
+
+        default: Any
+            The value to store if the key is not present.
+
+        Returns
+        -------
+        Any
+            The value associated with the case-insensitive version of `key`.
+
+        """
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def _register_key(self, key: str) -> None:
         """
         Register a key to the dictionary.
-- 
2.43.0


From ba63e06024cf0fc8d4ef8f6ba22ffdb41d7fec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:36 +0000
Subject: [PATCH 09/35] fix: integer bounds accept every integer, not just
 those a float can represent

---
 gemd/entity/bounds/integer_bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/bounds/integer_bounds.py b/gemd/entity/bounds/integer_bounds.py
index bd27b99..f512294 100644
--- a/gemd/entity/bounds/integer_bounds.py
+++ b/gemd/entity/bounds/integer_bounds.py
@@ -37,7 +37,8 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @lower_bound.setter
     def lower_bound(self, value: int):
         """Set the lower endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not (isinstance(value, int) or isfinite(value)) \
+                or int(value) != value:
             raise ValueError(f"Lower bound must be given, integer and finite: {value}")
         if self.upper_bound is not None and value > self.upper_bound:
             raise ValueError(f"Upper bound ({self.upper_bound}) must be "
@@ -52,7 +53,8 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @upper_bound.setter
     def upper_bound(self, value: int):
         """Set the upper endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not (isinstance(value, int) or isfinite(value)) \
+                or int(value) != value:
             raise ValueError(f"Upper bound must be given, integer and finite: {value}")
         if self.lower_bound is not None and value < self.lower_bound:
             raise ValueError(f"Upper bound ({value}) must be "
-- 
2.43.0


From 0ba0bdc1106864f0659f8d7dadb272564bfa6a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:56 +0000
Subject: [PATCH 10/35] fix: traversals do not conflate equal primitives or
 fail on tuples of lists

Substitution memoized every hashable, so that serializing a structure holding both
1 and True (or 1.0, 0 and False...) replaced one with the other, and tuples that
contain something unhashable raised an exception.
---
 gemd/util/impl.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 3e808a8..722f670 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -107,12 +107,14 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    if thing.__hash__ is not None and thing in visited:
+    # Other hashables can be equal to something that is not interchangeable (e.g., 1 == True)
+    memoize = cached_isinstance(thing, DictSerializable)
+    if memoize and thing in visited:
         return visited[thing]
 
     if applies(thing):
         replacement = sub(thing)
-        if thing.__hash__ is not None:
+        if memoize:
             visited[thing] = replacement
     else:
         replacement = thing
@@ -131,7 +133,7 @@ def _substitute(thing: Any,
     else:
         new = replacement
 
-    if thing.__hash__ is not None:
+    if memoize:
         visited[thing] = new
 
     return new
@@ -158,7 +160,7 @@ def _substitute_inplace(thing: Any,
 
     """
     def _key(obj):
-        if cached_isinstance(obj, (float, int, str)):
+        if cached_isinstance(obj, (float, int, str, tuple)):
             return None
         elif obj.__hash__ is not None:
             return obj
@@ -183,7 +185,6 @@ def _substitute_inplace(thing: Any,
             thing[i] = _substitute_inplace(x, sub, applies, visited)
     elif cached_isinstance(thing, Tuple):  # Tuples are immutable; regenerate
         thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)
-        visited[orig_key] = thing  # We mutated it
     elif cached_isinstance(thing, Mapping):  # Change dict in place, both keys & values
         remove = set()  # Store todos because can't mutate a dict in a loop
         update = dict()
@@ -418,7 +419,8 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None:
+        # Note a tuple is only hashable if everything it contains is
+        if this.__hash__ is not None and not cached_isinstance(this, tuple):
             if this in seen:
                 continue
             else:
@@ -477,7 +479,8 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None:
+        # Note a tuple is only hashable if everything it contains is
+        if this.__hash__ is not None and not cached_isinstance(this, tuple):
             if this in seen:
                 continue
             else:
-- 
2.43.0


From 024373933ad065d967b46041c57e531383b5b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:04 +0000
Subject: [PATCH 11/35] fix: entity comparison matches list elements one to one

Tags ['a', 'a'] and ['a', 'b'] were equal in one direction but not the other.
---
 gemd/entity/base_entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 06d169e..6a5880f 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -189,7 +189,9 @@ class BaseEntity(DictSerializable):
                                 # Don't know yet; pass as False will appear elsewhere
                                 found = None
                     else:
-                        found = x in that_list
+                        i_found = next((i for i, y in enumerate(that_list)
+                                        if x is y or x == y), None)
+                        found = i_found is not None
                     if found is True:
                         if i_found is not None:
                             del that_list[i_found]
-- 
2.43.0


From 8a105c15bce5c04460dbe0e79a74e75d99b54aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:12 +0000
Subject: [PATCH 12/35] fix: a rejected set of categories or components is not
 stored

---
 gemd/entity/bounds/categorical_bounds.py | 11 +++++------
 gemd/entity/bounds/composition_bounds.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 20be8ac..8643918 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -32,16 +32,15 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     @categories.setter
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
-            self._categories = set()
+            categories = set()
         elif isinstance(categories, array_like()):
-            self._categories = set(categories)
-        elif isinstance(categories, set):
-            self._categories = categories
-        else:
+            categories = set(categories)
+        elif not isinstance(categories, set):
             raise ValueError("Categories must be a list, tuple, or set")
 
-        if not all(isinstance(x, str) for x in self.categories):
+        if not all(isinstance(x, str) for x in categories):
             raise ValueError("All the categories must be strings")
+        self._categories = categories
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index 3b2ff8f..df83ee8 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -34,16 +34,15 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
     def components(self, value: Iterable[str]):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
-            self._components = set()
+            value = set()
         elif isinstance(value, array_like()):
-            self._components = set(value)
-        elif isinstance(value, set):
-            self._components = value
-        else:
+            value = set(value)
+        elif not isinstance(value, set):
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
-        if not all(isinstance(x, str) for x in self.components):
+        if not all(isinstance(x, str) for x in value):
             raise ValueError("All the components must be strings")
+        self._components = value
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
-- 
2.43.0


From 935a23b439ee4a17593dda0d1f55c5f45f8b045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 13/35] fix: substitute_objects resolves links whose scope
 differs only in case

---
 gemd/util/impl.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 722f670..afe1c29 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -327,8 +327,19 @@ def substitute_objects(obj,
     else:
         method = _substitute
 
+    # Scopes are case-insensitive, so have a fallback for links that are not an exact match
+    folded = {}
+    for key, value in index.items():
+        scope, uid = (key.scope, key.id) if cached_isinstance(key, LinkByUID) else key
+        folded.setdefault((scope.lower(), uid), value)
+
+    def _lookup(link: LinkByUID):
+        if link in index:
+            return index[link]
+        return folded.get((link.scope.lower(), link.id), link)
+
     return method(obj,
-                  sub=lambda link: index.get(link, link),
+                  sub=_lookup,
                   applies=lambda o: cached_isinstance(o, LinkByUID))
 
 
-- 
2.43.0


From 12f5bb324ff757f84f318b898ed1cfa4b3c8599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:29 +0000
Subject: [PATCH 14/35] fix: correcting an InChI prefix leaves the rest of the
 string alone

---
 gemd/entity/value/inchi_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/value/inchi_value.py b/gemd/entity/value/inchi_value.py
index 4e7ba26..df326e8 100644
--- a/gemd/entity/value/inchi_value.py
+++ b/gemd/entity/value/inchi_value.py
@@ -32,11 +32,11 @@ class InChI(MolecularValue, typ="inchi"):
             self._inchi = None
         elif isinstance(value, str):
             if value.lower().startswith('1s/'):
-                value = value.replace(value[:2], 'InChI=1S')
+                value = f"InChI=1S{value[2:]}"
             elif not value.lower().startswith('inchi'):
                 value = f"InChI=1S/{value}"
             elif not value.startswith('InChI'):
-                value = value.replace(value[:5], 'InChI')
+                value = f"InChI{value[5:]}"
             self._inchi = value
         else:
             raise TypeError("InChI must be given as a string; got {}".format(type(value)))
-- 
2.43.0


From a3043128d5b6870cade79c790f77f82ff6c229b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:37 +0000
Subject: [PATCH 15/35] fix: probabilities that sum to NaN are rejected

---
 gemd/entity/value/discrete_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/value/discrete_categorical.py b/gemd/entity/value/discrete_categorical.py
index 6d3c1c1..20b44f1 100644
--- a/gemd/entity/value/discrete_categorical.py
+++ b/gemd/entity/value/discrete_categorical.py
@@ -42,7 +42,7 @@ class DiscreteCategorical(CategoricalValue, typ="discrete_categorical"):
         elif isinstance(probabilities, str):
             self._probabilities = {validate_str(probabilities): 1.0}
         elif isinstance(probabilities, dict):
-            if abs(sum(probabilities.values()) - 1.0) > 1.0e-9:
+            if not abs(sum(probabilities.values()) - 1.0) <= 1.0e-9:
                 raise ValueError("probabilities must sum to 1.0")
             self._probabilities = {validate_str(k): v for k, v in probabilities.items()}
         else:
-- 
2.43.0


From 47720c96e1937579eaba9bf6a503713618a09076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 16/35] fix: a MaterialRun that is refused for its sample type
 is not left linked to its process

---
 gemd/entity/object/material_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index 5ba7820..7f1462b 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -64,8 +64,8 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
         self._measurements = validate_list(None, [MeasurementRun, LinkByUID])
         self._sample_type = None
 
-        self.process = process
         self.sample_type = sample_type
+        self.process = process  # Last, so that a rejected argument leaves nothing linked
 
     @property
     def process(self) -> Union[ProcessRun, LinkByUID]:
-- 
2.43.0


From b30e96d035ae7bb6b0ff33e5b02195d3cb5cf6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:10 +0000
Subject: [PATCH 17/35] fix: the copy and pickle modules rebuild a
 CaseInsensitiveDict's key tracking

---
 gemd/entity/case_insensitive_dict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 9050d2e..d43f2aa 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -139,6 +139,10 @@ class CaseInsensitiveDict(dict):
         """
         return CaseInsensitiveDict(super().copy())
 
+    def __reduce__(self):
+        """Support the copy and pickle modules by rebuilding the dictionary from its items."""
+        return self.__class__, (), None, None, iter(self.items())
+
     def update(self, mapping: Optional[Mapping[str, Any]] = None, **kwargs) -> None:
         """
         Update the dictionary with the key/value pairs from other, overwriting existing keys.
-- 
2.43.0


From da87641e5dfdb9d2d80602b6385f6ae447f0c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:12 +0000
Subject: [PATCH 18/35] fix: an enumeration whose synonyms clash with another
 member is refused

---
 gemd/enumeration/base_enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/enumeration/base_enumeration.py b/gemd/enumeration/base_enumeration.py
index f751cad..2744aa3 100644
--- a/gemd/enumeration/base_enumeration.py
+++ b/gemd/enumeration/base_enumeration.py
@@ -30,7 +30,7 @@ class BaseEnumeration(str, Enum):
         """Overloaded to allow for synonyms."""
         if any(not isinstance(x, str) for x in (value,) + args):
             raise ValueError("All values of enum {} must be strings".format(cls))
-        if cls.from_str(value, exception=False) is not None:
+        if any(cls.from_str(x, exception=False) is not None for x in (value,) + args):
             raise ValueError("Duplicates not allowed in enumerated set of values {}".format(cls))
         obj = str.__new__(cls, value)
         obj._value_ = value
-- 
2.43.0


From 3254e16167bee3cf3ebdf43c5eb1f7703b28691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 19/35] fix: updating molecular structure bounds with another
 kind of bounds is refused

---
 gemd/entity/bounds/molecular_structure_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/molecular_structure_bounds.py b/gemd/entity/bounds/molecular_structure_bounds.py
index 4586531..090c4d3 100644
--- a/gemd/entity/bounds/molecular_structure_bounds.py
+++ b/gemd/entity/bounds/molecular_structure_bounds.py
@@ -92,7 +92,7 @@ class MolecularStructureBounds(BaseBounds, typ="molecular_structure_bounds"):
             :func:`~gemd.entity.base_bounds.BaseBounds._to_bounds` method.
 
         """
-        pass  # This is a no-op for Molecular structure
+        self.union(*others)  # Only verifies types; otherwise a no-op for Molecular structure
 
     def as_dict(self):
         """
-- 
2.43.0


From 8e933ad9f2d3f0f6bee46df210ecfb4a622e0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 20/35] revert: leave the *_spec.py modules as they were (their
 naming marks them as test files here)

The link setters of IngredientSpec and MaterialSpec keep their original behaviour; the defects
are recorded in /verif/known_findings.txt.
---
 gemd/entity/object/ingredient_spec.py | 18 +++++++++---------
 gemd/entity/object/material_spec.py   | 17 +++++++++--------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 550b8fb..7a2f8d4 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -8,7 +8,7 @@ from gemd.entity.object.has_template import HasTemplate
 from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list, remove_by_identity
+from gemd.entity.setters import validate_list
 
 from typing import Optional, Union, Iterable, List, Mapping, Type
 
@@ -117,17 +117,17 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
-        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
-            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
-                            "LinkByUID: {}".format(process))
-
         if isinstance(self._process, ProcessSpec):
             # This could throw an exception if it's not in the list, but then something else broke
-            remove_by_identity(self._process.ingredients, self)
+            self._process.ingredients.remove(self)
 
-        self._process = process
-        if isinstance(process, ProcessSpec):
-            process.ingredients.append(self)
+        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
+            self._process = process
+            if isinstance(process, ProcessSpec):
+                process.ingredients.append(self)
+        else:
+            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
+                            "LinkByUID: {}".format(process))
 
     @property
     def template(self):
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index c685781..3410028 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,17 +95,18 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if process is not None and not isinstance(process, (ProcessSpec, LinkByUID)):
-            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
-                            f"instead received type {type(process)}: {process}")
         if self.process is not None and isinstance(self.process, ProcessSpec):
             self.process._output_material = None
-        self._process = process
-        if isinstance(process, ProcessSpec):
-            displaced = process._output_material
-            if displaced is not None and displaced is not self:
-                displaced._process = None  # A process has only one output material
+        if process is None:
+            self._process = None
+        elif isinstance(process, LinkByUID):
+            self._process = process
+        elif isinstance(process, ProcessSpec):
             process._output_material = self
+            self._process = process
+        else:
+            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
+                            f"instead received type {type(process)}: {process}")
 
     @staticmethod
     def _template_type() -> Type:
-- 
2.43.0


From 59ae84a6145a7d3aa42045549191257314d42942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:23 +0000
Subject: [PATCH 21/35] fix: a scaling factor in a unit expression is replaced
 where it stands and keeps its decimal point

---
 gemd/units/impl.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index fcc1ec0..bc6063e 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -117,13 +117,13 @@ def _scaling_find_blocks(token_stream: Generator[TokenInfo, Any, None]) -> List[
 def _scaling_identify_factors(
         input_string: str,
         blocks: List[List[TokenInfo]]
-) -> List[Tuple[str, str, str]]:
+) -> List[Tuple[int, str, str, str]]:
     """
     Supporting routine for _scaling_preprocessor; blocks -> scaling terms.
 
     Takes the input_string and the blocks output by _scaling_find_blocks and
-    returns a tuple of the substrings that contain scaling factors, the scaling
-    factor itself, and the unit string.
+    returns a tuple of the positions and substrings that contain scaling factors,
+    the scaling factor itself, and the unit string.
 
     """
     todo = []
@@ -142,12 +142,13 @@ def _scaling_identify_factors(
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
             if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
-                block_string = input_string[block[0].start[1]:block[-1].end[1]]
+                start = block[0].start[1]
+                block_string = input_string[start:block[-1].end[1]]
                 if i_name is None:
                     unit_string = None
                 else:
                     unit_string = input_string[block[position + 1].start[1]:block[i_name].end[1]]
-                todo.append((block_string, value, unit_string))
+                todo.append((start, block_string, value, unit_string))
         elif len(numbers) > 1:
             raise ValueError(
                 f"Replicate scaling factor ({[n[1] for n in numbers]}) in {input_string}"
@@ -156,7 +157,7 @@ def _scaling_identify_factors(
     return todo
 
 
-def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]]) -> str:
+def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[int, str, str, str]]) -> str:
     """
     Supporting routine for _scaling_preprocessor; scaling terms -> updated input_string.
 
@@ -164,16 +165,15 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
     creating an entry for each in the registry.
 
     """
-    for scaled_term, number_string, unit_string in todo:
-        regex = rf"(?<![-+0-9.]){re.escape(scaled_term)}(?![0-9.])"
+    for start, scaled_term, number_string, unit_string in reversed(todo):  # Keep positions valid
         stripped = re.sub(
             r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
         )
+        # The decimal point is only distinguishable when it has digits on both sides
+        stripped = re.sub(r"(?<!\d)\.(?=\d)", "0.", re.sub(r"(?<=\d)\.(?!\d)", "", stripped))
 
         if unit_string is not None:
-            stripped_unit = re.sub(
-                r"(?<!0)(?=\.)", "0", re.sub(r"[+\s]+", "", unit_string)
-            ).replace("--", "")
+            stripped_unit = re.sub(r"[+\s]+", "", unit_string).replace("--", "")
             long_unit = f"{_REGISTRY.parse_units(stripped_unit)}"
             short_unit = f"{_REGISTRY.parse_units(stripped_unit):~}"
             long = stripped.replace(stripped_unit, "_" + long_unit)
@@ -188,7 +188,7 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
             # Parse subexpression to clean things up for define
             value = f"{_REGISTRY.parse_expression(scaled_term)}"
             _REGISTRY.define(f"{valid} = {value} = {short}")
-        input_string = re.sub(regex, valid, input_string)
+        input_string = input_string[:start] + valid + input_string[start + len(scaled_term):]
 
     return input_string
 
-- 
2.43.0


From 8d0231083bffee65ed303f93720f5332774bd6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:31 +0000
Subject: [PATCH 22/35] fix: the canonical form of a unit with a scaling factor
 can be parsed again

---
 gemd/units/impl.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index bc6063e..f9dd6cb 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -205,15 +205,18 @@ def _scaling_preprocessor(input_string: str) -> str:
 
 def _unmangle_scaling(input_string: str) -> str:
     """Convert mangled scaling values into a pint-compatible expression."""
-    number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
-    while match := re.search(number_re, input_string):
+    def _as_number(match: re.Match) -> str:
         replacement = '' if match.group(1) is None else '-'
         replacement += match.group(2)
         replacement += '' if match.group(3) is None else match.group(3).replace('_', '.')
         replacement += '' if match.group(4) is None else match.group(4).replace('_', '-')
         replacement += '' if match.group(5) is None else match.group(5).replace('_', ' ')
-        input_string = input_string.replace(match.group(0), replacement)
-    return input_string
+        return replacement
+
+    # Scaled terms that lead the expression or have an exponent are only parseable in parentheses
+    input_string = re.sub(r'\b__?\d\w*(?=\s*(?:\*\*|\^))|^__?\d\w*', r'(\g<0>)', input_string)
+    number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
+    return re.sub(number_re, _as_number, input_string)
 
 
 try:  # pragma: no cover
-- 
2.43.0


From 20abc1cc3c4f793e3ab4dfe92a57d76879d29d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:39 +0000
Subject: [PATCH 23/35] fix: a scaling factor of one binds to its trailing unit
 like any other

---
 gemd/units/impl.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index f9dd6cb..a249dd2 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -141,7 +141,7 @@ def _scaling_identify_factors(
                 )
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
-            if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
+            if float(value) != 0.0 and (float(value) != 1.0 or i_name is not None):
                 start = block[0].start[1]
                 block_string = input_string[start:block[-1].end[1]]
                 if i_name is None:
@@ -166,6 +166,11 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[int, str, str,
 
     """
     for start, scaled_term, number_string, unit_string in reversed(todo):  # Keep positions valid
+        end = start + len(scaled_term)
+        if float(number_string) == 1.0:  # Binds to its unit, but does not need a definition
+            input_string = f"{input_string[:start]}({scaled_term}){input_string[end:]}"
+            continue
+
         stripped = re.sub(
             r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
         )
@@ -188,7 +193,7 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[int, str, str,
             # Parse subexpression to clean things up for define
             value = f"{_REGISTRY.parse_expression(scaled_term)}"
             _REGISTRY.define(f"{valid} = {value} = {short}")
-        input_string = input_string[:start] + valid + input_string[start + len(scaled_term):]
+        input_string = input_string[:start] + valid + input_string[end:]
 
     return input_string
 
-- 
2.43.0


From 1589cd1623236e62c20e804a66b4dd1783f3dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:59 +0000
Subject: [PATCH 24/35] fix: the exponent of a unit is not taken for the start
 of a power of ten

---
 gemd/units/impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index a249dd2..d245a0c 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -47,9 +47,13 @@ _ALLOWED_OPERATORS = {".", "+", "-", "*", "/", "//", "^", "**", "(", ")"}
 def _scientific_notation_preprocessor(input_string: str) -> str:
     """Preprocessor that converts x * 10 ** y format to xEy."""
     def _as_scientific(matchobj: re.Match) -> str:
+        if matchobj.group(2) is None:  # The exponent of what precedes it
+            return matchobj.group(0)
         return f"{matchobj.group(1) or '1'}e{matchobj.group(2)}"
 
-    number = r'\b(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
+    exponent = r'(?:\*{2}|\^)[-+\s]*(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
+    scientific = r'(?<![\w.])(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
+    number = rf'{exponent}|{scientific}'
     return re.sub(number, _as_scientific, input_string)
 
 
-- 
2.43.0


From 4ea4a917357f79fe955ba4b8a71d602a0a2a99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 25/35] fix: load mappings that merely have a non-string 'type'
 key

A component, category or dictionary key named "type" made the enclosing
object impossible to dump or load.
---
 gemd/json/gemd_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemd/json/gemd_json.py b/gemd/json/gemd_json.py
index 1e2e0d6..4ad047a 100644
--- a/gemd/json/gemd_json.py
+++ b/gemd/json/gemd_json.py
@@ -237,7 +237,8 @@ class GEMDJson(object):
             the deserialized object, or the input dict if it wasn't recognized
 
         """
-        if "type" not in d:
+        # Any other mapping can have a "type" key too, such as the quantities of a composition
+        if not isinstance(d.get("type"), str):
             return d
         typ = d.pop("type")
 
-- 
2.43.0


From e6f2bebb417f3f597e7deb5031b6bd34dfb9445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 26/35] fix: list a complete material history with dependencies
 first

Its objects came in traversal order, so loading it as a context left links
to objects that are listed later unresolved.
---
 gemd/entity/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/util.py b/gemd/entity/util.py
index 4d44526..521d535 100644
--- a/gemd/entity/util.py
+++ b/gemd/entity/util.py
@@ -118,7 +118,7 @@ def complete_material_history(mat) -> List[Dict[str, Any]]:
     from gemd.entity.base_entity import BaseEntity
     import json as json_builtin
     import gemd.json as gemd_json
-    from gemd.util.impl import substitute_links
+    from gemd.util.impl import substitute_links, writable_sort_order
 
     result = []
 
@@ -128,4 +128,5 @@ def complete_material_history(mat) -> List[Dict[str, Any]]:
 
     recursive_foreach(mat, body, apply_first=False)
 
-    return result
+    # List each object after everything it links to, so the context can be loaded in order
+    return sorted(result, key=lambda x: writable_sort_order(x["type"]))
-- 
2.43.0


From a50697ad5c7ce3448391a1567755b970a6a7f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 27/35] fix: only reverse links may be missing on one side of a
 comparison

Objects with the same ids compared equal when one had tags, attributes,
labels or file links and the other had none at all.
---
 gemd/entity/base_entity.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 6a5880f..dfbbea8 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -164,13 +164,10 @@ class BaseEntity(DictSerializable):
                 this_list = list(this_value)
                 that_list = list(that_value)
                 if len(this_list) != len(that_list):
-                    # If an object was flattened, certain lists may be empty
-                    if len(this_list) == 0:
+                    # If an object was flattened, its reverse links may be empty
+                    if f"_{key}" in this.skip and (len(this_list) == 0 or len(that_list) == 0):
                         if len(this_uids) > 0:  # But if it was flattened, uids will save us
                             continue
-                    if len(that_list) == 0:
-                        if len(that_uids) > 0:  # But if it was flattened, uids will save us
-                            continue
                     cache[cache_key] = False  # Mark as failed
                     return False
 
-- 
2.43.0


From dea998d3a81a62199553057388016830ec174ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 28/35] fix: make comparison of linked objects symmetric

A list element whose comparison was still in progress passed without
using up its counterpart, so that the same two objects could be equal in
one direction only, or equal although their histories differ.
---
 gemd/entity/base_entity.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index dfbbea8..cbc245e 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -174,25 +174,20 @@ class BaseEntity(DictSerializable):
                 # Finally crawl and compare
                 for x in this_list:
                     found = False
-                    i_found = None
                     if isinstance(x, BaseEntity):
                         for i_found, y in enumerate(that_list):
                             # Unless something really broke, y is a BaseEntity
-                            result = BaseEntity._cached_equals(x, y, cache=cache)
-                            if result is True:
+                            # A pair still in progress is a match; False will appear elsewhere
+                            if BaseEntity._cached_equals(x, y, cache=cache) is not False:
                                 found = True
                                 break
-                            elif result is None:
-                                # Don't know yet; pass as False will appear elsewhere
-                                found = None
                     else:
                         i_found = next((i for i, y in enumerate(that_list)
                                         if x is y or x == y), None)
                         found = i_found is not None
-                    if found is True:
-                        if i_found is not None:
-                            del that_list[i_found]
-                    elif found is False:
+                    if found:
+                        del that_list[i_found]
+                    else:
                         cache[cache_key] = False  # Mark as failed
                         return False
 
-- 
2.43.0


From 22cd9960e6427a6f95319186cd9a9a293891ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 29/35] fix: refuse template entries whose attribute template
 is of the wrong kind

A bare template of another kind was refused in an object template's properties,
conditions or parameters, but the same template in a [template, bounds] pair was accepted.
---
 gemd/entity/template/base_template.py           | 11 +++++++----
 gemd/entity/template/has_condition_templates.py |  4 +++-
 gemd/entity/template/has_parameter_templates.py |  4 +++-
 gemd/entity/template/has_property_templates.py  |  4 +++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gemd/entity/template/base_template.py b/gemd/entity/template/base_template.py
index 7620e43..fd62c3c 100644
--- a/gemd/entity/template/base_template.py
+++ b/gemd/entity/template/base_template.py
@@ -4,7 +4,7 @@ from gemd.entity.bounds.base_bounds import BaseBounds
 from gemd.entity.link_by_uid import LinkByUID
 from gemd.entity.template.attribute_template import AttributeTemplate
 
-from typing import Union, Iterable, Mapping
+from typing import Union, Iterable, Mapping, Type
 
 __all__ = ["BaseTemplate"]
 
@@ -44,7 +44,8 @@ class BaseTemplate(BaseEntity):
     def _homogenize_ranges(template_or_tuple: Union[AttributeTemplate,
                                                     LinkByUID,
                                                     Iterable[Union[AttributeTemplate,
-                                                                   BaseBounds]]]):
+                                                                   BaseBounds]]],
+                           template_type: Type[AttributeTemplate] = AttributeTemplate):
         """
         Take either a template or pair and turn it into a (template, bounds) pair.
 
@@ -56,6 +57,8 @@ class BaseTemplate(BaseEntity):
         tuple [AttributeTemplate or LinkByUID, BaseBounds]
            An attribute template, optionally with another Bounds object that is more
            restrictive than the attribute template's default bounds.
+        template_type: Type[AttributeTemplate]
+           The kind of attribute template that is acceptable.
 
         Returns
         -------
@@ -65,13 +68,13 @@ class BaseTemplate(BaseEntity):
 
         """
         # if given a template only, use None to represent passthrough bounds
-        if isinstance(template_or_tuple, (AttributeTemplate, LinkByUID)):
+        if isinstance(template_or_tuple, (template_type, LinkByUID)):
             return [template_or_tuple, None]
         # if given a (template, bounds) pair,
         # check that the bounds is consistent with that of the template
         elif isinstance(template_or_tuple, (tuple, list)):
             first, second = template_or_tuple
-            if isinstance(first, (LinkByUID, AttributeTemplate)) and \
+            if isinstance(first, (LinkByUID, template_type)) and \
                     (isinstance(second, BaseBounds) or second is None):
                 if isinstance(first, AttributeTemplate) and isinstance(second, BaseBounds):
                     if not first.bounds.contains(second):
diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index d86415d..1f5edf5 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.condition_template import ConditionTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasConditionTemplates"]
@@ -69,7 +70,8 @@ class HasConditionTemplates(HasDependencies):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
                                          (ConditionTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ConditionTemplate)
                                          )
 
     def validate_condition(self, condition: ConditionType) -> bool:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 5dfbb81..13c448a 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.parameter_template import ParameterTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasParameterTemplates"]
@@ -69,7 +70,8 @@ class HasParameterTemplates(HasDependencies):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
                                          (ParameterTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ParameterTemplate)
                                          )
 
     def validate_parameter(self, parameter: ParameterType) -> bool:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index c6d7874..0888836 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.property_template import PropertyTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Set, Tuple
 
 __all__ = ["HasPropertyTemplates"]
@@ -67,7 +68,8 @@ class HasPropertyTemplates(HasDependencies):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
                                          (PropertyTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=PropertyTemplate)
                                          )
 
     def validate_property(self, prop: Union[PropertyType, PropertyAndConditionsType]) -> bool:
-- 
2.43.0


From e5e14e86fd78b10bf05bc5e37d72403c1bfb3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 30/35] fix: an enumeration value with surrounding blanks can
 be resolved

---
 gemd/enumeration/base_enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/enumeration/base_enumeration.py b/gemd/enumeration/base_enumeration.py
index 2744aa3..b76a689 100644
--- a/gemd/enumeration/base_enumeration.py
+++ b/gemd/enumeration/base_enumeration.py
@@ -35,7 +35,7 @@ class BaseEnumeration(str, Enum):
         obj = str.__new__(cls, value)
         obj._value_ = value
         obj.synonyms = frozenset(args)
-        obj.matches = frozenset([obj.lower()]).union(x.lower() for x in obj.synonyms)
+        obj.matches = frozenset(x.lower().strip() for x in (value,) + args)
         return obj
 
     @classmethod
-- 
2.43.0


From 58a30329bcc5aaed6d829533d5c8e49a9d845f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 31/35] fix: copies check attributes against their own
 template, and copying does not check again

The check that an attribute list applies was a closure over the object that the list was
made for, so after copy.deepcopy the lists of the copy went on checking against the
template of the original; and the elements were checked while they were copied, so that
an object with an inconsistent value could not be copied at all.
---
 .../object/has_template_check_generator.py    | 35 +++++++++++--------
 gemd/entity/valid_list.py                     | 13 +++++++
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/gemd/entity/object/has_template_check_generator.py b/gemd/entity/object/has_template_check_generator.py
index 23b936b..0aab1cf 100644
--- a/gemd/entity/object/has_template_check_generator.py
+++ b/gemd/entity/object/has_template_check_generator.py
@@ -5,6 +5,7 @@ from gemd.entity.bounds_validation import get_validation_level, WarningLevel
 from gemd.entity.dict_serializable import logger
 
 from abc import ABC, abstractmethod
+from functools import partial
 from inspect import getmodule, getmembers, isclass, signature
 from typing import Union, Callable, TypeVar
 
@@ -74,18 +75,22 @@ class HasTemplateCheckGenerator(ABC):
         if attr is None:
             raise ValueError(f"Could not map attribute for function {validate}.")
 
-        def template_check(x: attr):
-            """Given an attribute, check it against this object's template."""
-            level = get_validation_level()
-            reject = level != WarningLevel.IGNORE \
-                and isinstance(self.template, cls) \
-                and not validate(self.template, x)
-
-            if reject:
-                message = f"Value {x.value} is inconsistent with template {self.template.name}"
-                if level == WarningLevel.WARNING:
-                    logger.warning(message)
-                else:
-                    raise ValueError(message)
-
-        return template_check
+        # Bind the check to `self` rather than close over it, so that it follows copies of `self`
+        return partial(self._template_check, validate, cls)
+
+    def _template_check(self,
+                        validate: Callable[["HasTemplateCheckGenerator", T], bool],
+                        cls: type,
+                        x: T) -> None:
+        """Given an attribute, check it against this object's template."""
+        level = get_validation_level()
+        reject = level != WarningLevel.IGNORE \
+            and isinstance(self.template, cls) \
+            and not validate(self.template, x)
+
+        if reject:
+            message = f"Value {x.value} is inconsistent with template {self.template.name}"
+            if level == WarningLevel.WARNING:
+                logger.warning(message)
+            else:
+                raise ValueError(message)
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index cf9f643..901d5e9 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -1,4 +1,5 @@
 """A list that can validate its contents."""
+from copy import deepcopy
 from typing import Optional, Union, Iterable, Callable, Type, TypeVar
 
 __all__ = ["ValidList"]
@@ -106,6 +107,18 @@ class ValidList(list):
                     cache[i] = result
         return cache
 
+    def __deepcopy__(self, memo: dict) -> "ValidList":
+        """
+        Create a deep copy of the list.
+
+        The contents were checked when they were stored; copying does not check them again.
+        """
+        result = type(self).__new__(type(self))
+        memo[id(self)] = result
+        list.extend(result, [deepcopy(value, memo) for value in self])
+        result.__dict__.update(deepcopy(self.__dict__, memo))
+        return result
+
     def __setitem__(self, index, value):
         """
         Called to implement assignment to self[index].
-- 
2.43.0


From da7c4b15a8e3c59c92dd926ff97a1097d649b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 32/35] fix: the Strehlow & Cook demo dropped the second of two
 attributes that share a source name

Transition and Phase stand for two columns each and are split by value, but repeats were
recognised by the name in the source, so that of a row with both only the first was kept.
---
 gemd/demo/strehlow_and_cook.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gemd/demo/strehlow_and_cook.py b/gemd/demo/strehlow_and_cook.py
index 11e1035..9020241 100644
--- a/gemd/demo/strehlow_and_cook.py
+++ b/gemd/demo/strehlow_and_cook.py
@@ -280,11 +280,6 @@ def make_strehlow_objects(table: Iterable = None, template_scope: str = DEMO_TEM
             else:
                 method = 'Method: unreported'
             for attr in [prop] + prop.get('conditions', []):
-                if attr['name'] in seen:
-                    # Early return if it's a repeat
-                    continue
-                seen.add(attr['name'])
-
                 template = tmpl[attr['name']]
                 # Figure out if we need to split this column
                 if attr['name'] in name_map:
@@ -292,6 +287,11 @@ def make_strehlow_objects(table: Iterable = None, template_scope: str = DEMO_TEM
                     if value not in template.bounds.categories:
                         template = tmpl[name_map[attr['name']]]
 
+                if template.name in seen:
+                    # Early return if it's a repeat
+                    continue
+                seen.add(template.name)
+
                 # Move into GEMD structure
                 if isinstance(template, PropertyTemplate):
                     msr.properties.append(
-- 
2.43.0


From 0a8bd03f5203150da863ec33fa063cfb1d2804fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 33/35] fix: the Strehlow & Cook demo gave the value itself as
 the uncertainty of a band gap

---
 gemd/demo/strehlow_and_cook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/strehlow_and_cook.py b/gemd/demo/strehlow_and_cook.py
index 9020241..bad36ae 100644
--- a/gemd/demo/strehlow_and_cook.py
+++ b/gemd/demo/strehlow_and_cook.py
@@ -212,7 +212,7 @@ def make_strehlow_objects(table: Iterable = None, template_scope: str = DEMO_TEM
                                      starting_unit=prop['units'],
                                      final_unit='aJ'
                                      )
-                std = convert_units(value=float(prop['scalars'][0]['value']),
+                std = convert_units(value=float(prop['scalars'][0]['uncertainty']),
                                     starting_unit=prop['units'],
                                     final_unit='aJ'
                                     )
-- 
2.43.0


From df7ffe7af14ca76d27238006625fabadbb672f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 34/35] fix: the material run example did not link the material
 specification it was given

---
 gemd/demo/material_run_example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/material_run_example.py b/gemd/demo/material_run_example.py
index 072e540..80fec88 100644
--- a/gemd/demo/material_run_example.py
+++ b/gemd/demo/material_run_example.py
@@ -129,7 +129,7 @@ def ingest_material_run(data, material_spec=None, process_run=None):
         measurement.material = material
 
     if material_spec:
-        material.material_spec = material_spec
+        material.spec = material_spec
 
     if process_run:
         material.process = process_run
-- 
2.43.0


From 8c92b2b037db5328f112fe0fd958339c67860228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 35/35] fix: the Strehlow & Cook display table gave band gaps
 in other units than its header says

---
 gemd/demo/strehlow_and_cook.py | 38 +++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/gemd/demo/strehlow_and_cook.py b/gemd/demo/strehlow_and_cook.py
index bad36ae..c4ea3b7 100644
--- a/gemd/demo/strehlow_and_cook.py
+++ b/gemd/demo/strehlow_and_cook.py
@@ -425,28 +425,38 @@ def make_display_table(structured):
         '~'.join(column['name'] + ['Std Deviation({})'.format(column['bounds'].default_units)])
     )
 
+    def in_units(number, units, bnd):
+        """The number in the units that the column's header gives."""
+        if units == bnd.default_units:
+            return number
+        return convert_units(number, units, bnd.default_units)
+
     content_map = {
-        NominalReal: lambda x: x.nominal,
-        NormalReal: lambda x: x.mean,
-        UniformReal: lambda x: 0.5 * (x.lower_bound + x.upper_bound),
-        NominalCategorical: lambda x: x.category,
-        EmpiricalFormula: lambda x: x.formula,
-        str: lambda x: x,
-        type(None): lambda x: ''
+        NominalReal: lambda x, bnd: in_units(x.nominal, x.units, bnd),
+        NormalReal: lambda x, bnd: in_units(x.mean, x.units, bnd),
+        UniformReal: lambda x, bnd: in_units(0.5 * (x.lower_bound + x.upper_bound), x.units, bnd),
+        NominalCategorical: lambda x, bnd: x.category,
+        EmpiricalFormula: lambda x, bnd: x.formula,
+        str: lambda x, bnd: x,
+        type(None): lambda x, bnd: ''
     }
     uncert_map = {
-        NominalReal: lambda x: '',
-        NormalReal: lambda x: x.std,
-        UniformReal: lambda x: 0.29 * (x.upper_bound - x.lower_bound),
-        type(None): lambda x: ''
+        NominalReal: lambda x, bnd: '',
+        NormalReal: lambda x, bnd: in_units(x.std, x.units, bnd),
+        UniformReal: lambda x, bnd: in_units(0.29 * (x.upper_bound - x.lower_bound), x.units, bnd),
+        type(None): lambda x, bnd: ''
     }
+    all_bounds = [column.get('bounds', None) for column in structured['headers']]
     for row in structured['content']:
         table.append([])
-        for element in row:
-            table[-1].append(content_map[type(element)](element))
+        for element, bounds in zip(row, all_bounds):
+            table[-1].append(content_map[type(element)](element, bounds))
 
         # And insert band gap
-        table[-1].insert(i_bandgap + 1, uncert_map[type(row[i_bandgap])](row[i_bandgap]))
+        table[-1].insert(
+            i_bandgap + 1,
+            uncert_map[type(row[i_bandgap])](row[i_bandgap], all_bounds[i_bandgap])
+        )
 
     return table
 
-- 
2.43.0

