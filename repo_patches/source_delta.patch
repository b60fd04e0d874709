From 876ba4f002213531304a35215a021bfd027770ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:07 +0000
Subject: [PATCH 01/29] fix: make Schema.update atomic and attribute its errors
 to the updated schema

update() kept the values applied before a FrozenError or any other
exception, and never set the current schema: a failing update raised
LookupError (or blamed an unrelated schema).
---
 oblate/schema.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..6e67db5 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -409,12 +409,23 @@ class Schema(metaclass=_SchemaMeta):
         if self.__config__.frozen:
             raise FrozenError(self)
 
+        old_values = self._field_values.copy()
+        token = current_schema.set(self)
+        try:
+            self._update_from_data(data, ignore_extra=ignore_extra)
+        except BaseException:
+            # fallback to original state in case update fails
+            self._field_values = old_values
+            raise
+        finally:
+            current_schema.reset(token)
+
+    def _update_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
         fields = self.__load_fields__
         errors: List[FieldError] = []
-        old_values = self._field_values.copy()
 
         for key, value in data.items():
             token = current_field_key.set(key)
@@ -431,8 +442,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            # fallback to original state in case update fails
-            self._field_values = old_values
             raise config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
-- 
2.43.0


From f6d6026d0442849ea3f1a36a17656d210c1d4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 02/29] fix: restore the current schema after Schema.dump

dump() left itself as the current schema, so later errors (including those
of the outer schema when a nested one is dumped) named the wrong schema.
---
 oblate/schema.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 6e67db5..bde0db0 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -469,6 +469,13 @@ class Schema(metaclass=_SchemaMeta):
         ValidationError
             Validation failed while serializing one or more fields.
         """
+        token = current_schema.set(self)
+        try:
+            return self._dump_fields(include=include, exclude=exclude)
+        finally:
+            current_schema.reset(token)
+
+    def _dump_fields(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         fields = set(self.__fields__.keys())
         if include is not MISSING and exclude is not MISSING:
             raise TypeError('include and exclude are mutually exclusive parameters.')
@@ -477,7 +484,6 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
 
-- 
2.43.0


From 98bf3c7c962a556f3650ee8122293f217beb449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:12 +0000
Subject: [PATCH 03/29] fix: restore the current context after loading a None
 value

The load context of a field given None (or whose raw validator raised a
non-validation exception) stayed current and leaked into later errors.
---
 oblate/schema.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index bde0db0..2c82939 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -230,6 +230,21 @@ class Schema(metaclass=_SchemaMeta):
             validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]] = None,
         ) -> List[FieldError]:
 
+        context = LoadContext(field=field, value=value, schema=self)
+        token = current_context.set(context)
+        try:
+            return self._load_field_value(field, value, context, validators)
+        finally:
+            current_context.reset(token)
+
+    def _load_field_value(
+            self,
+            field: Field[Any, Any],
+            value: Any,
+            context: LoadContext,
+            validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]] = None,
+        ) -> List[FieldError]:
+
         # A little overview of how external validations are handled by
         # this method:
         #
@@ -249,8 +264,6 @@ class Schema(metaclass=_SchemaMeta):
         lazy_validation = validators is not None
         errors: List[FieldError] = []
         validator_errors: List[FieldError] = []
-        context = LoadContext(field=field, value=value, schema=self)
-        token = current_context.set(context)
 
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
@@ -278,8 +291,6 @@ class Schema(metaclass=_SchemaMeta):
             if not validator_errors:
                 self._field_values[name] = final_value
             errors.extend(validator_errors)
-        finally:
-            current_context.reset(token)
 
         return errors
 
-- 
2.43.0


From c298360d40317ab9d62ddc60862db03179399608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 04/29] fix: honour raw validators on every update of a field

When updating a field, raw validators were skipped for None and their
errors were dropped when the value also failed to load, unlike during
initialization.
---
 oblate/schema.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 2c82939..0b44618 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -268,15 +268,17 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
+        if not lazy_validation:
+            validator_errors.extend(field._run_validators(value, context, raw=True))
+
         if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
+            if not field.none:
                 errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+            elif not validator_errors:
+                self._field_values[name] = None
+            errors.extend(validator_errors)
             return errors
 
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
@@ -290,8 +292,8 @@ class Schema(metaclass=_SchemaMeta):
                 validators.append((field, final_value, context, False))
             if not validator_errors:
                 self._field_values[name] = final_value
-            errors.extend(validator_errors)
 
+        errors.extend(validator_errors)
         return errors
 
     def _get_field(self, name: str) -> Field[Any, Any]:
-- 
2.43.0


From 8e26a12b7fd7c33545750cecd715ade29eb390d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 05/29] fix: drop the load key of a field overridden in a
 subclass

The overridden field stayed reachable (and required) under its old load
key when the overriding field used another one.
---
 oblate/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index 0b44618..462a2d2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -150,6 +150,10 @@ class Schema(metaclass=_SchemaMeta):
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
+                overridden = cls.__fields__.get(name)
+                if overridden is not None and cls.__load_fields__.get(overridden.load_key) is overridden:
+                    # the parent's field is replaced and so is its load key
+                    del cls.__load_fields__[overridden.load_key]
                 cls.__fields__[name] = member  # type: ignore
                 cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
-- 
2.43.0


From 0202cec96446eec32f5126dc79a50dd42b465bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 06/29] fix: inherit fields from every parent schema

With several parent schemas, only the fields of the first one were
inherited.
---
 oblate/schema.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 462a2d2..715dee2 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -140,8 +140,12 @@ class Schema(metaclass=_SchemaMeta):
         if hasattr(cls, '__fields__'):
             # When a schema is subclassed, the fields have to be copied so
             # the parent schema's fields are not modified
-            cls.__fields__ = cls.__fields__.copy()
-            cls.__load_fields__ = cls.__load_fields__.copy()
+            cls.__fields__ = {
+                name: field
+                for base in reversed(cls.__mro__[1:]) if issubclass(base, Schema)
+                for name, field in vars(base).items() if isinstance(field, Field)
+            }
+            cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
         else:
             cls.__fields__ = {}
             cls.__load_fields__ = {}
-- 
2.43.0


From 998ffffdea8ae6d02f1b20a0c915bd4b20b0cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 07/29] fix: allow validators of inherited fields to be
 registered by name

validate.field('name') raised TypeError for a field of the parent schema,
which the guide documents as supported.
---
 oblate/schema.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 715dee2..a23443e 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -164,9 +164,16 @@ class Schema(metaclass=_SchemaMeta):
                 field = member.__validator_field__
                 if isinstance(field, str):
                     try:
-                        field = members[field]
-                    except KeyError:  # pragma: no cover
-                        pass
+                        field = vars(cls)[field]
+                    except KeyError:
+                        inherited = cls.__fields__.get(field)
+                        if inherited is not None:
+                            # copied so that the parent's field is not modified
+                            field = inherited.copy()
+                            field._bind(inherited._name, cls)
+                            setattr(cls, field._name, field)
+                            cls.__fields__[field._name] = field
+                            cls.__load_fields__[field.load_key] = field
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
-- 
2.43.0


From c300bf866e30fecd75752fb92892d3361c91b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 08/29] fix: key errors of an assigned field by its load key

FieldError.field was None for an assignment to a field with a custom load
key, as the error was keyed by the attribute name.
---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From 6034e808075ac12d3e3b15164d4aecdf2e90b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 09/29] fix: dump None and report errors of nested objects

Dumping an Object field set to None raised AttributeError, and an error of
a nested schema hid the errors of the outer one.
---
 oblate/fields/nesting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..6bb5330 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -115,4 +115,9 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
-        return value.dump()
+        if value is None:
+            return None
+        try:
+            return value.dump()
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From 5b438ed99d82b72f3e5370ee24790c3751fb1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 10/29] fix: validate the type wrapped by Required and
 NotRequired

---
 oblate/type_validation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..324b35b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -203,8 +203,7 @@ class TypeValidator:
     @classmethod
     def _handle_origin_required(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         args = get_args(tp)
-        origin = get_origin(args[0])
-        return cls._handle_origin(value, tp, origin)
+        return cls._process_value(value, args[0])
 
     _handle_origin_not_required = _handle_origin_required
 
-- 
2.43.0


From 42d175b245a5e3ac834cdf442f07e4f251693983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 11/29] fix: honour the totality of the class each TypedDict
 key is defined in

---
 oblate/type_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 324b35b..191b63b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -191,7 +191,7 @@ class TypeValidator:
 
         for key, value in typehints.items():
             origin = get_origin(value)
-            if (origin is None and not tp.__total__) or (origin is NotRequired):
+            if origin is NotRequired or (origin is not Required and key not in tp.__required_keys__):
                 # either no marker and total=False -> field is not required
                 # or NotRequired marker and total=True/False -> field is not required
                 continue
-- 
2.43.0


From 648b3d64e582840cd3e2127f5d47b5d195fbe30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 12/29] fix: validate every item of a tuple given for Sequence

---
 oblate/type_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 191b63b..355d90a 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -334,7 +334,7 @@ class TypeValidator:
         if value_tp is set:
             return cls._handle_origin_set(value, tp)
         if value_tp is tuple:
-            return cls._handle_origin_tuple(value, tp)
+            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From f2c9b0477af1833ca48c7a76d8d1a5b131e2c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:38 +0000
Subject: [PATCH 13/29] fix: reject tuples longer than their type expression

---
 oblate/type_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 355d90a..794963f 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -311,6 +311,9 @@ class TypeValidator:
                     validated = False
                     errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')
         else:
+            if len(value) > len(args):  # type: ignore
+                validated = False
+                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
             for idx, tp in enumerate(args):
                 try:
                     v = value[idx]  # type: ignore
-- 
2.43.0


From f553f2d3b1e342f3a25556814b521b7bcfd203b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 14/29] fix: validate Mapping type expressions

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 794963f..4d73996 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -349,6 +349,8 @@ class TypeValidator:
             return cls._handle_origin_sequence(value, tp)
         if origin is dict:
             return cls._handle_origin_dict(value, tp)
+        if origin is collections.abc.Mapping:
+            return cls._handle_origin_mapping(value, tp)
         if origin is list:
             return cls._handle_origin_list(value, tp)
         if origin is set:
@@ -369,7 +371,7 @@ class TypeValidator:
             return cls._handle_origin_required(value, tp)
         if origin is NotRequired:
             return cls._handle_origin_not_required(value, tp)
-        if origin in (list, set, dict, tuple, collections.abc.Sequence):
+        if origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
             return cls._process_struct(value, tp)
         if origin is Literal:
             return cls._handle_origin_literal(value, tp)
-- 
2.43.0


From a14c34d9c5b729f2021d4e088d1338fbe3fc6935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 15/29] fix: accept generic types given without arguments

---
 oblate/type_validation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 4d73996..19f2089 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -233,8 +233,8 @@ class TypeValidator:
         args = get_args(tp)
         errors: List[str] = []
         validated = True
-        ktp = args[0]
-        vtp = args[1]
+        ktp = args[0] if args else Any
+        vtp = args[1] if args else Any
 
         for idx, (k, v) in enumerate(value.items()):  # type: ignore
             item_validated, fail_msg = cls._process_value(k, ktp)
@@ -265,7 +265,7 @@ class TypeValidator:
         args = get_args(tp)
         errors: List[str] = []
         validated = True
-        vtp = args[0]
+        vtp = args[0] if args else Any
 
         for idx, v in enumerate(value):  # type: ignore
             item_validated, fail_msg = cls._process_value(v, vtp)
@@ -283,7 +283,7 @@ class TypeValidator:
         args = get_args(tp)
         errors: List[str] = []
         validated = True
-        vtp = args[0]
+        vtp = args[0] if args else Any
 
         for v in value:  # type: ignore
             item_validated, fail_msg = cls._process_value(v, vtp)
@@ -311,7 +311,7 @@ class TypeValidator:
                     validated = False
                     errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')
         else:
-            if len(value) > len(args):  # type: ignore
+            if len(value) > len(args) and hasattr(tp, '__args__'):  # type: ignore
                 validated = False
                 errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
             for idx, tp in enumerate(args):
@@ -337,7 +337,7 @@ class TypeValidator:
         if value_tp is set:
             return cls._handle_origin_set(value, tp)
         if value_tp is tuple:
-            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
+            return cls._handle_origin_tuple(value, Tuple[(get_args(tp) or (Any,))[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From 983e8f785b1b189f7f4ca71a38ea9350c90bba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 16/29] fix: warn about unsupported types that are not classes

---
 oblate/type_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 19f2089..1421ff9 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -391,6 +391,9 @@ class TypeValidator:
         if origin is None:
             if is_typeddict(tp):
                 return cls._handle_type_typed_dict(value, tp)
+            if not isinstance(tp, type):
+                cls._warn_unsupported(tp)
+                return True, []
             return isinstance(value, tp), [f'Must be of type {tp.__name__}']
 
         return cls._handle_origin(value, tp, origin)
-- 
2.43.0


From fb3fb542be22d2aea3e2de0054b9cbe8a38ea77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 17/29] fix: apply the global config that replaces
 oblate.config

---
 oblate/configs.py         | 8 ++++++++
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 8 ++++----
 oblate/type_validation.py | 4 ++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/oblate/configs.py b/oblate/configs.py
index 69a789d..7ccd908 100644
--- a/oblate/configs.py
+++ b/oblate/configs.py
@@ -149,6 +149,14 @@ config = GlobalConfig()
 """The global configuration of Oblate."""
 
 
+def _get_global_config() -> GlobalConfig:
+    # oblate.config can be replaced by the user so it is looked up
+    # every time it is needed
+    import oblate  # circular import
+
+    return oblate.config
+
+
 class SchemaConfig:
     """The configuration for a schema.
 
diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..bf4aac1 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,7 +43,7 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
+from oblate.configs import _get_global_config
 
 import copy
 
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise _get_global_config().validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index a23443e..d250713 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -38,7 +38,7 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import SchemaConfig, _get_global_config
 
 import collections.abc
 import inspect
@@ -233,7 +233,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise _get_global_config().validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -470,7 +470,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise _get_global_config().validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
@@ -541,6 +541,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_context.reset(context_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise _get_global_config().validation_error_cls(errors)
 
         return out
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 1421ff9..b3efa55 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -155,9 +155,9 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
+        from oblate.configs import _get_global_config  # circular import
 
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        if tp in cls._warnings_issued or not _get_global_config().warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(tp)
-- 
2.43.0


From e94210a0cdbb4501da59cecc690ea58455e05802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:04 +0000
Subject: [PATCH 18/29] fix: honour the step of the range given to
 Range.from_standard

---
 oblate/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/validate.py b/oblate/validate.py
index ab1a8c0..b0c55af 100644
--- a/oblate/validate.py
+++ b/oblate/validate.py
@@ -202,7 +202,9 @@ class Range(Validator[int]):
         would only include the integers accounted by the given standard :func:`range`
         (i.e upper bound not inclusive).
         """
-        return cls(obj.start, obj.stop - 1)
+        validator = cls(obj.start, obj.stop - 1)
+        validator._range = obj
+        return validator
 
 
 class Length(Validator[collections.abc.Sized]):
-- 
2.43.0


From 11694c2bde3bc50ddd026e8f4679348ae7271049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 19/29] fix: set the documented name attribute of FieldNotSet

---
 oblate/exceptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ed89236..2985d2e 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -70,6 +70,7 @@ class FieldNotSet(AttributeError, OblateException):
         self.field = field
         self.schema = schema
         super().__init__(f'Field {field._name!r} has no value set', field._name, schema)
+        self.name = field_name
 
 
 class FrozenError(OblateException):
-- 
2.43.0


From 8b947e2044c3d77a345c9e607b4e310e2045bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 20/29] fix: render validation errors that have a dictionary as
 message

---
 oblate/exceptions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index 2985d2e..802e859 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -226,7 +226,11 @@ class ValidationError(OblateException):
 
             builder.append(message)
             for idx, error in enumerate(errors):
-                if isinstance(error.message, dict):
+                if isinstance(error.message, dict) and all(
+                    isinstance(nested, list) and all(isinstance(e, FieldError) for e in nested)
+                    for nested in error.message.values()  # type: ignore
+                ):
+                    # errors of a nested schema
                     builder.append(self._make_message(error.message, level=level+1))  # type: ignore
                     continue
 
-- 
2.43.0


From b14bda166286abc7a53d4dd87887ceb4ef54826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 21/29] fix: report the raw value when coercion to boolean
 fails

---
 oblate/fields/primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd0c7e1..8425501 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -199,10 +199,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value = str(value)
-            if value in self._true_values:
+            value_str = str(value)
+            if value_str in self._true_values:
                 return True
-            if value in self._false_values:
+            if value_str in self._false_values:
                 return False
             else:
                 raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
-- 
2.43.0


From a5b7365b962737ac34c658427379326d9b755192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:20 +0000
Subject: [PATCH 22/29] fix: load the value given to value_load of primitive
 fields

---
 oblate/fields/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 8425501..0d90be2 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -77,7 +77,7 @@ class String(Field[str, str]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: str, context: LoadContext) -> str:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: str, context: DumpContext) -> str:
         return value
@@ -130,7 +130,7 @@ class Integer(Field[int, int]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: int, context: LoadContext) -> int:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: int, context: DumpContext) -> int:
         return value
@@ -218,7 +218,7 @@ class Boolean(Field[bool, bool]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: bool, context: LoadContext) -> bool:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: bool, context: DumpContext) -> bool:
         return value
@@ -271,7 +271,7 @@ class Float(Field[float, float]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: float, context: LoadContext) -> float:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: float, context: DumpContext) -> float:
         return value
-- 
2.43.0


From 29a11edf50d3f1b091527b88fef109ff8d654675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 23/29] fix: compute load keys once all fields of a schema are
 known

A field inherited from one parent lost its load key when a sibling parent's
field of the same load key was overridden in the subclass.
---
 oblate/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index d250713..c0a9ad0 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -145,21 +145,14 @@ class Schema(metaclass=_SchemaMeta):
                 for base in reversed(cls.__mro__[1:]) if issubclass(base, Schema)
                 for name, field in vars(base).items() if isinstance(field, Field)
             }
-            cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
         else:
             cls.__fields__ = {}
-            cls.__load_fields__ = {}
 
         members = vars(cls).copy()
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
-                overridden = cls.__fields__.get(name)
-                if overridden is not None and cls.__load_fields__.get(overridden.load_key) is overridden:
-                    # the parent's field is replaced and so is its load key
-                    del cls.__load_fields__[overridden.load_key]
                 cls.__fields__[name] = member  # type: ignore
-                cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
@@ -173,12 +166,15 @@ class Schema(metaclass=_SchemaMeta):
                             field._bind(inherited._name, cls)
                             setattr(cls, field._name, field)
                             cls.__fields__[field._name] = field
-                            cls.__load_fields__[field.load_key] = field
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
                 field.add_validator(member)
 
+        # Computed once all fields are known so that the load keys of
+        # overridden fields do not take part
+        cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
+
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
-- 
2.43.0


From b166ca4f6a4de2f86dbed2d1f9e6dc85fabff79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 24/29] fix: report a failed coercion when a value cannot be
 converted to a string

---
 oblate/fields/primitive.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 0d90be2..d0e4661 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -57,6 +57,7 @@ class String(Field[str, str]):
         cannot be converted to relevant data type.
     """
     ERR_INVALID_DATATYPE = 'string.invalid_datatype'
+    ERR_COERCION_FAILED  = 'string.coercion_failed'
 
     def __init__(self, strict: bool = True, **kwargs: Any) -> None:
         self.strict = strict
@@ -66,13 +67,18 @@ class String(Field[str, str]):
         if not isinstance(value, str):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            return str(value)
+            try:
+                return str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
         else:
             return value
 
     def _get_default_error_message(self, error_code: Any, context: ErrorContext) -> Union[FieldError, str]:
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be a string'
+        if error_code == self.ERR_COERCION_FAILED:
+            return f'Failed to coerce {context._value!r} to string'
 
         return super()._get_default_error_message(error_code, context)
 
@@ -199,7 +205,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value_str = str(value)
+            try:
+                value_str = str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
             if value_str in self._true_values:
                 return True
             if value_str in self._false_values:
-- 
2.43.0


From 656067f2c5ae494524f65a6e2721770852e8ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:52 +0000
Subject: [PATCH 25/29] fix: accept and warn about classes that cannot be used
 with isinstance

---
 oblate/type_validation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index b3efa55..8a5fbb0 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -394,7 +394,12 @@ class TypeValidator:
             if not isinstance(tp, type):
                 cls._warn_unsupported(tp)
                 return True, []
-            return isinstance(value, tp), [f'Must be of type {tp.__name__}']
+            try:
+                return isinstance(value, tp), [f'Must be of type {tp.__name__}']
+            except TypeError:
+                # e.g. protocols that are not runtime checkable
+                cls._warn_unsupported(tp)
+                return True, []
 
         return cls._handle_origin(value, tp, origin)
 
-- 
2.43.0


From 45cc70f674eca372167e36dc2f8e5d664bde4893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:52 +0000
Subject: [PATCH 26/29] fix: validate None in type expressions

---
 oblate/type_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 8a5fbb0..0b362d2 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -385,6 +385,9 @@ class TypeValidator:
     def _process_value(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         if tp is Any:
             return cls._handle_type_any(value, tp)
+        if tp is None:
+            # None stands for its own type in type expressions
+            tp = type(None)
 
         origin = get_origin(tp)
 
-- 
2.43.0


From d88c3fd8d2dc86441558d5584fb4a1be0c259640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 27/29] fix: keep the message and state of field errors that
 are also value errors

---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index bf4aac1..ae1f9fb 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -217,7 +217,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             try:
                 validator(context.schema, value, context)
             except (FieldError, AssertionError, ValueError) as err:
-                if isinstance(err, (AssertionError, ValueError)):
+                if not isinstance(err, FieldError):
                     err = FieldError._from_standard_error(err, schema=context.schema, field=self, value=value)
                 errors.append(err)
 
-- 
2.43.0


From 7f6767cf7e451a731545e39d644a8e17d40abb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 28/29] fix: accept subclasses of set and tuple for Sequence
 type expressions

---
 oblate/type_validation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 0b362d2..b2a7ccb 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -331,12 +331,11 @@ class TypeValidator:
 
     @classmethod
     def _handle_origin_sequence(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
-        value_tp = type(value)
-        if value_tp is list:
+        if isinstance(value, list):
             return cls._handle_origin_list(value, tp)
-        if value_tp is set:
+        if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
-        if value_tp is tuple:
+        if isinstance(value, tuple):
             return cls._handle_origin_tuple(value, Tuple[(get_args(tp) or (Any,))[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
-- 
2.43.0


From bbedeb56b4a7464d3e08b26f695d786a633fcb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 29/29] fix: run and walk the validators that were registered
 at the start

Validators may be registered or removed while a field's validators run or are
walked through; removing one made the next one be skipped.
---
 oblate/fields/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index ae1f9fb..053184f 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -213,7 +213,8 @@ class Field(Generic[RawValueT, FinalValueT]):
         validators = self._raw_validators if raw else self._validators
         errors: List[FieldError] = []
 
-        for validator in validators:
+        # validators may change the registry of the field
+        for validator in validators.copy():
             try:
                 validator(context.schema, value, context)
             except (FieldError, AssertionError, ValueError) as err:
@@ -403,9 +404,9 @@ class Field(Generic[RawValueT, FinalValueT]):
             validators = self._validators.copy()
             validators.extend(self._raw_validators)
         elif raw:
-            validators = self._raw_validators
+            validators = self._raw_validators.copy()
         else:
-            validators = self._validators
+            validators = self._validators.copy()
 
         for validator in validators:
             yield validator
-- 
2.43.0

