From ddf09fde24d8e359607fa8ac2735bb0ec089253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 01/38] fix: read aliased fields of any type and honour rename
 with alias

---
 serde/de.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7c651d1..24c945a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -17,7 +17,7 @@ from beartype import beartype, BeartypeConf
 from beartype.door import is_bearable
 from beartype.roar import BeartypeCallHintParamViolation
 from dataclasses import dataclass, is_dataclass
-from typing import Any, Generic, Iterator, Literal, TypeVar, cast, overload
+from typing import Any, Generic, Literal, TypeVar, cast, overload
 from typing_extensions import dataclass_transform
 
 from .compat import (
@@ -842,6 +842,12 @@ class DeField(Field[T]):
 
         if self.iterbased:
             return f"{self.datavar}[{self.index}]"
+        elif self.alias:
+            optional = is_union(self.type) and type(None) in get_args(self.type)
+            return (
+                f"_get_by_aliases({self.datavar}, [{self.quoted_names()}], "
+                f"raise_error={not optional})"
+            )
         elif is_union(self.type) and type(None) in get_args(self.type):
             return f'{self.datavar}.get("{self.conv_name()}")'
         else:
@@ -851,9 +857,17 @@ class DeField(Field[T]):
     def data(self, d: str) -> None:
         self.datavar = d
 
+    def quoted_names(self) -> str:
+        """
+        Renders all the names the field can be read from: the wire name and then the aliases.
+        """
+        return ",".join(f'"{s}"' for s in [self.conv_name(), *self.alias])
+
     def data_or(self) -> str:
         if self.iterbased:
             return self.data
+        elif self.alias:
+            return f"_get_by_aliases({self.datavar}, [{self.quoted_names()}], raise_error=False)"
         else:
             return f'{self.datavar}.get("{self.conv_name()}")'
 
@@ -1075,13 +1089,7 @@ class Renderer:
                 ]
             )
         else:
-            name = arg.conv_name()
-            if arg.alias:
-                aliases = (f'"{s}"' for s in [name, *arg.alias])
-                get = f"_get_by_aliases(data, [{','.join(aliases)}], raise_error=False)"
-            else:
-                get = f'{arg.datavar}.get("{name}")'
-            exists = f"{get} is not None"
+            exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
     def list(self, arg: DeField[Any]) -> str:
@@ -1192,9 +1200,6 @@ class Renderer:
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
         dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         return f"deserialize_enum({typename(arg.type)}, {dat})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
@@ -1205,9 +1210,6 @@ class Renderer:
         """
         typ = typename(arg.type)
         dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
@@ -1258,24 +1260,21 @@ class Renderer:
         Renders supplying default value during deserialization.
         """
 
-        def get_aliased_fields(arg: Field[Any]) -> Iterator[str]:
-            return (f'"{s}"' for s in [arg.name, *arg.alias])
-
         if arg.flatten:
             # When a field has the `flatten` attribute, iterate over its dataclass fields.
             # This ensures that the code checks keys in the data while considering aliases.
             flattened = []
             for subarg in defields(arg.type):
                 if subarg.alias:
-                    aliases = get_aliased_fields(subarg)
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])")
+                    flattened.append(
+                        f"_exists_by_aliases({arg.datavar}, [{subarg.quoted_names()}])"
+                    )
                 else:
                     flattened.append(f'"{subarg.name}" in {arg.datavar}')
             exists = " and ".join(flattened)
         else:
             if arg.alias:
-                aliases = get_aliased_fields(arg)
-                exists = f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])"
+                exists = f"_exists_by_aliases({arg.datavar}, [{arg.quoted_names()}])"
             else:
                 exists = f'"{arg.conv_name()}" in {arg.datavar}'
 
-- 
2.43.0


From 490d34862734c90bfb689e52d2685706ab065105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 02/38] fix: pass keyword-only and trailing fields by keyword
 in from_tuple

---
 serde/de.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 24c945a..102d26a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1308,6 +1308,21 @@ def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
 
+def constructor_fields(cls: type[Any]) -> list[DeField[Any]]:
+    """
+    Get the fields of the class. The fields following the one which isn't passed to the constructor
+    can be passed only by keyword.
+    """
+    all_fields = defields(cls)
+    force_kw = False
+    for field in all_fields:
+        if not renderable(field):
+            force_kw = True
+        if force_kw:
+            field.kw_only = True
+    return all_fields
+
+
 jinja2_env = jinja2.Environment(
     loader=jinja2.DictLoader(
         {
@@ -1325,9 +1340,12 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
   try:
     return cls(
-      {% for f in fields %}
+      {% for f in fields if not f.kw_only %}
       __{{f.name}},
       {% endfor %}
+      {% for f in fields if f.kw_only %}
+      {{f.name}}=__{{f.name}},
+      {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
     raise SerdeError(e)
@@ -1410,12 +1428,11 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
   try:
     return cls(
-    {% for f in fields %}
-    {% if f.kw_only %}
-    {{f.name}}=__{{f.name}},
-    {% else %}
+    {% for f in fields if not f.kw_only %}
     __{{f.name}},
-    {% endif %}
+    {% endfor %}
+    {% for f in fields if f.kw_only %}
+    {{f.name}}=__{{f.name}},
     {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1515,7 +1532,7 @@ def render_from_iter(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    fields = list(filter(renderable, defields(cls)))
+    fields = list(filter(renderable, constructor_fields(cls)))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
@@ -1613,13 +1630,7 @@ def render_from_dict(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    all_fields = defields(cls)
-    force_kw = False
-    for field in all_fields:
-        if not renderable(field):
-            force_kw = True
-        if force_kw:
-            field.kw_only = True
+    all_fields = constructor_fields(cls)
     fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename="__serde_transparent__", case=None)
-- 
2.43.0


From 3a9beae47bc03336ea8e7d4ba94aaed09a5b90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 03/38] fix: (de)serialize flattened dataclasses with their own
 names, skips and layout

---
 serde/de.py | 59 +++++++++++++++++++++-----------
 serde/se.py | 97 +++++++++++++++++++++++++----------------------------
 2 files changed, 85 insertions(+), 71 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 102d26a..b21b73d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1078,20 +1078,28 @@ class Renderer:
         Render rvalue for Optional.
         """
         inner = arg[0]
-        if arg.iterbased or isinstance(arg, InnerField):
+        if arg.flatten and arg.iterbased:
+            end = arg.index + iter_slots(arg)
+            exists = f"any(v is not None for v in {arg.datavar}[{arg.index}:{end}])"
+        elif arg.iterbased or isinstance(arg, InnerField):
             exists = f"{arg.data} is not None"
         elif arg.flatten:
             # Check nullabilities of all nested fields.
-            exists = " and ".join(
-                [
-                    f'{arg.datavar}.get("{f.name}") is not None'
-                    for f in dataclasses.fields(inner.type)
-                ]
-            )
+            exists = f"any(v is not None for {self.flattened_items(arg)})"
         else:
             exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
+    def flattened_items(self, arg: DeField[Any]) -> str:
+        """
+        Render the loop over the items in the data that belong to the flattened dataclass.
+        """
+        child = flattened_dataclass(arg)
+        scope: Scope = getattr(child, SERDE_SCOPE)
+        if scope.de_has_flatten_dict:
+            return f"k, v in {arg.datavar}.items()"
+        return f"k, v in {arg.datavar}.items() if k in {scope.de_known_fields}"
+
     def list(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for list.
@@ -1261,17 +1269,9 @@ class Renderer:
         """
 
         if arg.flatten:
-            # When a field has the `flatten` attribute, iterate over its dataclass fields.
-            # This ensures that the code checks keys in the data while considering aliases.
-            flattened = []
-            for subarg in defields(arg.type):
-                if subarg.alias:
-                    flattened.append(
-                        f"_exists_by_aliases({arg.datavar}, [{subarg.quoted_names()}])"
-                    )
-                else:
-                    flattened.append(f'"{subarg.name}" in {arg.datavar}')
-            exists = " and ".join(flattened)
+            # When a field has the `flatten` attribute, check if the data has any of the keys
+            # the flattened dataclass is read from.
+            exists = f"any(True for {self.flattened_items(arg)})"
         else:
             if arg.alias:
                 exists = f"_exists_by_aliases({arg.datavar}, [{arg.quoted_names()}])"
@@ -1308,6 +1308,26 @@ def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
 
+def flattened_dataclass(f: DeField[Any]) -> type[Any] | None:
+    """
+    Get the dataclass whose fields are flattened into the class of the field, if any.
+    """
+    if not f.flatten:
+        return None
+    typ = type_args(f.type)[0] if is_opt(f.type) else f.type
+    return typ if isinstance(typ, type) and is_dataclass(typ) else None
+
+
+def iter_slots(f: DeField[Any]) -> int:
+    """
+    Number of the positions the field occupies in the iterable passed in `from_tuple`.
+    """
+    child = flattened_dataclass(f)
+    if child is None:
+        return 1
+    return sum(iter_slots(c) for c in defields(child) if renderable(c))
+
+
 def constructor_fields(cls: type[Any]) -> list[DeField[Any]]:
     """
     Get the fields of the class. The fields following the one which isn't passed to the constructor
@@ -1335,7 +1355,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f,loop.index-1))}}
+  __{{f.name}} = {{rvalue(arg(f,positions[loop.index0]))}}
   {% endfor %}
 
   try:
@@ -1550,6 +1570,7 @@ def render_from_iter(
             func=FROM_ITER,
             serde_scope=serde_scope,
             fields=fields,
+            positions=list(itertools.accumulate(map(iter_slots, fields), initial=0)),
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
diff --git a/serde/se.py b/serde/se.py
index c3a0e18..fab50c6 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -307,7 +307,7 @@ def serialize(
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
             scope.union_se_args[union_key] = union_args
 
-        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g, serialize_class_var)
+        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
         add_func(
             scope,
@@ -623,27 +623,42 @@ def sefields(cls: type[Any], serialize_class_var: bool = False) -> Iterator[SeFi
         yield f
 
 
-def add_field_serializers_to_scope(
-    sfields: Iterator[SeField[Any]], g: dict[str, Any], serialize_class_var: bool = False
-) -> None:
+def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str, Any]) -> None:
     """
     Register custom field serializers and skip_if predicates in the generated globals.
-
-    A flattened dataclass field is rendered inline in the enclosing class's serialize
-    function, so the custom serializers and skip_if predicates of its inner fields must
-    be available in this scope too, not only those of the top-level fields (#453).
     """
     for f in sfields:
         if f.skip_if:
             g[f.skip_if.name] = f.skip_if
         if f.serializer:
             g[f.serializer.name] = f.serializer
-        if f.flatten:
-            inner = f[0] if is_opt(f.type) else f
-            if is_dataclass(inner.type):
-                add_field_serializers_to_scope(
-                    sefields(inner.type, serialize_class_var), g, serialize_class_var
-                )
+
+
+def flattened_dataclass(f: SeField[Any]) -> type[Any] | None:
+    """
+    Get the dataclass whose fields are flattened into the class of the field, if any.
+    """
+    if not f.flatten:
+        return None
+    typ = type_args(f.type)[0] if is_opt(f.type) else f.type
+    return typ if isinstance(typ, type) and is_dataclass(typ) else None
+
+
+def is_flattened(f: SeField[Any]) -> bool:
+    """
+    Test if the value of the field is merged into the dict of the class.
+    """
+    return bool(f.flatten) and (is_flatten_dict(f.type) or flattened_dataclass(f) is not None)
+
+
+def iter_slots(f: SeField[Any]) -> int:
+    """
+    Number of the positions the field occupies in the tuple returned by `to_tuple`.
+    """
+    child = flattened_dataclass(f)
+    if child is None:
+        return 1
+    return sum(iter_slots(c) for c in sefields(child) if not (c.skip or c.skip_serializing))
 
 
 jinja2_env = jinja2.Environment(
@@ -662,9 +677,9 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
   {% for f in fields -%}
   {% if not (f.skip or f.skip_serializing) -%}
   subres = {{rvalue(f)}}
-  {% if lvalue(f) == '__FLATTEN_DICT__' -%}
-  # Merge flattened dict into result (declared fields take precedence)
-  if subres:
+  {% if is_flattened(f) -%}
+  # Merge flattened dict or dataclass into result (declared fields take precedence)
+  if subres{% if f.skip_if %} and not {{f.skip_if.name}}(subres){% endif %}:
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
@@ -709,7 +724,7 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
   return (
   {% for f in fields -%}
   {% if not (f.skip|default(False) or f.skip_serializing|default(False)) %}
-  {{rvalue(f)}},
+  {% if flattened_dataclass(f) %}*{% endif %}({{rvalue(f)}}),
   {% endif -%}
   {% endfor -%}
   )
@@ -796,6 +811,7 @@ def render_to_tuple(
             fields=sefields(cls, serialize_class_var),
             type_check=type_check,
             rvalue=renderer.render,
+            flattened_dataclass=flattened_dataclass,
         )
 
 
@@ -814,7 +830,7 @@ def render_to_dict(
         class_serializer=class_serializer,
         class_name=typename(cls),
     )
-    lrenderer = LRenderer(case, serialize_class_var)
+    lrenderer = LRenderer(case)
     serde_scope = getattr(cls, SERDE_SCOPE)
     if serde_scope.transparent:
         transparent = [
@@ -836,6 +852,7 @@ def render_to_dict(
             type_check=type_check,
             lvalue=lrenderer.render,
             rvalue=renderer.render,
+            is_flattened=is_flattened,
         )
 
 
@@ -873,27 +890,8 @@ class LRenderer:
         """
         Render lvalue
         """
-        if is_dataclass(arg.type) and arg.flatten:
-            return self.flatten(arg)
-        elif is_opt(arg.type) and arg.flatten:
-            inner = arg[0]
-            if is_dataclass(inner.type):
-                return self.flatten(inner)
-        elif is_flatten_dict(arg.type) and arg.flatten:
-            # Special marker for flatten dict - handled by template
-            return "__FLATTEN_DICT__"
-
         return f'res["{arg.conv_name(self.case)}"]'
 
-    def flatten(self, arg: SeField[Any]) -> str:
-        """
-        Render field with flatten attribute.
-        """
-        flattened = []
-        for f in sefields(arg.type, self.serialize_class_var):
-            flattened.append(self.render(f))
-        return ", ".join(flattened)
-
 
 @dataclass
 class Renderer:
@@ -1009,17 +1007,10 @@ class Renderer:
         """
         Render rvalue for dataclass.
         """
-        if arg.flatten:
-            flattened = []
-            for f in sefields(arg.type, self.serialize_class_var):
-                f.parent = arg
-                flattened.append(self.render(f))
-            return ", ".join(flattened)
-        else:
-            return (
-                f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
-                "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
-            )
+        return (
+            f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
+            "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
+        )
 
     def opt(self, arg: SeField[Any]) -> str:
         """
@@ -1030,10 +1021,12 @@ class Renderer:
 
         inner = arg[0]
         inner.name = arg.varname
-        if arg.flatten:
-            return self.render(inner)
+        child = flattened_dataclass(arg)
+        if child is not None and self.func == TO_ITER:
+            none = f"(None,) * {iter_slots(arg)}"
         else:
-            return f"({self.render(inner)}) if {arg.varname} is not None else None"
+            none = "None"
+        return f"({self.render(inner)}) if {arg.varname} is not None else {none}"
 
     def list(self, arg: SeField[Any]) -> str:
         """
-- 
2.43.0


From 13362cb15ef73c190f27d58dc7ab8281ae24393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 04/38] fix: honour skip_none in to_msgpack and to_pickle

---
 serde/msgpack.py | 8 +++++++-
 serde/pickle.py  | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index 22bab81..bbee20e 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -50,6 +50,7 @@ def to_msgpack(
     ext_dict: dict[type[Any], int] | None = None,
     reuse_instances: bool = False,
     convert_sets: bool = True,
+    skip_none: bool = False,
     **opts: Any,
 ) -> bytes:
     """
@@ -76,7 +77,12 @@ def to_msgpack(
         if ext_type_code is None:
             raise SerdeError(f"Could not find type code for {obj_type.__name__} in ext_dict")
 
-    kwargs: Any = {"c": cls, "reuse_instances": reuse_instances, "convert_sets": convert_sets}
+    kwargs: Any = {
+        "c": cls,
+        "reuse_instances": reuse_instances,
+        "convert_sets": convert_sets,
+        "skip_none": skip_none,
+    }
     dict_or_tuple = to_dict(obj, **kwargs) if named else to_tuple(obj, **kwargs)
     return se.serialize(
         dict_or_tuple,
diff --git a/serde/pickle.py b/serde/pickle.py
index b48fb08..4a505ac 100644
--- a/serde/pickle.py
+++ b/serde/pickle.py
@@ -34,7 +34,14 @@ def to_pickle(
     **opts: Any,
 ) -> bytes:
     return se.serialize(
-        to_dict(obj, c=cls, reuse_instances=reuse_instances, convert_sets=convert_sets), **opts
+        to_dict(
+            obj,
+            c=cls,
+            reuse_instances=reuse_instances,
+            convert_sets=convert_sets,
+            skip_none=skip_none,
+        ),
+        **opts,
     )
 
 
-- 
2.43.0


From ae6a38ebb59cfc8db177b0476c96575926c13c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 05/38] fix: tell unions with permuted members apart

---
 serde/core.py | 16 +++++++++++++---
 serde/de.py   |  7 ++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dfea224..a83d4d4 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -92,9 +92,19 @@ SETTINGS = {"debug": False}
 
 @dataclass(frozen=True)
 class UnionCacheKey:
-    union: Hashable
+    """
+    Unions are equal regardless of the order of their members, so the members and the
+    representation are compared to tell such unions apart.
+    """
+
+    members: tuple[Hashable, ...]
+    name: str
     tagging: Tagging
 
+    @classmethod
+    def of(cls, union: Any, tagging: Tagging) -> UnionCacheKey:
+        return cls(tuple(type_args(union)), repr(union), tagging)
+
 
 def init(debug: bool = False) -> None:
     SETTINGS["debug"] = debug
@@ -179,7 +189,7 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey.of(union_cls, tagging)
         wrapper = self.classes.get(cache_key)
         return wrapper or self._generate_union_class(cls)
 
@@ -191,7 +201,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey.of(union_cls, tagging)
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
diff --git a/serde/de.py b/serde/de.py
index b21b73d..145df18 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -536,7 +536,12 @@ def from_obj(
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to deserialize into the object.
-        return CACHE.deserialize_union(c, o, deserialize_numbers=deserialize_numbers)
+        try:
+            return CACHE.deserialize_union(c, o, deserialize_numbers=deserialize_numbers)
+        except SerdeError:
+            raise
+        except Exception as e:
+            raise SerdeError(e) from None
 
     if is_generic(c):
         # Store subscripted generic type such as Foo[Bar] in "maybe_generic",
-- 
2.43.0


From a2985bd81f042c2197e81072edfedf8068f6b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 06/38] fix: apply the last registered global serializer to top
 level values

---
 serde/de.py | 3 ++-
 serde/se.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 145df18..f95ca51 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -474,7 +474,8 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     directly to ``from_dict``/``from_tuple`` instead of nested in a dataclass
     (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_deserializer in GLOBAL_CLASS_DESERIALIZER:
+    # The last registered one takes precedence.
+    for class_deserializer in reversed(GLOBAL_CLASS_DESERIALIZER):
         for method in class_deserializer.__class__.deserialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is ``type[X]``; unwrap it to the value type ``X``.
             if get_args(method.signature.types[1])[0] is typ:
diff --git a/serde/se.py b/serde/se.py
index fab50c6..57885f2 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -379,7 +379,8 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     ``typ`` is passed directly to ``to_dict``/``to_tuple`` instead of nested in a
     dataclass (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_serializer in GLOBAL_CLASS_SERIALIZER:
+    # The last registered one takes precedence.
+    for class_serializer in reversed(GLOBAL_CLASS_SERIALIZER):
         for method in class_serializer.__class__.serialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is the value type; index 0 is ``self``.
             if method.signature.types[1] is typ:
-- 
2.43.0


From 16e7e7ae6bf6e6a03b7c673b763a07a9e8b6bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 07/38] fix: apply class level custom serializers to union
 members

---
 serde/de.py | 28 ++++++++++++++++++++--------
 serde/se.py | 19 ++++++++++++++++---
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index f95ca51..013c6dc 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -362,7 +362,7 @@ def deserialize(
             add_func(
                 scope,
                 union_func_name(UNION_DE_PREFIX, union_args),
-                render_union_func(cls, union_args, tagging),
+                render_union_func(cls, union_args, tagging, class_deserializer),
                 g,
             )
 
@@ -924,18 +924,24 @@ class Renderer:
     class_deserializer: ClassDeserializer | None = None
     class_name: str | None = None
 
-    def render(self, arg: DeField[Any]) -> str:
+    def implemented_methods(self) -> dict[type[Any], int]:
         """
-        Render rvalue
+        Get the types custom class deserializers are available for.
         """
-        implemented_methods: dict[type[Any], int] = {}
+        methods: dict[type[Any], int] = {}
         class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
             GLOBAL_CLASS_DESERIALIZER, [self.class_deserializer] if self.class_deserializer else []
         )
         for n, class_deserializer in enumerate(class_deserializers):
             for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
-                implemented_methods[get_args(method.signature.types[1])[0]] = n
+                methods[get_args(method.signature.types[1])[0]] = n
+        return methods
 
+    def render(self, arg: DeField[Any]) -> str:
+        """
+        Render rvalue
+        """
+        implemented_methods = self.implemented_methods()
         custom_deserializer_available = arg.type in implemented_methods
         if custom_deserializer_available and not arg.deserializer:
             res = (
@@ -1517,7 +1523,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if is_primitive(t) or is_none(t) %}
+    {% if (is_primitive(t) or is_none(t)) and t not in implemented_methods %}
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
@@ -1711,11 +1717,16 @@ def render_from_dict(
 
 
 def render_union_func(
-    cls: type[Any], union_args: Sequence[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: Sequence[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    class_deserializer: ClassDeserializer | None = None,
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
-    renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
+    renderer = Renderer(
+        FROM_DICT, cls=cls, suppress_coerce=True, class_deserializer=class_deserializer
+    )
     return jinja2_env.get_template("union").render(
         func=union_func_name(UNION_DE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
@@ -1727,6 +1738,7 @@ def render_union_func(
         rvalue=renderer.render,
         is_primitive=is_primitive,
         is_none=is_none,
+        implemented_methods=renderer.implemented_methods(),
         typename=typename,
     )
 
diff --git a/serde/se.py b/serde/se.py
index 57885f2..acb72fe 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -304,7 +304,12 @@ def serialize(
         for union in iter_unions(cls):
             union_args = list(type_args(union))
             union_key = union_func_name(UNION_SE_PREFIX, union_args)
-            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
+            add_func(
+                scope,
+                union_key,
+                render_union_func(cls, union_args, tagging, class_serializer),
+                g,
+            )
             scope.union_se_args[union_key] = union_args
 
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
@@ -858,13 +863,21 @@ def render_to_dict(
 
 
 def render_union_func(
-    cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: list[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    class_serializer: ClassSerializer | None = None,
 ) -> str:
     """
     Render function that serializes a field with union type.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
-    renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls))
+    renderer = Renderer(
+        TO_DICT,
+        suppress_coerce=True,
+        class_serializer=class_serializer,
+        class_name=typename(cls),
+    )
     return jinja2_env.get_template("union").render(
         func=union_func_name(UNION_SE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
-- 
2.43.0


From d3c8818f289afd58a960b14b1fdc6b75c585881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 08/38] fix: hide the internal tag from the tagged class

---
 serde/de.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 013c6dc..38255eb 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -193,6 +193,15 @@ def _project_flattened_data(
     return {k: v for k, v in data.items() if k in child_known_fields}
 
 
+def _strip_tag(data: dict[str, Any], tag: str, cls: type[Any]) -> dict[str, Any]:
+    """
+    Remove the tag of the internal tagging so that the class doesn't see it as an unknown field.
+    """
+    if tag in getattr(cls, SERDE_SCOPE).de_known_fields:
+        return data
+    return {k: v for k, v in data.items() if k != tag}
+
+
 def _make_deserialize(
     cls_name: str,
     fields: list[Any],
@@ -328,6 +337,7 @@ def deserialize(
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
+        g["_strip_tag"] = _strip_tag
         g["class_deserializers"] = class_deserializers
         g["BeartypeCallHintParamViolation"] = BeartypeCallHintParamViolation
         g["is_bearable"] = is_bearable
@@ -1511,7 +1521,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif tagging.is_internal() and is_taggable(t) %}
     ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
     ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data}
+    fake_dict = {"fake_key": _strip_tag(data, "{{tagging.tag}}", {{typename(t)}})}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-- 
2.43.0


From 8373c18df6dc72a12d39f4cde0b0276c1c61501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 09/38] fix: deserialize elements of a top level variable
 length tuple

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 38255eb..e338b49 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -606,8 +606,10 @@ def from_obj(
             else:
                 res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
-            if is_bare_tuple(c) or is_variable_tuple(c):
+            if is_bare_tuple(c):
                 res = tuple(e for e in o)
+            elif is_variable_tuple(c):
+                res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
                 res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
         elif is_dict(c):
-- 
2.43.0


From 0f42c7d23a58ca3806c8148aa1d1ee9d13376134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 10/38] fix: pass options to unions serialized directly

---
 serde/core.py | 11 +++++++++--
 serde/se.py   |  8 +++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index a83d4d4..5f075d5 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -210,7 +210,14 @@ class Cache:
         self.classes[cache_key] = wrapper
         return wrapper
 
-    def serialize_union(self, cls: type[Any], obj: Any) -> Any:
+    def serialize_union(
+        self,
+        cls: type[Any],
+        obj: Any,
+        reuse_instances: bool | None = None,
+        convert_sets: bool | None = None,
+        skip_none: bool = False,
+    ) -> Any:
         """
         Serialize the specified Union into dict or tuple.
         """
@@ -218,7 +225,7 @@ class Cache:
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
         func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
-        return scope.funcs[func_name](obj, False, False)
+        return scope.funcs[func_name](obj, reuse_instances, convert_sets, skip_none)
 
     def deserialize_union(
         self,
diff --git a/serde/se.py b/serde/se.py
index acb72fe..34ab6bf 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -429,7 +429,13 @@ def to_obj(
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to serialize the object.
         if c and is_union(c) and not is_opt(c):
-            return CACHE.serialize_union(c, o)
+            return CACHE.serialize_union(
+                c,
+                o,
+                reuse_instances=reuse_instances,
+                convert_sets=convert_sets,
+                skip_none=skip_none,
+            )
 
         if o is None:
             return None
-- 
2.43.0


From 6bf784b518e5572e686882511efc6590fe121c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 11/38] fix: pass convert_sets to objects held by Any fields

---
 serde/se.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 34ab6bf..971741b 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -989,7 +989,7 @@ class Renderer:
         elif is_none(arg.type):
             res = "None"
         elif is_any(arg.type) or is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
-            res = f"to_obj({arg.varname}, True, False, False, skip_none, typing.Any)"
+            res = f"to_obj({arg.varname}, True, False, convert_sets, skip_none, typing.Any)"
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
             assert origin
-- 
2.43.0


From 851191386d2c22e37f8eff558b78341d34ad65c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 12/38] fix: skip None and default values of fields with a skip
 condition

---
 serde/se.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 971741b..e964db6 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -663,6 +663,18 @@ def is_flattened(f: SeField[Any]) -> bool:
     return bool(f.flatten) and (is_flatten_dict(f.type) or flattened_dataclass(f) is not None)
 
 
+def skip_condition(f: SeField[Any]) -> str:
+    """
+    Renders the condition on which the field is skipped.
+    """
+    assert f.skip_if
+    cond = f"{f.skip_if.name}(subres)"
+    if f.skip_if.name == SeField.mangle(f, "skip_if_default"):  # type: ignore[arg-type]
+        # The serialized value may not be comparable with the default e.g. str and Path.
+        cond = f"{cond} or {f.skip_if.name}({f.varname})"
+    return cond
+
+
 def iter_slots(f: SeField[Any]) -> int:
     """
     Number of the positions the field occupies in the tuple returned by `to_tuple`.
@@ -696,7 +708,7 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
       if __k not in res:
         res[__k] = __v
   {% elif f.skip_if -%}
-  if not {{f.skip_if.name}}(subres):
+  if not ({{skip_condition(f)}}) and not (skip_none and subres is None):
     {{lvalue(f)}} = subres
   {% else -%}
   if skip_none:
@@ -865,6 +877,7 @@ def render_to_dict(
             lvalue=lrenderer.render,
             rvalue=renderer.render,
             is_flattened=is_flattened,
+            skip_condition=skip_condition,
         )
 
 
-- 
2.43.0


From b61c11b2bc6a979077d1178ac36f59218c5bcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 13/38] fix: reraise the user exception unchanged from nested
 objects

---
 serde/de.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index e338b49..5a95b2d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -327,7 +327,7 @@ def deserialize(
         g["typing"] = typing
         g["collections"] = collections
         g["Literal"] = Literal
-        g["from_obj"] = from_obj
+        g["from_obj"] = _from_obj
         g["get_generic_arg"] = get_generic_arg
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
@@ -519,6 +519,24 @@ def from_obj(
       floats.
     """
 
+    try:
+        return _from_obj(c, o, named, reuse_instances, deserialize_numbers)
+    except UserError as e:
+        raise e.inner from None
+
+
+def _from_obj(
+    c: type[T],
+    o: Any,
+    named: bool,
+    reuse_instances: bool | None,
+    deserialize_numbers: Callable[[str | int], float] | None = None,
+) -> T:
+    """
+    Implements `from_obj`. An exception raised by user code e.g. `__post_init__` is wrapped in
+    `UserError`, so that it's told apart from failures of deserialization at any depth.
+    """
+
     res: Any
 
     # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not the
@@ -565,7 +583,7 @@ def from_obj(
         maybe_generic = c
     try:
         thisfunc = functools.partial(
-            from_obj,
+            _from_obj,
             named=named,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -645,8 +663,8 @@ def from_obj(
 
         return cast(T, res)
 
-    except UserError as e:
-        raise e.inner from None
+    except UserError:
+        raise
 
     except Exception as e:
         raise SerdeError(e) from None
-- 
2.43.0


From 0755399b8cb02e81ddaff32c33d586bb96ac6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 14/38] fix: restore numeric keys of Counter and NewType from
 text

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 5a95b2d..8f0a6d7 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1181,7 +1181,7 @@ class Renderer:
             k = arg[0]
             k.name = "k"
             k.datavar = "k"
-            return f"collections.Counter({{{self.render(k)}: v for k, v in {arg.data}.items()}})"
+            return f"collections.Counter({{{self.dict_key(k)}: v for k, v in {arg.data}.items()}})"
 
     def tuple(self, arg: DeField[Any]) -> str:
         """
@@ -1234,7 +1234,7 @@ class Renderer:
         ``strict``), mirroring how stringified ``IntEnum``/``IntFlag`` keys are handled.
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
-        typ = arg.type
+        typ = getattr(arg.type, "__supertype__", arg.type)  # Key type can be NewType.
         if (
             isinstance(typ, type)
             and issubclass(typ, (int, float))
-- 
2.43.0


From 1bd3e2a9121903cb42f5ee9e1be7a322a21fbaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 15/38] fix: keep the options of serialize and deserialize
 regardless of their order

---
 serde/core.py |  5 ++++-
 serde/de.py   | 21 ++++++++-------------
 serde/se.py   | 13 ++++++-------
 3 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 5f075d5..21c74f2 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -288,10 +288,13 @@ class Scope:
     """ The union serializing functions need references to their types """
 
     reuse_instances_default: bool = True
-    """ Default values for to_dict & from_dict arguments """
+    """ Default values for to_dict arguments """
 
     convert_sets_default: bool = False
 
+    de_reuse_instances_default: bool = True
+    """ Default value for from_dict argument """
+
     # Skip fields whose value equals the default when set at the class level.
     skip_if_default_default: bool = False
     # Skip fields whose value is None when set at the class level.
diff --git a/serde/de.py b/serde/de.py
index 8f0a6d7..c4a247a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -301,14 +301,9 @@ def deserialize(
         # That's why we need the "scope.cls is not cls" check.
         scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
         if scope is None or scope.cls is not cls:
-            scope = Scope(
-                cls,
-                reuse_instances_default=reuse_instances_default,
-                convert_sets_default=convert_sets_default,
-                skip_if_default_default=skip_if_default,
-                skip_if_none_default=skip_if_none,
-            )
+            scope = Scope(cls)
             setattr(cls, SERDE_SCOPE, scope)
+        scope.de_reuse_instances_default = reuse_instances_default
         scope.transparent = transparent
 
         class_deserializers: list[ClassDeserializer] = list(
@@ -1392,7 +1387,7 @@ jinja2_env = jinja2.Environment(
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances=None, deserialize_numbers=None):
   if reuse_instances is None:
-    reuse_instances = {{serde_scope.reuse_instances_default}}
+    reuse_instances = {{serde_scope.de_reuse_instances_default}}
 
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
@@ -1418,7 +1413,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances=None, deserialize_numbers=None):
   if reuse_instances is None:
-    reuse_instances = {{serde_scope.reuse_instances_default}}
+    reuse_instances = {{serde_scope.de_reuse_instances_default}}
 
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
@@ -1442,7 +1437,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances=None, deserialize_numbers=None):
   if reuse_instances is None:
-    reuse_instances = {{serde_scope.reuse_instances_default}}
+    reuse_instances = {{serde_scope.de_reuse_instances_default}}
 
   {% if deny_unknown_fields and not has_flatten_dict %}
   known_fields = {{ known_fields }}
@@ -1506,7 +1501,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances=None, deserialize_numbers=None):
   if reuse_instances is None:
-    reuse_instances = {{serde_scope.reuse_instances_default}}
+    reuse_instances = {{serde_scope.de_reuse_instances_default}}
 
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
@@ -1528,7 +1523,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 """,
             "union": """
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
-             variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
+             variable_type_args=None, reuse_instances = {{serde_scope.de_reuse_instances_default}},
              deserialize_numbers=None):
   errors = []
   {% for t in union_args %}
@@ -1568,7 +1563,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 """,
             "literal": """
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
-             variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
+             variable_type_args=None, reuse_instances = {{serde_scope.de_reuse_instances_default}},
              deserialize_numbers=None):
   if data in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
     return data
diff --git a/serde/se.py b/serde/se.py
index e964db6..947604e 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -252,14 +252,13 @@ def serialize(
         # That's why we need the "scope.cls is not cls" check.
         scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
         if scope is None or scope.cls is not cls:
-            scope = Scope(
-                cls,
-                reuse_instances_default=reuse_instances_default,
-                convert_sets_default=convert_sets_default,
-                skip_if_default_default=skip_if_default,
-                skip_if_none_default=skip_if_none,
-            )
+            scope = Scope(cls)
             setattr(cls, SERDE_SCOPE, scope)
+        # The scope may have been created by `deserialize`.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_serializers: list[ClassSerializer] = list(
-- 
2.43.0


From 57eb766b435a45a6f55df453f55000d0c82b526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 16/38] fix: generate code for classes under a lock

---
 serde/core.py |  4 ++++
 serde/de.py   | 20 +++++++++++++-------
 serde/se.py   | 20 +++++++++++++-------
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 21c74f2..298956d 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -8,6 +8,7 @@ import enum
 import functools
 import logging
 import re
+import threading
 import casefy
 from dataclasses import dataclass
 
@@ -89,6 +90,9 @@ LITERAL_DE_PREFIX = "literal_de"
 
 SETTINGS = {"debug": False}
 
+GENERATION_LOCK = threading.RLock()
+""" Held while the code is generated, so that no thread uses half-prepared classes """
+
 
 @dataclass(frozen=True)
 class UnionCacheKey:
diff --git a/serde/de.py b/serde/de.py
index c4a247a..9cfb7bf 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -70,6 +70,7 @@ from .core import (
     ClassDeserializer,
     FROM_DICT,
     FROM_ITER,
+    GENERATION_LOCK,
     SERDE_SCOPE,
     CACHE,
     UNION_DE_PREFIX,
@@ -416,14 +417,15 @@ def deserialize(
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
+    with GENERATION_LOCK:
+        if _cls in GENERATION_STACK:
+            return _cls
 
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+        GENERATION_STACK.append(_cls)
+        try:
+            return wrap(_cls)
+        finally:
+            GENERATION_STACK.pop()
 
 
 def is_deserializable(instance_or_class: Any) -> bool:
@@ -547,6 +549,10 @@ def _from_obj(
     def deserializable_to_obj(cls: type[T]) -> T:
         serde_scope: Scope = getattr(cls, SERDE_SCOPE)
         func_name = FROM_DICT if named else FROM_ITER
+        if GENERATION_STACK:
+            # Classes nested in this class may be being generated by another thread.
+            with GENERATION_LOCK:
+                pass
         res = serde_scope.funcs[func_name](
             cls,
             maybe_generic=maybe_generic,
diff --git a/serde/se.py b/serde/se.py
index 947604e..32612e4 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -71,6 +71,7 @@ from .core import (
     SERDE_SCOPE,
     TO_DICT,
     TO_ITER,
+    GENERATION_LOCK,
     UNION_SE_PREFIX,
     DefaultTagging,
     Field,
@@ -335,14 +336,15 @@ def serialize(
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
+    with GENERATION_LOCK:
+        if _cls in GENERATION_STACK:
+            return _cls
 
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+        GENERATION_STACK.append(_cls)
+        try:
+            return wrap(_cls)
+        finally:
+            GENERATION_STACK.pop()
 
 
 def is_serializable(instance_or_class: Any) -> bool:
@@ -403,6 +405,10 @@ def to_obj(
     def serializable_to_obj(object: Any) -> Any:
         serde_scope: Scope = getattr(object, SERDE_SCOPE)
         func_name = TO_DICT if named else TO_ITER
+        if GENERATION_STACK:
+            # Classes nested in this class may be being generated by another thread.
+            with GENERATION_LOCK:
+                pass
         return serde_scope.funcs[func_name](
             object,
             reuse_instances=reuse_instances,
-- 
2.43.0


From 177507829ba8b67d4ca37a30cbb3cd105a196ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 17/38] fix: apply newly registered global serializers to
 unions used before

---
 serde/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde/core.py b/serde/core.py
index 298956d..8166194 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -141,6 +141,12 @@ class Cache:
 
     classes: dict[Hashable, type[Any]] = dataclasses.field(default_factory=dict)
 
+    def clear(self) -> None:
+        """
+        Drop the generated code, which doesn't know custom serializers registered afterwards.
+        """
+        self.classes.clear()
+
     def _get_class(self, cls: type[Any]) -> type[Any]:
         """
         Get a wrapper class from the the cache. If not found, it will generate
@@ -1286,6 +1292,7 @@ def add_serializer(serializer: ClassSerializer) -> None:
     Register custom global serializer.
     """
     GLOBAL_CLASS_SERIALIZER.append(serializer)
+    CACHE.clear()
 
 
 def add_deserializer(deserializer: ClassDeserializer) -> None:
@@ -1293,3 +1300,4 @@ def add_deserializer(deserializer: ClassDeserializer) -> None:
     Register custom global deserializer.
     """
     GLOBAL_CLASS_DESERIALIZER.append(deserializer)
+    CACHE.clear()
-- 
2.43.0


From 7be6cb47add91e12b6b4e125287cd74bc68d729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 18/38] fix: tell unions and literals apart whose function
 names coincide

---
 serde/core.py | 23 +++++++++++++++++++++--
 serde/de.py   | 16 ++++++++--------
 serde/se.py   |  8 ++++----
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 8166194..9e1689b 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -9,6 +9,7 @@ import functools
 import logging
 import re
 import threading
+import zlib
 import casefy
 from dataclasses import dataclass
 
@@ -234,7 +235,7 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
+        func_name = union_func_key(UNION_SE_PREFIX, list(type_args(union_cls)))
         return scope.funcs[func_name](obj, reuse_instances, convert_sets, skip_none)
 
     def deserialize_union(
@@ -249,7 +250,7 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_DE_PREFIX, list(type_args(union_cls)))
+        func_name = union_func_key(UNION_DE_PREFIX, list(type_args(union_cls)))
         return cast(
             T,
             scope.funcs[func_name](
@@ -986,6 +987,24 @@ def literal_func_name(literal_args: Sequence[Any]) -> str:
     )
 
 
+def union_func_key(prefix: str, union_args: Sequence[Any]) -> str:
+    """
+    Generate a function name that is different for different unions. Characters dropped in
+    `union_func_name` are taken into account.
+    """
+    key = ",".join(typename(e) for e in union_args)
+    return f"{union_func_name(prefix, union_args)}_{zlib.crc32(key.encode()):08x}"
+
+
+def literal_func_key(literal_args: Sequence[Any]) -> str:
+    """
+    Generate a function name that is different for different literals. Characters dropped in
+    `literal_func_name` are taken into account.
+    """
+    key = ",".join(f"{a!r}:{typename(type(a))}" for a in literal_args)
+    return f"{literal_func_name(literal_args)}_{zlib.crc32(key.encode()):08x}"
+
+
 @dataclass(frozen=True)
 class Tagging:
     """
diff --git a/serde/de.py b/serde/de.py
index 9cfb7bf..52e2f04 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -90,9 +90,9 @@ from .core import (
     ensure,
     fields,
     is_instance,
-    literal_func_name,
+    literal_func_key,
     logger,
-    union_func_name,
+    union_func_key,
 )
 
 # Lazy numpy imports to improve startup time
@@ -367,7 +367,7 @@ def deserialize(
             union_args = type_args(union)
             add_func(
                 scope,
-                union_func_name(UNION_DE_PREFIX, union_args),
+                union_func_key(UNION_DE_PREFIX, union_args),
                 render_union_func(cls, union_args, tagging, class_deserializer),
                 g,
             )
@@ -376,7 +376,7 @@ def deserialize(
         for literal in iter_literals(cls):
             literal_args = type_args(literal)
             add_func(
-                scope, literal_func_name(literal_args), render_literal_func(cls, literal_args), g
+                scope, literal_func_key(literal_args), render_literal_func(cls, literal_args), g
             )
 
         # Collect default values and default factories used in the generated code.
@@ -1287,7 +1287,7 @@ class Renderer:
         return f"{arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {ctor}"
 
     def union_func(self, arg: DeField[Any]) -> str:
-        func_name = union_func_name(UNION_DE_PREFIX, type_args(arg.type))
+        func_name = union_func_key(UNION_DE_PREFIX, type_args(arg.type))
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1297,7 +1297,7 @@ class Renderer:
         )
 
     def literal(self, arg: DeField[Any]) -> str:
-        func_name = literal_func_name(type_args(arg.type))
+        func_name = literal_func_key(type_args(arg.type))
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1759,7 +1759,7 @@ def render_union_func(
         FROM_DICT, cls=cls, suppress_coerce=True, class_deserializer=class_deserializer
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_DE_PREFIX, union_args),
+        func=union_func_key(UNION_DE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -1779,7 +1779,7 @@ def render_literal_func(
 ) -> str:
     literal_name = f"Literal[{', '.join([repr(a) for a in literal_args])}]"
     return jinja2_env.get_template("literal").render(
-        func=literal_func_name(literal_args),
+        func=literal_func_key(literal_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
         literal_args=literal_args,
         literal_name=literal_name,
diff --git a/serde/se.py b/serde/se.py
index 32612e4..644f57f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -86,7 +86,7 @@ from .core import (
     fields,
     is_instance,
     logger,
-    union_func_name,
+    union_func_key,
     GLOBAL_CLASS_SERIALIZER,
 )
 
@@ -303,7 +303,7 @@ def serialize(
         # render all union functions
         for union in iter_unions(cls):
             union_args = list(type_args(union))
-            union_key = union_func_name(UNION_SE_PREFIX, union_args)
+            union_key = union_func_key(UNION_SE_PREFIX, union_args)
             add_func(
                 scope,
                 union_key,
@@ -903,7 +903,7 @@ def render_union_func(
         class_name=typename(cls),
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_SE_PREFIX, union_args),
+        func=union_func_key(UNION_SE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -1165,7 +1165,7 @@ class Renderer:
         return f"str({arg.varname})"
 
     def union_func(self, arg: SeField[Any]) -> str:
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(arg.type)))
+        func_name = union_func_key(UNION_SE_PREFIX, list(type_args(arg.type)))
         return (
             f"serde_scope.funcs['{func_name}']({arg.varname}, "
             "reuse_instances, convert_sets, skip_none)"
-- 
2.43.0


From f8482b41287c51db3cd536d74407300e7b06430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 19/38] fix: (de)serialize enums and literals passed directly

---
 serde/de.py | 6 ++++++
 serde/se.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 52e2f04..e4d250b 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -659,6 +659,12 @@ def _from_obj(
             res = deserialize_numbers(o) if deserialize_numbers else c(o)
         elif is_any(c) or is_ellipsis(c):
             res = o
+        elif is_enum(c):
+            res = deserialize_enum(c, o)
+        elif is_literal(c):
+            if o not in type_args(c):
+                raise SerdeError(f"Can not deserialize {o!r} as {typename(c)}.")
+            res = o
         else:
             res = cast(Any, c)(o)
 
diff --git a/serde/se.py b/serde/se.py
index 644f57f..959f9c9 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import abc
 import copy
 import dataclasses
+import enum
 import functools
 import typing
 import itertools
@@ -467,6 +468,8 @@ def to_obj(
             return [thisfunc(e) for e in o]
         elif isinstance(o, Counter):
             return dict(o)
+        elif isinstance(o, enum.Enum):
+            return enum_value(type(o), o)
         elif is_str_serializable_instance(o) or is_datetime_instance(o):
             se_cls = o.__class__ if not c or c is Any else c
             return CACHE.serialize(
-- 
2.43.0


From b2705bd51d21b27e17c4762113d5b6c0357c70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 20/38] fix: select literal union members by their values

---
 serde/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 9e1689b..c5a9af2 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -429,7 +429,7 @@ def is_instance(obj: Any, typ: Any) -> bool:
     elif is_generic(typ):
         return is_generic_instance(obj, typ)
     elif is_literal(typ):
-        return True
+        return obj in type_args(typ)
     elif is_new_type_primitive(typ):
         inner = getattr(typ, "__supertype__", None)
         if type(inner) is type:
-- 
2.43.0


From 4b6eb6b7bd39e17fecb40078987f51c1dd4aba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 21/38] fix: resolve type arguments of generic classes at any
 depth

---
 serde/compat.py | 24 ++++++++++++++++++++++++
 serde/core.py   |  3 +++
 serde/de.py     | 31 +++++++++++++++++++++++++------
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index d87e7d1..d425b19 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -1134,6 +1134,30 @@ def find_generic_arg(cls: type[Any], field: TypeVar) -> int:
     return -1
 
 
+def bind_generic_args(typ: Any, parent: Any, parent_type_vars: list[str] | None) -> Any:
+    """
+    Replace the type variables in a generic type with the type arguments of the class
+    using it.
+
+    >>> T = typing.TypeVar('T')
+    >>> U = typing.TypeVar('U')
+    >>> class GenericFoo(typing.Generic[T]):
+    ...     pass
+    >>> class GenericBar(typing.Generic[T, U]):
+    ...     pass
+    >>> get_args(bind_generic_args(GenericFoo[U], GenericBar[int, str], ['T', 'U']))
+    (<class 'str'>,)
+    >>> get_args(bind_generic_args(GenericFoo[U], GenericBar, ['T', 'U']))
+    (typing.Any,)
+    """
+    params = getattr(typ, "__parameters__", ())
+    if not params:
+        return typ
+    args = get_args(parent) if is_generic(parent) else ()
+    bound = dict(zip(parent_type_vars or [], args, strict=False))
+    return typ[tuple(bound.get(p.__name__, typing.Any) for p in params)]
+
+
 def get_generic_arg(
     typ: Any,
     maybe_generic_type_vars: list[str] | None,
diff --git a/serde/core.py b/serde/core.py
index c5a9af2..2a457d1 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -298,6 +298,9 @@ class Scope:
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
+    generic_types: list[Any] = dataclasses.field(default_factory=list)
+    """ Parametrised generic classes referenced by the deserializing functions """
+
     reuse_instances_default: bool = True
     """ Default values for to_dict arguments """
 
diff --git a/serde/de.py b/serde/de.py
index e4d250b..2962586 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -25,6 +25,7 @@ from .compat import (
     SerdeSkip,
     T,
     UserError,
+    bind_generic_args,
     find_generic_arg,
     get_args,
     get_generic_arg,
@@ -324,6 +325,7 @@ def deserialize(
         g["collections"] = collections
         g["Literal"] = Literal
         g["from_obj"] = _from_obj
+        g["bind_generic_args"] = bind_generic_args
         g["get_generic_arg"] = get_generic_arg
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
@@ -556,6 +558,7 @@ def _from_obj(
         res = serde_scope.funcs[func_name](
             cls,
             maybe_generic=maybe_generic,
+            variable_type_args=get_type_var_names(cls) if is_generic(maybe_generic) else None,
             data=o,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -1046,10 +1049,12 @@ class Renderer:
         elif isinstance(arg.type, TypeVar):
             if not self.cls:
                 raise SerdeError("Missing cls")
-            index = find_generic_arg(self.cls, arg.type)
+            # A type variable of a generic class nested in a non generic one stands for Any.
+            is_own = hasattr(self.cls, "__orig_bases__")
+            index = find_generic_arg(self.cls, arg.type) if is_own else 0
             res = (
-                f"from_obj(get_generic_arg(maybe_generic, maybe_generic_type_vars, "
-                f"variable_type_args, {index}), {arg.data}, named={not arg.iterbased}, "
+                f"from_obj(get_generic_arg(maybe_generic, variable_type_args, "
+                f"variable_type_args, {index}), {arg.data}, named=True, "
                 "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers)"
             )
         elif is_literal(arg.type):
@@ -1107,11 +1112,25 @@ class Renderer:
             else:
                 var = arg.datavar
 
-        type_args_str = [str(t).lstrip("~") for t in arg.type_args] if arg.type_args else None
+        if arg.type_args and self.cls:
+            # Type variables in the type arguments are those of the class being rendered.
+            # Replace them by the arguments that class itself is parametrised with.
+            scope: Scope = getattr(self.cls, SERDE_SCOPE)
+            index = len(scope.generic_types)
+            scope.generic_types.append(cast(Any, arg.type)[tuple(arg.type_args)])
+            generic_opts = (
+                f"maybe_generic=bind_generic_args(serde_scope.generic_types[{index}], "
+                "maybe_generic, variable_type_args), maybe_generic_type_vars=None, "
+                f"variable_type_args={get_type_var_names(cast(Any, arg.type))}, "
+            )
+        else:
+            generic_opts = (
+                "maybe_generic=maybe_generic, maybe_generic_type_vars=maybe_generic_type_vars, "
+                "variable_type_args=None, "
+            )
 
         opts = (
-            "maybe_generic=maybe_generic, maybe_generic_type_vars=maybe_generic_type_vars, "
-            f"variable_type_args={type_args_str}, reuse_instances=reuse_instances, "
+            f"{generic_opts}reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers"
         )
 
-- 
2.43.0


From 9a6d481d72f06278cd02e23e538de3f2c47199e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 22/38] fix: apply number handling to subclasses and NewTypes
 of float

---
 serde/de.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 2962586..cadd713 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -659,7 +659,7 @@ def _from_obj(
         elif is_datetime(c):
             res = c.fromisoformat(o)
         elif isinstance(c, type) and issubclass(c, float):
-            res = deserialize_numbers(o) if deserialize_numbers else c(o)
+            res = c(deserialize_numbers(o) if deserialize_numbers else o)
         elif is_any(c) or is_ellipsis(c):
             res = o
         elif is_enum(c):
@@ -1286,14 +1286,18 @@ class Renderer:
         """
         typ = typename(arg.type)
         dat = arg.data
-        if isinstance(arg.type, type) and issubclass(arg.type, float):
+        base = getattr(arg.type, "__supertype__", arg.type)  # Type can be NewType.
+        if isinstance(base, type) and issubclass(base, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
             else:
                 assert arg.name
                 escaped_arg_name = arg.name.replace('"', '\\"')
+                number = f"deserialize_numbers({dat})"
+                if arg.type is not float:
+                    number = f"{typ}({number})"
                 return (
-                    f"deserialize_numbers({dat}) if deserialize_numbers else "
+                    f"{number} if deserialize_numbers else "
                     f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
                 )
         if self.suppress_coerce and suppress_coerce:
-- 
2.43.0


From 7d9862cccde4b25d5dd4e947e6ba08ee68ea0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 23/38] fix: serialize subclasses of primitives in coerce mode

---
 serde/se.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 959f9c9..eb913fb 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -54,6 +54,7 @@ from .compat import (
     is_none,
     is_opt,
     is_primitive,
+    is_primitive_subclass,
     is_set,
     is_str_serializable,
     is_str_serializable_instance,
@@ -297,7 +298,7 @@ def serialize(
                 # configuration for generating the serialization function.
                 serialize(typ)
 
-            if is_primitive(typ) and not is_enum(typ):
+            if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
             g[typename(typ)] = typ
 
-- 
2.43.0


From 739cd86c309a0506a2708394f5a376999a7f0a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 24/38] fix: deserialize frozenset members of unions

---
 serde/compat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index d425b19..68733d4 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -198,11 +198,12 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
             return f"{mod}list"
     elif is_set(typ):
         args = type_args(typ)
+        name = "frozenset" if is_frozen_set(typ) else "set"
         if args:
             et = thisfunc(args[0])
-            return f"{mod}set[{et}]"
+            return f"{mod}{name}[{et}]"
         else:
-            return f"{mod}set"
+            return f"{mod}{name}"
     elif is_dict(typ):
         args = type_args(typ)
         if args and len(args) == 2:
-- 
2.43.0


From 8afd2fe096ea88f8dc7b9ce78caaf62ccb4faca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 25/38] fix: deserialize bare frozenset as frozenset

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index cadd713..506bbf5 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -612,7 +612,7 @@ def _from_obj(
                 res = [thisfunc(type_args(c)[0], e) for e in o]
         elif is_set(c):
             if is_bare_set(c):
-                res = set(o)
+                res = frozenset(o) if is_frozen_set(c) else set(o)
             elif is_frozen_set(c):
                 res = frozenset(thisfunc(type_args(c)[0], e) for e in o)
             else:
@@ -1182,7 +1182,7 @@ class Renderer:
         Render rvalue for set.
         """
         if is_bare_set(arg.type):
-            return f"set({arg.data})"
+            return f"{'frozenset' if is_frozen_set(arg.type) else 'set'}({arg.data})"
         elif is_frozen_set(arg.type):
             return f"frozenset({self.render(arg[0])} for v in {arg.data})"
         else:
-- 
2.43.0


From 293bf32284fffd8165a7f1b0901bcb0718adf45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 26/38] fix: deserialize enums with primitive mixin in unions

---
 serde/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 506bbf5..b8144ef 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1583,7 +1583,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if (is_primitive(t) or is_none(t)) and t not in implemented_methods %}
+    {% if (is_primitive(t) and not is_enum(t) or is_none(t)) and t not in implemented_methods %}
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
@@ -1797,6 +1797,7 @@ def render_union_func(
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
         is_primitive=is_primitive,
+        is_enum=is_enum,
         is_none=is_none,
         implemented_methods=renderer.implemented_methods(),
         typename=typename,
-- 
2.43.0


From e7f7166a90854548653df1b452a380db4bbd53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 27/38] fix: share one function between literals that differ in
 order only

---
 serde/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 2a457d1..66d5626 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1002,8 +1002,10 @@ def union_func_key(prefix: str, union_args: Sequence[Any]) -> str:
 def literal_func_key(literal_args: Sequence[Any]) -> str:
     """
     Generate a function name that is different for different literals. Characters dropped in
-    `literal_func_name` are taken into account.
+    `literal_func_name` are taken into account. The order of values is not, since literals compare
+    equal regardless of it.
     """
+    literal_args = sorted(literal_args, key=lambda a: (typename(type(a)), repr(a)))
     key = ",".join(f"{a!r}:{typename(type(a))}" for a in literal_args)
     return f"{literal_func_name(literal_args)}_{zlib.crc32(key.encode()):08x}"
 
-- 
2.43.0


From 5e28fb6ebfe1e33596df6aa16ee75cb3a3435a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 28/38] fix: tell unions apart whose nested unions have
 permuted members

---
 serde/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 66d5626..5f308f5 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -993,9 +993,10 @@ def literal_func_name(literal_args: Sequence[Any]) -> str:
 def union_func_key(prefix: str, union_args: Sequence[Any]) -> str:
     """
     Generate a function name that is different for different unions. Characters dropped in
-    `union_func_name` are taken into account.
+    `union_func_name` are taken into account, and so is the order of the members of nested unions,
+    which type names may not reflect since unions compare equal regardless of it.
     """
-    key = ",".join(typename(e) for e in union_args)
+    key = ",".join(f"{typename(e)}:{e!r}" for e in union_args)
     return f"{union_func_name(prefix, union_args)}_{zlib.crc32(key.encode()):08x}"
 
 
-- 
2.43.0


From bffd89aeff6467320d5b38a81eed43a814b8081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 29/38] fix: serialize enum values that equal members of other
 enums

---
 serde/se.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index eb913fb..75e431f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -1183,10 +1183,11 @@ def enum_value(cls: Any, e: Any) -> Any:
     """
     Helper function to get value from enum or enum compatible value.
     """
-    if is_enum(e):
+    # Don't use `is_enum` since it is cached and values may be equal to an enum or not hashable.
+    if isinstance(e, enum.Enum):
         v = e.value
         # Recursively get value of Nested enum.
-        if is_enum(v):
+        if isinstance(v, enum.Enum):
             return enum_value(v.__class__, v)
         else:
             return v
-- 
2.43.0


From d810ba8e89a26b0db416223fcc84181b5d2c2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 30/38] fix: name optional members of unions for legacy class
 serializers

---
 serde/de.py | 1 +
 serde/se.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index b8144ef..888054d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -324,6 +324,7 @@ def deserialize(
         g["typing"] = typing
         g["collections"] = collections
         g["Literal"] = Literal
+        g["Optional"] = typing.Optional  # used in the type names of unions
         g["from_obj"] = _from_obj
         g["bind_generic_args"] = bind_generic_args
         g["get_generic_arg"] = get_generic_arg
diff --git a/serde/se.py b/serde/se.py
index 75e431f..91d0927 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -280,6 +280,7 @@ def serialize(
         g["to_obj"] = to_obj
         g["typing"] = typing
         g["Literal"] = Literal
+        g["Optional"] = typing.Optional  # used in the type names of unions
         g["TypeCheck"] = TypeCheck
         g["disabled"] = disabled
         g["coerce_object"] = coerce_object
-- 
2.43.0


From c87d13827cae840e45b621efb191947ab9eb3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 31/38] fix: check counter members of unions

---
 serde/compat.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 68733d4..08de82c 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -204,6 +204,14 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
             return f"{mod}{name}[{et}]"
         else:
             return f"{mod}{name}"
+    elif is_counter(typ):
+        # Counter must be checked before dict since Counter is a subclass of dict
+        args = type_args(typ)
+        if args:
+            et = thisfunc(args[0])
+            return f"Counter[{et}]"
+        else:
+            return "Counter"
     elif is_dict(typ):
         args = type_args(typ)
         if args and len(args) == 2:
@@ -219,13 +227,6 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
             return f"deque[{et}]"
         else:
             return "deque"
-    elif is_counter(typ):
-        args = type_args(typ)
-        if args:
-            et = thisfunc(args[0])
-            return f"Counter[{et}]"
-        else:
-            return "Counter"
     elif is_tuple(typ):
         args = type_args(typ)
         if args:
-- 
2.43.0


From f9acbeb28505e32afbfb8f251568b17d24371d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 32/38] fix: a globally registered serializer for Path applies
 to paths passed directly

---
 serde/se.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 91d0927..730de3c 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -13,6 +13,7 @@ import typing
 import itertools
 import jinja2
 from dataclasses import dataclass, is_dataclass
+from pathlib import Path
 from typing import Any, Generic, Literal, TypeVar
 from collections import deque, Counter
 from collections.abc import (
@@ -388,11 +389,13 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     ``typ`` is passed directly to ``to_dict``/``to_tuple`` instead of nested in a
     dataclass (https://github.com/yukinarit/pyserde/issues/514).
     """
+    # Instances of ``Path`` are of the platform's subclass of it.
+    types = (typ, Path) if issubclass(typ, Path) else (typ,)
     # The last registered one takes precedence.
     for class_serializer in reversed(GLOBAL_CLASS_SERIALIZER):
         for method in class_serializer.__class__.serialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is the value type; index 0 is ``self``.
-            if method.signature.types[1] is typ:
+            if method.signature.types[1] in types:
                 return class_serializer
     return None
 
-- 
2.43.0


From 982534a227d00436a339642f13e39aaedceb37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 33/38] fix: subclasses which only redeclare fields become
 dataclasses of their own

---
 serde/core.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 5f308f5..adac3d5 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 import dataclasses
 import enum
 import functools
+import inspect
 import logging
 import re
 import threading
@@ -1143,25 +1144,16 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
         return True
 
     # Checking is_dataclass is not enough in such a case that the class is inherited
-    # from another dataclass. To do it correctly, check if all fields in __annotations__
-    # are present as dataclass fields.
-    annotations = getattr(cls, "__annotations__", {})
-    if not annotations:
+    # from another dataclass. Only a class which itself has @dataclass has its own fields.
+    if "__dataclass_fields__" in cls.__dict__:
         return False
 
-    field_names = [field.name for field in dataclass_fields(cls)]
-    for field_name, annotation in annotations.items():
-        # Omit InitVar field because it doesn't appear in dataclass fields.
-        if is_instance(annotation, dataclasses.InitVar):
-            continue
-        # This field in __annotations__ is not a part of dataclass fields.
-        # This means this class does not implement dataclass directly.
-        if field_name not in field_names:
-            return True
-
-    # If all of the fields in __annotation__ are present as dataclass fields,
-    # the class already implemented dataclass, thus returns False.
-    return False
+    # The class needs to be a dataclass if it declares fields, including the ones which
+    # redeclare inherited fields. Omit InitVar field because it isn't a dataclass field.
+    return any(
+        not is_instance(annotation, dataclasses.InitVar)
+        for annotation in inspect.get_annotations(cls).values()
+    )
 
 
 @dataclass
-- 
2.43.0


From a49dadd4eac938d31d8dcd818b488c46e6b70be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 34/38] fix: apply custom class deserializers to numeric dict
 keys

---
 serde/de.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 888054d..e05e1c5 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1262,6 +1262,8 @@ class Renderer:
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
         typ = getattr(arg.type, "__supertype__", arg.type)  # Key type can be NewType.
+        if arg.type in self.implemented_methods() and not arg.deserializer:
+            return self.render(arg)
         if (
             isinstance(typ, type)
             and issubclass(typ, (int, float))
-- 
2.43.0


From 0cc18c0792a2e7b012088f2c98bc30de92de5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 35/38] fix: reject transparent classes whose only field is
 skipped in one direction

The decorator raised IndexError instead of SerdeError.
---
 serde/de.py | 6 ++++--
 serde/se.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index e05e1c5..ff1b5f7 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -289,8 +289,10 @@ def deserialize(
         if not is_dataclass(cls):
             dataclass(cls)
 
-        if transparent:
-            get_transparent_field(cls)
+        if transparent and get_transparent_field(cls).skip_deserializing:
+            raise SerdeError(
+                f"{typename(cls)} with `transparent=True` can not skip deserializing its only field"
+            )
 
         if type_check.is_strict():
             serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
diff --git a/serde/se.py b/serde/se.py
index 730de3c..79cbdd0 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -242,8 +242,10 @@ def serialize(
         if not is_dataclass(cls):
             dataclass(cls)
 
-        if transparent:
-            get_transparent_field(cls)
+        if transparent and get_transparent_field(cls).skip_serializing:
+            raise SerdeError(
+                f"{typename(cls)} with `transparent=True` can not skip serializing its only field"
+            )
 
         if type_check.is_strict():
             serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
-- 
2.43.0


From 1bceffa34428e1e0bc0b78c098c2fc678b258140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 36/38] fix: keep the names of frozenset and Counter types,
 tell them apart in unions only

---
 serde/compat.py | 24 ++++++++++++++++++------
 serde/de.py     |  4 ++--
 serde/se.py     |  2 +-
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 08de82c..f1fef67 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -152,8 +152,11 @@ def get_args(typ: type[Any]) -> tuple[Any, ...]:
 
 
 @cache
-def typename(typ: Any, with_typing_module: bool = False) -> str:
+def typename(typ: Any, with_typing_module: bool = False, exact: bool = False) -> str:
     """
+    Name of a type. Frozensets and counters are named after the kinds of type they are special
+    cases of unless `exact` is given.
+
     >>> from typing import Any
     >>> typename(int)
     'int'
@@ -174,9 +177,11 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
     'set[Foo]'
     >>> typename(Any)
     'Any'
+    >>> typename(frozenset[int], exact=True)
+    'frozenset[int]'
     """
     mod = "typing." if with_typing_module else ""
-    thisfunc = functools.partial(typename, with_typing_module=with_typing_module)
+    thisfunc = functools.partial(typename, with_typing_module=with_typing_module, exact=exact)
     if is_opt(typ):
         args = type_args(typ)
         if args:
@@ -198,13 +203,13 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
             return f"{mod}list"
     elif is_set(typ):
         args = type_args(typ)
-        name = "frozenset" if is_frozen_set(typ) else "set"
+        set_name = "frozenset" if exact and is_frozen_set(typ) else "set"
         if args:
             et = thisfunc(args[0])
-            return f"{mod}{name}[{et}]"
+            return f"{mod}{set_name}[{et}]"
         else:
-            return f"{mod}{name}"
-    elif is_counter(typ):
+            return f"{mod}{set_name}"
+    elif exact and is_counter(typ):
         # Counter must be checked before dict since Counter is a subclass of dict
         args = type_args(typ)
         if args:
@@ -227,6 +232,13 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
             return f"deque[{et}]"
         else:
             return "deque"
+    elif is_counter(typ):
+        args = type_args(typ)
+        if args:
+            et = thisfunc(args[0])
+            return f"Counter[{et}]"
+        else:
+            return "Counter"
     elif is_tuple(typ):
         args = type_args(typ)
         if args:
diff --git a/serde/de.py b/serde/de.py
index ff1b5f7..1c2f1a1 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -365,7 +365,7 @@ def deserialize(
             if is_generic(typ):
                 g[typename(typ)] = get_origin(typ)
             else:
-                g[typename(typ)] = typ
+                g[typename(typ, exact=True)] = typ
 
         # render all union functions
         for union in iter_unions(cls):
@@ -1593,7 +1593,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
+    ensure(is_bearable(res, {{typename(t, exact=True)}}), "object is not of type '{{typename(t)}}'")
     return res
   except Exception as e:
     errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
diff --git a/serde/se.py b/serde/se.py
index 79cbdd0..5e63366 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -304,7 +304,7 @@ def serialize(
 
             if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
-            g[typename(typ)] = typ
+            g[typename(typ, exact=True)] = typ
 
         # render all union functions
         for union in iter_unions(cls):
-- 
2.43.0


From 4dd4d7fa6f654a373391b46b6dce5889113ee2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 37/38] fix: take a bare typing.Tuple for a bare tuple

---
 serde/compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index f1fef67..cd26f1b 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -677,8 +677,10 @@ def is_bare_tuple(typ: type[Any]) -> bool:
     False
     >>> is_bare_tuple(tuple)
     True
+    >>> is_bare_tuple(typing.Tuple)
+    True
     """
-    return typ is tuple
+    return typ in (tuple, typing.Tuple)
 
 
 @cache
-- 
2.43.0


From aeeb9072fdbb554ac209e45a10ada6e1b972c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 38/38] fix: do not write the internal tag into a dict held by
 a transparent object

---
 serde/se.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index 5e63366..7c2c823 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -792,9 +792,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    res = {{rvalue(arg(t))}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
-    return res
+    return {**({{rvalue(arg(t))}}), "{{tagging.tag}}": "{{typename(t)}}"}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     res = {"{{tagging.content}}": {{rvalue(arg(t))}}}
-- 
2.43.0

