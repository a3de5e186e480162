From c3ce25e948a2ea6ad9b96b61cdfbe71cfd343f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 01/26] fix: encode static strings for CEL without altering
 them

---
 src/koreo/cel/encoder.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/koreo/cel/encoder.py b/src/koreo/cel/encoder.py
index 98d9727..541475c 100644
--- a/src/koreo/cel/encoder.py
+++ b/src/koreo/cel/encoder.py
@@ -1,5 +1,6 @@
 from typing import Any
 import base64
+import re
 
 from celpy import celtypes
 
@@ -58,7 +59,7 @@ def convert_bools(
 def encode_cel(value: Any) -> str:
     if isinstance(value, dict):
         return f"{{{ ",".join(
-            f'"{f"{key}".replace('"', '\"')}":{encode_cel(value)}'
+            f'"{_escape(f"{key}")}":{encode_cel(value)}'
             for key, value in value.items()
         ) }}}"
 
@@ -78,31 +79,30 @@ def encode_cel(value: Any) -> str:
         return '""'
 
     if not value.startswith(CEL_PREFIX):
-        if "\n" in value:
-            return f'r"""{ value.replace('"', '\"') }"""'  # fmt: skip
-
         if '"' in value:
-            return f'"""{ value.replace('"', r'\"') }"""'  # fmt: skip
+            return f'"""{ _escape(value) }"""'  # fmt: skip
 
-        return f'"{value}"'  # fmt: skip
+        return f'"{ _escape(value) }"'  # fmt: skip
 
     return value.lstrip(CEL_PREFIX)
 
 
-def _encode_plain(maybe_number) -> bool:
-    if not isinstance(maybe_number, str):
-        return True
+def _escape(value: str) -> str:
+    return (
+        value.replace("\\", r"\\")
+        .replace('"', r"\"")
+        .replace("\n", r"\n")
+        .replace("\r", r"\r")
+    )
 
-    try:
-        int(maybe_number)
-        return True
-    except ValueError:
-        pass
 
-    try:
-        float(maybe_number)
+# Only decimal numerals are delivered as numbers. Python's `int` and `float` are
+# far more lenient (`inf`, `1_000`, surrounding whitespace, non-ASCII digits).
+_NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
+
+
+def _encode_plain(maybe_number) -> bool:
+    if not isinstance(maybe_number, str):
         return True
-    except ValueError:
-        pass
 
-    return False
+    return _NUMERAL.fullmatch(maybe_number) is not None
-- 
2.43.0


From 7021a4b75db5e934079f40b7e2a9ce8d9d30697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 02/26] fix: extract argument structure from every expression
 shape

---
 src/koreo/cel/structure_extractor.py | 154 +++++++++------------------
 src/koreo/workflow/prepare.py        |   2 +-
 2 files changed, 51 insertions(+), 105 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 3a8d394..e41612d 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -1,132 +1,78 @@
+from celpy.evaluation import celstr
 from lark import Tree, Token
 
 
 def extract_argument_structure(compiled: Tree) -> set[str]:
     var_map: set[str] = set()
     for thing in compiled.iter_subtrees():
-        if thing.data == "member_dot":
-            member_dot: str = _process_member_dot(thing)
-            var_map.add(member_dot)
-
-        if thing.data == "member_index":
-            member_index: str = _process_member_index(thing)
-            var_map.add(member_index)
+        if thing.data == "member_dot" or thing.data == "member_index":
+            path = _process_path(thing)
+            if path is not None:
+                var_map.add(path)
 
     return var_map
 
 
-def _process_member_dot(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
-
-
-def _process_member_dot_arg(tree: Tree):
-    if len(tree.children) != 3:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary" or root.data == "ident":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
-
+def _process_path(tree: Tree) -> str | None:
+    """Build the dotted path `tree` names, or `None` if it does not statically
+    name anything (such as a member of a computed value)."""
 
-def _process_member_index(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
+    if tree.data == "member_dot" or tree.data == "member_dot_arg":
+        # member_dot_arg has a third child only if arguments are provided, they
+        # are not part of the path.
+        return _join(_process_path(tree.children[0]), f"{tree.children[1]}")
 
-    # print(f"{len(tree.children)}: {tree.children[0]}")
+    if tree.data == "member_index":
+        return _join(
+            _process_path(tree.children[0]), _process_index(tree.children[1])
+        )
 
-    terminal: Tree = tree.children[1]
+    if tree.data == "ident" or tree.data == "dot_ident":
+        return f"{tree.children[0]}"
 
-    if terminal.data == "primary":
-        terminal_value: str = _process_primary(terminal)
+    if tree.data == "literal":
+        return _process_literal(tree.children[0])
 
-    elif terminal.data == "expr":
-        terminal_value = None
-        while terminal and terminal.children:
-            if terminal.data == "primary":
-                terminal_value = _process_primary(terminal)
-                break
+    # Anything which is only a wrapper (including parentheses).
+    if len(tree.children) == 1 and tree.data in _WRAPPERS:
+        return _process_path(tree.children[0])
 
-            terminal: Tree = terminal.children[0]
+    return None
 
-        if not terminal_value:
-            raise Exception(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
 
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
+_WRAPPERS = {
+    "expr",
+    "conditionalor",
+    "conditionaland",
+    "relation",
+    "addition",
+    "multiplication",
+    "unary",
+    "member",
+    "primary",
+    "paren_expr",
+}
 
-    root: Tree = tree.children[0].children[0]
 
-    if root.data == "member_dot":
-        root_value = _process_member_dot(root)
-    elif root.data == "member_index":
-        root_value = _process_member_index(root)
-    elif root.data == "member_dot_arg":
-        root_value = _process_member_dot_arg(root)
-    elif root.data == "primary":
-        root_value: str = _process_primary(root)
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
+def _join(root: str | None, terminal: str | None) -> str | None:
+    if root is None or terminal is None:
+        return None
 
-    return f"{root_value}.{terminal_value}"
+    return f"{root}.{terminal}"
 
 
-def _process_primary(tree: Tree) -> str:
-    if len(tree.children) != 1:
-        raise Exception(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
+def _process_index(terminal: Tree) -> str | None:
+    while terminal.data != "primary":
+        if not (terminal.children and isinstance(terminal.children[0], Tree)):
+            return None
 
-    primary: Tree = tree.children[0]
+        terminal = terminal.children[0]
 
-    # print(f"{len(tree.children)}: {primary}")
+    return _process_path(terminal)
 
-    if primary.data == "ident":
-        return f"{primary.children[0]}"
 
-    if primary.data == "literal":
-        literal: Token = primary.children[0]
-        if literal.type == "INT_LIT":
-            return literal.value
-        return literal.strip(literal[0])
+def _process_literal(literal: Token) -> str:
+    if literal.type in ("STRING_LIT", "MLSTRING_LIT"):
+        return f"{celstr(literal)}"
 
-    raise Exception(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+    return f"{literal.value}"
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 6a3ccbe..e4bf4c2 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -384,7 +384,7 @@ def _load_step(
             structure.ErrorStep(
                 label=step_label,
                 outcome=PermFail(
-                    message=f"Step '{step_label}', must come after {', '.join(out_of_order_steps)}.",
+                    message=f"Step '{step_label}', must come after {', '.join(f'{step}' for step in out_of_order_steps)}.",
                     location=step_location,
                 ),
                 condition=None,
-- 
2.43.0


From a15f0f6050597d7364ce7d692a3c6515ea0698f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 03/26] fix: use a resource API class only when it exactly
 matches apiConfig

---
 src/koreo/resource_function/prepare.py | 60 ++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index f23b63c..6ec2e85 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -221,6 +221,34 @@ def _prepare_api_config(
             # Just needed to set name
             pass
 
+    match _load_resource_api(
+        api_version=api_version, kind=kind, plural=plural, namespaced=namespaced
+    ):
+        case PermFail(message=message):
+            return PermFail(message=message)
+        case resource_api:
+            # Just needed to set resource_api
+            pass
+
+    return (resource_api, resource_id, owned, readonly, delete_if_exists)
+
+
+_RESOURCE_APIS: dict[tuple[str, str, str, bool], type[APIObject]] = {}
+
+
+def _load_resource_api(
+    api_version: str, kind: str, plural: str, namespaced: bool
+) -> type[APIObject] | PermFail:
+    # kr8s would interpret these as a (different) group and version.
+    if "." in kind or "/" in kind or api_version.count("/") > 1:
+        return PermFail(
+            message=f"Invalid `spec.apiConfig` `apiVersion` ('{api_version}') or `kind` ('{kind}')"
+        )
+
+    api_key = (api_version, kind, plural, namespaced)
+    if api_key in _RESOURCE_APIS:
+        return _RESOURCE_APIS[api_key]
+
     try:
         resource_api = kr8s.objects.get_class(
             version=api_version,
@@ -228,14 +256,30 @@ def _prepare_api_config(
             _asyncio=True,
         )
     except KeyError:
-        resource_api = kr8s.objects.new_class(
-            version=api_version,
-            kind=kind,
-            plural=plural,
-            namespaced=namespaced,
-            asyncio=True,
-        )
-    return (resource_api, resource_id, owned, readonly, delete_if_exists)
+        resource_api = None
+
+    # The kr8s lookup is lenient: a core `apiVersion` matches any group and a kind
+    # also matches plurals (in any case). Only an exact match is the same API.
+    if not (
+        resource_api
+        and resource_api.version == api_version
+        and resource_api.kind == kind
+        and resource_api.namespaced == namespaced
+        and plural in (constants.PLURAL_LOOKUP_NEEDED, resource_api.plural)
+    ):
+        try:
+            resource_api = kr8s.objects.new_class(
+                version=api_version,
+                kind=kind,
+                plural=plural,
+                namespaced=namespaced,
+                asyncio=True,
+            )
+        except ValueError as err:
+            return PermFail(message=f"Invalid `spec.apiConfig.kind` ('{kind}'): {err}")
+
+    _RESOURCE_APIS[api_key] = resource_api
+    return resource_api
 
 
 def _prepare_resource_template(
-- 
2.43.0


From 0def56225cc641a7a5ae5dd2282a095eb49c96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 04/26] fix: comparing retyped lists and last-applied values
 must not crash or match

---
 .../resource_function/reconcile/validate.py   | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 221fe67..d902da5 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -110,6 +110,12 @@ def _list_to_object(
     return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
 
 
+def _is_object_list(value) -> bool:
+    return isinstance(value, (list, tuple)) and all(
+        isinstance(item, dict) for item in value
+    )
+
+
 def _validate_dict_match(
     target: dict, actual: dict, last_applied_value: dict | None = None
 ) -> ResourceMatch:
@@ -129,7 +135,7 @@ def _validate_dict_match(
         if key
     }
 
-    if not last_applied_value:
+    if not isinstance(last_applied_value, dict):
         last_applied_value = {}
 
     for target_key in target_keys:
@@ -154,13 +160,20 @@ def _validate_dict_match(
 
             compare_value = actual[target_key]
 
-        if target_key in compare_as_map:
+        if (
+            target_key in compare_as_map
+            and _is_object_list(target[target_key])
+            and _is_object_list(compare_value)
+        ):
             map_keys = compare_as_map[target_key]
+            last_applied_list = last_applied_value[target_key]
             key_match = validate_match(
                 target=_list_to_object(target[target_key], map_keys),
                 actual=_list_to_object(compare_value, map_keys),
-                last_applied_value=_list_to_object(
-                    last_applied_value[target_key], map_keys
+                last_applied_value=(
+                    _list_to_object(last_applied_list, map_keys)
+                    if _is_object_list(last_applied_list)
+                    else None
                 ),
             )
         else:
@@ -203,9 +216,10 @@ def _validate_list_match(
             ],
         )
 
-    if last_applied_value:
+    if isinstance(last_applied_value, (list, tuple)):
         last_applied_len = len(last_applied_value)
     else:
+        last_applied_value = None
         last_applied_len = 0
 
     for idx, (target_value, actual_value) in enumerate(zip(target, actual)):
@@ -240,8 +254,9 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
         )
 
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        # In Python `True == 1` and `False == 0`, so they need kept distinct.
+        target_set = {(isinstance(value, bool), value) for value in target}
+        actual_set = {(isinstance(value, bool), value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -265,10 +280,10 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
     if not (missing_values or unexpected_values):
         return ResourceMatch(match=True, differences=())
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         return ResourceMatch(match=False, differences=(f"<missing '{missing_value}'>",))
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         return ResourceMatch(
             match=False, differences=(f"<unexpectedly found '{unexpected_value}'>",)
         )
-- 
2.43.0


From afc00896efba8ac07385f521004828a0ea576483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 05/26] fix: a patch keeps the owner references the live object
 already has

---
 src/koreo/resource_function/reconcile/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 8c0039f..b9aa418 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -355,11 +355,22 @@ async def reconcile_krm_resource(
             )
 
         case structure.UpdatePatch(delay=delay):
+            # Patching replaces lists, so owner references are only ever added to
+            # those the resource already has.
+            add_refs = converted_resource["metadata"].pop("ownerReferences", None)
+            add_refs = [*add_refs] if isinstance(add_refs, list) else []
             if should_own and not owner_reffed:
-                owner_refs = _updated_owner_refs(api_resource.raw, owner_ref)
+                add_refs.append(owner_ref)
+
+            owner_refs = api_resource.raw["metadata"].get("ownerReferences")
+            for add_ref in add_refs:
+                owner_refs = _updated_owner_refs(
+                    {"metadata": {"ownerReferences": owner_refs}}, add_ref
+                )
                 if not is_unwrapped_ok(owner_refs):
                     return ReconcileResult(result=owner_refs, resource_id=resource_id)
 
+            if add_refs:
                 converted_resource["metadata"]["ownerReferences"] = owner_refs
 
             await api_resource.patch(_prepare_for_api(converted_resource))
-- 
2.43.0


From 92eac2a7a8fda1213084dedf678df8daaec79927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 06/26] fix: the last-applied annotation is never compared,
 nested or trusted to be well formed

---
 .../resource_function/reconcile/__init__.py      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index b9aa418..96dbb12 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -320,6 +320,7 @@ async def reconcile_krm_resource(
         owner_reffed = True
 
     converted_resource = convert_bools(expected_resource)
+    _strip_last_applied(converted_resource)
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -846,11 +847,24 @@ def _extract_last_applied(resource: dict) -> dict | None:
     if not last_applied:
         return None
 
-    return json.loads(last_applied)
+    try:
+        loaded = json.loads(last_applied)
+    except (TypeError, ValueError):
+        return None
+
+    return loaded if isinstance(loaded, dict) else None
+
+
+def _strip_last_applied(obj: dict):
+    """The annotation is managed here, it is never part of the target."""
+    match obj:
+        case {"metadata": {"annotations": dict(annotations)}}:
+            annotations.pop(LAST_APPLIED_ANNOTATION, None)
 
 
 def _prepare_for_api(obj: dict) -> dict:
     prepared = _strip_koreo_directives(obj)
+    _strip_last_applied(prepared)
 
     dumped = json.dumps(prepared)
 
-- 
2.43.0


From d01f5de00c4a79f5f0f4080bb0de6168d6e6969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 07/26] fix: the condition of a step which timed out or crashed
 must not claim it is ready

---
 src/koreo/workflow/reconcile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 70513b2..6a0b78c 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -164,7 +164,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=timeout_outcome,
+                    outcome=timeout_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
@@ -182,7 +182,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=error_outcome,
+                    outcome=error_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
-- 
2.43.0


From 58a8db5969543c2d76e290f923068557cc136a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 08/26] fix: notifying must not fail because a subscriber was
 killed

---
 src/koreo/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 1c4f2f8..0fe74a6 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -102,6 +102,9 @@ def notify_subscribers(notifier: Resource, event_time: float):
             subscriber.put_nowait(
                 ResourceEvent(resource=notifier, event_time=event_time)
             )
+        except asyncio.QueueShutDown:
+            # The subscriber was killed, it is no longer listening.
+            pass
         except asyncio.QueueFull:
             pass
             # TODO: I think there is a way to monitor for stalled subscribers
-- 
2.43.0


From cbc44727f51a22f44a36146efc38f480c2da7479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 09/26] fix: a resource deleted and offered again straight away
 keeps its own watcher

---
 src/koreo/cache.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cb99871..b6308de 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -134,9 +134,11 @@ async def delete_from_cache(
     queue = registry.kill_resource(resource=resource)
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
-    # This shouldn't happen, just an extra check
-    if resource in _REPREPARE_TASKS:
-        _REPREPARE_TASKS[resource].cancel()
+    # The task must not outlive the entry; if the resource is offered again it
+    # will need its own.
+    reprepare_task = _REPREPARE_TASKS.pop(resource, None)
+    if reprepare_task:
+        reprepare_task.cancel()
 
     match queue:
         case None:
@@ -235,13 +237,18 @@ async def _reprepare_and_update_cache(
 ) -> None:
     resource_key = registry.Resource(resource_type=resource_class, name=cache_key)
 
-    cached = __CACHE.get(resource_key)
-    if not cached:
-        return
+    while True:
+        cached = __CACHE.get(resource_key)
+        if not cached:
+            return
 
-    prepare_started_at = time.monotonic()
-    preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
-    prepare_finished_at = time.monotonic()
+        prepare_started_at = time.monotonic()
+        preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
+        prepare_finished_at = time.monotonic()
+
+        # If the entry changed while preparing, this outcome is for an old spec.
+        if __CACHE.get(resource_key) is cached:
+            break
 
     if is_unwrapped_ok(preparer_outcome):
         prepared_resource, subscriptions = preparer_outcome
@@ -271,8 +278,14 @@ _REPREPARE_TASKS: dict[registry.Resource, asyncio.Task] = {}
 
 def _deletor(resource):
     def do_delete(task: asyncio.Task):
-        del _REPREPARE_TASKS[resource]
-        registry.deregister(resource, time.monotonic())
+        # If the resource was deleted (and perhaps offered again), the current
+        # registration does not belong to this task.
+        if _REPREPARE_TASKS.get(resource) is task:
+            del _REPREPARE_TASKS[resource]
+            registry.deregister(resource, time.monotonic())
+
+        if task.cancelled():
+            return
 
         task_exception = task.exception()
         if task_exception:
-- 
2.43.0


From d0219fcd71296a94f4630f5c4f1cac3decc82123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 10/26] fix: describing an expression failure must not crash

---
 src/koreo/cel/evaluation.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index c9b4cee..b0917ab 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -28,7 +28,7 @@ def evaluate(
         return expression_value
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_error_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -61,7 +61,7 @@ def evaluate_predicates(
         return predicate_to_koreo_result(raw_result, location=location)
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_error_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -96,7 +96,7 @@ def evaluate_overlay(
             )
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_error_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -140,8 +140,8 @@ def check_for_celevalerror(
     value: celtypes.Value | celpy.CELEvalError, location: str | None
 ) -> None | PermFail:
     match value:
-        case celpy.CELEvalError(tree=error_tree):
-            tree = tree_dump(error_tree) if error_tree else ""
+        case celpy.CELEvalError():
+            tree = _dump_error_tree(value)
             return PermFail(
                 message=f"Error evaluating `{location}` (at {tree}) {value.args}",
                 location=tree,
@@ -161,3 +161,14 @@ def check_for_celevalerror(
                     return eval_error
 
     return None
+
+
+def _dump_error_tree(err: celpy.CELEvalError) -> str:
+    if not err.tree:
+        return ""
+
+    # celpy can not dump every expression (those containing an empty list or map).
+    try:
+        return tree_dump(err.tree)
+    except Exception:
+        return ""
-- 
2.43.0


From b31af29e432ff3ce9f0398ab86860e27eb2be909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 11/26] fix: functions propagate arguments which failed to
 evaluate

---
 src/koreo/cel/functions.py | 50 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index ced8a06..a40eb4c 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -1,8 +1,9 @@
+import base64
 import copy
 import json
-import base64
 
 from celpy import celtypes
+from celpy.evaluation import base_functions
 import celpy
 
 
@@ -372,6 +373,38 @@ def _replace(
         return celpy.CELEvalError(f"Replace error {err}")
 
 
+def _find_error(value) -> celpy.CELEvalError | None:
+    match value:
+        case celpy.CELEvalError():
+            return value
+        case dict():
+            nested = [*value.keys(), *value.values()]
+        case list() | tuple():
+            nested = value
+        case _:
+            return None
+
+    for item in nested:
+        if (error := _find_error(item)) is not None:
+            return error
+
+    return None
+
+
+def _propagate_errors(function: celpy.CELFunction) -> celpy.CELFunction:
+    """Arguments which failed to evaluate are passed as error objects, they must
+    not be processed (or discarded) as though they were values."""
+
+    def propagate_errors(*args, **kwargs):
+        error = _find_error([*args, *kwargs.values()])
+        if error is not None:
+            return error
+
+        return function(*args, **kwargs)
+
+    return propagate_errors
+
+
 koreo_function_annotations: dict[str, celpy.Annotation] = {
     "to_ref": celtypes.FunctionType,
     "self_ref": celtypes.FunctionType,
@@ -415,3 +448,18 @@ koreo_cel_functions: dict[str, celpy.CELFunction] = {
     "b64decode": _b64decode,
     "replace": _replace,
 }
+
+# These would accept (and stringify, count, etc) an error as though it is a value.
+koreo_cel_functions.update(
+    {
+        name: base_functions[name]
+        for name in ("bytes", "list", "map", "size", "string", "type")
+    }
+)
+
+koreo_cel_functions.update(
+    {
+        name: _propagate_errors(function)
+        for name, function in koreo_cel_functions.items()
+    }
+)
-- 
2.43.0


From a2c0c56573e8510a2876a5842c7c8d118c3f6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 12/26] fix: a resource which can not be encoded is a PermFail

---
 .../resource_function/reconcile/__init__.py   | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 96dbb12..9b44eac 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -374,7 +374,13 @@ async def reconcile_krm_resource(
             if add_refs:
                 converted_resource["metadata"]["ownerReferences"] = owner_refs
 
-            await api_resource.patch(_prepare_for_api(converted_resource))
+            prepared_resource = _prepare_for_api(converted_resource)
+            if not is_unwrapped_ok(prepared_resource):
+                return ReconcileResult(
+                    result=prepared_resource, resource_id=resource_id
+                )
+
+            await api_resource.patch(prepared_resource)
             return ReconcileResult(
                 result=Retry(
                     message=(
@@ -688,9 +694,13 @@ async def _create_api_resource(
             location="<api-create-convert>",
         )
 
+    prepared_resource = _prepare_for_api(converted_resource)
+    if not is_unwrapped_ok(prepared_resource):
+        return prepared_resource
+
     new_resource = resource_api(
         api=api,
-        resource=_prepare_for_api(converted_resource),
+        resource=prepared_resource,
         namespace=namespace,
     )
 
@@ -862,11 +872,18 @@ def _strip_last_applied(obj: dict):
             annotations.pop(LAST_APPLIED_ANNOTATION, None)
 
 
-def _prepare_for_api(obj: dict) -> dict:
+def _prepare_for_api(obj: dict) -> dict | PermFail:
     prepared = _strip_koreo_directives(obj)
     _strip_last_applied(prepared)
 
-    dumped = json.dumps(prepared)
+    try:
+        dumped = json.dumps(prepared)
+    except (TypeError, ValueError) as err:
+        # Not every CEL value (such as a type) may be represented.
+        return PermFail(
+            message=f"Can not encode resource for the API: {err}",
+            location="spec.resource",
+        )
 
     if "metadata" not in prepared:
         prepared["metadata"] = {}
-- 
2.43.0


From e08b4e6aeddf25aac7dc9c41275a6372a40e196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 13/26] fix: an integral delay such as 5.0 is valid

---
 src/koreo/predicate_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 784435b..37fb63e 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -57,7 +57,7 @@ def predicate_to_koreo_result(
             case {"assert": _, "retry": {"message": message, "delay": delay}}:
                 return result.Retry(
                     message=f"{message}",
-                    delay=int(f"{delay}"),
+                    delay=int(delay),
                     location=location,
                 )
 
-- 
2.43.0


From 3581c8660bdda7d3050657bb3a040d8e0b781d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 14/26] fix: preparing values which CEL can not represent must
 not crash

---
 src/koreo/resource_template/prepare.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_template/prepare.py b/src/koreo/resource_template/prepare.py
index 35936e3..cbcb636 100644
--- a/src/koreo/resource_template/prepare.py
+++ b/src/koreo/resource_template/prepare.py
@@ -25,7 +25,14 @@ async def prepare_resource_template(
         )
 
     template_spec = spec.get("template", {})
-    template = celpy.json_to_cel(template_spec)
+    try:
+        template = celpy.json_to_cel(template_spec)
+    except ValueError as err:
+        return PermFail(
+            message=f"ResourceTemplate '{cache_key}' `spec.template` contains an unsupported value ({err}).",
+            location=f"prepare:ResourceTemplate:{cache_key}",
+        )
+
     if not template_spec:
         return PermFail(
             message=f"Missing `spec.template` for ResourceTemplate '{cache_key}'.",
@@ -49,7 +56,14 @@ async def prepare_resource_template(
             location=f"prepare:ResourceTemplate:{cache_key}",
         )
 
-    context = celpy.json_to_cel(spec.get("context", {}))
+    try:
+        context = celpy.json_to_cel(spec.get("context", {}))
+    except ValueError as err:
+        return PermFail(
+            message=f"ResourceTemplate '{cache_key}' `spec.context` contains an unsupported value ({err}).",
+            location=f"prepare:ResourceTemplate:{cache_key}",
+        )
+
     if not isinstance(context, celtypes.MapType):
         return PermFail(
             message=f"ResourceTemplate '{cache_key}' `spec.context` ('{context}') must be an object.",
-- 
2.43.0


From 242d4c5df8c175d8653d607559f8c6dc48c14dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 15/26] fix: comparing an error with a string is an error, not
 false

---
 src/koreo/cel/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index a40eb4c..89df85b 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -457,6 +457,11 @@ koreo_cel_functions.update(
     }
 )
 
+# Likewise, comparing an error with a string would be false instead of an error.
+koreo_cel_functions.update(
+    {name: base_functions[name] for name in ("_==_", "_!=_", "_in_")}
+)
+
 koreo_cel_functions.update(
     {
         name: _propagate_errors(function)
-- 
2.43.0


From 1ecf2eea6704c6ba10a534042ecd4fe289541083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 16/26] fix: a resource notices dependencies which change while
 it is being prepared

---
 src/koreo/cache.py    |  4 ++++
 src/koreo/registry.py | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index b6308de..bcffbbf 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -173,6 +173,10 @@ async def _handle_notifications(
 
     registry.subscribe_only_to(subscriber=resource, resources=subscriptions)
 
+    # Anything watched may have changed while this was being prepared, if that was
+    # not being watched yet (or was handled meanwhile) it would go unnoticed.
+    registry.notify_missed_events(subscriber=resource, since=prepare_started_at)
+
     # We need to send the latest possible time to subscribers.
     registry.notify_subscribers(notifier=resource, event_time=prepare_finished_at)
 
diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 0fe74a6..9afccf2 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -80,6 +80,8 @@ def unsubscribe(unsubscriber: Resource, resource: Resource):
 
 
 def notify_subscribers(notifier: Resource, event_time: float):
+    _LAST_EVENT_TIMES[notifier] = event_time
+
     subscribers = _RESOURCE_SUBSCRIBERS[notifier]
     if not subscribers:
         logger.debug(f"{notifier} has no subscribers")
@@ -115,6 +117,24 @@ def notify_subscribers(notifier: Resource, event_time: float):
             # health_check_task.add_done_callback(_CHECK_SUBSCRIBER_HEALTH.discard)
 
 
+def notify_missed_events(subscriber: Resource, since: float):
+    """Deliver the latest event of each watched resource which changed after
+    `since`, for those which were not (yet) being watched at that time."""
+    queue = _SUBSCRIPTION_QUEUES.get(subscriber)
+    if not queue:
+        return
+
+    for resource in _SUBSCRIBER_RESOURCES[subscriber]:
+        event_time = _LAST_EVENT_TIMES.get(resource)
+        if event_time is None or event_time <= since:
+            continue
+
+        try:
+            queue.put_nowait(ResourceEvent(resource=resource, event_time=event_time))
+        except (asyncio.QueueFull, asyncio.QueueShutDown):
+            pass
+
+
 def get_subscribers(resource: Resource):
     return _RESOURCE_SUBSCRIBERS[resource]
 
@@ -190,11 +210,13 @@ def _check_for_cycles(subscriber: Resource, resources: Sequence[Resource]):
 _RESOURCE_SUBSCRIBERS: defaultdict[Resource, set[Resource]] = defaultdict(set[Resource])
 _SUBSCRIBER_RESOURCES: defaultdict[Resource, set[Resource]] = defaultdict(set[Resource])
 _SUBSCRIPTION_QUEUES: dict[Resource, RegistryQueue] = {}
+_LAST_EVENT_TIMES: dict[Resource, float] = {}
 
 
 def _reset_registries():
     _RESOURCE_SUBSCRIBERS.clear()
     _SUBSCRIBER_RESOURCES.clear()
+    _LAST_EVENT_TIMES.clear()
 
     for queue in _SUBSCRIPTION_QUEUES.values():
         try:
-- 
2.43.0


From d5eed945a68d8c3f28827d34cada5fac3040660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 17/26] fix: select a refSwitch case by a concatenated string
 (C01)

CEL evaluates string concatenation to a native str.
---
 src/koreo/workflow/reconcile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 6a0b78c..58a4021 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -437,7 +437,7 @@ async def _reconcile_ref_switch(
     ):
         case result.PermFail() as err:
             return StepResult(result=err)
-        case (celtypes.StringType() | celtypes.IntType()) as switch_value:
+        case (celtypes.StringType() | celtypes.IntType() | str()) as switch_value:
             # Just needed to extract the `switch_on` value
             pass
         case bad_type:
-- 
2.43.0


From ae1f53130f92048dba2377140db153a4991a95b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 18/26] fix: iterate a concatenated list in forEach (C02)

CEL evaluates list concatenation to a native list.
---
 src/koreo/workflow/reconcile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 58a4021..83e5880 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -562,7 +562,7 @@ async def _for_each_reconciler(
         case result.PermFail() as failure:
             return StepResult(result=failure)
 
-        case celtypes.ListType() as source_iterator:
+        case (celtypes.ListType() | list()) as source_iterator:
             # Without this, if the source_iterator is empty the task-group
             # raises an exception at context-manager exit.
             if not source_iterator:
-- 
2.43.0


From 6d4dbc6f0faa789c97599870f55c2a72f9d2d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 19/26] fix: an expression whose syntax error can not be
 described is a PermFail

---
 src/koreo/cel/prepare.py       | 3 +++
 src/koreo/predicate_helpers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index a67572f..c106fc3 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -27,6 +27,9 @@ def prepare_expression(
         return PermFail(
             message=f"Parsing error at line {err.line}, column {err.column}. '{err}' in {location} ('{encoded}')",
         )
+    except Exception:
+        # The parser does not manage to describe every syntax error.
+        return PermFail(message=f"Parsing error in {location} ('{encoded}')")
 
     value.logger.setLevel(logging.WARNING)
 
diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 37fb63e..bbbd758 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -32,6 +32,9 @@ def predicate_extractor(
             message=f"Parsing error at line {err.line}, column {err.column}. "
             f"'{err}' in '{predicates}'",
         )
+    except Exception:
+        # The parser does not manage to describe every syntax error.
+        return result.PermFail(message=f"Parsing error in '{predicates}'")
 
     program.logger.setLevel(logging.WARNING)
     return program
-- 
2.43.0


From 23bc8229985cabb24fbedcd2dc2fedb6d5ea9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 20/26] fix: copy values holding a timestamp or duration (C10)

---
 src/koreo/cel/functions.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index 89df85b..602cb43 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -1,5 +1,7 @@
 import base64
 import copy
+import copyreg
+import datetime
 import json
 
 from celpy import celtypes
@@ -10,6 +12,26 @@ import celpy
 # NOTE: Annotations and Function List are at the bottom of the file. Sorry.
 
 
+# `celpy` timestamps and durations can not be rebuilt from what their base types
+# give to `copy`, so a value which holds one could not be copied.
+def _reduce_timestamp(value: celtypes.TimestampType):
+    return celtypes.TimestampType, (
+        datetime.datetime.combine(value.date(), value.time(), value.tzinfo),
+    )
+
+
+def _reduce_duration(value: celtypes.DurationType):
+    return celtypes.DurationType, (
+        datetime.timedelta(
+            days=value.days, seconds=value.seconds, microseconds=value.microseconds
+        ),
+    )
+
+
+copyreg.pickle(celtypes.TimestampType, _reduce_timestamp)
+copyreg.pickle(celtypes.DurationType, _reduce_duration)
+
+
 def _self_ref(
     resource: celtypes.MapType,
 ) -> celtypes.MapType | celpy.CELEvalError:
-- 
2.43.0


From 5fc5c58fb1a5bedf96cf4996cdffca7440c3d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 21/26] fix: compare maps by the keys they are stored with
 (C04)

---
 .../resource_function/reconcile/__init__.py   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 9b44eac..40f4011 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,7 +319,7 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = convert_bools(expected_resource)
+    converted_resource = _with_string_keys(convert_bools(expected_resource))
     _strip_last_applied(converted_resource)
 
     last_applied = _extract_last_applied(api_resource.raw)
@@ -737,6 +737,24 @@ async def _create_api_resource(
     )
 
 
+def _with_string_keys(value):
+    """Keys of maps as they are once encoded (as JSON) and stored: strings."""
+    match value:
+        case dict():
+            return {
+                (
+                    key
+                    if isinstance(key, str)
+                    else json.dumps(key) if isinstance(key, bool) else f"{key}"
+                ): _with_string_keys(item)
+                for key, item in value.items()
+            }
+        case list():
+            return [_with_string_keys(item) for item in value]
+        case _:
+            return value
+
+
 def _forced_overlay(resource_api: type[APIObject], name: str, namespace: str | None):
     # Only include namespace when the resource API is namespaced
     metadata: dict[str, str] = {"name": name}
-- 
2.43.0


From 33257c0d30f3152ba4ffb24b540c57ad828f4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 22/26] fix: tell members of lists compared as maps apart by
 exact keys (C05)

---
 .../resource_function/reconcile/validate.py     | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index d902da5..e73b5a3 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -1,3 +1,4 @@
+import json
 from typing import NamedTuple, Sequence
 
 from koreo.constants import KOREO_DIRECTIVE_KEYS
@@ -97,13 +98,23 @@ def validate_match(
         )
 
 
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> tuple:
+    # A tuple, so that distinct values never end up as the same key, nor as one
+    # of the keys which have a meaning of their own.
+    return tuple(_key_value(obj.get(field)) for field in fields)
+
+
+def _key_value(value):
+    if isinstance(value, (dict, list, tuple)):
+        return "composite", json.dumps(value, sort_keys=True, default=str)
+
+    # In Python `True == 1` and `False == 0`, so they need kept distinct.
+    return isinstance(value, bool), value
 
 
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
-) -> dict[str, dict] | None:
+) -> dict[tuple, dict] | None:
     if not obj_list:
         return None
 
-- 
2.43.0


From ecf9da6dc7b1ee8c2a47720a1bf8f7f38376db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 23/26] fix: a resource name or namespace which is not a string
 is reported, not made one

`apiConfig.name` evaluating to null, a map or a list created (and looked up) an
object called "None", "MapType({...})" and so on.
---
 .../resource_function/reconcile/__init__.py   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 40f4011..fc83382 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -154,8 +154,21 @@ async def reconcile_krm_resource(
             )
 
         case celtypes.MapType({"name": name_value}) as resource_name_values:
-            name = f"{name_value}"
             namespace_value = resource_name_values.get("namespace")
+            for field, value in (("name", name_value), ("namespace", namespace_value)):
+                if _names_an_object(value) or (field == "namespace" and not value):
+                    continue
+                return ReconcileResult(
+                    result=PermFail(
+                        message=(
+                            f"`spec.apiConfig.{field}` must evaluate to a string "
+                            f"that is not empty ({value!r})"
+                        ),
+                        location=f"spec.apiConfig.{field}",
+                    )
+                )
+
+            name = f"{name_value}"
             if namespace_value:
                 namespace = f"{namespace_value}"
             else:
@@ -394,6 +407,15 @@ async def reconcile_krm_resource(
             )
 
 
+def _names_an_object(value: celtypes.Value | None) -> bool:
+    # Static decimal numerals are delivered as numbers.
+    return (
+        isinstance(value, str | int | float)
+        and not isinstance(value, bool | celtypes.BoolType)
+        and f"{value}" != ""
+    )
+
+
 async def load_api_resource(
     api: kr8s.Api,
     resource_api: type[APIObject],
-- 
2.43.0


From 53a9848d4d0eceb2030e63de797c46050af5679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 24/26] fix: a null member of the target is met by its absence
 (C04)

---
 src/koreo/resource_function/reconcile/validate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index e73b5a3..226e7a4 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -165,6 +165,11 @@ def _validate_dict_match(
 
         else:
             if target_key not in actual:
+                # API servers do not store null members, nor does a patch: it
+                # removes them. Hence one is met by the absence of the member.
+                if target[target_key] is None:
+                    continue
+
                 return ResourceMatch(
                     match=False, differences=[f"<missing '{target_key}' in resource>"]
                 )
-- 
2.43.0


From 192acdf14fbf73af8dd407a1079277951f648a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:01 +0000
Subject: [PATCH 25/26] fix: null annotations are as good as none, other
 non-mappings are reported (C04, C05)

---
 src/koreo/resource_function/reconcile/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index fc83382..1bfaed7 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -911,6 +911,10 @@ def _strip_last_applied(obj: dict):
         case {"metadata": {"annotations": dict(annotations)}}:
             annotations.pop(LAST_APPLIED_ANNOTATION, None)
 
+        case {"metadata": {"annotations": None}}:
+            # As good as none; there always is at least this one.
+            del obj["metadata"]["annotations"]
+
 
 def _prepare_for_api(obj: dict) -> dict | PermFail:
     prepared = _strip_koreo_directives(obj)
@@ -931,6 +935,12 @@ def _prepare_for_api(obj: dict) -> dict | PermFail:
     if "annotations" not in prepared["metadata"]:
         prepared["metadata"]["annotations"] = {}
 
+    if not isinstance(prepared["metadata"]["annotations"], dict):
+        return PermFail(
+            message="Corrupt `metadata.annotations`, expected a mapping",
+            location="spec.resource",
+        )
+
     prepared["metadata"]["annotations"][LAST_APPLIED_ANNOTATION] = dumped
 
     return prepared
-- 
2.43.0


From 95f494aad6374a10218f3d6d73eef3b72b43398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:06 +0000
Subject: [PATCH 26/26] fix: a live object may hold numbers beyond 64 bits
 (C04)

---
 .../resource_function/reconcile/__init__.py   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 1bfaed7..f3cb428 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -96,7 +96,9 @@ async def reconcile_resource_function(
     if not is_unwrapped_ok(reconcile_result.result):
         return Result(outcome=reconcile_result.result, resource_id=resource_id)
 
-    full_inputs["resource"] = celpy.json_to_cel(reconcile_result.result)
+    full_inputs["resource"] = celpy.json_to_cel(
+        _doubles_beyond_int64(reconcile_result.result)
+    )
 
     #########################
     # End Kubernetes Specific
@@ -119,6 +121,22 @@ async def reconcile_resource_function(
     )
 
 
+def _doubles_beyond_int64(value):
+    # API servers write large doubles without an exponent (1e19 becomes
+    # `10000000000000000000`), which Python reads as an integer that CEL's 64 bits
+    # can not hold.
+    if isinstance(value, dict):
+        return {key: _doubles_beyond_int64(item) for key, item in value.items()}
+
+    if isinstance(value, list | tuple):
+        return [_doubles_beyond_int64(item) for item in value]
+
+    if isinstance(value, int) and not -(2**63) <= value < 2**63:
+        return float(value)
+
+    return value
+
+
 class ReconcileResult(NamedTuple):
     result: PermFail | Retry | dict
     resource_id: dict | None = None
-- 
2.43.0

