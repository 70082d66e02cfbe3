From a567691a86235aa116b282b0fe33cf281cea20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 01/69] fix: keep the rendered elements in the order of their
 siblings

Elements and components that are inserted next to existing siblings, and
keyed components (or elements with falsy keys) that are reordered, did not
end up in the right place: the commit phase walked the tree breadth first and
the anchors were DOM elements of the direct sibling fibers at best.
---
 collagraph/collagraph.py | 158 +++++++++++++--------------------------
 collagraph/types.py      |   7 --
 2 files changed, 53 insertions(+), 112 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 84008d7..3bfe0aa 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -1,7 +1,7 @@
 from itertools import zip_longest
 import logging
 from operator import xor
-from queue import SimpleQueue
+from queue import LifoQueue, SimpleQueue
 import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
@@ -14,7 +14,6 @@ from .types import (
     EffectTag,
     EventLoopType,
     Fiber,
-    OpType,
     VNode,
 )
 
@@ -107,7 +106,7 @@ class Collagraph:
         self._render_callback: Callable = None
         self._request = None
         self._qt_timer = None
-        self._work = SimpleQueue()
+        self._work = LifoQueue()
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
@@ -318,22 +317,13 @@ class Collagraph:
 
         ordered_old_fibers, removals = compare(elements, old_fibers, match=matcher)
 
-        operations = {}
-        if len(elements) > 1:
-            new_keys = [el.key for el in elements if el and el.key]
-            old_keys = [fib.key for fib in old_fibers if fib and fib.key]
-
-            ops = create_ops(old_keys, new_keys)
-
-            for op in ops:
-                if op["op"] is not OpType.DEL:
-                    if "anchor" in op:
-
-                        def match(el, key):
-                            return el.key == key
-
-                        anchor = first(old_fibers, match, op["anchor"])
-                        operations[op["value"]] = anchor.dom
+        # Current positions, used to figure out which items have to be moved: items
+        # that used to be in front of any of the items that now precede them.
+        old_positions = {id(fib): idx for idx, fib in enumerate(old_fibers)}
+        last_position = -1
+        # When a virtual node (component, template) is moved, then its children have
+        # to be moved instead
+        parent_moved = wip_fiber.dom is None and wip_fiber.move
 
         # In here, all the 'new' elements are compared to the old/current fiber/state
         prev_sibling = None
@@ -356,8 +346,9 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
-                new_fiber.move = new_fiber.key in operations
-                new_fiber.anchor = operations.get(new_fiber.key)
+                position = old_positions[id(old_fiber)]
+                new_fiber.move = parent_moved or position < last_position
+                last_position = max(position, last_position)
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
@@ -374,7 +365,6 @@ class Collagraph:
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
                 new_fiber.move = False
-                new_fiber.anchor = operations.get(new_fiber.key)
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
             if old_fiber and not same_type:
@@ -399,10 +389,13 @@ class Collagraph:
         the work starts with the `child` attribute of the `_wip_root` (once all fibers
         that have been marked for deletion have been removed.
         """
-        for deletion in self._deletions:
+        # Note that the last item that is put in the queue is processed first. That
+        # way, the deletions are processed before the rest of the tree, which is then
+        # processed in the order in which the elements should end up in the DOM.
+        self._work.put(self._wip_root.child)
+        for deletion in reversed(self._deletions):
             self._work.put(deletion)
         self._deletions = []
-        self._work.put(self._wip_root.child)
 
         while not self._work.empty():
             work = self._work.get()
@@ -504,7 +497,11 @@ class Collagraph:
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
-                self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
+                self.renderer.insert(
+                    fiber.dom,
+                    dom_parent,
+                    anchor=self.find_anchor(fiber, dom_parent_fiber),
+                )
         elif fiber.effect_tag == EffectTag.UPDATE:
             if fiber.dom is not None:
                 if fiber.move:
@@ -512,7 +509,7 @@ class Collagraph:
                     self.renderer.insert(
                         fiber.dom,
                         dom_parent,
-                        anchor=fiber.anchor,
+                        anchor=self.find_anchor(fiber, dom_parent_fiber),
                     )
             self.update_dom_or_component(
                 fiber,
@@ -523,8 +520,33 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-        self._work.put(fiber.child)
         self._work.put(fiber.sibling)
+        self._work.put(fiber.child)
+
+    def find_anchor(self, fiber: Fiber, dom_parent_fiber: Fiber) -> Any:
+        """
+        Returns the first DOM element after the given fiber (within the same parent
+        DOM element) that is already in the right place, or None if there is no such
+        element.
+        """
+        if dom_parent_fiber.effect_tag == EffectTag.PLACEMENT:
+            # All the elements of a new parent are added in order
+            return None
+
+        while True:
+            while not fiber.sibling:
+                # Virtual nodes share the parent DOM element with their siblings
+                fiber = fiber.parent
+                if fiber is dom_parent_fiber:
+                    return None
+
+            fiber = fiber.sibling
+            while in_place(fiber):
+                if fiber.dom is not None:
+                    return fiber.dom
+                if not fiber.child:
+                    break
+                fiber = fiber.child
 
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
@@ -614,6 +636,10 @@ class Collagraph:
                     parent = parent.parent
 
 
+def in_place(fiber):
+    return fiber.effect_tag == EffectTag.UPDATE and not fiber.move
+
+
 def is_event(key):
     return key.startswith("on_")
 
@@ -641,12 +667,6 @@ def indexOf(items: Iterable, match: Callable, *args):
             return idx
 
 
-def first(items: Iterable, match: Callable, *args):
-    """Returns the first item for which the `match` function returns True."""
-    idx = indexOf(items, match, *args)
-    return items[idx] if idx is not None else None
-
-
 def compare(a: Iterable, b: Iterable, match: Callable):
     """Returns a list of `matches` between a and b and `removals` which contain
     items that are in b but not in a.
@@ -666,75 +686,3 @@ def compare(a: Iterable, b: Iterable, match: Callable):
 
     removals = b.copy()
     return matches, removals
-
-
-def apply_op(op: Dict, it: Iterable):
-    """Apply a single operation 'op' on a list 'it'."""
-    if op["op"] is OpType.MOVE:
-        idx = it.index(op["value"])
-        val = it.pop(idx)
-        new_idx = it.index(op["anchor"])
-        it.insert(new_idx, val)
-    elif op["op"] is OpType.DEL:
-        it.remove(op["value"])
-    elif op["op"] is OpType.ADD:
-        idx = it.index(op["anchor"]) if "anchor" in op else len(it)
-        it.insert(idx, op["value"])
-
-
-def create_operation(type, value, anchor: Any = None):
-    """
-    Returns:
-        Operation as a simple dict with the following keys:
-        - op: type of operation: DEL, ADD or MOVE
-        - value: value of the item
-        - anchor (required when type is MOVE): the element before
-            which this element should be inserted
-    """
-    result = {"op": type, "value": value}
-    if anchor is not None:
-        result["anchor"] = anchor
-    assert type is not OpType.MOVE or "anchor" in result
-    return result
-
-
-def create_ops(current, future):
-    """
-    Args:
-        current: list of keys as they are currently rendered in the dom
-        future: list of keys as they should be rendered in the dom
-
-    Returns:
-        list of operations to apply (in order) to convert `current` to
-        `future`. See `create_operation` for more details.
-    """
-    ops = []
-    # Bookkeep the state of the array for intermediate states
-    wip = current.copy()
-
-    # First figure out all the deletions that need to take place
-    for old in current:
-        if old not in future:
-            ops.append(create_operation(OpType.DEL, value=old))
-            apply_op(ops[-1], wip)
-
-    # Then figure out all the movements and deletions
-    for idx, (old, new) in enumerate(zip_longest(current, future)):
-        if new is not None and new not in current:
-            anchor = wip[idx] if idx < len(wip) else None
-            ops.append(create_operation(OpType.ADD, value=new, anchor=anchor))
-            apply_op(ops[-1], wip)
-
-        if old is not None and new is None:
-            # The deletion ops have already been recorded
-            continue
-
-        idx_before = wip.index(new)
-
-        if idx_before != idx:
-            # If an item is moved back, then the offset will be increased
-            anchor = wip[idx] if idx < len(wip) else None
-            ops.append(create_operation(OpType.MOVE, value=new, anchor=anchor))
-            apply_op(ops[-1], wip)
-
-    return ops
diff --git a/collagraph/types.py b/collagraph/types.py
index 3a325e4..2c4737f 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -16,12 +16,6 @@ class EffectTag(Enum):
     DELETION = "DELETION"
 
 
-class OpType(Enum):
-    MOVE = "MOVE"
-    DEL = "DEL"
-    ADD = "ADD"
-
-
 @dataclass
 class VNode:
     """Virtual Node that serves as a basic description of the node to be rendered."""
@@ -42,7 +36,6 @@ class Fiber:
     dom: Any = None
     effect_tag: EffectTag = None
     key: str = None
-    anchor: Any = None  # Dom element
     move: bool = False
     parent: "Fiber" = None
     props: Dict = None
-- 
2.43.0


From 3ae5226f63a1d016a1c57c7a4133a6b2975f36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:26 +0000
Subject: [PATCH 02/69] fix: remove all elements of a removed component or
 template

Only the first root element of a removed fragment was removed from the DOM,
removing an empty template raised an AttributeError and removing a long list
or a deep tree exceeded the recursion limit.
---
 collagraph/collagraph.py | 49 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 3bfe0aa..e15cf87 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -451,32 +451,33 @@ class Collagraph:
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
         Remove an item from the dom. If the given fiber does not reference
-        a dom element, then it will try its child (recursively) until it finds
-        a fiber with a dom element that can be removed.
+        a dom element, then all the topmost dom elements of its descendants will
+        be removed.
         Clears the child and dom attributes of the fiber.
         """
-        if fiber.component:
-            if not fiber.unmounted:
-                fiber.component.before_unmount()
-                fiber.unmounted = True
-
-        def traverse_before_unmount(fiber):
-            if fiber is None:
-                return
-            if fiber.component:
-                if not fiber.unmounted:
-                    fiber.component.before_unmount()
-                    fiber.unmounted = True
-            traverse_before_unmount(fiber.child)
-            traverse_before_unmount(fiber.sibling)
-
-        traverse_before_unmount(fiber.child)
-
-        if fiber.dom is not None:
-            self.renderer.remove(fiber.dom, dom_parent)
-            fiber.dom = None
-        else:
-            self.commit_deletion(fiber.child, dom_parent)
+        # First call the hooks, parents before their children, as long as all the
+        # elements are still in place
+        fibers = [fiber]
+        while fibers:
+            item = fibers.pop()
+            if item.component and not item.unmounted:
+                item.component.before_unmount()
+                item.unmounted = True
+            if item.sibling and item is not fiber:
+                fibers.append(item.sibling)
+            if item.child:
+                fibers.append(item.child)
+
+        fibers = [fiber]
+        while fibers:
+            item = fibers.pop()
+            if item.sibling and item is not fiber:
+                fibers.append(item.sibling)
+            if item.dom is not None:
+                self.renderer.remove(item.dom, dom_parent)
+                item.dom = None
+            elif item.child:
+                fibers.append(item.child)
 
         fiber.child = None
         fiber.sibling = None
-- 
2.43.0


From 8ac3e89bc8bfd975d7073ce91480eaa9105990ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 03/69] fix: only treat interchangeable functions as equivalent
 event handlers

Bound methods of different objects, functions with different default values
and closures over different (but at that moment equal) mutable values are not
interchangeable. Also prevent infinite recursion for functions that refer to
themselves and errors for variables that are not set yet.
---
 collagraph/compare.py | 75 +++++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 5e9133d..d5fad3d 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -1,24 +1,63 @@
 from functools import partial
+from types import CodeType
 from typing import Callable
 
+IMMUTABLE_TYPES = {bool, bytes, complex, float, int, str, CodeType}
 
-def equivalent_functions(a: Callable, b: Callable):
+
+def equivalent_functions(a: Callable, b: Callable, pending=()):
     """Returns whether function a is equivalent to function b.
 
     ``functools.partial`` functions are also supported (but only when both
     argument a and b are partial).
+
+    ``pending`` contains the pairs of functions that are being compared already:
+    functions can refer to themselves through their closure.
     """
+    if a is b or (id(a), id(b)) in pending:
+        return True
+    pending = (*pending, (id(a), id(b)))
+
     if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
         if isinstance(a, partial) and isinstance(b, partial):
             return (
-                a.args == b.args
-                and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func)
+                equivalent_values(a.args, b.args, pending)
+                and equivalent_kwargs(a.keywords, b.keywords, pending)
+                and equivalent_functions(a.func, b.func, pending)
             )
 
         return a == b
 
-    return equivalent_code(a.__code__, b.__code__) and equivalent_closure_values(a, b)
+    return (
+        equivalent_code(a.__code__, b.__code__)
+        # Methods might be bound to different instances
+        and getattr(a, "__self__", None) is getattr(b, "__self__", None)
+        and equivalent_values(a.__defaults__, b.__defaults__, pending)
+        and equivalent_kwargs(a.__kwdefaults__, b.__kwdefaults__, pending)
+        and equivalent_closure_values(a, b, pending)
+    )
+
+
+def equivalent_values(a, b, pending=()):
+    """Returns whether value a can be interchanged with value b. Mutable values might
+    be equal at the moment of comparison, but that doesn't make them interchangeable.
+    """
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, tuple):
+        return len(a) == len(b) and all(
+            equivalent_values(x, y, pending) for x, y in zip(a, b)
+        )
+    if callable(a):
+        return equivalent_functions(a, b, pending)
+    return type(a) in IMMUTABLE_TYPES and a == b
+
+
+def equivalent_kwargs(a, b, pending=()):
+    a, b = (tuple(sorted((kwargs or {}).items())) for kwargs in (a, b))
+    return equivalent_values(a, b, pending)
 
 
 def equivalent_code(a, b):
@@ -39,6 +78,7 @@ def equivalent_code(a, b):
         "co_cellvars",
         "co_code",
         "co_consts",
+        "co_exceptiontable",
         "co_filename",
         "co_flags",
         "co_freevars",
@@ -55,30 +95,31 @@ def equivalent_code(a, b):
             # be different but should be similar at least in length
             if len(attr_a) != len(attr_b):
                 return False
-        elif attr_a != attr_b:
+        elif not equivalent_values(attr_a, attr_b):
             return False
 
     return True
 
 
-def equivalent_closure_values(a, b):
+def equivalent_closure_values(a, b, pending=()):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
     equivalent."""
     if (closure_a := getattr(a, "__closure__", None)) and (
         closure_b := getattr(b, "__closure__", None)
     ):
-        values_a = [cell.cell_contents for cell in closure_a]
-        values_b = [cell.cell_contents for cell in closure_b]
-        if len(values_a) != len(values_b):
+        if len(closure_a) != len(closure_b):
             return False
 
-        for a, b in zip(values_a, values_b):
-            if callable(a) and callable(b):
-                if not equivalent_functions(a, b):
-                    return False
-            else:
-                if a != b:
-                    return False
+        for cell_a, cell_b in zip(closure_a, closure_b):
+            if cell_a is cell_b:
+                continue
+            try:
+                values = cell_a.cell_contents, cell_b.cell_contents
+            except ValueError:
+                # Variables that don't have a value (yet)
+                return False
+            if not equivalent_values(*values, pending):
+                return False
 
     return True
-- 
2.43.0


From f94620898c620b34fc1ba30cc9c4c8c63969a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 04/69] fix: don't lose state changes that happen while work is
 in progress

State changes between the slices of work (or by components that are being
created) were forgotten right before the commit, so the rendered result would
not reflect the state until the next change.
---
 collagraph/collagraph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e15cf87..294f3d9 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -120,6 +120,7 @@ class Collagraph:
         self._deletions = []
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
+        self._dirty = False
 
         self.request_idle_work()
 
@@ -172,9 +173,8 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self._dirty = False
             self.commit_root()
-            # A state change happened during updating of the DOM
+            # A state change happened since the current iteration of work started
             if self._dirty:
                 self.prepare_next_iteration_of_work()
 
@@ -291,10 +291,14 @@ class Collagraph:
         self._wip_root.alternate = self._current_root
         self._next_unit_of_work = self._wip_root
         self._deletions = []
+        self._dirty = False
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
-        self._dirty = True
+        # The changes are already taken into account when the fiber is next in line
+        unit = self._next_unit_of_work
+        if not unit or (fiber is not unit and fiber is not unit.alternate):
+            self._dirty = True
 
         if not self._wip_root:
             self.prepare_next_iteration_of_work()
-- 
2.43.0


From 7f4a3005a6ad959ee87f5d3e49dbfff3f005a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 05/69] fix: clear the old child of the root fiber before it is
 reused

After rendering another element in the same container, the next state change
would continue with the fibers of the element before.
---
 collagraph/collagraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 294f3d9..61f6583 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -288,6 +288,7 @@ class Collagraph:
         self._wip_root.dom = self._current_root.dom
         self._wip_root.props = self._current_root.props
         self._wip_root.children = self._current_root.children
+        self._wip_root.child = None
         self._wip_root.alternate = self._current_root
         self._next_unit_of_work = self._wip_root
         self._deletions = []
-- 
2.43.0


From e72b8ddab32fd5633147260d82a95d6ffc6b6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 06/69] fix: keep track of the event handlers that are actually
 attached

When a handler was skipped because it is equivalent to the attached one, the
next update would try to remove the handler that was never attached.
---
 collagraph/collagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 61f6583..ce3a60e 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -577,6 +577,8 @@ class Collagraph:
                     val, next_props, key
                 ):
                     equivalent_event_handlers.add(key)
+                    # Keep track of the handler that is actually attached
+                    next_props[key] = val
                     continue
 
                 event_type = key_to_event(key)
-- 
2.43.0


From c0f5dce9a0c9526df6bd4d0232035f46ee31d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 07/69] fix: keep track of the props that are used to create an
 element

If the state changes in between the slices of work, then the snapshot of the
props would not match with what was actually set on the new element.
---
 collagraph/collagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index ce3a60e..8debaa2 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -277,6 +277,8 @@ class Collagraph:
             if fiber.type == "TEXT_ELEMENT"
             else self.renderer.create_element(fiber.type)
         )
+        # The state might have changed since the snapshot was made
+        fiber.props_snapshot = to_raw(fiber.props)
         self.update_dom_or_component(fiber, dom, prev_props={}, next_props=fiber.props)
         return dom
 
-- 
2.43.0


From 4744e281101acf21a561344547874c2e500e2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 08/69] fix: insert and remove the right elements in
 DictRenderer

Elements (plain dicts) were looked up by equality instead of by identity, and
removing an attribute of an element without attributes raised a KeyError.
---
 collagraph/renderers/dict_renderer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 2856270..f2af5f6 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -3,6 +3,14 @@ from collections import defaultdict
 from . import Renderer
 
 
+def index_of(el, children):
+    """Returns the index of the element itself: other elements might be equal"""
+    for idx, child in enumerate(children):
+        if child is el:
+            return idx
+    raise ValueError("Element is not in list of children")
+
+
 class DictRenderer(Renderer):
     """Renderer that renders to a simple dict object
     which (may) contain the following keys:
@@ -21,12 +29,14 @@ class DictRenderer(Renderer):
 
     def insert(self, el, parent, anchor=None):
         children = parent.setdefault("children", [])
-        anchor_idx = children.index(anchor) if anchor else len(children)
+        anchor_idx = len(children)
+        if anchor is not None:
+            anchor_idx = index_of(anchor, children)
         children.insert(anchor_idx, el)
 
     def remove(self, el, parent):
         children = parent["children"]
-        children.remove(el)
+        del children[index_of(el, children)]
 
     def set_element_text(self, el: dict, value: str):
         el["text"] = value
@@ -36,7 +46,7 @@ class DictRenderer(Renderer):
         attributes[attr] = value
 
     def remove_attribute(self, obj, attr: str, value):
-        attributes = obj["attrs"]
+        attributes = obj.get("attrs", {})
         if attr in attributes:
             del attributes[attr]
 
-- 
2.43.0


From 9e0fb85bbe460242f459d3bd4c256a776621bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 09/69] fix: render nothing for None elements

Siblings after a None element disappeared and a component that returns None
raised an AttributeError.
---
 collagraph/collagraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 8debaa2..40d9ffb 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -307,6 +307,9 @@ class Collagraph:
             self.prepare_next_iteration_of_work()
 
     def reconcile_children(self, wip_fiber: Fiber, elements: List[VNode]):
+        # Nothing has to be rendered for None
+        elements = [element for element in elements if element is not None]
+
         # The old fiber, which holds the state as it was rendered to DOM
         old_fiber = wip_fiber.alternate and wip_fiber.alternate.child
 
@@ -436,7 +439,7 @@ class Collagraph:
 
             if fiber.mounted:
                 if fiber.component:
-                    fiber.component._element = fiber.child.dom
+                    fiber.component._element = fiber.child and fiber.child.dom
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
-- 
2.43.0


From 5f409fe9befe56a86fcccd9b65c82fe6d6bdeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 10/69] fix: keep the element of components up to date

The element was None for components that have another component (or a
template) as root and kept referring to the old DOM element when the root
element was replaced.
---
 collagraph/collagraph.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 40d9ffb..6b26732 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -437,9 +437,11 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
+            if fiber.component:
+                fiber.component._element = find_dom(fiber)
+
             if fiber.mounted:
                 if fiber.component:
-                    fiber.component._element = fiber.child and fiber.child.dom
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
@@ -649,6 +651,20 @@ class Collagraph:
                     parent = parent.parent
 
 
+def find_dom(fiber: Fiber) -> Any:
+    """Returns the first DOM element of the given fiber and its descendants, or None
+    if there are no DOM elements."""
+    fibers = [fiber]
+    while fibers:
+        item = fibers.pop()
+        if item.dom is not None:
+            return item.dom
+        if item.sibling and item is not fiber:
+            fibers.append(item.sibling)
+        if item.child:
+            fibers.append(item.child)
+
+
 def in_place(fiber):
     return fiber.effect_tag == EffectTag.UPDATE and not fiber.move
 
-- 
2.43.0


From 21d4a95caf06d3040693be62b998485c59c9e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 11/69] fix: don't fail on attributes that can't be compared as
 a whole

Passing a new numpy array as attribute raised a ValueError.
---
 collagraph/collagraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 6b26732..5a275f2 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -680,7 +680,11 @@ def key_to_event(key):
 
 def is_new(val, other, key):
     old_value = other.get(key)
-    return xor(old_value is None, val is None) or old_value != val
+    if xor(old_value is None, val is None):
+        return True
+    changed = old_value != val
+    # Arrays (from numpy) are compared per item, so then there's no single outcome
+    return True if hasattr(changed, "__len__") else bool(changed)
 
 
 def is_equivalent_event_handler(val, other, key):
-- 
2.43.0


From 7e6f7b11b7c7351a2aedddc87ca5d73257f8c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 12/69] fix: call the updated hook when text has been changed

---
 collagraph/collagraph.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 5a275f2..28e8d0d 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -570,7 +570,8 @@ class Collagraph:
         if fiber.type == "TEXT_ELEMENT":
             if (new_content := next_props["content"]) != prev_props.get("content"):
                 self.renderer.set_element_text(dom, new_content)
-                return
+                self.mark_updated(fiber)
+            return
 
         events_to_remove = {}
         attrs_to_remove = {}
@@ -638,17 +639,18 @@ class Collagraph:
             for event_type, val in events_to_add.items():
                 self.renderer.add_event_listener(dom, event_type, val)
 
-            # Climb up the tree to find first component to mark as updated
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
-                parent = fiber.parent
-                component = None
-                while parent:
-                    component = parent.component
-                    if component:
-                        # Mark the fiber as updated
-                        parent.updated = True
-                        break
-                    parent = parent.parent
+                self.mark_updated(fiber)
+
+    def mark_updated(self, fiber: Fiber):
+        # Climb up the tree to find first component to mark as updated
+        parent = fiber.parent
+        while parent:
+            if parent.component:
+                # Mark the fiber as updated
+                parent.updated = True
+                break
+            parent = parent.parent
 
 
 def find_dom(fiber: Fiber) -> Any:
-- 
2.43.0


From dbbc35b6c0dea68931483077349e8dcb3bdb8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 13/69] fix: don't overwrite the data that is passed as props
 to components

Components were given the very same dict that was passed as props, so when
another object was passed later on, its values would overwrite the user's data
of the first one. The values that were written were also deep copies of the
reactive values, so further (nested) changes didn't lead to an update, and
passing a new function with each render led to infinite recursion.
---
 collagraph/collagraph.py | 55 ++++++++++++++++++++++++++++++++--------
 collagraph/types.py      |  1 +
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 28e8d0d..7121289 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -216,10 +216,15 @@ class Collagraph:
                     break
                 parent_fiber = parent_fiber.parent
 
-            component = fiber.type(props=fiber.props, parent=parent_component)
+            # Each component has its own copy of the props: the props can be updated
+            # later on, which shouldn't change the data that the props originate from
+            component = fiber.type(
+                props=reactive({**fiber.props}), parent=parent_component
+            )
 
         # Attach the component instance to the fiber
         fiber.component = component
+        self.update_component_props(fiber)
 
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
@@ -227,6 +232,12 @@ class Collagraph:
             fiber.alternate.component = None
             fiber.watcher = fiber.alternate.watcher
             fiber.alternate.watcher = None
+            fiber.alternate.props_watcher = None
+
+        fiber.props_watcher = watch(
+            lambda: fiber.props.keys(),
+            lambda: self.update_component_props(fiber),
+        )
 
         if fiber.watcher:
             # Re-evaluate the watcher to get the new value
@@ -239,6 +250,32 @@ class Collagraph:
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
+    def update_component_props(self, fiber: Fiber):
+        """Bring the props of the component up to date with the props of the fiber"""
+        # Get a writable reference to the read-only props of the component
+        props = reactive(fiber.component.props)
+        old_keys = {*fiber.props_snapshot}
+        if fiber.alternate:
+            old_keys.update(fiber.alternate.props_snapshot)
+        removals = {key for key in old_keys - {*fiber.props} if key in props}
+        for key in removals:
+            del props[key]
+
+        changes = {
+            key: val
+            for key, val in fiber.props.items()
+            if (
+                not is_equivalent_event_handler(val, props, key)
+                if is_event(key)
+                else is_new(val, props, key)
+            )
+        }
+        props.update(changes)
+
+        # The event handlers are replaced while committing the fiber
+        if any(is_event(key) for key in {*removals, *changes}):
+            self.state_updated(fiber)
+
     def update_function_component(self, fiber: Fiber):
         if fiber.alternate:
             fiber.alternate.watcher = None
@@ -299,8 +336,12 @@ class Collagraph:
 
     def state_updated(self, fiber: Fiber):
         # The changes are already taken into account when the fiber is next in line
+        # or when it is a descendant of that fiber
         unit = self._next_unit_of_work
-        if not unit or (fiber is not unit and fiber is not unit.alternate):
+        ancestor = unit and fiber
+        while ancestor and ancestor is not unit and ancestor is not unit.alternate:
+            ancestor = ancestor.parent
+        if not ancestor:
             self._dirty = True
 
         if not self._wip_root:
@@ -506,7 +547,7 @@ class Collagraph:
         if fiber.effect_tag == EffectTag.PLACEMENT:
             if fiber.component:
                 self.update_dom_or_component(
-                    fiber, None, prev_props={}, next_props=fiber.props
+                    fiber, None, prev_props={}, next_props=fiber.props_snapshot
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
@@ -609,17 +650,9 @@ class Collagraph:
                     attrs_to_update[key] = val
 
         if fiber.component:
-            # Get a writable reference to the read-only props of the component
-            props = reactive(fiber.component.props)
-
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
-            for key in attrs_to_remove:
-                del props[key]
-
-            props.update(attrs_to_update)
-
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
 
diff --git a/collagraph/types.py b/collagraph/types.py
index 2c4737f..61c9cc0 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -39,6 +39,7 @@ class Fiber:
     move: bool = False
     parent: "Fiber" = None
     props: Dict = None
+    props_watcher: Any = None
     sibling: "Fiber" = None
     snapshot: Dict = None
     type: Union[str, Callable] = None
-- 
2.43.0


From 3c3774f0b056bf5b94b2de0310055cc45dce6d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 14/69] fix: keep the order of the children in templates with
 v-if directives

Elements with control flow directives ended up after the text or the elements
with a v-for directive that follow them.
---
 collagraph/cgx/cgx.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 451305a..a30763f 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -345,6 +345,7 @@ def convert_node_to_args(node, *, names=None):
 
     slots = {}
     control_flow = []
+    control_flow_idx = 0
     for child in node.children:
         if isinstance(child, Comment):
             # Ignore comments
@@ -385,8 +386,13 @@ def convert_node_to_args(node, *, names=None):
         # Handle control flow directives
         if directive := child.control_flow():
             if directive == "v-if" and control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_idx, create_control_flow_ast(control_flow, names=names)
+                )
                 control_flow = []
+            if not control_flow:
+                # Other children might follow before the control flow is complete
+                control_flow_idx = len(children_args)
             control_flow.append((directive, child))
 
         # Gather all the non-template children within a component tag and
@@ -412,7 +418,9 @@ def convert_node_to_args(node, *, names=None):
 
         if not directive:
             if control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_idx, create_control_flow_ast(control_flow, names=names)
+                )
                 control_flow = []
             if child.tag == "slot":
                 children_args.append(call_render_slot(child, names=names))
@@ -420,7 +428,9 @@ def convert_node_to_args(node, *, names=None):
                 children_args.append(call_create_element(child, names=names))
 
     if control_flow:
-        children_args.append(create_control_flow_ast(control_flow, names=names))
+        children_args.insert(
+            control_flow_idx, create_control_flow_ast(control_flow, names=names)
+        )
         control_flow = []
 
     # Create a starred list comprehension that when called, will generate
-- 
2.43.0


From b7b75f44fec0e62817543ad7cb3768fb3646e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 15/69] fix: support local names of lambdas and comprehensions
 in all expressions

Only the (regular) arguments of lambdas in v-on directives were recognized.
Comprehensions led to an error while compiling the template and names in the
default values of a lambda were not looked up.
---
 collagraph/cgx/cgx.py | 49 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index a30763f..84ed9d3 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -328,12 +328,7 @@ def convert_node_to_args(node, *, names=None):
             props_keys.append(ast.Constant(value=key))
 
             tree = ast.parse(val, mode="eval")
-            # v-on directives allow for lambdas which define arguments
-            # which need to be skipped by the RewriteName visitor
-            lambda_names = LambdaNamesCollector()
-            lambda_names.visit(tree)
-            RewriteName(skip=names | lambda_names.names).visit(tree)
-            props_values.append(tree.body)
+            props_values.append(RewriteName(skip=names).visit(tree).body)
             continue
 
         if key.startswith((DIRECTIVE_FOR)):
@@ -661,21 +656,6 @@ class NameCollector(ast.NodeVisitor):
         self.names.add(node.id)
 
 
-class LambdaNamesCollector(ast.NodeVisitor):
-    def __init__(self):
-        self.names = set()
-
-    def visit_Lambda(self, node):
-        # For some reason the body of a lambda is not visited
-        # so we need to do it manually.
-        visitor = LambdaNamesCollector()
-        visitor.visit(node.body)
-        self.names.update(visitor.names)
-
-        for arg in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
-            self.names.add(arg.arg)
-
-
 class RewriteName(ast.NodeTransformer):
     """AST node transformer that will try to replace static Name nodes with
     a call to `_lookup` with the name of the node."""
@@ -709,6 +689,33 @@ class RewriteName(ast.NodeTransformer):
             keywords=[],
         )
 
+    def visit_Lambda(self, node):
+        # The default values are evaluated outside of the scope of the lambda
+        node.args = self.visit(node.args)
+        args = [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs]
+        args.extend(arg for arg in (node.args.vararg, node.args.kwarg) if arg)
+        names = {arg.arg for arg in args}
+        node.body = RewriteName(skip=self.skip | names).visit(node.body)
+        return node
+
+    def visit_comprehension_scope(self, node):
+        # The names that are defined by the comprehension, are local to that
+        # comprehension. Only the first iterable is evaluated outside of its scope.
+        name_collector = NameCollector()
+        for generator in node.generators:
+            name_collector.visit(generator.target)
+
+        first_iter = self.visit(node.generators[0].iter)
+        node.generators[0].iter = ast.Constant(value=None)
+        RewriteName(skip=self.skip | name_collector.names).generic_visit(node)
+        node.generators[0].iter = first_iter
+        return node
+
+    visit_ListComp = visit_comprehension_scope  # noqa: N815
+    visit_SetComp = visit_comprehension_scope  # noqa: N815
+    visit_DictComp = visit_comprehension_scope  # noqa: N815
+    visit_GeneratorExp = visit_comprehension_scope  # noqa: N815
+
 
 class ImportsCollector(ast.NodeVisitor):
     def __init__(self):
-- 
2.43.0


From 60035b03c50689b02b4b519e5ea168a6e8212fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 16/69] fix: pass all the content of component tags to the
 default slot

Text, templates and elements with a v-for directive were not part of the
content of the default slot when there were no other elements.
---
 collagraph/cgx/cgx.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 84ed9d3..ac10023 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -339,6 +339,25 @@ def convert_node_to_args(node, *, names=None):
     children_args = []
 
     slots = {}
+    # Gather all the children within a component tag that are not meant for a specific
+    # slot and treat them as the content for the default slot
+    if node.tag[0].isupper() or "." in node.tag:
+        default_slot_content = [
+            child
+            for child in node.children
+            if not isinstance(child, Comment)
+            and not (
+                isinstance(child, Element)
+                and child.tag == "template"
+                and any(attr.startswith(("v-slot", "#")) for attr in child.attrs)
+            )
+        ]
+
+        if default_slot_content:
+            virtual_template_node = Element("template")
+            virtual_template_node.children = default_slot_content
+            slots["default"] = virtual_template_node
+
     control_flow = []
     control_flow_idx = 0
     for child in node.children:
@@ -390,20 +409,6 @@ def convert_node_to_args(node, *, names=None):
                 control_flow_idx = len(children_args)
             control_flow.append((directive, child))
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
-        if node.tag[0].isupper() or "." in node.tag:
-            default_slot_content = [
-                child
-                for child in node.children
-                if isinstance(child, Element) and child.tag != "template"
-            ]
-
-            if default_slot_content:
-                virtual_template_node = Element("template")
-                virtual_template_node.children = default_slot_content
-                slots["default"] = virtual_template_node
-
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
                 slot_name = attr.split(":")[-1].split("#")[-1]
-- 
2.43.0


From 4c642e6724055726e398f2f4a6d32e0c0e533e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 17/69] fix: let lambdas in v-for elements refer to the values
 of their own item

Event handlers and slot contents within an element with a v-for directive all
referred to the values of the last item.
---
 collagraph/cgx/cgx.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index ac10023..0394078 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -389,9 +389,26 @@ def convert_node_to_args(node, *, names=None):
                     name_collector.generic_visit(generator.target)
 
             local_names = names.union(name_collector.names)
-            RewriteName(skip=local_names).visit(for_tree)
-
-            for_tree.elt = call_create_element(child, names=local_names)
+            RewriteName(skip=names).visit(for_tree)
+
+            # The element is created within a function (that gets the local names as
+            # arguments), such that the lambdas within the element (event handlers and
+            # slots) refer to the values of the item instead of those of the last item
+            args = sorted(name_collector.names)
+            for_tree.elt = ast.Call(
+                func=ast.Lambda(
+                    args=ast.arguments(
+                        posonlyargs=[],
+                        args=[ast.arg(arg=arg) for arg in args],
+                        kwonlyargs=[],
+                        kw_defaults=[],
+                        defaults=[],
+                    ),
+                    body=call_create_element(child, names=local_names),
+                ),
+                args=[ast.Name(id=arg, ctx=ast.Load()) for arg in args],
+                keywords=[],
+            )
 
             result = ast.Starred(value=for_tree, ctx=ast.Load())
             children_args.append(result)
-- 
2.43.0


From 765dd24ecd41ef6bfe3825ff725af392706971fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 18/69] fix: render the slot content of slot elements with
 directives

The content was ignored for slot elements with a v-if or v-for directive and
for slots that are the root of a template.
---
 collagraph/cgx/cgx.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 0394078..6a069e8 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -229,6 +229,18 @@ def call_create_element(node, *, names):
     Names is a set of variable names that should not be wrapped in
     the _lookup method.
     """
+    if node.tag == "slot":
+        # Wrap the content of the slot in a virtual node
+        return ast.Call(
+            func=ast.Name(id="_create_element", ctx=ast.Load()),
+            args=[
+                ast.Constant(value="template"),
+                ast.Dict(keys=[], values=[]),
+                call_render_slot(node, names=names),
+            ],
+            keywords=[],
+        )
+
     return ast.Call(
         func=ast.Name(id="_create_element", ctx=ast.Load()),
         args=convert_node_to_args(node, names=names),
@@ -266,7 +278,13 @@ def call_render_slot(node, *, names=None):
             ),
             # Otherwise, we render the fallback content
             orelse=ast.List(
-                elts=[call_create_element(node, names=names)],
+                elts=[
+                    ast.Call(
+                        func=ast.Name(id="_create_element", ctx=ast.Load()),
+                        args=convert_node_to_args(node, names=names),
+                        keywords=[],
+                    )
+                ],
                 ctx=ast.Load(),
             ),
         ),
-- 
2.43.0


From b93c6349c1a79f5fb58c129e33b65ea10fc7bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 19/69] fix: look up names in templates for each instance

The source of a name (props, state, etc.) was determined by the first instance
of the component, which might not be right for the other instances.
---
 collagraph/component.py | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index b0f14fd..72f64f6 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -10,15 +10,12 @@ from collagraph import render_slot
 class Component:
     """Abstract base class for components"""
 
-    __lookup_cache__ = defaultdict(dict)
-
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
         self._state = reactive({})
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._lookup_cache = Component.__lookup_cache__[type(self)]
         self._parent = ref(parent) if parent else None
         self._provided = {}
 
@@ -138,30 +135,14 @@ class Component:
         This provides some syntactic sugar so that users can leave out `self`,
         `self.state` and `self.props`.
         """
-        cache = self._lookup_cache
-        if method := cache.get(name):
-            return method(self, name, context)
-
-        def props_lookup(self, name, context):
+        # Instances of the same component can have different props and state, so the
+        # name has to be looked up for each instance
+        if name in self.props:
             return self.props[name]
-
-        def state_lookup(self, name, context):
+        if name in self.state:
             return self.state[name]
-
-        def self_lookup(self, name, context):
+        if hasattr(self, name):
             return getattr(self, name)
-
-        def global_lookup(self, name, context):
+        if name in context:
             return context[name]
-
-        if name in self.props:
-            cache[name] = props_lookup
-        elif name in self.state:
-            cache[name] = state_lookup
-        elif hasattr(self, name):
-            cache[name] = self_lookup
-        elif name in context:
-            cache[name] = global_lookup
-        else:
-            raise NameError(f"name '{name}' is not defined")
-        return self._lookup(name, context)
+        raise NameError(f"name '{name}' is not defined")
-- 
2.43.0


From d64d508bb58279d8f6de8fbbd14efb8e3a461d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 20/69] fix: correct the line numbers of the code in the script
 tag

The line numbers in tracebacks and such were one too high.
---
 collagraph/cgx/cgx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 6a069e8..5ddaefb 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -151,12 +151,12 @@ def get_script_ast(parser, path):
     script_node = parser.root.child_with_tag("script")
     assert isinstance(script_node.children[0], TextElement)
     script = script_node.children[0].content
-    line, _ = script_node.location
+    line, _ = script_node.children[0].location
 
     # Create an AST from the script
     script_tree = ast.parse(script, filename=str(path), mode="exec")
     # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line)
+    ast.increment_lineno(script_tree, n=line - 1)
     return script_tree
 
 
-- 
2.43.0


From 49abe7c37734570130cbccd73de44840b3d2aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 21/69] fix: don't shadow imported names in the render function
 of templates

An imported 'name' would refer to a local variable of the render function.
---
 collagraph/cgx/cgx.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 5ddaefb..866c113 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -177,27 +177,27 @@ def create_ast_render_function(node, names):
             f"""
             from warnings import warn as _warn
 
-            for name in {{{names_str}}}:
-                if name in self.state:
+            for _name in {{{names_str}}}:
+                if _name in self.state:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.state: {{self}}.\\n"
                         "If the value from self.state is intended, please resolve by "
-                        f"replacing '{{name}}' with 'state['{{name}}']'"
+                        f"replacing '{{_name}}' with 'state['{{_name}}']'"
                     )
-                if name in self.props:
+                if _name in self.props:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.props: {{self}}.\\n"
                         "If the value from self.props is intended, please resolve by "
-                        f"replacing '{{name}}' with 'props['{{name}}']'"
+                        f"replacing '{{_name}}' with 'props['{{_name}}']'"
                     )
-                if hasattr(self, name):
+                if hasattr(self, _name):
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as attribute on self: {{self}}.\\n"
                         "If the attribute from self is intended, please resolve by "
-                        f"replacing '{{name}}' with 'self.{{name}}'"
+                        f"replacing '{{_name}}' with 'self.{{_name}}'"
                     )
             """
         )
-- 
2.43.0


From 89824839927e75d7d6439b4154659be7c4cd053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 22/69] fix: support elements that evaluate to False

Elements like empty containers were created again with each render and none of
their attributes were set.
---
 collagraph/collagraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 7121289..54b2541 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -294,7 +294,7 @@ class Collagraph:
 
     def update_host_component(self, fiber: Fiber):
         # Add dom node, but not for template/slot tags (which are virtual tags)
-        if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
+        if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
         if fiber.alternate:
@@ -605,7 +605,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if not dom and not fiber.component:
+        if dom is None and not fiber.component:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -659,7 +659,7 @@ class Collagraph:
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 # Mark the fiber as updated
                 fiber.updated = True
-        elif dom:
+        elif dom is not None:
             for event_type, val in events_to_remove.items():
                 self.renderer.remove_event_listener(dom, event_type, val)
 
-- 
2.43.0


From 732bacc5c9dd386b7c31299db57b6b8c59d2e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 23/69] fix: pass equal but distinct objects and None values on
 to components

When a prop was replaced by another (reactive) object with an equal value, then
changes to that object were missed, and new props with value None were missing.
---
 collagraph/collagraph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 54b2541..74fa2c7 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -264,12 +264,18 @@ class Collagraph:
         changes = {
             key: val
             for key, val in fiber.props.items()
-            if (
+            if key not in props
+            or (
                 not is_equivalent_event_handler(val, props, key)
                 if is_event(key)
                 else is_new(val, props, key)
             )
         }
+        # Values that are equal might still be other (reactive) objects that can change
+        # later on. Those are set on the target itself: no need to notify any watcher.
+        props.target.update(
+            {key: val for key, val in fiber.props.items() if key not in changes}
+        )
         props.update(changes)
 
         # The event handlers are replaced while committing the fiber
-- 
2.43.0


From ffb36711b31118db422025783bbcc9bc8fb85620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 24/69] fix: register props that are added with a value of None

---
 collagraph/collagraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 74fa2c7..553af54 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -276,7 +276,10 @@ class Collagraph:
         props.target.update(
             {key: val for key, val in fiber.props.items() if key not in changes}
         )
-        props.update(changes)
+        props.update({key: val for key, val in changes.items() if val is not None})
+        # New keys with a value of None are only registered when set one by one
+        for key in (key for key, val in changes.items() if val is None):
+            props[key] = None
 
         # The event handlers are replaced while committing the fiber
         if any(is_event(key) for key in {*removals, *changes}):
-- 
2.43.0


From b12288333038c9b89eccbde059a70220c2dbb17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 25/69] fix: don't update props of components that are updated
 already

---
 collagraph/collagraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 553af54..be23b8f 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -252,6 +252,10 @@ class Collagraph:
 
     def update_component_props(self, fiber: Fiber):
         """Bring the props of the component up to date with the props of the fiber"""
+        if not fiber.component:
+            # Already taken care of by an update as a result of the very same change
+            return
+
         # Get a writable reference to the read-only props of the component
         props = reactive(fiber.component.props)
         old_keys = {*fiber.props_snapshot}
-- 
2.43.0


From fd6acf47ada2cad56ad3a19fdaaa33d3417d197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 26/69] fix: don't depend on data anymore on behalf of removed
 components

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index be23b8f..c8e760e 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -529,6 +529,9 @@ class Collagraph:
             if item.component and not item.unmounted:
                 item.component.before_unmount()
                 item.unmounted = True
+            # What has been removed doesn't depend on anything anymore
+            item.watcher = None
+            item.props_watcher = None
             if item.sibling and item is not fiber:
                 fibers.append(item.sibling)
             if item.child:
-- 
2.43.0


From 3bf32569c2bb39a567ad2a9453ab6f2683422528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:03 +0000
Subject: [PATCH 27/69] fix: support 'self' in the expressions of templates

---
 collagraph/cgx/cgx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 866c113..e037d41 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -712,6 +712,10 @@ class RewriteName(ast.NodeTransformer):
         if node.id in self.skip:
             return node
 
+        # The component itself is the argument of the render function
+        if node.id == "self":
+            return node
+
         return ast.Call(
             func=ast.Attribute(
                 value=ast.Name(id="self", ctx=ast.Load()),
-- 
2.43.0


From 1d9faf29224dd26a72baf8396f547d3e2da3645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 28/69] fix: support '<' in the text of templates

---
 collagraph/cgx/cgx.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index e037d41..4d4431a 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -819,8 +819,10 @@ class CGXParser(HTMLParser):
         super().__init__(*args, **kwargs)
         self.root = Element("root")
         self.stack = [self.root]
+        self.text = None
 
     def handle_starttag(self, tag, attrs):
+        self.finish_text()
         # The tag parameter is lower-cased by the HTMLParser.
         # In order to figure out whether the tag indicates
         # an imported class, we need the original casing for
@@ -847,18 +849,25 @@ class CGXParser(HTMLParser):
     def handle_endtag(self, tag):
         # TODO: pop it till popping the same tag in order to
         # work around unclosed tags?
+        self.finish_text()
         # Pop the stack
         node = self.stack.pop()
         node.end = self.getpos()
 
     def handle_data(self, data):
-        if data.strip():
+        # Text that contains '<' comes in multiple pieces
+        if self.text is None:
+            self.text = TextElement(content="", location=self.getpos())
+        self.text.content += data
+
+    def finish_text(self):
+        text, self.text = self.text, None
+        if text and text.content.strip():
             # Add item as child to the last on the stack
-            self.stack[-1].children.append(
-                TextElement(content=data, location=self.getpos())
-            )
+            self.stack[-1].children.append(text)
 
     def handle_comment(self, comment):
+        self.finish_text()
         if comment.strip():
             # Add item as child to the last on the stack
             self.stack[-1].children.append(
-- 
2.43.0


From c629346fdbc33f00f44dfd137c928c999a35aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 29/69] fix: support names 'str' and 'zip' for variables that
 are used in text

---
 collagraph/cgx/cgx.py | 73 ++++++++-----------------------------------
 1 file changed, 13 insertions(+), 60 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 4d4431a..57ff0cb 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -571,73 +571,26 @@ def args_for_text_element(child, names):
         args.append(ast.Constant(value=child.content))
     else:
         offset = 0
-        string_parts = []
-        expressions = []
+        values = []
         for group in groups:
             span = group.span()
-            string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
+            values.append(ast.Constant(value=child.content[offset : span[0]]))
             expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
-            expressions.append(
-                RewriteName(skip=names).visit(ast.parse(expr, mode="eval")).body
+            values.append(
+                ast.FormattedValue(
+                    value=RewriteName(skip=names)
+                    .visit(ast.parse(expr, mode="eval"))
+                    .body,
+                    # Same as calling str(), also when that name is shadowed
+                    conversion=ord("s"),
+                )
             )
             offset = span[1]
 
-        string_suffix = ast.Constant(value=child.content[offset:])
+        values.append(ast.Constant(value=child.content[offset:]))
 
-        args.append(
-            # The following tree is the ast of the following expression:
-            # "".join(
-            #     [x + str(y) for x, y in zip(string_parts, expressions)]
-            #     + [string_suffix]
-            # )
-            ast.Call(
-                func=ast.Attribute(
-                    value=ast.Constant(value=""), attr="join", ctx=ast.Load()
-                ),
-                args=[
-                    ast.BinOp(
-                        left=ast.ListComp(
-                            elt=ast.BinOp(
-                                left=ast.Name(id="x", ctx=ast.Load()),
-                                op=ast.Add(),
-                                right=ast.Call(
-                                    func=ast.Name(id="str", ctx=ast.Load()),
-                                    args=[ast.Name(id="y", ctx=ast.Load())],
-                                    keywords=[],
-                                ),
-                            ),
-                            generators=[
-                                ast.comprehension(
-                                    target=ast.Tuple(
-                                        elts=[
-                                            ast.Name(id="x", ctx=ast.Store()),
-                                            ast.Name(id="y", ctx=ast.Store()),
-                                        ],
-                                        ctx=ast.Store(),
-                                    ),
-                                    iter=ast.Call(
-                                        func=ast.Name(id="zip", ctx=ast.Load()),
-                                        args=[
-                                            ast.List(
-                                                elts=string_parts,
-                                                ctx=ast.Load(),
-                                            ),
-                                            ast.List(elts=expressions, ctx=ast.Load()),
-                                        ],
-                                        keywords=[],
-                                    ),
-                                    ifs=[],
-                                    is_async=0,
-                                )
-                            ],
-                        ),
-                        op=ast.Add(),
-                        right=ast.List(elts=[string_suffix], ctx=ast.Load()),
-                    )
-                ],
-                keywords=[],
-            )
-        )
+        # The following tree is the ast of an f-string
+        args.append(ast.JoinedStr(values=values))
 
     return args
 
-- 
2.43.0


From 78229cb29afeb5e02c47113a3f68738d362c0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:53 +0000
Subject: [PATCH 30/69] fix: support the name 'props' for variables that are
 used in slots

---
 collagraph/cgx/cgx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 57ff0cb..d6b3d78 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -510,7 +510,7 @@ def convert_node_to_args(node, *, names=None):
                 ast.Lambda(
                     args=ast.arguments(
                         posonlyargs=[],
-                        args=[ast.arg(arg="props")],
+                        args=[ast.arg(arg=f"{AST_GEN_VARIABLE_PREFIX}props")],
                         kwonlyargs=[],
                         kw_defaults=[],
                         defaults=[],
-- 
2.43.0


From 53209a4b51806ebe538b3de1cf2ddff4a1e114aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 31/69] fix: support names of outer v-for loops for variables
 of comprehensions

---
 collagraph/cgx/cgx.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d6b3d78..5198257 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -406,13 +406,15 @@ def convert_node_to_args(node, *, names=None):
                 else:
                     name_collector.generic_visit(generator.target)
 
-            local_names = names.union(name_collector.names)
+            local_names = LocalNames(names, name_collector.names)
             RewriteName(skip=names).visit(for_tree)
 
             # The element is created within a function (that gets the local names as
             # arguments), such that the lambdas within the element (event handlers and
             # slots) refer to the values of the item instead of those of the last item
-            args = sorted(name_collector.names)
+            # (the names of outer loops are passed as well: comprehensions with the same
+            # names as variables of outer functions don't work properly in Python 3.12)
+            args = sorted(local_names.local)
             for_tree.elt = ast.Call(
                 func=ast.Lambda(
                     args=ast.arguments(
@@ -504,16 +506,20 @@ def convert_node_to_args(node, *, names=None):
         ctx=ast.Load(),
     )
     if slots:
+        args = sorted(getattr(names, "local", ()))
         starred_expr = ast.Dict(
             keys=[ast.Constant(value=key) for key in slots.keys()],
             values=[
                 ast.Lambda(
                     args=ast.arguments(
                         posonlyargs=[],
-                        args=[ast.arg(arg=f"{AST_GEN_VARIABLE_PREFIX}props")],
+                        args=[
+                            ast.arg(arg=arg)
+                            for arg in (f"{AST_GEN_VARIABLE_PREFIX}props", *args)
+                        ],
                         kwonlyargs=[],
                         kw_defaults=[],
-                        defaults=[],
+                        defaults=[ast.Name(id=arg, ctx=ast.Load()) for arg in args],
                     ),
                     body=call_create_element(val, names=names),
                 )
@@ -638,6 +644,15 @@ def is_directive(key):
     return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
 
 
+class LocalNames(set):
+    """Set of names that extends another set of names with the names of variables. All
+    the names of variables (including those of the other set) are in `local`."""
+
+    def __init__(self, names, local):
+        super().__init__({*names, *local})
+        self.local = {*getattr(names, "local", ()), *local}
+
+
 class NameCollector(ast.NodeVisitor):
     """AST node visitor that will create a set of the ids of every Name node
     it encounters."""
-- 
2.43.0


From 7118b00843aec0aaa29013d24d751538167ca40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 32/69] fix: only take the imports of the script itself for
 imported names

---
 collagraph/cgx/cgx.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 5198257..8c0810d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -739,7 +739,16 @@ class ImportsCollector(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            self.names.add(alias.asname or alias.name)
+            # Without an alias, only the top-level package is bound
+            self.names.add(alias.asname or alias.name.partition(".")[0])
+
+    def visit_scope(self, node):
+        # Names that are imported within functions and classes are local to those
+        pass
+
+    visit_FunctionDef = visit_scope  # noqa: N815
+    visit_AsyncFunctionDef = visit_scope  # noqa: N815
+    visit_ClassDef = visit_scope  # noqa: N815
 
 
 class TextElement:
-- 
2.43.0


From cae3871e5e8ec65fd5fe41bcfa9d8c6284036649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:05 +0000
Subject: [PATCH 33/69] fix: correct the line numbers of syntax errors in the
 script tag

---
 collagraph/cgx/cgx.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 8c0810d..bb8894b 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -153,11 +153,9 @@ def get_script_ast(parser, path):
     script = script_node.children[0].content
     line, _ = script_node.children[0].location
 
-    # Create an AST from the script
-    script_tree = ast.parse(script, filename=str(path), mode="exec")
-    # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line - 1)
-    return script_tree
+    # Create an AST from the script. Make sure that the lineno's (also those of syntax
+    # errors) match up with the lines in the CGX file
+    return ast.parse("\n" * (line - 1) + script, filename=str(path), mode="exec")
 
 
 def create_ast_render_function(node, names):
-- 
2.43.0


From 987c0ac4b3f32019938db109852da6eb725deb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 34/69] fix: execute the code of CGX files within the namespace
 of the module

---
 collagraph/cgx/cgx.py      | 11 ++++++-----
 collagraph/cgx/importer.py |  9 +++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index bb8894b..5567c0c 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -27,7 +27,7 @@ COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
 MOUSTACHES = re.compile(r"\{\{.*?\}\}")
 
 
-def load(path):
+def load(path, namespace=None):
     """
     Loads and returns a component from a CGX file.
 
@@ -55,12 +55,13 @@ def load(path):
     """
     template = path.read_text()
 
-    return load_from_string(template, path)
+    return load_from_string(template, path, namespace)
 
 
-def load_from_string(template, path=None):
+def load_from_string(template, path=None, namespace=None):
     """
-    Load template from a string
+    Load template from a string. The code will be executed within the given namespace
+    (such as the __dict__ of a module), if any.
     """
     if path is None:
         path = "<template>"
@@ -72,7 +73,7 @@ def load_from_string(template, path=None):
     code = compile(tree, filename=str(path), mode="exec")
     # Execute the code as module and pass a dictionary that will capture
     # the global and local scope of the module
-    module_namespace = {}
+    module_namespace = {} if namespace is None else namespace
     exec(code, module_namespace)
 
     # Check that the class definition is an actual subclass of Component
diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index a6e55ef..36dc3ff 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -34,12 +34,9 @@ class CgxImporter:
 
     def exec_module(self, module):
         """Executing the module means reading the cgx file"""
-        component, context = cgx.load(self.cgx_path)
-        # Add the default module keys to the context such that
-        # __file__, __name__ and such are available to the loaded module
-        context.update(module.__dict__)
-
-        module.__dict__.update(context)
+        # Execute the code within the namespace of the module, such that __file__,
+        # __name__ and such are available to the code (and relative imports work)
+        component, _ = cgx.load(self.cgx_path, module.__dict__)
         module.__dict__[component.__name__] = component
 
 
-- 
2.43.0


From 6890e755cb5c16c5ed46a8cec66beff55fe3addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 35/69] fix: restore the default values of new objects in
 PygfxRenderer

Removal of custom attributes that had been changed restored the first value
instead of removing them, and default values were taken from objects that
might have been changed already.
---
 collagraph/renderers/pygfx_renderer.py | 65 +++++++++++++++-----------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index ddcce23..71f8a12 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -4,6 +4,26 @@ from . import Renderer
 
 ELEMENT_TYPE_CACHE = {}
 DEFAULT_ATTR_CACHE = {}
+# Default value of attributes that new objects don't have
+MISSING = object()
+
+
+def resolve(obj, path):
+    """Returns the (nested) attribute of `obj` for the names in `path`"""
+    for name in path:
+        obj = getattr(obj, name)
+    return obj
+
+
+def new_owner(obj, path):
+    """Returns a new object of the same type as the (nested) attribute of `obj`
+    for the names in `path`. If that can't be created, returns the attribute itself."""
+    owner = resolve(obj, path)
+    try:
+        new = resolve(type(obj)(), path)
+        return new if type(new) is type(owner) else type(owner)()
+    except (AttributeError, TypeError):
+        return owner
 
 
 class PygfxRenderer(Renderer):
@@ -42,42 +62,31 @@ class PygfxRenderer(Renderer):
         raise NotImplementedError
 
     def set_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
-
         # Split the given attr on dots to allow for
         # local.position for instance to be set
-        *attrs, attr = attr.split(".")
-        for attribute in attrs:
-            obj = getattr(obj, attribute)
+        *path, name = attr.split(".")
+        owner = resolve(obj, path)
 
+        key = (type(obj), type(owner), attr)
         if key not in DEFAULT_ATTR_CACHE:
-            if hasattr(obj, attr):
-                default_value = getattr(obj, attr)
-                if hasattr(default_value, "copy"):
-                    DEFAULT_ATTR_CACHE[key] = default_value.copy()
-                else:
-                    DEFAULT_ATTR_CACHE[key] = default_value
+            # Don't take the default value from `owner`, because other
+            # attributes might already have been changed
+            DEFAULT_ATTR_CACHE[key] = getattr(new_owner(obj, path), name, MISSING)
 
-        setattr(obj, attr, value)
+        setattr(owner, name, value)
 
     def remove_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
+        *path, name = attr.split(".")
+        owner = resolve(obj, path)
 
-        # Split the given attr on dots to allow for
-        # local.position for instance to be set
-        *attrs, attr = attr.split(".")
-        for attribute in attrs:
-            obj = getattr(obj, attribute)
-
-        if key in DEFAULT_ATTR_CACHE:
-            default_value = DEFAULT_ATTR_CACHE[key]
-            if hasattr(default_value, "copy"):
-                val = default_value.copy()
-            else:
-                val = default_value
-            setattr(obj, attr, val)
-        else:
-            delattr(obj, attr)
+        default_value = DEFAULT_ATTR_CACHE.get((type(obj), type(owner), attr), MISSING)
+        if default_value is MISSING:
+            delattr(owner, name)
+            return
+
+        if hasattr(default_value, "copy"):
+            default_value = default_value.copy()
+        setattr(owner, name, default_value)
 
     def add_event_listener(self, el, event_type, value):
         el.add_event_handler(value, event_type)
-- 
2.43.0


From 6d48381ba62519701320d9f0fd66ec10caf40d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 36/69] fix: take the widget of a scroll area when it's removed

---
 collagraph/renderers/pyside/objects/scrollarea.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/scrollarea.py b/collagraph/renderers/pyside/objects/scrollarea.py
index c4fcec8..f83b536 100644
--- a/collagraph/renderers/pyside/objects/scrollarea.py
+++ b/collagraph/renderers/pyside/objects/scrollarea.py
@@ -11,5 +11,7 @@ def insert(self, el: QWidget, anchor=None):
 
 @PySideRenderer.register_remove(QScrollArea)
 def remove(self, el: QWidget):
-    self.setWidget(None)
+    # The area keeps hold of its widget (and deletes it when another one
+    # is set) unless it's taken explicitly
+    self.takeWidget()
     el.setParent(None)
-- 
2.43.0


From ee3bb0b7cecd7fb94c5f54d02c358be04fdcb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 37/69] fix: order of arguments for adding a toolbar to an area

---
 collagraph/renderers/pyside/objects/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index c7890ec..851a902 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -15,7 +15,7 @@ def insert(self, el, anchor=None):
         el.setParent(self)
     elif isinstance(el, QToolBar):
         if area := getattr(el, "area", None):
-            self.addToolBar(el, area)
+            self.addToolBar(area, el)
         else:
             self.addToolBar(el)
         el.setParent(self)
-- 
2.43.0


From c0ae4ea7c8b5fde5a04726e0b2a1fb18954b0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 38/69] fix: respect the anchor and parent when inserting and
 removing tabs

---
 collagraph/renderers/pyside/objects/tab.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 54d50ab..1d67911 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -8,6 +8,9 @@ def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
 
+    if index < 0 and anchor is not None:
+        index = self.indexOf(anchor)
+
     if index >= 0:
         self.insertTab(index, el, label)
     else:
@@ -19,3 +22,4 @@ def remove(self, el: QWidget):
     index = self.indexOf(el)
     if index >= 0:
         self.removeTab(index)
+    el.setParent(None)
-- 
2.43.0


From fa1fec16201f33658d604a9941b4518b3a2234ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 39/69] fix: respect the anchor of rows in form layouts and
 keep the widgets of removed rows

---
 .../renderers/pyside/objects/layouts.py       | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 30e79db..89f4fcd 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -42,6 +42,9 @@ def box_layout_insert(self, el, anchor=None):
 def form_insert(self, el, anchor=None):
     if hasattr(el, "form_index"):
         self.insertRow(el.form_index, el.form_label, el)
+    elif anchor is not None:
+        row, _ = self.getWidgetPosition(anchor)
+        self.insertRow(row, el.form_label, el)
     else:
         self.addRow(el.form_label, el)
 
@@ -59,8 +62,14 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
-    # Layout also deletes 'el' so no need to unset parent
-    self.removeRow(el)
+    # Don't use 'removeRow', because that also deletes 'el', which might be inserted
+    # again later on
+    row = self.takeRow(el)
+    if row.labelItem:
+        label = row.labelItem.widget()
+        label.setParent(None)
+        label.deleteLater()
+    el.setParent(None)
 
 
 @PySideRenderer.register_set_attr(QLayout)
@@ -110,7 +119,10 @@ def set_form_index(self, attr, value):
     setattr(self, attr, value)
     if parent := self.parent():
         layout = parent.layout()
-        if hasattr(self, "form_label") and hasattr(self, "form_index"):
-            layout.insertRow(self.form_index, self.form_label, self)
-        elif hasattr(self, "form_label"):
-            layout.addRow(self.form_label, self)
+        label = layout.labelForField(self)
+        if attr == "form_label" and label and value:
+            label.setText(value)
+        else:
+            row, _ = layout.getWidgetPosition(self)
+            layout.remove(self)
+            layout.insertRow(getattr(self, "form_index", row), self.form_label, self)
-- 
2.43.0


From da705ac473e2da284cb81952f43aefca7c8665b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 40/69] fix: update the label and position of tabs

---
 collagraph/renderers/pyside/objects/tab.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 1d67911..b172339 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -23,3 +23,17 @@ def remove(self, el: QWidget):
     if index >= 0:
         self.removeTab(index)
     el.setParent(None)
+
+
+@PySideRenderer.register_custom_attribute("tab_label", "tab_index")
+def set_tab_attribute(self, attr, value):
+    setattr(self, attr, value)
+    # The pages are children of the stacked widget within the tab widget
+    stack = self.parent()
+    tabs = stack.parent() if stack else None
+    if isinstance(tabs, QTabWidget):
+        index = tabs.indexOf(self)
+        if attr == "tab_label":
+            tabs.setTabText(index, value)
+        else:
+            tabs.tabBar().moveTab(index, value)
-- 
2.43.0


From 0ae06ce3002a0cf7a99a1598d16a344c5f594296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 41/69] fix: don't delete dialogs that are moved

---
 collagraph/renderers/pyside_renderer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 36a0250..52917e9 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -329,9 +329,10 @@ class PySideRenderer(Renderer):
         if isinstance(el, QtWidgets.QDialog):
             # Hide the dialog to make sure it's not visible anymore
             el.hide()
-            # Then mark the element for deletion, so that it won't trigger
-            # any of 'finished', 'done', 'rejected', 'accepted' signals.
-            el.deleteLater()
+            # Don't close the dialog, so that it won't trigger any of 'finished',
+            # 'done', 'rejected', 'accepted' signals. And don't delete it either,
+            # because it might be inserted again (when it's moved).
+            el.setParent(None, el.windowFlags())
             return
 
         parent.remove(el)
-- 
2.43.0


From 17fed34ea9aaa0ea3dcd3ad8030c0de57760151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 42/69] fix: don't take group boxes for title bars of dock
 widgets

---
 collagraph/renderers/pyside/objects/dockwidget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/dockwidget.py b/collagraph/renderers/pyside/objects/dockwidget.py
index 9266774..d5b3e57 100644
--- a/collagraph/renderers/pyside/objects/dockwidget.py
+++ b/collagraph/renderers/pyside/objects/dockwidget.py
@@ -5,7 +5,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QtWidgets.QDockWidget)
 def insert(self, el, anchor=None):
-    if getattr(el, "title", False):
+    title = getattr(el, "title", False)
+    # Group boxes (for instance) have a method called 'title'
+    if title and not callable(title):
         self.setTitleBarWidget(el)
     else:
         self.setWidget(el)
-- 
2.43.0


From a35811cd44f5de7800a17dbd240fdd0b74a8877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 43/69] fix: restore the values that attributes have for new
 PySide elements

---
 collagraph/renderers/pyside_renderer.py | 38 +++++++++++++------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 52917e9..f170f57 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -290,7 +290,9 @@ class PySideRenderer(Renderer):
         # Update the default arguments map with the new wrapped type
         DEFAULT_ARGS[wrapped_type] = DEFAULT_ARGS.get(original_type, ((), {}))
 
-        return create_instance(WRAPPED_TYPES[type_name])
+        instance = create_instance(wrapped_type)
+        store_default_values(instance)
+        return instance
 
     def create_text_element(self):
         raise NotImplementedError
@@ -342,22 +344,6 @@ class PySideRenderer(Renderer):
 
     def set_attribute(self, el: Any, attr: str, value: Any):
         """Set the attribute `attr` of the element `el` to the value `value`."""
-        key = f"{type(el).__name__}.{attr}"
-        if key not in DEFAULT_VALUES:
-            if not hasattr(el, "metaObject"):
-                logger.debug(f"{el} does not have metaObject")
-            else:
-                method_name = attr_name_to_method_name(attr, setter=False)
-
-                meta_object = el.metaObject()
-                property_idx = meta_object.indexOfProperty(method_name)
-                if property_idx >= 0:
-                    meta_property = meta_object.property(property_idx)
-                    result = meta_property.read(el)
-                    DEFAULT_VALUES[key] = (meta_property, result)
-                else:
-                    logger.debug(f"'{attr}' is not a Qt property on {type(el)}")
-
         # Check for registered methods for custom attributes
         if set_attr := CUSTOM_ATTRIBUTES.get(attr):
             set_attr(el, attr, value)
@@ -373,7 +359,8 @@ class PySideRenderer(Renderer):
                 delattr(el, attr)
                 return
 
-        key = f"{type(el).__name__}.{attr}"
+        method_name = attr_name_to_method_name(attr, setter=False)
+        key = f"{type(el).__name__}.{method_name}"
         if key in DEFAULT_VALUES:
             meta_property, default_value = DEFAULT_VALUES[key]
             meta_property.write(el, default_value)
@@ -449,6 +436,21 @@ def create_instance(pyside_type):
     return pyside_type(*args, **kwargs)
 
 
+def store_default_values(instance):
+    """Stores the values of all the Qt properties of a new instance as the default
+    values for its type. Should be called before the instance is altered in any way."""
+    if not hasattr(instance, "metaObject"):
+        logger.debug(f"{instance} does not have metaObject")
+        return
+
+    meta_object = instance.metaObject()
+    for index in range(meta_object.propertyCount()):
+        meta_property = meta_object.property(index)
+        if meta_property.isWritable():
+            key = f"{type(instance).__name__}.{meta_property.name()}"
+            DEFAULT_VALUES[key] = (meta_property, meta_property.read(instance))
+
+
 def normalize_name(name):
     """Transforms given name to lower case and removes underscores and dashes"""
     return name.lower().replace("_", "").replace("-", "")
-- 
2.43.0


From 816a4d95e940014b382146a1e9f84139c4cc2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 44/69] fix: replace the items of comboboxes on changes

---
 collagraph/renderers/pyside/objects/combobox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/combobox.py b/collagraph/renderers/pyside/objects/combobox.py
index 1f95076..9f51dba 100644
--- a/collagraph/renderers/pyside/objects/combobox.py
+++ b/collagraph/renderers/pyside/objects/combobox.py
@@ -7,6 +7,11 @@ from ... import PySideRenderer
 @PySideRenderer.register_set_attr(QtWidgets.QComboBox)
 def set_attribute(self, attr, value):
     if attr == "items":
-        self.addItems(value)
+        # Change the items in place to keep the current index (if possible)
+        while self.count() > len(value):
+            self.removeItem(self.count() - 1)
+        for index in range(self.count()):
+            self.setItemText(index, value[index])
+        self.addItems(value[self.count() :])
     else:
         widget.set_attribute(self, attr, value)
-- 
2.43.0


From dce3fdae14ced83177a76343f1ffeaf565682931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 45/69] fix: replace the standard buttons of button boxes on
 changes

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 3d191e4..cd0a2ca 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -21,6 +21,11 @@ def insert(self, el, anchor=None):
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
+        # Remove the buttons of an earlier value
+        for button in self.buttons():
+            if self.standardButton(button) != QDialogButtonBox.StandardButton.NoButton:
+                self.removeButton(button)
+                button.deleteLater()
         for flag in value:
             flag = (
                 flag
-- 
2.43.0


From 3c20a757a5e9dc7f1ae2c735d6fe614caeba717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 46/69] fix: disconnect bound methods and pass them the
 arguments of the signal

---
 collagraph/renderers/pyside_renderer.py | 56 +++++++++++++++----------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index f170f57..80df26f 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -1,8 +1,10 @@
 from collections import defaultdict
 from functools import lru_cache
+import inspect
 import logging
 from typing import Any, Callable
 from warnings import warn
+import weakref
 
 from PySide6 import QtCore, QtGui, QtWidgets
 
@@ -376,26 +378,13 @@ class PySideRenderer(Renderer):
         # Try and get the signal from the object
         signal = getattr(el, signal_name, None)
         if signal and hasattr(signal, "connect"):
-            # Add a slots attribute to hold all the generated slots, keyed on event_type
+            # Add a slots attribute to hold all the handlers and the slots
+            # that were generated for them, keyed on event_type
             if not hasattr(el, "slots"):
-                el.slots = defaultdict(set)
-
-            # Create a slot with the given value
-            # Note that the slot apparently does not need arguments to specify the type
-            # or amount of arguments the enclosed callback needs. If the callback has
-            # arguments, then those will be set to the parameter(s) of the signal when
-            # it is emitted.
-            try:
-                # Creating a slot of a bound method on an instance (that is not
-                # a QObject?) results in a SystemError. Lambdas though _can_ function
-                # as a slot, so when creating a slot of the value fails, retry with
-                # a simple lambda.
-                slot = QtCore.Slot()(value)
-            except SystemError:
-                # TODO: with some inspection we might be able to figure out the
-                # signature of the 'value' function and adjust the lambda accordingly
-                slot = QtCore.Slot()(lambda *args: value(*args))
-            el.slots[event_type].add(slot)
+                el.slots = defaultdict(list)
+
+            slot = create_slot(value)
+            el.slots[event_type].append((value, slot))
 
             signal.connect(slot)
         else:
@@ -416,14 +405,35 @@ class PySideRenderer(Renderer):
             el._event_filter.remove_event_handler(event_name, value)
             return
 
-        for slot in el.slots[event_type]:
-            # Slot can be compared to its value
-            if slot == value:
+        for handler, slot in el.slots[event_type]:
+            if handler == value:
                 signal.disconnect(slot)
-                el.slots[event_type].remove(slot)
+                el.slots[event_type].remove((handler, slot))
                 break
 
 
+def create_slot(value):
+    """Creates a slot for the given value
+
+    Note that the slot apparently does not need arguments to specify the type
+    or amount of arguments the enclosed callback needs. If the callback has
+    arguments, then those will be set to the parameter(s) of the signal when
+    it is emitted.
+    """
+    try:
+        if inspect.ismethod(value):
+            # Creating a slot of a bound method on an instance (that is not
+            # a QObject?) results in a SystemError. It is possible though to
+            # connect to bound methods directly, as long as the instance
+            # supports weak references.
+            weakref.ref(value.__self__)
+            return value
+        return QtCore.Slot()(value)
+    except (SystemError, TypeError):
+        # Lambdas always _can_ function as a slot
+        return QtCore.Slot()(lambda *args: value(*args))
+
+
 def not_implemented(self, *args, **kwargs):
     """Default 'not implemented' error for wrapped types"""
     raise NotImplementedError(type(self).__name__)
-- 
2.43.0


From 641725304949d236b119862fb0ba384f74f71a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 47/69] fix: respect the anchor of menus and keep the content
 of menus that are moved

---
 collagraph/renderers/pyside/objects/menu.py    | 7 +++++--
 collagraph/renderers/pyside/objects/menubar.py | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 9c2b199..241c090 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -6,6 +6,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenu)
 def insert(self, el, anchor=None):
+    if isinstance(anchor, QMenu):
+        anchor = anchor.menuAction()
+
     if isinstance(el, QMenu):
         if anchor is not None:
             action = self.insertMenu(anchor, el)
@@ -26,7 +29,7 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QMenu):
-        el.clear()
+        # Keep the contents of the menu: it might be inserted again (when it's moved)
         menu_action = el.menuAction()
         self.removeAction(menu_action)
-        menu_action.setParent(None)
+        menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 15b073e..952892d 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -6,7 +6,7 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
     if anchor is not None:
-        action = self.insertMenu(anchor, el)
+        action = self.insertMenu(anchor.menuAction(), el)
     else:
         action = self.addMenu(el)
     # Use the window property of the menubar to set
@@ -21,7 +21,7 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 
 @PySideRenderer.register_remove(QMenuBar)
 def remove(self, el: QMenu):
-    el.clear()
+    # Keep the contents of the menu: it might be inserted again (when it's moved)
     menu_action = el.menuAction()
     self.removeAction(menu_action)
-    menu_action.setParent(None)
+    menu_action.setParent(el)
-- 
2.43.0


From d8e407a344eb3fb8fc944c3604c88e4911d07f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 48/69] fix: update and keep the expanded and selected state of
 (moved) tree items

---
 .../pyside/objects/treewidgetitem.py          | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 85993a8..1a9c27f 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -19,20 +19,39 @@ def insert(self, el: QTreeWidgetItem, anchor=None):
 
     # After mounting, process some attributes that can only
     # be adjusted when the item is mounted in the tree structure
-    if hasattr(el, "_expanded"):
-        el.setExpanded(el._expanded)
-        delattr(el, "_expanded")
-
-    if hasattr(el, "_selected"):
-        el.setSelected(el._selected)
-        delattr(el, "_selected")
+    if el.treeWidget():
+        restore_state(el)
 
 
 @PySideRenderer.register_remove(QTreeWidgetItem)
 def remove(self, el: QTreeWidgetItem):
+    # The item might be inserted again (when it's moved)
+    if el.treeWidget():
+        store_state(el)
     self.removeChild(el)
 
 
+def store_state(item):
+    """Store the state that items lose when they are taken out of the tree"""
+    item._expanded = item.isExpanded()
+    item._selected = item.isSelected()
+    for index in range(item.childCount()):
+        store_state(item.child(index))
+
+
+def restore_state(item):
+    if hasattr(item, "_expanded"):
+        item.setExpanded(item._expanded)
+        delattr(item, "_expanded")
+
+    if hasattr(item, "_selected"):
+        item.setSelected(item._selected)
+        delattr(item, "_selected")
+
+    for index in range(item.childCount()):
+        restore_state(item.child(index))
+
+
 @PySideRenderer.register_set_attr(QTreeWidgetItem)
 def set_attribute(self, attr, value):
     if attr == "content":
@@ -40,13 +59,13 @@ def set_attribute(self, attr, value):
             self.setText(col, data)
         return
     elif attr == "expanded":
-        if not self.parent():
+        if not self.treeWidget():
             self._expanded = value
         else:
             self.setExpanded(value)
         return
     elif attr == "selected":
-        if not self.parent():
+        if not self.treeWidget():
             self._selected = value
         else:
             self.setSelected(value)
-- 
2.43.0


From 697128222db8dfa1db537129f7c06d524ef437b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 49/69] fix: clear the columns of tree items that aren't in
 their content anymore

---
 collagraph/renderers/pyside/objects/treewidgetitem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 1a9c27f..87187eb 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -55,6 +55,10 @@ def restore_state(item):
 @PySideRenderer.register_set_attr(QTreeWidgetItem)
 def set_attribute(self, attr, value):
     if attr == "content":
+        # Clear the columns that aren't part of the content anymore
+        for col in range(self.columnCount()):
+            if col not in value:
+                self.setText(col, "")
         for col, data in value.items():
             self.setText(col, data)
         return
-- 
2.43.0


From 2fd67cec0637306397ef90a55f5f01437fdfcd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 50/69] fix: remove buttons with a role from button boxes

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index cd0a2ca..c7310e7 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -18,6 +18,12 @@ def insert(self, el, anchor=None):
     raise NotImplementedError
 
 
+@PySideRenderer.register_remove(QDialogButtonBox)
+def remove(self, el):
+    self.removeButton(el)
+    el.setParent(None)
+
+
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
-- 
2.43.0


From 1bf09d49d2b350a72dd58450912f770680459727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 51/69] fix: take the widgets of toolbars out completely and
 respect widgets as anchors

---
 .../renderers/pyside/objects/toolbar.py       | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 4636e3b..b4aa361 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -1,17 +1,28 @@
 from PySide6.QtGui import QAction
-from PySide6.QtWidgets import QToolBar, QWidget
+from PySide6.QtWidgets import QToolBar, QWidget, QWidgetAction
 
 from ... import PySideRenderer
 
 
 @PySideRenderer.register_insert(QToolBar)
 def insert(self, el, anchor=None):
+    if anchor is not None:
+        anchor = action_for(anchor)
+
     if isinstance(el, QWidget):
+        action = action_for(el)
+        if action is None:
+            # Toolbars have an action for each widget, which owns the widget. So keep
+            # it for as long as the widget exists: the widget might be inserted again
+            # (when it's moved)
+            action = QWidgetAction(self)
+            action.setDefaultWidget(el)
+            el.destroyed.connect(action.deleteLater)
+            el._toolbar_action = action
         if anchor is not None:
-            action = self.insertWidget(anchor, el)
+            self.insertAction(anchor, action)
         else:
-            action = self.addWidget(el)
-        action.setParent(self)
+            self.addAction(action)
     elif isinstance(el, QAction):
         if anchor is not None:
             self.insertAction(anchor, el)
@@ -26,4 +37,12 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QWidget):
+        self.removeAction(action_for(el))
         el.setParent(None)
+
+
+def action_for(el):
+    """The action of the element (if any) within the toolbar"""
+    if isinstance(el, QAction):
+        return el
+    return getattr(el, "_toolbar_action", None)
-- 
2.43.0


From 630514377b2adb41f2d66b631a370b0f16d66af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 52/69] fix: removing a selection model from a view shouldn't
 crash

---
 collagraph/renderers/pyside/objects/listview.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 868e593..edbb688 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -30,7 +30,10 @@ def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
         self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
-        self.setSelectionModel(None)
+        # Views always need a selection model. Removing the item model already replaces
+        # the selection model.
+        if self.selectionModel() is el:
+            self.setSelectionModel(QItemSelectionModel(self.model(), self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From c7f9e161145ca968edd469fcf89c4486a7743e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 53/69] fix: pass on the ownership of standard items that are
 inserted before others

---
 collagraph/renderers/pyside/objects/standarditem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/standarditem.py b/collagraph/renderers/pyside/objects/standarditem.py
index 2565a1f..67cb0af 100644
--- a/collagraph/renderers/pyside/objects/standarditem.py
+++ b/collagraph/renderers/pyside/objects/standarditem.py
@@ -19,7 +19,9 @@ def insert(self, el, anchor=None):
                 break
         if index is None:
             return
-        self.insertRow(index, el)
+        # Insert the item as list: otherwise PySide doesn't pass on the ownership and
+        # will destroy an item that might have been destroyed by Qt already
+        self.insertRow(index, [el])
     else:
         self.appendRow(el)
 
-- 
2.43.0


From 6ecd002253d4ae4241f8d790b926f3ea3c990fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 54/69] fix: find registered layouts regardless of dashes and
 underscores

---
 collagraph/renderers/pyside/objects/layouts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 89f4fcd..a72c86d 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -8,7 +8,7 @@ from PySide6.QtWidgets import (
 )
 
 from .. import attr_name_to_method_name, call_method
-from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer
+from ...pyside_renderer import LAYOUT_MAPPING, normalize_name, PySideRenderer
 
 DIRECTIONS = {
     "TopToBottom": QBoxLayout.Direction.TopToBottom,
@@ -90,7 +90,7 @@ def set_layout_attribute(self, attr, value):
 
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
-    if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
+    if layout_type := LAYOUT_MAPPING.get(normalize_name(value["type"])):
         layout = self.layout()
         if isinstance(layout, layout_type):
             pass
-- 
2.43.0


From 211e27c5bd31ca644f52f32a7d41fd006bdd59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 55/69] fix: keep elements and layouts with the same name apart

---
 .../renderers/pyside/objects/layouts.py       |  2 +-
 collagraph/renderers/pyside/objects/widget.py |  2 +-
 collagraph/renderers/pyside_renderer.py       | 19 ++++++++++++++-----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index a72c86d..9f35872 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -97,7 +97,7 @@ def set_layout_attr(self, attr, value):
         else:
             if layout:
                 QWidget().setLayout(layout)
-            layout = PySideRenderer.create_object(value["type"].lower())
+            layout = PySideRenderer.create_layout(value["type"])
             self.setLayout(layout)
 
         for key, val in value.items():
diff --git a/collagraph/renderers/pyside/objects/widget.py b/collagraph/renderers/pyside/objects/widget.py
index 0b11441..6de091a 100644
--- a/collagraph/renderers/pyside/objects/widget.py
+++ b/collagraph/renderers/pyside/objects/widget.py
@@ -19,7 +19,7 @@ def insert(self, el, anchor=None):
     # The layout might not exist yet, so let's create a default QBoxLayout.
     layout = self.layout()
     if not layout:
-        layout = PySideRenderer.create_object("box")
+        layout = PySideRenderer.create_layout("box")
         self.setLayout(layout)
 
     layout.insert(el, anchor=anchor)
diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 80df26f..77db7c4 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -261,16 +261,25 @@ class PySideRenderer(Renderer):
         return self.create_object(type_name)
 
     @classmethod
-    def create_object(cls, type_name: str) -> Any:
+    def create_layout(cls, layout_name: str) -> Any:
+        """Create a layout that was registered with the given name. There might be an
+        element with the same name."""
+        name = normalize_name(layout_name)
+        return cls.create_object(name, original_type=LAYOUT_MAPPING[name])
+
+    @classmethod
+    def create_object(cls, type_name: str, original_type: type = None) -> Any:
         """Create an element for the given type."""
         # Create dynamic subclasses which implement `insert`, `set_attribute`
         # and `remove` methods.
         # The generated types are cached in WRAPPED_TYPES so they only have
         # to be generated once and can be used in equality comparisons
-        if type_name in WRAPPED_TYPES:
-            return create_instance(WRAPPED_TYPES[type_name])
+        cache_key = (type_name, original_type)
+        if cache_key in WRAPPED_TYPES:
+            return create_instance(WRAPPED_TYPES[cache_key])
 
-        original_type = name_to_type(type_name)
+        if original_type is None:
+            original_type = name_to_type(type_name)
 
         attrs = {}
         maps = {
@@ -288,7 +297,7 @@ class PySideRenderer(Renderer):
 
         # Create the new type with the new methods
         wrapped_type = type(type_name, (original_type,), attrs)
-        WRAPPED_TYPES[type_name] = wrapped_type
+        WRAPPED_TYPES[cache_key] = wrapped_type
         # Update the default arguments map with the new wrapped type
         DEFAULT_ARGS[wrapped_type] = DEFAULT_ARGS.get(original_type, ((), {}))
 
-- 
2.43.0


From fc52479cf8c66526ee0b13c8828b07ca4ef5f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 56/69] fix: offer only the renderers that can be imported in
 the CLI

---
 collagraph/__main__.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 8e8280d..b31c3d1 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -1,5 +1,4 @@
 import argparse
-import importlib
 import json
 from pathlib import Path
 
@@ -17,11 +16,8 @@ def available_renderers():
         # TODO: add support for DomRenderer
         # "DomRenderer": "dom",
     }.items():
-        try:
-            importlib.import_module("collagraph", renderer_type)
+        if hasattr(cg, renderer_type):
             result.add(name)
-        except ImportError:
-            continue
     return result
 
 
-- 
2.43.0


From f7a90a1f8145206feecad05c6183709dd7b6f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 57/69] fix: use the camera and controls of pygfx in the CLI

---
 collagraph/__main__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index b31c3d1..dbe8e32 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -33,15 +33,14 @@ def init_collagraph(renderer_type: str, component_path: Path, state: dict = None
         wgpu_renderer = gfx.renderers.WgpuRenderer(canvas)
 
         camera = gfx.PerspectiveCamera(70, 16 / 9)
-        camera.position.z = 15
+        camera.local.z = 15
 
-        controls = gfx.OrbitController(camera.position.clone())
-        controls.add_default_event_handlers(wgpu_renderer, camera)
+        controls = gfx.OrbitController(camera)
+        controls.register_events(wgpu_renderer)
 
         container = gfx.Scene()
 
         def animate():
-            controls.update_camera(camera)
             wgpu_renderer.render(container, camera)
 
         gui = cg.Collagraph(renderer=cg.PygfxRenderer())
-- 
2.43.0


From d3f3af403c2f8e832b0611a1ea8f9c1b380b1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 58/69] fix: accept long inline state in the CLI

---
 collagraph/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index dbe8e32..0adb149 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -83,7 +83,12 @@ def existing_component_file(value):
 
 def json_contents(value):
     path = Path(value)
-    if path.is_file():
+    try:
+        is_file = path.is_file()
+    except OSError:
+        # Inline contents can be too long for the name of a file
+        is_file = False
+    if is_file:
         with path.open(mode="r", encoding="utf-8") as fh:
             try:
                 return json.load(fh)
-- 
2.43.0


From 57fc3367e7613aad61760bbfc5e08bd260eab1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 59/69] fix: reject state that isn't an object in the CLI

---
 collagraph/__main__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 0adb149..197ffc5 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -101,6 +101,13 @@ def json_contents(value):
             raise argparse.ArgumentTypeError(f"{value} is not valid json")
 
 
+def json_object(value):
+    result = json_contents(value)
+    if not isinstance(result, dict):
+        raise argparse.ArgumentTypeError(f"{value} is not a json object")
+    return result
+
+
 def run():
     parser = argparse.ArgumentParser(
         description="Run collagraph components directly",
@@ -114,7 +121,7 @@ def run():
     )
     parser.add_argument(
         "--state",
-        type=json_contents,
+        type=json_object,
         help="Optional state/props to load (json file or string)",
     )
     parser.add_argument(
-- 
2.43.0


From c5375af28fd8ab3438494a4d99058a7f76d74fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 60/69] fix: resolve relative imports of CGX files in the
 PyInstaller hook

---
 collagraph/__pyinstaller/hook-collagraph.py | 33 +++++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index ce32924..097980e 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -1,4 +1,5 @@
 import ast
+from importlib.util import resolve_name
 from pathlib import Path
 
 from PyInstaller.utils.hooks import collect_data_files
@@ -13,14 +14,24 @@ def hook(hook_api):
     datas = []
     for package, code in collagraph_uses.items():
         filename = Path(code.co_filename)
-        hidden_imports |= collect_hidden_imports(filename.parent)
+        parent, _, name = package.rpartition(".")
+        if filename.stem == "__init__":
+            parent = package
+        elif filename.stem != name:
+            # Scripts are identified by their path
+            parent = ""
+        hidden_imports |= collect_hidden_imports(filename.parent, parent)
         datas += collect_data_files(package, includes=["**/*.cgx"])
 
     hook_api.add_imports(*hidden_imports)
     hook_api.add_datas(datas)
 
 
-def collect_hidden_imports(folder):
+def collect_hidden_imports(folder, package=""):
+    """
+    Returns the names of all the modules that are imported by the CGX files in the
+    folder (of the given package) and its subfolders.
+    """
     folder = Path(folder)
 
     hidden_imports = set()
@@ -35,7 +46,8 @@ def collect_hidden_imports(folder):
 
         # Find a list of imported names (or aliases, if any)
         # Those names don't have to be wrapped by `_lookup`
-        imported_names = ImportsCollector()
+        parts = path.parent.relative_to(folder).parts
+        imported_names = ImportsCollector(".".join([package, *parts]).strip("."))
         imported_names.visit(script_tree)
 
         hidden_imports |= imported_names.names
@@ -44,13 +56,22 @@ def collect_hidden_imports(folder):
 
 
 class ImportsCollector(ast.NodeVisitor):
-    def __init__(self):
+    def __init__(self, package=""):
         self.names = set()
+        # Name of the package for relative imports
+        self.package = package
 
     def visit_ImportFrom(self, node):
+        module = node.module
+        if node.level:
+            try:
+                module = resolve_name("." * node.level + (module or ""), self.package)
+            except ImportError:
+                # Relative import outside of a package
+                return
         for alias in node.names:
-            self.names.add(".".join([node.module, alias.name]))
-        self.names.add(node.module)
+            self.names.add(".".join([module, alias.name]))
+        self.names.add(module)
 
     def visit_Import(self, node):
         for alias in node.names:
-- 
2.43.0


From db429bbf8ebb9b293704755d0264e403e4b947bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 61/69] fix: keep empty props reactive

---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index c8e760e..4227af1 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -60,7 +60,9 @@ def create_element(type, props=None, *children) -> VNode:
         # If children is 1 callable item, then it becomes the default slot
         elif callable(children[0]):
             children = {"default": children[0]}
-    return VNode(type, reactive(props or {}), children or tuple(), key)
+    # An empty dict might be filled later on
+    props = {} if props is None else props
+    return VNode(type, reactive(props), children or tuple(), key)
 
 
 def create_text_element(text):
-- 
2.43.0


From 1837ec6aadb00d72dd90a61ff01156d3297c2ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 62/69] fix: tell apart handlers with the same code from
 different modules

---
 collagraph/compare.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index d5fad3d..1dacc6d 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -32,6 +32,8 @@ def equivalent_functions(a: Callable, b: Callable, pending=()):
         equivalent_code(a.__code__, b.__code__)
         # Methods might be bound to different instances
         and getattr(a, "__self__", None) is getattr(b, "__self__", None)
+        # The same code can be part of different modules (by reload, exec, etc.)
+        and getattr(a, "__globals__", None) is getattr(b, "__globals__", None)
         and equivalent_values(a.__defaults__, b.__defaults__, pending)
         and equivalent_kwargs(a.__kwdefaults__, b.__kwdefaults__, pending)
         and equivalent_closure_values(a, b, pending)
-- 
2.43.0


From 756a504fca9aa697696abff25b91de38c71be8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 63/69] fix: support names with colons for bound attributes and
 events in templates

---
 collagraph/cgx/cgx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 5567c0c..861f24c 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -331,7 +331,7 @@ def convert_node_to_args(node, *, names=None):
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
                 )
             else:
-                _, key = key.split(":")
+                _, key = key.split(":", 1)
                 props_keys.append(ast.Constant(value=key))
                 props_values.append(
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
@@ -340,7 +340,7 @@ def convert_node_to_args(node, *, names=None):
 
         if key.startswith((DIRECTIVE_ON, "@")):
             split_char = "@" if key.startswith("@") else ":"
-            _, key = key.split(split_char)
+            _, key = key.split(split_char, 1)
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-- 
2.43.0


From 3d1830fa574b33eec602fe7e1e8f59b6220f6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 64/69] fix: support component tags with attributes of modules
 with a capitalized name

---
 collagraph/cgx/cgx.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 861f24c..d054da4 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -296,11 +296,7 @@ def convert_node_to_args(node, *, names=None):
     Converts the node to args that can be passed to `collagraph.create_element()`.
     """
     # Construct the first argument: type of node
-    if not node.tag[0].islower():
-        # If the tag does not start with a capital, then it is assumed to be
-        # a class or function, so a Name node is inserted in the ast tree
-        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
-    elif "." in node.tag:
+    if "." in node.tag:
         # If a dot is found in the tag, then it is assumed that the tag represents
         # a package/module attribute lookup
         name, *attributes = node.tag.split(".")
@@ -308,6 +304,10 @@ def convert_node_to_args(node, *, names=None):
         for attr in attributes:
             result = ast.Attribute(value=result, attr=attr, ctx=ast.Load())
         type_arg = result
+    elif not node.tag[0].islower():
+        # If the tag does not start with a capital, then it is assumed to be
+        # a class or function, so a Name node is inserted in the ast tree
+        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
     else:
         # Otherwise it is just a constant string
         type_arg = ast.Constant(value=node.tag)
-- 
2.43.0


From d8bf7fae9e50f2033e90404c846731df36f761be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 65/69] fix: names of slots with colons or hashes in templates

---
 collagraph/cgx/cgx.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d054da4..22bc61f 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -447,9 +447,11 @@ def convert_node_to_args(node, *, names=None):
 
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
-                slot_name = attr.split(":")[-1].split("#")[-1]
-                if slot_name == "v-slot":
-                    slot_name = "default"
+                # Names of slots can contain colons and hashes as well
+                if attr.startswith("#"):
+                    slot_name = attr[1:]
+                else:
+                    slot_name = attr.partition(":")[2] or "default"
                 slots[slot_name] = child
 
         if not directive:
-- 
2.43.0


From fff88a22344a2f02de9a61f8e4a1c57736244437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 66/69] fix: read CGX files as UTF-8, regardless of the locale

---
 collagraph/__pyinstaller/hook-collagraph.py | 2 +-
 collagraph/cgx/cgx.py                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index 097980e..e565cc1 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -36,7 +36,7 @@ def collect_hidden_imports(folder, package=""):
 
     hidden_imports = set()
     for path in folder.glob("**/*.cgx"):
-        template = path.read_text()
+        template = path.read_text(encoding="utf-8")
         # Parse the file component into a tree of Node instances
         parser = CGXParser()
         parser.feed(template)
diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 22bc61f..69d05bd 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -53,7 +53,7 @@ def load(path, namespace=None):
         </script>
 
     """
-    template = path.read_text()
+    template = path.read_text(encoding="utf-8")
 
     return load_from_string(template, path, namespace)
 
@@ -95,7 +95,7 @@ def construct_ast(path, template=None):
     class definition as `render` function.
     """
     if not template:
-        template = Path(path).read_text()
+        template = Path(path).read_text(encoding="utf-8")
 
     # Parse the file component into a tree of Node instances
     parser = CGXParser()
-- 
2.43.0


From 085b4586c717af242e6b1d8164977e3cb0de7abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:04 +0000
Subject: [PATCH 67/69] fix: props that change while their element is next in
 line

---
 collagraph/collagraph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 4227af1..12f45aa 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -226,6 +226,8 @@ class Collagraph:
 
         # Attach the component instance to the fiber
         fiber.component = component
+        # The props might have changed since the snapshot was made
+        fiber.props_snapshot = to_raw(fiber.props)
         self.update_component_props(fiber)
 
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
@@ -308,6 +310,9 @@ class Collagraph:
         self.reconcile_children(fiber, fiber.watcher.value)
 
     def update_host_component(self, fiber: Fiber):
+        # The props might have changed since the snapshot was made
+        fiber.props_snapshot = to_raw(fiber.props)
+
         # Add dom node, but not for template/slot tags (which are virtual tags)
         if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
@@ -329,8 +334,6 @@ class Collagraph:
             if fiber.type == "TEXT_ELEMENT"
             else self.renderer.create_element(fiber.type)
         )
-        # The state might have changed since the snapshot was made
-        fiber.props_snapshot = to_raw(fiber.props)
         self.update_dom_or_component(fiber, dom, prev_props={}, next_props=fiber.props)
         return dom
 
-- 
2.43.0


From c1f874e7e742df0f80f5e6a46f6f568d9bb7021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 68/69] fix: props of components that are added and removed
 again during an update

---
 collagraph/collagraph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 12f45aa..74a8239 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -220,9 +220,10 @@ class Collagraph:
 
             # Each component has its own copy of the props: the props can be updated
             # later on, which shouldn't change the data that the props originate from
-            component = fiber.type(
-                props=reactive({**fiber.props}), parent=parent_component
-            )
+            props = {**fiber.props}
+            passed_props = {*props}
+            component = fiber.type(props=reactive(props), parent=parent_component)
+            component._passed_props = passed_props
 
         # Attach the component instance to the fiber
         fiber.component = component
@@ -262,9 +263,8 @@ class Collagraph:
 
         # Get a writable reference to the read-only props of the component
         props = reactive(fiber.component.props)
-        old_keys = {*fiber.props_snapshot}
-        if fiber.alternate:
-            old_keys.update(fiber.alternate.props_snapshot)
+        old_keys = fiber.component._passed_props
+        fiber.component._passed_props = {*fiber.props}
         removals = {key for key in old_keys - {*fiber.props} if key in props}
         for key in removals:
             del props[key]
-- 
2.43.0


From 4f98132527c750ee797d9b162438229ffb577c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 69/69] fix: props that are changed in place by hooks while
 they are being updated

---
 collagraph/collagraph.py | 51 ++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 74a8239..0d9680a 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -257,21 +257,23 @@ class Collagraph:
 
     def update_component_props(self, fiber: Fiber):
         """Bring the props of the component up to date with the props of the fiber"""
-        if not fiber.component:
+        component = fiber.component
+        if not component:
             # Already taken care of by an update as a result of the very same change
             return
 
         # Get a writable reference to the read-only props of the component
-        props = reactive(fiber.component.props)
-        old_keys = fiber.component._passed_props
-        fiber.component._passed_props = {*fiber.props}
-        removals = {key for key in old_keys - {*fiber.props} if key in props}
-        for key in removals:
-            del props[key]
-
+        props = reactive(component.props)
+        passed_props = {**fiber.props}
+        removals = {
+            key
+            for key in component._passed_props
+            if key in props and key not in passed_props
+        }
+        component._passed_props = {*passed_props}
         changes = {
             key: val
-            for key, val in fiber.props.items()
+            for key, val in passed_props.items()
             if key not in props
             or (
                 not is_equivalent_event_handler(val, props, key)
@@ -279,15 +281,28 @@ class Collagraph:
                 else is_new(val, props, key)
             )
         }
-        # Values that are equal might still be other (reactive) objects that can change
-        # later on. Those are set on the target itself: no need to notify any watcher.
-        props.target.update(
-            {key: val for key, val in fiber.props.items() if key not in changes}
-        )
-        props.update({key: val for key, val in changes.items() if val is not None})
-        # New keys with a value of None are only registered when set one by one
-        for key in (key for key, val in changes.items() if val is None):
-            props[key] = None
+
+        # All the changes are made to the target first: notified watchers might run right
+        # away, and hooks might even change the props again. Values that are equal might
+        # still be other (reactive) objects that can change later on: those are set as
+        # well, but without a need to notify any watcher.
+        target = props.target
+        old_props = {**target}
+        for key in removals:
+            del target[key]
+        target.update(passed_props)
+
+        # Change the props one by one to notify the watchers, except for the ones that
+        # have been changed again in the meantime
+        for key in removals:
+            if key not in target:
+                target[key] = old_props[key]
+                del props[key]
+        for key, val in changes.items():
+            if key in target and target[key] is val:
+                # A change from or to None is never compared with the new value
+                target[key] = old_props.get(key) if val is None else None
+                props[key] = val
 
         # The event handlers are replaced while committing the fiber
         if any(is_event(key) for key in {*removals, *changes}):
-- 
2.43.0

