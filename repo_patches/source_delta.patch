From 329e19d8c6897bb9ea750db3f05c3e0ab3d8603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 01/26] fix: serialize before opening the target file

Serializer.device_to_svd_file truncated the target before serializing the
device, so a device that can't be serialized destroyed an existing file.
---
 src/svdsuite/serialize.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..dca4b58 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -20,15 +20,11 @@ from svdsuite.model.parse import (
 class Serializer:
     @staticmethod
     def device_to_svd_file(path: str, device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True):
+        # Serialize before opening the file, so that a device which can't be serialized leaves an existing file untouched
+        content = Serializer.device_to_svd_content(device, pretty_print=pretty_print, xml_declaration=xml_declaration)
+
         with open(path, "wb") as f:
-            f.write(
-                lxml.etree.tostring(
-                    SVDDeviceSerializer(device).to_xml(),
-                    pretty_print=pretty_print,
-                    xml_declaration=xml_declaration,
-                    encoding="utf-8",
-                )
-            )
+            f.write(content)
 
     @staticmethod
     def device_to_svd_content(device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True) -> bytes:
-- 
2.43.0


From 33222acb03d595ea000b7635eeca906003d6a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 02/26] fix: report the syntax error if nothing can be
 recovered from an XML document

With recover=True the XML parser returns no root element if it can't recover
anything (e.g. a file cut off in its first bytes), which ended in an
AttributeError instead of the original XMLSyntaxError.
---
 src/svdsuite/util/xml_parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 5bccf84..342d24e 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -37,6 +37,9 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
         try:
             parser = etree.XMLParser(encoding=enc, recover=True)
             tree = etree.parse(path_or_file, parser=parser)
+            # nothing could be recovered
+            if tree.getroot() is None:  # pyright: ignore[reportUnnecessaryComparison]
+                continue
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
@@ -76,6 +79,9 @@ def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[report
         try:
             parser = etree.XMLParser(encoding=enc, recover=True)
             root = etree.fromstring(content, parser=parser)
+            # nothing could be recovered
+            if root is None:  # pyright: ignore[reportUnnecessaryComparison]
+                continue
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
-- 
2.43.0


From a127186cd3d9f43639216828e77369cc11cd020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 03/26] fix: write the resolver log when resolving ends

The log was only written when the HTML generator was garbage collected: not
when processing returned, possibly over a newer log at the same path, and not
at all if the interpreter exited before the collection.
---
 src/svdsuite/resolve/resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..6d624cc 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -56,6 +56,12 @@ class Resolver:
         return self._root_node_
 
     def resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
+        try:
+            return self._resolve_peripherals(parsed_device)
+        finally:
+            self._logger.log_finalize()
+
+    def _resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
         self._initialization(parsed_device)
 
         self._logger.log_repeating_steps_start()
-- 
2.43.0


From c5f801db46fc8f752a34bb9282714679b0c8c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 04/26] fix: list the allowed alternates of an overlap warning
 in a defined order

The warning texts formatted a set of strings, so they differed from run to run
with the hash seed of the interpreter.
---
 src/svdsuite/process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..a5e1a45 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -708,7 +708,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Effective peripheral address overlap: '{periph.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate peripherals {allowed_names}",
+                                f"which is not among the allowed alternate peripherals {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -729,7 +729,8 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Specified peripheral address overlap in address_blocks: '{periph.name}' overlaps "
-                                f"with '{name}', which is not among the allowed alternate peripherals {allowed_names}",
+                                f"with '{name}', which is not among the allowed alternate peripherals "
+                                f"{sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -916,7 +917,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"{type_label} '{item.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate {type_label.lower()}s {allowed_names}",
+                                f"which is not among the allowed alternate {type_label.lower()}s {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
-- 
2.43.0


From ffbfa537cb286e4fac40af0ad628b3f859a22188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 05/26] fix: inherit the size of the device in the size
 adjustment

A register without a size on any level up to its peripheral was counted with 32
bits, even if the device specifies a size.
---
 src/svdsuite/resolve/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 6d624cc..e7b0ea6 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -441,7 +441,8 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            device_size = cast(SVDDevice, parent.parsed).size
+            return device_size if device_size is not None else 32  # default size for device
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From 94fad5f550b011bb5dad6f5ae543e36a8ba84ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 06/26] fix: tolerate alternatePeripheral and alternateCluster
 naming a missing element

Processing ended in a KeyError if the alternate doesn't exist or was ignored
(e.g. because it is empty), other than for alternateRegister.
---
 src/svdsuite/process.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index a5e1a45..3a652ec 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -766,7 +766,11 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            try:
+                primary = peripheral_lookup[current].alternate_peripheral
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
@@ -976,7 +980,11 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            try:
+                primary = cluster_lookup[current].alternate_cluster
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From 350be332113827894ee49ddee4b08c907d6793a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 07/26] fix: replicate a derive edge once when copying the
 descendants of a base element

A derive edge between two copied elements was added twice, from the original
base and from its copy, but only one was removed when the derived element was
processed. The other one made the derived element look like a child of its
base, so that resolving failed with an AttributeError.
---
 src/svdsuite/resolve/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b152d4c..618571e 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -256,7 +256,8 @@ class ResolverGraph:
         for rx_index in rx_indices_to_replicate:
             # replicate outgoing _EdgeType.PROCESSED and _EdgeType.UNPROCESSED edges
             for _, child_rx_index, edge_type in self._graph.out_edges(rx_index):
-                if child_rx_index not in rx_indices_to_replicate:
+                # edges of type _EdgeType.DERIVE are replicated below
+                if edge_type == EdgeType.DERIVE or child_rx_index not in rx_indices_to_replicate:
                     continue
 
                 self._graph.add_edge(replica_mapping[rx_index], replica_mapping[child_rx_index], edge_type)
-- 
2.43.0


From 04f71b665829c0093fa1692dd6a529a32283e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 08/26] fix: let an element wait for a base element which still
 waits itself

An element whose base was found got processed in the same round even if the
base still waited for a derivedFrom path of its own to become resolvable, so
that resolving failed, depending on the order of the elements, with 'Base
element not found'.
---
 src/svdsuite/resolve/graph.py    |  9 +++++++++
 src/svdsuite/resolve/resolver.py | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 618571e..2d0d756 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -165,6 +165,15 @@ class ResolverGraph:
         # correct type of topological_sorted_nodes for static type checking
         return cast(list[ElementNode], topological_sorted_nodes)
 
+    def get_unprocessed_parents(self, node: ElementNode) -> list[ElementNode]:
+        parents = self._graph.predecessors(self._node_to_rx_index[node])
+
+        return [
+            parent
+            for parent in parents
+            if isinstance(parent, ElementNode) and parent.status == NodeStatus.UNPROCESSED
+        ]
+
     def get_base_element_node(self, derive_node: ElementNode) -> None | ElementNode:
         for parent_rx_index, _, edge_type in self._graph.in_edges(self._node_to_rx_index[derive_node]):
             if edge_type == EdgeType.DERIVE:
diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index e7b0ea6..c6bdee1 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -116,11 +116,22 @@ class Resolver:
 
     def _get_topological_sorted_processable_nodes(self) -> list[ElementNode]:
         processable_nodes = self._find_processable_nodes()
-        topological_sorted_nodes = self._resolver_graph.get_topological_sorted_nodes(processable_nodes)
+        topological_sorted_nodes = self._exclude_nodes_with_pending_parents(
+            self._resolver_graph.get_topological_sorted_nodes(processable_nodes)
+        )
         self._logger.log_processable_elements(topological_sorted_nodes)
 
         return topological_sorted_nodes
 
+    def _exclude_nodes_with_pending_parents(self, topological_sorted_nodes: list[ElementNode]) -> list[ElementNode]:
+        # a base node may itself have to wait for a placeholder, in which case everything based on it has to wait, too
+        result: dict[ElementNode, None] = {}
+        for node in topological_sorted_nodes:
+            if all(parent in result for parent in self._resolver_graph.get_unprocessed_parents(node)):
+                result[node] = None
+
+        return list(result)
+
     def _get_unresolved_placeholders_info(self) -> str:
         return ";".join(
             f"Element: '{node.name}' Level: {node.level}, derive_from_str: {placeholder.derive_path}"
-- 
2.43.0


From 9973cb786f92a9aa22c7f221153640521f10f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 09/26] fix: copy pending placeholders when deriving from a
 resolved dim element

The resolved elements of a dim share the children of the dim template, but
only the template is connected to the placeholders of those children. Deriving
from a resolved element whose descendants still wait for their own base lost
the placeholder, and resolving failed with 'Base node not found'.
---
 src/svdsuite/resolve/graph.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 2d0d756..813354a 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -248,6 +248,9 @@ class ResolverGraph:
                 rx_indices_to_replicate.add(child_rx_index)
                 stack.append(child_rx_index)
 
+                # resolved dim nodes share their children, but only the dim template is connected to the placeholders
+                rx_indices_to_replicate.update(self._get_placeholder_rx_indices(child_rx_index))
+
         # replicate the nodes and map the indicies
         replica_mapping: dict[int, int] = {}
         for rx_index in rx_indices_to_replicate:
@@ -283,6 +286,11 @@ class ResolverGraph:
             if child_rx_index in rx_indices_to_replicate
         ]
 
+        for child_rx_index in list(immediate_children):
+            for placeholder_rx_index in self._get_placeholder_rx_indices(child_rx_index):
+                if placeholder_rx_index not in immediate_children:
+                    immediate_children.append(placeholder_rx_index)
+
         # attach the replicated subgraph to target_node
         target_rx_index = self._node_to_rx_index[target_node]
         for child_rx_index in immediate_children:
@@ -300,6 +308,16 @@ class ResolverGraph:
                     ),
                 )
 
+    def _get_placeholder_rx_indices(self, rx_index: int) -> list[int]:
+        if not isinstance(self._graph[rx_index], ElementNode):
+            return []
+
+        return [
+            parent_rx_index
+            for parent_rx_index, _, edge_type in self._graph.in_edges(rx_index)
+            if edge_type == EdgeType.PLACEHOLDER
+        ]
+
     def get_unprocessed_root_nodes(self) -> list[ElementNode]:
         def filter_function(node: ResolverNode) -> bool:
             return isinstance(node, ElementNode) and node.status == NodeStatus.UNPROCESSED
-- 
2.43.0


From c7be8ef23d6bf88c75f6acd075c36839e0b5c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 10/26] Add a seam for the order of the resolver's pending work

Off by default: only with SVDSUITE_SIM=1 a deterministic simulation can install
its own order.
---
 src/svdsuite/resolve/agenda.py   | 40 ++++++++++++++++++++++++++++++++
 src/svdsuite/resolve/graph.py    |  3 ++-
 src/svdsuite/resolve/resolver.py |  5 +++-
 3 files changed, 46 insertions(+), 2 deletions(-)
 create mode 100644 src/svdsuite/resolve/agenda.py

diff --git a/src/svdsuite/resolve/agenda.py b/src/svdsuite/resolve/agenda.py
new file mode 100644
index 0000000..751330b
--- /dev/null
+++ b/src/svdsuite/resolve/agenda.py
@@ -0,0 +1,40 @@
+"""Seam for deterministic simulation: the order in which the resolver handles its pending work.
+
+The resolver may handle pending placeholders in any order, may process elements in any order which is compatible with
+the dependencies between them, and may stop a round early, because the next round picks up the rest. By default the
+order is left as it is. Only if the environment variable SVDSUITE_SIM is set to 1, a simulator can install its own
+choices.
+"""
+
+import os
+from typing import Any, Callable, Protocol
+
+
+class Agenda(Protocol):
+    def order_placeholders(self, items: list[Any]) -> list[Any]: ...
+    def order_key(self, key: Callable[[Any], str]) -> Callable[[Any], str]: ...
+    def limit_round(self, items: list[Any]) -> list[Any]: ...
+
+
+_agenda: None | Agenda = None
+
+
+def install(agenda: None | Agenda):
+    global _agenda  # pylint: disable=global-statement
+
+    if os.environ.get("SVDSUITE_SIM") != "1":
+        raise RuntimeError("SVDSUITE_SIM is not set to 1")
+
+    _agenda = agenda
+
+
+def order_placeholders[T](items: list[T]) -> list[T]:
+    return items if _agenda is None else _agenda.order_placeholders(items)
+
+
+def order_key(key: Callable[[Any], str]) -> Callable[[Any], str]:
+    return key if _agenda is None else _agenda.order_key(key)
+
+
+def limit_round[T](items: list[T]) -> list[T]:
+    return items if _agenda is None else _agenda.limit_round(items)
diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 813354a..65d1d46 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -5,6 +5,7 @@ import copy
 import rustworkx as rx
 from rustworkx.visualization import graphviz_draw  # pyright: ignore[reportUnknownVariableType]
 
+from svdsuite.resolve import agenda
 from svdsuite.resolve.graph_elements import (
     ResolverNode,
     ElementNode,
@@ -157,7 +158,7 @@ class ResolverGraph:
         )
 
         topological_sorted_nodes = rx.lexicographical_topological_sort(  # pylint: disable=no-member
-            subgraph, key=sort_key
+            subgraph, key=agenda.order_key(sort_key)
         )
 
         del subgraph
diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index c6bdee1..6909248 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -1,6 +1,7 @@
 from typing import cast, TYPE_CHECKING
 import copy
 
+from svdsuite.resolve import agenda
 from svdsuite.resolve.graph import ResolverGraph
 from svdsuite.resolve.graph_builder import GraphBuilder
 from svdsuite.resolve.graph_elements import ElementNode, PlaceholderNode, NodeStatus, EdgeType, ElementLevel
@@ -109,7 +110,8 @@ class Resolver:
         self._logger.log_parent_child_relationships_for_placeholders()
 
     def _resolve_placeholders(self):
-        for placeholder in list(self._resolver_graph.get_placeholders()):  # copy to avoid modifying list while iter.
+        placeholders = list(self._resolver_graph.get_placeholders())  # copy to avoid modifying list while iter.
+        for placeholder in agenda.order_placeholders(placeholders):
             self._resolve_placeholder(placeholder)
 
         self._logger.log_resolve_placeholder_finished()
@@ -119,6 +121,7 @@ class Resolver:
         topological_sorted_nodes = self._exclude_nodes_with_pending_parents(
             self._resolver_graph.get_topological_sorted_nodes(processable_nodes)
         )
+        topological_sorted_nodes = agenda.limit_round(topological_sorted_nodes)
         self._logger.log_processable_elements(topological_sorted_nodes)
 
         return topological_sorted_nodes
-- 
2.43.0


From 8e8dc6224a39dfe440a9596379eecad8d6a266f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 11/26] fix: serialize the position of a field which states
 only a part of it

---
 src/svdsuite/serialize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index dca4b58..e7dc650 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -312,12 +312,17 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        # a derived field may state only a part of its position
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From f8bdbc0d7e1526f4ed9b9f73b58ef3e6ff03f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 12/26] fix: read strings as what they say, whatever encoding
 their XML declaration names

---
 src/svdsuite/map.py            |  2 +-
 src/svdsuite/parse.py          |  2 +-
 src/svdsuite/process.py        |  2 +-
 src/svdsuite/util/xml_parse.py | 12 +++++++++---
 src/svdsuite/validate.py       |  2 +-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..1266a13 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -10,7 +10,7 @@ class PeripheralRegisterMap:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Process.from_xml_content(xml_str.encode(), resolver_logging_file_path).get_processed_device())
+        return cls(Process.from_xml_str(xml_str, resolver_logging_file_path).get_processed_device())
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..479bd7f 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -103,7 +103,7 @@ class Parser:
 
     @staticmethod
     def from_xml_str(xml_str: str):
-        return Parser.from_xml_content(xml_str.encode())
+        return Parser(safe_fromstring(xml_str).getroottree())
 
     @classmethod
     def from_xml_content(cls, content: bytes):
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 3a652ec..65d8515 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -71,7 +71,7 @@ class Process:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Parser.from_xml_content(xml_str.encode()).get_parsed_device(), resolver_logging_file_path)
+        return cls(Parser.from_xml_str(xml_str).get_parsed_device(), resolver_logging_file_path)
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 342d24e..84456bf 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -52,10 +52,16 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     raise original_exception
 
 
-def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
-    # First attempt: no encoding, recover=False.
+def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
+    # A string is decoded already, whatever encoding its XML declaration names.
+    encoding = None
+    if isinstance(content, str):
+        content = content.encode()
+        encoding = "utf-8"
+
+    # First attempt: no (other) encoding, recover=False.
     try:
-        parser = etree.XMLParser(recover=False)
+        parser = etree.XMLParser(encoding=encoding, recover=False)
         root = etree.fromstring(content, parser=parser)
         return root
     except etree.XMLSyntaxError as e:
diff --git a/src/svdsuite/validate.py b/src/svdsuite/validate.py
index 9f18e80..3c695c9 100644
--- a/src/svdsuite/validate.py
+++ b/src/svdsuite/validate.py
@@ -50,7 +50,7 @@ class Validator:
     def validate_xml_str(
         xml_str: str, get_exception: bool = True, schema_version: SVDSchemaVersion = SVDSchemaVersion.get_latest()
     ) -> bool:
-        return Validator.validate_xml_content(xml_str.encode(), get_exception, schema_version)
+        return Validator._validate(safe_fromstring(xml_str).getroottree(), get_exception, schema_version)
 
     @staticmethod
     def _validate(
-- 
2.43.0


From c00e28ff51d3ab467f1c448938b0af0a47dcf80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 13/26] fix: try the fallback encodings for files with invalid
 bytes, too

---
 src/svdsuite/util/xml_parse.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 84456bf..08338f1 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -10,20 +10,32 @@ warnings.formatwarning = custom_warning_format
 _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 
 
+def _parse(
+    path_or_file: str | BinaryIO, encoding: str | None, recover: bool
+) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
+    parser = etree.XMLParser(encoding=encoding, recover=recover)
+    try:
+        return etree.parse(path_or_file, parser=parser)
+    except OSError as e:
+        # Of a file, lxml reports bytes which are invalid in its encoding as a read error.
+        error = parser.error_log.last_error
+        if error is None or error.type != etree.ErrorTypes.ERR_INVALID_ENCODING:
+            raise
+        message = f"{error.message}, line {error.line}, column {error.column}"
+        raise etree.XMLSyntaxError(message, error.type, error.line, error.column, error.filename) from e
+
+
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
-        parser = etree.XMLParser(recover=False)
-        tree = etree.parse(path_or_file, parser=parser)
-        return tree
+        return _parse(path_or_file, None, recover=False)
     except etree.XMLSyntaxError as e:
         original_exception = e
 
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
-            tree = etree.parse(path_or_file, parser=parser)
+            tree = _parse(path_or_file, enc, recover=False)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=False.",
                 ParserWarning,
@@ -35,8 +47,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
-            tree = etree.parse(path_or_file, parser=parser)
+            tree = _parse(path_or_file, enc, recover=True)
             # nothing could be recovered
             if tree.getroot() is None:  # pyright: ignore[reportUnnecessaryComparison]
                 continue
-- 
2.43.0


From 0a9356304eff590f400fdea23b560840c6035e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 14/26] fix: never write a resolver log after the call has
 ended

---
 src/svdsuite/util/html_generator.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/svdsuite/util/html_generator.py b/src/svdsuite/util/html_generator.py
index 26ceb4b..d807181 100644
--- a/src/svdsuite/util/html_generator.py
+++ b/src/svdsuite/util/html_generator.py
@@ -188,9 +188,6 @@ class HTMLGenerator:
         self._body_content = ""
         self._svg_pan_zoom_instances = ""
 
-    def __del__(self):
-        self.generate_html_file()
-
     def add_svg(self, svg_content: str):
         svg_count = next(self._svd_counter)
         self._body_content += self.svg_container_template.replace(
-- 
2.43.0


From cb0ced39cff47f312d1dc2c084ebbc69cd79dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 15/26] fix: an element stated twice, once empty, failed with
 TypeError instead of the warning about it

---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 479bd7f..fef0fe5 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0


From 5147e5cb81febdb578e3b819813482ec619235e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 16/26] fix: a dimIndex that starts like a range but goes on
 failed with ValueError or TypeError

---
 src/svdsuite/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 65d8515..3c02bd2 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1127,14 +1127,14 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
-- 
2.43.0


From 69d222d885c7e1a381dd596c58f5b40f7c0148cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 17/26] fix: a default enumerated value in a field with an MSB
 below its LSB failed with TypeError

---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 3c02bd2..d1cb7d0 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1261,7 +1261,7 @@ class _ProcessEnumeratedValueContainer:
         self, enumerated_values: list[IEnumeratedValue], default: IEnumeratedValue, lsb: int, msb: int
     ) -> list[IEnumeratedValue]:
         covered_values = {value.value for value in enumerated_values if value.value is not None}
-        all_possible_values = set(range(pow(2, msb - lsb + 1)))
+        all_possible_values = set(range(pow(2, max(0, msb - lsb + 1))))
 
         uncovered_values = all_possible_values - covered_values
 
-- 
2.43.0


From 7700bed4264f53d8fbe5470e1cc28a4604ee18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 18/26] fix: the address range of a peripheral in the register
 map missed the end of a block that contains the last one

---
 src/svdsuite/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index 1266a13..14cf2a5 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -84,6 +84,6 @@ class PeripheralRegisterMap:
             raise ValueError("Address blocks are empty")
 
         begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
 
         return (begin, end)
-- 
2.43.0


From 2036a70abd955a2c78f636ff2cb3a00bd34af088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 19/26] fix: whether a path to a register with like-named
 alternates in groups is bound depended on the order of declaration

---
 src/svdsuite/resolve/resolver.py | 46 +++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 6909248..fe11a46 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -310,35 +310,49 @@ class Resolver:
                     )
                     matches.extend(child_matches)
 
-                if len(matches) > 1:
-                    filtered_matches = [
-                        match
-                        for match in matches
-                        if isinstance(match.processed, IRegister) and match.processed.alternate_group is None
-                    ]
-                    if len(filtered_matches) == 1:
-                        return filtered_matches
-
-                    # More than one match found – raise exception immediately
-                    raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
-
             return matches
 
         # Search in same scope
         siblings = self._resolver_graph.get_element_siblings(derived_node)
         matches = search_nodes(siblings, derive_path_parts, derived_node, level)
-        if len(matches) == 1:
-            return matches[0]
+        if matches:
+            return self._select_base_node(matches, derive_path)
 
         # If not found, search over all peripherals
         peripherals = self._resolver_graph.get_element_childrens(self._root_node)
         matches = search_nodes(peripherals, derive_path_parts, derived_node, level)
-        if len(matches) == 1:
-            return matches[0]
+        if matches:
+            return self._select_base_node(matches, derive_path)
 
         # No matches found
         return None
 
+    def _select_base_node(self, matches: list[ElementNode], derive_path: str) -> None | ElementNode:
+        if len(matches) == 1:
+            return matches[0]
+
+        # Registers in alternate groups may share their name with the one register which is not in a group
+        filtered_matches: list[ElementNode] = []
+        for match in matches:
+            if not isinstance(match.parsed, SVDRegister):
+                continue
+
+            if isinstance(match.processed_or_none, IRegister):
+                alternate_group = match.processed_or_none.alternate_group
+            else:
+                alternate_group = match.parsed.alternate_group
+                if alternate_group is None and match.parsed.derived_from is not None:
+                    # The group may be inherited, hence it is not known before the register is processed
+                    return None
+
+            if alternate_group is None:
+                filtered_matches.append(match)
+
+        if len(filtered_matches) == 1:
+            return filtered_matches[0]
+
+        raise ResolveException(f"Multiple base nodes found for derive path '{derive_path}'")
+
     def _is_placeholder_parent_resolved(self, placeholder: PlaceholderNode) -> bool:
         parent = self._resolver_graph.get_placeholder_parent(placeholder)
 
-- 
2.43.0


From 6a059918f2dd2c532a07538cf005a1bae0c0df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 20/26] fix: name the elements in the message about an
 inheritance cycle

The message contained the default representation of the node objects, hence
their memory addresses, and was another one in every process.
---
 src/svdsuite/resolve/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 65d1d46..6b73bb1 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -39,7 +39,8 @@ class ResolverGraph:
         try:
             self._graph.add_edge(self._node_to_rx_index[parent], self._node_to_rx_index[child], edge_type)
         except rx.DAGWouldCycle as exc:  # pylint: disable=no-member
-            message = f"Inheritance cycle detected for parent node '{parent}' and child node {child}"
+            child_name = child.name if isinstance(child, ElementNode) else child.derive_path
+            message = f"Inheritance cycle detected for parent node '{parent.name}' and child node '{child_name}'"
             raise ResolverGraphException(message) from exc
 
     def add_placeholder(self, placeholder: PlaceholderNode, derivation_node: ElementNode):
-- 
2.43.0


From 6e4f19041a9a8694347521992d2b40b34e8dbf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 21/26] fix: Do not take elements derived from the parent for
 siblings in path resolution

---
 src/svdsuite/resolve/graph.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 6b73bb1..df3b0dc 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -111,17 +111,8 @@ class ResolverGraph:
         # hence, the first parent suffices to find siblings
         parent = parents[0]
 
-        siblings: list[ElementNode] = []
-        for child in self._graph.successors(self._node_to_rx_index[parent]):
-            if not isinstance(child, ElementNode):
-                continue
-
-            if child == node:
-                continue
-
-            siblings.append(child)
-
-        return siblings
+        # only children are siblings, but not elements which are derived from the parent
+        return [child for child in self.get_element_childrens(parent) if child != node]
 
     def remove_placeholder(self, placeholder: PlaceholderNode):
         self._remove_node(placeholder)
-- 
2.43.0


From dbfa0ff90f2c5f5b6a94458b04bcce79d9e0eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 22/26] fix: Wait for siblings which may match a derive path
 later instead of matching other peripherals

---
 src/svdsuite/resolve/resolver.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index fe11a46..6d21f89 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -289,6 +289,31 @@ class Resolver:
         derive_path_parts = derive_path.split(".")
         level = derived_node.level
 
+        def may_match_later(nodes: list[ElementNode], path_parts: list[str]) -> bool:
+            # Unprocessed dim templates have yet to be expanded, and unprocessed derived clusters have yet to inherit
+            # their children
+            is_final_part = len(path_parts) == 1
+            for node in nodes:
+                if node == derived_node or node.name is None:
+                    continue
+                if node.level != (level if is_final_part else ElementLevel.CLUSTER):
+                    continue
+
+                is_unprocessed = node.status == NodeStatus.UNPROCESSED
+                if node.name == path_parts[0]:
+                    if is_final_part:
+                        continue
+                    if is_unprocessed and getattr(node.parsed, "derived_from", None) is not None:
+                        return True
+                    if may_match_later(self._resolver_graph.get_element_childrens(node), path_parts[1:]):
+                        return True
+                elif is_unprocessed:
+                    prefix, dim_placeholder, suffix = node.name.replace("[%s]", "%s").partition("%s")
+                    if dim_placeholder and path_parts[0].startswith(prefix) and path_parts[0].endswith(suffix):
+                        return True
+
+            return False
+
         def search_nodes(
             nodes: list[ElementNode], path_parts: list[str], exclude_node: ElementNode, target_level: ElementLevel
         ) -> list[ElementNode]:
@@ -318,6 +343,10 @@ class Resolver:
         if matches:
             return self._select_base_node(matches, derive_path)
 
+        # The same scope takes precedence, hence wait for siblings which may contain a match after they are processed
+        if may_match_later(siblings, derive_path_parts):
+            return None
+
         # If not found, search over all peripherals
         peripherals = self._resolver_graph.get_element_childrens(self._root_node)
         matches = search_nodes(peripherals, derive_path_parts, derived_node, level)
-- 
2.43.0


From b52dc8684d2efb20b1304ce066157c57257268c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 23/26] fix: Respect indirect alternates in overlap warnings
 whichever of the two is the alternate

---
 src/svdsuite/process.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index d1cb7d0..f5e45f3 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -712,11 +712,11 @@ class _ValidateAndFinalize:
                                 ProcessWarning,
                             )
                     else:
-                        existing_peripheral = peripheral_lookup[name]
-                        if (
-                            not existing_peripheral.alternate_peripheral
-                            or existing_peripheral.alternate_peripheral != periph.name
-                        ):
+                        # Which one is declared as alternate must not matter, also for indirect alternates
+                        existing_allowed_names = self._compute_allowed_alternate_peripheral_names(
+                            peripheral_lookup[name], peripheral_lookup
+                        )
+                        if periph.name not in existing_allowed_names:
                             warnings.warn(
                                 f"Effective peripheral address overlap: '{periph.name}' overlaps with '{name}'",
                                 ProcessWarning,
@@ -734,11 +734,11 @@ class _ValidateAndFinalize:
                                 ProcessWarning,
                             )
                     else:
-                        existing_peripheral = peripheral_lookup[name]
-                        if (
-                            not existing_peripheral.alternate_peripheral
-                            or existing_peripheral.alternate_peripheral != periph.name
-                        ):
+                        # Which one is declared as alternate must not matter, also for indirect alternates
+                        existing_allowed_names = self._compute_allowed_alternate_peripheral_names(
+                            peripheral_lookup[name], peripheral_lookup
+                        )
+                        if periph.name not in existing_allowed_names:
                             warnings.warn(
                                 f"Specified peripheral address overlap in address_blocks: '{periph.name}' "
                                 f"overlaps with '{name}'",
@@ -903,14 +903,10 @@ class _ValidateAndFinalize:
             # Set type-specific variables.
             if isinstance(item, Register):
                 allowed_names = self._compute_allowed_alternate_register_names(item, register_lookup)
-                lookup = register_lookup
-                alt_attr = "alternate_register"
                 type_label = "Register"
                 end_addr = item.base_address + _to_byte(item.size) - 1
             else:
                 allowed_names = self._compute_allowed_alternate_cluster_names(item, cluster_lookup)
-                lookup = cluster_lookup
-                alt_attr = "alternate_cluster"
                 type_label = "Cluster"
                 end_addr = item.end_address
 
@@ -925,8 +921,18 @@ class _ValidateAndFinalize:
                                 ProcessWarning,
                             )
                     else:
-                        alt_value = getattr(lookup.get(name, None), alt_attr, None)
-                        if alt_value != item.name:
+                        # Which one is declared as alternate must not matter, also for indirect alternates
+                        existing_allowed_names: set[str] = set()
+                        if isinstance(item, Register) and name in register_lookup:
+                            existing_allowed_names = self._compute_allowed_alternate_register_names(
+                                register_lookup[name], register_lookup
+                            )
+                        elif isinstance(item, Cluster) and name in cluster_lookup:
+                            existing_allowed_names = self._compute_allowed_alternate_cluster_names(
+                                cluster_lookup[name], cluster_lookup
+                            )
+
+                        if item.name not in existing_allowed_names:
                             warnings.warn(
                                 f"{type_label} '{item.name}' overlaps with '{name}'",
                                 ProcessWarning,
-- 
2.43.0


From 4cb563572c939a10299f47c0663d46116d151870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 24/26] fix: Do not cut off a text at a comment or processing
 instruction within it

---
 src/svdsuite/util/xml_parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 08338f1..d7671da 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -10,10 +10,15 @@ warnings.formatwarning = custom_warning_format
 _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 
 
+def _xml_parser(encoding: str | None, recover: bool) -> etree.XMLParser:
+    # Comments and processing instructions are no content: without them, a text which contains one stays in one piece.
+    return etree.XMLParser(encoding=encoding, recover=recover, remove_comments=True, remove_pis=True)
+
+
 def _parse(
     path_or_file: str | BinaryIO, encoding: str | None, recover: bool
 ) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
-    parser = etree.XMLParser(encoding=encoding, recover=recover)
+    parser = _xml_parser(encoding, recover)
     try:
         return etree.parse(path_or_file, parser=parser)
     except OSError as e:
@@ -72,7 +77,7 @@ def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[
 
     # First attempt: no (other) encoding, recover=False.
     try:
-        parser = etree.XMLParser(encoding=encoding, recover=False)
+        parser = _xml_parser(encoding, recover=False)
         root = etree.fromstring(content, parser=parser)
         return root
     except etree.XMLSyntaxError as e:
@@ -81,7 +86,7 @@ def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
+            parser = _xml_parser(enc, recover=False)
             root = etree.fromstring(content, parser=parser)
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=False.",
@@ -94,7 +99,7 @@ def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
+            parser = _xml_parser(enc, recover=True)
             root = etree.fromstring(content, parser=parser)
             # nothing could be recovered
             if root is None:  # pyright: ignore[reportUnnecessaryComparison]
-- 
2.43.0


From 5d063ffbbdd4101ff507b9867cd0b3982a990453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 25/26] fix: Set the parent of a converted write constraint

---
 src/svdsuite/util/process_parse_model_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..db8763c 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -183,6 +183,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
         parent=None,  # set by parent register
     )
 
+    if svd_field.write_constraint is not None:
+        svd_field.write_constraint.parent = svd_field
+
     for container in enumerated_value_containers:
         container.parent = svd_field
 
@@ -215,6 +218,9 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
         parent=None,  # set by parent cluster or peripheral
     )
 
+    if svd_register.write_constraint is not None:
+        svd_register.write_constraint.parent = svd_register
+
     for field in fields:
         field.parent = svd_register
 
-- 
2.43.0


From 463180c9beda1983a78b2c2b27288c3896987a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 26/26] fix: refuse a bitRange that is followed by something
 else

'[7:0]5' was read as '[7:0]', silently.
---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index f5e45f3..a604ebf 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -438,7 +438,7 @@ class Process:
 
         if parsed_field.bit_range is not None:
             if bit_range is not None:
-                match = re.match(r"\[(\d+):(\d+)\]", bit_range)
+                match = re.fullmatch(r"\[(\d+):(\d+)\]", bit_range)
                 if match:
                     field_msb, field_lsb = map(int, match.groups())
 
-- 
2.43.0

