From 99d6c136a1efa5bed22feea2c9156cb3381c1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:58 +0000
Subject: [PATCH 01/47] fix: import sequence flows whose conditionExpression
 element is empty

---
 bpmn_python/bpmn_diagram_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..27e53f9 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -738,7 +738,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
-                    condition_expression = element.firstChild.nodeValue
+                    condition_expression = element.firstChild.nodeValue if element.firstChild is not None else ""
                     diagram_graph[source_ref][target_ref][consts.Consts.condition_expression] = {
                         consts.Consts.id: element.getAttribute(consts.Consts.id),
                         consts.Consts.condition_expression: condition_expression
-- 
2.43.0


From fe185a11ac9a9450099b763a66b59eb6c96e2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:58 +0000
Subject: [PATCH 02/47] fix: skip comments and processing instructions when
 importing XML

---
 bpmn_python/bpmn_import_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index a0cd3d8..2da200e 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -32,7 +32,8 @@ class BpmnImportUtils(object):
         """
         element = parent.firstChild
         while element is not None:
-            yield element
+            if element.nodeType not in (element.COMMENT_NODE, element.PROCESSING_INSTRUCTION_NODE):
+                yield element
             element = element.nextSibling
 
     @staticmethod
-- 
2.43.0


From 1e64a20642e6627fb93284310228ba3d906c8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:58 +0000
Subject: [PATCH 03/47] fix: export the name of a process

---
 bpmn_python/bpmn_diagram_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..1720400 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -221,6 +221,7 @@ class BpmnDiagramGraphExport(object):
         """
         process = eTree.SubElement(definitions, consts.Consts.process)
         process.set(consts.Consts.id, process_id)
+        process.set(consts.Consts.name, process_attributes_dictionary.get(consts.Consts.name, ""))
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
-- 
2.43.0


From e8da221099b4207823634672b0f4cf977891d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:58 +0000
Subject: [PATCH 04/47] fix: do not overwrite the name of a conditional
 sequence flow on export

---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 1720400..e623426 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -395,7 +395,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if not params[consts.Consts.name]:
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From 76ece122fa8cf00466b478ae1cf3b1d22649cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:58 +0000
Subject: [PATCH 05/47] fix: export child lane sets as childLaneSet so that
 they can be read back

---
 bpmn_python/bpmn_diagram_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index e623426..5dfe79c 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -250,7 +250,7 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From dfa2646c554f78b981ee20b9783c5c587b31565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:58 +0000
Subject: [PATCH 06/47] fix: export the ids of lane sets

---
 bpmn_python/bpmn_diagram_export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 5dfe79c..030ed76 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -238,6 +238,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        if lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -251,6 +253,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        if child_lane_set.get(consts.Consts.id):
+            lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From 76281f021f976f48ffaa324605bb9368b0abc47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:58 +0000
Subject: [PATCH 07/47] fix: export every node and flow once, in its own
 process, when exporting without DI

---
 bpmn_python/bpmn_diagram_export.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 030ed76..53f17db 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -528,7 +528,6 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
@@ -537,14 +536,14 @@ class BpmnDiagramGraphExport(object):
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From 87bd1c53c927a90c1fb7f3a4f2d5b5bc680d5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:20 +0000
Subject: [PATCH 08/47] fix: export one shape per participant and one edge per
 message flow

---
 bpmn_python/bpmn_diagram_export.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 53f17db..acf4384 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -503,12 +503,16 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # shapes of participants have been exported with the collaboration
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
             params = flow[2]
-            BpmnDiagramGraphExport.export_flow_di_data(params, plane)
+            # edges of message flows have been exported with the collaboration
+            if params[consts.Consts.id] not in (collaboration or {}).get(consts.Consts.message_flows, {}):
+                BpmnDiagramGraphExport.export_flow_di_data(params, plane)
 
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
-- 
2.43.0


From adcfa4e0a9521e974218f95e699a66c3f00d609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:57 +0000
Subject: [PATCH 09/47] fix: reject an invalid gateway direction before the
 gateway is added to the diagram

---
 bpmn_python/bpmn_diagram_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..e7be201 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
                                                  + gateway_direction)
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
 
-- 
2.43.0


From 2019c34aecc047aaf2d72ffe30ebadd805ac3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:57 +0000
Subject: [PATCH 10/47] fix: count all nodes when get_nodes_count is called
 without a type

---
 bpmn_python/bpmn_diagram_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 2d460b8..7a9e08b 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -23,7 +23,7 @@ def get_nodes_count(bpmn_graph, node_type=None):
                       (e.g. 'task', 'sequenceFlow').
     """
 
-    return len(bpmn_graph.get_nodes(node_type=node_type))
+    return len(bpmn_graph.get_nodes(node_type=node_type or ""))
 
 
 def get_all_gateways(bpmn_graph):
-- 
2.43.0


From ebc16cf862a7314aa81f96841f31709bcd3835df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:57 +0000
Subject: [PATCH 11/47] fix: average metrics of diagrams without gateways or
 nodes are 0 instead of an error

---
 bpmn_python/bpmn_diagram_metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 7a9e08b..e22bf87 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -273,6 +273,8 @@ def CoefficientOfNetworkComplexity_metric(bpmn_graph):
     :param bpmn_graph: an instance of BpmnDiagramGraph representing BPMN model.
     """
 
+    if not len(bpmn_graph.get_nodes()):
+        return 0.0
     return float(len(bpmn_graph.get_flows())) / float(len(bpmn_graph.get_nodes()))
 
 
@@ -289,6 +291,8 @@ def AverageGatewayDegree_metric(bpmn_graph):
     all_nodes_degrees = bpmn_graph.diagram_graph.degree()
     gateways_degree_values = [all_nodes_degrees[gateway_id] for gateway_id in gateways_ids]
 
+    if not gateways_degree_values:
+        return 0.0
     return float(sum(gateways_degree_values)) / float(len(gateways_degree_values))
 
 
-- 
2.43.0


From cf25c38017a1fc1b49abec4b86c6d48e808ce253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:57 +0000
Subject: [PATCH 12/47] fix: do not count a node with a self loop twice on the
 longest path

---
 bpmn_python/diagram_layout_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index 0b23a0b..f5bd1f7 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -217,7 +217,7 @@ def find_longest_path(previous_nodes, node, bpmn_graph):
         for outgoing_flow_id in outgoing_flows_list:
             flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
             outgoing_node = bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref])
-            if outgoing_node not in previous_nodes:
+            if outgoing_node not in tmp_previous_nodes:
                 (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                 if output_path_len > len(longest_path):
                     longest_path = output_path
@@ -278,7 +278,7 @@ def find_longest_path_tasks(path, qualified_nodes, node, bpmn_graph):
             if node[1]["type"] in node_names:
                 tmp_qualified_nodes.append(node)
 
-            if outgoing_node not in path:
+            if outgoing_node not in tmp_path:
                 (path_all_nodes, path_qualified_nodes) = find_longest_path_tasks(tmp_path, tmp_qualified_nodes,
                                                                                  outgoing_node, bpmn_graph)
                 if len(path_qualified_nodes) > len(longest_qualified_nodes):
-- 
2.43.0


From 269b2b78fc481643ec32fac351b6aa7184acc727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:25 +0000
Subject: [PATCH 13/47] fix: import the element classes from the bpmn_python
 package

They imported a top-level package 'graph' that an installation does not have, except for one import of
bpmn_python.graph: where both were importable, nodes were no FlowElement for set_flow_element_list.
---
 bpmn_python/graph/classes/activities/activity_type.py       | 2 +-
 bpmn_python/graph/classes/activities/subprocess_type.py     | 6 +++---
 bpmn_python/graph/classes/activities/task_type.py           | 2 +-
 bpmn_python/graph/classes/events/catch_event_type.py        | 4 ++--
 bpmn_python/graph/classes/events/end_event_type.py          | 2 +-
 bpmn_python/graph/classes/events/event_type.py              | 2 +-
 .../graph/classes/events/intermediate_catch_event_type.py   | 2 +-
 .../graph/classes/events/intermediate_throw_event_type.py   | 2 +-
 bpmn_python/graph/classes/events/start_event_type.py        | 2 +-
 bpmn_python/graph/classes/events/throw_event_type.py        | 4 ++--
 bpmn_python/graph/classes/flow_element_type.py              | 2 +-
 .../graph/classes/gateways/exclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/gateway_type.py          | 2 +-
 .../graph/classes/gateways/inclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/parallel_gateway_type.py | 2 +-
 bpmn_python/graph/classes/lane_set_type.py                  | 4 ++--
 bpmn_python/graph/classes/lane_type.py                      | 4 ++--
 bpmn_python/graph/classes/message_flow_type.py              | 2 +-
 bpmn_python/graph/classes/participant_type.py               | 2 +-
 .../graph/classes/root_element/callable_element_type.py     | 2 +-
 .../graph/classes/root_element/event_definition_type.py     | 2 +-
 bpmn_python/graph/classes/root_element/process_type.py      | 6 +++---
 bpmn_python/graph/classes/root_element/root_element_type.py | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py             | 4 ++--
 24 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/bpmn_python/graph/classes/activities/activity_type.py b/bpmn_python/graph/classes/activities/activity_type.py
index 699a921..89b69ad 100644
--- a/bpmn_python/graph/classes/activities/activity_type.py
+++ b/bpmn_python/graph/classes/activities/activity_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tActivity of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Activity(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/activities/subprocess_type.py b/bpmn_python/graph/classes/activities/subprocess_type.py
index d527af4..de6e225 100644
--- a/bpmn_python/graph/classes/activities/subprocess_type.py
+++ b/bpmn_python/graph/classes/activities/subprocess_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tSubProcess of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class SubProcess(activity.Activity):
diff --git a/bpmn_python/graph/classes/activities/task_type.py b/bpmn_python/graph/classes/activities/task_type.py
index 56dee3d..0ab5d42 100644
--- a/bpmn_python/graph/classes/activities/task_type.py
+++ b/bpmn_python/graph/classes/activities/task_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tTask of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.activities.activity_type as activity
 
 
 class Task(activity.Activity):
diff --git a/bpmn_python/graph/classes/events/catch_event_type.py b/bpmn_python/graph/classes/events/catch_event_type.py
index 46a0ebc..f993ad5 100644
--- a/bpmn_python/graph/classes/events/catch_event_type.py
+++ b/bpmn_python/graph/classes/events/catch_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class CatchEvent(event.Event):
diff --git a/bpmn_python/graph/classes/events/end_event_type.py b/bpmn_python/graph/classes/events/end_event_type.py
index 79377e3..75c81c5 100644
--- a/bpmn_python/graph/classes/events/end_event_type.py
+++ b/bpmn_python/graph/classes/events/end_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEndEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class EndEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/event_type.py b/bpmn_python/graph/classes/events/event_type.py
index 491fb19..504823c 100644
--- a/bpmn_python/graph/classes/events/event_type.py
+++ b/bpmn_python/graph/classes/events/event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEvent of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Event(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
index 5e9b711..bcaf31e 100644
--- a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class IntermediateCatchEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
index 6276dd7..130c479 100644
--- a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class IntermediateThrowEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/start_event_type.py b/bpmn_python/graph/classes/events/start_event_type.py
index d129876..28fb25f 100644
--- a/bpmn_python/graph/classes/events/start_event_type.py
+++ b/bpmn_python/graph/classes/events/start_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tStartEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class StartEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/throw_event_type.py b/bpmn_python/graph/classes/events/throw_event_type.py
index 6b3ae4b..da7d9a4 100644
--- a/bpmn_python/graph/classes/events/throw_event_type.py
+++ b/bpmn_python/graph/classes/events/throw_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class ThrowEvent(event.Event):
diff --git a/bpmn_python/graph/classes/flow_element_type.py b/bpmn_python/graph/classes/flow_element_type.py
index 6a78189..977c952 100644
--- a/bpmn_python/graph/classes/flow_element_type.py
+++ b/bpmn_python/graph/classes/flow_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tFlowElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class FlowElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
index 7258dd1..02af765 100644
--- a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ExclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/gateway_type.py b/bpmn_python/graph/classes/gateways/gateway_type.py
index 119e636..b65aadd 100644
--- a/bpmn_python/graph/classes/gateways/gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tGateway of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Gateway(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
index 8995d42..2ca9876 100644
--- a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class InclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
index 1d9e143..d24bd6b 100644
--- a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParallelGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ParallelGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/lane_set_type.py b/bpmn_python/graph/classes/lane_set_type.py
index b8869f9..f68c6bb 100644
--- a/bpmn_python/graph/classes/lane_set_type.py
+++ b/bpmn_python/graph/classes/lane_set_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSetLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_type as lane
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_type as lane
 
 
 class LaneSet(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/lane_type.py b/bpmn_python/graph/classes/lane_type.py
index d61e7a2..c9c432c 100644
--- a/bpmn_python/graph/classes/lane_type.py
+++ b/bpmn_python/graph/classes/lane_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class Lane(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 50aee47..fdfe72c 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tMessageFlow of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class MessageFlow(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index a71fd7d..b87e6a0 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParticipant of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class Participant(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/root_element/callable_element_type.py b/bpmn_python/graph/classes/root_element/callable_element_type.py
index c1f1daa..f3c0819 100644
--- a/bpmn_python/graph/classes/root_element/callable_element_type.py
+++ b/bpmn_python/graph/classes/root_element/callable_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tCallableElement of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class CallableElement(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/event_definition_type.py b/bpmn_python/graph/classes/root_element/event_definition_type.py
index ef8020d..091f66d 100644
--- a/bpmn_python/graph/classes/root_element/event_definition_type.py
+++ b/bpmn_python/graph/classes/root_element/event_definition_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEventDefinition of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class EventDefinition(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/process_type.py b/bpmn_python/graph/classes/root_element/process_type.py
index a169eb7..6fdf24e 100644
--- a/bpmn_python/graph/classes/root_element/process_type.py
+++ b/bpmn_python/graph/classes/root_element/process_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tProcess of BPMN 2.0 graph
 """
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
-import graph.classes.root_element.callable_element_type as callable_element
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.root_element.callable_element_type as callable_element
 
 
 class Process(callable_element.CallableElement):
diff --git a/bpmn_python/graph/classes/root_element/root_element_type.py b/bpmn_python/graph/classes/root_element/root_element_type.py
index cf730f2..f047bea 100644
--- a/bpmn_python/graph/classes/root_element/root_element_type.py
+++ b/bpmn_python/graph/classes/root_element/root_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tRootElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class RootElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 1c8fa00..653de83 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSequenceFlow of BPMN 2.0 graph
 """
-import graph.classes.condition_expression_type as condition_expression
-import graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.condition_expression_type as condition_expression
+import bpmn_python.graph.classes.flow_element_type as flow_element
 
 
 class SequenceFlow(flow_element.FlowElement):
-- 
2.43.0


From 7b2e81561393648f499339f2d9f450ec2b74854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:25 +0000
Subject: [PATCH 14/47] fix: let the setters of optional attributes of element
 classes accept None as documented

---
 bpmn_python/graph/classes/base_element_type.py  | 2 +-
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/participant_type.py   | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/graph/classes/base_element_type.py b/bpmn_python/graph/classes/base_element_type.py
index 55f7e02..e3b8e9f 100644
--- a/bpmn_python/graph/classes/base_element_type.py
+++ b/bpmn_python/graph/classes/base_element_type.py
@@ -32,7 +32,7 @@ class BaseElement(object):
         """
         if value is None:
             self.__id = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("ID must be set to a String")
         else:
             self.__id = value
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index fdfe72c..b6f9893 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -100,7 +100,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if value is None:
             self.__message_ref = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("MessageRef must be set to a String")
         else:
             self.__message_ref = value
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index b87e6a0..82e1454 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -55,6 +55,6 @@ class Participant(base_element.BaseElement):
         :param value - a new value of 'process_ref' field. Must be either None (process_ref is optional according to
         BPMN 2.0 XML Schema) or String.
         """
-        if not isinstance(value, str):
+        if value is not None and not isinstance(value, str):
             raise TypeError("ProcessRef must be set to a String")
         self.__process_ref = value
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 653de83..8d4ae38 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -100,7 +100,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if value is None:
             self.__condition_expression = value
-        if not isinstance(value, condition_expression.ConditionExpression):
+        elif not isinstance(value, condition_expression.ConditionExpression):
             raise TypeError("ConditionExpression must be set to an instance of class ConditionExpression")
         else:
             self.__condition_expression = value
-- 
2.43.0


From 6849afa02e9c59baebc293480bd39fdd4a77a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:25 +0000
Subject: [PATCH 15/47] fix: check the type of target_ref in the constructors
 of flows

---
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index b6f9893..f4b0ebd 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -22,7 +22,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(MessageFlow, self).__init__()
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 8d4ae38..29349ec 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -23,7 +23,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(SequenceFlow, self).__init__()
-- 
2.43.0


From c33edcda503dbb4644a9f01982a114fcb161a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:17 +0000
Subject: [PATCH 16/47] fix: insert a new grid row instead of adding a text to
 the row number when a cell is occupied

---
 bpmn_python/bpmn_diagram_layouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..be0932e 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -369,7 +369,7 @@ def insert_into_grid(grid, row, col, node_id):
     if occupied_cell:
         for grid_cell in grid:
             if grid_cell.row >= row:
-                grid_cell.row += consts.Consts.width
+                grid_cell.row += consts.Consts.grid_column_width
     grid.append(cell_class.GridCell(row, col, node_id))
 
 
-- 
2.43.0


From db057184d0f0306a95cfa79b24f03e9de28c2a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:30 +0000
Subject: [PATCH 17/47] fix: place joins after all their predecessors and each
 successor of a split once when generating a layout

---
 bpmn_python/bpmn_diagram_layouter.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index be0932e..f6dd5d7 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -300,9 +300,13 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         for flow_id in outgoing_flows:
             flow = bpmn_graph.get_flow_by_id(flow_id)
             successors_id_list.append(flow[2][consts.Consts.target_ref])
-        num_of_successors = len(successors_id_list)
+        # a Join is placed later, when all its predecessors are on the grid
         successor_node_list = [successor_node for successor_node in nodes_with_classification
-                                      if successor_node[node_param_name][0] in successors_id_list]
+                               if successor_node[node_param_name][0] in successors_id_list
+                               and "Join" not in successor_node[classification_param_name]]
+        num_of_successors = len(successor_node_list)
+        for successor_node in successor_node_list:
+            nodes_with_classification.remove(successor_node)
 
         if num_of_successors % 2 != 0:
             # if number of successors is even, put one half over the split, second half below
@@ -314,19 +318,14 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + ((index + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
-
             successor_node = successor_node_list[centre]
             (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                bpmn_graph,nodes_with_classification, current_element_row)
-            nodes_with_classification.remove(successor_node)
             for index in range(centre + 1, num_of_successors):
                 # place element below split
                 successor_node = successor_node_list[index]
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre) * consts.Consts.grid_column_width))
-
-                nodes_with_classification.remove(successor_node)
         else:
             centre = (num_of_successors // 2)
             for index in range(0, centre):
@@ -335,8 +334,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + (index + 1) * consts.Consts.grid_column_width)
 
-                nodes_with_classification.remove(successor_node)
-
 
             for index in range(centre, num_of_successors):
                 # place element below split
@@ -344,8 +341,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
-
 
     return grid, last_row, last_col
 
-- 
2.43.0


From 658c0851e9c3a080e64098ece5ee46ec3c9c4206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:30 +0000
Subject: [PATCH 18/47] fix: include nodes of all types in the layout

---
 bpmn_python/bpmn_diagram_layouter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index f6dd5d7..e818f17 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -134,6 +134,16 @@ def generate_elements_clasification(bpmn_graph):
             tmp.append(classification_split)
         nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
 
+    classified_nodes = [classified[node_param_name][0] for classified in nodes_classification]
+    for element in bpmn_graph.get_nodes():
+        if element[0] not in classified_nodes:
+            tmp = [classification_element]
+            if len(element[1][consts.Consts.incoming_flow]) >= 2:
+                tmp.append(classification_join)
+            if len(element[1][consts.Consts.outgoing_flow]) >= 2:
+                tmp.append(classification_split)
+            nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
+
     flows_classification = []
     flows_list = bpmn_graph.get_flows()
     for flow in flows_list:
-- 
2.43.0


From 45e47c881414d1e403bdc6c5c1f59f0cea2674b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:30 +0000
Subject: [PATCH 19/47] fix: generate a layout for cycles without an entry and
 a join instead of looping forever

---
 bpmn_python/bpmn_diagram_layouter.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index e818f17..f75119d 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -196,8 +196,10 @@ def topological_sort(bpmn_graph, nodes_with_classification):
                                   if tmp_node[node_param_name][0] == target_id)
                     target[1][consts.Consts.incoming_flow].remove(flow_id)
         else:
-            for node_with_classification in tmp_nodes_with_classification:
-                if "Join" in node_with_classification[classification_param_name]:
+            # only cycles are left, cut them in front of their Joins (or anywhere, if there is no Join)
+            has_join = any("Join" in tmp_node[classification_param_name] for tmp_node in tmp_nodes_with_classification)
+            for node_with_classification in tmp_nodes_with_classification[:None if has_join else 1]:
+                if "Join" in node_with_classification[classification_param_name] or not has_join:
                     incoming_list = list(node_with_classification[node_param_name][1][consts.Consts.incoming_flow])
                     tmp_incoming_list = list(incoming_list)
                     for flow_id in tmp_incoming_list:
@@ -273,10 +275,16 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         flow_id = incoming_flows[0]
         flow = bpmn_graph.get_flow_by_id(flow_id)
         predecessor_id = flow[2][consts.Consts.source_ref]
-        predecessor_cell = next(grid_cell for grid_cell in grid if grid_cell.node_id == predecessor_id)
-        # insert into cell right from predecessor - no need to insert new column or row
-        current_element_col = predecessor_cell.col + 1
-        current_element_row = predecessor_cell.row
+        predecessor_cell = next((grid_cell for grid_cell in grid if grid_cell.node_id == predecessor_id), None)
+        if predecessor_cell is not None:
+            # insert into cell right from predecessor - no need to insert new column or row
+            current_element_col = predecessor_cell.col + 1
+            current_element_row = predecessor_cell.row
+        else:
+            # the flow was cut to break a cycle, put the node in new row
+            current_element_col = last_col
+            current_element_row = last_row
+            last_row += consts.Consts.grid_column_width
         if enforced_row_num is not None:
             insert_into_grid(grid, enforced_row_num, current_element_col, node_id)
         else:
-- 
2.43.0


From 74400af8f0854f2a51541ec33cdd2e1d5351833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:30 +0000
Subject: [PATCH 20/47] fix: give nodes of pools without a process the
 attributes every node has

---
 bpmn_python/bpmn_diagram_import.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 27e53f9..e0caa1d 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -108,6 +108,10 @@ class BpmnDiagramGraphImport(object):
             diagram_graph.add_node(participant_id)
             diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
             diagram_graph.node[participant_id][consts.Consts.process] = participant_id
+            diagram_graph.node[participant_id][consts.Consts.id] = participant_id
+            diagram_graph.node[participant_id][consts.Consts.node_name] = name
+            diagram_graph.node[participant_id][consts.Consts.incoming_flow] = []
+            diagram_graph.node[participant_id][consts.Consts.outgoing_flow] = []
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
     @staticmethod
-- 
2.43.0


From d7556644d94b6acf654a2f6e5cb86e9f7d1d35f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 21/47] fix: quote texts with commas, quotes and line breaks in
 exported CSV files

---
 bpmn_python/bpmn_process_csv_export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..fc2c3c6 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+import csv
 import errno
 import os
 import string
@@ -292,8 +293,8 @@ class BpmnDiagramGraphCsvExport(object):
         :param export_elements: a dictionary object. The key is a node ID, value is a dictionary of parameters that
                will be used in exported CSV document.
         """
+        writer = csv.writer(file_object, lineterminator="\n")
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            writer.writerow([export_element["Order"], export_element["Activity"], export_element["Condition"],
+                             export_element["Who"], export_element["Subprocess"], export_element["Terminated"]])
-- 
2.43.0


From c91be5b60d4cdcecc4a8a8acab3280beec318f9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 22/47] fix: export the condition of an unnamed conditional
 flow to CSV

---
 bpmn_python/bpmn_process_csv_export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index fc2c3c6..bd926bb 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -172,6 +172,10 @@ class BpmnDiagramGraphCsvExport(object):
                     condition = outgoing_flow[2][consts.Consts.name]
                 else:
                     condition = ""
+                if condition == "" and node_type != consts.Consts.parallel_gateway \
+                        and consts.Consts.condition_expression in outgoing_flow[2]:
+                    condition = outgoing_flow[2][consts.Consts.condition_expression][
+                        consts.Consts.condition_expression]
 
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
-- 
2.43.0


From 32a13c723e07629f6988829817d0cf890f367a57 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 23/47] fix: export user, service and manual tasks to CSV

---
 bpmn_python/bpmn_import_utils.py       | 4 ++++
 bpmn_python/bpmn_process_csv_export.py | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 2da200e..891a4e9 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -112,6 +112,10 @@ class BpmnImportUtils(object):
             classification_labels = [classification_element]
             BpmnImportUtils.split_join_classification(element, classification_labels, nodes_classification)
 
+        for element in bpmn_diagram.get_nodes():
+            if element[0] not in nodes_classification:
+                BpmnImportUtils.split_join_classification(element, [classification_element], nodes_classification)
+
         return nodes_classification
 
     @staticmethod
diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index bd926bb..c43a943 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -23,7 +23,7 @@ class BpmnDiagramGraphCsvExport(object):
     Class that provides implementation of exporting process to CSV functionality
     """
     gateways_list = ["exclusiveGateway", "inclusiveGateway", "parallelGateway"]
-    tasks_list = ["task", "subProcess"]
+    tasks_list = ["task", "userTask", "serviceTask", "manualTask", "subProcess"]
 
     classification_element = "Element"
     classification_start_event = "Start Event"
@@ -140,7 +140,7 @@ class BpmnDiagramGraphCsvExport(object):
             # If the node is a join, then retract the recursion back to the split.
             # In case of activity - return current node. In case of gateway - return outgoing node
             # (we are making assumption that join has only one outgoing node)
-            if node_type == consts.Consts.task or node_type == consts.Consts.subprocess:
+            if node_type in BpmnDiagramGraphCsvExport.tasks_list:
                 return node
             else:
                 outgoing_flow_id = outgoing_flows[0]
@@ -148,7 +148,7 @@ class BpmnDiagramGraphCsvExport(object):
                 outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
                 return outgoing_node
         else:
-            if node_type == consts.Consts.task:
+            if node_type in BpmnDiagramGraphCsvExport.tasks_list and node_type != consts.Consts.subprocess:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
                                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
             elif node_type == consts.Consts.subprocess:
-- 
2.43.0


From 54684f6a03b8a604785fe1114658bab4bfac2626 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 24/47] fix: export a start event without an outgoing flow to
 CSV

---
 bpmn_python/bpmn_process_csv_export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index c43a943..ed7890c 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -247,6 +247,8 @@ class BpmnDiagramGraphCsvExport(object):
         export_elements.append({"Order": prefix + str(order), "Activity": activity, "Condition": condition,
                                 "Who": who, "Subprocess": "", "Terminated": ""})
 
+        if not node[1][consts.Consts.outgoing_flow]:
+            return None
         outgoing_flow_id = node[1][consts.Consts.outgoing_flow][0]
         outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
         outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
-- 
2.43.0


From 0aba2e7cbbbad3c5b93c3532cab795499da7af23 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 25/47] fix: import the names of end events from CSV

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..0a22ef3 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -56,7 +56,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From 5c6bb684353f5aeed224b0be6f3be640dec77b70 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 26/47] fix: read the cells of a CSV file as texts

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 0a22ef3..539f4a6 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -609,7 +609,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).fillna("").to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From 9ff399739122caade3bf03cce3924f6cdc3148ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 27/47] fix: register flows imported from CSV under their name

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 539f4a6..c3fc5a5 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -321,7 +321,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
             consts.Consts.id: flow_id + "_cond",
             consts.Consts.condition_expression: condition
         }
-    sequence_flows[flow_id] = {consts.Consts.name: flow_id, consts.Consts.source_ref: from_node_id,
+    sequence_flows[flow_id] = {consts.Consts.name: "", consts.Consts.source_ref: from_node_id,
                                consts.Consts.target_ref: to_node_id}
 
 
-- 
2.43.0


From 6547a2f9ac5a76ea607bf9a909ad17d132f70b45 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 28/47] fix: export the default flow of a split as else also
 when it leads to the join

---
 bpmn_python/bpmn_process_csv_export.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index ed7890c..653db10 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -177,16 +177,13 @@ class BpmnDiagramGraphCsvExport(object):
                     condition = outgoing_flow[2][consts.Consts.condition_expression][
                         consts.Consts.condition_expression]
 
+                if outgoing_flow_id == default_flow_id:
+                    condition = "else"
+
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
                          "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
-                elif outgoing_flow_id == default_flow_id:
-                    tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
-                                                                          nodes_classification, 1, next_prefix, "else",
-                                                                          who)
-                    if tmp_next_node is not None:
-                        next_node = tmp_next_node
                 else:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix,
-- 
2.43.0


From 1138842afb23aa2a6cd22bf6819cd4289dba36e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 29/47] fix: export an end event shared by branches in a branch
 that consists of it only

---
 bpmn_python/bpmn_process_csv_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 653db10..77c9e68 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -180,7 +180,8 @@ class BpmnDiagramGraphCsvExport(object):
                 if outgoing_flow_id == default_flow_id:
                     condition = "else"
 
-                if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
+                if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]] \
+                        and outgoing_node[1][consts.Consts.type] != consts.Consts.end_event:
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
                          "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
-- 
2.43.0


From eb379cdb790f78c0cde380e625d7fcf08280f3cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 30/47] fix: keep the condition of a goto row when importing
 CSV

---
 bpmn_python/bpmn_process_csv_import.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index c3fc5a5..3bd9989 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -299,7 +299,7 @@ def get_flow_id(from_node_id, to_node_id):
     return from_node_id + "__" + to_node_id
 
 
-def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows):
+def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -307,8 +307,10 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
     :param process_dict:
     :param bpmn_diagram:
     :param sequence_flows:
+    :param condition: condition of the flow. By default - the condition of the row of the target node.
     """
-    condition = get_connection_condition_if_present(to_node_id, process_dict)
+    if condition is None:
+        condition = get_connection_condition_if_present(to_node_id, process_dict)
     bpmn_diagram.diagram_graph.add_edge(from_node_id, to_node_id)
     flow_id = get_flow_id(from_node_id, to_node_id)
     bpmn_diagram.diagram_graph[from_node_id][to_node_id][consts.Consts.id] = flow_id
@@ -325,7 +327,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
                                consts.Consts.target_ref: to_node_id}
 
 
-def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows):
+def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -333,10 +335,11 @@ def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequen
     :param process_dict:
     :param diagram_graph:
     :param sequence_flows:
+    :param condition: condition of the flow. By default - the condition of the row of the target node.
     """
     add_outgoing_flow(from_node_id, to_node_id, diagram_graph)
     add_incoming_flow(to_node_id, from_node_id, diagram_graph)
-    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows)
+    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition)
 
 
 def get_node_conditions(split_successors, process_dict):
@@ -572,7 +575,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
         if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
             source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
-            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
+            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
+                           csv_line_dict[consts.Consts.csv_condition])
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From 9f0b1d5cf20dff94d46f3dc50823c6a9ecdfa43b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 31/47] fix: merge the branches of nested splits in CSV files
 where the inner split ends

---
 bpmn_python/bpmn_process_csv_import.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 3bd9989..4ae51fb 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -144,12 +144,13 @@ def get_possible_merge_continuation_successors(node_id_arg):
         possible_successors = []
         for result in re.finditer(regex_pa_merge_node_finder, node_id):
             num_let_pair = result.group(2)
-            prefix = result.group(1)
+            prefix = node_id[:result.start(2)]
             num_let_result = re.match(regex_pa_num_let, num_let_pair)
             num = num_let_result.group(1)
             inc_num = str(int(num) + 1)
             possible_successors.append(prefix + inc_num)
-        return possible_successors
+        # branches are merged by the innermost possible successor
+        return possible_successors[::-1]
     else:
         return []
 
@@ -488,8 +489,8 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
             pass
         elif is_there_merge_continuation(node_id, nodes_ids):
             possible_merge_successors = get_possible_merge_continuation_successors(node_id)
-            merge_successor_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_merge_successors,
-                                                                                          nodes_ids)
+            merge_successor_id = next(successor_id for successor_id in possible_merge_successors
+                                      if successor_id in nodes_ids)
             merge_gateway_id, just_created = add_merge_gateway_if_not_exists(merge_successor_id, bpmn_diagram)
             if just_created:
                 add_connection(merge_gateway_id, merge_successor_id, process_dict, bpmn_diagram, sequence_flows)
-- 
2.43.0


From c861421776339a15952b8a3d2db35d8a69011b1f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 32/47] fix: do not take row 11 of a branch in a CSV file for
 the beginning of a branch

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 4ae51fb..7c65ec5 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0


From 4a8c51bc14612fe16c180be5ff5d437b0fe171b1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 33/47] fix: do not take activities whose names begin with goto
 for jumps when importing CSV

---
 bpmn_python/bpmn_process_csv_import.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 7c65ec5..6e9df10 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,6 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
+regex_goto_row = r'\s*goto\s+\S'
 regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
@@ -255,6 +256,15 @@ def is_node_the_end_event(node_id, process_dict):
     return process_dict[node_id][consts.Consts.csv_terminated] == 'yes'
 
 
+def is_goto_row(csv_line_dict):
+    """
+
+    :param csv_line_dict:
+    :return: True, if the row is not an activity, but a jump ("goto" followed by the order of the target row).
+    """
+    return bool(re.match(regex_goto_row, csv_line_dict[consts.Consts.csv_activity], re.IGNORECASE))
+
+
 def add_outgoing_flow(node_id, successor_node_id, bpmn_diagram):
     """
 
@@ -573,7 +583,7 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     :param sequence_flows:
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
-        if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
+        if is_goto_row(csv_line_dict):
             source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
             add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
-- 
2.43.0


From 29b55a236dc603f04bc6f992c6360b92cb1e1f57 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:37:59 +0000
Subject: [PATCH 34/47] fix: import CSV files with goto rows in branches that
 are not merged

---
 bpmn_python/bpmn_process_csv_import.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 6e9df10..bd96f6f 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -484,7 +484,7 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
     nodes_ids_to_process = copy.deepcopy(nodes_ids)
     while bool(nodes_ids_to_process):
         node_id = str(nodes_ids_to_process.pop(0))
-        if is_node_the_end_event(node_id, process_dict):
+        if is_node_the_end_event(node_id, process_dict) or is_goto_row(process_dict[node_id]):
             pass
         elif is_there_sequence_continuation(node_id, nodes_ids):
             possible_sequence_successors = get_possible_sequence_continuation_successor(node_id)
@@ -584,7 +584,9 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
     """
     for order, csv_line_dict in copy.deepcopy(process_dict).items():
         if is_goto_row(csv_line_dict):
-            source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
+            source_node = remove_incoming_connection(order, diagram_graph, sequence_flows)
+            diagram_graph.diagram_graph.remove_node(order)
+            process_dict.pop(order, None)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
             add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
                            csv_line_dict[consts.Consts.csv_condition])
-- 
2.43.0


From 613bc7e4bf784beebb3380ed244480bf5b7d123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 35/47] fix: keep the message flows of pools without a process
 that precede the pool in the document

---
 bpmn_python/bpmn_diagram_import.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index e0caa1d..382050e 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -110,8 +110,9 @@ class BpmnDiagramGraphImport(object):
             diagram_graph.node[participant_id][consts.Consts.process] = participant_id
             diagram_graph.node[participant_id][consts.Consts.id] = participant_id
             diagram_graph.node[participant_id][consts.Consts.node_name] = name
-            diagram_graph.node[participant_id][consts.Consts.incoming_flow] = []
-            diagram_graph.node[participant_id][consts.Consts.outgoing_flow] = []
+            # message flows may precede the participant
+            diagram_graph.node[participant_id].setdefault(consts.Consts.incoming_flow, [])
+            diagram_graph.node[participant_id].setdefault(consts.Consts.outgoing_flow, [])
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
     @staticmethod
-- 
2.43.0


From 1d880b1af1f169a1814b656947c8df649b0acde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:51 +0000
Subject: [PATCH 36/47] fix: draw flows from their source to their target in
 png pictures

---
 bpmn_python/bpmn_diagram_visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 89009d6..19a2fc3 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -88,7 +88,9 @@ def bpmn_diagram_to_png(bpmn_diagram, file_name):
         graph.add_node(n)
 
     for edge in g.edges(data=True):
-        e = pydotplus.Edge(src=edge[0], dst=edge[1], label=edge[2].get(consts.Consts.name))
+        # the graph is not directed, its edges may be listed with the ends exchanged
+        e = pydotplus.Edge(src=edge[2].get(consts.Consts.source_ref), dst=edge[2].get(consts.Consts.target_ref),
+                           label=edge[2].get(consts.Consts.name))
         graph.add_edge(e)
 
     graph.write(file_name + ".png", format='png')
-- 
2.43.0


From 524610ec0767361a948abfb0f1783ea01f4ffd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:27 +0000
Subject: [PATCH 37/47] fix: quote ids and labels in png pictures

---
 bpmn_python/bpmn_diagram_visualizer.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 19a2fc3..c3cc887 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -67,6 +67,18 @@ def bpmn_diagram_to_dot_file(bpmn_diagram, file_name):
     write_dot(g, file_name + ".dot")
 
 
+def quoted(text):
+    """
+    Quotes an identifier or a label, so that it is taken literally
+
+    :param text: a string object. May be None,
+    :return: a string object, text as a quoted string of the dot language.
+    """
+    if text is None:
+        text = ""
+    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'
+
+
 def bpmn_diagram_to_png(bpmn_diagram, file_name):
     """
     Create a png picture for given diagram
@@ -78,19 +90,21 @@ def bpmn_diagram_to_png(bpmn_diagram, file_name):
     graph = pydotplus.Dot()
 
     for node in g.nodes(data=True):
+        label = quoted(node[1].get(consts.Consts.node_name))
 
         if node[1].get(consts.Consts.type) == consts.Consts.task:
-            n = pydotplus.Node(name=node[0], shape="box", style="rounded", label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=quoted(node[0]), shape="box", style="rounded", label=label)
         elif node[1].get(consts.Consts.type) == consts.Consts.exclusive_gateway:
-            n = pydotplus.Node(name=node[0], shape="diamond", label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=quoted(node[0]), shape="diamond", label=label)
         else:
-            n = pydotplus.Node(name=node[0], label=node[1].get(consts.Consts.node_name))
+            n = pydotplus.Node(name=quoted(node[0]), label=label)
         graph.add_node(n)
 
     for edge in g.edges(data=True):
         # the graph is not directed, its edges may be listed with the ends exchanged
-        e = pydotplus.Edge(src=edge[2].get(consts.Consts.source_ref), dst=edge[2].get(consts.Consts.target_ref),
-                           label=edge[2].get(consts.Consts.name))
+        e = pydotplus.Edge(src=quoted(edge[2].get(consts.Consts.source_ref)),
+                           dst=quoted(edge[2].get(consts.Consts.target_ref)),
+                           label=quoted(edge[2].get(consts.Consts.name)))
         graph.add_edge(e)
 
     graph.write(file_name + ".png", format='png')
-- 
2.43.0


From 12e8c393d0598165d4de53d167c217f5e5716a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:27 +0000
Subject: [PATCH 38/47] fix: draw nodes of all types when visualizing a diagram

---
 bpmn_python/bpmn_diagram_visualizer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index c3cc887..7aeb4c0 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -20,8 +20,18 @@ def visualize_diagram(bpmn_diagram):
     pos = bpmn_diagram.get_nodes_positions()
     nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
                            nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.task))
+    nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
+                           nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.user_task))
+    nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
+                           nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.service_task))
+    nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
+                           nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.manual_task))
     nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
                            nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.subprocess))
+    nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
+                           nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.data_object))
+    nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
+                           nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.participant))
     nx.draw_networkx_nodes(g, pos, node_shape='d', node_color='white',
                            nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.complex_gateway))
     nx.draw_networkx_nodes(g, pos, node_shape='o', node_color='white',
@@ -40,6 +50,8 @@ def visualize_diagram(bpmn_diagram):
                            nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.end_event))
     nx.draw_networkx_nodes(g, pos, node_shape='o', node_color='white',
                            nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.intermediate_throw_event))
+    nx.draw_networkx_nodes(g, pos, node_shape='o', node_color='white',
+                           nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.boundary_event))
 
     node_labels = {}
     for node in g.nodes(data=True):
-- 
2.43.0


From 161277b3a42cd2d56975f0f45fb709f0acbc9ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 39/47] fix: read the whole text of flow references and
 conditions (comments, CDATA, surrounding whitespace)

---
 bpmn_python/bpmn_diagram_import.py |  8 ++++----
 bpmn_python/bpmn_import_utils.py   | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 382050e..9d7d2f0 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -281,7 +281,7 @@ class BpmnDiagramGraphImport(object):
                 if tag_name == consts.Consts.child_lane_set:
                     child_lane_set_attr = BpmnDiagramGraphImport.import_child_lane_set_element(element, plane_element)
                 elif tag_name == consts.Consts.flow_node_ref:
-                    flow_node_ref_id = element.firstChild.nodeValue
+                    flow_node_ref_id = utils.BpmnImportUtils.get_text(element).strip()
                     flow_node_refs.append(flow_node_ref_id)
 
         lane_attr = {consts.Consts.id: lane_id, consts.Consts.name: lane_name,
@@ -368,7 +368,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.incoming_flow:
-                    incoming_value = tmp_element.firstChild.nodeValue
+                    incoming_value = utils.BpmnImportUtils.get_text(tmp_element).strip()
                     incoming_list.append(incoming_value)
         bpmn_graph.node[element_id][consts.Consts.incoming_flow] = incoming_list
 
@@ -378,7 +378,7 @@ class BpmnDiagramGraphImport(object):
             if tmp_element.nodeType != tmp_element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(tmp_element.tagName)
                 if tag_name == consts.Consts.outgoing_flow:
-                    outgoing_value = tmp_element.firstChild.nodeValue
+                    outgoing_value = utils.BpmnImportUtils.get_text(tmp_element).strip()
                     outgoing_list.append(outgoing_value)
         bpmn_graph.node[element_id][consts.Consts.outgoing_flow] = outgoing_list
 
@@ -743,7 +743,7 @@ class BpmnDiagramGraphImport(object):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 if tag_name == consts.Consts.condition_expression:
-                    condition_expression = element.firstChild.nodeValue if element.firstChild is not None else ""
+                    condition_expression = utils.BpmnImportUtils.get_text(element)
                     diagram_graph[source_ref][target_ref][consts.Consts.condition_expression] = {
                         consts.Consts.id: element.getAttribute(consts.Consts.id),
                         consts.Consts.condition_expression: condition_expression
diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 891a4e9..d431b68 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -36,6 +36,16 @@ class BpmnImportUtils(object):
                 yield element
             element = element.nextSibling
 
+    @staticmethod
+    def get_text(element):
+        """
+        Helper function, returns the text content of element. The text may be split by comments or given as CDATA.
+
+        :param element: object of Element class.
+        """
+        return "".join(child.nodeValue for child in element.childNodes
+                       if child.nodeType in (child.TEXT_NODE, child.CDATA_SECTION_NODE))
+
     @staticmethod
     def generate_nodes_clasification(bpmn_diagram):
         """
-- 
2.43.0


From 681119225968783dfb4b756854f0461f1a7b1832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:59 +0000
Subject: [PATCH 40/47] fix: export diagrams whose elements are not all drawn
 (e.g. data objects have no shape)

---
 bpmn_python/bpmn_diagram_export.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index acf4384..69dc014 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -279,6 +279,9 @@ class BpmnDiagramGraphExport(object):
                 flow_node_ref_xml = eTree.SubElement(lane_xml, consts.Consts.flow_node_ref)
                 flow_node_ref_xml.text = flow_node_ref_id
 
+        if consts.Consts.width not in lane_attr:
+            # the lane has not been drawn
+            return
         output_element_di = eTree.SubElement(plane_element, BpmnDiagramGraphExport.bpmndi_namespace +
                                              consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, lane_id + "_gui")
@@ -368,6 +371,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with node parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for node DI data).
         """
+        if consts.Consts.width not in params:
+            # the node has not been drawn, e.g. a data object (shapes refer to its data object references)
+            return
         output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_shape)
         output_element_di.set(consts.Consts.id, node_id + "_gui")
 
@@ -410,6 +416,9 @@ class BpmnDiagramGraphExport(object):
         :param params: dictionary with edge parameters,
         :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for edge DI data).
         """
+        if consts.Consts.waypoints not in params:
+            # the flow has not been drawn
+            return
         output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
         output_flow.set(consts.Consts.id, params[consts.Consts.id] + "_gui")
         output_flow.set(consts.Consts.bpmn_element, params[consts.Consts.id])
@@ -451,6 +460,8 @@ class BpmnDiagramGraphExport(object):
                 message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
 
                 message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
+                if consts.Consts.waypoints not in message_flow_params:
+                    continue
                 output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
                 output_flow.set(consts.Consts.id, message_flow_id + "_gui")
                 output_flow.set(consts.Consts.bpmn_element, message_flow_id)
@@ -466,6 +477,8 @@ class BpmnDiagramGraphExport(object):
                 participant.set(consts.Consts.name, participant_attr[consts.Consts.name])
                 participant.set(consts.Consts.process_ref, participant_attr[consts.Consts.process_ref])
 
+                if consts.Consts.width not in participant_attr:
+                    continue
                 output_element_di = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace +
                                                      consts.Consts.bpmn_shape)
                 output_element_di.set(consts.Consts.id, participant_id + "_gui")
-- 
2.43.0


From b091ade44db29507fe78657dd12223e69e74cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 41/47] fix: write BPMNDiagram after the collaboration and the
 processes, as the BPMN schema requires

---
 bpmn_python/bpmn_diagram_export.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 69dc014..bbef19b 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -443,8 +443,8 @@ class BpmnDiagramGraphExport(object):
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
-        [_, plane] = BpmnDiagramGraphExport.export_diagram_plane_elements(definitions, diagram_attributes,
-                                                                          plane_attributes)
+        [diagram, plane] = BpmnDiagramGraphExport.export_diagram_plane_elements(definitions, diagram_attributes,
+                                                                                plane_attributes)
 
         if collaboration is not None and len(collaboration) > 0:
             message_flows = collaboration[consts.Consts.message_flows]
@@ -527,6 +527,10 @@ class BpmnDiagramGraphExport(object):
             if params[consts.Consts.id] not in (collaboration or {}).get(consts.Consts.message_flows, {}):
                 BpmnDiagramGraphExport.export_flow_di_data(params, plane)
 
+        # according to BPMN 2.0 XML Schema, 'BPMNDiagram' follows the collaboration and the processes
+        definitions.remove(diagram)
+        definitions.append(diagram)
+
         BpmnDiagramGraphExport.indent(definitions)
         tree = eTree.ElementTree(definitions)
         try:
-- 
2.43.0


From ad77446e4328204ce0733510a701c251734fb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 42/47] fix: write the node references of a lane before its
 child lanes, as the BPMN schema requires

---
 bpmn_python/bpmn_diagram_export.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index bbef19b..e37a4d8 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -271,13 +271,13 @@ class BpmnDiagramGraphExport(object):
         lane_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane)
         lane_xml.set(consts.Consts.id, lane_id)
         lane_xml.set(consts.Consts.name, lane_attr[consts.Consts.name])
-        if consts.Consts.child_lane_set in lane_attr and len(lane_attr[consts.Consts.child_lane_set]):
-            child_lane_set = lane_attr[consts.Consts.child_lane_set]
-            BpmnDiagramGraphExport.export_child_lane_set(lane_xml, child_lane_set, plane_element)
         if consts.Consts.flow_node_refs in lane_attr and len(lane_attr[consts.Consts.flow_node_refs]):
             for flow_node_ref_id in lane_attr[consts.Consts.flow_node_refs]:
                 flow_node_ref_xml = eTree.SubElement(lane_xml, consts.Consts.flow_node_ref)
                 flow_node_ref_xml.text = flow_node_ref_id
+        if consts.Consts.child_lane_set in lane_attr and len(lane_attr[consts.Consts.child_lane_set]):
+            child_lane_set = lane_attr[consts.Consts.child_lane_set]
+            BpmnDiagramGraphExport.export_child_lane_set(lane_xml, child_lane_set, plane_element)
 
         if consts.Consts.width not in lane_attr:
             # the lane has not been drawn
-- 
2.43.0


From 7ed9a8c761bab6c273892457106db087000e0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:39 +0000
Subject: [PATCH 43/47] fix: write participants before message flows, as the
 BPMN schema requires

---
 bpmn_python/bpmn_diagram_export.py | 38 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index e37a4d8..7ee667f 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -452,25 +452,6 @@ class BpmnDiagramGraphExport(object):
             collaboration_xml = eTree.SubElement(definitions, consts.Consts.collaboration)
             collaboration_xml.set(consts.Consts.id, collaboration[consts.Consts.id])
 
-            for message_flow_id, message_flow_attr in message_flows.items():
-                message_flow = eTree.SubElement(collaboration_xml, consts.Consts.message_flow)
-                message_flow.set(consts.Consts.id, message_flow_id)
-                message_flow.set(consts.Consts.name, message_flow_attr[consts.Consts.name])
-                message_flow.set(consts.Consts.source_ref, message_flow_attr[consts.Consts.source_ref])
-                message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
-
-                message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
-                if consts.Consts.waypoints not in message_flow_params:
-                    continue
-                output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
-                output_flow.set(consts.Consts.id, message_flow_id + "_gui")
-                output_flow.set(consts.Consts.bpmn_element, message_flow_id)
-                waypoints = message_flow_params[consts.Consts.waypoints]
-                for waypoint in waypoints:
-                    waypoint_element = eTree.SubElement(output_flow, "omgdi:waypoint")
-                    waypoint_element.set(consts.Consts.x, waypoint[0])
-                    waypoint_element.set(consts.Consts.y, waypoint[1])
-
             for participant_id, participant_attr in participants.items():
                 participant = eTree.SubElement(collaboration_xml, consts.Consts.participant)
                 participant.set(consts.Consts.id, participant_id)
@@ -490,6 +471,25 @@ class BpmnDiagramGraphExport(object):
                 bounds.set(consts.Consts.x, participant_attr[consts.Consts.x])
                 bounds.set(consts.Consts.y, participant_attr[consts.Consts.y])
 
+            for message_flow_id, message_flow_attr in message_flows.items():
+                message_flow = eTree.SubElement(collaboration_xml, consts.Consts.message_flow)
+                message_flow.set(consts.Consts.id, message_flow_id)
+                message_flow.set(consts.Consts.name, message_flow_attr[consts.Consts.name])
+                message_flow.set(consts.Consts.source_ref, message_flow_attr[consts.Consts.source_ref])
+                message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
+
+                message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
+                if consts.Consts.waypoints not in message_flow_params:
+                    continue
+                output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
+                output_flow.set(consts.Consts.id, message_flow_id + "_gui")
+                output_flow.set(consts.Consts.bpmn_element, message_flow_id)
+                waypoints = message_flow_params[consts.Consts.waypoints]
+                for waypoint in waypoints:
+                    waypoint_element = eTree.SubElement(output_flow, "omgdi:waypoint")
+                    waypoint_element.set(consts.Consts.x, waypoint[0])
+                    waypoint_element.set(consts.Consts.y, waypoint[1])
+
         for process_id in process_elements_dict:
             process_element_attr = process_elements_dict[process_id]
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
-- 
2.43.0


From 047f021ac5471fc5a06544bf350ab7fb25a41506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 44/47] fix: keep the collaboration and the lanes when
 exporting without diagram interchange data

---
 bpmn_python/bpmn_diagram_export.py | 44 +++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 7ee667f..f2a91d2 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -429,23 +429,15 @@ class BpmnDiagramGraphExport(object):
             waypoint_element.set(consts.Consts.y, waypoint[1])
 
     @staticmethod
-    def export_xml_file(directory, filename, bpmn_diagram):
+    def export_collaboration(definitions, bpmn_diagram, plane):
         """
-        Exports diagram inner graph to BPMN 2.0 XML file (with Diagram Interchange data).
+        Creates 'collaboration' element (if there is one) for exported BPMN XML file.
 
-        :param directory: string representing output directory,
-        :param filename: string representing output file name,
-        :param bpmn_diagram: BPMNDiagramGraph class instantion representing a BPMN process diagram.
+        :param definitions: an XML element ('definitions'), root element of BPMN 2.0 document,
+        :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram,
+        :param plane: object of Element class, representing BPMN XML 'BPMNPlane' element (root for DI data).
         """
-        diagram_attributes = bpmn_diagram.diagram_attributes
-        plane_attributes = bpmn_diagram.plane_attributes
         collaboration = bpmn_diagram.collaboration
-        process_elements_dict = bpmn_diagram.process_elements
-        definitions = BpmnDiagramGraphExport.export_definitions_element()
-
-        [diagram, plane] = BpmnDiagramGraphExport.export_diagram_plane_elements(definitions, diagram_attributes,
-                                                                                plane_attributes)
-
         if collaboration is not None and len(collaboration) > 0:
             message_flows = collaboration[consts.Consts.message_flows]
             participants = collaboration[consts.Consts.participants]
@@ -490,6 +482,26 @@ class BpmnDiagramGraphExport(object):
                     waypoint_element.set(consts.Consts.x, waypoint[0])
                     waypoint_element.set(consts.Consts.y, waypoint[1])
 
+    @staticmethod
+    def export_xml_file(directory, filename, bpmn_diagram):
+        """
+        Exports diagram inner graph to BPMN 2.0 XML file (with Diagram Interchange data).
+
+        :param directory: string representing output directory,
+        :param filename: string representing output file name,
+        :param bpmn_diagram: BPMNDiagramGraph class instantion representing a BPMN process diagram.
+        """
+        diagram_attributes = bpmn_diagram.diagram_attributes
+        plane_attributes = bpmn_diagram.plane_attributes
+        collaboration = bpmn_diagram.collaboration
+        process_elements_dict = bpmn_diagram.process_elements
+        definitions = BpmnDiagramGraphExport.export_definitions_element()
+
+        [diagram, plane] = BpmnDiagramGraphExport.export_diagram_plane_elements(definitions, diagram_attributes,
+                                                                                plane_attributes)
+
+        BpmnDiagramGraphExport.export_collaboration(definitions, bpmn_diagram, plane)
+
         for process_id in process_elements_dict:
             process_element_attr = process_elements_dict[process_id]
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
@@ -551,10 +563,16 @@ class BpmnDiagramGraphExport(object):
         """
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
+        # shapes and edges that go with the exported elements are left out
+        plane = eTree.Element(BpmnDiagramGraphExport.bpmndi_namespace + "BPMNPlane")
+
+        BpmnDiagramGraphExport.export_collaboration(definitions, bpmn_diagram, plane)
 
         for process_id in process_elements_dict:
             process_element_attr = process_elements_dict[process_id]
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
+            if consts.Consts.lane_set in process_element_attr:
+                BpmnDiagramGraphExport.export_lane_set(process, process_element_attr[consts.Consts.lane_set], plane)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
             nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
-- 
2.43.0


From 6c91cfb3c224ab72ac95ade758563f3c41722448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 45/47] fix: do not write empty identifiers, references and
 flags for absent ones

---
 bpmn_python/bpmn_diagram_export.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index f2a91d2..d5a25de 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -287,7 +287,8 @@ class BpmnDiagramGraphExport(object):
         output_element_di.set(consts.Consts.id, lane_id + "_gui")
 
         output_element_di.set(consts.Consts.bpmn_element, lane_id)
-        output_element_di.set(consts.Consts.is_horizontal, lane_attr[consts.Consts.is_horizontal])
+        if lane_attr[consts.Consts.is_horizontal] != "":
+            output_element_di.set(consts.Consts.is_horizontal, lane_attr[consts.Consts.is_horizontal])
         bounds = eTree.SubElement(output_element_di, "omgdc:Bounds")
         bounds.set(consts.Consts.width, lane_attr[consts.Consts.width])
         bounds.set(consts.Consts.height, lane_attr[consts.Consts.height])
@@ -402,8 +403,8 @@ class BpmnDiagramGraphExport(object):
         if consts.Consts.condition_expression in params:
             condition_expression_params = params[consts.Consts.condition_expression]
             condition_expression = eTree.SubElement(output_flow, consts.Consts.condition_expression)
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
+            if condition_expression_params[consts.Consts.id] != "":
+                condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
             if not params[consts.Consts.name]:
                 output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
@@ -448,7 +449,8 @@ class BpmnDiagramGraphExport(object):
                 participant = eTree.SubElement(collaboration_xml, consts.Consts.participant)
                 participant.set(consts.Consts.id, participant_id)
                 participant.set(consts.Consts.name, participant_attr[consts.Consts.name])
-                participant.set(consts.Consts.process_ref, participant_attr[consts.Consts.process_ref])
+                if participant_attr[consts.Consts.process_ref] != "":
+                    participant.set(consts.Consts.process_ref, participant_attr[consts.Consts.process_ref])
 
                 if consts.Consts.width not in participant_attr:
                     continue
@@ -456,7 +458,8 @@ class BpmnDiagramGraphExport(object):
                                                      consts.Consts.bpmn_shape)
                 output_element_di.set(consts.Consts.id, participant_id + "_gui")
                 output_element_di.set(consts.Consts.bpmn_element, participant_id)
-                output_element_di.set(consts.Consts.is_horizontal, participant_attr[consts.Consts.is_horizontal])
+                if participant_attr[consts.Consts.is_horizontal] != "":
+                    output_element_di.set(consts.Consts.is_horizontal, participant_attr[consts.Consts.is_horizontal])
                 bounds = eTree.SubElement(output_element_di, "omgdc:Bounds")
                 bounds.set(consts.Consts.width, participant_attr[consts.Consts.width])
                 bounds.set(consts.Consts.height, participant_attr[consts.Consts.height])
-- 
2.43.0


From e3c676a40d57484619dcd3d27ff5e879723d138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:51 +0000
Subject: [PATCH 46/47] fix: message flows starting or ending at a pool with a
 process (the import failed)

---
 bpmn_python/bpmn_diagram_import.py | 33 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index 9d7d2f0..9b299b9 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -91,6 +91,30 @@ class BpmnDiagramGraphImport(object):
                 elif tag_name == consts.Consts.message_flow:
                     BpmnDiagramGraphImport.import_message_flow_to_graph(diagram_graph, message_flows_dict, element)
 
+        # message flows may also start or end at a participant that has a process
+        for participant_id, participant in participants_dict.items():
+            if diagram_graph.has_node(participant_id):
+                BpmnDiagramGraphImport.add_participant_to_graph(diagram_graph, participant_id,
+                                                                participant[consts.Consts.name])
+
+    @staticmethod
+    def add_participant_to_graph(diagram_graph, participant_id, name):
+        """
+        Adds a node representing a participant to the graph.
+
+        :param diagram_graph: NetworkX graph representing a BPMN process diagram,
+        :param participant_id: ID of the participant,
+        :param name: name of the participant.
+        """
+        diagram_graph.add_node(participant_id)
+        diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
+        diagram_graph.node[participant_id][consts.Consts.process] = participant_id
+        diagram_graph.node[participant_id][consts.Consts.id] = participant_id
+        diagram_graph.node[participant_id][consts.Consts.node_name] = name
+        # message flows may precede the participant
+        diagram_graph.node[participant_id].setdefault(consts.Consts.incoming_flow, [])
+        diagram_graph.node[participant_id].setdefault(consts.Consts.outgoing_flow, [])
+
     @staticmethod
     def import_participant_element(diagram_graph, participants_dictionary, participant_element):
         """
@@ -105,14 +129,7 @@ class BpmnDiagramGraphImport(object):
         name = participant_element.getAttribute(consts.Consts.name)
         process_ref = participant_element.getAttribute(consts.Consts.process_ref)
         if participant_element.getAttribute(consts.Consts.process_ref) == '':
-            diagram_graph.add_node(participant_id)
-            diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
-            diagram_graph.node[participant_id][consts.Consts.process] = participant_id
-            diagram_graph.node[participant_id][consts.Consts.id] = participant_id
-            diagram_graph.node[participant_id][consts.Consts.node_name] = name
-            # message flows may precede the participant
-            diagram_graph.node[participant_id].setdefault(consts.Consts.incoming_flow, [])
-            diagram_graph.node[participant_id].setdefault(consts.Consts.outgoing_flow, [])
+            BpmnDiagramGraphImport.add_participant_to_graph(diagram_graph, participant_id, name)
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
     @staticmethod
-- 
2.43.0


From b4c29d5c8da69202c322435cee11b6459f39e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:33 +0000
Subject: [PATCH 47/47] fix: reject gateway directions that are no text with
 the library's error

---
 bpmn_python/bpmn_diagram_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index e7be201..b823619 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -429,7 +429,7 @@ class BpmnDiagramGraph(object):
         """
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
-                                                 + gateway_direction)
+                                                 + str(gateway_direction))
         gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
-- 
2.43.0

