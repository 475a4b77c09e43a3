#!/usr/bin/env python3
# coding=utf-8
"""writes properties.jsonl and MANIFEST.json (run by hand after editing the texts below)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "bpmn_python/"
IMP, EXP, REP = PK + "bpmn_diagram_import.py", PK + "bpmn_diagram_export.py", PK + "bpmn_diagram_rep.py"
UT, LAY, MET = PK + "bpmn_import_utils.py", PK + "bpmn_diagram_layouter.py", PK + "bpmn_diagram_metrics.py"
LM, CE, CI = PK + "diagram_layout_metrics.py", PK + "bpmn_process_csv_export.py", PK + "bpmn_process_csv_import.py"
VIS, GR = PK + "bpmn_diagram_visualizer.py", PK + "graph/classes/"

P = []


def prop(id_, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id_, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "XML import yields exactly the model the document describes",
     "Loading a BPMN 2.0 XML file gives a diagram that holds every supported node, sequence flow, process, lane, pool, "
     "message flow, shape and waypoint of the file exactly once, with the ids, types, names, attribute values, nesting "
     "and references written there, and with the documented default for each absent optional attribute. Nothing else is "
     "in the diagram: namespace prefixes, whitespace, comments, processing instructions and unknown vendor content make "
     "no difference.", ["inputs"],
     "every well-formed document over the supported elements, every attribute present or absent, any text",
     "The tests load about ten fixed files and look at a few fields; names, conditions and ids with unusual content, "
     "absent attributes, nesting and ignorable content are never varied.",
     [IMP, UT, REP], [("load_diagram_from_xml", IMP), ("iterate_elements", UT)],
     ["get_nodes", "get_flows", "public fields of the diagram object"])
prop("C02", "XML export followed by import preserves the process model",
     "A diagram that was loaded from XML or built with the editing methods, exported with drawing data and loaded again, "
     "has the same nodes, types, names, type-specific attributes, event definitions, sequence flows, conditions, "
     "incoming/outgoing lists, process membership, process attributes and diagram name. An unnamed conditional flow may "
     "come back named after its condition; nothing else changes, however often the round trip is repeated.", ["inputs"],
     "every diagram over the supported elements with any text content",
     "The round-trip tests compare a few counts on fixed files; loss of one attribute of one element type, or of a text "
     "with special content, goes unnoticed.", [EXP, IMP, REP],
     [("export_xml_file", EXP), ("load_diagram_from_xml", IMP)], ["a second load of the exported file"])
prop("C03", "XML round trip preserves pools, message flows and lanes",
     "Exporting a diagram and loading the result preserves the collaboration: every participant with its name and "
     "process, every message flow with its name and ends, and every lane at every level with its id, name, contained "
     "nodes and child lanes.", ["inputs"],
     "every collaboration and lane structure, any text content",
     "One fixed file with lanes and one with pools are exported; their re-import is not compared lane by lane or pool "
     "by pool.", [EXP, IMP], [("export_lane_set / export_child_lane_set", EXP), ("import_lane_set_element", IMP),
                              ("import_collaboration_element", IMP)], ["process_elements, collaboration after reload"])
prop("C04", "XML round trip preserves the drawing",
     "Exporting a diagram with drawing data and loading the result preserves the bounds of every node, lane and pool, the "
     "horizontal and expanded flags, every waypoint of every sequence and message flow in order, and the diagram and "
     "plane attributes, character for character.", ["inputs"],
     "every coordinate text, any number of waypoints, every element with a shape",
     "No test compares coordinates after a reload.", [EXP, IMP],
     [("export_node_di_data / export_flow_di_data", EXP), ("import_shape_di / import_flow_di", IMP)],
     ["x, y, width, height, waypoints after reload"])
prop("C05", "Exported XML is complete, well structured and free of duplicates",
     "The exported file contains every process, node, sequence flow, lane, pool and message flow of the diagram exactly "
     "once, inside the process or sub-process it belongs to, with unique ids and references that resolve, its elements "
     "in the order the BPMN schema prescribes and no empty text where an identifier, reference or flag belongs; with "
     "drawing data there is exactly one shape per node, lane and pool and one edge per flow that has been drawn. The "
     "export without drawing data contains the same process, lane and collaboration content and no drawing elements.",
     ["inputs"],
     "every diagram, both export methods, read by an independent XML reader",
     "Tests only check that exporting does not raise.", [EXP],
     [("export_xml_file", EXP), ("export_xml_file_no_di", EXP)], ["the written file"])
prop("C06", "Editing methods store exactly what was requested under a unique id",
     "Each editing method that adds a process, node or flow returns an id under which exactly the requested type, name, "
     "attributes and event definition are stored, with the documented defaults for omitted arguments; generated ids are "
     "distinct and an id given by the caller is used; a new flow is drawn from the position of its source to that of its target. A gateway direction that is not one of the four documented values "
     "is rejected with the library's error and leaves the diagram unchanged.", ["inputs", "histories"],
     "every argument value, every sequence of editing calls within the bound",
     "The tests call each method with a few constants.", [REP],
     [("add_*_to_diagram", REP)], ["returned tuples, get_nodes, get_flows"])
prop("C07", "Flow lists, flow registry and graph edges always agree",
     "After any sequence of editing calls, XML imports and CSV imports, each sequence flow is listed exactly once in the "
     "registry, exactly once among the graph's edges, exactly once in the outgoing list of its source and exactly once in "
     "the incoming list of its target, with matching source, target and name, and nothing else is listed.",
     ["histories", "inputs"], "every construction history within the bounds, flows listed in the document or not",
     "Tests never inspect the lists of a diagram built in several ways, nor files that omit the redundant lists.",
     [REP, IMP, CI], [("add_sequence_flow_to_diagram", REP), ("import_sequence_flow_to_graph", IMP),
                      ("add_connection / remove_node", CI)], ["incoming, outgoing, sequence_flows, get_flows"])
prop("C08", "Queries return exactly the matching elements",
     "The query methods return exactly the nodes or flows with the requested type, id or process, each once, with their "
     "stored attributes, all of them when no type is given, and nothing (or an empty result) when there is no match. "
     "Reported positions are the numeric values of the stored coordinates.", ["inputs"],
     "every diagram content and every query value", "Tests query fixed ids on fixed files.", [REP],
     [("get_nodes, get_node_by_id, get_flow_by_id, ...", REP)], ["query results"])
prop("C09", "CSV export lists every activity and event in order",
     "Exporting a block-structured process without loops, whose splits are gateways following an activity and whose "
     "branches begin with an activity or an end event or are empty, writes one row per task (of any type), sub-process, "
     "start and end event with its name (prefixed with message or timer for such events), the sub-process/terminated "
     "marks and, for the first row of a branch, the name (or else the condition expression) of the flow leading to it, "
     "else for the default flow. The entry has number 0, a successor its predecessor's number plus one, branches of a "
     "split the next number, consecutive letters in the order of the split's outgoing flows and numbers from 1 inside the "
     "branch, the step after the join the number after the split; an empty branch is a goto row with the number of the "
     "step after the join. The file is valid CSV for any text. A diagram without a unique entry node is rejected with the "
     "library's error and writes nothing.", ["inputs"],
     "every text content, every block-structured process within the bound",
     "Tests export a few fixed files and never read the rows back.", [CE, UT],
     [("export_process_to_csv", CE)], ["the written file"])
prop("C10", "CSV import builds the process the spreadsheet describes",
     "Loading a process spreadsheet gives one node per row whose id is the row's order number, with the row's name and "
     "kind, flows between consecutive order numbers, a gateway for each split with the row conditions on its branches, "
     "one join of the same kind where two or more branches merge (branches of an inner split without a successor of their "
     "own merge where the outer branches do), and goto rows replaced by flows to their target that keep the row's "
     "condition. A split is exclusive if it has two branches whose conditions are yes and no, or one of which is else; "
     "otherwise parallel if there is no condition and inclusive if there is. Text cells are taken literally, whatever they "
     "look like; only order numbers are trimmed.",
     ["inputs"], "every cell text, every spreadsheet shape within the bound",
     "Tests load a few fixed files and compare a few counts.", [CI, REP],
     [("load_diagram_from_csv", CI)], ["nodes and flows of the diagram"])
prop("C11", "CSV export followed by import preserves the process",
     "A process loaded from a spreadsheet in which every split has its own join (or ends in its branches), exported to CSV "
     "and loaded again, has the same activities, events, names, kinds, conditions and control flow, also after several "
     "such round trips.", ["inputs"], "every cell text, every spreadsheet shape within the bound",
     "No test reads an exported CSV file back.", [CE, CI], [("export_process_to_csv", CE), ("load_diagram_from_csv", CI)],
     ["nodes and flows after reload"])
prop("C12", "Automatic layout terminates and gives every node its own place",
     "Laying out any diagram terminates without an error, gives every node numeric coordinates, and never puts two nodes "
     "at the same position.", ["inputs"], "every flow graph within the bound, all node types",
     "Tests lay out a handful of fixed diagrams; graphs with shortcuts, loops or several entries are not among them.",
     [LAY, UT], [("topological_sort", LAY), ("place_element_in_grid / insert_into_grid", LAY)], ["x, y of all nodes"])
prop("C13", "Automatic layout changes only the drawing and anchors every flow",
     "Layout changes nothing but coordinates of nodes and waypoints of flows. Afterwards every flow starts at its source "
     "node and ends at its target node (nodes of the default size), and in an acyclic diagram every flow runs from left to right.", ["inputs"],
     "every flow graph within the bound, any other attribute content", "Tests do not compare the diagram before and after.",
     [LAY], [("set_coordinates_for_nodes / set_flows_waypoints", LAY)], ["all attributes before and after"])
prop("C14", "Counting metrics equal the true counts of elements",
     "Every counting metric (per type, activities, i.e. tasks and sub-processes, gateways, start, end and intermediate "
     "events, control-flow elements, heterogeneity, network complexity, average gateway degree) equals the number computed from the diagram's elements by its definition, is 0 "
     "for diagrams without such elements, and does not depend on names or order of creation.", ["inputs"],
     "every multiset of node types and every flow graph within the bound", "Tests check the metrics of two fixed diagrams.",
     [MET], [("*_metric, *_count(s)", MET)], ["returned numbers"])
prop("C15", "Durfee and perfect square metrics satisfy their definitions",
     "The Durfee square metric is the largest d such that d element types occur at least d times each, and the perfect "
     "square metric is the largest p such that the p most frequent element types occur together at least p squared times "
     "(p at most the number of types).", ["inputs"], "every distribution of node types within the bound",
     "Tests check two fixed diagrams.", [MET], [("DurfeeSquare_metric, PerfectSquare_metric", MET)], ["returned numbers"])
prop("C16", "Crossing points are counted exactly",
     "The crossing metric is the number of pairs of flow segments that have a common point and share no end point, for any "
     "coordinates; the segment count is the number of consecutive waypoint pairs.", ["inputs"],
     "all coordinates (symbolic reals), any flows within the bound",
     "Tests check one fixed drawing; degenerate positions (collinear, touching, zero length) are not covered.", [LM],
     [("count_crossing_points, do_intersect, orientation, lies_on_segment", LM)], ["returned numbers"])
prop("C17", "Longest path metrics are the true maxima",
     "The longest path metric returns a real path without repeated nodes from a node without incoming to a node without "
     "outgoing flows, and no longer one exists; the task variant returns the activities of a path from an entry node with "
     "the largest number of them. Both terminate on cyclic diagrams.", ["inputs"],
     "every flow graph within the bound, any node types", "Tests check a few fixed diagrams.", [LM],
     [("compute_longest_path, compute_longest_path_tasks", LM)], ["returned paths and lengths"])
prop("C18", "Element classes enforce and keep their attribute types",
     "Every setter of the element classes stores a value of the documented type so that the getter returns it, accepts "
     "the absent value where the attribute is optional, and rejects every other type with a type error and a text "
     "outside an attribute's documented values with a value error, leaving the object as it was; constructors apply the same rules and give each object its own lists.", ["inputs", "histories"],
     "every class, every attribute, every value kind", "Tests build each class once with valid values.", [GR],
     [("set_* methods", GR)], ["getters"])
prop("C19", "Image and dot output shows every node and flow",
     "The dot and png output and the on-screen drawing contain every node of the diagram with its label and every flow "
     "with its ends and label, and nothing else.", ["inputs"], "every diagram within the bound, any names",
     "Tests do not look at the produced output.", [VIS], [("bpmn_diagram_to_dot_file, visualize_diagram", VIS)],
     ["the graph handed to the drawing library"])
prop("C20", "Read-only operations do not change the diagram",
     "Queries, metrics, all exports and drawing leave the diagram as it was, and repeating an operation gives the same "
     "result.", ["histories", "inputs"], "every read-only operation, every order of two of them, every diagram content",
     "Tests run one operation per diagram and never compare before and after.", [REP, EXP, CE, MET, LM, VIS],
     [("exports, metrics, queries", "bpmn_python")], ["deep snapshot of the diagram before and after"])
prop("C21", "Diagram objects are independent and resetting clears everything",
     "Two diagram objects never influence each other, whatever is loaded into or built in them, loading does not depend on "
     "what was loaded elsewhere before, and starting a new diagram on a used object leaves nothing of the old one.",
     ["histories"], "every interleaving of two construction histories within the bound",
     "Tests use one object each.", [REP, IMP, CI], [("BpmnDiagramGraph.__init__, create_new_diagram_graph", REP)],
     ["all public fields of both objects"])

prop("C22", "A process from a spreadsheet survives conversion to XML",
     "A process loaded from a spreadsheet, laid out and exported to BPMN XML, loads from that file as the same process: the "
     "same nodes under the same ids with their names and kinds, the same gateways, flows and conditions, all in one "
     "process, each with a position and size.", ["inputs", "histories"],
     "every spreadsheet shape within the bound, any names and conditions",
     "Tests convert two files and do not read the result.", [CI, LAY, EXP, IMP],
     [("load_diagram_from_csv_file, generate_layout, export_xml_file, load_diagram_from_xml_file", REP)],
     ["nodes, flows and conditions of the reloaded diagram"])

NA = {}

TECH = "symbolic execution of the real code (concolic, z3), exhaustive within bounds, counterexamples replayed"
NOTE = ("Bounded: all feasible paths of the harnesses over the instrumented source are explored and every assertion is "
        "decided by z3 for all values following the path; bounds are listed per harness in the evidence. Trusted: z3, the "
        "models of XML/CSV files, uuid and pandas (every path is also replayed with real files on the unmodified code).")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking",
                           "level_note": NOTE})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: the code is instrumented when it is loaded. See DESIGN.md."}, f, indent=1)
        f.write("\n")


main()
