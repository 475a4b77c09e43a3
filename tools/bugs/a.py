P = "bpmn_python/"
IMP, EXP, REP = P + "bpmn_diagram_import.py", P + "bpmn_diagram_export.py", P + "bpmn_diagram_rep.py"
LAY, MET, LM = P + "bpmn_diagram_layouter.py", P + "bpmn_diagram_metrics.py", P + "diagram_layout_metrics.py"

bug("c01-repeated-definition", "C01", [(IMP, "            for index in range(len(event_def_xml)):\n",
    "            for index in range(min(len(event_def_xml), 1)):\n")], '''
d = load('<process id="P"><intermediateCatchEvent id="a"><timerEventDefinition id="t1"/><timerEventDefinition id="t2"/></intermediateCatchEvent></process>', shape("a"))
assert sorted(x["id"] for x in d.get_node_by_id("a")[1]["event_definitions"]) == ["t1", "t2"]
''', "an event with two definitions of the same type", "the second definition of a type is dropped on import")

bug("c01-subprocess-flow-owner", "C01", [(IMP, """                    BpmnDiagramGraphImport.import_sequence_flow_to_graph(diagram_graph, sequence_flows, subprocess_id,
""", """                    BpmnDiagramGraphImport.import_sequence_flow_to_graph(diagram_graph, sequence_flows, process_id,
""")], '''
d = load('<process id="P"><subProcess id="s"><task id="a"/><task id="b"/><sequenceFlow id="f" sourceRef="a" targetRef="b"/></subProcess></process>', shape("s")+shape("a")+shape("b"))
assert d.get_flow_by_id("f")[2]["process"] == "s"
''', "a sequence flow inside a sub-process", "the flow is attributed to the enclosing process instead of the sub-process")

bug("c02-definition-without-id", "C02", [(EXP, """        output_element.set(consts.Consts.attached_to_ref, node_params[consts.Consts.attached_to_ref])
        definitions = node_params[consts.Consts.event_definitions]
        for definition in definitions:
            definition_id = definition[consts.Consts.id]
            definition_type = definition[consts.Consts.definition_type]
            output_definition = eTree.SubElement(output_element, definition_type)
            if definition_id != "":
                output_definition.set(consts.Consts.id, definition_id)
""", """        output_element.set(consts.Consts.attached_to_ref, node_params[consts.Consts.attached_to_ref])
        definitions = node_params[consts.Consts.event_definitions]
        for definition in definitions:
            definition_id = definition[consts.Consts.id]
            definition_type = definition[consts.Consts.definition_type]
            if definition_id != "":
                output_definition = eTree.SubElement(output_element, definition_type)
                output_definition.set(consts.Consts.id, definition_id)
""")], '''
d = load('<process id="P"><task id="t"/><boundaryEvent id="a" attachedToRef="t"><timerEventDefinition/></boundaryEvent></process>', shape("a")+shape("t"))
assert len(again(d).get_node_by_id("a")[1]["event_definitions"]) == 1
''', "a boundary event whose definition has no id", "the definition is not exported, so it is lost on reload")

bug("c02-indent-strips-text", "C02", [(EXP, """        else:
            if level and (not elem.tail or not elem.tail.strip()):
                elem.tail = j
""", """        else:
            elem.text = elem.text.strip() if elem.text else elem.text
            if level and (not elem.tail or not elem.tail.strip()):
                elem.tail = j
""")], '''
d = load('<process id="P"><task id="a"/><task id="b"/><sequenceFlow id="f" name="n" sourceRef="a" targetRef="b"><conditionExpression id="c"> x > 1 </conditionExpression></sequenceFlow></process>', shape("a")+shape("b")+edge("f",(0,0),(1,1)))
assert again(d).get_flow_by_id("f")[2]["conditionExpression"]["conditionExpression"] == d.get_flow_by_id("f")[2]["conditionExpression"]["conditionExpression"]
''', "a condition with blanks at its ends", "the blanks are stripped from the exported condition")

bug("c03-lane-refs-or-children", "C03", [(EXP, """        if consts.Consts.flow_node_refs in lane_attr and len(lane_attr[consts.Consts.flow_node_refs]):
""", """        if len(lane_attr.get(consts.Consts.flow_node_refs, [])) and not lane_attr.get(consts.Consts.child_lane_set):
""")], '''
d = load('<process id="P"><laneSet id="ls"><lane id="l"><childLaneSet id="cs"><lane id="l2"><flowNodeRef>a</flowNodeRef></lane></childLaneSet><flowNodeRef>a</flowNodeRef></lane></laneSet><task id="a"/></process>', shape("a")+shape("l",extra='isHorizontal="true"')+shape("l2",extra='isHorizontal="true"'))
e = again(d)
assert list(e.process_elements["P"]["laneSet"]["lanes"]["l"]["flowNodeRefs"]) == ["a"]
''', "a lane with child lanes that also lists nodes itself", "its own node list is not exported")

bug("c04-repeated-waypoint", "C04", [(EXP, """        waypoints = params[consts.Consts.waypoints]
        for waypoint in waypoints:
            waypoint_element = eTree""", """        waypoints = params[consts.Consts.waypoints]
        for index, waypoint in enumerate(waypoints):
            if index > 1 and waypoint == waypoints[index - 1]:
                continue
            waypoint_element = eTree""")], '''
d = load('<process id="P"><task id="a"/><task id="b"/><sequenceFlow id="f" sourceRef="a" targetRef="b"/></process>', shape("a")+shape("b")+edge("f",(0,0),(5,5),(5,5)))
assert len(again(d).get_flow_by_id("f")[2]["waypoints"]) == 3
''', "a flow of three waypoints, the last two at the same place", "repeated waypoints are dropped on export")

bug("c05-nested-subprocess", "C05", [(EXP, """        nodes = bpmn_diagram.get_nodes_list_by_process_id(subprocess_id)
        for node in nodes:
            node_id = node[0]
            params = node[1]
            BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, output_element)

        # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
        flows = bpmn_diagram.get_flows_list_by_process_id(subprocess_id)
""", """        nodes = bpmn_diagram.get_nodes_list_by_process_id(subprocess_id)
        flows = bpmn_diagram.get_flows_list_by_process_id(subprocess_id)
        if not flows:
            nodes = nodes[:1]
        for node in nodes:
            node_id = node[0]
            params = node[1]
            BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, output_element)

        # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
""")], '''
d = load('<process id="P"><subProcess id="s"><task id="a"/><task id="b"/></subProcess></process>', shape("s")+shape("a")+shape("b"))
e = again(d)
assert e.get_node_by_id("b") is not None
''', "a sub-process with two unconnected nodes", "all but the first are missing from the export")

bug("c06-default-lost", "C06", [(REP, """        self.diagram_graph.node[inclusive_gateway_id][consts.Consts.default] = default
""", """        self.diagram_graph.node[inclusive_gateway_id][consts.Consts.default] = \\
            default if gateway_direction != "Converging" else None
""")], '''
d, p = new()
i, n = d.add_inclusive_gateway_to_diagram(p, gateway_name="g", gateway_direction="Converging", default="f1")
assert n["default"] == "f1"
''', "an inclusive gateway with direction Converging and a default flow", "the requested default is not stored")

bug("c07-partly-listed-flows", "C07", [(IMP, """        if flow_id not in incoming_list:
""", """        if flow_id not in incoming_list and len(incoming_list) < len(outgoing_list):
""", "def import_sequence_flow_to_graph")], '''
d = load('<process id="P"><task id="a"/><task id="b"/><task id="c"/><sequenceFlow id="f" sourceRef="a" targetRef="c"/><sequenceFlow id="g" sourceRef="b" targetRef="c"/></process>', shape("a")+shape("b")+shape("c"))
assert sorted(d.get_node_by_id("c")[1]["incoming"]) == ["f", "g"]
''', "a join whose incoming flows are not listed under the node", "the second incoming flow is missing from the node's list")

bug("c08-type-suffix", "C08", [(REP, """                if node[1][consts.Consts.type] == node_type:
                    nodes.append(node)
            return nodes""", """                if node[1][consts.Consts.type].endswith(node_type):
                    nodes.append(node)
            return nodes""")], '''
d, p = new()
d.add_exclusive_gateway_to_diagram(p, "g")
assert d.get_nodes("Gateway") == []
''', "a query with a type name that is the end of another type name", "nodes of other types are returned")

bug("c12-grid-collision", "C12", [(LAY, "            if grid_cell.row >= row:\n", "            if grid_cell.row > row:\n")], '''
import bpmn_python.bpmn_diagram_layouter as lay
d, p = new()
n = [d.add_task_to_diagram(p, "t%d" % i)[0] for i in range(5)]
for a, b in ((0, 3), (1, 3), (2, 4), (3, 4), (0, 4)):
    d.add_sequence_flow_to_diagram(p, n[a], n[b])
import itertools
edges = list(itertools.combinations(range(5), 2))
for k in range(1, 6):
    for es in itertools.combinations(edges, k):
        d, p = new()
        n = [d.add_task_to_diagram(p, "t%d" % i)[0] for i in range(5)]
        for a, b in es:
            d.add_sequence_flow_to_diagram(p, n[a], n[b])
        lay.generate_layout(d)
        pos = d.get_nodes_positions()
        assert len(set(pos.values())) == 5, es
''', "a flow graph in which two nodes are computed for the same grid cell", "both nodes get the same coordinates")

bug("c13-waypoint-dropped", "C13", [(LAY, """                                                (str(int(target_node[1][consts.Consts.x]) + 50),
                                                 str(int(source_node[1][consts.Consts.y]) + 50)),
                                                (str(int(target_node[1][consts.Consts.x]) + 50),
                                                 str(int(target_node[1][consts.Consts.y])))]
""", """                                                (str(int(target_node[1][consts.Consts.x]) + 50),
                                                 str(int(source_node[1][consts.Consts.y]) + 50))]
""")], '''
import bpmn_python.bpmn_diagram_layouter as lay
d, p = new()
a, b = d.add_task_to_diagram(p, "a")[0], d.add_task_to_diagram(p, "b")[0]
g, _ = d.add_exclusive_gateway_to_diagram(p, "g")
for s in (a, b):
    d.add_sequence_flow_to_diagram(p, s, g)
lay.generate_layout(d)
pos = d.get_nodes_positions()
for _, _, f in d.get_flows():
    x, y = [float(v) for v in f["waypoints"][-1]]
    tx, ty = pos[f["targetRef"]]
    assert tx <= x <= tx + 100 and ty <= y <= ty + 100
''', "a flow from a task to a gateway in another row", "the last waypoint is missing: the flow ends away from the gateway")

bug("c14-distinct-degrees", "C14", [(MET, "    gateways_degree_values = [all_nodes_degrees[gateway_id] for gateway_id in gateways_ids]\n",
    "    gateways_degree_values = list({gateway_id: all_nodes_degrees[gateway_id] for gateway_id in gateways_ids\n"
    "                                   if all_nodes_degrees[gateway_id]}.values())\n")], '''
import bpmn_python.bpmn_diagram_metrics as m
d, p = new()
a, _ = d.add_task_to_diagram(p, "a")
g, _ = d.add_exclusive_gateway_to_diagram(p, "g")
h, _ = d.add_exclusive_gateway_to_diagram(p, "h")
d.add_sequence_flow_to_diagram(p, a, g)
assert m.AverageGatewayDegree_metric(d) == 0.5
''', "a gateway without flows", "gateways without flows are left out of the average")

bug("c15-durfee-clip", "C15", [(MET, "        histogram[min(count, length)] += 1\n",
    "        histogram[count if count < length else max(length - 1, 1)] += 1\n")], '''
import bpmn_python.bpmn_diagram_metrics as m
d, p = new()
for i in range(2):
    d.add_end_event_to_diagram(p, "t")
    d.add_task_to_diagram(p, "t")
assert m.DurfeeSquare_metric(d) == 2
''', "a diagram in which each of its n element types occurs at least n times", "the metric is one too small")

bug("c16-contained-segment", "C16", [(LM, """    if o3 == 0 and lies_on_segment(segment_two[source_param], segment_two[target_param], segment_one[source_param]):
        return True

    if o4 == 0 and lies_on_segment(segment_two[source_param], segment_two[target_param], segment_one[target_param]):
        return True

""", "")], '''
import bpmn_python.diagram_layout_metrics as lm
for turn in (0, 1):
    d, p = new()
    n = [d.add_task_to_diagram(p, "t")[0] for i in range(4)]
    f = [d.add_sequence_flow_to_diagram(p, n[0], n[1])[1], d.add_sequence_flow_to_diagram(p, n[2], n[3])[1]]
    f[turn]["waypoints"] = [("0", "5"), ("30", "5")]
    f[1 - turn]["waypoints"] = [("10", "5"), ("20", "5")]
    assert lm.count_crossing_points(d) == 1
''', "a segment that lies inside another one on the same line", "the overlap is not counted")

bug("c17-final-subprocess", "C17", [(LM, """        if node[1][consts.Consts.type] in node_names:
            tmp_qualified_nodes.append(node)
        return tmp_path""", """        if node[1][consts.Consts.type] == consts.Consts.task:
            tmp_qualified_nodes.append(node)
        return tmp_path""")], '''
import bpmn_python.diagram_layout_metrics as lm
d, p = new()
a = d.add_task_to_diagram(p, "a")[0]
b = d.add_subprocess_to_diagram(p, "b")[0]
d.add_sequence_flow_to_diagram(p, a, b)
assert lm.compute_longest_path_tasks(d)[1] == 2
''', "a longest path that ends with a sub-process", "the final sub-process is not counted")

bug("c18-shared-list", "C18", [(P + "graph/classes/lane_set_type.py", """            for element in value:
                if not isinstance(element, lane.Lane):
                    raise TypeError("LaneList elements in variable must be of Lane class")
            self.__lane_list = value""", """            if value and not isinstance(value[0], lane.Lane):
                raise TypeError("LaneList elements in variable must be of Lane class")
            self.__lane_list = value""")], '''
import bpmn_python.graph.classes.lane_set_type as ls, bpmn_python.graph.classes.lane_type as lt
s = ls.LaneSet()
try:
    s.set_lane_list([lt.Lane(), "x"])
except TypeError:
    pass
else:
    raise SystemExit("accepted")
''', "a list whose first element is a lane and whose second is not", "the list is accepted")
