P = "bpmn_python/"
CE, CI, VIS = P + "bpmn_process_csv_export.py", P + "bpmn_process_csv_import.py", P + "bpmn_diagram_visualizer.py"
IMP, EXP, REP = P + "bpmn_diagram_import.py", P + "bpmn_diagram_export.py", P + "bpmn_diagram_rep.py"
LAY = P + "bpmn_diagram_layouter.py"

BLOCK = '''
def block():
    d, p = new()
    s = d.add_start_event_to_diagram(p, "s")[0]
    a, b, c = [d.add_task_to_diagram(p, x)[0] for x in "abc"]
    g = d.add_exclusive_gateway_to_diagram(p, "g")[0]
    j = d.add_exclusive_gateway_to_diagram(p, "j")[0]
    e = d.add_end_event_to_diagram(p, "e")[0]
    for x, y in [(s, a), (a, g), (g, j), (g, b), (b, j), (j, c), (c, e)]:
        d.add_sequence_flow_to_diagram(p, x, y, "")
    return d
'''

CSVROWS = '''
def rows_of(d):
    d.export_csv_file(OUT + "/", "x.csv")
    import csv
    return list(csv.reader(open(OUT + "/x.csv")))[1:]
'''

bug("c09-suffix-of-empty-branch", "C09", [(CE, """                next_prefix = prefix + str(order) + suffix
                alphabet_suffix_index += 1
""", """                next_prefix = prefix + str(order) + suffix
                if BpmnDiagramGraphCsvExport.classification_join not in nodes_classification[outgoing_node[0]]:
                    alphabet_suffix_index += 1
""")], BLOCK + CSVROWS + '''
d = block()
orders = [r[0] for r in rows_of(d)]
assert len(orders) == len(set(orders)), orders
''', "a split whose first branch is empty", "two branches get the same letter in the exported spreadsheet")

bug("c10-merge-of-late-branches", "C10", [(CI, """        if bool(bpmn_diagram.diagram_graph.has_node(split_node_id)):
            node_type = bpmn_diagram""", """        if prefix == "" and bool(bpmn_diagram.diagram_graph.has_node(split_node_id)):
            node_type = bpmn_diagram""")], '''
d = load_csv("\\n".join(["0,s,,,,", "1,a,,,,", "2a1,b,x,,,", "2a2a1,c,,,,", "2a2b1,d,,,,", "2a3,e,,,,", "2b1,f,y,,,", "3,g,,,,", "4,h,,,,yes"]))
assert d.get_node_by_id("2a3_join")[1]["type"] == d.get_node_by_id("2a1_split")[1]["type"] == "parallelGateway"
''', "a parallel split inside a branch", "the join of a nested split is of another kind than the split")

bug("c11-nested-empty-branch", "C11", [(CE, """                        {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
""", """                        {"Order": next_prefix + str(1), "Activity": "goto " + str(order + 1),
""")], CSVROWS + '''
d = load_csv("\\n".join(["0,s,,,,", "1,a,,,,", "2a1,b,x,,,", "2a2a1,c,yes,,,", "2a2b1,goto 2a3,no,,,", "2a3,e,,,,", "2b1,f,y,,,", "3,g,,,,", "4,h,,,,yes"]))
e = load_csv("\\n".join([",".join(r) for r in rows_of(d)]), "second.csv")
names = lambda d: sorted((d.get_node_by_id(f[2]["sourceRef"])[1]["node_name"], d.get_node_by_id(f[2]["targetRef"])[1]["node_name"]) for f in d.get_flows())
assert names(d) == names(e)
''', "an empty branch of a split inside a branch", "the empty branch jumps to a row outside its split after export and import")

bug("c19-same-place", "C19", [(VIS, """    nx.draw_networkx_edges(g, pos)

    edge_labels = {}
""", """    nx.draw_networkx_edges(g, pos, edgelist=[edge for edge in g.edges() if pos[edge[0]] != pos[edge[1]]])

    edge_labels = {}
""")], '''
import networkx as nx, matplotlib.pyplot as plt
import bpmn_python.bpmn_diagram_visualizer as vis
d, p = new()
a, _ = d.add_task_to_diagram(p, "a")
b, _ = d.add_task_to_diagram(p, "b")
d.add_sequence_flow_to_diagram(p, a, b, "f")
seen = []
for name in ("nodes", "labels", "edge_labels"):
    setattr(nx, "draw_networkx_" + name, lambda *a, **k: None)
nx.draw_networkx_edges = lambda g, pos, edgelist=None, **k: seen.extend(g.edges() if edgelist is None else edgelist)
plt.show = lambda: None
vis.visualize_diagram(d)
assert len(seen) == 1, seen
''', "a diagram built with the editing methods and not laid out: its nodes are all at the same place",
    "flows between nodes at the same place are left out of the drawing")

bug("c19-unlabelled-gateway", "C19", [(VIS, """    for node in g.nodes(data=True):
        node_labels[node[0]] = node[1].get(consts.Consts.node_name)
""", """    names = {}
    for node in g.nodes(data=True):
        names[node[1].get(consts.Consts.node_name)] = node[0]
    for name, node_id in names.items():
        node_labels[node_id] = name
""")], '''
import networkx as nx, matplotlib.pyplot as plt
import bpmn_python.bpmn_diagram_visualizer as vis
d, p = new()
a, _ = d.add_task_to_diagram(p, "a")
b, _ = d.add_task_to_diagram(p, "a")
labels = {}
for name in ("nodes", "edges", "edge_labels"):
    setattr(nx, "draw_networkx_" + name, lambda *a, **k: None)
nx.draw_networkx_labels = lambda g, pos, labels_=None, **k: labels.update(labels_ or k.get("labels") or {})
plt.show = lambda: None
vis.visualize_diagram(d)
assert labels == {a: "a", b: "a"}, labels
''', "two nodes with the same name", "only one of them is labelled in the drawing")

bug("c20-csv-export-sorts", "C20", [(CE, """            next_node = None
            alphabet_suffix_index = 0
""", """            next_node = None
            alphabet_suffix_index = 0
            # empty branches last
            outgoing_flows.sort(key=lambda flow_id: len(nodes_classification[
                bpmn_graph.get_flow_by_id(flow_id)[2][consts.Consts.target_ref]]))
""")], BLOCK + '''
d = block()
before = [list(n[1]["outgoing"]) for n in d.get_nodes()]
d.export_csv_file(OUT + "/", "x.csv")
assert before == [list(n[1]["outgoing"]) for n in d.get_nodes()]
''', "a split whose first branch is empty", "the CSV export reorders the outgoing flows of the diagram's gateway")

bug("c21-shared-process-list", "C21", [(CI, """                                      consts.Consts.node_ids: list(process_dict.keys())}
        process_elements_dict[process_id] = process_element_attributes
""", """                                      consts.Consts.node_ids: node_ids}
        node_ids.extend(order for order in process_dict if order not in node_ids)
        process_elements_dict[process_id] = process_element_attributes
"""), (CI, "    def populate_process_elements_dict(process_elements_dict, process_dict):\n",
       "    def populate_process_elements_dict(process_elements_dict, process_dict, node_ids=[]):\n")], '''
a = load_csv("\\n".join(["0,s,,,,", "1,a,,,,", "2,b,,,,", "3,e,,,,yes"]))
b = load_csv("\\n".join(["0,s,,,,", "1,e,,,,yes"]), "second.csv")
assert list(b.process_elements[list(b.process_elements)[0]]["node_ids"]) == ["0", "1"]
''', "two diagrams loaded from spreadsheets, the first with more rows",
    "the node list of a process also holds rows of spreadsheets loaded before")

bug("c22-loop-waypoint", "C22", [(LAY, """        else:
            flow[2][consts.Consts.waypoints] = [(str(int(source_node[1][consts.Consts.x]) + 50),
                                                 str(int(source_node[1][consts.Consts.y]) + 50)),
                                                (str(int(target_node[1][consts.Consts.x])),
                                                 str(int(target_node[1][consts.Consts.y]) + 50))]
""", """        else:
            flow[2][consts.Consts.waypoints] = [(str(int(source_node[1][consts.Consts.x]) + 50),
                                                 str(int(source_node[1][consts.Consts.y]) + 50)),
                                                (str(int(target_node[1][consts.Consts.x])),
                                                 int(target_node[1][consts.Consts.y]) + 50)]
""")], '''
import bpmn_python.bpmn_diagram_layouter as layouter
d = load_csv("\\n".join(["0,s,,,,", "1,a,,,,", "2a1,b,yes,,,", "2a2,goto 1,,,,", "2b1,c,no,,,", "2b2,e,,,,yes"]))
layouter.generate_layout(d)
again(d)
''', "a goto from an activity to an activity in another row of the grid",
    "the laid out process cannot be exported")
