# coding=utf-8
"""C20: queries, metrics, exports and drawing leave the diagram as it was and repeat their results

Every operation is run once in order and once more in reverse order; after each run the whole diagram object is compared
with the first snapshot, and the second result with the first. An operation may refuse a diagram it is not made for (the
CSV export in particular); then it has to refuse again and must have changed nothing either.
"""
import networkx as nx

from symex.api import H, PropertyFail, X, file_exists, plain, read_csv, read_xml, write_csv, write_xml
from . import apigen as A
from . import c09, c19
from . import csvgen as C
from . import docgen as D
from . import gens as G
from .snap import copy, same, snap

METRICS = ["get_nodes_count", "get_all_gateways", "get_gateway_counts", "get_events_counts", "get_activities_counts",
           "all_activities_count", "all_gateways_count", "all_control_flow_elements_count", "all_events_count",
           "TNSE_metric", "TNIE_metric", "TNEE_metric", "TNE_metric", "NOA_metric", "NOAC_metric", "NOAJS_metric",
           "NumberOfNodes_metric", "GatewayHeterogenity_metric", "CoefficientOfNetworkComplexity_metric",
           "AverageGatewayDegree_metric", "DurfeeSquare_metric", "PerfectSquare_metric"]
LAYOUT_METRICS = ["count_crossing_points", "count_segments", "compute_longest_path", "compute_longest_path_tasks"]


def tree(x):
    if isinstance(x, X):
        return [x.tag, dict(x.attrs), [tree(c) for c in x.children if isinstance(c, (X, str))]]
    return x


def queries(ctx, dg, nid, fid, pid):
    return [
        ("get_nodes", lambda: dg.get_nodes()),
        ("get_nodes(type)", lambda: dg.get_nodes("task")),
        ("get_nodes_list_by_process_id", lambda: dg.get_nodes_list_by_process_id(pid)),
        ("get_node_by_id", lambda: dg.get_node_by_id(nid)),
        ("get_nodes_id_list_by_type", lambda: dg.get_nodes_id_list_by_type("task")),
        ("get_flows", lambda: dg.get_flows()),
        ("get_flow_by_id", lambda: dg.get_flow_by_id(fid)),
        ("get_flows_list_by_process_id", lambda: dg.get_flows_list_by_process_id(pid)),
        ("get_nodes_positions", lambda: dg.get_nodes_positions()),
    ]


def metrics(ctx, dg):
    m, l = ctx.mod("bpmn_python.bpmn_diagram_metrics"), ctx.mod("bpmn_python.diagram_layout_metrics")
    return [(n, lambda n=n: getattr(m, n)(dg)) for n in METRICS] + \
           [(n, lambda n=n: getattr(l, n)(dg)) for n in LAYOUT_METRICS]


def exports(ctx, dg):
    """first to a new file, then over the file of another export"""
    d = ctx.outdir()
    files = ["e1", "e2", "e3", "e2", "e1", "e2"]

    def xml(method):
        def f():
            name = files.pop(0)
            getattr(dg, method)(d, name)
            return tree(read_xml(ctx, d + name))
        return f

    def csv():
        name = files.pop(0)
        dg.export_csv_file(d, name)
        return [list(r) for r in read_csv(ctx, d + name)]
    return [("export_xml_file", xml("export_xml_file")), ("export_xml_file_no_di", xml("export_xml_file_no_di")),
            ("export_csv_file", csv)]


def drawing(ctx, dg):
    v = c19.vis(ctx)

    def png():
        return c19.draw_png(ctx, dg)

    def dot():
        import networkx.drawing.nx_pydot as nxp
        got = []
        with c19.Patch() as p:
            p.set(nxp, "write_dot", lambda G, path, *a, **k: got.append((copy(G), plain(path))), (v, nx, nx.drawing))
            v.bpmn_diagram_to_dot_file(dg, ctx.outdir() + "pic")
        return got

    def screen():
        import matplotlib.pyplot as plt
        calls = []
        with c19.Patch() as p:
            for name in ("draw_networkx_nodes", "draw_networkx_labels", "draw_networkx_edges", "draw_networkx_edge_labels"):
                def record(G, *a, name=name, **k):
                    calls.append((name, copy([x for x in a]), copy(k)))
                p.set(nx, name, record, (v,))
            p.set(plt, "show", lambda *a, **k: calls.append(("show",)), (v,))
            v.visualize_diagram(dg)
        return calls
    return [("bpmn_diagram_to_png", png), ("bpmn_diagram_to_dot_file", dot), ("visualize_diagram", screen)]


def run(f):
    try:
        return ("result", copy(f()))
    except PropertyFail:
        raise
    except Exception as e:
        return ("error", type(e).__name__)


def check(ctx, dg, refusing=("export_csv_file",)):
    """refusing: operations that may refuse the diagram"""
    nodes, edges = list(dg.diagram_graph.nodes()), list(dg.diagram_graph.edges(data=True))
    pids = list(dg.process_elements)
    ops = queries(ctx, dg, nodes[0] if nodes else "x", edges[0][2]["id"] if edges else "x", pids[0] if pids else "x")
    if ctx.p("what") == "queries":
        ops += metrics(ctx, dg)
    else:
        ops += exports(ctx, dg) + drawing(ctx, dg)
    before = snap(dg)
    first = {}
    for name, f in ops:
        first[name] = run(f)
        if first[name][0] == "error" and name not in refusing:
            ctx.fail("%s fails with %s" % (name, first[name][1]))
        same(ctx, snap(dg), before, "diagram after " + name)
    for name, f in reversed(ops):
        r = run(f)
        same(ctx, snap(dg), before, "diagram after the second " + name)
        same(ctx, r, first[name], "second result of " + name)
    ctx.reach("done")


# ---------------------------------------------------------------------------------------------------------

def loaded(gen, **kw):
    def fn(ctx):
        check(ctx, D.load(ctx, write_xml(ctx, "in.bpmn", G.finish(ctx, gen(ctx), **kw))))
    return fn


def types(ctx):
    """two nodes of any types and a flow, by the editing methods"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram(ctx.text("p.name"))
    a, b = [A.simple_node(ctx, dg, pid, "n%d" % i, ctx.choice("type%d" % i, D.NODE_TYPES)) for i in range(2)]
    dg.add_sequence_flow_to_diagram(pid, a, b, ctx.text("f.name"))
    check(ctx, dg, ("export_csv_file", "export_xml_file", "export_xml_file_no_di"))


def graphs(ctx):
    n, m = ctx.p("nodes", 3), ctx.p("flows", 3)
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    ns = [dg.add_task_to_diagram(pid, ctx.text("n%d.name" % i))[0] if i % 2 == 0 else
          dg.add_exclusive_gateway_to_diagram(pid, ctx.text("n%d.name" % i))[0] for i in range(n)]
    for i, (a, b) in enumerate(G.pick_flows(ctx, n, m)):
        dg.add_sequence_flow_to_diagram(pid, ns[a], ns[b], ctx.text("f%d.name" % i))
    if ctx.p("layout") and ctx.flag("laid out"):
        ctx.mod("bpmn_python.bpmn_diagram_layouter").generate_layout(dg)
        ctx.reach("laid out")
    check(ctx, dg)


def sheets(ctx):
    steps = C.pick_shape(ctx, C.JOINED)
    s = C.Sheet(steps)
    conds = C.conditions(ctx, s, 0)
    dg = D.new_diagram(ctx)
    dg.load_diagram_from_csv_file(write_csv(ctx, "in.csv", C.cells(ctx, s, conds, ctx.p("names"))))
    if ctx.flag("laid out"):
        ctx.mod("bpmn_python.bpmn_diagram_layouter").generate_layout(dg)
        check(ctx, dg, ("export_xml_file", "export_xml_file_no_di"))
    else:
        # no waypoints yet
        check(ctx, dg, ("export_xml_file", "export_xml_file_no_di", "count_crossing_points", "count_segments",
                        "visualize_diagram", "get_nodes_positions"))


def blocks(ctx):
    """a process the CSV export understands, with drawing data"""
    s = C.Sheet(C.pick_shape(ctx, C.JOINED))
    doc, _ = c09.build(ctx, s, free=0)
    check(ctx, D.load(ctx, write_xml(ctx, "in.bpmn", G.finish(ctx, doc, nways=3))), ())


def empty(ctx):
    dg = D.new_diagram(ctx)
    if ctx.flag("new"):
        dg.create_new_diagram_graph(ctx.text("name"))
        if ctx.flag("process"):
            dg.add_process_to_diagram(ctx.text("p.name"))
        check(ctx, dg, ("export_csv_file", "export_xml_file", "export_xml_file_no_di"))
    else:
        check(ctx, dg, ("export_csv_file", "export_xml_file", "export_xml_file_no_di", "bpmn_diagram_to_png",
                        "bpmn_diagram_to_dot_file"))


HARNESSES = []
for _w in ("queries", "exports"):
    _t = "9 queries and " + ("26 metrics" if _w == "queries" else "3 exports, picture, dot file and drawing")
    HARNESSES += [
        H(_w + "_rich", loaded(G.noise, nways=3), _t + ": two pools, lanes, nested nodes, condition, event, message flow; "
          "any texts", {"what": _w, "numeric": True}, reach=["done"]),
        H(_w + "_big", loaded(G.big), _t + ": a document of 88 nodes, sub-processes and lanes four deep, 9 pools, 42 flows (C01 big)",
          {"what": _w, "numeric": True}, reach=["done", "big"]),
        H(_w + "_collab", loaded(G.collab, nways=3), _t + ": up to three pools, message flows",
          {"what": _w, "numeric": True, "msgs": 1}, {"msgs": 2}, reach=["done"]),
        H(_w + "_nesting", loaded(G.nesting, nways=3), _t + ": nested sub-processes",
          {"what": _w, "numeric": True, "depth": 1}, {"depth": 2}, reach=["done"]),
        H(_w + "_lanes", loaded(G.lanes, nways=3), _t + ": nested lanes",
          {"what": _w, "numeric": True, "lanes": 1, "depth": 1}, {"lanes": 2, "depth": 2}, reach=["done"]),
        H(_w + "_attrs", loaded(G.node_attrs), _t + ": a node of every type with its attributes",
          {"what": _w, "numeric": True, "prefixes": 1}, {"prefixes": 2}, reach=["done"]),
        H(_w + "_defs", loaded(G.event_defs), _t + ": events with up to 2 definitions",
          {"what": _w, "numeric": True}, reach=["done"]),
        H(_w + "_types", types, _t + ": two nodes of any types made with the editing methods", {"what": _w}, reach=["done"]),
        H(_w + "_graphs", graphs, _t + ": 3 (4) nodes, every set of at most 3 flows, laid out or not",
          {"what": _w, "nodes": 3, "flows": 3, "layout": True}, {"nodes": 4}, reach=["done", "laid out"]),
        H(_w + "_sheets", sheets, _t + ": %d spreadsheets" % len(C.JOINED), {"what": _w}, {"names": "text"}, reach=["done"]),
        H(_w + "_blocks", blocks, _t + ": %d block-structured processes with drawing data" % len(C.JOINED),
          {"what": _w, "numeric": True}, reach=["done"]),
        H(_w + "_empty", empty, _t + ": diagrams without nodes", {"what": _w}, reach=["done"]),
    ]
