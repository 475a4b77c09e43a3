# coding=utf-8
"""C07: incoming/outgoing lists, flow registry and graph edges always agree"""
from symex.api import H, get, same_items, write_csv, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G


def invariant(ctx, dg, what=""):
    nodes = D.graph_nodes(dg)
    edges = D.graph_edges(dg)
    reg = dg.sequence_flows
    mfl = dg.collaboration.get("messageFlows", {}) if dg.collaboration else {}
    mids = list(mfl.keys())
    seq = [(u, v, a) for u, v, a in edges if not any(a["id"] == m for m in mids)]
    msg = [(u, v, a) for u, v, a in edges if any(a["id"] == m for m in mids)]
    same_items(ctx, [a["id"] for _, _, a in seq], list(reg.keys()), what + "flows of the graph and of the registry")
    same_items(ctx, [a["id"] for _, _, a in msg], mids, what + "message flows of the graph and of the collaboration")
    out, inc = {}, {}
    for n in nodes:
        out[n], inc[n] = [], []
    for u, v, a in edges:
        same_items(ctx, [u, v], [a["sourceRef"], a["targetRef"]], what + "ends of an edge")
        get(ctx, out, a["sourceRef"], what + "source of a flow").append(a["id"])
        get(ctx, inc, a["targetRef"], what + "target of a flow").append(a["id"])
    for u, v, a in seq:
        r = get(ctx, reg, a["id"], what + "registry")
        for k in ("sourceRef", "targetRef", "name"):
            ctx.eq(get(ctx, r, k, what + "registry"), get(ctx, a, k, what + "edge"),
                   what + "registry and graph: " + k)
    for n, a in nodes.items():
        same_items(ctx, a.get("outgoing", []), out[n], what + "outgoing list")
        same_items(ctx, a.get("incoming", []), inc[n], what + "incoming list")


def edited(ctx):
    """any flow set made with the editing methods; the invariant holds after every call"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    n = ctx.p("nodes", 4)
    nodes, flows = {}, {}
    ids = []
    for i in range(n):
        nid, e = A.add(ctx, dg, pid, "n%d" % i, A.KINDS[(2, 4, 0, 3, 1)[i % 5]], full=False)
        nodes[nid] = e
        ids.append(nid)
    fl = G.pick_flows(ctx, n, ctx.p("flows", 3))
    order = list(fl)
    if ctx.flag("reversed"):
        order.reverse()
    for i, (a, b) in enumerate(order):
        A.add_flow(ctx, dg, pid, nodes, flows, "f%d" % i, ids[a], ids[b], named=i % 2 == 0)
    invariant(ctx, dg)
    A.check_all(ctx, dg, nodes, flows)
    ctx.reach("flows%d" % len(fl))


def fan(ctx):
    """one node with many flows"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    c = A.simple_node(ctx, dg, pid, "c", "exclusiveGateway")
    k = ctx.p("fan", 5)
    others = [A.simple_node(ctx, dg, pid, "o%d" % i, "task") for i in range(k)]
    n_in, n_out = 0, 0
    for i, o in enumerate(others):
        d = ctx.pick("dir%d" % i, 3)
        if d == 1:
            dg.add_sequence_flow_to_diagram(pid, c, o, ctx.text("f%d" % i))
            n_out += 1
        elif d == 2:
            dg.add_sequence_flow_to_diagram(pid, o, c, ctx.text("f%d" % i))
            n_in += 1
        invariant(ctx, dg, "after %d flows: " % (n_in + n_out))
    ctx.eq(len(dg.sequence_flows), n_in + n_out, "number of flows")
    ctx.reach("done")


def imported(ctx):
    """flows whose ends may or may not list them"""
    doc = D.Doc(ctx)
    p = doc.process("p")
    n = ctx.p("nodes", 3)
    ns = [doc.node(p, "n%d" % i, ["startEvent", "exclusiveGateway", "task", "subProcess"][i % 4],
                   name=ctx.text("n%d.name" % i)) for i in range(n)]
    fl = G.pick_flows(ctx, n, ctx.p("flows", 2))
    for i, (a, b) in enumerate(fl):
        doc.flow(p, "f%d" % i, ns[a], ns[b], name=ctx.text("f%d.name" % i), list_src=ctx.flag("ls%d" % i),
                 list_tgt=ctx.flag("lt%d" % i))
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    invariant(ctx, dg, "after import: ")
    if ctx.flag("edit"):
        new, _ = dg.add_task_to_diagram(p.id, task_name=ctx.text("new.name"))
        a = ctx.pick("to", n)
        if ctx.flag("rev"):
            dg.add_sequence_flow_to_diagram(p.id, new, ns[a].id, ctx.text("nf.name"))
        else:
            dg.add_sequence_flow_to_diagram(p.id, ns[a].id, new, ctx.text("nf.name"))
        invariant(ctx, dg, "after import and editing: ")
        ctx.eq(len(dg.sequence_flows), len(fl) + 1, "number of flows")
        ctx.reach("edit")
    ctx.reach("done")


def fan_import(ctx):
    """a node with many flows, listed or not, in a file"""
    doc = D.Doc(ctx)
    p = doc.process("p")
    k = ctx.p("fan", 4)
    c = doc.node(p, "c", "inclusiveGateway", name=ctx.text("c.name"))
    for i in range(k):
        o = doc.node(p, "o%d" % i, "task", name=ctx.text("o%d.name" % i))
        d = ctx.pick("dir%d" % i, 3)
        ls = ctx.flag("listed%d" % i)
        if d == 1:
            doc.flow(p, "f%d" % i, c, o, name=ctx.text("f%d.name" % i), list_src=ls, list_tgt=ls)
        elif d == 2:
            doc.flow(p, "f%d" % i, o, c, name=ctx.text("f%d.name" % i), list_src=ls, list_tgt=ls)
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    invariant(ctx, dg)
    ctx.eq(len(dg.sequence_flows), len(doc.flows), "number of flows")
    ctx.reach("done")


def messages(ctx):
    doc = G.big(ctx) if ctx.p("big") else G.collab(ctx)
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    invariant(ctx, dg)
    ctx.reach("done")


def nested(ctx):
    doc = G.nesting(ctx)
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    invariant(ctx, dg)
    ctx.reach("done")


def csv_import(ctx):
    from . import csvgen as C
    rows, _ = C.sheet(ctx)
    dg = D.new_diagram(ctx)
    dg.load_diagram_from_csv_file(write_csv(ctx, "in.csv", rows))
    invariant(ctx, dg, "after CSV import: ")
    if ctx.flag("edit"):
        new, _ = dg.add_task_to_diagram("process_1", task_name=ctx.text("new.name"))
        first = [n for n in dg.diagram_graph.nodes if n == "0"][0]
        dg.add_sequence_flow_to_diagram("process_1", new, first, ctx.text("nf.name"))
        invariant(ctx, dg, "after CSV import and editing: ")
        ctx.reach("edit")
    ctx.reach("done")


HARNESSES = [
    H("csv_import", csv_import, "all spreadsheet shapes of C10 (nested splits, joins, jumps), the conditions of the first "
      "split any text, then a task and a flow added", reach=["edit", "done"], quick_s=240),
    H("edited", edited, "4 (5) nodes, every set of at most 3 flows, one per pair of nodes, added in two orders",
      {"nodes": 4, "flows": 3}, {"nodes": 5, "flows": 3}, reach=["flows0", "flows3"]),
    H("fan", fan, "one node with up to 5 (6) flows, each in or out or absent; checked after every call", {"fan": 5},
      {"fan": 6}, reach=["done"]),
    H("imported", imported, "3 nodes, at most 2 (3) flows, each listed or not at either end, then an optional edit",
      {"nodes": 3, "flows": 2}, {"nodes": 3, "flows": 3}, reach=["done", "edit"], quick_s=100),
    H("fan_import", fan_import, "one node with up to 4 (5) flows, each in or out or absent, listed or not", {"fan": 4},
      {"fan": 5}, reach=["done"]),
    H("messages", messages, "as C01 collab", {"msgs": 2}, {"msgs": 3}, reach=["done"]),
    H("big", messages, "a document of 88 nodes, sub-processes and lanes four deep, 9 pools, 42 flows (C01 big)",
      {"big": True}, reach=["done", "big"]),
    H("nested", nested, "as C01 nesting", {"depth": 2}, {"depth": 3}, reach=["done"]),
]


def flow_pair(ctx):
    """two flows between the same two nodes (the graph has one edge per pair of nodes: known finding)"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    a = A.simple_node(ctx, dg, pid, "a", "exclusiveGateway")
    b = A.simple_node(ctx, dg, pid, "b", "task")
    dg.add_sequence_flow_to_diagram(pid, a, b, "f")
    if ctx.pick("opposite", 2):
        dg.add_sequence_flow_to_diagram(pid, b, a, "g")
    else:
        dg.add_sequence_flow_to_diagram(pid, a, b, "g")
    invariant(ctx, dg)


FINDING_HARNESSES = [H("flow_pair", flow_pair, "two flows between the same two nodes")]
