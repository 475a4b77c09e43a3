# coding=utf-8
"""C04: export followed by import preserves the drawing"""
from symex.api import H, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G
from .snap import same


def roundtrip(gen, **kw):
    def fn(ctx):
        doc = gen(ctx)
        path = write_xml(ctx, "in.xml", G.finish(ctx, doc, **kw))
        dg = D.load(ctx, path)
        for i in range(2 if ctx.p("again") else 1):
            dg = D.load(ctx, D.reexport(ctx, dg, "out%d.xml" % i))
            what = "after %d round trips: " % (i + 1)
            D.check_nodes(ctx, dg, doc, di=True, what=what)
            D.check_flows(ctx, dg, doc, di=True, what=what, exported=True)
            D.check_lanes(ctx, dg, doc, di=True, what=what)
            D.check_collab(ctx, dg, doc, di=True, what=what)
            D.check_diagram(ctx, dg, doc, what=what)
        ctx.reach("done")
    return fn


def ways(ctx):
    doc = G.di(ctx)
    names = {f.id: f.key for f in doc.flows.values()}

    def nw(f):
        return ctx.pick("ways." + f.key, ctx.p("ways", 4) + 1)
    doc.add_di(nways=nw, expanded=ctx.flag("expanded"))
    doc.di_done = True
    return doc


def drawing(dg):
    nodes = {n: {k: str(a[k]) for k in D.DI} for n, a in D.graph_nodes(dg).items()}
    flows = {a["id"]: [(str(x), str(y)) for x, y in a["waypoints"]] for _, _, a in D.graph_edges(dg)}
    return {"nodes": nodes, "flows": flows}


def made(ctx):
    """diagrams made with the editing methods, laid out or not"""
    n = ctx.p("nodes", 3)
    fl = list(G.pick_flows(ctx, n, ctx.p("flows", 3)))
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    ids = [A.add(ctx, dg, pid, "n%d" % i, A.KINDS[(2, 4, 0, 3, 1)[i % 5]], full=False)[0] for i in range(n)]
    for i, (a, b) in enumerate(fl):
        dg.add_sequence_flow_to_diagram(pid, ids[a], ids[b], ctx.text("f%d.name" % i))
    if ctx.flag("laid out"):
        ctx.mod("bpmn_python.bpmn_diagram_layouter").generate_layout(dg)
        ctx.reach("laid out")
    want = drawing(dg)
    for i in range(2):
        dg = D.load(ctx, D.reexport(ctx, dg, "out%d.xml" % i))
        same(ctx, drawing(dg), want, "drawing after %d round trips" % (i + 1))
    ctx.reach("done")


HARNESSES = [
    H("ways", roundtrip(ways), "2 nodes and a sub-process with 2 nodes, 0..4 (6) waypoints on each of 2 flows, "
      "isExpanded present/absent, arbitrary coordinate texts", {"ways": 4, "dname": True}, {"ways": 6, "again": True}, reach=["done"]),
    H("nodes", roundtrip(G.node_attrs), "a node of every type", {"prefixes": 1}, {"prefixes": 3},
      reach=["done"] + D.NODE_TYPES),
    H("nesting", roundtrip(G.nesting), "as C01 nesting", {"depth": 2, "exflag": True}, {"depth": 3, "again": True}, reach=["done"]),
    H("lanes", roundtrip(G.lanes), "as C01 lanes", {"lanes": 2}, {"lanes": 3}, reach=["done", "child2"]),
    H("collab", roundtrip(G.collab), "as C01 collab", {"msgs": 2}, {"msgs": 3, "again": True},
      reach=["done", "external", "msgs2"]),
    H("made", made, "diagrams made with the editing methods, 3 (4) nodes, every set of at most 3 flows, laid out or not",
      {"nodes": 3, "flows": 3}, {"nodes": 4}, reach=["done", "laid out"]),
    H("no_pools", roundtrip(G.no_pools), "a collaboration without pools, with or without a message flow", reach=["done"]),
    H("big", roundtrip(G.big), "one document with more of everything: 88 nodes of "
      "all types with all attributes and event definitions, 4 levels of sub-processes and of lanes, 9 pools, 40 flows with up "
      "to 24 waypoints", {"again": True},
      reach=["done", "big"]),
    H("undrawn", roundtrip(G.undrawn), "the document with every construct and a data object, 11 choices of what has "
      "not been drawn", {"again": True}, reach=["done", "undrawn node", "undrawn flow", "undrawn lane"]),
    H("orders", roundtrip(G.orders), "the document with every construct, its elements in 6 orders", reach=["done"] + D.ORDERS),
    H("foreign", roundtrip(G.foreign), "the document with every construct and standard BPMN content the library does not "
      "represent", reach=["done"] + D.FOREIGN),
]
