# coding=utf-8
"""C01: importing a BPMN XML document yields exactly the model the document describes"""
from symex.api import H, write_xml
from . import docgen as D
from . import gens as G


def importer(gen, **kw):
    def fn(ctx):
        doc = gen(ctx)
        path = write_xml(ctx, "in.xml", G.finish(ctx, doc, **kw))
        dg = D.load(ctx, path)
        D.check_nodes(ctx, dg, doc, di=True)
        D.check_order(ctx, dg, doc)
        D.check_flows(ctx, dg, doc, di=True)
        D.check_processes(ctx, dg, doc)
        D.check_lanes(ctx, dg, doc, di=True)
        D.check_collab(ctx, dg, doc, di=True)
        D.check_diagram(ctx, dg, doc)
        ctx.reach("done")
    return fn


HARNESSES = [
    H("node_attrs", importer(G.node_attrs), "1 process, 1 node of each of the 16 supported types, every attribute "
      "present/absent, arbitrary text values, 2 namespace prefixes", {"prefixes": 2}, {"prefixes": 3},
      reach=["done"] + D.NODE_TYPES),
    H("event_defs", importer(G.event_defs), "each event type with 0..2 (thorough 3) event definitions of any supported "
      "type, ids present/absent", {"defs": 2}, {"defs": 3}, reach=["done", "defs0", "defs2"]),
    H("process_attrs", importer(G.process_attrs), "1..2 processes, every attribute present/absent", {"dname": True},
      {"prefixes": 3}, reach=["done", "procs2"]),
    H("flows", importer(G.flows), "3 (thorough 4) nodes, every set of at most 2 (3) flows incl. self loops, at most one "
      "flow per pair of nodes, listed in the nodes or not", {"nodes": 3, "flows": 2}, {"nodes": 4, "flows": 3},
      reach=["done", "flows2"]),
    H("flow_attrs", importer(G.flow_attrs), "1 flow, name / condition / condition id / incoming / outgoing entries "
      "present or absent", reach=["done", "condition"]),
    H("nesting", importer(G.nesting), "1..2 processes, sub-processes nested to depth 2 (3), 0..2 nodes each",
      {"depth": 2, "exflag": True}, {"depth": 3}, reach=["done", "depth2"]),
    H("lanes", importer(G.lanes), "0..2 (3) lanes, child lanes to depth 2, 0..2 node references", {"lanes": 2},
      {"lanes": 3}, reach=["done", "lanes2", "child1"]),
    H("collab", importer(G.collab), "1..2 pools with a process, 0..1 without, 0..2 (3) message flows between nodes and pools, distinct "
      "pairs", {"msgs": 2}, {"msgs": 3}, reach=["done", "external", "msgs2"]),
    H("leaves", importer(G.leaves), "a fixed document using every construct; references in incoming, outgoing and "
      "flowNodeRef and texts of conditions with surrounding space, comments, CDATA", reach=["done"] + D.LEAF_KINDS),
    H("foreign", importer(G.foreign), "a fixed document using every construct, with standard BPMN content the library "
      "does not represent: documentation, annotations, data, labels, root elements, details of events",
      reach=["done"] + D.FOREIGN),
    H("orders", importer(G.orders), "a fixed document using every construct, its elements in 6 orders",
      reach=["done"] + D.ORDERS),
    H("noise", importer(G.noise), "a fixed document using every construct, 3x2 namespace prefixes, whitespace / comments "
      "/ processing instructions / vendor extensions in every container", reach=["done"] + D.NOISE),
    H("no_pools", importer(G.no_pools), "a collaboration without pools, with or without a message flow", reach=["done"]),
    H("big", importer(G.big), "one document with more of everything: 88 nodes of "
      "all types with all attributes and event definitions, 4 levels of sub-processes and of lanes, 9 pools, 40 flows with up "
      "to 24 waypoints",
      reach=["done", "big"]),
    H("undrawn", importer(G.undrawn), "the document with every construct and a data object, 11 choices of what has "
      "not been drawn", reach=["done", "undrawn node", "undrawn flow", "undrawn lane"]),
    H("elsewhere", importer(G.elsewhere), "8 nodes in 2 processes and 2 nested sub-processes, a flow between any two of the "
      "containers, written in any of them", reach=["done", "crossing", "local"]),
]


def flow_pair(ctx):
    """two flows between the same two nodes (the graph has one edge per pair of nodes: known finding)"""
    doc = D.Doc(ctx)
    p = doc.process("p")
    a = doc.node(p, "a", "exclusiveGateway", name="a")
    b = doc.node(p, "b", "task", name="b")
    doc.flow(p, "f", a, b, name="f")
    if ctx.pick("opposite", 2):
        doc.flow(p, "g", b, a, name="g")
    else:
        doc.flow(p, "g", a, b, name="g")
    return doc


FINDING_HARNESSES = [H("flow_pair", importer(flow_pair), "two flows between the same two nodes")]
