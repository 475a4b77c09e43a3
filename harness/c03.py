# coding=utf-8
"""C03: export followed by import preserves collaborations, pools, message flows and lanes"""
from symex.api import H, write_xml
from . import docgen as D
from . import gens as G


def roundtrip(gen, **kw):
    def fn(ctx):
        doc = gen(ctx)
        path = write_xml(ctx, "in.xml", G.finish(ctx, doc, **kw))
        dg = D.load(ctx, path)
        for i in range(2 if ctx.p("again") else 1):
            dg = D.load(ctx, D.reexport(ctx, dg, "out%d.xml" % i))
            what = "after %d round trips: " % (i + 1)
            D.check_lanes(ctx, dg, doc, what=what)
            D.check_collab(ctx, dg, doc, what=what)
            D.check_nodes(ctx, dg, doc, what=what)
            D.check_flows(ctx, dg, doc, what=what, exported=True)
        ctx.reach("done")
    return fn


HARNESSES = [
    H("lanes", roundtrip(G.lanes), "as C01 lanes", {"lanes": 2}, {"lanes": 3, "again": True},
      reach=["done", "lanes2", "child1", "child2"]),
    H("collab", roundtrip(G.collab), "as C01 collab", {"msgs": 2}, {"msgs": 3, "again": True},
      reach=["done", "external", "msgs2"]),
    H("mixed", roundtrip(G.noise), "the document with every construct and ignorable content", {"again": True},
      reach=["done"]),
    H("no_pools", roundtrip(G.no_pools), "a collaboration without pools, with or without a message flow", reach=["done"]),
    H("big", roundtrip(G.big), "one document with more of everything: 88 nodes of "
      "all types with all attributes and event definitions, 4 levels of sub-processes and of lanes, 9 pools, 40 flows with up "
      "to 24 waypoints", {"again": True},
      reach=["done", "big"]),
    H("undrawn", roundtrip(G.undrawn), "the document with every construct and a data object, 11 choices of what has "
      "not been drawn", {"again": True}, reach=["done", "undrawn node", "undrawn flow", "undrawn lane"]),
    H("orders", roundtrip(G.orders), "the document with every construct, its elements in 6 orders", reach=["done"] + D.ORDERS),
    H("foreign", roundtrip(G.foreign), "the document with every construct and standard BPMN content the library does not "
      "represent", reach=["done"] + D.FOREIGN),
]
