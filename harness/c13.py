# coding=utf-8
"""C13: layout changes only the drawing, anchors the flows and runs from left to right"""
from symex.api import H, plain, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G
from . import snap as S
from .c12 import KIND, acyclic, LARGE, build, dag, label, large, layout, number, rotate


def check(ctx, dg, before, n, ids, fl, what):
    after = S.snap(dg)
    S.same(ctx, S.without(after, ("x", "y"), ("waypoints",)), S.without(before, ("x", "y"), ("waypoints",)),
           what + "content of the diagram")
    pos = {}
    for nid, a in dg.get_nodes():
        pos[plain(nid)] = tuple(number(ctx, a[k], k) for k in ("x", "y", "width", "height"))
    fs = dg.get_flows()
    ctx.eq(len(fs), len(fl), what + "number of flows")
    forward = acyclic(n, fl)
    for u, v, a in fs:
        ways = a.get("waypoints")
        if not isinstance(ways, list) or len(ways) < 2:
            ctx.fail(what + "a flow has less than two waypoints")
        ws = [(number(ctx, w[0], "waypoint"), number(ctx, w[1], "waypoint")) for w in ways]
        for (px, py), nid, end in ((ws[0], a["sourceRef"], "starts at its source"),
                                   (ws[-1], a["targetRef"], "ends at its target")):
            x, y, w, h = pos[plain(nid)]
            ctx.ok(x <= px <= x + w and y <= py <= y + h, "%sa flow %s node: %s, node at %s" % (what, end, (px, py), (x, y)))
        if forward:
            ctx.ok(pos[plain(a["sourceRef"])][0] < pos[plain(a["targetRef"])][0],
                   what + "the target of a flow is right of its source")
            ctx.ok(all(p[0] <= q[0] for p, q in zip(ws, ws[1:])) and ws[0][0] < ws[-1][0],
                   what + "a flow runs from left to right: %s" % (ws,))


def graphs(ctx):
    n = ctx.p("nodes", 3)
    fl = list(G.pick_flows(ctx, n, ctx.p("flows", 9), ctx.p("loops", True)))
    if ctx.p("orders"):
        fl = rotate(ctx, fl)
    dg, ids = build(ctx, n, fl)
    before = S.snap(dg)
    layout(ctx, dg)
    check(ctx, dg, before, n, ids, fl, "flows %s: " % (fl,))
    label(ctx, n, fl)


def dags(ctx):
    n = ctx.p("nodes", 5)
    lo, hi = ctx.p("part", (0, 1))
    fl = rotate(ctx, dag(ctx, n, ctx.p("flows", 5), lo, hi))
    dg, ids = build(ctx, n, fl)
    before = S.snap(dg)
    layout(ctx, dg)
    check(ctx, dg, before, n, ids, fl, "flows %s: " % (fl,))
    label(ctx, n, fl)


def larges(ctx):
    n, fl, kinds = large(ctx)
    dg, ids = build(ctx, n, fl, kinds)
    before = S.snap(dg)
    layout(ctx, dg)
    check(ctx, dg, before, n, ids, fl, "flows %s: " % (fl,))
    label(ctx, n, fl)


FORWARD = [(4, [(0, 1), (0, 2), (1, 3), (2, 3)]), (4, [(0, 1), (0, 2), (0, 3), (1, 3)]), (3, [(0, 1), (1, 2), (0, 2)]),
           (3, [(0, 2), (1, 2)]), (4, [(0, 1), (1, 2), (2, 3), (3, 1)]), (5, [(0, 1), (1, 2), (1, 3), (3, 4), (1, 4)])]


def types(ctx):
    """waypoints depend on the types of the nodes"""
    n, fl = FORWARD[ctx.pick("shape", ctx.p("shapes", 4))]
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    ids = [A.simple_node(ctx, dg, pid, "n%d" % i, ctx.choice("type%d" % i, D.NODE_TYPES) if i in (0, n - 1) else
                         ["task", "parallelGateway"][ctx.pick("inner%d" % i, 2)]) for i in range(n)]
    for i, (a, b) in enumerate(fl):
        dg.add_sequence_flow_to_diagram(pid, ids[a], ids[b], ctx.text("f%d.name" % i))
    before = S.snap(dg)
    layout(ctx, dg)
    check(ctx, dg, before, n, ids, fl, "flows %s: " % (fl,))
    ctx.reach("shape%d" % len(fl))


def content(ctx):
    """nodes made with the editing methods, all attributes, two flows"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph(ctx.text("dname"))
    pid = dg.add_process_to_diagram(ctx.text("pname"), ctx.flag("closed"), ctx.flag("exec"))
    ids = []
    for i in range(3):
        ids.append(A.add(ctx, dg, pid, "n%d" % i, A.KINDS[(ctx.pick("kind", len(A.KINDS)) + 3 * i) % len(A.KINDS)],
                         full=(i == 0))[0])
    fl = [(0, 1), (0, 2)]
    for i, (a, b) in enumerate(fl):
        dg.add_sequence_flow_to_diagram(pid, ids[a], ids[b], ctx.text("f%d.name" % i))
    before = S.snap(dg)
    layout(ctx, dg)
    check(ctx, dg, before, 3, ids, fl, "")
    ctx.reach("done")


def imported(ctx):
    """what was read from XML stays, except the drawing"""
    gen = G.big if ctx.p("big") else [G.collab, G.nesting, G.lanes, G.node_attrs, G.flow_attrs][ctx.pick("gen", 5)]
    doc = gen(ctx)
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    before = S.snap(dg)
    layout(ctx, dg)
    S.same(ctx, S.without(S.snap(dg), ("x", "y"), ("waypoints",)), S.without(before, ("x", "y"), ("waypoints",)),
           "content of the diagram")
    ctx.reach(gen.__name__)


HARNESSES = [
    H("graphs3", graphs, "3 nodes, every set of flows incl. self loops, two flow orders", {"nodes": 3, "orders": True},
      reach=["acyclic", "cyclic", "selfloop", "noentry"], quick_s=100),
    H("graphs4", graphs, "4 nodes, every set of flows (one per pair), no self loops", {"nodes": 4, "flows": 6,
      "loops": False}, {"nodes": 4, "flows": 10, "loops": True}, reach=["acyclic", "cyclic", "noentry"], quick_s=100),
] + [
    H("dags5_%d" % i, dags, "5 nodes, every set of at most 6 (10) forward flows, 3 numberings, 2 flow orders", {"nodes": 5,
      "flows": 6, "part": (i, 2)}, {"nodes": 5, "flows": 10, "part": (i, 2)}, reach=["acyclic"], quick_s=100)
    for i in range(2)
] + [
    H("large", larges, "%d larger graphs (up to 30 nodes: chains, stars, trees, lattices, blocks with loops, several "
      "components), 3 assignments of types, 2 numberings, 2 flow orders" % len(LARGE), reach=["acyclic", "cyclic", "noentry"],
      quick_s=100),
    H("types", types, "4 (6) shapes, first and last node of any type, the others task or parallel gateway", {"shapes": 4},
      {"shapes": 6}, reach=["shape4", "shape3"], quick_s=100),
    H("content", content, "three nodes made with the editing methods, all arguments of the first", {}, reach=["done"]),
    H("imported", imported, "documents as in C01: pools, sub-processes, lanes, node and flow attributes", {},
      reach=["collab", "nesting", "lanes", "node_attrs", "flow_attrs"], quick_s=100),
    H("big", imported, "a document of 88 nodes, sub-processes and lanes four deep, 9 pools, 42 flows (C01 big)",
      {"big": True}, reach=["big"]),
]
ASSUMPTIONS = ["anchoring is checked for nodes of the default size (100 by 100) the editing methods give"]
