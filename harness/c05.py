# coding=utf-8
"""C05: the exported document is well-formed BPMN: everything once, in its place, with resolving references"""
from symex.api import H, get, read_xml, same_items, write_xml, X
from . import docgen as D
from . import gens as G

SEM = {"process", "collaboration", "participant", "messageFlow", "laneSet", "childLaneSet", "lane", "sequenceFlow"}


def by_id(ctx, elems, what):
    out = {}
    for e in elems:
        i = e.attrs.get("id")
        if i is None:
            ctx.fail("%s: element %s without id" % (what, e.tag))
        out.setdefault("k", []).append((i, e))
    return out.get("k", [])


def find(ctx, lst, wid, what):
    hit = [e for i, e in lst if i == wid]
    if len(hit) != 1:
        ctx.fail("%s: %d elements with the expected id" % (what, len(hit)))
    return hit[0]


def check_container(ctx, x, cont, doc, what):
    """x: exported element of process/sub-process cont"""
    nodes = [n for n in doc.order if n.exp["process"] is cont.id]
    flows = [f for f in doc.flows.values() if f.exp["process"] is cont.id]
    xn = [e for e in x.kids() if e.local in D.NODE_TYPES]
    xf = x.kids("sequenceFlow")
    ctx.eq(len(xn), len(nodes), what + "number of node elements in a container")
    ctx.eq(len(xf), len(flows), what + "number of sequenceFlow elements in a container")
    ids = by_id(ctx, xn, what)
    for n in nodes:
        e = find(ctx, ids, n.id, what + "node")
        ctx.eq(e.local, n.exp["type"], what + "element name")
        ctx.eq(e.attrs.get("name", ""), n.exp["node_name"], what + "name")
        for k, dflt in D.ATTRS[n.exp["type"]]:
            ctx.eq(e.attrs.get(k, dflt), n.exp[k], what + "attribute " + k)
        same_items(ctx, [c.text() for c in e.kids("incoming")], n.exp["incoming"], what + "incoming")
        same_items(ctx, [c.text() for c in e.kids("outgoing")], n.exp["outgoing"], what + "outgoing")
        if "event_definitions" in n.exp:
            same_items(ctx, [(c.local, c.attrs.get("id", "")) for c in e.kids()
                             if c.local.endswith("EventDefinition")], n.exp["event_definitions"],
                       what + "event definitions")
        if n.exp["type"] == "subProcess":
            check_container(ctx, e, n, doc, what)
    ids = by_id(ctx, xf, what)
    for f in flows:
        e = find(ctx, ids, f.id, what + "flow")
        ctx.eq(e.attrs.get("sourceRef"), f.exp["sourceRef"], what + "sourceRef")
        ctx.eq(e.attrs.get("targetRef"), f.exp["targetRef"], what + "targetRef")
        cs = e.kids("conditionExpression")
        if "conditionExpression" in f.exp:
            ctx.eq(len(cs), 1, what + "number of conditions")
            ctx.eq(cs[0].attrs.get("id", ""), f.exp["conditionExpression"]["id"], what + "condition id")
            ctx.eq(cs[0].text(), f.exp["conditionExpression"]["conditionExpression"], what + "condition text")
            if not (f.exp["name"] == ""):
                ctx.eq(e.attrs.get("name", ""), f.exp["name"], what + "flow name")
        else:
            ctx.eq(len(cs), 0, what + "number of conditions")
            ctx.eq(e.attrs.get("name", ""), f.exp["name"], what + "flow name")


def check_lanes(ctx, x, ls, what):
    """x: exported laneSet or childLaneSet element"""
    ctx.eq(x.attrs.get("id", ""), ls["id"], what + "id of a lane set")
    lanes = x.kids("lane")
    ctx.eq(len(lanes), len(ls["lanes"]), what + "number of lanes")
    ids = by_id(ctx, lanes, what)
    for lid, l in ls["lanes"].items():
        e = find(ctx, ids, lid, what + "lane")
        ctx.eq(e.attrs.get("name", ""), l["name"], what + "lane name")
        same_items(ctx, [c.text() for c in e.kids("flowNodeRef")], l["flowNodeRefs"], what + "nodes of a lane")
        cs = e.kids("childLaneSet")
        ctx.eq(len(cs), 1 if l["childLaneSet"] else 0, what + "child lane sets")
        if l["childLaneSet"]:
            check_lanes(ctx, cs[0], l["childLaneSet"], what)


def check_collab(ctx, root, doc, what):
    cs = root.kids("collaboration")
    ctx.eq(len(cs), 0 if doc.collab is None else 1, what + "collaboration elements")
    if doc.collab is not None:
        same_items(ctx, [p.attrs.get("id") for p in cs[0].kids("participant")], [p.id for p in doc.parts],
                   what + "participants")
        same_items(ctx, [(m.attrs.get("id"), m.attrs.get("sourceRef"), m.attrs.get("targetRef"))
                         for m in cs[0].kids("messageFlow")],
                   [(m.id, m.exp["sourceRef"], m.exp["targetRef"]) for m in doc.mflows], what + "message flows")
        for p in doc.parts:
            e = find(ctx, by_id(ctx, cs[0].kids("participant"), what), p.id, what + "participant")
            ctx.eq(e.attrs.get("name", ""), p.exp["name"], what + "participant name")
            ctx.eq(e.attrs.get("processRef", ""), p.exp["processRef"], what + "participant process")
        for m in doc.mflows:
            e = find(ctx, by_id(ctx, cs[0].kids("messageFlow"), what), m.id, what + "message flow")
            ctx.eq(e.attrs.get("name", ""), m.exp["name"], what + "message flow name")


# the order the BPMN schema prescribes for the children of an element
RANK = {"definitions": {"collaboration": 0, "process": 0, "BPMNDiagram": 1},
        "collaboration": {"participant": 0, "messageFlow": 1},
        "lane": {"flowNodeRef": 0, "childLaneSet": 1},
        "process": dict({"laneSet": 0}, **{t: 1 for t in D.NODE_TYPES + ["sequenceFlow"]})}
for _t in D.NODE_TYPES:
    RANK[_t] = dict({"incoming": 0, "outgoing": 1}, **{t: 2 for t in D.NODE_TYPES + ["sequenceFlow"]})
    for _ds in D.DEFS.values():
        RANK[_t].update({_d + "EventDefinition": 2 for _d in _ds})


def check_schema(ctx, root, what):
    """the order of elements, and no empty text where the schema wants an identifier or a truth value"""
    for e in root.iter():
        rank = RANK.get(e.local, {})
        seen = -1
        for c in e.kids():
            r = rank.get(c.local)
            if r is not None:
                ctx.ok(r >= seen, "%sorder of %s in %s" % (what, c.local, e.local))
                seen = r
        for k in ("id", "bpmnElement", "sourceRef", "targetRef", "processRef", "isHorizontal", "isExpanded"):
            if k in e.attrs:
                ctx.ok(not (e.attrs[k] == ""), "%sempty %s of %s" % (what, k, e.local))


def check_doc(ctx, root, doc, di, what):
    ctx.eq(root.local, "definitions", what + "root element")
    ps = root.kids("process")
    ctx.eq(len(ps), len(doc.procs), what + "number of process elements")
    ids = by_id(ctx, ps, what)
    for p in doc.procs:
        e = find(ctx, ids, p.id, what + "process")
        for k, d in D.PROC_ATTRS:
            ctx.eq(e.attrs.get(k, d), p.exp[k], what + "process " + k)
        check_container(ctx, e, p, doc, what)
        ls = e.kids("laneSet")
        ctx.eq(len(ls), 1 if "laneSet" in p.exp else 0, what + "number of lane sets")
        if ls:
            check_lanes(ctx, ls[0], p.exp["laneSet"], what)
    check_collab(ctx, root, doc, what)
    check_schema(ctx, root, what)
    dia = root.kids("BPMNDiagram")
    if not di:
        ctx.eq(len(dia), 0, what + "diagram elements")
        for e in root.iter():
            ctx.ok(e.local not in ("BPMNShape", "BPMNEdge", "BPMNPlane"), what + "drawing elements")
        return
    # every id once
    for drawing in (False, True):
        seen = []
        for e in root.iter():
            if (e.local in ("BPMNShape", "BPMNEdge")) == drawing and "id" in e.attrs and e.attrs["id"] != "":
                for i in seen:
                    if i == e.attrs["id"]:
                        ctx.fail(what + "id used twice: " + D.plain(i))
                seen.append(e.attrs["id"])
    ctx.eq(len(dia), 1, what + "diagram elements")
    planes = dia[0].kids("BPMNPlane")
    ctx.eq(len(planes), 1, what + "plane elements")
    shapes, edges = planes[0].kids("BPMNShape"), planes[0].kids("BPMNEdge")
    lanes = []

    def walk(ls):
        for lid, l in ls["lanes"].items():
            if "width" in l:
                lanes.append(lid)
            if l["childLaneSet"]:
                walk(l["childLaneSet"])
    for p in doc.procs:
        if "laneSet" in p.exp:
            walk(p.exp["laneSet"])
    same_items(ctx, [s.attrs.get("bpmnElement") for s in shapes],
               [n.id for n in doc.order if "width" in n.exp] + lanes +
               [p.id for p in doc.parts if "width" in p.exp], what + "shapes")
    same_items(ctx, [s.attrs.get("bpmnElement") for s in edges],
               [f.id for f in list(doc.flows.values()) + doc.mflows if "waypoints" in f.exp], what + "edges")
    for s in shapes:
        ctx.eq(len(s.kids("Bounds")), 1, what + "bounds of a shape")


def exporter(gen, **kw):
    def fn(ctx):
        doc = gen(ctx)
        path = write_xml(ctx, "in.xml", G.finish(ctx, doc, **kw))
        dg = D.load(ctx, path)
        di = ctx.flag("with.di")
        ctx.reach("di" if di else "nodi")
        check_doc(ctx, read_xml(ctx, D.reexport(ctx, dg, di=di)), doc, di, "with DI: " if di else "without DI: ")
        ctx.reach("done")
    return fn


R = ["done", "di", "nodi"]
HARNESSES = [
    H("node_attrs", exporter(G.node_attrs), "as C01 node_attrs, both exports", {"prefixes": 1}, {"prefixes": 3},
      reach=R + D.NODE_TYPES),
    H("event_defs", exporter(G.event_defs), "as C01 event_defs, both exports", {"defs": 1}, {"defs": 3}, reach=R),
    H("flows", exporter(G.flows), "3 nodes, every set of at most 2 (3) flows, both exports", {"nodes": 3, "flows": 2},
      {"nodes": 3, "flows": 3}, reach=R),
    H("flow_attrs", exporter(G.flow_attrs), "as C01 flow_attrs, both exports", reach=R + ["condition"]),
    H("process_attrs", exporter(G.process_attrs), "as C01 process_attrs, both exports", {"prefixes": 1},
      {"prefixes": 2}, reach=R),
    H("nesting", exporter(G.nesting), "as C01 nesting (quick: depth 2), both exports", {"depth": 2}, {"depth": 3},
      reach=R + ["depth2"]),
    H("lanes", exporter(G.lanes), "as C01 lanes (quick: 1 lane, depth 1)", {"lanes": 1, "depth": 1},
      {"lanes": 3, "depth": 2}, reach=R),
    H("collab", exporter(G.collab), "as C01 collab, both exports", {"msgs": 2}, {"msgs": 3}, reach=R + ["external"]),
    H("mixed", exporter(G.noise), "the document with every construct", reach=R),
    H("no_pools", exporter(G.no_pools), "a collaboration without pools, with or without a message flow", reach=R),
    H("big", exporter(G.big), "one document with more of everything: 88 nodes of "
      "all types with all attributes and event definitions, 4 levels of sub-processes and of lanes, 9 pools, 40 flows with up "
      "to 24 waypoints",
      {"variants": 3}, reach=["done", "big"]),
    H("undrawn", exporter(G.undrawn), "the document with every construct and a data object, 11 choices of what has "
      "not been drawn", reach=["done", "undrawn node", "undrawn flow", "undrawn lane"]),
    H("elsewhere", exporter(G.elsewhere), "8 nodes in 2 processes and 2 nested sub-processes, a flow between any two of the "
      "containers, written in any of them", reach=["done", "crossing", "local"]),
    H("orders", exporter(G.orders), "the document with every construct, its elements in 6 orders", reach=["done"] + D.ORDERS),
    H("foreign", exporter(G.foreign), "the document with every construct and standard BPMN content the library does not "
      "represent", reach=["done"] + D.FOREIGN),
]
