# coding=utf-8
"""
Neutral BPMN documents with symbolic content, the model an importer has to see in them, and the observation of a
diagram object through its public fields.
"""
from symex.api import CData, Comment, X, get, has, plain, rkey, same_items

MODEL_NS = "http://www.omg.org/spec/BPMN/20100524/MODEL"
DI_NS = "http://www.omg.org/spec/BPMN/20100524/DI"
DC_NS = "http://www.omg.org/spec/DD/20100524/DC"
DDI_NS = "http://www.omg.org/spec/DD/20100524/DI"

TASKS = ["task", "userTask", "serviceTask", "manualTask"]
GATEWAYS = ["exclusiveGateway", "inclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway"]
EVENTS = ["startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent", "boundaryEvent"]
NODE_TYPES = TASKS + ["subProcess", "dataObject"] + GATEWAYS + EVENTS

_direction = ("gatewayDirection", "Unspecified")
_default = ("default", None)
# attribute -> value the documentation gives for its absence
ATTRS = {
    "task": [_default], "userTask": [_default], "serviceTask": [_default], "manualTask": [_default],
    "subProcess": [("triggeredByEvent", "false"), _default],
    "dataObject": [("isCollection", "false")],
    "exclusiveGateway": [_direction, _default], "inclusiveGateway": [_direction, _default],
    "complexGateway": [_direction, _default], "parallelGateway": [_direction],
    "eventBasedGateway": [_direction, ("instantiate", "false"), ("eventGatewayType", "Exclusive")],
    "startEvent": [("parallelMultiple", "false"), ("isInterrupting", "true")],
    "intermediateCatchEvent": [("parallelMultiple", "false")],
    "endEvent": [], "intermediateThrowEvent": [],
    "boundaryEvent": [("parallelMultiple", "false"), ("cancelActivity", "true"), ("attachedToRef", "")],
}
DEFS = {
    "startEvent": ["message", "timer", "conditional", "escalation", "signal"],
    "intermediateCatchEvent": ["message", "timer", "signal", "conditional", "escalation"],
    "endEvent": ["message", "signal", "escalation", "error", "compensate", "terminate"],
    "intermediateThrowEvent": ["message", "signal", "escalation", "compensate"],
    "boundaryEvent": ["message", "timer", "signal", "conditional", "escalation", "error"],
}
PROC_ATTRS = [("name", ""), ("isClosed", "false"), ("isExecutable", "false"), ("processType", "None")]


BOOLEANS = ["true", "false", "1", "0"]


class Doc(object):
    def __init__(self, ctx, prefix="", dprefix="bpmndi:"):
        self.ctx = ctx
        self.pre = prefix
        self.dpre = dprefix
        self.procs = []
        self.nodes = {}         # id -> expected node
        self.flows = {}
        self.order = []
        self.lane_sets = {}
        self.collab = None
        self.parts = []
        self.mflows = []
        self.shapes = []
        self.edges = []
        self.plane = None
        self.diagram = {}

    def t(self, name):
        return self.pre + name

    ids = {}                    # ids that are given

    def idn(self, key):
        return self.ids[key] if key in self.ids else self.ctx.ident("id." + key)

    # -- containers
    def process(self, key, **attrs):
        """attrs given are present in the document"""
        pid = self.idn(key)
        a = {"id": pid}
        a.update(attrs)
        x = X(self.t("process"), a)
        exp = {"id": pid}
        for k, dflt in PROC_ATTRS:
            exp[k] = attrs.get(k, dflt)
        c = Container(pid, x, exp)
        self.procs.append(c)
        return c

    def node(self, cont, key, typ, name=None, attrs=None, defs=(), nid=None):
        """defs: list of (definition short name, id or None)"""
        nid = nid if nid is not None else self.idn(key)
        a = {"id": nid}
        if name is not None:
            a["name"] = name
        attrs = attrs or {}
        a.update(attrs)
        x = X(self.t(typ), a)
        exp = {"id": nid, "type": typ, "node_name": name if name is not None else "", "process": cont.id,
               "incoming": [], "outgoing": []}
        for k, dflt in ATTRS[typ]:
            exp[k] = attrs.get(k, dflt)
        if typ in DEFS:
            exp["event_definitions"] = []
            for short, did in defs:
                full = short + "EventDefinition"
                x.add(X(self.t(full), {} if did is None else {"id": did}))
                exp["event_definitions"].append((full, did if did is not None else ""))
        cont.x.add(x)
        cont.node_ids.append(nid)
        n = Container(nid, x, exp)
        n.key = key
        self.nodes[nid] = n
        self.order.append(n)
        return n

    def flow(self, cont, key, src, tgt, name=None, cond=None, list_src=True, list_tgt=True):
        """cond: (id or None, text)"""
        fid = self.idn(key)
        a = {"id": fid, "sourceRef": src.id, "targetRef": tgt.id}
        if name is not None:
            a["name"] = name
        x = X(self.t("sequenceFlow"), a)
        exp = {"id": fid, "name": name if name is not None else "", "process": cont.id, "sourceRef": src.id,
               "targetRef": tgt.id}
        if cond is not None:
            cid, ctext = cond
            x.add(X(self.t("conditionExpression"), {} if cid is None else {"id": cid}, ctext))
            exp["conditionExpression"] = {"id": cid if cid is not None else "", "conditionExpression": ctext}
        cont.x.add(x)
        if list_src:
            src.x.children.insert(0, X(self.t("outgoing"), {}, fid))
        if list_tgt:
            tgt.x.children.insert(0, X(self.t("incoming"), {}, fid))
        src.exp["outgoing"].append(fid)
        tgt.exp["incoming"].append(fid)
        f = Container(fid, x, exp)
        f.key = key
        self.flows[fid] = f
        return f

    def lane_set(self, cont, key, lanes, with_id=True):
        """lanes: list of (key, name or None, [nodes], child lanes list or None)"""
        x = X(self.t("laneSet"))
        e = self._lane_set(x, key, lanes, with_id)
        cont.x.children.insert(0, x)
        cont.exp["laneSet"] = e
        return e

    def _lane_set(self, x, key, lanes, with_id):
        lid = self.idn(key) if with_id else ""
        if with_id:
            x.attrs["id"] = lid
        out = {}
        for k, name, nodes, child in lanes:
            laneid = self.idn(k)
            lx = X(self.t("lane"), {"id": laneid})
            if name is not None:
                lx.attrs["name"] = name
            le = {"id": laneid, "name": name if name is not None else "", "flowNodeRefs": [], "childLaneSet": None}
            if child is not None:
                cx = X(self.t("childLaneSet"))
                le["childLaneSet"] = self._lane_set(cx, k + ".c", child, with_id)
                lx.add(cx)
            for n in nodes:
                lx.add(X(self.t("flowNodeRef"), {}, n.id))
                le["flowNodeRefs"].append(n.id)
            x.add(lx)
            self.shape(laneid, "lane." + k, horizontal=self.horizontal("hz." + k), into=le)
            out[laneid] = le
        return {"id": lid, "lanes": out}

    def collaboration(self, key="collab"):
        cid = self.idn(key)
        self.collab = {"id": cid}
        self.cx = X(self.t("collaboration"), {"id": cid})
        return self.collab

    def participant(self, key, proc=None, name=None):
        pid = self.idn(key)
        a = {"id": pid}
        if name is not None:
            a["name"] = name
        if proc is not None:
            a["processRef"] = proc.id
        x = X(self.t("participant"), a)
        self.cx.add(x)
        e = {"id": pid, "name": name if name is not None else "", "processRef": proc.id if proc is not None else ""}
        self.shape(pid, "part." + key, horizontal=self.horizontal("hz." + key), into=e)
        c = Container(pid, x, e)
        c.exp["incoming"] = []
        c.exp["outgoing"] = []
        self.parts.append(c)
        return c

    def pool_nodes(self):
        """pools that are nodes of the graph: those without a process and those where a message flow starts or ends"""
        return [p for p in self.parts if p.exp["processRef"] == "" or p.exp["incoming"] or p.exp["outgoing"]]

    def message_flow(self, key, src, tgt, name=None):
        fid = self.idn(key)
        a = {"id": fid, "sourceRef": src.id, "targetRef": tgt.id}
        if name is not None:
            a["name"] = name
        x = X(self.t("messageFlow"), a)
        self.cx.add(x)
        e = {"id": fid, "name": name if name is not None else "", "sourceRef": src.id, "targetRef": tgt.id}
        src.exp["outgoing"].append(fid)
        tgt.exp["incoming"].append(fid)
        c = Container(fid, x, e)
        c.key = key
        self.mflows.append(c)
        return c

    # -- diagram interchange
    def coord(self, key):
        """any text, or with `numeric` distinct numbers, in no order of size"""
        if not self.ctx.p("numeric"):
            return self.ctx.text(key, "line")
        self.ncoord = getattr(self, "ncoord", 0) + 1
        return "%d.5" % (self.ncoord * 7919 % 1009)

    def undrawn(self, what):
        """the document has no shapes or edges for elements of this kind"""
        return what in getattr(self, "not_drawn", ())

    def horizontal(self, key):
        return None if self.undrawn("horizontal") else self.ctx.choice(key, BOOLEANS)

    def shape(self, ref, key, horizontal=None, expanded=None, into=None):
        c = self.ctx
        if self.undrawn("lane" if key.startswith("lane.") else "pool" if key.startswith("part.") else "node"):
            return None
        b = {k: self.coord("di.%s.%s" % (key, k)) for k in ("width", "height", "x", "y")}
        a = {"bpmnElement": ref, "id": "shape_" + plain_key(key)}
        if horizontal is not None:
            a["isHorizontal"] = horizontal
        if expanded is not None:
            a["isExpanded"] = expanded
        self.shapes.append(X(self.dpre + "BPMNShape", a, X("dc:Bounds", b)))
        if into is not None:
            into.update(b)
            if horizontal is not None:
                into["isHorizontal"] = horizontal
        return b

    def add_di(self, nways=2, expanded=True):
        """shapes for all nodes, edges for all flows"""
        for n in self.order:
            ex = None
            if self.undrawn("node") or self.undrawn(n.exp["type"]):
                continue
            if n.exp["type"] == "subProcess":
                ex = self.ctx.choice("ex." + n.key, BOOLEANS) if expanded else None
                n.exp["isExpanded"] = ex if ex is not None else "false"
            self.shape(n.id, n.key, expanded=ex, into=n.exp)
        for f in list(self.flows.values()) + self.mflows:
            if self.undrawn("flow" if f.id in self.flows else "message"):
                continue
            nw = nways(f) if callable(nways) else nways
            ws = []
            e = X(self.dpre + "BPMNEdge", {"bpmnElement": f.id, "id": "edge_" + plain_key(f.key)})
            for i in range(nw):
                wx = self.coord("wp.%s.%d.x" % (f.key, i))
                wy = self.coord("wp.%s.%d.y" % (f.key, i))
                e.add(X("di:waypoint", {"x": wx, "y": wy}))
                ws.append((wx, wy))
            self.edges.append(e)
            f.exp["waypoints"] = ws

    def tree(self, plane_ref=None, diagram_name=None):
        p = self.pre[:-1]
        a = {("xmlns:" + p) if p else "xmlns": MODEL_NS, "xmlns:" + self.dpre[:-1]: DI_NS, "xmlns:dc": DC_NS,
             "xmlns:di": DDI_NS, "targetNamespace": "http://example.org/x"}
        root = X(self.t("definitions"), a)
        if self.collab is not None:
            root.add(self.cx)
        for c in self.procs:
            root.add(c.x)
        did, plid = self.idn("diagram"), self.idn("plane")
        ref = plane_ref if plane_ref is not None else (self.collab["id"] if self.collab is not None
                                                       else self.procs[0].id)
        da = {"id": did}
        if diagram_name is not None:
            da["name"] = diagram_name
        plane = X(self.dpre + "BPMNPlane", {"id": plid, "bpmnElement": ref})
        for s in self.shapes + self.edges:
            plane.add(s)
        root.add(X(self.dpre + "BPMNDiagram", da, plane))
        self.diagram = {"id": did, "name": diagram_name if diagram_name is not None else ""}
        self.plane = {"id": plid, "bpmnElement": ref}
        return root


def plain_key(k):
    return k.replace(".", "_")


class Container(object):
    def __init__(self, id_, x, exp):
        self.id = id_
        self.x = x
        self.exp = exp
        self.node_ids = []
        self.key = None


LEAVES = ("incoming", "outgoing", "flowNodeRef", "conditionExpression", "Bounds", "waypoint")
NOISE = ["none", "ws", "comment", "pi", "ext"]


def add_noise(root, kind):
    """content a reader has to ignore, in every container of the document"""
    if kind == "none":
        return root

    def mkn():
        if kind == "ws":
            return ["\n   "]
        if kind == "comment":
            return [Comment(" a comment ")]
        if kind == "pi":
            return [Comment("vendor data", pi=True)]
        return [X("v:extensionElements", {}, X("v:anything", {"id": "zz", "name": "q"}, "text"))]
    if kind == "ext":
        root.attrs["xmlns:v"] = "http://example.org/vendor"

    def walk(x):
        if x.local in LEAVES or x.local.endswith("EventDefinition"):
            return
        kids = list(x.children)
        for k in kids:
            if isinstance(k, X):
                walk(k)
        if kind == "ext" and x.local in ("BPMNPlane", "BPMNDiagram", "definitions", "BPMNShape", "BPMNEdge"):
            return
        new = []
        for k in kids:
            new.extend(mkn())
            new.append(k)
        new.extend(mkn())
        x.children = new
    walk(root)
    return root


LEAF_KINDS = ["plain", "spaced", "comment", "cdata", "cdata_spaced", "split"]


def dress_leaves(root, kind, cond_kind):
    """other ways of writing the texts of incoming, outgoing, flowNodeRef (kind) and conditionExpression (cond_kind)"""
    def ref(t):
        return {"plain": [t], "spaced": ["\n    ", t, "\n  "], "comment": [Comment(" c "), t, Comment(" d ")],
                "cdata": [CData(t)], "cdata_spaced": ["\n   ", CData(t), "\n "],
                "split": ["\n ", Comment("c"), "\n  ", t, "\n"]}[kind]

    def cond(t):
        return {"plain": [t], "comment": [Comment(" c "), t, Comment(" d ")], "cdata": [CData(t)],
                "split": ["a < b", Comment("c"), t, CData(" && c"), Comment("d")]}[cond_kind]
    for x in root.iter():
        if x.local in ("incoming", "outgoing", "flowNodeRef"):
            x.children = ref(x.children[0])
        elif x.local == "conditionExpression":
            x.children = cond(x.children[0])
    return root


FOREIGN = ["documentation", "annotation", "data", "labels", "roots", "event_details"]


def add_foreign(doc, root, kind):
    """standard BPMN content the library does not represent; it may not disturb what it does represent"""
    t, d = doc.t, doc.dpre
    procs = [x for x in root.iter() if x.local == "process"]
    plane = [x for x in root.iter() if x.local == "BPMNPlane"][0]
    b = {"x": "901", "y": "902", "width": "903", "height": "904"}
    if kind == "documentation":
        for x in list(root.iter()):
            if x.local in NODE_TYPES or x.local in ("process", "sequenceFlow", "lane", "participant", "collaboration",
                                                    "messageFlow", "laneSet"):
                x.children.insert(0, X(t("documentation"), {"id": "dd"}, "some text"))
    elif kind == "annotation":
        for k, x in enumerate(procs):
            x.add(X(t("textAnnotation"), {"id": doc.idn("foreign.ta%d" % k)}, X(t("text"), {}, "note")))
            n = x.kids()[0].attrs.get("id", doc.idn("foreign.zz"))
            x.add(X(t("association"), {"id": doc.idn("foreign.as%d" % k), "sourceRef": n, "targetRef": doc.idn("foreign.ta%d" % k)}))
            plane.children.insert(0, X(d + "BPMNShape", {"id": "fs%d" % k, "bpmnElement": doc.idn("foreign.ta%d" % k)},
                                       X("dc:Bounds", b)))
            plane.children.insert(0, X(d + "BPMNEdge", {"id": "fe%d" % k, "bpmnElement": doc.idn("foreign.as%d" % k)},
                                       X("di:waypoint", {"x": "905", "y": "906"}),
                                       X("di:waypoint", {"x": "907", "y": "908"})))
    elif kind == "data":
        for k, x in enumerate(procs):
            x.children.insert(0, X(t("property"), {"id": doc.idn("foreign.p%d" % k), "name": "pp"}))
            x.add(X(t("dataStoreReference"), {"id": doc.idn("foreign.ds%d" % k), "name": "store"}),
                  X(t("dataObjectReference"), {"id": doc.idn("foreign.do%d" % k), "dataObjectRef": doc.idn("foreign.zz")}),
                  X(t("group"), {"id": doc.idn("foreign.g%d" % k)}))
            for y in x.iter():
                if y.local in TASKS:
                    y.add(X(t("ioSpecification"), {}, X(t("dataInput"), {"id": doc.idn("foreign.in%d" % k)}),
                            X(t("inputSet"), {}), X(t("outputSet"), {})),
                          X(t("dataInputAssociation"), {"id": doc.idn("foreign.dia%d" % k)},
                            X(t("sourceRef"), {}, doc.idn("foreign.do%d" % k)), X(t("targetRef"), {}, doc.idn("foreign.in%d" % k))))
            plane.add(X(d + "BPMNShape", {"id": "fs%d" % k, "bpmnElement": doc.idn("foreign.ds%d" % k)}, X("dc:Bounds", b)))
    elif kind == "labels":
        for x in list(plane.iter()):
            if x.local in ("BPMNShape", "BPMNEdge"):
                x.add(X(d + "BPMNLabel", {"id": "ll"}, X("dc:Bounds", b)))
    elif kind == "roots":
        root.children[:0] = [X(t("message"), {"id": doc.idn("foreign.m"), "name": "m"}), X(t("signal"), {"id": doc.idn("foreign.s")}),
                             X(t("itemDefinition"), {"id": doc.idn("foreign.i")}),
                             X(t("category"), {"id": doc.idn("foreign.c")}, X(t("categoryValue"), {"id": doc.idn("foreign.cv")}))]
    elif kind == "event_details":
        for x in list(root.iter()):
            if x.local == "timerEventDefinition":
                x.add(X(t("timeDuration"), {"id": doc.idn("foreign.td")}, "PT1H"))
            elif x.local in EVENTS:
                x.add(X(t("dataOutput"), {"id": doc.idn("foreign.out")}))
    return root


ORDERS = ["usual", "flows_first", "di_first", "collab_last", "reversed", "refs_last"]


def reorder(root, kind):
    """the same document with its elements in another order"""
    if kind == "flows_first":
        for x in root.iter():
            if x.local in ("process", "subProcess"):
                x.children.sort(key=lambda c: 0 if isinstance(c, X) and c.local == "sequenceFlow" else 1)
    elif kind == "di_first":
        root.children.sort(key=lambda c: 0 if c.local == "BPMNDiagram" else 1)
        for x in root.iter():
            if x.local == "BPMNPlane":
                x.children.sort(key=lambda c: 0 if c.local == "BPMNEdge" else 1)
    elif kind == "collab_last":
        root.children.sort(key=lambda c: 1 if c.local == "collaboration" else 0)
    elif kind == "reversed":
        root.children.reverse()
        for x in root.iter():
            if x.local in ("process", "subProcess", "collaboration", "BPMNPlane"):
                x.children.reverse()
    elif kind == "refs_last":
        for x in root.iter():
            if x.local in NODE_TYPES:
                x.children.sort(key=lambda c: 1 if c.local in ("incoming", "outgoing") else 0)
            elif x.local == "lane":
                x.children.reverse()
    return root


# ---------------------------------------------------------------------------------------------------------
# observation and comparison

NODE_SEM = ("id", "type", "node_name", "process")
DI = ("width", "height", "x", "y")


def graph_nodes(dg):
    return {n: a for n, a in dg.diagram_graph.nodes(data=True)}


def graph_edges(dg):
    return [(u, v, a) for u, v, a in dg.diagram_graph.edges(data=True)]


def check_nodes(ctx, dg, doc, di=False, what=""):
    got = graph_nodes(dg)
    want = doc.nodes
    extra = {p.id: p for p in doc.pool_nodes()} if doc.collab is not None else {}
    if len(got) != len(want) + len(extra):
        ctx.fail("%snumber of nodes: got %d, expected %d" % (what, len(got), len(want) + len(extra)))
    for nid, n in want.items():
        a = get(ctx, got, nid, what + "node missing")
        e = n.exp
        for k in NODE_SEM:
            ctx.eq(get(ctx, a, k, what + "node attribute"), e[k], "%s%s of %s" % (what, k, e["type"]))
        for k, dflt in ATTRS[e["type"]]:
            ctx.eq(get(ctx, a, k, what + "node attribute"), e[k], "%s%s of %s" % (what, k, e["type"]))
        same_items(ctx, get(ctx, a, "incoming", what), e["incoming"], what + "incoming flows")
        same_items(ctx, get(ctx, a, "outgoing", what), e["outgoing"], what + "outgoing flows")
        if "event_definitions" in e:
            same_items(ctx, [(d["definition_type"], d["id"]) for d in get(ctx, a, "event_definitions", what)],
                       e["event_definitions"], what + "event definitions of " + e["type"])
        if di:
            check_bounds(ctx, a, e, what + "shape of " + e["type"])
            if e["type"] == "subProcess" and "isExpanded" in e:
                ctx.eq(get(ctx, a, "isExpanded", what), e["isExpanded"], what + "isExpanded")


def check_order(ctx, dg, doc, what=""):
    """flows of a node in the order in which the document lists them under the node"""
    got = graph_nodes(dg)
    for nid, n in doc.nodes.items():
        a = get(ctx, got, nid, what + "node missing")
        for k in ("incoming", "outgoing"):
            cs = [c for c in n.x.children if isinstance(c, X) and c.tag == doc.t(k)]
            listed = [c.children[0] for c in cs if len(c.children) == 1 and isinstance(c.children[0], str)]
            if len(listed) == len(n.exp[k]):
                ctx.eq(list(get(ctx, a, k, what)), listed, what + "order of the %s flows" % k)
            elif len(listed) == len(cs) and not hasattr(doc, "dress"):
                # the other ones follow in the order of the document
                end = {"incoming": "targetRef", "outgoing": "sourceRef"}[k]
                rest = [f.id for f in list(doc.flows.values()) + doc.mflows
                        if f.exp[end] is n.id and not any(f.id is x for x in listed)]
                if len(listed) + len(rest) == len(n.exp[k]):
                    ctx.eq(list(get(ctx, a, k, what)), listed + rest, what + "order of the %s flows" % k)


def same_order(ctx, dg, dg2, what=""):
    """the flow lists of the nodes of two diagrams agree in their order"""
    got = graph_nodes(dg2)
    for nid, a in graph_nodes(dg).items():
        b = get(ctx, got, nid, what + "node missing")
        for k in ("incoming", "outgoing"):
            if k in a:
                ctx.eq(list(get(ctx, b, k, what)), list(a[k]), what + "order of the %s flows" % k)


def check_bounds(ctx, got, exp, what):
    for k in DI:
        if k in exp:
            ctx.eq(get(ctx, got, k, what), exp[k], "%s: %s" % (what, k))
        else:
            ctx.ok(k not in got, "%s: %s of something that has not been drawn" % (what, k))


def check_flows(ctx, dg, doc, di=False, what="", exported=False):
    """exported: an unnamed flow with a condition may carry the condition as its name"""
    edges = graph_edges(dg)
    want = list(doc.flows.values())
    allw = want + doc.mflows
    if len(edges) != len(allw):
        ctx.fail("%snumber of edges: got %d, expected %d" % (what, len(edges), len(allw)))
    reg = dg.sequence_flows
    if len(reg) != len(want):
        ctx.fail("%snumber of registered flows: got %d, expected %d" % (what, len(reg), len(want)))
    for f in allw:
        hit = [(u, v, a) for u, v, a in edges if a["id"] == f.id]
        if len(hit) != 1:
            ctx.fail("%sedges with the id of a flow: %d" % (what, len(hit)))
        u, v, a = hit[0]
        same_items(ctx, [u, v], [f.exp["sourceRef"], f.exp["targetRef"]], what + "end points of the edge")
        names = ["id", "name", "sourceRef", "targetRef"]
        lax = exported and "conditionExpression" in f.exp and f.exp["name"] == ""
        if lax:
            names.remove("name")
            nm = get(ctx, a, "name", what)
            ctx.ok(nm == "" or nm == f.exp["conditionExpression"]["conditionExpression"], what + "flow name")
        for k in names:
            ctx.eq(get(ctx, a, k, what + "flow attribute"), f.exp[k], "%sflow %s" % (what, k))
        if f.id in doc.flows:
            ctx.eq(get(ctx, a, "process", what), f.exp["process"], what + "flow process")
            c = a.get("conditionExpression")
            if "conditionExpression" in f.exp:
                if c is None:
                    ctx.fail(what + "condition of a flow is missing")
                ctx.eq(c["conditionExpression"], f.exp["conditionExpression"]["conditionExpression"],
                       what + "condition text")
                ctx.eq(c["id"], f.exp["conditionExpression"]["id"], what + "condition id")
            else:
                ctx.ok(c is None, what + "condition on a flow without one")
            r = get(ctx, reg, f.id, what + "flow registry")
            for k in ("sourceRef", "targetRef"):
                ctx.eq(get(ctx, r, k, what), f.exp[k], "%sregistry %s" % (what, k))
            ctx.eq(get(ctx, r, "name", what), get(ctx, a, "name", what), what + "registry name")
        if di and "waypoints" not in f.exp:
            ctx.ok(not a.get("waypoints"), what + "waypoints of a flow that has not been drawn")
        elif di:
            ctx.eq([tuple(w) for w in get(ctx, a, "waypoints", what)], f.exp["waypoints"], what + "waypoints")


def check_processes(ctx, dg, doc, what=""):
    got = dg.process_elements
    if len(got) != len(doc.procs):
        ctx.fail("%snumber of processes: got %d, expected %d" % (what, len(got), len(doc.procs)))
    for p in doc.procs:
        a = get(ctx, got, p.id, what + "process missing")
        for k, _ in PROC_ATTRS:
            ctx.eq(get(ctx, a, k, what), p.exp[k], "%sprocess %s" % (what, k))
        same_items(ctx, get(ctx, a, "node_ids", what), p.node_ids, what + "node ids of the process")


def check_lanes(ctx, dg, doc, di=False, what=""):
    for p in doc.procs:
        a = get(ctx, dg.process_elements, p.id, what)
        if "laneSet" in p.exp:
            _check_lane_set(ctx, get(ctx, a, "laneSet", what + "lane set lost"), p.exp["laneSet"], di, what)
        else:
            ctx.ok("laneSet" not in a, what + "lane set out of nowhere")


def _check_lane_set(ctx, got, exp, di, what):
    ctx.eq(got["id"], exp["id"], what + "lane set id")
    lanes = got["lanes"]
    if len(lanes) != len(exp["lanes"]):
        ctx.fail("%snumber of lanes: got %d, expected %d" % (what, len(lanes), len(exp["lanes"])))
    for lid, e in exp["lanes"].items():
        g = get(ctx, lanes, lid, what + "lane missing")
        ctx.eq(g["id"], e["id"], what + "lane id")
        ctx.eq(g["name"], e["name"], what + "lane name")
        same_items(ctx, g["flowNodeRefs"], e["flowNodeRefs"], what + "lane content")
        if e["childLaneSet"] is None:
            ctx.ok(not g.get("childLaneSet"), what + "child lanes out of nowhere")
        else:
            c = g.get("childLaneSet")
            if not c:
                ctx.fail(what + "child lanes lost")
            _check_lane_set(ctx, c, e["childLaneSet"], di, what)
        if di:
            check_bounds(ctx, g, e, what + "shape of lane")
            if "isHorizontal" in e:
                ctx.eq(g["isHorizontal"], e["isHorizontal"], what + "isHorizontal of lane")


def check_collab(ctx, dg, doc, di=False, what=""):
    c = dg.collaboration
    if doc.collab is None:
        ctx.ok(not c, what + "collaboration out of nowhere")
        return
    ctx.eq(c["id"], doc.collab["id"], what + "collaboration id")
    ps = c["participants"]
    if len(ps) != len(doc.parts):
        ctx.fail("%snumber of participants: got %d, expected %d" % (what, len(ps), len(doc.parts)))
    nodes = graph_nodes(dg)
    for p in doc.parts:
        g = get(ctx, ps, p.id, what + "participant missing")
        ctx.eq(g["name"], p.exp["name"], what + "participant name")
        ctx.eq(g["processRef"], p.exp["processRef"], what + "participant process")
        if di:
            check_bounds(ctx, g, p.exp, what + "shape of participant")
            if "isHorizontal" in p.exp:
                ctx.eq(g["isHorizontal"], p.exp["isHorizontal"], what + "isHorizontal of participant")
        if p in doc.pool_nodes():
            n = get(ctx, nodes, p.id, what + "node of a participant")
            ctx.eq(n["type"], "participant", what + "type of participant node")
            ctx.eq(n["node_name"], p.exp["name"], what + "name of participant node")
            same_items(ctx, n.get("incoming", []), p.exp["incoming"], what + "participant incoming")
            same_items(ctx, n.get("outgoing", []), p.exp["outgoing"], what + "participant outgoing")
    ms = c["messageFlows"]
    if len(ms) != len(doc.mflows):
        ctx.fail("%snumber of message flows: got %d, expected %d" % (what, len(ms), len(doc.mflows)))
    for m in doc.mflows:
        g = get(ctx, ms, m.id, what + "message flow missing")
        for k in ("id", "name", "sourceRef", "targetRef"):
            ctx.eq(g[k], m.exp[k], "%smessage flow %s" % (what, k))


def check_diagram(ctx, dg, doc, what=""):
    ctx.eq(dg.diagram_attributes["id"], doc.diagram["id"], what + "diagram id")
    ctx.eq(dg.diagram_attributes["name"], doc.diagram["name"], what + "diagram name")
    ctx.eq(dg.plane_attributes["id"], doc.plane["id"], what + "plane id")
    ctx.eq(dg.plane_attributes["bpmnElement"], doc.plane["bpmnElement"], what + "plane element")


def new_diagram(ctx):
    return ctx.mod("bpmn_python.bpmn_diagram_rep").BpmnDiagramGraph()


def load(ctx, path):
    dg = new_diagram(ctx)
    dg.load_diagram_from_xml_file(path)
    return dg


def reexport(ctx, dg, name="out.xml", di=True):
    # a directory that does not exist yet, names with blanks, dots and letters other than ASCII
    d, name = ctx.outdir() + "new dir/v1.0 \u00e9/", "p 1." + name
    if di:
        dg.export_xml_file(d, name)
    else:
        dg.export_xml_file_no_di(d, name)
    return d + name
