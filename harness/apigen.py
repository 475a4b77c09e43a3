# coding=utf-8
"""diagrams made with the editing methods, and what has to be in them"""
from symex.api import get, rkey, same_items
from . import docgen as D

DIRS = ["Unspecified", "Converging", "Diverging", "Mixed"]
START_DEFS = [None, "message", "timer", "conditional", "signal", "escalation"]
END_DEFS = [None, "terminate", "escalation", "message", "compensate", "signal", "error"]
KINDS = ["task", "subProcess", "startEvent", "endEvent", "exclusiveGateway", "inclusiveGateway", "parallelGateway"]


def tf(b):
    return "true" if b else "false"


def add(ctx, dg, pid, key, kind, full=True, given_id=None, bare=False, defn=None):
    """-> (id, expected attributes); full: all optional arguments vary; bare: no optional argument is passed"""
    kw = {}
    exp = {"type": kind, "process": pid, "incoming": [], "outgoing": []}
    name = ""
    if not bare:
        name = ctx.text(key + ".name")
    exp["node_name"] = name
    if given_id is not None:
        kw["node_id"] = given_id
    full = full and not bare

    def opt(arg, attr, dflt):
        v = ctx.flag(key + "." + arg) if full else dflt
        if full:
            kw[arg] = v
        exp[attr] = tf(v)
    if kind == "task":
        if not bare:
            kw["task_name"] = name
        r = dg.add_task_to_diagram(pid, **kw)
    elif kind == "subProcess":
        kw["subprocess_name"] = name            # not optional
        opt("is_expanded", "isExpanded", False)
        opt("triggered_by_event", "triggeredByEvent", False)
        r = dg.add_subprocess_to_diagram(pid, **kw)
    elif kind == "startEvent":
        if not bare:
            kw["start_event_name"] = name
        opt("parallel_multiple", "parallelMultiple", False)
        opt("is_interrupting", "isInterrupting", True)
        d = START_DEFS[ctx.pick(key + ".def", len(START_DEFS))] if full else defn
        if full or defn:
            kw["start_event_definition"] = d
        exp["defs"] = [] if d is None else [d + "EventDefinition"]
        r = dg.add_start_event_to_diagram(pid, **kw)
    elif kind == "endEvent":
        if not bare:
            kw["end_event_name"] = name
        d = END_DEFS[ctx.pick(key + ".def", len(END_DEFS))] if full else defn
        if full or defn:
            kw["end_event_definition"] = d
        exp["defs"] = [] if d is None else [d + "EventDefinition"]
        r = dg.add_end_event_to_diagram(pid, **kw)
    else:
        if not bare:
            kw["gateway_name"] = name
        exp["gatewayDirection"] = "Unspecified"
        if full:
            kw["gateway_direction"] = exp["gatewayDirection"] = ctx.choice(key + ".dir", DIRS)
        if kind != "parallelGateway":
            exp["default"] = None
            if full and ctx.flag(key + ".hasdefault"):
                kw["default"] = exp["default"] = ctx.ident(key + ".default")
        m = {"exclusiveGateway": "exclusive", "inclusiveGateway": "inclusive", "parallelGateway": "parallel"}[kind]
        r = getattr(dg, "add_%s_gateway_to_diagram" % m)(pid, **kw)
    ctx.ok(isinstance(r, tuple) and len(r) == 2, "an editing method returns a pair")
    nid, obj = r
    if given_id is not None:
        ctx.eq(nid, given_id, "id given by the caller")
    exp["id"] = nid
    check_attrs(ctx, obj, exp, "object returned by the method: ")
    return nid, exp


def check_attrs(ctx, a, exp, what):
    for k, v in exp.items():
        if k in ("incoming", "outgoing"):
            same_items(ctx, get(ctx, a, k, what), v, what + k)
        elif k == "defs":
            ds = get(ctx, a, "event_definitions", what)
            same_items(ctx, [d["definition_type"] for d in ds], v, what + "event definitions")
            for d in ds:
                ctx.ok(not (d["id"] == ""), what + "id of an event definition")
        else:
            ctx.eq(get(ctx, a, k, what), v, what + k)


def check_all(ctx, dg, nodes, flows, what=""):
    """nodes: {id: exp}, flows: {id: exp}"""
    got = D.graph_nodes(dg)
    if len(got) != len(nodes):
        ctx.fail("%snumber of nodes: got %d, expected %d" % (what, len(got), len(nodes)))
    for nid, exp in nodes.items():
        check_attrs(ctx, get(ctx, got, nid, what + "node missing"), exp, what)
    edges = D.graph_edges(dg)
    if len(edges) != len(flows):
        ctx.fail("%snumber of flows: got %d, expected %d" % (what, len(edges), len(flows)))
    for fid, exp in flows.items():
        hit = [(u, v, a) for u, v, a in edges if a["id"] == fid]
        if len(hit) != 1:
            ctx.fail("%sedges with the id of a flow: %d" % (what, len(hit)))
        u, v, a = hit[0]
        for k in ("name", "process", "sourceRef", "targetRef"):
            ctx.eq(get(ctx, a, k, what + "flow"), exp[k], what + "flow " + k)
        same_items(ctx, [u, v], [exp["sourceRef"], exp["targetRef"]], what + "ends of a flow")
    reg = dg.sequence_flows
    if len(reg) != len(flows):
        ctx.fail("%snumber of registered flows: got %d, expected %d" % (what, len(reg), len(flows)))
    for fid, exp in flows.items():
        r = get(ctx, reg, fid, what + "registry")
        for k in ("name", "sourceRef", "targetRef"):
            ctx.eq(get(ctx, r, k, what), exp[k], what + "registered flow " + k)


def add_flow(ctx, dg, pid, nodes, flows, key, a, b, named=True):
    name = ctx.text(key + ".name") if named else ""
    r = dg.add_sequence_flow_to_diagram(pid, a, b, name) if named else dg.add_sequence_flow_to_diagram(pid, a, b)
    ctx.ok(isinstance(r, tuple) and len(r) == 2, "adding a flow returns a pair")
    fid, obj = r
    flows[fid] = {"name": name, "process": pid, "sourceRef": a, "targetRef": b}
    for k, v in flows[fid].items():
        ctx.eq(get(ctx, obj, k, "returned flow"), v, "returned flow " + k)
    ctx.eq(get(ctx, obj, "id", "returned flow"), fid, "id of the returned flow")
    ways = get(ctx, obj, "waypoints", "returned flow")
    ctx.ok(len(ways) >= 2, "a new flow has two waypoints")
    for w, n in ((ways[0], a), (ways[-1], b)):
        at = get(ctx, D.graph_nodes(dg), n, "node")
        ctx.eq((w[0], w[1]), (at["x"], at["y"]), "end of a new flow")
    get(ctx, nodes, a, "source")["outgoing"].append(fid)
    get(ctx, nodes, b, "target")["incoming"].append(fid)
    return fid


def distinct(ctx, ids, what):
    for i in range(len(ids)):
        for j in range(i):
            if ids[i] == ids[j]:
                ctx.fail("%s: the id %s was given twice" % (what, D.plain(ids[i])))


def simple_node(ctx, dg, pid, key, typ, nid=None):
    """any type (also a symbolic one) through the general method"""
    nid, _ = dg.add_flow_node_to_diagram(pid, typ, ctx.text(key + ".name"), nid)
    return nid
