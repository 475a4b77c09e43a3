# coding=utf-8
"""C06: editing methods store exactly what was requested under a unique id"""
from symex.api import H, get, same_items, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G


def one(ctx):
    """one node with all options"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph(diagram_name=ctx.text("dname"))
    pid = ctx.text("pid")
    kind = A.KINDS[ctx.pick("kind", len(A.KINDS))]
    ctx.reach(kind)
    gid = ctx.ident("given") if ctx.flag("hasid") else None
    bare = ctx.flag("bare")
    nid, exp = A.add(ctx, dg, pid, "n", kind, given_id=gid, bare=bare)
    ctx.ok(not (nid == ""), "an id is not empty")
    A.check_all(ctx, dg, {nid: exp}, {})
    for k in ("x", "y", "width", "height"):
        float(dg.diagram_graph.nodes[nid][k])
    ctx.reach("done")


def process(ctx):
    dg = D.new_diagram(ctx)
    dname = ctx.text("dname")
    if ctx.flag("named"):
        dg.create_new_diagram_graph(diagram_name=dname)
        ctx.eq(dg.diagram_attributes["name"], dname, "diagram name")
    else:
        dg.create_new_diagram_graph()
        ctx.eq(dg.diagram_attributes["name"], "", "diagram name")
    n = 1 + ctx.pick("n", ctx.p("procs", 2))
    exps = {}
    for i in range(n):
        if ctx.flag("bare%d" % i):
            pid = dg.add_process_to_diagram()
            e = {"name": "", "isClosed": "false", "isExecutable": "false", "processType": "None"}
        else:
            nm, ty = ctx.text("p%d.name" % i), ctx.text("p%d.type" % i)
            cl, ex = ctx.flag("p%d.closed" % i), ctx.flag("p%d.exec" % i)
            pid = dg.add_process_to_diagram(process_name=nm, process_is_closed=cl, process_is_executable=ex,
                                            process_type=ty)
            e = {"name": nm, "isClosed": A.tf(cl), "isExecutable": A.tf(ex), "processType": ty}
        exps.setdefault("l", []).append((pid, e))
    A.distinct(ctx, [p for p, _ in exps["l"]] + [dg.diagram_attributes["id"], dg.plane_attributes["id"]], "processes")
    ctx.eq(len(dg.process_elements), n, "number of processes")
    for pid, e in exps["l"]:
        a = get(ctx, dg.process_elements, pid, "process")
        for k, v in e.items():
            ctx.eq(get(ctx, a, k, "process"), v, "process " + k)
    ctx.ok(any(dg.plane_attributes["bpmnElement"] == p for p, _ in exps["l"]), "the plane shows a process")
    ctx.reach("procs%d" % n)


NEAR = [g(x) for x in A.DIRS for g in (str.lower, str.upper, " {} ".format, "{}\n".format, lambda x: x[:-1], "{}s".format)] + \
    ["", "None", "unknown", "Converging Diverging", "ConvergingDiverging", "Converging,Diverging", None, 0, 1, False, True, ["Mixed"], ("Mixed",)]


def direction(ctx):
    """any text as direction"""
    exc = ctx.mod("bpmn_python.bpmn_diagram_exception").BpmnPythonError
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    nodes = {}
    t, e = A.add(ctx, dg, pid, "t", "task")
    nodes[t] = e
    kind = ["exclusive", "inclusive", "parallel"][ctx.pick("kind", 3)]
    d = NEAR[ctx.pick("which", len(NEAR))] if ctx.flag("near") else ctx.text("dir")
    given = ctx.ident("given") if ctx.flag("hasid") else None
    if given is not None and given == t:
        ctx.skip()                          # the caller's id is a fresh one
    raised = False
    try:
        nid, _ = getattr(dg, "add_%s_gateway_to_diagram" % kind)(pid, gateway_name=ctx.text("name"),
                                                                 gateway_direction=d, node_id=given)
    except exc:
        raised = True
    if any(d == x for x in A.DIRS):
        ctx.ok(not raised, "a valid direction is rejected")
        ctx.eq(dg.diagram_graph.nodes[rk(ctx, dg, nid)]["gatewayDirection"], d, "direction")
        ctx.eq(len(dg.diagram_graph.nodes), 2, "number of nodes")
        ctx.reach("valid")
    else:
        ctx.ok(raised, "an invalid direction is accepted")
        A.check_all(ctx, dg, nodes, {}, "after a rejected call: ")
        ctx.reach("invalid")


def rk(ctx, dg, nid):
    from symex.api import rkey
    return rkey(ctx, dg.diagram_graph.nodes, nid)


def sequence(ctx):
    """any sequence of additions; everything added before stays"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pids = [dg.add_process_to_diagram(process_name=ctx.text("p%d.name" % i)) for i in range(2)]
    nodes, flows, ids, defs = {}, {}, list(pids) + [dg.diagram_attributes["id"]], []
    n = ctx.p("steps", 3)
    order = []
    for i in range(n):
        kind = A.KINDS[ctx.pick("kind%d" % i, ctx.p("kinds", 7))]
        pid = pids[ctx.pick("in%d" % i, 2)] if i == 1 else pids[0]
        nid, exp = A.add(ctx, dg, pid, "n%d" % i, kind, full=False)
        nodes[nid] = exp
        ids.append(nid)
        order.append(nid)
    pairs = [(a, b) for a in range(n) for b in range(n)]
    m = ctx.p("flows", 2)
    last = None
    for i in range(m):
        a, b = pairs[ctx.pick("f%d" % i, len(pairs))]
        if last is not None and {a, b} == set(last):
            ctx.skip()                      # one flow per pair of nodes: see DESIGN.md
        last = (a, b)
        ids.append(A.add_flow(ctx, dg, pids[0], nodes, flows, "f%d" % i, order[a], order[b], named=(i == 0)))
    A.distinct(ctx, ids, "editing methods")
    A.check_all(ctx, dg, nodes, flows)
    ctx.reach("done")


def definitions(ctx):
    """event definitions of several events have ids of their own"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    a, ea = A.add(ctx, dg, pid, "a", "startEvent")
    b, eb = A.add(ctx, dg, pid, "b", ["startEvent", "endEvent"][ctx.pick("kindb", 2)])
    ids = [a, b]
    for n in (a, b):
        for d in dg.diagram_graph.nodes[n]["event_definitions"]:
            ids.append(d["id"])
    A.distinct(ctx, ids, "event definitions")
    A.check_all(ctx, dg, {a: ea, b: eb}, {})
    if len(ids) == 4:
        ctx.reach("two")


def ids(ctx):
    """ids of the caller's choice and generated ones, in one diagram"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    nodes, flows, order = {}, {}, []
    for i in range(ctx.p("steps", 3)):
        kind = A.KINDS[ctx.pick("kind%d" % i, len(A.KINDS))] if i == 0 else A.KINDS[i % 7]
        gid = ctx.ident("given%d" % i) if ctx.flag("hasid%d" % i) else None
        if gid is not None and any(gid == x for x in order):
            ctx.skip()                      # the caller's id is a fresh one
        nid, e = A.add(ctx, dg, pid, "n%d" % i, kind, full=False, given_id=gid)
        nodes[nid] = e
        order.append(nid)
        A.distinct(ctx, order, "editing methods")
        A.check_all(ctx, dg, nodes, flows)
    for i, nid in enumerate(order):
        a = dg.diagram_graph.nodes[rk(ctx, dg, nid)]
        a["x"], a["y"] = ctx.text("x%d" % i), ctx.text("y%d" % i)
    A.add_flow(ctx, dg, pid, nodes, flows, "f", order[0], order[-1])
    A.check_all(ctx, dg, nodes, flows)
    ctx.reach("done")


def after_import(ctx):
    """elements added to a diagram read from a file"""
    doc = D.Doc(ctx)
    p = doc.process("p", name=ctx.text("p.name"))
    a = doc.node(p, "a", "exclusiveGateway", name=ctx.text("a.name"))
    b = doc.node(p, "b", "task", name=ctx.text("b.name"))
    sub = doc.node(p, "s", "subProcess", name=ctx.text("s.name"))
    doc.flow(p, "f", a, b, name=ctx.text("f.name"))
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    kind = A.KINDS[ctx.pick("kind", len(A.KINDS))]
    where = ctx.pick("where", 3)
    owner = [p.id, sub.id, None][where]
    if owner is None:
        owner = dg.add_process_to_diagram(ctx.text("q.name"))
        A.distinct(ctx, [owner, p.id], "processes")
        ctx.reach("process")
    nid, exp = A.add(ctx, dg, owner, "n", kind, full=False)
    A.distinct(ctx, [nid, p.id, a.id, b.id, sub.id] + ([owner] if where == 2 else []), "after import")
    ends = [(nid, a.id), (b.id, nid), (nid, nid), (a.id, sub.id)][ctx.pick("ends", 4)]
    fname = ctx.text("g.name")
    fid, _ = dg.add_sequence_flow_to_diagram(owner, ends[0], ends[1], fname)
    got = D.graph_nodes(dg)
    ctx.eq(len(got), 4, "number of nodes")
    ctx.eq(len(D.graph_edges(dg)), 2, "number of edges")
    ctx.eq(len(dg.sequence_flows), 2, "number of registered flows")
    ctx.eq(len(dg.process_elements), 2 if where == 2 else 1, "number of processes")
    for n in (a, b, sub):
        g = get(ctx, got, n.id, "node of the file")
        for k in ("id", "type", "node_name", "process"):
            ctx.eq(g[k], n.exp[k], "node of the file: " + k)
        n.exp["outgoing"] += [fid] if ends[0] == n.id else []
        n.exp["incoming"] += [fid] if ends[1] == n.id else []
        same_items(ctx, g["outgoing"], n.exp["outgoing"], "node of the file: outgoing")
        same_items(ctx, g["incoming"], n.exp["incoming"], "node of the file: incoming")
    exp["outgoing"] = [fid] if ends[0] == nid else []
    exp["incoming"] = [fid] if ends[1] == nid else []
    A.check_attrs(ctx, get(ctx, got, nid, "new node"), exp, "new node: ")
    ctx.eq(get(ctx, dg.process_elements, p.id, "process of the file")["name"], p.exp["name"], "name of the process")
    for f, name, (u, v) in ((list(doc.flows)[0], list(doc.flows.values())[0].exp["name"], (a.id, b.id)), (fid, fname, ends)):
        r = get(ctx, dg.sequence_flows, f, "registry")
        ctx.eq((r["name"], r["sourceRef"], r["targetRef"]), (name, u, v), "registered flow")
        hit = [e for _, _, e in D.graph_edges(dg) if e["id"] == f]
        ctx.eq(len(hit), 1, "edges of a flow")
        ctx.eq((hit[0]["name"], hit[0]["sourceRef"], hit[0]["targetRef"]), (name, u, v), "edge of a flow")
    ctx.reach("done")


HARNESSES = [
    H("one", one, "one call of each of the 7 node methods, every optional argument varied or omitted, arbitrary texts",
      reach=["done"] + A.KINDS),
    H("process", process, "1..2 (3) processes with every argument varied or omitted", {"procs": 2}, {"procs": 3},
      reach=["procs2"]),
    H("direction", direction, "3 gateway kinds, the direction is an arbitrary text, one of 30 near misses or no text at all", reach=["valid", "invalid"]),
    H("sequence", sequence, "sequences of 2 (3) node additions of any kind in two processes, then 1 (2) flows between any "
      "of them", {"steps": 2, "flows": 2, "kinds": 7}, {"steps": 3, "flows": 2, "kinds": 7}, reach=["done"]),
    H("ids", ids, "3 (4) nodes with an id given by the caller or a generated one, checked after every call", {"steps": 3},
      {"steps": 4}, reach=["done"]),
    H("after_import", after_import, "a process, a node of any kind and a flow added to a diagram read from a file with any "
      "ids", reach=["done", "process"]),
    H("definitions", definitions, "two events with any event definition", reach=["two"]),
]
