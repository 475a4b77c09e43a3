# coding=utf-8
"""C08: queries return exactly the matching elements"""
from symex.api import H, get, same_items, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G

TYPES = ["task", "userTask", "subProcess", "exclusiveGateway", "startEvent", "endEvent"]


def build(ctx, n, symtypes=True):
    """n nodes of symbolic type in one of two processes"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pids = [dg.add_process_to_diagram() for _ in range(2)]
    nodes = []
    for i in range(n):
        typ = ctx.choice("type%d" % i, TYPES) if symtypes else TYPES[i % len(TYPES)]
        pid = pids[ctx.pick("proc%d" % i, 2)]
        nid = A.simple_node(ctx, dg, pid, "n%d" % i, typ, ctx.ident("n%d.id" % i) if i % 2 == 0 else None)
        nodes.append((nid, typ, pid))
    return dg, pids, nodes


def ids_of(lst):
    return [x[0] for x in lst]


def by_type(ctx):
    """query type: any text"""
    dg, pids, nodes = build(ctx, ctx.p("nodes", 3))
    q = ctx.text("q")
    got = dg.get_nodes(q)
    want = [nid for nid, t, _ in nodes if q == "" or t == q]
    same_items(ctx, ids_of(got), want, "nodes of a type")
    for nid, a in got:
        ctx.eq(a["id"], nid, "attributes of the node")
    ctx.ok(len(got) == len(want), "size of the result")
    if not (q == ""):
        same_items(ctx, list(dg.get_nodes_id_list_by_type(q)), want, "ids of nodes of a type")
        ctx.reach("typed")
    else:
        ctx.reach("all")
    same_items(ctx, ids_of(dg.get_nodes()), [n[0] for n in nodes], "all nodes")
    if want:
        ctx.reach("match")
    else:
        ctx.reach("empty")


def by_id(ctx):
    dg, pids, nodes = build(ctx, ctx.p("nodes", 3), symtypes=False)
    q = ctx.text("q")
    k = ctx.pick("which", len(nodes) + 1)
    if k < len(nodes):
        q = nodes[k][0]
    got = dg.get_node_by_id(q)
    hit = [n for n in nodes if n[0] == q]
    if hit:
        ctx.ok(got is not None, "an existing node is not found")
        ctx.eq(got[0], hit[0][0], "id of the node")
        ctx.eq(got[1]["type"], hit[0][1], "type of the node")
        ctx.eq(got[1]["process"], hit[0][2], "process of the node")
        ctx.reach("match")
    else:
        ctx.ok(got is None, "a node is found that does not exist")
        ctx.reach("none")


def by_process(ctx):
    dg, pids, nodes = build(ctx, ctx.p("nodes", 3), symtypes=False)
    k = ctx.pick("q", 3)
    q = ctx.text("qt") if k == 2 else pids[k]
    got = dg.get_nodes_list_by_process_id(q)
    same_items(ctx, ids_of(got), [n[0] for n in nodes if n[2] == q], "nodes of a process")
    ctx.reach("q%d" % k)


def flows(ctx):
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pids = [dg.add_process_to_diagram() for _ in range(2)]
    n = ctx.p("nodes", 3)
    ns = [A.simple_node(ctx, dg, pids[0], "n%d" % i, TYPES[i]) for i in range(n)]
    fl = G.pick_flows(ctx, n, ctx.p("flows", 2))
    want = []
    for i, (a, b) in enumerate(fl):
        pid = pids[ctx.pick("fp%d" % i, 2)]
        fid, _ = dg.add_sequence_flow_to_diagram(pid, ns[a], ns[b], ctx.text("f%d.name" % i))
        want.append((fid, pid, ns[a], ns[b]))
    got = dg.get_flows()
    same_items(ctx, [(f[2]["id"], f[2]["sourceRef"], f[2]["targetRef"]) for f in got],
               [(w[0], w[2], w[3]) for w in want], "all flows")
    k = ctx.pick("q", len(want) + 1)
    q = want[k][0] if k < len(want) else ctx.text("qt")
    f = dg.get_flow_by_id(q)
    if k < len(want):
        ctx.ok(f is not None, "an existing flow is not found")
        ctx.eq((f[2]["id"], f[2]["process"], f[2]["sourceRef"], f[2]["targetRef"]), want[k], "flow")
        same_items(ctx, [f[0], f[1]], list(want[k][2:]), "ends of the flow")
        ctx.reach("match")
    else:
        ctx.ok(f is None, "a flow is found that does not exist")
        ctx.reach("none")
    for pid in pids:
        same_items(ctx, [x[2]["id"] for x in dg.get_flows_list_by_process_id(pid)], [w[0] for w in want if w[1] == pid],
                   "flows of a process")
    ctx.ok(len(list(dg.get_flows_list_by_process_id(ctx.text("other")))) == 0, "flows of an unknown process")


def named(ctx):
    """a document with given ids; the text asked for is any text"""
    pids = ["Process_1", "process_1", "Process_11"]
    nids = ["Node_1", "node_1", "_Node_1", "Node_12", u"N\u00e9", "x7"]
    fids = ["Flow_1", "Flow_1x", "FLOW_2", "f3"]
    doc = D.Doc(ctx)
    doc.ids = {i: i for i in pids + nids + fids}
    procs = [doc.process(p) for p in pids]
    ns = [doc.node(procs[i // 2], nid, TYPES[i], name=ctx.text("name%d" % i)) for i, nid in enumerate(nids)]
    nodes = [(nid, TYPES[i], pids[i // 2]) for i, nid in enumerate(nids)]
    fl = []
    for i, (fid, a, b) in enumerate(zip(fids, (0, 2, 4, 3), (1, 3, 5, 3))):
        doc.flow(procs[a // 2], fid, ns[a], ns[b], name=ctx.text("f%d.name" % i))
        fl.append((fid, pids[a // 2]))
    dg = D.load(ctx, write_xml(ctx, "in.xml", doc.tree()))
    q = ctx.text("q")
    how = ["node", "flow", "nodes of a process", "flows of a process", "nodes of a type", "ids of a type"][ctx.pick("how", 6)]
    if how in ("node", "flow"):
        got = dg.get_node_by_id(q) if how == "node" else dg.get_flow_by_id(q)
        hit = [x for x in (nids if how == "node" else fids) if x == q]
        if hit:
            ctx.ok(got is not None, "an existing %s is not found" % how)
            ctx.eq(got[0] if how == "node" else got[2]["id"], hit[0], "id of the " + how)
        else:
            ctx.ok(got is None, "a %s is found that does not exist" % how)
    elif how == "flows of a process":
        same_items(ctx, [f[2]["id"] for f in dg.get_flows_list_by_process_id(q)], [f for f, p in fl if p == q], how)
    elif how == "nodes of a process":
        same_items(ctx, ids_of(dg.get_nodes_list_by_process_id(q)), [n[0] for n in nodes if n[2] == q], how)
    elif how == "nodes of a type":
        same_items(ctx, ids_of(dg.get_nodes(q)), [n[0] for n in nodes if q == "" or n[1] == q], how)
    else:
        same_items(ctx, list(dg.get_nodes_id_list_by_type(q)), [n[0] for n in nodes if n[1] == q], how)
    ctx.reach(how)


def positions(ctx):
    """coordinates as decimal texts of any number"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    want = []
    for i in range(ctx.p("nodes", 2)):
        n = A.simple_node(ctx, dg, pid, "n%d" % i, TYPES[i])
        x, y = ctx.int("x%d" % i, -10 ** 6, 10 ** 6), ctx.real("y%d" % i)
        if i % 2:
            x, y = y, x
        a = dg.diagram_graph.nodes[n]
        a["x"], a["y"] = ctx.numtext(x), ctx.numtext(y)
        want.append((n, x, y))
    got = dg.get_nodes_positions()
    ctx.eq(len(got), len(want), "number of positions")
    for n, x, y in want:
        p = get(ctx, got, n, "position")
        ctx.ok(len(p) == 2, "a position is a pair")
        ctx.eq(p[0], x, "x")
        ctx.eq(p[1], y, "y")
    ctx.reach("done")


def imported(ctx):
    """the same on an imported diagram with pools and message flows"""
    doc = G.big(ctx) if ctx.p("big") else G.collab(ctx)
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    parts = [p.id for p in doc.pool_nodes()]
    same_items(ctx, ids_of(dg.get_nodes()), list(doc.nodes) + parts, "all nodes")
    for t in D.NODE_TYPES + ["participant"] if ctx.p("big") else ("task", "endEvent", "participant", "subProcess"):
        want = [n.id for n in doc.order if n.exp["type"] == t] if t != "participant" else parts
        same_items(ctx, ids_of(dg.get_nodes(t)), want, "nodes of type " + t)
        same_items(ctx, list(dg.get_nodes_id_list_by_type(t)), want, "ids of type " + t)
    for p in doc.procs:
        same_items(ctx, ids_of(dg.get_nodes_list_by_process_id(p.id)),
                   [n.id for n in doc.order if n.exp["process"] == p.id], "nodes of a process")
        same_items(ctx, [f[2]["id"] for f in dg.get_flows_list_by_process_id(p.id)],
                   [f.id for f in doc.flows.values() if f.exp["process"] == p.id], "flows of a process")
    for f in list(doc.flows.values()) + doc.mflows:
        g = dg.get_flow_by_id(f.id)
        ctx.ok(g is not None, "flow not found")
        ctx.eq(g[2]["sourceRef"], f.exp["sourceRef"], "source of the flow")
    for n in doc.order:
        g = dg.get_node_by_id(n.id)
        ctx.ok(g is not None, "node not found")
        ctx.eq(g[1]["type"], n.exp["type"], "type of the node")
    ctx.reach("done")


def check_queries(ctx, dg, nodes, flows, q, what):
    """q: any text, the type asked for; nodes: [(id, type, process)], flows: [(id, process, source, target)]"""
    same_items(ctx, ids_of(dg.get_nodes()), [n[0] for n in nodes], what + "all nodes")
    want = [n[0] for n in nodes if n[1] == q]
    same_items(ctx, ids_of(dg.get_nodes(q)), want, what + "nodes of a type")
    same_items(ctx, list(dg.get_nodes_id_list_by_type(q)), want, what + "ids of a type")
    for p in dg.process_elements:
        same_items(ctx, ids_of(dg.get_nodes_list_by_process_id(p)), [n[0] for n in nodes if n[2] == p],
                   what + "nodes of a process")
        same_items(ctx, [f[2]["id"] for f in dg.get_flows_list_by_process_id(p)], [f[0] for f in flows if f[1] == p],
                   what + "flows of a process")
    for nid, t, p in nodes:
        got = dg.get_node_by_id(nid)
        ctx.ok(got is not None, what + "an existing node is not found")
        ctx.eq((got[0], got[1]["id"], got[1]["type"], got[1]["process"]), (nid, nid, t, p), what + "node")
    same_items(ctx, [f[2]["id"] for f in dg.get_flows()], [f[0] for f in flows], what + "all flows")
    for fid, p, a, b in flows:
        f = dg.get_flow_by_id(fid)
        ctx.ok(f is not None, what + "an existing flow is not found")
        ctx.eq((f[2]["id"], f[2]["process"], f[2]["sourceRef"], f[2]["targetRef"]), (fid, p, a, b), what + "flow")
    same_items(ctx, list(dg.get_nodes_positions()), [n[0] for n in nodes], what + "nodes with a position")


def history(ctx):
    """queries, changes, the same queries again"""
    dg = D.new_diagram(ctx)
    nodes, flows, gone = [], [], []
    q = ctx.text("q")
    if q == "":
        ctx.skip()

    def start():
        dg.create_new_diagram_graph()
        gone.extend([n[0] for n in nodes] + [f[0] for f in flows])
        nodes[:], flows[:] = [], []
        dg.add_process_to_diagram()
        dg.add_process_to_diagram()

    def node(key):
        pid = list(dg.process_elements)[ctx.pick(key + ".proc", 2)]
        t = ctx.choice(key + ".type", TYPES)
        nodes.append((A.simple_node(ctx, dg, pid, key, t, ctx.ident(key + ".id") if len(nodes) % 2 == 0 else None), t, pid))

    def flow():
        pid = list(dg.process_elements)[len(flows) % 2]
        a, b = nodes[-2][0], nodes[-1][0]
        flows.append((dg.add_sequence_flow_to_diagram(pid, a, b, "")[0], pid, a, b))
    start()
    for i in range(2):
        node("n%d" % i)
    if ctx.flag("flow"):
        flow()
    check_queries(ctx, dg, nodes, flows, q, "at first: ")
    for i in range(ctx.p("steps", 2)):
        k = ctx.pick("step%d" % i, 3)
        if k == 0:
            node("m%d" % i)
            ctx.reach("node")
        elif k == 1:
            if flows and flows[-1][2:] == (nodes[-2][0], nodes[-1][0]):
                ctx.skip()
            flow()
            ctx.reach("flow")
        else:
            start()
            for j in range(2):
                # ids may be those of nodes the object held before
                node("n%d" % j if ctx.flag("r%d.same" % i) else "r%d%d" % (i, j))
            ctx.reach("new")
        check_queries(ctx, dg, nodes, flows, q, "after step %d: " % i)
    for i in gone:
        if not any(i == n[0] for n in nodes):
            ctx.ok(dg.get_node_by_id(i) is None and dg.get_flow_by_id(i) is None, "something is found that is gone")


HARNESSES = [
    H("by_type", by_type, "3 (4) nodes, each of any of 6 types, the requested type is any text", {"nodes": 3},
      {"nodes": 4}, reach=["typed", "all", "match", "empty"]),
    H("by_id", by_id, "3 (5) nodes, the id is any text", {"nodes": 3}, {"nodes": 5}, reach=["match", "none"]),
    H("by_process", by_process, "3 (5) nodes in 2 processes, the process id is any text", {"nodes": 3}, {"nodes": 5},
      reach=["q0", "q1", "q2"]),
    H("flows", flows, "3 nodes, at most 2 (3) flows in 2 processes, any query", {"nodes": 3, "flows": 2},
      {"nodes": 3, "flows": 3}, reach=["match", "none"]),
    H("named", named, "6 nodes, 4 flows, 3 processes with given ids that resemble each other, each of the 6 queries with any "
      "text", reach=["node", "flow", "nodes of a process", "flows of a process", "nodes of a type", "ids of a type"]),
    H("positions", positions, "2 (3) nodes, any integer (x) and real (y) coordinates, or the reverse", {"nodes": 2}, {"nodes": 3},
      reach=["done"]),
    H("history", history, "all queries, then 1 (2) changes (a node, a flow, a new diagram with two nodes) and all queries after "
      "each", {"steps": 1}, {"steps": 2}, reach=["node", "flow", "new"]),
    H("imported", imported, "as C01 collab", {"msgs": 1}, {"msgs": 3}, reach=["done"]),
    H("big", imported, "a document of 88 nodes, sub-processes and lanes four deep, 9 pools, 42 flows (C01 big)",
      {"big": True}, reach=["done", "big"]),
]
