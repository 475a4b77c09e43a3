# coding=utf-8
"""C02: export followed by import preserves the process model"""
from symex.api import H, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G


def check(ctx, dg, doc, what):
    D.check_nodes(ctx, dg, doc, what=what)
    D.check_flows(ctx, dg, doc, what=what, exported=True)
    D.check_processes(ctx, dg, doc, what=what)
    D.check_diagram(ctx, dg, doc, what=what)


def roundtrip(gen, again=False, **kw):
    def fn(ctx):
        doc = gen(ctx)
        path = write_xml(ctx, "in.xml", G.finish(ctx, doc, **kw))
        dg = D.load(ctx, path)
        dg2 = D.load(ctx, D.reexport(ctx, dg))
        check(ctx, dg2, doc, "after round trip: ")
        D.same_order(ctx, dg, dg2, "after round trip: ")
        if again or ctx.p("again"):
            dg3 = D.load(ctx, D.reexport(ctx, dg2, "out2.xml"))
            check(ctx, dg3, doc, "after second round trip: ")
        ctx.reach("done")
    return fn


API_TYPES = ["task", "subProcess", "startEvent", "endEvent", "exclusiveGateway", "inclusiveGateway",
             "parallelGateway"]


def built(ctx):
    """a diagram made with the editing methods"""
    doc = D.Doc(ctx)
    dg = D.new_diagram(ctx)
    dname = ctx.text("dname")
    dg.create_new_diagram_graph(diagram_name=dname)
    pname = ctx.text("p.name")
    pt = ctx.text("p.type")
    closed, execu = ctx.flag("closed"), ctx.flag("exec")
    pid = dg.add_process_to_diagram(process_name=pname, process_is_closed=closed, process_is_executable=execu,
                                    process_type=pt)
    typ = API_TYPES[ctx.pick("type", len(API_TYPES))]
    name = ctx.text("n.name")
    if typ == "task":
        n, _ = dg.add_task_to_diagram(pid, task_name=name)
    elif typ == "subProcess":
        n, _ = dg.add_subprocess_to_diagram(pid, subprocess_name=name, is_expanded=ctx.flag("exp"),
                                            triggered_by_event=ctx.flag("trig"))
    elif typ == "startEvent":
        n, _ = dg.add_start_event_to_diagram(pid, start_event_name=name,
                                             start_event_definition=[None, "message", "timer", "conditional", "signal",
                                                                     "escalation"][ctx.pick("def", 6)],
                                             parallel_multiple=ctx.flag("pm"), is_interrupting=ctx.flag("ii"))
    elif typ == "endEvent":
        n, _ = dg.add_end_event_to_diagram(pid, end_event_name=name,
                                           end_event_definition=[None, "terminate", "escalation", "message",
                                                                 "compensate", "signal", "error"][ctx.pick("def", 7)])
    else:
        d = ctx.choice("dir", ["Unspecified", "Converging", "Diverging", "Mixed"])
        if typ == "exclusiveGateway":
            n, _ = dg.add_exclusive_gateway_to_diagram(pid, gateway_name=name, gateway_direction=d,
                                                       default=ctx.text("dflt") if ctx.flag("hasd") else None)
        elif typ == "inclusiveGateway":
            n, _ = dg.add_inclusive_gateway_to_diagram(pid, gateway_name=name, gateway_direction=d,
                                                       default=ctx.text("dflt") if ctx.flag("hasd") else None)
        else:
            n, _ = dg.add_parallel_gateway_to_diagram(pid, gateway_name=name, gateway_direction=d)
    t, _ = dg.add_task_to_diagram(pid, task_name=ctx.text("t.name"))
    fname = ctx.text("f.name")
    rev = ctx.flag("rev")
    f, _ = dg.add_sequence_flow_to_diagram(pid, t if rev else n, n if rev else t, fname)
    if typ == "subProcess" and ctx.flag("inner"):
        dg.add_task_to_diagram(n, task_name=ctx.text("inner.name"))
        ctx.reach("inner")
    before = snapshot(dg)
    dg2 = D.load(ctx, D.reexport(ctx, dg))
    after = snapshot(dg2)
    ctx.eq(after, before, "built diagram after round trip")
    ctx.eq(dg2.diagram_attributes["name"], dname, "diagram name")
    pe = dg2.process_elements
    from symex.api import get
    p = get(ctx, pe, pid, "process")
    ctx.eq(p["name"], pname, "process name")
    ctx.eq(p["processType"], pt, "process type")
    ctx.eq(p["isClosed"], "true" if closed else "false", "isClosed")
    ctx.eq(p["isExecutable"], "true" if execu else "false", "isExecutable")
    ctx.reach("done")


def built_flows(ctx):
    """several processes, nodes and flows made with the editing methods"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph(ctx.text("dname"))
    pids = [dg.add_process_to_diagram(ctx.text("p%d.name" % i)) for i in range(1 + ctx.pick("nproc", 2))]
    n = ctx.p("nodes", 3)
    kinds = ["startEvent", "exclusiveGateway", "task", "endEvent"]
    which = pids[-1]
    ids = [A.add(ctx, dg, which, "n%d" % i, kinds[i % 4], full=False)[0] for i in range(n)]
    A.add(ctx, dg, pids[0], "z", "subProcess", full=False)
    fl = list(G.pick_flows(ctx, n, ctx.p("flows", 3)))
    for i, (a, b) in enumerate(fl):
        dg.add_sequence_flow_to_diagram(which, ids[a], ids[b], ctx.text("f%d.name" % i))
    if ctx.flag("laid out"):
        ctx.mod("bpmn_python.bpmn_diagram_layouter").generate_layout(dg)
    before = snapshot(dg)
    names = {p: dg.process_elements[p]["name"] for p in pids}
    for i in range(2):
        dg = D.load(ctx, D.reexport(ctx, dg, "out%d.xml" % i))
        ctx.eq(snapshot(dg), before, "built diagram after %d round trips" % (i + 1))
        ctx.eq({p: a["name"] for p, a in dg.process_elements.items()}, names, "processes")
    ctx.reach("done")


def snapshot(dg):
    nodes = {}
    for nid, a in D.graph_nodes(dg).items():
        e = {k: a[k] for k in ("id", "type", "node_name", "process")}
        for k, d in D.ATTRS[a["type"]]:
            e[k] = a.get(k, d)
        e["incoming"] = list(a["incoming"])
        e["outgoing"] = list(a["outgoing"])
        e["defs"] = [(d["definition_type"], d["id"]) for d in a.get("event_definitions", [])]
        nodes[nid] = e
    flows = {}
    for u, v, a in D.graph_edges(dg):
        flows[a["id"]] = {k: a[k] for k in ("id", "name", "process", "sourceRef", "targetRef")}
    reg = {k: dict(v) for k, v in dg.sequence_flows.items()}
    return {"nodes": nodes, "flows": flows, "registry": reg}


HARNESSES = [
    H("node_attrs", roundtrip(G.node_attrs), "as C01 node_attrs", {"prefixes": 1}, {"prefixes": 3, "again": True},
      reach=["done"] + D.NODE_TYPES),
    H("event_defs", roundtrip(G.event_defs), "as C01 event_defs", {"defs": 2}, {"defs": 3, "again": True},
      reach=["done", "defs2"]),
    H("process_attrs", roundtrip(G.process_attrs), "as C01 process_attrs", {"dname": True, "prefixes": 1},
      {"prefixes": 3, "again": True}, reach=["done", "procs2"]),
    H("flows", roundtrip(G.flows), "as C01 flows", {"nodes": 3, "flows": 2}, {"nodes": 4, "flows": 3},
      reach=["done", "flows2"]),
    H("flow_attrs", roundtrip(G.flow_attrs, again=True), "as C01 flow_attrs", reach=["done", "condition"]),
    H("nesting", roundtrip(G.nesting, again=True), "as C01 nesting", {"depth": 2}, {"depth": 3},
      reach=["done", "depth2"]),
    H("built", built, "a diagram built with the editing methods: 1 process, 1 node of each kind the methods offer with "
      "all options, a task, a flow in either direction, optionally a task inside the sub-process",
      reach=["done", "inner"]),
    H("mixed", roundtrip(G.noise), "the document with every construct and ignorable content", reach=["done"]),
    H("built_flows", built_flows, "up to 2 processes, 3 (4) nodes, every set of at most 3 flows made with the editing "
      "methods, laid out or not", {"nodes": 3, "flows": 3}, {"nodes": 4}, reach=["done"]),
    H("big", roundtrip(G.big), "one document with more of everything: 88 nodes of "
      "all types with all attributes and event definitions, 4 levels of sub-processes and of lanes, 9 pools, 40 flows with up "
      "to 24 waypoints", {"again": True},
      reach=["done", "big"]),
    H("undrawn", roundtrip(G.undrawn), "the document with every construct and a data object, 11 choices of what has "
      "not been drawn", reach=["done", "undrawn node", "undrawn flow", "undrawn lane"]),
    H("elsewhere", roundtrip(G.elsewhere), "8 nodes in 2 processes and 2 nested sub-processes, a flow between any two of the "
      "containers, written in any of them", reach=["done", "crossing", "local"]),
    H("orders", roundtrip(G.orders), "the document with every construct, its elements in 6 orders", reach=["done"] + D.ORDERS),
    H("foreign", roundtrip(G.foreign), "the document with every construct and standard BPMN content the library does not "
      "represent", reach=["done"] + D.FOREIGN),
]
