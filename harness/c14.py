# coding=utf-8
"""C14: counting metrics equal the true counts"""
from symex.api import H, get, same_items, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G

ACT = ["task", "subProcess"]
EV = ["startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent"]
GW = ["exclusiveGateway", "inclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway"]
ALL = D.NODE_TYPES

SUMS = {
    "all_activities_count": ACT, "all_gateways_count": GW, "all_events_count": EV,
    "all_control_flow_elements_count": GW + EV, "TNSE_metric": ["startEvent"],
    "TNIE_metric": ["intermediateCatchEvent", "intermediateThrowEvent"], "TNEE_metric": ["endEvent"], "TNE_metric": EV,
    "NOA_metric": ACT, "NOAC_metric": ACT + GW + EV, "NOAJS_metric": ACT + GW, "NumberOfNodes_metric": ACT + GW + EV,
}


def metrics(ctx):
    return ctx.mod("bpmn_python.bpmn_diagram_metrics")


def nodes(ctx, n, types=ALL, pid=None):
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    out = []
    for i in range(n):
        t = ctx.choice("type%d" % i, types)
        out.append((A.simple_node(ctx, dg, pid, "n%d" % i, t), t))
    return dg, pid, out


def count(ns, types):
    return len([1 for _, t in ns if any(t == x for x in types)])


def sums(ctx):
    m = metrics(ctx)
    dg, _, ns = nodes(ctx, ctx.pick("n", ctx.p("nodes", 4) + 1))
    names = sorted(SUMS)
    nm = names[ctx.pick("metric", len(names))]
    ctx.eq(getattr(m, nm)(dg), count(ns, SUMS[nm]), nm)
    ctx.reach(nm)


def per_type(ctx):
    m = metrics(ctx)
    dg, _, ns = nodes(ctx, ctx.p("nodes", 3))
    k = ctx.pick("what", 5)
    if k == 0:
        got, types = m.get_gateway_counts(dg), GW
    elif k == 1:
        got, types = m.get_events_counts(dg), EV
    elif k == 2:
        got, types = m.get_activities_counts(dg), ACT
    if k < 3:
        same_items(ctx, list(got.keys()), types, "keys of the counts")
        for t in types:
            ctx.eq(get(ctx, got, t, "count"), count(ns, [t]), "number of " + t)
    elif k == 3:
        ctx.eq(m.GatewayHeterogenity_metric(dg), len([t for t in GW if count(ns, [t]) > 0]), "heterogeneity")
    else:
        same_items(ctx, [g[0] for g in m.get_all_gateways(dg)], [n for n, t in ns if any(t == x for x in GW)], "gateways")
    ctx.reach("what%d" % k)


def nodes_count(ctx):
    m = metrics(ctx)
    dg, _, ns = nodes(ctx, ctx.p("nodes", 4))
    if ctx.flag("typed"):
        q = ctx.text("q")
        if q == "":
            ctx.skip()
        ctx.eq(m.get_nodes_count(dg, node_type=q), count(ns, [q]), "number of nodes of a type")
        ctx.reach("typed")
    else:
        ctx.eq(m.get_nodes_count(dg), len(ns), "number of nodes")


def many(ctx):
    """larger numbers of one type among others"""
    m = metrics(ctx)
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    ns = []
    t0, t1 = ALL[ctx.pick("t0", len(ALL))], ALL[ctx.pick("t1", len(ALL))]
    for t, c in ((t0, ctx.pick("c0", ctx.p("count", 4) + 1)), (t1, ctx.pick("c1", 2))):
        for i in range(c):
            ns.append((A.simple_node(ctx, dg, pid, "n%d" % len(ns), t), t))
    for nm, types in SUMS.items():
        ctx.eq(getattr(m, nm)(dg), count(ns, types), nm)
    ctx.eq(m.GatewayHeterogenity_metric(dg), len([t for t in GW if count(ns, [t]) > 0]), "heterogeneity")
    ctx.reach("done")


def arcs(ctx):
    m = metrics(ctx)
    n = ctx.pick("n", ctx.p("nodes", 3) + 1)
    dg, pid, ns = nodes(ctx, n, ["task", "exclusiveGateway", "complexGateway"])
    fl = G.pick_flows(ctx, n, ctx.p("flows", 3)) if n else ()
    for i, (a, b) in enumerate(fl):
        dg.add_sequence_flow_to_diagram(pid, ns[a][0], ns[b][0], ctx.text("f%d.name" % i))
    if ctx.flag("degree"):
        gs = [i for i in range(n) if any(ns[i][1] == g for g in GW)]
        deg = sum((a == i) + (b == i) for i in gs for a, b in fl)
        want = float(deg) / len(gs) if gs else 0.0
        ctx.ok(abs(m.AverageGatewayDegree_metric(dg) - want) < 1e-9, "average gateway degree")
        ctx.reach("degree" if gs else "nogateway")
    else:
        want = float(len(fl)) / n if n else 0.0
        ctx.ok(abs(m.CoefficientOfNetworkComplexity_metric(dg) - want) < 1e-9, "coefficient of network complexity")
        ctx.reach("cnc" if n else "empty")


def all_of(ctx, dg, ns, fl=None):
    """every counting metric; ns: [(id, type)], fl: [(source, target)]"""
    m = metrics(ctx)
    for nm, types in SUMS.items():
        ctx.eq(getattr(m, nm)(dg), count(ns, types), nm)
    for got, types in ((m.get_gateway_counts(dg), GW), (m.get_events_counts(dg), EV), (m.get_activities_counts(dg), ACT)):
        for t in types:
            ctx.eq(get(ctx, got, t, "count"), count(ns, [t]), "number of " + t)
    ctx.eq(m.GatewayHeterogenity_metric(dg), len([t for t in GW if count(ns, [t]) > 0]), "heterogeneity")
    gs = [n for n, t in ns if any(t == x for x in GW)]
    same_items(ctx, [g[0] for g in m.get_all_gateways(dg)], gs, "gateways")
    if fl is not None:
        deg = sum((a == i) + (b == i) for i in gs for a, b in fl)
        ctx.ok(abs(m.AverageGatewayDegree_metric(dg) - (float(deg) / len(gs) if gs else 0.0)) < 1e-9, "average gateway degree")
        ctx.ok(abs(m.CoefficientOfNetworkComplexity_metric(dg) - (float(len(fl)) / len(ns) if ns else 0.0)) < 1e-9,
               "coefficient of network complexity")


#: how often each type occurs
PROFILES = [[12] * 16, list(range(16)), list(range(15, -1, -1)), [0, 0, 11, 0] * 4, [25] + [0] * 15, [0] * 6 + [30] + [0] * 9,
            [1] * 16, [2, 0, 13] * 5 + [1]]


def large(ctx):
    """many nodes in several processes, many flows"""
    from .c12 import LARGE
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pids = [dg.add_process_to_diagram() for _ in range(3)]
    ns, fl = [], []
    k = ctx.pick("what", len(PROFILES) + len(LARGE))
    if k < len(PROFILES):
        types = [t for t, c in zip(ALL, PROFILES[k]) for _ in range(c)]
        if ctx.flag("shuffled"):
            types = types[::2] + types[1::2][::-1]
        pairs = [(i, i + 1) for i in range(0, len(types) - 1, 1 + ctx.pick("step", 2))]
    else:
        n, pairs = LARGE[k - len(PROFILES)]
        off = ctx.pick("types", 4)
        types = [(GW + ["task"])[(i + off) % 6] if off < 3 else ALL[(5 * i) % 16] for i in range(n)]
    for i, t in enumerate(types):
        ns.append((A.simple_node(ctx, dg, pids[i % 3], "n%d" % i, t), t))
    for i, (a, b) in enumerate(pairs):
        dg.add_sequence_flow_to_diagram(pids[i % 3], ns[a][0], ns[b][0], ctx.text("f%d.name" % i))
        fl.append((ns[a][0], ns[b][0]))
    all_of(ctx, dg, ns, fl)
    ctx.reach("done")


def imported(ctx):
    """metrics of diagrams read from XML"""
    gen = G.big if ctx.p("big") else [G.collab, G.nesting, G.lanes][ctx.pick("gen", 3)]
    doc = gen(ctx)
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    ns = [(n.id, n.exp["type"]) for n in doc.nodes.values()]
    ns += [(p.id, "participant") for p in doc.pool_nodes()]
    all_of(ctx, dg, ns, [f[:2] for f in dg.get_flows()])
    ctx.reach(gen.__name__)


HARNESSES = [
    H("sums", sums, "0..2 (4) nodes, each of any of the 16 types (symbolic), 12 metrics", {"nodes": 2}, {"nodes": 4},
      reach=sorted(SUMS)),
    H("per_type", per_type, "3 (4) nodes of any type: counts per type, heterogeneity, list of gateways", {"nodes": 3},
      {"nodes": 4}, reach=["what%d" % i for i in range(5)]),
    H("nodes_count", nodes_count, "4 nodes of any type, the requested type is any text", {"nodes": 4}, {"nodes": 6},
      reach=["typed"]),
    H("many", many, "0..4 (7) nodes of one type and 0..1 of another, all pairs of types", {"count": 4}, {"count": 7},
      reach=["done"]),
    H("arcs", arcs, "0..3 (4) nodes, every set of at most 3 flows (one per pair of nodes), gateways or not",
      {"nodes": 3, "flows": 3}, {"nodes": 4, "flows": 3}, reach=["degree", "nogateway", "cnc", "empty"]),
    H("large", large, "%d larger diagrams: up to 192 nodes of 16 types in 3 processes, up to 191 flows, any names" % 28, {},
      reach=["done"], quick_s=100),
    H("imported", imported, "diagrams read from XML: pools, sub-processes, lanes", {}, reach=["collab", "nesting", "lanes"]),
    H("big", imported, "a document of 88 nodes, sub-processes and lanes four deep, 9 pools, 42 flows (C01 big)",
      {"big": True}, reach=["big"]),
]
