# coding=utf-8
"""C17: longest path metrics"""
from symex.api import H, plain
from . import apigen as A
from . import docgen as D
from . import gens as G
from .c12 import LARGE as L


def metrics(ctx):
    return ctx.mod("bpmn_python.diagram_layout_metrics")


def build(ctx, n, fl, types, rev=False):
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    ns = []
    for i in range(n):
        t = ctx.choice("type%d" % i, types) if len(types) > 1 else types[0]
        ns.append((A.simple_node(ctx, dg, pid, "n%d" % i, t), t))
    for a, b in (reversed(fl) if rev else fl):
        dg.add_sequence_flow_to_diagram(pid, ns[a][0], ns[b][0], "")
    return dg, ns


def simple_paths(n, fl):
    """all simple paths from entries"""
    succ = {i: [b for a, b in fl if a == i] for i in range(n)}
    ent = [i for i in range(n) if not any(b == i for _, b in fl)]
    out = []

    def go(p):
        out.append(p)
        for b in succ[p[-1]]:
            if b not in p:
                go(p + [b])
    for e in ent:
        go([e])
    return out, succ


def index_of(ctx, ns, got, what):
    """indices of the returned nodes, which have to be nodes of the diagram"""
    idx = []
    for g in got:
        hit = [i for i, (nid, _) in enumerate(ns) if nid == g[0]]
        if len(hit) != 1:
            ctx.fail(what + ": returned something that is no node of the diagram")
        idx.append(hit[0])
    return idx


def edges(ctx):
    n = ctx.p("nodes", 3)
    return n, list(G.pick_flows(ctx, n, ctx.p("flows", 99), ctx.p("loops", True)))


def longest(ctx):
    n, fl = edges(ctx)
    dg, ns = build(ctx, n, fl, ["task"], ctx.p("orders") and ctx.flag("reversed"))
    path, ln = metrics(ctx).compute_longest_path(dg)
    paths, succ = simple_paths(n, fl)
    full = [p for p in paths if not succ[p[-1]]]
    best = max([len(p) for p in full] or [0])
    ctx.eq(ln, best, "length of the longest path over %s" % (fl,))
    ctx.eq(len(path), ln, "length returned with the path")
    idx = index_of(ctx, ns, path, "longest path")
    ctx.ok(best == 0 or idx in full, "the result %s is a path from an entry to an exit, flows %s" % (idx, fl))
    for i, g in zip(idx, path):
        ctx.eq(g[1]["node_name"], ctx.text("n%d.name" % i), "attributes of the nodes of the path")
    ctx.reach("none" if best == 0 else "path%d" % best)


def tasks(ctx):
    n, fl = edges(ctx)
    dg, ns = build(ctx, n, fl, ["task", "subProcess", "exclusiveGateway"], ctx.p("orders") and ctx.flag("reversed"))
    path, ln = metrics(ctx).compute_longest_path_tasks(dg)
    act = [t == "task" or t == "subProcess" for _, t in ns]
    paths, _ = simple_paths(n, fl)
    sel = [[i for i in p if act[i]] for p in paths]
    best = max([len(p) for p in sel] or [0])
    ctx.eq(ln, best, "largest number of activities on a path over %s, activities %s" % (fl, act))
    ctx.eq(len(path), ln, "length returned with the path")
    idx = index_of(ctx, ns, path, "activities")
    ctx.ok(idx in sel or best == 0, "the result %s holds the activities of a path, flows %s" % (idx, fl))
    ctx.reach("best%d" % best)


def which_types(ctx):
    """which of the node types count as activities"""
    dg, ns = build(ctx, 2, [(0, 1)], D.NODE_TYPES)
    path, ln = metrics(ctx).compute_longest_path_tasks(dg)
    want = [nid for nid, t in ns if t == "task" or t == "subProcess"]
    ctx.eq(ln, len(want), "number of activities")
    ctx.eq([g[0] for g in path], want, "activities of the path")
    ctx.reach("act%d" % len(want))


LARGE = [g for g in L if len(simple_paths(*g)[0]) < 300] + [(80, [(i, i + 1) for i in range(79)] + [(0, 70)]),
    # long loops with a way in and a way out
    (16, [(i, i + 1) for i in range(15)] + [(14, 1)]),
    (28, [(i, i + 1) for i in range(27)] + [(25, 2), (5, 20)]),
    (40, [(i, i + 1) for i in range(39)] + [(37, 1)])]
SHAPES = [
    # an early split whose short branch comes first; two entries; loops; a join far behind
    (6, [(0, 1), (0, 2), (2, 3), (3, 4), (1, 4), (4, 5)]),
    (6, [(0, 2), (1, 2), (2, 3), (3, 4), (4, 2), (3, 5)]),
    (7, [(0, 1), (1, 2), (2, 3), (3, 1), (2, 4), (4, 5), (5, 6), (0, 6)]),
    (6, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (4, 1)]),
    (7, [(0, 1), (0, 2), (0, 3), (1, 4), (2, 5), (5, 4), (3, 6), (6, 5)]),
    (6, [(0, 5), (5, 4), (4, 3), (3, 2), (2, 1)]),
]


def shapes(ctx):
    table = LARGE if ctx.p("large") else SHAPES
    n, fl = table[ctx.pick("shape", len(table))]
    # the numbering of the nodes and the order of the flows vary
    perm = [(lambda i: i), (lambda i: n - 1 - i), (lambda i: (i * 11 + 2) % n if n % 11 else i)][ctx.pick("perm", 3)]
    fl = [(perm(a), perm(b)) for a, b in fl]
    r = ctx.pick("rot", 1 if ctx.p("large") else 3)
    fl = fl[r:] + fl[:r]
    if ctx.flag("rev"):
        fl = fl[::-1]
    acts = ctx.pick("acts", 2 if ctx.p("large") else 4)
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    ns = []
    for i in range(n):
        t = "task" if acts == 0 or i % (acts + 1) != 0 else "exclusiveGateway"
        ns.append((A.simple_node(ctx, dg, pid, "n%d" % i, t), t))
    for a, b in fl:
        dg.add_sequence_flow_to_diagram(pid, ns[a][0], ns[b][0], "")
    paths, succ = simple_paths(n, fl)
    full = [p for p in paths if not succ[p[-1]]]
    best = max([len(p) for p in full] or [0])
    m = metrics(ctx)
    path, ln = m.compute_longest_path(dg)
    ctx.eq(ln, best, "length of the longest path over %s" % (fl,))
    idx = index_of(ctx, ns, path, "longest path")
    ctx.ok(best == 0 or idx in full, "the result is a path from an entry to an exit")
    sel = [[i for i in p if ns[i][1] == "task"] for p in paths]
    bt = max([len(p) for p in sel] or [0])
    path, ln = m.compute_longest_path_tasks(dg)
    ctx.eq(ln, bt, "largest number of activities on a path over %s" % (fl,))
    ctx.ok(bt == 0 or index_of(ctx, ns, path, "activities") in sel, "activities of a path")
    ctx.reach("done")


HARNESSES = [
    H("longest3", longest, "3 nodes, every set of flows incl. self loops (one per pair of nodes)", {"nodes": 3,
      "orders": True}, reach=["none", "path1", "path2", "path3"]),
    H("longest4", longest, "4 nodes, every set of at most 4 (any number of) flows without self loops",
      {"nodes": 4, "flows": 4, "loops": False}, {"nodes": 4, "flows": 6, "loops": False, "orders": True},
      reach=["path1", "path4"], quick_s=100),
    H("tasks3", tasks, "3 nodes, every set of flows, every choice of activities", {"nodes": 3, "loops": False},
      {"nodes": 3, "loops": True, "orders": True}, reach=["best0", "best1", "best3"], quick_s=100),
    H("tasks4", tasks, "4 nodes, every set of flows, every choice of activities", {"nodes": 4, "loops": False, "flows": 6},
      reach=["best0", "best4"], only="thorough", thorough_s=850),
    H("which_types", which_types, "two nodes of any two types", {}, reach=["act0", "act1", "act2"]),
    H("shapes", shapes, "6 larger graphs with up to 8 flows, 3 numberings, 6 flow orders, 4 patterns of activities", {},
      reach=["done"], quick_s=100),
    H("large", shapes, "%d graphs of up to 80 nodes with up to 300 paths, loops of up to 37 nodes: chains, stars, trees, lattices, blocks with loops"
      % len(LARGE), {"large": True}, reach=["done"], quick_s=100),
]
