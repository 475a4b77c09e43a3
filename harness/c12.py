# coding=utf-8
"""C12: automatic layout terminates and gives every node its own place"""
from symex.api import H, plain, write_xml
from . import apigen as A
from . import docgen as D
from . import gens as G

KIND = ["startEvent", "exclusiveGateway", "task", "parallelGateway", "endEvent", "subProcess"]


def layout(ctx, dg):
    ctx.mod("bpmn_python.bpmn_diagram_layouter").generate_layout(dg)


def number(ctx, v, what):
    try:
        return float(plain(v) if isinstance(v, str) else v)
    except (TypeError, ValueError):
        ctx.fail("%s is no number: %r" % (what, v))


def check_places(ctx, dg, what=""):
    seen = {}
    for nid, a in dg.get_nodes():
        if "x" not in a or "y" not in a:
            ctx.fail(what + "a node has no coordinates")
        p = (number(ctx, a["x"], "x"), number(ctx, a["y"], "y"))
        ctx.ok(p[0] - p[0] == 0 and p[1] - p[1] == 0, "coordinates are finite")
        ctx.ok(p not in seen, "%stwo nodes are at the same position %s" % (what, p))
        seen[p] = 1
    return seen


def build(ctx, n, fl, kinds=KIND, names=True):
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    ids = []
    for i in range(n):
        ids.append(dg.add_flow_node_to_diagram(pid, kinds[i % len(kinds)], ctx.text("n%d.name" % i) if names else "")[0])
    for i, (a, b) in enumerate(fl):
        dg.add_sequence_flow_to_diagram(pid, ids[a], ids[b], ctx.text("f%d.name" % i) if names else "")
    return dg, ids


def acyclic(n, fl):
    left = set(range(n))
    while True:
        e = [i for i in left if not any(b == i and a in left for a, b in fl)]
        if not e:
            return not left
        left -= set(e)


def label(ctx, n, fl):
    ctx.reach("acyclic" if acyclic(n, fl) else "cyclic")
    if any(a == b for a, b in fl):
        ctx.reach("selfloop")
    if not any(all(b != i for _, b in fl) for i in range(n)):
        ctx.reach("noentry")


def rotate(ctx, fl):
    """the order in which the flows are added"""
    fl = list(fl)
    if len(fl) > 1 and ctx.flag("reversed"):
        fl.reverse()
    return fl


def graphs(ctx):
    n = ctx.p("nodes", 3)
    fl = G.pick_flows(ctx, n, ctx.p("flows", 9), ctx.p("loops", True))
    if ctx.p("orders"):
        fl = rotate(ctx, fl)
    dg, ids = build(ctx, n, fl)
    layout(ctx, dg)
    check_places(ctx, dg, "flows %s: " % (list(fl),))
    ctx.eq(len(dg.get_nodes()), n, "number of nodes")
    label(ctx, n, fl)


_dags = {}


def dag(ctx, n, m, lo=0, hi=None):
    """every set of at most m flows i -> j, i < j; numbering of the nodes forward, backward or mixed"""
    if (n, m) not in _dags:
        import itertools
        prs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        _dags[(n, m)] = [c for k in range(m + 1) for c in itertools.combinations(prs, k)]
    cs = _dags[(n, m)]
    cs = cs[lo * len(cs) // (hi or 1):(lo + 1) * len(cs) // (hi or 1)]
    c = cs[ctx.pick("dag", len(cs))]
    k = ctx.pick("numbering", 3)
    perm = [list(range(n)), list(range(n))[::-1], [(3 * i + 1) % n if n % 3 else (i + 2) % n for i in range(n)]][k]
    fl = [(perm[a], perm[b]) for a, b in c]
    return fl


def dags(ctx):
    n = ctx.p("nodes", 5)
    lo, hi = ctx.p("part", (0, 1))
    fl = rotate(ctx, dag(ctx, n, ctx.p("flows", 5), lo, hi))
    dg, ids = build(ctx, n, fl)
    layout(ctx, dg)
    check_places(ctx, dg, "flows %s: " % (fl,))
    label(ctx, n, fl)


def fan(ctx):
    """one split with k branches of length 0..2 that join again or not, possibly with a shortcut or a way back"""
    k = 2 + ctx.pick("k", ctx.p("branches", 5) - 1)
    ln = [1 + ctx.pick("len%d" % (i % 2), 2) for i in range(k)]
    fl = [(0, 1)]
    n = 2
    ends = []
    for l in ln:
        prev = 1
        for _ in range(l):
            fl.append((prev, n))
            prev = n
            n += 1
        ends.append(prev)
    mode = ctx.pick("mode", 5)
    if mode >= 1:
        for e in ends:
            fl.append((e, n))
        n += 1
    if mode == 2:
        fl.append((1, n - 1))           # shortcut
    if mode == 3:
        fl.append((n - 1, 1))           # loop back
    if mode == 4:
        fl.append((0, n - 1))
    dg, ids = build(ctx, n, fl)
    layout(ctx, dg)
    check_places(ctx, dg, "flows %s: " % (fl,))
    ctx.reach("mode%d" % mode)


def tree(d, k):
    """k-ary tree of depth d"""
    fl, level, n = [], [0], 1
    for _ in range(d):
        nxt = []
        for a in level:
            for _ in range(k):
                fl.append((a, n))
                nxt.append(n)
                n += 1
        level = nxt
    return n, fl


def lattice(w, h):
    i = lambda x, y: x * h + y
    return w * h, [(i(x, y), i(x + a, y + 1 - a)) for x in range(w) for y in range(h) for a in (0, 1)
                   if x + a < w and y + 1 - a < h]


def blocks(k, loops=()):
    """k diamonds one after the other, with ways back from a join to an earlier split"""
    fl, n, start = [], 1, [0]
    for b in range(k):
        s = n - 1
        fl += [(s, n), (s, n + 1), (n, n + 2), (n + 1, n + 2)]
        n += 3
        start.append(n - 1)
    return n, fl + [(start[a], start[b]) for a, b in loops]


def plus(*parts):
    """the parts side by side"""
    n, fl = 0, []
    for m, f in parts:
        fl += [(a + n, b + n) for a, b in f]
        n += m
    return n, fl


def turn(g):
    return g[0], [(b, a) for a, b in g[1]]


def spread(k, m, join=False):
    """k branches of m nodes each after one node"""
    fl, n = [], 1
    for i in range(k):
        fl += [(0, n)] + [(n + j, n + j + 1) for j in range(m - 1)]
        n += m
    if join:
        fl += [(m * (i + 1), n) for i in range(k)]
        n += 1
    return n, fl


LARGE = [
    (30, [(i, i + 1) for i in range(29)]), (13, [(0, i) for i in range(1, 13)]), (13, [(i, 0) for i in range(1, 13)]),
    (14, [(0, i) for i in range(1, 13)] + [(i, 13) for i in range(1, 13)]), tree(3, 2), turn(tree(3, 2)), tree(2, 4),
    lattice(3, 3), lattice(2, 6), lattice(6, 2), blocks(6), blocks(4, [(2, 1), (4, 0)]), blocks(3, [(3, 0)]),
    (7, [(i, j) for i in range(7) for j in range(i + 1, 7)]), (10, [(i, (i + 1) % 10) for i in range(10)]),
    plus((3, [(0, 1), (1, 2)]), blocks(2), (1, []), (4, [(0, 1), (1, 2), (2, 3), (3, 1)])), plus(tree(2, 2), turn(tree(2, 2))),
    spread(6, 2), spread(5, 3, True), plus(spread(4, 2), spread(4, 1, True)), (12, []), (9, [(0, 1), (1, 2), (2, 3), (3, 4), (1, 5), (5, 6), (6, 7), (7, 3), (6, 1), (3, 8), (8, 5)]),
    (8, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (0, 7), (1, 6), (2, 5)]),
]


def large(ctx):
    n, fl = LARGE[ctx.pick("shape", len(LARGE))]
    k = ctx.pick("kinds", 3)
    k = KIND[k:] + KIND[:k] if k < 2 else ["task"]
    perm = [list(range(n)), list(range(n))[::-1]][ctx.pick("numbering", 2)]
    return n, rotate(ctx, [(perm[a], perm[b]) for a, b in fl]), k


def larges(ctx):
    n, fl, kinds = large(ctx)
    dg, ids = build(ctx, n, fl, kinds)
    layout(ctx, dg)
    check_places(ctx, dg, "flows %s: " % (fl,))
    label(ctx, n, fl)


def types(ctx):
    """nodes of any types (symbolic)"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    n = ctx.p("nodes", 2)
    ids = [A.simple_node(ctx, dg, pid, "n%d" % i, ctx.choice("type%d" % i, D.NODE_TYPES)) for i in range(n)]
    fl = G.pick_flows(ctx, n, ctx.p("flows", 1), False)
    for i, (a, b) in enumerate(fl):
        dg.add_sequence_flow_to_diagram(pid, ids[a], ids[b], ctx.text("f%d.name" % i))
    layout(ctx, dg)
    check_places(ctx, dg)
    ctx.reach("done")


def imported(ctx):
    """diagrams read from XML, with pools, message flows, sub-processes and lanes"""
    gen = G.big if ctx.p("big") else [G.collab, G.nesting, G.lanes][ctx.pick("gen", 3)]
    doc = gen(ctx)
    dg = D.load(ctx, write_xml(ctx, "in.xml", G.finish(ctx, doc)))
    layout(ctx, dg)
    check_places(ctx, dg)
    ctx.reach(gen.__name__)


def twice(ctx):
    """layout of a diagram that already has a layout, after more was added"""
    n = 3
    fl = G.pick_flows(ctx, n, 2, False)
    dg, ids = build(ctx, n, fl)
    layout(ctx, dg)
    first = {plain(nid): (a["x"], a["y"]) for nid, a in dg.get_nodes()}
    if ctx.flag("add"):
        pid = list(dg.process_elements)[0]
        new, _ = dg.add_task_to_diagram(pid, "")
        dg.add_sequence_flow_to_diagram(pid, ids[ctx.pick("from", n)], new, "")
        layout(ctx, dg)
        ctx.reach("added")
    else:
        layout(ctx, dg)
        for nid, a in dg.get_nodes():
            ctx.eq((a["x"], a["y"]), first[plain(nid)], "place after a second layout")
        ctx.reach("again")
    check_places(ctx, dg)


HARNESSES = [
    H("graphs3", graphs, "3 nodes, every set of flows incl. self loops, two flow orders", {"nodes": 3, "orders": True},
      reach=["acyclic", "cyclic", "selfloop", "noentry"], quick_s=100),
    H("graphs4", graphs, "4 nodes, every set of flows (one per pair), no self loops", {"nodes": 4, "flows": 6,
      "loops": False}, {"nodes": 4, "flows": 10, "loops": True}, reach=["acyclic", "cyclic", "noentry"], quick_s=100),
    H("graphs5", graphs, "5 nodes, every set of at most 6 flows", {"nodes": 5, "flows": 6, "loops": False},
      reach=["acyclic", "cyclic"], only="thorough", thorough_s=850),
] + [
    H("dags5_%d" % i, dags, "5 nodes, every set of at most 6 (10) forward flows, 3 numberings, 2 flow orders", {"nodes": 5,
      "flows": 6, "part": (i, 2)}, {"nodes": 5, "flows": 10, "part": (i, 2)}, reach=["acyclic"], quick_s=100)
    for i in range(2)
] + [
    H("dags6_%d" % i, dags, "6 nodes, every set of at most 7 forward flows", {"nodes": 6, "flows": 7, "part": (i, 5)},
      reach=["acyclic"], only="thorough", thorough_s=850) for i in range(5)
] + [
    H("fan", fan, "a split with 2..5 (7) branches of length 1..2, open, joined, with a shortcut or a loop", {"branches": 5},
      {"branches": 7}, reach=["mode%d" % i for i in range(5)]),
    H("large", larges, "%d larger graphs (up to 30 nodes: chains, stars, trees, lattices, blocks with loops, several "
      "components), 3 assignments of types, 2 numberings, 2 flow orders" % len(LARGE), reach=["acyclic", "cyclic", "noentry"],
      quick_s=100),
    H("types", types, "two nodes of any types (symbolic), with or without a flow", {"nodes": 2, "flows": 1}, {"nodes": 3,
      "flows": 2}, reach=["done"], quick_s=100),
    H("imported", imported, "diagrams read from XML: pools, message flows, sub-processes, lanes", {"small": True},
      reach=["collab", "nesting", "lanes"], quick_s=100),
    H("big", imported, "a document of 88 nodes, sub-processes and lanes four deep, 9 pools, 42 flows (C01 big)",
      {"big": True}, reach=["big"]),
    H("twice", twice, "layout repeated, or after a node was added; 3 nodes, at most 2 flows", {}, reach=["again", "added"]),
]
