# coding=utf-8
"""C15: Durfee and perfect square metrics"""
from symex.api import H
from . import docgen as D
from .c14 import metrics, nodes


def counts_of(ns):
    groups = []
    for _, t in ns:
        for g in groups:
            if g[0] == t:
                g[1] += 1
                break
        else:
            groups.append([t, 1])
    return sorted([c for _, c in groups], reverse=True)


def durfee(counts):
    return max(d for d in range(len(counts) + 1) if len([c for c in counts if c >= d]) >= d)


def perfect(counts):
    return max(p for p in range(len(counts) + 1) if sum(counts[:p]) >= p * p)


def partition(ctx):
    """symbolic types: every way the nodes can share types"""
    m = metrics(ctx)
    dg, _, ns = nodes(ctx, ctx.p("nodes", 6))
    c = counts_of(ns)
    ctx.eq(m.DurfeeSquare_metric(dg), durfee(c), "Durfee square")
    ctx.eq(m.PerfectSquare_metric(dg), perfect(c), "perfect square")
    ctx.reach("durfee%d" % durfee(c))


def profile(ctx):
    """any multiset of counts over up to k types"""
    m = metrics(ctx)
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pid = dg.add_process_to_diagram()
    k = ctx.p("types", 4)
    mx = ctx.p("count", 5)
    cs = []
    types = ["endEvent", "task", "parallelGateway", "startEvent", "subProcess", "userTask"]
    for i in range(k):
        c = ctx.pick("c%d" % i, mx + 1)
        cs.append(c)
    total = 0
    for r in range(max(cs) if cs else 0):
        for i in range(k):
            if cs[i] > r:
                dg.add_flow_node_to_diagram(pid, types[i], ctx.text("n%d.name" % total))
                total += 1
    c = sorted([x for x in cs if x > 0], reverse=True)
    ctx.eq(m.DurfeeSquare_metric(dg), durfee(c), "Durfee square")
    ctx.eq(m.PerfectSquare_metric(dg), perfect(c), "perfect square")
    ctx.reach("durfee%d" % durfee(c))
    if durfee(c) != perfect(c):
        ctx.reach("differ")


#: how often each type occurs
PROFILES = [[k] * k for k in range(4, 15)] + [[k] * (k - 1) + [k - 1] for k in range(4, 15)] + [
    [k + 1] * k for k in range(4, 12)] + [[k] * (k + 2) for k in range(3, 12)] + [
    [k * k - i] + [1] * (k - 1) for k in range(2, 11) for i in range(k - 2, k + 2)] + [
    list(range(16, 0, -1)), [1] * 16, [2] * 16, [9] * 16, [3] * 16, [60], [30, 30], [50, 1, 1], [50, 2, 2, 1], [100] + [3] * 9,
    [12, 12, 12, 1, 1, 1], [5, 5, 5, 5, 4], [6, 5, 4, 3, 2, 1], [8, 7, 6, 5, 5, 4, 2, 2], [20, 10, 5, 5, 5, 3, 3, 3, 1, 1]]


def large(ctx):
    m = metrics(ctx)
    cs = PROFILES[ctx.pick("profile", len(PROFILES))]
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    pids = [dg.add_process_to_diagram(), dg.add_process_to_diagram()]
    types = [t for t, c in zip(D.NODE_TYPES[::-1], cs if ctx.flag("down") else cs[::-1]) for _ in range(c)]
    for i, t in enumerate(types):
        dg.add_flow_node_to_diagram(pids[i % 2], t, ctx.text("n%d.name" % i))
    ctx.eq(m.DurfeeSquare_metric(dg), durfee(sorted(cs, reverse=True)), "Durfee square of %s" % cs)
    ctx.eq(m.PerfectSquare_metric(dg), perfect(sorted(cs, reverse=True)), "perfect square of %s" % cs)
    ctx.reach("durfee%d" % durfee(cs))


HARNESSES = [
    H("partition", partition, "5 (7) nodes, each of any of the 16 types (symbolic): every partition of the nodes into types",
      {"nodes": 5}, {"nodes": 7}, reach=["durfee1", "durfee2"]),
    H("profile", profile, "4 types occurring 0..5 times (thorough: 5 types 0..5)", {"types": 4, "count": 5},
      {"types": 5, "count": 5}, reach=["durfee0", "durfee1", "durfee2", "durfee3", "differ"]),
    H("large", large, "%d profiles of up to 16 types and 196 nodes around the values where a square begins" % len(PROFILES), {},
      reach=["durfee%d" % i for i in range(1, 15)], quick_s=100),
]
