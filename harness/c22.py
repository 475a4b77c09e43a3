# coding=utf-8
"""C22: a process taken from a spreadsheet survives layout, XML export and XML import"""
from symex.api import H, get, same_items, write_csv
from . import c07, c10
from . import csvgen as C
from . import docgen as D


def cond_of(f):
    return c10.cond_of(f)


def convert(ctx, s, rows, conds):
    dg = D.new_diagram(ctx)
    dg.load_diagram_from_csv_file(write_csv(ctx, "in.csv", rows))
    ctx.mod("bpmn_python.bpmn_diagram_layouter").generate_layout(dg)
    for i in range(ctx.p("trips", 1)):
        dg = D.load(ctx, D.reexport(ctx, dg, "out%d.bpmn" % i))
    c10.check(ctx, dg, s, conds)
    c07.invariant(ctx, dg)
    ctx.eq(len(dg.process_elements), 1, "number of processes")
    pid, p = list(dg.process_elements.items())[0]
    same_items(ctx, get(ctx, p, "node_ids", "process"), list(dg.diagram_graph.nodes()), "nodes of the process")
    for n, a in dg.diagram_graph.nodes(data=True):
        ctx.eq(a["process"], pid, "process of a node")
        for k in D.DI:
            float(get(ctx, a, k, "drawing of a node"))
    ctx.reach("done")


def texts(ctx):
    k = 1 + ctx.pick("rows", ctx.p("rows", 3))
    kinds = ["subProcess" if ctx.flag("sub%d" % i) else "task" for i in range(k - 1)] + ["end"]
    s = C.Sheet([C.n("r%d" % i, x) for i, x in enumerate(kinds)])
    convert(ctx, s, C.cells(ctx, s, {}, "text"), {})


def shapes(ctx):
    s = C.Sheet(C.pick_shape(ctx, getattr(C, ctx.p("table")) if ctx.p("table") else dict(C.JOINED, **C.OTHER)), ctx.flag("short"))
    conds = C.conditions(ctx, s, ctx.p("free", 1))
    convert(ctx, s, C.cells(ctx, s, conds, ctx.p("names")), conds)


def generated(ctx):
    """every combination of branches"""
    s = C.Sheet(C.generated(ctx, ctx.p("count"), ctx.p("inner"), True, ctx.p("kinds"), True), True)
    conds = C.conditions(ctx, s, -2)
    convert(ctx, s, C.cells(ctx, s, conds, None), conds)


HARNESSES = [
    H("blocks", generated, "every process of a split with 2 branches, each one of: a task, two tasks, an end event (after a "
      "task), empty, one of them a split with two such branches", {"count": 2, "inner": (1, 0), "kinds": [
          "n", "nn", "e", "ne"]}, {"inner": (1, 1)}, reach=["done"], quick_s=150),
    H("three_blocks", generated, "the same with 3 branches, a split (in the second of them)", {"count": 3, "inner": None},
      {"inner": (0, 1, 0)}, reach=["done"], quick_s=100),
    H("texts", texts, "start event and up to 3 (5) rows in a line, any names", {"rows": 3}, {"rows": 5}, reach=["done"]),
    H("shapes", shapes, "%d processes with splits, the conditions of the first (every) split any text" %
      (len(C.JOINED) + len(C.OTHER)), {}, {"free": 9, "names": "text", "trips": 2}, reach=["done"], quick_s=240),
    H("long", shapes, "%d shapes with more than 9 rows or 3 branches" % len(C.LONG), {"table": "LONG"}, {"names": "text"},
      reach=["done"], quick_s=100),
    H("big", shapes, "%d large sheets: 104 rows, 26 branches, 6 nested splits, 12 splits one after the other; any conditions"
      % len(C.BIG), {"table": "BIG", "free": -1}, reach=["done"], quick_s=100),
]
